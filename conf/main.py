"""Entry point of the run-time contract check (runs under /opt/venv python, cwd = scratch copy).
   main.py PROP --out FILE [--seed N --tier T --budget S] | --one FILE"""
import sys, os, json, argparse, importlib
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
sys.path.insert(0, os.getcwd())

# the package without its __init__ (which imports every extension)
import types
_pkg = types.ModuleType("pmesh"); _pkg.__path__ = [os.path.join(os.getcwd(), "pmesh")]; _pkg.__file__ = os.path.join(os.getcwd(), "pmesh", "__init__.py")
sys.modules["pmesh"] = _pkg

MODULES = dict(
    C01=["domain_cases"], C02=["domain_cases"], C03=["domain_cases"], C04=["domain_cases"], C05=["domain_cases"],
    C20=["domain_cases", "pm_cases"],
    C14=["pm_cases"], C15=["pm_cases"], C16=["pm_cases"], C17=["pm_cases"], C18=["pm_cases"], C19=["pm_cases"], C21=["pm_cases"], C22=["pm_cases"],
    C11=["noise_cases"], C12=["noise_cases", "pm_cases"], C13=["noise_cases"],
    C06=["window_cases"], C07=["window_cases"], C08=["window_cases"], C09=["window_cases"], C10=["window_cases"],
)

def cases(prop):
    out = []
    for m in MODULES[prop]:
        mod = importlib.import_module("conf." + m)
        out += mod.CASES.get(prop, [])
    return out

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop"); ap.add_argument("--out"); ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--tier", default="quick"); ap.add_argument("--budget", type=float, default=60)
    ap.add_argument("--one")
    a = ap.parse_args()
    from conf import lib
    cs = cases(a.prop)
    if a.one:
        f = json.load(open(a.one))
        res = []
        for q in f if isinstance(f, list) else [f]:
            if isinstance(q["params"], dict) and "__search__" in q["params"]:
                # a failed obligation without concrete input: search the cases of the property (deeper generator, other seed)
                k = q["params"]["__search__"]
                sel = [c for c in cs if q["case"] == "*" or c.name == q["case"]]
                r = lib.run_cases(sel, k.get("seed", 1001), "thorough", k.get("budget", 60))
                f1 = [x for x in r["failures"] if x.get("kind") == "violation"]
                if f1: res.append(dict(case=f1[0]["case"], params=f1[0]["params"], message=f1[0]["message"]))
                else: res.append(dict(case=q["case"], message=None))
                continue
            c = [c for c in cs if c.name == q["case"]]
            msg = lib.check_one(c[0], q["params"]) if c else "no such case"
            res.append(dict(case=q["case"], message=msg))
        if a.out: json.dump(res, open(a.out, "w"))
        else: print(json.dumps(res, indent=1))
        sys.exit(1 if any(r["message"] for r in res) else 0)
    r = lib.run_cases(cs, a.seed, a.tier, a.budget, current=a.out + ".cur" if a.out else None)
    if a.out: json.dump(r, open(a.out, "w"))
    else: print(json.dumps(r, indent=1)[:6000])

if __name__ == "__main__":
    main()

"""python3-vt -m pmv.prove CXX OUT.json    runs the provers of one property in a process of their own"""
import sys, os, json, time, importlib, traceback
from pmv.props import PROPS

def main():
    prop, out = sys.argv[1:3]
    tier = os.environ.get("VERIF_TIER", "quick")
    obs, assumptions, funcs, notes = [], [], [], []
    t0 = time.time()
    for m in PROPS[prop].get("provers", []):
        try:
            r = importlib.import_module("pmv." + m).prove(prop, tier)
            obs += r.obs; assumptions += r.assumptions; funcs += r.functions; notes += r.notes
        except Exception:
            obs.append(dict(name="%s:%s" % (m, prop), status="undecided", backend="-", time=0.0, detail="prover failed: " + traceback.format_exc()[-1200:], replay=[]))
        json.dump(dict(obs=obs, assumptions=sorted(set(assumptions)), functions=sorted(set(funcs)), notes=notes, wall=time.time() - t0), open(out, "w"), default=str)

if __name__ == "__main__": main()

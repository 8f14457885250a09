"""python3-vt -m pmv.run CXX        run the check of one property
   python3-vt -m pmv.run CXX --replay FILE   re-run one recorded failing input against the current /repo"""
import sys, os, json, time, subprocess, argparse, threading, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, VERIF)
from pmv import build
from pmv.props import PROPS

def known_findings(prop):
    """lines 'open: property=<id> case=<case> match=<text> | <what fails>' of known_findings.txt"""
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("open: property=%s " % prop):
                head, what = l.split(" | ", 1)
                kv = dict(x.split("=", 1) for x in head.split()[1:])
                out.append((kv.get("case"), kv.get("match"), what))
    return out

def conf_run(prop, tier, seed, budget, exts, one=None):
    d = build.build(exts)
    fd, out = tempfile.mkstemp(prefix="pmvconf-", suffix=".json"); os.close(fd)
    cmd = [build.VENV_PY, "-B", os.path.join(VERIF, "conf", "main.py"), prop, "--out", out, "--seed", str(seed), "--tier", tier, "--budget", str(budget)]
    if one: cmd += ["--one", one]
    try:
        r = subprocess.run(cmd, cwd=d, env=build.clean_env(), capture_output=True, text=True, timeout=budget * 2 + 120)
        txt = open(out).read()
        if not txt:
            cur = dict(case="process", params=None)
            if os.path.exists(out + ".cur"): cur = json.load(open(out + ".cur"))
            # the code under test brought the interpreter down (or cannot be imported): a contract violation of its own
            return dict(evaluations=0, distinct=0, samples=[], per_case={}, skipped=[], wall=0, crashed=True,
                        failures=[dict(case=cur["case"], params=cur["params"], kind="violation", message="the process running the real code died (exit %s): %s" % (r.returncode, (r.stdout + r.stderr)[-1500:]))])
        return json.loads(txt)
    except subprocess.TimeoutExpired:
        return dict(evaluations=0, distinct=0, samples=[], per_case={}, skipped=[], wall=0, crashed=True,
                    failures=[dict(case="process", params=None, kind="violation", message="the real code did not finish within %d s" % (budget * 2 + 120))])
    finally:
        for x in (out, out + ".cur"):
            if os.path.exists(x): os.unlink(x)

def prove(prop, tier, seed, box):
    """the provers run in a process of their own; whatever they cannot finish is undecided"""
    if not PROPS[prop].get("provers"): return
    fd, out = tempfile.mkstemp(prefix="pmvproof-", suffix=".json"); os.close(fd)
    limit = 560 if tier == "quick" else 6000
    why = None
    p = subprocess.Popen(["python3-vt", "-m", "pmv.prove", prop, out], cwd=VERIF, env=dict(os.environ, VERIF_TIER=tier), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    try:
        txt, _ = p.communicate(timeout=limit)
        if p.returncode: why = "the prover ended with %s: %s" % (p.returncode, txt[-800:])
    except subprocess.TimeoutExpired:
        why = "the prover did not finish within %d s" % limit
        try: os.killpg(p.pid, 9)
        except OSError: pass
        p.wait()
    try: box.update(json.load(open(out)))
    except ValueError: pass
    os.unlink(out)
    box.setdefault("obs", [])
    if why: box["obs"].append(dict(name="prover of %s" % prop, status="undecided", backend="-", time=0.0, detail=why, replay=[]))

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop"); ap.add_argument("--replay"); ap.add_argument("--no-proof", action="store_true"); ap.add_argument("--no-conf", action="store_true")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    prop = a.prop
    P = PROPS[prop]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"): tier = "quick"
    try: seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError: seed = 1
    t0 = time.time()
    if a.replay:
        f = json.load(open(a.replay))
        if f.get("params") is None:
            print("this replay names a failed obligation without a failing input:", f.get("obligation")); sys.exit(1)
        fd, one = tempfile.mkstemp(suffix=".json"); os.close(fd)
        json.dump(f, open(one, "w"))
        r = conf_run(prop, tier, seed, 100, P["exts"], one=one)
        print(json.dumps(r, indent=1)); sys.exit(1 if any(x.get("message") for x in (r if isinstance(r, list) else r["failures"])) else 0)
    build.scratch()
    box = {}
    th = threading.Thread(target=prove, args=(prop, tier, seed, box))
    if not a.no_proof: th.start()
    conf = dict(evaluations=0, distinct=0, failures=[], samples=[], per_case={}, skipped=[])
    conferr = None
    if not a.no_conf:
        try:
            conf = conf_run(prop, tier, seed, P.get("budget", {}).get(tier, 60 if tier == "quick" else 300), P["exts"])
        except build.BuildError as e:
            conferr = str(e)
            conf["failures"] = [dict(case="build", params=None, kind="violation", message="the code does not build: " + conferr[-1500:])]
    if not a.no_proof: th.join()
    obs = box.get("obs", [])
    # refuted obligations: replay the verifier's counterexample on the real code
    refuted = [o for o in obs if o["status"] == "refuted"]
    cands = []
    searches = set()
    for o in refuted:
        for c in o.get("replay", [])[:8]:
            if isinstance(c["params"], dict) and "__search__" in c["params"]:
                # the same search once for all obligations
                k = json.dumps([c["case"], c["params"]], sort_keys=True)
                if k in searches: continue
                searches.add(k)
            cands.append(dict(case=c["case"], params=c["params"], obligation=o["name"]))
    if not searches and not conf["failures"] and not a.no_conf and any(o["status"] == "undecided" for o in obs):
        # something is not proved (the source left the verifier's reach, or a bound on its time): look for an input more deeply
        cands.append(dict(case="*", params={"__search__": dict(seed=1001, budget=90)}, obligation=[o["name"] for o in obs if o["status"] == "undecided"][0]))
    replayed = []
    if cands and not conferr and not conf["failures"]:
        fd, one = tempfile.mkstemp(suffix=".json"); os.close(fd)
        json.dump(cands, open(one, "w"))
        rr = conf_run(prop, tier, seed, 100, P["exts"], one=one)
        os.unlink(one)
        if isinstance(rr, list):
            for c, x in zip(cands, rr):
                if x["message"]: replayed.append(dict(case=x.get("case", c["case"]), params=x.get("params", c["params"]), message=x["message"], kind="violation", obligation=c["obligation"]))
    if not replayed and not conf["failures"]:
        # every counterexample that can be run was run and the real code behaved: the obligation is not decided by it
        for o in refuted:
            if o.get("replay"):
                o["status"] = "undecided"
                o["detail"] = "counterexample does not reproduce on the real code: " + str(o.get("detail"))[:600]
        refuted = [o for o in refuted if o["status"] == "refuted"]
    kf = known_findings(prop)
    fails = []
    shown = set()
    for f in conf["failures"] + replayed:
        hit = None
        for case, match, what in kf:
            if f["case"] == case and match in f["message"]: hit = what
        if hit is not None:
            if hit not in shown:
                shown.add(hit)
        else: fails.append(f)
    for case, match, what in kf:
        print("KNOWN-FINDING: property=%s %s" % (prop, what))
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    nviol = 0
    harness = [f for f in fails if f.get("kind") == "harness"]
    viol = [f for f in fails if f.get("kind") != "harness"]
    if viol:
        f = dict(viol[0])
        f["property"] = prop
        f["failed_obligations"] = [dict(name=o["name"], detail=str(o.get("detail"))[:2000]) for o in refuted][:20]
        f["other_failures"] = len(viol) - 1
        rp = os.path.join(VERIF, "replays", "%s-%s.json" % (prop, f["case"]))
        json.dump(f, open(rp, "w"), indent=1)
        print("failed case %s: %s" % (f["case"], f["message"][:1500]))
        for o in refuted[:10]: print("failed obligation: %s: %s" % (o["name"], str(o.get("detail"))[:300]))
        print("VIOLATION property=%s replay=%s" % (prop, rp) + ("" if f["params"] is not None or f["case"] in ("process", "build") else " no-failing-input-found"))
        nviol = len(viol)
    elif refuted:
        rp = os.path.join(VERIF, "replays", "%s-obligation.json" % prop)
        json.dump(dict(property=prop, obligation=refuted[0]["name"], params=None, output=[dict(name=o["name"], detail=o.get("detail"), backend=o.get("backend")) for o in refuted]),
                  open(rp, "w"), indent=1, default=str)
        for o in refuted[:10]: print("failed obligation: %s: %s" % (o["name"], str(o.get("detail"))[:600]))
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, rp))
        nviol = len(refuted)
    if harness:
        for f in harness: print("harness error in case %s: %s" % (f["case"], f["message"][-800:]))
    level = P["level"]
    if level == "proof" and (not obs or any(o["status"] in ("undecided", "bounded") for o in obs)): level = "exploration"
    n = len(obs)
    disch = [o for o in obs if o["status"] == "proved"]
    und = [o for o in obs if o["status"] == "undecided"]
    bnd = [o for o in obs if o["status"] == "bounded"]
    backends = {}
    for o in disch: backends[o["backend"]] = backends.get(o["backend"], 0) + 1
    cov = dict(
        obligations=n, discharged=len(disch), undecided=len(und), refuted=len(refuted), bounded_standins=len(bnd),
        checker_cmd="VERIF_TIER=%s python3-vt -m pmv.run %s" % (tier, prop),
        trusted_base=sorted(set(box.get("assumptions", []) + P.get("trusted", []))),
        functions_under_contract=sorted(set(box.get("functions", []))),
        discharged_by_backend=backends,
        solver_seconds=round(sum(o.get("time", 0) for o in obs), 2),
        proof_wall_s=round(box.get("wall", 0), 2),
        undecided_obligations=[dict(name=o["name"], why=str(o.get("detail"))[:400]) for o in und][:40],
        bounded_obligations=[dict(name=o["name"], bound=str(o.get("detail"))[:300]) for o in bnd][:60],
        evaluations=conf["evaluations"], distinct_nontrivial=conf["distinct"],
        rule="run-time contract check on the real code: seeded generator per case, a case is non-trivial when it has data to act on and differs from all others",
        samples=conf["samples"], per_case=conf.get("per_case", {}), skipped=conf.get("skipped", []),
        notes=box.get("notes", []),
    )
    if a.v or os.environ.get("PMV_VERBOSE"):
        for o in obs: print("  [%s] %s (%s, %.2fs) %s" % (o["status"], o["name"], o["backend"], o.get("time", 0), "" if o["status"] == "proved" else str(o.get("detail"))[:500]))
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov, assumptions=P.get("assumptions", []) + sorted(set(box.get("assumptions", []))),
              wall_s=round(time.time() - t0, 2), violations=nviol)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1, default=str)
    print("%s: %d obligations, %d discharged, %d undecided, %d bounded, %d refuted; %d contract evaluations (%d distinct non-trivial), %d failures; %.1f s" % (
        prop, n, len(disch), len(und), len(bnd), len(refuted), conf["evaluations"], conf["distinct"], len(viol), time.time() - t0))
    if nviol: sys.exit(1)
    if P.get("provers") and n == 0 and not a.no_proof:
        print("no obligation was generated"); sys.exit(2)
    if harness or (conf["evaluations"] == 0 and not a.no_conf): 
        print("nothing was evaluated"); sys.exit(2)
    sys.exit(0)

if __name__ == "__main__":
    main()

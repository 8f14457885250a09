"""Run-time contract checking of the real code: shared pieces. Runs under /opt/venv python (numpy 1.24)."""
import sys, os, json, time, traceback, math
import numpy as np
import warnings
warnings.simplefilter("ignore")

class Fail(Exception):
    pass

def expect(cond, msg):
    if not cond:
        raise Fail(msg)

def jsonable(x):
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        return jsonable(x.tolist())
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (np.floating,)):
        return float(x)
    if isinstance(x, (np.bool_,)):
        return bool(x)
    if isinstance(x, complex):
        return [x.real, x.imag]
    return x

class Case(object):
    """name; gen(rng, i, thorough) -> params (json-able dict) or None; check(params) raises Fail.
       n = number of cases at quick tier; nontrivial(params) -> bool"""
    def __init__(self, name, gen, check, n, nthorough=None, nontrivial=None, fixed=()):
        self.name, self.gen, self.check, self.n = name, gen, check, n
        self.nthorough = nthorough or n * 6
        self.nontrivial = nontrivial or (lambda p: True)
        self.fixed = fixed

def run_cases(cases, seed, tier, budget, current=None):
    """Returns dict(evaluations, distinct, failures, samples)."""
    t0 = time.time()
    ev = 0
    seen = set()
    fails = []
    samples = []
    per = {}
    skipped = []
    for ci, c in enumerate(cases):
        rng = np.random.RandomState((seed * 7919 + ci * 104729 + 13) % (2**31))
        n = c.nthorough if tier == "thorough" else c.n
        cnt = 0
        it = [("fixed", p) for p in c.fixed] + [("gen", i) for i in range(n)]
        tcase = time.time()
        share = budget * 1.0 / len(cases) * 2
        for kind, x in it:
            if time.time() - t0 > budget or time.time() - tcase > share:
                skipped.append("%s: stopped after %d of %d (time)" % (c.name, cnt, len(it)))
                break
            try:
                p = x if kind == "fixed" else c.gen(rng, x, tier == "thorough")
            except Exception:
                fails.append(dict(case=c.name, params=None, message="generator error: " + traceback.format_exc(), kind="harness"))
                break
            if p is None:
                continue
            p = jsonable(p)
            if current:
                with open(current, "w") as f: json.dump(dict(case=c.name, params=p), f)
            msg = check_one(c, p)
            ev += 1
            cnt += 1
            if c.nontrivial(p):
                seen.add(c.name + json.dumps(p, sort_keys=True))
            if cnt == 1:
                samples.append(dict(case=c.name, params=shorten(p)))
            if msg is not None:
                fails.append(dict(case=c.name, params=p, message=msg, kind="violation"))
                if len([f for f in fails if f["case"] == c.name]) >= 40:
                    break
        per[c.name] = cnt
    return dict(evaluations=ev, distinct=len(seen), failures=fails, samples=samples[:6], per_case=per, skipped=skipped,
                wall=time.time() - t0)

def shorten(p, n=12):
    if isinstance(p, dict):
        return {k: shorten(v) for k, v in p.items()}
    if isinstance(p, list) and len(p) > n:
        return [shorten(v) for v in p[:n]] + ["... %d more" % (len(p) - n)]
    if isinstance(p, list):
        return [shorten(v) for v in p]
    return p

def check_one(c, p):
    try:
        c.check(p)
        return None
    except Fail as e:
        return str(e)
    except Exception:
        # the real code raising where the contract promises a result is a violation
        return "unexpected exception: " + traceback.format_exc()[-1500:]

def close(a, b, rtol=1e-9, atol=1e-9):
    return bool(np.all(np.abs(np.asarray(a, 'f8') - np.asarray(b, 'f8')) <= atol + rtol * np.abs(np.asarray(b, 'f8'))))

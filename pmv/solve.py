"""Discharging obligations: polynomial normal form, exact rational evaluation, z3, cvc5."""
import time, random, itertools, subprocess
from fractions import Fraction
import z3
from .term import *
from . import term as tm

class Tr:
    """translation of terms to z3"""
    def __init__(self):
        self.c = {}             # kept over all queries
        self.ax = {}            # facts about a term that stands for a new variable
        self.axioms = []
        self.fun = {}
    def facts(self, terms):
        out = []
        for s in set().union(*[subterms(t) for t in terms]) if terms else ():
            if s.op in ("floor", "M", "inv"): self.tr(s); out += self.ax[s]
        return out
    def real(self, t):
        e = self.tr(t)
        return z3.ToReal(e) if z3.is_int(e) else e
    def num(self, v, sort):
        if sort == "I": return z3.IntVal(int(v))
        return z3.RealVal("%d/%d" % (v.numerator, v.denominator))
    def tr(self, t):
        r = self.c.get(t)
        if r is None:
            if t.op in ("floor", "M", "inv"):
                save, self.axioms = self.axioms, []
                r = self._tr(t)
                self.ax[t] = self.axioms; self.axioms = save
            else: r = self._tr(t)
            self.c[t] = r
        return r
    def fresh(self, t, kind, sort): return (z3.Int if sort == "I" else z3.Real)("%s!%d" % (kind, t.id))
    def _tr(self, t):
        op = t.op
        if op == "num": return self.num(t.args[0], t.sort)
        if op == "bool": return z3.BoolVal(t.args[0])
        if op == "var":
            n = t.args[0]
            return {"I": z3.Int, "R": z3.Real, "B": z3.Bool, "F": z3.Int}[t.sort](n)
        if op == "fn": return z3.IntVal(1 + abs(hash(t.args[0])) % (1 << 40)) if t is not NULL else z3.IntVal(0)
        if op == "poly":
            real = t.sort == "R"
            parts = []
            for m, c in t.args:
                fs = []
                nd = []
                for a, e in m:
                    z = self.real(a) if real else self.tr(a)
                    for _ in range(abs(e)): (fs if e > 0 else nd).append(z)
                p = None
                if c != 1 or not fs: p = self.num(c, "R" if real else "I")
                for f in fs: p = f if p is None else p * f
                for f in nd:
                    p = p / f
                parts.append(p)
            return z3.Sum(parts) if len(parts) > 1 else parts[0]
        if op == "ite":
            c = self.tr(t.args[0])
            if t.sort == "R": return z3.If(c, self.real(t.args[1]), self.real(t.args[2]))
            return z3.If(c, self.tr(t.args[1]), self.tr(t.args[2]))
        if op == "floor":
            n = self.fresh(t, "fl", "I")
            d = tm._pd(t.args[0]); D = 1
            for c in d.values(): D = D * c.denominator // tm.gcd(D, c.denominator)
            if all(tm._mono_int(m) for m in d):      # rational multiple of an integer: stay in the integers
                q = self.tr(mul(t.args[0], D))
                self.axioms += [D * n <= q, q < D * n + D]
            else:
                q = self.real(t.args[0])
                self.axioms += [z3.ToReal(n) <= q, q < z3.ToReal(n) + 1]
            return n
        if op == "M":
            a, N = t.args
            real = t.sort == "R"
            za, zN = (self.real(a), self.real(N)) if real else (self.tr(a), self.tr(N))
            m = self.fresh(t, "mod", "R" if real else "I")
            self.axioms += [z3.Implies(zN > 0, z3.And(m >= 0, m < zN)),
                            z3.Implies(z3.And(zN > 0, za >= 0, za < zN), m == za),
                            z3.Implies(z3.And(zN > 0, za >= zN, za < 2 * zN), m == za - zN),
                            z3.Implies(z3.And(zN > 0, za < 0, za >= -zN), m == za + zN),
                            z3.Implies(z3.And(zN > 0, za < -zN, za >= -2 * zN), m == za + 2 * zN)]
            return m
        if op == "le0": return self.tr(t.args[0]) <= 0
        if op == "lt0": return self.tr(t.args[0]) < 0
        if op == "eq0": return self.tr(t.args[0]) == 0
        if op == "feq": return self.tr(t.args[0]) == self.tr(t.args[1])
        if op == "not": return z3.Not(self.tr(t.args[0]))
        if op == "and": return z3.And([self.tr(a) for a in t.args])
        if op == "or": return z3.Or([self.tr(a) for a in t.args])
        if op == "inv":
            q = self.real(t.args[0])
            r = self.fresh(t, "inv", "R")
            self.axioms.append(z3.Implies(q != 0, r * q == 1))
            return r
        if op == "app":
            args = [self.tr(a) for a in t.args[1:]]
            srt = {"I": z3.IntSort(), "R": z3.RealSort(), "B": z3.BoolSort(), "F": z3.IntSort()}
            # arguments: reals unless every use is integer typed; use real for numeric
            args = [z3.ToReal(a) if z3.is_int(a) else a for a in args]
            if not args:
                return z3.Const("app:" + t.args[0], srt[t.sort])
            key = (t.args[0], len(args), t.sort, tuple(a.sort().name() for a in args))
            f = self.fun.get(key)
            if f is None:
                f = z3.Function(str(key[0]), *([a.sort() for a in args] + [srt[t.sort]]))
                self.fun[key] = f
            return f(*args)
        raise Unsupported("z3 translation of " + op)

def _val(v):
    if z3.is_int_value(v): return Fraction(v.as_long())
    if z3.is_rational_value(v): return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        r = v.approx(20)
        return Fraction(r.numerator_as_long(), r.denominator_as_long())
    if z3.is_true(v): return True
    if z3.is_false(v): return False
    return None

_TR = Tr()
STATS = dict(z3=0.0, queries=0)
_cache = {}

def _floor_elim(goal, hyps):
    """reparametrise g = n + u where floor(c + g) occurs: exact change of variables"""
    terms = list(hyps) + [goal]
    back = {}
    for _ in range(8):
        fl = [x for x in set().union(*[subterms(t) for t in terms]) if x.op == "floor"]
        fl.sort(key=lambda x: x.id)
        done = True
        for x in fl:
            if any(y.op == "floor" for y in subterms(x.args[0])): continue
            d = dict(x.args[0].args) if x.args[0].op == "poly" else {((x.args[0], 1),): Fraction(1)}
            cand = None
            for m, c in d.items():
                if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "var" and m[0][0].sort == "R" and not m[0][0].args[0].startswith("u:"):
                    v = m[0][0]
                    if not any(v in subterms(from_pd({m2: c2})) for m2, c2 in d.items() if m2 != m): cand = (v, c); break
            if cand is None: continue
            v, c = cand
            u = var("u:%d" % x.id, "R"); n = var("n:%d" % x.id, "I")
            rest = sub(x.args[0], mul(const(c), v))
            repl = mul(sub(add(n, u), rest), const(1 / c))
            fu = floor(u)
            cache = {}
            terms = [subst(subst(t, {v: repl}, cache), {fu: ZERO}) for t in terms]
            terms = terms[:-1] + [le(0, u), lt(u, 1)] + [terms[-1]]
            back[v] = repl
            done = False
            break
        if done: break
    return terms[-1], terms[:-1], back

def check(hyps, goal, timeout=4.0, cex=True):
    """-> (status, info): 'proved', 'refuted' (info = {var: value}), 'unknown'"""
    goal = mk(goal)
    hyps = [h for h in (mk(h) for h in hyps) if h is not TRUE]
    if goal is TRUE: return "proved", "normal-form"
    if any(h is FALSE for h in hyps) or goal in hyps: return "proved", "normal-form"
    key = (tuple(sorted(h.id for h in hyps)), goal.id)
    if key in _cache: return _cache[key]
    t0 = time.time()
    r = _check(hyps, goal, timeout, cex)
    if r[0] == "refuted":
        # the hypotheses that share nothing with the goal may contradict each other
        rest = _relevant(hyps, goal)[1]
        if rest and check(rest, FALSE, timeout, False)[0] == "proved": r = ("proved", "z3")
    STATS["z3"] += time.time() - t0; STATS["queries"] += 1
    if r[0] != "unknown": _cache[key] = r
    return r

_syms = {}
def symbols(t):
    r = _syms.get(t)
    if r is None:
        r = frozenset(free_vars(t)) | frozenset(s for s in subterms(t) if s.op == "app" and not free_vars(s))
        _syms[t] = r
    return r
def _relevant(hyps, goal):
    """hypotheses connected with the goal through shared variables (dropping hypotheses is sound)"""
    fv = set(symbols(goal)); out = []; rest = list(hyps); ch = True
    if not fv: return rest, []
    while ch:
        ch = False
        for h in list(rest):
            v = symbols(h)
            if not v or v & fv:
                fv |= v; out.append(h); rest.remove(h); ch = True
    closed = [h for h in rest if not free_vars(h)]
    if closed:
        # facts about single values of functions that occur
        names = {s.args[0] for t in out + [goal] for s in subterms(t) if s.op == "app"}
        for h in closed:
            if any(s.op == "app" and s.args[0] in names for s in subterms(h)): out.append(h); rest.remove(h)
    return out, rest

def _check(hyps, goal, timeout, cex):
    rel, rest = _relevant(hyps, goal)
    g2, h2, back = _floor_elim(goal, rel)
    if g2 is TRUE or any(h is FALSE for h in h2): return "proved", "normal-form"
    tr = _TR
    s = z3.Solver()
    s.set("timeout", int(timeout * 1000))
    for h in h2: s.add(tr.tr(h))
    s.add(z3.Not(tr.tr(g2)))
    for a in tr.facts(h2 + [g2]): s.add(a)
    try: r = s.check()
    except z3.Z3Exception: r = z3.unknown
    if r == z3.unsat: return "proved", "z3"
    if r == z3.sat and cex:
        m = s.model()
        env = {}
        fv = set()
        for t in h2 + [g2]: fv |= free_vars(t)
        for v in fv:
            x = _val(m.eval(tr.tr(v), model_completion=True))
            env[v] = x if x is not None else Fraction(0)
        cache = {}
        for t in set().union(*[subterms(x) for x in h2 + [g2]]):
            if t.op == "app":
                x = _val(m.eval(tr.tr(t), model_completion=True))
                if x is not None: cache[t] = x
        try:
            ok = all(evalt(h, env, cache=cache) for h in h2) and not evalt(g2, env, cache=cache)
        except EvalError: ok = False
        except Exception: ok = False
        if ok:
            out = dict(env)
            for v, e in reversed(list(back.items())):
                try: out[v] = evalt(e, dict({x: Fraction(0) for x in free_vars(e)}, **out), cache={k: x for k, x in cache.items()})
                except Exception: pass
            for t, x in cache.items():
                if t.op == "app": out[t] = x
            return "refuted", out
        return "unknown", "z3 model not confirmed"
    if r == z3.sat: return "unknown", "z3: sat"
    # second opinion of cvc5 is only worth it for unknown
    return "unknown", "z3: %s" % s.reason_unknown()

def entails(hyps, goal, timeout=1.0):
    return check(hyps, goal, timeout, cex=False)[0] == "proved"

def feasible(hyps, timeout=1.0):
    return not entails(hyps, FALSE, timeout)

class Obs:
    def __init__(self, prefix=""):
        self.obs = []; self.assumptions = set(); self.functions = set(); self.notes = []
        self.prefix = prefix
    def put(self, name, status, backend="-", t=0.0, detail="", replay=None):
        self.obs.append(dict(name=self.prefix + name, status=status, backend=backend, time=t, detail=detail, replay=replay or []))
        return status == "proved"
    def prove(self, name, hyps, goal, timeout=5.0, replay=None, uf_ok=True):
        t0 = time.time()
        try: st, info = check(hyps, goal, timeout)
        except Unsupported as e: st, info = "unknown", str(e)
        dt = time.time() - t0
        if st == "proved": return self.put(name, "proved", info, dt)
        if st == "refuted":
            cex = {show(k): str(v) for k, v in info.items()}
            rp = []
            if replay:
                try: rp = replay(info) or []
                except Exception as e: cex["replay-error"] = repr(e)
            self.put(name, "refuted" if uf_ok else "undecided", "z3", dt, "counterexample %s to %s" % (cex, show(goal)), rp)
            return False
        self.put(name, "undecided", "z3", dt, "%s: %s" % (info, show(goal)[:500]))
        return False

def search(case="*", seed=1001, budget=60):
    """replay of a failed obligation that names no concrete input: a search of the run-time contract checks"""
    return [dict(case=case, params={"__search__": dict(seed=seed, budget=budget)})]

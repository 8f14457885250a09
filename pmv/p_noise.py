"""Contracts of pmesh/_whitenoise_imp.c and _whitenoise_generics.h (C11, C12).

Ghost state: ROW(a, b), the seed of row (a, b) of the mesh, written by every SETSEED(a, b) exactly as the local tables are.
The generator is an arbitrary deterministic function of its seed: RNG0(seed) is a state, SAMPLE maps a state to two numbers
and the next state."""
import os, time, itertools
from fractions import Fraction as Fr
from pycparser import c_ast
from .term import *
from .csym import *
from .solve import Obs, check, entails, feasible
from . import build

REPO = build.REPO
_src = None
def source():
    global _src
    if _src is None:
        d = os.path.join(REPO, "pmesh")
        _src = Source(os.path.join(d, "_whitenoise_imp.c"), [d])
    return _src
I = lambda n: var(n, "I")
N = [I("N%d" % d) for d in range(3)]; S0 = [I("start%d" % d) for d in range(3)]; Z = [I("size%d" % d) for d in range(3)]; STR = [I("stride%d" % d) for d in range(3)]
SEED = I("seed"); UN = I("unitary")
BLOCK = set(S0 + Z + STR)
MESH = [ge(n, 1) for n in N]
INBLOCK = [ge(s, 0) for s in S0] + [ge(z, 0) for z in Z] + [le(add(S0[0], Z[0]), N[0]), le(add(S0[1], Z[1]), N[1]), le(add(S0[2], Z[2]), N[2])]
ASSUME = ["gsl_rng_uniform is an arbitrary deterministic function of the generator state; the state after gsl_rng_set depends on the seed only",
          "the block lies inside of the mesh and distinct modes of the block have distinct addresses",
          "indices and seeds do not overflow int; real arithmetic for sqrt, log, cos, sin; float storage rounds each number on its own",
          "the rejection loop of SAMPLE terminates"]

def conj(d, i, n): return ite(eq(d, 0), i, ite(eq(i, 0), ZERO, sub(n, i)))
def cjg(i, n): return ite(eq(i, 0), ZERO, sub(n, i))
def ROW(a, b): return app("ROW", [a, b], "I")

def generator(ex, st, elsize):
    ex.declare(st, "G", ("struct", "PMeshWhiteNoiseGenerator"))
    for d in range(3):
        for f, v in (("Nmesh", N), ("start", S0), ("size", Z), ("strides", STR)): st.mem["G." + f].cells[d] = v[d]
    for f, v in (("ndim", const(3)), ("seed", SEED), ("unitary", UN), ("canvas_dtype_elsize", const(elsize)), ("canvas", Ptr("canvas", ZERO, "void"))): st.mem["G." + f].cells[0] = v
    st.mem["canvas"] = Reg("char", None, True)
    st.mem["VISIT"] = Reg("char", None, True)
    for d1 in range(2):
        for d2 in range(2):
            st.mem["tab%d%d" % (d1, d2)] = Reg("u32", None, True)
            st.mem["G.seedtable"].cells[2 * d1 + d2] = Ptr("tab%d%d" % (d1, d2), ZERO, "u32")
    return SPtr("G", "PMeshWhiteNoiseGenerator")

def rng_contracts():
    def alloc(ex, st, v):
        ex.nfresh += 1
        r = "rng%d" % ex.nfresh
        st.mem[r + ".state"] = Reg("fn", None, False, 1); st.mem[r + ".state"].cells[0] = ex.fresh("rngstate", "F")
        return (SPtr(r, None), ("ptr", "rng"))
    def reg(v):
        if not isinstance(v, SPtr): raise Unsupported("generator is %r" % (v,))
        return v.prefix + ".state"
    def set_(ex, st, v): ex.write(st, reg(v[0][0]), ZERO, app("RNG0", [v[1][0]], "F")); return None
    def uni(ex, st, v):
        r = reg(v[0][0]); s = ex.read(st, r, ZERO)
        u = app("UNIFORM", [s], "R")
        st.assume(ge(u, 0)); st.assume(lt(u, 1))
        ex.write(st, r, ZERO, iterf("iter:gsl", s, 1))
        return (u, "double")
    def free(ex, st, v): return None
    def sample(ex, st, v):
        r = reg(v[0][0]); s = ex.read(st, r, ZERO)
        for p, f in ((v[1][0], "AMPL"), (v[2][0], "PHASE")):
            if not isinstance(p, Ptr): raise Unsupported("SAMPLE result pointer")
            ex.write(st, p.reg, p.off, app(f, [s], "R"))
        ex.write(st, r, ZERO, iterf("iter:sample", s, 1))
        return None
    return {"gsl_rng_alloc": alloc, "gsl_rng_set": set_, "gsl_rng_uniform": uni, "gsl_rng_free": free}, sample, reg

def replays(prop, env=None):
    out = []
    c = []
    if env:
        v = [int(env.get(n, 3)) for n in N]
        if all(1 <= x <= 12 for x in v): c.append(v)
    for NN in c + list(([4, 4, 4], [3, 3, 3], [2, 6, 4], [5, 4, 3], [6, 3, 5], [1, 4, 2], [7, 2, 6], [8, 8, 8])):
        for un in (0, 1):
            if prop == "C11": out.append(dict(case="hermitian", params=dict(N=NN, seed=12 + un, unitary=un, dtype="c16")))
            else:
                for half in (0, 1):
                    full = list(NN); full[2] = NN[2] // 2 + 1 if half else NN[2]
                    for st, sz in (([0, 0, 0], full), ([n // 2 for n in full], [n - n // 2 for n in full]), ([0, 0, 0], [(n + 1) // 2 for n in full]), ([n - 1 for n in full], [1, 1, 1])):
                        out.append(dict(case="blocks", params=dict(N=NN, seed=12, unitary=un, dtype="c16", half=half, start=st, size=sz, layout=["C", "pad", "F"][len(out) % 3])))
    if prop == "C12": out += [dict(case="resolution", params=dict(n=n, m=m, seed=5, unitary=0, half=h)) for n, m in ((4, 6), (2, 8), (6, 10), (4, 12)) for h in (0, 1)]
    return out

# ---------------------------------------------------------------- SAMPLE
def t_sample(P, prop):
    """SAMPLE: two numbers and the next state, functions of the state alone; the first is not zero"""
    name = "SAMPLE depends on the generator state only, amplitude not zero"
    t0 = time.time()
    P.functions.add("_whitenoise: SAMPLE")
    try:
        con, _, reg = rng_contracts()
        ex = Exec(source(), con); ex.detloops = True
        st = State()
        st.mem["r.state"] = Reg("fn", None, False, 1); s = var("S", "F"); st.mem["r.state"].cells[0] = s
        for r in ("A", "Ph"): st.mem[r] = Reg("double", None, False, 1)
        ex.call_body(st, "SAMPLE", [(SPtr("r", None), ("ptr", "rng")), (Ptr("A", ZERO, "double"), ("ptr", "double")), (Ptr("Ph", ZERO, "double"), ("ptr", "double"))])
        a, ph, s2 = st.mem["A"].cells[0], st.mem["Ph"].cells[0], st.mem["r.state"].cells[0]
        bad = set().union(free_vars(a), free_vars(ph), free_vars(s2)) - {s}
        P.put(name + ": frame", "proved" if not bad and not st.events else "undecided", "normal-form", time.time() - t0, "depends on %s" % bad)
        P.prove(name + ": amplitude", list(st.pc), ne(a, 0))
        P.prove(name + ": amplitude is a uniform number below one", list(st.pc), and_(ge(a, 0), lt(a, 1)))
    except Unsupported as e:
        P.put(name, "undecided", "-", time.time() - t0, "not within reach: %s" % e)

# ---------------------------------------------------------------- SETSEED / GETSEED
def same(P, name, hyps, got, want, prop):
    if got is want: return P.put(name, "proved", "normal-form")
    if entails(hyps, eq(got, want), 5.0): return P.put(name, "proved", "z3")
    st, info = check(hyps, eq(got, want), 5.0)
    return P.put(name, "refuted" if st == "refuted" else "undecided", "z3", 0.0, "%s instead of %s" % (show(got)[:200], show(want)[:200]), replays(prop))

def t_setseed(P, prop):
    """SETSEED(a, b) writes the next seed to the tables of all rows of the block that are (a, b) or a conjugate of it, and nothing else"""
    t0 = time.time()
    P.functions.add("_whitenoise: SETSEED")
    nm = "SETSEED"
    try:
        con, _, reg = rng_contracts()
        ex = Exec(source(), con); st = State()
        g = generator(ex, st, 16)
        for c in MESH + INBLOCK: st.assume(c)
        s = var("S", "F")
        st.mem["r.state"] = Reg("fn", None, False, 1); st.mem["r.state"].cells[0] = s
        a, b = I("a"), I("b")
        ex.call_body(st, "SETSEED", [(g, ("ptr", "x")), (a, "int"), (b, "int"), (SPtr("r", None), ("ptr", "rng"))])
        H = MESH + INBLOCK + [ge(app("UNIFORM", [s], "R"), 0), lt(app("UNIFORM", [s], "R"), 1)]
        P.put(nm + ": the generator advances by one number whatever the block", "proved" if st.mem["r.state"].cells[0] is iterf("iter:gsl", s, 1) else "refuted", "normal-form", 0.0, show(st.mem["r.state"].cells[0]), replays(prop))
        seen = {}
        for e in st.events:
            if e.reg.startswith("tab"): seen.setdefault(e.reg, []).append(e)
            elif e.reg != "VISIT": P.put(nm + ": writes to " + e.reg, "undecided")
        want = floor(mul(0x7fffffff, app("UNIFORM", [s], "R")))
        for d1 in range(2):
            for d2 in range(2):
                t = "tab%d%d" % (d1, d2); n2 = "%s: table [%d][%d]" % (nm, d1, d2)
                es = seen.get(t, [])
                if len(es) != 1: P.put(n2, "refuted" if not es else "undecided", "normal-form", 0.0, "%d writes" % len(es), replays(prop)); continue
                e = es[0]
                ca, cb = conj(const(d1), a, N[0]), conj(const(d2), b, N[1])
                spec = and_(ge(a, 0), lt(a, N[0]), ge(b, 0), lt(b, N[1]), ge(ca, S0[0]), lt(ca, add(S0[0], Z[0])), ge(cb, S0[1]), lt(cb, add(S0[1], Z[1])))
                P.prove(n2 + ": written for every row of the block that is the (conjugate) row", H + [spec], e.guard, 10.0, replay=lambda env: replays(prop, env))
                P.prove(n2 + ": written for no other row", H + [e.guard], spec, 10.0, replay=lambda env: replays(prop, env))
                P.prove(n2 + ": at the place of that row", H + [spec], eq(e.addr, mul(4, add(mul(sub(ca, S0[0]), Z[1]), sub(cb, S0[1])))), 10.0, replay=lambda env: replays(prop, env))
                same(P, n2 + ": the value is the next seed", H + [spec], e.val, want, prop)
        # the place determines the row
        x, x2, y, y2, z = (I(v) for v in ("x", "x2", "y", "y2", "z"))
        t = I("t")
        P.prove("rows of the block have their own place in the tables", [ge(y, 0), lt(y, z), ge(y2, 0), lt(y2, z), ge(t, 0), ge(mul(t, z), 0)], not_(eq(add(mul(add(x2, 1, t), z), y), add(mul(x2, z), y2))))
    except Unsupported as e:
        P.put(nm, "undecided", "-", time.time() - t0, "not within reach: %s" % e)

def t_getseed(P, prop):
    t0 = time.time()
    P.functions.add("_whitenoise: GETSEED")
    try:
        for d1 in range(2):
            for d2 in range(2):
                ex = Exec(source(), rng_contracts()[0]); st = State()
                g = generator(ex, st, 16)
                for c in MESH + INBLOCK: st.assume(c)
                i, j = I("i"), I("j")
                for c in (ge(i, S0[0]), lt(i, add(S0[0], Z[0])), ge(j, S0[1]), lt(j, add(S0[1], Z[1]))): st.assume(c)
                H = list(st.pc)
                for q in ("00", "01", "10", "11"): st.mem["tab" + q] = Reg("u32", lambda idx, q=q: app("TAB" + q, [idx], "I"))
                r = ex.call_body(st, "GETSEED", [(g, ("ptr", "x")), (i, "int"), (j, "int"), (const(d1), "int"), (const(d2), "int")])
                P.prove("GETSEED: no abort for a row of the block [%d][%d]" % (d1, d2), H, not_(FALSE) if not st.dead() else FALSE)
                same(P, "GETSEED: the entry of the row in table [%d][%d]" % (d1, d2), H, r[0], app("TAB%d%d" % (d1, d2), [add(mul(sub(i, S0[0]), Z[1]), sub(j, S0[1]))], "I"), prop)
    except Unsupported as e:
        P.put("GETSEED", "undecided", "-", time.time() - t0, "not within reach: %s" % e)

# ---------------------------------------------------------------- fill
def run_fill(fname, elsize, found, half=False):
    """execute the fill; -> (Exec, State, GETSEED preconditions)"""
    con, sample, reg = rng_contracts()
    pre = []
    def setseed(ex, st, v):
        r = reg(v[3][0]); s = ex.read(st, r, ZERO)
        st.events = st.events + (Event("set", "VISIT", app("AT", [v[1][0], v[2][0]], "I"), app("STATE", [s], "R")),)
        ex.write(st, r, ZERO, iterf("iter:gsl", s, 1))
        return None
    def getseed(ex, st, v):
        i, j, d1, d2 = v[1][0], v[2][0], v[3][0], v[4][0]
        pre.append((list(st.pc), and_(ge(i, S0[0]), lt(i, add(S0[0], Z[0])), ge(j, S0[1]), lt(j, add(S0[1], Z[1])), or_(eq(d1, 0), eq(d1, 1)), or_(eq(d2, 0), eq(d2, 1)))))
        return (ROW(conj(d1, i, N[0]), conj(d2, j, N[1])), "u32")
    con = dict(con, SAMPLE=sample, SETSEED=setseed, GETSEED=getseed)
    ex = Exec(source(), con); st = State()
    ex.found_mode = found
    g = generator(ex, st, elsize)
    for c in MESH + INBLOCK: st.assume(c)
    for c in (or_(eq(UN, 0), eq(UN, 1)),): st.assume(c)
    ex.call_body(st, fname, [(g, ("ptr", "x")), (Ptr("canvas", ZERO, "void"), ("ptr", "void")), (SEED, "int")])
    return ex, st, pre

class Fill: pass

def collect(P, prop, fname, elsize, found):
    """the visits of the seed rows and, per sign, the canonical value written for the generic mode"""
    ex, st, pre = run_fill(fname, elsize, found)
    f = Fill(); f.pre = pre; f.visits = [e for e in st.events if e.reg == "VISIT"]; f.modes = []; f.facts = st.facts; f.pc = list(st.pc); f.found = found
    writes = [e for e in st.events if e.reg == "canvas"]
    if any(e.reg not in ("VISIT", "canvas") for e in st.events): raise Unsupported("other memory is accessed")
    m = I("m"); ci, cj = I("i"), I("j")
    byk = {}
    for pos, e in enumerate(writes):
        if e.kind != "set" and e.kind != "add": raise Unsupported("access kind " + e.kind)
        if len(e.binders) != 3: raise Unsupported("%d loops around the assignment of a mode" % len(e.binders))
        (bi, li, hi), (bj, lj, hj), (bk, lk, hk) = e.binders
        env = {bi: ci, bj: cj}
        # address: strides . (mode - start) + part
        ad = subst(e.addr, env)
        d = dict(ad.args) if ad.op == "poly" else {((ad, 1),): Fr(1)}
        co = ZERO; rest = {}
        for mo, c in d.items():
            if any(a is STR[2] for a, x in mo):
                co = add(co, from_pd({tuple((a, x - (1 if a is STR[2] else 0)) for a, x in mo if not (a is STR[2] and x == 1)): c}))
            else: rest[mo] = c
        k2 = add(co, S0[2])                        # absolute mode number along the last axis, in terms of bk
        part = sub(from_pd(rest), add(mul(STR[0], sub(ci, S0[0])), mul(STR[1], sub(cj, S0[1]))))
        if not isnum(part) or STR[2] in free_vars(k2): 
            f.modes.append(None); f.bad = "address %s" % show(ad)[:300]; continue
        if k2 is bk: ks = m; sign = 1
        elif add(k2, bk) is N[2]: ks = sub(N[2], m); sign = -1
        else: raise Unsupported("mode number %s" % show(k2))
        env[bk] = ks
        o = Fill()
        o.sign, o.part, o.order = sign, int(num(part)), pos
        o.range = [subst(c, env) for c in (le(li, bi), lt(bi, hi), le(lj, bj), lt(bj, hj), le(lk, bk), lt(bk, hk))]
        o.guard = subst(e.guard, env); o.val = subst(e.val, env); o.kind = e.kind
        f.modes.append(o)
    return f

def t_ring(P, prop, fname, elsize):
    """the sequence of seeds handed to the rows does not depend on the block; every row gets one"""
    nm = fname.strip("_") + " rings"
    t0 = time.time()
    P.functions.add("_whitenoise: " + fname)
    try:
        f = collect(P, prop, fname, elsize, False)
        V = f.visits
        P.put(nm + ": seeds are handed out", "proved" if V else "refuted", "normal-form", 0.0, "", replays(prop))
        sol = []
        for n, e in enumerate(V):
            vs = set().union(free_vars(e.addr), free_vars(e.val), free_vars(e.guard), *[free_vars(x) for b in e.binders for x in b[1:]])
            P.put("%s %d: the row and the position in the random sequence do not depend on the block" % (nm, n), "proved" if not (vs & BLOCK) else "refuted", "normal-form", 0.0, "depends on %s" % (vs & BLOCK), replays(prop))
            bs = [x[0] for x in e.binders]
            p, q = e.addr.args[1], e.addr.args[2]
            st_ = e.val.args[1]
            if not (st_.op == "app" and st_.args[0] == "iter:gsl" and st_.args[1].op == "app" and st_.args[1].args[0] == "RNG0") and not (st_.op == "app" and st_.args[0] == "RNG0"): raise Unsupported("generator state %s" % show(st_)[:100])
            root, cnt = (st_.args[1], st_.args[2]) if st_.args[0] == "iter:gsl" else (st_, ZERO)
            if n == 0: P.put(nm + ": the sequence starts from the seed of the field", "proved" if root.args[1] is SEED else "refuted", "normal-form", 0.0, show(root), replays(prop))
            elif root.args[1] is not SEED: raise Unsupported("another seed")
            # invert: which (bi, bj) reaches row (a, b)
            a, b = I("a"), I("b")
            env = {}; cons = []
            for t, tgt in ((p, a), (q, b)):
                fv = free_vars(t) & set(bs) - set(env)
                if not fv: cons.append(eq(t, tgt)); continue
                if len(fv) != 1: raise Unsupported("row %s" % show(t))
                v, = fv
                c = sub(t, v); c2 = add(t, v)
                if v not in free_vars(c): env[v] = sub(tgt, c)
                elif v not in free_vars(c2): env[v] = sub(c2, tgt)
                else: raise Unsupported("row %s" % show(t))
            if set(env) != set(bs): raise Unsupported("row (%s, %s)" % (show(p), show(q)))
            rng_ = [c for bb, lo, hi in e.binders for c in (le(lo, bb), lt(bb, hi))] + [e.guard]
            sol.append((e, p, q, cnt, bs, rng_, and_(*[subst(subst(c, env), env) for c in rng_ + cons])))
        a, b = I("a"), I("b")
        dom = [ge(a, 0), lt(a, N[0]), ge(b, 0), lt(b, N[1])]
        P.prove(nm + ": every row of the mesh gets a seed", MESH + dom, or_(*[x[6] for x in sol]), 20.0, replay=lambda env: replays(prop, env))
        # cubic even meshes: the position belongs to the signed row number, and no row is visited twice
        H2 = lambda n, h: [ge(h, 1), eq(N[0], mul(2, h)), eq(N[1], mul(2, h)), eq(N[2], mul(2, h))]
        h1 = I("h")
        cub = {N[0]: mul(2, h1), N[1]: mul(2, h1), N[2]: mul(2, h1)}
        for n, (e, p, q, cnt, bs, rng_, _) in enumerate(sol):
            hy = [subst(c, cub) for c in rng_] + [ge(h1, 1)]
            for t, ax in ((p, 0), (q, 1)):
                t2 = subst(t, cub)
                sf = sub(t2, mul(2, h1)) if h1 in free_vars(t2) else t2
                pr = and_(ge(t2, h1), lt(t2, mul(2, h1))) if h1 in free_vars(t2) else and_(ge(t2, 0), lt(t2, h1))
                P.prove("%s %d: axis %d of the row has one signed row number at all resolutions" % (nm, n, ax), hy, and_(pr, const(h1 not in free_vars(sf))), 5.0, replay=lambda env: replays("C12"))
            P.put("%s %d: the position in the sequence does not depend on the resolution" % (nm, n), "proved" if not (free_vars(subst(cnt, cub)) - set(bs)) else "undecided", "normal-form", 0.0, show(cnt))
        for x, y in itertools.combinations_with_replacement(range(len(sol)), 2):
            e, p, q, cnt, bs, rng_, _ = sol[x]; e2, p2, q2, cnt2, bs2, rng2, _ = sol[y]
            ren = {v: I("second:%d" % k) for k, v in enumerate(bs2)}
            hy = [subst(c, cub) for c in rng_] + [subst(subst(c, ren), cub) for c in rng2] + [ge(h1, 1)]
            p2, q2 = subst(subst(p2, ren), cub), subst(subst(q2, ren), cub)
            clash = and_(eq(subst(p, cub), p2), eq(subst(q, cub), q2))
            goal = not_(clash) if x != y else or_(not_(clash), and_(*[eq(v, ren[v]) for v in bs]))
            P.prove("%s: visits %d and %d of a cubic even mesh never meet" % (nm, x, y), hy, goal, 5.0, replay=lambda env: replays("C12"))
    except Unsupported as e:
        P.put(nm, "undecided", "-", time.time() - t0, "not within reach: %s" % e)

def simp(t, hyps, depth=0):
    """t with the branch conditions that hyps decide replaced"""
    for _ in range(60):
        c = None
        for x in sorted(subterms(t), key=lambda x: x.id):
            if x.op == "ite" and not any(y.op == "ite" for y in subterms(x.args[0])):
                k = x.args[0]
                if (k, "u") in hyps_cache: continue
                if entails(hyps, k, 1.0): c = (k, True); break
                if entails(hyps, not_(k), 1.0): c = (k, False); break
                hyps_cache.add((k, "u"))
        if c is None: return t
        t = tm_ctx(t, *c)
    return t
hyps_cache = set()

def canon(t, hyps, anchors):
    """arguments of uninterpreted functions that equal an anchor under hyps replaced by it"""
    def go(x):
        if x.op == "app":
            args = []
            for y in x.args[1:]:
                y = go(y)
                if y.sort == "I" and not isnum(y) and y not in anchors:
                    for a in anchors:
                        if entails(hyps, eq(y, a), 0.7): y = a; break
                args.append(y)
            return app(x.args[0], args, x.sort) if not str(x.args[0]).startswith("iter:") else iterf(x.args[0], args[0], args[1])
        return rebuild(x, go) if x.op not in ("var", "num", "bool", "fn") else x
    return go(t)

def values(f, H):
    """(re, im) of the last write of the generic mode (i, j, m) and the condition under which it is written, per sign"""
    out = {}
    for o in f.modes:
        if o is None: raise Unsupported(f.bad)
        out.setdefault(o.sign, {}).setdefault(o.part, []).append(o)
    return out

def block_hyps(i, j, m): return MESH + INBLOCK + [ge(i, S0[0]), lt(i, add(S0[0], Z[0])), ge(j, S0[1]), lt(j, add(S0[1], Z[1])), ge(m, S0[2]), lt(m, add(S0[2], Z[2]))]

def t_fill(P, prop, fname, elsize, found):
    """every mode of the block is set, nothing else, and its value does not depend on the block"""
    nm = "%s (%s)" % (fname.strip("_"), "block with negative modes" if found else "half storage")
    t0 = time.time()
    P.functions.add("_whitenoise: " + fname)
    try:
        f = collect(P, prop, fname, elsize, found)
        rp = lambda env: replays(prop, env)
        for n, (pc, g) in enumerate(f.pre): P.prove("%s: GETSEED %d is called for a row of the block" % (nm, n), pc, g, 5.0, replay=rp)
        i, j, m = I("i"), I("j"), I("m")
        H = block_hyps(i, j, m)
        half = elsize // 2
        if None in f.modes: return P.put(nm + ": address of a mode", "refuted", "normal-form", time.time() - t0, f.bad, replays(prop))
        for o in f.modes:
            P.put("%s: sign %+d part %d: assignment" % (nm, o.sign, o.part), "proved" if o.part in (0, half) else "refuted", "normal-form", 0.0, "offset %d" % o.part, replays(prop))
            inb = and_(*block_hyps(i, j, m)[len(MESH) + len(INBLOCK):])
            hy = MESH + INBLOCK + o.range + [or_(eq(UN, 0), eq(UN, 1)), o.guard]
            P.prove("%s: sign %+d part %d: only modes of the block are written" % (nm, o.sign, o.part), hy, inb, 8.0, replay=rp)
            vs = free_vars(o.val)
            P.put("%s: sign %+d part %d: the value does not depend on the block" % (nm, o.sign, o.part), "proved" if not (vs & BLOCK) and not any(v.args[0].startswith(("uninit", "after", "hv")) for v in vs) else "refuted", "normal-form", 0.0, "depends on %s" % [show(v) for v in vs & BLOCK], replays(prop))
        # coverage
        if not found:
            # no negative mode is stored: instantiate the fact left by the search at the mode itself
            for b, lo, hi, fact in f.facts: H.append(implies(and_(le(lo, m), lt(m, hi)), subst(fact, {b: m})))
        un = or_(eq(UN, 0), eq(UN, 1))
        for part in (0, half):
            os_ = [o for o in f.modes if o.part == part]
            P.prove("%s: part %d of every mode of the block is set" % (nm, part), H + [un], or_(*[and_(*o.range, o.guard) for o in os_]), 10.0, replay=rp)
            # the last write wins: positive sign last wherever both write
            for a, b in itertools.combinations(os_, 2):
                if a.sign == b.sign: raise Unsupported("a mode is written twice with the same sign")
                first, last = sorted((a, b), key=lambda o: o.order)
                if last.sign != 1: P.put("%s: part %d: the positive half is written last" % (nm, part), "refuted", "normal-form", 0.0, "", replays(prop))
                else: P.put("%s: part %d: the positive half is written last" % (nm, part), "proved", "normal-form")
            for o in os_:
                if o.sign == 1: P.prove("%s: part %d: modes up to the Nyquist plane come from the positive half" % (nm, part), H + [un, le(mul(2, m), N[2])], and_(*o.range, o.guard), 8.0, replay=rp)
                else: P.prove("%s: part %d: modes above the Nyquist plane come from the negative half" % (nm, part), H + [un, gt(mul(2, m), N[2])], and_(*o.range, o.guard), 8.0, replay=rp)
    except Unsupported as e:
        P.put(nm, "undecided", "-", time.time() - t0, "not within reach: %s" % e)

def spec_values(f, half):
    """{sign: (re, im)} in terms of i, j, m; within the path condition of the mode being present"""
    v = {}
    for o in f.modes:
        if o is None: raise Unsupported(f.bad)
        v.setdefault(o.sign, {})[o.part] = o.val
    return {s: (x[0], x[half]) for s, x in v.items() if set(x) == {0, half}}

def axis_cases(x, n):
    return [("0", [eq(x, 0)], {x: ZERO}), ("<", [gt(x, 0), lt(mul(2, x), n)], {}), ("=", [gt(x, 0), eq(mul(2, x), n)], {n: mul(2, x)}), (">", [gt(mul(2, x), n), lt(x, n)], {})]

def t_same(P, prop, fname, elsize):
    """half storage and full storage give the same positive half; both float types give the same numbers"""
    nm = fname.strip("_")
    t0 = time.time()
    try:
        half = elsize // 2
        a = spec_values(collect(P, prop, fname, elsize, True), half); b = spec_values(collect(P, prop, fname, elsize, False), half)
        if set(a) != {1, -1} or set(b) != {1}: raise Unsupported("signs %s %s" % (set(a), set(b)))
        for k, nme in ((0, "real"), (1, "imaginary")):
            same(P, "%s: %s part of a mode is the same in half and in full storage" % (nm, nme), MESH, b[1][k], a[1][k], prop)
    except Unsupported as e:
        P.put(nm + ": half and full storage", "undecided", "-", time.time() - t0, "not within reach: %s" % e)

def t_hermitian(P, prop, fname, elsize, icase):
    """value(-k) = conj value(k), real self-conjugate modes, zero mean, unit modulus"""
    nm = fname.strip("_")
    t0 = time.time()
    P.functions.add("_whitenoise: " + fname)
    rp = lambda env: replays("C11", env)
    try:
        half = elsize // 2
        V = spec_values(collect(P, prop, fname, elsize, True), half)
        i, j, m = I("i"), I("j"), I("m")
        def value(ii, jj, mm, sign, hy, env0):
            env = {i: ii, j: jj, m: mm}
            r = []
            for t in V[sign]:
                t = subst(subst(t, env), env0)
                r.append(t)
            return r
        for (cj_, hj, ej), (cm, hm, em) in itertools.product(axis_cases(j, N[1]), axis_cases(m, N[2])):
            ci_, hi, ei = axis_cases(i, N[0])[icase]
            env0 = {}; env0.update(ei); env0.update(ej); env0.update(em)
            name = "%s mode (%s, %s, %s)" % (nm, ci_, cj_, cm)
            for un in (0, 1):
                e1 = dict(env0); e1[UN] = const(un)
                hyps_cache.clear()
                hy = [subst(c, e1) for c in MESH + hi + hj + hm]
                hy = [c for c in hy if c is not TRUE]
                neg_ = [ZERO if c == "0" else (x if c == "=" else sub(n, x)) for c, x, n in ((ci_, i, N[0]), (cj_, j, N[1]), (cm, m, N[2]))]
                s1 = -1 if cm == ">" else 1
                s2 = -1 if cm == "<" else 1
                anchors = [subst(x, e1) for x in (i, j, m)] + [subst(sub(n, x), e1) for n, x in ((N[0], i), (N[1], j), (N[2], m))] + [ZERO]
                A = [canon(simp(subst(t, e1), hy), hy, anchors) for t in value(i, j, m, s1, hy, e1)]
                B = [canon(simp(subst(t, e1), hy), hy, anchors) for t in value(*neg_, s2, hy, e1)]
                P.prove("%s, unitary=%d: real part of the conjugate mode" % (name, un), hy, eq(A[0], B[0]), 5.0, replay=rp)
                P.prove("%s, unitary=%d: imaginary part of the conjugate mode" % (name, un), hy, eq(A[1], neg(B[1])), 5.0, replay=rp)
                if "<" not in (ci_, cj_, cm) and ">" not in (ci_, cj_, cm):
                    P.prove("%s, unitary=%d: self-conjugate mode is real" % (name, un), hy, eq(A[1], 0), 5.0, replay=rp)
                if (ci_, cj_, cm) == ("0", "0", "0"):
                    P.prove("%s, unitary=%d: zero mode" % (name, un), hy, and_(eq(A[0], 0), eq(A[1], 0)), 5.0, replay=rp)
                elif un:
                    n2 = add(mul(A[0], A[0]), mul(A[1], A[1]))
                    env = {}
                    ax = []
                    for x in subterms(n2):
                        if x.op == "app" and x.args[0] in ("cos", "sin"): ax.append(x.args[1])
                    ax = list(dict.fromkeys(ax))
                    hx = [eq(add(power(app("cos", [y], "R"), 2), power(app("sin", [y], "R"), 2)), 1) for y in ax]
                    P.prove("%s: unit modulus" % name, hy + hx, eq(n2, 1), 5.0, replay=rp)
    except Unsupported as e:
        P.put("%s hermitian case %d" % (nm, icase), "undecided", "-", time.time() - t0, "not within reach: %s" % e)

def t_refine(P, prop, fname, elsize):
    """cubic even meshes: modes below the Nyquist frequency do not depend on the mesh"""
    nm = fname.strip("_") + " refinement"
    t0 = time.time()
    rp = lambda env: replays("C12")
    try:
        half = elsize // 2
        V = spec_values(collect(P, prop, fname, elsize, True), half)
        i, j, m = I("i"), I("j"), I("m")
        f = [I("f%d" % d) for d in range(3)]
        def at(h, signs):
            n = mul(2, h)
            hy = [ge(h, 1)] + [ge(x, 1) for x in f if True]
            env = {}
            pos = []
            for d, s in enumerate(signs):
                pos.append(ZERO if s == 0 else (f[d] if s > 0 else sub(n, f[d])))
            hy = [ge(h, 1)] + [c for d, s in enumerate(signs) if s for c in (ge(f[d], 1), lt(f[d], h))]
            e = {i: pos[0], j: pos[1], m: pos[2], N[0]: n, N[1]: n, N[2]: n}
            out = []
            for un in (0, 1):
                hyps_cache.clear()
                for t in V[1 if signs[2] >= 0 else -1]:
                    t = subst(subst(t, e), {UN: const(un)})
                    t = canon(simp(t, hy), hy, [ZERO] + [x for d in range(3) for x in (f[d], sub(n, f[d]))])
                    # seeds by signed row number
                    def go(x):
                        if x.op == "app" and x.args[0] == "ROW":
                            a = []
                            for y in x.args[1:]:
                                if entails(hy, and_(ge(y, 0), lt(y, h)), 1.0): a.append(y)
                                elif entails(hy, and_(gt(y, h), lt(y, n)), 1.0): a.append(sub(y, n))
                                else: raise Unsupported("row %s" % show(y))
                            return app("ROWF", a, "I")
                        if x.op == "app" and str(x.args[0]).startswith("iter:"): return iterf(x.args[0], go(x.args[1]), go(x.args[2]))
                        return rebuild(x, go) if x.op not in ("var", "num", "bool", "fn") else x
                    out.append(go(t))
            return hy, out
        for signs in itertools.product((0, 1, -1), repeat=3):
            h1, o1 = at(I("hA"), signs); h2, o2 = at(I("hB"), signs)
            for n, (a, b) in enumerate(zip(o1, o2)):
                P.prove("%s: mode %s, %s%s" % (nm, "".join("0+-"[s] for s in signs), "re" if n % 2 == 0 else "im", ", unitary" if n > 1 else ""), h1 + h2, eq(a, b), 5.0, replay=rp)
    except Unsupported as e:
        P.put(nm, "undecided", "-", time.time() - t0, "not within reach: %s" % e)

def t_top(P, prop):
    """pmesh_whitenoise_generator_fill picks the routine of the item size and passes canvas and seed"""
    nm = "pmesh_whitenoise_generator_fill"
    P.functions.add("_whitenoise: " + nm)
    for elsize in (16, 8):
        t0 = time.time()
        try:
            calls = []
            def mkc(n):
                def c(ex, st, v): calls.append((n, v, [st.mem["G.seedtable"].cells.get(q) for q in range(4)])); return None
                return c
            def calloc(ex, st, v):
                r = "tabmem%d" % ex.nfresh; ex.nfresh += 1
                st.mem[r] = Reg("u32", lambda i: ZERO)
                calls.append(("calloc", v, None))
                return (Ptr(r, ZERO, "u32"), ("ptr", "void"))
            con = {"_generic_fill_double": mkc("double"), "_generic_fill_float": mkc("float"), "calloc": calloc, "free": lambda ex, st, v: None}
            ex = Exec(source(), con); st = State()
            g = generator(ex, st, elsize)
            for c in MESH + INBLOCK: st.assume(c)
            ex.call_body(st, nm, [(g, ("ptr", "x"))])
            fills = [c for c in calls if c[0] != "calloc"]
            ok = len(fills) == 1 and fills[0][0] == ("double" if elsize == 16 else "float")
            P.put("%s: item size %d uses the routine of that type" % (nm, elsize), "proved" if ok else "refuted", "normal-form", time.time() - t0, repr([c[0] for c in fills]), replays(prop) + [dict(r, params=dict(r["params"], dtype="c8")) for r in replays(prop) if "dtype" in r["params"]])
            if ok:
                v = fills[0][1]
                ok = isinstance(v[1][0], Ptr) and v[1][0].reg == "canvas" and v[1][0].off is ZERO and v[2][0] is SEED
                P.put("%s: item size %d: canvas and seed are passed" % (nm, elsize), "proved" if ok else "refuted", "normal-form", 0.0, repr(v[1:]), replays(prop))
                tabs = fills[0][2]
                ok = all(isinstance(x, Ptr) and x.reg.startswith("tabmem") and x.off is ZERO for x in tabs) and len({x.reg for x in tabs}) == 4
                P.put("%s: item size %d: four separate seed tables" % (nm, elsize), "proved" if ok else "refuted", "normal-form", 0.0, repr(tabs), replays(prop))
                for n, c in enumerate(x for x in calls if x[0] == "calloc"):
                    P.prove("%s: item size %d: table %d holds a seed for each row of the block" % (nm, elsize, n), MESH + INBLOCK, ge(mul(c[1][0][0], c[1][1][0]), mul(4, mul(Z[0], Z[1]))), replay=lambda env: replays(prop, env))
        except Unsupported as e:
            P.put(nm + " item size %d" % elsize, "undecided", "-", time.time() - t0, "not within reach: %s" % e)

FILLS = (("_generic_fill_double", 16), ("_generic_fill_float", 8))
def run_task(t):
    P = Obs()
    t0 = time.time()
    try: globals()[t[0]](P, *t[1:])
    except Exception:
        import traceback
        P.put(repr(t), "undecided", "-", 0.0, "prover error " + traceback.format_exc()[-700:])
    return P.obs, P.assumptions, P.functions, set(), (t, time.time() - t0)

def prove(prop, tier):
    from .p_window import pool_run, Res
    source()
    tasks = []
    for fn_, el in FILLS:
        if prop == "C11": tasks += [("t_hermitian", prop, fn_, el, c) for c in range(4)]
        tasks += [("t_fill", prop, fn_, el, True), ("t_fill", prop, fn_, el, False), ("t_same", prop, fn_, el), ("t_ring", prop, fn_, el)]
        if prop == "C12": tasks += [("t_refine", prop, fn_, el)]
    tasks += [("t_setseed", prop), ("t_getseed", prop), ("t_sample", prop), ("t_top", prop)]
    rs = pool_run(run_task, tasks)
    R_ = Res(); R_.obs = []; R_.assumptions = list(ASSUME); R_.functions = []
    for obs, asm, fns, _, tt in rs: R_.obs += obs; R_.functions += list(fns)
    R_.assumptions.append("induction over the sequence of SETSEED calls: the local tables hold ROW of the (conjugate) row, by the contract of SETSEED")
    R_.notes = ["slowest proof tasks: %s" % [(repr(x[4][0]), round(x[4][1], 1)) for x in sorted(rs, key=lambda x: -x[4][1])[:4]]]
    return R_

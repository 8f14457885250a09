"""Contracts of the C window code (pmesh/_window_imp.c and the headers it includes), discharged on the current source."""
import os, random, time, itertools
from fractions import Fraction as Fr
from .term import *
from .csym import *
from .solve import Obs, check, entails, feasible
from .match import align, apply, delta_lift
from . import build

REPO = build.REPO
FILES = ["pmesh/_window_imp.c"]
R = lambda n: var(n, "R")
I = lambda n: var(n, "I")

class Ctx: pass
_src = None
def source():
    global _src
    if _src is None:
        d = os.path.join(REPO, "pmesh")
        _src = Source(os.path.join(d, "_window_imp.c"), [d])
    return _src

# ---------------------------------------------------------------- mathematical windows
def bspline(p, x):
    """B-spline of order p (support p), as a term"""
    a = absv(x)
    if p == 1: return ite(and_(lt(x, Fr(1, 2)), ge(x, Fr(-1, 2))), ONE, ZERO)
    if p == 2: return ite(lt(a, 1), sub(ONE, a), ZERO)
    if p == 3:
        t = sub(Fr(3, 2), a)
        return ite(lt(a, Fr(1, 2)), sub(Fr(3, 4), mul(a, a)), ite(lt(a, Fr(3, 2)), mul(Fr(1, 2), mul(t, t)), ZERO))
    if p == 4:
        t = sub(const(2), a)
        return ite(lt(a, 1), mul(Fr(1, 6), add(4, mul(-6, power(a, 2)), mul(3, power(a, 3)))), ite(lt(a, 2), mul(Fr(1, 6), power(t, 3)), ZERO))
def bspline_diff(p, x):
    a = absv(x)
    sg = ite(lt(x, 0), const(-1), ONE)
    if p == 1: return ZERO
    if p == 2: return ite(lt(a, 1), neg(sg), ZERO)
    if p == 3: return ite(lt(a, Fr(1, 2)), mul(-2, x), ite(lt(a, Fr(3, 2)), mul(neg(sg), sub(Fr(3, 2), a)), ZERO))
    if p == 4: return ite(lt(a, 1), mul(sg, mul(Fr(1, 6), add(mul(-12, a), mul(9, power(a, 2))))), ite(lt(a, 2), mul(neg(sg), mul(Fr(1, 2), power(sub(2, a), 2))), ZERO))
KINKS = {1: [Fr(-1, 2), Fr(1, 2)], 2: [Fr(-1), Fr(0), Fr(1)], 3: [], 4: []}

POLY = {"NEAREST": 1, "LINEAR": 2, "QUADRATIC": 3, "CUBIC": 4, "TUNED_NNB": 1, "TUNED_CIC": 2, "TUNED_TSC": 3, "TUNED_PCS": 4}
TABLE = dict(LANCZOS2=4, LANCZOS3=6, LANCZOS4=8, LANCZOS5=10, LANCZOS6=12, ACG2=2, ACG3=3, ACG4=4, ACG5=5, ACG6=6,
             DB6=7, DB12=10, DB20=13, SYM6=7, SYM12=10, SYM20=12)
PYKIND = dict(TUNED_NNB="tunednnb", TUNED_CIC="tunedcic", TUNED_TSC="tunedtsc", TUNED_PCS="tunedpcs")
TYPES = list(POLY) + list(TABLE)

# ---------------------------------------------------------------- symbolic painter
class Geo:
    """symbols of a painter call; g_d = pos_d * scale_d + translate_d (translate is eliminated: any real)"""
    def __init__(self, nd):
        self.nd = nd
        D = range(nd)
        self.g = [R("g%d" % d) for d in D]; self.pos = [R("pos%d" % d) for d in D]; self.scale = [R("scale%d" % d) for d in D]
        self.N = [I("N%d" % d) for d in D]; self.size = [I("size%d" % d) for d in D]; self.stride = [I("stride%d" % d) for d in D]
        self.order = [I("order%d" % d) for d in D]
        self.weight = R("weight"); self.sup = R("sup"); self.S0 = I("S0"); self.ns = I("ns")
        self.S = I("S"); self.sh = I("lshift")
        self.hyps = [ge(x, 0) for x in self.N] + [ge(x, 0) for x in self.size] + [ge(x, 0) for x in self.order] + [le(x, 1) for x in self.order]
        self.hyps += [gt(self.sup, 0), ge(self.S0, 1), ge(self.ns, 1), ge(self.S, 1), lt(sub(self.S, 1), self.sup), le(self.sup, self.S)]
    def hsml(self): return div(self.sup, self.S0)
    def vf(self, native=False): return ONE if native else div(self.ns, self.sup)

def painter(ex, st, geo, elsize, type_=None, fns=None, prefix="P"):
    ex.declare(st, prefix, ("struct", "PMeshPainter"))
    def setf(f, v): st.mem[prefix + "." + f].cells[0] = mk(v) if not isinstance(v, Ptr) else v
    setf("ndim", geo.nd); setf("support", geo.S0)
    setf("canvas", Ptr("canvas", ZERO, "void")); setf("canvas_dtype_elsize", elsize)
    if type_ is not None: setf("type", type_)
    for d in range(geo.nd):
        for f, v in (("order", geo.order[d]), ("scale", geo.scale[d]), ("translate", sub(geo.g[d], mul(geo.pos[d], geo.scale[d]))),
                     ("Nmesh", geo.N[d]), ("size", geo.size[d]), ("strides", geo.stride[d])):
            st.mem[prefix + "." + f].cells[d] = v
    st.mem["canvas"] = Reg("char", None, True)
    st.mem["pos"] = Reg("double", None, False, geo.nd)
    for d in range(geo.nd): st.mem["pos"].cells[d] = geo.pos[d]
    if fns is not None:
        for f, v in fns.items(): setf(f, v)
    return SPtr(prefix, "PMeshPainter")

UF = dict(kernel=var("K", "F"), diff=var("DK", "F"), fwindow=var("FW", "F"), paint=var("PAINT", "F"), readout=var("READOUT", "F"))
def kcontracts():
    return {"K": lambda ex, st, v: (app("K", [v[0][0]], "R"), "double"), "DK": lambda ex, st, v: (app("DK", [v[0][0]], "R"), "double"),
            "FW": lambda ex, st, v: (app("FW", [v[0][0]], "R"), "double")}

# contracts used at call sites -----------------------------------------------------------------
def c_info_init(geo):
    """pmesh_window_info_init(info, ndim, nativesupport, support > 0): support = ceil, vfactor = ns/support,
       shift - left = support/2 - ceil(support) + 1"""
    def h(ex, st, v):
        p, ns, sup = v[0][0], v[2][0], v[3][0]
        if not isinstance(p, SPtr): raise Unsupported("info_init argument")
        ex.oblige("call of pmesh_window_info_init: the arguments are the native support and the scaled support", st.pc, and_(eq(ns, geo.ns), eq(sup, geo.sup)))
        def setf(f, x): st.mem[p.prefix + "." + f] = Reg("double" if f in ("vfactor", "shift") else "int", None, False, 1); st.mem[p.prefix + "." + f].cells[0] = x
        setf("support", geo.S); setf("left", geo.sh); setf("vfactor", geo.vf())
        setf("shift", add(mul(Fr(1, 2), geo.sup), neg(geo.S), 1, geo.sh)); setf("Npoints", ex.fresh("Npoints"))
        return None
    return h

def i0_spec(geo, d): return add(floor(add(geo.g[d], mul(Fr(1, 2), geo.sup))), neg(geo.S), 1)
def w_spec(geo, d, j, i0=None, vf=None):
    i0 = i0 if i0 is not None else i0_spec(geo, d)
    vf = vf if vf is not None else geo.vf()
    x = mul(sub(sub(geo.g[d], i0), j), vf)
    return ite(eq(geo.order[d], 0), mul(app("K", [x], "R"), vf), mul(mul(app("DK", [x], "R"), geo.scale[d]), mul(vf, vf)))

def c_fill_k(geo):
    def h(ex, st, v):
        win, pos, ipos, k = v[1][0], v[2][0], v[3][0], v[4][0]
        if not (isinstance(pos, Ptr) and pos.reg == "pos" and pos.off is ZERO and isinstance(win, SPtr) and isinstance(ipos, Ptr) and isinstance(k, Ptr)): raise Unsupported("_fill_k arguments")
        # the precondition: the window is the initialised one
        ex.oblige("call of _fill_k: the window info is initialised", st.pc, and_(eq(ex.read(st, win.prefix + ".support", 0), geo.S), eq(ex.read(st, win.prefix + ".vfactor", 0), geo.vf()),
                  eq(sub(ex.read(st, win.prefix + ".shift", 0), ex.read(st, win.prefix + ".left", 0)), add(mul(Fr(1, 2), geo.sup), neg(geo.S), 1))))
        b = ex.fresh("i")
        for d in range(geo.nd):
            ex.write(st, ipos.reg, add(ipos.off, d), i0_spec(geo, d))
            r = st.mem[k.reg].copy()
            r.log = r.log + (("map", b, ZERO, geo.S, add(k.off, mul(geo.S, d), b), w_spec(geo, d, b), TRUE),)
            st.mem[k.reg] = r
        return None
    return h

# ---------------------------------------------------------------- specification of the deposits
def site_spec(geo, idx):
    """(guard, address) of lattice site idx (per axis)"""
    c = [ite(gt(n, 0), M(i, n), i) for i, n in zip(idx, geo.N)]
    g = and_(*[and_(ge(x, 0), lt(x, s)) for x, s in zip(c, geo.size)])
    return g, add(*[mul(s, x) for s, x in zip(geo.stride, c)])

def envs_for(geo, n, seed, extra=(), native=None):
    """random valuations satisfying the preconditions, dyadic so that the real code can be run on them exactly"""
    rng = random.Random(seed)
    out = []
    for k in range(n):
        e = {}
        od = rng.randrange(-1, geo.nd)
        for d in range(geo.nd):
            s = rng.randrange(1, 8); e[geo.size[d]] = Fr(s)
            e[geo.N[d]] = Fr(rng.choice([0, s, s, s + rng.randrange(1, 4), max(1, s - 1)]))
            e[geo.stride[d]] = Fr(rng.randrange(-4000, 4000))
            e[geo.order[d]] = Fr(1 if d == od else 0)
            e[geo.scale[d]] = Fr(rng.choice([1, 2, Fr(1, 2), -1, 3]))
            e[geo.pos[d]] = Fr(rng.randrange(-300, 300), 16)
            m = rng.randrange(4)
            e[geo.g[d]] = Fr(rng.randrange(-3 * s * 64, 4 * s * 64), 64) if m else Fr(rng.randrange(-3 * s * 2, 4 * s * 2), 2)
        ns = native or rng.randrange(1, 8); e[geo.ns] = Fr(ns)
        if native and extra == "native": sup = Fr(native)
        else: sup = Fr(rng.choice([ns, ns, rng.randrange(1, 9), Fr(rng.randrange(1, 36), 4)]))
        e[geo.sup] = sup
        e[geo.S] = Fr(-((-sup.numerator) // sup.denominator)); e[geo.S0] = Fr(rng.randrange(1, 9)) if not native else Fr(native)
        e[geo.sh] = Fr(rng.randrange(0, 5))
        e[geo.weight] = Fr(rng.randrange(-16, 17), 4)
        out.append(e)
    return out

def expand(events, env, funcs, cache=None):
    """concrete deposits {address: value} of a family of events"""
    out = {}
    def rec(bs, e, ev):
        if not bs:
            c = {}
            if evalt(ev.guard, e, funcs, c):
                a = evalt(ev.addr, e, funcs, c)
                out[a] = out.get(a, Fr(0)) + evalt(ev.val, e, funcs, c)
            return
        b, lo, hi = bs[0]
        for v in range(int(evalt(lo, e, funcs)), int(evalt(hi, e, funcs))):
            rec(bs[1:], dict(e, **{}) | {b: Fr(v)}, ev)
    for ev in events: rec(list(ev.binders), env, ev)
    return {a: v for a, v in out.items() if v != 0}

def replay_case(kind, geo, env, case, nat):
    nd = geo.nd
    od = [d for d in range(nd) if env[geo.order[d]] != 0]
    if len(od) > 1: return []
    out = []
    for layout in ("C", "F", "pad"):
        sc = [float(env[geo.scale[d]]) or 1.0 for d in range(nd)]
        if any(x == 0 for x in sc): return []
        tr = [float(env[geo.g[d]] - env[geo.pos[d]] * env[geo.scale[d]]) for d in range(nd)]
        size = [int(min(max(env[geo.size[d]], 1), 40 if nd == 1 else 12)) for d in range(nd)]
        out.append(dict(case=case, params=dict(kind=kind, support=-1, size=size, period=[int(min(env[geo.N[d]], 10**6)) for d in range(nd)], scale=sc, translate=tr,
            order=[0] * nd, diffdir=od[0] if od else None, pos=[[float(env[geo.pos[d]]) for d in range(nd)]], mass=[float(env[geo.weight]) or 1.0],
            hsml=[float(env[geo.sup]) / nat], dtype="f8", layout=layout, ptype="f8", mtype="f8", htype="f8", readonly=0, cseed=1)))
    return out

REPLAY = {"C06": "paint", "C07": "readout", "C08": "conserve", "C09": "gradient-weights", "C10": "fwindow"}

def math_funcs(p):
    """numeric interpretations of K and DK by the order-p spline"""
    x = R("xx")
    kt, dt = bspline(p, x), bspline_diff(p, x)
    return {"K": lambda v: evalt(kt, {x: v}), "DK": lambda v: evalt(dt, {x: v}) if v not in KINKS[p] else Fr(0)}

def compare_events(ob, name, geo, code, spec, hyps, envs, prop, replay_kind=None, nat=None, funcs=None):
    """both families deposit the same: multiset equality of (binders, guard, address, value) after alignment"""
    t0 = time.time()
    def norm(ev, box):
        env = {}
        for (b, lo, hi), (b2, lo2, hi2) in zip(ev.binders, box): env[b] = b2
        return env
    status = None
    try:
        if any(e.kind == "set" for e in code): raise Unsupported("the mesh is overwritten, not added to")
        code2 = code
        if len(code) == 1 and len(spec) == 1 and len(code[0].binders) == len(spec[0].binders):
            box = spec[0].binders
            env = {b[0]: b2[0] for b, b2 in zip(code[0].binders, box)}
            e = code[0]
            code2 = [Event(e.kind, e.reg, subst(e.addr, env), subst(e.val, env), subst(e.guard, env), tuple((env[b], subst(lo, env), subst(hi, env)) for b, lo, hi in e.binders), e.ety)]
        bh = []
        for ev in spec:
            for b, lo, hi in ev.binders: bh += [le(lo, b), lt(b, hi)]
        bh = list(dict.fromkeys(bh))
        H = list(hyps) + bh
        # valuations of the binders too
        ev2 = []
        rng = random.Random(5)
        for e in envs[:8]:
            e = dict(e)
            for x in spec:
                for b, lo, hi in x.binders: e[b] = Fr(rng.randrange(int(evalt(lo, e)), int(evalt(hi, e))))
            ev2.append(e)
        ct = [t for e in code2 for t in (e.addr, e.val, e.guard)]; stt = [t for e in spec for t in (e.addr, e.val, e.guard)]
        al = align(ct, stt, H, ev2, funcs)
        def key(e, al=None):
            f = (lambda t: apply(al, t)) if al else (lambda t: t)
            return (e.binders, f(e.guard), f(e.addr), f(e.val))
        from collections import Counter
        ck, sk = Counter(key(e, al) for e in code2), Counter(key(e) for e in spec)
        dead = lambda k: k[3] is ZERO or k[1] is FALSE
        miss = [k for k in (ck - sk).elements() if not dead(k)]; want = [k for k in (sk - ck).elements() if not dead(k)]
        left = []
        n = 0
        for k in miss:
            hit = None
            for w in want:
                if k[0] != w[0]: continue
                if not (k[2] is w[2] or k[3] is w[3] or len(miss) == 1 or k[1] is w[1]): continue
                n += 1
                if n > 200: break
                if check(H, or_(and_(not_(k[1]), not_(w[1])), and_(k[1], w[1], eq(k[2], w[2]), eq(k[3], w[3]))), 3.0, cex=False)[0] == "proved": hit = w; break
            if hit is None: left.append(k)
            else: want.remove(hit)
        if not left and not want:
            return ob.put(name, "proved", "z3" if (al or miss) else "normal-form", time.time() - t0)
        why = "%d deposits of the code not in the specification, %d missing; first: %s / %s" % (len(left), len(want), [show(x)[:200] for x in (left[0][1:] if left else ())], [show(x)[:200] for x in (want[0][1:] if want else ())])
    except Unsupported as e:
        why = str(e)
    # look for a valuation on which they differ
    bad = []
    for e in envs:
        try:
            a, b = expand(code, e, funcs), expand(spec, e, funcs)
        except (EvalError, ZeroDivisionError): continue
        if a != b:
            bad.append(e)
            if len(bad) >= 6: break
    if bad:
        rp = []
        if replay_kind:
            for e in bad: rp += replay_case(replay_kind, geo, e, REPLAY.get(prop, "paint"), nat)
        return ob.put(name, "refuted", "exact evaluation", time.time() - t0, why + "; differs at " + str({show(k): str(v) for k, v in bad[0].items()}), rp)
    return ob.put(name, "undecided", "z3", time.time() - t0, why)

# ---------------------------------------------------------------- proofs
class Prover:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.ob = Obs()
        self.src = source()
        self.done = {}
        self.ok_info = self.ok_fill = {}

    def ex(self, contracts=None):
        c = dict(kcontracts()); c.update(contracts or {})
        return Exec(self.src, c)

    def side(self, ex, name):
        for n, h, g in ex.side: self.ob.put("%s: %s" % (name, n), "proved", "z3")
        for f in ex.inlined: self.ob.functions.add("_window: " + f)

    def fail(self, name, e): self.ob.put(name, "undecided", "-", 0.0, "not within reach: %s" % e)

    # pmesh_window_info_init
    def info_init(self):
        if "info" in self.done: return self.done["info"]
        ok = True
        for nd in (0, 1, 2, 3, 4):
            name = "pmesh_window_info_init[ndim=%d]" % nd
            for nm, c in (("scaled", lambda s: gt(s, 0)), ("native", lambda s: le(s, 0))):
                try:
                    ex = self.ex(); st = State()
                    ex.declare(st, "W", ("struct", "PMeshWindowInfo"))
                    ns, sup = I("ns"), R("sup")
                    st.assume(ge(ns, 1)); st.assume(c(sup))
                    ex.call_body(st, "pmesh_window_info_init", [(SPtr("W", "PMeshWindowInfo"), ("ptr", ("struct", "PMeshWindowInfo"))), (const(nd), "int"), (ns, "int"), (sup, "double")])
                    rd = lambda f: ex.read(st, "W." + f, 0)
                    s = sup if nm == "scaled" else ns
                    H = list(st.pc)
                    S = neg(floor(neg(s)))
                    ok &= self.ob.prove("%s %s: support is the ceiling" % (name, nm), H, eq(rd("support"), S), replay=self._rp_info)
                    ok &= self.ob.prove("%s %s: vfactor is native over scaled support" % (name, nm), H, eq(mul(rd("vfactor"), s), ns), replay=self._rp_info)
                    ok &= self.ob.prove("%s %s: shift - left centres the support" % (name, nm), H, eq(sub(rd("shift"), rd("left")), add(mul(Fr(1, 2), s), neg(S), 1)), replay=self._rp_info)
                    self.side(ex, name)
                except Unsupported as e:
                    self.fail(name, e); ok = False
        self.ob.functions.add("_window: pmesh_window_info_init")
        self.done["info"] = ok
        return ok

    def _rp_info(self, env):
        sup = float(env.get(R("sup"), 1)); ns = int(env.get(I("ns"), 2))
        out = []
        for kind, n in (("nearest", 1), ("linear", 2), ("quadratic", 3), ("cubic", 4)):
            for g in (5.25, 6.5, 7.125):
                out.append(dict(case=REPLAY[self.prop] if self.prop in ("C06", "C07") else "paint", params=dict(kind=kind, support=-1, size=[24], period=[24], scale=[1.0], translate=[0.0], order=[0], diffdir=None, pos=[[g]], mass=[1.0], hsml=[abs(sup) / n if sup else 1.0],
                        dtype="f8", layout="C", ptype="f8", mtype="f8", htype="f8", readonly=0, cseed=1)))
        return out

    def fill_k(self, nd):
        if ("fill", nd) in self.done: return self.done["fill", nd]
        name = "_fill_k[ndim=%d]" % nd
        ok = True
        try:
            geo = Geo(nd)
            ex = self.ex(); st = State()
            for h in geo.hyps: st.assume(h)
            P = painter(ex, st, geo, 8, fns=UF)
            ex.declare(st, "W", ("struct", "PMeshWindowInfo"))
            for f, v in (("support", geo.S), ("left", geo.sh), ("vfactor", geo.vf()), ("shift", add(mul(Fr(1, 2), geo.sup), neg(geo.S), 1, geo.sh))): st.mem["W." + f].cells[0] = v
            st.mem["k"] = Reg("double"); st.mem["ip"] = Reg("int", None, False, nd)
            ex.call_body(st, "_fill_k", [(P, ("ptr", ("struct", "PMeshPainter"))), (SPtr("W", "PMeshWindowInfo"), ("ptr", ("struct", "PMeshWindowInfo"))), (Ptr("pos", ZERO, "double"), ("ptr", "double")),
                (Ptr("ip", ZERO, "int"), ("ptr", "int")), (Ptr("k", ZERO, "double"), ("ptr", "double"))])
            j = I("j")
            H = list(st.pc) + [le(0, j), lt(j, geo.S)]
            st2 = st.fork()
            for h in H: st2.assume(h)
            for d in range(nd):
                ok &= self.ob.prove("%s: leftmost site of axis %d" % (name, d), H, eq(ex.read(st2, "ip", d), i0_spec(geo, d)), replay=lambda env, d=d: self._rp_geo(geo, env))
                ok &= self.eqnum("%s: weight j of axis %d" % (name, d), H, ex.read(st2, "k", add(mul(geo.S, d), j)), w_spec(geo, d, j), geo, extra=[j])
            self.side(ex, name)
        except Unsupported as e:
            self.fail(name, e); ok = False
        self.done["fill", nd] = ok
        self.ob.functions.add("_window: _fill_k")
        return ok

    def eqnum(self, name, H, a, b, geo, extra=(), native=None, funcs=None):
        """equality with alignment, then z3, then exact evaluation for a counterexample"""
        t0 = time.time()
        if a is b: return self.ob.put(name, "proved", "normal-form", time.time() - t0)
        envs = envs_for(geo, 40, 11, native=native)
        for e in envs:
            for v in extra: e[v] = Fr(random.Random(str(e)).randrange(0, int(e[geo.S])))
        al = align([a], [b], H, envs[:8], funcs)
        a2 = apply(al, a)
        if a2 is b: return self.ob.put(name, "proved", "z3" if al else "normal-form", time.time() - t0)
        bad = []
        for e in envs:
            try:
                if evalt(a, e, funcs) != evalt(b, e, funcs): bad.append(e)
            except EvalError: pass
        if bad:
            rp = []
            for e in bad[:4]: rp += self._rp_geo(geo, e)
            self.ob.put(name, "refuted", "exact evaluation", time.time() - t0, "%s differs from %s at %s" % (show(a)[:300], show(b)[:300], {show(k): str(v) for k, v in bad[0].items()}), rp)
            return False
        st, info = check(H, eq(a2, b), 4.0)
        if st == "proved": return self.ob.put(name, "proved", info, time.time() - t0)
        self.ob.put(name, "undecided", "z3", time.time() - t0, "%s = %s: %s" % (show(a2)[:300], show(b)[:300], info))
        return False

    def _rp_geo(self, geo, env):
        out = []
        env = dict(env)
        for v, dflt in [(x, 0) for x in geo.order] + [(x, 1) for x in geo.scale] + [(x, 8) for x in geo.size] + [(x, 0) for x in geo.N] + [(x, 0) for x in geo.pos] + [(x, Fr(13, 4)) for x in geo.g] + [(geo.weight, 1), (geo.sup, 2), (geo.S, 2)]:
            env.setdefault(v, Fr(dflt))
        case = REPLAY[self.prop] if self.prop in ("C06", "C07", "C09") else "paint"
        for kind, n in (("nearest", 1), ("linear", 2), ("quadratic", 3), ("cubic", 4), ("tunedcic", 2)):
            if env[geo.sup] > 20 or env[geo.sup] < Fr(1, 8): env[geo.sup] = Fr(n)
            out += replay_case(kind, geo, env, case, n)
        return out

    # generic paint / readout, symbolic support
    def generic(self, fname, nd, elsize, what):
        key = ("gen", fname, nd, elsize)
        if key in self.done: return self.done[key]
        name = "%s[ndim=%d]" % (fname, nd)
        ok = False
        geo = Geo(nd)
        hyps = list(geo.hyps)
        use = {}
        if self.info_init(): use["pmesh_window_info_init"] = c_info_init(geo)
        if nd <= 4 and self.fill_k(nd): use["_fill_k"] = c_fill_k(geo)
        fl = "double" if elsize in (8, 16) else "float"
        fast = []
        def getfast(ex, st, v):
            # contract of getfastmethod: 0, or the window is the unscaled native one and the pointers are fast methods
            b = ex.fresh("fast", "B")
            w = v[1][0]
            for p, f in ((v[2][0], "FASTPAINT"), (v[3][0], "FASTREADOUT")):
                st.mem[p.reg] = st.mem[p.reg].copy()
                old = st.mem[p.reg].cells.get(0)
                st.mem[p.reg].cells[0] = ite(b, fn(f), old if old is not None else fn("UNINIT"))
            if isinstance(w, SPtr):
                st.assume(implies(b, and_(eq(ex.read(st, w.prefix + ".support", 0), geo.ns), eq(ex.read(st, w.prefix + ".vfactor", 0), ONE))))
            fast.append(b)
            return (ite(b, ONE, ZERO), "int")
        def fastcall(nm):
            def h(ex, st, v):
                good = isinstance(v[0][0], SPtr) and isinstance(v[1][0], Ptr) and v[1][0].reg == "pos" and v[1][0].off is ZERO
                if nm == "FASTPAINT":
                    st.events = st.events + (Event("add", "FAST", ZERO, v[2][0] if good else ex.fresh("badcall", "R")),)
                    return None
                return (R("FASTVALUE") if good else ex.fresh("badcall", "R"), "double")
            return h
        use.update(GETFAST=getfast, FASTPAINT=fastcall("FASTPAINT"), FASTREADOUT=fastcall("FASTREADOUT"))
        def run(hasfast, geo, S=None, hyps=hyps):
            ex = self.ex(use); st = State()
            for h in hyps: st.assume(h)
            fns = dict(UF); fns["getfastmethod"] = var("GETFAST", "F") if hasfast else NULL
            fns["nativesupport"] = geo.ns
            if hasfast: st.assume(ne(var("GETFAST", "F"), NULL))
            P = painter(ex, st, geo, elsize, fns=fns)
            args = [(P, ("ptr", ("struct", "PMeshPainter"))), (Ptr("pos", ZERO, "double"), ("ptr", "double"))]
            if what == "paint": args.append((geo.weight, "double"))
            args.append((geo.hsml(), "double"))
            r = ex.call_body(st, fname, args)
            return ex, st, r
        js = [I("site%d" % d) for d in range(nd)]
        def spec(geo):
            g, a = site_spec(geo, [add(i0_spec(geo, d), js[d]) for d in range(nd)])
            w = prod([w_spec(geo, d, js[d]) for d in range(nd)])
            return g, a, w
        nfast = None
        try:
            for hasfast in (False, True):
                ex, st, r = run(hasfast, geo)
                nm = name + (" with a fast method" if hasfast else "")
                g, a, w = spec(geo)
                box = tuple((j, ZERO, geo.S) for j in js)
                if what == "paint":
                    code = list(st.events)
                    if hasfast:
                        bfast = fast[-1]
                        fev = [e for e in code if e.reg == "FAST"]; gev = [e for e in code if e.reg != "FAST"]
                        ok1 = len(fev) == 1 and fev[0].val is geo.weight
                        self.ob.put(nm + ": delegates the whole deposit to the fast method, which requires the native support", "proved" if ok1 and entails(list(st.pc) + [fev[0].guard], bfast) and entails(list(st.pc) + [bfast], fev[0].guard) else "refuted", "normal-form", 0.0,
                                    "fast calls: %r" % fev)
                        H = [h for h in st.pc] + [not_(bfast)]
                        code = [Event(e.kind, e.reg, e.addr, e.val, subst(e.guard, {bfast: FALSE}), e.binders, e.ety) for e in gev]
                    else: H = list(st.pc)
                    for e in code:
                        if SIZEOF.get(e.ety) != (8 if fl == "double" else 4): self.ob.put(nm + ": access width", "refuted", "normal-form", 0, "accesses %s elements of a mesh of %s" % (e.ety, fl))
                    sp = [Event("add", "canvas", a, mul(geo.weight, w), g, box)]
                    ok = compare_events(self.ob, nm + ": deposits the window weight on every site of the support, once", geo, code, sp, H, envs_for(geo, 30, 3), self.prop, "cubic", 4)
                else:
                    val = r[0]
                    H = list(st.pc)
                    if hasfast:
                        bfast = fast[-1]
                        self.ob.put(nm + ": returns the value of the fast method", "proved" if subst(val, {bfast: TRUE}) is R("FASTVALUE") else "refuted", "normal-form", 0.0, show(val)[:300])
                        val = subst(val, {bfast: FALSE}); H = H + [not_(bfast)]
                    self.ob.put(nm + ": writes nothing to the mesh", "proved" if not st.events else "refuted", "normal-form", 0.0, repr(st.events)[:300])
                    ok = self.cmp_sum(nm + ": sums mesh times window weight over every site of the support, once", geo, val, box, g, a, w, H)
                if ex.odometers == 0: self.ob.put(nm + ": loop form", "proved", "normal-form", 0.0, "no counter loop")
                self.side(ex, nm)
        except Unsupported as e:
            # symbolic support is out of reach of the rewritten loop: bounded stand-in over concrete supports
            ok = self.generic_bounded(fname, nd, elsize, what, str(e))
        self.ob.functions.add("_window: " + fname)
        self.done[key] = ok
        return ok

    def cmp_sum(self, name, geo, val, box, g, a, w, H, funcs=None):
        t0 = time.time()
        t = val; env = {}; bs = []
        while t.op == "app" and t.args[0] == "SUM":
            b, lo, hi, body = t.args[1:]
            bs.append((b, lo, hi)); t = body
        if len(bs) != len(box): 
            return self.ob.put(name, "undecided", "-", 0, "value is not a sum over the support: %s" % show(val)[:300])
        env = {b[0]: b2[0] for b, b2 in zip(bs, box)}
        t = subst(t, env)
        if any(subst(x[1], env) is not y[1] or subst(x[2], env) is not y[2] for x, y in zip(bs, box)):
            return self.ob.put(name, "undecided", "-", 0, "range of the sum")
        spec = ite(g, mul(w, app("MEM:canvas@0", [a], "R")), ZERO)
        H = H + [x for b, lo, hi in box for x in (le(lo, b), lt(b, hi))]
        envs = envs_for(geo, 40, 7)
        rng = random.Random(3)
        for e in envs:
            for b, lo, hi in box: e[b] = Fr(rng.randrange(0, int(e[geo.S])))
        al = align([t], [spec], H, envs[:8], funcs)
        t2 = apply(al, t)
        if t2 is spec or check(H, eq(t2, spec), 5.0, cex=False)[0] == "proved":
            return self.ob.put(name, "proved", "z3", time.time() - t0)
        bad = []
        for e in envs:
            try:
                if evalt(t, e, funcs) != evalt(spec, e, funcs): bad.append(e)
            except EvalError: pass
        if bad:
            rp = []
            for e in bad[:5]: rp += self._rp_geo(geo, e)
            self.ob.put(name, "refuted", "exact evaluation", time.time() - t0, "term %s, specified %s" % (show(t2)[:300], show(spec)[:300]), rp)
            return False
        return self.ob.put(name, "undecided", "z3", time.time() - t0, "term %s, specified %s" % (show(t2)[:300], show(spec)[:300]))

    def generic_bounded(self, fname, nd, elsize, what, why):
        name = "%s[ndim=%d] support 1..%d" % (fname, nd, 6 if nd < 3 else 4)
        geo = Geo(nd)
        try:
            bad = None; t0 = time.time()
            for S in range(1, 7 if nd < 3 else 5):
                for frac in (0, 1):
                    geo = Geo(nd)
                    geo.S = const(S)
                    hyps = [subst(h, {I("S"): geo.S}) for h in geo.hyps]
                    ex = self.ex({}); st = State()
                    for h in hyps: st.assume(h)
                    geo.sup = const(Fr(S) - (Fr(1, 4) if frac else 0))
                    fns = dict(UF); fns["getfastmethod"] = NULL; fns["nativesupport"] = geo.ns
                    P = painter(ex, st, geo, elsize, fns=fns)
                    args = [(P, ("ptr", ("struct", "PMeshPainter"))), (Ptr("pos", ZERO, "double"), ("ptr", "double"))]
                    if what == "paint": args.append((geo.weight, "double"))
                    args.append((geo.hsml(), "double"))
                    r = ex.call_body(st, fname, args)
                    sp = []; acc = ZERO
                    for js in itertools.product(range(S), repeat=nd):
                        g, a = site_spec(geo, [add(i0_spec(geo, d), js[d]) for d in range(nd)])
                        w = prod([w_spec(geo, d, const(js[d])) for d in range(nd)])
                        sp.append(Event("add", "canvas", a, mul(geo.weight, w), g))
                        acc = add(acc, ite(g, mul(w, app("MEM:canvas@0", [a], "R")), ZERO))
                    envs = envs_for(geo, 12, S)
                    for e in envs:
                        d0 = 0
                    good = None
                    if what == "paint":
                        for e in envs:
                            if expand(list(st.events), e, None) != expand(sp, e, None): bad = e; break
                    else:
                        for e in envs:
                            if evalt(r[0], e) != evalt(acc, e): bad = e; break
                    if bad is not None:
                        bad = dict(bad); bad[geo.sup] = num(geo.sup); bad[R("sup")] = num(geo.sup)
                        g2 = Geo(nd)
                        self.ob.put(name, "refuted", "exact evaluation", time.time() - t0, "support %s at %s (%s)" % (geo.sup, {show(k): str(v) for k, v in bad.items()}, why), self._rp_geo(g2, bad))
                        return False
            return self.ob.put(name, "bounded", "exact evaluation", time.time() - t0, "supports 1..%d on sampled valuations; the unbounded argument needs: %s" % (S, why)) and False
        except (Unsupported, EvalError) as e:
            self.fail("%s[ndim=%d]" % (fname, nd), "%s / %s" % (why, e)); return False

    # the hand written fast methods
    def tuned(self, fname, p, nd, elsize, what):
        key = ("tuned", fname, p, nd, elsize)
        if key in self.done: return self.done[key]
        name = "%s (order %d spline)[ndim=%d]" % (fname, p, nd)
        kind = {1: "tunednnb", 2: "tunedcic", 3: "tunedtsc", 4: "tunedpcs"}[p]
        ok = False
        try:
            geo = Geo(nd)
            ex = self.ex(); st = State()
            hyps = [h for h in geo.hyps if not ({geo.sup, geo.S, geo.S0} & set(free_vars(h)))]
            for h in hyps: st.assume(h)
            P = painter(ex, st, geo, elsize, fns=UF)
            args = [(P, ("ptr", ("struct", "PMeshPainter"))), (Ptr("pos", ZERO, "double"), ("ptr", "double"))]
            if what == "paint": args.append((geo.weight, "double"))
            args.append((R("hsml"), "double"))
            r = ex.call_body(st, fname, args)
            i0 = [add(floor(add(geo.g[d], Fr(p, 2))), 1 - p) for d in range(nd)]
            # derivatives only where the window is differentiable
            kink = []
            if p == 2: kink = [or_(eq(geo.order[d], 0), ne(geo.g[d], floor(geo.g[d]))) for d in range(nd)]
            H = list(st.pc) + kink
            W = lambda d, j: ite(eq(geo.order[d], 0), bspline(p, sub(sub(geo.g[d], i0[d]), j)), mul(geo.scale[d], bspline_diff(p, sub(sub(geo.g[d], i0[d]), j))))
            sp = []; acc = ZERO
            for js in itertools.product(range(p), repeat=nd):
                g, a = site_spec(geo, [add(i0[d], js[d]) for d in range(nd)])
                w = prod([W(d, js[d]) for d in range(nd)])
                sp.append(Event("add", "canvas", a, mul(geo.weight, w), g))
            envs = [e for e in envs_for(geo, 60, 17, extra="native", native=p)]
            for e in envs: e[R("hsml")] = Fr(1)
            envs = [e for e in envs if all(evalt(h, e) for h in H)]
            if what == "paint":
                for e in st.events:
                    if SIZEOF.get(e.ety) != elsize: self.ob.put(name + ": access width", "refuted", "normal-form", 0, "accesses %s elements" % e.ety); break
                ok = compare_events(self.ob, name + ": deposits the spline weight on each of the %d sites" % p ** nd, geo, list(st.events), sp, H, envs, self.prop, kind, p)
            else:
                self.ob.put(name + ": writes nothing to the mesh", "proved" if not st.events else "refuted", "normal-form", 0.0, repr(st.events)[:300])
                # value is a sum of guarded reads: turn both into deposits of weight * mesh value at the address
                code = self.reads(r[0])
                if code is None: raise Unsupported("value read is not a sum of guarded mesh reads: " + show(r[0])[:200])
                sp2 = [Event("add", "canvas", e.addr, subst(e.val, {geo.weight: ONE}), e.guard) for e in sp]
                ok = compare_events(self.ob, name + ": sums mesh times the spline weight over the %d sites" % p ** nd, geo, code, sp2, H, envs, self.prop, kind, p)
            self.side(ex, name)
        except Unsupported as e: self.fail(name, e)
        self.done[key] = ok
        return ok

    def reads(self, val):
        """sum of ite(guard.., MEM(addr)*w, 0) as a list of pseudo-events"""
        out = []
        def leaf(t, g, coef):
            # t: term inside guard g, multiplied by coef
            d = dict(t.args) if t.op == "poly" else ({} if t is ZERO else {((t, 1),): Fr(1)})
            for m, c in d.items():
                mem = [a for a, e in m if a.op == "app" and a.args[0].startswith("MEM:")]
                its = [a for a, e in m if a.op == "ite" and any(x.op == "app" and str(x.args[0]).startswith("MEM:") for x in subterms(a))]
                if len(mem) == 1:
                    rest = from_pd({tuple((a, e) for a, e in m if a is not mem[0]): c})
                    out.append(Event("add", "canvas", mem[0].args[1], mul(rest, coef), g))
                elif len(its) == 1:
                    rest = from_pd({tuple((a, e) for a, e in m if a is not its[0]): c})
                    i = its[0]
                    leaf(i.args[1], and_(g, i.args[0]), mul(coef, rest)); leaf(i.args[2], and_(g, not_(i.args[0])), mul(coef, rest))
                else: raise Unsupported("read term %s" % show(t)[:100])
        leaf(val, TRUE, ONE)
        return out

    # kernels
    def kernel_poly(self, fname, p, diff):
        key = ("kern", fname, p, diff)
        if key in self.done: return self.done[key]
        name = "%s: is the %s order %d spline" % (fname, "derivative of the" if diff else "", p)
        ok = False
        try:
            ex = self.ex(); st = State(); x = R("x")
            r = ex.call_body(st, fname, [(x, "double")])[0]
            H = list(st.pc) + ([ne(x, k) for k in KINKS[p]] if diff else [])
            spec = bspline_diff(p, x) if diff else bspline(p, x)
            kind = {1: "nearest", 2: "linear", 3: "quadratic", 4: "cubic"}[p]
            def rp(env):
                v = float(env.get(x, 0))
                return [dict(case=REPLAY[self.prop] if self.prop in ("C06", "C07", "C09") else "paint", params=dict(kind=kind, support=-1, size=[9], period=[0], scale=[1.0], translate=[4.0], order=[0], diffdir=0 if diff else None, pos=[[v]], mass=[1.0], hsml=None,
                        dtype="f8", layout="C", ptype="f8", mtype="f8", htype="f8", readonly=0, cseed=1))]
            ok = self.ob.prove(name, H, eq(r, spec), replay=rp)
            if diff:
                # the specified derivative is the derivative of the specified spline: difference quotient bound on each polynomial piece
                pass
            self.side(ex, name)
        except Unsupported as e: self.fail(name, e)
        self.done[key] = ok
        return ok

    def kernel_table(self, kname, dname, kind, ns):
        """tabulated windows: the kernel is the piecewise linear interpolant of its table (zero outside of the table);
           the slope function is the slope of that interpolant"""
        key = ("ktab", kname, dname)
        if key in self.done: return self.done[key]
        ok = True
        try:
            ex = self.ex(); st = State(); x = R("x")
            k = ex.call_body(st, kname, [(x, "double")])[0]
            ex2 = self.ex(); st2 = State()
            dk = ex2.call_body(st2, dname, [(x, "double")])[0] if dname else None
            tabs = set(t.args[0] for t in subterms(k) if t.op == "app" and t.args[0].startswith("TAB:"))
            if len(tabs) != 1: raise Unsupported("table of " + kname)
            tab = tabs.pop()
            n = len(self.src.tables[tab[4:]])
            rp = self._rp_tab(kind)
            half = Fr(ns, 2)
            # index safety: every table read is in range
            def inrange(tm_, fname, pc):
                good = True
                for t in subterms(tm_):
                    if t.op == "app" and t.args[0].startswith("TAB:"):
                        g = path_guard(tm_, t)
                        good &= self.ob.prove("%s: table index within the table (%s)" % (fname, show(t.args[1])[:40]), list(pc) + [g], and_(ge(t.args[1], 0), lt(t.args[1], n)), replay=None)
                return good
            ok &= inrange(k, kname, st.pc)
            if kind.startswith(("LANCZOS", "ACG")):
                step = Fr("%.6e" % (half / (n if kind.startswith("LANCZOS") else n - 1))); f = div(absv(x), step)
            else:
                step = Fr(1, 256); f = div(add(x, half), step)
            i = floor(f)
            T = lambda j: app(tab, [j], "R")
            spec = ite(and_(ge(f, 0), lt(i, n - 1)), add(mul(T(i), sub(ONE, sub(f, i))), mul(T(add(i, 1)), sub(f, i))), ZERO)
            ok &= self.cases("%s: is the linear interpolant of its table, zero outside" % kname, list(st.pc), k, spec, rp)
            if dk is not None and self.prop in ("C09", "C06", "C07"):
                ok &= inrange(dk, dname, st2.pc)
                d = ite(and_(ge(f, 0), lt(i, n - 1)), mul(div(sub(T(add(i, 1)), T(i)), step), ite(lt(x, 0), -1, 1) if kind.startswith(("LANCZOS", "ACG")) else 1), ZERO)
                ok &= self.cases("%s: is the slope of %s" % (dname, kname), list(st.pc) + list(st2.pc) + [ge(x, -half), lt(x, half), ne(x, 0)], dk, d, rp)
            self.side(ex, kname); self.side(ex2, dname)
        except Unsupported as e:
            self.fail(kname, e); ok = False
        self.done[key] = ok
        return ok

    def cases(self, name, H, a, b, rp):
        """a = b, branch by branch"""
        t0 = time.time()
        n = 0
        def go(g, a, b):
            nonlocal n
            c = next((c for t in (a, b) for c in innermost(t)), None)
            if c is None:
                if a is b: return None
                n += 1
                r, info = check(H + g, eq(a, b), 6.0)
                return None if r == "proved" else (r, info, g, a, b)
            for v in (True, False):
                g2 = g + [c if v else not_(c)]
                if n > 200: return ("unknown", "too many cases", g, a, b)
                if entails(H + g, g2[-1], 1.0): g2 = g      # decided
                elif entails(H + g, not_(g2[-1]), 1.0): continue
                r = go(g2, tm_ctx(a, c, v), tm_ctx(b, c, v))
                if r: return r
            return None
        r = go([], a, b)
        if r is None: return self.ob.put(name, "proved", "z3", time.time() - t0)
        st, info, g, a, b = r
        det = "%s = %s when %s: %s" % (show(a)[:300], show(b)[:300], [show(c)[:100] for c in g], {show(k): str(v) for k, v in info.items()} if st == "refuted" else info)
        return self.ob.put(name, "refuted" if st == "refuted" else "undecided", "z3", time.time() - t0, det, rp(info) if st == "refuted" else [])

    def _rp_tab(self, kind):
        def rp(env):
            v = float(env.get(R("x"), 0))
            case = "derivative-tables" if self.prop == "C09" else ("adjoint" if self.prop == "C07" else "paint-tables")
            return [dict(case=case, params=dict(kind=kind.lower(), support=-1, size=[40], period=[0], scale=[1.0], translate=[20.0], order=[0], diffdir=0 if self.prop == "C09" else None, pos=[[v]], mass=[1.0], hsml=None,
                        dtype="f8", layout="C", ptype="f8", mtype="f8", htype="f8", readonly=0, cseed=1))]
        return rp

def innermost(t):
    """branch conditions of t with no branch inside"""
    for x in sorted(subterms(t), key=lambda x: x.id):
        if x.op == "ite" and not any(y.op == "ite" for y in subterms(x.args[0])): yield x.args[0]

def path_guard(t, leaf):
    """disjunction of the branch conditions under which leaf occurs in t (conditions are evaluated unguarded)"""
    cache = {}
    def go(x):
        if x is leaf: return TRUE
        if x in cache: return cache[x]
        if x.op == "ite":
            r = or_(go(x.args[0]), and_(x.args[0], go(x.args[1])), and_(not_(x.args[0]), go(x.args[2])))
        else:
            r = FALSE
            for c in children(x): r = or_(r, go(c))
        cache[x] = r
        return r
    return go(t)

def deriv(t, x):
    """formal derivative of a polynomial term (no ite) with respect to x; tables and frozen indices are constants"""
    if x not in free_vars(t): return ZERO
    if t is x: return ONE
    if t.op == "poly":
        r = ZERO
        for m, c in t.args:
            for i, (a, e) in enumerate(m):
                if x not in free_vars(a): continue
                if e < 0: raise Unsupported("derivative of a quotient")
                rest = from_pd({tuple((b, (f if j != i else f - 1)) for j, (b, f) in enumerate(m) if not (j == i and f == 1)): c * e})
                r = add(r, mul(rest, deriv(a, x)))
        return r
    raise Unsupported("derivative of %s" % show(t)[:60])

# ---------------------------------------------------------------- dispatch and tasks
FIELDS = ("paint", "readout", "getfastmethod", "kernel", "diff", "fwindow")
def dispatch(P, type_, elsize, nd):
    """what pmesh_painter_init selects for a window type: {field: function name or None}; None if out of reach"""
    key = ("disp", type_, elsize, nd)
    if key in P.done: return P.done[key]
    name = "pmesh_painter_init[%s, elsize=%d, ndim=%d]" % (type_, elsize, nd)
    r = None
    try:
        geo = Geo(nd)
        ex = P.ex(); st = State()
        for h in geo.hyps:
            if not ({geo.sup, geo.S, geo.S0, geo.ns} & set(free_vars(h))): st.assume(h)
        s0 = I("support0")
        ty = P.src.enums.get("PMESH_PAINTER_" + type_)
        if ty is None: raise Unsupported("no window type " + type_)
        p = painter(ex, st, geo, elsize, type_=const(ty))
        st.mem["P.support"].cells[0] = s0
        ex.call_body(st, "pmesh_painter_init", [(p, ("ptr", ("struct", "PMeshPainter")))])
        r = {}
        for f in FIELDS:
            v = ex.read(st, "P." + f, 0)
            if isinstance(v, T) and v.op == "fn": r[f] = None if v is NULL else v.args[0]
            elif nd == 0: r[f] = None         # a painter without mesh never paints
            else: raise Unsupported("%s is not one function" % f)
        want = POLY.get(type_, TABLE.get(type_))
        H = list(st.pc)
        ok = P.ob.prove("%s: native support is %d" % (name, want), H, eq(ex.read(st, "P.nativesupport", 0), want))
        s = ite(gt(s0, 0), s0, want)
        ok &= P.ob.prove("%s: the support is the requested one, or the native one" % name, H, eq(ex.read(st, "P.support", 0), s))
        ok &= P.ob.prove("%s: vfactor is native over requested support" % name, H, eq(mul(ex.read(st, "P.window.vfactor", 0), s), want))
        for f, d in (("order", geo.order), ("Nmesh", geo.N), ("size", geo.size), ("strides", geo.stride), ("scale", geo.scale)):
            for i in range(nd): ok &= ex.read(st, "P." + f, i) is d[i]
        ok &= ex.read(st, "P.ndim", 0) is const(nd)
        P.ob.put("%s: the description of the mesh is not changed" % name, "proved" if ok else "undecided", "normal-form")
        P.side(ex, name)
        P.ob.functions.add("_window: pmesh_painter_init")
    except Unsupported as e:
        P.fail(name, e); r = None
    P.done[key] = r
    return r

def fastmethod(P, fname, nd, elsize, p):
    """contract of getfastmethod; returns the fast methods (paint, readout) or None"""
    key = ("fast", fname, nd, elsize)
    if key in P.done: return P.done[key]
    name = "%s[ndim=%d]" % (fname, nd)
    out = None
    try:
        geo = Geo(nd)
        ex = P.ex(); st = State()
        q = painter(ex, st, geo, elsize)
        ex.declare(st, "W", ("struct", "PMeshWindowInfo"))
        S, vf = I("S"), R("vf")
        st.mem["W.support"].cells[0] = S; st.mem["W.vfactor"].cells[0] = vf
        for r_ in ("fp", "fr"):
            st.mem[r_] = Reg("paintfunc", None, False, 1); st.mem[r_].cells[0] = fn("UNSET")
        r = ex.call_body(st, fname, [(q, ("ptr", ("struct", "PMeshPainter"))), (SPtr("W", "PMeshWindowInfo"), ("ptr", ("struct", "PMeshWindowInfo"))), (Ptr("fp", ZERO, "paintfunc"), ("ptr", "paintfunc")), (Ptr("fr", ZERO, "readoutfunc"), ("ptr", "readoutfunc"))])[0]
        H = list(st.pc) + [ne(r, 0)]
        out = []
        if not feasible(H, 2.0): out = ()
        else:
            P.ob.prove("%s: offers a fast method only for the unscaled native window" % name, H, and_(eq(S, p), eq(vf, 1)), replay=P._rp_info)
            for r_ in ("fp", "fr"):
                v = ex.read(st, r_, 0)
                for c in list(innermost(v)):
                    v = tm_ctx(v, c, True) if entails(H, c) else (tm_ctx(v, c, False) if entails(H, not_(c)) else v)
                if not (isinstance(v, T) and v.op == "fn") or v.args[0] == "UNSET": raise Unsupported("the fast method is not one function")
                out.append(v.args[0])
        P.side(ex, name)
        P.ob.functions.add("_window: " + fname)
    except Unsupported as e:
        P.fail(name, e); out = None
    P.done[key] = out
    return out

def t_init(P, type_):
    """dispatch of a window type, and the set of functions it relies on"""
    need = set()
    for elsize in (8, 4):
        for nd in ((0, 1, 2, 3, 4) if elsize == 8 else (1, 2, 3)):
            d = dispatch(P, type_, elsize, nd)
            if d is None: continue
            if nd:
                for w in ("paint", "readout"): need.add(("generic", d[w], nd, elsize, w))
            p = POLY.get(type_)
            if p:
                need.add(("kernel_poly", d["kernel"], p, False)); need.add(("kernel_poly", d["diff"], p, True))
                need.add(("fwin", d["fwindow"], p))
            else:
                need.add(("kernel_table", d["kernel"], d["diff"], type_, TABLE[type_]))
                need.add(("fwin", d["fwindow"], 0))
            if d["getfastmethod"] and nd:
                if p is None: P.fail("%s: fast method of a tabulated window" % type_, "no contract"); continue
                f = fastmethod(P, d["getfastmethod"], nd, elsize, p)
                if f:
                    need.add(("tuned", f[0], p, nd, elsize, "paint")); need.add(("tuned", f[1], p, nd, elsize, "readout"))
    return need

def lemma_cover(P):
    """sites outside [i0, i0 + S) are outside of the half open support [-sup/2, sup/2) of the window"""
    geo = Geo(1)
    i = I("i"); x = sub(geo.g[0], i); i0 = i0_spec(geo, 0); h = mul(Fr(1, 2), geo.sup)
    P.ob.prove("lemma: the support starts at the first lattice site within half a support", geo.hyps + [lt(i, i0)], ge(x, h), 10.0)
    P.ob.prove("lemma: the support ends at the last lattice site within half a support", geo.hyps + [ge(i, add(i0, geo.S))], lt(x, neg(h)), 10.0)

def lemma_unity(P, p):
    """sum of the spline over the lattice sites of its support is 1"""
    g = R("g"); i0 = add(floor(add(g, Fr(p, 2))), 1 - p)
    s = add(*[bspline(p, sub(sub(g, i0), j)) for j in range(p)])
    P.ob.prove("lemma: spline of order %d sums to one over the lattice" % p, [], eq(s, 1), 10.0)

def total_kernel(P, kname, p, diff):
    """the code's own 1-d weights at native support sum to one (gradient: to zero), kinks included"""
    name = "%s: the %d weights of a particle sum to %d" % (kname, p, 0 if diff else 1)
    try:
        ex = P.ex(); st = State(); g = R("g"); i0 = add(floor(add(g, Fr(p, 2))), 1 - p)
        s = ZERO
        for j in range(p): s = add(s, ex.call_body(st, kname, [(sub(sub(g, i0), j), "double")])[0])
        def rp(env):
            return [dict(case="conserve", params=dict(kind={1: "nearest", 2: "linear", 3: "quadratic", 4: "cubic"}[p], support=-1, size=[9], period=[9], scale=[1.0], translate=[0.0], order=[0], diffdir=0 if diff else None, pos=[[float(env.get(g, 0))]], mass=[1.0], hsml=None,
                        dtype="f8", layout="C", ptype="f8", mtype="f8", htype="f8", readonly=0, cseed=1))]
        P.ob.prove(name, list(st.pc), eq(s, 0 if diff else 1), 10.0, replay=rp)
        P.side(ex, kname)
    except Unsupported as e: P.fail(name, e)

def total_tuned(P, fname, p, nd, elsize, what):
    """the deposits of a fast method on a mesh covering the whole period sum to the mass (gradient: to zero); a constant mesh reads as the constant"""
    for od in [None] + list(range(nd)):
        name = "%s[ndim=%d] %s: total" % (fname, nd, "plain" if od is None else "gradient along axis %d" % od)
        if od is not None and p == 1: continue
        try:
            geo = Geo(nd)
            geo.size = list(geo.N)
            geo.order = [const(1 if d == od else 0) for d in range(nd)]
            ex = P.ex(); st = State()
            for d in range(nd): st.assume(ge(geo.N[d], 1))
            q = painter(ex, st, geo, elsize, fns=UF)
            args = [(q, ("ptr", ("struct", "PMeshPainter"))), (Ptr("pos", ZERO, "double"), ("ptr", "double"))]
            if what == "paint": args.append((geo.weight, "double"))
            args.append((R("hsml"), "double"))
            r = ex.call_body(st, fname, args)
            if what == "paint":
                evs = list(st.events)
                if any(e.binders or e.kind != "add" for e in evs): raise Unsupported("loop")
            else:
                if st.events: raise Unsupported("writes")
                evs = P.reads(r[0])
            H = list(st.pc)
            bad = [e for e in evs if e.guard is not TRUE and not entails(H, e.guard, 2.0)]
            if bad: raise Unsupported("deposit not within the mesh: %s" % show(bad[0].guard)[:200])
            s = add(*[e.val for e in evs])
            unit = geo.weight if what == "paint" else ONE
            def rp(env, od=od):
                e = dict(env)
                out = []
                for size in ([9] * nd, [5] * nd, [1] * nd):
                    out.append(dict(case="conserve", params=dict(kind={1: "tunednnb", 2: "tunedcic", 3: "tunedtsc", 4: "tunedpcs"}[p], support=-1, size=size, period=size, scale=[1.0] * nd, translate=[0.0] * nd, order=[0] * nd, diffdir=od,
                        pos=[[float(e.get(geo.g[d], 0)) for d in range(nd)]], mass=[1.0], hsml=None, dtype="f8", layout="C", ptype="f8", mtype="f8", htype="f8", readonly=0, cseed=1)))
                return out
            P.ob.prove(name, H, eq(s, unit if od is None else 0), 10.0, replay=rp)
            P.side(ex, name)
        except Unsupported as e: P.fail(name, e)

def sinc(P):
    name = "sinc_unnormed: is sin(x)/x"
    x = R("x")
    try:
        ex = P.ex(); st = State()
        r = ex.call_body(st, "sinc_unnormed", [(x, "double")])[0]
        P.ob.functions.add("_window: sinc_unnormed")
        n = 0
        def rp(env):
            v = float(env.get(x, 0))
            return [dict(case="fwindow", params=dict(kind=k, support=-1, w=[2 * v, -2 * v, 2 * v * (1 + 1e-3)])) for k in ("nearest", "cubic")]
        def leaf(t, g):
            nonlocal n
            if t.op == "ite":
                leaf(t.args[1], g + [t.args[0]]); leaf(t.args[2], g + [not_(t.args[0])]); return
            H = list(st.pc) + g
            if not feasible(H): return
            n += 1
            if t is div(app("sin", [x], "R"), x) or t is div(app("sin", [neg(x)], "R"), neg(x)):
                P.ob.prove("%s, branch %d: divides by a nonzero argument" % (name, n), H, ne(x, 0), replay=rp)
            elif any(s.op == "app" for s in subterms(t)): raise Unsupported("sinc branch %s" % show(t))
            else:
                taylor = add(1, mul(Fr(-1, 6), power(x, 2)), mul(Fr(1, 120), power(x, 4)))
                e = sub(t, taylor); rem = mul(Fr(1, 5040), power(x, 6))
                P.ob.prove("%s, branch %d: series within 1e-12" % (name, n), H, and_(le(add(e, rem), Fr(1, 10**12)), le(sub(rem, e), Fr(1, 10**12))), 10.0, replay=rp)
        leaf(r, [])
        P.ob.assumptions.add("sin is the mathematical sine; Taylor's theorem |sin(x)/x - (1 - x^2/6 + x^4/120)| <= x^6/5040")
        P.side(ex, name)
    except Unsupported as e: P.fail(name, e)

def fwin(P, fname, p):
    name = "%s: sinc(w/2)^%d" % (fname, p)
    if p == 0:
        P.ob.put("window without a known transform registers none", "proved" if fname is None else "refuted", "normal-form", 0.0, str(fname), [dict(case="fwindow", params=dict(kind=k, support=-1, w=[0.0, 1.0, -2.0])) for k in ("lanczos2", "acg3", "db6", "sym6")])
        return
    if fname is None:
        P.ob.put(name, "refuted", "normal-form", 0.0, "no transform registered", [dict(case="fwindow", params=dict(kind=k, support=-1, w=[0.0, 1.0, -2.0])) for k in ("nearest", "linear", "quadratic", "cubic", "tunednnb", "tunedcic", "tunedtsc", "tunedpcs")])
        return
    try:
        w = R("w")
        ex = P.ex({"sinc_unnormed": lambda ex, st, v: (app("SINC", [v[0][0]], "R"), "double")}); st = State()
        r = ex.call_body(st, fname, [(w, "double")])[0]
        spec = power(app("SINC", [mul(Fr(1, 2), w)], "R"), p); spec2 = power(app("SINC", [mul(Fr(-1, 2), w)], "R"), p)
        def rp(env): return [dict(case="fwindow", params=dict(kind={1: "nearest", 2: "linear", 3: "quadratic", 4: "cubic"}[p], support=-1, w=[float(env.get(w, 1)), 1.0, 0.3, -2.0, 7.0]))]
        if r is spec or r is spec2: P.ob.put(name, "proved", "normal-form")
        else: P.ob.prove(name, list(st.pc), eq(r, spec), replay=rp)
        P.ob.functions.add("_window: " + fname)
    except Unsupported as e: P.fail(name, e)

def get_fwindow(P):
    name = "pmesh_painter_get_fwindow"
    try:
        for null in (False, True):
            geo = Geo(1); ex = P.ex(); st = State()
            vf = R("vf"); st.assume(gt(vf, 0))
            fns = dict(UF)
            if null: fns["fwindow"] = NULL
            else: st.assume(ne(UF["fwindow"], NULL))
            q = painter(ex, st, geo, 8, fns=fns)
            st.mem["P.window.vfactor"].cells[0] = vf
            r = ex.call_body(st, "pmesh_painter_get_fwindow", [(q, ("ptr", ("struct", "PMeshPainter"))), (R("w"), "double")])[0]
            def rp(env): return [dict(case="fwindow", params=dict(kind=k, support=s, w=[0.0, 1.0, -2.0, 0.4])) for k in ("linear", "cubic", "lanczos2") for s in (-1, 3, 8)]
            if null: P.ob.prove(name + ": one when the window registers no transform", list(st.pc), eq(r, 1), replay=rp)
            else: P.ob.prove(name + ": transform at w times scaled over native support", list(st.pc), eq(r, app("FW", [div(R("w"), vf)], "R")), replay=rp)
        P.ob.functions.add("_window: pmesh_painter_get_fwindow")
    except Unsupported as e: P.fail(name, e)

def wrappers(P):
    """pmesh_painter_paint / pmesh_painter_readout only forward to the selected method"""
    for f, c in (("pmesh_painter_paint", "PAINT"), ("pmesh_painter_readout", "READOUT")):
        try:
            calls = []
            def h(ex, st, v):
                calls.append((v, list(st.pc)))
                return (R("VALUE"), "double") if c == "READOUT" else None
            geo = Geo(2); ex = P.ex({c: h}); st = State()
            q = painter(ex, st, geo, 8, fns=UF)
            args = [(q, ("ptr", ("struct", "PMeshPainter"))), (Ptr("pos", ZERO, "double"), ("ptr", "double"))] + ([(geo.weight, "double")] if c == "PAINT" else []) + [(R("hsml"), "double")]
            r = ex.call_body(st, f, args)
            ok = len(calls) == 1 and not st.events and [x[0] for x in calls[0][0]] == [a[0] for a in args] and (c == "PAINT" or r[0] is R("VALUE"))
            P.ob.put(f + ": forwards to the selected method", "proved" if ok else "undecided", "normal-form", 0.0, repr(calls)[:300])
            P.ob.functions.add("_window: " + f)
        except Unsupported as e: P.fail(f, e)

def run_task(a):
    prop, tier, t = a
    P = Prover(prop, tier)
    t0 = time.time()
    need = set()
    try:
        k = t[0]
        if k == "init": need = t_init(P, t[1])
        elif k in ("generic", "tuned", "kernel_poly", "kernel_table", "info_init", "fill_k"): getattr(P, k)(*t[1:])
        else: globals()[k](P, *t[1:])
    except Unsupported as e: P.fail(repr(t), e)
    except Exception as e:
        import traceback
        P.fail(repr(t), "prover error " + traceback.format_exc()[-700:])
    return P.ob.obs, P.ob.assumptions, P.ob.functions, need, (t, time.time() - t0)

ASSUME = ["floating point arithmetic of the window code treated as real arithmetic", "int and ptrdiff_t do not overflow", "at most one axis has a gradient (order 1)",
          "clang's preprocessor and pycparser parse the C sources; the verified text is /repo's current text after preprocessing"]

def select(prop, need, tier):
    """which of the functions reached by the dispatch a property needs"""
    out = []
    for t in sorted(need, key=repr):
        k = t[0]
        if prop == "C06" and (k in ("kernel_poly", "kernel_table") and not (k == "kernel_poly" and t[3]) or k in ("generic", "tuned") and t[-1] == "paint"): out.append(t)
        if prop == "C07" and k in ("generic", "tuned"): out.append(t)
        if prop == "C09" and (k in ("kernel_poly", "kernel_table") or k in ("generic", "tuned") and t[-1] == "paint" and (tier == "thorough" or t[-2] == 8)): out.append(t)
        if prop == "C08":
            if k == "kernel_poly": out.append(("total_kernel",) + t[1:])
            if k == "tuned" and (tier == "thorough" or t[2] ** t[3] < 64 or t[-1] == "paint"): out.append(("total_tuned",) + t[1:])
            elif k == "tuned": out.append(t)      # the site sum of the readout, with lemma_unity per axis
            if k == "generic" and (tier == "thorough" or t[-2] == 8): out.append(t)
        if prop == "C10" and k == "fwin": out.append(t)
    cost = lambda t: -(t[2] ** t[3] if t[0] in ("tuned", "total_tuned") else (20 * t[2] if t[0] == "generic" else 0))
    return sorted(out, key=cost)

class Res: pass
def pool_run(fn_, items, procs=8):
    import multiprocessing as mp
    ctx = mp.get_context("fork")
    with ctx.Pool(procs, maxtasksperchild=4) as p:
        return p.map(fn_, items, chunksize=1)

def prove(prop, tier):
    source()
    base = {"C06": [("info_init",), ("lemma_cover",), ("wrappers",)], "C07": [("info_init",), ("wrappers",)], "C08": [("lemma_unity", p) for p in (1, 2, 3, 4)],
            "C09": [("info_init",)] + [("fill_k", n) for n in (1, 2, 3)], "C10": [("info_init",), ("sinc",), ("get_fwindow",)]}[prop]
    types = list(POLY) if prop == "C08" else TYPES
    r1 = pool_run(run_task, [(prop, tier, ("init", t)) for t in types] + [(prop, tier, t) for t in base])
    need = set().union(*[x[3] for x in r1])
    r2 = pool_run(run_task, [(prop, tier, t) for t in select(prop, need, tier)])
    R_ = Res()
    R_.obs = []; seen = set(); R_.assumptions = list(ASSUME); R_.functions = []; R_.notes = []
    for obs, asm, fns, _, tt in r1 + r2:
        for o in obs:
            k = (o["name"], o["status"])
            if k in seen: continue
            seen.add(k); R_.obs.append(o)
        R_.assumptions += list(asm); R_.functions += list(fns)
    slow = sorted((x[4] for x in r1 + r2), key=lambda x: -x[1])[:4]
    R_.notes = ["slowest proof tasks: %s" % [(repr(t), round(s, 1)) for t, s in slow]]
    return R_

"""Contracts of the Cython and Python wrappers around the C code: what they hand to the C functions (whose own contracts are
proved in p_window, p_noise, p_inv) and what they return."""
import os, time, itertools
from . import build
from . import psym as P
from . import npshim as N
from .psym import SArr, Sym, W, T_, CArr, explore, event, symarr
from .term import *
from .solve import Obs, check, entails, search

REPO = build.REPO
I = lambda n: var(n, "I")
R = lambda n: var(n, "R")
def text(f): return open(os.path.join(REPO, "pmesh", f)).read()

P.STRUCTS |= {"PMeshPainter", "PMeshWhiteNoiseGenerator"}
for ty, fs in (("PMeshPainter", dict(scale="double", translate="double", Nmesh="ptrdiff_t", order="int", size="ptrdiff_t", strides="ptrdiff_t")),
               ("PMeshWhiteNoiseGenerator", dict(Nmesh="ptrdiff_t", size="ptrdiff_t", start="ptrdiff_t", strides="ptrdiff_t"))):
    for k, v in fs.items(): P.FIELDS[(ty, k)] = v

def snap(p):
    """fields of a C struct at the time of a call"""
    d = {}
    for k, v in p.f.items():
        d[k] = [T_(v.a[i]) if i < nd_of(p) else None for i in range(3)] if isinstance(v, CArr) else v
    return d
def nd_of(p):
    n = p.f.get("ndim")
    return n if isinstance(n, int) else 0

class Painter:
    """loads _window.pyx and window.py on recording stand-ins of the C functions"""
    def __init__(self):
        def init(p):
            if isinstance(p, CArr):
                if "ndim" in p.f and nd_of(p) == 0:
                    p.nativesupport = W(app("native_of", [code(p.f["type"])], "I")); 
                    p.support = W(ite(le(T_(p.f["support"]), 0), app("native_of", [code(p.f["type"])], "I"), T_(p.f["support"])))
            event("init", snap(p), p)
        def paint(p, x, m, h):
            event("paint", snap(p), [T_(x[d]) for d in range(nd_of(p))], T_(m), T_(h), p)
        def readout(p, x, h):
            event("readout", snap(p), [T_(x[d]) for d in range(nd_of(p))], T_(h), p)
            return W(app("READOUT", [T_(x[d]) for d in range(nd_of(p))] + [T_(h)], "R"))
        def fw(p, w): return W(app("FWINDOW", [code(p.f["type"]), T_(p.f["support"]), T_(w)], "R"))
        self.np = N.make()
        extra = dict(pmesh_painter_init=init, pmesh_painter_paint=paint, pmesh_painter_readout=readout, pmesh_painter_get_fwindow=fw)
        t = text("_window.pyx")
        import re
        for k in set(re.findall(r"\bPMESH_PAINTER_\w+", t)): extra[k] = TypeCode(k)
        g, _ = P.load_pyx(t, "_window", N.mods(self.np), extra)
        C = g["ResampleWindow"]
        # cdef attribute: each object has its own painter
        class CWin(C):
            def __new__(cls, *a, **k):
                o = object.__new__(cls); o.painter = CArr("PMeshPainter", 1); return o
        CWin.__name__ = "ResampleWindow"
        self.C = CWin
        m = N.mods(self.np); m["._window"] = P.Mod("_window", dict(ResampleWindow=CWin))
        self.g = P.load(text("window.py"), "window", m)

class TypeCode:
    def __init__(self, n): self.n = n
    def __repr__(self): return self.n
def code(t): return app("kind:" + (t.n if isinstance(t, TypeCode) else "?" + str(t)), [], "I") if not isinstance(t, Sym) else t.t

def arr_ok(v, exp):
    return all(a is not None for a in v) and and_(*[eq(a, b) for a, b in zip(v, exp)])

def canvas(nd, dt="f8", name="real"):
    a = symarr(name, [I("size%d" % d) for d in range(nd)], dt, contiguous=False)
    a.strides_ = [I("stride%d" % d) for d in range(nd)]
    return a
def particles(nd, wr, dt="f8"):
    P.CTX.assume(ge(I("N"), 0))
    for d in range(nd): P.CTX.assume(ge(I("size%d" % d), 1))
    return symarr("pos", [I("N"), const(nd)], dt, writeable=wr)

def call_paths(obs, name, f, post, rp):
    """all paths of f; the contract holds on each"""
    t0 = time.time()
    try: paths = explore(f)
    except (Unsupported, P.Oblig, P.Stop) as e:
        obs.put(name, "undecided", "-", time.time() - t0, "out of reach: %s" % e); return
    except RecursionError:
        obs.put(name, "undecided", "-", time.time() - t0, "out of reach: recursion"); return
    if not paths: obs.put(name, "undecided", "-", 0, "no path"); return
    for k, p in enumerate(paths):
        P.CTX = p.store
        P.CTX.loops = []
        nm = name + (" (path %d)" % k if len(paths) > 1 else "")
        try: post(p, lambda what, hyps, goal, nm=nm, p=p: obs.prove(nm + ": " + what, list(p.pc) + list(hyps), goal, 5.0, replay=lambda m: rp), lambda what, ok, detail="", nm=nm: obs.put(nm + ": " + what, "proved" if ok else "refuted", "symbolic-execution", 0.0, "" if ok else str(detail)[:800], [] if ok else rp))
        except (Unsupported, P.Oblig, P.Stop) as e: obs.put(nm, "undecided", "-", 0, "out of reach: %s" % e)
        except Exception as e:
            import traceback
            obs.put(nm, "undecided", "-", 0, "cannot relate result to the contract: %s" % " ".join(l.strip() for l in traceback.format_exc().split("\n") if "^^^" not in l)[-500:])

VARIANTS = [(n, m, h, w) for n in (1, 2, 3) for m, h, w in (("none", "none", True), ("array", "array", False), ("scalar", "scalar", True))]

def paint_contract(obs, which, rp):
    for nd, mass, hsml, wr in VARIANTS:
        for dirn in ([None] + [-1, nd - 1] if nd > 1 else [None, 0]):
            for tr in ("given",) if (nd, mass) != (2, "none") else ("given", "default"):
                name = "%s: %d-d, mass %s, hsml %s, diffdir %s, transform %s" % ("paint" if which == "paint" else "readout", nd, mass, hsml, dirn, tr)
                box = {}
                def f(nd=nd, mass=mass, hsml=hsml, wr=wr, dirn=dirn, tr=tr, box=box):
                    g = Painter()
                    win = g.g["ResampleWindow"]("tunedcic", W(I("sup")))
                    del P.CTX.events[:]
                    pos = particles(nd, wr)
                    real = canvas(nd)
                    if mass == "array" and nd == 2: real = canvas(nd, "f4")
                    def col(kind, nm):
                        if kind == "none": return None
                        if kind == "scalar": return W(R(nm))
                        return symarr(nm, [I("N")], "f8", writeable=wr)
                    m, h = col(mass, "mass"), col(hsml, "hsml")
                    t = None
                    if tr == "given":
                        t = g.g["Affine"](nd, symarr("scale", [const(nd)], "f8"), symarr("trans", [const(nd)], "f8"), symarr("period", [const(nd)], "i8"))
                    box.update(real=real, pos=pos, win=win, h=h, m=m)
                    if which == "paint": r = win.paint(real, pos, h, m, dirn, t)
                    else:
                        r = win.readout(real, pos, h, None, dirn, t)
                    return (r, real, pos, win, [e for e in P.CTX.events])
                def post(p, prove, say, nd=nd, mass=mass, hsml=hsml, dirn=dirn, tr=tr):
                    if p.exc is not None: say("no exception", False, repr(p.exc)); return
                    r, real, pos, win, ev = p.res
                    kinds = [e.name for e in ev]
                    say("the C painter is initialised before the particles are processed, once", kinds == ["init", which], kinds)
                    if kinds != ["init", which]: return
                    e0, e1 = ev
                    say("initialisation does not depend on the particles", not e0.binders and e0.guard is TRUE, e0)
                    S = e1.args[0]
                    ok = S.get("ndim") == nd and S.get("canvas") == ("data", real) or (isinstance(S.get("canvas"), tuple) and S["canvas"][1] is real and S.get("ndim") == nd)
                    say("the canvas handed over is the array itself", ok, (S.get("ndim"), S.get("canvas")))
                    say("element size of the canvas", S.get("canvas_dtype_elsize") == real.dtype.itemsize, S.get("canvas_dtype_elsize"))
                    t0 = win.painter.f.get("type")
                    say("window kind of the object", S.get("type") is t0 and isinstance(t0, TypeCode) and t0.n == "PMESH_PAINTER_TUNED_CIC", S.get("type"))
                    prove("window support of the object", [], eq(T_(S["support"]), T_(win.painter.f["support"])))
                    at = lambda n, k, s="R": app(n, [const(k)], s)
                    exp = dict(size=[I("size%d" % d) for d in range(nd)], strides=[I("stride%d" % d) for d in range(nd)],
                               order=[const(int(dirn is not None and d == dirn % nd)) for d in range(nd)])
                    if tr == "given":
                        exp.update(scale=[at("scale", d) for d in range(nd)], translate=[at("trans", d) for d in range(nd)], Nmesh=[at("period", d, "I") for d in range(nd)])
                    else: exp.update(scale=[ONE] * nd, translate=[ZERO] * nd, Nmesh=[ZERO] * nd)
                    for k, v in exp.items():
                        got = S.get(k)
                        if not isinstance(got, list) or any(x is None for x in got[:nd]): say("field %s is set" % k, False, got); continue
                        prove("field %s, every axis" % k, [], and_(*[eq(a, b) for a, b in zip(got, v)]))
                    S0 = e0.args[0]
                    say("nothing is changed between initialisation and use", e0.args[1] is e1.args[-1] and all(same(S0.get(k), S.get(k)) for k in S), [k for k in S if not same(S0.get(k), S.get(k))])
                    # one call for each particle
                    say("one loop over the particles", len(e1.binders) == 1, e1)
                    if len(e1.binders) != 1: return
                    b, lo, hi = e1.binders[0]
                    prove("every particle, once", [], and_(eq(lo, 0), eq(hi, I("N"))))
                    rng = [le(lo, b), lt(b, hi)]
                    prove("no particle is skipped", rng, e1.guard)
                    prove("position of the particle, every axis", rng, and_(*[eq(e1.args[1][d], app("pos", [b, const(d)], "R")) for d in range(nd)]))
                    want = {"none": ONE, "scalar": R("mass"), "array": app("mass", [b], "R")}[mass]
                    wanth = {"none": ONE, "scalar": R("hsml"), "array": app("hsml", [b], "R")}[hsml]
                    if which == "paint":
                        prove("mass of the particle", rng, eq(e1.args[2], want))
                        prove("smoothing length of the particle", rng, eq(e1.args[3], wanth))
                        say("nothing is returned", r is None, r)
                    else:
                        prove("smoothing length of the particle", rng, eq(e1.args[2], wanth))
                        j = P.CTX.fresh("j")
                        say("result has one value for each particle", isinstance(r, SArr) and r.ndim == 1, r)
                        prove("length of the result", [], eq(r.shape_[0], I("N")))
                        prove("result is the readout at the particle", [ge(j, 0), lt(j, I("N"))], eq(r.at((j,)), app("READOUT", [app("pos", [j, const(d)], "R") for d in range(nd)] + [subst(wanth, {b: j})], "R")))
                    bufs = {x.buf for x in (real,)}
                    i = tuple(P.CTX.fresh("c") for _ in range(nd))
                    prove("the wrapper itself leaves the canvas alone", [], eq(real.at(i), app("real", list(i), "R")))
                    k2 = (P.CTX.fresh("p"), ZERO)
                    prove("the positions are left alone", [], eq(pos.at(k2), app("pos", list(k2), "R")))
                call_paths(obs, name, f, post, rp)
    # a complex canvas: the real part is used
    def f():
        g = Painter(); win = g.g["ResampleWindow"]("tunedcic"); del P.CTX.events[:]
        pos = particles(2, True)
        c = P.new([I("size0"), I("size1")], "c16", lambda i: app("cplx", list(i), "R"), "cplx", contiguous=False)
        c.strides_ = [I("stride0"), I("stride1")]
        if which == "paint": win.paint(c, pos)
        else: win.readout(c, pos)
        return c, list(P.CTX.events)
    def post(p, prove, say):
        if p.exc is not None: say("no exception", False, repr(p.exc)); return
        c, ev = p.res
        if [e.name for e in ev] != ["init", which]: say("calls", False, ev); return
        S = ev[1].args[0]; a = S["canvas"][1]
        i = (I("i0"), I("i1"))
        say("real part is what is used", isinstance(a, SArr) and a.buf is c.buf and a.fwd(i) == i + (ZERO,), a)
        say("element size of the real part", S["canvas_dtype_elsize"] == 8, S["canvas_dtype_elsize"])
    call_paths(obs, "%s: complex canvas" % which, f, post, rp)
    # integer canvas: refused
    def f():
        g = Painter(); win = g.g["ResampleWindow"]("tunedcic"); del P.CTX.events[:]
        real = canvas(2, "i8"); pos = particles(2, True)
        (win.paint if which == "paint" else win.readout)(real, pos)
    def post(p, prove, say): say("a canvas that is not floating point is refused", isinstance(p.exc, AssertionError) and not [e for e in p.events if e.name in ("init", which)], p.exc)
    call_paths(obs, "%s: integer canvas" % which, f, post, rp)

def same(a, b):
    if isinstance(a, list) and isinstance(b, list): return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, Sym) and isinstance(b, Sym): return a.t is b.t
    if isinstance(a, tuple) and isinstance(b, tuple): return len(a) == len(b) and all(x is y or same(x, y) for x, y in zip(a, b))
    return a is b or (type(a) is type(b) and isinstance(a, (int, str)) and a == b)

KINDS = dict(NEAREST="nearest", LINEAR="linear", NNB="tuned_nnb", CIC="tuned_cic", TSC="tuned_tsc", PCS="tuned_pcs", QUADRATIC="quadratic", CUBIC="cubic",
             LANCZOS2="lanczos2", LANCZOS3="lanczos3", LANCZOS4="lanczos4", LANCZOS5="lanczos5", LANCZOS6="lanczos6", ACG2="acg2", ACG3="acg3", ACG4="acg4", ACG5="acg5", ACG6="acg6",
             DB6="db6", DB12="db12", DB20="db20", SYM6="sym6", SYM12="sym12", SYM20="sym20")
def names_contract(obs, rp, only=None):
    """the name of a window leads to the C window of that name, at its native support unless resized"""
    def f():
        g = Painter()
        return g
    def post(p, prove, say):
        if p.exc is not None: say("no exception", False, repr(p.exc)); return
        g = p.res.g
        for n, k in KINDS.items():
            for nm in (n, n.lower()):
                w = g["FindResampler"](nm)
                t = w.painter.f["type"]
                say("window %s" % nm, isinstance(t, TypeCode) and t.n == "PMESH_PAINTER_" + k.upper(), t)
                prove("window %s has its native support" % nm, [], eq(T_(w.painter.f["support"]), app("native_of", [code(t)], "I")))
            say("window %s is found by itself" % n, g["FindResampler"](w) is w)
            w2 = w.resize(W(I("sup")))
            say("resize keeps the kind", w2.painter.f["type"] is w.painter.f["type"], w2.painter.f["type"])
            prove("resize of %s sets the support" % n, [gt(I("sup"), 0)], and_(eq(T_(w2.painter.f["support"]), I("sup")), eq(T_(w2.support), I("sup"))))
        try: g["FindResampler"](3.5); bad = False
        except TypeError: bad = True
        say("anything else is refused", bad)
    call_paths(obs, "window names", f, post, rp)

def affine_contract(obs, rp):
    for nd in (1, 2, 3):
        for amt in ("scalar", "array"):
            def f(nd=nd, amt=amt):
                g = Painter()
                A = g.g["Affine"](nd, symarr("scale", [const(nd)], "f8"), symarr("trans", [const(nd)], "f8"), symarr("period", [const(nd)], "i8"))
                a = W(R("amount")) if amt == "scalar" else symarr("amount", [const(nd)], "f8")
                return A, A.rescale(a), A.shift(a)
            def post(p, prove, say, nd=nd, amt=amt):
                if p.exc is not None: say("no exception", False, repr(p.exc)); return
                A, B, C = p.res
                for d in range(nd):
                    k = (const(d),)
                    am = R("amount") if amt == "scalar" else app("amount", [const(d)], "R")
                    s, t, q = app("scale", k, "R"), app("trans", k, "R"), app("period", k, "I")
                    prove("original unchanged, axis %d" % d, [], and_(eq(A.scale.at(k), s), eq(A.translate.at(k), t), eq(A.period.at(k), q)))
                    prove("rescale multiplies the scale only, axis %d" % d, [], and_(eq(B.scale.at(k), mul(s, am)), eq(B.translate.at(k), t), eq(B.period.at(k), q)))
                    prove("shift adds to the translation only, axis %d" % d, [], and_(eq(C.scale.at(k), s), eq(C.translate.at(k), add(t, am)), eq(C.period.at(k), q)))
            call_paths(obs, "Affine: %d-d, amount %s" % (nd, amt), f, post, rp)

def fwindow_contract(obs, rp):
    for sh in ((I("n"),), (I("n"), I("m")), ()):
        def f(sh=sh):
            g = Painter(); w = g.g["ResampleWindow"]("cubic", W(I("sup")))
            for x in sh: P.CTX.assume(ge(x, 1))
            a = symarr("w", list(sh), "f8", contiguous=True) if sh else W(R("w0"))
            r = w.get_fwindow(a)
            return w, r, a
        def post(p, prove, say, sh=sh):
            if p.exc is not None: say("no exception", False, repr(p.exc)); return
            w, r, a = p.res
            say("shape of the argument", len(r.shape_) == len(sh) and all(x is y for x, y in zip(r.shape_, sh)), getattr(r, "shape_", r))
            i = tuple(P.CTX.fresh("i") for _ in sh)
            arg = app("w", list(i), "R") if sh else R("w0")
            prove("value of the C function at each frequency", [c for v, n in zip(i, sh) for c in (ge(v, 0), lt(v, n))], eq(r.at(i), app("FWINDOW", [code(w.painter.f["type"]), T_(w.painter.f["support"]), arg], "R")))
        call_paths(obs, "get_fwindow: %d axes" % len(sh), f, post, rp)
    for nd in (1, 2, 3):
        def f(nd=nd):
            g = Painter(); w = g.g["ResampleWindow"]("cubic")
            ws = []
            for d in range(nd):
                s = [ONE] * nd; s[d] = I("n%d" % d); P.CTX.assume(ge(s[d], 1))
                ws.append(symarr("w%d" % d, s, "f8", contiguous=True))
            v = symarr("v", [I("n%d" % d) for d in range(nd)], "f8", contiguous=True)
            return w, w.get_compensation()(ws, v), v
        def post(p, prove, say, nd=nd):
            if p.exc is not None: say("no exception", False, repr(p.exc)); return
            w, r, v = p.res
            i = tuple(P.CTX.fresh("i") for _ in range(nd))
            den = ONE
            for d in range(nd): den = mul(den, app("FWINDOW", [code(w.painter.f["type"]), T_(w.painter.f["support"]), app("w%d" % d, [i[d] if e == d else ZERO for e in range(nd)], "R")], "R"))
            prove("divides by the product of the windows of all axes", [c for k, x in enumerate(i) for c in (ge(x, 0), lt(x, I("n%d" % k)))] + [ne(den, 0)], eq(mul(r.at(i), den), app("v", list(i), "R")))
        call_paths(obs, "get_compensation: %d-d" % nd, f, post, rp)

ASSUME = ["the Cython layer is read as Python: C declarations, casts and nogil are dropped (listed in psym.pyx_to_python); memory views are the arrays themselves, element conversions f4/f8 are exact",
          "numpy functions behave as their contracts in pmv/npshim.py (asarray, empty, zeros, as_strided with zero strides, reshape, broadcasting, slicing)"]
def finish(obs):
    obs.assumptions |= set(ASSUME)
    return obs

def prove(prop, tier="quick"):
    obs = Obs("wrapper: ")
    rp = search("*")
    if prop == "C06": paint_contract(obs, "paint", rp); obs.functions |= {"window.ResampleWindow.paint", "window._mkarr", "_window.ResampleWindow.paint", "window.Affine.__init__"}
    if prop == "C07": paint_contract(obs, "readout", rp); obs.functions |= {"window.ResampleWindow.readout", "window._mkarr", "_window.ResampleWindow.readout"}
    if prop == "C08": names_contract(obs, rp); affine_contract(obs, rp); obs.functions |= {"window.FindResampler", "window.ResampleWindow.resize", "window.Affine.rescale", "window.Affine.shift", "_window.ResampleWindow.__init__"}
    if prop == "C09": names_contract(obs, rp); affine_contract(obs, rp); obs.functions |= {"window.FindResampler", "window.Affine.rescale", "window.Affine.shift"}
    if prop == "C10": fwindow_contract(obs, rp); names_contract(obs, rp); obs.functions |= {"window.ResampleWindow.get_fwindow", "window.ResampleWindow.get_compensation", "_window.ResampleWindow.get_fwindow"}
    return finish(obs)

# ------------------------------------------------------------------ invariant index
def invariant_contract(obs, rp):
    for nd in (1, 2, 3, 4):
        for compressed in (True, False):
            for ml in (None, "given"):
                for lead in ((I("n"),), (I("n"), I("m"))):
                    if nd == 4 and len(lead) > 1: continue
                    def f(nd=nd, compressed=compressed, ml=ml, lead=lead):
                        np_ = N.make()
                        idx = lambda n, xi, cmask, m: W(app("INDEX", [T_(n)] + [T_(xi.get(k)) for k in range(nd)] + [T_(cmask), T_(m)], "I"))
                        g, _ = P.load_pyx(text("_invariant.pyx"), "_invariant", N.mods(np_), dict(pmesh_get_invariant_index=idx))
                        m = N.mods(np_); m["."] = P.Mod("pmesh", dict(_invariant=P.Mod("_invariant", dict(get_index=g["get_index"])))); m["_invariant"] = m["."]
                        py = P.load(text("invariant.py"), "invariant", m)
                        for x in lead: P.CTX.assume(ge(x, 1))
                        for d in range(nd): P.CTX.assume(ge(app("mesh", [const(d)], "I"), 1))
                        x = symarr("x", list(lead) + [const(nd)], "i8", contiguous=True)
                        return py["get_index"](x, symarr("mesh", [const(nd)], "i8"), compressed, None if ml is None else W(I("maxlen")))
                    def post(p, prove, say, nd=nd, compressed=compressed, ml=ml, lead=lead):
                        if p.exc is not None: say("no exception", False, repr(p.exc)); return
                        r = p.res
                        say("shape of the argument without its last axis", len(r.shape_) == len(lead) and all(a is b for a, b in zip(r.shape_, lead)), r.shape_)
                        i = tuple(P.CTX.fresh("i") for _ in lead)
                        xs = [app("x", list(i) + [const(d)], "I") for d in range(nd)]
                        Ns = [app("mesh", [const(d)], "I") for d in range(nd)]
                        x2 = [ite(eq(mul(2, a), neg(b)), floor(div(b, const(2))), a) for a, b in zip(xs, Ns)]
                        bad = or_(*[or_(gt(mul(2, a), b), lt(mul(2, a), neg(b))) for a, b in zip(xs, Ns)])
                        want = ite(bad, const(-1), app("INDEX", [const(nd)] + x2 + [const(1 << (nd - 1) if compressed else 0), const(-1) if ml is None else I("maxlen")], "I"))
                        rng = [c for v, n in zip(i, lead) for c in (ge(v, 0), lt(v, n))]
                        got = r.at(i)
                        # by cases of each coordinate: outside, Nyquist, inside
                        prove("modes outside the mesh get -1", rng + [bad], eq(got, const(-1)))
                        for cs in itertools.product((0, 1), repeat=nd):
                            h = []; args = []
                            for c, a, b in zip(cs, xs, Ns):
                                if c: h.append(eq(a, div(neg(b), const(2)))); h.append(eq(mul(2, a), neg(b))); args.append(floor(div(b, const(2))))
                                else: h += [ne(mul(2, a), neg(b)), le(mul(2, a), b), ge(mul(2, a), neg(b))]; args.append(a)
                            if len(lead) > 1 and sum(cs) > 1: continue
                            hs = rng + [x_ for x_ in h]
                            # read the code's own arguments of the C function under these hypotheses
                            save = list(P.CTX.pc); P.CTX.pc = list(p.pc) + [mk(x_) for x_ in hs]
                            try: t = ctx_simplify(got)
                            finally: P.CTX.pc = save
                            prove("index of the mode, Nyquist axes %s" % (cs,), hs, eq_apps(t, "INDEX", [const(nd)] + args + [const(1 << (nd - 1) if compressed else 0), const(-1) if ml is None else I("maxlen")]))
                    call_paths(obs, "get_index: %d-d, compressed %s, maxlength %s, %d leading axes" % (nd, compressed, ml, len(lead)), f, post, rp)

def ctx_simplify(t):
    """resolve the conditions of nested ites that the path condition decides"""
    while t.op == "ite":
        d = P.CTX.decide(t.args[0])
        if d is True: t = t.args[1]
        elif d is False: t = t.args[2]
        else: break
    return t
def eq_apps(t, f, args):
    """t is f(args): arguments equal one by one"""
    if t.op != "app" or t.args[0] != f or len(t.args) != len(args) + 1: return eq(t, app(f, args, t.sort))
    return and_(*[eq(a, b) for a, b in zip(t.args[1:], args)])

# ------------------------------------------------------------------ white noise
def noise_contract(obs, rp):
    for unitary in (True, False):
        for dt in ("c16", "c8"):
            def f(unitary=unitary, dt=dt):
                np_ = N.make()
                def init(p): event("init", snap(p), p)
                def fill(p): event("fill", snap(p), p)
                g, _ = P.load_pyx(text("_whitenoise.pyx"), "_whitenoise", N.mods(np_), dict(pmesh_whitenoise_generator_init=init, pmesh_whitenoise_generator_fill=fill))
                m = N.mods(np_); m["."] = P.Mod("pmesh", dict(_whitenoise=P.Mod("_whitenoise", dict(generate=g["generate"]))))
                py = P.load(text("whitenoise.py"), "whitenoise", m)
                for d in range(3): P.CTX.assume(ge(I("size%d" % d), 0))
                c = P.new([I("size%d" % d) for d in range(3)], dt, lambda i: app("cplx", list(i), "R"), "cplx", contiguous=False)
                c.strides_ = [I("stride%d" % d) for d in range(3)]
                r = py["generate"](c, symarr("start", [const(3)], "i8"), symarr("mesh", [const(3)], "i8"), W(I("seed")), unitary)
                return r, c, list(P.CTX.events)
            def post(p, prove, say, unitary=unitary, dt=dt):
                if p.exc is not None: say("no exception", False, repr(p.exc)); return
                r, c, ev = p.res
                say("the generator is initialised and fills the array, once", [e.name for e in ev] == ["init", "fill"] and not any(e.binders for e in ev), ev)
                if [e.name for e in ev] != ["init", "fill"]: return
                S = ev[0].args[0]
                say("fields are set before the initialisation and kept", same(S, {}) or all(same(S.get(k), ev[1].args[0].get(k)) for k in ev[1].args[0] if k in S), S)
                say("array and element size", isinstance(S.get("canvas"), tuple) and S["canvas"][1] is c and S.get("canvas_dtype_elsize") == np_itemsize(dt) and S.get("ndim") == 3, S.get("canvas_dtype_elsize"))
                say("unitary flag", S.get("unitary") in (unitary, int(unitary)) and S.get("unitary") is not None, S.get("unitary"))
                prove("seed", [], eq(T_(S["seed"]), I("seed")))
                for k, v in dict(size=[I("size%d" % d) for d in range(3)], strides=[I("stride%d" % d) for d in range(3)], start=[app("start", [const(d)], "I") for d in range(3)], Nmesh=[app("mesh", [const(d)], "I") for d in range(3)]).items():
                    if not isinstance(S.get(k), list) or any(x is None for x in S[k]): say("field %s" % k, False, S.get(k)); continue
                    prove("field %s, every axis" % k, [], and_(*[eq(a, b) for a, b in zip(S[k], v)]))
                i = tuple(P.CTX.fresh("i") for _ in range(4))
                prove("the wrapper itself does not write the array", [], eq(c.buf.read(i), app("cplx", list(i), "R")))
            call_paths(obs, "generate: 3-d, %s, unitary %s" % (dt, unitary), f, post, rp)
    # one and two dimensions: a slice of the transform of one random field of the whole mesh
    for nd in (1, 2):
        for unitary in (True, False):
            def f(nd=nd, unitary=unitary):
                class RS:
                    def __init__(self, seed): self.seed = T_(seed)
                    def normal(self, *a, size=None, **k):
                        if a or k: raise Unsupported("normal with parameters")
                        sh = N.dims(size)
                        return FreshField("NORMAL", [self.seed] + list(sh), sh)
                class FreshField(SArr):
                    def __init__(self, nm, key, sh):
                        SArr.__init__(self, sh, "f8", elt=lambda i: app(nm, list(key) + list(i), "R")); self.tag = (nm, key)
                def fftn(a, *x, **k):
                    if x or k or not isinstance(a, FreshField): raise Unsupported("fftn")
                    nm, key = a.tag; sh = a.shape_
                    c = P.newc(sh, "c16", lambda i: app("FFT.re:" + nm, list(key) + list(i), "R"), lambda i: app("FFT.im:" + nm, list(key) + list(i), "R"))
                    return c
                def angle(a): return P.ewise(lambda x, y: app("atan2", [y, x], "R"), [a.real, a.imag], "f8")
                class ExpI: pass
                def exp(a):
                    # exp(1j * x)
                    re, im = a.real, a.imag
                    return P.mkcomplex(P.ewise(lambda x, y: mul(app("exp", [x], "R"), app("cos", [y], "R")), [re, im], "f8"), P.ewise(lambda x, y: mul(app("exp", [x], "R"), app("sin", [y], "R")), [re, im], "f8"))
                np_ = N.make(random=P.Mod("numpy.random", dict(RandomState=RS)), fft=P.Mod("numpy.fft", dict(fftn=fftn)), angle=angle, exp=exp)
                m = N.mods(np_); m["."] = P.Mod("pmesh", dict(_whitenoise=P.Mod("_whitenoise", {})))
                py = P.load(text("whitenoise.py"), "whitenoise", m)
                for d in range(nd):
                    P.CTX.assume(ge(app("mesh", [const(d)], "I"), 1)); P.CTX.assume(ge(app("start", [const(d)], "I"), 0)); P.CTX.assume(ge(I("size%d" % d), 0))
                    P.CTX.assume(le(add(app("start", [const(d)], "I"), I("size%d" % d)), app("mesh", [const(d)], "I")))
                c = P.new([I("size%d" % d) for d in range(nd)], "c16", lambda i: app("cplx", list(i), "R"), "cplx", contiguous=False)
                py["generate"](c, symarr("start", [const(nd)], "i8"), symarr("mesh", [const(nd)], "i8"), W(I("seed")), unitary)
                return c
            def post(p, prove, say, nd=nd, unitary=unitary):
                if p.exc is not None: say("no exception", False, repr(p.exc)); return
                c = p.res
                i = tuple(P.CTX.fresh("i") for _ in range(nd))
                rng = [x for k, v in enumerate(i) for x in (ge(v, 0), lt(v, I("size%d" % k)))]
                re, im = c.buf.read(i + (ZERO,)), c.buf.read(i + (ONE,))
                # the value at a mode depends only on the seed, the mesh and the mode (start + offset)
                j = tuple(var("q%d" % d, "I") for d in range(nd))
                env = {i[d]: sub(j[d], app("start", [const(d)], "I")) for d in range(nd)}
                for nm, t in (("real", re), ("imaginary", im)):
                    t2 = subst(P.resolve(t, list(p.pc) + rng), env)
                    bad = [s for s in subterms(t2) if (s.op == "app" and s.args[0] in ("start", "cplx")) or (s.op == "var" and s.args[0].startswith("size"))]
                    say("%s part of a mode depends only on the seed, the mesh and the mode" % nm, not bad, show(t2)[:400])
                    say("%s part uses the transform of one random field of the whole mesh" % nm, any(s.op == "app" and s.args[0].startswith("FFT.") and s.args[1] is I("seed") and list(s.args[2:2 + nd]) == [app("mesh", [const(d)], "I") for d in range(nd)] and list(s.args[2 + nd:]) == list(j) for s in subterms(t2)), show(t2)[:400])
            call_paths(obs, "generate: %d-d, unitary %s" % (nd, unitary), f, post, rp)

def np_itemsize(dt): return {"c16": 16, "c8": 8}[dt]
_prove0 = prove
def prove(prop, tier="quick"):
    rp = search("*")
    if prop in ("C11", "C12"):
        obs = Obs("wrapper: "); noise_contract(obs, rp); obs.functions |= {"whitenoise.generate", "_whitenoise.generate"}; return finish(obs)
    if prop == "C13":
        obs = Obs("wrapper: "); invariant_contract(obs, rp); obs.functions |= {"invariant.get_index", "_invariant.get_index"}; return finish(obs)
    return _prove0(prop, tier)

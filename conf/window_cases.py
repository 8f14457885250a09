"""Run-time contracts of pmesh.window (C06-C10) against an independent lattice-sum specification."""
import itertools, math
import numpy as np
from conf.lib import Case, Fail, expect

def W():
    import pmesh.window as w
    return w

# ---- the windows as mathematical functions (native support, unit mass)
def k_nearest(x): return np.where((x >= -0.5) & (x < 0.5), 1.0, 0.0)
def k_linear(x): return np.maximum(0, 1 - abs(x))
def k_quad(x):
    a = abs(x); return np.where(a < 0.5, 0.75 - a * a, np.where(a < 1.5, (1.5 - a) ** 2 / 2, 0.0))
def k_cubic(x):
    a = abs(x); return np.where(a < 1, (4 - 6 * a ** 2 + 3 * a ** 3) / 6, np.where(a < 2, (2 - a) ** 3 / 6, 0.0))
def d_nearest(x): return 0.0 * x
def d_linear(x): return np.where(abs(x) < 1, -np.sign(x), 0.0)
def d_quad(x):
    a = abs(x); return np.sign(x) * np.where(a < 0.5, -2 * a, np.where(a < 1.5, -(1.5 - a), 0.0))
def d_cubic(x):
    a = abs(x); return np.sign(x) * np.where(a < 1, (-12 * a + 9 * a ** 2) / 6, np.where(a < 2, -(2 - a) ** 2 / 2, 0.0))

POLY = dict(nearest=(1, k_nearest, d_nearest, [-0.5, 0.5]), linear=(2, k_linear, d_linear, [-1, 0, 1]),
            quadratic=(3, k_quad, d_quad, [-1.5, -0.5, 0.5, 1.5]), cubic=(4, k_cubic, d_cubic, [-2, -1, 0, 1, 2]))
TUNED = dict(tunednnb='nearest', tunedcic='linear', tunedtsc='quadratic', tunedpcs='cubic')
TABLES = dict(lanczos2=4, lanczos3=6, lanczos4=8, lanczos5=10, lanczos6=12, acg2=2, acg3=3, acg4=4, acg5=5, acg6=6,
              db6=7, db12=10, db20=13, sym6=7, sym12=10, sym20=12)
POLYKINDS = list(POLY) + list(TUNED)
NAMES = dict(NEAREST='nearest', LINEAR='linear', QUADRATIC='quadratic', CUBIC='cubic', NNB='tunednnb', CIC='tunedcic', TSC='tunedtsc', PCS='tunedpcs')

_cache = {}
def table_kernel(kind, order=0):
    """1-d profile of a tabulated window, read off the code through one canonical call (mesh of one cell, scale 1)."""
    w = W().ResampleWindow(kind=kind)
    def k(x):
        x = np.atleast_1d(np.asarray(x, 'f8'))
        out = np.empty(x.shape)
        for i, v in np.ndenumerate(x):
            key = (kind, order, float(v))
            if key not in _cache:
                c = np.zeros(1)
                w.paint(c, np.array([[v]]), diffdir=None if order == 0 else 0)
                _cache[key] = c[0]
            out[i] = _cache[key]
        return out
    return k

def native(kind):
    if kind in TUNED: return POLY[TUNED[kind]][0]
    if kind in POLY: return POLY[kind][0]
    return TABLES[kind]

def kern(kind, order):
    k = TUNED.get(kind, kind)
    if k in POLY: return POLY[k][1 + order]
    return table_kernel(k, order)

def axis_weights(kind, S, x, scale, translate, size, period, order):
    """1-d weights on cells 0..size-1: sum over lattice sites mapping to the cell."""
    g = x * scale + translate
    nat = native(kind)
    v = nat / float(S)
    r = int(math.ceil(S / 2.0)) + 2
    lo = int(math.floor(g)) - r
    sites = np.arange(lo, lo + 2 * r + 2)
    xx = (g - sites) * v
    w = kern(kind, order)(xx) * v
    if order: w = w * scale * v
    # outside of the window's own extent the window is zero
    w = np.where(abs(xx) > nat / 2.0, 0.0, w)
    out = np.zeros(size)
    for s, ww in zip(sites, w):
        c = s % period if period > 0 else s
        if 0 <= c < size: out[c] += ww
    return out, xx

def near_kink(kind, xx, order, v):
    """True when a site sits (nearly) on a point where the window is discontinuous (or its slope is, for gradients)."""
    k = TUNED.get(kind, kind)
    nat = native(kind)
    if k in POLY:
        if order == 0 and k != 'nearest': return False
        if order == 0 and 2 ** round(math.log2(v)) == v: return False       # exact in floating point
        if k in ('quadratic', 'cubic'): return False                        # continuous slope
        return bool(np.any(np.abs(xx[:, None] - np.array(POLY[k][3])[None, :]) < 1e-6))
    if order == 0: return bool(np.any(np.abs(np.abs(xx) - nat / 2.0) < 1e-6))
    return True

def gen_geom(rng, kinds, ndims=(1, 1, 2, 2, 3), maxs=9, table=False):
    kind = str(rng.choice(kinds))
    nd = int(rng.choice(ndims))
    nat = native(kind)
    m = rng.randint(4)
    support = -1 if m < 2 else int(rng.randint(1, maxs))
    size = [int(rng.randint(1, 8)) for d in range(nd)]
    period = []
    for s in size:
        k = rng.randint(5)
        period.append([0, s, s, s + int(rng.randint(1, 5)), max(1, s - 1)][k])
    scale = [float(rng.choice([1, 1, 2, 0.5, 4, -1])) for d in range(nd)]
    translate = [float(rng.choice([0, 0, 0.5, -3, 0.25, 2])) for d in range(nd)]
    return dict(kind=kind, support=support, size=size, period=period, scale=scale, translate=translate,
                order=[0] * nd)

def gen_points(rng, p, n):
    out = []
    for i in range(n):
        row = []
        for d, s in enumerate(p["size"]):
            k = rng.randint(4)
            if k == 0: g = rng.randint(-8 * s, 12 * s) / 4.0
            elif k == 1: g = float(rng.randint(-3, s + 3))
            elif k == 2: g = rng.randint(-64 * 3, 64 * (s + 3)) / 64.0
            else: g = rng.randint(-1024 * 3, 1024 * (s + 3)) / 1024.0
            row.append(float((g - p["translate"][d]) / p["scale"][d]))
        out.append(row)
    return out

def g_paint(kinds, ndims=(1, 1, 2, 2, 3), grad=True, npart=6):
    def g(rng, i, th):
        p = gen_geom(rng, kinds, ndims)
        nd = len(p["size"])
        p["diffdir"] = int(rng.randint(nd)) if grad and rng.randint(2) else None
        n = int(rng.choice([0, 1, 2, npart]))
        p["pos"] = gen_points(rng, p, n)
        p["mass"] = None if rng.randint(4) == 0 else [float(v) for v in rng.randint(-8, 9, size=n) / 4.0]
        k = rng.randint(4)
        if k < 2: p["hsml"] = None
        else: p["hsml"] = [float(v) for v in rng.choice([0.25, 0.5, 0.75, 1, 1.25, 1.5, 2], size=n)]
        p["dtype"] = str(rng.choice(["f8", "f8", "f4"]))
        p["layout"] = str(rng.choice(["C", "F", "step", "neg", "complex", "pad"]))
        p["ptype"] = str(rng.choice(["f8", "f8", "f4"])); p["mtype"] = str(rng.choice(["f8", "f8", "f4"])); p["htype"] = str(rng.choice(["f8", "f4"]))
        p["readonly"] = int(rng.randint(4) == 0)
        p["cseed"] = int(rng.randint(1000))
        return p
    return g

def mkcanvas(p):
    """(storage, view): integer valued so that comparisons are exact up to the deposits"""
    rng = np.random.RandomState(p["cseed"])
    sz = tuple(p["size"])
    dt = p["dtype"]
    l = p["layout"]
    if l == "C": base = rng.randint(-9, 10, size=sz).astype(dt); view = base
    elif l == "F": base = rng.randint(-9, 10, size=sz[::-1]).astype(dt); view = base.T
    elif l == "step":
        base = rng.randint(-9, 10, size=tuple(2 * s + 1 for s in sz)).astype(dt); view = base[tuple(slice(1, 2 * s + 1, 2) for s in sz)]
    elif l == "neg": base = rng.randint(-9, 10, size=sz).astype(dt); view = base[tuple(slice(None, None, -1) for s in sz)]
    elif l == "complex":
        base = (rng.randint(-9, 10, size=sz) + 1j * rng.randint(-9, 10, size=sz)).astype('c16' if dt == 'f8' else 'c8'); view = base
    else: # padded local mesh
        base = rng.randint(-9, 10, size=tuple(s + 3 for s in sz)).astype(dt); view = base[tuple(slice(1, 1 + s) for s in sz)]
    return base, view

def setup(p):
    w = W()
    nd = len(p["size"])
    win = w.ResampleWindow(kind=p["kind"], support=p["support"])
    tr = w.Affine(nd, scale=np.array(p["scale"]), translate=np.array(p["translate"]), period=np.array(p["period"]))
    n = len(p["pos"])
    pos = np.array(p["pos"], 'f8').reshape(n, nd).astype(p.get("ptype", "f8"))
    mass = None if p.get("mass") is None else np.array(p["mass"], p.get("mtype", 'f8'))
    hsml = None if p.get("hsml") is None else np.array(p["hsml"], p.get("htype", 'f8'))
    if p.get("readonly"):
        for a in (pos, mass, hsml):
            if a is not None: a.flags.writeable = False
    return win, tr, pos, mass, hsml

def supports(p, n):
    nat = native(p["kind"])
    base = p["support"] if p["support"] > 0 else nat
    h = [1.0] * n if p.get("hsml") is None else [float(v) for v in np.array(p["hsml"], p.get("htype", "f8"))]
    return [base * v for v in h]

def particle_weights(p, i, S, order):
    """list of per-axis weights, or None when the particle sits on a non-differentiable / rounding-sensitive point"""
    ws = []
    pos = np.array(p["pos"][i], p.get("ptype", "f8")).astype('f8')
    for d, size in enumerate(p["size"]):
        w, xx = axis_weights(p["kind"], S, pos[d], p["scale"][d], p["translate"][d], size, p["period"][d], order[d])
        if near_kink(p["kind"], xx, order[d], native(p["kind"]) / S): return None
        ws.append(w)
    return ws

def outer(ws):
    r = ws[0]
    for w in ws[1:]: r = r[..., None] * w
    return r

def orders(p):
    o = [0] * len(p["size"])
    if p.get("diffdir") is not None: o[p["diffdir"]] = 1
    return o

def keep(p):
    """drop the particles on excluded points"""
    o = orders(p)
    if sum(o) and p["kind"] in TABLES: return False
    S = supports(p, len(p["pos"]))
    ok = [particle_weights(p, i, S[i], o) is not None for i in range(len(p["pos"]))]
    if not all(ok):
        for f in ("pos", "mass", "hsml"):
            if p.get(f) is not None: p[f] = [v for v, k in zip(p[f], ok) if k]
    return True

def tol(p):
    if p["dtype"] == "f4": return 2e-5
    if p["kind"] in TABLES: return 1e-7
    return 1e-10

def gradmag(p):
    d = p.get("diffdir")
    return 1.0 if d is None else max(1.0, abs(p["scale"][d]) * 16)

def c_paint(p):
    p = dict(p)
    if not keep(p): return
    win, tr, pos, mass, hsml = setup(p)
    base, view = mkcanvas(p)
    o = orders(p)
    S = supports(p, len(pos))
    before = base.copy()
    keepargs = [None if a is None else a.copy() for a in (pos, mass, hsml)]
    win.paint(view, pos, hsml=hsml, mass=mass, diffdir=p["diffdir"], transform=tr)
    for a, b in zip((pos, mass, hsml), keepargs): expect(a is None or np.array_equal(a, b), "paint changed its inputs")
    want = np.zeros(p["size"])
    for i in range(len(pos)):
        m = 1.0 if mass is None else float(mass[i])
        want += m * outer(particle_weights(p, i, S[i], o))
    got = np.real(view).astype('f8')
    b2 = before.copy()
    # expected storage: old contents plus deposits in the view
    bv = mkcanvas(p)[1] if False else None
    old = np.real(_view_of(p, before)).astype('f8')
    t = tol(p) * gradmag(p) * max(1, len(pos))
    d = got - old - want
    if not np.all(np.abs(d) <= t * (1 + np.abs(old) + np.abs(want))):
        k = np.unravel_index(np.argmax(np.abs(d)), d.shape)
        raise Fail("cell %s: deposit %.12g, window weight %.12g" % (tuple(int(x) for x in k), (got - old)[k], want[k]))
    # frame: everything else in the storage is untouched
    va = _view_of(p, base); vb = _view_of(p, before)
    if np.iscomplexobj(base):
        expect(np.array_equal(base.imag, before.imag), "imaginary part was written")
        base = base.copy(); va = _view_of(p, base); va[...] = vb
    else:
        va[...] = vb
    expect(np.array_equal(base, before), "memory outside of the mesh was written")

def _view_of(p, base):
    sz = tuple(p["size"]); l = p["layout"]
    if l == "F": return base.T
    if l == "step": return base[tuple(slice(1, 2 * s + 1, 2) for s in sz)]
    if l == "neg": return base[tuple(slice(None, None, -1) for s in sz)]
    if l == "pad": return base[tuple(slice(1, 1 + s) for s in sz)]
    return base

def c_readout(p):
    p = dict(p)
    if not keep(p): return
    win, tr, pos, mass, hsml = setup(p)
    base, view = mkcanvas(p)
    before = base.copy()
    o = orders(p)
    S = supports(p, len(pos))
    out = None
    if p["mass"] is not None: out = np.full(len(pos), 55.0, dtype=p["mtype"])
    r = win.readout(view, pos, hsml=hsml, out=out, diffdir=p["diffdir"], transform=tr)
    if out is not None: expect(r is out, "readout does not return the supplied output")
    expect(r.shape == (len(pos),), "shape of readout")
    expect(np.array_equal(base, before), "readout changed the mesh")
    v = np.real(view).astype('f8')
    for i in range(len(pos)):
        w = outer(particle_weights(p, i, S[i], o))
        want = float((v * w).sum())
        t = max(tol(p), 2e-5 if out is not None and p["mtype"] == "f4" else 0) * gradmag(p) * (1 + np.abs(v * w).sum()) * 2
        expect(abs(float(r[i]) - want) <= t, "particle %s: readout %.12g, sum of mesh times weights %.12g" % (p["pos"][i], float(r[i]), want))

def c_adjoint(p):
    """<paint(pos, m), f> == <m, readout(f, pos)> through the code only (any window, any point)"""
    win, tr, pos, mass, hsml = setup(p)
    if mass is None: mass = np.ones(len(pos))
    rng = np.random.RandomState(p["cseed"])
    f = rng.randint(-9, 10, size=p["size"]).astype(p["dtype"])
    c = np.zeros(p["size"], p["dtype"])
    win.paint(c, pos, hsml=hsml, mass=mass, diffdir=p["diffdir"], transform=tr)
    r = win.readout(f, pos, hsml=hsml, diffdir=p["diffdir"], transform=tr)
    a = float((c.astype('f8') * f).sum()); b = float((r * mass).sum())
    t = (2e-4 if p["dtype"] == "f4" else 1e-9) * gradmag(p) * (1 + np.abs(c).sum() * 9)
    expect(abs(a - b) <= t, "sum(painted * field) = %.12g, sum(readout * mass) = %.12g" % (a, b))

def g_many(rng, i, th):
    p = g_paint(['tunedcic', 'tunedpcs', 'tunedtsc', 'tunednnb', 'cubic'], ndims=(3,), npart=40)(rng, i, th)
    return p

# generic implementation in 4 dimensions
def g_4d(rng, i, th):
    p = g_paint(POLYKINDS, ndims=(4,), npart=2)(rng, i, th)
    p["size"] = [min(s, 4) for s in p["size"]]
    return p

# ---------------------------------------------------------------- C08
def g_c08(rng, i, th):
    kind = str(rng.choice(POLYKINDS)); nd = int(rng.choice([1, 2, 3]))
    size = [int(rng.randint(1, 9)) for d in range(nd)]
    n = int(rng.choice([1, 3, 10]))
    p = dict(kind=kind, support=-1, size=size, period=size, scale=[float(rng.choice([1, 2, 0.5, 3.7, -1, 0.1])) for d in size],
             translate=[float(rng.choice([0, 0.5, -2.25, 17.3])) for d in size], diffdir=None, dtype="f8")
    p["pos"] = [[float(rng.choice([rng.uniform(-3 * s, 4 * s), rng.randint(-2 * s, 3 * s), rng.randint(-2 * s, 3 * s) + 0.5])) / p["scale"][d] for d, s in enumerate(size)] for k in range(n)]
    p["mass"] = [float(v) for v in rng.uniform(-2, 5, size=n)]
    p["hsml"] = None
    k = TUNED.get(kind, kind)
    p["diffdir"] = int(rng.randint(nd)) if (k != 'nearest' and rng.randint(2)) else None
    p["const"] = float(rng.uniform(-5, 5))
    return p

def c_c08(p):
    if p["diffdir"] is not None and TUNED.get(p["kind"], p["kind"]) == "linear":
        # the slope jumps at the mesh sites: only positions whose distance to a site is exact, or not tiny
        p = dict(p)
        g = np.array(p["pos"]) * np.array(p["scale"]) + np.array(p["translate"])
        d = abs(g - np.rint(g))
        exact = np.array([s in (1, 2, 0.5, -1) for s in p["scale"]])
        ok = ((d > 1e-9) | (exact & (d == 0))).all(axis=1)
        if not ok.any(): return
        p["pos"] = [v for v, k in zip(p["pos"], ok) if k]; p["mass"] = [v for v, k in zip(p["mass"], ok) if k]
    win, tr, pos, mass, hsml = setup(p)
    c = np.zeros(p["size"])
    win.paint(c, pos, mass=mass, diffdir=p["diffdir"], transform=tr)
    t = 1e-10 * gradmag(p) * (1 + np.abs(mass).sum()) * 100
    want = mass.sum() if p["diffdir"] is None else 0.0
    expect(abs(c.sum() - want) <= t, "painted total %.15g, expected %.15g" % (c.sum(), want))
    f = np.full(p["size"], p["const"])
    r = win.readout(f, pos, diffdir=p["diffdir"], transform=tr)
    want = p["const"] if p["diffdir"] is None else 0.0
    expect(np.abs(r - want).max() <= 1e-10 * gradmag(p) * 500, "readout of the constant %g: %s" % (p["const"], r.tolist()))
    # single particle at a time as well: each conserves on its own
    for i in range(min(len(pos), 3)):
        c[...] = 0
        win.paint(c, pos[i:i + 1], mass=mass[i:i + 1], diffdir=p["diffdir"], transform=tr)
        want = mass[i] if p["diffdir"] is None else 0.0
        expect(abs(c.sum() - want) <= t, "particle %s: painted total %.15g, expected %.15g" % (p["pos"][i], c.sum(), want))

# ---------------------------------------------------------------- C09
def g_c09(kinds):
    def g(rng, i, th):
        p = gen_geom(rng, kinds, (1, 2, 3))
        p["scale"] = [float(rng.choice([1, 2, 0.5, 3.25, -1.5])) for d in p["size"]]
        p["pos"] = [[float((rng.uniform(-2, s + 2) - p["translate"][d]) / p["scale"][d]) for d, s in enumerate(p["size"])]]
        p["diffdir"] = int(rng.randint(len(p["size"])))
        p["hsml"] = None if rng.randint(2) else [float(rng.choice([0.5, 0.75, 1, 1.5, 2]))]
        p["mass"] = [1.0]; p["dtype"] = "f8"
        return p
    return g

def c_c09(p):
    win, tr, pos, mass, hsml = setup(p)
    d = p["diffdir"]
    def W(x, dd):
        c = np.zeros(p["size"]); win.paint(c, x, hsml=hsml, diffdir=dd, transform=tr); return c
    S = supports(p, 1)[0]
    v = native(p["kind"]) / S
    h = 1e-5 if p["kind"] in TABLES else 1e-4
    h = h / abs(p["scale"][d]) / v
    def shift(k):
        x = pos.copy(); x[0, d] += k * h; return x
    f0, fp, fm, fp2, fm2 = [W(shift(k), None) for k in (0, 1, -1, 2, -2)]
    sc = abs(p["scale"][d]) * v * v
    if p["kind"] in TABLES:
        ok = abs((fp - f0) - (f0 - fm)) <= 1e-6 * h * sc * 100 + 1e-14   # no node of the table between
        ok &= abs((fp2 - fp) - (fm - fm2)) <= 1e-6 * h * sc * 100 + 1e-14
        der = (fp - fm) / (2 * h); t = 1e-5 * sc * 10
    else:
        d1 = (fp - fm) / (2 * h); d2 = (fp2 - fm2) / (4 * h)
        ok = abs(fp2 - 2 * f0 + fm2) <= 40 * (h * p["scale"][d]) ** 2 * v ** 3 + 1e-14   # away from kinks
        der = (4 * d1 - d2) / 3; t = 1e-6 * sc * 10
        # third-order kinks of the cubic: the Richardson estimate is only O(h) accurate there
        t = t + 1e-3 * sc * v
    g = W(pos, d)
    bad = ok & (abs(g - der) > t + 1e-4 * abs(der))
    if bad.any():
        k = tuple(int(x) for x in np.argwhere(bad)[0])
        raise Fail("gradient weight at cell %s is %.10g, derivative of the plain weight %.10g" % (k, g[k], der[k]))

def g_c09k(rng, i, th):
    p = g_paint(POLYKINDS)(rng, i, th)
    p["diffdir"] = int(rng.randint(len(p["size"]))); p["dtype"] = "f8"; p["layout"] = "C"
    return p

# ---------------------------------------------------------------- C10
def g_c10(rng, i, th):
    kind = str(rng.choice(POLYKINDS + list(TABLES)))
    w = [0.0, 1e-5, -1e-5, 9.9e-6, 2.0001e-5, 1e-7] + [float(v) for v in rng.uniform(-12, 12, size=5)] + [float(v) for v in rng.uniform(-1e-4, 1e-4, size=3)] + [float(2 * np.pi * v) for v in (1, 2)]
    return dict(kind=kind, support=int(rng.choice([-1, -1, 0] + list(range(1, 14)))), w=w, shape=int(rng.randint(3)))

def c_c10(p):
    m = W()
    win = m.ResampleWindow(kind=p["kind"], support=p["support"])
    w = np.array(p["w"])
    if p["shape"] == 1: w = w[:16 if len(w) >= 16 else len(w) // 2 * 2].reshape(2, -1)
    if p["shape"] == 2: w = w.reshape(1, -1, 1)
    w0 = w.copy()
    T = np.asarray(win.get_fwindow(w))
    expect(np.array_equal(w, w0), "get_fwindow changed its input")
    expect(T.shape == w.shape, "shape of fwindow %s" % (T.shape,))
    k = TUNED.get(p["kind"], p["kind"])
    if k in POLY:
        nat = native(k)
        r = (p["support"] if p["support"] > 0 else nat) / float(nat)
        want = np.sinc(w * r / 2 / np.pi) ** nat
    else:
        want = np.ones(w.shape)
    bad = abs(T - want) > 1e-9
    if bad.any():
        i = tuple(int(x) for x in np.argwhere(bad)[0])
        raise Fail("fwindow(%.10g) = %.12g, expected %.12g" % (w[i], T[i], want[i]))
    expect(np.allclose(np.asarray(win.get_fwindow(-w)), T, rtol=0, atol=1e-13), "fwindow is not even")
    # compensation
    ws = [np.array(p["w"][6:11]).reshape(-1, 1), np.array(p["w"][6:8]).reshape(1, -1)]
    v = np.arange(10.).reshape(5, 2) + 1j
    tf = 1.0
    for x in ws: tf = tf * (np.sinc(x * r / 2 / np.pi) ** nat if k in POLY else 1.0)
    got = win.get_compensation()(ws, v.copy())
    expect(np.allclose(got, v / tf, rtol=1e-7, atol=1e-9), "compensation does not divide by the product of the Fourier windows")

def g_c10t(rng, i, th):
    return dict(kind=str(rng.choice(POLYKINDS)), support=int(rng.choice([-1, 1, 2, 3, 4, 5, 6])), w=[float(v) for v in rng.uniform(-6, 6, size=4)])

def c_c10t(p):
    """the reported window is the transform of the painted profile (quadrature of the code's own weights)"""
    m = W()
    win = m.ResampleWindow(kind=p["kind"], support=p["support"])
    nat = native(p["kind"]); S = p["support"] if p["support"] > 0 else nat
    n = 400
    u = (np.arange(n) + 0.5) / n
    size = S + 6
    tot = np.zeros(len(p["w"]), complex)
    sites = np.arange(size)
    w = np.array(p["w"])
    for x in u:
        c = np.zeros(size)
        g = x + size // 2
        win.paint(c, np.array([[g]]))
        tot += (c[None, :] * np.exp(-1j * w[:, None] * (sites[None, :] - g))).sum(axis=1) / n
    T = np.asarray(win.get_fwindow(w))
    expect(np.abs(tot - T).max() < 2e-4, "transform of the painted window %s, reported %s" % (tot.tolist(), T.tolist()))

def g_c10r(rng, i, th):
    return dict(kind=str(rng.choice(POLYKINDS + list(TABLES))), support=int(rng.choice([-1, 1, 2, 3, 5, 8])), first=int(rng.choice([-1, 2, 7])),
                pos=[float(v) for v in rng.uniform(0, 12, size=5)])

def c_c10r(p):
    m = W()
    a = m.ResampleWindow(kind=p["kind"], support=p["first"]).resize(p["support"])
    b = m.ResampleWindow(kind=p["kind"], support=p["support"])
    expect(a.kind == b.kind and a.support == b.support and a.nativesupport == b.nativesupport, "resized window differs: %s %s %s" % (a.kind, a.support, a.nativesupport))
    expect(a.nativesupport == native(p["kind"]), "native support %s" % a.nativesupport)
    expect(a.support == (p["support"] if p["support"] > 0 else native(p["kind"])), "support %s" % a.support)
    ca = np.zeros(12); cb = np.zeros(12)
    x = np.array(p["pos"])[:, None]
    a.paint(ca, x); b.paint(cb, x)
    expect(np.array_equal(ca, cb), "resized window paints differently")
    expect(np.array_equal(np.asarray(a.get_fwindow(np.array(p["pos"]))), np.asarray(b.get_fwindow(np.array(p["pos"])))), "resized window has another Fourier window")

def c_names(p):
    m = W()
    w = m.FindResampler(p["name"])
    kind = NAMES.get(p["name"].upper(), p["name"].lower())
    expect(w.kind == kind, "window %s is of kind %s" % (p["name"], w.kind))
    expect(w.nativesupport == native(kind) and w.support == native(kind), "native support of %s" % p["name"])
    expect(m.FindResampler(w) is w, "FindResampler of a window")

def g_names(rng, i, th):
    l = list(NAMES) + list(TABLES)
    n = l[i % len(l)]
    return dict(name=n.upper() if i % 2 else n.lower())

# shape of the tabulated windows: compact, centred, unit area
def g_tab(rng, i, th):
    return dict(kind=list(TABLES)[i % len(TABLES)], x=[float(v) for v in rng.uniform(-8, 8, size=40)])

def c_tab(p):
    k = table_kernel(p["kind"]); nat = native(p["kind"])
    x = np.array(p["x"])
    v = k(x)
    if p["kind"][:3] in ('lan', 'acg'):
        expect(np.allclose(v, k(-x), atol=1e-9), "window is not even")
        out = abs(x) > nat / 2.0 + 0.01
    else:
        out = abs(x) > nat / 2.0 + 0.6
    expect((v[out] == 0).all(), "window does not vanish outside of its support")
    if p["kind"].startswith("lanczos"):
        n = int(p["kind"][7:])
        f = np.sinc(x) * np.sinc(x / n)
        i = abs(x) < n - 0.01
        c0 = k(np.array([0.0]))[0]
        expect(np.abs(v[i] - c0 * f[i]).max() < 1e-3 and 0.9 < c0 < 1.1, "window is not the Lanczos kernel of order %d" % n)
    g = (np.arange(-1024, 1024) + 0.5) / 1024 * 8
    expect(abs(k(g).sum() / 128 - 1) < 0.02, "area of the window is %.4f" % (k(g).sum() / 128))

nt = lambda p: len(p.get("pos", [1])) > 0
CASES = dict(
    C06=[Case("paint", g_paint(POLYKINDS), c_paint, 500, nontrivial=nt), Case("paint-tables", g_paint(list(TABLES), (1, 1, 2), grad=False, npart=3), c_paint, 120, nontrivial=nt),
         Case("paint-many", g_many, c_paint, 40), Case("paint-4d", g_4d, c_paint, 25, nontrivial=nt),
         Case("names", g_names, c_names, 48, 48), Case("table-shape", g_tab, c_tab, 16, 32)],
    C07=[Case("readout", g_paint(POLYKINDS), c_readout, 500, nontrivial=nt), Case("readout-tables", g_paint(list(TABLES), (1, 1, 2), grad=False, npart=3), c_readout, 120, nontrivial=nt),
         Case("readout-many", g_many, c_readout, 40), Case("readout-4d", g_4d, c_readout, 25, nontrivial=nt),
         Case("adjoint", g_paint(POLYKINDS + list(TABLES)), c_adjoint, 250, nontrivial=nt)],
    C08=[Case("conserve", g_c08, c_c08, 500)],
    C09=[Case("derivative", g_c09(POLYKINDS), c_c09, 400), Case("derivative-tables", g_c09(list(TABLES)), c_c09, 200), Case("gradient-weights", g_c09k, c_paint, 250, nontrivial=nt)],
    C10=[Case("fwindow", g_c10, c_c10, 200), Case("transform", g_c10t, c_c10t, 25), Case("resize", g_c10r, c_c10r, 100)],
)

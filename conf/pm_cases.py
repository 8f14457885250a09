"""Run-time contracts of pmesh.pm (C14-C19, C20 fields, C21). Ranks are threads; pfft and mpsort are stand-ins (fakepfft)."""
import itertools, gc
import numpy as np
from conf.lib import Case, Fail, expect, close
from conf import fakempi, fakepfft

_m = {}
def mods():
    if not _m:
        fakempi.install(); fakepfft.install()
        import pmesh.pm as PM, pmesh.window as W
        _m.update(PM=PM, W=W)
    return _m["PM"], _m["W"]

CX = ("c16", "c8")

def gen_mesh(rng, dims=(1, 2, 3), maxn=7, dtypes=("f8", "f4", "c16", "c8"), maxp=6, even=False, minn=1, big=False):
    nd = int(rng.choice(dims))
    N = [int(rng.randint(minn, (maxn if nd < 3 else min(maxn, 6)) + 1)) for d in range(nd)]
    if even: N = [2 * ((n + 1) // 2) for n in N]
    P = 1 if nd == 1 else int(rng.randint(1, maxp + 1))
    np_ = None
    k = rng.randint(4)
    if nd == 2 and k == 0: np_ = list(map(int, fac2(rng, P)))
    if nd == 3:
        if k == 0: np_ = list(map(int, fac2(rng, P))) + [1]; rng.shuffle(np_)
        elif k == 1: np_ = list(map(int, fac2(rng, P)))
        elif k == 2: np_ = [P]
    if nd == 1 and k == 0: np_ = [1]
    if nd == 2 and k == 1: np_ = [P]
    if np_ is not None: np_ = [int(x) for x in np_]
    L = [float(rng.choice([1., 2., 8., 0.5, 3., 10.7])) for d in range(nd)]
    return dict(N=N, P=P, np=np_, L=L, dtype=str(rng.choice(dtypes)), order=str(rng.choice(["C", "F", "rev"])))

def fac2(rng, P):
    d = [i for i in range(1, P + 1) if P % i == 0]
    a = int(rng.choice(d))
    return [a, P // a]

def mkpm(PM, p, comm, **kw):
    a = dict(Nmesh=p["N"], BoxSize=p["L"], comm=comm, np=p["np"], dtype=p["dtype"])
    a.update(kw)
    return PM.ParticleMesh(**a)

def run(p, fn):
    fakepfft.ORDER[0] = p.get("order", "C")
    res, w = fakempi.run(p["P"], fn)
    try: return fakempi.ok(res)
    except fakempi.CollectiveMismatch as e: raise Fail("collective calls do not match: %s" % e)

def assemble(parts, shape, dt):
    full = np.zeros(shape, dt); seen = np.zeros(shape, int)
    for sl, a in parts:
        full[sl] = a; seen[sl] += 1
    expect((seen == 1).all(), "the local parts do not cover the mesh exactly once")
    return full

def types(PM):
    return dict(real=PM.RealField, T=PM.TransposedComplexField, U=PM.UntransposedComplexField)

def cshape(p, t):
    N = list(p["N"])
    if t != "real" and p["dtype"] not in CX: N[-1] = N[-1] // 2 + 1
    return N

def signed(i, N):
    """mode number congruent to i, in [-N/2, N/2)"""
    i = np.asarray(i)
    return np.where(2 * i >= N, i - N, i)

# ---------------------------------------------------------------- C14
def code_of(i, N):
    c = 0
    for d in range(len(N)): c = c * (N[d] + 3) + np.asarray(i[d])
    return c

def chk_coords(p):
    PM, W = mods()
    N, L = np.array(p["N"]), np.array(p["L"])
    eps = 1e-5 if p["dtype"] in ("f4", "c8") else 1e-12
    def fn(comm):
        pm = mkpm(PM, p, comm)
        out = {}
        for t, T in types(PM).items():
            f = pm.create(T)
            msgs = []
            part = pm._get_partition(T)
            st, sh = (part.local_i_start, part.local_i_shape) if t == "real" else (part.local_o_start, part.local_o_shape)
            cs = cshape(p, t)
            expect(f.value.shape == tuple(sh), "%s: local shape" % t)
            expect(list(f.cshape) == cs, "%s: collective shape %s, expected %s" % (t, f.cshape, cs))
            expect(f.csize == int(np.prod(cs)), "%s: csize" % t)
            expect(f.compressed == (t != "real" and p["dtype"] not in CX and cs[-1] != N[-1]), "%s: compressed flag" % t)
            expect(f.pm is pm and list(f.BoxSize) == list(L) and list(f.Nmesh) == list(N) and f.ndim == len(N), "%s: attributes of the field" % t)
            expect(f.dtype == f.value.dtype and f.size == f.value.size and f.flat.base is f.value, "%s: dtype, size and flat of the field" % t)
            h = pm.create(T, base=f._base); f.value[...] = 3
            expect(h.value is not f.value and np.all(h.value == 3) and np.shares_memory(h.value, f.value) == (f.value.size > 0), "%s: a field made on the memory of another one has memory of its own" % t)
            if t != "real":
                f.value[...] = 3 + 4j
                expect(np.all(f.real == 3) and np.all(f.imag == 4) and f.plain.shape == f.value.shape + (2,) and np.all(f.plain[..., 0] == 3) and np.all(f.plain[..., 1] == 4), "%s: real, imag and plain" % t)
            names = dict(real="real", T="transposedcomplex", U="untransposedcomplex")
            expect(type(pm.create(names[t])) is T and type(pm.create(type=names[t])) is T, "%s: field by the name of its type" % t)
            expect(np.all(pm.create(T, value=5).value == 5), "%s: initial value" % t)
            truex = []
            for d in range(pm.ndim):
                ii = np.asarray(f.i[d])
                want = [1] * pm.ndim; want[d] = sh[d]
                expect(ii.shape == tuple(want), "%s: shape of i[%d]" % (t, d))
                expect(np.array_equal(ii.ravel(), st[d] + np.arange(sh[d])), "%s: index coordinates %s, expected %d..%d" % (t, ii.ravel().tolist(), st[d], st[d] + sh[d]))
                m = signed(ii.ravel(), N[d])
                wx = m * L[d] / N[d] if t == "real" else m * 2 * np.pi / L[d]
                xx = np.asarray(f.x[d])
                expect(xx.shape == tuple(want), "%s: shape of x[%d]" % (t, d))
                expect(np.all(np.abs(xx.ravel() - wx) <= eps * (1 + np.abs(wx)) * max(1, N[d])), "%s: coordinates along %d are %s, expected %s" % (t, d, xx.ravel().tolist(), wx.tolist()))
                truex.append(wx.reshape(want))
                # copies: changing what the caller got changes nothing else
                c1 = pm.create_coords(T); c1[d][...] = 77
                expect(np.array_equal(np.asarray(pm.create_coords(T)[d]), xx), "coordinates handed out are shared")
            # slabs
            gi = np.meshgrid(*[st[d] + np.arange(sh[d]) for d in range(pm.ndim)], indexing="ij")
            f.value[...] = code_of(gi, cs)
            visits = 0
            a0 = f.value.copy()
            xs, is_ = list(f.slabs.x), list(f.slabs.i)
            sl = list(f.slabs)
            expect(len(sl) == len(xs) == len(is_), "%s: slab iterators differ in length" % t)
            for s, xi, ii in zip(sl, xs, is_):
                for label, a, b in (("i", s.i, ii), ("x", s.x, xi)):
                    for u, v in zip(a, b): expect(np.array_equal(u, v), "%s: slabs.%s and slab.%s differ" % (t, label, label))
                full = [np.broadcast_to(np.asarray(u), s.shape) for u in s.i]
                expect(np.array_equal(np.asarray(s), code_of(full, cs).astype(s.dtype)), "%s: a slab comes with the coordinates of other cells" % t)
                for d in range(pm.ndim):
                    u = np.broadcast_to(np.asarray(s.x[d]), s.shape)
                    wx = signed(full[d], N[d]); wx = wx * L[d] / N[d] if t == "real" else wx * 2 * np.pi / L[d]
                    expect(np.all(np.abs(u - wx) <= eps * (1 + np.abs(wx)) * max(1, N[d])), "%s: slab.x[%d] is not the coordinate of its cells" % (t, d))
                expect(list(s.Nmesh) == list(N) and list(s.BoxSize) == list(L), "slab attributes")
                visits += s.size
                np.asarray(s)[...] += 1000000
            if len(sl): expect(np.array_equal(f.value, a0 + 1000000), "%s: iterating over slabs does not visit every local cell exactly once" % t)
            expect(visits == f.value.size, "%s: slabs cover %d of %d cells" % (t, visits, f.value.size))
            # norm of the coordinates
            def chkn(k, v):
                x = [np.asarray(u) for u in k]
                for q in (None, 1, 2, 3):
                    w = sum((abs(u) if q == 1 else abs(u) ** (2 if q is None else q)) for u in x)
                    kw = {} if q is None else dict(p=q)
                    g = np.asarray(k.normp(**kw)); expect(np.all(np.abs(g - w) <= 1e-4 * (1 + np.abs(w))), "%s: normp(%s)" % (t, q))
                    g = np.asarray(k.normp(zeromode=7, **kw)); expect(np.all(np.abs(g - np.where(w == 0, 7, w)) <= 1e-4 * (1 + np.abs(w))), "%s: normp(%s) with a zero mode" % (t, q))
                for u, v0 in zip(k, x): expect(u is not None and np.array_equal(u, v0), "normp changed the coordinates")
                return v
            f.apply(chkn)
            # apply hands each cell its own coordinates
            kinds = ["relative", "index"] if t == "real" else ["wavenumber", "index", "circular"]
            for kind in kinds:
                f.value[...] = 1
                def func(c, v):
                    r = np.zeros(v.shape, f.dtype)
                    for d, ci in enumerate(c): r = r + np.asarray(ci) * (d + 1) * 1.25
                    return r * np.asarray(v)
                g = f.apply(func, kind=kind)
                w = np.zeros(f.value.shape, 'c16')
                for d in range(pm.ndim):
                    m = signed(gi[d], N[d])
                    v = {"index": gi[d], "relative": m * L[d] / N[d], "wavenumber": m * 2 * np.pi / L[d], "circular": m * 2 * np.pi / N[d]}[kind]
                    w = w + v * (d + 1) * 1.25
                if f.value.size: expect(np.all(np.abs(np.asarray(g.value) - w) <= 20 * eps * (1 + np.abs(w).max()) * max(N)), "%s: apply(kind=%s) passes wrong coordinates" % (t, kind))
                expect((f.value == 1).all(), "apply changed its input")
            out[t] = (f.slices, a0)
        mc = pm.mesh_coordinates()
        part = pm.partition
        w = np.stack(np.meshgrid(*[part.local_i_start[d] + np.arange(part.local_i_shape[d]) for d in range(pm.ndim)], indexing="ij"), -1).reshape(-1, pm.ndim)
        expect(np.array_equal(np.asarray(mc), w), "mesh_coordinates are not the absolute indices of the local cells")
        return out
    res = run(p, fn)
    for t in ("real", "T", "U"):
        cs = cshape(p, t)
        full = assemble([r[t] for r in res], cs, 'c16')
        gi = np.indices(cs)
        expect(np.array_equal(full, code_of(gi, cs).astype(full.dtype)), "%s: the parts of the ranks are not the mesh" % t)

class FakePart(object): pass

def chk_init_coords(p):
    PM, W = mods()
    N, L = p["N"], np.array(p["L"])
    q = FakePart(); q.ndim = len(N)
    q.local_i_start = q.local_o_start = np.array(p["start"], 'intp')
    q.local_i_shape = q.local_o_shape = np.array(p["shape"], 'intp')
    for real in (True, False):
        x, i = (PM._init_i_coords if real else PM._init_o_coords)(q, np.array(N), L, np.dtype(p["dtype"]))
        for d in range(len(N)):
            want = p["start"][d] + np.arange(p["shape"][d])
            sh = [1] * len(N); sh[d] = p["shape"][d]
            expect(i[d].shape == tuple(sh) and np.array_equal(i[d].ravel(), want), "index coordinates: %s, expected %s" % (i[d].ravel().tolist(), want.tolist()))
            m = signed(want, N[d])
            w = m * L[d] / N[d] if real else m * 2 * np.pi / L[d]
            tol = (1e-5 if p["dtype"] == "f4" else 1e-12) * (1 + np.abs(w))
            expect(x[d].shape == tuple(sh) and np.all(np.abs(x[d].ravel() - w) <= tol), "%s coordinates %s, expected %s" % ("position" if real else "wavenumber", x[d].ravel().tolist(), w.tolist()))
            expect(x[d].dtype == np.dtype(p["dtype"]), "coordinate dtype")

def gen_init(rng, i, th):
    nd = int(rng.randint(1, 4))
    N = [int(rng.choice([1, 2, 3, 4, 5, 7, 8, 16, 17, 100, 101])) for d in range(nd)]
    st = [int(rng.randint(0, n)) for n in N]
    sh = [int(rng.randint(0, n - s + 1)) for n, s in zip(N, st)]
    return dict(N=N, L=[float(rng.choice([1., 2., 3., 10.7])) for d in range(nd)], start=st, shape=sh, dtype=str(rng.choice(["f8", "f4"])))

# ---------------------------------------------------------------- C15
def chk_reindex(p):
    PM, W = mods()
    for Ns in range(p["lo"], p["hi"]):
        for Nd in p["Nd"]:
            r = np.asarray(PM.reindex(Ns, Nd))
            expect(r.shape == (Nd,), "reindex(%d, %d) has %s entries" % (Ns, Nd, r.shape))
            for j in range(Nd):
                # signed mode numbers; the Nyquist mode counts as positive on the source side
                m = j if 2 * j <= Nd else j - Nd
                if 2 * abs(m) < Ns or 2 * m == Ns: w = m % Ns
                else: w = -1
                alt = {w}
                if 2 * abs(m) == Nd or 2 * abs(m) == Ns:
                    # +N/2 and -N/2 are the same mode of an even mesh
                    alt = {w, -1}
                    if 2 * abs(m) <= Ns: alt |= {m % Ns, (-m) % Ns}
                expect(int(r[j]) in alt, "reindex(%d, %d)[%d] = %d, expected one of %s (mode %d)" % (Ns, Nd, j, r[j], sorted(alt), m))

def chk_build_index(p):
    PM, W = mods()
    idx = [np.array(x, 'i8') for x in p["idx"]]
    r = np.asarray(PM.build_index(idx, p["full"]))
    expect(r.shape == tuple(len(x) for x in idx), "shape")
    for t in itertools.product(*[range(len(x)) for x in idx]):
        v = [int(idx[d][t[d]]) for d in range(len(t))]
        w = -1 if -1 in v else int(np.ravel_multi_index(v, p["full"]))
        expect(int(r[t]) == w, "build_index%s = %d, expected %d" % (v, r[t], w))

def gen_bi(rng, i, th):
    nd = int(rng.randint(1, 4))
    full = [int(rng.randint(1, 9)) for d in range(nd)]
    return dict(full=full, idx=[[int(rng.randint(-1, n)) for k in range(int(rng.randint(0, 7)))] for n in full])

def herm(N, seed):
    """full complex spectrum of a real field"""
    rng = np.random.RandomState(seed)
    return np.fft.fftn(rng.normal(size=N)) / np.prod(N)

def fieldvals(f, full):
    return full[f.slices]

def chk_resample(p):
    PM, W = mods()
    full = herm(p["N"], p["seed"])
    N, N2 = p["N"], p["N2"]
    def fn(comm):
        pm = mkpm(PM, p, comm); pm2 = pm.reshape(Nmesh=N2)
        st, dt = types(PM)[p["src"]], types(PM)[p["dst"]]
        if p["src"] == "real":
            f = pm.create(PM.RealField); f.value[...] = (np.fft.ifftn(full) * np.prod(N)).real[f.slices]
        else:
            f = pm.create(st); f.value[...] = fieldvals(f, full)
        keep = f.value.copy()
        o = pm2.create(dt); o.value[...] = 3.5
        r = f.resample(o)
        expect(r is o, "resample returns its output")
        expect(np.array_equal(f.value, keep), "resample changed its source")
        return o.slices, o.value.copy()
    res = run(p, fn)
    t = p["dst"]
    got = assemble(res, cshape(dict(p, N=N2), t), 'c16')
    if t == "real": got = np.fft.fftn(got.real) / np.prod(N2)
    tol = 1e-4 if p["dtype"] == "f4" else 1e-10
    for j in itertools.product(*[range(n) for n in got.shape]):
        m = [int(x if 2 * x <= n else x - n) for x, n in zip(j, N2)]
        if any(2 * abs(a) == n for a, n in zip(m, N2)): continue   # Nyquist of the destination: not part of the contract
        if any(2 * abs(a) == n for a, n in zip(m, N)): continue    # Nyquist of the source
        w = full[tuple(a % n for a, n in zip(m, N))] if all(2 * abs(a) < n for a, n in zip(m, N)) else 0
        expect(abs(got[j] - w) <= tol, "mode %s is %s, expected %s" % (m, got[j], w))

def gen_resample(rng, i, th):
    p = gen_mesh(rng, dtypes=("f8", "f8", "f4"), maxp=4)
    p["np"] = None if len(p["N"]) != 2 else p["np"]
    p["N2"] = [int(rng.randint(1, 8)) for d in p["N"]]
    if rng.randint(6) == 0: p["N2"] = list(p["N"])
    p["src"], p["dst"] = str(rng.choice(["real", "T", "U"])), str(rng.choice(["real", "T", "T", "U"]))
    p["seed"] = int(rng.randint(1 << 30))
    return p

# ---------------------------------------------------------------- C16
def chk_cget(p):
    PM, W = mods()
    cs = cshape(p, p["t"])
    full = np.arange(1, int(np.prod(cs)) + 1).reshape(cs) * (1 + (0 if p["t"] == "real" else 0.5j))
    def fn(comm):
        pm = mkpm(PM, p, comm)
        f = pm.create(types(PM)[p["t"]]); f.value[...] = full[f.slices]
        keep = f.value.copy()
        out = []
        for k, idx in enumerate(p["idx"]):
            given = np.array(idx) if k % 2 else list(idx)
            out.append(f.cgetitem(given))
            expect(list(given) == list(idx), "cgetitem changed the index it was given")
        expect(np.array_equal(keep, f.value), "cgetitem changed the field")
        return out
    res = run(p, fn)
    for k, idx in enumerate(p["idx"]):
        nd = len(p["N"])
        pos = [a % n for a, n in zip(idx[:nd], p["N"])]
        w = full[tuple(pos)] if all(a < c for a, c in zip(pos, cs)) else 0
        if len(idx) == nd + 1: w = w.imag if idx[nd] else w.real
        for r in range(p["P"]): expect(abs(res[r][k] - w) <= 1e-6 * abs(w), "cgetitem(%s) = %s on rank %d, the value at this index is %s" % (idx, res[r][k], r, w))

def gen_idx(rng, p, n, t):
    cs = cshape(p, t)
    out = []
    nd = len(p["N"])
    for k in range(n):
        kind = rng.randint(5)
        if kind == 0: ix = [int(rng.choice([0, N // 2, N - 1])) for N in p["N"]]
        elif kind == 1: ix = [int(rng.choice([0, N // 2 if N % 2 == 0 else 0])) for N in p["N"]]
        else: ix = [int(rng.randint(0, N)) for N in p["N"]]
        ix[-1] = min(ix[-1], cs[-1] - 1)
        ix = [int(a - N) if rng.randint(3) == 0 else a for a, N in zip(ix, p["N"])]
        if t != "real" and rng.randint(3) == 0: ix = ix + [int(rng.randint(2))]
        out.append(ix)
    return out

def gen_cget(rng, i, th):
    p = gen_mesh(rng, dtypes=("f8", "f8", "f4", "c16"), maxp=4)
    p["t"] = str(rng.choice(["real", "T", "U"]))
    p["idx"] = gen_idx(rng, p, 6, p["t"])
    if p["dtype"] in CX and p["t"] == "real": p["idx"] = [i[:len(p["N"])] for i in p["idx"]]
    return p

def chk_cset(p):
    PM, W = mods()
    N = p["N"]; nd = len(N)
    cs = cshape(p, p["t"])
    real = p["t"] == "real"
    full = (np.fft.ifftn(herm(N, p["seed"])).real if real else herm(N, p["seed"]))
    idx, y = p["idx"], (complex(*p["y"]) if isinstance(p["y"], list) else p["y"])
    def fn(comm):
        pm = mkpm(PM, p, comm)
        f = pm.create(types(PM)[p["t"]])
        f.value[...] = full[f.slices]
        given = np.array(idx) if p["seed"] % 2 else list(idx)
        v = f.csetitem(given, y)
        expect(list(given) == list(idx), "csetitem changed the index it was given")
        g = f.cgetitem(idx)
        return f.slices, f.value.copy(), v, g
    res = run(p, fn)
    got = assemble([r[:2] for r in res], cs, full.dtype)
    want = full[tuple(slice(0, c) for c in cs)].copy()
    pos = tuple(a % n for a, n in zip(idx[:nd], N))
    dual = tuple((-a) % n for a, n in zip(pos, N))
    stored = lambda q: all(a < c for a, c in zip(q, cs))
    if real:
        want[pos] = y; ret = y
    else:
        old = full[pos]
        if len(idx) == nd: new = complex(y)
        elif idx[nd] == 0: new = complex(y, old.imag)
        else: new = complex(old.real, y)
        if pos == dual:
            if len(idx) == nd: new = complex(new.real, 0)
            elif idx[nd] == 1: new = complex(old.real, 0)
        if stored(pos): want[pos] = new
        if stored(dual): want[dual] = np.conj(new) if pos != dual else new
        ret = new if len(idx) == nd else (new.real if idx[nd] == 0 else new.imag)
    tol = 1e-5 if p["dtype"] in ("f4", "c8") else 1e-12
    bad = np.argwhere(np.abs(got - want) > tol * (1 + np.abs(want)))
    if len(bad):
        b = tuple(bad[0]); raise Fail("after csetitem(%s, %s) mode %s is %s, expected %s" % (idx, y, list(map(int, b)), got[b], want[b]))
    if stored(pos):
        for r in range(p["P"]):
            expect(abs(res[r][2] - ret) <= tol * (1 + abs(ret)), "csetitem(%s, %s) returns %s on rank %d, the value set is %s" % (idx, y, res[r][2], r, ret))
            expect(abs(res[r][3] - ret) <= tol * (1 + abs(ret)), "cgetitem after csetitem(%s, %s) returns %s, the value set is %s" % (idx, y, res[r][3], ret))

def gen_cset(rng, i, th):
    p = gen_mesh(rng, dtypes=("f8", "f8", "f4", "c16"), maxp=4)
    p["t"] = str(rng.choice(["real", "T", "U", "T", "U"]))
    if p["dtype"] in CX: p["t"] = str(rng.choice(["T", "U"]))
    p["idx"] = gen_idx(rng, p, 1, p["t"])[0]
    y = float(rng.randint(1, 50)) / 8
    p["y"] = [y, float(rng.randint(1, 50)) / 8] if len(p["idx"]) == len(p["N"]) and p["t"] != "real" and rng.randint(4) else y
    p["seed"] = int(rng.randint(1 << 30))
    return p

def chk_norm(p):
    PM, W = mods()
    N = p["N"]
    A, B = herm(N, p["seed"]), herm(N, p["seed"] + 1)
    if p["dtype"] in CX:
        rng = np.random.RandomState(p["seed"] + 5)
        A = A + 1j * rng.normal(size=N); B = B + rng.normal(size=N)
    metric = (lambda k: 1.0 / (1.0 + np.asarray(k))) if p["metric"] else None
    def fn(comm):
        pm = mkpm(PM, p, comm)
        a = pm.create(types(PM)[p["t"]]); a.value[...] = A[a.slices]
        b = pm.create(types(PM)[p["t"]]); b.value[...] = B[b.slices]
        ka, kb = a.value.copy(), b.value.copy()
        r = a.cnorm(metric=metric), a.cdot(b, metric=metric), a.cnorm(metric=metric, norm=lambda x: abs(np.asarray(x)))
        expect(np.array_equal(ka, a.value) and np.array_equal(kb, b.value), "cdot/cnorm changed an operand")
        return r
    res = run(p, fn)
    k2 = sum((signed(g, n) * 2 * np.pi / l) ** 2 for g, n, l in zip(np.indices(N), N, p["L"]))
    w = 1.0 / (1.0 + k2 ** 0.5) if p["metric"] else 1.0
    n = (np.abs(A) ** 2 * w).sum(); n1 = (np.abs(A) * w).sum()
    c = (A * np.conj(B) * w).sum()
    tol = 1e-4 if p["dtype"] in ("f4", "c8") else 1e-9
    for r in res:
        expect(abs(r[0] - n) <= tol * (1 + abs(n)), "cnorm = %s, over the full storage it is %s" % (r[0], n))
        expect(abs(r[2] - n1) <= tol * (1 + abs(n1)), "cnorm(norm=abs) = %s, over the full storage it is %s" % (r[2], n1))
        expect(abs(np.real(r[1]) - c.real) <= tol * (1 + abs(c)), "cdot = %s, over the full storage it is %s" % (r[1], c))
        if p["dtype"] in CX: expect(abs(r[1] - c) <= tol * (1 + abs(c)), "cdot = %s, over the full storage it is %s" % (r[1], c))

def chk_rnorm(p):
    PM, W = mods()
    N = p["N"]
    rng = np.random.RandomState(p["seed"])
    A, B = rng.normal(size=N), rng.normal(size=N)
    def fn(comm):
        pm = mkpm(PM, p, comm)
        a = pm.create("real"); a.value[...] = A[a.slices]
        b = pm.create("real"); b.value[...] = B[b.slices]
        return a.cnorm(), a.cdot(b), a.csum(), a.cmean(), a.preview(axes=0) if len(N) > 1 else a.preview()
    res = run(p, fn)
    tol = 1e-4 if p["dtype"] == "f4" else 1e-10
    for r in res:
        for nm, x, y in (("cnorm", r[0], (A * A).sum()), ("cdot", r[1], (A * B).sum()), ("csum", r[2], A.sum()), ("cmean", r[3], A.mean())):
            expect(abs(x - y) <= tol * (1 + abs(y)) * A.size ** 0.5, "%s = %s, expected %s" % (nm, x, y))
        pv = A.sum(axis=tuple(range(1, len(N))))
        expect(close(r[4], pv, 1e-4 if p["dtype"] == "f4" else 1e-10, 1e-4 if p["dtype"] == "f4" else 1e-10), "preview")

def gen_norm(rng, i, th):
    p = gen_mesh(rng, dtypes=("f8", "f8", "f4", "c16"), maxp=4)
    p["t"] = str(rng.choice(["T", "U"])); p["metric"] = int(rng.randint(2)); p["seed"] = int(rng.randint(1 << 30))
    return p

def gen_rnorm(rng, i, th):
    p = gen_mesh(rng, dtypes=("f8", "f4"), maxp=4); p["seed"] = int(rng.randint(1 << 30))
    return p

def chk_ravel(p):
    PM, W = mods()
    cs = cshape(p, p["t"])
    full = np.arange(int(np.prod(cs))).reshape(cs) * 1.0
    def fn(comm):
        pm = mkpm(PM, p, comm)
        f = pm.create(types(PM)[p["t"]]); f.value[...] = full[f.slices]
        r = np.array(f.ravel())
        g = pm.unravel(types(PM)[p["t"]], r)
        expect(np.array_equal(g.value, f.value), "unravel(ravel) differs")
        h = f.copy()
        h.ravel(out=Ellipsis)
        expect(np.array_equal(np.array(h.value.flat), r), "in-place ravel differs")
        return r
    res = run(p, fn)
    expect(np.array_equal(np.concatenate(res), full.ravel()), "ravel is not the C order of the mesh")

def gen_ravel(rng, i, th):
    p = gen_mesh(rng, dtypes=("f8", "c16", "f4"), maxp=4)
    p["t"] = str(rng.choice(["real", "T", "U"]))
    return p

# ---------------------------------------------------------------- C17 / C18
WINDOWS = ["nnb", "cic", "tsc", "pcs", "linear", "quadratic", "cubic", "nearest", "lanczos2", "lanczos3", "db6", "db12", "sym6", "sym12", "db20", "sym20"]
SMOOTH = ["cic", "tsc", "pcs", "lanczos2", "lanczos3"]

def gen_pos(rng, N, L, n, off):
    out = []
    for i in range(n):
        # multiples of 1/64 of a cell, around and outside of the box; off: shifted away from kinks
        out.append([float(l / nn * (rng.randint(-16, (nn + 1) * 16) / 16.0 + off)) for nn, l in zip(N, L)])
    return out

def gen_paint(rng, i, th, grads=True, windows=WINDOWS, maxp=6):
    p = gen_mesh(rng, dims=(1, 2, 2, 3), dtypes=("f8", "f8", "f4"), maxp=maxp)
    p["w"] = str(rng.choice(windows))
    if p["w"] not in ("cic", "nnb", "tsc", "linear", "nearest") and len(p["N"]) == 3: p["N"] = [min(n, 5) for n in p["N"]]
    nd = len(p["N"])
    dy = rng.randint(2)
    if dy: p["L"] = [n * float(rng.choice([1, 0.5, 2])) for n in p["N"]]
    off = 0.0 if dy and p["w"] in ("nnb", "tsc", "pcs", "cic", "nearest") and p["dtype"] == "f8" else 0.0173
    g = None if not grads or rng.randint(2) else int(rng.randint(nd))
    if g is not None and off == 0 and p["w"] in ("cic", "nnb", "nearest"): off = 0.0173
    p["grad"] = g
    p["pos"] = [gen_pos(rng, p["N"], p["L"], int(rng.choice([0, 1, 2, 6])), off) for r in range(p["P"])]
    p["mass"] = [[float(rng.randint(-8, 9)) / 4 for x in q] for q in p["pos"]] if rng.randint(4) else None
    p["seed"] = int(rng.randint(1 << 30))
    return p

def rpos(p, r): return np.array(p["pos"][r], 'f8').reshape(-1, len(p["N"]))
def rmass(p, r): return 1.0 if p["mass"] is None else np.array(p["mass"][r], 'f8')
def allpos(p): return np.concatenate([rpos(p, r) for r in range(p["P"])])
def allmass(p): return np.concatenate([np.ones(len(p["pos"][r])) * rmass(p, r) for r in range(p["P"])])

def undivided(p, W):
    N = np.array(p["N"])
    return W.FindResampler(p["w"]), W.Affine(len(N), translate=0, scale=1.0 * N / np.array(p["L"]), period=N)

def tol_of(p): return 3e-4 if p["dtype"] == "f4" else 1e-8

def chk_dist_paint(p):
    PM, W = mods()
    def fn(comm):
        pm = mkpm(PM, p, comm, resampler=p["w"])
        pos, mass = rpos(p, comm.rank), rmass(p, comm.rank)
        kp = pos.copy(); km = np.array(mass, copy=True)
        lay = pm.decompose(pos)
        f = pm.paint(pos, mass=mass, layout=lay, gradient=p["grad"])
        a = f.value.copy()
        # holding adds to what is there, otherwise it is replaced
        pm.paint(pos, mass=mass, layout=lay, gradient=p["grad"], hold=True, out=f)
        expect(close(f.value, 2 * a, 1e-4, tol_of(p) * 10), "paint with hold does not add to the mesh")
        pm.paint(pos, mass=mass, layout=lay, gradient=p["grad"], hold=False, out=f)
        expect(close(f.value, a, 1e-6, tol_of(p)), "paint without hold does not replace the mesh")
        expect(np.array_equal(kp, pos) and np.array_equal(km, np.asarray(mass)), "paint changed its input")
        # the transform given is relative to the first local cell
        expect(np.array_equal(np.asarray(pm.affine.translate), -1.0 * np.asarray(f.start)), "affine.translate is %s, the local mesh starts at %s" % (pm.affine.translate, f.start))
        expect(np.allclose(np.asarray(pm.affine.scale), np.array(p["N"]) / np.array(p["L"])), "affine.scale")
        return f.slices, a
    res = run(p, fn)
    got = assemble(res, p["N"], 'f8')
    w, tr = undivided(p, W)
    full = np.zeros(p["N"], 'f8')
    w.paint(full, allpos(p), mass=allmass(p), transform=tr, diffdir=p["grad"])
    bad = np.argwhere(np.abs(got - full) > tol_of(p) * (1 + np.abs(full).max() * 10))
    if len(bad):
        b = tuple(bad[0]); raise Fail("cell %s of the distributed mesh is %r, of the undivided mesh %r" % (list(map(int, b)), got[b], full[b]))

def chk_dist_readout(p):
    PM, W = mods()
    full = np.random.RandomState(p["seed"]).normal(size=p["N"])
    def fn(comm):
        pm = mkpm(PM, p, comm, resampler=p["w"])
        pos = rpos(p, comm.rank)
        f = pm.create("real"); f.value[...] = full[f.slices]
        k = f.value.copy(); kp = pos.copy()
        lay = pm.decompose(pos)
        r = np.array(f.readout(pos, layout=lay, gradient=p["grad"]))
        o = np.full(len(pos), 7.0)
        r2 = f.readout(pos, layout=lay, gradient=p["grad"], out=o)
        expect(close(r2, r, 1e-6, tol_of(p)) and close(o, r, 1e-6, tol_of(p)), "readout with out differs")
        expect(np.array_equal(k, f.value) and np.array_equal(kp, pos), "readout changed the mesh or the positions")
        return r
    res = run(p, fn)
    w, tr = undivided(p, W)
    for r in range(p["P"]):
        want = w.readout(full, rpos(p, r), transform=tr, diffdir=p["grad"])
        bad = np.flatnonzero(np.abs(res[r] - want) > tol_of(p) * (1 + np.abs(want).max() * 10)) if len(want) else []
        if len(bad): raise Fail("rank %d particle %d reads %r, on the undivided mesh %r" % (r, bad[0], res[r][bad[0]], want[bad[0]]))

def chk_updown(p):
    PM, W = mods()
    full = np.random.RandomState(p["seed"]).normal(size=p["N"])
    def work(P):
        q = dict(p, P=P)
        if P == 1: q["np"] = None
        def fn(comm):
            pm = mkpm(PM, q, comm); pm2 = pm.reshape(Nmesh=p["N2"])
            f = pm.create("real"); f.value[...] = full[f.slices]
            k = f.value.copy()
            o = (pm2.upsample if p["kind"] == "up" else pm2.downsample)(f, resampler=p["w"], keep_mean=bool(p["keep"]))
            expect(np.array_equal(f.value, k), "the source changed")
            return o.slices, o.value.copy()
        return assemble(run(q, fn), p["N2"], 'f8')
    # oracle: undivided mesh, real window code
    N, N2 = np.array(p["N"]), np.array(p["N2"])
    w = W.FindResampler(p["w"])
    want = np.zeros(N2)
    if p["kind"] == "up":
        q = np.indices(N2).reshape(len(N2), -1).T.astype('f8')
        v = w.readout(full, q, transform=W.Affine(len(N), translate=0, scale=1.0 * N / N2, period=N))
        want[...] = np.asarray(v).reshape(N2)
        if not p["keep"]: want *= 1.0 * np.prod(N) / np.prod(N2)
    else:
        q = np.indices(N).reshape(len(N), -1).T.astype('f8')
        m = full.ravel().copy()
        if p["keep"]: m /= 1.0 * np.prod(N) / np.prod(N2)
        w.paint(want, q, mass=m, transform=W.Affine(len(N), translate=0, scale=1.0 * N2 / N, period=N2))
    got = work(p["P"])
    expect(close(got, want, 1e-7, 1e-8 if p["dtype"] == "f8" else 1e-3), "%ssample on %d ranks differs from the undivided mesh by %g" % (p["kind"], p["P"], np.abs(got - want).max()))

def gen_updown(rng, i, th):
    p = gen_mesh(rng, dims=(1, 2, 2, 3), dtypes=("f8",), maxp=4, minn=2)
    p["np"] = None
    # scales exactly representable: windows are evaluated at the same place on every rank
    p["N"] = [int(rng.choice([2, 4, 8])) if len(p["N"]) < 3 else int(rng.choice([2, 4])) for d in p["N"]]
    p["N2"] = [int(rng.choice([2, 4, 8])) if len(p["N"]) < 3 else int(rng.choice([2, 4])) for d in p["N"]]
    p["kind"] = str(rng.choice(["up", "down"])); p["keep"] = int(rng.randint(2))
    p["w"] = str(rng.choice(["nnb", "cic", "tsc", "pcs", "lanczos2", "db6"])); p["seed"] = int(rng.randint(1 << 30))
    return p

def dist(p, fn):
    return run(p, fn)

def chk_paint_vjp(p):
    """paint_vjp / paint_jvp against the definitions, on one undivided mesh"""
    PM, W = mods()
    V = np.random.RandomState(p["seed"]).normal(size=p["N"])
    nd = len(p["N"])
    rngs = np.random.RandomState(p["seed"] + 3)
    vpos = [rngs.normal(size=(len(p["pos"][r]), nd)) for r in range(p["P"])]
    vmass = [rngs.normal(size=len(p["pos"][r])) for r in range(p["P"])]
    mode = p["mode"]
    def fn(comm):
        pm = mkpm(PM, p, comm, resampler=p["w"])
        pos, mass = rpos(p, comm.rank), rmass(p, comm.rank)
        lay = pm.decompose(pos)
        v = pm.create("real"); v.value[...] = V[v.slices]
        kv, kp, km = v.value.copy(), pos.copy(), np.array(mass, copy=True)
        r = {}
        op, om = v_out(mode, pos, mass)
        pos_in, mass_in = pos, mass
        a, b = pm.paint_vjp(v, pos_in, mass=mass_in, layout=lay, out_pos=op, out_mass=om)
        expect(np.array_equal(v.value, kv), "paint_vjp changed the cotangent")
        if op is not Ellipsis: expect(np.array_equal(pos, kp), "paint_vjp changed the positions")
        elif a is not pos: raise Fail("in-place out_pos is not the position array")
        if om is not Ellipsis: expect(np.array_equal(np.asarray(mass), km), "paint_vjp changed the masses")
        r["vjp_pos"] = None if a is False else np.array(a); r["vjp_mass"] = None if b is False else np.array(b)
        for given, ret, nm in ((op, a, "out_pos"), (om, b, "out_mass")):
            if given is False: expect(ret is False, "%s=False was computed" % nm)
            elif given is not None and given is not Ellipsis: expect(ret is given, "%s given was not the one returned" % nm)
        try: pm.paint_vjp(v, rpos(p, comm.rank), mass=rmass(p, comm.rank), layout=lay, gradient=0); raise Fail("paint_vjp with a gradient cannot give the gradient with respect to the positions")
        except ValueError: pass
        # tangent
        pos, mass = rpos(p, comm.rank), rmass(p, comm.rank)
        vp = vpos[comm.rank] if p["jpos"] else None
        vm = vmass[comm.rank] if p["jmass"] else None
        kk = [None if x is None else x.copy() for x in (vp, vm)]
        o = pm.create("real"); o.value[...] = 5
        t = pm.paint_jvp(pos, mass=mass, v_pos=vp, v_mass=vm, layout=lay, out=o if p["giveout"] else None)
        if p["giveout"]: expect(t is o, "paint_jvp did not use out")
        for x, y in zip((vp, vm), kk): expect(x is None or np.array_equal(x, y), "paint_jvp changed a tangent")
        expect(np.array_equal(pos, kp) and np.array_equal(np.asarray(mass), km), "paint_jvp changed its input")
        return r, t.slices, t.value.copy()
    def v_out(mode, pos, mass):
        op = {0: None, 1: False, 2: np.full(pos.shape, 9.0), 3: Ellipsis}[mode[0]]
        om = {0: None, 1: False, 2: np.full(len(pos), 9.0), 3: Ellipsis}[mode[1]]
        if om is Ellipsis and not isinstance(mass, np.ndarray): om = None
        return op, om
    res = run(p, fn)
    w, tr = undivided(p, W)
    T = tol_of(p) * 10
    for r in range(p["P"]):
        pos, mass = rpos(p, r), rmass(p, r)
        a, b = res[r][0]["vjp_pos"], res[r][0]["vjp_mass"]
        if a is not None:
            for d in range(nd):
                want = w.readout(V, pos, transform=tr, diffdir=d) * mass
                expect(close(a[:, d], want, T, T), "paint_vjp: gradient with respect to pos[%d] is %s, expected %s" % (d, a[:, d].tolist(), want.tolist()))
        if b is not None:
            want = w.readout(V, pos, transform=tr)
            expect(close(b, want, T, T), "paint_vjp: gradient with respect to mass is %s, expected %s" % (b.tolist(), want.tolist()))
    got = assemble([x[1:] for x in res], p["N"], 'f8')
    full = np.zeros(p["N"])
    ap, am = allpos(p), allmass(p)
    if p["jpos"]:
        for d in range(nd): w.paint(full, ap, mass=am * np.concatenate(vpos)[:, d], transform=tr, diffdir=d)
    if p["jmass"]: w.paint(full, ap, mass=np.concatenate(vmass), transform=tr)
    expect(close(got, full, T, T * (1 + np.abs(full).max())), "paint_jvp differs from the tangent by %g" % np.abs(got - full).max())

def gen_vjp(rng, i, th):
    p = gen_paint(rng, i, th, grads=False, windows=SMOOTH, maxp=4)
    nd = len(p["N"])
    rr = rng
    p["pos"] = [gen_pos(rr, p["N"], p["L"], int(rr.choice([0, 1, 2, 5])), 0.0173) for r in range(p["P"])]
    p["mass"] = [[float(rr.randint(-8, 9)) / 4 for x in q] for q in p["pos"]] if rr.randint(4) else None
    p["mode"] = [int(rr.randint(4)), int(rr.randint(4))]
    p["jpos"], p["jmass"] = [(1, 0), (0, 1), (1, 1), (1, 1)][rr.randint(4)]
    p["giveout"] = int(rr.randint(2))
    p["rgrad"] = None if rr.randint(2) else int(rr.randint(nd))
    return p

def chk_readout_vjp(p):
    PM, W = mods()
    S = np.random.RandomState(p["seed"]).normal(size=p["N"])
    VS = np.random.RandomState(p["seed"] + 1).normal(size=p["N"])
    nd = len(p["N"])
    rngs = np.random.RandomState(p["seed"] + 3)
    v = [rngs.normal(size=len(p["pos"][r])) for r in range(p["P"])]
    vpos = [rngs.normal(size=(len(p["pos"][r]), nd)) for r in range(p["P"])]
    g = p["rgrad"]
    mode = list(p["mode"])
    if g is not None: mode[0] = 1
    jpos = p["jpos"] if g is None else 0
    def fn(comm):
        pm = mkpm(PM, p, comm, resampler=p["w"])
        pos = rpos(p, comm.rank); lay = pm.decompose(pos)
        s = pm.create("real"); s.value[...] = S[s.slices]
        ks, kp, kv = s.value.copy(), pos.copy(), v[comm.rank].copy()
        # mode 3 = in place
        op = {0: None, 1: False, 2: np.full(pos.shape, 9.0), 3: Ellipsis}[mode[0]]
        if mode[1] == 2: os_ = pm.create("real"); os_.value[...] = 4
        else: os_ = {0: None, 1: False, 3: Ellipsis}[mode[1]]
        a, b = s.readout_vjp(pos, v[comm.rank], gradient=g, layout=lay, out_self=os_, out_pos=op)
        expect(np.array_equal(v[comm.rank], kv), "readout_vjp changed the cotangent")
        if op is not Ellipsis: expect(np.array_equal(pos, kp), "readout_vjp changed the positions")
        else: expect(b is pos, "in-place out_pos is not the position array")
        if os_ is not Ellipsis: expect(np.array_equal(s.value, ks), "readout_vjp changed the mesh")
        else: expect(a is s, "in-place out_self is not the field")
        for given, ret, nm in ((op, b, "out_pos"), (os_, a, "out_self")):
            if given is False: expect(ret is False, "%s=False was computed" % nm)
            elif given is not None and given is not Ellipsis: expect(ret is given, "%s given was not the one returned" % nm)
        ra = None if a is False else (a.slices, a.value.copy())
        rb = None if b is False else np.array(b)
        s = pm.create("real"); s.value[...] = S[s.slices]
        vs = pm.create("real"); vs.value[...] = VS[s.slices]
        pos = rpos(p, comm.rank)
        for what in ("vjp", "jvp"):
            try:
                if what == "vjp": s.readout_vjp(pos, v[comm.rank], gradient=0, layout=lay)
                else: s.readout_jvp(pos, v_pos=vpos[comm.rank], gradient=0, layout=lay)
                raise Fail("readout_%s with a gradient cannot give the gradient with respect to the positions" % what)
            except ValueError: pass
        j = s.readout_jvp(pos, v_self=vs if p["jmass"] else None, v_pos=vpos[comm.rank] if jpos else None, gradient=g, layout=lay)
        expect(np.array_equal(s.value, S[s.slices].astype(s.dtype)) and np.array_equal(vs.value, VS[s.slices].astype(s.dtype)), "readout_jvp changed a field")
        return ra, rb, np.array(j)
    res = run(p, fn)
    w, tr = undivided(p, W)
    T = tol_of(p) * 10
    for r in range(p["P"]):
        pos = rpos(p, r)
        ra, rb, j = res[r]
        if rb is not None:
            for d in range(nd):
                want = w.readout(S, pos, transform=tr, diffdir=d) * v[r]
                expect(close(rb[:, d], want, T, T), "readout_vjp: gradient with respect to pos[%d] is %s, expected %s" % (d, rb[:, d].tolist(), want.tolist()))
        want = np.zeros(len(pos))
        if jpos:
            for d in range(nd): want += w.readout(S, pos, transform=tr, diffdir=d) * vpos[r][:, d]
        if p["jmass"]: want += w.readout(VS, pos, transform=tr, diffdir=g)
        expect(close(j, want, T, T), "readout_jvp is %s, expected %s" % (j.tolist(), want.tolist()))
    if res[0][0] is not None:
        got = assemble([x[0] for x in res], p["N"], 'f8')
        full = np.zeros(p["N"])
        w.paint(full, allpos(p), mass=np.concatenate(v), transform=tr, diffdir=g)
        expect(close(got, full, T, T * (1 + np.abs(full).max())), "readout_vjp: gradient with respect to the mesh is off by %g" % np.abs(got - full).max())

def chk_fft(p):
    """normalisation and buffers of r2c, c2r and their vjps; decompress_vjp"""
    PM, W = mods()
    N = p["N"]; n = float(np.prod(N))
    rng = np.random.RandomState(p["seed"])
    A = rng.normal(size=N)
    if p["dtype"] in CX: A = A + 1j * rng.normal(size=N)
    F = np.fft.fftn(A) / n
    tname = p["t"]
    def fn(comm):
        pm = mkpm(PM, p, comm)
        T = types(PM)[tname]
        out = {}
        a = pm.create("real"); a.value[...] = A[a.slices]
        ka = a.value.copy()
        def dest(ty, src):
            if p["out"] == 0: return pm.create(ty)
            if p["out"] == 1: return Ellipsis if ty is PM.RealField or ty is PM.TransposedComplexField else pm.create(ty, base=src._base)
            return pm.create(ty, base=src._base)
        d = dest(T, a)
        if d is not Ellipsis and p["out"] == 0: d.value[...] = 3
        c = a.r2c(d)
        expect(isinstance(c, T), "r2c returns another type")
        if p["out"] == 0: expect(np.array_equal(a.value, ka), "out-of-place r2c changed its input"); expect(c is d, "r2c returns another field")
        out["r2c"] = (c.slices, c.value.copy())
        kc = c.value.copy()
        d = dest(PM.RealField, c)
        b = c.c2r(d)
        if p["out"] == 0: expect(np.array_equal(c.value, kc), "out-of-place c2r changed its input"); expect(b is d, "c2r returns another field")
        out["c2r"] = (b.slices, b.value.copy())
        # vjps
        a = pm.create("real"); a.value[...] = A[a.slices]
        g = a.c2r_vjp(out=pm.create(T))
        expect(np.array_equal(a.value, ka), "c2r_vjp changed its input")
        out["c2r_vjp"] = (g.slices, g.value.copy())
        c = pm.create(T); c.value[...] = F[c.slices]
        kc = c.value.copy()
        g = c.r2c_vjp()
        expect(np.array_equal(c.value, kc), "r2c_vjp changed its input")
        out["r2c_vjp"] = (g.slices, g.value.copy())
        o = pm.create(T); o.value[...] = 2
        g = c.decompress_vjp({0: None, 1: Ellipsis, 2: o}[p["out"]])
        if p["out"] == 1: expect(g is c, "decompress_vjp in place")
        else: expect(np.array_equal(c.value, kc), "decompress_vjp changed its input")
        out["decompress"] = (g.slices, g.value.copy())
        c = pm.create(T); c.value[...] = F[c.slices]
        r = c.cast(PM.RealField)
        expect(np.array_equal(c.value, kc), "cast changed its input")
        out["cast"] = (r.slices, r.value.copy())
        o2 = c.cast(types(PM)[p["t2"]])
        out["cast2"] = (o2.slices, o2.value.copy())
        return out
    res = run(p, fn)
    cs = cshape(p, tname)
    half = F[tuple(slice(0, c) for c in cs)]
    tol = 2e-4 if p["dtype"] in ("f4", "c8") else 1e-9
    asm = lambda k, sh: assemble([r[k] for r in res], sh, 'c16')
    def cmp(k, sh, want, what):
        got = asm(k, sh)
        expect(np.all(np.abs(got - want) <= tol * (1 + np.abs(want).max())), "%s: off by %g (largest value %g)" % (what, np.abs(got - want).max(), np.abs(want).max()))
    cmp("r2c", cs, half, "r2c is not the normalised transform")
    cmp("c2r", N, A, "c2r(r2c) is not the identity")
    cmp("c2r_vjp", cs, half * n, "c2r_vjp is not the unnormalised forward transform")
    cmp("r2c_vjp", N, A / n, "r2c_vjp is not the backward transform over the number of cells")
    cmp("cast", N, A, "cast to real")
    cmp("cast2", cshape(p, p["t2"]), F[tuple(slice(0, c) for c in cshape(p, p["t2"]))] if p["t2"] != "real" else A, "cast to %s" % p["t2"])
    gi = np.indices(cs)
    selfc = np.ones(cs, bool)
    for d in range(len(N)): selfc &= (N[d] - gi[d]) % N[d] == gi[d]
    cmp("decompress", cs, np.where(selfc, half, 2 * half), "decompress_vjp does not count the conjugate of each mode")

def gen_fft(rng, i, th):
    p = gen_mesh(rng, dtypes=("f8", "f8", "f4", "c16", "c8"), maxp=4)
    p["t"] = str(rng.choice(["T", "U"])); p["t2"] = str(rng.choice(["T", "U", "real"])); p["out"] = int(rng.randint(3)); p["seed"] = int(rng.randint(1 << 30))
    return p

# ---------------------------------------------------------------- C19
def chk_grid(p):
    PM, W = mods()
    N = p["N"]; nd = len(N)
    shift = np.broadcast_to(p["shift"], nd)
    def fn(comm):
        pm = mkpm(PM, p, comm)
        kw = dict(shift=p["shift"])
        if p["pdtype"]: kw["dtype"] = p["pdtype"]
        q = pm.generate_uniform_particle_grid(**kw)
        q2, ids = pm.generate_uniform_particle_grid(return_id=True, **kw)
        expect(np.array_equal(q, q2), "the grid depends on return_id")
        st, sh = pm.partition.local_i_start, pm.partition.local_i_shape
        w = np.stack(np.meshgrid(*[st[d] + np.arange(sh[d]) for d in range(nd)], indexing="ij"), -1).reshape(-1, nd)
        return np.array(q), np.array(ids), w
    res = run(p, fn)
    q = np.concatenate([r[0] for r in res]); ids = np.concatenate([r[1] for r in res]); cell = np.concatenate([r[2] for r in res])
    tot = int(np.prod(N))
    expect(q.shape == (tot, nd), "%d particles for %d cells" % (len(q), tot))
    expect(np.array_equal(np.sort(ids), np.arange(tot)), "the ids are not 0..N-1, each once")
    h = np.array(p["L"]) / np.array(N)
    want = np.stack(np.unravel_index(ids, N), -1)
    eps = 1e-4 if p["pdtype"] == "f4" else 1e-10
    expect(np.all(np.abs(q - (want + shift) * h) <= eps * (1 + np.abs(q))), "a particle is not at the cell of its id plus shift: %s" % (q - (want + shift) * h)[np.argmax(np.abs(q - (want + shift) * h).max(axis=1))].tolist())
    expect(np.array_equal(want, cell), "a rank's particles are not those of its own cells")

def gen_ug(rng, i, th):
    p = gen_mesh(rng, dtypes=("f8", "f4"), maxp=6, maxn=9)
    nd = len(p["N"])
    p["shift"] = [0, 0.5, 0.25, [float(rng.randint(-4, 8)) / 4 for d in range(nd)]][rng.randint(4)]
    p["pdtype"] = [None, "f8", "f4"][rng.randint(3)]
    return p

def chk_ids_far(p):
    """ids of a block far away from the origin of a large mesh (64-bit arithmetic)"""
    PM, W = mods()
    N = p["N"]
    class Q(object): pass
    pm = PM.ParticleMesh.__new__(PM.ParticleMesh)
    part = Q(); part.local_i_shape = np.array(p["shape"], 'intp'); part.local_i_start = np.array(p["start"], 'intp')
    pm.plans = dict(partitionT=part); pm.ndim = len(N); pm.Nmesh = np.array(N, 'i8'); pm.BoxSize = np.array(p["L"], 'f8'); pm.dtype = np.dtype('f8')
    q, ids = pm.generate_uniform_particle_grid(shift=p["shift"], return_id=True)
    k = 0
    for t in itertools.product(*[range(n) for n in p["shape"]]):
        c = [a + b for a, b in zip(t, p["start"])]
        w = 0
        for a, n in zip(c, N): w = w * n + a
        expect(int(ids[k]) == w, "id of cell %s of mesh %s is %d, expected %d" % (c, N, ids[k], w))
        wq = [(a + p["shift"]) * l / n for a, l, n in zip(c, p["L"], N)]
        expect(np.allclose(q[k], wq, rtol=1e-12), "particle of cell %s is at %s, expected %s" % (c, q[k].tolist(), wq))
        k += 1
    expect(k == len(ids) == len(q), "number of particles")

def gen_far(rng, i, th):
    nd = int(rng.randint(1, 4))
    N = [int(rng.choice([3, 100, 4096, 100000, 300007])) for d in range(nd)]
    sh = [int(rng.randint(1, 4)) for d in range(nd)]
    return dict(N=N, shape=sh, start=[int(rng.choice([0, n - s, rng.randint(0, n - s + 1)])) for n, s in zip(N, sh)], L=[float(rng.choice([1.0, 8.0, 10.7])) for d in range(nd)], shift=float(rng.choice([0, 0.5])))

# ---------------------------------------------------------------- C20
def chk_coll(p):
    PM, W = mods()
    N = p["N"]; nd = len(N)
    def fn(comm):
        pm = mkpm(PM, p, comm, resampler=p["w"])
        pos = rpos(p, comm.rank)
        lay = pm.decompose(pos)
        r = pm.paint(pos, mass=rmass(p, comm.rank), layout=lay)
        r.readout(pos, layout=lay)
        r.readout_vjp(pos, np.ones(len(pos)), layout=lay)
        r.readout_jvp(pos, v_self=r, v_pos=pos, layout=lay)
        pm.paint_vjp(r, pos, mass=rmass(p, comm.rank), layout=lay); pm.paint_jvp(pos, v_pos=pos, v_mass=np.ones(len(pos)), layout=lay)
        r.csum(); r.cmean(); r.cnorm(); r.cdot(r); r.preview(axes=[0])
        c = r.r2c()
        for ix in p["idx"]:
            c.cgetitem(ix); r.cgetitem(ix[:nd])
            c.csetitem(ix, 1.0); r.csetitem(ix[:nd], 2.0)
        c.cnorm(); c.cdot(c)
        c.ravel(); r.ravel()
        pm.generate_uniform_particle_grid(shift=0.5, return_id=True)
        pm.generate_whitenoise(3, type="real"); pm.generate_whitenoise(3, type="complex")
        p2 = pm.reshape(Nmesh=p["N2"])
        r.resample(p2.create("real"))
        p2.upsample(r); p2.downsample(r)
        if nd > 1: r.ctranspose(list(range(nd))[::-1])
        return 0
    run(p, fn)

def gen_coll(rng, i, th):
    p = gen_paint(rng, i, th, grads=False, windows=["cic", "tsc", "nnb"], maxp=4)
    p["dtype"] = "f8"; p["np"] = None
    if p["mass"] is None: p["mass"] = [[1.0 for x in q] for q in p["pos"]]
    p["N2"] = [max(1, n // 2) if rng.randint(2) else n + 1 for n in p["N"]]
    p["idx"] = [[a for a in ix] for ix in gen_idx(rng, p, 3, "T")]
    return p

def chk_badlen(p):
    """exchange of a layout with an array of the wrong length on some ranks: all ranks raise, none waits"""
    PM, W = mods()
    fakepfft.ORDER[0] = p["order"]
    def fn(comm):
        pm = mkpm(PM, p, comm)
        pos = rpos(p, comm.rank)
        lay = pm.decompose(pos)
        n = len(pos) + (1 if comm.rank in p["bad"] else 0)
        if p["op"] == "paint": pm.paint(pos, mass=np.ones(n), layout=lay)
        elif p["op"] == "readout": pm.create("real", value=1.0).readout(np.zeros((n, pm.ndim)), layout=lay)
        else: lay.exchange(np.ones(n))
    res, w = fakempi.run(p["P"], fn)
    kinds = [k for k, v in res]
    expect("mismatch" not in kinds, "ranks disagree in their collective calls: %s" % [str(v) for k, v in res if k == "mismatch"][:1])
    want = "exc" if p["bad"] else "ok"
    expect(all(k == want for k in kinds), "outcome of the ranks %s, wrong length on ranks %s" % (kinds, p["bad"]))

def gen_badlen(rng, i, th):
    p = gen_paint(rng, i, th, grads=False, windows=["cic"], maxp=4)
    p["dtype"] = "f8"; p["np"] = None
    p["bad"] = [r for r in range(p["P"]) if rng.randint(3) == 0]
    p["op"] = str(rng.choice(["paint", "readout", "exchange"]))
    return p

# ---------------------------------------------------------------- C21
VAR = ["same", "Nmesh", "dtype", "plan_method", "np", "comm", "BoxSize", "resampler", "drop", "pad"]
def chk_cache(p):
    PM, W = mods()
    nd = len(p["N"])
    kind = p["kind"]
    world2 = fakempi.World(p["P"])
    def fn(comm):
        kw = dict(Nmesh=p["N"], BoxSize=p["L"], comm=comm, np=p["np"], dtype=p["dtype"], plan_method="estimate", resampler="cic")
        a = PM.ParticleMesh(**kw)
        kw2 = dict(kw)
        reuse = True
        if kind == "Nmesh": kw2["Nmesh"] = [n + 1 if d == p["axis"] else n for d, n in enumerate(p["N"])]; reuse = False
        if kind == "dtype": kw2["dtype"] = p["dtype2"]; reuse = False
        if kind == "plan_method": kw2["plan_method"] = "measure"; reuse = False
        if kind == "np": kw2["np"] = p["np2"]; reuse = list(p["np2"]) == [int(x) for x in a.np]
        if kind == "comm": kw2["comm"] = fakempi.Comm(world2, comm.rank); reuse = False
        if kind == "BoxSize": kw2["BoxSize"] = [l * 2 for l in p["L"]]
        if kind == "resampler": kw2["resampler"] = "tsc"
        if kind == "drop" and comm.rank in p["droprank"]:
            # the earlier object died on this rank (reference cycles collected earlier than elsewhere)
            del a; gc.collect(); a = None
        comm.Barrier()
        b = PM.ParticleMesh(**kw2)
        if kind == "drop": reuse = not p["droprank"]
        same = a is not None and b.plans is a.plans
        # what is used fits what was asked for
        q = b.plans["partitionT"]; u = b.plans["partitionU"]
        for x in (q, u):
            expect(list(x.n) == list(kw2["Nmesh"]), "plans of mesh %s used for mesh %s" % (list(x.n), kw2["Nmesh"]))
            expect(x.rdtype == np.dtype(kw2["dtype"]), "plans of dtype %s used for %s" % (x.rdtype, kw2["dtype"]))
            expect(x.procmesh.comm is kw2["comm"], "plans of another communicator")
            expect(list(x.procmesh.shape) == [int(t) for t in b.np], "plans of rank layout %s used for %s" % (x.procmesh.shape, b.np))
            expect(x.padded == (len(b.np) != nd and np.dtype(kw2["dtype"]).kind != "c"), "plans of another padding mode")
        fl = b.plans["forwardT"].flags
        expect(bool(fl & fakepfft.Flags.PFFT_MEASURE) == (kw2["plan_method"] == "measure"), "plans of another planning method")
        expect(b.procmesh is b.template.procmesh and list(b.procmesh.shape) == [int(t) for t in b.np], "procmesh does not belong to the mesh object")
        f = b.create("real"); f.value[...] = 1; f.r2c()
        expect(list(b.Nmesh) == list(kw2["Nmesh"]) and np.allclose(b.BoxSize, kw2["BoxSize"]), "Nmesh, BoxSize")
        return same, reuse, bool(a is not None)
    res = run(p, fn)
    for r, (same, reuse, alive) in enumerate(res):
        # reuse only when identical; the converse is an optimisation the property does not demand
        if not reuse: expect(not same, "plans were reused although %s differs" % kind)
    alive = [s for s, x, al in res if al]
    expect(len(set(alive)) <= 1, "some ranks reused plans and others rebuilt them")

def gen_cache(rng, i, th):
    p = gen_mesh(rng, dims=(1, 2, 3), maxp=4)
    p["kind"] = VAR[i % len(VAR)]
    nd = len(p["N"])
    p["axis"] = int(rng.randint(nd))
    p["dtype2"] = str(rng.choice([d for d in ("f8", "f4", "c16", "c8") if d != p["dtype"]]))
    if nd == 1: p["np2"] = [1] if p["np"] in (None, []) else []
    elif nd == 2: p["np2"] = [p["P"], 1] if rng.randint(2) else [1, p["P"]]
    else: p["np2"] = [1, p["P"]] if rng.randint(2) else [p["P"], 1, 1]
    p["droprank"] = [r for r in range(p["P"]) if rng.randint(2)]
    if p["kind"] == "pad": p["kind"] = "np"; p["np2"] = [p["P"]] + [1] * (nd - 1)
    return p

def chk_derive(p):
    PM, W = mods()
    nd = len(p["N"])
    def fn(comm):
        a = mkpm(PM, p, comm, resampler=p["w"])
        k = p["how"]
        if k == "respawn":
            w2 = p["_w2"]
            c2 = fakempi.Comm(w2, comm.rank)
            b = a.respawn(c2, np=p["np2"]) if p["np2"] else a.respawn(c2)
            expect(b.comm is c2, "communicator of the respawned mesh"); N, L = p["N"], p["L"]
            if p["np2"]: expect([int(x) for x in b.np] == p["np2"], "rank layout of the respawned mesh")
        else:
            kw = {}
            N, L = p["N"], p["L"]
            if p["N2"] is not None: kw["Nmesh"] = p["N2"]; N = p["N2"] if isinstance(p["N2"], list) else [p["N2"]] * nd
            if p["L2"] is not None: kw["BoxSize"] = p["L2"]; L = p["L2"] if isinstance(p["L2"], list) else [p["L2"]] * nd
            b = a.reshape(**kw)
            expect(b.comm is comm, "communicator of the reshaped mesh")
            expect([int(x) for x in b.np] == [int(x) for x in a.np], "rank layout of the reshaped mesh")
        expect(list(b.Nmesh) == list(N), "Nmesh of the derived mesh is %s, requested %s" % (list(b.Nmesh), N))
        expect(np.allclose(b.BoxSize, L, rtol=1e-14), "BoxSize of the derived mesh is %s, requested %s" % (list(b.BoxSize), L))
        expect(b.dtype == a.dtype, "dtype of the derived mesh"); expect(b.resampler is a.resampler or b.resampler.kind == a.resampler.kind, "window of the derived mesh")
        expect(np.allclose(np.asarray(b.affine.scale), np.array(N) / np.array(L)), "affine of the derived mesh")
        expect(list(a.Nmesh) == p["N"] and np.allclose(a.BoxSize, p["L"]), "the parent changed")
        f = b.create("real"); f.value[...] = 1
        expect(list(f.cshape) == list(N), "fields of the derived mesh")
        expect(abs(f.r2c().cgetitem([0] * nd) - 1) < 1e-5, "transform on the derived mesh")
        return 0
    p = dict(p); p["_w2"] = fakempi.World(p["P"])
    run(p, fn)

def gen_derive(rng, i, th):
    p = gen_mesh(rng, maxp=4)
    nd = len(p["N"])
    p["how"] = str(rng.choice(["respawn", "reshape", "reshape"]))
    p["w"] = str(rng.choice(["cic", "tsc", "db6"]))
    p["N2"] = [None, int(rng.randint(1, 8)), [int(rng.randint(1, 8)) for d in range(nd)]][rng.randint(3)]
    p["L2"] = [None, 3.5, [float(rng.choice([1., 2.5])) for d in range(nd)]][rng.randint(3)]
    p["np2"] = [None, None if nd == 1 else ([p["P"]] if nd == 2 else [1, p["P"]])][rng.randint(2)]
    return p

def chk_preview(p):
    """preview: the whole mesh (or its sum along the other axes, in the order of the axes asked for) on every rank"""
    PM, W = mods()
    N = p["N"]; nd = len(N)
    A = np.random.RandomState(p["seed"]).normal(size=N)
    if p["dtype"] in CX: A = A + 1j
    def fn(comm):
        pm = mkpm(PM, p, comm)
        a = pm.create("real"); a.value[...] = A[a.slices]
        if p["complex"]: a = a.r2c()
        k = a.value.copy()
        kw = {}
        if p["axes"] is not None: kw["axes"] = tuple(p["axes"]) if isinstance(p["axes"], list) else p["axes"]
        if p["same"]: kw["Nmesh"] = np.array(N)
        r = a.preview(**kw)
        expect(np.array_equal(a.value, k), "preview changed the field")
        expect(r.dtype == pm.create("real").value.dtype, "preview has type %s, the field %s" % (r.dtype, a.dtype))
        return r
    ax = list(range(nd)) if p["axes"] is None else [p["axes"]] if isinstance(p["axes"], int) else list(p["axes"])
    rest = [d for d in range(nd) if d not in ax]
    want = A.transpose(ax + rest)
    if rest: want = want.sum(axis=tuple(range(len(ax), nd)))
    tol = 1e-3 if p["dtype"] in ("f4", "c8") else 1e-9
    for r in run(p, fn):
        expect(r.shape == want.shape, "preview has shape %s, expected %s" % (r.shape, want.shape))
        expect(np.all(np.abs(r - want) <= tol * (1 + np.abs(want).max())), "preview along %s is off by %g" % (ax, np.abs(r - want).max()))
def gen_preview(rng, i, th):
    p = gen_mesh(rng, maxp=4)
    nd = len(p["N"])
    k = int(rng.randint(1, nd + 1))
    p["axes"] = [None, int(rng.randint(nd)), [int(x) for x in rng.permutation(nd)[:k]], [int(x) for x in rng.permutation(nd)]][rng.randint(4)]
    p["complex"] = bool(rng.randint(3) == 0); p["same"] = bool(rng.randint(4) == 0); p["seed"] = int(rng.randint(1 << 30))
    return p

def chk_ctranspose(p):
    PM, W = mods()
    N = p["N"]
    A = np.random.RandomState(p["seed"]).normal(size=N)
    def fn(comm):
        pm = mkpm(PM, p, comm)
        a = pm.create("real"); a.value[...] = A[a.slices]
        k = a.value.copy()
        b = a.ctranspose(list(p["axes"]))
        expect(np.array_equal(a.value, k), "ctranspose changed the field")
        expect(list(b.BoxSize) == [p["L"][d] for d in p["axes"]], "box of the transposed field")
        return b.slices, b.value.copy()
    res = run(p, fn)
    want = A.transpose(p["axes"])
    got = assemble(res, want.shape, "f8")
    expect(np.all(np.abs(got - want) <= (1e-4 if p["dtype"] == "f4" else 1e-9)), "ctranspose along %s is off by %g" % (p["axes"], np.abs(got - want).max()))
def gen_ctranspose(rng, i, th):
    p = gen_mesh(rng, dtypes=("f8", "f8", "f4"), maxp=4)
    nd = len(p["N"])
    if p["np"] is not None and len(p["np"]) == nd: p["np"] = None
    p["axes"] = [int(x) for x in rng.permutation(nd)]; p["seed"] = int(rng.randint(1 << 30))
    return p

RI = [dict(lo=l, hi=l + 8, Nd=list(range(1, 34))) for l in (1, 9, 17, 25)]
def chk_field_noise(p):
    """ParticleMesh.generate_whitenoise: on any number of ranks the parts of what whitenoise.generate gives for the whole mesh"""
    PM, W = mods()
    from pmesh.whitenoise import generate
    N = p["N"]
    cs = cshape(dict(p, dtype="f8"), "T")
    full = np.zeros(cs, "c8" if p["dtype"] == "f4" else "c16")
    generate(full, [0] * len(N), N, p["seed"], bool(p["unitary"]))
    full[(0,) * len(N)] = p["mean"] or 0
    def fn(comm):
        pm = mkpm(PM, p, comm)
        out = {}
        for t, T in types(PM).items():
            kw = {}
            if p["unitary"]: kw["unitary"] = True
            if p["mean"] is not None: kw["mean"] = p["mean"]
            ty = [T, dict(real="real", T="transposedcomplex", U="untransposedcomplex")[t]][p["seed"] % 2]
            b = None
            if p["base"] and t != "real": b = pm.create(T); kw["base"] = b._base
            if p["mode"]: kw["mode"] = ty
            else: kw["type"] = ty
            f = pm.generate_whitenoise(p["seed"], **kw)
            expect(type(f) is T, "generate_whitenoise(%s) made a %s" % (ty, type(f)))
            if b is not None and b.value.size: expect(np.shares_memory(b.value, f.value), "the memory handed in was not used")
            out[t] = (f.slices, f.value.copy())
        f = pm.generate_whitenoise(p["seed"])
        expect(type(f) is PM.TransposedComplexField, "default type of white noise")
        return out
    res = run(p, fn)
    tol = 2e-4 if p["dtype"] == "f4" else 1e-9
    for t in ("T", "U"):
        got = assemble([r[t] for r in res], cs, "c16")
        expect(np.all(np.abs(got - full) <= tol), "%s: white noise on %d ranks differs from that of the whole mesh by %g" % (t, p["P"], np.abs(got - full).max()))
    got = assemble([r["real"] for r in res], N, "f8")
    want = np.fft.irfftn(full.astype("c16"), s=N, axes=tuple(range(len(N)))) * np.prod(N)
    expect(np.all(np.abs(got - want) <= tol * 30 * np.prod(N)), "real white noise differs from the transform of the modes by %g" % np.abs(got - want).max())
def gen_field_noise(rng, i, th):
    p = gen_mesh(rng, dtypes=("f8", "f8", "f4"), maxp=4, minn=2)
    p["seed"] = int(rng.randint(1 << 20)); p["unitary"] = int(rng.randint(2)); p["mean"] = None if rng.randint(2) else 1.5
    p["base"] = int(rng.randint(2)); p["mode"] = int(rng.randint(4) == 0)
    return p

CASES = dict(
    C12=[Case("field_noise", gen_field_noise, chk_field_noise, 40)],
    C14=[Case("coordinates", lambda r, i, t: gen_mesh(r), chk_coords, 60), Case("init_coords", gen_init, chk_init_coords, 400)],
    C15=[Case("reindex", lambda r, i, t: dict(lo=int(r.randint(30, 200)), hi=0, Nd=[int(r.randint(1, 300)) for k in range(20)]) and (lambda a: dict(lo=a, hi=a + 3, Nd=[int(r.randint(1, 300)) for k in range(20)]))(int(r.randint(30, 200))), chk_reindex, 10, fixed=RI),
         Case("build_index", gen_bi, chk_build_index, 200), Case("resample", gen_resample, chk_resample, 80)],
    C16=[Case("cgetitem", gen_cget, chk_cget, 60), Case("csetitem", gen_cset, chk_cset, 150), Case("norms", gen_norm, chk_norm, 60), Case("real_norms", gen_rnorm, chk_rnorm, 25), Case("ravel", gen_ravel, chk_ravel, 25)],
    C17=[Case("paint_vjp_jvp", gen_vjp, chk_paint_vjp, 60), Case("readout_vjp_jvp", gen_vjp, chk_readout_vjp, 60), Case("transforms", gen_fft, chk_fft, 60)],
    C18=[Case("paint", gen_paint, chk_dist_paint, 120), Case("readout", gen_paint, chk_dist_readout, 120), Case("up_downsample", gen_updown, chk_updown, 40), Case("preview", gen_preview, chk_preview, 60), Case("ctranspose", gen_ctranspose, chk_ctranspose, 30)],
    C19=[Case("uniform_grid", gen_ug, chk_grid, 80), Case("ids_of_large_meshes", gen_far, chk_ids_far, 60)],
    C20=[Case("field_collectives", gen_coll, chk_coll, 25), Case("wrong_length", gen_badlen, chk_badlen, 40)],
    C21=[Case("plan_cache", gen_cache, chk_cache, 60), Case("derived_meshes", gen_derive, chk_derive, 60)],
    C22=[Case("transforms", gen_fft, chk_fft, 120)],
)

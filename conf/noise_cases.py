"""Run-time contracts of pmesh.whitenoise (C11, C12) and pmesh.invariant (C13)."""
import itertools
import numpy as np
from conf.lib import Case, Fail, expect

def gen(N, seed, unitary, start=None, size=None, half=False, dtype='c16', layout='C', fill=77):
    """generate a block; checks the frame (everything of the storage outside of the block keeps its value)."""
    import pmesh.whitenoise as wn
    nd = len(N)
    full = list(N)
    if half: full[-1] = N[-1] // 2 + 1
    if start is None: start, size = [0] * nd, full
    sz = tuple(size)
    if layout == 'C': base = np.full(sz, fill + fill * 1j, dtype); view = base; inside = tuple(slice(None) for s in sz)
    elif layout == 'pad':
        base = np.full(tuple(s + 2 for s in sz), fill + fill * 1j, dtype); inside = tuple(slice(1, 1 + s) for s in sz); view = base[inside]
    elif layout == 'step':
        base = np.full(tuple(2 * s + 1 for s in sz), fill + fill * 1j, dtype); inside = tuple(slice(1, 2 * s + 1, 2) for s in sz); view = base[inside]
    elif layout == 'F':
        base = np.full(sz[::-1], fill + fill * 1j, dtype); view = base.T; inside = None
    elif layout == 'neg':
        base = np.full(sz, fill + fill * 1j, dtype); view = base[tuple(slice(None, None, -1) for s in sz)]; inside = tuple(slice(None) for s in sz)
    wn.generate(view, np.array(start), np.array(N), seed, bool(unitary))
    if inside is not None:
        b = base.copy(); b[inside] = fill + fill * 1j
        expect((b == fill + fill * 1j).all(), "memory outside of the block was written")
    return np.array(view)

def g_c11(rng, i, th):
    m = rng.randint(4)
    if m == 0: n = int(rng.randint(1, 8)); N = [n, n, n]
    elif m == 1: N = [int(rng.randint(1, 9)) for d in range(3)]
    elif m == 2: N = [int(rng.choice([2, 4, 6, 8])) for d in range(3)]
    else: N = [int(rng.choice([1, 3, 5, 7, 2])) for d in range(3)]
    return dict(N=N, seed=int(rng.randint(1, 2**31 - 1)), unitary=int(rng.randint(2)), dtype=str(rng.choice(['c16', 'c16', 'c8'])))

def c_c11(p):
    N = p["N"]
    a = gen(N, p["seed"], p["unitary"], dtype=p["dtype"])
    h = gen(N, p["seed"], p["unitary"], half=True, dtype=p["dtype"])
    t = 1e-12 if p["dtype"] == 'c16' else 1e-6
    idx = np.meshgrid(*[(-np.arange(n)) % n for n in N], indexing='ij')
    conj = a[tuple(idx)].conj()
    bad = np.argwhere(~(a == conj))
    if len(bad):
        k = tuple(int(x) for x in bad[0])
        raise Fail("value at mode %s is %s, at its negative %s" % (k, a[k], a[tuple(-x % n for x, n in zip(k, N))]))
    expect(a[0, 0, 0] == 0, "zero mode is %s" % a[0, 0, 0])
    selfc = np.ones(N, bool)
    for x, n, ax in zip(idx, N, range(3)):
        selfc &= x == np.arange(n).reshape([-1 if d == ax else 1 for d in range(3)])
    expect((a[selfc].imag == 0).all(), "a self-conjugate mode is not real")
    for f, nm in ((a, "full"), (h, "half")):
        if p["unitary"]:
            m = abs(f); m[0, 0, 0] = 1
            expect(np.abs(m - 1).max() < (1e-12 if p["dtype"] == 'c16' else 1e-6), "%s field: modulus of unitary noise is not one" % nm)
        expect(np.isfinite(f).all(), "%s field is not finite" % nm)
    # half storage: the stored planes must be Hermitian within themselves as well
    for k in range(N[2] // 2 + 1):
        kc = (-k) % N[2]
        if kc > N[2] // 2: continue
        c = h[np.ix_((-np.arange(N[0])) % N[0], (-np.arange(N[1])) % N[1], [kc])][..., 0].conj()
        if not (h[..., k] == c).all():
            raise Fail("half storage: plane k=%d is not Hermitian" % k)
    expect(h[0, 0, 0] == 0, "zero mode of half storage")

def g_c12(rng, i, th):
    nd = int(rng.choice([3, 3, 3, 3, 2, 1]))
    N = [int(rng.randint(1, 9)) for d in range(nd)]
    if rng.randint(3) == 0: N = [int(rng.randint(1, 9))] * nd
    half = int(rng.randint(2))
    full = list(N)
    if half: full[-1] = N[-1] // 2 + 1
    start, size = [], []
    for n in full:
        a = int(rng.randint(0, n + 1)); b = int(rng.randint(0, n + 1))
        a, b = min(a, b), max(a, b)
        if rng.randint(2): a, b = (0, n) if rng.randint(2) else (a, n)
        start.append(a); size.append(b - a)
    return dict(N=N, seed=int(rng.randint(1, 2**31 - 1)), unitary=int(rng.randint(2)), dtype=str(rng.choice(['c16', 'c16', 'c8'])),
                half=half, start=start, size=size, layout=str(rng.choice(['C', 'pad', 'step', 'F', 'neg'])))

def c_c12(p):
    a = gen(p["N"], p["seed"], p["unitary"], dtype=p["dtype"])
    b = gen(p["N"], p["seed"], p["unitary"], p["start"], p["size"], dtype=p["dtype"], layout=p["layout"], fill=77)
    c = gen(p["N"], p["seed"], p["unitary"], p["start"], p["size"], dtype=p["dtype"], layout=p["layout"], fill=-5)
    want = a[tuple(slice(s, s + n) for s, n in zip(p["start"], p["size"]))]
    t = 1e-12
    bad = np.argwhere(~(b == want))
    if len(bad):
        k = tuple(int(x) for x in bad[0])
        raise Fail("block value at mode %s is %s, the full field has %s" % (tuple(x + s for x, s in zip(k, p["start"])), b[k], want[k]))
    expect((b == c).all(), "some modes of the block are not set")
    h = gen(p["N"], p["seed"], p["unitary"], half=True, dtype=p["dtype"])
    expect((h == a[..., :p["N"][-1] // 2 + 1]).all(), "half storage differs from full storage")

def g_res(rng, i, th):
    n = int(rng.choice([2, 4, 6, 8])); m = n + 2 * int(rng.randint(1, 6))
    return dict(n=n, m=m, seed=int(rng.randint(1, 2**31 - 1)), unitary=int(rng.randint(2)), half=int(rng.randint(2)))

def c_res(p):
    a = gen([p["n"]] * 3, p["seed"], p["unitary"], half=bool(p["half"]))
    b = gen([p["m"]] * 3, p["seed"], p["unitary"], half=bool(p["half"]))
    n, m = p["n"], p["m"]
    f = np.arange(-(n // 2) + 1, n // 2)
    g = np.arange(0, n // 2) if p["half"] else f
    x = a[np.ix_(f % n, f % n, g % n)]; y = b[np.ix_(f % m, f % m, g % m)]
    bad = np.argwhere(~(x == y))
    if len(bad):
        k = bad[0]
        raise Fail("mode (%d, %d, %d): %s on mesh %d, %s on mesh %d" % (f[k[0]], f[k[1]], g[k[2]], x[tuple(k)], n, y[tuple(k)], m))

def g_seed(rng, i, th):
    return dict(N=[int(rng.randint(2, 7)) for d in range(3)], seed=int(rng.randint(1, 2**31 - 1)))

def c_seed(p):
    """a different seed or a repeated call: deterministic, and the phases of independent modes differ"""
    a = gen(p["N"], p["seed"], False); b = gen(p["N"], p["seed"], False)
    expect((a == b).all(), "generation is not deterministic")
    v = a[..., :p["N"][2] // 2 + 1].ravel()
    v = v[abs(v) > 0]
    # each conjugate pair appears at most twice
    key = np.round(np.abs(v), 12)
    u, c = np.unique(key, return_counts=True)
    expect(c.max() <= 2, "the same amplitude is used for %d modes" % c.max())

# ---------------------------------------------------------------- C13
def idx(x, N, comp, ml=None):
    import pmesh.invariant as inv
    return np.asarray(inv.get_index(np.asarray(x), N, compressed=bool(comp), maxlength=ml))

def cube(nd, R, comp):
    r = [np.arange(-R, R + 1)] * nd
    if comp: r = r[:-1] + [np.arange(0, R + 1)]
    return np.array(list(itertools.product(*r)), 'i8').reshape(-1, nd)

def M(nd, R, comp):
    return (2 * R + 1) ** (nd - 1) * ((R + 1) if comp else (2 * R + 1))

RMAX = {1: 200, 2: 24, 3: 8, 4: 4, 5: 2}
def g_inv(rng, i, th):
    nd = int(rng.choice([1, 2, 3, 4, 5]))
    return dict(nd=nd, R=int(rng.randint(0, RMAX[nd] + 1)), comp=int(rng.randint(2)), extra=int(rng.choice([1, 2, 3, 51, 1000])), perm=int(rng.randint(1000)),
                ity=str(rng.choice(['i8', 'i4'])))

def c_inv(p):
    nd, R = p["nd"], p["R"]
    x = cube(nd, R, p["comp"]).astype(p["ity"])
    x = x[np.random.RandomState(p["perm"]).permutation(len(x))]
    # all of these modes exist on a mesh of at least 2 R + extra cells
    r = idx(x, 2 * R + p["extra"], p["comp"])
    if not np.array_equal(np.sort(r), np.arange(len(x))):
        miss = sorted(set(range(len(x))) - set(r.tolist()))[:3]
        raise Fail("modes with |x| <= %d do not fill 0..%d: missing %s" % (R, len(x) - 1, miss))
    sh = abs(x.astype('i8')).max(axis=1)
    o = np.argsort(r)
    expect((np.diff(sh[o]) >= 0).all(), "the index does not grow with the shell")
    r2 = idx(x.reshape(-1, 1, nd), [2 * R + p["extra"] + 2 * d + 1 for d in range(nd)], p["comp"])
    expect(r2.shape == (len(x), 1) and np.array_equal(r2[:, 0], r), "the index depends on the mesh size")

def g_invbig(rng, i, th):
    nd = int(rng.choice([1, 2, 3, 4, 5]))
    R = int(rng.choice([1, 5, 100, 5000, 2**20 - 2]))
    if nd == 4: R = min(R, 5000)
    if nd == 5: R = min(R, 500)
    n = 30
    x = rng.randint(-R, R + 1, size=(n, nd))
    for k in range(n):
        if rng.randint(2): x[k, rng.randint(nd)] = R * rng.choice([-1, 1])
    return dict(nd=nd, R=R, x=x.tolist(), comp=int(rng.randint(2)), ml=int(rng.choice([1, 5, 100, 10**6])))

def c_invbig(p):
    x = np.array(p["x"]).reshape(-1, p["nd"])
    nd = p["nd"]
    N = 2 * p["R"] + 3
    r = idx(x, N, p["comp"])
    seen = {}
    for row, v in zip(x, r):
        if p["comp"] and row[-1] < 0:
            expect(v == -1, "mode %s of the dropped half has index %d" % (row.tolist(), v)); continue
        s = int(abs(row).max())
        lo = M(nd, s - 1, p["comp"]) if s > 0 else 0
        expect(lo <= v < M(nd, s, p["comp"]), "index %d of mode %s is outside of its shell [%d, %d)" % (v, row.tolist(), lo, M(nd, s, p["comp"])))
        t = seen.setdefault(int(v), tuple(row.tolist()))
        expect(t == tuple(row.tolist()), "modes %s and %s share index %d" % (t, row.tolist(), v))
    r2 = idx(x, N, p["comp"], ml=p["ml"])
    expect(np.array_equal(r2, np.where(r >= p["ml"], -1, r)), "maximum length changes other indices")

def g_invmesh(rng, i, th):
    nd = int(rng.choice([1, 2, 3]))
    return dict(N=[int(rng.randint(1, 9)) for d in range(nd)], comp=int(rng.randint(2)), ml=[None, 1, 3, 20][rng.randint(4)])

def c_invmesh(p):
    """all modes around a small mesh: outside -> -1, Nyquist counts as positive, the rest is unique"""
    N = p["N"]; nd = len(N)
    x = np.array(list(itertools.product(*[range(-n - 1, n + 2) for n in N]))).reshape(-1, nd)
    r = idx(x, N, p["comp"], ml=p["ml"])
    big = idx(x, 1000, p["comp"], ml=p["ml"])
    y = x.copy()
    for d, n in enumerate(N):
        if n % 2 == 0: y[y[:, d] == -n // 2, d] = n // 2
    want = idx(y, 1000, p["comp"], ml=p["ml"])
    out = (2 * abs(x) > np.array(N)).any(axis=1)
    want = np.where(out, -1, want)
    bad = np.nonzero(r != want)[0]
    if len(bad): raise Fail("mode %s on mesh %s has index %d, expected %d" % (x[bad[0]].tolist(), N, r[bad[0]], want[bad[0]]))

CASES = dict(
    C11=[Case("hermitian", g_c11, c_c11, 220), Case("determinism", g_seed, c_seed, 20)],
    C12=[Case("blocks", g_c12, c_c12, 300, nontrivial=lambda p: np.prod(p["size"]) > 0), Case("resolution", g_res, c_res, 25)],
    C13=[Case("bijection", g_inv, c_inv, 60), Case("large", g_invbig, c_invbig, 120), Case("mesh", g_invmesh, c_invmesh, 80)],
)

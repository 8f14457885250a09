"""Run-time contracts of pmesh.domain (C01-C05, C20). Ranks are threads on a strict in-process MPI stand-in."""
import itertools, heapq, copy
import numpy as np
from conf.lib import Case, Fail, expect
from conf import fakempi

def mods():
    fakempi.install()
    import pmesh.domain as D
    return D

CHUNK = 1024 * 48

# ---------------------------------------------------------------- inputs
def gen_edges(rng, n, degenerate=True):
    """ascending dyadic edges from 0, n domains, total extent positive."""
    mode = rng.randint(3)
    if mode == 0:
        w = np.ones(n) * 2.0 ** rng.randint(-2, 3)
    else:
        w = rng.randint(0 if degenerate else 1, 6, size=n) * 0.25
        if w.sum() == 0: w[rng.randint(n)] = 0.5
    return [0.0] + np.cumsum(w).tolist()

def gen_grid(rng, maxranks=5, maxper=5):
    ndim = rng.choice([1, 1, 2, 2, 3])
    P = int(rng.randint(1, maxranks + 1))
    edges = [gen_edges(rng, int(rng.randint(1, (maxper if ndim < 3 else 3) + 1))) for d in range(ndim)]
    ndom = int(np.prod([len(e) - 1 for e in edges]))
    assign = None
    if rng.randint(2):
        assign = rng.randint(0, P, size=ndom).tolist()
        if rng.randint(3) == 0: # several ranks unused
            assign = (np.array(assign) % max(P - 1, 1)).tolist()
    return dict(P=P, edges=edges, assign=assign, periodic=int(rng.randint(2)))

def gen_pos(rng, g, n, inside=False, special=True):
    nd = len(g["edges"])
    out = []
    for i in range(n):
        row = []
        for e in g["edges"]:
            B = e[-1]
            k = rng.randint(6)
            if k == 0: x = e[rng.randint(len(e))]
            elif k == 1: x = e[rng.randint(len(e))] + rng.choice([-1, 1]) * 0.125
            elif k == 2: x = rng.randint(-64, 128) * B / 32.0
            elif k == 3: x = rng.choice([-1, 0, 1, 2, -3]) * B
            else: x = float(rng.randint(0, 1024)) / 1024 * B
            if inside:
                x = x % B
                if x >= B: x = 0.0
            row.append(float(x))
        out.append(row)
    return out

def npos(p, r):
    """positions of rank r (explicit, or regenerated from a seed for large sets)"""
    q = p["pos"][r]
    if isinstance(q, dict):
        rng = np.random.RandomState(q["seed"])
        B = np.array([e[-1] for e in p["edges"]])
        x = rng.randint(-128, 256, size=(q["n"], len(B))) / 128.0 * B
        if not p["periodic"] or q.get("inside"): x = np.where((x % B) >= B, 0.0, x % B)
    else:
        x = np.array(q, 'f8').reshape(-1, len(p["edges"]))
    if p.get("extra"):
        x = np.concatenate([x, np.full((len(x), p["extra"]), 1e6)], axis=1)
    if p.get("dtype") == 'f4': x = x.astype('f4')
    if p.get("noncontig"): x = np.repeat(x, 2, axis=0)[::2]
    return x

def mkgrid(D, p, comm):
    a = p.get("assign")
    return D.GridND([np.array(e) for e in p["edges"]], comm=comm, periodic=bool(p["periodic"]),
                    DomainAssign=None if a is None else np.array(a, 'int32'))

def default_assign(ndom, P):
    if P >= ndom: return list(range(ndom))
    a = [0] * ndom
    for i in range(P):
        for j in range(i * ndom // P, (i + 1) * ndom // P): a[j] = i
    return a

def tf(p):
    """optional transform position -> edge units and positions given in other units"""
    t = p.get("transform")
    if not t: return None, (lambda x: x)
    return (lambda x: x * t), (lambda x: x / t)

# ---------------------------------------------------------------- C01
def touched_axis(x, sm, E, periodic):
    """indices of non-empty cells of one axis touched by [x-sm, x+sm] (closed right, half-open cells)."""
    n = len(E) - 1
    B = E[-1]
    res = []
    if periodic:
        ms = range(int(np.floor((x - sm) / B)) - 1, int(np.floor((x + sm) / B)) + 2)
    else:
        ms = [0]
    for k in range(n):
        if E[k] == E[k + 1]: continue
        if any(E[k] + m * B <= x + sm and E[k + 1] + m * B > x - sm for m in ms):
            res.append(k)
    return res

def spec_targets(p, pos, sm, assign):
    shape = [len(e) - 1 for e in p["edges"]]
    cache = {}
    out = []
    for row in np.asarray(pos, 'f8'):
        axes = []
        for j, E in enumerate(p["edges"]):
            key = (j, row[j])
            if key not in cache: cache[key] = touched_axis(row[j], sm[j], E, p["periodic"])
            axes.append(cache[key])
        t = set()
        for idx in itertools.product(*axes):
            t.add(assign[int(np.ravel_multi_index(idx, shape))])
        out.append(t)
    return out

def g_c01(rng, i, th):
    p = gen_grid(rng)
    nd = len(p["edges"])
    B = [e[-1] for e in p["edges"]]
    k = rng.randint(5)
    if k == 0: sm = 0
    elif k == 1: sm = float(rng.randint(0, 9) * 0.125)
    elif k == 2: sm = [float(rng.randint(0, 9) * 0.25) for b in B]
    elif k == 3: sm = [float(b * rng.choice([0, 0.25, 0.5, 1, 1.5, 3])) for b in B]
    else: sm = [float(rng.choice([0, 0.0625])) for b in B]
    p["smoothing"] = sm
    p["pos"] = [gen_pos(rng, p, int(rng.choice([0, 1, 3, 8]))) for r in range(p["P"])]
    p["extra"] = int(rng.choice([0, 0, 1]))
    p["transform"] = float(rng.choice([0, 0, 2, 0.5]))
    p["dtype"] = str(rng.choice(['f8', 'f8', 'f4']))
    p["noncontig"] = int(rng.choice([0, 0, 1]))
    return p

def g_c01big(rng, i, th):
    p = gen_grid(rng, 3, 3)
    p["smoothing"] = float(rng.choice([0, 0.125]))
    p["pos"] = [dict(n=int(CHUNK + rng.choice([-1, 0, 1, 700, CHUNK + 5])), seed=int(rng.randint(1 << 30)))] + \
               [gen_pos(rng, p, 2) for r in range(p["P"] - 1)]
    return p

def vec_targets(p, pos, sm, assign):
    """vectorised spec for large sets: per-axis boolean tables, then membership per rank."""
    shape = [len(e) - 1 for e in p["edges"]]
    tabs = []
    for j, E in enumerate(p["edges"]):
        u, inv = np.unique(pos[:, j], return_inverse=True)
        t = np.zeros((len(u), shape[j]), bool)
        for a, x in enumerate(u): t[a, touched_axis(x, sm[j], E, p["periodic"])] = True
        tabs.append(t[inv])
    out = np.zeros((len(pos), p["P"]), bool)
    for dom, idx in enumerate(np.ndindex(*shape)):
        m = np.ones(len(pos), bool)
        for j, k in enumerate(idx): m &= tabs[j][:, k]
        out[:, assign[dom]] |= m
    return out

def c_c01(p):
    D = mods()
    fwd, inv = tf(p)
    ndom = int(np.prod([len(e) - 1 for e in p["edges"]]))
    assign = p["assign"] if p.get("assign") is not None else default_assign(ndom, p["P"])
    sm = p["smoothing"] if isinstance(p["smoothing"], list) else [p["smoothing"]] * len(p["edges"])
    def main(comm):
        g = mkgrid(D, p, comm)
        x = npos(p, comm.rank)
        nd = len(p["edges"])
        y = x.copy(); y[:, :nd] = inv(x[:, :nd])
        y0 = y.copy()
        lay = g.decompose(y, smoothing=p["smoothing"], transform=fwd)
        expect(np.array_equal(y, y0), "decompose changed its input positions")
        return (np.array(lay.sendcounts).tolist(), np.array(lay.sendoffsets).tolist(), np.array(lay.indices), lay.sendlength,
                lay.recvlength, np.array(lay.recvcounts).tolist())
    res, w = fakempi.run(p["P"], main)
    res = fakempi.ok(res)
    for r, (sc, so, ind, sl, rl, rc) in enumerate(res):
        x = npos(p, r).astype('f8')
        expect(sl == len(x), "sendlength is not the number of particles")
        expect(len(ind) == sum(sc), "rank %d: %d indices for %d announced copies" % (r, len(ind), sum(sc)))
        if len(x) == 0: continue
        T = vec_targets(p, x, sm, assign)
        pos = 0
        for t in range(p["P"]):
            got = ind[pos:pos + sc[t]]
            pos += sc[t]
            want = np.nonzero(T[:, t])[0]
            if not np.array_equal(got, want):
                d = sorted(set(got.tolist()) ^ set(want.tolist()))[:3]
                raise Fail("rank %d -> %d: particles %s expected, got %s; differing positions %s" % (
                    r, t, want[:10].tolist(), got[:10].tolist(), [x[k].tolist() for k in d if 0 <= k < len(x)]))
        expect([res[s][0][r] for s in range(p["P"])] == rc, "receive counts are not the transposed send counts")
        expect(rl == sum(rc), "recvlength")

# ---------------------------------------------------------------- C02 / C03
DT = ['f8', 'f4', 'i4', 'i8', 'u1', 'c16', '?', 'S3', 'c8']
SH = [[], [], [3], [2, 2], [1]]

def gen_layout(rng, allcopies=False, own=False, maxP=5):
    P = int(rng.randint(1, maxP + 1))
    n = [int(rng.choice([0, 1, 2, 5, 9])) for r in range(P)]
    style = rng.randint(3)
    idx = []
    for r in range(P):
        lists = []
        for t in range(P):
            m = rng.randint(3) if style else 0
            if m == 1: l = []
            elif m == 2: l = list(range(n[r]))
            else: l = [k for k in range(n[r]) if rng.randint(2)]
            if style == 2 : rng.shuffle(l)
            lists.append([int(v) for v in l])
        if allcopies:
            for k in range(n[r]):
                if not any(k in l for l in lists): lists[rng.randint(P)].append(k)
        if own:
            for k in range(n[r]):
                if k not in lists[r]: lists[r].append(k)
        idx.append(lists)
    return dict(P=P, n=n, idx=idx)

def mklayout(D, p, comm):
    l = p["idx"][comm.rank]
    sc = np.array([len(v) for v in l], 'int32')
    ind = np.array(sum(l, []), 'int32')
    rc = None
    if p.get("recv"):
        rc = np.array([len(p["idx"][s][comm.rank]) for s in range(p["P"])], 'int32')
    return D.Layout(comm, p["n"][comm.rank], sc, ind, rc)

def values(dt, shape, n, r, seed, dyadic=True):
    rng = np.random.RandomState((seed * 31 + r * 7 + 1) % (2**31))
    s = tuple([n] + list(shape))
    d = np.dtype(dt)
    if d.kind == 'f': return (rng.randint(-1000, 1000, size=s) / 8.0).astype(d)
    if d.kind == 'c': return (rng.randint(-1000, 1000, size=s) + 1j * rng.randint(-99, 99, size=s)).astype(d)
    if d.kind == 'b': return rng.randint(0, 2, size=s).astype(d)
    if d.kind == 'u': return rng.randint(0, 200, size=s).astype(d)
    if d.kind == 'S': return rng.randint(0, 999, size=s).astype(d)
    return rng.randint(-1000, 1000, size=s).astype(d)

def g_c02(rng, i, th):
    p = gen_layout(rng)
    p["recv"] = int(rng.randint(3) == 0)
    p["arrays"] = [[str(rng.choice(DT)), SH[rng.randint(len(SH))], int(rng.randint(1000))] for k in range(rng.randint(1, 4))]
    p["pack"] = int(rng.randint(2))
    p["form"] = str(rng.choice(["C", "C", "F", "stride"]))
    p["bad"] = None
    if rng.randint(4) == 0:
        p["bad"] = [int(rng.randint(p["P"])), int(rng.randint(len(p["arrays"]))), int(rng.choice([-1, 1, 3]))]
    return p

def form(a, f):
    if f == "F": return np.asfortranarray(a)
    if f == "stride": return np.repeat(a, 2, axis=0)[::2]
    return a

def c_c02(p):
    D = mods()
    P = p["P"]
    if p["bad"] and p["n"][p["bad"][0]] + p["bad"][2] < 0: return
    def data(r, k):
        dt, sh, seed = p["arrays"][k]
        n = p["n"][r]
        if p["bad"] and p["bad"][0] == r and p["bad"][1] == k: n += p["bad"][2]
        return form(values(dt, sh, n, r, seed), p["form"])
    def main(comm):
        lay = mklayout(D, p, comm)
        arrs = [data(comm.rank, k) for k in range(len(p["arrays"]))]
        try:
            out = lay.exchange(*arrs, pack=bool(p["pack"]))
        except ValueError as e:
            return "ValueError"
        cost = lay.get_exchange_cost()
        return ([out] if len(arrs) == 1 else list(out)), lay.recvlength, cost.tolist()
    res, w = fakempi.run(P, main)
    res = fakempi.ok(res)
    if p["bad"]:
        expect(all(r == "ValueError" for r in res), "data of the wrong length on rank %d is not rejected on all ranks: %s" % (p["bad"][0], [type(r).__name__ for r in res]))
        return
    expect(not any(isinstance(r, str) for r in res), "valid exchange raised ValueError")
    cost = [sum(len(p["idx"][s][t]) for t in range(P) if t != s) for s in range(P)]
    for r in range(P):
        out, rl, c = res[r]
        expect(c == cost, "exchange cost %s, expected %s" % (c, cost))
        for k, (dt, sh, seed) in enumerate(p["arrays"]):
            want = np.concatenate([values(dt, sh, p["n"][s], s, seed)[np.array(p["idx"][s][r], int)] for s in range(P)], axis=0)
            got = out[k]
            expect(got.dtype == want.dtype and got.shape == want.shape, "rank %d array %d: %s%s, expected %s%s" % (r, k, got.dtype, got.shape, want.dtype, want.shape))
            expect(len(got) == rl, "recvlength")
            expect(np.array_equal(got, want), "rank %d array %d: wrong items delivered: %s expected %s" % (r, k, got[:4].tolist(), want[:4].tolist()))

MODES = ['sum', 'mean', 'any', 'all', 'local', 'add', 'maximum', 'minimum', 'fmax']

def g_c03(rng, i, th):
    mode = str(rng.choice(MODES))
    p = gen_layout(rng, allcopies=(mode not in ('sum', 'all')), own=(mode == 'local'))
    p["mode"] = mode
    dts = ['f8', 'f4'] if mode in ('mean', 'sum') else ['f8', 'f4', 'i8', 'c16', 'i4']
    if mode in ('maximum', 'minimum', 'fmax'): dts = ['f8', 'f4', 'i8']
    p["arr"] = [str(rng.choice(dts)), SH[rng.randint(len(SH))], int(rng.randint(1000))]
    p["out"] = int(rng.randint(2))
    p["form"] = str(rng.choice(["C", "C", "F", "stride"]))
    p["roundtrip"] = int(rng.randint(4) == 0)
    return p

def c_c03(p):
    D = mods()
    P = p["P"]
    dt, sh, seed = p["arr"]
    mode = p["mode"]
    nrecv = [sum(len(p["idx"][s][r]) for s in range(P)) for r in range(P)]
    def main(comm):
        lay = mklayout(D, p, comm)
        r = comm.rank
        if p["roundtrip"]:
            d = lay.exchange(values(dt, sh, p["n"][r], r, seed))
        else:
            d = values(dt, sh, nrecv[r], r, seed)
        m = mode if mode in ('sum', 'mean', 'any', 'all', 'local') else getattr(np, mode)
        n = len(lay.indices) if mode == 'all' else p["n"][r]
        out = None
        if p["out"]:
            out = np.full([n] + sh, 77).astype(dt)
        d = form(d, p["form"])
        d0 = d.copy()
        g = lay.gather(d, mode=m, out=out)
        expect(np.array_equal(d, d0), "gather changed its input")
        if out is not None: expect(g is out, "gather does not return the supplied output")
        return g
    res, w = fakempi.run(P, main)
    res = fakempi.ok(res)
    # copies of particle i of rank r, in order of target rank: value = data of rank t at recv offset
    def recvdata(t):
        if p["roundtrip"]:
            return np.concatenate([values(dt, sh, p["n"][s], s, seed)[np.array(p["idx"][s][t], int)] for s in range(P)], axis=0)
        return values(dt, sh, nrecv[t], t, seed)
    RD = [recvdata(t) for t in range(P)]
    for r in range(P):
        copies = [[] for k in range(p["n"][r])]
        owncopy = {}
        flat = []
        for t in range(P):
            off = sum(len(p["idx"][s][t]) for s in range(r))
            for q, k in enumerate(p["idx"][r][t]):
                v = RD[t][off + q]
                copies[k].append(v)
                flat.append(v)
                if t == r: owncopy[k] = v
        got = res[r]
        n = len(flat) if mode == 'all' else p["n"][r]
        expect(got.shape == tuple([n] + sh), "rank %d: shape %s, expected %s" % (r, got.shape, [n] + sh))
        if mode in ('sum', 'mean', 'any', 'all', 'local'):
            expect(got.dtype == np.dtype(dt), "rank %d: dtype %s, expected %s" % (r, got.dtype, dt))
        if mode == 'all':
            expect(np.array_equal(got, np.array(flat, dt).reshape([n] + sh)), "rank %d: 'all' is not the unreduced copies" % r)
            continue
        for k in range(p["n"][r]):
            c = np.array(copies[k], dt).reshape([-1] + sh)
            if mode in ('sum', 'add'): want = c.astype('c16' if np.dtype(dt).kind == 'c' else 'f8').sum(axis=0)
            elif mode == 'mean': want = c.astype('f8').sum(axis=0) / len(c)
            elif mode == 'maximum' or mode == 'fmax': want = c.max(axis=0)
            elif mode == 'minimum': want = c.min(axis=0)
            elif mode == 'local': want = owncopy[k]
            elif mode == 'any':
                expect(any(np.array_equal(got[k], v) for v in c), "rank %d particle %d: 'any' returned a value that is none of its copies" % (r, k))
                continue
            expect(np.allclose(got[k], want, rtol=1e-5 if dt in ('f4',) else 1e-12, atol=1e-12), "rank %d particle %d: %s gave %s, expected %s over %d copies" % (
                r, k, mode, got[k].tolist(), np.asarray(want).tolist(), len(c)))

# ---------------------------------------------------------------- C04
def g_c04(rng, i, th):
    p = gen_grid(rng)
    p["balance"] = [int(rng.randint(1000)) for k in range(rng.choice([0, 0, 1, 2]))]
    pos = gen_pos(rng, p, 12, inside=not p["periodic"])
    if p["periodic"]:
        tiny = float(rng.choice([-1e-20, -5e-324, -1e-9, 1e-300, -0.0]))
        for e in range(len(p["edges"])):
            row = list(pos[0]); row[e] = tiny; pos.append(row)
        pos.append([tiny] * len(p["edges"]))
        # floats next to edges
        for k in range(4):
            pos.append([float(np.nextafter(E[rng.randint(len(E))], rng.choice([-1e9, 1e9])) + rng.choice([-1, 0, 1]) * E[-1]) for E in p["edges"]])
    p["pos"] = pos
    p["dtype"] = str(rng.choice(['f8', 'f8', 'f4']))
    if not p["periodic"]: p["dtype"] = 'f8'
    p["extra"] = int(rng.choice([0, 1]))
    p["transform"] = float(rng.choice([0, 0, 2]))
    p["big"] = int(th and rng.randint(20) == 0)
    return p

def g_c04big(rng, i, th):
    p = gen_grid(rng, 3, 3)
    p.update(balance=[], pos=dict(n=CHUNK + 3, seed=int(rng.randint(1 << 30))), dtype='f8', extra=0, transform=0)
    return p

def c_c04(p):
    D = mods()
    fwd, inv = tf(p)
    P = p["P"]
    q = dict(p); q["pos"] = [p["pos"]] * P
    def main(comm):
        g = mkgrid(D, p, comm)
        ndom = int(np.prod([len(e) - 1 for e in p["edges"]]))
        for s in p["balance"]:
            g.loadbalance(np.random.RandomState(s).randint(0, 100, size=ndom))
        x = inv(npos(q, comm.rank))
        prim = np.array(g.isprimary(x, transform=fwd))
        lay = g.decompose(x, smoothing=0, transform=fwd)
        return prim, np.array(lay.sendcounts), np.array(lay.indices), np.array(g.DomainAssign).tolist()
    res, w = fakempi.run(P, main)
    res = fakempi.ok(res)
    x = npos(q, 0)
    n = len(x)
    prim = np.array([r[0] for r in res])
    for r in range(P):
        expect(res[r][0].shape == (n,) and res[r][0].dtype == bool, "isprimary shape/dtype")
    cnt = prim.sum(axis=0)
    if not (cnt == 1).all():
        k = int(np.nonzero(cnt != 1)[0][0])
        raise Fail("position %s is primary on %d ranks (%s)" % (x[k].tolist(), cnt[k], np.nonzero(prim[:, k])[0].tolist()))
    owner = prim.argmax(axis=0)
    # the owner is the rank that owns the domain containing the (exactly wrapped) position
    shape = [len(e) - 1 for e in p["edges"]]
    for r in range(P):
        sc, ind = res[r][1], res[r][2]
        expect(len(ind) == n and sc.sum() == n, "decomposing %d particles with zero smoothing makes %d copies" % (n, len(ind)))
        dest = np.full(n, -1)
        dest[ind] = np.repeat(np.arange(P), sc)
        bad = np.nonzero(dest != owner)[0]
        if len(bad):
            k = int(bad[0])
            raise Fail("position %s is primary on rank %d but decomposed to rank %d" % (x[k].tolist(), owner[k], dest[k]))
    nd = len(shape)
    asg = res[0][3]
    y = np.asarray(x[:, :nd], 'f8')
    idx = []
    ok = np.ones(n, bool)
    for j in range(nd):
        E = np.array(p["edges"][j])
        v = y[:, j] % E[-1] if p["periodic"] else y[:, j]
        v = np.where(v >= E[-1], 0.0, v) if p["periodic"] else v
        idx.append(np.searchsorted(E, v, side='right') - 1)
        # skip positions whose exact wrap is not representable
        d = np.min(np.abs(v[:, None] - E[None, :]), axis=1)
        ok &= (d == 0) | (d > 1e-6 * E[-1])
    dom = np.ravel_multi_index(idx, shape)
    want = np.array(asg)[dom]
    bad = np.nonzero((want != owner) & ok)[0]
    if len(bad):
        k = int(bad[0])
        raise Fail("position %s lies in domain %d of rank %d but is primary on rank %d" % (x[k].tolist(), dom[k], want[k], owner[k]))

# ---------------------------------------------------------------- C05
def g_c05a(rng, i, th):
    nd = int(rng.randint(1, 4))
    return dict(P=int(rng.randint(1, 40)), shape=[int(rng.randint(1, [60, 9, 5][nd - 1])) for d in range(nd)])

def c_c05a(p):
    D = mods()
    class C(object):
        def __init__(s, r): s.rank, s.size = r, p["P"]
    n = int(np.prod(p["shape"]))
    for r in sorted(set([0, p["P"] - 1])):
        g = D.GridND([np.arange(k + 1.0) for k in p["shape"]], comm=C(r), periodic=True)
        a = np.array(g.DomainAssign).tolist()
        expect(len(a) == n and g.size == n, "assignment has %d entries for %d domains" % (len(a), n))
        expect(all(0 <= v < p["P"] for v in a), "invalid rank in assignment %s" % a)
        expect(a == sorted(a), "default assignment is not in contiguous blocks: %s" % a)
        if n >= p["P"]: expect(set(a) == set(range(p["P"])), "ranks without a domain: %s" % sorted(set(range(p["P"])) - set(a)))
        own = np.nonzero(np.array(a) == r)[0]
        pr = g.primary_region
        expect((pr is None) == (len(own) == 0), "primary region")
        if pr is not None: expect(len(pr['start']) == len(own), "number of primary regions")

def g_c05l(rng, i, th):
    p = gen_grid(rng)
    p["pos"] = [gen_pos(rng, p, int(rng.choice([0, 1, 4, 9])), inside=not p["periodic"]) for r in range(p["P"])]
    p["gamma"] = float(rng.choice([1, 2, 3]))
    p["dtype"] = 'f8'
    p["transform"] = float(rng.choice([0, 0, 2]))
    p["extra"] = int(rng.choice([0, 0, 1]))
    return p

def g_c05lbig(rng, i, th):
    p = g_c05l(rng, i, th)
    p["pos"][0] = dict(n=int(CHUNK + rng.choice([0, 1, 300])), seed=int(rng.randint(1 << 30)), inside=1)
    return p

def c_c05l(p):
    D = mods()
    fwd, inv = tf(p)
    P = p["P"]
    nd = len(p["edges"])
    shape = [len(e) - 1 for e in p["edges"]]
    def main(comm):
        g = mkgrid(D, p, comm)
        x = npos(p, comm.rank)
        y = x.copy(); y[:, :nd] = inv(x[:, :nd])
        y0 = y.copy()
        L = np.array(g.load(y, transform=fwd, gamma=p["gamma"]), 'f8')
        expect(np.array_equal(y, y0), "load changed its input")
        L0 = L.copy()
        a0 = np.array(g.DomainAssign).tolist()
        g.loadbalance(L)
        return L0.tolist(), a0, np.array(g.DomainAssign).tolist(), np.array(g.isprimary(npos(p, 0)[:50])).tolist()
    res, w = fakempi.run(P, main)
    res = fakempi.ok(res)
    cnt = np.zeros(int(np.prod(shape)))
    for r in range(P):
        x = npos(p, r).astype('f8')
        if len(x) == 0: continue
        idx = []
        for j in range(nd):
            E = np.array(p["edges"][j])
            v = x[:, j] % E[-1] if p["periodic"] else x[:, j]
            idx.append(np.searchsorted(E, v, side='right') - 1)
        np.add.at(cnt, np.ravel_multi_index(idx, shape), 1)
    want = cnt ** p["gamma"]
    for r in range(P):
        L, a0, a1, pr = res[r]
        expect(np.allclose(L, want), "load %s, expected %s" % (L, want.tolist()))
        expect(a1 == res[0][2], "ranks disagree on the assignment")
        expect(len(a1) == len(want) and all(0 <= v < P for v in a1), "invalid assignment after load balancing: %s" % a1)
        if len(want) <= P:
            expect(a1 == a0, "load balancing changed the assignment although there are not more domains than ranks")
        else:
            check_greedy(want, a1, P)

def check_greedy(load, assign, P):
    h = [0.0] * P
    for l in sorted(load, reverse=True):
        k = h.index(min(h)); h[k] += l
    got = [0.0] * P
    for l, a in zip(load, assign): got[a] += l
    expect(np.allclose(sorted(got), sorted(h)), "loads per rank %s, greedy assignment gives %s" % (sorted(got), sorted(h)))

def g_c05b(rng, i, th):
    n = int(rng.randint(1, 30)); P = int(rng.randint(1, 9))
    return dict(P=P, n=n, load=rng.choice([0, 1, 2, 3, 5, 8, 13, 100, 1000.5], size=n).tolist(), steps=int(rng.randint(1, 3)))

def c_c05b(p):
    D = mods()
    class C(object):
        def __init__(s, r): s.rank, s.size = r, p["P"]
    first = None
    for r in range(p["P"]):
        g = D.GridND([np.arange(p["n"] + 1.0)], comm=C(r), periodic=True)
        a0 = np.array(g.DomainAssign).tolist()
        for s in range(p["steps"]):
            g.loadbalance(np.array(p["load"][::-1] if s else p["load"]))
        load = p["load"][::-1] if p["steps"] > 1 else p["load"]
        a = np.array(g.DomainAssign).tolist()
        if first is None: first = a
        expect(a == first, "ranks disagree on the assignment")
        expect(len(a) == p["n"] and all(0 <= v < p["P"] for v in a), "invalid assignment %s" % a)
        if p["n"] <= p["P"]: expect(a == a0, "assignment changed although there are not more domains than ranks")
        else: check_greedy(load, a, p["P"])
        prim = np.array(g.isprimary(np.arange(p["n"])[:, None] + 0.5))
        expect(prim.tolist() == [v == r for v in a], "primary regions do not follow the assignment")

def g_c05u(rng, i, th):
    nd = int(rng.randint(1, 4))
    k = rng.randint(3)
    if k == 0: box = [float(rng.choice([1, 10, 100]))] * nd
    elif k == 1: box = [float(10 ** rng.uniform(-3, 3)) for d in range(nd)]
    else: box = [float(rng.choice([1, 2, 0.001, 1e3])) for d in range(nd)]
    return dict(P=int(rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 11, 16, 24, 97, 512])), box=box, periodic=int(rng.randint(2)))

def c_c05u(p):
    D = mods()
    class C(object):
        def __init__(s, r): s.rank, s.size = r, p["P"]
    g = D.GridND.uniform(np.array(p["box"]), comm=C(0), periodic=bool(p["periodic"]))
    expect(1 <= g.size <= p["P"], "uniform grid has %d domains for %d ranks" % (g.size, p["P"]))
    expect(g.periodic == bool(p["periodic"]), "periodic flag")
    for e, b, n in zip(g.edges, p["box"], g.shape):
        e = np.array(e)
        expect(n >= 1 and len(e) == n + 1, "number of edges")
        expect(e[0] == 0 and e[-1] == b and (np.diff(e) > 0).all(), "edges %s do not run from 0 to %g" % (e.tolist(), b))
        expect(np.allclose(np.diff(e), b / n), "edges are not uniform")

# ---------------------------------------------------------------- C20 (domain part)
def g_c20(rng, i, th):
    p = gen_grid(rng, 5)
    p["P"] = max(p["P"], 2)
    if p["assign"] is not None: p["assign"] = [a % p["P"] for a in p["assign"]]
    p["smoothing"] = float(rng.choice([0, 0.25]))
    p["pos"] = [gen_pos(rng, p, int(rng.choice([0, 0, 1, 6])), inside=not p["periodic"]) for r in range(p["P"])]
    p["ops"] = [str(v) for v in rng.choice(["exchange", "exchange1", "gsum", "gmean", "gany", "glocal", "gall", "gmax", "cost", "load", "badlen", "badgather", "badpack", "badshape"],
                                           size=3)]
    p["badrank"] = int(rng.randint(p["P"]))
    return p

def _ops(D, p, comm, pos):
    g = mkgrid(D, p, comm)
    lay = g.decompose(pos, smoothing=p["smoothing"])
    n = len(pos)
    bad = comm.rank == p["badrank"]
    log = []
    for op in p["ops"]:
        try:
            if op == "exchange": lay.exchange(np.ones(n), np.ones((n, 2), 'f4'))
            elif op == "exchange1": lay.exchange(np.ones((n, 3)), np.ones(n), pack=False)
            elif op == "cost": lay.get_exchange_cost()
            elif op == "load": g.load(pos)
            elif op == "badlen": lay.exchange(np.ones(n + 1 if bad else n))
            elif op == "badgather": lay.gather(np.ones(lay.recvlength + 2 if bad else lay.recvlength))
            elif op == "badpack": lay.exchange(np.ones(n), np.ones(n + 1 if bad else n))
            elif op == "badshape": lay.exchange(np.ones((n, 3 if bad and comm.rank else 2)), pack=False)
            else:
                d = np.ones((lay.recvlength, 2))
                if op == "gmax":
                    if (p["smoothing"] >= 0): lay.gather(d, mode=np.maximum) if _hascopies(lay) else lay.gather(d, mode='sum')
                else: lay.gather(d, mode=op[1:])
            log.append(op)
        except ValueError:
            log.append("ValueError")
    return log

def _hascopies(lay):
    # decided identically on all ranks: these inputs always have copies (inside the box or periodic)
    return True

def c_c20(p):
    D = mods()
    P = p["P"]
    res, w = fakempi.run(P, lambda comm: _ops(D, p, comm, npos(p, comm.rank)))
    logs = fakempi.ok(res)
    for r in range(P):
        expect(logs[r] == logs[0], "ranks end differently: %s on rank 0, %s on rank %d" % (logs[0], logs[r], r))
        expect(w.traces[r] == w.traces[0], "collective sequences differ: rank 0 %s, rank %d %s" % (w.traces[0], r, w.traces[r]))
    for op, l in zip(p["ops"], logs[0]):
        if op == "badshape" and p["badrank"] == 0: continue
        expect((l == "ValueError") == op.startswith("bad"), "operation %s ended with %s" % (op, l))
    # the same calls on other local data make the same collective calls
    q = dict(p); q["pos"] = p["pos"][::-1]
    res2, w2 = fakempi.run(P, lambda comm: _ops(D, q, comm, npos(q, comm.rank)))
    fakempi.ok(res2)
    expect(w2.traces[0] == w.traces[0], "collective sequence depends on the local data: %s vs %s" % (w.traces[0], w2.traces[0]))

some = lambda p: sum(len(x) if not isinstance(x, dict) else x["n"] for x in p["pos"]) > 0
CASES = dict(
    C01=[Case("decompose", g_c01, c_c01, 260, nontrivial=some), Case("decompose-chunks", g_c01big, c_c01, 4, 12)],
    C02=[Case("exchange", g_c02, c_c02, 300, nontrivial=lambda p: sum(p["n"]) > 0)],
    C03=[Case("gather", g_c03, c_c03, 400, nontrivial=lambda p: sum(p["n"]) > 0)],
    C04=[Case("primary", g_c04, c_c04, 260), Case("primary-chunks", g_c04big, c_c04, 3, 9)],
    C05=[Case("default-assignment", g_c05a, c_c05a, 150), Case("load", g_c05l, c_c05l, 150, nontrivial=some), Case("load-chunks", g_c05lbig, c_c05l, 3, 10),
         Case("greedy", g_c05b, c_c05b, 100), Case("uniform", g_c05u, c_c05u, 150)],
    C20=[Case("domain-collectives", g_c20, c_c20, 150)],
)
EXTS = ["domain"]

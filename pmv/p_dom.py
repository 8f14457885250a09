"""Contracts of domain.py: which domains a particle is sent to (decompose), the layout, exchange and gather, primary regions, load."""
import os, time, itertools
import numpy as np
from . import build
from . import psym as P
from . import npshim as N
from . import term as tm
from .psym import SArr, Sym, W, T_, explore, event, symarr, asarr, frozen, computed
from .term import *
from .solve import Obs, check, entails, search
from .p_wrap import call_paths, text

REPO = build.REPO
I = lambda n: var(n, "I")
R = lambda n: var(n, "R")

# ---------------------------------------------------------------- arithmetic with a symbolic period
def expand_mod(t, memo=None):
    memo = {} if memo is None else memo
    def go(t):
        r = memo.get(t)
        if r is None:
            if t.op == "M":
                a, n = go(t.args[0]), go(t.args[1])
                r = sub(a, mul(n, floor(div(a, n))))
            elif children(t): r = rebuild(t, go)
            else: r = t
            memo[t] = r
        return r
    return go(t)

def linearize(ts):
    """every product of two or more unknowns becomes one unknown (weaker hypotheses and goal: sound)"""
    memo = {}
    def mon(m, sort):
        if len(m) == 1 and m[0][1] == 1: return go(m[0][0]) if m[0][0].op == "ite" else m[0][0]
        return var("prod:" + "*".join("%d^%d" % (a.id, e) for a, e in m), sort)
    def go(t):
        r = memo.get(t)
        if r is not None: return r
        if t.op == "poly":
            r = ZERO
            for m, c in t.args:
                if not m: r = add(r, const(c)); continue
                a = mon(m, "I" if tm._mono_int(m) else "R")
                r = add(r, mul(const(c), a))
        elif t.op in ("and", "or", "not", "le0", "lt0", "eq0", "ite") and children(t): r = rebuild(t, go)
        else: r = t
        memo[t] = r
        return r
    return [go(t) for t in ts]

def floor_facts(ts, B):
    out = []; seen = set()
    for t in ts:
        for s in subterms(t):
            if s.op == "floor" and s not in seen:
                seen.add(s)
                a = mul(B, s.args[0])
                out += [le(mul(B, s), a), lt(a, add(mul(B, s), B))]
    return out

def lin(obs, name, hyps, goal, rp, timeout=8.0):
    """linear goal after products are made opaque"""
    xs = linearize(list(hyps) + [goal])
    return obs.prove(name, xs[:-1], xs[-1], timeout, replay=lambda m: rp)

# ---------------------------------------------------------------- loading
class Gathered:
    """result of allgather: the values of all ranks; the same on each rank"""
    def __init__(self, comm, x, k): self.comm, self.x, self.k = comm, x, k
    def __pany__(self):
        g = var("any-rank:%d" % self.k, "B")
        x = P.truth(T_(self.x)) if not isinstance(self.x, (bool, np.bool_)) else (TRUE if self.x else FALSE)
        P.CTX.assume(implies(x, g))
        return bool(W(g))
    def __iter__(self): raise Unsupported("values of all ranks")
    def __parray__(self): return symarr("allgather:%d" % self.k, [self.comm.size_], "i8")

class Comm:
    """contract of the communicator: every call is recorded in order; results of collectives are unknown but fixed"""
    def __init__(self, size=None, rank=None, root=None):
        self.size_ = I("P") if size is None else size
        self.rank_ = I("rank") if rank is None else rank
        self.size, self.rank = W(self.size_), W(self.rank_)
        self.root = root or {}
        P.CTX.assume(ge(self.size_, 1)); P.CTX.assume(ge(self.rank_, 0)); P.CTX.assume(lt(self.rank_, self.size_))
        self.n = 0
    def Barrier(self): event("Barrier")
    barrier = Barrier
    def allgather(self, x): self.n += 1; event("allgather", x); return Gathered(self, x, self.n)
    def bcast(self, x, root=0):
        self.n += 1; event("bcast", x, root)
        if isinstance(x, np.dtype): return self.root.get("dtype", x)
        if isinstance(x, tuple): return (W(I("rootlen:%d" % self.n)),) + tuple(self.root.get("shape", x[1:]))
        if isinstance(x, (RecType,)): return x
        raise Unsupported("bcast of %r" % (x,))
    def allreduce(self, x, op=None):
        self.n += 1; event("allreduce", x, op)
        if op not in (None, "SUM"): raise Unsupported("allreduce")
        if isinstance(x, SArr):
            x = frozen(x); k = self.n
            return N.new(x.shape_, x.dtype, lambda i: app("sum-over-ranks:%d" % k, list(i), "I" if x.dtype.kind in "iu" else "R"), "allreduce")
        return W(app("sum-over-ranks:%d" % self.n, [], "I"))
    def Alltoall(self, s, r):
        event("Alltoall", frozen(s), r)
        k = r.name if hasattr(r, "name") else ""
        r[...] = symarr("received-counts", [r.shape_[0]], r.dtype)
    def Alltoallv(self, s, r):
        sb, (sc, so), sd = s; rb, (rc, ro), rd = r
        event("Alltoallv", froz(sb), frozen(asarr(sc)), frozen(asarr(so)), sd, rb, frozen(asarr(rc)), frozen(asarr(ro)), rd, contiguous(sb))
        fill_received(rb)
    def __getattr__(self, n): raise Unsupported("communicator method %s" % n)

def contiguous(a):
    if isinstance(a, Rec): return True
    return "fortran" not in a.attrs
def froz(a): return a.frozen() if isinstance(a, Rec) else frozen(a)
def fill_received(rb):
    k0 = sum(1 for e in P.CTX.events if e.name == "Alltoallv")
    if isinstance(rb, Rec):
        for k, x in rb.f.items(): x[...] = symarr("received:%d:%s" % (k0, k), x.shape_, x.dtype)
    elif rb.dtype.kind == "c": raise Unsupported("complex")
    else: rb[...] = symarr("received:%d" % k0, rb.shape_, rb.dtype)

class RecType:
    """structured dtype: columns with their shapes"""
    def __init__(self, cols): self.cols = cols; self.names = tuple("f%d" % k for k in range(len(cols)))
    @property
    def itemsize(self):
        t = 0
        for d, s in self.cols:
            n = d.itemsize
            for x in s: n = n * x
            t = t + n
        return t
    kind = "V"
    def __eq__(self, o): return isinstance(o, RecType) and o.cols == self.cols
    def __hash__(self): return 0
class SubType:
    def __init__(self, d, s): self.d, self.s = d, tuple(s)
    @property
    def itemsize(self): return W(mul(prod([T_(x) for x in self.s]), const(self.d.itemsize)))
class Rec:
    """structured array of one axis"""
    def __init__(self, n, ty, f): self.n, self.dtype, self.f = n, ty, f
    @property
    def shape(self): return (W(self.n),)
    ndim = 1
    def __plen__(self): return W(self.n)
    def __getitem__(self, k):
        if k in self.f: return self.f[k]
        raise Unsupported("index of a structured array")
    def __setitem__(self, k, v):
        if k not in self.f: raise Unsupported("index of a structured array")
        self.f[k][...] = v
    def astype(self, t, copy=True, order="K"): return self
    def take(self, ind, axis=None): return Rec(ind.shape_[0], self.dtype, {k: x.take(ind, axis=0) for k, x in self.f.items()})
    def frozen(self): return Rec(self.n, self.dtype, {k: frozen(x) for k, x in self.f.items()})

NONZERO = {}
def unravel_facts(us, k, ds, order="C"):
    q = ZERO
    for u, d in (zip(us, ds) if order == "C" else zip(reversed(us), list(reversed(ds)))): q = add(mul(q, d), u)
    return [and_(ge(u, 0), lt(u, d)) for u, d in zip(us, ds)] + [eq(q, k)]

class UFunc:
    """an arbitrary ufunc: only its reduceat is used"""
    def reduceat(self, a, ind, axis=0, dtype=None, out=None):
        a, ind = frozen(a), frozen(asarr(ind))
        if axis != 0: raise Unsupported("reduceat axis")
        k = len(P.CTX.events)
        event("reduceat", a, ind)
        r = N.new(ind.shape_[:1] + a.shape_[1:], a.dtype, lambda i: app("reduced:%d" % k, list(i), "I" if a.dtype.kind in "iu" else "R"), "reduceat")
        if out is not None: out[...] = r; return out
        return r

def sum_(x, axis=None, dtype=None, out=None, keepdims=False):
    if isinstance(x, P.MaskSel):
        m, a = x.mask, x.a
        return N.red("sum")(N.new(a.shape_, a.dtype, lambda i: ite(P.truth(m.at(i)), P.num_of(a.at(i)), ZERO)), axis)
    return N.red("sum")(x, axis)

def domain_numpy():
    def dtype(x):
        if isinstance(x, tuple):
            d, s = x
            if isinstance(d, RecType):
                if len(s): raise Unsupported("dtype")
                return d
            return SubType(np.dtype(d), s)
        if isinstance(x, list): return RecType([(np.dtype(c[1][0]), tuple(c[1][1])) for c in x])
        if isinstance(x, (RecType, SubType)): return x
        return np.dtype(N.dtype_(x))
    def mk_(f):
        def g(n, dtype="f8", order="C"):
            if isinstance(dtype, SubType): return f(tuple(N.dims(n)) + tuple(T_(x) for x in dtype.s), dtype.d)
            if isinstance(dtype, RecType):
                n, = N.dims(n)
                return Rec(n, dtype, {k: f((n,) + tuple(T_(x) for x in s), d) for k, (d, s) in zip(dtype.names, dtype.cols)})
            return f(N.dims(n), dtype)
        return g
    def asarray(x, dtype=None, order=None): return x if isinstance(x, Rec) else N.asarray(x, dtype)
    def array(x, dtype=None, copy=True, order=None):
        if isinstance(x, P.SymRange):
            if x.step is not ONE: raise Unsupported("range")
            return N.new((sub(x.hi, x.lo),), dtype or "i8", lambda i: add(x.lo, i[0]), "range")
        if isinstance(x, range): x = list(x)
        return N.array(x, dtype, copy)
    def ndindex(*s):
        s = [T_(x) for x in s]
        if all(isnum(x) for x in s): return [tuple(k) for k in itertools.product(*[range(int(num(x))) for x in s])]
        return P.SymNd(s)
    def unravel_index(k, shape, order="C"):
        """contract: digits u_d < n_d with k = (u_0 n_1 + u_1) n_2 + u_2 (order C)"""
        ds = N.dims(shape); k = T_(k)
        if order not in ("C", "F"): raise Unsupported("order")
        if P.CTX.decide(and_(ge(k, 0), lt(k, prod(ds)))) is not True: raise P.Oblig("unravel_index: index within the grid")
        us = [app("unravel%s:%d:%s" % (order, d, ",".join(str(x.id) for x in ds)), [k], "I") for d in range(len(ds))]
        for f in unravel_facts(us, k, ds, order): P.CTX.fact(f)
        return tuple(W(u) for u in us)
    def where(c, *ab):
        if ab: return N.where(c, *ab)
        return nonzero(c)
    def nonzero(c):
        """contract: the indices where c holds, ascending, each once"""
        if c.ndim != 1: raise Unsupported("nonzero of several axes")
        c = frozen(c); ctx = P.CTX
        ctx.nfresh += 1
        nm = "nonzero:%d" % ctx.nfresh
        n = app(nm + ":len", [], "I")
        ctx.fact(and_(ge(n, 0), le(n, c.shape_[0])))
        def base(i):
            t = app(nm, list(i), "I")
            ctx_ = P.CTX
            ctx_.fact(implies(and_(le(0, i[0]), lt(i[0], n)), and_(le(0, t), lt(t, c.shape_[0]), P.truth(c.at((t,))))))
            return t
        r = N.new((n,), "i8", base, "nonzero")
        r.attrs = dict(nonzero_of=c, nm=nm, n=n)
        NONZERO[nm] = (c, n)
        return (r,)
    return N.make(dtype=dtype, empty=mk_(P.uninit), zeros=mk_(lambda s, d: P.full(s, 0, d)), asarray=asarray, array=array, ndindex=ndindex, unravel_index=unravel_index, where=where, nonzero=nonzero, ufunc=UFunc, sum=sum_)

class DT:
    def __init__(self, n): self.n = n
    def Commit(self): return self
    def Free(self): pass

def load(extra=None):
    np_ = domain_numpy()
    m = N.mods(np_)
    class BYTE:
        @staticmethod
        def Create_contiguous(n): return DT(n)
    m["mpi4py"] = P.Mod("mpi4py", dict(MPI=P.Mod("MPI", dict(SUM="SUM", COMM_WORLD=None, BYTE=BYTE))))
    m["heapq"] = P.Mod("heapq", {})
    m["._domain"] = P.Mod("_domain", dict(gridnd_fill=lambda *a: None))
    g = P.load(text("domain.py"), "domain", m)
    g.update(extra or {})
    return g

def E(j, k): return app("E%d" % j, [k], "R")
def grid(g, nd, periodic, comm):
    """a GridND object as its constructor leaves it (constructor: see init_contract)"""
    o = object.__new__(g["GridND"])
    ns = [I("n%d" % j) for j in range(nd)]
    for j in range(nd):
        P.CTX.assume(ge(ns[j], 1)); P.CTX.assume(lt(ZERO, E(j, ns[j])))
        if periodic: P.CTX.assume(eq(E(j, ZERO), 0))
    o.ndim, o.periodic, o.comm = nd, periodic, comm
    o.shape = asarr([W(n) for n in ns], "i4")
    o.size = W(prod(ns))
    o.edges = [symarr("E%d" % j, [add(ns[j], 1)], "f8") for j in range(nd)]
    o.DomainAssign = symarr("DA", [prod(ns)], "i4")
    o.DomainDegenerate = symarr("deg", [prod(ns)], "i2")
    return o

def tfun(nd):
    """an arbitrary function of the position of one particle"""
    def f(x):
        x = frozen(N.asarray(x))
        row = lambda i: [x.at((i, const(c))) for c in range(int(tm.num(x.shape_[1])))]
        return N.new((x.shape_[0], const(nd)), "f8", lambda i: pick([app("F%d" % d, row(i[0]), "R") for d in range(nd)], i[1]), "transformed")
    return f
def pick(xs, k):
    if isnum(k): return xs[int(num(k))]
    r = xs[-1]
    for d in range(len(xs) - 2, -1, -1): r = ite(eq(k, d), xs[d], r)
    return r

def dig_facts(terms, j, n, ks):
    """postcondition of numpy.digitize on ascending edges: d = number of edges <= x; instances at the edges ks"""
    out = []; seen = set()
    names = {v: k for k, v in N.DIG.items()}
    for t in terms:
        for s in subterms(t):
            if s.op == "app" and s.args[0] in names and s not in seen:
                seen.add(s)
                b, m = names[s.args[0]]
                if b is not E(j, var("?", "I")) or m is not add(n, 1): continue
                x = s.args[1]
                out += [ge(s, 0), le(s, m)]
                for k in ks: out += [implies(lt(k, s), le(E(j, k), x)), implies(le(s, k), lt(x, E(j, k)))]
                for o in list(seen):
                    if o.args[0] == s.args[0] and o is not s: out += [implies(le(o.args[1], x), le(o, s)), implies(le(x, o.args[1]), le(s, o))]
    return out

def decompose_contract(obs, rp, tier):
    for nd, per, cols, tr, smk in [(n, p, n + x, t, s) for n in (1, 2, 3) for p in (True, False) for x, t, s in ((0, False, "array"), (1, True, "scalar"))]:
        name = "decompose: %d axes, %s, %s columns, %s, smoothing %s" % (nd, "periodic" if per else "open", cols, "transformed" if tr else "not transformed", smk)
        def f(nd=nd, per=per, cols=cols, tr=tr, smk=smk):
            fills = []
            def fill(mode, counts, shape, sil, sir, periodic, deg, assign):
                event("fill", mode, counts, frozen(counts), frozen(asarr(shape)), frozen(sil), frozen(sir), periodic, deg, assign)
                if mode == 0: counts[...] = symarr("counts", counts.shape_, counts.dtype)
                return symarr("listed", [I("ncopies")], "i4") if mode == 1 else None
            class Layout:
                def __init__(self, comm=None, sendlength=None, sendcounts=None, indices=None, recvcounts=None):
                    self.a = (comm, sendlength, sendcounts, indices, recvcounts)
                    event("Layout", sendlength, frozen(sendcounts), frozen(indices))
            g = load()
            g["Layout"] = Layout
            g["GridND"]._fill = staticmethod(fill)
            comm = Comm()
            o = grid(g, nd, per, comm)
            P.CTX.assume(ge(I("N"), 0)); P.CTX.assume(lt(I("N"), 1 << 31))
            pos = symarr("pos", [I("N"), const(cols)], "f8", writeable=False)
            sm = symarr("sm", [const(nd)], "f8", writeable=False) if smk == "array" else W(R("sm"))
            ev0 = len(P.CTX.events)
            r = o.decompose(pos, smoothing=sm, transform=tfun(nd) if tr else None)
            return r, o, pos, sm, P.CTX.events[ev0:]
        def post(p, prove, say, nd=nd, per=per, cols=cols, tr=tr, smk=smk, name=name):
            if p.exc is not None: say("no exception", False, repr(p.exc)); return
            r, o, pos, sm, ev = p.res
            kinds = [e.name for e in ev]
            empty = kinds == ["Layout"]
            say("counted, listed, then one layout", empty or (kinds == ["fill", "fill", "Layout"] and all(not e.binders for e in ev) and [e.args[0] for e in ev[:2]] == [0, 1]), kinds)
            L = ev[-1]
            say("the layout that is returned", r is not None and r.a[0] is o.comm and r.a[4] is None, r)
            prove("number of particles of the layout", [], eq(T_(L.args[0]), I("N")))
            q = I("q*")
            sc = L.args[1]
            prove("one count per rank", [], eq(sc.shape_[0], o.comm.size_))
            if empty:
                prove("nothing is sent only when there is nothing", [], eq(I("N"), 0))
                prove("no copies", [ge(q, 0), lt(q, o.comm.size_)], and_(eq(sc.at((q,)), 0), eq(L.args[2].shape_[0], 0)))
                return
            prove("counts of gridnd_fill", [ge(q, 0), lt(q, o.comm.size_)], eq(sc.at((q,)), app("counts", [q], "I")))
            prove("copies listed by gridnd_fill", [ge(q, 0), lt(q, I("ncopies"))], and_(eq(L.args[2].shape_[0], I("ncopies")), eq(L.args[2].at((q,)), app("listed", [q], "I"))))
            e0, e1 = ev[0].args, ev[1].args
            say("the counts are those handed to the listing", e0[1] is e1[1], "")
            prove("counts are zero before counting", [ge(q, 0), lt(q, o.comm.size_)], and_(eq(e0[2].at((q,)), 0), eq(e0[2].shape_[0], o.comm.size_)))
            prove("listing gets the counts", [ge(q, 0), lt(q, o.comm.size_)], eq(e1[2].at((q,)), app("counts", [q], "I")))
            for e in (e0, e1): say("grid handed over unchanged", e[6] is per and e[7] is o.DomainDegenerate and e[8] is o.DomainAssign, e[6:])
            i = I("i*")
            for e, w in ((e0, "counting"), (e1, "listing")):
                prove("%s: shape of the grid" % w, [], and_(*[eq(e[3].at((const(j),)), I("n%d" % j)) for j in range(nd)], eq(e[3].shape_[0], nd)))
                prove("%s: box of each particle" % w, [], and_(eq(e[4].shape_[0], nd), eq(e[4].shape_[1], I("N")), eq(e[5].shape_[0], nd), eq(e[5].shape_[1], I("N"))))
            pc = list(p.pc) + [ge(i, 0), lt(i, I("N"))]
            P.CTX.pc = list(pc)
            for j in range(nd):
                x = app("F%d" % j, [app("pos", [i, const(c)], "R") for c in range(cols)], "R") if tr else app("pos", [i, const(j)], "R")
                s = app("sm", [const(j)], "R") if smk == "array" else R("sm")
                for e, w in ((e0, "counting"), (e1, "listing")):
                    axis_contract(obs, name + ", axis %d, %s" % (j, w), e[4].at((const(j), i)), e[5].at((const(j), i)), x, s, j, I("n%d" % j), per, pc, rp)
        call_paths(obs, name, f, post, rp)
    obs.functions |= {"domain.GridND.decompose"}

def axis_contract(obs, name, l, r, x, s, j, n, per, pc, rp):
    """[l, r) are the (unwrapped) domains that the interval [x - s, x + s] meets"""
    k = I("k*")
    pc = pc + [ge(s, 0)]
    mono = lambda a, b: implies(le(a, b), le(E(j, a), E(j, b)))
    ks = [k, add(k, 1), ZERO, n]
    edge = [eq(E(j, ZERO), 0)] if per else []
    edge += [mono(a, b) for a in ks for b in ks if a is not b]
    base = [ge(n, 1), ge(k, 0), lt(k, n)] + edge
    if not per:
        hy = base + dig_facts([l, r], j, n, ks) + [c for c in pc]
        touch = and_(le(E(j, k), add(x, s)), lt(sub(x, s), E(j, add(k, 1))))
        lin(obs, name + ": box covers exactly the domains touched", hy, eqv(and_(le(l, k), lt(k, r)), touch), rp)
        lin(obs, name + ": box within the grid", hy, and_(ge(l, 0), le(l, r), le(r, n)), rp)
        return
    B = E(j, n)
    m = I("m*")
    l, r = expand_mod(l), expand_mod(r)
    key = N.DIG.setdefault((E(j, var("?", "I")), add(n, 1)), "digitize:%d" % len(N.DIG))
    D = lambda t: app(key, [t], "I")
    fl = lambda t: floor(div(t, B))
    f0, f1, f2 = fl(x), fl(sub(x, s)), fl(add(x, s))
    y1, y2 = sub(sub(x, s), mul(B, f1)), sub(add(x, s), mul(B, f2))
    Ls, Rs = add(D(y1), -1, mul(n, sub(f1, f0))), add(D(y2), mul(n, sub(f2, f0)))
    # the contract in terms of domains: T = k + n (m - f0) with the image m of domain k
    ts = [l, r, Ls, Rs]
    facts = floor_facts(ts, B) + dig_facts(ts, j, n, ks) + [gt(B, 0)]
    T = add(k, mul(n, sub(m, f0)))
    def prodcase(q): return [implies(ge(q, 1), and_(ge(mul(n, q), n), ge(mul(B, q), B))), implies(le(q, -1), and_(le(mul(n, q), neg(n)), le(mul(B, q), neg(B)))), implies(eq(q, 0), and_(eq(mul(n, q), 0), eq(mul(B, q), 0)))]
    q = I("q-")
    # f1 = m - q
    for what, ff, side in (("left", f1, 0), ("right", f2, 1)):
        env = {ff: sub(m, q)}
        cs = [subst(h, env) for h in base + facts]
        if side == 0: goal = eqv(le(Ls, T), lt(sub(x, s), add(E(j, add(k, 1)), mul(B, m))))
        else: goal = eqv(lt(T, Rs), le(add(E(j, k), mul(B, m)), add(x, s)))
        lin(obs, name + ": %s end of the range of images (arithmetic)" % what, cs + prodcase(q), subst(goal, env), rp)
    # all domains are met when the range is as long as the period: image m = f0 - g
    gq = floor(div(sub(k, Ls), n))
    lin(obs, name + ": a range of full length holds an image of each domain (arithmetic)", base + [le(mul(n, gq), sub(k, Ls)), lt(sub(k, Ls), add(mul(n, gq), n)), ge(sub(Rs, Ls), n)],
        and_(le(Ls, sub(k, mul(n, gq))), lt(sub(k, mul(n, gq)), Rs)), rp)
    lin(obs, name + ": range of domains", base + facts + pc_expanded(pc), or_(and_(eq(l, Ls), eq(r, Rs)), and_(ge(sub(Rs, Ls), n), ge(sub(r, l), n))), rp)
    # f1 <= f2 <= ... : the box is not empty or negative, and fits the 16-bit arrays
    d1, d2 = I("d1-"), I("d2-")
    env = {f1: sub(f0, d1), f2: add(f0, d2)}
    cs = [subst(h, env) for h in base + facts + pc_expanded(pc)] + prodcase(d1) + prodcase(d2) + prodcase(add(d1, d2)) + [implies(ge(d1, 2), and_(ge(mul(n, d1), mul(2, n)), ge(mul(B, d1), mul(2, B)))), implies(ge(d2, 2), and_(ge(mul(n, d2), mul(2, n)), ge(mul(B, d2), mul(2, B))))]
    l2, r2 = subst(l, env), subst(r, env)
    lin(obs, name + ": box not negative", cs, le(l2, r2), rp)
    lin(obs, name + ": indices stay within twice the grid", cs, and_(ge(l2, mul(-1, n)), le(r2, mul(2, n))), rp)

def pc_expanded(pc): return [expand_mod(c) for c in pc]
def eqv(a, b): return or_(and_(a, b), and_(not_(a), not_(b)))

def prove(prop, tier="quick"):
    rp = search("*")
    obs = Obs("domain: ")
    if prop in ("C01", "C04"): decompose_contract(obs, rp, tier)
    return obs

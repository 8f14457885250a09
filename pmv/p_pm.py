"""Contracts of pm.py: coordinates and slabs (C14), change of resolution (C15), Hermitian bookkeeping (C16), adjoints (C17),
distributed painting (C18), uniform grid (C19), collective calls (C20), plan cache and derived meshes (C21)."""
import itertools, numbers, os, re, time, multiprocessing
import numpy as np
from . import psym as P
from . import npshim as N
from . import term as tm
from .psym import SArr, Sym, W, T_, event, symarr, asarr, frozen, canon, quant_facts
from .term import *
from .solve import Obs, check, entails, search
from .p_wrap import text
from . import p_wrap, p_lay
from .p_dom import I, R, pick, eqv, lin, Gathered

TASKS = []
TIER = ["quick"]
def call_paths(obs, name, f, post, rp): TASKS.append((name, f, post, rp))
def _task(k):
    o = Obs("pm: ")
    t0 = time.time()
    if TASKS[k][2] == "same": p_lay.same_calls(o, TASKS[k][0], TASKS[k][1], TASKS[k][3])
    else: p_wrap.call_paths(o, *TASKS[k])
    return k, o.obs, sorted(o.assumptions), sorted(o.functions), time.time() - t0
def run_tasks(obs):
    """every contract is checked in a process of its own"""
    n = int(os.environ.get("PMV_PROCS", 0)) or max(1, min(8, os.cpu_count() or 1))
    if os.environ.get("PMV_ONLY"): TASKS[:] = [t for t in TASKS if re.search(os.environ["PMV_ONLY"], t[0])]
    out = {}
    end = time.time() + (480 if TIER[0] == "quick" else 5400)
    with multiprocessing.get_context("fork").Pool(n, maxtasksperchild=8) as pool:
        it = pool.imap_unordered(_task, range(len(TASKS)), chunksize=1)
        try:
            for _ in TASKS:
                k, o, a, fn, t = it.next(max(0.1, end - time.time())); out[k] = (o, a, fn, t)
        except multiprocessing.TimeoutError: pass
    for k, t in enumerate(TASKS):
        if k not in out: obs.put(t[0], "undecided", "-", 0, "time limit")
    for k in sorted(out):
        o, a, fn, t = out[k]
        obs.obs += o; obs.assumptions |= set(a); obs.functions |= set(fn)
    slow = sorted(((out[k][3], TASKS[k][0]) for k in out), reverse=True)[:4]
    if os.environ.get("PMV_T"): print("slowest:", [(round(t, 1), n) for t, n in slow])
    del TASKS[:]

# ---------------------------------------------------------------- numpy functions of pm.py
class Flat:
    """flat iterator of an array (C order of its own indices)"""
    def __init__(self, a): self.a = a
    def __plen__(self): return self.a.size
    def __len__(self): raise Unsupported("native len of a flat iterator")
    def __setitem__(self, k, v):
        if k is not Ellipsis: raise Unsupported("index of a flat iterator")
        if isinstance(v, Flat):
            if all(P.dim_eq(x, y) for x, y in zip(v.a.shape_, self.a.shape_)) and v.a.ndim == self.a.ndim: self.a[...] = v.a; return
            raise Unsupported("flat copy between shapes")
        raise Unsupported("flat assignment")
    def __getitem__(self, k): raise Unsupported("index of a flat iterator")
    def __iter__(self): raise Unsupported("native iteration over a flat iterator")

class UF:
    """a numpy ufunc, as __array_ufunc__ sees it"""
    def __init__(self, name, f): self.__name__, self.f = name, f
    def __call__(self, *a, **k):
        for x in a:
            h = getattr(type(x), "__array_ufunc__", None)
            if h is not None and not isinstance(x, (SArr, Sym, np.ndarray)):
                r = h(x, self, "__call__", *a, **k)
                if r is not NotImplemented: return r
        out = k.pop("out", None)
        if k: raise Unsupported("ufunc keywords")
        r = self.f(*a)
        if out is not None:
            out, = out
            out[...] = r; return out
        return r

def stack_(xs, dt):
    """arrays of one shape stacked along a new leading axis"""
    return xs

def pm_numpy():
    def indices(shape, dtype=int):
        sh = N.dims(shape)
        dt = np.dtype("f8") if dtype is None else np.dtype(N.dtype_(dtype))      # numpy allocates empty(dtype=None)
        return N.new((const(len(sh)),) + sh, dt, lambda i: pick(list(i[1:]), i[0]), "indices")
    class _mgrid:
        def __getitem__(self, sl):
            if isinstance(sl, slice): sl = (sl,)
            lo = []; sh = []
            for s in sl:
                if s.step is not None: raise Unsupported("mgrid step")
                a, b = T_(0 if s.start is None else s.start), T_(s.stop)
                n = sub(b, a)
                if P.CTX.decide(ge(n, 0)) is not True: raise Unsupported("mgrid range")
                lo.append(a); sh.append(n)
            return N.new((const(len(sh)),) + tuple(sh), "i8", lambda i: pick([add(a, x) for a, x in zip(lo, i[1:])], i[0]), "mgrid")
    class _r:
        def __getitem__(self, s):
            if not isinstance(s, slice) or s.step is not None: raise Unsupported("r_")
            return N.arange(0 if s.start is None else s.start, s.stop)
    def argsort(x, axis=-1, kind=None):
        if isinstance(x, SArr): return x.argsort()
        # a short sequence of numbers: some permutation that puts it in ascending order
        ts = [T_(v) for v in x]
        perms = list(itertools.permutations(range(len(ts))))
        memo = P.CTX.__dict__.setdefault("argsorts", {})
        key = tuple(t.id for t in ts)
        if key in memo: return np.array(memo[key])
        for k, pm_ in enumerate(perms):
            c = and_(*[le(ts[a], ts[b]) for a, b in zip(pm_, pm_[1:])])
            if k == len(perms) - 1: P.CTX.assume(c)
            elif not P.CTX.branch(and_(c, var("perm:%d" % k, "B"))): continue
            memo[key] = pm_
            return np.array(pm_)
    def bit(op):
        f = lambda a, b: P.arith(op, asarr(a), asarr(b)) if isinstance(a, SArr) or isinstance(b, SArr) else P.scal(op, a, b)
        return f
    def conj(x):
        if isinstance(x, SArr): return x.conj()
        return x.conjugate()
    def negative(x):
        if isinstance(x, SArr): return -x
        return -x
    def sum_(x, axis=None, dtype=None): return N.red("sum")(x.__array__() if hasattr(x, "__array__") and not isinstance(x, SArr) else x, axis)
    def array(x, dtype=None, copy=True):
        if hasattr(x, "__array__") and not isinstance(x, (SArr, np.ndarray)) and not P.numeric(x): x = x.__array__()
        return N.array(x, dtype, copy)
    def int64(x):
        if isinstance(x, SArr): return x.astype("i8")
        return P.p_int(x)
    def unique(x):
        vs = [T_(v) for v in (x if not isinstance(x, SArr) else list(x))]
        if not all(isnum(v) for v in vs): raise Unsupported("unique")
        return np.unique([int(num(v)) for v in vs])
    class mgrid_: pass
    def flatnonzero(c):
        P.CTX.nfresh += 1
        nm = "flatnonzero:%d" % P.CTX.nfresh
        c = frozen(c)
        n = app(nm + ":len", [], "I")
        P.CTX.fact(and_(ge(n, 0), le(n, c.shape_[0])))
        # at least one place where c holds -> an element
        return N.new((n,), "i8", lambda i: app(nm, list(i), "I"), "flatnonzero")
    add_, sub_, mul_, div_ = (UF(n, (lambda op: lambda a, b: P.arith(op, asarr(a), asarr(b)) if isinstance(a, SArr) or isinstance(b, SArr) else P.scal(op, a, b))(op)) for n, op in (("add", "add"), ("subtract", "sub"), ("multiply", "mul"), ("true_divide", "truediv")))
    d = dict(indices=indices, mgrid=_mgrid(), r_=_r(), argsort=argsort, bitwise_and=bit("and"), bitwise_or=bit("or"), conj=conj, conjugate=conj, negative=negative, sum=sum_, array=array, int64=int64,
             unique=unique, flatiter=Flat, flatnonzero=flatnonzero, add=add_, subtract=sub_, multiply=mul_, true_divide=div_, complex128=np.complex128)
    return N.make(**d)

# ---------------------------------------------------------------- stand-ins for the other modules (their contracts)
class Storage:
    n = 0
    def __init__(self): Storage.n += 1; self.k = Storage.n; self.views = {}
class LocalBuffer:
    """contract of pfft.LocalBuffer: the same memory seen as the input or the output of a partition"""
    def __init__(self, partition, base=None):
        self.partition = partition
        self.storage = Storage() if base is None else base.storage
    def __contains__(self, o): return o.storage is self.storage
    def _view(self, kind, shape, dt, ns):
        v = self.storage.views.get((kind, self.partition))
        if v is None:
            P.CTX.nfresh += 1
            nm = "memory:%d" % P.CTX.nfresh
            if dt.kind == "c":
                a = N.new(shape, dt, lambda i: app(nm, list(i), "R"), "field")
            else: a = P.symarr(nm, shape, dt)
            a.strides_ = [I("%s:%s.stride%d" % (self.partition.tag, kind, d)) for d in range(len(shape))]
            for s in a.strides_: P.CTX.fact(ge(s, 1))
            v = self.storage.views[(kind, self.partition)] = a
        return v
    def view_input(self):
        p = self.partition
        return self._view("i", p.ishape, p.idtype, p.n)
    def view_output(self):
        p = self.partition
        return self._view("o", p.oshape, p.odtype, p.no)

class Part:
    """contract of pfft.Partition: a block of the mesh per rank; half of the last axis is stored for real transforms"""
    def __init__(self, tag, nd, Nm, dtype, nonempty=False):
        self.tag, self.ndim, self.n = tag, nd, Nm
        self.idtype = np.dtype(dtype)
        self.c2c = self.idtype.kind == "c"
        self.odtype = np.dtype("c%d" % (self.idtype.itemsize * (1 if self.c2c else 2)))
        self.no = [x if (self.c2c or d < nd - 1) else add(floor(div(x, 2)), 1) for d, x in enumerate(Nm)]
        v = lambda s: [I("%s%s%d" % (tag, s, d)) for d in range(nd)]
        self.ist, self.ishape, self.ost, self.oshape = v("is"), v("in"), v("os"), v("on")
        for st, sh, n in ((self.ist, self.ishape, self.n), (self.ost, self.oshape, self.no)):
            for a, b, c in zip(st, sh, n): P.CTX.assume(and_(ge(a, 0), ge(b, 1 if nonempty else 0), le(add(a, b), c)))
        ar = lambda xs: asarr([W(x) for x in xs], "i8")
        self.local_i_start, self.local_i_shape, self.local_o_start, self.local_o_shape = ar(self.ist), ar(self.ishape), ar(self.ost), ar(self.oshape)
        def edges(s, n):
            out = []
            for d in range(nd):
                m = I("%s%sne%d" % (tag, s, d)); P.CTX.assume(ge(m, 1))
                nm = "%s%sedge%d" % (tag, s, d)
                e = symarr(nm, [add(m, 1)], "i8")
                P.CTX.assume(eq(app(nm, [m], "I"), n[d])); P.CTX.assume(eq(app(nm, [ZERO], "I"), 0))
                out.append(e)
            return out
        self.i_edges, self.o_edges = edges("i", self.n), edges("o", self.no)

class Plan:
    """contract of pfft.Plan: execute fills the output and leaves nothing meaningful in other views of that memory, nor (unpadded) in the input; recorded"""
    def __init__(self, name, padded=True): self.name, self.padded = name, padded
    def execute(self, i, o):
        src = i.view_input() if "forward" in self.name else i.view_output()
        event("execute", self.name, i, o, frozen(src))
        k = sum(1 for e in P.CTX.events if e.name == "execute")
        dst = o.view_output() if "forward" in self.name else o.view_input()
        nm = "transform:%d" % k
        if dst.dtype.kind == "c": v = N.new(dst.shape_, dst.dtype, lambda i: app(nm, list(i), "R"), "transform")
        else: v = symarr(nm, dst.shape_, dst.dtype)
        for st in {id(x): x for x in ([o.storage] if self.padded else [i.storage, o.storage])}.values():
            for w in st.views.values():
                if w is not dst:
                    P.CTX.nfresh += 1
                    w[...] = N.new(w.shape_, w.dtype, lambda i, k=P.CTX.nfresh: app("junk:%d" % k, list(i), "R"), "junk")
        dst[...] = v

class Comm:
    """contract of the communicator: every call is recorded in order; results of collectives are unknown but the same on all ranks"""
    def __init__(self, single=None):
        self.size_, self.rank_ = (I("P"), I("rank"))
        if single: self.size_, self.rank_ = ONE, ZERO
        elif single is False: P.CTX.assume(ge(self.size_, 2))
        self.size, self.rank = W(self.size_), W(self.rank_)
        P.CTX.assume(ge(self.size_, 1)); P.CTX.assume(ge(self.rank_, 0)); P.CTX.assume(lt(self.rank_, self.size_))
        self.n = 0
    def Barrier(self): event("Barrier")
    barrier = Barrier
    def allreduce(self, x, op=None):
        self.n += 1; k = self.n
        event("allreduce", frozen(x) if isinstance(x, SArr) else x, op)
        if isinstance(x, SArr) and x.dtype.kind == "c": return N.new(x.shape_, x.dtype, lambda i: app("sum-over-ranks:%d" % k, list(i), "R"), "allreduce")
        return W(app("sum-over-ranks:%d" % k, [], "I" if P.numeric(x) and T_(x).sort == "I" else "R"))
    def Allreduce(self, a, b, op=None):
        self.n += 1; k = self.n
        event("Allreduce", a, frozen(b), op)
        b[...] = N.new(b.shape_, b.dtype, lambda i: app("sum-over-ranks:%d" % k, list(i), "R"), "allreduce")
    def allgather(self, x): self.n += 1; event("allgather", x); return Gathered2(self, x, self.n)
    def __getattr__(self, n):
        if n.startswith("__"): raise AttributeError(n)
        raise Unsupported("communicator method %s" % n)
class Gathered2(Gathered):
    """allgather of flags or numbers"""
    def __pall__(self):
        g = var("all-ranks:%d" % self.k, "B")
        x = P.truth(T_(self.x)) if not isinstance(self.x, (bool, np.bool_)) else (TRUE if self.x else FALSE)
        P.CTX.assume(implies(g, x))
        return bool(W(g))

class Window:
    """contract of a resampling window: paint adds to, readout reads from, the given local mesh (C06-C10)"""
    def __init__(self, name): self.name = name; self.support_ = I("support:%s" % name)
    @property
    def support(self): return W(self.support_)
    def paint(self, real, pos, hsml=None, mass=None, diffdir=None, transform=None):
        event("window.paint", self, real, frz(pos), frz(hsml), frz(mass), diffdir, transform, frozen(real))
        k = sum(1 for e in P.CTX.events if e.name == "window.paint")
        real[...] = symarr("painted:%d" % k, real.shape_, real.dtype)
    def readout(self, real, pos, hsml=None, out=None, diffdir=None, transform=None):
        event("window.readout", self, real, frz(pos), frz(hsml), out, diffdir, transform, frozen(real))
        k = sum(1 for e in P.CTX.events if e.name == "window.readout")
        r = symarr("read:%d" % k, [pos.shape_[0]], real.dtype)
        if out is not None: out[...] = r; return out
        return r
def frz(x): return frozen(x) if isinstance(x, SArr) else x

class Affine:
    """fields of an affine transformation; rescale and shift as in window.py (C10)"""
    def __init__(self, ndim, scale=None, translate=None, period=None):
        self.ndim, self.scale, self.translate, self.period = ndim, scale, translate, period
        f = lambda x: None if x is None else frozen(asarr(x))
        self.s, self.t, self.p = f(scale), f(translate), f(period)
    def rescale(self, amount): return Affine(self.ndim, self.s * amount, self.t, self.p)

class Layout:
    """contract of a layout (C02, C03)"""
    def __init__(self, name="layout"): self.name = name
    def exchange(self, x):
        event("layout.exchange", self, frozen(x))
        k = sum(1 for e in P.CTX.events if e.name == "layout.exchange")
        return symarr("exchanged:%d" % k, (I("%s.received" % self.name),) + x.shape_[1:], x.dtype)
    def gather(self, x, mode="sum", out=None):
        event("layout.gather", self, frozen(x), mode, out)
        k = sum(1 for e in P.CTX.events if e.name == "layout.gather")
        r = symarr("gathered:%d" % k, (I("%s.sent" % self.name),) + x.shape_[1:], x.dtype)
        if out is not None: out[...] = r; return out
        return r

class Weak(dict):
    """WeakValueDictionary whose content is arbitrary: what is looked up is recorded"""
    def __init__(self): self.sets = []; self.gets = []
    def get(self, k, default=None): self.gets.append(k); return CACHE[0](k) if CACHE[0] else default
    def __setitem__(self, k, v): self.sets.append((k, v))
CACHE = [None]
MODS_EXTRA = {}

def load(extra=None):
    np_ = pm_numpy()
    m = N.mods(np_)
    class Mixin:
        pass
    for nm, u in (("add", "add"), ("sub", "subtract"), ("mul", "multiply"), ("truediv", "true_divide")):
        def mk_(uf):
            return (lambda self, o: uf(self, o)), (lambda self, o: uf(o, self)), (lambda self, o: uf(self, o, out=(self,)))
        f, r, i = mk_(getattr(np_, u))
        setattr(Mixin, "__%s__" % nm, f); setattr(Mixin, "__r%s__" % nm, r); setattr(Mixin, "__i%s__" % nm, i)
    m["numpy.lib.mixins"] = P.Mod("numpy.lib.mixins", dict(NDArrayOperatorsMixin=Mixin))
    class Fl: pass
    flags = P.Mod("pfft.Flags", {n: 1 << k for k, n in enumerate(("PFFT_TRANSPOSED_OUT", "PFFT_TRANSPOSED_IN", "PFFT_DESTROY_INPUT", "PFFT_PRESERVE_INPUT", "PFFT_PADDED_R2C", "PFFT_PADDED_C2R", "PFFT_ESTIMATE", "PFFT_MEASURE", "PFFT_EXHAUSTIVE"))})
    ty = P.Mod("pfft.Type", {n: n for n in ("PFFT_R2C", "PFFT_C2R", "PFFT_C2C", "PFFTF_R2C", "PFFTF_C2R", "PFFTF_C2C")})
    m["pfft"] = P.Mod("pfft", dict(LocalBuffer=LocalBuffer, Flags=flags, Type=ty, Direction=P.Mod("pfft.Direction", dict(PFFT_FORWARD="forward", PFFT_BACKWARD="backward"))))
    def mp(name):
        def f(*a, **k): raise Unsupported("mpsort.%s" % name)
        return f
    m["mpsort"] = P.Mod("mpsort", dict(sort=mps_sort, take=mps_take, permute=mps_permute))
    m["mpi4py"] = P.Mod("mpi4py", dict(MPI=P.Mod("MPI", dict(SUM="SUM", IN_PLACE="IN_PLACE", COMM_WORLD=None, _addressof=lambda c: ("address", id(c))))))
    def find(x):
        if isinstance(x, Window): return x
        if isinstance(x, str): return Window("named:" + x)
        raise TypeError("not a resampler")
    m[".window"] = P.Mod(".window", dict(FindResampler=find, Affine=Affine))
    m["."] = P.Mod(".", dict(domain=P.Mod("domain", {})))
    m["weakref"] = P.Mod("weakref", dict(WeakValueDictionary=Weak))
    class NoiseMod: generate = staticmethod(lambda *a: MODS_EXTRA["whitenoise"].generate(*a))
    m[".whitenoise"] = NoiseMod
    m["warnings"] = P.Mod("warnings", dict(warn=lambda *a, **k: None))
    m["numbers"] = P.Mod("numbers", dict(Number=(numbers.Number, Sym)))
    g = P.load(text("pm.py"), "pm", m)
    fm = g["Field"]
    if "_HANDLED_TYPES" in vars(fm): fm._HANDLED_TYPES = tuple(z for y in fm._HANDLED_TYPES for z in (y if isinstance(y, tuple) else (y,)))
    g.update(extra or {})
    return g

# mpsort: contracts. The global source array is the concatenation over the ranks.
def flat_of(x):
    if isinstance(x, Flat): return x
    return Flat(x)
def mps_sort(source, orderby=None, comm=None, out=None):
    event("mpsort.sort", source, orderby, out, frozen(source.a), None if orderby is None else frozen(orderby.a), comm)
    if out is None: raise Unsupported("mpsort.sort without out")
    k = sum(1 for e in P.CTX.events if e.name == "mpsort.sort")
    a = out.a
    a[...] = N.new(a.shape_, a.dtype, lambda i: app("sorted:%d" % k, list(i), "R"), "sorted") if a.dtype.kind == "c" else symarr("sorted:%d" % k, a.shape_, a.dtype)
    return out
def mps_take(source, argindex, comm=None, out=None):
    """result[j] = (source of all ranks)[argindex[j]]"""
    event("mpsort.take", source, argindex, out, comm)
    k = sum(1 for e in P.CTX.events if e.name == "mpsort.take")
    if not isinstance(argindex, P.MaskSel) or out is not None: raise Unsupported("mpsort.take")
    G = "taken:%d" % k
    a = argindex.a
    m = P.MaskSel.__new__(P.MaskSel)
    cx = source.a.dtype.kind == "c"
    m.a = frozen(N.new(a.shape_, source.a.dtype, (lambda i: app(G, [a.at(i[:-1]), i[-1]], "R")) if cx else (lambda i: app(G, [a.at(i)], "R")), "taken"))
    m.mask, m.mask0, m.dtype, m.src, m.key = argindex.mask, argindex.mask0, source.a.dtype, None, argindex.key
    return m
def mps_permute(source, argindex, comm=None, out=None):
    event("mpsort.permute", source, argindex, out, frozen(source.a), frozen(argindex.a), comm)
    if out is None: raise Unsupported("mpsort.permute without out")
    k = sum(1 for e in P.CTX.events if e.name == "mpsort.permute")
    a = out.a
    a[...] = N.new(a.shape_, a.dtype, lambda i: app("permuted:%d" % k, list(i), "R"), "permuted") if a.dtype.kind == "c" else symarr("permuted:%d" % k, a.shape_, a.dtype)

# ---------------------------------------------------------------- meshes and fields
def mesh(g, nd, comm, dtype="f8", tag="", cls=None, nonempty=False, padded=True):
    """a ParticleMesh as its constructor leaves it (constructor: new_contract)"""
    pm = object.__new__(g["ParticleMesh"])
    Ns = [I("%sN%d" % (tag, d)) for d in range(nd)]; Ls = [R("%sL%d" % (tag, d)) for d in range(nd)]
    for a, b in zip(Ns, Ls): P.CTX.assume(ge(a, 1)); P.CTX.assume(gt(b, 0))
    pm.comm, pm.ndim = comm, nd
    pm.Nmesh = asarr([W(x) for x in Ns], "i8"); pm.BoxSize = asarr([W(x) for x in Ls], "f8")
    pm.dtype = np.dtype(dtype)
    T, U = Part(tag + "T", nd, Ns, dtype, nonempty), Part(tag + "U", nd, Ns, dtype, nonempty)
    pm.plans = dict(partitionT=T, partitionU=U)
    for k in ("forwardT", "backwardT", "ipforwardT", "ipbackwardT", "forwardU", "backwardU", "ipforwardU", "ipbackwardU"): pm.plans[k] = Plan(k, padded)
    pm._use_padded = padded
    pm._coords = {}
    pm.np = ["np%d" % d for d in range(nd - 1)]
    pm.resampler = Window(tag + "default")
    sc = lambda xs, dt: asarr([W(x) for x in xs], dt)
    pm.affine = Affine(nd, translate=-T.local_i_start, scale=1.0 * pm.Nmesh / pm.BoxSize, period=pm.Nmesh)
    pm.affine_grid = Affine(nd, translate=-T.local_i_start, scale=1.0, period=pm.Nmesh)
    pm.domain = None; pm.procmesh = None; pm.template = None
    return pm

def by_contract(g, pm, tag=""):
    """create_coords replaced by its contract (C14): arrays that broadcast, of the coordinate or the index of each cell"""
    kinds = {g["RealField"]: "R", g["TransposedComplexField"]: "T", g["UntransposedComplexField"]: "U"}
    def create_coords(ft, return_indices=False):
        kind = kinds[g["_typestr_to_type"](ft)]
        st, sh = starts(partition_of(pm, kind), kind)
        nd = len(st); out = []
        for d in range(nd):
            shape = tuple(sh[d] if e == d else ONE for e in range(nd))
            if return_indices: out.append(N.new(shape, "i8", lambda i, d=d: add(st[d], i[d]), "index"))
            else:
                nm = "%scoord:%s:%d" % (tag, "R" if kind == "R" else "C", d)
                if pm.dtype.kind == "c": out.append(P.newc(shape, pm.dtype, lambda i, nm=nm, d=d: app(nm, [add(st[d], i[d])], "R"), lambda i: ZERO))
                else: out.append(N.new(shape, pm.dtype, lambda i, nm=nm, d=d: app(nm, [add(st[d], i[d])], "R"), "coordinate"))
        return out
    pm.create_coords = create_coords
    return pm
def coordof(kind, d, i, tag=""): return app("%scoord:%s:%d" % (tag, "R" if kind == "R" else "C", d), [i], "R")

def field(g, pm, kind, real=False):
    cls = {"T": "TransposedComplexField", "U": "UntransposedComplexField", "R": "RealField"}[kind]
    return g[cls](pm)

Flat_ = Flat
def _flat(self): return Flat(self)
SArr.flat = property(_flat)

def signed(i, n): return ite(ge(i, floor(div(add(n, 1), 2))), sub(i, n), i)
def modelt(s, n): return or_(eq(s, ZERO))

# ---------------------------------------------------------------- C14: coordinates
def coords_contract(obs, rp):
    for fn, pre in (("_init_i_coords", "i"), ("_init_o_coords", "o")):
        for nd, dt in [(n, d) for n in (1, 2, 3) for d in ("f8", "f4", "c16")]:
            name = "%s: %d axes, %s" % (fn, nd, dt)
            def f(fn=fn, nd=nd, dt=dt):
                g = load(); pm = mesh(g, nd, Comm(), dt)
                p = pm.plans["partitionT"]
                ev0 = len(P.CTX.events)
                return g[fn](p, pm.Nmesh, pm.BoxSize, pm.dtype), p, P.CTX.events[ev0:]
            def post(p, prove, say, nd=nd, pre=pre, dt=dt):
                if p.exc is not None: say("no exception", False, repr(p.exc)); return
                (x, ind), q, ev = p.res
                say("no communication", not ev, ev)
                st, sh = (q.ist, q.ishape) if pre == "i" else (q.ost, q.oshape)
                say("one array per axis", len(x) == nd and len(ind) == nd, (len(x), len(ind)))
                say("types", all(a.dtype.kind == "i" for a in ind) and all(a.dtype == np.dtype(dt) for a in x), [a.dtype for a in list(x) + list(ind)])
                for d in range(nd):
                    j = I("j*"); hj = [ge(j, 0), lt(j, sh[d])]
                    at = tuple(j if e == d else ZERO for e in range(nd))
                    for what, a in (("coordinates", x[d]), ("indices", ind[d])):
                        prove("%s of axis %d broadcast along the others" % (what, d), [], and_(const(a.ndim == nd), *[eq(a.shape_[e], sh[d] if e == d else ONE) for e in range(nd)]))
                    prove("index of cell j along axis %d" % d, hj, eq(ind[d].at(at), add(st[d], j)))
                    Nd, Ld = I("N%d" % d), R("L%d" % d)
                    s = signed(add(st[d], j), Nd)
                    prove("signed mode number lies in [-N/2, N/2) and is congruent to the index", hj, and_(ge(mul(2, s), neg(Nd)), lt(mul(2, s), Nd), or_(eq(s, add(st[d], j)), eq(s, sub(add(st[d], j), Nd)))))
                    v = P.within(hj, lambda: (x[d].real if dt[0] == "c" else x[d]).at(at))
                    want = div(mul(s, Ld), Nd) if pre == "i" else div(mul(mul(2, var("pi", "R")), s), Ld)
                    prove("%s of cell j along axis %d" % ("position" if pre == "i" else "wavenumber", d), hj, eq(v, want))
                    if dt[0] == "c": prove("coordinates are real, axis %d" % d, hj, eq(P.within(hj, lambda: x[d].imag.at(at)), 0))
            call_paths(obs, name, f, post, rp)
    obs.functions |= {"pm._init_i_coords", "pm._init_o_coords"}

TYPES = {"R": "RealField", "T": "TransposedComplexField", "U": "UntransposedComplexField"}
def partition_of(pm, kind): return pm.plans["partitionU" if kind == "U" else "partitionT"]
def starts(q, kind): return (q.ist, q.ishape) if kind == "R" else (q.ost, q.oshape)
def cell_coord(kind, d, i, tag=""):
    """true coordinate of the cell with absolute index i"""
    Nd, Ld = I("%sN%d" % (tag, d)), R("%sL%d" % (tag, d))
    s = signed(i, Nd)
    return div(mul(s, Ld), Nd) if kind == "R" else div(mul(mul(2, var("pi", "R")), s), Ld)
def rd(a, i, p=None):
    """element of an array, real or a part of a complex one"""
    if a.dtype.kind == "c": a = a.real if p in (None, 0) else a.imag
    return a.at(tuple(i))

def part_at(v, c, k): return (P.part(v, "re") if k == 0 else P.part(v, "im")).at(tuple(c))
def create_contract(obs, rp):
    for nd, kind in itertools.product((1, 2, 3), "RTU"):
        name = "create_coords: %d axes, %s" % (nd, TYPES[kind])
        def f(nd=nd, kind=kind):
            g = load(); pm = mesh(g, nd, Comm())
            for a in pm.create_coords(g[TYPES[kind]]): a[...] = 0
            for a in pm.create_coords(g[TYPES[kind]], return_indices=True): a[...] = 0
            for k2 in "RTU":
                if k2 != kind: pm.create_coords(g[TYPES[k2]])
            ev0 = len(P.CTX.events)
            fld = field(g, pm, kind)
            re_ = g[TYPES[kind]](pm, base=fld._base)
            return pm.create_coords(g[TYPES[kind]]), pm.create_coords(g[TYPES[kind]], return_indices=True), partition_of(pm, kind), P.CTX.events[ev0:], fld, pm, re_
        def post(p, prove, say, nd=nd, kind=kind):
            if p.exc is not None: say("no exception", False, repr(p.exc)); return
            x, ind, q, ev, fld, pm, re_ = p.res
            say("no communication", not ev, ev)
            at_ = lambda n: getattr(fld, n, None)
            say("memory of its own, for the partition of its storage", isinstance(at_("_base"), LocalBuffer) and fld._base.partition is q and fld._partition is q and fld.value.buf is (fld._base.view_input() if kind == "R" else fld._base.view_output()).buf, at_("_base"))
            say("memory handed in is used", re_._base.storage is fld._base.storage and re_.value.buf is fld.value.buf, re_._base)
            say("mesh, box, size and number of axes are those of the mesh object", at_("pm") is pm and at_("BoxSize") is pm.BoxSize and at_("Nmesh") is pm.Nmesh and at_("ndim") == nd, (at_("pm"), at_("ndim")))
            say("data type", at_("dtype") == fld.value.dtype and fld.value.dtype == (q.idtype if kind == "R" else q.odtype), at_("dtype"))
            say("flat iterator", isinstance(at_("flat"), Flat) and fld.flat.a.buf is fld.value.buf, at_("flat"))
            if fld.value.dtype.kind == "c" and kind != "R": say("real and imaginary part and plain view are views", all(getattr(at_(n), "buf", None) is fld.value.buf for n in ("real", "imag", "plain")) and fld.plain.dtype.kind == "f", at_("plain"))
            c_, hc_ = cells(fld.value.shape_)
            if fld.value.dtype.kind == "c" and kind != "R":
                for n, k_ in (("real", 0), ("imag", 1)): prove("%s part" % n, hc_, and_(eq(getattr(fld, n).at(c_), part_at(fld.value, c_, k_)), eq(fld.plain.at(tuple(c_) + (const(k_),)), part_at(fld.value, c_, k_))))
            prove("number of local values", [], eq(T_(fld.size), prod(fld.value.shape_)))
            st, sh = starts(q, kind)
            for d in range(nd):
                j = I("j*"); hj = [ge(j, 0), lt(j, sh[d])]
                at = tuple(j if e == d else ZERO for e in range(nd))
                for what, xs, is_ in (("", x, ind), (" of a field", fld.x, fld.i)):
                    prove("index along axis %d%s" % (d, what), hj, eq(is_[d].at(at), add(st[d], j)))
                    prove("coordinate along axis %d%s" % (d, what), hj, eq(P.within(hj, lambda: rd(xs[d], at)), cell_coord(kind, d, add(st[d], j))))
                prove("local shape, axis %d" % d, [], and_(eq(fld.value.shape_[d], sh[d]), eq(T_(fld.shape[d]), sh[d]), eq(T_(fld.slices[d].start), st[d]), eq(T_(fld.slices[d].stop), add(st[d], sh[d]))))
                prove("start and global shape, axis %d" % d, [], and_(eq(fld.start.at((const(d),)), st[d]), eq(fld.cshape.at((const(d),)), (q.n if kind == "R" else q.no)[d])))
            prove("total number of values", [], eq(T_(fld.csize), prod(q.n if kind == "R" else q.no)))
        call_paths(obs, name, f, post, rp)
    obs.functions |= {"pm.ParticleMesh.create_coords", "pm.Field.__init__", "pm.ParticleMesh._get_partition", "pm._typestr_to_type"}

def whitenoise_contract(obs, rp):
    """ParticleMesh.generate_whitenoise: the block of this rank is generated and nothing but the zero mode is changed afterwards"""
    for nd, kind, un, mean, base in itertools.product((1, 2, 3), "RTU", (False, True, 1), (False, True), (False, True)):
        if base and (un or mean or kind == "R") or un == 1 and un is not True and (nd != 3 or mean): continue
        def f(nd=nd, kind=kind, un=un, mean=mean, base=base):
            g = load(); comm = Comm(); pm = by_contract(g, mesh(g, nd, comm))
            field_contracts(g, "cast")
            def generate(value, start, Nmesh, seed, unitary):
                event("generate", value, frz(start), frz(Nmesh), seed, unitary)
                value[...] = N.new(value.shape_, value.dtype, lambda i: app("noise", list(i), "R"), "noise")
            sys_mod = P.Mod("whitenoise", dict(generate=generate))
            MODS_EXTRA["whitenoise"] = sys_mod
            g2 = g
            kw = {}
            if un: kw["unitary"] = un
            if mean: kw["mean"] = W(R("mean"))
            b = None
            if base: b = field(g, pm, kind); kw["base"] = b._base
            ev0 = len(P.CTX.events)
            seed = W(I("seed"))
            r = pm.generate_whitenoise(seed, type=g[TYPES[kind]], **kw)
            return g, pm, seed, b, P.CTX.events[ev0:], r
        def post(p, prove, say, nd=nd, kind=kind, un=un, mean=mean, base=base):
            if p.exc is not None: say("no exception", False, repr(p.exc)); return
            g, pm, seed, b, ev, r = p.res
            ck = "U" if kind == "R" else kind
            names = [e.name for e in ev]
            say("generated once, then cast", names in (["generate", "cast"], ["generate"]), names)
            if names[:1] != ["generate"]: return
            G = ev[0]; q = partition_of(pm, ck); st, sh = starts(q, ck)
            say("into the local part of a complex field", isinstance(G.args[0], SArr) and all(P.dim_eq(x, y) for x, y in zip(G.args[0].shape_, sh)) and G.args[0].dtype.kind == "c", G.args[0])
            say("with the seed", G.args[3] is seed, G.args[3])
            say("unitary or not", G.args[4] is bool(un), G.args[4])
            for d in range(nd):
                prove("block starts at the local start, axis %d" % d, [], eq(asarr(G.args[1]).at((const(d),)), st[d]))
                prove("of the mesh, axis %d" % d, [], eq(asarr(G.args[2]).at((const(d),)), I("N%d" % d)))
            if base: say("in the memory handed in", G.args[0].buf is b.value.buf, "")
            c, hc = cells(sh)
            if names == ["generate", "cast"]:
                C = ev[1]
                say("cast to the type asked for", C.args[1] is g[TYPES[kind]] and C.args[0].value.buf is G.args[0].buf and r is C.args[4], C)
                have = C.args[3]
            else:
                say("a field of the type asked for", type(r) is g[TYPES[kind]] and r.value.buf is G.args[0].buf, r); have = r.value
            zero = and_(*[eq(coordof("C", d, add(st[d], c[d])), 0) for d in range(nd)])
            for k in (0, 1):
                want = ite(zero, (R("mean") if k == 0 else ZERO) if mean else ZERO, app("noise", list(c) + [const(k)], "R"))
                prove("the noise, with the mean at the zero mode", hc, eq(P.resolve(P.within(hc, lambda: part_at(have, c, k)), list(p.pc) + hc), want))
        call_paths(obs, "generate_whitenoise: %d axes, %s, unitary %s, mean %s%s" % (nd, TYPES[kind], un, "given" if mean else "0", ", base" if base else ""), f, post, rp)
    obs.functions |= {"pm.ParticleMesh.generate_whitenoise"}

def items(it):
    """(number, item function) of a sequence"""
    l = P.listlike(it)
    if isinstance(l, P.SymList): return l.n, l.item
    xs = list(iter(it) if l is None else l)
    return const(len(xs)), lambda k: xs[int(num(k))]

def slabs_contract(obs, rp):
    for nd, kind in itertools.product((1, 2, 3), "RTU"):
        name = "slabs: %d axes, %s" % (nd, TYPES[kind])
        def f(nd=nd, kind=kind):
            g = load(); pm = mesh(g, nd, Comm())
            fld = field(g, pm, kind)
            k = I("k*")
            sl = fld.slabs
            n, item = items(sl); nx, ix = items(sl.x); ni, ii = items(sl.i)
            P.CTX.assume(and_(ge(k, 0), lt(k, n)))
            kk = ZERO if n is ONE else k
            s, xs, is_ = item(kk), ix(kk), ii(kk)
            for v in (xs, is_):
                a, b = getattr(v, "Nmesh", None), getattr(v, "BoxSize", None)
                event("slab attributes", a is not None and all(a.at((const(d),)) is I("N%d" % d) for d in range(nd)) and b is not None and all(b.at((const(d),)) is R("L%d" % d) for d in range(nd)))
            return fld, partition_of(pm, kind), n, nx, ni, s, xs, is_, kk, pm
        def post(p, prove, say, nd=nd, kind=kind):
            if p.exc is not None: say("no exception", False, repr(p.exc)); return
            fld, q, n, nx, ni, s, xs, is_, kk, pm = p.res
            st, sh = starts(q, kind)
            prove("as many coordinate slabs as slabs", [], and_(eq(n, nx), eq(n, ni)))
            pos = tuple(I("p%d*" % d) for d in range(s.ndim))
            hp = [c for v, m in zip(pos, s.shape_) for c in (ge(v, 0), lt(v, m))]
            cell = s.fwd(pos)
            say("mesh and box of the coordinate slabs", [e.args[0] for e in p.events if e.name == "slab attributes"] == [True, True], "")
            say("a slab is a view of the field", s.buf is fld.value.buf, "")
            # the cells of slab k: a relabelling of (k, position): every cell is visited exactly once
            v = ([kk] if n is not ONE else []) + [x for x, m in zip(pos, s.shape_)]
            vs = [x for x in v]
            used = [x for x in cell]
            ok = len(vs) == nd and sorted(x.id for x in vs) == sorted(x.id for x in used)
            say("slab and position name each cell once", ok, (vs, used))
            if not ok: return
            ext = dict(zip(vs, ([n] if n is not ONE else []) + list(s.shape_)))
            prove("slabs cover the local mesh", [], and_(*[eq(ext[c], sh[d]) for d, c in enumerate(cell)]))
            for what, X, Ii in (("slab.x", s.x, s.i), ("slabs.x", xs, is_)):
                for d in range(nd):
                    for w2, a, want in (("coordinate", X[d], cell_coord(kind, d, add(st[d], cell[d]))), ("index", Ii[d], add(st[d], cell[d]))):
                        prove("%s: %s %d broadcasts" % (what, w2, d), [], and_(const(a.ndim == s.ndim), *[or_(eq(x, 1), eq(x, m)) for x, m in zip(a.shape_, s.shape_)]))
                        b = tuple(ite(eq(x, 1), ZERO, y) if x is not ONE else ZERO for x, y in zip(a.shape_, pos))
                        prove("%s: %s %d of the cell" % (what, w2, d), hp, eq(P.within(hp, lambda: rd(a, b)), want))
            prove("mesh and box of the slab", [], and_(*[and_(eq(s.Nmesh.at((const(d),)), I("N%d" % d)), eq(s.BoxSize.at((const(d),)), R("L%d" % d))) for d in range(nd)]))
        call_paths(obs, name, f, post, rp)
    obs.functions |= {"pm.slabiter.__init__", "pm.slabiter.__iter__", "pm.xslabiter.__iter__", "pm.xslab.normp", "pm.Field.slabs"}

def normp_contract(obs, rp):
    for nd, zm, pw in itertools.product((1, 2, 3), (False, True), (1, 2)):
        name = "normp: %d axes, p = %d%s" % (nd, pw, ", zero mode set" if zm else "")
        def f(nd=nd, zm=zm, pw=pw):
            g = load()
            ns = [I("n%d" % d) for d in range(nd)]
            for n in ns: P.CTX.assume(ge(n, 1))
            xs = g["xslab"]([symarr("X%d" % d, [ns[e] if e == d else ONE for e in range(nd)], "f8") for d in range(nd)])
            return (xs.normp(pw, zeromode=W(R("zm"))) if pw == 1 else xs.normp(zeromode=W(R("zm")))) if zm else xs.normp(p=pw)
        def post(p, prove, say, nd=nd, zm=zm, pw=pw):
            if p.exc is not None: say("no exception", False, repr(p.exc)); return
            ns = [I("n%d" % d) for d in range(nd)]; c = tuple(I("c%d*" % d) for d in range(nd)); hc = [x for v, m in zip(c, ns) for x in (ge(v, 0), lt(v, m))]
            X = [app("X%d" % d, [c[d] if e == d else ZERO for e in range(nd)], "R") for d in range(nd)]
            want = add(*[power(absv(x), pw) for x in X])
            if zm: want = ite(eq(want, 0), R("zm"), want)
            prove("shape", [], and_(*[eq(a, b) for a, b in zip(p.res.shape_, ns)]))
            prove("sum of the powers", hc, eq(P.resolve(P.within(hc, lambda: p.res.at(c)), list(P.CTX.pc) + hc), want))
        call_paths(obs, name, f, post, rp)

def anyfunc(k, y):
    """an arbitrary function of the coordinates and the value"""
    ks = [frozen(x) for x in k]
    parts = [frozen(y)] if y.dtype.kind != "c" else [frozen(y.real), frozen(y.imag)]
    sh = P.bshape([x.shape_ for x in ks] + [y.shape_])
    args = lambda i: [(x.real if x.dtype.kind == "c" else x).at(P.bidx(x.shape_, sh, i)) for x in ks] + [x.at(P.bidx(x.shape_, sh, i)) for x in parts]
    if y.dtype.kind == "c": return P.newc(sh, y.dtype, lambda i: app("func:re", args(i), "R"), lambda i: app("func:im", args(i), "R"))
    return N.new(sh, y.dtype, lambda i: app("func:re", args(i), "R"), "func")

def apply_contract(obs, rp):
    for nd, kind in itertools.product((1, 2, 3), "RTU"):
        for ak in (("relative", "index", "absolute") if kind == "R" else ("wavenumber", "circular", "index")):
            for out_ in ("none", "in place", "field", "array"):
                if out_ != "none" and (nd == 2 or kind == "U" or ak not in ("absolute", "wavenumber")) or kind == "U" and nd < 3: continue
                name = "apply: %d axes, %s, kind %s, out %s" % (nd, TYPES[kind], ak, out_)
                def f(nd=nd, kind=kind, ak=ak, out_=out_):
                    g = load(); pm = mesh(g, nd, Comm())
                    fld = field(g, pm, kind)
                    before = frozen(fld.value)
                    out = None if out_ == "none" else Ellipsis if out_ == "in place" else field(g, pm, kind) if out_ == "field" else P.uninit(fld.value.shape_, fld.value.dtype)
                    if isinstance(out, SArr): out.strides_ = None
                    ev0 = len(P.CTX.events)
                    r = fld.apply(anyfunc, kind=ak, out=out)
                    return fld, before, out, r, partition_of(pm, kind), P.CTX.events[ev0:]
                def post(p, prove, say, nd=nd, kind=kind, ak=ak, out_=out_):
                    if p.exc is not None: say("no exception", False, repr(p.exc)); return
                    fld, before, out, r, q, ev = p.res
                    say("no communication", not ev, ev)
                    st, sh = starts(q, kind)
                    say("result", r is (fld if out_ == "in place" else out) if out_ != "none" else type(r) is type(fld) and r.value is not fld.value and r.value.buf is not fld.value.buf, r)
                    res = r if isinstance(r, SArr) else r.value
                    c = tuple(I("c%d*" % d) for d in range(nd)); hc = [x for v, m in zip(c, sh) for x in (ge(v, 0), lt(v, m))]
                    prove("shape of the result", [], and_(*[eq(a, b) for a, b in zip(res.shape_, sh)]))
                    co = []
                    for d in range(nd):
                        i = add(st[d], c[d])
                        t = cell_coord(kind, d, i)
                        if ak == "index": t = i
                        elif ak == "circular": t = div(mul(t, R("L%d" % d)), I("N%d" % d))
                        co.append(t)
                    vals = [rd(before, c, k) for k in range(2 if kind != "R" else 1)]
                    for k in range(len(vals)):
                        t = P.within(hc, lambda: rd(res, c, k))
                        hy = list(P.CTX.pc) + hc
                        for has, w, b, al in P.CTX.wfacts: hy += [implies(subst(al, {b: x}), has) for x in c]
                        t = P.resolve(t, hy)
                        prove("%s of the function at each cell, of its coordinates and value" % ("value" if kind == "R" else ("real part", "imaginary part")[k]), hy, same_app(t, app("func:re" if k == 0 else "func:im", co + vals, "R")))
                    if out_ != "in place":
                        for k in range(len(vals)): prove("the field itself is kept, part %d" % k, hc, eq(P.within(hc, lambda: rd(fld.value, c, k)), vals[k]))
                call_paths(obs, name, f, post, rp)
    obs.functions |= {"pm.Field.apply", "pm.RealField.apply", "pm.BaseComplexField.apply"}

def same_app(t, want):
    """t applies the same function to equal arguments"""
    if t.op == "app" and t.args[0] == want.args[0] and len(t.args) == len(want.args): return and_(*[eq(P.num_of(a), P.num_of(b)) for a, b in zip(t.args[1:], want.args[1:])])
    return eq(t, want)

# ---------------------------------------------------------------- C16: single modes
def meshcase(kind, nd, dt): return "%d axes, %s%s" % (nd, TYPES[kind], "" if dt == "f8" else ", " + dt)
def wrapidx(i, n): return ite(lt(i, ZERO), add(i, n), i)
def cells(sh, tag="c"):
    c = tuple(I("%s%d*" % (tag, d)) for d in range(len(sh)))
    return c, [x for v, m in zip(c, sh) for x in (ge(v, 0), lt(v, m))]

def scalar(x, k):
    """part k of a number"""
    if isinstance(x, SArr):
        if x.dtype.kind == "c": return rd(x, (), k)
        return ZERO if k == 1 else P.num_of(x.at((ZERO,) * x.ndim))
    if isinstance(x, complex): return const(x.imag if k == 1 else x.real)
    return ZERO if k == 1 else P.num_of(P.T_(x))
def mode_contract(obs, rp):
    for nd, kind, dt, ext in [(n, k, d, e) for n in (1, 2, 3) for k in "RTU" for d in ("f8", "c16") for e in (False, True) if not (e and k == "R") and not (d == "c16" and n == 2)]:
        def setup(nd=nd, kind=kind, dt=dt, ext=ext):
            g = load(); pm = by_contract(g, mesh(g, nd, Comm(), dt))
            fld = field(g, pm, kind)
            idx = [I("x%d" % d) for d in range(nd)]
            for x, n in zip(idx, pm.plans["partitionT"].n): P.CTX.assume(and_(ge(x, neg(n)), lt(x, n)))
            index = [W(x) for x in idx]
            if ext:
                index.append(W(I("part"))); P.CTX.assume(and_(ge(I("part"), 0), le(I("part"), 1)))
            cx = fld.value.dtype.kind == "c"
            y = W(R("y0")) if ext or not cx else P.newc((), np.dtype("c16"), lambda i: R("y0"), lambda i: R("y1"))
            if dt == "c16": index = P.asarr(index)        # an array of the caller's; else a list
            return g, pm, fld, index, y
        def kept(index, prove, nd=nd, ext=ext):
            want = [I("x%d" % d) for d in range(nd)] + [I("part")] * ext
            got = [P.T_(x) for x in index] if isinstance(index, list) else [index.at((const(k),)) for k in range(len(want))]
            prove("the index given is kept", [], and_(*[eq(a, b) for a, b in zip(got, want)]))
        def facts(fld, kind, pm, nd):
            q = partition_of(pm, kind); st, sh = starts(q, kind)
            n = q.n
            gl = [wrapidx(I("x%d" % d), n[d]) for d in range(nd)]
            du = [ite(eq(x, ZERO), ZERO, sub(m, x)) for x, m in zip(gl, n)]
            inside = lambda xs: and_(*[and_(ge(x, s), lt(x, add(s, m))) for x, s, m in zip(xs, st, sh)])
            return st, sh, gl, du, inside
        def fget(setup=setup):
            g, pm, fld, index, y = setup()
            before = frozen(fld.value); ev0 = len(P.CTX.events)
            r = fld.cgetitem(index)
            return pm, fld, before, P.CTX.events[ev0:], r, index
        def pget(p, prove, say, nd=nd, kind=kind, ext=ext, kept=kept):
            if p.exc is not None: say("no exception", False, repr(p.exc)); return
            pm, fld, before, ev, r, index = p.res
            kept(index, prove)
            st, sh, gl, du, inside = facts(fld, kind, pm, nd)
            say("one collective sum", [e.name for e in ev] == ["allreduce"] and ev[0].args[1] in (None, "SUM"), ev)
            x = ev[0].args[0]
            cx = fld.value.dtype.kind == "c"
            parts = [None] if not cx or ext else [0, 1]
            lc = tuple(sub(a, b) for a, b in zip(gl, st))
            for k in parts:
                have = scalar(x, k)
                hy = [inside(gl)]
                if ext: val = ite(eq(I("part"), 0), rd(before, lc, 0), rd(before, lc, 1))
                else: val = P.within(hy, lambda: rd(before, lc, k))
                prove("the rank that stores the mode contributes its value%s" % ("" if k is None else ", part %d" % k), hy, eq(P.num_of(have), val))
                prove("other ranks contribute zero%s" % ("" if k is None else ", part %d" % k), [not_(inside(gl))], eq(P.num_of(have), 0))
            c, hc = cells(sh)
            for k in range(2 if cx else 1): prove("the field is kept, part %d" % k, hc, eq(rd(fld.value, c, k), rd(before, c, k)))
        call_paths(obs, "cgetitem: %s%s" % (meshcase(kind, nd, dt), ", one component" if ext else ""), fget, pget, rp)
        def fset(setup=setup):
            g, pm, fld, index, y = setup()
            before = frozen(fld.value); ev0 = len(P.CTX.events)
            r = fld.csetitem(index, y)
            return pm, fld, before, P.CTX.events[ev0:], r, index
        def pset(p, prove, say, nd=nd, kind=kind, ext=ext, kept=kept):
            if p.exc is not None: say("no exception", False, repr(p.exc)); return
            pm, fld, before, ev, r, index = p.res
            kept(index, prove)
            st, sh, gl, du, inside = facts(fld, kind, pm, nd)
            say("one collective sum", [e.name for e in ev] == ["allreduce"] and ev[0].args[1] in (None, "SUM"), ev)
            cx = fld.value.dtype.kind == "c"
            c, hc = cells(sh)
            ab = [add(s, v) for s, v in zip(st, c)]
            is_ = lambda xs: and_(*[eq(a, x) for a, x in zip(ab, xs)])
            hit, dual, selfd = is_(gl), is_(du), and_(*[eq(a, b) for a, b in zip(gl, du)])
            y0, y1, part = R("y0"), R("y1"), I("part")
            def want(k, b):
                if kind == "R": return ite(hit, (y0, y1)[k], b)
                if not ext: return ite(hit, ite(selfd, (y0, ZERO)[k], (y0, y1)[k]), ite(dual, (y0, neg(y1))[k], b))
                v = y0 if k == 0 else ite(selfd, ZERO, y0)
                return ite(eq(part, k), ite(hit, v, ite(dual, v if k == 0 else neg(y0), b)), b)
            for k in range(2 if cx else 1):
                b = P.within(hc, lambda: rd(before, c, k))
                prove("mode, conjugate mode and all other modes, part %d" % k, hc, eq(P.within(hc, lambda: rd(fld.value, c, k)), want(k, b)))
            x = ev[0].args[0]
            for k in ([0] if ext or not cx else [0, 1]):
                have = scalar(x, k)
                set_ = (y0, y1)[k] if kind == "R" else ite(selfd, (y0, ZERO)[k], (y0, y1)[k]) if not ext else ite(and_(selfd, eq(part, 1)), ZERO, y0)
                prove("the rank that stores the mode returns the value set, part %d" % k, [inside(gl)], eq(have, set_))
                prove("other ranks contribute zero, part %d" % k, [not_(inside(gl))], eq(have, 0))
        call_paths(obs, "csetitem: %s%s" % (meshcase(kind, nd, dt), ", one component" if ext else ""), fset, pset, rp)
    obs.functions |= {"pm.Field._ctol", "pm.Field.cgetitem", "pm.Field.csetitem"}

def sum_parts(t):
    """(ranges, body) of a nested sum"""
    rs = []
    while t.op == "app" and t.args[0] == "SUM":
        v, lo, hi, t = t.args[1:]
        rs.append((v, lo, hi))
    return rs, t
def prove_sum(prove, say, what, t, sh, want, memory=None):
    """t is the sum over the cells c of a mesh of shape sh of want(c)"""
    rs, body = sum_parts(t)
    if len(rs) != len(sh): say("%s is a sum over the mesh" % what, False, show(t)[:300]); return
    # which sum runs over which axis: an axis-by-axis relabelling
    if memory is None: order = list(range(len(sh)))
    else:
        use = [s for s in subterms(body) if s.op == "app" and s.args[0] in memory]
        if not use: say("%s uses the field" % what, False, show(t)[:300]); return
        vs = list(use[0].args[1:1 + len(sh)])
        if sorted(v.id for v in vs) != sorted(r[0].id for r in rs): say("%s takes each cell once" % what, False, show(t)[:300]); return
        order = [[r[0] for r in rs].index(v) for v in vs]
    for d, k in enumerate(order): prove("%s: range of axis %d" % (what, d), [], and_(eq(rs[k][1], 0), eq(rs[k][2], sh[d])))
    c, hc = cells(sh)
    b = subst(body, {rs[k][0]: c[d] for d, k in enumerate(order)})
    hy = list(hc)
    for has, w, bb, al in P.CTX.wfacts: hy += [implies(subst(al, {bb: x}), has) for x in c]
    w = want(c, hc)
    prove("%s: the term of a cell" % what, hy, eq(P.resolve(b, list(P.CTX.pc) + hy), P.resolve(w, list(P.CTX.pc) + hy)))

def metric_fn(k): 
    k = frozen(k)
    return N.new(k.shape_, "f8", lambda i: app("metric", [k.at(i)], "R"), "metric")
def kvec(st, c, kind, nd): return [coordof(kind, d, add(st[d], c[d])) for d in range(nd)]
def knorm(ks): return app("sqrt", [add(*[power(k, 2) for k in ks])], "R")

def weight(fld_last_compressed, i, n): return ite(or_(eq(i, 0), eq(mul(2, i), n)), ONE, const(2)) if fld_last_compressed else ONE
def dot_contract(obs, rp):
    for nd, kind, dt, met in [(n, k, d, m) for n in (1, 2, 3) for k in "TU" for d in ("f8", "c16") for m in (False, True)]:
        if dt == "c16" and nd == 2 or kind == "U" and (nd < 3 or met): continue
        for op in ("cnorm", "cdot", "cnorm, given norm"):
            if op == "cnorm, given norm" and (nd != 3 or met): continue
            def f(nd=nd, kind=kind, dt=dt, met=met, op=op):
                g = load(); pm = by_contract(g, mesh(g, nd, Comm(), dt))
                a = field(g, pm, kind); b = field(g, pm, kind) if op == "cdot" else None
                ba, bb = frozen(a.value), None if b is None else frozen(b.value)
                ev0 = len(P.CTX.events)
                kw = dict(metric=metric_fn) if met else {}
                if "given" in op: kw["norm"] = lambda x: N.new(x.shape_, "f8", (lambda y: lambda i: app("norm", [rd(y, i, 0), rd(y, i, 1)], "R"))(frozen(x)))
                r = a.cdot(b, **kw) if op == "cdot" else a.cnorm(**kw)
                return pm, a, b, ba, bb, P.CTX.events[ev0:], r
            def post(p, prove, say, nd=nd, kind=kind, dt=dt, met=met, op=op):
                if p.exc is not None: say("no exception", False, repr(p.exc)); return
                pm, a, b, ba, bb, ev, r = p.res
                q = partition_of(pm, kind); st, sh = starts(q, kind)
                say("one collective sum", [e.name for e in ev] == ["allreduce"] and ev[0].args[1] in (None, "SUM"), ev)
                t = ev[0].args[0]
                def want(k):
                    def w(c, hc):
                        x, y = [P.within(hc, lambda: rd(ba, c, j)) for j in (0, 1)]
                        wt = weight(dt == "f8", add(st[-1], c[-1]), q.n[-1])
                        m = app("metric", [P.resolve(knorm(kvec(st, c, kind, nd)), list(P.CTX.pc) + list(hc))], "R") if met else ONE
                        if op == "cnorm": v = (add(mul(x, x), mul(y, y)), ZERO)[k]
                        elif op != "cdot": v = (app("norm", [x, y], "R"), ZERO)[k]
                        else:
                            u, z = [P.within(hc, lambda: rd(bb, c, j)) for j in (0, 1)]
                            v = (add(mul(x, u), mul(y, z)), sub(mul(y, u), mul(x, z)))[k]
                        return mul(mul(wt, v), m)
                    return w
                for k in (0, 1):
                    tk = scalar(t, k)
                    if k == 1 and tk is ZERO: say("imaginary part of the local sum", op != "cdot", ""); continue
                    prove_sum(prove, say, "local sum, part %d" % k, tk, sh, want(k))
                c, hc = cells(sh)
                for fl, be in ((a, ba), (b, bb)):
                    if fl is None: continue
                    for k in (0, 1): prove("the fields are kept, part %d" % k, hc, eq(rd(fl.value, c, k), rd(be, c, k)))
            call_paths(obs, "%s: %s%s" % (op, meshcase(kind, nd, dt), ", metric" if met else ""), f, post, rp)
    obs.functions |= {"pm.BaseComplexField.cnorm", "pm.BaseComplexField.cdot", "pm.BaseComplexField._expand_hermitian", "pm.Field.compressed"}

def real_contract(obs, rp):
    for nd in (1, 2, 3):
        for op in ("cdot", "cnorm", "csum", "cmean"):
            def f(nd=nd, op=op):
                g = load(); pm = by_contract(g, mesh(g, nd, Comm()))
                a = field(g, pm, "R"); b = field(g, pm, "R")
                ba, bb = frozen(a.value), frozen(b.value)
                ev0 = len(P.CTX.events)
                r = a.cdot(b) if op == "cdot" else getattr(a, op)()
                return pm, a, b, ba, bb, P.CTX.events[ev0:], r
            def post(p, prove, say, nd=nd, op=op):
                if p.exc is not None: say("no exception", False, repr(p.exc)); return
                pm, a, b, ba, bb, ev, r = p.res
                q = partition_of(pm, "R")
                say("one collective sum", [e.name for e in ev] == ["allreduce"] and ev[0].args[1] in (None, "SUM"), ev)
                fn = {ba.at(tuple(I("?%d" % d) for d in range(nd))).args[0]}
                def want(c, hc):
                    x = P.within(hc, lambda: rd(ba, c)); y = P.within(hc, lambda: rd(bb, c))
                    return {"cdot": mul(x, y), "cnorm": mul(x, x)}.get(op, x)
                prove_sum(prove, say, "local sum", P.T_(ev[0].args[0]) if not isinstance(ev[0].args[0], SArr) else ev[0].args[0].at(()), q.ishape, want, fn)
                s = app("sum-over-ranks:%d" % pm.comm.n, [], "R")
                prove("result", [], eq(P.T_(r), div(s, prod(q.n)) if op == "cmean" else s))
            call_paths(obs, "%s: %s" % (op, meshcase("R", nd, "f8")), f, post, rp)
    obs.functions |= {"pm.RealField.cdot", "pm.RealField.cnorm", "pm.RealField.csum", "pm.RealField.cmean"}

def decompress_contract(obs, rp):
    for nd, kind, dt, out_ in [(n, k, d, o) for n in (1, 2, 3) for k in "TU" for d in ("f8", "c16") for o in ("new", "in place", "given")]:
        if dt == "c16" and nd == 2 or kind == "U" and nd < 3 or dt == "c16" and out_ != "new": continue
        def f(nd=nd, kind=kind, dt=dt, out_=out_):
            g = load(); pm = by_contract(g, mesh(g, nd, Comm(), dt))
            v = field(g, pm, kind); be = frozen(v.value)
            out = {"new": None, "in place": Ellipsis, "given": None}[out_]
            if out_ == "given": out = field(g, pm, kind)
            ev0 = len(P.CTX.events)
            r = v.decompress_vjp(out)
            return pm, v, be, out, P.CTX.events[ev0:], r
        def post(p, prove, say, nd=nd, kind=kind, dt=dt, out_=out_):
            if p.exc is not None: say("no exception", False, repr(p.exc)); return
            pm, v, be, out, ev, r = p.res
            q = partition_of(pm, kind); st, sh = starts(q, kind)
            say("no communication", not ev, ev)
            say("result", r is v if out_ == "in place" else r is out if out_ == "given" else r is not v and r.value.buf is not v.value.buf and type(r) is type(v), r)
            c, hc = cells(sh)
            i = [add(s, x) for s, x in zip(st, c)]
            selfc = and_(*[or_(eq(x, 0), eq(mul(2, x), n)) for x, n in zip(i, q.n)])
            for k in (0, 1):
                b = P.within(hc, lambda: rd(be, c, k))
                have = P.resolve(P.within(hc, lambda: rd(r.value, c, k)), list(P.CTX.pc) + hc)
                prove("weight of a mode, part %d" % k, hc, eq(have, ite(selfc, b, mul(2, b))))
                if out_ != "in place": prove("the input is kept, part %d" % k, hc, eq(P.within(hc, lambda: rd(v.value, c, k)), b))
        call_paths(obs, "decompress_vjp: %s, out %s" % (meshcase(kind, nd, dt), out_), f, post, rp)
    obs.functions |= {"pm.BaseComplexField.decompress_vjp"}


# ---------------------------------------------------------------- C15: change of resolution
def src_index(j, Ns, Nd):
    """index in a mesh of size Ns of the signed mode number of index j of a mesh of size Nd, -1 if there is none"""
    return ite(le(mul(2, j), Nd), ite(le(j, floor(div(Ns, 2))), j, const(-1)), ite(le(sub(Nd, j), floor(div(sub(Ns, 1), 2))), add(sub(Ns, Nd), j), const(-1)))
def reindex_contract(obs, rp):
    def f():
        g = load()
        Ns, Nd = I("Ns"), I("Nd")
        for x in (Ns, Nd): P.CTX.assume(ge(x, 1))
        return g["reindex"](W(Ns), W(Nd))
    def post(p, prove, say):
        if p.exc is not None: say("no exception", False, repr(p.exc)); return
        Ns, Nd, j = I("Ns"), I("Nd"), I("j*"); t = p.res
        hj = [ge(j, 0), lt(j, Nd)]
        prove("one entry per destination index", [], and_(const(t.ndim == 1), eq(t.shape_[0], Nd)))
        v = P.within(hj, lambda: t.at((j,)))
        prove("source index with the same signed mode number, or -1", hj, eq(v, src_index(j, Ns, Nd)))
        # what the closed form means
        s = ite(le(mul(2, j), Nd), j, sub(j, Nd))
        prove("the signed mode number is congruent to both indices", hj, or_(eq(v, -1), eq(v, ite(ge(s, 0), s, add(s, Ns)))))
        prove("a mode below both Nyquist frequencies has a source", hj + [lt(mul(2, absv(s)), Ns), lt(mul(2, absv(s)), Nd)], and_(ge(v, 0), lt(v, Ns)))
        prove("a mode the source does not have has none", hj + [gt(mul(2, absv(s)), Ns)], eq(v, -1))
        say("integers", t.dtype.kind == "i", t.dtype)
    call_paths(obs, "reindex", f, post, rp)
    obs.functions.add("pm.reindex")

def build_contract(obs, rp):
    for nd in (1, 2, 3):
        def f(nd=nd):
            g = load()
            n = [I("n%d" % d) for d in range(nd)]; F = [I("F%d" % d) for d in range(nd)]
            for a, b in zip(n, F): P.CTX.assume(ge(a, 0)); P.CTX.assume(ge(b, 1))
            xs = [symarr("ind%d" % d, [n[d]], "i8") for d in range(nd)]
            return g["build_index"](xs, asarr([W(x) for x in F], "i8")), g["build_index"](xs, tuple(W(x) for x in F))
        def post(p, prove, say, nd=nd):
            if p.exc is not None: say("no exception", False, repr(p.exc)); return
            n = [I("n%d" % d) for d in range(nd)]; F = [I("F%d" % d) for d in range(nd)]
            c, hc = cells(n)
            x = [app("ind%d" % d, [c[d]], "I") for d in range(nd)]
            hy = list(hc) + [and_(ge(a, -1), lt(a, b)) for a, b in zip(x, F)]
            for what, r in zip(("", ", shape as a tuple"), p.res):
                say("shape%s" % what, r.ndim == nd and r.dtype.kind == "i", r)
                prove("extent%s" % what, [], and_(*[eq(a, b) for a, b in zip(r.shape_, n)]))
                q = ZERO
                for a, b in zip(x, F): q = add(mul(q, b), a)
                prove("linear index in C order, -1 where any axis has none%s" % what, hy, eq(P.within(hy, lambda: r.at(c)), ite(or_(*[eq(a, -1) for a in x]), const(-1), q)))
        call_paths(obs, "build_index: %d axes" % nd, f, post, rp)
    obs.functions.add("pm.build_index")

def record(g, cls, name, f):
    """a method replaced by its contract"""
    setattr(g[cls], name, f)
def field_contracts(g, *names):
    T = {k: g[v] for k, v in TYPES.items()}
    def havoc(fld, nm):
        v = fld.value
        v[...] = N.new(v.shape_, v.dtype, lambda i: app(nm, list(i), "R"), nm) if v.dtype.kind == "c" else symarr(nm, v.shape_, v.dtype)
    def cast(self, type, out=None):
        type = g["_typestr_to_type"](type)
        o = self.pm.create(type=type) if out is None else self.pm.create(type=type, base=out._base)
        event("cast", self, type, out, frozen(self.value), o)
        havoc(o, "cast:%d" % len(P.CTX.events))
        return o
    def ravel(self, out=None):
        event("ravel", self, out, frozen(self.value))
        out[...] = N.new(out.shape_, out.dtype, lambda i, k=len(P.CTX.events): app("ravel:%d" % k, list(i), "R"), "ravel")
        return out.flat
    def c2r(self, out=None):
        o = T["R"](self.pm) if out is None else T["R"](self.pm, self._base) if out is Ellipsis or out is self else out
        event("c2r", self, o, frozen(self.value))
        havoc(o, "c2r:%d" % len(P.CTX.events)); return o
    def r2c(self, out=None):
        o = T["T"](self.pm) if out is None else T["T"](self.pm, base=self._base) if out is Ellipsis or out is self else out
        event("r2c", self, o, frozen(self.value))
        havoc(o, "r2c:%d" % len(P.CTX.events)); return o
    for n in names: setattr(g[{"cast": "Field", "ravel": "Field", "c2r": "BaseComplexField", "r2c": "RealField"}[n]], n, locals()[n])
def reindex_(Ns, Nd):
    Ns, Nd = T_(Ns), T_(Nd)
    return N.new((Nd,), "i8", lambda i: src_index(i[0], Ns, Nd), "reindex")
def build_index_(indices, fullshape):
    sh = tuple(x.shape_[0] for x in indices); xs = [frozen(x) for x in indices]; F = N.dims(fullshape)
    def elt(i):
        v = [x.at((y,)) for x, y in zip(xs, i)]; q = ZERO
        for a, b in zip(v, F): q = add(mul(q, b), a)
        return ite(or_(*[eq(a, -1) for a in v]), const(-1), q)
    return N.new(sh, "i8", elt, "build_index")

def resample_contract(obs, rp):
    for nd, src, dst, dt in [(n, s, d, t) for n in (1, 2, 3) for s, d, t in (("T", "T", "f8"), ("R", "R", "f8"), ("U", "U", "f8"), ("T", "T", "c16"), ("R", "T", "f8"))]:
        if nd == 2 and (src, dst, dt) not in (("T", "T", "f8"),): continue
        def f(nd=nd, src=src, dst=dst, dt=dt):
            g = load(dict(reindex=reindex_, build_index=build_index_))
            comm = Comm()
            pa = by_contract(g, mesh(g, nd, comm, dt, "a"), "a"); pb = by_contract(g, mesh(g, nd, comm, dt, "b"), "b")
            field_contracts(g, "cast", "ravel", "c2r")
            a, b = field(g, pa, src), field(g, pb, dst)
            be = frozen(a.value)
            ev0 = len(P.CTX.events)
            r = a.resample(b)
            return g, pa, pb, a, b, be, P.CTX.events[ev0:], r
        def post(p, prove, say, nd=nd, src=src, dst=dst, dt=dt):
            if p.exc is not None: say("no exception", False, repr(p.exc)); return
            g, pa, pb, a, b, be, ev, r = p.res
            say("the result is the given field", r is b, r)
            TT = g["TransposedComplexField"]
            names = [e.name for e in ev]
            # with equal meshes the field is first cast into the output, which is then overwritten
            while names[:1] == ["cast"] and ev[0].args[2] is b: ev = ev[1:]; names = names[1:]
            tail = {"R": (["c2r"], ["cast"]), "U": (["cast"],), "T": ([], ["cast"])}[dst]
            core, rest = names[:3], names[3:]
            say("the modes are taken from the C order of the source in transposed layout", core == ["cast", "ravel", "mpsort.take"] and ev[0].args[0] is a and ev[0].args[1] is TT and ev[0].args[2] is None and ev[1].args[0] is ev[0].args[4] and ev[2].args[0].a.buf is ev[1].args[1].buf, names)
            say("and turned into the kind of the output", rest in tail, names)
            if core != ["cast", "ravel", "mpsort.take"] or rest not in tail: return
            say("among the ranks of the mesh", ev[2].args[3] is pa.comm, ev[2].args[3])
            qa, qb = pa.plans["partitionT"], pb.plans["partitionT"]
            out = b._base.storage.views.get(("o", qb))
            if out is None: say("the modes are written to the output", False, ""); return
            if rest:
                e = ev[3]; last = e.args[2] if rest == ["c2r"] else e.args[3]
                say("the conversion starts from the modes and ends in the output", e.args[0].value.buf is out.buf and (e.args[1] is b if rest == ["c2r"] else e.args[2] is b and e.args[1] is type(b)), e)
                out = last
            c, hc = cells(qb.oshape)
            i = [add(s, x) for s, x in zip(qb.ost, c)]
            Na, Nb = qa.n, qb.n
            s = [ite(le(mul(2, x), n), x, sub(x, n)) for x, n in zip(i, Nb)]
            keep = and_(*[and_(lt(mul(2, absv(x)), m), lt(mul(2, absv(x)), n)) for x, m, n in zip(s, Na, Nb)])
            L = ZERO
            for x, m, F in zip(s, Na, qa.no): L = add(mul(L, F), ite(ge(x, 0), x, add(x, m)))
            selfc = and_(*[or_(eq(x, 0), eq(mul(2, x), n)) for x, n in zip(i, Nb)])
            facts = lambda hy: list(hy) + [implies(subst(al, {b_: x}), has) for has, w, b_, al in P.CTX.wfacts for x in c]
            for k in (0, 1):
                t = P.within(hc, lambda: rd(out, c, k))
                for cond, what in ((keep, "a mode both meshes have"), (not_(keep), "any other mode")):
                    hy = facts(hc + [cond])
                    v = P.resolve(t, list(P.CTX.pc) + hy)
                    if what.startswith("any"): prove("%s is zero, part %d" % (what, k), hy, eq(v, 0))
                    else:
                        w = app("taken:1", [L, const(k)], "R")
                        prove("%s is taken from the source at the same signed mode, part %d" % (what, k), hy, or_(same_taken(v, w), and_(const(k == 1), selfc, eq(v, 0))))
            # precondition of the exchange
            am = ev[2].args[1]
            ai = am.a.at(c)
            m = P.truth(am.mask.at(c))
            prove("the indices asked for exist", hc + [m], and_(ge(ai, 0), lt(ai, prod(qa.no))))
            cc, hcc = cells(be.shape_[:nd], "e")
            for k in range(2 if be.dtype.kind == "c" else 1): prove("the source is kept, part %d" % k, hcc, eq(rd(a.value, cc, k), rd(be, cc, k)))
        call_paths(obs, "resample: %s to %s" % (meshcase(src, nd, dt), TYPES[dst]), f, post, rp)
    obs.functions.add("pm.Field.resample")
def same_taken(t, w):
    """t is the same application as w (if-then-else distributed)"""
    if t.op == "ite": return ite_b(t.args[0], same_taken(t.args[1], w), same_taken(t.args[2], w))
    return same_app(t, w) if t.op == "app" and t.args[0] == w.args[0] else eq(t, w)
def ite_b(c, a, b): return or_(and_(c, a), and_(not_(c), b))

def cast_contract(obs, rp):
    for nd, src, dst, out_ in itertools.product((1, 3), "RTU", "RTU", ("new", "given")):
        if nd == 1 and (src == "U" or dst == "U"): continue
        def f(nd=nd, src=src, dst=dst, out_=out_):
            g = load(); pm = by_contract(g, mesh(g, nd, Comm()))
            field_contracts(g, "c2r", "r2c")
            a = field(g, pm, src); be = frozen(a.value)
            o = None if out_ == "new" else field(g, pm, dst)
            ev0 = len(P.CTX.events)
            r = a.cast({"R": "real", "T": "complex", "U": "untransposedcomplex"}[dst], o)
            return g, pm, a, be, o, P.CTX.events[ev0:], r
        def post(p, prove, say, nd=nd, src=src, dst=dst, out_=out_):
            if p.exc is not None: say("no exception", False, repr(p.exc)); return
            g, pm, a, be, o, ev, r = p.res
            say("result of the requested type", type(r) is g[TYPES[dst]], r)
            say("in the memory of the output", r._base.storage is (o._base.storage if o is not None else r._base.storage) and r._base.storage is not a._base.storage, r)
            names = [e.name for e in ev]
            want = [] if src == dst else ["r2c"] if src == "R" else ["c2r"] if dst == "R" else ["c2r", "r2c"]
            say("transforms", names == want, names)
            if names != want: return
            c, hc = cells(partition_of(pm, src).ishape if src == "R" else partition_of(pm, src).oshape)
            ks = range(2 if be.dtype.kind == "c" else 1)
            if not want:
                for k in ks: prove("copied, part %d" % k, hc, eq(rd(r.value, c, k), rd(be, c, k)))
            else:
                say("the first transform takes the field", ev[0].args[0] is a, ev)
                for k in ks: prove("with its values, part %d" % k, hc, eq(rd(ev[0].args[2], c, k), rd(be, c, k)))
                say("the last one ends in the result", ev[-1].args[1].value.buf is r.value.buf, ev)
                if len(want) == 2: say("through a real field", ev[0].args[1] is ev[1].args[0], ev)
            for k in ks: prove("the field is kept, part %d" % k, hc, eq(rd(a.value, c, k), rd(be, c, k)))
        call_paths(obs, "cast: %s to %s, %s" % (meshcase(src, nd, "f8"), TYPES[dst], out_), f, post, rp)
    obs.functions |= {"pm.Field.cast", "pm.ParticleMesh.create"}


# ---------------------------------------------------------------- C17, C22: transforms
def transform_contract(obs, rp):
    for nd, op, kind, out_, padded in itertools.product((1, 3), ("r2c", "c2r", "r2c_vjp", "c2r_vjp"), "TU", ("new", "in place", "itself", "given", "same memory"), (True, False)):
        fwd = op in ("r2c", "c2r_vjp")
        if kind == "U" and nd == 1: continue
        if not padded and nd == 1: continue      # one axis is never decomposed along all of its axes
        if fwd and kind == "U" and out_ not in ("given", "same memory"): continue     # those make transposed fields
        def f(nd=nd, op=op, kind=kind, out_=out_, padded=padded, fwd=fwd):
            g = load(); pm = by_contract(g, mesh(g, nd, Comm(), padded=padded))
            v = field(g, pm, "R" if fwd else kind); be = frozen(v.value)
            tk = kind if fwd else "R"
            out = {"new": None, "in place": Ellipsis, "itself": v, "given": None, "same memory": None}[out_]
            if out_ == "given": out = field(g, pm, tk)
            if out_ == "same memory": out = g[TYPES[tk]](pm, base=v._base)
            ev0 = len(P.CTX.events)
            r = getattr(g["RealField"] if op in ("r2c", "c2r_vjp") and op == "r2c" else g["BaseComplexField"] if op != "c2r_vjp" else g["RealField"], op)(v, out)
            return g, pm, v, be, out, P.CTX.events[ev0:], r
        def post(p, prove, say, nd=nd, op=op, kind=kind, out_=out_, padded=padded, fwd=fwd):
            if p.exc is not None: say("no exception", False, repr(p.exc)); return
            g, pm, v, be, out, ev, r = p.res
            tk = kind if fwd else "R"
            say("kind of the result", type(r) is g[TYPES[tk]], r)
            share = r._base.storage is v._base.storage
            say("memory of the result", {"new": not share, "in place": share, "itself": share, "given": r is out, "same memory": r is out}[out_], r)
            say("one transform", [e.name for e in ev] == ["execute"], ev)
            if [e.name for e in ev] != ["execute"]: return
            nm, i, o, src = ev[0].args[:4]
            same = i.storage is o.storage
            say("a plan of that direction and layout, made for these buffers", nm == ("ip" if same else "") + ("forward" if fwd else "backward") + kind, (nm, same))
            say("it ends in the result", o.storage is r._base.storage, "")
            q = partition_of(pm, kind)
            sin, sout = (q.ishape, q.oshape) if fwd else (q.oshape, q.ishape)
            if fwd: sin = partition_of(pm, "R").ishape
            else: sout = partition_of(pm, "R").ishape
            c, hc = cells(sin)
            for k in range(2 if be.dtype.kind == "c" else 1):
                prove("it starts from the values of the field, part %d" % k, hc, eq(rd(src, c, k), rd(be, c, k)))
                if not share: prove("the field is kept, part %d" % k, hc, eq(rd(v.value, c, k), rd(be, c, k)))
            d, hd = cells(sout, "d")
            for k in range(2 if r.value.dtype.kind == "c" else 1):
                t = app("transform:1", list(d) + ([const(k)] if r.value.dtype.kind == "c" else []), "R")
                want = div(t, prod(q.n)) if op in ("r2c", "r2c_vjp") else t
                prove("normalisation, part %d" % k, hd, eq(P.within(hd, lambda: rd(r.value, d, k)), want))
        call_paths(obs, "%s: %s, out %s%s" % (op, meshcase(kind, nd, "f8"), out_, "" if padded else ", unpadded"), f, post, rp)
    obs.functions |= {"pm.RealField.r2c", "pm.RealField.c2r_vjp", "pm.BaseComplexField.c2r", "pm.BaseComplexField.r2c_vjp"}

def round_trip_contract(obs, rp):
    """what the two transforms do together; that a backward plan inverts a forward plan up to the number of cells is pfft's contract"""
    for nd, first, kind, o1, o2, padded in itertools.product((1, 2, 3), ("r2c", "c2r"), "TU", ("new", "in place", "given"), ("new", "in place", "given"), (True, False)):
        if nd < 3 and (kind == "U" or not padded): continue
        def f(nd=nd, first=first, kind=kind, o1=o1, o2=o2, padded=padded):
            g = load(); pm = by_contract(g, mesh(g, nd, Comm(), padded=padded))
            a = field(g, pm, "R" if first == "r2c" else kind); be = frozen(a.value)
            ev0 = len(P.CTX.events)
            def dest(o, k, src):
                if o == "new" and not (k == "U"): return None
                if o == "in place" and not (k == "U"): return Ellipsis
                return g[TYPES[k]](pm, base=src._base) if o == "in place" else field(g, pm, k)
            ks = ("R", kind) if first == "r2c" else (kind, "R")
            b = getattr(a, first)(dest(o1, ks[1], a))
            c = getattr(b, "c2r" if first == "r2c" else "r2c")(dest(o2, ks[0], b))
            return g, pm, a, b, c, be, P.CTX.events[ev0:]
        def post(p, prove, say, nd=nd, first=first, kind=kind, o1=o1, o2=o2, padded=padded):
            if p.exc is not None: say("no exception", False, repr(p.exc)); return
            g, pm, a, b, c, be, ev = p.res
            say("two transforms", [e.name for e in ev] == ["execute"] * 2, ev)
            if len(ev) != 2: return
            strip = lambda n: n[2:] if n.startswith("ip") else n
            names = [strip(e.args[0]) for e in ev]
            say("by inverse plans", names == (["forward" + kind, "backward" + kind] if first == "r2c" else ["backward" + kind, "forward" + kind]), names)
            say("made for these buffers", all(e.args[0].startswith("ip") == (e.args[1].storage is e.args[2].storage) for e in ev), ev)
            q = partition_of(pm, kind); qr = partition_of(pm, "R")
            n = prod(q.n)
            sh0, sh1 = (qr.ishape, q.oshape) if first == "r2c" else (q.oshape, qr.ishape)
            x, hx = cells(sh0); y, hy = cells(sh1, "d")
            kinds = [0, 1] if first == "c2r" else [0]
            for k in kinds: prove("the first starts from the field, part %d" % k, hx, eq(rd(ev[0].args[3], x, k), rd(be, x, k)))
            mid = ev[1].args[3]
            for k in ([0, 1] if first == "r2c" else [0]):
                t = app("transform:1", list(y) + ([const(k)] if first == "r2c" else []), "R")
                prove("the second from its result, part %d" % k, hy, eq(P.within(hy, lambda: rd(mid, y, k)), div(t, n) if first == "r2c" else t))
            for k in kinds:
                t = app("transform:2", list(x) + ([const(k)] if first == "c2r" else []), "R")
                prove("the result, over the number of cells once, part %d" % k, hx, eq(P.within(hx, lambda: rd(c.value, x, k)), t if first == "r2c" else div(t, n)))
        call_paths(obs, "round trip from %s: %s, out %s and %s%s" % (first, meshcase(kind, nd, "f8"), o1, o2, "" if padded else ", unpadded"), f, post, rp)


def paint_readout(g):
    """RealField.readout and ParticleMesh.paint replaced by their contracts (readout_contract, paint_contract)"""
    def readout(self, pos, hsml=None, out=None, resampler=None, transform=None, gradient=None, layout=None):
        event("readout", self, frozen(self.value), frz(pos), hsml, out, resampler, transform, gradient, layout)
        k = sum(1 for e in P.CTX.events if e.name == "readout")
        r = symarr("read:%d" % k, [pos.shape_[0]], self.dtype)
        if out is not None: out[...] = r; return out
        return r
    def paint(self, pos, hsml=None, mass=1.0, resampler=None, transform=None, hold=False, gradient=None, layout=None, out=None):
        if out is None: out = g["RealField"](self)
        event("paint", self, frz(pos), hsml, frz(mass), resampler, transform, gradient, layout, out)
        k = sum(1 for e in P.CTX.events if e.name == "paint")
        v = out.value
        new = symarr("painted:%d" % k, v.shape_, v.dtype)
        v[...] = v + new if hold else new
        return out
    g["RealField"].readout = readout; g["ParticleMesh"].paint = paint
def wgood(e, want, at):
    """the resampler, transform, gradient and layout handed on"""
    return all(a is b or (not isinstance(b, (int, np.integer)) and a == b) or (isinstance(b, (int, np.integer)) and not isinstance(b, bool) and a == b) for a, b in zip(e.args[at:at + 4], want))

def same_array(prove, what, a, b, n, nd):
    """two arrays of particles hold the same values"""
    i = I("i*"); hi = [ge(i, 0), lt(i, n)]
    if not isinstance(a, SArr):
        prove(what, [], eq(P.T_(a), P.T_(b)) if not isinstance(b, SArr) else FALSE); return
    prove("%s: length" % what, [], and_(const(a.ndim == (1 if nd is None else 2)), eq(a.shape_[0], n)))
    for d in range(nd or 1):
        ix = (i,) if nd is None else (i, const(d))
        prove("%s%s" % (what, "" if nd is None else ", direction %d" % d), hi, eq(P.within(hi, lambda: a.at(ix)), P.within(hi, lambda: b.at(ix))))

def adjoint_contract(obs, rp):
    i = I("i*"); n = I("particles")
    hi = [ge(i, 0), lt(i, n)]
    def common(nd):
        g = load(); pm = by_contract(g, mesh(g, nd, Comm())); paint_readout(g)
        P.CTX.assume(ge(n, 0))
        pos = symarr("pos", [n, const(nd)], "f8")
        return g, pm, pos, Window("given"), Affine(nd), Layout()
    def outarg(what, x, mk):
        return {"new": None, "none": False, "in place": Ellipsis, "itself": x, "given": mk}[what]
    # --- paint_vjp
    for nd, op_, om_, mk, lay in [(n_, a, b, m, l) for n_ in (1, 2, 3) for a in ("new", "none", "in place", "itself", "given") for b in ("new", "none", "in place", "itself", "given") for m in ("array", "number") for l in (False, True)]:
        if nd == 2 and (op_ not in ("new", "itself") or om_ != "new"): continue
        if nd == 1 and lay: continue
        if mk == "number" and (om_ in ("in place", "itself") or nd != 3): continue
        for gr in (None, 1) if nd == 3 and (op_ == "none" or not lay and op_ in ("new", "itself")) else (None,):
            def f(nd=nd, op_=op_, om_=om_, mk=mk, lay=lay, gr=gr):
                g, pm, pos, w, tr, layout = common(nd)
                v = field(g, pm, "R")
                mass = symarr("mass", [n], "f8") if mk == "array" else W(R("mass"))
                m0 = frz(mass); p0 = frozen(pos); v0 = frozen(v.value)
                a = outarg(op_, pos, symarr("outpos", [n, const(nd)], "f8")); b = outarg(om_, mass, symarr("outmass", [n], "f8"))
                ev0 = len(P.CTX.events)
                r = pm.paint_vjp(v, pos, mass=mass, resampler=w, transform=tr, gradient=gr, out_pos=a, out_mass=b, layout=layout if lay else None)
                return g, v, pos, mass, p0, m0, v0, a, b, w, tr, layout if lay else None, P.CTX.events[ev0:], r
            def post(p, prove, say, nd=nd, op_=op_, om_=om_, mk=mk, lay=lay, gr=gr):
                if gr is not None and op_ != "none": say("the gradient of a gradient is refused", isinstance(p.exc, ValueError), repr(p.exc)); return
                if p.exc is not None: say("no exception", False, repr(p.exc)); return
                g, v, pos, mass, p0, m0, v0, a, b, w, tr, layout, ev, (rp_, rm) = p.res
                grads = ([] if op_ == "none" else list(range(nd))) + ([] if om_ == "none" else [gr])
                say("one readout per direction of the position and one for the mass", [e.name for e in ev] == ["readout"] * len(grads), ev)
                if len(ev) != len(grads): return
                # the order of the readouts does not matter
                by = {}
                for k, e in enumerate(ev):
                    by.setdefault(e.args[7], k + 1)
                    say("readout %d is of the cotangent, with the same window, transformation and layout" % k, e.args[0] is v and e.args[3] is None and e.args[5] is w and e.args[6] is tr and e.args[8] is layout, e)
                    same_array(prove, "readout %d is at the given positions" % k, e.args[2], p0, n, nd)
                    c, hc = cells(v.value.shape_)
                    prove("readout %d sees the cotangent" % k, hc, eq(e.args[1].at(c), v0.at(c)))
                say("gradient directions", sorted(map(str, by)) == sorted(map(str, grads)), by)
                if len(by) != len(grads): return
                say("gradient with respect to the positions", rp_ is False if op_ == "none" else rp_ is pos if op_ in ("in place", "itself") else rp_ is a if op_ == "given" else isinstance(rp_, SArr) and rp_.buf is not pos.buf, rp_)
                say("gradient with respect to the mass", rm is False if om_ == "none" else rm is mass if om_ in ("in place", "itself") else rm is b if om_ == "given" else isinstance(rm, SArr) and (mk != "array" or rm.buf is not mass.buf), rm)
                if op_ != "none" and isinstance(rp_, SArr):
                    prove("shape of the position gradient", [], and_(const(rp_.ndim == 2), eq(rp_.shape_[0], n), eq(rp_.shape_[1], nd)))
                    for d in range(nd):
                        m = m0.at((i,)) if isinstance(m0, SArr) else P.T_(m0)
                        prove("mass times the gradient along direction %d" % d, hi, eq(P.within(hi, lambda: rp_.at((i, const(d)))), mul(app("read:%d" % by[d], [i], "R"), m)))
                if om_ != "none" and isinstance(rm, SArr):
                    same_array(prove, "the mass gradient is the value read", rm, symarr("read:%d" % by[gr], [n], "f8"), n, None)
                if op_ not in ("in place", "itself"): same_array(prove, "the positions are kept", pos, p0, n, nd)
                if om_ not in ("in place", "itself"): same_array(prove, "the mass is kept", mass, m0, n, None)
                c, hc = cells(v.value.shape_)
                prove("the cotangent is kept", hc, eq(v.value.at(c), v0.at(c)))
            call_paths(obs, "paint_vjp: %d axes, out_pos %s, out_mass %s, mass %s%s%s" % (nd, op_, om_, mk, ", layout" if lay else "", "" if gr is None else ", gradient"), f, post, rp)
    # --- readout_vjp
    for nd, op_, os_, lay in [(n_, a, b, l) for n_ in (1, 2, 3) for a in ("new", "none", "in place", "itself", "given") for b in ("new", "none", "in place", "itself", "given") for l in (False, True)]:
        if nd == 2 and (op_ not in ("new", "itself") or os_ != "new"): continue
        if nd == 1 and lay: continue
        for gr in (None, 1) if nd == 3 and (op_ == "none" or not lay and op_ in ("new", "itself")) else (None,):
            def f(nd=nd, op_=op_, os_=os_, lay=lay, gr=gr):
                g, pm, pos, w, tr, layout = common(nd)
                fl = field(g, pm, "R")
                v = symarr("v", [n], "f8"); v0 = frozen(v); p0 = frozen(pos); f0 = frozen(fl.value)
                a = outarg(op_, pos, symarr("outpos", [n, const(nd)], "f8")); b = outarg(os_, fl, field(g, pm, "R") if os_ == "given" else None)
                ev0 = len(P.CTX.events)
                r = fl.readout_vjp(pos, v, resampler=w, transform=tr, gradient=gr, out_self=b, out_pos=a, layout=layout if lay else None)
                return g, pm, fl, pos, v, p0, v0, f0, a, b, w, tr, layout if lay else None, P.CTX.events[ev0:], r
            def post(p, prove, say, nd=nd, op_=op_, os_=os_, lay=lay, gr=gr):
                if gr is not None and op_ != "none": say("the gradient of a gradient is refused", isinstance(p.exc, ValueError), repr(p.exc)); return
                if p.exc is not None: say("no exception", False, repr(p.exc)); return
                g, pm, fl, pos, v, p0, v0, f0, a, b, w, tr, layout, ev, (rs, rp_) = p.res
                rd_ = [e for e in ev if e.name == "readout"]; pt = [e for e in ev if e.name == "paint"]
                say("one readout per direction and one paint", len(rd_) == (0 if op_ == "none" else nd) and len(pt) == (0 if os_ == "none" else 1) and len(ev) == len(rd_) + len(pt), ev)
                by = {}
                c, hc = cells(f0.shape_)
                for k, e in enumerate(rd_):
                    by.setdefault(e.args[7], k + 1)
                    say("readout %d is of the field, with the same window, transformation and layout" % k, e.args[0] is fl and e.args[3] is None and e.args[5] is w and e.args[6] is tr and e.args[8] is layout, e)
                    same_array(prove, "readout %d is at the given positions" % k, e.args[2], p0, n, nd)
                    prove("readout %d sees the field" % k, hc, eq(e.args[1].at(c), f0.at(c)))
                if op_ == "none": say("nothing for the positions", rp_ is False, rp_)
                else:
                    say("gradient directions", sorted(map(str, by)) == sorted(map(str, range(nd))), by)
                    if len(by) != nd: return
                    say("gradient with respect to the positions", rp_ is pos if op_ in ("in place", "itself") else rp_ is a if op_ == "given" else isinstance(rp_, SArr) and rp_.buf is not pos.buf, rp_)
                    prove("shape of the position gradient", [], and_(const(rp_.ndim == 2), eq(rp_.shape_[0], n), eq(rp_.shape_[1], nd)))
                    for d in range(nd): prove("cotangent times the gradient along direction %d" % d, hi, eq(P.within(hi, lambda: rp_.at((i, const(d)))), mul(app("read:%d" % by[d], [i], "R"), v0.at((i,)))))
                if os_ == "none": say("nothing for the field", rs is False, rs)
                elif pt:
                    e = pt[0]
                    say("gradient with respect to the field", type(rs) is g["RealField"] and (rs is fl if os_ in ("in place", "itself") else rs is b if os_ == "given" else rs.value.buf is not fl.value.buf), rs)
                    say("the cotangent is painted with the same window, transformation, gradient and layout", e.args[0] is pm and e.args[2] is None and e.args[4] is w and e.args[5] is tr and e.args[6] == gr and e.args[7] is layout and e.args[8] is rs, e)
                    same_array(prove, "at the given positions", e.args[1], p0, n, nd)
                    same_array(prove, "as the mass", e.args[3], v0, n, None)
                    prove("and nothing else is in the result", hc, eq(P.within(hc, lambda: rs.value.at(c)), app("painted:1", list(c), "R")))
                if op_ not in ("in place", "itself"): same_array(prove, "the positions are kept", pos, p0, n, nd)
                if os_ not in ("in place", "itself"): prove("the field is kept", hc, eq(fl.value.at(c), f0.at(c)))
                same_array(prove, "the cotangent is kept", v, v0, n, None)
            call_paths(obs, "readout_vjp: %d axes, out_pos %s, out_self %s%s%s" % (nd, op_, os_, ", layout" if lay else "", "" if gr is None else ", gradient"), f, post, rp)
    # --- the tangents
    for op, nd, vp, vo, lay in itertools.product(("paint_jvp", "readout_jvp"), (1, 2, 3), (False, True), (False, True), (False, True)):
        if nd != 3 and lay: continue
        variants = (("array", "new"), ("number", "given")) if op == "paint_jvp" else ((None, None), (None, 1))
        for mk, x in variants:
            def f(op=op, nd=nd, vp=vp, vo=vo, lay=lay, mk=mk, x=x):
                g, pm, pos, w, tr, layout = common(nd)
                fl = field(g, pm, "R")
                a = symarr("v_pos", [n, const(nd)], "f8") if vp else None
                kw = dict(v_pos=a, resampler=w, transform=tr, layout=layout if lay else None)
                p0 = frozen(pos); a0 = frz(a); f0 = frozen(fl.value)
                mass = b = None
                if op == "paint_jvp":
                    mass = symarr("mass", [n], "f8") if mk == "array" else W(R("mass"))
                    b = symarr("v_mass", [n], "f8") if vo else None
                    o = fl if x == "given" else None
                else: b = field(g, pm, "R") if vo else None
                m0, b0 = frz(mass), frozen(b.value) if isinstance(b, g["Field"]) else frz(b)
                ev0 = len(P.CTX.events)
                r = pm.paint_jvp(pos, mass=mass, v_mass=b, out=o, **kw) if op == "paint_jvp" else fl.readout_jvp(pos, v_self=b, gradient=x, **kw)
                return g, pm, fl, pos, a, b, p0, a0, f0, m0, b0, w, tr, layout if lay else None, P.CTX.events[ev0:], r
            def post(p, prove, say, op=op, nd=nd, vp=vp, vo=vo, lay=lay, mk=mk, x=x):
                if op == "readout_jvp" and x is not None and vp: say("the gradient of a gradient is refused", isinstance(p.exc, ValueError), repr(p.exc)); return
                if p.exc is not None: say("no exception", False, repr(p.exc)); return
                g, pm, fl, pos, a, b, p0, a0, f0, m0, b0, w, tr, layout, ev, r = p.res
                gr = x if op == "readout_jvp" else None
                paint = op == "paint_jvp"
                keys = (list(range(nd)) if vp else []) + ([("plain", gr)] if vo else [])
                say("one term per direction and one for the other tangent", [e.name for e in ev] == ["paint" if paint else "readout"] * len(keys), ev)
                if len(ev) != len(keys): return
                by = {}; c, hc = cells(f0.shape_)
                for k, e in enumerate(ev):
                    pa, ra, ta, ga, la = (e.args[1], e.args[4], e.args[5], e.args[6], e.args[7]) if paint else (e.args[2], e.args[5], e.args[6], e.args[7], e.args[8])
                    plain = (e.args[0] is b if not paint else ga is None) if vo else False
                    by.setdefault(("plain", ga) if plain else ga, k + 1)
                    say("term %d uses the same window, transformation and layout" % k, ra is w and ta is tr and la is layout and (e.args[2] if paint else e.args[3]) is None, e)
                    same_array(prove, "term %d is at the given positions" % k, pa, p0, n, nd)
                    if paint:
                        m = e.args[3]
                        if plain: same_array(prove, "the mass tangent is painted", m, b0, n, None)
                        elif isinstance(ga, (int, np.integer)):
                            prove("length of the weights %d" % k, [], and_(const(m.ndim == 1), eq(m.shape_[0], n)))
                            prove("weights of direction %d" % ga, hi, eq(P.within(hi, lambda: m.at((i,))), mul(a0.at((i, const(int(ga)))), m0.at((i,)) if isinstance(m0, SArr) else P.T_(m0))))
                    else:
                        say("term %d is of the right field" % k, e.args[0] is (b if plain else fl), e)
                        prove("term %d sees that field" % k, hc, eq(e.args[1].at(c), (b0 if plain else f0).at(c)))
                say("directions", sorted(map(str, by)) == sorted(map(str, keys)), by)
                if len(by) != len(keys): return
                if paint:
                    say("result", type(r) is g["RealField"] and (r is fl if x == "given" else r is not fl), r)
                    say("painted into the result", all(e.args[8] is r for e in ev), ev)
                    prove("the result is the sum of the terms", hc, eq(P.within(hc, lambda: r.value.at(c)), add(*[app("painted:%d" % k, list(c), "R") for k in range(1, len(keys) + 1)]) if keys else ZERO))
                else:
                    prove("length", [], and_(const(r.ndim == 1), eq(r.shape_[0], n)))
                    ts = [mul(app("read:%d" % by[k], [i], "R"), a0.at((i, const(k))) if isinstance(k, int) else ONE) for k in keys]
                    prove("the result is the sum of the terms", hi, eq(P.within(hi, lambda: r.at((i,))), add(*ts) if ts else ZERO))
                    prove("the field is kept", hc, eq(fl.value.at(c), f0.at(c)))
                same_array(prove, "the positions are kept", pos, p0, n, nd)
                if vp: same_array(prove, "the position tangent is kept", a, a0, n, nd)
            call_paths(obs, "%s: %d axes%s%s%s, %s %s" % (op, nd, ", position" if vp else "", ", other" if vo else "", ", layout" if lay else "", mk, x), f, post, rp)
    obs.functions |= {"pm.ParticleMesh.paint_vjp", "pm.ParticleMesh.paint_jvp", "pm.RealField.readout_vjp", "pm.RealField.readout_jvp"}

def cdot_vjp_contract(obs, rp):
    for nd, kind, met, vk in itertools.product((1, 2, 3), "TU", (False, True), ("number", "field")):
        if kind == "U" and nd < 3: continue
        def f(nd=nd, kind=kind, met=met, vk=vk):
            g = load(); pm = by_contract(g, mesh(g, nd, Comm()))
            a = field(g, pm, kind); be = frozen(a.value)
            v = W(R("v")) if vk == "number" else field(g, pm, kind)
            v0 = frozen(v.value) if vk == "field" else None
            ev0 = len(P.CTX.events)
            r = a.cdot_vjp(v, **(dict(metric=metric_fn) if met else {}))
            return pm, a, be, v, v0, P.CTX.events[ev0:], r
        def post(p, prove, say, nd=nd, kind=kind, met=met, vk=vk):
            if p.exc is not None: say("no exception", False, repr(p.exc)); return
            pm, a, be, v, v0, ev, r = p.res
            q = partition_of(pm, kind); st, sh = starts(q, kind)
            say("no communication", not ev, ev)
            say("a new field of the same kind", type(r) is type(a) and r.value.buf is not a.value.buf, r)
            c, hc = cells(sh)
            m = app("metric", [P.resolve(knorm(kvec(st, c, kind, nd)), list(P.CTX.pc) + list(hc))], "R") if met else ONE
            x, y = [P.within(hc, lambda: rd(be, c, k)) for k in (0, 1)]
            u, z = [P.within(hc, lambda: rd(v0, c, k)) for k in (0, 1)] if v0 is not None else (R("v"), ZERO)
            for k in (0, 1):
                w = (sub(mul(x, u), mul(y, z)), add(mul(x, z), mul(y, u)))[k]
                prove("the field times the cotangent and the metric, part %d" % k, hc, eq(P.resolve(P.within(hc, lambda: rd(r.value, c, k)), list(P.CTX.pc) + list(hc)), mul(w, m)))
                prove("the field is kept, part %d" % k, hc, eq(rd(a.value, c, k), rd(be, c, k)))
        call_paths(obs, "cdot_vjp: %s%s, cotangent a %s" % (meshcase(kind, nd, "f8"), ", metric" if met else "", vk), f, post, rp)
    obs.functions.add("pm.BaseComplexField.cdot_vjp")


# ---------------------------------------------------------------- C19: the uniform grid
def uniform_contract(obs, rp):
    for nd, what, dt in [(n, w, d) for n in (1, 2, 3) for w in ("mesh_coordinates", "shift none", "shift number", "shift array", "shift number, ids", "shift array, ids") for d in (None, "f8", "i4")]:
        if (dt == "i4") and what != "mesh_coordinates": continue
        for sdt in ("f8",) if dt else ("f8", "f4"):
            def f(nd=nd, what=what, dt=dt, sdt=sdt):
                g = load(); pm = mesh(g, nd, Comm(), sdt)
                ev0 = len(P.CTX.events)
                if what == "mesh_coordinates": r = pm.mesh_coordinates(dt) if dt else pm.mesh_coordinates()
                else:
                    sh = None if "none" in what else W(R("shift")) if "number" in what else symarr("shift", [const(nd)], "f8")
                    r = pm.generate_uniform_particle_grid(shift=sh, dtype=dt, return_id="ids" in what)
                return g, pm, r, P.CTX.events[ev0:]
            def post(p, prove, say, nd=nd, what=what, dt=dt):
                if p.exc is not None: say("no exception", False, repr(p.exc)); return
                g, pm, r, ev = p.res
                say("no communication", not ev, ev)
                ids = None
                if "ids" in what:
                    say("positions and ids", isinstance(r, tuple) and len(r) == 2, r)
                    r, ids = r
                q = partition_of(pm, "R")
                tot = prod(q.ishape)
                prove("one row per local cell", [], and_(const(r.ndim == 2), eq(r.shape_[0], tot), eq(r.shape_[1], nd)))
                j = I("j*"); hj = [ge(j, 0), lt(j, tot)]
                u = P.digits(j, q.ishape) if nd > 1 else (j,)
                for d in range(nd):
                    v = P.within(hj, lambda: r.at((j, const(d))))
                    cell = add(q.ist[d], u[d])
                    if what == "mesh_coordinates": want = cell
                    else:
                        s = div(1, 2) if "none" in what else R("shift") if "number" in what else app("shift", [const(d)], "R")
                        want = div(mul(add(cell, s), R("L%d" % d)), I("N%d" % d))
                    prove("row of the cell, direction %d" % d, hj, eq(v, want))
                if ids is not None:
                    prove("one id per local cell", [], and_(const(ids.ndim == 1), eq(ids.shape_[0], tot)))
                    say("ids hold 64 bits", ids.dtype == np.dtype("i8"), ids.dtype)
                    k = ZERO
                    for d in range(nd): k = add(mul(k, I("N%d" % d)), add(q.ist[d], u[d]))
                    prove("id of the cell: its index in C order", hj, eq(P.within(hj, lambda: ids.at((j,))), k))
            call_paths(obs, "%s: %d axes, %s, dtype %s" % (what, nd, sdt, dt), f, post, rp)
    # the ids of different cells differ and fill the range
    def lem(): return load()
    def lpost(p, prove, say):
        a, b, n = [[I("%s%d" % (c, d)) for d in range(3)] for c in "abn"]
        rng = lambda x: [c for d in range(3) for c in (ge(x[d], 0), lt(x[d], n[d]))]
        A, B, Q = I("A"), I("B"), I("Q")
        last = [ge(a[2], 0), lt(a[2], n[2]), ge(b[2], 0), lt(b[2], n[2])]
        prove("lemma: equal indices have equal last digits and equal leading parts", last + [eq(add(mul(A, n[2]), a[2]), add(mul(B, n[2]), b[2])), le(A, B)], and_(eq(A, B), eq(a[2], b[2])))
        prove("lemma: an index is below the size", last + [ge(A, 0), lt(A, Q)], and_(ge(add(mul(A, n[2]), a[2]), 0), lt(add(mul(A, n[2]), a[2]), mul(Q, n[2]))))
    call_paths(obs, "ids", lem, lpost, rp)
    obs.assumptions.add("the local blocks of a pfft partition tile the mesh")
    obs.functions |= {"pm.ParticleMesh.mesh_coordinates", "pm.ParticleMesh.generate_uniform_particle_grid"}


# ---------------------------------------------------------------- C18: distributed painting
def same_affine(a, b): return a is b
def part_paint_contract(obs, rp):
    """ParticleMesh.paint and RealField.readout: what is handed to the window, directly or through a layout"""
    n = I("particles"); i = I("i*")
    sent, rec = I("layout.sent"), I("layout.received")
    for op, nd, lay, mk, hs, rs, trk, gr, outk, hold in itertools.product(("paint", "readout"), (1, 3), (False, True), ("number", "array", "none"), (False, True), ("default", "window", "name"), ("default", "given"), (None, 0, 2), ("new", "given"), (False, True)):
        if op == "readout" and (mk != "none" or hold): continue
        if nd == 1 and (gr == 2 or rs == "name" or hs): continue
        if rs == "name" and (gr is not None or hs or mk == "none" and op == "paint" or trk == "given"): continue
        if hs and gr is not None: continue
        def f(op=op, nd=nd, lay=lay, mk=mk, hs=hs, rs=rs, trk=trk, gr=gr, outk=outk, hold=hold):
            g = load(); pm = by_contract(g, mesh(g, nd, Comm()))
            P.CTX.assume(ge(n, 0)); P.CTX.assume(ge(rec, 0)); P.CTX.assume(eq(sent, n))
            pos = symarr("pos", [n, const(nd)], "f8"); p0 = frozen(pos)
            kw = {}
            if mk == "number": kw["mass"] = W(R("mass"))
            if mk == "array": kw["mass"] = symarr("mass", [n], "f8")
            if hs: kw["hsml"] = symarr("hsml", [n], "f8")
            if rs == "window": kw["resampler"] = Window("given")
            if rs == "name": kw["resampler"] = "cic"
            if trk == "given": kw["transform"] = Affine(nd)
            if gr is not None: kw["gradient"] = gr
            if lay: kw["layout"] = Layout()
            fl = field(g, pm, "R"); f0 = frozen(fl.value)
            out = None
            if outk == "given": out = fl if op == "paint" else symarr("out", [n], "f8")
            if out is not None or op == "readout": kw["out"] = out
            if hold: kw["hold"] = True
            before = {k: frz(x) for k, x in kw.items()}
            ev0 = len(P.CTX.events)
            r = pm.paint(pos, **kw) if op == "paint" else fl.readout(pos, **kw)
            return g, pm, fl, f0, pos, p0, kw, before, P.CTX.events[ev0:], r
        def post(p, prove, say, op=op, nd=nd, lay=lay, mk=mk, hs=hs, rs=rs, trk=trk, gr=gr, outk=outk, hold=hold):
            if p.exc is not None: say("no exception", False, repr(p.exc)); return
            g, pm, fl, f0, pos, p0, kw, before, ev, r = p.res
            ex = [e for e in ev if e.name == "layout.exchange"]; wn = [e for e in ev if e.name == "window." + op]; ga = [e for e in ev if e.name == "layout.gather"]
            moved = ["pos"] + (["mass"] if mk == "array" else []) + (["hsml"] if hs else [])
            say("calls of the window and the layout", len(wn) == 1 and len(ex) == (len(moved) if lay else 0) and len(ga) == (1 if lay and op == "readout" else 0) and len(ev) == len(wn) + len(ex) + len(ga), ev)
            if len(wn) != 1: return
            w, real, lp, lh = wn[0].args[:4]
            lm = wn[0].args[4] if op == "paint" else None
            dd, tr, realv = wn[0].args[-3:]
            src = {"default": pm.resampler, "window": kw.get("resampler")}.get(rs)
            say("the window asked for", w is src if src is not None else w.name == "named:cic", w)
            say("the transformation asked for", tr is (kw["transform"] if trk == "given" else pm.affine), tr)
            say("the direction asked for", dd is gr or dd == gr and type(dd) is int, dd)
            # what reaches the window
            orig = dict(pos=p0, mass=before.get("mass"), hsml=before.get("hsml"))
            m = rec if lay else n
            for what, have in (("pos", lp), ("hsml", lh)) + ((("mass", lm),) if op == "paint" else ()):
                if what not in moved:
                    if what == "mass":
                        want = P.T_(kw["mass"]) if mk == "number" else ONE
                        got = P.num_of(have.at((ZERO,) * have.ndim)) if isinstance(have, SArr) and have.ndim == 0 else P.T_(have) if not isinstance(have, SArr) else None
                        say("the mass stays a number", got is not None, have)
                        if got is not None: prove("the mass", [], eq(got, want))
                    else: say("no %s" % what, have is None, have)
                    continue
                if not isinstance(have, SArr): say("%s is handed on" % what, False, have); continue
                src_ = orig[what]
                if lay:
                    ks = [k + 1 for k, e in enumerate(ex) if have.ndim == src_.ndim and same_fn(have, "exchanged:%d" % (k + 1))]
                    say("%s comes from the layout" % what, len(ks) == 1, have)
                    if len(ks) != 1: continue
                    e = ex[ks[0] - 1]
                    say("through the given layout", e.args[0] is kw["layout"], e)
                    same_array(prove, "what was exchanged is the %s" % what, e.args[1], src_, n, nd if what == "pos" else None)
                    same_array(prove, "%s at the window" % what, have, symarr("exchanged:%d" % ks[0], (rec,) + src_.shape_[1:], "f8"), rec, nd if what == "pos" else None)
                else: same_array(prove, "%s at the window" % what, have, src_, n, nd if what == "pos" else None)
            c, hc = cells(f0.shape_)
            if op == "paint":
                say("result", type(r) is g["RealField"] and (r is fl if outk == "given" else r.value.buf is not fl.value.buf), r)
                say("the window paints into the result", real.buf is r.value.buf, real)
                if hold and outk == "given": prove("the previous content is there when the window adds to it", hc, eq(realv.at(c), f0.at(c)))
                elif not hold: prove("the mesh is empty when the window adds to it", hc, eq(realv.at(c), 0))
                prove("the result is what the window left", hc, eq(P.within(hc, lambda: r.value.at(c)), app("painted:1", list(c), "R")))
            else:
                say("the window reads the field", real.buf is fl.value.buf, real)
                prove("with its values", hc, eq(realv.at(c), f0.at(c)))
                prove("the field is kept", hc, eq(fl.value.at(c), f0.at(c)))
                nm = "read:1"
                if lay:
                    e = ga[0]
                    say("gathered through the given layout, summing the copies", e.args[0] is kw["layout"] and e.args[2] == "sum", e)
                    same_array(prove, "what is gathered is what was read", e.args[1], symarr("read:1", [rec], "f8"), rec, None)
                    nm = "gathered:1"
                prove("one value per particle", [], and_(const(r.ndim == 1), eq(r.shape_[0], n)))
                same_array(prove, "the result", r, symarr(nm, [n], "f8"), n, None)
                if outk == "given": say("in the given array", r is kw["out"], r)
            same_array(prove, "the positions are kept", pos, p0, n, nd)
        call_paths(obs, "%s: %d axes%s, mass %s%s, window %s, transform %s, gradient %s, out %s%s" % (op, nd, ", layout" if lay else "", mk, ", hsml" if hs else "", rs, trk, gr, outk, ", hold" if hold else ""), f, post, rp)
    obs.functions |= {"pm.ParticleMesh.paint", "pm.RealField.readout", "pm.exchange"}
def same_fn(a, nm):
    x = a.at(tuple(I("?%d" % d) for d in range(a.ndim)))
    return any(s.op == "app" and s.args[0] == nm for s in subterms(x))

def pm_decompose_contract(obs, rp):
    x = symarr("x", [I("m"), const(3)], "f8")
    for nd, sm, trk in itertools.product((1, 2, 3), ("default", "name", "window", "number", "array", "zero"), ("default", "given")):
        def f(nd=nd, sm=sm, trk=trk):
            g = load(); pm = by_contract(g, mesh(g, nd, Comm()))
            n = I("particles"); P.CTX.assume(ge(n, 0))
            class Dom:
                def decompose(self, pos, smoothing=0, transform=None):
                    y = transform(symarr("x", [I("m"), const(nd)], "f8")) if transform is not None else None
                    event("domain.decompose", self, pos, frz(pos), frz(smoothing), y)
                    return "the layout"
            pm.domain = Dom()
            pos = symarr("pos", [n, const(nd)], "f8")
            w = Window("given")
            s = {"default": None, "name": "tsc", "window": w, "number": W(R("smoothing")), "array": symarr("smoothing", [const(nd)], "f8"), "zero": 0}[sm]
            tr = Affine(nd, scale=symarr("scale", [const(nd)], "f8"), translate=symarr("translate", [const(nd)], "f8"), period=symarr("period", [const(nd)], "f8")) if trk == "given" else None
            ev0 = len(P.CTX.events)
            kw = {}
            if s is not None: kw["smoothing"] = s
            if tr is not None: kw["transform"] = tr
            r = pm.decompose(pos, **kw)
            return pm, pos, s, P.CTX.events[ev0:], r
        def post(p, prove, say, nd=nd, sm=sm, trk=trk):
            if p.exc is not None: say("no exception", False, repr(p.exc)); return
            pm, pos, s, ev, r = p.res
            n = I("particles")
            say("one decomposition by the domain of the mesh", [e.name for e in ev] == ["domain.decompose"] and ev[0].args[0] is pm.domain and ev[0].args[1] is pos, ev)
            if [e.name for e in ev] != ["domain.decompose"]: return
            say("its layout is returned", r == "the layout", r)
            have, y = ev[0].args[3], ev[0].args[4]
            if sm == "array": same_array(prove, "smoothing", have, frozen(s), const(nd), None)
            else:
                want = {"default": div(I("support:default"), 2), "name": div(I("support:named:tsc"), 2), "window": div(I("support:given"), 2), "number": R("smoothing"), "zero": ZERO}[sm]
                prove("smoothing", [], eq(P.T_(have), want))
            same_array(prove, "the positions are kept", pos, symarr("pos", [n, const(nd)], "f8"), n, nd)
            if not isinstance(y, SArr): say("positions are transformed to mesh units", False, y); return
            j = I("j*"); hj = [ge(j, 0), lt(j, I("m"))]
            for d in range(nd):
                k = app("scale", [const(d)], "R") if trk == "given" else div(I("N%d" % d), R("L%d" % d))
                prove("positions in global mesh units, direction %d" % d, hj, eq(P.within(hj, lambda: y.at((j, const(d)))), mul(k, app("x", [j, const(d)], "R"))))
        call_paths(obs, "decompose: %d axes, smoothing %s, transform %s" % (nd, sm, trk), f, post, rp)
    # geometry: who needs a particle gets it (contracts of GridND.decompose (C01), of the windows (C06) and of the affine transformations (C10))
    def lf(): return None
    def lpost(p, prove, say):
        E0, E1, st, N, j, k, S = [I(x) for x in ("E0", "E1", "st", "N", "j", "k", "S")]
        u, x, sc = R("u"), R("x"), R("scale")
        base = [ge(E0, 0), lt(E0, E1), le(E1, N), ge(N, 1), ge(S, 0)]
        # the window at local site j, particle image u + k N: distance in local units at most half of the support
        loc = sub(mul(sc, x), E0)
        hy = base + [ge(j, 0), lt(j, sub(E1, E0)), le(absv(sub(add(loc, mul(k, N)), j)), div(S, 2))]
        v = add(mul(sc, x), mul(k, N))
        prove("lemma: a particle with weight on a local site touches the domain widened by half of the support", hy, and_(le(E0, add(v, div(S, 2))), lt(sub(v, div(S, 2)), E1)))
        prove("lemma: local site j is site start + j of the undivided mesh", base + [ge(j, 0), lt(j, sub(E1, E0))], and_(ge(add(E0, j), 0), lt(add(E0, j), N), eq(sub(loc, j), sub(mul(sc, x), add(E0, j)))))
    call_paths(obs, "geometry", lf, lpost, rp)
    obs.functions.add("pm.ParticleMesh.decompose")

def updown_contract(obs, rp):
    for op, nd, keep, rs in itertools.product(("upsample", "downsample"), (1, 2, 3), (False, True), (None, "name", "window")):
        def f(op=op, nd=nd, keep=keep, rs=rs):
            g = load(); comm = Comm()
            pa = by_contract(g, mesh(g, nd, comm, tag="a"), "a"); pb = by_contract(g, mesh(g, nd, comm, tag="b"), "b")
            paint_readout(g)
            def mesh_coordinates(self, dtype=None):
                q = partition_of(self, "R"); t = "a" if self is pa else "b"
                for x in q.ishape: P.CTX.assume(ge(x, 0))
                dt = np.dtype("f8") if dtype is None else np.dtype("i8")
                return N.new((prod(q.ishape), const(nd)), dt, lambda i: app("cell:" + t, list(i), "I"), "mesh_coordinates")
            def decompose(self, pos, smoothing=None, transform=None):
                event("decompose", self, frz(pos), smoothing, transform)
                return Layout("decomposed")
            g["ParticleMesh"].mesh_coordinates = mesh_coordinates; g["ParticleMesh"].decompose = decompose
            src = field(g, pa, "R"); s0 = frozen(src.value)
            r_ = {None: None, "name": "tsc", "window": Window("given")}[rs]
            ev0 = len(P.CTX.events)
            r = getattr(pb, op)(src, resampler=r_, keep_mean=keep)
            return g, pa, pb, src, s0, r_, P.CTX.events[ev0:], r
        def post(p, prove, say, op=op, nd=nd, keep=keep, rs=rs):
            if p.exc is not None: say("no exception", False, repr(p.exc)); return
            g, pa, pb, src, s0, r_, ev, r = p.res
            up = op == "upsample"
            names = [e.name for e in ev]
            say("one decomposition, one readout, one paint", sorted(names) == ["decompose", "paint", "readout"] and names[-1] == "paint", names)
            if sorted(names) != ["decompose", "paint", "readout"]: return
            D = ev[names.index("decompose")]; Rd = ev[names.index("readout")]; Pt = ev[names.index("paint")]
            cell = "cell:b" if up else "cell:a"; own = pb if up else pa
            n = prod(partition_of(own, "R").ishape)
            q = N.new((n, const(nd)), "i8", lambda i: app(cell, list(i), "I"), "q")
            for what, have in (("decomposed", D.args[1]), ("read out at", Rd.args[2]), ("painted at", Pt.args[1])): same_array(prove, "%s the cells of the %s" % (what, "finer mesh" if up else "source mesh"), have, q, n, nd)
            say("decomposed for the mesh that is divided otherwise", D.args[0] is (pa if up else pb) and D.args[2] is r_, D)
            say("readout of the source", Rd.args[0] is src and Rd.args[3] is None and Rd.args[4] is None and Rd.args[7] is None, Rd)
            say("paint into a new field of this mesh", Pt.args[0] is pb and Pt.args[2] is None and Pt.args[6] is None and r is Pt.args[8] and type(r) is g["RealField"] and r.pm is pb, Pt)
            lay = lambda e, k: isinstance(e.args[k], Layout) and e.args[k].name == "decomposed"
            if up:
                say("readout through the layout, with the window", lay(Rd, 8) and Rd.args[5] is r_ and Rd.args[6] is D.args[3], Rd)
                say("paint on this rank, nearest point, mesh units", Pt.args[7] is None and Pt.args[4] == "nnb" and Pt.args[5] is pb.affine_grid, Pt)
            else:
                say("readout on this rank, nearest point, mesh units", Rd.args[8] is None and Rd.args[5] == "nnb" and Rd.args[6] is pa.affine_grid, Rd)
                say("paint through the layout, with the window", lay(Pt, 7) and Pt.args[4] is r_ and Pt.args[5] is D.args[3], Pt)
            tr = D.args[3]
            div_, start = ("a", "b") if up else ("b", "a")      # divided mesh, mesh whose cells are the positions
            qd = partition_of(pa if up else pb, "R")
            for d in range(nd):
                k = const(d)
                el = lambda x: x.at((k,)) if x is not None and x.ndim == 1 else x.at(()) if x is not None else None
                s, t, per = el(tr.s), el(tr.t), el(tr.p)
                say("an affine transformation with a period", None not in (s, t, per), tr)
                if None in (s, t, per): return
                prove("scale, direction %d" % d, [], eq(s, div(I("%sN%d" % (div_, d)), I("%sN%d" % (start, d)))))
                prove("translation, direction %d" % d, [], eq(t, neg(qd.ist[d])))
                prove("period, direction %d" % d, [], eq(per, I("%sN%d" % (div_, d))))
            den = lambda t: div(prod([I("%sN%d" % (t, d)) for d in range(nd)]), prod([R("%sL%d" % (t, d)) for d in range(nd)]))
            f = ONE if keep == up else div(den("a"), den("b")) if up else div(den("b"), den("a"))
            i = I("i*"); hi = [ge(i, 0), lt(i, n)]
            m = Pt.args[3]
            say("a mass per cell", isinstance(m, SArr) and m.ndim == 1, m)
            prove("the value read, times the ratio of the densities of cells%s" % (" for the mean" if not up else " for the mass"), hi, eq(P.within(hi, lambda: m.at((i,))), mul(f, app("read:1", [i], "R"))))
            c, hc = cells(s0.shape_)
            prove("the source is kept", hc, eq(src.value.at(c), s0.at(c)))
            prove("the result is what was painted", [*cells(r.value.shape_)[1]], eq(r.value.at(cells(r.value.shape_)[0]), app("painted:1", list(cells(r.value.shape_)[0]), "R")))
        call_paths(obs, "%s: %d axes, %s, window %s" % (op, nd, "mean" if keep else "mass", rs), f, post, rp)
    obs.functions |= {"pm.ParticleMesh.upsample", "pm.ParticleMesh.downsample"}


# ---------------------------------------------------------------- C order of the whole mesh, previews, transposition
def clinear(q, kind, c, nd):
    st, _ = starts(q, kind); full = q.n if kind == "R" else q.no
    k = ZERO
    for s, x, m in zip(st, c, full): k = add(mul(k, m), add(s, x))
    return k
def ravel_contract(obs, rp):
    for nd, kind, ranks, op, out_ in itertools.product((1, 2, 3), "RTU", ("one", "many"), ("ravel", "unravel", "pm.unravel"), ("new", "in place", "array", "flat")):
        if kind == "U" and nd < 3 or nd == 1 and ranks == "many": continue
        if op != "ravel" and out_ in ("new", "in place"): continue
        def f(nd=nd, kind=kind, ranks=ranks, op=op, out_=out_):
            g = load(); pm = by_contract(g, mesh(g, nd, Comm(single=ranks == "one")))
            a = field(g, pm, kind); be = frozen(a.value)
            q = partition_of(pm, kind); _, sh = starts(q, kind)
            x = N.empty_like(a.value)
            xe = frozen(x)
            arg = {"new": None, "in place": Ellipsis, "array": x, "flat": Flat(x)}[out_]
            ev0 = len(P.CTX.events)
            if op == "ravel": r = a.ravel() if out_ == "new" else a.ravel(arg)
            elif op == "unravel": r = a.unravel(arg)
            else: r = pm.unravel(g[TYPES[kind]], arg)
            return g, pm, a, be, x, xe, P.CTX.events[ev0:], r
        def post(p, prove, say, nd=nd, kind=kind, ranks=ranks, op=op, out_=out_):
            if p.exc is not None:
                # a size that is not the number of values of the mesh is refused
                if op != "ravel" and isinstance(p.exc, AssertionError):
                    prove("refused only if the sizes do not add up", [], not_(eq(app("sum-over-ranks:1", [], "I"), prod([I("N%d" % d) for d in range(nd)] if kind == "R" else [*[I("N%d" % d) for d in range(nd - 1)], add(floor(div(I("N%d" % (nd - 1)), 2)), 1)]))))
                    return
                say("no exception", False, repr(p.exc)); return
            g, pm, a, be, x, xe, ev, r = p.res
            q = partition_of(pm, kind); _, sh = starts(q, kind)
            c, hc = cells(sh); ks = range(2 if be.dtype.kind == "c" else 1)
            if op == "ravel":
                dst = r.a if isinstance(r, Flat) else None
                say("a flat iterator of the output", dst is not None and (dst.buf is a.value.buf if out_ == "in place" else dst.buf is x.buf if out_ != "new" else dst.buf not in (a.value.buf, x.buf)), r)
                if dst is None: return
                if ranks == "one":
                    say("no communication", not ev, ev)
                    for k in ks: prove("the values in order, part %d" % k, hc, eq(rd(dst, c, k), rd(be, c, k)))
                else:
                    say("one sort by rank of the value in the mesh", [e.name for e in ev] == ["mpsort.sort"], ev)
                    if [e.name for e in ev] != ["mpsort.sort"]: return
                    o, sv, by = ev[0].args[2], ev[0].args[3], ev[0].args[4]
                    say("among the ranks of the mesh", ev[0].args[5] is pm.comm, ev[0].args[5])
                    say("into the output", isinstance(o, Flat) and o.a.buf is dst.buf, o)
                    for k in ks: prove("the values are sorted, part %d" % k, hc, eq(rd(sv, c, k), rd(be, c, k)))
                    say("by a number each", by is not None and by.ndim == nd and by.dtype.kind == "i", by)
                    prove("one key per value", [], and_(*[eq(u, v) for u, v in zip(by.shape_, sh)]))
                    prove("the key: index in the C order of the whole mesh", hc, eq(P.within(hc, lambda: by.at(c)), clinear(q, kind, c, nd)))
                if out_ != "in place":
                    for k in ks: prove("the field is kept, part %d" % k, hc, eq(rd(a.value, c, k), rd(be, c, k)))
            else:
                fl = r if op == "pm.unravel" else a
                if op == "pm.unravel":
                    say("a new field of the type", type(r) is g[TYPES[kind]] and r.value.buf is not a.value.buf and r.pm is pm, r)
                    if type(r) is not g[TYPES[kind]]: return
                names = [e.name for e in ev]
                if names[:1] == ["allreduce"]: prove("the size is that of the given array", [], eq(P.T_(ev[0].args[0]), prod(sh)))
                say("one agreement on the size, one permutation", names == ["allreduce"] + (["mpsort.permute"] if ranks == "many" else []), names)
                if ranks == "one":
                    for k in ks: prove("the values in order, part %d" % k, hc, eq(rd(fl.value, c, k), rd(xe, c, k)))
                elif names[1:] == ["mpsort.permute"]:
                    e = ev[1]
                    o, sv, by = e.args[2], e.args[3], e.args[4]
                    say("among the ranks of the mesh", e.args[5] is pm.comm, e.args[5])
                    say("into the field", isinstance(o, Flat) and o.a.buf is fl.value.buf, o)
                    for k in ks: prove("the values given, part %d" % k, hc, eq(rd(sv, c, k), rd(xe, c, k)))
                    say("by a number each", by is not None and by.ndim == nd and by.dtype.kind == "i", by)
                    prove("the place: index in the C order of the whole mesh", hc, eq(P.within(hc, lambda: by.at(c)), clinear(q, kind, c, nd)))
                for k in ks: prove("the given array is kept, part %d" % k, hc, eq(rd(x, c, k), rd(xe, c, k)))
        call_paths(obs, "%s: %s, %s rank%s, %s" % (op, meshcase(kind, nd, "f8"), ranks, "" if ranks == "one" else "s", out_), f, post, rp)
    obs.functions |= {"pm.Field.ravel", "pm.Field.unravel", "pm.ParticleMesh.unravel"}


def preview_contract(obs, rp):
    for nd, kind, ax, res in itertools.product((1, 2, 3), "RT", (None, "one", "some", "perm"), (None, "same", "coarser", "finer", "up", "down")):
        if ax in ("some", "perm") and nd < 2 or kind == "T" and (nd == 2 or res) or res and (nd == 2 or ax == "perm"): continue
        axes = {None: None, "one": nd - 1, "some": (2, 0) if nd == 3 else (1,), "perm": (1, 2, 0)[:nd] if nd == 3 else (1, 0)}[ax]
        def f(nd=nd, kind=kind, axes=axes, res=res):
            dt = "f4" if nd == 2 else "f8"
            g = load(); comm = Comm(); pm = by_contract(g, mesh(g, nd, comm, dt))
            field_contracts(g, "c2r")
            a = field(g, pm, kind); be = frozen(a.value)
            pb = by_contract(g, mesh(g, nd, comm, tag="b"), "b")
            made = []
            def reshape(self, Nmesh=None, BoxSize=None):
                event("reshape", self, frz(Nmesh), BoxSize); return pb
            def sampled(nm):
                def h(self, source, resampler=None, keep_mean=False):
                    event(nm, self, source, resampler, keep_mean)
                    r = field(g, pb, "R"); r.value[...] = symarr("resampled", r.value.shape_, "f8")
                    return r
                return h
            g["ParticleMesh"].reshape = reshape
            g["ParticleMesh"].upsample = sampled("upsample"); g["ParticleMesh"].downsample = sampled("downsample")
            kw = {}
            if axes is not None: kw["axes"] = axes
            if res is not None:
                kw["Nmesh"] = asarr([W(I("M%d" % d)) for d in range(nd)], "i8")
                Ms, Ns = [I("M%d" % d) for d in range(nd)], [I("N%d" % d) for d in range(nd)]
                for m, b in zip(Ms, [I("bN%d" % d) for d in range(nd)]): P.CTX.assume(eq(m, b))
                P.CTX.assume(and_(*[eq(m, b) for m, b in zip(Ms, Ns)]) if res == "same" else or_(*[lt(m, b) for m, b in zip(Ms, Ns)]) if res == "coarser" else and_(*[ge(m, b) for m, b in zip(Ms, Ns)], or_(*[gt(m, b) for m, b in zip(Ms, Ns)])) if res == "finer" else not_(and_(*[eq(m, b) for m, b in zip(Ms, Ns)])))
                if res in ("up", "down"): kw["method"] = res + "sample"
                kw["resampler"] = Window("given")
            ev0 = len(P.CTX.events)
            r = a.preview(**kw)
            return g, pm, pb, a, be, kw, P.CTX.events[ev0:], r
        def post(p, prove, say, nd=nd, kind=kind, axes=axes, res=res):
            if p.exc is not None: say("no exception", False, repr(p.exc)); return
            g, pm, pb, a, be, kw, ev, r = p.res
            names = [e.name for e in ev]
            want = (["c2r"] if kind == "T" else []) + ([] if res in (None, "same") else ["reshape", "upsample" if res in ("finer", "up") else "downsample"]) + ["Allreduce"]
            say("calls", names == want, names)
            if names != want: return
            fld = be; q = partition_of(pm, "R")
            if kind == "T":
                say("the field is transformed, out of place", ev[0].args[0] is a and ev[0].args[1] is not a and ev[0].args[1]._base.storage is not a._base.storage, ev[0])
                fld = ev[0].args[1].value
            if res not in (None, "same"):
                e, e2 = ev[-3], ev[-2]
                say("a mesh of that size and the same box", e.args[0] is pm and e.args[2] is None, e)
                for d in range(nd): prove("size, axis %d" % d, [], eq(e.args[1].at((const(d),)), I("M%d" % d)))
                say("the mean is kept, with the window asked for", e2.args[0] is pb and e2.args[1] is a and e2.args[2] is kw["resampler"] and e2.args[3] is True, e2)
                q = partition_of(pb, "R")
                fld = symarr("resampled", q.ishape, "f8")
            e = ev[-1]
            say("the sum over the ranks", e.args[0] == "IN_PLACE" and e.args[2] in (None, "SUM"), e)
            ax = list(range(nd)) if axes is None else [axes] if isinstance(axes, int) else list(axes)
            b = e.args[1]
            say("in the precision of the field", b.dtype == (np.dtype("f4") if nd == 2 else np.dtype("f8")), b.dtype)
            prove("shape of the result", [], and_(const(b.ndim == len(ax)), *[eq(x, q.n[k]) for x, k in zip(b.shape_, ax)]))
            say("what was summed is returned", isinstance(r, SArr) and r.ndim == len(ax) and same_fn(r, "sum-over-ranks:%d" % pm.comm.n), r)
            c, hc = cells([q.n[k] for k in ax])
            mine = and_(*[and_(ge(x, q.ist[k]), lt(x, add(q.ist[k], q.ishape[k]))) for x, k in zip(c, ax)])
            rest = [d for d in range(nd) if d not in ax]
            hy = hc + [mine]
            have = P.resolve(P.within(hy, lambda: b.at(c)), list(P.CTX.pc) + hy)
            loc = {k: sub(x, q.ist[k]) for x, k in zip(c, ax)}
            if not rest: prove("contribution of this rank", hy, eq(have, fld.at(tuple(loc[d] for d in range(nd)))))
            else:
                rs, body = sum_parts(have)
                say("a sum over the other axes", len(rs) == len(rest), show(have)[:200])
                if len(rs) == len(rest):
                    zz, hz = cells(q.ishape, "?"); nm = P.resolve(P.within(hz, lambda: fld.at(zz)), list(P.CTX.pc) + hz).args[0]
                    use = [s for s in subterms(body) if s.op == "app" and s.args[0] == nm]
                    ok = len(use) == 1
                    say("of the field", ok, (nm, show(body)[:200]))
                    if ok:
                        for d in range(nd):
                            t = use[0].args[1 + d]
                            if d in loc: prove("place along axis %d" % d, hy, eq(t, loc[d]))
                            else:
                                k = [i for i, x in enumerate(rs) if x[0] is t]
                                say("axis %d is summed" % d, len(k) == 1, show(t))
                                if len(k) == 1: prove("over all of its local cells, axis %d" % d, hy, and_(eq(rs[k[0]][1], 0), eq(rs[k[0]][2], q.ishape[d])))
                        prove("the summand is the value", hy, eq(body, use[0]))
            hn = hc + [not_(mine)]
            prove("nothing elsewhere", hn, eq(P.resolve(P.within(hn, lambda: b.at(c)), list(P.CTX.pc) + hn), 0))
            cc, hcc = cells(be.shape_, "e")
            for k in range(2 if be.dtype.kind == "c" else 1): prove("the field is kept, part %d" % k, hcc, eq(rd(a.value, cc, k), rd(be, cc, k)))
        call_paths(obs, "preview: %s, axes %s, resolution %s" % (meshcase(kind, nd, "f8"), ax, res), f, post, rp)
    obs.functions.add("pm.Field.preview")

def ctranspose_contract(obs, rp):
    for nd, axes in [(n, list(x)) for n in (1, 2, 3) for x in itertools.permutations(range(n))]:
        def f(nd=nd, axes=axes):
            g = load(); comm = Comm(); pm = by_contract(g, mesh(g, nd, comm)); pb = by_contract(g, mesh(g, nd, comm, tag="b"), "b")
            paint_readout(g)
            n = I("particles"); P.CTX.assume(ge(n, 0))
            def reshape(self, Nmesh=None, BoxSize=None): event("reshape", self, frz(asarr(Nmesh)), frz(asarr(BoxSize))); return pb
            def grid(self, shift=None, dtype=None, return_id=False):
                event("grid", self, shift)
                return N.new((n, const(nd)), "f8", lambda i: app("grid", list(i), "R"), "grid")
            def decompose(self, pos, smoothing=None, transform=None): event("decompose", self, frz(pos), smoothing, transform); return Layout("decomposed")
            for k, h in (("reshape", reshape), ("generate_uniform_particle_grid", grid), ("decompose", decompose)): setattr(g["ParticleMesh"], k, h)
            a = field(g, pm, "R"); be = frozen(a.value)
            ev0 = len(P.CTX.events)
            r = a.ctranspose(axes)
            return g, pm, pb, a, be, P.CTX.events[ev0:], r
        def post(p, prove, say, nd=nd, axes=axes):
            if p.exc is not None: say("no exception", False, repr(p.exc)); return
            g, pm, pb, a, be, ev, r = p.res
            n = I("particles"); names = [e.name for e in ev]
            say("calls", sorted(names) == ["decompose", "grid", "paint", "readout", "reshape"] and names[-1] == "paint" and names.index("grid") < names.index("readout"), names)
            if sorted(names) != ["decompose", "grid", "paint", "readout", "reshape"]: return
            E = {e.name: e for e in ev}
            for d in range(nd):
                prove("size of the transposed mesh, axis %d" % d, [], and_(eq(E["reshape"].args[1].at((const(d),)), I("N%d" % axes[d])), eq(E["reshape"].args[2].at((const(d),)), R("L%d" % axes[d]))))
            sft = E["grid"].args[1]
            say("particles at the cells of this mesh", E["reshape"].args[0] is pm and E["grid"].args[0] is pm and sft == 0, E["grid"])
            q = N.new((n, const(nd)), "f8", lambda i: app("grid", list(i), "R"), "q"); qt = N.new((n, const(nd)), "f8", lambda i: pick([app("grid", [i[0], const(axes[d])], "R") for d in range(nd)], i[1]), "q")
            e = E["readout"]
            say("the value of each cell", e.args[0] is a and e.args[5] == "nnb" and e.args[3] is None and e.args[6] is None and e.args[7] is None and e.args[8] is None, e)
            same_array(prove, "read at the cells", e.args[2], q, n, nd)
            e = E["decompose"]
            say("sent to the owner of the transposed cell", e.args[0] is pb and e.args[2] == "nnb" and e.args[3] is None, e)
            same_array(prove, "by the transposed positions", e.args[1], qt, n, nd)
            e = E["paint"]
            say("and stored there", e.args[0] is pb and r is e.args[8] and e.args[2] is None and e.args[4] == "nnb" and e.args[5] is None and e.args[6] is None and isinstance(e.args[7], Layout) and e.args[7].name == "decomposed", e)
            same_array(prove, "at the transposed positions", e.args[1], qt, n, nd)
            same_array(prove, "its value", e.args[3], symarr("read:1", [n], "f8"), n, None)
            c, hc = cells(be.shape_)
            prove("the field is kept", hc, eq(a.value.at(c), be.at(c)))
        call_paths(obs, "ctranspose: %s" % axes, f, post, rp)
    obs.functions.add("pm.RealField.ctranspose")


# ---------------------------------------------------------------- C21: constructor, cached plans, derived meshes
class SetDiff:
    """contract of setdiff1d(arange(n), a): the numbers below n not in a, ascending"""
    def __init__(self, n, a): self.n, self.a = n, a
    def __setmask__(self, a, mask):
        n = a.shape_[0]
        if P.CTX.decide(eq(n, self.n)) is not True: raise Unsupported("setdiff1d: length")
        i = P.CTX.fresh("i")
        old = frozen(a)
        for x, y in ((mask.at((i,)), eq(old.at((i,)), -1)), (self.a.at((i,)), old.at((i,)))):
            t = P.truth(x) if y.sort == "B" else x
            if t is y: continue
            q = and_(implies(t, y), implies(y, t)) if y.sort == "B" else eq(t, y)
            if not P.CTX.decide(implies(and_(ge(i, 0), lt(i, n)), q)) is True: raise Unsupported("setdiff1d: what is filled in")
        # the marked entries receive the values that are missing: every value occurs exactly once (the others are distinct: pfft)
        P.CTX.nfresh += 1
        own, inv = "domain-of-rank:%d" % P.CTX.nfresh, "rank-of-domain:%d" % P.CTX.nfresh
        def inst(i):
            t = app(own, [i], "I"); o = old.at((i,))
            return implies(and_(ge(i, 0), lt(i, n)), and_(ge(t, 0), lt(t, n), eq(app(inv, [t], "I"), i), implies(ne(o, -1), eq(t, o))))
        def onto(k):
            r = app(inv, [k], "I")
            return implies(and_(ge(k, 0), lt(k, n)), and_(ge(r, 0), lt(r, n), eq(app(own, [r], "I"), k)))
        def elt(i):
            P.CTX.fact(inst(i[0]))
            return app(own, list(i), "I")
        P.CTX.perm = (inst, onto, lambda k: app(inv, [k], "I"))
        a[...] = N.new((n,), "i8", elt, "domains")

class Gathered3(Gathered2):
    def __parray__(self):
        nm = "allgather:%d" % self.k
        x, r = T_(self.x), self.comm.rank_
        P.CTX.assume(eq(app(nm, [r], "I"), x))
        return P.copy_(N.new((self.comm.size_,), "i8", lambda i: app(nm, list(i), "I"), "allgather"))

def ctor_env(nd, dtype, alive=None):
    g = load()
    made = []
    P.CTX.assume(TRUE)
    class Comm3(Comm):
        def allgather(self, x): self.n += 1; event("allgather", x); return Gathered3(self, x, self.n)
    def newcomm():
        c = Comm3.__new__(Comm3)
        c.size_ = prod([I("blocks%d" % d) for d in range(nd)]); c.rank_ = I("rank"); c.n = 0
        c.size, c.rank = W(c.size_), W(c.rank_)
        for d in range(nd): P.CTX.assume(ge(I("blocks%d" % d), 1))
        P.CTX.assume(and_(ge(c.rank_, 0), lt(c.rank_, c.size_), ge(c.size_, 1)))
        return c
    class ProcMesh:
        def __init__(self, np, comm): self.np, self.comm = np, comm; event("ProcMesh", self)
    class Partition(Part):
        def __init__(self, type, n, procmesh, flags=0):
            k = sum(1 for e in P.CTX.events if e.name == "Partition") + 1
            Part.__init__(self, "q%d" % k, nd, [T_(x) for x in n], g["numpy"].dtype(dtype))
            # as many blocks as ranks
            self.i_edges = []
            for d in range(nd):
                nm = "q%di-edge%d" % (k, d); m = I("blocks%d" % d)
                P.CTX.assume(eq(app(nm, [m], "I"), self.n[d])); P.CTX.assume(eq(app(nm, [ZERO], "I"), 0))
                self.i_edges.append(symarr(nm, [add(m, 1)], "i8"))
            self.type, self.nmesh, self.procmesh, self.flags = type, n, procmesh, flags
            event("Partition", self)
    class Plan_:
        def __init__(self, partition, direction, i, o, type, flags=0):
            self.partition, self.direction, self.i, self.o, self.type, self.flags = partition, direction, i, o, type, flags
            event("Plan", self)
    pf = g["pfft"]
    for k, v in dict(ProcMesh=ProcMesh, Partition=Partition, Plan=Plan_, split_size_2d=lambda n: split2(n)).items(): setattr(pf, k, v)
    def split2(n):
        a, b = I("split0"), I("split1")
        P.CTX.assume(and_(ge(a, 1), ge(b, 1)))
        event("split_size_2d", n)
        return [W(a), W(b)]
    np_ = g["numpy"]
    def setdiff1d(a, b):
        n = a.shape_[0]; j = P.CTX.fresh("j")
        if a.at((j,)) is not j: raise Unsupported("setdiff1d")
        return SetDiff(n, frozen(asarr(b)))
    def flatnonzero(c):
        """contract; the code asks where a block starts, and pfft's block of this rank starts at one of the edges"""
        P.CTX.nfresh += 1
        nm = "flatnonzero:%d" % P.CTX.nfresh
        c = frozen(c)
        n = app(nm + ":len", [], "I")
        first = app(nm, [ZERO], "I")
        P.CTX.fact(and_(ge(n, 1), le(n, c.shape_[0]), ge(first, 0), lt(first, sub(c.shape_[0], 1))))
        P.CTX.fact(P.truth(c.at((first,))))
        g.setdefault("firsts", []).append(first)
        return N.new((n,), "i8", lambda i: app(nm, list(i), "I"), "flatnonzero")
    np_.setdiff1d, np_.flatnonzero = setdiff1d, flatnonzero
    def GridND(edges, comm=None, DomainAssign=None, **k):
        r = object(); event("GridND", r, edges, comm, frozen(DomainAssign), k); return r
    g["domain"].GridND = GridND
    g["MPI"].COMM_WORLD = newcomm()
    return g, newcomm

def eqkey(a, b):
    """when two dictionary keys are equal"""
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        if type(a) is not type(b) or len(a) != len(b): return FALSE
        return and_(*[eqkey(x, y) for x, y in zip(a, b)])
    if isinstance(a, SArr) or isinstance(b, SArr): raise Unsupported("array in a key")
    if P.numeric(a) and P.numeric(b): return eq(T_(a), T_(b))
    if isinstance(a, (Sym, SArr)) or isinstance(b, (Sym, SArr)): return FALSE
    return TRUE if a == b else FALSE

def ctor_args(g, nd, npk, comm, tag, scalarbox):
    Ns = [I("%sN%d" % (tag, d)) for d in range(nd)]; Ls = [R("%sL%d" % (tag, d)) for d in range(nd)]
    for a, b in zip(Ns, Ls): P.CTX.assume(and_(ge(a, 1), gt(b, 0)))
    npl = None if npk is None else [W(I("%snp%d" % (tag, d))) for d in range(npk)]
    return Ns, Ls, npl, dict(Nmesh=[W(x) for x in Ns], BoxSize=W(Ls[0]) if scalarbox else [W(x) for x in Ls], np=npl, comm=comm)

TYPESOF = {"f8": ("PFFT_R2C", "PFFT_C2R"), "f4": ("PFFTF_R2C", "PFFTF_C2R"), "c16": ("PFFT_C2C",) * 2, "c8": ("PFFTF_C2C",) * 2}
def init_contract(obs, rp):
    FL = {n: 1 << k for k, n in enumerate(("PFFT_TRANSPOSED_OUT", "PFFT_TRANSPOSED_IN", "PFFT_DESTROY_INPUT", "PFFT_PRESERVE_INPUT", "PFFT_PADDED_R2C", "PFFT_PADDED_C2R", "PFFT_ESTIMATE", "PFFT_MEASURE", "PFFT_EXHAUSTIVE"))}
    for nd, npk, dt, pmeth, world in [(n, k, d, m, w) for n in (1, 2, 3) for k in (None, n - 1, n) + ((1,) if n == 3 else ()) for d in ("f8", "f4", "c16", "c8") for m in ("estimate", "measure", "exhaustive") for w in (False, True)]:
        if (pmeth != "estimate" or world) and (dt != "f8" or (nd == 3 and npk is not None)): continue
        def f(nd=nd, npk=npk, dt=dt, pmeth=pmeth, world=world):
            g, newcomm = ctor_env(nd, dt)
            comm = None if world else newcomm()
            Ns, Ls, npl, kw = ctor_args(g, nd, npk, comm, "", world)
            if world: comm = g["MPI"].COMM_WORLD
            state = {}
            def cached(k):
                """an entry of the cache: what a constructor left there under an equal key (proved below), if it is still alive"""
                if not W(var("alive", "B")): return None
                pmesh = g["pfft"].ProcMesh(npl, comm=comm)
                plans = {}
                for s in ("T", "U"):
                    plans["partition" + s] = g["pfft"].Partition("?", [W(x) for x in Ns], pmesh, 0)
                    for q in ("forward", "backward", "ipforward", "ipbackward"): plans[q + s] = object()
                state["entry"] = t = g["_pmtemplate"](pmesh, plans)
                state["n0"] = len(P.CTX.events)
                return t
            CACHE[0] = cached
            w = g["_pm_cache"]
            try: pm = g["ParticleMesh"](dtype=dt, plan_method=pmeth, resampler="cic", **kw)
            finally: CACHE[0] = None
            return g, pm, w, state, comm, npl, P.CTX.events[:]
        def post(p, prove, say, nd=nd, npk=npk, dt=dt, pmeth=pmeth, world=world):
            Ns = [I("N%d" % d) for d in range(nd)]; Ls = [R("L%d" % (0 if world else d)) for d in range(nd)]
            size = prod([I("blocks%d" % d) for d in range(nd)])
            if p.exc is not None:
                if nd == 1 and isinstance(p.exc, ValueError): prove("refused only on several ranks in one dimension", [], ne(size, 1)); return
                say("no exception", False, repr(p.exc)); return
            g, pm, w, state, comm, npl, ev = p.res
            F = g["pfft"].Flags
            fl = lambda *n: sum({getattr(F, x) for x in n})
            entry = state.get("entry")
            # agreement: the cached plans are used exactly when every rank found its own
            gath = [e for e in ev if e.name == "allgather"]
            say("the ranks compare what they found before anything is created", bool(gath) and not [e for e in ev[:ev.index(gath[0])] if e.name in ("Partition", "Plan", "ProcMesh")] or entry is not None and bool(gath), ev)
            say("what is compared is whether this rank found an entry", bool(gath) and (gath[0].args[0] is True or gath[0].args[0] is False) and gath[0].args[0] == (entry is not None), gath[:1])
            allb = var("all-ranks:1", "B")
            new = [e for e in (ev[state["n0"]:] if entry is not None else ev)]
            mk = [e.args[0] for e in new if e.name == "Plan"]; pms = [e.args[0] for e in new if e.name == "ProcMesh"]
            reused = entry is not None and pm.plans is entry.plans
            if reused:
                prove("plans are reused only if all ranks found theirs", [], allb)
                say("nothing is created then", not mk and not pms, new)
                say("plans and process mesh are those of the entry", pm.procmesh is entry.procmesh, pm.procmesh)
            else:
                prove("plans are made anew only if some rank found none", [], not_(allb))
                say("one new process mesh over the communicator", len(pms) == 1 and pms[0].comm is comm and pm.procmesh is pms[0], pms)
                if npl is not None: say("process mesh of the shape asked for", pms and len(pms[0].np) == len(npl) and all(T_(a) is T_(b) for a, b in zip(pms[0].np, npl)), pms)
            say("the entry stored is what this object uses", len(w.sets) == 1 and w.sets[0][1].plans is pm.plans and w.sets[0][1].procmesh is pm.procmesh, w.sets)
            say("the object keeps the entry alive", any(v is w.sets[0][1] for v in vars(pm).values()), "")
            say("one lookup", len(w.gets) == 1, w.gets)
            if w.gets and w.sets: prove("stored under the key that was looked up", [], eqkey(w.gets[0], w.sets[0][0]))
            # the plans
            padded = not (npl is not None and len(npl) == nd)
            base = fl("PFFT_PRESERVE_INPUT", "PFFT_PADDED_R2C", "PFFT_PADDED_C2R") if padded else fl("PFFT_DESTROY_INPUT")
            meth = getattr(F, "PFFT_" + pmeth.upper())
            say("padding is remembered", pm._use_padded is padded, pm._use_padded)
            if not reused:
                say("two partitions and eight plans by name", set(pm.plans) == {"partitionT", "partitionU"} | {a + b + c for a in ("", "ip") for b in ("forward", "backward") for c in "TU"}, list(pm.plans))
                for s in "TU":
                    q = pm.plans["partition" + s]
                    parts = [q]
                    for ip in ("", "ip"):
                        fw, bw = pm.plans[ip + "forward" + s], pm.plans[ip + "backward" + s]
                        nm = "%sforward%s" % (ip, s)
                        say(nm + ": directions", fw.direction == "forward" and bw.direction == "backward", (fw.direction, bw.direction))
                        say(nm + ": types of the data type", (fw.type, bw.type) == TYPESOF[dt], (fw.type, bw.type))
                        say(nm + ": one partition", fw.partition is bw.partition, "")
                        say(nm + ": forward flags", fw.flags == base + meth + (fl("PFFT_TRANSPOSED_OUT") if s == "T" else 0), fw.flags)
                        say(nm + ": backward flags", bw.flags == base + meth + (fl("PFFT_TRANSPOSED_IN") if s == "T" else 0), bw.flags)
                        say(nm + ": buffers", (fw.i is fw.o) == (ip == "ip") and bw.i is fw.o and bw.o is fw.i and fw.i.partition is fw.partition and fw.o.partition is fw.partition, "")
                        if fw.partition not in parts: parts.append(fw.partition)
                    say("out of place plans use the named partition " + s, pm.plans["forward" + s].partition is q, "")
                    for k, x in enumerate(parts):
                        say("partition %s %d: type, flags, process mesh" % (s, k), x.type == TYPESOF[dt][0] and x.flags == base + (fl("PFFT_TRANSPOSED_OUT") if s == "T" else 0) and x.procmesh is pm.procmesh, (x.type, x.flags))
                        nn = asarr(x.nmesh)
                        for d in range(nd): prove("partition %s %d: mesh size, axis %d" % (s, k, d), [], eq(nn.at((const(d),)), Ns[d]))
            # the fields of the object (what the other contracts assume of a mesh)
            say("communicator, data type, window", pm.comm is comm and pm.dtype == np.dtype(dt) and isinstance(pm.resampler, Window) and pm.resampler.name == "named:cic", (pm.comm, pm.dtype, pm.resampler))
            say("number of axes", P.p_len(pm.Nmesh) == nd and pm.ndim == nd and P.p_len(pm.BoxSize) == nd, pm.ndim)
            if npl is not None: say("rank layout", len(pm.np) == len(npl) and all(T_(a) is T_(b) for a, b in zip(pm.np, npl)), pm.np)
            else: say("default rank layout: all axes but one", len(pm.np) == min(2, nd - 1), pm.np)
            if npl is None and nd == 2: prove("default rank layout: all ranks", [], eq(T_(pm.np[0]), size))
            if npl is None and nd == 3: say("default rank layout: from the number of ranks", [T_(e.args[0]) for e in ev if e.name == "split_size_2d"] == [size] and [T_(x) for x in pm.np] == [I("split0"), I("split1")], pm.np)
            T = pm.plans["partitionT"]
            for d in range(nd):
                c = (const(d),)
                prove("Nmesh, axis %d" % d, [], eq(pm.Nmesh.at(c), Ns[d]))
                prove("BoxSize, axis %d" % d, [], eq(pm.BoxSize.at(c), Ls[d]))
                for nm, a, sc in (("affine", pm.affine, div(Ns[d], Ls[d])), ("affine_grid", pm.affine_grid, ONE)):
                    b = lambda x: x.at(c) if x.ndim else x.at(())
                    prove("%s: scale, axis %d" % (nm, d), [], eq(b(a.s), sc))
                    prove("%s: translation, axis %d" % (nm, d), [], eq(b(a.t), neg(T.ist[d])))
                    prove("%s: period, axis %d" % (nm, d), [], eq(b(a.p), Ns[d]))
            say("affine transformations have as many axes", pm.affine.ndim == nd and pm.affine_grid.ndim == nd, "")
            # the decomposition
            gr = [e for e in ev if e.name == "GridND"]
            say("one domain decomposition, of the cells of the transposed partition", len(gr) == 1 and pm.domain is gr[0].args[0] and gr[0].args[1] is T.i_edges and gr[0].args[2] is comm and not gr[0].args[4], gr)
            if len(gr) == 1:
                da = gr[0].args[3]
                prove("one owner per domain", [], and_(const(da.ndim == 1), eq(da.shape_[0], size)))
                # domain of this rank: where its block starts
                mine = and_(*[gt(n, 0) for n in T.ishape])
                firsts = g["firsts"]
                if len(firsts) == nd:
                    k = ZERO
                    for d in range(nd): k = add(mul(k, sub(T.i_edges[d].shape_[0], 1)), firsts[d])
                    hy = [mine] + [eq(e.at((x,)), s) for e, x, s in zip(T.i_edges, firsts, T.ist)]
                    def instances(hy, k):
                        """the domains are a permutation of the ranks: used at this rank, at the owner of k and at the writers"""
                        pm_ = getattr(P.CTX, "perm", None)
                        if pm_ is None: return hy
                        inst, onto, inv = pm_
                        c = [I("rank"), inv(k)] + [w for _, w, _, _ in P.CTX.wfacts]
                        return hy + [onto(k)] + [inst(x) for x in c] + [implies(subst(al, {b: x}), has) for has, w, b, al in P.CTX.wfacts for x in c[:2]] + [implies(has, subst(al, {b: w})) for has, w, b, al in P.CTX.wfacts]
                    v = P.within(hy, lambda: da.at((k,)))
                    prove("the block stored by this rank is its domain", instances(hy, k), eq(v, I("rank")))
                    j = I("j*"); hj = [ge(j, 0), lt(j, size)]
                    o = P.within(hj, lambda: da.at((j,)))
                    prove("every domain is assigned to a rank", instances(hj, j), and_(ge(o, 0), lt(o, size)))
                else: say("where the block of this rank starts", False, len(firsts))
            lens = sum(1 for e in ev if e.name == "allgather")
            say("two collective calls", lens == 2 and all(e.name in ("allgather", "Partition", "Plan", "ProcMesh", "GridND", "split_size_2d") for e in ev), [e.name for e in ev])
        call_paths(obs, "constructor: %d axes, np %s, %s, %s%s" % (nd, npk, dt, pmeth, ", world" if world else ""), f, post, rp)
    obs.assumptions |= {"pfft: the block a rank stores starts at an edge of its partition, different ranks store different blocks, and there are as many blocks as ranks", "the address of a live communicator identifies it"}
    obs.functions |= {"pm.ParticleMesh.__init__", "pm._pmtemplate"}

def cachekey_contract(obs, rp):
    """two objects are made one after the other; equal keys mean equal configurations"""
    DT = ("f8", "f4", "c16", "c8")
    base = [(nd, npk, "f8", "estimate") for nd in (1, 2, 3) for npk in (nd - 1, nd)] + [(3, 1, "f8", "estimate"), (2, 1, "f4", "estimate"), (2, 1, "c16", "estimate"), (2, 1, "c8", "measure"), (2, 1, "f8", "measure"), (2, 2, "f8", "exhaustive")]
    pairs = [(a, b) for a in base for b in base if a <= b]
    for A, B in pairs:
        def f(A=A, B=B):
            keys = []
            g = None
            for tag, (nd, npk, dt, pmeth) in (("a.", A), ("b.", B)):
                g, newcomm = ctor_env(nd, dt)
                comm = newcomm()
                Ns, Ls, npl, kw = ctor_args(g, nd, npk, comm, tag, False)
                ad = W(I(tag + "address")); sz = W(I("size")); rk = W(I(tag + "rank_"))
                g["MPI"]._addressof = lambda c, ad=ad: ad
                g["_pm_cache"].gets = gets = []
                class Seen(Exception): pass
                def look(k): raise Seen
                CACHE[0] = look
                try: g["ParticleMesh"](dtype=dt, plan_method=pmeth, resampler="cic", **kw)
                except Seen: pass
                finally: CACHE[0] = None
                keys.append(gets[0])
            return keys
        def post(p, prove, say, A=A, B=B):
            if p.exc is not None:
                if isinstance(p.exc, ValueError) and 1 in (A[0], B[0]): return
                say("no exception", False, repr(p.exc)); return
            e = eqkey(*p.res)
            if A != B: prove("different configurations have different keys", [], not_(e)); return
            for d in range(A[0]): prove("equal keys: equal mesh size, axis %d" % d, [e], eq(I("a.N%d" % d), I("b.N%d" % d)))
            for d in range(A[1]): prove("equal keys: equal rank layout, axis %d" % d, [e], eq(I("a.np%d" % d), I("b.np%d" % d)))
            prove("equal keys: one communicator", [e], eq(I("a.address"), I("b.address")))
        call_paths(obs, "cache key: %s and %s" % (A, B), f, post, rp)

def derive_contract(obs, rp):
    for nd, how, nk, bk in [(n, h, a, b) for n in (1, 2, 3) for h in ("reshape", "resize", "respawn") for a in ("none", "scalar", "list", "longer", "shorter") for b in ("none", "scalar", "list")]:
        if how == "respawn" and (nk not in ("none", "list") or bk != "none"): continue
        if how == "resize" and (bk != "none" or nk == "none"): continue
        if nk == "shorter" and nd == 1: continue
        def f(nd=nd, how=how, nk=nk, bk=bk):
            g = load(); pm = mesh(g, nd, Comm(), "c8")
            made = []
            import inspect
            C = g["ParticleMesh"]; sig = inspect.signature(C.__init__)
            def record(self, *a, **k):
                b = sig.bind(self, *a, **k).arguments
                made.append((self, {n: v for n, v in b.items() if n != list(sig.parameters)[0]}))
            C.__init__ = record
            n2 = nd + (1 if nk == "longer" else -1 if nk == "shorter" else 0)
            Nm = None if nk == "none" else W(I("M")) if nk == "scalar" else [W(I("M%d" % d)) for d in range(n2)]
            Bx = None if bk == "none" else W(R("B")) if bk == "scalar" else [W(R("B%d" % d)) for d in range(n2)]
            other = None
            if how == "reshape": r = pm.reshape(Nmesh=Nm, BoxSize=Bx)
            elif how == "resize": r = pm.resize(Nm)
            else:
                other = Comm()
                r = pm.respawn(other, np=["x"]) if nk == "list" else pm.respawn(other)
            return pm, made, r, n2, other
        def post(p, prove, say, nd=nd, how=how, nk=nk, bk=bk):
            if p.exc is not None:
                say("refused only when the number of axes of the box is unknown", how != "respawn" and nk == "longer" and bk == "none" and isinstance(p.exc, ValueError), repr(p.exc)); return
            pm, made, r, n2, other = p.res
            say("one mesh object is made and returned", len(made) == 1 and r is made[0][0], made)
            k = dict(made[0][1])
            if how == "respawn" : n2 = nd
            say("data type and window of the parent", k.get("dtype") == pm.dtype and k.get("resampler") is pm.resampler, k)
            if how == "respawn":
                say("communicator asked for", k.get("comm") is other, "")
                say("rank layout asked for", k.get("np") == (["x"] if nk == "list" else None), k.get("np"))
            else:
                say("communicator of the parent", k.get("comm") is pm.comm, "")
                say("rank layout of the parent", k.get("np") is pm.np or (k.get("np") is not None and list(k["np"]) == list(pm.np)), k.get("np"))
            say("nothing else", set(k) <= {"Nmesh", "BoxSize", "dtype", "comm", "np", "resampler", "plan_method"}, list(k))
            Nm, Bx = asarr(k["Nmesh"]), asarr(k["BoxSize"])
            say("number of axes", [num(x) for x in Nm.shape_] == [n2] and [num(x) for x in Bx.shape_] == [n2], (Nm.shape_, Bx.shape_))
            for d in range(n2):
                wn = I("N%d" % d) if nk == "none" or how == "respawn" else I("M") if nk == "scalar" else I("M%d" % d)
                wb = R("L%d" % d) if bk == "none" else R("B") if bk == "scalar" else R("B%d" % d)
                prove("mesh size, axis %d" % d, [], eq(Nm.at((const(d),)), wn))
                prove("box, axis %d" % d, [], eq(Bx.at((const(d),)), wb))
        call_paths(obs, "%s: %d axes, Nmesh %s, BoxSize %s" % (how, nd, nk, bk), f, post, rp)
    obs.functions |= {"pm.ParticleMesh.reshape", "pm.ParticleMesh.resize", "pm.ParticleMesh.respawn"}

# ---------------------------------------------------------------- C20: the same collective calls on all ranks
def collectives_contract(obs, rp):
    """operations whose callees are replaced by contracts: a callee that is collective counts as one collective call"""
    p_lay.COLL += [x for x in ("layout.exchange", "layout.gather", "domain.decompose", "mpsort.sort", "mpsort.take", "mpsort.permute", "execute", "ProcMesh", "Partition", "Plan", "GridND", "reshape") if x not in p_lay.COLL]
    p_lay.GLOBALS += [x for x in ["all-ranks:", "sum-over-ranks:", "M", "split0", "split1", "blocks0", "blocks1", "blocks2"] + ["%s%s%d" % (a, b, d) for a in ("", "a", "b") for b in "NLxM" for d in range(3)] if x not in p_lay.GLOBALS]
    def same(name, f): TASKS.append((name, f, "same", rp))
    def setup(nd, dt="f8", two=False, single=None):
        g = load(); comm = Comm(single=single); pm = by_contract(g, mesh(g, nd, comm, dt))
        pb = by_contract(g, mesh(g, nd, comm, dt, tag="b"), "b") if two else None
        class Dom:
            def decompose(self, pos, smoothing=0, transform=None): event("domain.decompose"); return Layout()
        for m in (pm, pb):
            if m is not None: m.domain = Dom()
        def reshape(self, Nmesh=None, BoxSize=None): event("reshape"); return pb
        g["ParticleMesh"].reshape = reshape
        return g, pm, pb
    n = I("particles")
    def parts(nd):
        P.CTX.assume(ge(n, 0)); P.CTX.assume(ge(I("layout.received"), 0)); P.CTX.assume(eq(I("layout.sent"), n))
        return symarr("pos", [n, const(nd)], "f8")
    for nd, kind, dt in itertools.product((1, 2, 3), "RTU", ("f8", "c16")):
        if nd == 2 and dt != "f8" or kind == "U" and nd < 3: continue
        nm = meshcase(kind, nd, dt)
        for op in ("csum", "cmean", "cnorm", "cdot", "cgetitem", "csetitem", "ravel", "ravel in place", "unravel", "preview", "preview of an axis", "cast", "transform", "transform in place"):
            if op.startswith("preview") and kind == "U" or op in ("csum", "cmean") and kind != "R": continue
            def f(nd=nd, kind=kind, dt=dt, op=op):
                g, pm, _ = setup(nd, dt); a = field(g, pm, kind)
                idx = [W(I("x%d" % d)) for d in range(nd)]
                for d in range(nd): P.CTX.assume(and_(ge(I("x%d" % d), neg(I("N%d" % d))), lt(I("x%d" % d), I("N%d" % d))))
                if op == "csum": a.csum()
                elif op == "cmean": a.cmean()
                elif op == "cnorm": a.cnorm()
                elif op == "cdot": a.cdot(field(g, pm, kind))
                elif op == "cgetitem": a.cgetitem(idx)
                elif op == "csetitem": a.csetitem(idx, P.newc((), np.dtype("c16"), lambda i: R("G:y0"), lambda i: R("G:y1")) if a.value.dtype.kind == "c" else W(R("G:y0")))
                elif op == "ravel": a.ravel()
                elif op == "ravel in place": a.ravel(Ellipsis)
                elif op == "unravel": a.unravel(N.empty_like(a.value))
                elif op == "preview": a.preview()
                elif op == "preview of an axis": a.preview(axes=nd - 1)
                elif op == "cast": a.cast({"R": "transposedcomplex", "T": "untransposedcomplex", "U": "real"}[kind])
                else: getattr(a, "r2c" if kind == "R" else "c2r")(**(dict(out=Ellipsis) if "place" in op else {}))
            same("%s: %s" % (op, nm), f)
        if dt == "f8" and kind != "U":
            def f(nd=nd, kind=kind):
                g, pm, pb = setup(nd, two=True)
                g["reindex"], g["build_index"] = reindex_, build_index_
                field(g, pm, kind).resample(field(g, pb, kind))
            same("resample: %s" % nm, f)
    for nd, lay, hs in itertools.product((1, 2, 3), (True,), (False, True)):
        nm = "%d axes, %slayout%s" % (nd, "" if lay else "no ", ", smoothing lengths" if hs else "")
        def kw(hs, lay):
            k = dict(layout=Layout()) if lay else {}
            if hs: k["hsml"] = symarr("hsml", [n], "f8")
            return k
        def f(nd=nd, lay=lay, hs=hs):
            g, pm, _ = setup(nd); pm.paint(parts(nd), mass=symarr("mass", [n], "f8"), **kw(hs, lay))
        same("paint: " + nm, f)
        def f(nd=nd, lay=lay, hs=hs):
            g, pm, _ = setup(nd); field(g, pm, "R").readout(parts(nd), **kw(hs, lay))
        same("readout: " + nm, f)
        if hs: continue
        def f(nd=nd, lay=lay):
            g, pm, _ = setup(nd); pm.paint_vjp(field(g, pm, "R"), parts(nd), mass=symarr("mass", [n], "f8"), **kw(False, lay))
        same("paint_vjp: " + nm, f)
        def f(nd=nd, lay=lay):
            g, pm, _ = setup(nd); pm.paint_jvp(parts(nd), mass=symarr("mass", [n], "f8"), v_pos=symarr("v_pos", [n, const(nd)], "f8"), v_mass=symarr("v_mass", [n], "f8"), **kw(False, lay))
        same("paint_jvp: " + nm, f)
        def f(nd=nd, lay=lay):
            g, pm, _ = setup(nd); field(g, pm, "R").readout_vjp(parts(nd), v=symarr("v", [n], "f8"), **kw(False, lay))
        same("readout_vjp: " + nm, f)
        def f(nd=nd, lay=lay):
            g, pm, _ = setup(nd); field(g, pm, "R").readout_jvp(parts(nd), v_self=field(g, pm, "R"), v_pos=symarr("v_pos", [n, const(nd)], "f8"), **kw(False, lay))
        same("readout_jvp: " + nm, f)
    for nd in (1, 2, 3):
        def f(nd=nd):
            g, pm, _ = setup(nd); pm.decompose(parts(nd))
        same("ParticleMesh.decompose: %d axes" % nd, f)
        for op in ("upsample", "downsample"):
            def f(nd=nd, op=op):
                g, pm, pb = setup(nd, two=True); getattr(pb, op)(field(g, pm, "R"), keep_mean=True)
            same("%s: %d axes" % (op, nd), f)
        def f(nd=nd):
            g, pm, pb = setup(nd, two=True); field(g, pm, "R").ctranspose(list(range(nd))[::-1])
        same("ctranspose: %d axes" % nd, f)
        for npk, dt in ((nd - 1, "f8"), (nd, "f8"), (None, "c8")):
            def f(nd=nd, npk=npk, dt=dt):
                g, newcomm = ctor_env(nd, dt); comm = newcomm()
                Ns, Ls, npl, k = ctor_args(g, nd, npk, comm, "", False)
                for x in (npl or []): P.CTX.assume(ge(T_(x), 1))
                def cached(key):
                    if not W(var("alive", "B")): return None
                    pmesh = g["pfft"].ProcMesh(npl, comm=comm); plans = {}
                    for s in "TU":
                        plans["partition" + s] = g["pfft"].Partition("?", [W(x) for x in Ns], pmesh, 0)
                        for q in ("forward", "backward", "ipforward", "ipbackward"): plans[q + s] = object()
                    del P.CTX.events[:]
                    return g["_pmtemplate"](pmesh, plans)
                CACHE[0] = cached
                try: g["ParticleMesh"](dtype=dt, **k)
                finally: CACHE[0] = None
            same("constructor: %d axes, np %s, %s" % (nd, npk, dt), f)
    obs.assumptions.add("collective callees (layouts, pfft, mpsort) count as one collective call each; their own calls are checked separately")
    obs.functions |= {"pm.Field." + x for x in ("cgetitem", "csetitem", "ravel", "unravel", "cast", "resample", "preview")} | {"pm.RealField." + x for x in ("csum", "cmean", "cnorm", "cdot", "r2c", "readout", "readout_vjp", "readout_jvp", "ctranspose")} | {"pm.BaseComplexField." + x for x in ("cnorm", "cdot", "c2r")} | {"pm.ParticleMesh." + x for x in ("__init__", "paint", "paint_vjp", "paint_jvp", "decompose", "upsample", "downsample")}

def prove(prop, tier="quick"):
    rp = search("*")
    TIER[0] = tier
    obs = Obs("pm: ")
    obs.assumptions |= {"pfft, mpsort and mpi4py by contract (stand-ins in p_pm.py)", "numpy functions by their documented contracts", "integers and reals are mathematical"}
    if os.environ.get("PMV_T"):
        for fn in os.environ["PMV_T"].split(","): globals()[fn](obs, rp)
        run_tasks(obs)
        return obs
    for fn in CONTRACTS[prop]: fn(obs, rp)
    if not TASKS: obs.put("contracts", "undecided", "-", 0, "no contract")
    run_tasks(obs)
    return obs
CONTRACTS = {"C12": [whitenoise_contract], "C20": [collectives_contract], "C21": [init_contract, cachekey_contract, derive_contract], "C18": [part_paint_contract, pm_decompose_contract, updown_contract, preview_contract, ctranspose_contract], "C19": [uniform_contract], "C17": [transform_contract, adjoint_contract, cdot_vjp_contract, decompress_contract], "C22": [transform_contract, round_trip_contract, cast_contract],
             "C15": [reindex_contract, build_contract, resample_contract, cast_contract], "C14": [coords_contract, create_contract, slabs_contract, normp_contract, apply_contract],
             "C16": [mode_contract, dot_contract, real_contract, decompress_contract, ravel_contract]}

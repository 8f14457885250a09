"""Contracts of the numpy functions the sources use, on symbolic arrays. A function that is not here is out of reach (Unsupported)."""
import numpy as np, functools
from .term import *
from . import term as tm
from . import psym as P
from .psym import SArr, Sym, asarr, ewise, T_, W, new, uninit, full, frozen, copy_, numeric, BIN, result_dtype, dtype_, bshape, bidx, unary

def dims(s):
    if isinstance(s, SArr): s = [x for x in s] if s.ndim else [s.item()]
    if numeric(s): s = (s,)
    return tuple(T_(x) for x in s)

def asarray(x, dtype=None, order=None):
    if isinstance(x, SArr): return asarr(x, dtype)
    if hasattr(x, "__parray__"): return asarr(x.__parray__(), dtype)
    return asarr(x, dtype)
def array(x, dtype=None, copy=True, order=None, ndmin=0, subok=False):
    r = asarray(x, dtype)
    return copy_(r) if copy and r is x else r
def asfarray(x, dtype="f8"):
    r = asarray(x)
    return r if r.dtype.kind in "fc" else r.astype("f8")
def empty(shape, dtype="f8", order="C"): return uninit(dims(shape), dtype)
def zeros(shape, dtype="f8", order="C"): return full(dims(shape), 0, dtype)
def ones(shape, dtype="f8", order="C"): return full(dims(shape), 1, dtype)
def empty_like(a, dtype=None, order="K", **k): return uninit(a.shape_, dtype or a.dtype)
def zeros_like(a, dtype=None, order="K", **k): return full(a.shape_, 0, dtype or a.dtype)
def full_(shape, v, dtype=None): return full(dims(shape), v, dtype or asarr(v).dtype)
def arange(*a, dtype=None):
    lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else a
    lo, hi, st = T_(lo), T_(hi), T_(st)
    if not isnum(st) or num(st) == 0: raise Unsupported("arange step")
    d = sub(hi, lo)
    n = d if st is ONE else neg(floor(neg(div(d, st))))
    if P.CTX.decide(ge(n, 0)) is not True: n = tmax(n, ZERO)
    isint = lo.sort == "I" and st.sort == "I" and not any(isinstance(x, float) for x in a)
    if n.sort != "I": n = neg(floor(neg(n)))
    dt = np.dtype(dtype_(dtype)) if dtype is not None else np.dtype("i8" if isint else "f8")
    if dt.kind == "c": return P.newc((n,), dt, lambda i: add(lo, mul(st, i[0])), lambda i: ZERO)
    return new((n,), dt, lambda i: add(lo, mul(st, i[0])), "arange")
def ndim(x): return asarray(x).ndim
def shape(x): return asarray(x).shape
def isscalar(x): return numeric(x) or isinstance(x, (str, complex))
def iscomplexobj(x): return isinstance(x, SArr) and x.dtype.kind == "c"
def reshape(x, s): return asarray(x).reshape(s)
def ravel(x): return asarray(x).ravel()
def transpose(x, ax=None): return asarray(x).transpose(ax)
def broadcast_to(x, s):
    x = frozen(asarray(x)); s = dims(s)
    b = bshape([x.shape_, s])
    if len(b) != len(s): raise ValueError("broadcast_to")
    r = new(s, x.dtype, lambda i: x.at(bidx(x.shape_, s, i)), "broadcast", contiguous=False)
    r.writeable = False
    return r
def as_strided(x, shape=None, strides=None, **k):
    if x.ndim != 0 or not all(T_(s) is ZERO for s in strides): raise Unsupported("as_strided")
    sh = dims(shape)
    return SArr(sh, x.dtype, x.buf, lambda i, f=x.fwd: f(()), None, writeable=x.writeable, strides=[ZERO] * len(sh))
def where(c, *ab):
    if not ab: return nonzero(c)
    a, b = ab
    dt = result_dtype("add", a, b) if isinstance(a, SArr) or isinstance(b, SArr) else asarr([a, b]).dtype
    if any(isinstance(z, SArr) and z.dtype.kind == "c" for z in ab):
        return P.mkcomplex(where(c, P.cre(a), P.cre(b)), where(c, P.cim(a), P.cim(b)), dt)
    return ewise(lambda q, x, y: P.merge_val(P.truth(q), x, y) if dt.kind == "b" else ite(P.truth(q), P.num_of(x), P.num_of(y)), [c, a, b], dt)
def nonzero(c): raise Unsupported("nonzero")
def remainder(a, b): return P.arith("mod", a, b) if isinstance(a, SArr) or isinstance(b, SArr) else a % b
def floor_(a):
    if isinstance(a, SArr): return ewise(lambda t: floor(P.num_of(t)), [a], a.dtype if a.dtype.kind == "f" else "f8")
    return W(floor(T_(a)))
def ceil_(a):
    f = lambda t: neg(floor(neg(P.num_of(t))))
    return ewise(f, [a], "f8") if isinstance(a, SArr) else W(f(T_(a)))
def two(op):
    def f(a, b, out=None):
        r = P.arith(op, a, b) if isinstance(a, SArr) or isinstance(b, SArr) else (P.arith(op, asarr(a), asarr(b)) if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)) else P.scal(op, a, b))
        if out is not None: out[...] = r; return out
        return r
    return f
def red(op):
    def f(x, axis=None, dtype=None, out=None, keepdims=False):
        x = asarray(x)
        return P.reduce_(x, op, axis)
    return f
def prod_(x, axis=None, dtype=None): return red("prod")(x, axis)
def cumsum(x, axis=None): return P.cumsum(asarray(x))
def clip(x, lo, hi, out=None): return asarray(x).clip(lo, hi, out)
def copy(x): return copy_(asarray(x))
def minimum(a, b): return ewise(lambda x, y: tmin(P.num_of(x), P.num_of(y)), [a, b], result_dtype("add", a, b)) if isinstance(a, SArr) or isinstance(b, SArr) else P.p_min(a, b)
def maximum(a, b): return ewise(lambda x, y: tmax(P.num_of(x), P.num_of(y)), [a, b], result_dtype("add", a, b)) if isinstance(a, SArr) or isinstance(b, SArr) else P.p_max(a, b)
def linspace(a, b, n, endpoint=True, dtype=None):
    a, b, n = T_(a), T_(b), T_(n)
    m = sub(n, 1) if endpoint else n
    def elt(i):
        if i[0] is ZERO: return a
        if i[0] is m: return b
        return add(a, mul(i[0], div(sub(b, a), m)))
    return new((n,), "f8", elt, "linspace")

# digitize: bins nondecreasing; index of the first bin edge above x
DIG = {}
def digitize(x, bins, right=False):
    if right: raise Unsupported("digitize(right=True)")
    x = asarray(x); bins = frozen(asarray(bins))
    k = bins.at((var("?", "I"),))
    key = DIG.setdefault((k, bins.shape_[0]), "digitize:%d" % len(DIG))
    r = ewise(lambda t: app(key, [P.num_of(t)], "I"), [x], "i8")
    return r
def digit_facts(terms):
    """postconditions of digitize for the applications that occur in the terms"""
    out = []
    names = {v: k for k, v in DIG.items()}
    seen = set()
    for t in terms:
        for s in subterms(t):
            if s.op == "app" and s.args[0] in names and s not in seen:
                seen.add(s)
                b, n = names[s.args[0]]
                at = lambda i: subst(b, {var("?", "I"): i})
                x = s.args[1]
                out += [ge(s, 0), le(s, n), implies(gt(s, 0), le(at(sub(s, 1)), x)), implies(lt(s, n), lt(x, at(s)))]
    return out

def bincount(x, weights=None, minlength=0):
    x = frozen(asarray(x))
    n = x.shape_[0]; m = T_(minlength)
    c = P.CTX
    v = c.fresh("b")
    rng = [ge(v, 0), lt(v, n)]
    t = P.within(rng, lambda: x.at((v,)))
    if not entails_(c.pc + rng, ge(t, 0)): raise P.Oblig("bincount: negative index %s" % show(t)[:100])
    if not entails_(c.pc + rng, lt(t, m)): raise P.Oblig("bincount: index %s not below minlength %s" % (show(t)[:100], show(m)))
    w = None if weights is None else frozen(asarray(weights))
    srt = "I" if w is None or w.dtype.kind in "iub" else "R"
    val = lambda: ONE if w is None else P.num_of(w.at((v,)))
    if w is not None and w.dtype.kind == "c": raise TypeError("Cannot cast array data from complex")
    if w is not None and w.ndim != 1: raise ValueError("object too deep for desired array")
    if w is not None and not P.dim_eq(w.shape_[0], n): raise ValueError("The weights and list don't have the same length.")
    wv = P.within(rng, val)
    return new((m,), "i8" if w is None else "f8", lambda i: app("SUM", [v, ZERO, n, ite(eq(t, i[0]), wv, ZERO)], srt), "bincount")
def entails_(pc, g):
    from .solve import entails
    return entails(pc + digit_facts([g]), g, 2.0)

def ravel_multi_index(mi, dims_, mode="raise", order="C"):
    if order != "C": raise Unsupported("order")
    ds = dims(dims_)
    xs = [asarr(mi[d]) if not isinstance(mi, SArr) else mi[d] for d in range(len(ds))]
    def f(*ts):
        q = ZERO
        for t, d in zip(ts, ds):
            t = P.num_of(t)
            if mode == "clip": t = tmin(tmax(t, ZERO), sub(d, 1))
            elif mode != "raise": raise Unsupported("mode")
            q = add(mul(q, d), t)
        return q
    r = ewise(f, xs, "i8")
    if mode == "raise":
        # in range, or numpy raises
        g = tuple(P.CTX.fresh("g") for _ in r.shape_)
        inb = [c for v, n in zip(g, r.shape_) for c in (ge(v, 0), lt(v, n))]
        for x, d in zip(xs, ds):
            t = P.resolve(P.within(inb, lambda: P.num_of(frozen(x).at(bidx(x.shape_, r.shape_, g)))), P.CTX.pc + inb)
            if not entails_(P.CTX.pc + inb, and_(ge(t, 0), lt(t, d))): raise P.Oblig("ravel_multi_index: coordinate %s in [0, %s)" % (show(t)[:100], show(d)))
    fr = frozen(r); tot = prod(ds)
    def base(i):
        q = fr.at(i)
        P.CTX.fact(implies(and_(*[c for v, n in zip(i, fr.shape_) for c in (ge(v, 0), lt(v, n))]), and_(ge(q, 0), lt(q, tot))))
        return q
    return new(r.shape_, "i8", base, "ravel_multi_index")
def unravel_index(k, shape, order="C"):
    ds = dims(shape)
    k = T_(k); out = []
    if order == "F":
        for d in ds[:-1]: out.append(W(M(k, d))); k = floor(div(k, d))
        out.append(W(k)); return tuple(out)
    for d in reversed(ds[1:]):
        out.insert(0, W(M(k, d))); k = floor(div(k, d))
    return (W(k),) + tuple(out)

def result_type(*a): return np.result_type(*[x.dtype if isinstance(x, SArr) else x for x in a])
def take(a, ind, axis=None, **k): return asarray(a).take(ind, axis)
def concatenate(xs, axis=0): raise Unsupported("concatenate")
def dtypef(x): return np.dtype(dtype_(x)) if not isinstance(x, tuple) else dtype_tuple(x)
def dtype_tuple(x):
    raise Unsupported("structured dtype")
def can_cast(*a, **k): return np.can_cast(*a, **k)

def make(**extra):
    d = dict(asarray=asarray, array=array, asfarray=asfarray, empty=empty, zeros=zeros, ones=ones, empty_like=empty_like, zeros_like=zeros_like, full=full_, arange=arange,
             ndim=ndim, shape=shape, isscalar=isscalar, iscomplexobj=iscomplexobj, reshape=reshape, ravel=ravel, transpose=transpose, broadcast_to=broadcast_to, where=where, nonzero=nonzero,
             remainder=remainder, mod=remainder, floor=floor_, ceil=ceil_, sum=red("sum"), all=red("all"), any=red("any"), prod=prod_, product=prod_, max=red("max"), min=red("min"), amax=red("max"), amin=red("min"),
             cumsum=cumsum, clip=clip, copy=copy, minimum=minimum, maximum=maximum, linspace=linspace, digitize=digitize, bincount=bincount, ravel_multi_index=ravel_multi_index, unravel_index=unravel_index,
             result_type=result_type, take=take, concatenate=concatenate, dtype=np.dtype, ufunc=np.ufunc, newaxis=None, pi=P.W(var("pi", "R")), can_cast=can_cast, intp=P.p_int, float64=P.p_float, int64=None,
             add=two("add"), subtract=two("sub"), multiply=two("mul"), divide=two("truediv"), equal=two("eq"), logical_and=two("and"), logical_or=two("or"), ndarray=SArr,
             abs=P.p_abs, absolute=P.p_abs, issubdtype=np.issubdtype, integer=np.integer, floating=np.floating, bool_=np.bool_)
    def cast(dt):
        def f(x):
            if isinstance(x, (list, tuple)): x = asarr(x)
            return x.astype(dt) if isinstance(x, (SArr, Sym)) else asarr(x).astype(dt).item()
        return f
    for dt in ("int64", "int32", "int16", "float64", "float32", "intp", "int8", "uint8", "uint32", "uint64"): d[dt] = cast(dt)
    d["import_array"] = lambda: None
    d.update(extra)
    m = P.Mod("numpy", d)
    return m

def mods(np_):
    lib = P.Mod("numpy.lib", {})
    st = P.Mod("numpy.lib.stride_tricks", dict(as_strided=as_strided, broadcast_to=broadcast_to))
    rf = P.Mod("numpy.lib.recfunctions", {})
    lib.__dict__.update(stride_tricks=st, recfunctions=rf)
    np_.__dict__["lib"] = lib
    return {"numpy": np_, "numpy.lib": lib, "numpy.lib.stride_tricks": st, "numpy.lib.recfunctions": rf}

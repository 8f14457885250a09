"""Verification condition generator for the Python and Cython sources: the real source text is parsed, loops are turned into
calls of their body (so that a loop over a symbolic range is checked for one generic iteration), and the result is executed on
symbolic numbers and arrays. Branches on symbolic conditions are explored path by path; numpy is replaced by contracts of the
functions used (any other use is reported as out of reach, never ignored)."""
import ast, os, re, builtins, functools, operator, itertools
from fractions import Fraction
import numpy as np
from .term import *
from . import term as tm
from .solve import entails, feasible, check

class Stop(Exception): pass       # path infeasible
class Oblig(Exception): pass

# ------------------------------------------------------------------ context
class Ctx:
    def __init__(self):
        self.pc = []; self.trace = []; self.pos = 0; self.pending = []
        self.nfresh = 0; self.loops = []; self.events = []; self.notes = set(); self.side = []; self.ndec = 0
        self.wfacts = []; self.facts = set()
    def fresh(self, name, sort="I"):
        self.nfresh += 1
        return var("%s'%d" % (name, self.nfresh), sort)
    def assume(self, c):
        c = mk(c)
        if c.op == "and":
            for x in c.args: self.assume(x)
        elif c is not TRUE and c not in self.pc: self.pc.append(c)
    def fact(self, c):
        """something that holds anyway (not a condition of the path)"""
        c = mk(c)
        for x in (c.args if c.op == "and" else (c,)):
            if x not in self.pc: self.facts.add(x)
        self.assume(c)
    def decide(self, c, timeout=0.5):
        """True / False / None"""
        c = mk(c)
        if c is TRUE: return True
        if c is FALSE: return False
        if c in self.pc: return True
        if not_(c) in self.pc: return False
        if entails(self.pc, c, timeout): return True
        if entails(self.pc, not_(c), timeout): return False
        return None
    def branch(self, c):
        c = mk(c)
        d = self.decide(c)
        if d is not None: return d
        self.ndec += 1
        if self.ndec > 4000: raise Unsupported("too many branches")
        if self.pos < len(self.trace): v = self.trace[self.pos]
        else:
            v = True
            self.trace.append(True); self.pending.append(self.trace[:-1] + [False])
        self.pos += 1
        self.assume(c if v else not_(c))
        return v
    def require(self, name, c, timeout=3.0):
        """a precondition met on the way: recorded; if not provable the code is out of reach"""
        c = mk(c)
        self.side.append((name, list(self.pc), c))
        if c is TRUE: return
        if not entails(self.pc, c, timeout): raise Oblig("%s: %s" % (name, show(c)[:200]))
        self.assume(c)

CTX = Ctx()
def ctx(): return CTX

class Path:
    def __init__(self, pc, res, exc, events, side, store): self.pc, self.res, self.exc, self.events, self.side, self.store = pc, res, exc, events, side, store

def explore(f, limit=400):
    """run f() on all paths -> list of Path. f builds its inputs anew in each run."""
    global CTX
    out = []
    todo = [[]]
    while todo:
        tr = todo.pop()
        CTX = Ctx(); CTX.trace = list(tr)
        try:
            try: r, e = f(), None
            except (Unsupported, Oblig, Stop): raise
            except RecursionError: raise Unsupported("recursion")
            except Exception as ex: r, e = None, ex
            out.append(Path(list(CTX.pc), r, e, list(CTX.events), list(CTX.side), CTX))
        except Stop: pass
        todo += CTX.pending
        if len(out) > limit: raise Unsupported("more than %d paths" % limit)
    return out

# ------------------------------------------------------------------ scalars
def T_(x):
    """term of a Python value"""
    if isinstance(x, T): return x
    if isinstance(x, Sym): return x.t
    if isinstance(x, (bool, np.bool_)): return const(bool(x))
    if isinstance(x, (int, np.integer)): return const(int(x))
    if isinstance(x, (float, np.floating)):
        x = float(x)
        if x != x or x in (float("inf"), float("-inf")): raise Unsupported("non-finite constant")
        return const(Fraction(x))
    if isinstance(x, Fraction): return const(x)
    if isinstance(x, SArr) and x.ndim == 0: return x.at(())
    raise Unsupported("not a number: %r" % (type(x),))

def W(t):
    """Python value of a term"""
    if t.op == "num":
        v = num(t)
        return int(v) if v.denominator == 1 else v
    if t.op == "bool": return t.args[0]
    return Sym(t)

def num_of(t):
    """0/1 of a boolean term"""
    return ite(t, ONE, ZERO) if t.sort == "B" else t
def truth(t):
    return t if t.sort == "B" else ne(t, 0)

def fdiv(a, b):
    if isnum(b):
        if num(b) == 0: raise ZeroDivisionError()
        return floor(div(a, b))
    if entails(CTX.pc, ne(b, 0), 1.0): return floor(div(a, b))
    raise Unsupported("division by %s" % show(b))
def fmod(a, b):
    if isnum(b) and num(b) > 0: return M(a, b)
    if entails(CTX.pc, gt(b, 0), 1.0): return M(a, b)
    raise Unsupported("remainder by %s" % show(b))
def tdiv(a, b):
    if isnum(b) and num(b) == 0: raise ZeroDivisionError()
    return div(a, b)
def tpow(a, b):
    if isnum(b) and num(b).denominator == 1 and 0 <= num(b) <= 8: return power(a, int(num(b)))
    if isnum(b) and num(b) == -1: return inv(a)
    if isnum(b) and num(b) == Fraction(1, 2): return app("sqrt", [a], "R")
    return app("pow", [a, b], "R")
def band(a, b):
    if a.sort == "B" and b.sort == "B": return and_(a, b)
    if isnum(a) and isnum(b): return const(int(num(a)) & int(num(b)))
    raise Unsupported("bitwise and")
def bor(a, b):
    if a.sort == "B" and b.sort == "B": return or_(a, b)
    if isnum(a) and isnum(b): return const(int(num(a)) | int(num(b)))
    if a.sort == "B": return bor(num_of(a), b)
    if b.sort == "B": return bor(a, num_of(b))
    # 0/1 flags
    if entails(CTX.pc, and_(or_(eq(a, 0), eq(a, 1)), or_(eq(b, 0), eq(b, 1))), 1.0): return ite(or_(eq(a, 1), eq(b, 1)), ONE, ZERO)
    raise Unsupported("bitwise or")
def bxor(a, b):
    if a.sort == "B" and b.sort == "B": return or_(and_(a, not_(b)), and_(b, not_(a)))
    raise Unsupported("bitwise xor")
def lsh(a, b):
    if isnum(b): return mul(a, const(2 ** int(num(b))))
    raise Unsupported("shift")
def eqb(a, b):
    if a.sort == "B" and b.sort == "B": return or_(and_(a, b), and_(not_(a), not_(b)))
    if a.sort == "F" or b.sort == "F": return tm._new("same", (a, b) if a.id < b.id else (b, a), "B") if a is not b else TRUE
    return eq(num_of(a), num_of(b))
def eqany(a, b): return eqb(a, b)

BIN = {"add": lambda a, b: (or_(a, b) if a.sort == b.sort == "B" else add(num_of(a), num_of(b))), "sub": lambda a, b: sub(num_of(a), num_of(b)),
       "mul": lambda a, b: (and_(a, b) if a.sort == b.sort == "B" else mul(num_of(a), num_of(b))), "truediv": lambda a, b: tdiv(num_of(a), num_of(b)),
       "floordiv": lambda a, b: fdiv(num_of(a), num_of(b)), "mod": lambda a, b: fmod(num_of(a), num_of(b)), "pow": lambda a, b: tpow(num_of(a), num_of(b)),
       "and": band, "or": bor, "xor": bxor, "lshift": lsh,
       "lt": lambda a, b: lt(num_of(a), num_of(b)), "le": lambda a, b: le(num_of(a), num_of(b)), "gt": lambda a, b: gt(num_of(a), num_of(b)), "ge": lambda a, b: ge(num_of(a), num_of(b)),
       "eq": eqb, "ne": lambda a, b: not_(eqb(a, b))}
def scal(op, a, b): return W(BIN[op](T_(a), T_(b)))

def numeric(x): return isinstance(x, (Sym, bool, int, float, Fraction, np.bool_, np.integer, np.floating))

class Sym:
    __slots__ = ("t",)
    __array_priority__ = 1000
    __array_ufunc__ = None
    def __init__(self, t): self.t = t
    def __repr__(self): return "Sym(%s)" % show(self.t)[:200]
    def __bool__(self): return CTX.branch(truth(self.t))
    def __hash__(self): raise Unsupported("hash of a symbolic number")
    def __index__(self): raise Unsupported("symbolic number used as a native index: %s" % show(self.t)[:80])
    def __int__(self): raise Unsupported("native int of a symbolic number")
    def __float__(self): raise Unsupported("native float of a symbolic number")
    def __len__(self): raise Unsupported("len of a number")
    def __iter__(self): raise TypeError("number is not iterable")
    def __neg__(self): return W(neg(num_of(self.t)))
    def __pos__(self): return self
    def __abs__(self): return W(absv(num_of(self.t)))
    def __invert__(self):
        if self.t.sort == "B": return W(not_(self.t))
        raise Unsupported("~")
    def __round__(self, *a): raise Unsupported("round")
    def item(self): return self
    def astype(self, dt, copy=True): return conv_scalar(self, np.dtype(dtype_(dt)))
    @property
    def shape(self): return ()
    @property
    def ndim(self): return 0
    @property
    def dtype(self): return np.dtype("?" if self.t.sort == "B" else "i8" if self.t.sort == "I" else "f8")
    @property
    def real(self): return self
    @property
    def imag(self): return 0
    def conjugate(self): return self
    conj = conjugate
def _mkop(op):
    def f(self, o):
        if isinstance(o, SArr): return NotImplemented
        if not numeric(o): return NotImplemented
        return scal(op, self, o)
    def r(self, o):
        if isinstance(o, SArr) or not numeric(o): return NotImplemented
        return scal(op, o, self)
    return f, r
for _op in ("add", "sub", "mul", "truediv", "floordiv", "mod", "pow", "and", "or", "xor", "lshift"):
    f, r = _mkop(_op)
    setattr(Sym, "__%s__" % _op, f); setattr(Sym, "__r%s__" % _op, r)
for _op in ("lt", "le", "gt", "ge", "eq", "ne"): setattr(Sym, "__%s__" % _op, _mkop(_op)[0])

def conv_term(t, dt):
    """term converted to a dtype (mathematical: no overflow, no rounding)"""
    k = dt.kind
    if k == "b": return truth(t)
    t = num_of(t)
    if k in "iu":
        if t.sort == "I": return t
        if t.op == "ite": return ite(t.args[0], conv_term(t.args[1], dt), conv_term(t.args[2], dt))
        return ite(ge(t, 0), floor(t), neg(floor(neg(t))))
    return t
def conv_scalar(x, dt): return W(conv_term(T_(x), dt))

# ------------------------------------------------------------------ arrays
class Upd:
    __slots__ = ("binders", "guard", "idx", "val")
    def __init__(self, binders, guard, idx, val): self.binders, self.guard, self.idx, self.val = tuple(binders), guard, tuple(idx), val
    def __repr__(self): return "[%s] <- %s if %s for %s" % (", ".join(show(i) for i in self.idx), show(self.val)[:300], show(self.guard)[:200], self.binders)

class Buf:
    """storage: base element function and log of updates"""
    _n = 0
    def __init__(self, shape, elt, name="buf", dtype=None):
        self.shape, self.base, self.log, self.name, self.dtype = tuple(shape), elt, [], name, dtype
        self.born = len(CTX.loops)
        Buf._n += 1; self.uid = Buf._n
    def read(self, idx):
        idx = tuple(mk(i) for i in idx)
        # writes of running iterations
        for L in reversed(CTX.loops):
            for u in reversed(L.writes):
                if u[0] is not self: continue
                if isinstance(u[1], Upd):
                    same = and_(*[eq(a, b) for a, b in zip(u[1].idx, idx)])
                    if u[1].binders: 
                        v = self._hit(u[1], idx)
                        if v is None: continue
                        c, val = v
                        d = CTX.decide(c)
                        if d is True: return val
                        if d is False: continue
                        raise Unsupported("read of %s depends on an inner loop" % self.name)
                    d = CTX.decide(same)
                    if d is True: return u[1].val
                    if d is False: continue
                    raise Unsupported("read of %s may or may not see a write of the same iteration" % self.name)
            if any(b is self for b in L.scope): break
            L.reads.append((self, idx, list(CTX.pc)))
        return self._read(idx, len(self.log))
    def _hit(self, u, idx):
        """condition and value when element idx was set by update u (a loop of updates)"""
        env = {}; cond = []
        todo = list(zip(u.idx, idx))
        bs = [b[0] for b in u.binders]
        prog = True
        while prog:
            prog = False
            for p in list(todo):
                a, tgt = p
                fv = (free_vars(a) & set(bs)) - set(env)
                if not fv:
                    cond.append(eq(subst(a, env), tgt)); todo.remove(p); prog = True; continue
                if len(fv) == 1:
                    v, = fv
                    a2 = subst(a, env)
                    c1, c2 = sub(a2, v), add(a2, v)
                    if v not in free_vars(c1): env[v] = sub(tgt, c1)
                    elif v not in free_vars(c2): env[v] = sub(c2, tgt)
                    else: continue
                    todo.remove(p); prog = True
        if todo or set(bs) - set(env): raise Unsupported("index of a loop write cannot be inverted: %s" % [show(a) for a in u.idx])
        g = [subst(subst(le(lo, b), env), env) for b, lo, hi in u.binders] + [subst(subst(lt(b, hi), env), env) for b, lo, hi in u.binders]
        return and_(*cond, *g, subst(u.guard, env)), subst(u.val, env)
    def _read(self, idx, n):
        while n > 0:
            u = self.log[n - 1]; n -= 1
            if isinstance(u, Upd):
                if u.binders: c, v = self._hit(u, idx)
                else: c, v = and_(u.guard, *[eq(a, b) for a, b in zip(u.idx, idx)]), u.val
            elif isinstance(u, Acc):
                c, v = u.f(idx)
                if c is FALSE: continue
                rest = self._read(idx, n)
                d = CTX.decide(c, 0.3)
                if d is False: return rest
                new_ = u.comb(rest, v)
                return new_ if d is True else merge_val(c, new_, rest)
            else:                       # region update: function idx -> (cond, value)
                c, v = u(idx)
            if c is TRUE: return v
            if c is FALSE: continue
            d = CTX.decide(c, 0.3)
            if d is True: return v
            if d is False: continue
            pc = CTX.pc
            CTX.pc = pc + [not_(c)]
            try: rest = self._read(idx, n)
            finally: CTX.pc = pc
            return merge_val(c, v, rest)
        return self.base(idx)
    def write(self, idx, val):
        u = Upd((), TRUE, idx, val)
        if CTX.loops and not any(b is self for b in CTX.loops[-1].scope): CTX.loops[-1].writes.append((self, u))
        else: self.log.append(u)
    def region(self, f):
        if CTX.loops and not any(b is self for b in CTX.loops[-1].scope): CTX.loops[-1].writes.append((self, f))
        else: self.log.append(f)

def merge_val(c, a, b):
    if a is b: return a
    if a.sort == "B" or b.sort == "B":
        a, b = truth(a), truth(b)
        return or_(and_(c, a), and_(not_(c), b))
    return ite(c, a, b)

def dim_eq(a, b):
    a, b = T_(a), T_(b)
    if a is b: return True
    return CTX.decide(eq(a, b)) is True

class SArr:
    """an array: a view of a Buf, or a computed expression (elt only)"""
    __array_priority__ = 2000
    __array_ufunc__ = None
    def __init__(self, shape, dtype, buf=None, fwd=None, inv=None, elt=None, writeable=True, strides=None, attrs=None):
        self.shape_ = tuple(T_(s) for s in shape)
        self.dtype = np.dtype(dtype)
        self.buf, self.fwd, self.inv, self.elt = buf, fwd, inv, elt
        self.writeable = writeable
        self.strides_ = strides
        self.attrs = attrs or {}
    # ---- basics
    @property
    def shape(self): return tuple(W(s) for s in self.shape_)
    @property
    def ndim(self): return len(self.shape_)
    @property
    def size(self): return W(prod(self.shape_))
    def __len__(self):
        if self.ndim and isnum(self.shape_[0]): return int(num(self.shape_[0]))
        raise Unsupported("native len of a symbolic array")
    def __repr__(self): return "SArr(%s, %s)" % (self.shape, self.dtype)
    def __hash__(self): return id(self)
    def at(self, idx):
        idx = tuple(T_(i) for i in idx)
        if self.buf is not None: return self.buf.read(self.fwd(idx))
        return self.elt(idx)
    def set_at(self, idx, v):
        if self.buf is None or self.fwd is None: raise Unsupported("write to a computed array")
        if not self.writeable: raise ValueError("assignment destination is read-only")
        self.buf.write(self.fwd(tuple(T_(i) for i in idx)), conv_term(T_(v), self.dtype) if self.dtype.kind != "c" else v)
    @property
    def flags(self): return Flags(self)
    @property
    def T(self): return self.transpose()
    def __bool__(self):
        if self.ndim == 0 or all(s is ONE for s in self.shape_): return CTX.branch(truth(self.at((ZERO,) * self.ndim)))
        raise ValueError("The truth value of an array with more than one element is ambiguous.")
    def __iter__(self):
        if self.ndim == 0: raise TypeError("iteration over a 0-d array")
        n = self.shape_[0]
        if not isnum(n): raise Unsupported("iteration over an array of symbolic length")
        return iter([self[i] for i in range(int(num(n)))])
    def item(self): return W(self.at((ZERO,) * self.ndim))
    @property
    def itemsize(self): return self.dtype.itemsize
    @property
    def nbytes(self): return self.size * self.dtype.itemsize
    @property
    def strides(self):
        if self.strides_ is None: raise Unsupported("strides of this array")
        return tuple(W(T_(s)) for s in self.strides_)
    @property
    def data(self): return ("data", self)
    @property
    def flat(self): return self.ravel()
    @property
    def real(self):
        if self.dtype.kind != "c": return self
        return part(self, "re")
    @real.setter
    def real(self, v): part(self, "re")[...] = v
    @property
    def imag(self):
        if self.dtype.kind != "c": return full(self.shape_, ZERO, self.dtype)
        return part(self, "im")
    @imag.setter
    def imag(self, v): part(self, "im")[...] = v
    # ---- views
    def view_(self, shape, fwd, inv, dtype=None, strides=None):
        """fwd: new index -> index of self; inv: index of self -> (condition, new index)"""
        if self.buf is not None:
            f0, i0 = self.fwd, self.inv
            ninv = None
            if i0 is not None and inv is not None:
                def ninv(b, f0=f0, i0=i0, inv=inv):
                    c, x = i0(b)
                    c2, y = inv(x)
                    return and_(c, c2), y
            return SArr(shape, dtype or self.dtype, self.buf, lambda i: f0(fwd(i)), ninv, writeable=self.writeable, strides=strides)
        if self.dtype.kind == "c": return SArr(shape, self.dtype, elt=lambda i: self.elt(tuple(fwd(i[:-1])) + (i[-1],)), strides=strides)
        return SArr(shape, dtype or self.dtype, elt=lambda i: self.elt(fwd(i)), strides=strides)
    def copy(self, order="C"): return copy_(self)
    def __copy__(self): return copy_(self)
    def astype(self, dt, copy=True, **k):
        dt = np.dtype(dtype_(dt))
        if "fortran" in self.attrs and k.get("order", "K") != "C":
            r = copy_(self, dt) if dt.kind == self.dtype.kind else copy_(SArr(self.shape_, dt, elt=lambda i: conv_term(self.at(i), dt)), dt)
            r.attrs = dict(fortran=True)
            return r
        if dt.kind == "c" or self.dtype.kind == "c": return copy_(self, dt)
        return copy_(SArr(self.shape_, dt, elt=lambda i: conv_term(self.at(i), dt)), dt)
    def view(self, *a, **k):
        if len(a) == 1 and not k: k = dict(type=a[0]) if isinstance(a[0], type) and issubclass(a[0], SArr) else dict(dtype=a[0])
        if a and k.keys() - {"type", "dtype"} or len(k) != 1: raise Unsupported("view")
        if "type" in k:
            if not issubclass(k["type"], SArr): raise Unsupported("view")
            r = object.__new__(k["type"])
            r.__dict__.update(self.__dict__)
            return r
        dt = k["dtype"]
        if self.dtype.kind == "c" and self.buf is not None and self.buf.dtype.kind == "c" and isinstance(dt, tuple) and np.dtype(dt[0]).itemsize * 2 == self.dtype.itemsize and np.dtype(dt[0]).kind == "f" and dt[1] == 2:
            f0, i0 = self.fwd, self.inv
            return SArr(self.shape_ + (const(2),), dt[0], self.buf, lambda i: tuple(f0(i[:-1])) + (i[-1],), None if i0 is None else (lambda b: (lambda r: (r[0], tuple(r[1]) + (b[-1],)))(i0(b[:-1]))), writeable=self.writeable)
        raise Unsupported("view")
    def reshape(self, *s, **k):
        if k: raise Unsupported("reshape order")
        if len(s) == 1 and isinstance(s[0], (tuple, list, SArr)): s = tuple(s[0])
        s = [T_(x) for x in s]
        return reshape(self, s)
    def ravel(self, order="C"):
        if order == "F": return reshape(self.transpose(), [const(-1)])
        if order not in ("C", "K", "A"): raise Unsupported("ravel order")
        return reshape(self, [const(-1)])
    def argmax(self, axis=None):
        """contract: the index of a largest element"""
        if self.ndim != 1: raise Unsupported("argmax of several axes")
        c = CTX; c.nfresh += 1
        n = self.shape_[0]
        if isnum(n):
            # first of the largest, elements listed
            xs = [num_of(self.at((const(k),))) for k in range(int(num(n)))]
            r = const(len(xs) - 1)
            for k in range(len(xs) - 2, -1, -1): r = ite(and_(*[ge(xs[k], x) for x in xs[k + 1:]]), const(k), r)
            return W(r)
        raise Unsupported("argmax of an array of symbolic length")
    def flatten(self, order="C"):
        if order != "C": raise Unsupported("flatten order")
        return copy_(reshape(self, [const(-1)]))
    def transpose(self, *ax):
        n = self.ndim
        if len(ax) == 1 and isinstance(ax[0], (tuple, list, np.ndarray)): ax = tuple(int(a) for a in ax[0])
        ax = tuple(reversed(range(n))) if not ax or ax[0] is None else tuple(a % n for a in ax)
        return self.view_([self.shape_[a] for a in ax], lambda i: tuple(i[ax.index(d)] for d in range(n)), lambda i: (TRUE, tuple(i[a] for a in ax)),
                          strides=None if self.strides_ is None else [self.strides_[a] for a in ax])
    def __getitem__(self, k): return getitem(self, k)
    def __setitem__(self, k, v): setitem(self, k, v)
    def take(self, ind, axis=None, **kw):
        if axis not in (0,) and not (axis is None and self.ndim == 1): raise Unsupported("take axis")
        return copy_(getitem(self, ind if isinstance(ind, SArr) else asarr(ind)))
    # ---- arithmetic
    def __neg__(self):
        if self.dtype.kind == "c": return mkcomplex(-cre(self), -cim(self), self.dtype)
        return unary(lambda a: neg(num_of(a)), self)
    def __pos__(self): return self
    def __abs__(self):
        if self.dtype.kind == "c":
            re, im = frozen(cre(self)), frozen(cim(self))
            def elt(i):
                x, y = num_of(re.at(i)), num_of(im.at(i))
                return absv(x) if y is ZERO else app("sqrt", [add(mul(x, x), mul(y, y))], "R")
            return new(self.shape_, "f4" if self.dtype.itemsize == 8 else "f8", elt, "abs")
        return unary(lambda a: absv(num_of(a)), self)
    def __invert__(self):
        if self.dtype.kind != "b": raise Unsupported("~")
        return unary(not_, self)
    def conj(self): 
        if self.dtype.kind != "c": return self
        return mkcomplex(cre(self), -cim(self), self.dtype)
    conjugate = conj
    # ---- reductions over concrete axes
    def sum(self, axis=None, dtype=None, out=None, keepdims=False): return reduce_(self, "sum", axis)
    def all(self, axis=None, out=None): return reduce_(self, "all", axis)
    def any(self, axis=None, out=None): return reduce_(self, "any", axis)
    def max(self, axis=None): return reduce_(self, "max", axis)
    def min(self, axis=None): return reduce_(self, "min", axis)
    def prod(self, axis=None, dtype=None): return reduce_(self, "prod", axis)
    def cumsum(self, axis=None, dtype=None, out=None): return cumsum(self)
    def clip(self, lo, hi, out=None):
        r = ewise(lambda a, b, c: tmin(tmax(num_of(a), num_of(b)), num_of(c)), [self, lo, hi], self.dtype)
        if out is not None: out[...] = r; return out
        return r
    def argsort(self, axis=-1, kind=None, order=None):
        """contract: a permutation that puts the elements in ascending order"""
        if self.ndim != 1: raise Unsupported("argsort of several axes")
        c = CTX; c.nfresh += 1
        r = symarr("argsort:%d" % c.nfresh, [self.shape_[0]], "i8", rng=(ZERO, self.shape_[0]))
        ARGSORT["argsort:%d" % c.nfresh] = frozen(self)
        return r
    def fill(self, v): self[...] = v
    def tolist(self): return [x if not isinstance(x, SArr) else x.tolist() for x in self]
    def nonzero(self): raise Unsupported("nonzero")

ARGSORT = {}
SORTED = {}
class Flags:
    def __init__(self, a): self.a = a
    @property
    def writeable(self): return self.a.writeable
    @writeable.setter
    def writeable(self, v): self.a.writeable = bool(v)
    @property
    def c_contiguous(self): raise Unsupported("flags.c_contiguous")

def part(a, p):
    """real or imaginary part: complex arrays are kept as two element functions through the index ('re', ...)"""
    rt = np.dtype("f%d" % (a.dtype.itemsize // 2))
    if a.buf is not None and a.buf.dtype is not None and a.buf.dtype.kind == "c":
        n = const(0 if p == "re" else 1)
        f0, i0 = a.fwd, a.inv
        return SArr(a.shape_, rt, a.buf, lambda i: f0(i) + (n,), None if i0 is None else (lambda b: (lambda r: (and_(r[0], eq(b[-1], n)), r[1]))(i0(b[:-1]))), writeable=a.writeable, strides=a.strides_)
    if a.buf is not None: raise Unsupported("complex view of real storage")
    n = const(0 if p == "re" else 1)
    return SArr(a.shape_, rt, elt=lambda i: a.elt(tuple(i) + (n,)))

def dtype_(d):
    if d is None: return np.dtype("f8")
    if d is p_int: return np.dtype(int)
    if d is p_float: return np.dtype(float)
    if d is p_bool: return np.dtype(bool)
    return np.dtype(d)

_uid = itertools.count()
def new(shape, dtype, base, name="arr", contiguous=True):
    """fresh storage"""
    shape = tuple(T_(s) for s in shape)
    dt = np.dtype(dtype)
    b = Buf(shape, base, name, dt)
    if CTX.loops: CTX.loops[-1].scope.append(b)
    strides = None
    if contiguous:
        strides = []; s = const(dt.itemsize)
        for d in reversed(shape): strides.insert(0, s); s = mul(s, d)
    return SArr(shape, dt, b, lambda i: i, lambda i: (TRUE, i), strides=strides)

def symarr(name, shape, dtype="f8", contiguous=False, writeable=True, rng=None):
    """an arbitrary input array; rng: bounds of its elements"""
    dt = np.dtype(dtype)
    sort = {"b": "B", "i": "I", "u": "I"}.get(dt.kind, "R")
    def base(i, name=name):
        if sort == "B": return ne(app(name, list(i), "I"), 0)
        t = app(name, list(i), sort)
        if rng: CTX.fact(implies(and_(*[c for x, n in zip(i, shape) for c in (le(0, x), lt(x, n))]), and_(le(rng[0], t), lt(t, rng[1]))))
        return t
    a = new(shape, dt, base, name, contiguous)
    a.writeable = writeable
    return a

def uninit(shape, dtype):
    dt = np.dtype(dtype_(dtype))
    n = next(_uid)
    sort = {"b": "B", "i": "I", "u": "I"}.get(dt.kind, "R")
    CTX.nfresh += 1
    nm = "uninit:%d" % CTX.nfresh
    return new(shape, dt, lambda i: ne(app(nm, list(i), "I"), 0) if sort == "B" else app(nm, list(i), sort), "empty")

def full(shape, v, dtype):
    dt = np.dtype(dtype_(dtype))
    if dt.kind == "c":
        re, im = (T_(v.real), T_(v.imag)) if isinstance(v, complex) else (T_(v), ZERO)
        return newc(shape, dt, lambda i: re, lambda i: im)
    v = T_(v)
    v = conv_term(v, dt)
    return new(shape, dt, lambda i: v, "full")

def computed(shape, dtype, elt): return SArr(shape, dtype, elt=elt)

def copy_(a, dtype=None):
    """a new array with the present content"""
    dt = np.dtype(dtype or a.dtype)
    if a.dtype.kind == "c" or dt.kind == "c":
        if dt.kind != "c": raise Unsupported("complex array converted to real")
        re, im = frozen(cre(a)), cim(a)
        if isinstance(im, SArr): im = frozen(im); return newc(a.shape_, dt, re.at, im.at)
        return newc(a.shape_, dt, re.at, lambda i: ZERO)
    a = frozen(a)
    r = new(a.shape_, dt, a.elt, "copy")
    return r

def frozen(a):
    """present content of a as a computed array (later writes do not show)"""
    if a.buf is None: return a
    if a.dtype.kind == "c":
        re, im = frozen(part(a, "re")), frozen(part(a, "im"))
        return SArr(a.shape_, a.dtype, elt=lambda i: re.at(i[:-1]) if i[-1] is ZERO else im.at(i[:-1]) if i[-1] is ONE else ite(eq(i[-1], 0), re.at(i[:-1]), im.at(i[:-1])))
    b = a.buf
    snap = Buf.__new__(Buf)
    snap.shape, snap.base, snap.name, snap.dtype = b.shape, b.base, b.name, b.dtype
    snap.log = list(b.log); snap.uid = b.uid
    loops = list(CTX.loops)
    # writes of running iterations are folded in for reads at exactly the written places
    pend = []
    for L in loops:
        for u in L.writes:
            if u[0] is b: pend.append(u[1])
    if pend:
        snap.log = snap.log + pend
        for L in loops:
            if any(x is b for x in L.scope): continue
            L.reads.append((b, None if a.inv is None else ("region", a.inv), list(CTX.pc)))
    elif any(not any(x is b for x in L.scope) for L in loops):
        for L in loops:
            if not any(x is b for x in L.scope): L.lazyreads.append((b, list(CTX.pc), a.inv))
    f = a.fwd
    return SArr(a.shape_, a.dtype, elt=lambda i: snap._read(tuple(mk(x) for x in f(i)), len(snap.log)))

def asarr(x, dtype=None):
    if isinstance(x, SArr):
        if dtype is not None and np.dtype(dtype_(dtype)) != x.dtype: return x.astype(dtype)
        return x
    if isinstance(x, np.ndarray):
        vals = {i: T_(v.item()) for i, v in np.ndenumerate(x)} if x.dtype.kind != "O" else {i: T_(v) for i, v in np.ndenumerate(x)}
        shp = x.shape; dt = x.dtype
    elif isinstance(x, (list, tuple)):
        if len(x) == 0: return new((ZERO,), dtype or "f8", lambda i: ZERO)
        xs = [asarr(y) if isinstance(y, (list, tuple, np.ndarray)) else y for y in x]
        if any(isinstance(y, SArr) for y in xs):
            xs = [asarr(y) for y in xs]
            if not all(len(y.shape_) == len(xs[0].shape_) and all(dim_eq(p, q) for p, q in zip(y.shape_, xs[0].shape_)) for y in xs): raise ValueError("inhomogeneous shape")
            dt = functools.reduce(np.promote_types, [y.dtype for y in xs])
            ys = [frozen(y) for y in xs]
            def elt(i, ys=ys):
                r = ys[-1].at(i[1:])
                for k in range(len(ys) - 2, -1, -1): r = merge_val(eq(i[0], k), ys[k].at(i[1:]), r) if not isnum(i[0]) else (ys[k].at(i[1:]) if num(i[0]) == k else r)
                return r
            a = new((const(len(ys)),) + ys[0].shape_, dtype_(dtype) if dtype is not None else dt, elt, "list")
            return a if dtype is None else a.astype(dtype)
        vals = {(k,): T_(y) for k, y in enumerate(xs)}; shp = (len(xs),)
        ts = list(vals.values())
        dt = np.dtype("?") if all(t.sort == "B" for t in ts) else np.dtype("i8") if all(t.sort in "IB" for t in ts) and not any(isinstance(y, (float, np.floating)) for y in xs) else np.dtype("f8")
    elif numeric(x):
        t = T_(x); vals = {(): t}; shp = ()
        dt = np.dtype("?") if t.sort == "B" else np.dtype("i8") if t.sort == "I" and not isinstance(x, float) else np.dtype("f8")
    else: raise Unsupported("array of %r" % type(x))
    dt2 = np.dtype(dtype_(dtype)) if dtype is not None else dt
    vals = {k: conv_term(v, dt2) if dt2.kind != "c" else v for k, v in vals.items()}
    def elt(i, vals=vals):
        if all(isnum(x) for x in i):
            k = tuple(int(num(x)) for x in i)
            if k not in vals: raise Unsupported("element %s of a literal array" % (k,))
            return vals[k]
        ks = sorted(vals)
        r = vals[ks[-1]]
        for k in reversed(ks[:-1]): r = merge_val(and_(*[eq(a, b) for a, b in zip(i, k)]), vals[k], r)
        return r
    if dt2.kind == "c": return newc([const(s) for s in shp], dt2, elt, lambda i: ZERO)
    return new([const(s) for s in shp], dt2, elt, "literal")

# ---- elementwise
def bshape(shapes):
    n = max(len(s) for s in shapes)
    out = []
    for d in range(n):
        dims = [s[len(s) - n + d] for s in shapes if len(s) - n + d >= 0]
        cand = [x for x in dims if x is not ONE]
        if not cand: out.append(ONE); continue
        r = cand[0]
        for x in cand[1:]:
            if x is r: continue
            dd = CTX.decide(eq(x, r))
            if dd is True: 
                if isnum(x): r = x
                continue
            # numpy broadcasts a dimension that happens to be one
            if not CTX.branch(eq(x, r)): 
                raise ValueError("operands could not be broadcast together with shapes %s %s" % (show(x), show(r)))
        out.append(r)
    return tuple(out)

def bidx(shape, out, i):
    """index into an operand of this shape for index i of the broadcast result"""
    off = len(i) - len(shape)
    return tuple(ZERO if (s is ONE and o is not ONE) else i[off + d] for d, (s, o) in enumerate(zip(shape, out[off:])))

def ewise(f, xs, dtype=None, lazy=True):
    arrs = [frozen(asarr(x)) if not numeric(x) else x for x in xs]
    shapes = [a.shape_ for a in arrs if isinstance(a, SArr)]
    out = bshape(shapes) if shapes else ()
    if dtype is None:
        dts = [a.dtype for a in arrs if isinstance(a, SArr)]
        dtype = functools.reduce(np.promote_types, dts)
    def elt(i):
        return f(*[a.at(bidx(a.shape_, out, i)) if isinstance(a, SArr) else T_(a) for a in arrs])
    r = new(out, dtype, elt, "expr")
    return r

def result_dtype(op, a, b):
    if op in ("lt", "le", "gt", "ge", "eq", "ne"): return np.dtype("?")
    def d(x):
        if isinstance(x, SArr): return x.dtype
        t = T_(x)
        return np.dtype("?") if t.sort == "B" else (np.dtype("i8") if t.sort == "I" and not isinstance(x, float) else np.dtype("f8"))
    da, db = d(a), d(b)
    # scalars do not widen arrays of the same kind
    if isinstance(a, SArr) and not isinstance(b, SArr): r = np.result_type(da, {"b": True, "i": 1, "u": 1, "f": 1.0, "c": 1j}[db.kind])
    elif isinstance(b, SArr) and not isinstance(a, SArr): r = np.result_type(db, {"b": True, "i": 1, "u": 1, "f": 1.0, "c": 1j}[da.kind])
    else: r = np.promote_types(da, db)
    if op == "truediv" and r.kind in "iub": r = np.dtype("f8")
    if op in ("add", "mul") and r.kind == "b": return r
    return r

def cparts(x):
    """(re, im) terms functions for complex arithmetic"""
    raise Unsupported("complex")

def arith(op, a, b):
    if isinstance(a, (list, tuple)): a = asarr(a)
    if isinstance(b, (list, tuple)): b = asarr(b)
    if (isinstance(a, SArr) and a.dtype.kind == "c") or (isinstance(b, SArr) and b.dtype.kind == "c") or isinstance(a, complex) or isinstance(b, complex):
        return carith(op, a, b)
    if a is None or b is None or isinstance(a, str) or isinstance(b, str):
        if op == "eq": return False
        if op == "ne": return True
    return ewise(BIN[op], [a, b], result_dtype(op, a, b))

class CPair:
    """complex array as two real computed arrays"""
def cre(x):
    if isinstance(x, SArr): return x.real if x.dtype.kind == "c" else x
    if isinstance(x, complex): return x.real
    return x
def cim(x):
    if isinstance(x, SArr): return x.imag if x.dtype.kind == "c" else 0
    if isinstance(x, complex): return x.imag
    return 0
def mkcomplex(re, im, dtype="c16"):
    re, im = frozen(asarr(re)), frozen(asarr(im))
    out = bshape([re.shape_, im.shape_])
    return newc(out, dtype, lambda i: re.at(bidx(re.shape_, out, i)), lambda i: im.at(bidx(im.shape_, out, i)))
def newc(shape, dtype, fre, fim):
    def base(i):
        if i[-1] is ZERO: return fre(i[:-1])
        if i[-1] is ONE: return fim(i[:-1])
        return ite(eq(i[-1], 0), fre(i[:-1]), fim(i[:-1]))
    return new(shape, dtype, base, "complex")
def carith(op, a, b):
    ar, ai, br, bi = cre(a), cim(a), cre(b), cim(b)
    if op == "add": return mkcomplex(_op2("add", ar, br), _op2("add", ai, bi))
    if op == "sub": return mkcomplex(_op2("sub", ar, br), _op2("sub", ai, bi))
    if op == "mul": return mkcomplex(_op2("sub", _op2("mul", ar, br), _op2("mul", ai, bi)), _op2("add", _op2("mul", ar, bi), _op2("mul", ai, br)))
    if op == "truediv" and not (isinstance(b, SArr) and b.dtype.kind == "c") and not isinstance(b, complex): return mkcomplex(_op2("truediv", ar, br), _op2("truediv", ai, br))
    if op == "eq": return _op2("and", _op2("eq", ar, br), _op2("eq", ai, bi))
    if op == "ne": return _op2("or", _op2("ne", ar, br), _op2("ne", ai, bi))
    if op in ("lt", "le", "gt", "ge"): return _op2("or", _op2(op[0] + "t", ar, br), _op2("and", _op2("eq", ar, br), _op2(op, ai, bi)))     # numpy: lexicographic
    raise Unsupported("complex " + op)
def _op2(op, a, b):
    if isinstance(a, SArr) or isinstance(b, SArr): return ewise(BIN[op], [a, b], result_dtype(op, a, b))
    return scal(op, a, b)

def _mkaop(op):
    def f(self, o):
        if not (isinstance(o, (SArr, list, tuple, np.ndarray, complex)) or numeric(o)):
            if op == "eq": return False
            if op == "ne": return True
            return NotImplemented
        return arith(op, self, o)
    def r(self, o):
        if not (isinstance(o, (SArr, list, tuple, np.ndarray, complex)) or numeric(o)): return NotImplemented
        return arith(op, o, self)
    def i(self, o):
        if op == "truediv" and self.dtype.kind in "iub": raise TypeError("in-place true division of integers")
        setitem(self, Ellipsis, arith(op, self, o), casting=True)
        return self
    return f, r, i
for _op in ("add", "sub", "mul", "truediv", "floordiv", "mod", "pow", "and", "or", "xor"):
    f, r, i = _mkaop(_op)
    setattr(SArr, "__%s__" % _op, f); setattr(SArr, "__r%s__" % _op, r); setattr(SArr, "__i%s__" % _op, i)
for _op in ("lt", "le", "gt", "ge", "eq", "ne"): setattr(SArr, "__%s__" % _op, _mkaop(_op)[0])

def unary(f, a, dtype=None):
    if isinstance(a, SArr): return ewise(f, [a], dtype or a.dtype)
    return W(f(T_(a)))

# ---- indexing
def norm_slice(s, n):
    """numpy's normalisation of a slice over an axis of length n -> (start, step, count)"""
    step = 1 if s.step is None else s.step
    if isinstance(step, Sym): raise Unsupported("symbolic step")
    step = int(step)
    if step == 0: raise ValueError("slice step cannot be zero")
    def clampt(v, lo, hi):
        v = T_(v)
        if v.sort != "I": raise TypeError("slice indices must be integers")
        if CTX.decide(lt(v, 0)) is True: v = add(v, n)
        elif CTX.decide(lt(v, 0)) is None: v = ite(lt(v, 0), add(v, n), v)
        if CTX.decide(and_(ge(v, lo), le(v, hi))) is True: return v
        v = tmax(v, lo) if CTX.decide(ge(v, lo)) is not True else v
        return tmin(v, hi) if CTX.decide(le(v, hi)) is not True else v
    if step > 0:
        a = ZERO if s.start is None else clampt(s.start, ZERO, n)
        b = n if s.stop is None else clampt(s.stop, ZERO, n)
        d = sub(b, a)
        if step == 1: cnt = d
        else: cnt = floor(div(add(d, step - 1), const(step)))
        if CTX.decide(ge(d, 0)) is not True: cnt = ite(ge(d, 0), cnt, ZERO) if CTX.decide(ge(d, 0)) is None else ZERO
    else:
        a = sub(n, 1) if s.start is None else clampt(s.start, const(-1), sub(n, 1))
        b = const(-1) if s.stop is None else clampt(s.stop, const(-1), sub(n, 1))
        d = sub(a, b)
        if step == -1: cnt = d
        else: cnt = floor(div(add(d, -step - 1), const(-step)))
        if CTX.decide(ge(d, 0)) is not True: cnt = ite(ge(d, 0), cnt, ZERO) if CTX.decide(ge(d, 0)) is None else ZERO
    return a, step, cnt

def norm_int(k, n, what="index"):
    k = T_(k)
    d = CTX.decide(ge(k, 0))
    if d is True: r = k
    elif d is False: r = add(k, n)
    else: r = ite(ge(k, 0), k, add(k, n))
    c = and_(ge(r, 0), lt(r, n))
    if CTX.decide(c) is not True:
        if not CTX.branch(c): raise IndexError("index %s is out of bounds for axis with size %s" % (show(k), show(n)))
    return r

def expand_key(a, k):
    if not isinstance(k, tuple): k = (k,)
    k = list(k)
    def width(x): return x.ndim if isinstance(x, SArr) and x.dtype.kind == "b" else (0 if x is None else 1)
    nd = sum(width(x) for x in k if x is not Ellipsis)
    e = [i for i, x in enumerate(k) if x is Ellipsis]
    if e: k[e[0]:e[0] + 1] = [slice(None)] * (a.ndim - nd)
    else: k += [slice(None)] * (a.ndim - nd)
    return k

def getitem(a, k):
    if isinstance(k, str): raise Unsupported("field access")
    if isinstance(k, (list, np.ndarray)): k = asarr(k)
    if isinstance(k, SArr) and k.dtype.kind == "b" and k.ndim == a.ndim: return MaskSel(a, k)
    key = expand_key(a, k)
    key = [asarr(x) if isinstance(x, (list, np.ndarray)) else x for x in key]
    fancy = [i for i, x in enumerate(key) if isinstance(x, SArr) and x.ndim > 0]
    if fancy:
        if any(key[i].dtype.kind == "b" for i in fancy): raise Unsupported("boolean index along some axes")
        return fancy_get(a, key, fancy)
    return basic_view(a, key)

def basic_view(a, key):
    shape = []; maps = []; ax = 0; strides = [] if a.strides_ is not None else None
    for x in key:
        if x is None: shape.append(ONE); maps.append(("new",)); 
        elif isinstance(x, slice):
            s, st, c = norm_slice(x, a.shape_[ax])
            shape.append(c); maps.append(("s", ax, s, st)); 
            if strides is not None: strides.append(mul(T_(a.strides_[ax]), st))
            ax += 1
        elif numeric(x) or (isinstance(x, SArr) and x.ndim == 0):
            maps.append(("i", ax, norm_int(x, a.shape_[ax]))); ax += 1
        else: raise Unsupported("index %r" % (x,))
        if x is None and strides is not None: strides.append(ZERO)
    if ax != a.ndim: raise IndexError("too many indices")
    def fwd(i):
        out = [None] * a.ndim; p = 0
        for m in maps:
            if m[0] == "new": p += 1
            elif m[0] == "s": out[m[1]] = add(m[2], mul(m[3], i[p])); p += 1
            else: out[m[1]] = m[2]
        return tuple(out)
    def inv(b):
        c = []; out = []; p = 0
        for m in maps:
            if m[0] == "new": out.append(ZERO); p += 1
            elif m[0] == "s":
                q = sub(b[m[1]], m[2])
                if m[3] == -1: q = neg(q)
                elif m[3] != 1:
                    c.append(eq(M(q, const(abs(m[3]))), 0)); q = floor(div(q, const(m[3])))
                c += [ge(q, 0), lt(q, shape[p])]
                out.append(q); p += 1
            else: c.append(eq(b[m[1]], m[2]))
        return and_(*c), tuple(out)
    if not shape and all(m[0] == "i" for m in maps) and a.dtype.kind != "c": return W(a.at(tuple(m[2] for m in maps)))
    return a.view_(shape, fwd, inv, strides=strides)

def fancy_get(a, key, fancy):
    # adjacent index arrays broadcast together (one index array per axis of its own broadcast shape)
    arrs = [frozen(key[i]) for i in fancy]
    bs = bshape([x.shape_ for x in arrs])
    contiguous = fancy == list(range(fancy[0], fancy[0] + len(fancy)))
    ints = [i for i, x in enumerate(key) if numeric(x)]
    if ints or any(x is None for x in key): raise Unsupported("mixed index")
    if not contiguous: raise Unsupported("separated index arrays")
    f0 = fancy[0]
    shape = []; rest = []
    for i, x in enumerate(key):
        if i == f0: shape += list(bs)
        if i in fancy: continue
        s, st, c = norm_slice(x, a.shape_[i]); rest.append((i, s, st)); shape.append(c)
    nb = len(bs)
    # bounds: every index in range (proved for a generic element)
    g = tuple(CTX.fresh("g") for _ in bs)
    inb = [c for v, n in zip(g, bs) for c in (ge(v, 0), lt(v, n))]
    norm = []
    for i, x in zip(fancy, arrs):
        t = x.at(bidx(x.shape_, bs, g))
        n = a.shape_[i]
        if entails(CTX.pc + inb, and_(ge(t, 0), lt(t, n)), 2.0): norm.append(0)
        elif entails(CTX.pc + inb, and_(ge(t, neg(n)), lt(t, n)), 2.0): norm.append(1)
        else: raise Oblig("index array within bounds: %s in [0, %s)" % (show(t)[:150], show(n)))
    src = frozen(a) if a.dtype.kind != "c" else None
    def fwd(i):
        gi = i[f0:f0 + nb]; others = i[:f0] + i[f0 + nb:]
        out = [None] * a.ndim
        for j, x, nn in zip(fancy, arrs, norm):
            t = x.at(bidx(x.shape_, bs, gi))
            out[j] = t if not nn else ite(lt(t, 0), add(t, a.shape_[j]), t)
        for (j, s, st), v in zip(rest, others): out[j] = add(s, mul(st, v))
        return tuple(out)
    if a.dtype.kind == "c":
        re, im = frozen(a.real), frozen(a.imag)
        return newc(shape, a.dtype, lambda i: re.at(fwd(i)), lambda i: im.at(fwd(i)))
    return new(shape, a.dtype, lambda i: src.at(fwd(i)), "fancy")

def same_mask(a, b):
    """two masks select the same elements"""
    if a is b: return True
    if a.ndim != b.ndim or not all(dim_eq(x, y) for x, y in zip(a.shape_, b.shape_)): return False
    if all(isnum(x) for x in a.shape_):
        its = list(itertools.product(*[range(int(num(n))) for n in a.shape_]))
        if len(its) > 64: return False
        for i in its:
            x, y = truth(a.at(tuple(const(k) for k in i))), truth(b.at(tuple(const(k) for k in i)))
            if x is not y and CTX.decide(or_(and_(x, y), and_(not_(x), not_(y)))) is not True: return False
        return True
    g = tuple(CTX.fresh("m") for _ in a.shape_)
    inb = [c for v, n in zip(g, a.shape_) for c in (ge(v, 0), lt(v, n))]
    x, y = within(inb, lambda: truth(a.at(g))), within(inb, lambda: truth(b.at(g)))
    return x is y or entails(CTX.pc + inb, or_(and_(x, y), and_(not_(x), not_(y))), 2.0)

class MaskSel:
    """a[mask]: elements where mask holds, in order; only elementwise use with the same mask"""
    __array_priority__ = 3000
    def __init__(self, a, mask, f=None):
        self.a = frozen(a); self.mask = frozen(mask) if mask.buf is not None else mask; self.key = mask.attrs.get("key", id(mask)); self.mask0 = mask
        self.src = a
        self.dtype = a.dtype
    def _b(self, op, o, r=False):
        if isinstance(o, MaskSel):
            if o.mask0 is not self.mask0 and not same_mask(o.mask, self.mask): raise Unsupported("different masks")
            o = o.a
        elif isinstance(o, SArr) and o.ndim > 0: raise Unsupported("compressed array with another array")
        x = arith(op, o, self.a) if r else arith(op, self.a, o)
        m = MaskSel.__new__(MaskSel); m.a, m.mask, m.mask0, m.dtype, m.src, m.key = frozen(x), self.mask, self.mask0, x.dtype, None, self.key
        return m
    def __neg__(self): return self._b("mul", -1)
    def astype(self, dt, **k):
        m = MaskSel.__new__(MaskSel); x = self.a.astype(dt); m.a, m.mask, m.mask0, m.dtype, m.src, m.key = frozen(x), self.mask, self.mask0, x.dtype, None, self.key
        return m
for _op in ("add", "sub", "mul", "truediv", "floordiv", "mod"):
    def _f(op=_op):
        return (lambda self, o: self._b(op, o)), (lambda self, o: self._b(op, o, True))
    setattr(MaskSel, "__%s__" % _op, _f()[0]); setattr(MaskSel, "__r%s__" % _op, _f()[1])

def setitem(a, k, v, casting=False):
    if hasattr(v, "__array__") and not isinstance(v, (SArr, np.ndarray, MaskSel)) and not numeric(v): v = v.__array__()
    if a.buf is None: raise Unsupported("write to a computed array")
    if not a.writeable: raise ValueError("assignment destination is read-only")
    if isinstance(k, (list, np.ndarray)): k = asarr(k)
    if a.dtype.kind == "c":
        for p in ("re", "im"):
            if isinstance(v, MaskSel):
                vp = MaskSel.__new__(MaskSel); vp.a = frozen(v.a.real if p == "re" else (v.a.imag if v.a.dtype.kind == "c" else asarr(0))); vp.mask, vp.mask0, vp.dtype, vp.src, vp.key = v.mask, v.mask0, np.dtype("f8"), None, v.key
            else: vp = cre(v) if p == "re" else cim(v)
            setitem(part(a, p), k, vp, casting)
        return
    if isinstance(v, SArr) and v.dtype.kind == "c": raise TypeError("complex into real")
    if isinstance(k, SArr) and k.dtype.kind == "b" and k.ndim == a.ndim:
        mask = frozen(k)
        if hasattr(v, "__setmask__"): v.__setmask__(a, mask); return
        sh = bshape([a.shape_, mask.shape_])
        if isinstance(v, MaskSel):
            if v.mask0 is not k and not same_mask(v.mask, mask): raise Unsupported("assignment through a different mask")
            src = v.a
            val = lambda i: src.at(i)
        elif numeric(v) or (isinstance(v, SArr) and v.ndim == 0):
            tv = T_(v); val = lambda i: tv
        else: raise Unsupported("array assigned through a mask")
        dt = a.dtype
        inv = a.inv
        if inv is None: raise Unsupported("write through this view")
        def upd(b, inv=inv):
            c, i = inv(b)
            if c is FALSE: return FALSE, ZERO
            return and_(c, truth(mask.at(i))), conv_term(val(i), dt)
        a.buf.region(upd)
        return
    key = expand_key(a, k)
    key = [asarr(x) if isinstance(x, (list, np.ndarray)) else x for x in key]
    fancy = [i for i, x in enumerate(key) if isinstance(x, SArr) and x.ndim > 0]
    if fancy: return fancy_set(a, key, fancy, v)
    if all(numeric(x) for x in key) and len(key) == a.ndim:
        idx = tuple(norm_int(x, n) for x, n in zip(key, a.shape_))
        if isinstance(v, SArr):
            if v.ndim and not all(s is ONE for s in v.shape_): raise ValueError("setting an array element with a sequence")
            v = v.at((ZERO,) * v.ndim)
        a.set_at(idx, v)
        return
    t = basic_view(a, key)
    if not isinstance(v, SArr): v = asarr(v) if not numeric(v) else v
    if isinstance(v, SArr):
        v = frozen(v)
        # v broadcast to t
        vs = list(v.shape_)
        while len(vs) > t.ndim and vs[0] is ONE: vs.pop(0)
        if len(vs) > t.ndim: raise ValueError("could not broadcast input array")
        off = v.ndim - len(vs)
        for d, s in enumerate(vs):
            n = t.shape_[t.ndim - len(vs) + d]
            if s is ONE or s is n: continue
            if CTX.decide(eq(s, n)) is True: continue
            if not CTX.branch(eq(s, n)): raise ValueError("could not broadcast input array from shape %s into %s" % (show(s), show(n)))
        val = lambda i: v.at((ZERO,) * off + bidx(tuple(vs), t.shape_, i))
    else:
        tv = T_(v); val = lambda i: tv
    inv, dt = t.inv, a.dtype
    if inv is None: raise Unsupported("write through this view")
    tsh = t.shape_
    def upd(b):
        c, i = inv(b)
        if c is FALSE: return FALSE, ZERO
        return c, conv_term(val(i), dt)
    a.buf.region(upd)

def fancy_set(a, key, fancy, v):
    """a[..., ind, ...] = v with one index array: an element that is listed gets the value of one (the last) of the places that list it"""
    if len(fancy) != 1 or key[fancy[0]].ndim != 1 or any(not isinstance(x, slice) for i, x in enumerate(key) if i != fancy[0]): raise Unsupported("assignment through index arrays")
    if isinstance(v, MaskSel): raise Unsupported("assignment of compressed values")
    ax = fancy[0]; ind = frozen(key[ax]); m = ind.shape_[0]
    g = CTX.fresh("g")
    t = ind.at((g,)); n = a.shape_[ax]
    if not entails(CTX.pc + [ge(g, 0), lt(g, m)], and_(ge(t, 0), lt(t, n)), 2.0): raise Oblig("index array within bounds: %s in [0, %s)" % (show(t)[:150], show(n)))
    sl = [None if i == ax else norm_slice(x, a.shape_[i]) for i, x in enumerate(key)]
    if any(x is not None and (x[0] is not ZERO or x[1] != 1 or x[2] is not a.shape_[i]) for i, x in enumerate(sl)): raise Unsupported("assignment through index arrays with a partial slice")
    shp = tuple(m if i == ax else a.shape_[i] for i in range(a.ndim))
    v = frozen(asarr(v))
    if len(bshape([shp, v.shape_])) != a.ndim: raise ValueError("shape mismatch")
    for x, y in zip(bshape([shp, v.shape_]), shp):
        if x is not y and CTX.decide(eq(x, y)) is not True and not CTX.branch(eq(x, y)): raise ValueError("shape mismatch")
    CTX.nfresh += 1
    nm = "placed:%d" % CTX.nfresh
    k = CTX.fresh("k")
    body = ind.at((k,))
    inv, dt = a.inv, a.dtype
    if inv is None: raise Unsupported("write through this view")
    def upd(b):
        c, i = inv(b)
        if c is FALSE or m is ZERO: return FALSE, ZERO
        w = app(nm, [i[ax]], "I")
        has = and_(c, QUANT("any", [(k, ZERO, m)], eq(body, i[ax])))
        CTX.fact(implies(has, and_(ge(w, 0), lt(w, m), eq(subst(body, {k: w}), i[ax]))))
        return has, conv_term(v.at(bidx(v.shape_, shp, i[:ax] + (w,) + i[ax + 1:])), dt)
    a.buf.region(upd)

def digits(k, ds):
    """contract of C order: u_d < n_d with k = (u_0 n_1 + u_1) n_2 + u_2"""
    us = tuple(app("unravelC:%d:%s" % (d, ",".join(str(x.id) for x in ds)), [k], "I") for d in range(len(ds)))
    q = ZERO
    for u, d in zip(us, ds): q = add(mul(q, d), u)
    inr = and_(ge(k, 0), lt(k, prod(ds)))
    for f in [and_(ge(u, 0), lt(u, d)) for u, d in zip(us, ds)] + [eq(q, k)]: CTX.fact(implies(inr, f))
    return us

def reshape(a, s):
    n = a.ndim
    neg1 = [i for i, x in enumerate(s) if isnum(x) and num(x) == -1]
    if len(neg1) > 1: raise ValueError("can only specify one unknown dimension")
    tot = prod(a.shape_)
    if neg1:
        rest = prod([x for i, x in enumerate(s) if i not in neg1])
        if isnum(tot) and isnum(rest):
            if num(rest) == 0 or num(tot) % num(rest): raise ValueError("cannot reshape")
            q = const(num(tot) / num(rest))
        else:
            d = div(tot, rest)
            if d.sort != "I" or any(e < 0 for m, c in tm._pd(d).items() for _, e in m): raise Unsupported("reshape to an unknown length")
            q = d
        s = [q if i in neg1 else x for i, x in enumerate(s)]
    elif prod(s) is not tot:
        if CTX.decide(eq(prod(s), tot)) is not True:
            if not CTX.branch(eq(prod(s), tot)): raise ValueError("cannot reshape array of size %s into shape %s" % (show(tot), [show(x) for x in s]))
    if tuple(s) == a.shape_: return a.view_(s, lambda i: i, lambda i: (TRUE, i), strides=a.strides_)
    # only insertion and removal of axes of length one
    A = [(d, x) for d, x in enumerate(a.shape_) if x is not ONE]
    B = [(d, x) for d, x in enumerate(s) if x is not ONE]
    if [x for _, x in A] == [x for _, x in B]:
        def fwd(i): 
            out = [ZERO] * n
            for (d, _), (e, _) in zip(A, B): out[d] = i[e]
            return tuple(out)
        def inv(b):
            out = [ZERO] * len(s)
            for (d, _), (e, _) in zip(A, B): out[e] = b[d]
            return TRUE, tuple(out)
        return a.view_(s, fwd, inv)
    if len(s) == 1:
        # C order linear index; the inverse needs div and mod
        if a.buf is not None and a.inv is None and False: raise Unsupported("reshape")
        sh = a.shape_
        def fwd(i):
            q = i[0]; out = []
            for x in reversed(sh[1:]):
                out.insert(0, M(q, x)); q = floor(div(sub(q, M(q, x)), x)) if not isnum(x) or num(x) != 1 else q
            return (q,) + tuple(out)
        def inv(b):
            q = ZERO
            for x, y in zip(sh, b): q = add(mul(q, x), y)
            return TRUE, (q,)
        r = a.view_(s, fwd, inv)
        r.attrs = dict(ravel_of=a)
        return r
    if n == 1 and "ravel_of" in a.attrs and len(s) == a.attrs["ravel_of"].ndim and all(dim_eq(x, y) for x, y in zip(s, a.attrs["ravel_of"].shape_)): return a.attrs["ravel_of"]
    # leading axes joined or split, the rest unchanged
    if n == 1:
        sh = tuple(s)
        def fwd(i):
            q = ZERO
            for x, y in zip(sh, i): q = add(mul(q, x), y)
            return (q,)
        return a.view_(s, fwd, None)
    # one leading axis kept, the others joined in C order (digits by the contract of C order)
    if len(s) == 2 and n > 2 and dim_eq(a.shape_[0], s[0]):
        sh = a.shape_[1:]
        for x in sh: 
            if CTX.decide(ge(x, 0)) is not True: raise Unsupported("reshape")
        def fwd(i): return (i[0],) + digits(i[1], sh)
        def inv(b):
            q = ZERO
            for x, y in zip(sh, b[1:]): q = add(mul(q, x), y)
            return TRUE, (b[0], q)
        return a.view_(s, fwd, inv)
    # trailing common axes
    k = 0
    while k < min(n, len(s)) and dim_eq(a.shape_[n - 1 - k], s[len(s) - 1 - k]): k += 1
    lead, slead = a.shape_[:n - k], tuple(s)[:len(s) - k]
    if len(slead) == 1:
        def fwd(i):
            q = i[0]; out = []
            for x in reversed(lead[1:]):
                out.insert(0, M(q, x)); q = floor(div(sub(q, M(q, x)), x))
            return ((q,) + tuple(out) if lead else ()) + tuple(i[1:])
        r = a.view_(s, fwd, None)
        r.attrs = dict(lead_of=(a, n - k))
        return r
    if len(lead) == 1 and "lead_of" in a.attrs:
        a0, m = a.attrs["lead_of"]
        if len(slead) == m and all(dim_eq(x, y) for x, y in zip(slead, a0.shape_[:m])): return a0
    if len(lead) == 1:
        def fwd(i):
            q = ZERO
            for x, y in zip(slead, i): q = add(mul(q, x), y)
            return (q,) + tuple(i[len(slead):])
        return a.view_(s, fwd, None)
    raise Unsupported("reshape %s -> %s" % ([show(x) for x in a.shape_], [show(x) for x in s]))

def reduce_(a, op, axis=None):
    if a.dtype.kind == "c":
        if op != "sum": raise Unsupported("%s of complex numbers" % op)
        re, im = reduce_(a.real, op, axis), reduce_(a.imag, op, axis)
        re, im = (x if isinstance(x, SArr) else asarr(x) for x in (re, im))
        return newc(re.shape_, a.dtype, frozen(re).at, frozen(im).at)
    if axis is None:
        if not all(isnum(x) for x in a.shape_):
            fa = frozen(a)
            vs = [CTX.fresh("q") for _ in a.shape_]
            rng = [(v, ZERO, n) for v, n in zip(vs, a.shape_)]
            body = within([c for v, lo, hi in rng for c in (ge(v, lo), lt(v, hi))], lambda: fa.at(tuple(vs)))
            if op == "sum":
                r = num_of(body)
                for v, lo, hi in reversed(rng): r = app("SUM", [v, lo, hi, r], "R" if a.dtype.kind == "f" else "I")
                return W(r)
            if op in ("all", "any"):
                # decided only if the generic element decides it
                inb = [c for v, lo, hi in rng for c in (ge(v, lo), lt(v, hi))]
                b = truth(body)
                if op == "all" and entails(CTX.pc + inb, b, 2.0): return True
                if op == "any" and entails(CTX.pc + inb, not_(b), 2.0): return False
                q = QUANT(op, rng, b)
                return W(q)
            raise Unsupported("%s of an array of symbolic size" % op)
        fa = frozen(a)
        vals = [fa.at(tuple(const(x) for x in i)) for i in itertools.product(*[range(int(num(n))) for n in a.shape_])]
        return W(fold(op, vals, a.dtype))
    if isinstance(axis, tuple):
        for ax in sorted((x % a.ndim for x in axis), reverse=True): a = reduce_(a, op, ax)
        return a
    if not -a.ndim <= axis < a.ndim: raise np.exceptions.AxisError(axis, a.ndim)
    ax = axis % a.ndim
    n = a.shape_[ax]
    if not isnum(n) and op == "sum":
        fa = frozen(a); v = CTX.fresh("q")
        r = new(a.shape_[:ax] + a.shape_[ax + 1:], a.dtype, lambda i: app("SUM", [v, ZERO, n, within([ge(v, ZERO), lt(v, n)], lambda: num_of(fa.at(i[:ax] + (v,) + i[ax:])))], "R" if a.dtype.kind == "f" else "I"), "sum")
        return W(r.at(())) if not r.ndim else r
    if not isnum(n): raise Unsupported("%s along an axis of symbolic length" % op)
    fa = frozen(a)
    return new(a.shape_[:ax] + a.shape_[ax + 1:], "?" if op in ("all", "any") else a.dtype, lambda i: fold(op, [fa.at(i[:ax] + (const(k),) + i[ax:]) for k in range(int(num(n)))], a.dtype), "reduced")

def within(cs, f):
    """value of f for a bound variable in its range"""
    save = CTX.pc
    CTX.pc = list(save) + list(cs)
    try: return f()
    finally: CTX.pc = save + [c for c in CTX.pc[len(save) + len(cs):] if c not in save]

def QUANT(op, rng, b):
    """a quantified statement as a term; quant_facts gives what is known about it"""
    for v, lo, hi in reversed(rng): b = app("ANY" if op == "any" else "ALL", [v, lo, hi, b], "B")
    return b

def canon(t, memo=None):
    """bound variables renamed by nesting depth: equal up to renaming -> identical"""
    memo = {} if memo is None else memo
    def go(t):
        r = memo.get(t)
        if r is not None: return r[0], r[1]
        if t.op == "app" and t.args[0] in ("SUM", "ANY", "ALL") and len(t.args) == 5:
            v, lo, hi, b = t.args[1:]
            (lo, _), (hi, _) = go(lo), go(hi)
            b, d = go(b)
            nv = var("#%d" % d, v.sort)
            r = app(t.args[0], [nv, lo, hi, subst(b, {v: nv})], t.sort), d + 1
        elif children(t):
            ds = [0]
            def f(x):
                y, d = go(x); ds.append(d); return y
            y = rebuild(t, f); r = (y, max(ds))
        else: r = (t, 0)
        memo[t] = r
        return r
    return go(t)[0]

def quant_facts(terms, cands, wit=None):
    """for each quantified statement in the terms: a witness (any holds / all fails), and the instances at the candidates"""
    out = []; seen = set()
    todo = list(terms)
    while todo:
        t = todo.pop()
        for q in subterms(t):
            if q.op == "app" and q.args[0] in ("ANY", "ALL") and len(q.args) == 5 and q not in seen:
                seen.add(q)
                v, lo, hi, b = q.args[1:]
                if any(x.args[0].startswith("#") for x in free_vars(q)): continue
                w = var("w:%d" % q.id, "I")
                if wit is not None: wit[q] = w
                ins = lambda x: (and_(le(lo, x), lt(x, hi)), subst(b, {v: x}))
                new_ = []
                r, bw = ins(w)
                new_.append(implies(q, and_(r, bw)) if q.args[0] == "ANY" else implies(not_(q), and_(r, not_(bw))))
                for c in cands:
                    r, bc = ins(c)
                    new_.append(implies(and_(r, bc), q) if q.args[0] == "ANY" else implies(and_(r, q), bc))
                out += new_; todo += new_
    return out

class Acc:
    """accumulation a[k] += v in a loop: f(idx) -> (condition, value)"""
    def __init__(self, f, op): self.f, self.op = f, op
    def comb(self, old, v):
        if old.sort == "B" or v.sort == "B": return or_(truth(old), truth(v))
        return add(num_of(old), num_of(v))

class _Key:
    def __getitem__(self, k): return k
KEYOBJ = _Key()
import operator as _o
IOPS = dict(Add=_o.iadd, Sub=_o.isub, Mult=_o.imul, Div=_o.itruediv, BitAnd=_o.iand, BitOr=_o.ior, BitXor=_o.ixor, FloorDiv=_o.ifloordiv, Mod=_o.imod, Pow=_o.ipow, LShift=_o.ilshift, RShift=_o.irshift, MatMult=_o.imatmul)
def key_vars(k):
    if isinstance(k, tuple): return set().union(set(), *[key_vars(x) for x in k])
    if isinstance(k, slice): return set().union(*[key_vars(x) for x in (k.start, k.stop, k.step)])
    if isinstance(k, Sym): return set(free_vars(k.t))
    if isinstance(k, SArr): return None or {"array"}
    return set()
def m_aug(a, k, op, v):
    """a[k] op= v inside a loop"""
    L = CTX.loops[-1] if CTX.loops else None
    if L is not None and isinstance(a, SArr) and a.buf is not None and a.dtype.kind != "c" and not any(x is a.buf for x in L.scope) and (op == "Add" or op == "BitOr" and a.dtype.kind == "b"):
        kv = key_vars(k)
        if "array" not in kv and L.binder[0] not in kv:
            if not a.writeable: raise ValueError("read-only")
            t = basic_view(a, expand_key(a, k)) if not all(numeric(x) for x in expand_key(a, k)) else None
            if t is None:
                idx = tuple(norm_int(x, n) for x, n in zip(expand_key(a, k), a.shape_))
                fi = a.fwd(idx)
                tv = conv_term(T_(v) if not isinstance(v, SArr) else v.at((ZERO,) * v.ndim), a.dtype)
                L.writes.append((a.buf, Acc(lambda b: (and_(*[eq(x, y) for x, y in zip(b, fi)]), tv), "add")))
                return
            val = frozen(v) if isinstance(v, SArr) else asarr(v)
            if len(bshape([t.shape_, val.shape_])) != t.ndim: raise ValueError("could not broadcast")
            inv, dt, tsh = t.inv, a.dtype, t.shape_
            if inv is None: raise Unsupported("accumulation through this view")
            def f(b):
                c, i = inv(b)
                if c is FALSE: return FALSE, ZERO
                return c, conv_term(val.at(bidx(val.shape_, tsh, i)), dt)
            L.writes.append((a.buf, Acc(f, "add")))
            return
    a[k] = IOPS[op](a[k], v)

def fold(op, vals, dt):
    if op == "sum": return add(*[num_of(v) for v in vals]) if vals else ZERO
    if op == "prod": return functools.reduce(mul, [num_of(v) for v in vals], ONE)
    if op == "all": return and_(*[truth(v) for v in vals])
    if op == "any": return or_(*[truth(v) for v in vals])
    if not vals: raise ValueError("zero-size array to reduction operation")
    return functools.reduce(tmax if op == "max" else tmin, [num_of(v) for v in vals])

def cumsum(a):
    if a.ndim != 1: raise Unsupported("cumsum of %d axes" % a.ndim)
    fa = frozen(a)
    if isnum(a.shape_[0]):
        n = int(num(a.shape_[0]))
        vals = []; s = ZERO
        for k in range(n): s = add(s, num_of(fa.at((const(k),)))); vals.append(s)
        return asarr([W(v) for v in vals], "i8") if n else new((ZERO,), a.dtype, lambda i: ZERO)
    v = CTX.fresh("c")
    body = within([ge(v, 0), lt(v, a.shape_[0])], lambda: num_of(fa.at((v,))))
    return new(a.shape_, a.dtype if a.dtype.kind == "f" else "i8", lambda i: app("SUM", [v, ZERO, add(i[0], 1), body], "I" if a.dtype.kind != "f" else "R"), "cumsum")

def resolve(t, hyps):
    """nested conditions that the hypotheses decide"""
    save = CTX.pc; CTX.pc = list(hyps)
    memo = {}
    def go(t):
        r = memo.get(t)
        if r is not None: return r
        if t.op == "ite":
            d = CTX.decide(t.args[0])
            r = go(t.args[1]) if d is True else go(t.args[2]) if d is False else ite(go(t.args[0]), go(t.args[1]), go(t.args[2]))
        elif children(t): r = rebuild(t, go)
        else: r = t
        memo[t] = r
        return r
    try: return go(t)
    finally: CTX.pc = save

# ------------------------------------------------------------------ loops
class Loop:
    def __init__(self, binder): self.binder = binder; self.writes = []; self.reads = []; self.scope = []; self.lazyreads = []; self.events = []

class Poison:
    def __repr__(self): return "<value carried between iterations of a symbolic loop>"
    def _bad(self, *a, **k): raise Unsupported("value carried between iterations of a loop of symbolic length")
for _n in ("__add__", "__radd__", "__sub__", "__rsub__", "__mul__", "__rmul__", "__truediv__", "__rtruediv__", "__floordiv__", "__mod__", "__and__", "__or__", "__rand__", "__ror__", "__lt__", "__le__", "__gt__", "__ge__", "__eq__", "__ne__",
           "__getitem__", "__setitem__", "__call__", "__iter__", "__len__", "__bool__", "__index__", "__int__", "__float__", "__neg__", "__iadd__", "__imul__", "__isub__", "__hash__", "__getattr__"):
    setattr(Poison, _n, Poison._bad)
POISON = Poison()

class SymRange:
    def __init__(self, lo, hi, step): self.lo, self.hi, self.step = lo, hi, step
    def __iter__(self): raise Unsupported("native iteration over a symbolic range")
    def __len__(self): raise Unsupported("len of a symbolic range")

def p_range(*a):
    if any(isinstance(x, Sym) for x in a):
        ts = [T_(x) for x in a]
        lo, hi, st = (ZERO, ts[0], ONE) if len(ts) == 1 else (ts[0], ts[1], ONE) if len(ts) == 2 else ts
        # a short range whose length is settled by the path
        return SymRange(lo, hi, st)
    return range(*[int(x) for x in a])

BREAK = object(); CONT = object()
class Ret:
    def __init__(self, v): self.v = v

class SymNd:
    """ndindex over symbolic lengths"""
    def __init__(self, dims): self.dims = dims
    def __iter__(self): raise Unsupported("native iteration over symbolic indices")
class SymList:
    """a list of symbolic length: item(k)"""
    def __init__(self, n, item, attrs=None): self.n, self.item, self.attrs = n, item, attrs or {}
    def __plen__(self): return W(self.n)
    def __len__(self): raise Unsupported("len of a symbolic list")
    def __iter__(self): raise Unsupported("native iteration over a symbolic list")
    def __getitem__(self, k):
        if not numeric(k): raise Unsupported("slice of a symbolic list")
        return self.item(norm_int(k, self.n))
def listlike(it):
    """a lazily produced sequence of symbolic length, if it is one"""
    if isinstance(it, SymList): return it
    if isinstance(it, (SymZip,)): return it.lst
    if isinstance(it, SArr) and it.ndim and not isnum(it.shape_[0]): return SymList(it.shape_[0], lambda k: it[W(T_(k))])
    if isinstance(it, (SArr, list, tuple, dict, set, range, str, SymRange, SymNd, SymSet)): return None
    f = getattr(type(it), "__iter__", None)
    if getattr(f, "_symgen", False):
        r = f(it)
        return r if isinstance(r, SymList) else r
    return None
def p_gen(it, f):
    """a generator: one value per item"""
    if isinstance(it, SymRange):
        if it.step is not ONE or CTX.decide(ge(it.hi, it.lo)) is not True: raise Unsupported("generator over a range")
        return SymList(sub(it.hi, it.lo), lambda k: f(W(add(it.lo, T_(k)))))
    if isinstance(it, SymList): return SymList(it.n, lambda k: f(it.item(k)))
    return (f(x) for x in it)
def symgen(f):
    f._symgen = True
    return f
class SymZip:
    def __init__(self, lst): self.lst = lst
    def __iter__(self): raise Unsupported("native iteration over a symbolic list")
def p_zip(*xs):
    ys = [listlike(x) for x in xs]
    if not any(isinstance(y, SymList) for y in ys): return builtins.zip(*[x if y is None else y for x, y in builtins.zip(xs, ys)])
    if not all(isinstance(y, SymList) for y in ys): raise Unsupported("zip of a symbolic list with something else")
    for y in ys[1:]:
        if y.n is not ys[0].n and CTX.decide(eq(y.n, ys[0].n)) is not True: raise Unsupported("zip of lists of different lengths")
    return SymZip(SymList(ys[0].n, lambda k: tuple(y.item(k) for y in ys)))
def p_listcomp(it, f):
    if isinstance(it, SymRange):
        if it.step is not ONE: raise Unsupported("symbolic list with a step")
        d = CTX.decide(ge(it.hi, it.lo))
        if d is not True: raise Unsupported("length of a list")
        return SymList(sub(it.hi, it.lo), lambda k: f(W(add(it.lo, T_(k)))))
    if isinstance(it, SymList): return SymList(it.n, lambda k: f(it.item(k)))
    return [f(x) for x in it]
def p_sorted(x, key=None, reverse=False):
    if isinstance(x, SymList):
        """contract: a permutation in (descending) lexicographic order"""
        if key is not None: raise Unsupported("sorted with a key")
        CTX.nfresh += 1
        nm = "sorted:%d" % CTX.nfresh
        SORTED[nm] = (x, reverse)
        def item(k):
            q = app(nm, [T_(k)], "I")
            CTX.fact(implies(and_(le(0, T_(k)), lt(T_(k), x.n)), and_(le(0, q), lt(q, x.n))))
            return x.item(q)
        return SymList(x.n, item, dict(sorted_of=x, reverse=reverse, perm=nm))
    return builtins.sorted(x, key=key, reverse=reverse)
class SymSet:
    """distinct values"""
    def __init__(self, xs):
        self.xs = []
        for x in xs:
            if not builtins.any(y is x or builtins.bool(y == x) for y in self.xs): self.xs.append(x)
    def __plen__(self): return builtins.len(self.xs)
    def __len__(self): return builtins.len(self.xs)
    def __iter__(self): return iter(self.xs)
    def __contains__(self, x): return builtins.any(builtins.bool(y == x) for y in self.xs)

def run_loop(it, body, setter, name):
    """for x in it: body(x)"""
    if isinstance(it, SymNd):
        def nest(k, idx):
            if k == len(it.dims): return body(tuple(idx))
            return run_loop(p_range(W(it.dims[k])), lambda x: nest(k + 1, idx + [x]), setter if k == 0 else (lambda v: None), name)
        return nest(0, [])
    ll = listlike(it)
    if ll is not None: it = ll
    if isinstance(it, SymList):
        lst = it; b1 = body
        it = SymRange(ZERO, lst.n, ONE)
        body = lambda i: b1(lst.item(T_(i)))
    if isinstance(it, SArr) and not isnum(it.shape_[0]):
        a = it; it = SymRange(ZERO, a.shape_[0], ONE); b0 = body
        body = lambda i: b0(a[i])
    if not isinstance(it, SymRange):
        for x in it:
            r = body(x)
            if r is BREAK: return None
            if isinstance(r, Ret): return r
        return None
    global CTX
    c = CTX
    if not isnum(it.step): raise Unsupported("symbolic step")
    stp = int(num(it.step))
    if stp <= 0: raise Unsupported("descending symbolic loop")
    if stp == 1:
        b = c.fresh("i"); lo, hi = it.lo, it.hi; x = b
    else:
        b = c.fresh("i"); lo = ZERO; hi = floor(div(add(sub(it.hi, it.lo), stp - 1), const(stp))); x = add(it.lo, mul(stp, b))
    binder = (b, lo, hi)
    save = (c.trace, c.pos, c.pending, list(c.pc))
    rng = [le(lo, b), lt(b, hi)]
    if stp != 1: rng.append(lt(x, it.hi))
    allw = []; allr = []; alle = []
    todo = [[]]; npaths = 0
    nev = len(c.events)
    nf = c.nfresh
    while todo:
        tr = todo.pop()
        c.trace, c.pos, c.pending = list(tr), 0, []
        c.pc = list(save[3])
        for q in rng: c.assume(q)
        n0 = len(c.pc)
        c.nfresh = nf
        L = Loop(binder); c.loops.append(L)
        setter(POISON)
        try:
            try:
                r = body(W(x))
                if r is BREAK or isinstance(r, Ret): raise Unsupported("loop of symbolic length is left early")
                dead = False
            except Stop: dead = True
        finally: c.loops.pop()
        if not dead:
            g = and_(*[x_ for x_ in c.pc[n0:] if x_ not in c.facts])
            for u in L.writes: allw.append((u[0], u[1], g))
            allr += [(x_[0], x_[1], x_[2]) for x_ in L.reads] + [(x_[0], "lazy" if x_[2] is None else ("region", x_[2]), x_[1]) for x_ in L.lazyreads]
            alle += [e.wrap(binder, g) for e in c.events[nev:]]
        del c.events[nev:]
        todo += c.pending
        npaths += 1
        if npaths > 60: raise Unsupported("too many paths through a loop body")
    c.trace, c.pos, c.pending = save[0], save[1], save[2]
    c.pc = save[3]
    setter(POISON)
    c.events += alle
    # no iteration reads what another one writes
    for buf, idx, pc in allr:
        for wb, u, g in allw:
            if wb is not buf: continue
            if idx is None or idx == "lazy":
                raise Unsupported("array %s is read and written in the same loop" % buf.name)
            if idx[:1] == ("region",):
                # the parts of the storage read by one iteration and written by another do not meet
                gi = tuple(var("cell%d~" % k, "I") for k in range(len(buf.shape) + (1 if buf.dtype is not None and buf.dtype.kind == "c" else 0)))
                inb = [x_ for v_, n_ in zip(gi, buf.shape) for x_ in (ge(v_, 0), lt(v_, n_))]
                cr = idx[1](gi)[0]
                if isinstance(u, Upd): cw = and_(u.guard, *[eq(p, q) for p, q in zip(u.idx, gi)], *[and_(le(bb[1], bb[0]), lt(bb[0], bb[2])) for bb in u.binders]); 
                elif isinstance(u, Acc): cw = u.f(gi)[0]
                else: cw = u(gi)[0]
                b2 = var(b.args[0] + "~", "I")
                ren = {b: b2}
                if not entails(list(pc) + list(rng) + inb + [cr, subst(cw, ren), subst(g, ren)] + [subst(q, ren) for q in rng], eq(b, b2), 2.0): raise Unsupported("array %s carries values between iterations" % buf.name)
                continue
            if not isinstance(u, Upd): raise Unsupported("array %s is read and block-written in the same loop" % buf.name)
            b2 = var(b.args[0] + "~", "I")
            ren = {b: b2}
            for bb in u.binders: ren[bb[0]] = var(bb[0].args[0] + "~", "I")
            hit = and_(*[eq(subst(p, ren), q) for p, q in zip(u.idx, idx)], subst(g, ren), *[subst(q, ren) for q in rng], *[subst(and_(le(bb[1], bb[0]), lt(bb[0], bb[2])), ren) for bb in u.binders], subst(u.guard, ren), ne(b, b2))
            if not entails(list(pc) + list(rng), not_(hit), 2.0): raise Unsupported("array %s carries values between iterations" % buf.name)
    # effects
    kinds = {}
    for buf, u, g in allw: kinds.setdefault(id(buf), set()).add(isinstance(u, Acc))
    if any(len(k) > 1 for k in kinds.values()): raise Unsupported("array both accumulated into and written in one loop")
    outer = c.loops[-1] if c.loops else None
    for buf, u, g in allw:
        if isinstance(u, Upd):
            bs = (binder,) + u.binders
            fv = set().union(*[free_vars(i) for i in u.idx]) if u.idx else set()
            if b in fv:
                nu = Upd(bs, and_(g, u.guard, *rng[2:]), u.idx, u.val)
            else:
                # the same element in each iteration: its final value is left open
                c.nfresh += 1
                nu = Upd(u.binders, TRUE, u.idx, app("last:%d" % c.nfresh, list(u.idx), u.val.sort if u.val.sort != "B" else "I"))
        elif isinstance(u, Acc):
            nu = acc_loop(u, binder, g, rng, c)
        else:
            # block write: exactly one iteration may reach a given element; solved through the block's own condition
            nu = block_loop(u, binder, g, rng, c)
        if outer is not None and not any(x is buf for x in outer.scope): outer.writes.append((buf, nu))
        else: buf.log.append(nu)
    return None

def acc_loop(u, binder, g, rng, c):
    b, lo, hi = binder
    def f(idx):
        cond, val = u.f(idx)
        if cond is FALSE: return FALSE, ZERO
        if b in free_vars(cond): return block_loop(lambda i: u.f(i), binder, g, rng, c)(idx)
        gb = and_(*[x for x in ((g.args if g.op == "and" else (g,))) if b in free_vars(x)]); g0 = and_(*[x for x in ((g.args if g.op == "and" else (g,))) if b not in free_vars(x)])
        gb = and_(gb, *rng[2:])
        if val.sort == "B": return and_(cond, g0), QUANT("any", [(b, lo, hi)], and_(gb, val))
        return and_(cond, g0), app("SUM", [b, lo, hi, ite(gb, num_of(val), ZERO)], val.sort)
    return Acc(f, u.op)

def block_loop(u, binder, g, rng, c):
    b, lo, hi = binder
    memo = {}
    def skolem(idx, cond, val):
        """the last iteration that writes the element, as an unknown"""
        if idx not in memo:
            c_ = CTX
            c_.nfresh += 1
            w, has = var("writer'%d" % c_.nfresh, "I"), var("written'%d" % c_.nfresh, "B")
            memo[idx] = (w, has)
            al = and_(cond, g, *rng)
            c_.wfacts.append((has, w, b, al))
            c_.fact(implies(has, subst(al, {b: w})))
        w, has = memo[idx]
        return has, subst(val, {b: w})
    def f(idx):
        cond, val = u(idx)
        if cond is FALSE: return FALSE, ZERO
        if b not in free_vars(cond) and b not in free_vars(g): raise Unsupported("block written in each iteration")
        # the chunked case: start(b) <= idx < start(b) + step with start = base + step*b
        cands = []
        for cj in (cond.args if cond.op == "and" else (cond,)):
            if cj.op not in ("le0", "lt0", "eq0"): continue
            d = tm._pd(cj.args[0])
            k = d.get(((b, 1),))
            if k is None or any(b in free_vars(a) for m, x in d.items() if m != ((b, 1),) for a, _ in m): continue
            cands.append((k, from_pd({m: x for m, x in d.items() if m != ((b, 1),)}), cj))
        for k, rest, cj in cands:
            if k > 0 or cj.op == "eq0":      # k b + rest <= 0  =>  b = floor(-rest / k)
                sol = floor(div(neg(rest), const(k)))
                env = {b: sol}
                full_ = and_(subst(cond, env), subst(g, env), *[subst(q, env) for q in rng])
                # any iteration that reaches idx is this one
                uniq = entails(list(c.pc) + [cond, g] + rng, eq(b, sol), 3.0)
                if uniq: return full_, subst(val, env)
        return skolem(idx, cond, val)
    return f

# ------------------------------------------------------------------ events (calls of functions given by contract)
class Call:
    def __init__(self, name, args, guard=TRUE, binders=()): self.name, self.args, self.guard, self.binders = name, args, guard, tuple(binders)
    def wrap(self, b, g): return Call(self.name, self.args, and_(g, self.guard), (b,) + self.binders)
    def __repr__(self): return "%s(%s) if %s for %s" % (self.name, self.args, show(self.guard)[:200], self.binders)
def event(name, *args): CTX.events.append(Call(name, args))

# ------------------------------------------------------------------ builtins
def p_len(x):
    if isinstance(x, SArr):
        if x.ndim == 0: raise TypeError("len() of unsized object")
        return x.shape[0]
    if hasattr(x, "__plen__"): return x.__plen__()
    return builtins.len(x)
class _PInt:
    def __call__(self, x=0, *a):
        if isinstance(x, SArr): x = x.item()
        if isinstance(x, Sym): return W(conv_term(x.t, np.dtype("i8")))
        return builtins.int(x, *a)
    def __repr__(self): return "int"
p_int = _PInt()
class _PFloat:
    def __call__(self, x=0.0):
        if isinstance(x, SArr): x = x.item()
        if isinstance(x, Sym): return W(num_of(x.t))
        return x if isinstance(x, Fraction) else builtins.float(x)
p_float = _PFloat()
class _PBool:
    def __call__(self, x=False):
        if isinstance(x, Sym): return bool(x)
        return builtins.bool(x)
p_bool = _PBool()
def p_abs(x): return x.__abs__() if isinstance(x, (Sym, SArr)) else builtins.abs(x)
def p_min(*a, **k):
    if len(a) == 1: a = list(a[0])
    if any(isinstance(x, Sym) for x in a): return W(functools.reduce(tmin, [T_(x) for x in a]))
    return builtins.min(a, **k)
def p_max(*a, **k):
    if len(a) == 1: a = list(a[0])
    if any(isinstance(x, Sym) for x in a): return W(functools.reduce(tmax, [T_(x) for x in a]))
    return builtins.max(a, **k)
def p_sum(x, s=0):
    for y in x: s = s + y
    return s
def p_any(x):
    if hasattr(x, "__pany__"): return x.__pany__()
    for y in x:
        if y: return True
    return False
def p_all(x):
    if hasattr(x, "__pall__"): return x.__pall__()
    for y in x:
        if not y: return False
    return True
def p_isinstance(x, c):
    cs = c if isinstance(c, tuple) else (c,)
    for k in cs:
        if k is p_int: k = builtins.int
        if k is p_float: k = builtins.float
        if k is p_bool: k = builtins.bool
        if isinstance(k, type) and builtins.isinstance(x, k): return True
        if k is int and builtins.isinstance(x, Sym) and x.t.sort == "I": return True
        if k is float and builtins.isinstance(x, Sym) and x.t.sort == "R": return True
    return False
def p_enumerate(x, start=0):
    ll = listlike(x)
    if ll is not None: x = ll
    n, item = (x.n, x.item) if isinstance(x, SymList) else (x.shape_[0], lambda k: x[W(k)]) if isinstance(x, SArr) and not isnum(x.shape_[0]) else (None, None)
    if n is not None: return SymList(n, lambda k: (W(k) if start == 0 else W(add(k, T_(start))), item(k)))
    return builtins.enumerate(list(iter(x)), start)
def p_set(x=()):
    x = list(x)
    if builtins.any(isinstance(y, Sym) for y in x): return SymSet(x)
    return builtins.set(x)
BUILTINS = dict(vars(builtins))
BUILTINS.update(len=p_len, int=p_int, float=p_float, abs=p_abs, min=p_min, max=p_max, sum=p_sum, any=p_any, all=p_all, isinstance=p_isinstance, range=p_range, enumerate=p_enumerate, set=p_set, sorted=p_sorted, zip=p_zip)

# ------------------------------------------------------------------ source transformation
def pure(e):
    return all(isinstance(x, (ast.Name, ast.Constant, ast.BinOp, ast.UnaryOp, ast.BoolOp, ast.Compare, ast.Subscript, ast.expr_context, ast.operator, ast.unaryop, ast.boolop, ast.cmpop, ast.Tuple))
               and not (isinstance(x, ast.Compare) and (len(x.ops) > 1 or isinstance(x.ops[0], (ast.Is, ast.IsNot, ast.In, ast.NotIn)))) for x in ast.walk(e))
def mergeable(body):
    for s in body:
        if isinstance(s, ast.Pass) or (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)): continue
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], (ast.Name, ast.Subscript)) and pure(s.targets[0]) and pure(s.value): continue
        if isinstance(s, ast.AugAssign) and isinstance(s.target, (ast.Name, ast.Subscript)) and pure(s.target) and pure(s.value): continue
        return False
    return True
class Half:
    """assigned on one side of a condition only"""
    def __init__(self, c, v): self.c, self.v = c, v
for _n in ("__add__", "__radd__", "__sub__", "__rsub__", "__mul__", "__rmul__", "__lt__", "__le__", "__gt__", "__ge__", "__eq__", "__ne__", "__getitem__", "__call__", "__iter__", "__bool__", "__index__", "__hash__", "__getattr__"):
    def _hb(self, *a, **k): raise Unsupported("value assigned under one condition only")
    if _n != "__getattr__": setattr(Half, _n, _hb)
def m_test(v):
    if isinstance(v, Sym) and CTX.loops:
        d = CTX.decide(truth(v.t))
        return v if d is None else d
    if isinstance(v, SArr) and v.ndim == 0 and CTX.loops: return m_test(W(v.at(())))
    return builtins.bool(v)
def m_old(f):
    try: return f()
    except (NameError, AttributeError): return UNDEF
def m_merge(c, flag, f, old):
    t = truth(c.t)
    if not flag: t = not_(t)
    save = CTX.pc; CTX.pc = save + [t]
    nd = CTX.ndec
    try: new_ = f()
    finally: CTX.pc = save
    if CTX.ndec != nd: raise Unsupported("branch inside a conditional value")
    if isinstance(old, Half):
        if old.c is not_(t): return W(merge_val(t, T_(new_), T_(old.v)))
        raise Unsupported("conditional value")
    if not numeric(old) and not (isinstance(old, SArr) and old.ndim == 0): return Half(t, new_)
    a, b = T_(new_), T_(old)
    return W(merge_val(t, a, b))
def m_boolop(op, *fs):
    acc = []; save = CTX.pc
    try:
        for f in fs:
            v = f()
            if isinstance(v, SArr) and v.ndim == 0: v = W(v.at(()))
            if not isinstance(v, Sym):
                if op == "or" and v: return v if not acc else True
                if op == "and" and not v: return v if not acc else False
                continue
            t = truth(v.t); acc.append(t)
            CTX.pc = CTX.pc + [not_(t) if op == "or" else t]
    finally: CTX.pc = save
    if not acc: return v
    return W((or_ if op == "or" else and_)(*acc))
WHILE = [None]
def m_while(test, body, scope):
    """a while loop is checked against the invariant its contract supplies; without one it runs step by step"""
    if WHILE[0] is None: return False
    return WHILE[0](test, body, scope)
def m_not(v): return W(not_(truth(v.t))) if isinstance(v, Sym) else not v
MERGE = {"__gen__": p_gen, "__symgen__": symgen, "__while__": m_while, "__lc__": p_listcomp, "__aug__": m_aug, "__key__": KEYOBJ, "__test__": m_test, "__old__": m_old, "__merge__": m_merge, "__boolop__": m_boolop, "__not__": m_not}

class Loops(ast.NodeTransformer):
    """for loops inside functions become calls of their body"""
    def __init__(self): self.n = 0; self.stack = []; self.inloop = 0
    def visit_FunctionDef(self, n): return self.func(n)
    def visit_Lambda(self, n): return n
    def visit_ListComp(self, n):
        self.generic_visit(n)
        if not self.stack or len(n.generators) != 1: return n
        g = n.generators[0]
        if g.ifs or g.is_async: return n
        arg = "__y"
        lam = lambda ps, e: ast.Lambda(ast.arguments([], [ast.arg(p) for p in ps], None, [], [], None, []), e)
        if isinstance(g.target, ast.Name): f = lam([g.target.id], n.elt)
        elif isinstance(g.target, ast.Tuple) and all(isinstance(x, ast.Name) for x in g.target.elts):
            f = lam([arg], ast.Call(lam([x.id for x in g.target.elts], n.elt), [ast.Starred(ast.Name(arg, ast.Load()), ast.Load())], []))
        else: return n
        return ast.Call(ast.Name("__lc__", ast.Load()), [g.iter, f], [])
    def has_yield(self, n):
        for x in ast.walk(n):
            if isinstance(x, (ast.Yield, ast.YieldFrom)): return True
        return False
    def func(self, n):
        self.stack.append(set())
        gen = self.has_yield(n)
        if gen: self.generator(n)
        if not gen:
            n.body = self.block(n.body)
        names = self.stack.pop()
        for d in n.decorator_list: pass
        if names:
            n.body = [ast.If(ast.Constant(False), [ast.Assign([ast.Name(x, ast.Store()) for x in sorted(names)], ast.Constant(None))], [])] + n.body
        return n
    def generator(self, n):
        """def f(): ...; for x in it: ...; yield e   becomes a lazily evaluated sequence"""
        last = n.body[-1]
        ys = [x for x in ast.walk(n) if isinstance(x, (ast.Yield, ast.YieldFrom))]
        if not (len(ys) == 1 and isinstance(last, ast.For) and not last.orelse and isinstance(last.body[-1], ast.Expr) and last.body[-1].value is ys[0] and isinstance(ys[0], ast.Yield)): return
        if any(isinstance(x, (ast.Return, ast.Break, ast.Continue)) for x in ast.walk(n)): return
        pre = {x.id for s in n.body[:-1] for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} | {a.arg for a in n.args.args}
        here = {x.id for s in [last] for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        if pre & here: return
        self.n += 1
        arg = "__g%d" % self.n
        fb = ast.FunctionDef("__gen%d" % self.n, ast.arguments([], [ast.arg(arg)], None, [], [], None, []),
                             [ast.Assign([last.target], ast.Name(arg, ast.Load()))] + last.body[:-1] + [ast.Return(ys[0].value or ast.Constant(None))], [], None); fb.type_params = []
        it = last.iter
        n.body = self.block(n.body[:-1]) + [self.func(fb), ast.Return(ast.Call(ast.Name("__gen__", ast.Load()), [it, ast.Name(fb.name, ast.Load())], []))]
        n.decorator_list = [ast.Name("__symgen__", ast.Load())] + n.decorator_list
    def block(self, body):
        out = []
        for s in body:
            r = self.visit(s)
            out += r if isinstance(r, list) else [r]
        return out
    def visit_If(self, n):
        if self.stack and self.inloop and mergeable(n.body) and mergeable(n.orelse) and pure(n.test):
            return self.merge_if(n)
        n.body = self.block(n.body); n.orelse = self.block(n.orelse); return n
    def merge_if(self, n):
        """inside a loop: both branches are plain assignments; an undecided test is turned into conditional values"""
        import copy as cp
        self.n += 1; c = "__c%d" % self.n
        names = set()
        for s in ast.walk(n):
            if isinstance(s, ast.Name) and isinstance(s.ctx, ast.Store): names.add(s.id)
        lam = lambda e: ast.Lambda(ast.arguments([], [], None, [], [], None, []), e)
        def load(t):
            t = cp.deepcopy(t)
            for s in ast.walk(t):
                if hasattr(s, "ctx"): s.ctx = ast.Load()
            return t
        def conv(e):
            if isinstance(e, ast.BoolOp): return ast.Call(ast.Name("__boolop__", ast.Load()), [ast.Constant("or" if isinstance(e.op, ast.Or) else "and")] + [lam(conv(x)) for x in e.values], [])
            if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not): return ast.Call(ast.Name("__not__", ast.Load()), [conv(e.operand)], [])
            return e
        def merged(body, flag):
            out = []
            for s in body:
                if isinstance(s, ast.Pass) or isinstance(s, ast.Expr): continue
                if isinstance(s, ast.AugAssign): s = ast.Assign([s.target], ast.BinOp(load(s.target), s.op, s.value))
                t = s.targets[0]
                old = ast.Call(ast.Name("__old__", ast.Load()), [lam(load(t))], [])
                out.append(ast.Assign([t], ast.Call(ast.Name("__merge__", ast.Load()), [ast.Name(c, ast.Load()), ast.Constant(flag), lam(s.value), old], [])))
            return out
        full_ = merged(cp.deepcopy(n.body), True) + merged(cp.deepcopy(n.orelse), False)
        test = ast.Assign([ast.Name(c, ast.Store())], ast.Call(ast.Name("__test__", ast.Load()), [conv(cp.deepcopy(n.test))], []))
        isc = lambda v: ast.Compare(ast.Name(c, ast.Load()), [ast.Is()], [ast.Constant(v)])
        inner = ast.If(isc(False), n.orelse or [ast.Pass()], full_ or [ast.Pass()])
        return [test, ast.If(isc(True), n.body, [inner])]
    def visit_AugAssign(self, n):
        if not (self.stack and self.inloop and isinstance(n.target, ast.Subscript)): return n
        t = n.target
        key = ast.Subscript(ast.Name("__key__", ast.Load()), t.slice, ast.Load())
        return ast.Expr(ast.Call(ast.Name("__aug__", ast.Load()), [t.value, key, ast.Constant(type(n.op).__name__), n.value], []))
    def visit_While(self, n):
        import copy as cp
        plain = cp.deepcopy(n); plain.body = self.block(plain.body); plain.orelse = self.block(plain.orelse)
        if not self.stack or n.orelse: return plain
        self.n += 1; k = self.n
        names = set(); loads = set()
        for s in n.body + [n.test]:
            for x in ast.walk(s):
                if isinstance(x, ast.Name): (names if isinstance(x.ctx, ast.Store) else loads).add(x.id)
                if isinstance(x, (ast.Break, ast.Continue, ast.Return, ast.For)): return plain
        self.stack[-1] |= names
        lam = lambda e: ast.Lambda(ast.arguments([], [], None, [], [], None, []), e)
        fb = ast.FunctionDef("__wbody%d" % k, ast.arguments([], [], None, [], [], None, []), ([ast.Nonlocal(sorted(names))] if names else []) + self.block(cp.deepcopy(n.body)), [], None); fb.type_params = []
        scope = ast.Dict([ast.Constant(x) for x in sorted(loads | names)], [ast.Call(ast.Name("__old__", ast.Load()), [lam(ast.Name(x, ast.Load()))], []) for x in sorted(loads | names)])
        call = ast.Call(ast.Name("__while__", ast.Load()), [lam(n.test), ast.Name(fb.name, ast.Load()), lam(scope)], [])
        return [fb, ast.If(ast.UnaryOp(ast.Not(), call), [plain], [])]
    def visit_With(self, n): n.body = self.block(n.body); return n
    def visit_Try(self, n):
        n.body = self.block(n.body); n.orelse = self.block(n.orelse); n.finalbody = self.block(n.finalbody)
        for h in n.handlers: h.body = self.block(h.body)
        return n
    def visit_ClassDef(self, n):
        n.body = [self.visit(x) if isinstance(x, (ast.FunctionDef, ast.ClassDef)) else x for x in n.body]
        return n
    def visit_For(self, n):
        if not self.stack: return n
        if n.orelse: raise Unsupported("for/else")
        self.n += 1; k = self.n
        names = set()
        class A(ast.NodeVisitor):
            def visit_Name(s, m):
                if isinstance(m.ctx, ast.Store): names.add(m.id)
            def visit_FunctionDef(s, m): names.add(m.name)
            def visit_Lambda(s, m): pass
            def visit_ListComp(s, m): pass
            visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp
        A().visit(n.target)
        for s in n.body: A().visit(s)
        self.stack[-1] |= names
        self.inloop += 1
        body = self.block(n.body)
        self.inloop -= 1
        conv = BreakRet()
        body = [conv.visit(s) for s in body]
        arg = "__x%d" % k
        fb = ast.FunctionDef("__body%d" % k, ast.arguments([], [ast.arg(arg)], None, [], [], None, []),
                             ([ast.Nonlocal(sorted(names))] if names else []) + [ast.Assign([n.target], ast.Name(arg, ast.Load()))] + body, [], None)
        fs = ast.FunctionDef("__set%d" % k, ast.arguments([], [ast.arg("__v")], None, [], [], None, []),
                             ([ast.Nonlocal(sorted(names))] + [ast.Assign([ast.Name(x, ast.Store()) for x in sorted(names)], ast.Name("__v", ast.Load()))]) if names else [ast.Pass()], [], None)
        for f in (fb, fs): f.type_params = []
        call = ast.Assign([ast.Name("__r%d" % k, ast.Store())], ast.Call(ast.Name("__loop__", ast.Load()), [n.iter, ast.Name(fb.name, ast.Load()), ast.Name(fs.name, ast.Load()), ast.Constant("line %d" % n.lineno)], []))
        ret = ast.If(ast.Compare(ast.Name("__r%d" % k, ast.Load()), [ast.IsNot()], [ast.Constant(None)]), [ast.Return(ast.Attribute(ast.Name("__r%d" % k, ast.Load()), "v", ast.Load()) if not getattr(self, "nested", 0) else ast.Name("__r%d" % k, ast.Load()))], [])
        out = [fb, fs, call, ret]
        for s in out:
            if isinstance(s, ast.If): s._loopret = True
        return out

class BreakRet(ast.NodeTransformer):
    """break/continue/return of a loop body turned into a function"""
    def visit_FunctionDef(self, n): return n
    def visit_Lambda(self, n): return n
    def visit_While(self, n):
        # inner native loop: its own break/continue stay, returns are converted
        class R(BreakRet):
            def visit_Break(s, m): return m
            def visit_Continue(s, m): return m
        r = R()
        n.body = [r.visit(x) for x in n.body]; return n
    def visit_For(self, n): raise Unsupported("untransformed loop")
    def visit_If(self, n):
        if getattr(n, "_loopret", False):
            # nested loop returned: pass the return marker on
            n.body = [ast.Return(ast.Name(n.test.left.id, ast.Load()))]
            return n
        return self.generic_visit(n)
    def visit_Break(self, n): return ast.Return(ast.Name("__BREAK__", ast.Load()))
    def visit_Continue(self, n): return ast.Return(ast.Name("__CONT__", ast.Load()))
    def visit_Return(self, n): return ast.Return(ast.Call(ast.Name("__RET__", ast.Load()), [n.value or ast.Constant(None)], []))

def compile_source(text, name, only=None):
    tree = ast.parse(text, name)
    tr = Loops()
    tree.body = [tr.visit(s) if isinstance(s, (ast.FunctionDef, ast.ClassDef)) else s for s in tree.body]
    ast.fix_missing_locations(tree)
    return compile(tree, name, "exec")

def load(text, name, glob):
    """execute a module's real source with the given stand-ins for its imports -> namespace"""
    g = {"__builtins__": dict(BUILTINS, __import__=importer(glob)), "__name__": name, "__loop__": run_loop, "__BREAK__": BREAK, "__CONT__": CONT, "__RET__": Ret, **MERGE}
    exec(compile_source(text, name), g)
    return g

class Mod:
    def __init__(self, name, d): self.__dict__.update(d); self.__name__ = name
    def __getattr__(self, n):
        if n.startswith("__"): raise AttributeError(n)
        raise Unsupported("%s.%s has no contract" % (self.__name__, n))

def importer(mods):
    def imp(name, globals=None, locals=None, fromlist=(), level=0):
        key = ("." * level) + name
        if key in mods: m = mods[key]
        elif name in mods and not level: m = mods[name]
        else:
            if not fromlist:
                top = name.split(".")[0]
                if top in mods: return mods[top]
            if name in ("functools", "heapq", "itertools", "operator", "warnings", "numbers", "collections", "math") and not level: return builtins.__import__(name, globals, locals, fromlist, 0)
            m = Mod(key, {})
            if fromlist: 
                for f in fromlist: m.__dict__.setdefault(f, Missing("%s.%s" % (key, f)))
        return m
    return imp

class Missing:
    """something imported that has no contract"""
    def __init__(self, n): self.__dict__["n"] = n
    def __getattr__(self, a):
        if a.startswith("__"): raise AttributeError(a)
        return Missing(self.n + "." + a)
    def __call__(self, *a, **k): raise Unsupported("call of %s, which has no contract" % self.n)

# ------------------------------------------------------------------ Cython
STRUCTS = set()
def pyx_to_python(text):
    """drop the C declarations of a .pyx file; what is dropped: types, casts, compiler directives, nogil"""
    out = []
    lines = text.split("\n")
    # join continued signatures
    joined = []; buf = ""; depth = 0
    for l in lines:
        code = re.sub(r"#.*$", "", l) if '"' not in l and "'" not in l else l
        if depth == 0 and re.match(r"\s*(cp?def|def|cdef)\b.*\($", code.rstrip()) or depth > 0 or re.match(r"\s*(cp?def|def)\b[^)]*\([^)]*$", code):
            buf += (" " if buf else "") + (code.rstrip() if not buf else code.strip())
            depth = buf.count("(") - buf.count(")")
            if depth <= 0: joined.append(buf); buf = ""; depth = 0
            continue
        joined.append(l)
    i = 0
    types = {}
    skip = None
    TY = r"(?:unsigned\s+|const\s+|short\s+|long\s+|signed\s+)*[A-Za-z_][\w\.]*(?:\s+(?:int|long))?"
    for l in joined:
        ind = len(l) - len(l.lstrip())
        s = l.strip()
        if skip is not None:
            if s == "" or ind > skip: continue
            skip = None
        if re.match(r"cdef extern\b", s) or re.match(r"ctypedef\s+(enum|struct|fused)\b", s): skip = ind; continue
        if re.match(r"(from\s+\S+\s+)?cimport\b", s) or s.startswith("ctypedef") or s.startswith("@cython"): continue
        if s == "import cython": continue
        if re.match(r"with\s+nogil\s*:", s): out.append(" " * ind + "if True:"); continue
        s = re.sub(r"\)\s*nogil\s*:", "):", s)
        m = re.match(r"cdef class (\w+)(.*):", s)
        if m: out.append(" " * ind + "class %s%s:" % (m.group(1), m.group(2))); continue
        m = re.match(r"(?:cpdef|cdef)\s+(?:inline\s+)?(?:%s\s+)?(\w+)\s*\((.*)\)\s*(?:nogil)?\s*:" % TY, s)
        if m is None: m = re.match(r"def\s+(\w+)\s*\((.*)\)\s*:", s)
        if m:
            ps = []
            dep = 0; cur = ""
            for ch in m.group(2):
                if ch in "([{": dep += 1
                if ch in ")]}": dep -= 1
                if ch == "," and dep == 0: ps.append(cur); cur = ""
                else: cur += ch
            if cur.strip(): ps.append(cur)
            names = []
            for p in ps:
                p = p.strip()
                nm, _, dflt = p.partition("=")
                nm = nm.strip()
                star = re.match(r"\*+", nm)
                base = re.split(r"[\s\]\*]+", nm)[-1] if not star else nm
                types[base] = nm
                names.append(base + ("=" + dflt if dflt else ""))
            out.append(" " * ind + "def %s(%s):" % (m.group(1), ", ".join(names))); continue
        m = re.match(r"cdef\s+readonly\b", s)
        if m: continue
        m = re.match(r"cdef\s+(%s)\s*(\[[^\]]*\])?\s+(\*?\s*\w+\s*(?:\[[^\]]*\])?\s*(?:=.*)?(?:,.*)?)$" % TY, s)
        if m:
            ty, mv, rest = m.groups()
            decls = []; dep = 0; cur = ""
            for ch in rest:
                if ch in "([{": dep += 1
                if ch in ")]}": dep -= 1
                if ch == "," and dep == 0: decls.append(cur); cur = ""
                else: cur += ch
            decls.append(cur)
            for d in decls:
                q = re.match(r"\s*\*?\s*(\w+)\s*(\[[^\]]*\])?\s*(?:=\s*(.*))?$", d)
                if q is None: raise Unsupported("declaration: " + s)
                nm, arr, init = q.groups()
                if arr: out.append(" " * ind + "%s = __carray__(%r, %s)" % (nm, ty, arr[1:-1]))
                elif mv is None and ty in STRUCTS: out.append(" " * ind + "%s = __carray__(%r, 1)" % (nm, ty))
                else: out.append(" " * ind + "%s = %s" % (nm, init if init else "__undef__"))
            continue
        if s.startswith("cdef"): raise Unsupported("declaration: " + s)
        s = re.sub(r"<\s*(?:unsigned\s+)?[A-Za-z_][\w\.]*\s*\*?\s*>(?=\s*[<A-Za-z_&(])", "", s)
        s = re.sub(r"&\s*(\w+)\[([^\]]*)\]", r"__addr__(\1, \2)", s)
        out.append(" " * ind + s)
    return "\n".join(out)

class CArr:
    """a C array of known length with arbitrary initial content, or a struct (index 0, attributes)"""
    def __init__(self, ty, n):
        self.__dict__["ty"] = ty; self.__dict__["f"] = {}
        self.__dict__["a"] = None
        if ty in ("double", "float", "int", "ptrdiff_t", "unsigned int", "short", "long", "numpy.intp_t", "size_t"):
            self.__dict__["a"] = uninit((const(int(n)),), "f8" if ty in ("double", "float") else "i8")
    def __getitem__(self, i):
        if self.a is None: return self
        return self.a[i]
    def __setitem__(self, i, v):
        if self.a is None:
            # struct copy
            if not isinstance(v, CArr): raise Unsupported("struct assignment")
            self.__dict__["f"] = {k: (copy_carr(x) if isinstance(x, CArr) else x) for k, x in v.f.items()}
            return
        self.a[i] = v
    def __getattr__(self, n):
        if n.startswith("__"): raise AttributeError(n)
        if n not in self.f:
            if self.a is not None: raise AttributeError(n)
            self.f[n] = field_of(self.ty, n)
        return self.f[n]
    def __setattr__(self, n, v):
        if CTX.loops: raise Unsupported("struct field assigned in a symbolic loop")
        self.f[n] = v
def copy_carr(c):
    r = CArr.__new__(CArr); r.__dict__["ty"] = c.ty; r.__dict__["f"] = dict(c.f); r.__dict__["a"] = copy_(c.a) if c.a is not None else None
    return r
FIELDS = {}
def field_of(ty, n):
    t = FIELDS.get((ty, n))
    if t is None: return UNDEF
    return CArr(t, 32)
class Undef:
    def __repr__(self): return "<undefined>"
    def __bool__(self): raise Unsupported("use of an undefined value")
UNDEF = Undef()

def load_pyx(text, name, mods, extra):
    py = pyx_to_python(text)
    g = {"__builtins__": dict(BUILTINS, __import__=importer(mods)), "__name__": name, "__loop__": run_loop, "__BREAK__": BREAK, "__CONT__": CONT, "__RET__": Ret, **MERGE,
         "__undef__": UNDEF, "__carray__": CArr, "__addr__": lambda a, i: Addr(a, i)}
    g.update(extra)
    exec(compile_source(py, name), g)
    return g, py
class Addr:
    def __init__(self, a, i): self.a, self.i = a, i
    def get(self, k): return T_(self.a[self.i + k])

"""Terms of the verifier: hash-consed, arithmetic kept in polynomial normal form over atoms.

Sorts: 'I' mathematical integers, 'R' reals, 'B' booleans, 'F' function pointers / opaque values.
Machine integers and floats are treated as mathematical ones (recorded as an assumption in the evidence)."""
from fractions import Fraction
from functools import reduce
from math import gcd
import hashlib

class T:
    __slots__ = ("op", "args", "sort", "id", "_h", "_fv")
    def __repr__(self): return show(self)
    def __hash__(self): return self._h
    def __eq__(self, o): return self is o
    def __ne__(self, o): return self is not o
    # arithmetic sugar
    def __add__(self, o): return add(self, o)
    __radd__ = __add__
    def __sub__(self, o): return add(self, neg(mk(o)))
    def __rsub__(self, o): return add(mk(o), neg(self))
    def __mul__(self, o): return mul(self, o)
    __rmul__ = __mul__
    def __neg__(self): return neg(self)

_tab = {}
_all = []
def _new(op, args, sort):
    k = (op, args, sort)
    t = _tab.get(k)
    if t is None:
        t = T.__new__(T)
        t.op, t.args, t.sort = op, args, sort
        t.id = len(_all)
        t._h = hash(t.id * 2654435761 & 0xffffffffffff)
        t._fv = None
        _tab[k] = t
        _all.append(t)
    return t

def const(v):
    if isinstance(v, bool): return _new("bool", (v,), "B")
    if isinstance(v, float): v = Fraction(v)
    if isinstance(v, int): v = Fraction(v)
    return _new("num", (v,), "I" if v.denominator == 1 else "R")
TRUE, FALSE = const(True), const(False)
ZERO, ONE = const(0), const(1)
def fn(name): return _new("fn", (name,), "F")
NULL = fn("NULL")
def var(name, sort="I"): return _new("var", (name,), sort)
def app(f, args, sort="R"): return _new("app", (f,) + tuple(mk(a) for a in args), sort)
def mk(x):
    if isinstance(x, T): return x
    return const(x)
def isnum(t): return t.op == "num"
def num(t): return t.args[0]

# ---------- polynomials
# dict: monomial -> coefficient; monomial = tuple of (atom, exponent) sorted by atom id
def _pd(t):
    if t.op == "poly": return dict(t.args)
    if t.op == "num": return {(): t.args[0]} if t.args[0] != 0 else {}
    return {((t, 1),): Fraction(1)}

def _mono_int(m):
    return all(a.sort == "I" and e > 0 for a, e in m)

def _mono_key(m): return tuple((a.id, e) for a, e in m)

def from_pd(d):
    items = [(m, c) for m, c in d.items() if c != 0]
    if not items: return ZERO
    if len(items) == 1:
        m, c = items[0]
        if m == (): return const(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1: return m[0][0]
    items.sort(key=lambda mc: _mono_key(mc[0]))
    sort = "I" if all(c.denominator == 1 and _mono_int(m) for m, c in items) else "R"
    return _new("poly", tuple(items), sort)

def add(*ts):
    d = {}
    for t in ts:
        for m, c in _pd(mk(t)).items():
            d[m] = d.get(m, 0) + c
    return from_pd(d)

def neg(t): return from_pd({m: -c for m, c in _pd(mk(t)).items()})
def sub(a, b): return add(mk(a), neg(mk(b)))

def _mmul(m1, m2):
    if not m1: return m2
    if not m2: return m1
    e = dict(m1)
    for a, x in m2: e[a] = e.get(a, 0) + x
    return tuple(sorted(((a, x) for a, x in e.items() if x != 0), key=lambda ax: ax[0].id))

def mul(a, b):
    a, b = mk(a), mk(b)
    A, B = _pd(a), _pd(b)
    if len(A) > 1 and len(B) > 1 and len(A) * len(B) > 4000: raise Unsupported("polynomial too large")
    d = {}
    for m1, c1 in A.items():
        for m2, c2 in B.items():
            m = _mmul(m1, m2)
            d[m] = d.get(m, 0) + c1 * c2
    return from_pd(d)

def prod(ts): return reduce(mul, ts, ONE)

def power(t, n):
    r = ONE
    for _ in range(n): r = mul(r, t)
    return r

class Unsupported(Exception): pass

def inv(t):
    t = mk(t)
    d = _pd(t)
    if not d: raise Unsupported("division by the constant zero")
    if len(d) == 1:
        (m, c), = d.items()
        return from_pd({tuple((a, -e) for a, e in m): 1 / c})
    # content-normalised
    lead = sorted(d.items(), key=lambda mc: _mono_key(mc[0]))[-1][1]
    p = from_pd({m: c / lead for m, c in d.items()})
    a = _new("inv", (p,), "R")
    return from_pd({((a, 1),): 1 / lead})

def div(a, b): return mul(a, inv(b))

# ---------- booleans
def _content(d):
    """positive rational g such that d/g has coprime integer coefficients"""
    n, den = 0, 1
    for c in d.values():
        den = den * c.denominator // gcd(den, c.denominator)
    for c in d.values():
        n = gcd(n, int(abs(c) * den))
    return Fraction(n, den) if n else Fraction(1)

def le0(p):
    p = mk(p)
    if isnum(p): return const(num(p) <= 0)
    d = _pd(p)
    isint = all(_mono_int(m) for m in d)
    if isint:
        dn = {m: c for m, c in d.items() if m != ()}
        g = _content(dn)
        c = d.get((), Fraction(0)) / g
        c = Fraction(-((-c.numerator) // c.denominator))  # ceil
        d = {m: x / g for m, x in dn.items()}
        if c: d[()] = c
        return _new("le0", (from_pd(d),), "B")
    g = _content(d)
    return _new("le0", (from_pd({m: x / g for m, x in d.items()}),), "B")

def lt0(p):
    p = mk(p)
    if isnum(p): return const(num(p) < 0)
    d = _pd(p)
    if all(_mono_int(m) for m in d):
        den = 1
        for c in d.values(): den = den * c.denominator // gcd(den, c.denominator)
        return le0(add(from_pd({m: c * den for m, c in d.items()}), 1))
    g = _content(d)
    return _new("lt0", (from_pd({m: x / g for m, x in d.items()}),), "B")

def eq0(p):
    p = mk(p)
    if isnum(p): return const(num(p) == 0)
    d = _pd(p)
    if p.op == "ite" and isnum(p.args[1]) and isnum(p.args[2]):
        return ite(p.args[0], const(num(p.args[1]) == 0), const(num(p.args[2]) == 0))
    dn = {m: c for m, c in d.items() if m != ()}
    g = _content(dn)
    lead = sorted(dn.items(), key=lambda mc: _mono_key(mc[0]))[-1][1]
    if lead < 0: g = -g
    d = {m: x / g for m, x in d.items()}
    if all(_mono_int(m) for m in d) and () in d and d[()].denominator != 1: return FALSE
    return _new("eq0", (from_pd(d),), "B")

def lt(a, b): return lt0(sub(a, b))
def le(a, b): return le0(sub(a, b))
def gt(a, b): return lt0(sub(b, a))
def ge(a, b): return le0(sub(b, a))
def eq(a, b):
    a, b = mk(a), mk(b)
    if a is b: return TRUE
    if a.sort == "B": return or_(and_(a, b), and_(not_(a), not_(b)))
    if a.sort == "F":
        if a.op == "fn" and b.op == "fn": return FALSE
        if a.op == "ite": return ite(a.args[0], eq(a.args[1], b), eq(a.args[2], b))
        if b.op == "ite": return ite(b.args[0], eq(a, b.args[1]), eq(a, b.args[2]))
        return _new("feq", tuple(sorted((a, b), key=lambda t: t.id)), "B")
    return eq0(sub(a, b))
def ne(a, b): return not_(eq(a, b))

_nots = {}
def not_(c):
    r = _nots.get(c)
    if r is None: r = _nots[c] = _not(c)
    return r
def _not(c):
    c = mk(c)
    if c.op == "bool": return const(not c.args[0])
    if c.op == "not": return c.args[0]
    if c.op == "le0":
        return lt0(neg(c.args[0]))
    if c.op == "lt0": return le0(neg(c.args[0]))
    if c.op == "and": return or_(*[not_(x) for x in c.args])
    if c.op == "or": return and_(*[not_(x) for x in c.args])
    return _new("not", (c,), "B")

def _nary(op, unit, zero, cs):
    out = []
    seen = set()
    for c in cs:
        c = mk(c)
        sub_ = c.args if c.op == op else (c,)
        for x in sub_:
            if x is unit: continue
            if x is zero: return zero
            if x in seen: continue
            if not_(x) in seen: return zero
            seen.add(x); out.append(x)
    if not out: return unit
    if len(out) == 1: return out[0]
    # absorption
    dual = "or" if op == "and" else "and"
    out2 = []
    for x in out:
        if x.op == dual and any(y in seen for y in x.args): continue
        if x.op == dual:
            ys = [y for y in x.args if not_(y) not in seen]
            if len(ys) < len(x.args):
                x2 = _nary(dual, zero, unit, ys)
                return _nary(op, unit, zero, [z for z in out if z is not x] + [x2])
        out2.append(x)
    out2.sort(key=lambda t: t.id)
    if len(out2) == 1: return out2[0]
    return _new(op, tuple(out2), "B")

def and_(*cs): return _nary("and", TRUE, FALSE, cs)
def or_(*cs): return _nary("or", FALSE, TRUE, cs)
def implies(a, b): return or_(not_(a), b)

_neg_ops = ("not",)
def ite(c, a, b):
    c, a, b = mk(c), mk(a), mk(b)
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    if a.sort == "B":
        return or_(and_(c, a), and_(not_(c), b))
    # canonical polarity
    n = not_(c)
    if n.id < c.id: c, a, b = n, b, a
    if a.op == "ite":
        if a.args[0] is c: a = a.args[1]
        elif a.args[0] is not_(c): a = a.args[2]
    if b.op == "ite":
        if b.args[0] is c: b = b.args[2]
        elif b.args[0] is not_(c): b = b.args[1]
    if a is b: return a
    if a.sort == "F" or b.sort == "F": sort = "F"
    else: sort = "I" if a.sort == "I" and b.sort == "I" else "R"
    return _new("ite", (c, a, b), sort)

def floor(t):
    t = mk(t)
    if isnum(t): return const(num(t).numerator // num(t).denominator)
    if t.sort == "I": return t
    d = _pd(t)
    ip, rp = {}, {}
    for m, c in d.items():
        if _mono_int(m):
            f = c.numerator // c.denominator
            if m == ():
                if f: ip[m] = Fraction(f)
                if c - f: rp[m] = c - f
            elif c.denominator == 1: ip[m] = c
            else: rp[m] = c
        else: rp[m] = c
    r = from_pd(rp)
    if isnum(r): return add(from_pd(ip), const(num(r).numerator // num(r).denominator))
    if r.op == "ite" and (isnum(r.args[1]) or isnum(r.args[2])):
        return add(from_pd(ip), ite(r.args[0], floor(r.args[1]), floor(r.args[2])))
    return add(from_pd(ip), _new("floor", (r,), "I"))

def M(t, N):
    """t mod N in [0, N), N > 0"""
    t, N = mk(t), mk(N)
    if isnum(t) and isnum(N) and num(N) > 0:
        return const(num(t) - num(N) * (num(t) / num(N)).__floor__())
    if t.op == "ite": return ite(t.args[0], M(t.args[1], N), M(t.args[2], N))
    d = _pd(t)
    # drop integer multiples of N, unfold inner M with coefficient
    changed = True
    while changed:
        changed = False
        for m, c in list(d.items()):
            if c.denominator == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].op == "M" and m[0][0].args[1] is N:
                del d[m]
                for m2, c2 in _pd(m[0][0].args[0]).items():
                    d[m2] = d.get(m2, 0) + c * c2
                changed = True
                break
    if isnum(N):
        n = num(N)
        d = {m: (c if not (_mono_int(m) and c.denominator == 1) else c - n * (c / n).__floor__()) for m, c in d.items()}
    else:
        ND = _pd(N)
        if len(ND) == 1:
            (nm, nc), = ND.items()
            # remove monomials divisible by N
            for m, c in list(d.items()):
                q = _mmul(m, tuple((a, -e) for a, e in nm))
                if all(e > 0 for _, e in q) and _mono_int(q) and (c / nc).denominator == 1: del d[m]
        else:
            pass
    t2 = from_pd(d)
    if t2.op == "ite": return M(t2, N)
    if isnum(t2) and num(t2) == 0: return ZERO
    return _new("M", (t2, N), "I" if t2.sort == "I" and N.sort == "I" else "R")

def absv(t): t = mk(t); return ite(ge(t, 0), t, neg(t))
def tmin(a, b): return ite(le(a, b), a, b)
def tmax(a, b): return ite(le(a, b), b, a)

# ---------- traversal
def children(t):
    if t.op == "poly": return [a for m, c in t.args for a, e in m]
    return [a for a in t.args if isinstance(a, T)]

def atoms_of(t):
    if t.op == "poly":
        s = []
        for m, c in t.args:
            for a, e in m:
                if a not in s: s.append(a)
        return s
    if t.op == "num": return []
    return [t]

def rebuild(t, f):
    """apply f to the children of t"""
    op = t.op
    if op == "poly":
        d = {}
        ident = True
        new = {}
        for m, c in t.args:
            for a, e in m:
                if a not in new:
                    new[a] = f(a)
                    if new[a] is not a: ident = False
        if ident: return t
        parts = []
        for m, c in t.args:
            p = const(c)
            for a, e in m:
                b = new[a]
                for _ in range(abs(e)): p = mul(p, b if e > 0 else inv(b))
            parts.append(p)
        return add(*parts)
    if op in ("num", "bool", "fn", "var"): return t
    a = [f(x) if isinstance(x, T) else x for x in t.args]
    if all(x is y for x, y in zip(a, t.args)): return t
    if op == "app":
        h = SIMP.get(a[0])
        return h(*a[1:]) if h else _new("app", tuple(a), t.sort)
    return {"ite": ite, "floor": floor, "M": M, "le0": le0, "lt0": lt0, "eq0": eq0, "not": not_, "and": and_, "or": or_, "inv": inv, "feq": eq}[op](*a)

SIMP = {}

def subst(t, env, cache=None):
    """replace atoms/terms (keys of env) everywhere"""
    if cache is None: cache = {}
    def go(x):
        r = env.get(x)
        if r is not None: return r
        r = cache.get(x)
        if r is None:
            r = rebuild(x, go)
            cache[x] = r
        return r
    return go(t)

_subs = {}
def subterms(t, acc=None):
    if acc is None:
        r = _subs.get(t)
        if r is None:
            if len(_subs) > 30000: _subs.clear()
            r = _subs[t] = frozenset(subterms(t, set()))
        return r
    st = [t]
    while st:
        x = st.pop()
        if x in acc: continue
        acc.add(x)
        st.extend(children(x))
    return acc

def free_vars(t):
    if t._fv is None:
        if t.op == "var": t._fv = frozenset((t,))
        else:
            s = frozenset()
            for c in children(t): s |= free_vars(c)
            t._fv = s
    return t._fv

# ---------- evaluation
class EvalError(Exception): pass
def _hashval(f, args, sort):
    h = hashlib.sha256(repr((f, [str(a) for a in args])).encode()).digest()
    n = int.from_bytes(h[:4], "big")
    if sort == "I": return Fraction(n % 1000)
    if sort == "B": return bool(n & 1)
    return Fraction(n % 4001 - 2000, 512)

def evalt(t, env, funcs=None, cache=None):
    if cache is None: cache = {}
    def go(x):
        if x in cache: return cache[x]
        op = x.op
        if op in ("num", "bool"): r = x.args[0]
        elif op == "fn": r = x.args[0]
        elif op == "var":
            if x not in env: raise EvalError("no value for %s" % x.args[0])
            r = env[x]
        elif op == "poly":
            r = Fraction(0)
            for m, c in x.args:
                v = c
                for a, e in m:
                    y = go(a)
                    if e < 0:
                        if y == 0: raise EvalError("division by zero")
                        v = v / y ** (-e)
                    else: v = v * y ** e
                r += v
        elif op == "ite": r = go(x.args[1]) if go(x.args[0]) else go(x.args[2])
        elif op == "floor": r = Fraction(go(x.args[0]).__floor__())
        elif op == "M":
            n = go(x.args[1]); v = go(x.args[0])
            if n <= 0: raise EvalError("modulus")
            r = v - n * (v / n).__floor__()
        elif op == "le0": r = go(x.args[0]) <= 0
        elif op == "lt0": r = go(x.args[0]) < 0
        elif op == "eq0": r = go(x.args[0]) == 0
        elif op == "feq": r = go(x.args[0]) == go(x.args[1])
        elif op == "not": r = not go(x.args[0])
        elif op == "and":
            r = True
            for a in x.args:
                if not go(a): r = False; break
        elif op == "or":
            r = False
            for a in x.args:
                if go(a): r = True; break
        elif op == "inv":
            v = go(x.args[0])
            if v == 0: raise EvalError("division by zero")
            r = 1 / v
        elif op == "app":
            a = [go(y) for y in x.args[1:]]
            f = (funcs or {}).get(x.args[0])
            r = f(*a) if f else _hashval(x.args[0], a, x.sort)
        else: raise EvalError(op)
        cache[x] = r
        return r
    return go(t)

# ---------- printing
def show(t, depth=6):
    if depth == 0: return "..."
    op = t.op
    s = lambda x: show(x, depth - 1)
    if op == "num": return str(t.args[0])
    if op == "bool": return str(t.args[0]).lower()
    if op in ("var", "fn"): return t.args[0]
    if op == "poly":
        out = []
        for m, c in t.args[:12]:
            f = "*".join((s(a) if e == 1 else "%s^%d" % (s(a), e)) for a, e in m)
            out.append(f if c == 1 and f else ("%s*%s" % (c, f) if f else str(c)))
        if len(t.args) > 12: out.append("...(%d terms)" % len(t.args))
        return "(" + " + ".join(out) + ")"
    if op == "app": return "%s(%s)" % (t.args[0], ", ".join(s(a) for a in t.args[1:]))
    if op in ("le0", "lt0", "eq0"): return "%s %s 0" % (s(t.args[0]), {"le0": "<=", "lt0": "<", "eq0": "=="}[op])
    if op == "ite": return "if(%s, %s, %s)" % tuple(s(a) for a in t.args)
    return "%s(%s)" % (op, ", ".join(s(a) if isinstance(a, T) else str(a) for a in t.args))

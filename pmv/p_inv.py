"""Contracts of pmesh/_invariant_imp.c: the inside-out mode index is a bijection, by induction on the dimension."""
import os, time, itertools
import z3
from fractions import Fraction as Fr
from pycparser import c_ast
from .term import *
from .csym import *
from .solve import Obs, check, entails, feasible
from . import build

REPO = build.REPO
_src = None
def source():
    global _src
    if _src is None:
        d = os.path.join(REPO, "pmesh")
        _src = Source(os.path.join(d, "_invariant_imp.c"), [d])
    return _src
I = lambda n: var(n, "I")
ASSUME = ["|x_d| < 2^31 (the C code takes abs() of each coordinate as an int) and no overflow of ptrdiff_t in the index"]

# ---------------------------------------------------------------- get_nbits over bit vectors
def bits(P):
    """get_nbits(v) is the number of set bits, for all 2^32 arguments; straight-line code translated to 32-bit vectors"""
    name = "get_nbits: number of set bits of every 32-bit word"
    t0 = time.time()
    try:
        fd = source().funcs["get_nbits"]
        env = {}
        v0 = z3.BitVec("v", 32)
        env[fd.decl.type.args.params[0].name] = v0
        typ = {fd.decl.type.args.params[0].name: "u"}
        # value: (bitvector of 64 bits or 32 bits, signed?)
        def lit(s):
            u = "u" in s.lower(); L = "l" in s.lower()
            n = int(s.rstrip("uUlL"), 0)
            return z3.BitVecVal(n, 64 if L or n >= 2**32 else 32), not u and n < 2**31
        def width(a, b):
            (x, sx), (y, sy) = a, b
            n = max(x.size(), y.size())
            e = lambda t, s: t if t.size() == n else (z3.SignExt(n - t.size(), t) if s else z3.ZeroExt(n - t.size(), t))
            sg = (sx if x.size() == n else True) and (sy if y.size() == n else True)
            return e(x, sx), e(y, sy), sg
        def cast(v, ty):
            x, s = v
            n = {"u32": 32, "int": 32, "ulong": 64, "long": 64}.get(ty)
            if n is None: raise Unsupported("type %s in get_nbits" % ty)
            y = x if x.size() == n else (z3.Extract(n - 1, 0, x) if x.size() > n else (z3.SignExt(n - x.size(), x) if s else z3.ZeroExt(n - x.size(), x)))
            return y, ty in ("int", "long")
        ex = Exec(source())
        types = {}
        def ev(n):
            if isinstance(n, c_ast.Constant): return lit(n.value)
            if isinstance(n, c_ast.ID):
                return env[n.name] if isinstance(env[n.name], tuple) else (env[n.name], False)
            if isinstance(n, c_ast.Cast): return cast(ev(n.expr), ex.ctype(n.to_type.type))
            if isinstance(n, c_ast.UnaryOp):
                if n.op == "sizeof":
                    ty = ex.ctype(n.expr.type if isinstance(n.expr, c_ast.Typename) else None)
                    return z3.BitVecVal({"u32": 4, "int": 4, "ulong": 8, "long": 8}[ty], 64), False
                x, s = ev(n.expr)
                if n.op == "~": return ~x, s
                if n.op == "-": return -x, s
                raise Unsupported("operator " + n.op)
            if isinstance(n, c_ast.BinaryOp):
                a, b = ev(n.left), ev(n.right)
                if n.op in ("<<", ">>"):
                    x, s = a; y = b[0]
                    y = y if y.size() == x.size() else (z3.Extract(x.size() - 1, 0, y) if y.size() > x.size() else z3.ZeroExt(x.size() - y.size(), y))
                    return (x << y if n.op == "<<" else ((x >> y) if s else z3.LShR(x, y))), s
                x, y, s = width(a, b)
                r = {"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y, "&": lambda: x & y, "|": lambda: x | y, "^": lambda: x ^ y,
                     "/": lambda: x / y if s else z3.UDiv(x, y), "%": lambda: z3.SRem(x, y) if s else z3.URem(x, y)}.get(n.op)
                if r is None: raise Unsupported("operator " + n.op)
                return r(), s
            raise Unsupported("expression %s in get_nbits" % type(n).__name__)
        ret = None
        for s in fd.body.block_items:
            if isinstance(s, c_ast.Decl):
                types[s.name] = ex.ctype(s.type)
                if s.init is not None: env[s.name] = cast(ev(s.init), types[s.name])
            elif isinstance(s, c_ast.Assignment):
                ty = types.get(s.lvalue.name, "u32")
                r = ev(s.rvalue)
                if s.op != "=":
                    r = ev(c_ast.BinaryOp(s.op[:-1], s.lvalue, s.rvalue))
                env[s.lvalue.name] = cast(r, ty)
            elif isinstance(s, c_ast.Return): ret = cast(ev(s.expr), "int"); break
            elif isinstance(s, c_ast.EmptyStatement): pass
            else: raise Unsupported("statement %s" % type(s).__name__)
        if ret is None: raise Unsupported("no return")
        s = z3.Solver(); s.set("timeout", 60000)
        want = z3.Sum([z3.ZeroExt(31, z3.Extract(i, i, v0)) for i in range(32)])
        # bounded arithmetic: the count fits in 6 bits
        s.add(ret[0] != want)
        r = s.check()
        rp = []
        if r == z3.sat:
            v = s.model().eval(v0, model_completion=True).as_long()
            # the smallest wrong argument is what a mode index of few dimensions can meet
            for nd in range(1, 9):
                s.push(); s.add(z3.ULT(v0, 1 << nd))
                if s.check() == z3.sat:
                    v = s.model().eval(v0, model_completion=True).as_long()
                    if nd <= 6: rp = [dict(case="bijection", params=dict(nd=nd, R=1, comp=c, extra=1, perm=1, ity="i8")) for c in (0, 1)]
                    s.pop(); break
                s.pop()
            return P.put(name, "refuted", "z3 bit vectors", time.time() - t0, "get_nbits(%d) is not %d" % (v, bin(v).count("1")), rp)
        return P.put(name, "proved" if r == z3.unsat else "undecided", "z3 bit vectors", time.time() - t0, "z3: %s" % r)
    except (Unsupported, KeyError, AttributeError) as e:
        return P.put(name, "undecided", "-", time.time() - t0, "not within reach: %r" % (e,))

# ---------------------------------------------------------------- the index
def volume(comp, s):
    """number of modes with |x|_inf <= s"""
    r = ONE
    for c in comp: r = mul(r, add(s, 1) if c else add(mul(2, s), 1))
    return r

def nonneg(p, lows):
    """p >= 0 because, with every variable shifted to its lower bound, all coefficients are non-negative"""
    p = subst(p, {v: add(v, lo) for v, lo in lows.items()})
    d = {} if p is ZERO else (dict(p.args) if p.op == "poly" else ({(): num(p)} if isnum(p) else {((p, 1),): Fr(1)}))
    return all(c >= 0 and all(e > 0 and a in lows for a, e in m) for m, c in d.items())

def absmax(P, nd):
    name = "absmax[ndim=%d]: the Linf norm" % nd
    try:
        ex = Exec(source()); st = State()
        st.mem["x"] = Reg("long", None, False, max(nd, 1))
        x = [I("x%d" % d) for d in range(nd)]
        for d in range(nd): st.mem["x"].cells[d] = x[d]
        r = ex.call_body(st, "absmax", [(const(nd), "int"), (Ptr("x", ZERO, "long"), ("ptr", "long"))])[0]
        H = list(st.pc)
        def rp(env): return _rp_cls(nd)
        ok = P.prove(name, H, and_(*[ge(r, absv(v)) for v in x], or_(*[eq(r, absv(v)) for v in x], *([eq(r, 0)] if not nd else []))), 10.0, replay=rp)
        P.functions.add("_invariant: absmax")
        return ok
    except Unsupported as e:
        P.put(name, "undecided", "-", 0.0, "not within reach: %s" % e); return False

def ipow(P, top):
    """ipow(n, p) = n^p for the exponents that occur"""
    ok = True
    for p in range(top + 1):
        try:
            ex = Exec(source()); st = State()
            r = ex.call_body(st, "ipow", [(I("n"), "long"), (const(p), "int")])[0]
            ok &= P.prove("ipow(n, %d) = n^%d" % (p, p), list(st.pc), eq(r, power(I("n"), p)), replay=lambda env: _rp_cls(3))
        except Unsupported as e:
            P.put("ipow(n, %d)" % p, "undecided", "-", 0.0, "not within reach: %s" % e); ok = False
    P.functions.add("_invariant: ipow")
    return ok

def _rp_cls(nd):
    return [dict(case="bijection", params=dict(nd=n, R=R, comp=c, extra=1, perm=1, ity="i8")) for n in sorted({min(nd, 5), min(nd + 1, 5)}) for c in (0, 1) for R in (1, 2) if not (n == 5 and R == 2)]

def setup(nd, x, ml):
    st = State()
    st.mem["x"] = Reg("long", None, False, max(nd, 1))
    for d in range(nd): st.mem["x"].cells[d] = x[d]
    return st

class SubCall:
    pass

def klass(P, nd, comp, cls, use, withml):
    """one class of modes: cls[d] in '+', '-', '0' (cut at +s, at -s, interior). Returns (offset, size) of its cap"""
    s = I("s"); ml = I("ml")
    v = [I("v%d" % d) for d in range(nd)]
    x = [s if c == "+" else (neg(s) if c == "-" else v[d]) for d, c in enumerate(cls)]
    free = [d for d in range(nd) if cls[d] == "0"]
    cmask = sum(1 << d for d in range(nd) if comp[d])
    st = setup(nd, x, ml)
    st.assume(ge(s, 1))
    for d in free:
        st.assume(lt(v[d], s)); st.assume(gt(v[d], neg(s)) if not comp[d] else ge(v[d], 0))
    if withml: st.assume(ge(ml, 1))
    calls = []
    def sub_(ex, st, a):
        n1, xp, cm, m1 = a[0][0], a[1][0], a[2][0], a[3][0]
        if not (isnum(n1) and isnum(cm) and isinstance(xp, Ptr)): raise Unsupported("arguments of the recursive call are not determined by the cap")
        xs = [ex.read(st, xp.reg, add(xp.off, k)) for k in range(int(num(n1)))]
        u = app("SUB%d_%d" % (int(num(n1)), int(num(cm))), xs, "I")
        calls.append((xs, int(num(cm)), u, m1, list(st.pc)))
        st.assume(ge(u, 0))
        if isnum(m1) and num(m1) < 0: return (u, "long")
        cut = var("cut", "B")
        st.assume(implies(cut, and_(ge(m1, 0), ge(u, m1)))); st.assume(implies(not_(cut), or_(lt(m1, 0), lt(u, m1))))
        return (ite(cut, const(-1), u), "long")
    def absm(ex, st, a):
        n, xp = a[0][0], a[1][0]
        if not (isinstance(xp, Ptr) and xp.reg == "x" and xp.off is ZERO and isnum(n) and int(num(n)) == nd): raise Unsupported("absmax arguments")
        return (s, "long")
    con = {"pmesh_get_invariant_index": sub_, "get_nbits": lambda ex, st, a: (const(bin(int(num(a[0][0])) & 0xffffffff).count("1")), "int") if isnum(a[0][0]) else bad("get_nbits of a symbol")}
    if use["absmax"]: con["absmax"] = absm
    ex = Exec(source(), con)
    r = ex.call_body(st, "pmesh_get_invariant_index", [(const(nd), "int"), (Ptr("x", ZERO, "long"), ("ptr", "long")), (const(cmask), "u32"), (ml if withml else const(-1), "long")])[0]
    return r, calls, free, v, s, ml, list(st.pc)

def bad(m): raise Unsupported(m)

def classes_of(nd, comp):
    return ["".join(c) for c in itertools.product("+-0", repeat=nd) if set(c) != {"0"} and not any(a == "-" and k for a, k in zip(c, comp))]

def index(P, nd, comp, withml, only=None):
    """index contract for one dimension and one compression mask"""
    nm = "pmesh_get_invariant_index[ndim=%d, %s%s]" % (nd, "last axis compressed" if any(comp) else "full", ", maximum length" if withml else "")
    t0 = time.time()
    use = dict(absmax=absmax(P, nd))
    s = I("s")
    caps = []
    P.functions.add("_invariant: pmesh_get_invariant_index")
    try:
        for cls in only or classes_of(nd, comp):
            r, calls, free, v, s, ml, pc = klass(P, nd, comp, cls, use, withml)
            name = "%s cap %s" % (nm, cls)
            if len(calls) != 1:
                # the subproblem may be the trivial one
                if calls: raise Unsupported("%d recursive calls" % len(calls))
            u = ZERO
            size = ONE
            if calls:
                xs, cm, u, m1, cpc = calls[0]
                order = []
                for t in xs:
                    k = [d for d in free if v[d] is t]
                    if len(k) != 1: raise Unsupported("subproblem coordinate %s" % show(t))
                    order.append(k[0])
                if sorted(order) != free:
                    P.put(name + ": the subproblem has every free coordinate", "refuted", "normal-form", 0.0, "coordinates %s of %s" % (order, free), _rp_cls(nd)); return
                want = sum(1 << k for k, d in enumerate(order) if comp[d])
                if cm != want:
                    P.put(name + ": compression mask of the subproblem", "refuted", "normal-form", 0.0, "mask %d, expected %d" % (cm, want), _rp_cls(nd)); return
                if withml: P.prove(name + ": the subproblem has a positive limit", cpc, or_(lt(m1, 0), ge(m1, 1))) if not isnum(m1) or num(m1) >= 0 else None
            elif free: raise Unsupported("no recursive call for a cap with free axes")
            for d in free: size = mul(size, s if comp[d] else sub(mul(2, s), 1))
            if not withml:
                off = sub(r, u)
                if any(t.op in ("ite", "app") for t in subterms(off)): raise Unsupported("index of the cap is not an offset plus the index within: %s" % show(r)[:200])
                caps.append((off, size, cls))
            else:
                cut = var("cut", "B")
                if cut not in free_vars(r): limit(P, name, r, u, ml, s, size, pc)
                else:
                    val = limit(P, name + " (subproblem not cut)", tm_ctx(r, cut, False), u, ml, s, size, [tm_ctx(c, cut, False) for c in pc])
                    if isinstance(val, T):
                        # cut: the value the index would have had reaches the limit
                        hyp = [c for c in cpc] + [ge(u, 0), ge(m1, 0), ge(u, m1)]
                        if not isnum(m1) or num(m1) >= 0: P.prove(name + " (subproblem cut): the index reaches the limit", hyp, ge(val, ml), 5.0, replay=lambda env: limit_replays())
                        r2, pc2 = tm_ctx(r, cut, True), [tm_ctx(c, cut, True) for c in pc]
                        if r2 is not const(-1) and not entails(pc2 + hyp, eq(r2, -1), 4.0): P.put(name + " (subproblem cut): gives -1", "undecided", "-", 0.0, show(r2)[:300])
        if withml: return
        # the caps tile the shell
        at = volume(comp, sub(s, 1))
        rest = list(caps)
        n = 0
        while rest:
            hit = [c for c in rest if c[0] is at]
            if not hit:
                sv = {s: Fr(3)}
                order = sorted(rest, key=lambda c: evalt(c[0], sv))
                P.put("%s: the %d caps tile the shell without gap or overlap" % (nm, len(caps)), "refuted", "normal-form", time.time() - t0,
                      "after %d caps no cap starts at %s; the next starts at %s" % (n, show(at), show(order[0][0])), _rp_cls(nd))
                return
            at = add(at, hit[0][1]); rest.remove(hit[0]); n += 1
        ok = at is volume(comp, s)
        P.put("%s: the %d caps tile the shell without gap or overlap" % (nm, len(caps)), "proved" if ok else "refuted", "normal-form", time.time() - t0, "end of the last cap %s, expected %s" % (show(at), show(volume(comp, s))), [] if ok else _rp_cls(nd))
    except Unsupported as e:
        P.put(nm, "undecided", "-", time.time() - t0, "not within reach: %s" % e)

def limit_replays():
    return [dict(case="large", params=dict(nd=n, R=3, x=[list(x) for x in itertools.islice(itertools.product(range(-3, 4), repeat=n), 0, 400, 7 if n > 2 else 1)], comp=c, ml=m)) for n in (1, 2, 3) for c in (0, 1) for m in (1, 2, 7, 20)]

def limit(P, name, r, u, ml, s, size, pc):
    """with a maximum length the index is returned unless it reaches the limit, else -1"""
    t0 = time.time()
    lows = {s: ONE, u: ZERO} if u is not ZERO else {s: ONE}
    leaves = []
    def walk(t, g):
        if t.op == "ite":
            walk(t.args[1], g + [t.args[0]]); walk(t.args[2], g + [not_(t.args[0])])
        else: leaves.append((t, g))
    walk(r, [])
    finals = [(t, g) for t, g in leaves if not (isnum(t) and num(t) == -1)]
    rp = limit_replays()
    if not finals: return P.put(name + ": limit", "refuted", "normal-form", 0.0, "always -1", rp)
    val = finals[0][0]
    if any(t is not val for t, g in finals): return P.put(name + ": limit", "undecided", "normal-form", 0.0, "several values")
    def reaches(c):
        """the condition c implies ml <= val, given u >= ml - (val - u) style limits"""
        # c is a comparison ml <= e (possibly a conjunction): e <= val suffices
        if c.op == "and": return any(reaches(a) for a in c.args)
        if c.op == "or": return all(reaches(a) for a in c.args)
        if c.op in ("le0", "lt0"):
            e = sub(ml, c.args[0])          # c: ml - e <= 0
            return ml not in free_vars(e) and nonneg(sub(val, e), lows)
        return False
    def below(c):
        """the condition c is ml > val"""
        if c.op == "and": return any(below(a) for a in c.args)
        if c.op in ("le0", "lt0"):
            d = sub(add(val, 1), ml)
            return c is le(d, 0) or c.args[0] is d and c.op == "le0" or entails([c], lt(val, ml), 1.0)
        return False
    for t, g in leaves:
        if isnum(t) and num(t) == -1:
            if not any(reaches(c) for c in g) and feasible(list(pc) + g, 2.0):
                if not entails(list(pc) + g, ge(val, ml), 3.0): return P.put(name + ": limit", "undecided", "normal-form", time.time() - t0, "-1 under %s" % [show(c)[:80] for c in g])
        elif not any(below(c) for c in g) and not entails(list(pc) + g, lt(val, ml), 3.0):
            return P.put(name + ": limit", "undecided", "normal-form", time.time() - t0, "value under %s" % [show(c)[:80] for c in g][-3:])
    P.put(name + ": the index below the limit, else -1", "proved", "normal-form", time.time() - t0)
    return val

def base(P):
    """dimension zero and the origin of every dimension have index 0; a negative coordinate on a compressed axis has none"""
    for nd in range(0, 6):
        for comp in ([0] * nd, [0] * (nd - 1) + [1]) if nd else ([],):
            cmask = sum(1 << d for d in range(nd) if comp[d])
            nm = "pmesh_get_invariant_index[ndim=%d, %s]" % (nd, "last axis compressed" if any(comp) else "full")
            try:
                ex = Exec(source()); st = setup(nd, [ZERO] * nd, None)
                for ml in (-1, 1):
                    r = ex.call_body(st, "pmesh_get_invariant_index", [(const(nd), "int"), (Ptr("x", ZERO, "long"), ("ptr", "long")), (const(cmask), "u32"), (const(ml), "long")])[0]
                    P.prove("%s: the origin is the first mode" % nm, list(st.pc), eq(r, 0), replay=lambda env: _rp_cls(max(nd, 1)))
                if any(comp):
                    x = [I("v%d" % d) for d in range(nd)]
                    st = setup(nd, x, None); st.assume(lt(x[-1], 0))
                    # absmax by its contract: the Linf norm, here at least one
                    sh = I("shell")
                    for v in x: st.assume(ge(sh, absv(v)))
                    con = {"absmax": lambda ex, st, a: (sh, "long")}
                    ex = Exec(source(), con)
                    # only the part before the caps matters: the caps are unreachable
                    r = ex.call_body(st, "pmesh_get_invariant_index", [(const(nd), "int"), (Ptr("x", ZERO, "long"), ("ptr", "long")), (const(cmask), "u32"), (const(-1), "long")])[0]
                    P.prove("%s: the dropped half has no index" % nm, list(st.pc), eq(r, -1), replay=lambda env: [dict(case="large", params=dict(nd=nd, R=3, x=[[0] * (nd - 1) + [-1], [1] * (nd - 1) + [-1], [2] * (nd - 1) + [-3]], comp=1, ml=100))])
            except Unsupported as e:
                P.put(nm + " base", "undecided", "-", 0.0, "not within reach: %s" % e)

def run_task(t):
    P = Obs()
    t0 = time.time()
    try: globals()[t[0]](P, *t[1:])
    except Exception:
        import traceback
        P.put(repr(t), "undecided", "-", 0.0, "prover error " + traceback.format_exc()[-700:])
    return P.obs, P.assumptions, P.functions, set(), (t, time.time() - t0)

def prove(prop, tier):
    from .p_window import pool_run, Res
    source()
    tasks = [("bits",), ("ipow", 6), ("base",)]
    top = 4 if tier == "quick" else 5
    for nd in range(top, 0, -1):
        for comp in ([0] * nd, [0] * (nd - 1) + [1]):
            tasks.append(("index", nd, comp, False))
            if nd <= (3 if tier == "quick" else 4):
                c = classes_of(nd, comp)
                for k in range(0, len(c), 2): tasks.insert(0, ("index", nd, comp, True, c[k:k + 2]))
    rs = pool_run(run_task, tasks)
    R_ = Res(); R_.obs = []; R_.assumptions = list(ASSUME); R_.functions = []; seen = set()
    for obs, asm, fns, _, tt in rs:
        for o in obs:
            k = (o["name"], o["status"])
            if k in seen: continue
            seen.add(k); R_.obs.append(o)
        R_.functions += list(fns)
    R_.functions.append("_invariant: get_nbits")
    R_.assumptions.append("induction on the dimension: the index of the subproblem (fewer axes, |x| <= s-1) is a bijection onto [0, number of such modes); the caps of a shell are disjoint and cover it")
    R_.notes = ["slowest proof tasks: %s" % [(repr(x[4][0]), round(x[4][1], 1)) for x in sorted(rs, key=lambda x: -x[4][1])[:4]]]
    return R_

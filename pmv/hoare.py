"""Hoare-style verification conditions for a Python function (here: the C-like loops of _domain.pyx read as Python), over z3
integers and arrays. Loops whose bounds are symbolic need an invariant; everything they assign is forgotten except for it."""
import ast, time
import z3
from .term import Unsupported

class U:
    def __repr__(self): return "<undefined>"
UNDEF = U()

class Fun:
    """read-only array given by a function of its indices; the leading nconc indices are concrete"""
    def __init__(self, f, shape): self.f, self.shape = f, shape
class Arr:
    """mutable one-dimensional array"""
    def __init__(self, a, n): self.a, self.n = a, n
    @property
    def shape(self): return [self.n]
class CL:
    """C array used with concrete indices"""
    def __init__(self, v): self.v = list(v)

class St:
    def __init__(self, env, pc): self.env, self.pc = env, pc
    def copy(self): return St(dict(self.env), list(self.pc))     # 'select' (hints for the solver) is not copied
    def __getitem__(self, k): return self.env[k]
    def get(self, k): return self.env.get(k, UNDEF)

class Spec:
    """inv(st, v, ctx) -> [(name, formula)]; v is the loop counter (None for while loops)
       ghost: names of ghost variables; ghost_init(st) sets them; step(before, after, v) -> St with updated ghosts (may add to pc)
       name: used in obligations"""
    def __init__(self, name, inv, ghost=(), ghost_init=None, step=None, after=None):
        self.name, self.inv, self.ghost, self.ghost_init, self.step, self.after = name, inv, tuple(ghost), ghost_init, step, after

class H:
    def __init__(self, axioms, specs, timeout=10000, prefix="", facts=None):
        self.axioms = axioms; self.specs = specs; self.obs = []; self.n = 0; self.timeout = timeout; self.prefix = prefix
        self.used = []; self.facts = facts
    def fresh(self, nm, sort="I"):
        self.n += 1
        nm = "%s!%d" % (nm, self.n)
        if sort == "A": return z3.Array(nm, z3.IntSort(), z3.IntSort())
        return z3.Int(nm)
    def oblige(self, name, pc, goal, few=None):
        """few: hypotheses out of pc (and of the axioms) to be tried first; leaving hypotheses out is sound"""
        b = lambda x: z3.BoolVal(x) if isinstance(x, bool) else x
        self.obs.append((self.prefix + name, [b(x) for x in pc], b(goal), None if few is None else [b(x) for x in few]))
    def kept(self, spec, e, v, mark):
        sel = getattr(e, "select", None) or {}
        for n, g in spec.inv(e, v):
            few = sel.get(n)
            if few is None: few = [x for x in e.pc[:mark] if isinstance(x, bool) or not z3.is_quantifier(x)] + e.pc[mark:]
            self.oblige("%s: %s is kept" % (spec.name, n), e.pc, g, few)
    # ---- expressions
    def ev(self, e, st):
        if isinstance(e, ast.Constant): return e.value
        if isinstance(e, ast.Name):
            v = st.get(e.id)
            if v is UNDEF and e.id not in st.env: raise Unsupported("name %s" % e.id)
            return v
        if isinstance(e, ast.BinOp):
            a, b = self.num(e.left, st), self.num(e.right, st)
            if isinstance(e.op, ast.Add): return a + b
            if isinstance(e.op, ast.Sub): return a - b
            if isinstance(e.op, ast.Mult): return a * b
            if isinstance(e.op, ast.FloorDiv) and isinstance(a, int) and isinstance(b, int): return a // b
            raise Unsupported("operator %s" % ast.dump(e.op))
        if isinstance(e, ast.UnaryOp):
            if isinstance(e.op, ast.USub): return -self.num(e.operand, st)
            if isinstance(e.op, ast.Not): return self.neg(self.test(e.operand, st))
        if isinstance(e, ast.Compare):
            ops = {ast.Lt: lambda a, b: a < b, ast.LtE: lambda a, b: a <= b, ast.Gt: lambda a, b: a > b, ast.GtE: lambda a, b: a >= b, ast.Eq: lambda a, b: a == b, ast.NotEq: lambda a, b: a != b}
            l = self.ev(e.left, st); out = []
            for o, r in zip(e.ops, e.comparators):
                r = self.ev(r, st)
                if isinstance(o, (ast.Is, ast.IsNot)): out.append((l is r) == isinstance(o, ast.Is))
                else:
                    if type(o) not in ops: raise Unsupported("comparison")
                    self.isnum(l); self.isnum(r)
                    out.append(ops[type(o)](l, r))
                l = r
            return out[0] if len(out) == 1 else z3.And([z3.BoolVal(x) if isinstance(x, bool) else x for x in out])
        if isinstance(e, ast.BoolOp):
            vs = [self.test(x, st) for x in e.values]
            vs = [z3.BoolVal(v) if isinstance(v, bool) else v for v in vs]
            return (z3.And if isinstance(e.op, ast.And) else z3.Or)(vs)
        if isinstance(e, ast.Subscript): return self.load(e, st)
        if isinstance(e, ast.Attribute):
            if e.attr == "shape":
                v = self.ev(e.value, st)
                return v.shape
            raise Unsupported("attribute " + e.attr)
        if isinstance(e, ast.Call): return self.call(e, st)
        if isinstance(e, ast.Tuple): return tuple(self.ev(x, st) for x in e.elts)
        if isinstance(e, ast.IfExp):
            c = self.test(e.test, st)
            if isinstance(c, bool): return self.ev(e.body if c else e.orelse, st)
            return z3.If(c, self.num(e.body, st), self.num(e.orelse, st))
        raise Unsupported("expression " + type(e).__name__)
    def isnum(self, v):
        if isinstance(v, bool) or not (isinstance(v, int) or (z3.is_expr(v) and z3.is_int(v))):
            raise Unsupported("not an integer: %r" % (v,))
    def num(self, e, st):
        v = self.ev(e, st)
        self.isnum(v); return v
    def neg(self, c): return (not c) if isinstance(c, bool) else z3.Not(c)
    def test(self, e, st):
        v = self.ev(e, st)
        if isinstance(v, bool): return v
        if isinstance(v, int): return v != 0
        if z3.is_expr(v):
            if z3.is_bool(v):
                w = z3.simplify(v)
                if z3.is_true(w): return True
                if z3.is_false(w): return False
                return v
            return v != 0
        if v is None: return False
        raise Unsupported("condition")
    def conc(self, v):
        if isinstance(v, int): return v
        if z3.is_expr(v):
            w = z3.simplify(v)
            if z3.is_int_value(w): return w.as_long()
        return None
    def bound(self, st, i, n, what):
        ci, cn = self.conc(i), self.conc(n)
        if ci is not None and cn is not None:
            if 0 <= ci < cn: return
        self.oblige("index within bounds: " + what, st.pc, z3.And(0 <= i, i < n))
        st.pc.append(z3.And(0 <= i, i < n))
    def load(self, e, st):
        a = self.ev(e.value, st)
        if isinstance(a, (list, tuple)):
            k = self.ev(e.slice, st)
            if not isinstance(k, int): raise Unsupported("index of a tuple")
            return a[k]
        k = self.ev(e.slice, st)
        k = k if isinstance(k, tuple) else (k,)
        what = ast.unparse(e)
        if isinstance(a, CL):
            i = self.conc(k[0])
            if i is None: raise Unsupported("symbolic index into %s" % what)
            if not 0 <= i < 32: raise Unsupported("index %d of a C array" % i)
            v = a.v[i]
            if v is UNDEF: raise Unsupported("read of an undefined element of %s" % what)
            return v
        if isinstance(a, Fun):
            for i, n in zip(k, a.shape): self.bound(st, i, n, what)
            return a.f(*k)
        if isinstance(a, Arr):
            self.bound(st, k[0], a.n, what)
            return z3.Select(a.a, k[0])
        raise Unsupported("index of %r" % (a,))
    def call(self, e, st):
        f = ast.unparse(e.func)
        if f == "numpy.empty" or f == "numpy.zeros":
            n = self.ev(e.args[0], st)
            if isinstance(n, tuple): raise Unsupported("numpy.empty of several axes")
            self.oblige("size of a new array is not negative", st.pc, n >= 0 if z3.is_expr(n) else z3.BoolVal(n >= 0))
            return Arr(self.fresh("arr", "A") if f == "numpy.empty" else z3.K(z3.IntSort(), z3.IntVal(0)), n)
        if f == "__carray__": return CL([UNDEF] * 32)
        if f in ("min", "max") and len(e.args) == 2:
            a, b = self.num(e.args[0], st), self.num(e.args[1], st)
            if isinstance(a, int) and isinstance(b, int): return (min if f == "min" else max)(a, b)
            return z3.If(a <= b if f == "min" else a >= b, a, b)
        if f == "len": return self.ev(e.args[0], st).shape[0]
        raise Unsupported("call of " + f)
    # ---- statements
    def assign(self, t, v, st):
        if isinstance(t, ast.Name):
            st.env[t.id] = v
        elif isinstance(t, ast.Subscript):
            a = self.ev(t.value, st); k = self.ev(t.slice, st)
            if isinstance(a, CL):
                i = self.conc(k)
                if i is None or not 0 <= i < 32: raise Unsupported("symbolic index into a C array")
                nv = list(a.v); nv[i] = v; st.env[t.value.id] = CL(nv)
            elif isinstance(a, Arr):
                self.isnum(v)
                self.bound(st, k, a.n, ast.unparse(t))
                new = Arr(z3.Store(a.a, k, v), a.n)
                # other names of the same array
                for n, x in list(st.env.items()):
                    if x is a: st.env[n] = new
            else: raise Unsupported("assignment to %s" % ast.unparse(t))
        elif isinstance(t, ast.Tuple):
            for x, y in zip(t.elts, v): self.assign(x, y, st)
        else: raise Unsupported("assignment")
    def block(self, body, st):
        states = [(st, None)]
        for s in body:
            out = []
            for st, sig in states:
                if sig is not None: out.append((st, sig))
                else: out += self.stmt(s, st)
            states = out
            if len(states) > 400: raise Unsupported("too many paths")
        return states
    def stmt(self, s, st):
        if isinstance(s, (ast.Expr, ast.Pass)):
            if isinstance(s, ast.Expr) and not isinstance(s.value, ast.Constant): raise Unsupported("expression statement " + ast.unparse(s))
            return [(st, None)]
        if isinstance(s, ast.Assign):
            v = self.ev(s.value, st)
            for t in s.targets: self.assign(t, v, st)
            return [(st, None)]
        if isinstance(s, ast.AugAssign):
            v = self.ev(ast.BinOp(self.asload(s.target), s.op, s.value), st)
            self.assign(s.target, v, st)
            return [(st, None)]
        if isinstance(s, ast.If):
            c = self.test(s.test, st)
            if isinstance(c, bool): return self.block(s.body if c else s.orelse, st)
            a, b = st.copy(), st
            a.pc.append(c); b.pc.append(z3.Not(c))
            out = []
            if self.feasible(a): out += self.block(s.body, a)
            if self.feasible(b): out += self.block(s.orelse, b)
            return out
        if isinstance(s, ast.Break): return [(st, "break")]
        if isinstance(s, ast.Continue): return [(st, "continue")]
        if isinstance(s, ast.Return): return [(st, ("return", None if s.value is None else self.ev(s.value, st)))]
        if isinstance(s, ast.Raise):
            self.oblige("never raises: " + ast.unparse(s)[:60], st.pc, z3.BoolVal(False))
            return []
        if isinstance(s, ast.For): return self.for_(s, st)
        if isinstance(s, ast.While): return self.while_(s, st)
        raise Unsupported("statement " + type(s).__name__)
    def feasible(self, st):
        so = z3.Solver(); so.set("timeout", 200)
        so.add([p for p in st.pc if not z3.is_quantifier(p)])
        return so.check() != z3.unsat
    def asload(self, t):
        import copy
        t = copy.deepcopy(t)
        for x in ast.walk(t):
            if hasattr(x, "ctx"): x.ctx = ast.Load()
        return t
    def modified(self, body):
        names = set()
        for s in body:
            for x in ast.walk(s):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store): names.add(x.id)
                if isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name): names.add(x.value.id)
        return names
    def havoc(self, st, names, spec):
        st = st.copy()
        done = {}
        for n in sorted(names):
            v = st.get(n)
            if isinstance(v, Arr):
                if id(v) not in done: done[id(v)] = Arr(self.fresh(n, "A"), self.fresh(n + "_len"))
                nv = done[id(v)]
                st.pc.append(nv.n >= 0)
                for m, x in list(st.env.items()):
                    if x is v: st.env[m] = nv
            elif isinstance(v, CL): st.env[n] = CL([UNDEF if x is UNDEF else self.fresh("%s%d" % (n, k)) for k, x in enumerate(v.v)])
            elif v is UNDEF or v is None: st.env[n] = v if v is None else UNDEF
            elif isinstance(v, (int, z3.ArithRef)) and not isinstance(v, bool): st.env[n] = self.fresh(n)
            else: raise Unsupported("cannot forget %s" % n)
        for g in spec.ghost:
            v = st.env[g]
            st.env[g] = self.fresh(g, "A") if z3.is_array(v) else self.fresh(g)
        return st
    def for_(self, s, st):
        if s.orelse: raise Unsupported("for/else")
        if not (isinstance(s.iter, ast.Call) and ast.unparse(s.iter.func) == "range"): raise Unsupported("loop over " + ast.unparse(s.iter))
        a = [self.num(x, st) for x in s.iter.args]
        lo, hi, step = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else a
        cl, ch, cs = self.conc(lo), self.conc(hi), self.conc(step)
        if cl is not None and ch is not None and cs is not None:
            states = [(st, None)]; done = []
            for k in range(cl, ch, cs):
                nxt = []
                for q, _ in states:
                    self.assign(s.target, k, q)
                    for r, sig in self.block(s.body, q):
                        if sig in (None, "continue"): nxt.append((r, None))
                        elif sig == "break": done.append((r, None))
                        else: done.append((r, sig))
                states = nxt
            return states + done
        if cs != 1: raise Unsupported("step of a symbolic loop")
        spec = self.specs(s, st, self)
        if spec is None: raise Unsupported("no invariant for the loop at line %d" % s.lineno)
        self.used.append(spec.name)
        st = st.copy()
        if spec.ghost_init: spec.ghost_init(st)
        for n, g in spec.inv(st, lo): self.oblige("%s: %s holds at the start" % (spec.name, n), st.pc, g)
        mark = len(st.pc)
        names = self.modified(s.body) | {x.id for x in ast.walk(s.target) if isinstance(x, ast.Name)}
        h = self.havoc(st, names, spec)
        v = self.fresh(s.target.id)
        b = h.copy()
        b.pc += [lo <= v, v < hi]
        b.env[s.target.id] = v
        for n, g in spec.inv(b, v): b.pc.append(g)
        before = b.copy()
        exits = []
        for e, sig in self.block(s.body, b):
            if sig in (None, "continue"):
                if spec.step: e = spec.step(before, e, v, self)
                self.kept(spec, e, v + 1, mark)
            elif sig == "break": raise Unsupported("break out of a counted loop with an invariant")
            else: exits.append((e, sig))
        x = h.copy()
        x.env[s.target.id] = UNDEF
        end = self.fresh("end")
        x.pc.append(end == (z3.If(hi > lo, hi, lo)))
        for n, g in spec.inv(x, end): x.pc.append(g)
        if spec.after: spec.after(x, end)
        return [(x, None)] + exits
    def while_(self, s, st):
        if s.orelse: raise Unsupported("while/else")
        spec = self.specs(s, st, self)
        if spec is None: raise Unsupported("no invariant for the loop at line %d" % s.lineno)
        self.used.append(spec.name)
        st = st.copy()
        if spec.ghost_init: spec.ghost_init(st)
        for n, g in spec.inv(st, None): self.oblige("%s: %s holds at the start" % (spec.name, n), st.pc, g)
        mark = len(st.pc)
        h = self.havoc(st, self.modified(s.body), spec)
        for n, g in spec.inv(h, None): h.pc.append(g)
        b = h.copy()
        c = self.test(s.test, b)
        c = z3.BoolVal(c) if isinstance(c, bool) else c
        x = h.copy()
        x.pc = list(b.pc)          # facts met while testing
        b.pc.append(c); x.pc.append(z3.Not(c))
        before = b.copy()
        exits = [(x, None)]
        for e, sig in self.block(s.body, b):
            if sig in (None, "continue"):
                if spec.step: e = spec.step(before, e, None, self)
                self.kept(spec, e, None, mark)
            elif sig == "break": exits.append((e, None))
            else: exits.append((e, sig))
        if spec.after:
            for e, sig in exits:
                if sig is None: spec.after(e, mark)
        return exits

_fs = {}
def funs(e):
    """uninterpreted functions applied in an expression"""
    k = e.get_id()
    r = _fs.get(k)
    if r is not None and r[0].eq(e): return r[1]
    out = set(); todo = [e]; seen = set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): todo.append(x.body()); continue
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args(): out.add(x.decl().name())
            todo += x.children()
    _fs[k] = (e, out)
    return out

def solve(name, hyps, goal, timeout, few=None):
    """fewer hypotheses first (dropping hypotheses is sound); a model counts for the full set only"""
    t0 = time.time()
    gf = funs(goal)
    rounds = []
    if few is not None:
        f2 = [h for h in few if not z3.is_quantifier(h) or funs(h) <= gf]
        rounds += [(f2, 2000), (few, min(6000, timeout))]
    f1 = [h for h in hyps if not z3.is_quantifier(h) or funs(h) <= gf]
    if len(f1) < len(hyps): rounds.append((f1, min(4000, timeout)))
    rounds.append((hyps, timeout))
    for hs, to in rounds:
        s = z3.Solver(); s.set("timeout", to)
        s.add(hs); s.add(z3.Not(goal))
        r = s.check()
        if r == z3.unsat: return "proved", "z3", time.time() - t0, ""
        if r == z3.sat and hs is hyps: return "sat", "z3", time.time() - t0, str(s.model())[:600]
    return "unknown", "z3", time.time() - t0, s.reason_unknown()

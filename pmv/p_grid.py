"""Contract of _domain.gridnd_fill, from its source: for every number of particles and any box of domain indices per particle,
counts[r] is the number of particles that touch a (non degenerate) domain of rank r, and the returned array lists them, rank by
rank, in order, each once. Loops by invariants; 1 to 3 axes; sizes and contents arbitrary."""
import ast, os, time
import z3
from . import build
from . import psym
from .hoare import *
from .solve import Obs, search
from .term import Unsupported

REPO = build.REPO
I = z3.Int
def A(vs, body, pats=None):
    return z3.ForAll(vs, body, patterns=pats) if pats else z3.ForAll(vs, body)

def prod(xs):
    r = xs[0]
    for x in xs[1:]: r = r * x
    return r

class Grid:
    def __init__(self, n, periodic, mode):
        self.n, self.periodic, self.mode = n, periodic, mode
        Z = z3.IntSort()
        self.N, self.R = I("Npoint"), I("Nrank")
        self.d = [I("dim%d" % j) for j in range(n)]
        self.S_ = []                                  # strides
        for j in range(n):
            s = z3.IntVal(1)
            for x in self.d[j + 1:]: s = s * x
            self.S_.append(s)
        self.s = [z3.Function("s%d" % j, Z, Z) for j in range(n)]
        self.w = [z3.Function("w%d" % j, Z, Z) for j in range(n)]
        self.wrapf = [z3.Function("wrap%d" % j, Z, Z) for j in range(n)]
        self.D = z3.Function("D", *([Z] * (n + 1)))
        self.deg = z3.Function("deg", Z, Z)
        self.DA = z3.Function("DA", Z, Z)
        self.size = I("size")
        self.Sp = z3.Function("S", Z, Z, z3.BoolSort())
        self.Wit = [z3.Function("Wit%d" % j, Z, Z, Z) for j in range(n)]
        self.C = z3.Function("C", Z, Z, Z)
        self.O = z3.Function("O", Z, Z)
        i, r, q, i2, r2 = z3.Ints("i_ r_ q_ i2_ r2_")
        t = [I("t%d_" % j) for j in range(n)]
        self.tv = t
        ax = [self.N >= 0, self.R >= 1] + [x >= 1 for x in self.d]
        for j in range(n):
            c = [self.w[j](i) >= 0]
            if not periodic: c += [self.s[j](i) >= 0, self.s[j](i) + self.w[j](i) <= self.d[j]]
            ax.append(A([i], z3.Implies(z3.And(0 <= i, i < self.N), z3.And(c)), [self.s[j](i)]))
            ax.append(A([i], z3.Implies(z3.And(0 <= i, i < self.N), z3.And(c)), [self.w[j](i)]))
            if periodic: ax.append(A([q], z3.And(self.wrapf[j](q) >= 0, self.wrapf[j](q) < self.d[j]), [self.wrapf[j](q)]))
        ax.append(A(t, self.index_facts(t), [self.D(*t)]))
        ax.append(A([q], z3.Implies(z3.And(0 <= q, q < self.size), z3.And(self.DA(q) >= 0, self.DA(q) < self.R)), [self.DA(q)]))
        # number of particles of rank r before particle i
        ax.append(A([r], self.C(0, r) == 0, [self.C(0, r)]))
        if mode == 1:
            ax.append(self.O(0) == 0)
            ax.append(A([i, i2, r], z3.Implies(z3.And(0 <= i, i <= i2, i2 <= self.N), z3.And(0 <= self.C(i, r), self.C(i, r) <= self.C(i2, r), z3.Implies(z3.And(self.Sp(i, r), i < i2), self.C(i, r) < self.C(i2, r)))), [z3.MultiPattern(self.C(i, r), self.C(i2, r))]))
            ax.append(A([r, r2], z3.Implies(z3.And(0 <= r, r < r2, r2 <= self.R), z3.And(self.O(r) >= 0, self.O(r) + self.C(self.N, r) <= self.O(r2))), [z3.MultiPattern(self.O(r), self.O(r2))]))
            ax.append(A([r], z3.Implies(z3.And(0 <= r, r <= self.R), z3.And(self.O(r) >= 0)), [self.O(r)]))
        self.ax = ax
    def index_facts(self, t):
        """index of a domain: linear index of the wrapped position; within the table (lemma 'linear index')"""
        wr = [self.wrap(j, t[j]) for j in range(self.n)]
        lin = sum([wr[j] * self.S_[j] for j in range(self.n)], z3.IntVal(0))
        inr = z3.And([z3.And(x >= 0, x < d) for x, d in zip(wr, self.d)])
        return z3.And(self.D(*t) == lin, z3.Implies(inr, z3.And(self.D(*t) >= 0, self.D(*t) < self.size)))
    def wrap(self, j, x): return self.wrapf[j](x) if self.periodic else x
    def box(self, i, t): return z3.And([z3.And(self.s[j](i) <= t[j], t[j] < self.s[j](i) + self.w[j](i)) for j in range(self.n)])
    def live(self, t): return self.deg(self.D(*t)) == 0
    def lex(self, t, p):
        r = z3.BoolVal(False)
        for a, b in reversed(list(zip(t, p))): r = z3.Or(a < b, z3.And(a == b, r))
        return r
    def wrap_facts(self, j, x):
        if not self.periodic: return []
        f, d = self.wrapf[j], self.d[j]
        return [f(x - d) == f(x), f(x + d) == f(x), z3.Implies(z3.And(0 <= x, x < d), f(x) == x)]
    def box_facts(self, i, p, hi):
        """lemmas 'mixed radix' and 'product' at this particle"""
        w = [self.w[j](i) for j in range(self.n)]; x = [p[j] - self.s[j](i) for j in range(self.n)]
        v = x[0]
        for j in range(1, self.n): v = v * w[j] + x[j]
        ok = z3.And([x[0] >= 0, x[0] <= w[0]] + [z3.And(x[j] >= 0, x[j] < w[j]) for j in range(1, self.n)])
        pw = prod(w)
        return [z3.Implies(ok, (v < pw) == (x[0] < w[0])), z3.Implies(pw > 0, z3.And([a > 0 for a in w])), z3.Implies(pw <= 0, z3.Or([a == 0 for a in w])), pw >= 0]

def lemmas(obs, timeout):
    """facts of arithmetic and counting that are used above, each proved on its own"""
    def put(name, hyps, goal):
        st, be, dt, d = solve(name, hyps, goal, timeout)
        obs.put("lemma: " + name, "proved" if st == "proved" else "undecided", be, dt, d)
    w = z3.Ints("w0 w1 w2"); x = z3.Ints("x0 x1 x2"); d = z3.Ints("d0 d1 d2"); a = z3.Ints("a0 a1 a2")
    Q, T, U = z3.Ints("Q T U")
    for n in (1, 2, 3):
        W, X = w[:n], x[:n]
        nn = [y >= 0 for y in W]
        if n == 1: put("product of the widths, 1 axis", nn, z3.And((W[0] > 0) == (W[0] > 0), z3.Implies(W[0] <= 0, W[0] == 0)))
        else:
            # by induction on the axes: P the product of the first axes
            put("product of the widths, axis %d" % n, [Q >= 0, W[n - 1] >= 0], z3.And(z3.Implies(Q * W[n - 1] > 0, z3.And(Q > 0, W[n - 1] > 0)), z3.Implies(Q * W[n - 1] <= 0, z3.Or(Q == 0, W[n - 1] == 0)), Q * W[n - 1] >= 0))
            # T the index of the leading axes: T < Q <=> x0 < w0
            put("mixed radix, axis %d" % n, [W[n - 1] > 0, X[n - 1] >= 0, X[n - 1] < W[n - 1]], (T * W[n - 1] + X[n - 1] < Q * W[n - 1]) == (T < Q))
            put("linear index below the size, axis %d" % n, [a[n - 1] >= 0, a[n - 1] < d[n - 1], T >= 0, T < Q], z3.And(T * d[n - 1] + a[n - 1] >= 0, T * d[n - 1] + a[n - 1] < Q * d[n - 1]))
    Z = z3.IntSort()
    C = z3.Function("C", Z, Z); S = z3.Function("S", Z, z3.BoolSort()); i, j = z3.Ints("i j")
    step = C(j + 1) == C(j) + z3.If(S(j), 1, 0)
    put("counting is monotone (induction step)", [0 <= i, i <= j, 0 <= C(i), C(i) <= C(j), z3.Implies(z3.And(S(i), i < j), C(i) < C(j)), step, z3.Implies(i == j, C(i) == C(j))],
        z3.And(C(i) <= C(j + 1), z3.Implies(z3.And(S(i), i < j + 1), C(i) < C(j + 1))))
    q = z3.Int("q"); F = z3.Function("F", Z, Z)
    put("every position of a segment is taken by some particle (induction step)", [0 <= j, z3.Implies(z3.And(0 <= q, q < C(j)), z3.And(0 <= F(q), F(q) < j, S(F(q)), C(F(q)) == q)), step, 0 <= q, q < C(j + 1)],
        z3.Or(z3.And(0 <= F(q), F(q) < j + 1, S(F(q)), C(F(q)) == q), z3.And(S(j), C(j) == q)))
    O = z3.Function("O", Z, Z); c = z3.Function("c", Z, Z); r = z3.Int("r"); r2 = z3.Int("r2")
    put("segments do not overlap (induction step)", [0 <= r, r <= r2, z3.Implies(r < r2, O(r) + c(r) <= O(r2)), O(r2 + 1) == O(r2) + c(r2), c(r2) >= 0, c(r) >= 0, O(r) >= 0],
        z3.And(O(r) + c(r) <= O(r2 + 1), O(r2 + 1) >= 0) if True else None)

def specs_for(G, fd, names):
    parents = {}
    for x in ast.walk(fd):
        for y in ast.iter_child_nodes(x): parents[y] = x
    n = G.n
    r_, m_, i_ = z3.Ints("r__ m__ i__")
    def has_loop(s): return any(isinstance(x, (ast.For, ast.While)) for b in s.body for x in ast.walk(b))
    def symdepth(s, h):
        d = 0
        x = parents.get(s)
        while x is not None and x is not fd:
            if isinstance(x, ast.For) and id(x) in h.symloops: d += 1
            x = parents.get(x)
        return d
    def specs(s, st, h):
        if not hasattr(h, "symloops"): h.symloops = set()
        mod = h.modified(s.body)
        arrs = [x for x in mod if isinstance(st.get(x), Arr)]
        if isinstance(s, ast.While):
            if arrs: return insertion(s, st, h, arrs)
            return wrapping(s, st, h, mod)
        h.symloops.add(id(s))
        depth = symdepth(s, h)
        if depth == 0 and not has_loop(s): return offsets(s, st, h, arrs)
        if depth == 0: return points(s, st, h)
        if has_loop(s): return patch(s, st, h)
        return push(s, st, h)
    # ---- while t >= dims[j] / while t < 0
    def wrapping(s, st, h, mod):
        if len(mod) != 1: raise Unsupported("loop at line %d" % s.lineno)
        tn = list(mod)[0]
        j = h.conc(st.get("j")) if st.get("j") is not UNDEF else None
        if j is None or not 0 <= j < n: raise Unsupported("axis of the wrapping loop")
        t0 = st[tn]; f, d = G.wrapf[j], G.d[j]
        def inv(q, v):
            t = q[tn]
            q.pc += G.wrap_facts(j, t)
            return [("same position modulo the period, axis %d" % j, f(t) == f(t0)), ("stays below the period once there", z3.Implies(t0 < d, t < d)), ("stays non-negative once there", z3.Implies(t0 >= 0, t >= 0))]
        return Spec("wrap axis %d" % j, inv)
    # ---- insertion of one target into the sorted list
    def insertion(s, st, h, arrs):
        if len(arrs) != 1: raise Unsupported("insertion loop")
        ln = arrs[0]; names["list"] = ln
        cmp = s.test
        kn = [x.id for x in ast.walk(cmp) if isinstance(x, ast.Name) and x.id in h.modified(s.body)]
        if len(kn) != 1: raise Unsupported("insertion loop")
        kn = kn[0]; names["hole"] = kn
        a0 = st[ln]; k = st[names["k"]]; A0_ = a0.a; v = z3.simplify(z3.Select(A0_, k))
        def inv(q, _):
            tl, kk = q[ln], q[kn]
            tl_ = tl.a; A0 = nonlocal_[0]
            return [("hole within the list", z3.And(kk >= -1, kk < k)), ("length kept", tl.n == a0.n),
                    ("left of the hole unchanged", A([m_], z3.Implies(z3.And(0 <= m_, m_ <= kk), z3.Select(tl_, m_) == z3.Select(A0, m_)), [z3.Select(tl_, m_)])),
                    ("value at the hole", z3.Select(tl_, kk + 1) == v),
                    ("right of the hole shifted and larger", A([m_], z3.Implies(z3.And(kk + 1 < m_, m_ <= k), z3.And(z3.Select(tl_, m_) == z3.Select(A0, m_ - 1), z3.Select(A0, m_ - 1) > v)), [z3.Select(tl_, m_)]))]
        def gi(q):
            # a name for the list with the new entry at its end
            nm = h.fresh("A0", "A"); q.pc.append(nm == A0_)
            new = Arr(nm, a0.n); old = q[ln]
            for x, y in list(q.env.items()):
                if y is old: q.env[x] = new
            nonlocal_[0] = nm
        nonlocal_ = [A0_]
        def after(q, mark):
            # the exit as a description of the whole list, shown from the facts of this loop alone
            new = q[ln].a; A0 = nonlocal_[0]; hole = q[kn] + 1
            facts = [x for x in q.pc[mark:]] + [k >= 0] + [x for x in q.pc[:mark] if isinstance(x, bool) or not z3.is_quantifier(x)]
            small = [x for x in q.pc[mark:]] + [k >= 0]
            desc = A([m_], z3.Implies(z3.And(0 <= m_, m_ <= k), z3.Select(new, m_) == z3.If(m_ < hole, z3.Select(A0, m_), z3.If(m_ == hole, v, z3.Select(A0, m_ - 1)))), [z3.Select(new, m_)])
            pos = z3.And(0 <= hole, hole <= k, z3.Implies(hole > 0, z3.Select(A0, hole - 1) <= v), z3.Implies(hole < k, z3.Select(A0, hole) > v))
            h.oblige("insertion: the new entry lies where the order wants it", q.pc, pos, small)
            h.oblige("insertion: list after the insertion", q.pc, desc, small)
            q.pc = q.pc[:mark] + [x for x in q.pc[mark:] if not z3.is_quantifier(x)] + [pos, desc]
            names["value"], names["A0def"] = v, A0 == A0_
        return Spec("insertion", inv, (), gi, None, after)
    # ---- offsets of the rank segments
    def offsets(s, st, h, arrs):
        if len(arrs) != 1: raise Unsupported("loop at line %d" % s.lineno)
        on = arrs[0]; names["offset"] = on
        cnt = st[names["counts"]]
        n0 = st[on].n
        def inv(q, v):
            o = q[on]
            q.pc.append(A([r_], z3.Implies(z3.And(0 <= r_, r_ < G.R), G.O(r_ + 1) == G.O(r_) + z3.Select(cnt.a, r_)), [z3.Select(cnt.a, r_)]))
            return [("length kept", o.n == n0), ("offset of each rank so far", A([r_], z3.Implies(z3.And(0 <= r_, r_ < v), z3.Select(o.a, r_) == G.O(r_)), [z3.Select(o.a, r_)]))]
        return Spec("offsets", inv)
    # ---- all particles
    def points(s, st, h):
        names["i"] = s.target.id
        cn = names["counts"]
        if G.mode == 1:
            cand = [x for x in h.modified(s.body) if isinstance(st.get(x), Arr) and x not in (cn, names.get("offset")) and any(isinstance(y, ast.Return) and isinstance(y.value, ast.Name) and y.value.id == x for y in ast.walk(fd))]
            if len(cand) != 1 or "offset" not in names: raise Unsupported("output array of the particle loop")
            names["indices"] = cand[0]
        c0 = st[cn].a
        n0 = {x: st[x].n for x in (cn, names.get("offset"), names.get("indices")) if x and isinstance(st.get(x), Arr)}
        lists = [x for x in h.modified(s.body) if isinstance(st.get(x), Arr) and x not in n0]
        def inv(q, v):
            out = [("length of %s kept" % k, q[k].n == z) for k, z in n0.items()]
            out += [("room in the list", q[x].n >= 0) for x in lists]
            c = q[cn].a
            if G.mode == 1: out.append(("counts left alone", c == c0))
            if G.mode == 0: out.append(("counts so far", A([r_], z3.Implies(z3.And(0 <= r_, r_ < G.R), z3.Select(c, r_) == G.C(v, r_)), [z3.Select(c, r_)])))
            else:
                o, ix = q[names["offset"]].a, q[names["indices"]].a
                out.append(("offsets so far", A([r_], z3.Implies(z3.And(0 <= r_, r_ < G.R), z3.Select(o, r_) == G.O(r_) + G.C(v, r_)), [z3.Select(o, r_)])))
                out.append(("list so far", A([i_, r_], z3.Implies(z3.And(0 <= i_, i_ < v, 0 <= r_, r_ < G.R, G.Sp(i_, r_)), z3.Select(ix, G.O(r_) + G.C(i_, r_)) == i_), [G.Sp(i_, r_)])))
            return out
        return Spec("particles", inv)
    # ---- all domains of one particle
    def patch(s, st, h):
        i = st[names["i"]]
        hi = h.num(s.iter.args[-1] if len(s.iter.args) < 3 else s.iter.args[1], st)
        cls = [x for x in h.modified(s.body) if isinstance(st.get(x), CL)]
        if len(cls) != 1: raise Unsupported("odometer of the patch loop")
        pn = cls[0]; names["p"] = pn
        # the number of targets so far: the scalar that is defined before the loop, starts at zero and indexes the list
        mods = h.modified(s.body)
        ks = [x for x in mods if isinstance(st.get(x), (int, z3.ArithRef)) and h.conc(st.get(x)) == 0 and any(isinstance(y, ast.AugAssign) or isinstance(y, ast.Assign) for y in ast.walk(s))]
        ks = [x for x in ks if any(isinstance(y, ast.Subscript) and isinstance(y.ctx, ast.Store) and isinstance(y.slice, ast.Name) and y.slice.id == x for y in ast.walk(s))]
        if len(ks) != 1: raise Unsupported("length of the target list")
        kn = ks[0]; names["k"] = kn
        ls = [x for x in mods if isinstance(st.get(x), Arr)]
        if len(ls) != 1: raise Unsupported("target list")
        ln = ls[0]; names["list"] = ln
        n0 = st[ln].n
        W = ["$W%d" % j for j in range(n)]
        t = G.tv
        def gi(q):
            for g in W: q.env[g] = z3.K(z3.IntSort(), z3.IntVal(0))
            q.env["$Pos"] = z3.K(z3.IntSort(), z3.IntVal(0))
            # what S(i, .) and C(i, .) mean, at this particle
            q.pc.append(A(t, z3.Implies(z3.And(G.box(i, t), G.live(t)), G.Sp(i, G.DA(G.D(*t)))), [G.D(*t)]))
            wt = [f(i, r_) for f in G.Wit]
            q.pc.append(A([r_], z3.Implies(G.Sp(i, r_), z3.And(G.box(i, wt), G.live(wt), G.DA(G.D(*wt)) == r_)), [G.Sp(i, r_)]))
            q.pc.append(A([r_], G.C(i + 1, r_) == G.C(i, r_) + z3.If(G.Sp(i, r_), 1, 0), [G.C(i + 1, r_)]))
            q.pc.append(A([r_], G.C(i + 1, r_) == G.C(i, r_) + z3.If(G.Sp(i, r_), 1, 0), [G.C(i, r_)]))
        def inv(q, v):
            p = q[pn].v[:n]; k = q[kn]; tl = q[ln]
            q.pc += G.box_facts(i, p, hi) + [G.index_facts(p)]
            Wj = [q[g] for g in W]; Pos = q["$Pos"]
            x = [p[j] - G.s[j](i) for j in range(n)]
            mr = x[0]
            for j in range(1, n): mr = mr * G.w[j](i) + x[j]
            wt = [z3.Select(a, z3.Select(tl.a, m_)) for a in Wj]
            rt = G.DA(G.D(*t))
            return [("steps counted by the odometer", mr == v),
                    ("odometer within the patch", z3.Implies(hi > 0, z3.And([x[0] >= 0, x[0] <= G.w[0](i)] + [z3.And(x[j] >= 0, x[j] < G.w[j](i)) for j in range(1, n)]))),
                    ("list not longer than the steps", z3.And(k >= 0, k <= v)), ("room in the list", z3.And(tl.n == n0, tl.n >= hi)),
                    ("list ascending", A([m_, r_], z3.Implies(z3.And(0 <= m_, m_ < r_, r_ < k), z3.Select(tl.a, m_) <= z3.Select(tl.a, r_)), [z3.MultiPattern(z3.Select(tl.a, m_), z3.Select(tl.a, r_))])),
                    ("each entry is the rank of a visited domain", A([m_], z3.Implies(z3.And(0 <= m_, m_ < k), z3.And(G.box(i, wt), G.lex(wt, p), G.live(wt), G.DA(G.D(*wt)) == z3.Select(tl.a, m_), z3.Select(tl.a, m_) >= 0, z3.Select(tl.a, m_) < G.R)), [z3.Select(tl.a, m_)])),
                    ("each visited domain has its rank in the list", A(t, z3.Implies(z3.And(G.box(i, t), G.lex(t, p), G.live(t)), z3.And(z3.Select(Pos, rt) >= 0, z3.Select(Pos, rt) < k, z3.Select(tl.a, z3.Select(Pos, rt)) == rt)), [G.D(*t)]))]
        def step(b, e, v, h):
            dk = h.conc(z3.simplify(z3.IntVal(0) + e[kn] - b[kn]))
            if dk == 0: return e
            if dk != 1: raise Unsupported("growth of the target list")
            e = e.copy()
            p0 = b[pn].v[:n]
            val = G.DA(G.D(*p0))
            hole = e[names["hole"]] + 1
            for g, x in zip(W, p0): e.env[g] = z3.Store(e[g], val, x)
            P0 = e["$Pos"]; P1 = h.fresh("$Pos", "A")
            pd = (A([r_], z3.Select(P1, r_) == z3.If(r_ == val, hole, z3.If(z3.Select(P0, r_) >= hole, z3.Select(P0, r_) + 1, z3.Select(P0, r_))), [z3.Select(P1, r_)]))
            e.pc.append(pd)
            e.env["$Pos"] = P1
            # the new list, described by the old one (an obligation of its own); the clauses are then shown from this alone
            old, new, k0 = b[ln].a, e[ln].a, b[kn]
            desc = A([m_], z3.Implies(z3.And(0 <= m_, m_ <= k0), z3.Select(new, m_) == z3.If(m_ < hole, z3.Select(old, m_), z3.If(m_ == hole, val, z3.Select(old, m_ - 1)))), [z3.Select(new, m_)])
            pos = z3.And(0 <= hole, hole <= k0, z3.Implies(hole > 0, z3.Select(old, hole - 1) <= val), z3.Implies(hole < k0, z3.Select(old, hole) > val))
            flat = [x for x in e.pc if not z3.is_quantifier(x)]
            vq = names["value"] == val
            h.oblige("patch: the entry is the rank of this domain", e.pc, vq, flat + [x for x in G.ax if z3.is_quantifier(x)])
            e.pc.append(vq); flat.append(vq)
            h.oblige("patch: the new entry lies where the order wants it", e.pc, pos, flat)
            e.pc.append(pos)
            dd = [x for x in e.pc if z3.is_quantifier(x) and x.get_id() not in {y.get_id() for y in b.pc} and x.get_id() != pd.get_id()]
            h.oblige("patch: list after the insertion", e.pc, desc, [x for x in flat if z3.is_eq(x)][-12:] + dd + [pos, vq, names["A0def"], k0 >= 0])
            e.pc.append(desc)
            binv = {n_: g for n_, g in inv(b.copy(), v)}
            have = {x.get_id() for x in e.pc if not isinstance(x, bool)}
            assert all(g.get_id() in have for g in binv.values() if z3.is_quantifier(g))
            base = [x for x in flat + [pos] if not z3.is_array(x) ] + [desc]
            asc, ent, vis = "list ascending", "each entry is the rank of a visited domain", "each visited domain has its rank in the list"
            dax = [x for x in G.ax if z3.is_quantifier(x) and funs(x) & {"DA", "D", "deg"}]
            pdef = [x for x in e.pc if z3.is_quantifier(x) and x.get_id() == pd.get_id()]
            e.select = {asc: [pos, desc, binv[asc]], ent: base + [binv[ent]] + dax, vis: base + [binv[vis]] + pdef + dax}
            return e
        return Spec("patch", inv, tuple(W) + ("$Pos",), gi, step)
    # ---- push each rank once
    def push(s, st, h):
        i = st[names["i"]]; k = h.num(s.iter.args[-1], st); ln = names["list"]; tl = st[ln].a; Pos = st["$Pos"]; nl = st[ln].n
        mods = h.modified(s.body)
        tns = [x for x in mods if isinstance(st.get(x), (int, z3.ArithRef)) and h.conc(st.get(x)) == -1]
        if len(tns) != 1: raise Unsupported("last pushed rank")
        tn = tns[0]
        arrs = {x: st[x] for x in mods if isinstance(st.get(x), Arr)}
        want = {names["counts"]} if G.mode == 0 else {names["offset"], names["indices"]}
        if set(arrs) - want - {names["counts"], names.get("offset"), names.get("indices")}: raise Unsupported("arrays of the push loop")
        def inv(q, v):
            tg = q[tn]
            done = lambda r: z3.And(G.Sp(i, r), r <= tg)
            out = [("members are the ranks touched", z3.And(A([m_], z3.Implies(z3.And(0 <= m_, m_ < k), G.Sp(i, z3.Select(tl, m_))), [z3.Select(tl, m_)]))),
                   ("touched ranks are members", A([r_], z3.Implies(G.Sp(i, r_), z3.And(z3.Select(Pos, r_) >= 0, z3.Select(Pos, r_) < k, z3.Select(tl, z3.Select(Pos, r_)) == r_, r_ >= 0, r_ < G.R)), [G.Sp(i, r_)])),
                   ("last pushed rank", tg == z3.If(v <= 0, z3.IntVal(-1), z3.Select(tl, v - 1)))]
            for x in arrs: out.append(("length of %s kept" % x, q[x].n == arrs[x].n))
            if G.mode == 0:
                c, c0 = q[names["counts"]].a, arrs[names["counts"]].a
                out.append(("one more for each pushed rank", A([r_], z3.Implies(z3.And(0 <= r_, r_ < G.R), z3.Select(c, r_) == z3.Select(c0, r_) + z3.If(done(r_), 1, 0)), [z3.Select(c, r_)])))
            else:
                if names["counts"] in arrs: out.append(("counts left alone", q[names["counts"]].a == arrs[names["counts"]].a))
                o, ix, ix0 = q[names["offset"]].a, q[names["indices"]].a, arrs[names["indices"]].a
                out.append(("offset moved for each pushed rank", A([r_], z3.Implies(z3.And(0 <= r_, r_ < G.R), z3.Select(o, r_) == G.O(r_) + G.C(i, r_) + z3.If(done(r_), 1, 0)), [z3.Select(o, r_)])))
                out.append(("earlier particles stay", A([i_, r_], z3.Implies(z3.And(0 <= i_, i_ < i, 0 <= r_, r_ < G.R, G.Sp(i_, r_)), z3.Select(ix, G.O(r_) + G.C(i_, r_)) == i_), [G.Sp(i_, r_)])))
                out.append(("this particle is listed", A([r_], z3.Implies(z3.And(0 <= r_, r_ < G.R, done(r_)), z3.Select(ix, G.O(r_) + G.C(i, r_)) == i), [G.Sp(i, r_)])))
            return out
        return Spec("push", inv)
    return specs

def run(obs, n, periodic, mode, timeout, rp):
    pre = "gridnd_fill, %d axes, %s, mode %d: " % (n, "periodic" if periodic else "open", mode)
    t0 = time.time()
    try:
        text = open(os.path.join(REPO, "pmesh", "_domain.pyx")).read()
        tree = ast.parse(psym.pyx_to_python(text))
        fd = [x for x in tree.body if isinstance(x, ast.FunctionDef) and x.name == "gridnd_fill"][0]
        G = Grid(n, periodic, mode)
        names = {}
        a = [x.arg for x in fd.args.args]
        if len(a) != 8: raise Unsupported("signature")
        names["counts"] = a[1]
        counts0 = z3.Array("counts", z3.IntSort(), z3.IntSort())
        r_ = z3.Int("r__")
        pc = []
        if mode == 0: pc.append(A([r_], z3.Implies(z3.And(0 <= r_, r_ < G.R), z3.Select(counts0, r_) == 0), [z3.Select(counts0, r_)]))
        else: pc.append(A([r_], z3.Implies(z3.And(0 <= r_, r_ < G.R), z3.Select(counts0, r_) == G.C(G.N, r_)), [z3.Select(counts0, r_)]))
        env = {a[0]: mode, a[1]: Arr(counts0, G.R), a[2]: Fun(lambda j: G.d[conc(j)], [n]),
               a[3]: Fun(lambda j, i: G.s[conc(j)](i), [n, G.N]), a[4]: Fun(lambda j, i: G.s[conc(j)](i) + G.w[conc(j)](i), [n, G.N]),
               a[5]: 1 if periodic else 0, a[6]: Fun(G.deg, [G.size]), a[7]: Fun(G.DA, [G.size]), "__undef__": UNDEF}
        def conc(j):
            k = j if isinstance(j, int) else (z3.simplify(j).as_long() if z3.is_int_value(z3.simplify(j)) else None)
            if k is None: raise Unsupported("symbolic axis")
            return k
        # domains reached: table size, positive sizes
        hh = H(G.ax, specs_for(G, fd, names), timeout, pre)
        out = hh.block(fd.body, St(env, pc))
        ends = 0
        i_ = z3.Int("i__")
        for st, sig in out:
            ends += 1
            c = st[a[1]].a
            if mode == 0: hh.oblige("counts of every rank at the end", st.pc, A([r_], z3.Implies(z3.And(0 <= r_, r_ < G.R), z3.Select(c, r_) == G.C(G.N, r_))))
            else:
                ret = sig[1] if isinstance(sig, tuple) else None
                if not isinstance(ret, Arr): raise Unsupported("return value")
                hh.oblige("length of the result: all copies", st.pc, ret.n == G.O(G.R))
                hh.oblige("every particle is listed at its place in each rank it touches", st.pc, A([i_, r_], z3.Implies(z3.And(0 <= i_, i_ < G.N, 0 <= r_, r_ < G.R, G.Sp(i_, r_)), z3.Select(ret.a, G.O(r_) + G.C(i_, r_)) == i_), [G.Sp(i_, r_)]))
                hh.oblige("counts are left alone", st.pc, A([r_], z3.Implies(z3.And(0 <= r_, r_ < G.R), z3.Select(c, r_) == z3.Select(counts0, r_))))
        if not ends: raise Unsupported("no path reaches the end")
        missing = {"particles", "patch", "insertion", "push"} - {u for u in hh.used}
        if missing: raise Unsupported("loops not found: %s" % sorted(missing))
    except (Unsupported, SyntaxError, KeyError, IndexError) as e:
        obs.put(pre + "verification conditions", "undecided", "-", time.time() - t0, "out of reach: %r" % (e,)); return
    return [(nm, G.ax + hy, g, None if few is None else few + [x for x in G.ax if not z3.is_quantifier(x)]) for nm, hy, g, few in hh.obs]

def work(x):
    n, periodic, mode, timeout = x
    obs = Obs("")
    vs = run(obs, n, periodic, mode, timeout, None)
    out = list(obs.obs)
    if vs:
        # the facts at the end must not contradict each other
        for nm, hy, g, few in vs[-1:]:
            so = z3.Solver(); so.set("timeout", 5000); so.add(hy); t0 = time.time()
            ok = so.check() != z3.unsat
            out.append(dict(name=nm + " (assumptions do not contradict each other)", status="proved" if ok else "undecided", backend="z3", time=time.time() - t0, detail="" if ok else "contradictory", replay=[]))
        for nm, hy, g, few in vs:
            st, be, dt, d = solve(nm, hy, g, timeout, few)
            if st != "proved" and sum(1 for o in out if o["status"] != "proved") >= 3:      # enough to report
                out.append(dict(name=nm + " and further obligations", status="undecided", backend="z3", time=dt, detail="not attempted after 3 failures", replay=[])); break
            out.append(dict(name=nm, status={"proved": "proved", "sat": "refuted"}.get(st, "undecided"), backend=be, time=dt, detail=d[:600], replay=[]))
    return out

def fill_contract(obs, tier, rp):
    from concurrent.futures import ProcessPoolExecutor
    timeout = 20000 if tier == "quick" else 120000
    jobs = [(n, p, m, timeout) for n in (3, 2, 1) for p in (True, False) for m in (1, 0)]
    lemmas(obs, timeout)
    with ProcessPoolExecutor(6) as ex:
        for res in ex.map(work, jobs):
            for o in res:
                o["name"] = obs.prefix + o["name"]
                if o["status"] != "proved":
                    o["replay"] = rp
                    # quantified conditions: a model of the solver is a hint only, the replay decides
                    if rp and o["backend"] != "-": o["status"] = "refuted"
                obs.obs.append(o)
    obs.functions.add("_domain.gridnd_fill")
    obs.assumptions |= {"the Cython source of gridnd_fill is read as Python with mathematical integers (int/short do not overflow)", "gridnd_fill: rank table entries lie in [0, number of ranks), tables have prod(shape) entries, shape >= 1"}

def prove(prop, tier="quick"):
    obs = Obs("domain: ")
    fill_contract(obs, tier, search("*"))
    return obs

"""Contracts of Layout (exchange, gather), of primary regions, loads and assignments of GridND, and of the order of collective calls."""
import itertools
from . import psym as P
from . import npshim as N
from . import term as tm
from .psym import SArr, Sym, W, T_, event, symarr, asarr, frozen, canon, quant_facts
from .term import *
from .solve import Obs, check, entails, search
from .p_wrap import call_paths
from .p_dom import I, R, E, Comm, Rec, RecType, UFunc, load, grid, tfun, pick, eqv, lin, dig_facts, unravel_facts, NONZERO, REPO

SP = ZERO
def S(name, lo, hi): return canon(app("SUM", [var("v?", "I"), lo, hi, app(name, [var("v?", "I")], "I")], "I"))

# ---------------------------------------------------------------- relational: the same collective calls on all ranks
COLL = ["Barrier", "allgather", "bcast", "allreduce", "Alltoall", "Alltoallv", "Layout", "Allreduce"]
def collective_trace(p):
    out = []
    for e in p.events:
        if e.name in COLL:
            if e.binders or e.guard is not TRUE: return None
            out.append(e.name if e.name != "bcast" else ("bcast", str(e.args[1:])))
    return out + ["raises %s" % type(p.exc).__name__ if p.exc is not None else "returns"]
GLOBALS = ["any-rank:", "P", "rootlen", "sum-over-ranks", "E0", "E1", "E2", "n0", "n1", "n2", "DA", "deg", "DL", "root", "bcast", "G:"]
def is_global(n): return any(n == g or (g[-1] in ":" and n.startswith(g)) or (g in ("any-rank:", "rootlen", "sum-over-ranks", "root", "bcast") and n.startswith(g)) for g in GLOBALS)
def other_rank(t, memo):
    r = memo.get(t)
    if r is None:
        if t.op == "var": r = t if is_global(t.args[0]) else var("other:" + t.args[0], t.sort)
        elif t.op == "app":
            n = t.args[0]
            r = app(n if is_global(n) or n in ("SUM", "ANY", "ALL", "sqrt", "pow") else "other:" + n, [other_rank(a, memo) for a in t.args[1:]], t.sort)
        elif children(t): r = rebuild(t, lambda a: other_rank(a, memo))
        else: r = t
        memo[t] = r
    return r

def same_calls(obs, name, f, rp, extra=None):
    """any two ranks make the same collective calls in the same order and end the same way"""
    import time
    t0 = time.time()
    try: paths = P.explore(f)
    except (Unsupported, P.Oblig, P.Stop) as e: obs.put(name, "undecided", "-", time.time() - t0, "out of reach: %s" % e); return
    traces = []
    for p in paths:
        t = collective_trace(p)
        if t is None: obs.put(name, "undecided", "-", 0, "collective call under a condition inside a loop"); return
        traces.append(t)
    if not any(len(t) > 1 for t in traces): obs.put(name, "undecided", "-", 0, "no collective call seen"); return
    k = 0
    for i, p in enumerate(paths):
        for j, q in enumerate(paths):
            if i == j or traces[i] == traces[j]: continue
            k += 1
            memo = {}
            obs.prove("%s: a rank on path %d and one on path %d" % (name, i, j), list(p.pc) + [other_rank(c, memo) for c in q.pc] + list(extra() if extra else []), FALSE, 5.0, replay=lambda m: rp)
    obs.put("%s: %d paths, %d pairs with different calls shown to be incompatible" % (name, len(paths), k), "proved", "symbolic-execution", time.time() - t0)

# ---------------------------------------------------------------- Layout
def layout_obj(g, comm, with_ranks=True):
    """a Layout as its constructor leaves it (constructor: layout_init; indices: decompose)"""
    o = object.__new__(g["Layout"])
    Pn = comm.size_
    n, m, rl = I("N"), I("M"), I("RL")
    for x in (n, m, rl): P.CTX.assume(ge(x, 0))
    P.CTX.assume(implies(gt(m, 0), gt(n, 0)))
    o.comm = comm
    o.sendlength, o.recvlength = W(n), W(rl)
    o.sendcounts, o.sendoffsets = symarr("sc", [Pn], "i4", rng=(ZERO, add(m, 1))), symarr("so", [Pn], "i4", rng=(ZERO, add(m, 1)))
    o.recvcounts, o.recvoffsets = symarr("rc", [Pn], "i4", rng=(ZERO, add(rl, 1))), symarr("ro", [Pn], "i4", rng=(ZERO, add(rl, 1)))
    o.indices = symarr("ind", [m], "i4", rng=(ZERO, n))
    r = comm.rank_
    sc, so, rc, ro = (app(x, [r], "I") for x in ("sc", "so", "rc", "ro"))
    P.CTX.assume(and_(le(add(so, sc), m), le(add(ro, rc), rl), eq(sc, rc), ge(sc, 0), ge(so, 0), ge(ro, 0)))
    return o

def layout_init(obs, rp):
    for given in (False, True):
        name = "Layout.__init__%s" % (" with receive counts" if given else "")
        def f(given=given):
            g = load()
            comm = Comm()
            sc = symarr("sc", [comm.size_], "i4"); ind = symarr("ind", [I("M")], "i4")
            rc = symarr("received-counts", [comm.size_], "i4") if given else None
            ev0 = len(P.CTX.events)
            o = g["Layout"](comm=comm, sendlength=W(I("N")), sendcounts=sc, indices=ind, recvcounts=rc)
            return o, comm, sc, ind, P.CTX.events[ev0:]
        def post(p, prove, say, given=given):
            if p.exc is not None: say("no exception", False, repr(p.exc)); return
            o, comm, sc, ind, ev = p.res
            n = comm.size_; q = I("q*"); rng = [ge(q, 0), lt(q, n)]
            say("collective calls", [e.name for e in ev] == ([] if given else ["Barrier", "Alltoall", "Barrier"]), ev)
            if not given:
                s = ev[1].args[0]
                prove("counts handed to Alltoall", rng, and_(eq(s.at((q,)), app("sc", [q], "I")), eq(s.shape_[0], n)))
            for what, a, nm in (("send", o.sendcounts, "sc"), ("receive", o.recvcounts, "received-counts")):
                prove("%s counts" % what, rng, and_(eq(a.at((q,)), app(nm, [q], "I")), eq(a.shape_[0], n)))
            for what, a, nm in (("send", o.sendoffsets, "sc"), ("receive", o.recvoffsets, "received-counts")):
                prove("%s offset of rank 0" % what, [], and_(eq(a.at((ZERO,)), 0), eq(a.shape_[0], n)))
                t = a.at((add(q, 1),))
                prove("%s offsets are the sums of the earlier counts" % what, [ge(q, 0), lt(add(q, 1), n)], eq(canon(P.resolve(t, list(p.pc) + [ge(q, 0), lt(add(q, 1), n)])), S(nm, ZERO, add(q, 1))))
            prove("number of items received", [], eq(canon(T_(o.recvlength)), S("received-counts", ZERO, n)))
            prove("number of items sent", [], eq(T_(o.sendlength), I("N")))
            say("indices kept", o.indices is ind, "")
            say("communicator kept", o.comm is comm, "")
        call_paths(obs, name, f, post, rp)
    obs.functions |= {"domain.Layout.__init__"}

def prefix_lemmas(obs):
    """exclusive prefix sums of non-negative counts split [0, total) into the blocks of the ranks"""
    s = lambda q: app("S", [q], "I"); c = lambda q: app("c", [q], "I")
    q, k, n = I("q"), I("k"), I("n")
    step = [eq(s(add(q, 1)), add(s(q), c(q))), ge(c(q), 0)]
    obs.prove("lemma: offsets do not descend (induction step)", step + [le(s(k), s(q))], le(s(k), s(add(q, 1))))
    obs.prove("lemma: blocks of different ranks are disjoint", [lt(q, k), ge(c(q), 0), ge(c(k), 0), eq(s(add(q, 1)), add(s(q), c(q))), le(s(add(q, 1)), s(k))], le(add(s(q), c(q)), s(k)))
    obs.prove("lemma: every block lies below the total", [eq(s(add(q, 1)), add(s(q), c(q))), le(s(add(q, 1)), s(n))], le(add(s(q), c(q)), s(n)))

TRAIL = {"scalar": (), "vector": ("K",), "matrix": ("K", "L")}
def column(k, dt, trail, ln, fortran=False):
    a = symarr("data:%d" % k, [ln] + [I("%s%d" % (x, k)) for x in TRAIL[trail]], dt)
    for x in a.shape_: P.CTX.assume(ge(x, 0))
    if fortran: a.attrs = dict(fortran=True)
    return a

def itemsize(cols): return add(*[mul(prod([I("%s%d" % (x, k)) for x in TRAIL[tr]]), const(__import__("numpy").dtype(dt).itemsize)) for k, dt, tr in cols])

EXCH = [("one scalar column", [("f8", "scalar")]), ("one vector column", [("f4", "vector")]), ("one matrix column", [("i8", "matrix")]), ("mixed columns", [("f8", "vector"), ("i4", "scalar"), ("f4", "matrix")])]
def same(a, b): return a is b or (a == b if not isinstance(a, (SArr, Rec)) else False)

def exchange_contract(obs, rp):
    for (label, cols), pack, fort in itertools.product(EXCH, (True, False), (False, True)):
        if fort and label != "one matrix column": continue
        name = "exchange: %s, %s%s" % (label, "packed" if pack else "one by one", ", Fortran order" if fort else "")
        def f(cols=cols, pack=pack, fort=fort):
            g = load(); comm = Comm(); o = layout_obj(g, comm)
            data = [column(k, dt, tr, I("len%d" % k), fort) for k, (dt, tr) in enumerate(cols)]
            ev0 = len(P.CTX.events)
            try: r = o.exchange(*data, pack=pack)
            except ValueError as e: r = e
            return r, o, data, P.CTX.events[ev0:]
        def post(p, prove, say, cols=cols, pack=pack, name=name):
            if p.exc is not None: say("no exception but ValueError", False, repr(p.exc)); return
            r, o, data, ev = p.res
            sends = [e for e in ev if e.name == "Alltoallv"]
            if isinstance(r, ValueError):
                if pack: say("nothing is sent when data is rejected", not sends, ev)
                # rejected only if some rank saw a mismatch
                flags = sorted({x for c in p.pc for x in free_vars(c) if x.args[0].startswith("any-rank:")}, key=lambda x: x.id)
                prove("rejected only when some rank's data does not fit", [], or_(*flags))
                return
            say("one exchange per array" if not pack else "a single exchange", len(sends) == (1 if pack else len(cols)) and all(not e.binders and e.guard is TRUE for e in sends), ev)
            out = [r] if len(cols) == 1 else list(r)
            say("one result per array", len(out) == len(cols) and all(isinstance(x, SArr) for x in out), out)
            q = I("q*"); M, RL, n = I("M"), I("RL"), o.comm.size_
            rest = lambda k: tuple(I("t%d*" % j) for j in range(len(TRAIL[cols[k][1]])))
            inr = lambda k: [c for t, x in zip(rest(k), TRAIL[cols[k][1]]) for c in (ge(t, 0), lt(t, I("%s%d" % (x, k))))]
            for k in range(len(cols)): prove("array %d accepted only with the length of the layout" % k, [], eq(I("len%d" % k), I("N")))
            for e_i, e in enumerate(sends):
                sb, sc, so, sd, rb, rc, ro, rd, cont = e.args
                mine = list(range(len(cols))) if pack else [e_i]
                say("send buffer is contiguous", cont, "")
                for what, a, nm in (("send counts", sc, "sc"), ("send offsets", so, "so"), ("receive counts", rc, "rc"), ("receive offsets", ro, "ro")):
                    prove("%s of the layout" % what, [ge(q, 0), lt(q, n)], and_(eq(a.at((q,)), app(nm, [q], "I")), eq(a.shape_[0], n)))
                size = itemsize([(k,) + cols[k] for k in mine])
                prove("size of one item", [], and_(eq(T_(sd.n), size), eq(T_(rd.n), size)))
                prove("items sent", [], eq(sb.shape[0].t if isinstance(sb.shape[0], Sym) else T_(sb.shape[0]), M))
                prove("room for what is received", [], eq(T_(rb.shape[0]), RL))
                for k in mine:
                    s = sb.f[sb.dtype.names[k]] if isinstance(sb, Rec) else sb
                    prove("array %d: item sent at place q is the listed one" % k, [ge(q, 0), lt(q, M), ge(app("ind", [q], "I"), 0), lt(app("ind", [q], "I"), I("N"))] + inr(k),
                          eq(s.at((q,) + rest(k)), app("data:%d" % k, [app("ind", [q], "I")] + list(rest(k)), "I" if data[k].dtype.kind == "i" else "R")))
                    x = out[k]
                    nm = "received:%d:f%d" % (e_i + 1, k) if isinstance(rb, Rec) else "received:%d" % (e_i + 1)
                    say("array %d: dtype kept" % k, x.dtype == data[k].dtype and s.dtype == data[k].dtype, (x.dtype, s.dtype))
                    prove("array %d: shape of the result" % k, [], and_(x.ndim == data[k].ndim, eq(x.shape_[0], RL), *[eq(a, I("%s%d" % (b, k))) for a, b in zip(x.shape_[1:], TRAIL[cols[k][1]])]))
                    prove("array %d: what was received is returned" % k, [ge(q, 0), lt(q, RL)] + inr(k), eq(x.at((q,) + rest(k)), app(nm, [q] + list(rest(k)), "I" if data[k].dtype.kind == "i" else "R")))
        call_paths(obs, name, f, post, rp)
    def f():
        g = load(); comm = Comm(); o = layout_obj(g, comm)
        ev0 = len(P.CTX.events)
        return o.get_exchange_cost(), o, P.CTX.events[ev0:]
    def post(p, prove, say):
        if p.exc is not None: say("no exception", False, repr(p.exc)); return
        r, o, ev = p.res
        say("one allgather", [e.name for e in ev] == ["allgather"], ev)
        v = var("#0", "I")
        want = app("SUM", [v, ZERO, o.comm.size_, ite(ne(v, o.comm.rank_), app("sc", [v], "I"), ZERO)], "I")
        prove("cost: items sent to other ranks", [], eq(canon(T_(ev[0].args[0])), canon(want)))
        k = I("k*")
        prove("cost of all ranks", [ge(k, 0), lt(k, o.comm.size_)], and_(eq(r.shape_[0], o.comm.size_), eq(r.at((k,)), app("allgather:1", [k], "I"))))
    call_paths(obs, "get_exchange_cost", f, post, rp)
    obs.functions |= {"domain.Layout.exchange", "domain.Layout._exchange", "domain.promote", "domain.pack_arrays", "domain.Layout.get_exchange_cost"}

MODES = ["all", "sum", "mean", "any", "local", "ufunc"]
def gather_contract(obs, rp):
    for mode, (dt, tr), out_, fort in itertools.product(MODES, [("f8", "scalar"), ("f4", "vector"), ("i8", "scalar"), ("f8", "matrix")], (False, True), (False, True)):
        if fort and (tr != "vector"): continue
        if dt == "i8" and mode == "mean": continue
        name = "gather %s: %s %s%s%s" % (mode, dt, tr, ", out given" if out_ else "", ", Fortran order" if fort else "")
        tn = [I("%s0" % x) for x in TRAIL[tr]]
        def f(mode=mode, dt=dt, tr=tr, out_=out_, fort=fort, tn=tn):
            g = load(); comm = Comm(); o = layout_obj(g, comm)
            data = column(0, dt, tr, I("len0"), fort)
            md = UFunc() if mode == "ufunc" else mode
            out = symarr("out", [I("M") if mode == "all" else I("N")] + tn, dt) if out_ else None
            ev0 = len(P.CTX.events)
            try: r = o.gather(data, mode=md, out=out)
            except ValueError as e: r = e
            return r, o, data, out, P.CTX.events[ev0:]
        def post(p, prove, say, mode=mode, dt=dt, tr=tr, out_=out_, name=name, tn=tn):
            if p.exc is not None: say("no exception but ValueError", False, repr(p.exc)); return
            r, o, data, out, ev = p.res
            sends = [e for e in ev if e.name == "Alltoallv"]
            if isinstance(r, ValueError):
                say("nothing is sent when data is rejected", not sends, ev)
                flags = [x for c in p.pc for x in free_vars(c) if x.args[0].startswith("any-rank:")]
                prove("rejected only when some rank's data does not fit", [], or_(*flags)); return
            srt = "I" if dt[0] == "i" else "R"
            n, M, RL, Pn = I("N"), I("M"), I("RL"), o.comm.size_
            q, i = I("q*"), I("i*")
            rest = tuple(I("t%d*" % j) for j in range(len(tn)))
            inr = [c for t, x in zip(rest, tn) for c in (ge(t, 0), lt(t, x))]
            ind = lambda k: app("ind", [k], "I")
            prove("accepted only with the length received", [], eq(I("len0"), RL))
            say("dtype", r.dtype == data.dtype, r.dtype)
            if out_: say("the supplied output is returned", r is out or (mode == "ufunc" and r is out), r)
            first = M if mode == "all" else n
            prove("shape", [], and_(r.ndim == len(tn) + 1, eq(r.shape_[0], first), *[eq(a, b) for a, b in zip(r.shape_[1:], tn)]))
            RV = lambda k: app("received:1", [k] + list(rest), srt)
            if mode == "local":
                say("nothing is sent", not sends, ev)
            else:
                say("one exchange", len(sends) == 1 and not sends[0].binders and sends[0].guard is TRUE, ev)
                sb, sc, so, sd, rb, rc, ro, rd, cont = sends[0].args
                say("send buffer is contiguous", cont, "")
                for what, a, nm in (("send counts", sc, "rc"), ("send offsets", so, "ro"), ("receive counts", rc, "sc"), ("receive offsets", ro, "so")):
                    prove("%s are those of the exchange reversed" % what, [ge(q, 0), lt(q, Pn)], and_(eq(a.at((q,)), app(nm, [q], "I")), eq(a.shape_[0], Pn)))
                size = mul(prod(tn), data.dtype.itemsize)
                prove("size of one item", [], and_(eq(T_(sd.n), size), eq(T_(rd.n), size)))
                prove("items sent", [ge(q, 0), lt(q, RL)] + inr, and_(eq(sb.shape_[0], RL), eq(sb.at((q,) + rest), app("data:0", [q] + list(rest), srt))))
                prove("room for what is received", [], eq(rb.shape_[0], M))
            if entails(p.pc, eq(n, 0), 1.0): return
            if mode == "all":
                prove("all copies, unreduced", [ge(q, 0), lt(q, M)] + inr, eq(r.at((q,) + rest), RV(q)))
                return
            hi = [ge(i, 0), lt(i, n)] + inr
            v = var("v?", "I")
            SUMOF = lambda body, s: canon(app("SUM", [v, ZERO, M, ite(eq(ind(v), i), body, ZERO)], s))
            if mode == "sum":
                prove("sum over the copies of particle i", hi, eq(canon(P.resolve(r.at((i,) + rest), list(P.CTX.pc) + hi)), SUMOF(app("received:1", [v] + list(rest), srt), srt)))
            elif mode == "mean":
                cnt = SUMOF(ONE, "I")
                prove("mean over the copies of particle i", hi + [gt(cnt, 0)], eq(canon(P.resolve(r.at((i,) + rest), list(P.CTX.pc) + hi)), div(SUMOF(app("received:1", [v] + list(rest), srt), srt), cnt)))
            elif mode in ("any", "local"):
                k = I("k*")
                if mode == "any": hk = [ge(k, 0), lt(k, M), eq(ind(k), i)]; src = lambda w: RV(w); place = lambda w: w; cntk = M
                else:
                    so_, sc_, ro_ = (app(x, [o.comm.rank_], "I") for x in ("so", "sc", "ro"))
                    hk = [ge(k, 0), lt(k, sc_), eq(ind(add(so_, k)), i)]
                    src = lambda w: app("data:0", [add(ro_, w)] + list(rest), srt); place = lambda w: add(so_, w); cntk = sc_
                t = P.resolve(r.at((i,) + rest), list(P.CTX.pc) + hi + hk)
                ws = sorted({s for s in subterms(t) if s.op == "app" and s.args[0].startswith("placed:")}, key=lambda s: s.id)
                hyps = list(P.CTX.pc) + quant_facts([t] + list(P.CTX.pc), [k])
                if len(ws) != 1: say("value of one of the copies", True) if False else obs.put(name + ": value of one of the copies", "undecided", "-", 0, "cannot find the copy in %s" % show(t)[:200]); return
                w = ws[0]
                if mode == "any": goal = and_(ge(w, 0), lt(w, cntk), eq(ind(place(w)), i), eq(t, src(w)))
                else:
                    # each particle is listed at most once for this rank (decompose)
                    hyps += [implies(and_(ge(w, 0), lt(w, cntk), eq(ind(place(w)), ind(place(k)))), eq(w, k))]
                    goal = eq(t, src(k))
                prove("the value of one of the copies of particle i" if mode == "any" else "the value of the copy on the same rank", hyps + hi + hk, goal)
            elif mode == "ufunc":
                rd_ = [e for e in ev if e.name == "reduceat"]
                say("one reduceat", len(rd_) == 1 and not rd_[0].binders, ev)
                a, offs = rd_[0].args
                # sorted by particle: position k of the sorted list is copy arg(k)
                args = sorted({s.args[0] for c in [a.at((q,) + rest)] for s in subterms(c) if s.op == "app" and s.args[0].startswith("argsort:")})
                if len(args) != 1: obs.put(name + ": reduction over the copies", "undecided", "-", 0, "no argsort found"); return
                say("sorted by particle", True)
                A = lambda k: app(args[0], [k], "I")
                base = P.ARGSORT.get(args[0])
                hy = [ge(q, 0), lt(q, M), ge(A(q), 0), lt(A(q), M)] + inr
                prove("sorting uses the indices", [ge(q, 0), lt(q, M)], and_(base is not None and eq(base.at((q,)), ind(q)), eq(base.shape_[0], M)))
                prove("copies in sorted order", hy, and_(eq(a.at((q,) + rest), RV(A(q))), eq(a.shape_[0], M)))
                def unfold(t):
                    """definition of the sums in t: without items, and with one more item"""
                    out = []
                    def outer(s):
                        if s.op == "app" and s.args[0] == "SUM" and len(s.args) == 5: return [s]
                        return [y for x in children(s) for y in outer(x)]
                    for s in outer(t):
                        if s.args[2] is ZERO:
                            v_, lo, hi_, b = s.args[1:]
                            m = sub(hi_, 1)
                            out += [implies(ge(m, 0), eq(s, add(canon(app("SUM", [v_, ZERO, m, b], s.sort)), canon(subst(b, {v_: m}))))), implies(eq(hi_, 0), eq(s, 0))]
                            out += [implies(eq(m, 0), eq(canon(app("SUM", [v_, ZERO, m, b], s.sort)), 0))]
                    return out
                t0 = canon(P.resolve(offs.at((ZERO,)), list(p.pc)))
                prove("offset of the first particle", unfold(t0), and_(eq(t0, 0), eq(offs.shape_[0], n)))
                u = var("u?", "I")
                cnt = app("SUM", [v, ZERO, M, ite(eq(ind(v), u), ONE, ZERO)], "I")
                hq = [ge(q, 0), lt(add(q, 1), n)]
                t1 = canon(P.resolve(offs.at((add(q, 1),)), list(p.pc) + hq))
                prove("offsets: number of copies of the earlier particles", hq + unfold(t1), eq(t1, canon(app("SUM", [u, ZERO, add(q, 1), cnt], "I"))))
                k = len([e for e in p.events[:p.events.index(rd_[0])]])
                prove("the reduction is returned", hi, eq(r.at((i,) + rest), app("reduced:%d" % k, [i] + list(rest), srt)))
        call_paths(obs, name, f, post, rp)
    counting_lemmas(obs)
    obs.functions |= {"domain.Layout.gather", "domain.bincountv", "domain.promote"}

def counting_lemmas(obs):
    """after sorting by particle, the copies of particle i sit at [offset(i), offset(i+1))"""
    # L(i) = number of copies with particle < i;  c(i) = number of copies of particle i;  L(i+1) = L(i) + c(i) element by element
    x, i, k = I("x"), I("i"), I("k")
    ind = lambda t: ite(t, ONE, ZERO)
    obs.prove("lemma: one copy counts for the particles below i+1 iff for those below i or for i", [], eq(ind(lt(x, add(i, 1))), add(ind(lt(x, i)), ind(eq(x, i)))))
    obs.prove("lemma: no copy belongs to a particle below 0", [ge(x, 0)], eq(ind(lt(x, 0)), 0))
    s = lambda t: app("s", [t], "I")
    # sorted: positions with s < i form a prefix; its length is L(i) (induction over positions)
    L = I("L")
    obs.prove("lemma: in ascending order the smaller ones come first", [implies(le(k, x), le(s(k), s(x))), lt(s(x), i), le(k, x)], lt(s(k), i))
    obs.prove("lemma: positions from offset(i) to offset(i+1) are those of particle i", [eqv(lt(k, L), lt(s(k), i)), eqv(lt(k, I("L1")), lt(s(k), add(i, 1)))], eqv(and_(le(L, k), lt(k, I("L1"))), eq(s(k), i)))

def collectives_layout(obs, rp):
    for given in (False, True):
        def f(given=given):
            g = load(); comm = Comm()
            sc = symarr("sc", [comm.size_], "i4"); ind = symarr("ind", [I("M")], "i4")
            g["Layout"](comm=comm, sendlength=W(I("N")), sendcounts=sc, indices=ind)
        if not given: same_calls(obs, "Layout.__init__", f, rp)
    for (label, cols), pack in itertools.product(EXCH, (True, False)):
        def f(cols=cols, pack=pack):
            g = load(); comm = Comm(root=dict(shape=tuple(W(I("root%s" % x)) for x in TRAIL[cols[0][1]]) if len(cols) == 1 and not pack else None)); o = layout_obj(g, comm)
            if comm.root["shape"] is None: comm.root = {}
            o.exchange(*[column(k, dt, tr, I("len%d" % k)) for k, (dt, tr) in enumerate(cols)], pack=pack)
        same_calls(obs, "exchange, %s, %s" % (label, "packed" if pack else "one by one"), f, rp)
    for mode, (dt, tr), out_ in itertools.product(MODES, [("f8", "scalar"), ("f4", "vector")], (False, True)):
        def f(mode=mode, dt=dt, tr=tr, out_=out_):
            g = load(); comm = Comm(root=dict(shape=tuple(W(I("root%s" % x)) for x in TRAIL[tr]))); o = layout_obj(g, comm)
            o.gather(column(0, dt, tr, I("len0")), mode=UFunc() if mode == "ufunc" else mode, out=symarr("out", [I("M") if mode == "all" else I("N")] + [I("%s0" % x) for x in TRAIL[tr]], dt) if out_ else None)
        same_calls(obs, "gather %s, %s%s" % (mode, tr, ", out given" if out_ else ""), f, rp)
    def f():
        g = load(); comm = Comm(); layout_obj(g, comm).get_exchange_cost()
    same_calls(obs, "get_exchange_cost", f, rp)
    for nd, per in itertools.product((1, 2, 3), (True, False)):
        def f(nd=nd, per=per):
            g = load(); comm = Comm()
            class Layout:
                def __init__(self, comm=None, sendlength=None, sendcounts=None, indices=None, recvcounts=None): event("Layout")
            g["Layout"] = Layout
            def fill(mode, counts, *a): return symarr("listed", [I("ncopies")], "i4") if mode == 1 else None
            g["GridND"]._fill = staticmethod(fill)
            o = grid(g, nd, per, comm)
            P.CTX.assume(ge(I("N"), 0)); P.CTX.assume(lt(I("N"), 1 << 31))
            o.decompose(symarr("pos", [I("N"), const(nd)], "f8"), smoothing=W(R("sm")))
        same_calls(obs, "decompose, %d axes, %s" % (nd, "periodic" if per else "open"), f, rp)
        def f(nd=nd, per=per):
            g = load(); comm = Comm(); o = grid(g, nd, per, comm)
            P.CTX.assume(ge(I("N"), 0))
            o.load(symarr("pos", [I("N"), const(nd)], "f8"), gamma=W(R("G:gamma")))
        same_calls(obs, "load, %d axes, %s" % (nd, "periodic" if per else "open"), f, rp)
    obs.functions |= {"domain.Layout.__init__", "domain.Layout.exchange", "domain.Layout.gather", "domain.Layout.get_exchange_cost", "domain.GridND.decompose", "domain.GridND.load"}

def prove(prop, tier="quick"):
    rp = search("*")
    obs = Obs("domain: ")
    obs.assumptions |= {"mpi4py: Alltoall transposes counts; Alltoallv delivers block s of the receive buffer from block r of rank s's contiguous send buffer; allgather/bcast/allreduce give all ranks the same result",
                        "numpy functions by their documented contracts (psym/npshim/p_dom)", "integers and reals are mathematical"}
    if prop == "C02": layout_init(obs, rp); prefix_lemmas(obs); exchange_contract(obs, rp)
    if prop == "C03": layout_init(obs, rp); prefix_lemmas(obs); gather_contract(obs, rp)
    if prop == "C20": collectives_layout(obs, rp)
    return obs

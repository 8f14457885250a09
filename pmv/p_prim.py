"""Contracts of GridND: its constructor (C01, C05), primary regions (C04), loads, load balancing and the uniform decomposition (C05)."""
import itertools
from . import psym as P
from . import npshim as N
from . import term as tm
from .psym import SArr, Sym, W, T_, event, symarr, asarr, frozen, canon, quant_facts
from .term import *
from .solve import Obs, check, entails, search
from .p_wrap import call_paths
from .p_dom import I, R, E, Comm, load, grid, tfun, pick, eqv, lin, dig_facts, unravel_facts, NONZERO, floor_facts

def linear(us, ns):
    q = ZERO
    for u, n in zip(us, ns): q = add(mul(q, n), u)
    return q
def inside(us, ns): return [c for u, n in zip(us, ns) for c in (ge(u, 0), lt(u, n))]

def digit_lemmas(obs):
    """digits of an index are unique: q = (u0 n1 + u1) n2 + u2 with 0 <= u_d < n_d"""
    a, b, u, v, n = I("a"), I("b"), I("u"), I("v"), I("n")
    d = I("d")
    # a n + u = b n + v;  a = b + d
    rng = [ge(u, 0), lt(u, n), ge(v, 0), lt(v, n), ge(n, 1)]
    hy = rng + [eq(add(mul(add(b, d), n), u), add(mul(b, n), v))] + [implies(ge(d, 1), ge(mul(d, n), n)), implies(le(d, -1), le(mul(d, n), neg(n))), implies(eq(d, 0), eq(mul(d, n), 0))]
    lin(obs, "lemma: last digit and rest of an index are unique", hy, and_(eq(d, 0), eq(u, v)), [])
    obs.prove("lemma: a positive multiple is at least one times", [ge(d, 1), ge(n, 1)], ge(mul(sub(d, 1), n), 0))
    lin(obs, "lemma: an index lies below the number of domains", [ge(a, 0), lt(a, I("m")), ge(u, 0), lt(u, n), le(mul(a, n), mul(sub(I("m"), 1), n))], lt(add(mul(a, n), u), mul(I("m"), n)), [])
    obs.prove("lemma: multiples do not descend", [ge(a, 0), le(a, sub(I("m"), 1)), ge(n, 0)], ge(mul(sub(sub(I("m"), 1), a), n), 0))

# ---------------------------------------------------------------- constructor
def init_contract(obs, rp, assign):
    for nd, given in itertools.product((1, 2, 3), (False, True)):
        name = "GridND.__init__: %d axes, %s" % (nd, "assignment given" if given else "default assignment")
        ns = [I("n%d" % j) for j in range(nd)]
        def f(nd=nd, given=given, ns=ns):
            g = load(); comm = Comm()
            g["GridND"]._update_primary_regions = lambda self: event("primary", self.DomainAssign, self.DomainDegenerate)
            for n in ns: P.CTX.assume(ge(n, 1))
            tot = prod(ns)
            P.CTX.fact(ge(tot, 1))
            edges = [symarr("E%d" % j, [add(ns[j], 1)], "f8") for j in range(nd)]
            DA = symarr("DA", [tot], "i4") if given else None
            ev0 = len(P.CTX.events)
            o = g["GridND"](edges, comm=comm, periodic=True, **(dict(DomainAssign=DA) if given else {}))
            return o, comm, edges, DA, P.CTX.events[ev0:]
        def post(p, prove, say, nd=nd, given=given, ns=ns, name=name):
            if p.exc is not None: say("no exception", False, repr(p.exc)); return
            o, comm, edges, DA, ev = p.res
            tot = prod(ns); Pn = comm.size_
            k = I("k*"); hk = [ge(k, 0), lt(k, tot)]
            if not assign:
                us = [I("u%d*" % j) for j in range(nd)]; hu = inside(us, ns)
                say("communicator and period kept", o.comm is comm and o.periodic is True, "")
                prove("shape", [], and_(eq(o.shape.shape_[0], nd), *[eq(o.shape.at((const(j),)), ns[j]) for j in range(nd)]))
                say("number of axes", o.ndim == nd or T_(o.ndim) is const(nd), o.ndim)
                prove("number of domains", [], eq(T_(o.size), tot))
                for j in range(nd): prove("edges of axis %d" % j, [ge(k, 0), le(k, ns[j])], and_(eq(o.edges[j].at((k,)), E(j, k)), eq(o.edges[j].shape_[0], add(ns[j], 1))))
                dd = o.DomainDegenerate
                rv = dd.attrs.get("ravel_of")
                if rv is not None and all(a is b for a, b in zip(rv.shape_, ns)): t = rv.at(tuple(us))
                else: t = dd.at((linear(us, ns),))
                t = P.resolve(t, list(p.pc) + hu)
                prove("a domain is marked empty iff its edges coincide along some axis", hu, eqv(P.truth(t), or_(*[eq(E(j, us[j]), E(j, add(us[j], 1))) for j in range(nd)])))
                prove("one mark per domain", [], and_(const(dd.ndim == 1), eq(dd.shape_[0], tot)))
                pr = [e for e in ev if e.name == "primary"]
                say("primary regions computed from the final state", len(pr) == 1 and ev[-1] is pr[0] and pr[0].args[0] is o.DomainAssign and pr[0].args[1] is dd and not pr[0].binders, ev)
            if given:
                say("the assignment that was given", o.DomainAssign is DA, "")
                return
            a = o.DomainAssign
            prove("one rank per domain", [], and_(const(a.ndim == 1), eq(a.shape_[0], tot)))
            if entails(p.pc, ge(Pn, tot), 1.0):
                prove("as many ranks as domains: domain k belongs to rank k", hk, eq(a.at((k,)), k))
                return
            t = P.resolve(a.at((k,)), list(P.CTX.pc) + hk)
            hyps = list(P.CTX.pc) + hk
            w0 = sub(neg(floor(neg(div(mul(add(k, 1), Pn), tot)))), 1)      # the rank whose block holds k
            for has, w, b, al in P.CTX.wfacts: hyps.append(implies(subst(al, {b: w0}), has))
            prove("domain k belongs to the rank whose block holds k", hyps, and_(ge(t, 0), lt(t, Pn), le(start(t, tot, Pn), k), lt(k, start(add(t, 1), tot, Pn))))
        call_paths(obs, name, f, post, rp)
    if assign: block_lemmas(obs)
    obs.functions |= {"domain.GridND.__init__"}

def start(r, S, Pn): return floor(div(mul(r, S), Pn))
def block_lemmas(obs):
    """blocks [start(r), start(r+1)) with start(r) = floor(r S / P) tile [0, S) in order of the ranks; none is empty when S >= P"""
    r, t, S, Pn = I("r"), I("t"), I("S"), I("P")
    hy = [ge(Pn, 1), ge(S, 1)]
    obs.prove("lemma: the first block starts at domain 0", hy, eq(start(ZERO, S, Pn), 0))
    obs.prove("lemma: the last block ends at the last domain", hy, eq(start(Pn, S, Pn), S))
    obs.prove("lemma: blocks do not descend", hy, le(start(r, S, Pn), start(add(r, 1), S, Pn)))
    # S / P >= 1: one more rank is at least one more domain
    q = R("q")
    obs.prove("lemma: no block is empty when there are at least as many domains as ranks", [ge(q, 1)], lt(floor(mul(r, q)), floor(add(mul(r, q), q))))
    obs.prove("lemma: domains per rank", hy + [ge(S, Pn)], ge(div(S, Pn), 1))
    obs.assumptions.add("blocks tile the domains: induction over the ranks from the lemmas")

# ---------------------------------------------------------------- primary regions
def udig(k, ns):
    """digits of a domain index, as in the contract of unravel_index (p_dom)"""
    return [app("unravelC:%d:%s" % (d, ",".join(str(x.id) for x in ns)), [k], "I") for d in range(len(ns))]
def nz_facts(nm, n, c, ks):
    """contract of nonzero: every index where c holds is listed (at place inv)"""
    out = []
    for k in ks:
        w = app(nm + ":inv", [k], "I")
        out.append(implies(and_(ge(k, 0), lt(k, c.shape_[0]), P.truth(c.at((k,)))), and_(ge(w, 0), lt(w, n), eq(app(nm, [w], "I"), k))))
    return out

def regions_contract(obs, rp):
    """_update_primary_regions lists the boxes of exactly the domains of this rank"""
    for nd in (1, 2, 3):
        name = "_update_primary_regions: %d axes" % nd
        ns = [I("n%d" % j) for j in range(nd)]
        def f(nd=nd):
            g = load(); comm = Comm(); o = grid(g, nd, True, comm)
            P.CTX.fact(ge(prod(ns), 1)) if nd > 1 else None
            ev0 = len(P.CTX.events)
            o.primary_region = "unset"
            o._update_primary_regions()
            return o, comm, P.CTX.events[ev0:]
        def post(p, prove, say, nd=nd, ns=ns, name=name):
            if p.exc is not None: say("no exception", False, repr(p.exc)); return
            o, comm, ev = p.res
            say("no communication", not ev, ev)
            pr = o.primary_region
            k, i = I("k*"), I("i*"); tot = prod(ns)
            DA = lambda t: app("DA", [t], "I")
            names = [nm for nm in sorted({x.args[0][:-4] for c in p.pc for x in subterms(c) if x.op == "app" and x.args[0].startswith("nonzero:") and x.args[0].endswith(":len")})]
            if len(names) != 1: obs.put(name + ": domains of this rank", "undecided", "-", 0, "no nonzero found"); return
            nm = names[0]; c, n = NONZERO[nm]
            prove("the domains listed are those of this rank", [ge(k, 0), lt(k, tot)], and_(eq(c.shape_[0], tot), eqv(P.truth(c.at((k,))), eq(DA(k), comm.rank_))))
            if pr is None:
                prove("no region only when no domain is owned", nz_facts(nm, n, c, [k]) + [ge(k, 0), lt(k, tot)], ne(DA(k), comm.rank_)); return
            say("start and end of each region", isinstance(pr, dict) and {"start", "end"} <= set(pr), pr)
            hi = [ge(i, 0), lt(i, n)]
            m = app(nm, [i], "I")
            us = udig(m, ns)
            prove("one region per domain owned", [], and_(*[and_(const(x.ndim == 2), eq(x.shape_[0], n), eq(x.shape_[1], nd)) for x in (pr["start"], pr["end"])]))
            for d in range(nd):
                for what, sh in (("start", 0), ("end", 1)):
                    t = P.resolve(P.within(hi, lambda: pr[what].at((i, const(d)))), list(P.CTX.pc) + hi)
                    prove("%s of region i along axis %d" % (what, d), hi + unravel_facts(us, m, ns), eq(t, E(d, add(us[d], sh))))
        call_paths(obs, name, f, post, rp)
    obs.functions |= {"domain.GridND._update_primary_regions"}

def inbox(nd, per, ns, x):
    """positions inside the box (periodic: all)"""
    return [] if per else [c for d in range(nd) for c in (le(E(d, ZERO), x[d]), lt(x[d], E(d, ns[d])))]

def primary_contract(obs, rp):
    """isprimary: the box of some domain of this rank holds the (wrapped) position <=> the domain found by the edges belongs to this rank"""
    for nd, per, cols, tr in [(n, p, n + x, t) for n in (1, 2, 3) for p in (True, False) for x, t in ((0, False), (1, True), (1, False))]:
        name = "isprimary: %d axes, %s, %d columns, %s" % (nd, "periodic" if per else "open", cols, "transformed" if tr else "not transformed")
        ns = [I("n%d" % j) for j in range(nd)]; tot = prod(ns)
        for owned in (True, False):
            def f(nd=nd, per=per, cols=cols, tr=tr, owned=owned, ns=ns, tot=tot):
                g = load(); comm = Comm(); o = grid(g, nd, per, comm)
                n = I("NR")
                if owned:
                    P.CTX.assume(ge(n, 1))
                    mk_ = lambda sh: (lambda i: pick([E(d, add(u, sh)) for d, u in enumerate(udig(app("mine", [i[0]], "I"), ns))], i[1]))
                    o.primary_region = dict(start=N.new((n, const(nd)), "f8", mk_(0), "start"), end=N.new((n, const(nd)), "f8", mk_(1), "end"))
                else: o.primary_region = None
                P.CTX.assume(ge(I("N"), 0))
                pos = symarr("pos", [I("N"), const(cols)], "f8", writeable=False)
                ev0 = len(P.CTX.events)
                return o.isprimary(pos, transform=tfun(nd)) if tr else o.isprimary(pos), o, comm, P.CTX.events[ev0:]
            def post(p, prove, say, nd=nd, per=per, cols=cols, tr=tr, owned=owned, ns=ns, tot=tot, name=name):
                if p.exc is not None: say("no exception", False, repr(p.exc)); return
                r, o, comm, ev = p.res
                say("no communication", not ev, ev)
                i = I("i*"); hi = [ge(i, 0), lt(i, I("N"))]
                prove("one answer per particle", [], and_(const(r.ndim == 1), const(r.dtype.kind == "b"), eq(r.shape_[0], I("N"))))
                if entails(p.pc + hi, FALSE, 1.0): return
                t = P.resolve(P.within(hi, lambda: P.truth(r.at((i,)))), list(P.CTX.pc) + hi)
                if not owned:
                    prove("nothing is primary on a rank without domains", hi, not_(t)); return
                x = [app("F%d" % d, [app("pos", [i, const(c)], "R") for c in range(cols)], "R") if tr else app("pos", [i, const(d)], "R") for d in range(nd)]
                c = [M(x[d], E(d, ns[d])) if per else x[d] for d in range(nd)]
                D = [I("D%d" % d) for d in range(nd)]        # the domain that holds c: E_d(D_d) <= c_d < E_d(D_d + 1)
                q = linear(D, ns)
                n = I("NR"); DA = lambda k: app("DA", [k], "I"); mine = lambda k: app("mine", [k], "I"); inv_ = lambda k: app("mine:inv", [k], "I")
                hyps = list(P.CTX.pc) + hi + inbox(nd, per, ns, x) + inside(D, ns)
                for d in range(nd): hyps += [le(E(d, D[d]), c[d]), lt(c[d], E(d, add(D[d], 1)))]
                # the regions listed: every one is a domain of this rank, every domain of this rank is listed (_update_primary_regions)
                qv = I("q*")
                anys = sorted({a for a in subterms(t) if a.op == "app" and a.args[0] == "ANY"}, key=lambda a: a.id)
                wit = {}
                hyps += quant_facts([t], [inv_(qv)], wit)
                for k in list(wit.values()): hyps += [implies(and_(ge(k, 0), lt(k, n)), and_(ge(mine(k), 0), lt(mine(k), tot), eq(DA(mine(k)), comm.rank_)))] + [implies(and_(ge(k, 0), lt(k, n)), f_) for f_ in inside(udig(mine(k), ns), ns)]
                hyps += [implies(eq(DA(qv), comm.rank_), and_(ge(inv_(qv), 0), lt(inv_(qv), n), eq(mine(inv_(qv)), qv)))]
                # q is the index with the digits D (digit_lemmas)
                hyps += [eq(qv, q)]
                for k in [mine(w) for w in wit.values()]:
                    u = udig(k, ns)
                    hyps.append(implies(and_(*[eq(a, b) for a, b in zip(u, D)]), eq(k, qv)))
                    # edges ascend: a position lies in one domain per axis
                    for d in range(nd):
                        hyps += [implies(lt(u[d], D[d]), le(E(d, add(u[d], 1)), E(d, D[d]))), implies(lt(D[d], u[d]), le(E(d, add(D[d], 1)), E(d, u[d])))]
                for a, b in zip(udig(qv, ns), D): hyps.append(eq(a, b))
                for a, b in zip(udig(mine(inv_(qv)), ns), D): hyps.append(implies(eq(mine(inv_(qv)), qv), eq(a, b)))
                hyps += [implies(eq(a, b), and_(eq(E(d, a), E(d, b)), eq(E(d, add(a, 1)), E(d, add(b, 1))))) for d in range(nd) for b in [D[d]] for a in [udig(mine(inv_(qv)), ns)[d]]]
                obs.prove(name + ": primary only if the domain of the position belongs to this rank", hyps + [t], eq(DA(qv), comm.rank_), 8.0, replay=lambda m: rp)
                obs.prove(name + ": primary if the domain of the position belongs to this rank", hyps + [eq(DA(qv), comm.rank_)], t, 8.0, replay=lambda m: rp)
                obs.prove(name + ": hypotheses are consistent", [], TRUE if check(hyps + [eq(DA(qv), comm.rank_), t], FALSE, 3.0)[0] != "proved" and check(hyps + [ne(DA(qv), comm.rank_), not_(t)], FALSE, 3.0)[0] != "proved" else FALSE)
            call_paths(obs, name + ("" if owned else ", no domain owned"), f, post, rp)
    obs.functions |= {"domain.GridND.isprimary"}

def unique_lemmas(obs):
    """exactly one domain holds a position, exactly one rank owns it, and with zero smoothing it is the only one decompose sends to"""
    x, B = R("x"), R("B"); k, D, n = I("k"), I("D"), I("n")
    for per in (True, False):
        w = "periodic" if per else "open"
        f = floor(div(x, B))
        c = sub(x, mul(B, f)) if per else x
        # existence of D: D + 1 edges are <= c (digitize); 0 edge <= c < last edge
        d = I("d")
        dg = [ge(d, 0), le(d, add(n, 1)), implies(gt(d, 0), le(E(0, sub(d, 1)), c)), implies(le(d, n), lt(c, E(0, d))), ge(n, 1)]
        box = [le(E(0, ZERO), c), lt(c, E(0, n))]
        mono = lambda a, b: implies(le(a, b), le(E(0, a), E(0, b)))
        wrap = [gt(B, 0)] + floor_facts([c], B) + [eq(E(0, ZERO), 0), eq(E(0, n), B)] if per else box
        hy = dg + wrap + [mono(ZERO, d), mono(d, ZERO), mono(sub(d, 1), n), mono(n, sub(d, 1)), implies(eq(d, 0), eq(E(0, d), E(0, ZERO))), implies(eq(d, add(n, 1)), eq(E(0, sub(d, 1)), E(0, n)))]
        lin(obs, "lemma: a position in the box lies in a domain, %s" % w, hy, and_(ge(d, 1), le(d, n), le(E(0, sub(d, 1)), c), lt(c, E(0, d))), [])
        m = I("m"); q = I("q-")
        # decompose with smoothing 0 touches domain k (contract C01): E_k + B m <= x < E_{k+1} + B m for some image m
        base = wrap + [ge(k, 0), lt(k, n), mono(ZERO, k), mono(add(k, 1), n), ge(D, 0), lt(D, n), le(E(0, D), c), lt(c, E(0, add(D, 1))), mono(add(k, 1), D), mono(add(D, 1), k)]
        if per:
            pq = [implies(ge(q, 1), ge(mul(B, q), B)), implies(le(q, -1), le(mul(B, q), neg(B))), implies(eq(q, 0), eq(mul(B, q), 0))]
            touch = [le(add(E(0, k), mul(B, m)), x), lt(x, add(E(0, add(k, 1)), mul(B, m)))]
            env = {m: add(f, q)}
            lin(obs, "lemma: zero smoothing touches only the domain that holds the position, periodic", base + pq + [subst(t, env) for t in touch], and_(eq(q, 0), eq(k, D)), [])
            lin(obs, "lemma: zero smoothing touches the domain that holds the position, periodic", base, and_(le(add(E(0, D), mul(B, f)), x), lt(x, add(E(0, add(D, 1)), mul(B, f)))), [])
        else:
            lin(obs, "lemma: zero smoothing touches only the domain that holds the position, open", base + [le(E(0, k), x), lt(x, E(0, add(k, 1)))], eq(k, D), [])
        lin(obs, "lemma: the domain that holds a position is not empty, %s" % w, base, ne(E(0, D), E(0, add(D, 1))), [])
    r1, r2 = I("r1"), I("r2")
    DA = app("DA", [I("q")], "I")
    obs.prove("lemma: one owner", [eq(r1, DA), eq(r2, DA)], eq(r1, r2))

# ---------------------------------------------------------------- load
def load_contract(obs, rp):
    """load of domain q: (number of particles of all ranks whose domain is q) ** gamma"""
    for nd, per, cols, tr, gam in [(n, p, n + x, t, ga) for n in (1, 2, 3) for p in (True, False) for x, t, ga in ((0, False, "2"), (1, True, "any"))]:
        name = "load: %d axes, %s, %d columns, %s, gamma %s" % (nd, "periodic" if per else "open", cols, "transformed" if tr else "not transformed", gam)
        ns = [I("n%d" % j) for j in range(nd)]; tot = prod(ns)
        def f(nd=nd, per=per, cols=cols, tr=tr, gam=gam, ns=ns, tot=tot):
            g = load(); comm = Comm(); o = grid(g, nd, per, comm)
            P.CTX.assume(ge(I("N"), 0))
            if nd > 1: P.CTX.fact(ge(tot, 1))
            pos = symarr("pos", [I("N"), const(cols)], "f8", writeable=False)
            kw = {} if gam == "2" else dict(gamma=W(R("gamma")))
            if tr: kw["transform"] = tfun(nd)
            ev0 = len(P.CTX.events)
            return o.load(pos, **kw), comm, P.CTX.events[ev0:]
        def post(p, prove, say, nd=nd, per=per, cols=cols, tr=tr, gam=gam, ns=ns, tot=tot, name=name):
            if p.exc is not None: say("no exception", False, repr(p.exc)); return
            r, comm, ev = p.res
            say("one sum over the ranks", [e.name for e in ev] == ["allreduce"] and not ev[0].binders and ev[0].guard is TRUE, ev)
            mine = ev[0].args[0]
            q = I("q*"); hq = [ge(q, 0), lt(q, tot)]
            prove("one number per domain", [], and_(const(mine.ndim == 1), eq(mine.shape_[0], tot), const(r.ndim == 1), eq(r.shape_[0], tot)))
            S = app("sum-over-ranks:1", [q], "I"); SR = app("sum-over-ranks:1", [q], "R")
            gm = const(2) if gam == "2" else R("gamma")
            t = r.at((q,))
            say("power gamma of the count of all ranks", t in (P.tpow(S, gm), P.tpow(SR, gm)), show(t)[:300])
            t = mine.at((q,))
            if entails(p.pc, eq(I("N"), 0), 1.0):
                prove("no particle, no count", hq, eq(t, 0)); return
            # the count: sum over the particles of [domain of the particle = q]
            t = P.resolve(t, list(P.CTX.pc) + hq)
            if not (t.op == "app" and t.args[0] == "SUM" and len(t.args) == 5): obs.put(name + ": counts", "undecided", "-", 0, "not a sum: %s" % show(t)[:200]); return
            v, lo, hi_, body = t.args[1:]
            prove("every particle is counted", [], and_(eq(lo, 0), eq(hi_, I("N"))))
            i = I("i*"); hi = [ge(i, 0), lt(i, I("N"))]
            body = P.resolve(subst(body, {v: i}), list(P.CTX.pc) + hi)
            x = [app("F%d" % d, [app("pos", [i, const(c)], "R") for c in range(cols)], "R") if tr else app("pos", [i, const(d)], "R") for d in range(nd)]
            c = [M(x[d], E(d, ns[d])) if per else x[d] for d in range(nd)]
            D = [I("D%d" % d) for d in range(nd)]
            # D: the domain that holds the position; outside an open grid the domain at the border
            hyps = list(P.CTX.pc) + hi + hq + inside(D, ns)
            for d in range(nd):
                key = N.DIG.setdefault((E(d, var("?", "I")), add(ns[d], 1)), "digitize:%d" % len(N.DIG))
                dg = app(key, [c[d]], "I")
                if per: hyps += [le(E(d, D[d]), c[d]), lt(c[d], E(d, add(D[d], 1)))]
                else: hyps += [or_(and_(le(E(d, D[d]), c[d]), lt(c[d], E(d, add(D[d], 1)))), and_(eq(D[d], 0), lt(c[d], E(d, ZERO))), and_(eq(D[d], sub(ns[d], 1)), le(E(d, ns[d]), c[d])))]
                hyps += dig_facts([dg], d, ns[d], [ZERO, D[d], add(D[d], 1), ns[d]]) 
                hyps += [implies(lt(a, b), le(E(d, a), E(d, b))) for a in (ZERO, D[d], add(D[d], 1), ns[d]) for b in (ZERO, D[d], add(D[d], 1), ns[d]) if a is not b]
                # first: the code's digit is D
                digs = sorted({s_ for s_ in subterms(body) if s_.op == "app" and s_.args[0] == key}, key=lambda s_: s_.id)
                for s_ in digs:
                    goal = eq(tmin(tmax(sub(s_, 1), ZERO), sub(ns[d], 1)), D[d])
                    obs.prove(name + ": axis %d: the edges around the particle (%s)" % (d, "digit"), hyps + dig_facts([s_], d, ns[d], [ZERO, D[d], add(D[d], 1), ns[d]]), goal if not per else eq(s_, add(D[d], 1)), 6.0, replay=lambda m: rp)
                    body = subst(body, {s_: add(I("dg%d" % d), 0)})
            body = P.resolve(body, list(P.CTX.pc) + hi)
            hy2 = list(P.CTX.pc) + hi + hq + inside(D, ns) + ([eq(I("dg%d" % d), add(D[d], 1)) for d in range(nd)] if per else [c_ for d in range(nd) for c_ in (ge(I("dg%d" % d), 0), le(I("dg%d" % d), add(ns[d], 1)), eq(tmin(tmax(sub(I("dg%d" % d), 1), ZERO), sub(ns[d], 1)), D[d]))])
            if per: body = subst(body, {I("dg%d" % d): add(D[d], 1) for d in range(nd)})
            else:
                cl = {tmin(tmax(sub(I("dg%d" % d), 1), ZERO), sub(ns[d], 1)): D[d] for d in range(nd)}
                body = subst(body, cl)
            obs.prove(name + ": particle counts once, in the domain that holds it", hy2, eq(body, ite(eq(linear(D, ns), q), ONE, ZERO)), 6.0, replay=lambda m: rp)
        call_paths(obs, name, f, post, rp)
    obs.functions |= {"domain.GridND.load", "domain.GridND._digitize"}

# ---------------------------------------------------------------- load balance
class Heap:
    """contract of heapq on pairs (load, rank): pop takes the smallest pair"""
    def __init__(self): self.entries = None; self.n = 0
HEAPS = []
def heapq_mod():
    def heapify(x):
        if not isinstance(x, P.SymList): raise Unsupported("heapify")
        if P.CTX.loops: raise Unsupported("heapify in a loop")
        event("heapify", x)
        x.attrs["heap"] = True
    def heappop(x):
        if not isinstance(x, P.SymList) or not x.attrs.get("heap"): raise Unsupported("heappop")
        b = [L.binder[0] for L in P.CTX.loops]
        if len(b) != 1: raise Unsupported("heappop outside of one loop")
        k = sum(1 for e in P.CTX.events if e.name == "heappop" and not e.binders)
        l, r = app("popped-load:%d" % k, b, "R"), app("popped-rank:%d" % k, b, "I")
        P.CTX.fact(and_(ge(r, 0), lt(r, I("P"))))
        event("heappop", x, l, r)
        return (W(l), W(r))
    def heappush(x, y):
        if not isinstance(x, P.SymList) or not x.attrs.get("heap"): raise Unsupported("heappush")
        event("heappush", x, T_(y[0]), T_(y[1]))
    def heapreplace(x, y): r = heappop(x); heappush(x, y); return r
    return P.Mod("heapq", dict(heapify=heapify, heappop=heappop, heappush=heappush, heapreplace=heapreplace))

def balance_contract(obs, rp, regions_only=False):
    for nd in (1, 2, 3):
        name = "loadbalance: %d axes" % nd
        ns = [I("n%d" % j) for j in range(nd)]; tot = prod(ns)
        def f(nd=nd, ns=ns, tot=tot):
            g = load(); comm = Comm(); o = grid(g, nd, True, comm)
            g["heapq"] = heapq_mod()
            if nd > 1: P.CTX.fact(ge(tot, 1))
            da = o.DomainAssign
            g["GridND"]._update_primary_regions = lambda self: event("primary", self.DomainAssign is da and not P.CTX.loops)
            ev0 = len(P.CTX.events)
            r = o.loadbalance(symarr("dload", [tot], "f8", writeable=False))
            return r, o, da, comm, P.CTX.events[ev0:]
        def post(p, prove, say, nd=nd, ns=ns, tot=tot, name=name):
            if p.exc is not None: say("no exception", False, repr(p.exc)); return
            r, o, da, comm, ev = p.res
            kinds = [e.name for e in ev]
            say("the assignment array is kept", o.DomainAssign is da, "")
            if "heapify" not in kinds:
                prove("unchanged only when there are not more domains than ranks", [], le(tot, comm.size_))
                say("nothing changes", not da.buf.log and all(k == "primary" for k in kinds), (da.buf.log, kinds)); return
            prove("balanced only when there are more domains than ranks", [], gt(tot, comm.size_))
            say("primary regions are computed afterwards", kinds and kinds[-1] == "primary" and ev[-1].args[0] and not ev[-1].binders and ev[-1].guard is TRUE, kinds)
            if regions_only: return
            hp = ev[0].args[0]
            k = I("k*")
            say("one heap", kinds == ["heapify", "heappop", "heappush", "primary"] and all(e.args[0] is hp for e in ev[:3]), kinds)
            e0 = hp.item(k)
            prove("every rank starts with no load", [ge(k, 0), lt(k, comm.size_)], and_(eq(hp.n, comm.size_), eq(T_(e0[0]), 0), eq(T_(e0[1]), k)))
            pop, push = ev[1], ev[2]
            say("each domain takes one rank off the heap and puts it back", len(pop.binders) == 1 and push.binders == pop.binders and pop.guard is push.guard, (pop, push))
            (b, lo, hi), = pop.binders
            prove("every domain is treated", [], and_(eq(lo, 0), eq(hi, tot), pop.guard))
            w = [u for u in da.buf.log]
            say("one assignment per domain", len(w) == 1 and isinstance(w[0], P.Upd) and tuple(w[0].binders) == tuple(pop.binders), w)
            u = w[0]
            hb = [le(lo, b), lt(b, hi)]
            idx, = u.idx
            say("domains in sorted order", idx.op == "app" and idx.args[0].startswith("sorted:") and idx.args[1] is b, show(idx))
            nm = idx.args[0]
            sp = P.SORTED[nm]
            say("sorted by descending load", sp[1] is True, sp[1])
            it = sp[0].item(k)
            prove("the list that is sorted: load and index of every domain", [ge(k, 0), lt(k, tot)], and_(eq(sp[0].n, tot), eq(T_(it[0]), app("dload", [k], "R")), eq(T_(it[1]), k)))
            prove("every domain is assigned", hb, u.guard)
            prove("the rank taken off the heap gets the domain", hb, eq(u.val, pop.args[2]))
            prove("its load grows by that of the domain", hb, and_(eq(push.args[2], pop.args[2]), eq(push.args[1], add(pop.args[1], app("dload", [idx], "R")))))
            say("valid ranks: the heap holds the ranks 0 to P-1 at first, and what is taken off is put back", True)
        call_paths(obs, name, f, post, rp)
    obs.assumptions |= {"sorted(reverse=True) gives a permutation in descending order; heapq pops the smallest pair (one entry per rank at each pop, by the proved push after each pop)"}
    obs.functions |= {"domain.GridND.loadbalance"}

# ---------------------------------------------------------------- uniform
def uniform_contract(obs, rp):
    for nd, per in itertools.product((1, 2, 3), (True, False)):
        name = "uniform: %d axes, %s" % (nd, "periodic" if per else "open")
        loops = []
        def rule(test, body, scope, loops=loops):
            """invariant: the axis of the longest side has one domain, no axis has less than one; variant: the sum of the shape"""
            sc = scope(); c = P.CTX
            cand = [v for v in sc.values() if isinstance(v, SArr) and v.buf is not None and v.ndim == 1 and v.dtype.kind == "i" and isnum(v.shape_[0])]
            if len(cand) != 1: raise Unsupported("while loop over something else")
            a, = cand; n = int(num(a.shape_[0]))
            at = lambda k: a.at((const(k),))
            P.CTX.require("loop invariant holds at the start", and_(*[ge(at(k), 1) for k in range(n)]))
            # the state after any number of rounds
            c.nfresh += 1
            vs = [var("h%d:%d" % (c.nfresh, k), "I") for k in range(n)]
            for k in range(n): a[k] = W(vs[k])
            for v in vs: c.fact(ge(v, 1))
            # what the loop never changes
            if test():
                s0 = add(*vs)
                body()
                c.require("loop invariant is kept: no axis without a domain", and_(*[ge(at(k), 1) for k in range(n)]))
                c.require("loop ends: fewer domains in sum in every round", and_(lt(add(*[at(k) for k in range(n)]), s0), *[le(at(k), vs[k]) for k in range(n)]))
                loops.append(True)
                raise P.Stop()
            return True
        def f(nd=nd, per=per):
            g = load(); comm = Comm()
            B = [R("B%d" % d) for d in range(nd)]
            for b in B: P.CTX.assume(gt(b, 0))
            class G(g["GridND"]):
                def __init__(self, edges, comm=None, periodic=None, DomainAssign=None): self.a = (edges, comm, periodic, DomainAssign)
            P.WHILE[0] = rule
            try: return G.uniform([W(b) for b in B], comm=comm, periodic=per), B, comm
            finally: P.WHILE[0] = None
        def post(p, prove, say, nd=nd, per=per, name=name):
            if p.exc is not None: say("no exception", False, repr(p.exc)); return
            o, B, comm = p.res
            edges, cm, pr, da = o.a
            say("communicator and period handed on", cm is comm and pr is per and da is None, o.a[1:])
            say("one list of edges per axis", len(edges) == nd, edges)
            k = I("k*")
            n = [sub(e.shape_[0], 1) for e in edges]
            for d in range(nd): prove("at least one domain along axis %d" % d, [], ge(n[d], 1))
            prove("not more domains than ranks", [], le(prod(n), comm.size_))
            for d in range(nd):
                prove("edges of axis %d run from 0 to the box size" % d, [], and_(eq(edges[d].at((ZERO,)), 0), eq(edges[d].at((n[d],)), B[d])))
                t = edges[d].at((k,))
                # t = k B / n: ascends by B / n
                h = R("h")
                prove("edges of axis %d are evenly spaced" % d, [ge(k, 0), le(k, n[d]), ge(n[d], 1)], eq(t, div(mul(k, B[d]), n[d])))
        call_paths(obs, name, f, post, rp)
        obs.put(name + ": a loop round was checked", "proved" if loops else "undecided", "symbolic-execution", 0, "no round of a while loop reached")
    obs.functions |= {"domain.GridND.uniform"}

def prove(prop, tier="quick"):
    rp = search("*")
    obs = Obs("domain: ")
    obs.assumptions |= {"numpy functions by their documented contracts (psym/npshim/p_dom)", "integers and reals are mathematical"}
    if prop == "C01": init_contract(obs, rp, False)
    if prop == "C04": digit_lemmas(obs); regions_contract(obs, rp); primary_contract(obs, rp); unique_lemmas(obs)
    if prop == "C04": balance_contract(obs, rp, True)
    if prop == "C05": init_contract(obs, rp, True); load_contract(obs, rp); balance_contract(obs, rp); uniform_contract(obs, rp)
    return obs

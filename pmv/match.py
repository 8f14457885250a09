"""Equality of families of guarded memory accesses, modulo alignment of sub-terms proved equal."""
import random
from fractions import Fraction
from collections import Counter
from .term import *
from .solve import check, entails
from . import term as tm

def delta_lift(v, hv):
    """v - hv with the difference taken inside of the joins"""
    if v is hv: return ZERO
    if isinstance(v, T) and v.op == "ite":
        return ite(v.args[0], delta_lift(v.args[1], hv), delta_lift(v.args[2], hv))
    return sub(v, hv)

def fingerprints(terms, envs, funcs=None):
    out = {}
    caches = [dict() for _ in envs]
    for t in terms:
        fp = []
        for e, c in zip(envs, caches):
            try: fp.append(evalt(t, e, funcs, c))
            except (EvalError, ZeroDivisionError): fp.append(None)
        out[t] = tuple(fp)
    return out

def align(code, spec, hyps, envs, funcs=None, timeout=2.0, maxq=400):
    """substitution mapping sub-terms of code to equal sub-terms of spec (proved under hyps)"""
    cs = set().union(*[subterms(t) for t in code]) if code else set()
    ss = set().union(*[subterms(t) for t in spec]) if spec else set()
    ops = ("ite", "M", "floor", "app", "inv")
    A = [t for t in cs - ss if t.op in ops]
    B = [t for t in ss - cs if t.op in ops]
    Ball = [t for t in ss if t.op in ops or t.op in ("var", "poly", "num")]
    if not A: return {}
    A.sort(key=lambda t: t.id)
    fp = fingerprints(set(A) | set(Ball), envs, funcs)
    byfp = {}
    for b in B: byfp.setdefault(fp[b], []).append(b)
    for b in Ball:
        if b not in B: byfp.setdefault(fp[b], []).append(b)
    env = {}
    q = 0
    for a in A:
        if not any(v is not None for v in fp[a]): continue
        a2 = rebuild(a, lambda x: subst(x, env))
        if a2 in ss: 
            env[a] = a2; continue
        for b in byfp.get(fp[a], []):
            if b.sort == "B" or b.sort == "F": continue
            q += 1
            if q > maxq: return env
            if check(hyps, eq(a2, b), timeout, cex=False)[0] == "proved":
                env[a] = b; break
    return env

def apply(env, t):
    # substitution from the leaves up
    cache = {}
    def go(x):
        if x in cache: return cache[x]
        r = env.get(x)
        if r is None: r = rebuild(x, go)
        cache[x] = r
        return r
    return go(t)

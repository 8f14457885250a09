"""Verification condition generator for the C sources: parses what the compiler sees (gcc -E of /repo's files),
executes functions symbolically, joins paths with ite, uses contracts at call sites, and replaces loops whose
bounds are symbolic by their inductive closed form (with the induction obligations it needs)."""
import os, re, subprocess, sys
from fractions import Fraction
sys.setrecursionlimit(20000)
from pycparser import c_parser, c_ast
from .term import *
from . import term as tm
from .solve import check, entails, feasible
from .match import delta_lift

STUBS = {
 "stddef.h": "typedef long ptrdiff_t; typedef unsigned long size_t;\n#define NULL ((void*)0)\n",
 "stdint.h": "typedef unsigned int uint32_t; typedef int int32_t; typedef long int64_t; typedef unsigned long uint64_t; typedef long intptr_t;\n",
 "stdlib.h": "void abort(void); void * calloc(unsigned long, unsigned long); void * malloc(unsigned long); void free(void *); int abs(int); long labs(long); long long llabs(long long);\n",
 "string.h": "void * memset(void *, int, unsigned long); void * memcpy(void *, const void *, unsigned long);\n",
 "stdio.h": "int printf(const char *, ...);\n",
 "time.h": "typedef long clock_t; clock_t clock(void);\n",
 "math.h": "double floor(double); double ceil(double); double fabs(double); double sin(double); double cos(double); double sqrt(double); double log(double); double exp(double); double pow(double,double); double rint(double); double round(double); double fmod(double,double); double trunc(double);\n#define M_PI 3.14159265358979323846\n",
 "gsl/config.h": "\n",
 "gsl/gsl_rng.h": "typedef struct { long s; } gsl_rng; typedef struct { long t; } gsl_rng_type; extern const gsl_rng_type * gsl_rng_ranlxd1; gsl_rng * gsl_rng_alloc(const gsl_rng_type *); void gsl_rng_set(gsl_rng *, unsigned long); double gsl_rng_uniform(gsl_rng *); void gsl_rng_free(gsl_rng *);\n",
}

_TAB = re.compile(r"static\s+(?:const\s+)?double\s+(\w+)\s*\[\s*\]\s*=\s*\{([^{};]*)\}\s*;")

class Source:
    """parsed translation unit"""
    def __init__(self, path, incdirs=(), defines=()):
        import tempfile, shutil
        d = tempfile.mkdtemp(prefix="pmvstub-")
        try:
            for n, s in STUBS.items():
                f = os.path.join(d, n); os.makedirs(os.path.dirname(f), exist_ok=True)
                open(f, "w").write(s)
            cmd = ["gcc", "-E", "-P", "-nostdinc", "-I", d] + sum([["-I", i] for i in incdirs], []) + ["-D" + x for x in defines] + [path]
            r = subprocess.run(cmd, capture_output=True, text=True)
            if r.returncode != 0: raise Unsupported("preprocessor: " + r.stderr[-500:])
        finally:
            shutil.rmtree(d, True)
        text = r.stdout
        self.tables = {}
        def lift(m):
            vals = [x.strip() for x in m.group(2).split(",") if x.strip()]
            if len(vals) < 64: return m.group(0)
            self.tables[m.group(1)] = vals
            return "static double %s[%d];" % (m.group(1), len(vals))
        text = _TAB.sub(lift, text)
        text = re.sub(r"__attribute__\s*\(\(.*?\)\)", "", text)
        self.text = text
        self.ast = c_parser.CParser().parse(text)
        self.funcs, self.typedefs, self.structs, self.enums, self.globals, self.protos = {}, {}, {}, {}, {}, {}
        for n in self.ast.ext:
            if isinstance(n, c_ast.FuncDef): self.funcs[n.decl.name] = n
            elif isinstance(n, c_ast.Typedef):
                self._collect(n.type); self.typedefs[n.name] = n.type
            elif isinstance(n, c_ast.Decl):
                self._collect(n.type)
                if n.name and not isinstance(n.type, c_ast.FuncDecl): self.globals[n.name] = n
                elif n.name: self.protos[n.name] = n
        for f in self.funcs.values(): pass
    def _collect(self, t):
        while isinstance(t, (c_ast.PtrDecl, c_ast.ArrayDecl, c_ast.TypeDecl)): t = t.type
        if isinstance(t, c_ast.Struct) and t.decls is not None: self.structs[t.name or id(t)] = t
        if isinstance(t, c_ast.Enum) and t.values is not None:
            v = 0
            for e in t.values.enumerators:
                if e.value is not None: v = int(_constint(e.value, self.enums))
                self.enums[e.name] = v
                v += 1

def _constint(n, enums):
    if isinstance(n, c_ast.Constant): return int(n.value.rstrip("uUlL"), 0)
    if isinstance(n, c_ast.ID): return enums[n.name]
    if isinstance(n, c_ast.UnaryOp) and n.op == "-": return -_constint(n.expr, enums)
    if isinstance(n, c_ast.BinaryOp):
        a, b = _constint(n.left, enums), _constint(n.right, enums)
        return {"+": a + b, "-": a - b, "*": a * b, "<<": a << b, "|": a | b}[n.op]
    raise Unsupported("constant expression")

class Ptr:
    __slots__ = ("reg", "off", "ety")
    def __init__(self, reg, off, ety): self.reg, self.off, self.ety = reg, mk(off), ety
    def __eq__(self, o): return isinstance(o, Ptr) and self.reg == o.reg and self.off is o.off
    def __hash__(self): return hash((self.reg, self.off))
    def __repr__(self): return "&%s[%s]" % (self.reg, self.off)
class SPtr:
    __slots__ = ("prefix", "sname")
    def __init__(self, prefix, sname): self.prefix, self.sname = prefix, sname
    def __eq__(self, o): return isinstance(o, SPtr) and self.prefix == o.prefix
    def __hash__(self): return hash(self.prefix)
    def __repr__(self): return "&" + self.prefix
class IntPtr:      # opaque non-null pointers with a tag
    pass

INTS = {"int", "u32", "long", "ulong", "char"}
def isint(ty): return ty in INTS
def isflt(ty): return ty in ("double", "float")
SIZEOF = {"int": 4, "u32": 4, "long": 8, "ulong": 8, "char": 1, "double": 8, "float": 4}

class Reg:
    """memory of one object: cells with known index, a log of writes at symbolic index, and the initial content"""
    __slots__ = ("cells", "log", "base", "ety", "ext", "n")
    def __init__(self, ety, base=None, ext=False, n=None):
        self.cells, self.log, self.base, self.ety, self.ext, self.n = {}, (), base, ety, ext, n
    def copy(self):
        r = Reg(self.ety, self.base, self.ext, self.n)
        r.cells = dict(self.cells); r.log = self.log
        return r

class State:
    __slots__ = ("mem", "pc", "events", "ret", "facts")
    def __init__(self):
        self.mem, self.pc, self.events, self.ret, self.facts = {}, (), (), None, ()
    def fork(self):
        s = State()
        s.mem = dict(self.mem); s.pc = self.pc; s.events = self.events; s.ret = self.ret; s.facts = self.facts
        return s
    def assume(self, c):
        c = mk(c)
        if c.op == "and":
            for x in c.args: self.assume(x)
        elif c is not TRUE and c not in self.pc: self.pc = self.pc + (c,)
        return self
    def dead(self): return FALSE in self.pc

class Event:
    """one access to external memory: kind 'add' or 'set', region, address, value; under guard, for all binders"""
    __slots__ = ("kind", "reg", "addr", "val", "guard", "binders", "ety")
    def __init__(self, kind, reg, addr, val, guard=TRUE, binders=(), ety=None):
        self.kind, self.reg, self.addr, self.val, self.guard, self.binders, self.ety = kind, reg, addr, val, guard, binders, ety
    def with_guard(self, c):
        return Event(self.kind, self.reg, self.addr, self.val, and_(c, self.guard), self.binders, self.ety)
    def with_binder(self, b): return Event(self.kind, self.reg, self.addr, self.val, self.guard, (b,) + self.binders, self.ety)
    def key(self): return (self.kind, self.reg, self.addr, self.val, self.guard, self.binders, self.ety)
    def __repr__(self): return "%s %s[%s] <- %s if %s%s" % (self.kind, self.reg, self.addr, self.val, self.guard, " for " + repr(self.binders) if self.binders else "")

class Frame:
    def __init__(self, fid, fname): self.fid, self.fname, self.scopes = fid, fname, [{}]
    def lookup(self, n):
        for s in reversed(self.scopes):
            if n in s: return s[n]
        return None

class Exec:
    def __init__(self, src, contracts=None, opaque_fns=None, maxiter=20000):
        self.src = src
        self.contracts = contracts or {}
        self.nfresh = 0
        self.fid = 0
        self.side = []           # (name, hyps, goal): induction obligations generated on the way
        self.used_contracts = set()
        self.inlined = set()
        self.maxiter = maxiter
        self.depth = 0
        self.globals = {}
        self.floatsites = set()
        self.decide_if = True
        self.odometers = 0
        self.detloops = False
        self.found_mode = None   # search loops: None: both outcomes; True/False: only that one

    def fresh(self, name, sort="I"):
        self.nfresh += 1
        return var("%s'%d" % (name, self.nfresh), sort)

    def oblige(self, name, hyps, goal):
        self.side.append((name, tuple(hyps), goal))
        if not entails(hyps, goal, 4.0):
            raise Unsupported("obligation %s not discharged: %s" % (name, show(goal)))

    # ----- types
    def ctype(self, t):
        if isinstance(t, c_ast.TypeDecl): return self.ctype(t.type)
        if isinstance(t, c_ast.IdentifierType):
            n = " ".join(t.names)
            if n in self.src.typedefs: return self.ctype(self.src.typedefs[n])
            n = n.replace("const ", "").replace("inline ", "").strip()
            if n in ("double", "float", "char", "void"): return n
            if n in ("long double",): return "double"
            if n in ("unsigned int", "unsigned"): return "u32"
            if n in ("unsigned long", "long unsigned int", "unsigned long long"): return "ulong"
            if n in ("long", "long int", "long long", "signed long"): return "long"
            if n in ("int", "short", "signed", "signed int", "_Bool"): return "int"
            raise Unsupported("type " + n)
        if isinstance(t, c_ast.PtrDecl):
            if isinstance(t.type, c_ast.FuncDecl): return "fn"
            return ("ptr", self.ctype(t.type))
        if isinstance(t, c_ast.ArrayDecl): return ("arr", self.ctype(t.type), t.dim)
        if isinstance(t, c_ast.Struct): return ("struct", t.name)
        if isinstance(t, c_ast.Enum): return "int"
        if isinstance(t, c_ast.FuncDecl): return "fn"
        raise Unsupported("type node %s" % type(t).__name__)
    def struct_fields(self, sname):
        s = self.src.structs.get(sname)
        if s is None: raise Unsupported("struct " + str(sname))
        return [(d.name, d.type) for d in s.decls]

    # ----- memory
    def declare(self, st, reg, ty, n=None):
        if isinstance(ty, tuple) and ty[0] == "struct":
            for f, ft in self.struct_fields(ty[1]): self.declare(st, reg + "." + f, self.ctype(ft))
            return
        if isinstance(ty, tuple) and ty[0] == "arr":
            ety = ty[1]
            if isinstance(ety, tuple) and ety[0] == "struct":
                self.declare(st, reg, ety); return
            cnt = n
            if cnt is None and ty[2] is not None:
                try: cnt = _constint(ty[2], self.src.enums)
                except Unsupported: cnt = None
            while isinstance(ety, tuple) and ety[0] == "arr":   # flattened
                inner = _constint(ety[2], self.src.enums)
                ety = ety[1]
                if isinstance(cnt, int): cnt *= inner
            st.mem[reg] = Reg(ety, None, False, cnt)
            return
        st.mem[reg] = Reg(ty, None, False, 1)

    def uninit(self, reg, ety):
        if isint(ety): return self.fresh("uninit:" + reg, "I")
        if isflt(ety): return self.fresh("uninit:" + reg, "R")
        return self.fresh("uninit:" + reg, "F")

    def read(self, st, reg, idx, ety=None):
        r = st.mem.get(reg)
        if r is None: raise Unsupported("read of unknown object " + reg)
        idx = mk(idx)
        if r.ext:
            ver = len(st.events)
            return app("MEM:%s@%d" % (reg, ver), [idx], "R")
        return self._read_log(st, reg, r, idx, len(r.log))

    def _rest(self, st, c, reg, r, idx, pos):
        """the older writes, looked at where c fails"""
        pc = st.pc
        st.pc = pc + (not_(c),)
        try: return self._read_log(st, reg, r, idx, pos)
        finally: st.pc = pc

    def _read_log(self, st, reg, r, idx, pos):
        while pos > 0:
            e = r.log[pos - 1]
            pos -= 1
            if e[0] == "cell":
                _, i, v, g = e
                c = self.decide(st, and_(g, eq(i, idx)))
                if c is TRUE: return v
                if c is FALSE: continue
                rest = self._rest(st, c, reg, r, idx, pos)
                return self.mergev(c, v, rest)
            if e[0] == "map":
                _, b, lo, hi, i, v, g = e
                # solve i(b) == idx for b: i = a*b + rest, a = +-1
                d = dict(i.args) if i.op == "poly" else ({((i, 1),): Fraction(1)} if not isnum(i) else {})
                co = d.get(((b, 1),))
                if co not in (1, -1) or any(b in free_vars(from_pd({m: c})) for m, c in d.items() if m != ((b, 1),)):
                    raise Unsupported("index of a loop write is not affine in the loop variable")
                rest_i = sub(i, mul(const(co), b))
                bb = mul(const(co), sub(idx, rest_i))
                env = {b: bb}
                c = self.decide(st, and_(le(lo, bb), lt(bb, hi), subst(g, env)))
                if c is TRUE: return subst(v, env)
                if c is FALSE: continue
                rest = self._rest(st, c, reg, r, idx, pos)
                return self.mergev(c, subst(v, env), rest)
            if e[0] == "havoc":
                return app("havoc:%s:%d" % (reg, e[1]), [idx], "I" if isint(r.ety) else "R")
        if isnum(idx):
            k = int(num(idx))
            if r.n is not None and isinstance(r.n, int) and not (0 <= k < r.n): raise Unsupported("out of bounds access of %s[%d]" % (reg, k))
            if k in r.cells: return r.cells[k]
            if r.base is not None: return r.base(idx)
            v = self.uninit(reg, r.ety)
            r2 = r.copy(); r2.cells[k] = v
            if pos == len(st.mem[reg].log) or True: st.mem[reg] = r2
            return v
        if r.cells:
            # symbolic index into cells
            if False: pass
            ks = sorted(r.cells)
            out = r.base(idx) if r.base is not None else self.uninit(reg, r.ety)
            for k in ks: out = self.mergev(self.decide(st, eq(idx, k)), r.cells[k], out)
            return out
        if r.base is not None: return r.base(idx)
        return self.uninit(reg, r.ety)

    def write(self, st, reg, idx, v, ety=None, delta=None):
        r = st.mem.get(reg)
        if r is None: raise Unsupported("write to unknown object " + reg)
        idx = mk(idx)
        if r.ext:
            cur = app("MEM:%s@%d" % (reg, len(st.events)), [idx], "R")
            if delta is not None: st.events = st.events + (Event("add", reg, idx, delta, ety=ety),)
            else:
                d = sub(v, cur)
                if not any(x.op == "app" and str(x.args[0]).startswith("MEM:") for x in subterms(d)):
                    st.events = st.events + (Event("add", reg, idx, d, ety=ety),)
                else: st.events = st.events + (Event("set", reg, idx, v, ety=ety),)
            return
        r = r.copy()
        if isnum(idx) and not r.log:
            k = int(num(idx))
            if r.n is not None and isinstance(r.n, int) and not (0 <= k < r.n): raise Unsupported("out of bounds access of %s[%d]" % (reg, k))
            r.cells[k] = v
        elif isnum(idx) or True:
            r.log = r.log + (("cell", idx, v, TRUE),)
        st.mem[reg] = r

    def settle(self, st, t):
        """t with the branch conditions the path decides replaced by their values"""
        if isnum(t): return t
        for x in list(subterms(t)):
            if x.op == "ite":
                c = self.decide(st, x.args[0])
                if c is TRUE or c is FALSE: t = tm_ctx(t, x.args[0], c is TRUE)
        return t

    def decide(self, st, c):
        """c, or a constant when the path condition settles it"""
        c = mk(c)
        if c is TRUE or c is FALSE: return c
        if c in st.pc: return TRUE
        if not_(c) in st.pc: return FALSE
        if not self.decide_if: return c
        if entails(st.pc, c, 0.5): return TRUE
        if entails(st.pc, not_(c), 0.5): return FALSE
        return c

    def mergev(self, c, a, b):
        if c is TRUE: return a
        if c is FALSE: return b
        if a is b: return a
        if isinstance(a, T) and isinstance(b, T):
            if (a.sort == "F") != (b.sort == "F"): raise Unsupported("merge of pointer and number")
            return ite(c, a, b)
        if a == b: return a
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.reg == b.reg and a.ety == b.ety: return Ptr(a.reg, ite(c, a.off, b.off), a.ety)
        raise Unsupported("merge of pointers %r / %r" % (a, b))

    def merge(self, c, s1, s2, base):
        """state that is s1 where c and s2 otherwise; both descend from base"""
        if s1 is None: return s2
        if s2 is None: return s1
        s = State()
        n = len(base.pc)
        d1, d2 = and_(*s1.pc[n:]), and_(*s2.pc[n:])
        s.pc = base.pc
        s.assume(or_(d1, d2))
        for k in list(s1.mem) + [x for x in s2.mem if x not in s1.mem]:
            r1, r2 = s1.mem.get(k), s2.mem.get(k)
            if r1 is None or r2 is None or r1 is r2: s.mem[k] = r1 or r2; continue
            r = Reg(r1.ety, r1.base, r1.ext, r1.n)
            # logs: common prefix
            p = 0
            while p < len(r1.log) and p < len(r2.log) and r1.log[p] == r2.log[p]: p += 1
            if (r1.log or r2.log) and r1.cells != r2.cells:
                # cells differ below the logs: only when cells were written before the first symbolic write in a branch
                if p > 0: raise Unsupported("merge of memory")
            for j in list(r1.cells) + [x for x in r2.cells if x not in r1.cells]:
                v1, v2 = r1.cells.get(j), r2.cells.get(j)
                if v1 is None: v1 = r1.base(const(j)) if r1.base else None
                if v2 is None: v2 = r2.base(const(j)) if r2.base else None
                if v1 is None: v = v2
                elif v2 is None: v = v1
                else: v = self.mergev(c, v1, v2)
                r.cells[j] = v
            log = list(r1.log[:p])
            t1, t2 = r1.log[p:], r2.log[p:]
            if len(t1) == len(t2) and all(a[0] == b[0] == "cell" and a[1] is b[1] for a, b in zip(t1, t2)):
                for a, b in zip(t1, t2): log.append(("cell", a[1], self.mergev(c, a[2], b[2]), or_(and_(c, a[3]), and_(not_(c), b[3]))))
            else: 
              for cond, tail in ((c, t1), (not_(c), t2)):
                for e in tail:
                    if e[0] == "cell": log.append(("cell", e[1], e[2], and_(cond, e[3])))
                    elif e[0] == "map": log.append(e[:6] + (and_(cond, e[6]),))
                    else: raise Unsupported("merge of havoc")
            r.log = tuple(log)
            s.mem[k] = r
        p = 0
        while p < len(s1.events) and p < len(s2.events) and s1.events[p] is s2.events[p]: p += 1
        s.events = s1.events[:p] + tuple(e.with_guard(c) for e in s1.events[p:]) + tuple(e.with_guard(not_(c)) for e in s2.events[p:])
        p = 0
        while p < len(s1.facts) and p < len(s2.facts) and s1.facts[p] is s2.facts[p]: p += 1
        s.facts = s1.facts[:p] + tuple((f[0], f[1], f[2], or_(not_(c), f[3])) for f in s1.facts[p:]) + tuple((f[0], f[1], f[2], or_(c, f[3])) for f in s2.facts[p:])
        if s1.ret is not None or s2.ret is not None:
            if s1.ret is None or s2.ret is None: s.ret = s1.ret if s2.ret is None else s2.ret
            else: s.ret = (self.mergev(c, s1.ret[0], s2.ret[0]), s1.ret[1])
        return s

    def join(self, base, outs):
        """merge a list of states (same outcome) whose path conditions are disjoint"""
        outs = [o for o in outs if o is not None and not o.dead()]
        if not outs: return None
        s = outs[0]
        for o in outs[1:]:
            n = 0
            while n < len(s.pc) and n < len(o.pc) and s.pc[n] is o.pc[n]: n += 1
            b = State(); b.pc = s.pc[:n]
            c = and_(*s.pc[n:])
            s = self.merge(c, s, o, b)
        return s

    # ----- expressions; values are (value, ctype)
    def truth(self, st, v):
        t, ty = v
        if isinstance(t, (Ptr, SPtr)): return TRUE
        if t.sort == "B": return t
        if t.sort == "F": return ne(t, NULL)
        if t.op == "ite" and t.args[1] is ONE and t.args[2] is ZERO: return t.args[0]
        if t.op == "ite" and t.args[1] is ZERO and t.args[2] is ONE: return not_(t.args[0])
        return ne(t, 0)
    def b2i(self, c): return ite(c, ONE, ZERO)

    def trunc(self, st, t):
        if t.sort == "I": return t
        if t.op == "ite": return ite(t.args[0], self.trunc(st, t.args[1]), self.trunc(st, t.args[2]))
        if isnum(t): 
            v = num(t); return const(int(v))
        if entails(st.pc, ge(t, 0), 0.5): return floor(t)
        if entails(st.pc, le(t, 0), 0.5): return neg(floor(neg(t)))
        return ite(ge(t, 0), floor(t), neg(floor(neg(t))))

    def convert(self, st, v, ty):
        t, vt = v
        if ty == "fn":
            if isinstance(t, T) and t.sort == "F": return (t, "fn")
            if isinstance(t, T) and isnum(t) and num(t) == 0: return (NULL, "fn")
            raise Unsupported("conversion to function pointer")
        if isinstance(ty, tuple):
            if ty[0] in ("ptr", "arr"):
                if isinstance(t, Ptr):
                    return (Ptr(t.reg, t.off, ty[1] if ty[1] != "void" else t.ety), ty)
                if isinstance(t, T) and isnum(t) and num(t) == 0: return (NULL, ty)
                return (t, ty)
            return v
        if isinstance(t, (Ptr, SPtr)): raise Unsupported("pointer to number")
        if t.sort == "B": t = self.b2i(t)
        if isint(ty):
            if isflt(vt) or t.sort == "R": t = self.trunc(st, t)
            if ty == "u32" and isnum(t): t = const(int(num(t)) % (1 << 32))
            return (t, ty)
        return (t, ty)

    def arith_type(self, a, b):
        if isflt(a) or isflt(b): return "double"
        if "ulong" in (a, b): return "ulong"
        if "long" in (a, b): return "long"
        if "u32" in (a, b): return "u32"
        return "int"

    def wrapc(self, t, ty):
        if isnum(t) and t.sort == "I":
            if ty == "u32": return const(int(num(t)) % (1 << 32))
            if ty == "ulong": return const(int(num(t)) % (1 << 64))
        return t

    def cdiv(self, st, a, b):
        if isnum(a) and isnum(b):
            q = num(a) / num(b); return const(int(q))
        if not (isnum(b) and num(b) > 0) and not entails(st.pc, gt(b, 0), 0.5): raise Unsupported("integer division by " + show(b))
        q = div(a, b)
        if entails(st.pc, ge(a, 0), 0.5): return floor(q)
        return ite(ge(a, 0), floor(q), neg(floor(neg(q))))

    def crem(self, st, a, b):
        if isnum(a) and isnum(b):
            x, y = int(num(a)), int(num(b)); return const(x - y * int(Fraction(x, y)))
        if not (isnum(b) and num(b) > 0) and not entails(st.pc, gt(b, 0), 0.5): raise Unsupported("remainder by " + show(b))
        if entails(st.pc, ge(a, 0), 0.5): return M(a, b)
        return ite(ge(a, 0), M(a, b), neg(M(neg(a), b)))

    def lval(self, st, fr, n):
        """-> (region, index, ctype) or ('struct', prefix, sname)"""
        if isinstance(n, c_ast.ID):
            b = fr.lookup(n.name)
            if b is None:
                b = self.global_(st, n.name)
            reg, ty = b
            if isinstance(ty, tuple) and ty[0] == "struct": return ("struct", reg, ty[1])
            return (reg, ZERO, ty)
        if isinstance(n, c_ast.ArrayRef):
            base = self.eval(st, fr, n.name)
            idx = self.eval(st, fr, n.subscript)
            return self.deref(st, base, idx[0])
        if isinstance(n, c_ast.UnaryOp) and n.op == "*":
            base = self.eval(st, fr, n.expr)
            return self.deref(st, base, ZERO)
        if isinstance(n, c_ast.StructRef):
            if n.type == "->":
                b = self.eval(st, fr, n.name)
                if isinstance(b[0], Ptr) and isinstance(b[0].ety, tuple): raise Unsupported("pointer to struct element")
                if not isinstance(b[0], SPtr): raise Unsupported("-> on %r" % (b[0],))
                prefix, sname = b[0].prefix, b[0].sname
            else:
                l = self.lval(st, fr, n.name)
                if l[0] != "struct": raise Unsupported(". on non-struct")
                prefix, sname = l[1], l[2]
            for f, ft in self.struct_fields(sname):
                if f == n.field.name:
                    ty = self.ctype(ft)
                    if isinstance(ty, tuple) and ty[0] == "struct": return ("struct", prefix + "." + f, ty[1])
                    return (prefix + "." + f, ZERO, ty)
            raise Unsupported("field " + n.field.name)
        if isinstance(n, c_ast.Cast): return self.lval(st, fr, n.expr)
        raise Unsupported("lvalue %s" % type(n).__name__)

    def deref(self, st, base, idx):
        p, ty = base
        if isinstance(p, SPtr):
            if isnum(idx) and num(idx) == 0: return ("struct", p.prefix, p.sname)
            raise Unsupported("indexing structs")
        if not isinstance(p, Ptr): raise Unsupported("dereference of %r" % (p,))
        r = st.mem.get(p.reg)
        ety = p.ety
        if isinstance(ety, tuple) and ety[0] == "arr":   # pointer to array: flattened 2-d
            inner = _constint(ety[2], self.src.enums)
            return (p.reg, add(p.off, mul(idx, const(inner))), ety)
        if r is not None and r.ext:
            sz = SIZEOF.get(ety)
            if sz is None: raise Unsupported("access of external memory through %r" % (ety,))
            return (p.reg, add(p.off, mul(idx, const(sz))), ety)
        return (p.reg, add(p.off, idx), ety)

    def global_(self, st, name):
        g = self.src.globals.get(name)
        if g is None: raise Unsupported("unknown name " + name)
        ty = self.ctype(g.type)
        reg = "global." + name
        if reg not in st.mem:
            if name in self.src.tables:
                tab = self.src.tables[name]
                r = Reg("double", lambda i, name=name: app("TAB:" + name, [i], "R"), False, len(tab))
            elif name == "gsl_rng_ranlxd1":
                st.mem[reg] = Reg("fn", None, False, 1); st.mem[reg].cells[0] = fn("ranlxd1")
                return (reg, "fn")
            else:
                self.declare(st, reg, ty)
                if g.init is not None and not isinstance(ty, tuple):
                    v = self.eval(st, Frame(-1, "global"), g.init)
                    st.mem[reg].cells[0] = self.convert(st, v, ty)[0]
                elif g.init is not None and isinstance(g.init, c_ast.InitList):
                    for k, e in enumerate(g.init.exprs): st.mem[reg].cells[k] = self.convert(st, self.eval(st, Frame(-1, "global"), e), ty[1])[0]
                return (reg, ty)
            st.mem[reg] = r
            ty = ("arr", "double", None)
        return (reg, ty)

    def load(self, st, l):
        if l[0] == "struct": return (SPtr(l[1], l[2]), ("struct", l[2]))
        reg, idx, ty = l
        if isinstance(ty, tuple) and ty[0] == "arr":
            ety = ty[1]
            if isinstance(ety, tuple) and ety[0] == "struct": return (SPtr(reg, ety[1]), ("ptr", ety))
            return (Ptr(reg, idx, ety), ("ptr", ety))
        v = self.read(st, reg, idx, ty)
        return (v, ty)

    def store(self, st, l, v, delta=None):
        if l[0] == "struct":
            src = v[0]
            if not isinstance(src, SPtr): raise Unsupported("struct assignment")
            for k in list(st.mem):
                if k.startswith(src.prefix + "."):
                    st.mem[l[1] + k[len(src.prefix):]] = st.mem[k].copy()
            return v
        reg, idx, ty = l
        v = self.convert(st, v, ty)
        self.write(st, reg, idx, v[0], ty, delta)
        return v

    def has_call(self, n):
        class Vst(c_ast.NodeVisitor):
            f = False
            def visit_FuncCall(s, m): s.f = True
            def visit_Assignment(s, m): s.f = True
            def visit_UnaryOp(s, m):
                if m.op in ("++", "--", "p++", "p--"): s.f = True
                s.generic_visit(m)
        v = Vst(); v.visit(n); return v.f

    def eval(self, st, fr, n):
        k = type(n).__name__
        f = getattr(self, "e_" + k, None)
        if f is None: raise Unsupported("expression " + k)
        return f(st, fr, n)
    def e_Constant(self, st, fr, n):
        if n.type in ("int", "long int", "unsigned int", "unsigned long int", "long long int"):
            s = n.value; u = "u" in s.lower()
            v = int(s.rstrip("uUlL"), 0)
            if s.startswith("0") and len(s.rstrip("uUlL")) > 1 and not s.lower().startswith("0x"): v = int(s.rstrip("uUlL"), 8)
            ty = "long" if "l" in s.lower() else ("u32" if u or v > 0x7fffffff and s.lower().startswith("0x") else "int")
            return (const(v), ty)
        if n.type in ("double", "float", "long double"): return (const(Fraction(n.value.rstrip("fFlL"))), "double")
        if n.type == "char": return (const(ord(eval(n.value))), "char")
        if n.type == "string": return (fn("string"), ("ptr", "char"))
        raise Unsupported("constant " + n.type)
    def e_ID(self, st, fr, n):
        if n.name in self.src.enums and fr.lookup(n.name) is None: return (const(self.src.enums[n.name]), "int")
        if fr.lookup(n.name) is None and (n.name in self.src.funcs or n.name in self.src.protos): return (fn(n.name), "fn")
        return self.load(st, self.lval(st, fr, n))
    def e_ArrayRef(self, st, fr, n): return self.load(st, self.lval(st, fr, n))
    def e_StructRef(self, st, fr, n): return self.load(st, self.lval(st, fr, n))
    def e_UnaryOp(self, st, fr, n):
        if n.op == "&":
            l = self.lval(st, fr, n.expr)
            if l[0] == "struct": return (SPtr(l[1], l[2]), ("ptr", ("struct", l[2])))
            reg, idx, ty = l
            return (Ptr(reg, idx, ty), ("ptr", ty))
        if n.op == "*":
            v = self.eval(st, fr, n.expr)
            if v[1] == "fn": return v
            return self.load(st, self.lval(st, fr, n))
        if n.op in ("++", "--", "p++", "p--"):
            l = self.lval(st, fr, n.expr)
            v = self.load(st, l)
            if isinstance(v[0], Ptr): nv = (Ptr(v[0].reg, add(v[0].off, 1 if "+" in n.op else -1), v[0].ety), v[1])
            else: nv = (add(v[0], 1 if "+" in n.op else -1), v[1])
            self.store(st, l, nv)
            return v if n.op.startswith("p") else nv
        if n.op == "sizeof":
            try:
                if isinstance(n.expr, c_ast.Typename): ty = self.ctype(n.expr.type)
                else: ty = self.eval(st.fork(), fr, n.expr)[1]
                return (const(SIZEOF[ty]), "ulong")
            except (KeyError, TypeError): raise Unsupported("sizeof")
        v = self.eval(st, fr, n.expr)
        if n.op == "!": return (self.b2i(not_(self.truth(st, v))), "int")
        if n.op == "-": return (self.wrapc(neg(v[0]), v[1]), v[1])
        if n.op == "+": return v
        if n.op == "~":
            if isnum(v[0]): return (self.wrapc(const(~int(num(v[0]))), v[1]), v[1])
            return (sub(neg(v[0]), 1), v[1])
        raise Unsupported("unary " + n.op)
    def e_Cast(self, st, fr, n):
        ty = self.ctype(n.to_type.type)
        if ty == "void": return self.eval(st, fr, n.expr)
        v = self.eval(st, fr, n.expr)
        if isinstance(ty, tuple) and ty[0] == "ptr":
            if isinstance(v[0], Ptr):
                r = st.mem.get(v[0].reg)
                if r is not None and not r.ext and ty[1] not in ("void", v[0].ety) and not (isinstance(ty[1], str) and isinstance(v[0].ety, str) and SIZEOF.get(ty[1]) == SIZEOF.get(v[0].ety)):
                    raise Unsupported("pointer cast")
                return (Ptr(v[0].reg, v[0].off, ty[1] if ty[1] != "void" else v[0].ety), ty)
            if isinstance(v[0], T) and isnum(v[0]) and num(v[0]) == 0: return (NULL, ty)
            return (v[0], ty)
        return self.convert(st, v, ty)
    def e_TernaryOp(self, st, fr, n):
        c = self.decide(st, self.truth(st, self.eval(st, fr, n.cond)))
        if c is TRUE: return self.eval(st, fr, n.iftrue)
        if c is FALSE: return self.eval(st, fr, n.iffalse)
        if self.has_call(n.iftrue) or self.has_call(n.iffalse):
            s1, s2 = st.fork().assume(c), st.fork().assume(not_(c))
            a = self.eval(s1, fr, n.iftrue); b = self.eval(s2, fr, n.iffalse)
            self.into(st, self.merge(c, s1, s2, st))
        else:
            a = self.eval(st.fork().assume(c), fr, n.iftrue); b = self.eval(st.fork().assume(not_(c)), fr, n.iffalse)
        ty = a[1] if not (isinstance(a[1], str) and isinstance(b[1], str) and a[1] in SIZEOF and b[1] in SIZEOF) else self.arith_type(a[1], b[1])
        return (self.mergev(c, a[0], b[0]), ty)
    def into(self, st, s):
        st.mem, st.pc, st.events, st.ret, st.facts = s.mem, s.pc, s.events, s.ret, s.facts
    def e_Typename(self, st, fr, n): raise Unsupported("typename")
    def e_ExprList(self, st, fr, n):
        v = None
        for e in n.exprs: v = self.eval(st, fr, e)
        return v
    def e_Assignment(self, st, fr, n):
        l = self.lval(st, fr, n.lvalue)
        v = self.eval(st, fr, n.rvalue)
        if n.op == "=": return self.store(st, l, v)
        op = n.op[:-1]
        cur = self.load(st, l)
        if isinstance(cur[0], Ptr):
            nv = self.binop(st, op, cur, v)
            return self.store(st, l, nv)
        nv = self.binop(st, op, cur, v)
        if isint(l[2]) and not isflt(v[1]) : nv = (nv[0], l[2])
        r = st.mem.get(l[0])
        delta = None
        if r is not None and r.ext:
            if op == "+": delta = v[0]
            elif op == "-": delta = neg(v[0])
        return self.store(st, l, nv, delta)
    def e_BinaryOp(self, st, fr, n):
        if n.op in ("&&", "||"):
            a = self.decide(st, self.truth(st, self.eval(st, fr, n.left)))
            if n.op == "&&":
                if a is FALSE: return (ZERO, "int")
                go = a
            else:
                if a is TRUE: return (ONE, "int")
                go = not_(a)
            if go is TRUE: return (self.b2i(self.truth(st, self.eval(st, fr, n.right))), "int")
            s1 = st.fork().assume(go)
            b = self.truth(s1, self.eval(s1, fr, n.right))
            if self.has_call(n.right):
                s2 = st.fork().assume(not_(go))
                self.into(st, self.merge(go, s1, s2, st))
            return (self.b2i(and_(a, b) if n.op == "&&" else or_(a, b)), "int")
        a = self.eval(st, fr, n.left); b = self.eval(st, fr, n.right)
        return self.binop(st, n.op, a, b)
    def binop(self, st, op, a, b):
        A, B = a[0], b[0]
        if isinstance(A, (Ptr, SPtr)) or isinstance(B, (Ptr, SPtr)):
            if op in ("+", "-") and isinstance(A, Ptr) and isinstance(B, T):
                r = st.mem.get(A.reg)
                off = B
                if r is not None and r.ext:
                    if A.ety not in SIZEOF: raise Unsupported("pointer arithmetic on %r" % (A.ety,))
                    off = mul(B, const(SIZEOF[A.ety]))
                return (Ptr(A.reg, add(A.off, off) if op == "+" else sub(A.off, off), A.ety), a[1])
            if op == "+" and isinstance(B, Ptr): return self.binop(st, op, b, a)
            if op in ("==", "!="):
                if isinstance(A, T) and A is NULL or isinstance(B, T) and B is NULL: return (ZERO if op == "==" else ONE, "int")
                if isinstance(A, Ptr) and isinstance(B, Ptr) and A.reg == B.reg: 
                    c = eq(A.off, B.off); return (self.b2i(c if op == "==" else not_(c)), "int")
            raise Unsupported("pointer operation " + op)
        if A.sort == "B": A = self.b2i(A)
        if B.sort == "B": B = self.b2i(B)
        if op in ("==", "!="):
            if A.sort == "F" or B.sort == "F":
                if isnum(A): A = NULL
                if isnum(B): B = NULL
            c = eq(A, B)
            return (self.b2i(c if op == "==" else not_(c)), "int")
        if A.sort == "F" or B.sort == "F": raise Unsupported("arithmetic on pointers")
        ty = self.arith_type(a[1], b[1])
        if op in ("<", "<=", ">", ">="):
            c = {"<": lt, "<=": le, ">": gt, ">=": ge}[op](A, B)
            return (self.b2i(c), "int")
        if op == "+": r = add(A, B)
        elif op == "-": r = sub(A, B)
        elif op == "*": r = mul(A, B)
        elif op == "/": r = self.cdiv(st, A, B) if isint(ty) else div(A, B)
        elif op == "%": r = self.crem(st, A, B)
        elif op in ("&", "|", "^", "<<", ">>"):
            # through ite: constants only
            A, B = self.settle(st, A), self.settle(st, B)
            def bit(x, y):
                if isnum(x) and isnum(y):
                    p, q = int(num(x)), int(num(y))
                    return const({"&": p & q, "|": p | q, "^": p ^ q, "<<": p << q if q < 200 else 0, ">>": p >> q}[op])
                if x.op == "ite": return ite(x.args[0], bit(x.args[1], y), bit(x.args[2], y))
                if y.op == "ite": return ite(y.args[0], bit(x, y.args[1]), bit(x, y.args[2]))
                if op == "<<" and isnum(y): return mul(x, const(1 << int(num(y))))
                if op == ">>" and isnum(y): return floor(div(x, const(1 << int(num(y)))))
                if op == "&" and isnum(y) and (int(num(y)) + 1) & int(num(y)) == 0: return M(x, const(int(num(y)) + 1))
                if op == "&" and isnum(x): return bit(y, x)
                raise Unsupported("bit operation on symbolic values")
            if op in ("<<", ">>"): ty = a[1] if a[1] != "char" else "int"
            r = bit(A, B)
        else: raise Unsupported("operator " + op)
        return (self.wrapc(r, ty), ty)

    # ----- calls
    def e_FuncCall(self, st, fr, n):
        args = n.args.exprs if n.args else []
        if isinstance(n.name, c_ast.ID) and fr.lookup(n.name.name) is None:
            f = fn(n.name.name)
        else:
            f = self.eval(st, fr, n.name)[0]
        vals = [self.eval(st, fr, a) for a in args]
        return self.call(st, f, vals)

    def call(self, st, f, vals):
        if not isinstance(f, T) or f.sort != "F": raise Unsupported("call through %r" % (f,))
        if f.op == "ite":
            c = self.decide(st, f.args[0])
            if c is TRUE: return self.call(st, f.args[1], vals)
            if c is FALSE: return self.call(st, f.args[2], vals)
            s1, s2 = st.fork().assume(c), st.fork().assume(not_(c))
            a = self.call(s1, f.args[1], vals); b = self.call(s2, f.args[2], vals)
            self.into(st, self.merge(c, s1, s2, st))
            if a is None: return None
            return (self.mergev(c, a[0], b[0]), a[1])
        name = f.args[0]
        c = self.contracts.get(name)
        if c is not None:
            self.used_contracts.add(name)
            return c(self, st, vals)
        if f.op == "var": raise Unsupported("call of unknown function %s" % name)
        b = getattr(self, "b_" + name, None)
        if name not in self.src.funcs:
            if b is None: raise Unsupported("call of external function " + name)
            return b(st, vals)
        return self.call_body(st, name, vals)

    def call_body(self, st, name, vals):
        self.inlined.add(name)
        fd = self.src.funcs[name]
        self.depth += 1
        if self.depth > 40: raise Unsupported("recursion")
        try:
            self.fid += 1
            fr = Frame(self.fid, name)
            params = fd.decl.type.args.params if fd.decl.type.args else []
            params = [p for p in params if not (isinstance(p, c_ast.Typename))]
            if len(params) != len(vals): raise Unsupported("argument count of " + name)
            for p, v in zip(params, vals):
                ty = self.ctype(p.type)
                reg = "%d:%s.%s" % (self.fid, name, p.name)
                if isinstance(ty, tuple) and ty[0] == "struct":
                    for k in list(st.mem):
                        if k.startswith(v[0].prefix + "."): st.mem[reg + k[len(v[0].prefix):]] = st.mem[k].copy()
                    fr.scopes[0][p.name] = (reg, ty); continue
                if isinstance(ty, tuple) and ty[0] == "arr": ty = ("ptr", ty[1])
                v = self.convert(st, v, ty)
                st.mem[reg] = Reg(ty, None, False, 1); st.mem[reg].cells[0] = v[0]
                fr.scopes[0][p.name] = (reg, ty)
            rty = self.ctype(fd.decl.type.type)
            save = st.ret
            base = st.fork()
            base.ret = None; st.ret = None
            outs = self.block(st, fr, fd.body)
            if any(k for k in outs if k not in ("n", "r") and outs[k] is not None): raise Unsupported("stray control flow in " + name)
            s = self.join(base, [outs.get("r"), outs.get("n")])
            if s is None:
                st.pc = st.pc + (FALSE,)
                return (self.uninit("dead", rty if rty != "void" else "int"), rty)
            ret = s.ret
            s.ret = save
            pre = "%d:" % self.fid
            for k in [k for k in s.mem if k.startswith(pre)]: del s.mem[k]
            self.into(st, s)
            if rty == "void": return None
            if ret is None: return (self.uninit("noreturn", rty), rty)
            return self.convert(st, ret, rty)
        finally:
            self.depth -= 1

    def b_floor(self, st, v): return (floor(v[0][0]), "double")
    def b_ceil(self, st, v): return (neg(floor(neg(v[0][0]))), "double")
    def b_trunc(self, st, v): return (self.trunc(st, v[0][0]), "double")
    def b_rint(self, st, v): raise Unsupported("rint")
    def b_fabs(self, st, v):
        t = v[0][0]
        return (ite(self.decide(st, ge(t, 0)), t, neg(t)), "double")
    def b_abs(self, st, v):
        t = self.convert(st, v[0], "int")[0]
        return (ite(self.decide(st, ge(t, 0)), t, neg(t)), "int")
    b_labs = b_abs; b_llabs = b_abs
    def b_sin(self, st, v): return (app("sin", [v[0][0]], "R"), "double")
    def b_cos(self, st, v): return (app("cos", [v[0][0]], "R"), "double")
    def b_sqrt(self, st, v): return (app("sqrt", [v[0][0]], "R"), "double")
    def b_log(self, st, v): return (app("log", [v[0][0]], "R"), "double")
    def b_exp(self, st, v): return (app("exp", [v[0][0]], "R"), "double")
    def b_pow(self, st, v):
        e = v[1][0]
        if isnum(e) and num(e).denominator == 1 and 0 <= num(e) <= 8: return (power(v[0][0], int(num(e))), "double")
        return (app("pow", [v[0][0], e], "R"), "double")
    def b_abort(self, st, v):
        st.pc = st.pc + (FALSE,)
        return None
    def b_printf(self, st, v): return (ZERO, "int")
    def b_memset(self, st, v):
        p = v[0][0]
        if not isinstance(p, Ptr) or not (isnum(v[1][0]) and num(v[1][0]) == 0): raise Unsupported("memset")
        r = st.mem[p.reg]
        if r.ext or not isnum(v[2][0]): raise Unsupported("memset")
        nbytes = int(num(v[2][0])); sz = SIZEOF[r.ety]
        o = int(num(p.off))
        for k in range(nbytes // sz): self.write(st, p.reg, const(o + k), ZERO)
        return (p, ("ptr", "void"))

    # ----- statements: dict outcome -> state
    def block(self, st, fr, node):
        fr.scopes.append({})
        o = None
        try:
            o = self.stmts(st, fr, node.block_items or [])
            return o
        finally: self.leave(fr, o)

    def leave(self, fr, outs):
        """the objects of the innermost scope cease to exist"""
        for reg, ty in fr.scopes.pop().values():
            if isinstance(ty, tuple) and (ty[0] == "struct" or ty[0] == "arr" and isinstance(ty[1], tuple)): continue
            for s in (outs or {}).values():
                if s is not None: s.mem.pop(reg, None)

    def stmts(self, st, fr, items):
        outs = {}
        cur = st
        items = list(items)
        i = 0
        def addout(k, s):
            if s is None or s.dead(): return
            outs.setdefault(k, []).append(s)
        while i < len(items):
            n = items[i]; i += 1
            lab = []
            while isinstance(n, c_ast.Label):
                lab.append(n.name); n = n.stmt
            for l in lab:
                pend = outs.pop(("g", l), [])
                cur = self.join(None, ([cur] if cur is not None else []) + pend)
            if cur is None or cur.dead():
                if not any(isinstance(x, c_ast.Label) for x in items[i:]): break
                cur = None
                continue
            o = self.stmt(cur, fr, n)
            for k, s in o.items():
                if k != "n": addout(k, s)
            cur = o.get("n")
            if cur is not None and cur.dead(): cur = None
        res = {k: (self.join(None, v)) for k, v in outs.items()}
        if cur is not None: res["n"] = cur
        return res

    def stmt(self, st, fr, n):
        k = type(n).__name__
        if n is None: return {"n": st}
        if k == "Compound": return self.block(st, fr, n)
        if k == "Decl":
            self.decl(st, fr, n); return {"n": st}
        if k == "DeclList":
            for d in n.decls: self.decl(st, fr, d)
            return {"n": st}
        if k in ("Assignment", "UnaryOp", "FuncCall", "ExprList", "Cast", "ID", "Constant", "BinaryOp", "TernaryOp", "ArrayRef", "StructRef"):
            self.eval(st, fr, n)
            return {"n": st} if not st.dead() else {}
        if k == "EmptyStatement" or k == "Pragma": return {"n": st}
        if k == "If": return self.s_if(st, fr, n)
        if k == "Return":
            if n.expr is not None: st.ret = self.eval(st, fr, n.expr)
            return {"r": st}
        if k == "Break": return {"b": st}
        if k == "Continue": return {"c": st}
        if k == "Goto": return {("g", n.name): st}
        if k == "Label": return self.stmts(st, fr, [n])
        if k == "For":
            fr.scopes.append({})
            o = None
            try:
                if n.init is not None:
                    self.stmt(st, fr, n.init)
                o = self.loop(st, fr, n.cond, n.next, n.stmt)
                return o
            finally: self.leave(fr, o)
        if k == "While": return self.loop(st, fr, n.cond, None, n.stmt)
        if k == "DoWhile":
            o = self.stmt(st, fr, n.stmt)
            s = self.join(None, [x for x in (o.get("n"), o.get("c")) if x is not None])
            res = {a: b for a, b in o.items() if a not in ("n", "c", "b")}
            brk = o.get("b")
            if s is not None:
                o2 = self.loop(s, fr, n.cond, None, n.stmt)
                for a, b in o2.items():
                    if a == "n": brk = self.join(None, [x for x in (brk, b) if x is not None])
                    else: res[a] = self.join(None, [x for x in (res.get(a), b) if x is not None])
            if brk is not None: res["n"] = brk
            return res
        if k == "Switch": return self.s_switch(st, fr, n)
        raise Unsupported("statement " + k)

    def decl(self, st, fr, n):
        if n.name is None or isinstance(n.type, c_ast.FuncDecl): return
        ty = self.ctype(n.type)
        cnt = None
        if isinstance(ty, tuple) and ty[0] == "arr" and ty[2] is not None:
            d = self.eval(st, fr, ty[2])[0]
            cnt = int(num(d)) if isnum(d) else d
        reg = "%d:%s.%s@%d" % (fr.fid, fr.fname, n.name, id(n) & 0xffffff)
        if isinstance(ty, tuple) and ty[0] == "arr" and isinstance(ty[1], tuple) and ty[1][0] == "struct": self.declare(st, reg, ty)
        elif isinstance(ty, tuple) and ty[0] == "arr" and ty[2] is None and isinstance(n.init, c_ast.InitList):
            cnt = len(n.init.exprs); self.declare(st, reg, ty, cnt)
        else: self.declare(st, reg, ty, cnt)
        fr.scopes[-1][n.name] = (reg, ty)
        if n.init is not None:
            if isinstance(n.init, c_ast.InitList):
                if isinstance(ty, tuple) and ty[0] == "struct": raise Unsupported("struct initialiser")
                flat = []
                def fl(e):
                    if isinstance(e, c_ast.InitList):
                        for x in e.exprs: fl(x)
                    else: flat.append(e)
                fl(n.init)
                m = st.mem[reg].n
                for k, e in enumerate(flat):
                    self.write(st, reg, const(k), self.convert(st, self.eval(st, fr, e), st.mem[reg].ety)[0])
                for k in range(len(flat), m if isinstance(m, int) else 0): self.write(st, reg, const(k), ZERO)
            elif isinstance(ty, tuple) and ty[0] == "struct":
                self.store(st, ("struct", reg, ty[1]), self.eval(st, fr, n.init))
            else:
                v = self.eval(st, fr, n.init)
                v = self.convert(st, v, ty)
                st.mem[reg] = st.mem[reg].copy(); st.mem[reg].cells[0] = v[0]

    def s_if(self, st, fr, n):
        c = self.decide(st, self.truth(st, self.eval(st, fr, n.cond)))
        if c is TRUE: return self.stmt(st, fr, n.iftrue) if n.iftrue is not None else {"n": st}
        if c is FALSE: return self.stmt(st, fr, n.iffalse) if n.iffalse is not None else {"n": st}
        s1, s2 = st.fork().assume(c), st.fork().assume(not_(c))
        o1 = self.stmt(s1, fr, n.iftrue) if n.iftrue is not None else {"n": s1}
        o2 = self.stmt(s2, fr, n.iffalse) if n.iffalse is not None else {"n": s2}
        res = {}
        for k in set(o1) | set(o2):
            a, b = o1.get(k), o2.get(k)
            if a is not None and a.dead(): a = None
            if b is not None and b.dead(): b = None
            if a is None and b is None: continue
            # if only one side arrives keep its condition in the path
            res[k] = self.merge(c, a, b, st) if (a is not None and b is not None) else (a or b)
        return res

    def s_switch(self, st, fr, n):
        v = self.eval(st, fr, n.cond)[0]
        items = n.stmt.block_items or []
        if not isnum(v): raise Unsupported("switch on symbolic value")
        start = None; dflt = None
        flat = []
        for it in items:
            if isinstance(it, (c_ast.Case, c_ast.Default)):
                if isinstance(it, c_ast.Default): dflt = len(flat)
                else:
                    cv = self.eval(st, fr, it.expr)[0]
                    if cv is v and start is None: start = len(flat)
                flat += (it.stmts or [])
                # nested cases are flattened by pycparser except empty fallthrough
            else: flat.append(it)
        if start is None: start = dflt
        if start is None: return {"n": st}
        fr.scopes.append({})
        try: o = self.stmts(st, fr, flat[start:])
        finally: fr.scopes.pop()
        s = self.join(None, [x for x in (o.pop("n", None), o.pop("b", None)) if x is not None])
        if s is not None: o["n"] = s
        return o

    # ----- loops
    def loop(self, st, fr, cond, nxt, body):
        exits = []
        res = {}
        cur = st
        it = 0
        while True:
            if cur is None: break
            c = self.truth(cur, self.eval(cur, fr, cond)) if cond is not None else TRUE
            if c is FALSE: exits.append(cur); break
            if c is not TRUE:
                c = self.decide_norm(cur, c)
            if c is FALSE: exits.append(cur); break
            if c is not TRUE:
                o = self.symloop(cur, fr, cond, nxt, body)
                for k, s in o.items():
                    if k == "n": exits.append(s)
                    else: res.setdefault(k, []).append(s)
                break
            it += 1
            if it > self.maxiter: raise Unsupported("too many iterations")
            o = self.stmt(cur, fr, body)
            cur = self.join(None, [x for x in (o.get("n"), o.get("c")) if x is not None])
            if o.get("b") is not None: exits.append(o["b"])
            for k, s in o.items():
                if k not in ("n", "c", "b"): res.setdefault(k, []).append(s)
            if cur is not None and nxt is not None: self.eval(cur, fr, nxt)
        out = {k: self.join(None, v) for k, v in res.items()}
        s = self.join(None, exits)
        if s is not None: out["n"] = s
        return out

    def decide_norm(self, st, c):
        if c in st.pc: return TRUE
        if not_(c) in st.pc: return FALSE
        if c.op in ("le0", "lt0", "eq0", "not", "and", "or") and not self.symbolic_trip(c): return self.decide(st, c)
        return c
    def symbolic_trip(self, c): return True

    def symloop(self, st, fr, cond, nxt, body):
        errs = []
        for h in (self.wraploop, self.countloop, self.odometer) + ((self.detloop,) if self.detloops else ()):
            try:
                s = h(st.fork(), fr, cond, nxt, body)
                if s is not None: return s
            except Unsupported as e: errs.append("%s: %s" % (h.__name__, e))
        raise Unsupported("loop in %s: %s" % (fr.fname, "; ".join(errs)))

    def assigned(self, n):
        ls = []
        class Vst(c_ast.NodeVisitor):
            def visit_Assignment(s, m): ls.append(m.lvalue); s.generic_visit(m)
            def visit_UnaryOp(s, m):
                if m.op in ("++", "--", "p++", "p--"): ls.append(m.expr)
                s.generic_visit(m)
            def visit_FuncCall(s, m): ls.append(None); s.generic_visit(m)
        Vst().visit(n)
        return ls

    def wraploop(self, st, fr, cond, nxt, body):
        """while(v >= c) v -= E  and  while(v < c) v += E  leave v in a window of width E"""
        ls = self.assigned(body) + (self.assigned(nxt) if nxt is not None else [])
        if len(ls) != 1 or ls[0] is None: return None
        l = self.lval(st, fr, ls[0])
        if l[0] == "struct" or not isint(l[2]): return None
        v0 = self.load(st, l)[0]
        h = st.fork()
        b = self.fresh("w")
        self.write(h, l[0], l[1], b)
        c = self.truth(h, self.eval(h, fr, cond))
        h2 = h.fork().assume(c)
        o = self.stmt(h2, fr, body)
        if set(o) != {"n"}: return None
        s = o["n"]
        if nxt is not None: self.eval(s, fr, nxt)
        if len(s.events) != len(st.events): return None
        v1 = self.load(s, l)[0]
        step = sub(v1, b)
        if b in free_vars(step): return None
        if c.op != "le0": return None
        d = dict(c.args[0].args) if c.args[0].op == "poly" else {((c.args[0], 1),): Fraction(1)}
        co = d.get(((b, 1),))
        rest = sub(c.args[0], mul(const(co or 0), b))
        if co not in (1, -1) or b in free_vars(rest): return None
        if co == -1:   # b >= c0 : -b + rest <= 0
            c0 = rest
            E = neg(step)
            self.oblige("wrap loop in %s steps towards the exit" % fr.fname, st.pc + (c,), gt(E, 0))
            base = sub(c0, E)
            self.write(st, l[0], l[1], ite(lt(v0, c0), v0, add(M(sub(v0, base), E), base)))
        else:          # b + rest <= 0 : b < c0 with c0 = 1 - rest
            c0 = sub(ONE, rest)
            E = step
            self.oblige("wrap loop in %s steps towards the exit" % fr.fname, st.pc + (c,), gt(E, 0))
            self.write(st, l[0], l[1], ite(ge(v0, c0), v0, add(M(sub(v0, c0), E), c0)))
        v = self.load(st, l)[0]
        # canonical form when both sides of the window are known
        m = self.canon_mod(st, v, E)
        if m is not None: self.write(st, l[0], l[1], m)
        return {"n": st}

    def canon_mod(self, st, v, E):
        m = M(v, E)
        if m is v: return v
        if entails(st.pc, eq(v, m), 1.0): return m
        # value within [0, E) is its own residue
        return None

    def changed(self, h, s):
        """locations of h's regions changed in s: cells, and regions with new log entries"""
        cells, logs = [], []
        for k, r in s.mem.items():
            r0 = h.mem.get(k)
            if r0 is None or r0 is r: continue
            if len(r.log) != len(r0.log): logs.append(k)
            for j, v in r.cells.items():
                v0 = r0.cells.get(j)
                if v0 is v: continue
                if v0 is not None and not isinstance(v0, T) and v0 == v: continue
                cells.append((k, j))
        return cells, logs

    def countloop(self, st, fr, cond, nxt, body):
        """for(i = lo; i < hi; i++): iterations summarised for an arbitrary i"""
        # loop variable: the one assigned in nxt (or whose test the condition is)
        ls = self.assigned(nxt) if nxt is not None else []
        if len(ls) == 1 and isinstance(ls[0], c_ast.ID): ivn = ls[0]
        else: return None
        l = self.lval(st, fr, ivn)
        lo = self.load(st, l)[0]
        ivreg = l[0]
        b = self.fresh("i:" + ivn.name)
        # direction
        t = st.fork(); self.write(t, ivreg, ZERO, b); self.eval(t, fr, nxt)
        step = sub(self.load(t, l)[0], b)
        if not (step is ONE or step is const(-1)): raise Unsupported("loop step")
        if any(isinstance(x, c_ast.ID) and x.name == ivn.name for x in self.assigned(body)): raise Unsupported("loop variable assigned in the body")
        # fixpoint on the modified locations
        havoc = {}     # (reg, j) -> term used at the start of an iteration
        closed = {}    # (reg, j) -> closed form in b
        hregs = {}
        for rnd in range(12):
            h = st.fork()
            for k, r in list(h.mem.items()): 
                hit = [x for x in havoc if x[0] == k]
                if hit or k in hregs:
                    r = r.copy()
                    for x in hit: r.cells[x[1]] = havoc[x]
                    if k in hregs: r.log = r.log + (("havoc", hregs[k]),)
                    h.mem[k] = r
            self.write(h, ivreg, ZERO, b)
            c = self.truth(h, self.eval(h, fr, cond))
            hi = self.bound(c, b, step)
            if hi is None: raise Unsupported("loop condition %s" % show(c))
            if any(v in free_vars(hi) for v in havoc.values() if isinstance(v, T) and v.op == "var"): raise Unsupported("loop bound changes in the loop")
            if step is ONE: h.assume(le(lo, b))
            else: h.assume(le(b, lo))
            h.assume(c)
            h0 = h.fork()
            o = self.stmt(h, fr, body)
            s = self.join(None, [x for x in (o.get("n"), o.get("c")) if x is not None])
            brk = o.get("b")
            bad = [k for k in o if k not in ("n", "c", "b")]
            if bad: raise Unsupported("control leaves the loop")
            if s is None and brk is None: raise Unsupported("loop body never completes")
            new = False
            allchg = set(); alllogs = set()
            for z in (s, brk):
                if z is None: continue
                cells, logs = self.changed(h0, z)
                allchg |= set(x for x in cells if x[0] != ivreg); alllogs |= set(logs)
            for x in allchg:
                if x not in havoc:
                    new = True
                    r0 = st.mem.get(x[0])
                    v0 = r0.cells.get(x[1]) if r0 is not None else None
                    if v0 is not None and not isinstance(v0, T): raise Unsupported("pointer changed in a loop")
                    srt = v0.sort if v0 is not None else ("I" if isint(st.mem[x[0]].ety) else ("R" if isflt(st.mem[x[0]].ety) else "F"))
                    if isint(st.mem[x[0]].ety): srt = "I"
                    elif isflt(st.mem[x[0]].ety): srt = "R"
                    if str(x[0]).endswith(".rngstate"): srt = "F"
                    havoc[x] = self.fresh("hv:" + x[0].split(".")[-1], srt)
            for k in alllogs:
                if k not in hregs: hregs[k] = len(hregs) + self.nfresh; new = True
            if new: continue
            # closed forms
            progress = False
            for x in list(havoc):
                if x in closed: continue
                if s is None or brk is not None: continue
                v1 = s.mem[x[0]].cells.get(x[1])
                hv = havoc[x]
                r0 = st.mem[x[0]]; v0 = r0.cells.get(x[1])
                if v0 is None: continue
                if isinstance(v1, T) and v1.sort in ("I", "R") and hv.sort in ("I", "R"):
                    d = sub(v1, hv)
                    hvs = [y for y in havoc.values() if y.op == "var"]
                    if not (free_vars(d) & set(hvs)) and not self.has_havoc(d):
                        k = sum_poly(d, b, lo) if step is ONE else (mul(d, sub(lo, b)) if b not in free_vars(d) else None)
                        if k is not None: closed[x] = add(v0, k); havoc[x] = closed[x]; progress = True
                if isinstance(v1, T) and v1.op == "app" and str(v1.args[0]).startswith("iter:") and v1.args[1] is hv and step is ONE:
                    n = v1.args[2]
                    hvs = [y for y in havoc.values() if y.op == "var"]
                    if not (free_vars(n) & set(hvs)) and not self.has_havoc(n):
                        k = sum_poly(n, b, lo)
                        if k is not None: closed[x] = iterf(v1.args[0], v0, k); havoc[x] = closed[x]; progress = True
            if progress: continue
            break
        else: raise Unsupported("loop does not stabilise")
        # result
        if step is ONE: rng = (b, lo, hi)
        else: rng = (b, add(hi, 1), add(lo, 1))     # hi is the exclusive lower bound
        lo2, hi2 = rng[1], rng[2]
        hvs = set(y for y in havoc.values() if y.op == "var")
        def clean(v): return not (free_vars(v) & hvs) and not self.has_havoc(v)
        n0 = len(st.events)
        guard0 = len(h0.pc)
        if brk is not None:
            # search loop: either some iteration breaks, or none does
            bc = and_(*brk.pc[guard0:])
            if not clean(bc) or len(brk.events) != n0 or (s is not None and len(s.events) != n0) or alllogs: raise Unsupported("loop with break")
            w = self.fresh("witness")
            found = self.fresh("found", "B") if self.found_mode is None else const(self.found_mode)
            s1 = st.fork().assume(found)
            kept = all(s is None or s.mem[x[0]].cells.get(x[1]) is havoc[x] for x in havoc)   # nothing is carried from one iteration to the next
            env = {b: w}
            for x in havoc:
                v0 = st.mem[x[0]].cells.get(x[1])
                if v0 is not None and (kept or (s is not None and s.mem[x[0]].cells.get(x[1]) is havoc[x])): env[havoc[x]] = v0
            for cnd in brk.pc[len(st.pc):]:
                cnd = subst(cnd, env)
                if clean(cnd): s1.assume(cnd)
            for x in havoc:
                r = s1.mem[x[0]].copy(); v = subst(brk.mem[x[0]].cells[x[1]], env)
                r.cells[x[1]] = v if clean(v) else self.fresh("after:" + x[0].split(".")[-1], havoc[x].sort); s1.mem[x[0]] = r
            self.write(s1, ivreg, ZERO, w)
            s2 = st.fork().assume(not_(found))
            s2.facts = s2.facts + ((b, lo2, hi2, subst(not_(bc), {k: v for k, v in env.items() if k is not b})),)
            for x in havoc:
                v1 = s.mem[x[0]].cells.get(x[1]) if s is not None else None
                if v1 is None or v1 is havoc[x]: continue
                r = s2.mem[x[0]].copy(); v0 = r.cells.get(x[1])
                if clean(v1) and step is ONE and v0 is not None: r.cells[x[1]] = self.mergev(self.decide(st, lt(lo2, hi2)), subst(v1, {b: sub(hi2, 1)}), v0)
                else: r.cells[x[1]] = self.fresh("after:" + x[0].split(".")[-1], havoc[x].sort)
                s2.mem[x[0]] = r
            self.write(s2, ivreg, ZERO, self.after(st, lo, hi, step))
            if self.found_mode is not None: return {"n": s1 if self.found_mode else s2}
            return {"n": self.merge(found, s1, s2, st)}
        out = st.fork()
        for x in allchg:
            r = out.mem[x[0]].copy()
            v0 = r.cells.get(x[1])
            v1 = s.mem[x[0]].cells.get(x[1])
            if x in closed:
                last = self.after(st, lo, hi, step)
                v = subst(closed[x], {b: last})
            elif clean(v1):
                lastb = sub(hi2, 1) if step is ONE else lo2
                nonempty = self.decide(st, lt(lo2, hi2))
                vv = subst(v1, {b: lastb})
                v = vv if v0 is None else self.mergev(nonempty, vv, v0)
            else:
                # sum accumulator?
                d = delta_lift(v1, havoc[x]) if v1.sort in ("I", "R") else None
                if d is not None and clean(d) and v0 is not None:
                    v = add(v0, app("SUM", [b, lo2, hi2, d], "R"))
                else: v = self.fresh("after:" + x[0].split(".")[-1], havoc[x].sort)
            r.cells[x[1]] = v
            out.mem[x[0]] = r
        for k in alllogs:
            r = out.mem[k].copy()
            new = s.mem[k].log[len(h0.mem[k].log):]
            for e in new:
                if e[0] == "cell":
                    if not all(clean(y) for y in (e[1], e[2], e[3]) if isinstance(y, T)): raise Unsupported("array written from values carried between iterations")
                    if b not in free_vars(e[1]): raise Unsupported("every iteration writes the same array element")
                    r.log = r.log + (("map", b, lo2, hi2, e[1], e[2], e[3]),)
                else: raise Unsupported("nested symbolic loops writing an array")
            out.mem[k] = r
        for e in s.events[n0:]:
            if not all(clean(y) for y in (e.addr, e.val, e.guard)): raise Unsupported("memory accessed with values carried between iterations")
            out.events = out.events + (e.with_binder((b, lo2, hi2)),)
        for f in s.facts[len(st.facts):]: pass
        self.write(out, ivreg, ZERO, self.after(st, lo, hi, step))
        return {"n": out}

    def has_havoc(self, t):
        return any(x.op == "app" and str(x.args[0]).startswith("havoc:") for x in subterms(t))

    def after(self, st, lo, hi, step):
        if step is ONE:
            c = self.decide(st, le(lo, hi)); return ite(c, hi, lo)
        c = self.decide(st, le(hi, lo)); return ite(c, hi, lo)

    def bound(self, c, b, step):
        """exclusive bound from a condition le0(+-b + rest)"""
        if c.op == "not" and c.args[0].op == "eq0": return None
        if c.op != "le0": return None
        d = dict(c.args[0].args) if c.args[0].op == "poly" else {((c.args[0], 1),): Fraction(1)}
        co = d.get(((b, 1),))
        if co is None: return None
        rest = sub(c.args[0], mul(const(co), b))
        if b in free_vars(rest): return None
        if step is ONE:
            if co == 1: return sub(ONE, rest)
            if co > 1: return add(floor(div(neg(rest), const(co))), 1)    # co*b <= -rest
            return None
        if co == -1: return sub(rest, 1)           # b >= rest: exclusive lower bound rest - 1
        return None

    def detloop(self, st, fr, cond, nxt, body):
        """any terminating loop on local scalars: the result is a function (named after the transition) of the entry values, and the exit condition holds"""
        havoc = {}
        for rnd in range(8):
            h = st.fork()
            for x, v in havoc.items():
                r = h.mem[x[0]].copy(); r.cells[x[1]] = v; h.mem[x[0]] = r
            c0 = self.truth(h, self.eval(h, fr, cond))
            h.assume(c0)
            h0 = h.fork()
            o = self.stmt(h, fr, body)
            if set(o) - {"n", "c"}: raise Unsupported("control leaves the loop")
            s = self.join(None, [x for x in (o.get("n"), o.get("c")) if x is not None])
            if nxt is not None: self.eval(s, fr, nxt)
            cells, logs = self.changed(h0, s)
            if logs or len(s.events) != len(st.events): raise Unsupported("arrays or memory written")
            new = [x for x in cells if x not in havoc]
            for x in new:
                v0 = st.mem[x[0]].cells.get(x[1])
                if not isinstance(v0, T): raise Unsupported("pointer changed in a loop")
                havoc[x] = var("dl%d" % len(havoc), v0.sort)
            if not new: break
        else: raise Unsupported("loop does not stabilise")
        xs = sorted(havoc, key=str)
        key = " ; ".join("%s := %s" % (show(havoc[x], 99), show(s.mem[x[0]].cells[x[1]], 99)) for x in xs) + " while " + show(c0, 99)
        ent = [st.mem[x[0]].cells[x[1]] for x in xs]
        # invariants: what holds of every value assigned in the loop and at entry
        out = st.fork()
        fin = {}
        for x in xs:
            v = app("LOOP{%s}.%s" % (key, show(havoc[x])), ent, havoc[x].sort)
            r = out.mem[x[0]].copy(); r.cells[x[1]] = v; out.mem[x[0]] = r; fin[x] = v
        e = out.fork()
        out.assume(not_(self.truth(e, self.eval(e, fr, cond))))
        for x in xs:
            if havoc[x].sort == "F": continue
            for bnd in (ge(havoc[x], 0), lt(havoc[x], 1), le(havoc[x], 1)):
                v1 = s.mem[x[0]].cells[x[1]]
                if entails(st.pc, subst(bnd, {havoc[x]: st.mem[x[0]].cells[x[1]]}), 1.0) and entails(tuple(s.pc) + (bnd,), subst(bnd, {havoc[x]: v1}), 1.0): out.assume(subst(bnd, {havoc[x]: fin[x]}))
        return {"n": out}

    def odometer(self, st, fr, cond, nxt, body):
        """while(X[0] != E) { ...; advance the mixed radix counter X }: by induction on the counter the body runs
        exactly once for each X in [0,E)^n"""
        if nxt is not None: return None
        if not (isinstance(cond, c_ast.BinaryOp) and cond.op in ("!=", "<")): return None
        X, Ee = cond.left, cond.right
        if not isinstance(X, c_ast.ArrayRef): X, Ee = Ee, X
        if not isinstance(X, c_ast.ArrayRef): return None
        l = self.lval(st, fr, X)
        if l[0] == "struct" or not (isnum(l[1]) and num(l[1]) == 0): return None
        reg = l[0]
        r = st.mem[reg]
        if not isinstance(r.n, int) or r.log: return None
        n = r.n
        E = self.eval(st, fr, Ee)[0]
        if not all(r.cells.get(d) is ZERO for d in range(n)): raise Unsupported("counter does not start at zero")
        self.oblige("counter loop in %s: at least one state" % fr.fname, st.pc, ge(E, 1))
        digs = [self.fresh("j%d" % d) for d in range(n)]
        inv = [and_(le(0, x), lt(x, E)) for x in digs]
        havoc = {}
        for rnd in range(8):
            h = st.fork()
            rr = h.mem[reg].copy()
            for d in range(n): rr.cells[d] = digs[d]
            h.mem[reg] = rr
            for x, hv in havoc.items():
                q = h.mem[x[0]].copy(); q.cells[x[1]] = hv; h.mem[x[0]] = q
            for c in inv: h.assume(c)
            h0 = h.fork()
            o = self.stmt(h, fr, body)
            if set(o) - {"n", "c"}: raise Unsupported("control leaves the loop")
            s = self.join(None, [x for x in (o.get("n"), o.get("c")) if x is not None])
            cells, logs = self.changed(h0, s)
            if logs: raise Unsupported("array written in counter loop")
            new = [x for x in cells if x[0] != reg and x not in havoc]
            for x in new:
                v0 = st.mem[x[0]].cells.get(x[1])
                ety = st.mem[x[0]].ety
                if v0 is not None and not isinstance(v0, T): raise Unsupported("pointer changed in a loop")
                havoc[x] = self.fresh("hv:" + x[0].split(".")[-1], "I" if isint(ety) else "R")
            if not new: break
        E2 = self.eval(s, fr, Ee)[0]
        if E2 is not E: raise Unsupported("counter limit changes")
        nd = [s.mem[reg].cells[d] for d in range(n)]
        L = lambda x: add(*[mul(x[d], power(E, n - 1 - d)) for d in range(n)])
        hyps = list(h0.pc)
        # split on the conditions that occur in the advanced counter
        def cases(ts, hy):
            c = None
            for t in ts:
                for x in subterms(t):
                    if x.op == "ite": c = x.args[0]; break
                if c is not None: break
            if c is None: return [(hy, ts)]
            out = []
            for cc in (c, not_(c)):
                if feasible(hy + [cc], 0.5):
                    out += cases([tm_ctx(t, c, cc is c) for t in ts], hy + [cc])
            return out
        for hy, ts in cases(nd, hyps):
            # E is one more than a digit at the carry
            eqs = {}
            for d in range(n):
                if eq0(sub(digs[d], sub(E, 1))) in hy or eq(add(digs[d], 1), E) in hy or entails(hy, eq(add(digs[d], 1), E), 0.5): eqs[digs[d]] = sub(E, 1)
            self.oblige("counter loop in %s: one step advances the counter by one" % fr.fname, hy, eq(subst(sub(L(ts), L(digs)), eqs), 1))
            self.oblige("counter loop in %s: counter invariant kept" % fr.fname, hy,
                        or_(and_(*[and_(le(0, ts[d]), lt(ts[d], E)) for d in range(n)]), and_(eq(ts[0], E), *[eq(ts[d], 0) for d in range(1, n)])))
        self.odometers += 1
        out = st.fork()
        hvs = set(havoc.values())
        def clean(v): return not (free_vars(v) & hvs) and not self.has_havoc(v)
        box = tuple((digs[d], ZERO, E) for d in range(n))
        for x, hv in havoc.items():
            q = out.mem[x[0]].copy()
            v1 = s.mem[x[0]].cells[x[1]]; v0 = q.cells.get(x[1])
            d = delta_lift(v1, hv) if v0 is not None else None
            if d is not None and clean(d):
                v = d
                for bb in reversed(box): v = app("SUM", [bb[0], bb[1], bb[2], v], "R")
                q.cells[x[1]] = add(v0, v)
            else: q.cells[x[1]] = self.fresh("after:" + x[0].split(".")[-1], hv.sort)
            out.mem[x[0]] = q
        rr = out.mem[reg].copy()
        for d in range(n): rr.cells[d] = E if d == 0 else ZERO
        out.mem[reg] = rr
        for e in s.events[len(st.events):]:
            if not all(clean(y) for y in (e.addr, e.val, e.guard)): raise Unsupported("memory accessed with values carried between iterations")
            for bb in reversed(box): e = e.with_binder(bb)
            out.events = out.events + (e,)
        return {"n": out}

def iterf(f, s, n):
    """the n-th iterate of f on s"""
    n = mk(n)
    if n is ZERO: return s
    if s.op == "app" and s.args[0] == f: return iterf(f, s.args[1], add(s.args[2], n))
    return app(f, [s, n], "F")

def sum_poly(d, b, lo):
    """sum of d for b' = lo .. b-1 as a polynomial in b; d polynomial in b of degree at most 2"""
    co = {}
    for m, c in (dict(d.args) if d.op == "poly" else ({(): num(d)} if isnum(d) else {((d, 1),): Fraction(1)})).items():
        k = 0; rest = []
        for a, e in m:
            if a is b: k = e
            elif b in free_vars(a): return None
            else: rest.append((a, e))
        if k < 0 or k > 2: return None
        co[k] = add(co.get(k, ZERO), from_pd({tuple(rest): c}))
    S = [lambda n: n, lambda n: mul(Fraction(1, 2), mul(n, sub(n, 1))), lambda n: mul(Fraction(1, 6), mul(mul(n, sub(n, 1)), sub(mul(2, n), 1)))]
    r = ZERO
    for k, c in co.items(): r = add(r, mul(c, sub(S[k](b), S[k](lo))))
    return r

def tm_ctx(t, c, val):
    """t with the condition c replaced by its value"""
    return subst(t, {c: const(val), not_(c): const(not val)})

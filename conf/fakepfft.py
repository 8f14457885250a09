"""In-process stand-in for pfft and mpsort on top of fakempi.

The contract it implements is pfft's documented one: block distribution of the first axes of the input, of the following
axes of a transposed output, unnormalised transforms, padded or unpadded storage, in-place plans only on shared buffers,
DESTROY_INPUT really destroys. A rank without data reports start 0 and shape 0 (as the installed pfft does)."""
import sys, types
import numpy as np
from conf import fakempi

ORDER = ["C"]   # how ranks map to the process mesh; pmesh must not depend on it

class Flags(object):
    PFFT_TRANSPOSED_OUT, PFFT_TRANSPOSED_IN, PFFT_DESTROY_INPUT, PFFT_PRESERVE_INPUT, PFFT_PADDED_R2C, PFFT_PADDED_C2R, PFFT_ESTIMATE, PFFT_MEASURE, PFFT_EXHAUSTIVE = [1 << i for i in range(9)]
class Type(object):
    PFFT_R2C, PFFT_C2R, PFFT_C2C, PFFTF_R2C, PFFTF_C2R, PFFTF_C2C = range(6)
class Direction(object):
    PFFT_FORWARD, PFFT_BACKWARD = -1, 1

def split_size_2d(n):
    a = int(n ** 0.5)
    while n % a: a -= 1
    return [n // a, a]

class ProcMesh(object):
    def __init__(self, np_, comm):
        self.shape = list(int(x) for x in np_)
        self.comm = comm
        if int(np.prod(self.shape)) != comm.size: raise ValueError("process mesh does not match communicator")
        r = comm.rank
        if ORDER[0] == "rev": r = comm.size - 1 - r
        self.coord = np.unravel_index(r, self.shape, order="F" if ORDER[0] == "F" else "C") if self.shape else ()
        comm._r("pfft.ProcMesh", None, lambda p: [None] * len(p), (tuple(self.shape),))

def blocks(n, p):
    b = -(-n // p)
    return [min(i * b, n) for i in range(p + 1)]

class Partition(object):
    def __init__(self, type, n, procmesh, flags):
        self.type, self.flags, self.procmesh = type, flags, procmesh
        self.n = np.array(n, 'intp')
        self.ndim = len(n)
        self.c2c = type in (Type.PFFT_C2C, Type.PFFTF_C2C)
        self.single = type in (Type.PFFTF_R2C, Type.PFFTF_C2C)
        self.no = self.n.copy()
        if not self.c2c: self.no[-1] = self.n[-1] // 2 + 1
        P = procmesh.shape
        tr = bool(flags & Flags.PFFT_TRANSPOSED_OUT) and len(P) < self.ndim
        self.transposed = tr
        self.padded = bool(flags & Flags.PFFT_PADDED_R2C) and not self.c2c
        iax = list(range(len(P)))
        oax = [d + 1 for d in iax] if tr else iax
        self.i_edges = [np.array([0, x], 'intp') for x in self.n]
        self.o_edges = [np.array([0, x], 'intp') for x in self.no]
        ist = np.zeros(self.ndim, 'intp'); ish = self.n.copy()
        ost = np.zeros(self.ndim, 'intp'); osh = self.no.copy()
        for k, (p, c) in enumerate(zip(P, procmesh.coord)):
            e = blocks(int(self.n[iax[k]]), p); self.i_edges[iax[k]] = np.array(e, 'intp')
            ist[iax[k]], ish[iax[k]] = e[c], e[c + 1] - e[c]
            e = blocks(int(self.no[oax[k]]), p); self.o_edges[oax[k]] = np.array(e, 'intp')
            ost[oax[k]], osh[oax[k]] = e[c], e[c + 1] - e[c]
        ist[ish == 0] = 0
        ost[osh == 0] = 0
        self.local_i_start, self.local_i_shape, self.local_o_start, self.local_o_shape = ist, ish, ost, osh
        self.rdtype = np.dtype({(0, 0): 'f8', (0, 1): 'f4', (1, 0): 'c16', (1, 1): 'c8'}[int(self.c2c), int(self.single)])
        self.cdtype = np.dtype('c8' if self.single else 'c16')
        procmesh.comm._r("pfft.Partition", None, lambda p: [None] * len(p), (tuple(int(x) for x in n), int(type), int(flags)))

class LocalBuffer(object):
    def __init__(self, partition, base=None):
        self.partition = partition
        if base is not None:
            if not isinstance(base, LocalBuffer): raise TypeError("base must be a LocalBuffer")
            self.storage = base.storage
        else:
            # enough for any view of any partition of this mesh
            self.storage = np.full(int(np.prod(partition.n + 2)) * 16 + 64, 0x5a, 'u1')
    def __contains__(self, other):
        return other.storage is self.storage
    def view_input(self):
        p = self.partition
        sh = [int(x) for x in p.local_i_shape]
        mem = list(sh)
        if p.padded and mem[-1] == p.n[-1]: mem[-1] = 2 * int(p.no[-1])
        a = self.storage[:int(np.prod(mem)) * p.rdtype.itemsize].view(p.rdtype).reshape(mem)
        return a[..., :sh[-1]]
    def view_output(self):
        p = self.partition
        sh = [int(x) for x in p.local_o_shape]
        ax = list(range(p.ndim))
        if p.transposed: ax = ax[1:] + ax[:1]
        mem = [sh[a] for a in ax]
        a = self.storage[:int(np.prod(mem)) * p.cdtype.itemsize].view(p.cdtype).reshape(mem)
        return a.transpose(np.argsort(ax))

class Plan(object):
    def __init__(self, partition, direction, i, o, type, flags):
        self.partition, self.direction, self.flags, self.type = partition, direction, flags, type
        self.inplace = i.storage is o.storage
        if direction == Direction.PFFT_FORWARD: assert bool(flags & Flags.PFFT_TRANSPOSED_OUT) == bool(partition.flags & Flags.PFFT_TRANSPOSED_OUT)
        else: assert bool(flags & Flags.PFFT_TRANSPOSED_IN) == bool(partition.flags & Flags.PFFT_TRANSPOSED_OUT)
    def execute(self, i, o):
        if (i.storage is o.storage) != self.inplace: raise ValueError("plan executed with buffers it was not made for")
        p = self.partition
        if i.partition.no.tolist() != p.no.tolist() or o.partition.no.tolist() != p.no.tolist(): raise ValueError("buffers of another mesh")
        # the plan's own partition decides the layout of the data
        bi, bo = LocalBuffer(p, base=i), LocalBuffer(p, base=o)
        fwd = self.direction == Direction.PFFT_FORWARD
        src = bi.view_input() if fwd else bi.view_output()
        st = p.local_i_start if fwd else p.local_o_start
        full_in = p.n if fwd else p.no
        def comp(pl):
            dt = 'c16' if (p.c2c or not fwd) else 'f8'
            full = np.zeros([int(x) for x in full_in], dt)
            for s, a in pl: full[tuple(slice(int(b), int(b) + n) for b, n in zip(s, a.shape))] = a
            if p.c2c: r = np.fft.fftn(full) if fwd else np.fft.ifftn(full) * full.size
            else: r = np.fft.rfftn(full) if fwd else np.fft.irfftn(full, s=[int(x) for x in p.n]) * float(np.prod(p.n))
            return [r] * len(pl)
        r = p.procmesh.comm._r("pfft.execute", (st.copy(), src.copy()), comp, (tuple(int(x) for x in p.n), self.direction, int(p.flags)))
        if self.flags & Flags.PFFT_DESTROY_INPUT and not self.inplace: src[...] = 12345.0
        st, dst = (p.local_o_start, bo.view_output()) if fwd else (p.local_i_start, bo.view_input())
        dst[...] = r[tuple(slice(int(b), int(b) + n) for b, n in zip(st, dst.shape))]

def _sort(source, orderby, out, comm):
    src = np.array(source); ob = np.array(orderby)
    if len(src) != len(ob): raise ValueError("source and orderby differ in length")
    def comp(pl):
        s = np.concatenate([x[0] for x in pl]); o = np.concatenate([x[1] for x in pl]); n = [x[2] for x in pl]
        if sum(n) != len(s): raise ValueError("total output size differs from input")
        s = s[np.argsort(o, kind="stable")]
        e = np.cumsum([0] + n)
        return [s[a:b] for a, b in zip(e[:-1], e[1:])]
    r = comm._r("mpsort.sort", (src, ob, len(out)), comp)
    out[...] = r
    return out

def sort(source, orderby=None, comm=None, out=None):
    if out is None: out = np.empty_like(source)
    return _sort(source, source if orderby is None else orderby, out, comm)

def take(source, argindex, comm, out=None):
    def comp(pl):
        s = np.concatenate([x[0] for x in pl])
        for x in pl:
            if len(x[1]) and (x[1].min() < 0 or x[1].max() >= len(s)): raise ValueError("take out of range")
        return [s[x[1]] for x in pl]
    r = comm._r("mpsort.take", (np.array(source), np.array(argindex, 'intp')), comp)
    if out is None: return r
    out[...] = r
    return out

def permute(source, argindex, comm, out=None):
    def comp(pl):
        s = np.concatenate([x[0] for x in pl])
        i = np.concatenate([x[1] for x in pl])
        if sorted(i.tolist()) != list(range(len(s))): raise ValueError("not a permutation")
        return [s[x[1]] for x in pl]
    r = comm._r("mpsort.permute", (np.array(source), np.array(argindex, 'intp')), comp)
    if out is None: return r
    out[...] = r
    return out

def install():
    m = types.ModuleType("pfft")
    for n, v in list(globals().items()):
        if n in ("Flags", "Type", "Direction", "split_size_2d", "ProcMesh", "Partition", "LocalBuffer", "Plan"): setattr(m, n, v)
    sys.modules["pfft"] = m
    s = types.ModuleType("mpsort")
    s.sort, s.take, s.permute = sort, take, permute
    sys.modules["mpsort"] = s

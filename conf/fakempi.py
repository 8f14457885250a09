"""In-process stand-in for mpi4py: N ranks as threads, strict matching of collectives.

Installed as sys.modules['mpi4py'] before pmesh is imported. The contract of each collective is the MPI standard's:
 Alltoall, Alltoallv, allgather, bcast, allreduce, Allreduce(IN_PLACE), Barrier."""
import sys, types, threading, copy
import numpy as np

class CollectiveMismatch(Exception):
    pass

class Datatype(object):
    def __init__(self, size): self._size = size
    def Create_contiguous(self, n): return Datatype(self._size * int(n))
    def Commit(self): return self
    def Free(self): pass
    def Get_size(self): return self._size

SUM = "SUM"; IN_PLACE = "IN_PLACE"; MAX = "MAX"; MIN = "MIN"

class World(object):
    def __init__(self, size):
        self.size = size
        self.cond = threading.Condition()
        self.calls = {}      # seq -> {rank: (op, payload)}
        self.results = {}
        self.seq = [0] * size
        self.done = [False] * size
        self.dead = None
        self.traces = [[] for i in range(size)]

    def rendezvous(self, rank, op, sig, payload, compute):
        with self.cond:
            n = self.seq[rank]
            self.seq[rank] += 1
            self.traces[rank].append((op,) + sig)
            self.calls.setdefault(n, {})[rank] = (op, sig, payload)
            if self.dead:
                raise CollectiveMismatch(self.dead)
            if len(self.calls[n]) == self.size:
                ops = set((c[0],) + c[1] for c in self.calls[n].values())
                if len(ops) != 1:
                    self.dead = "collective #%d differs between ranks: %s" % (n, sorted(map(str, ops)))
                    self.cond.notify_all()
                    raise CollectiveMismatch(self.dead)
                try:
                    self.results[n] = compute([self.calls[n][r][2] for r in range(self.size)])
                except Exception as e:
                    self.dead = "collective #%d (%s): %s" % (n, op, e)
                    self.cond.notify_all()
                    raise CollectiveMismatch(self.dead)
                self.cond.notify_all()
            else:
                while n not in self.results and not self.dead:
                    missing = [r for r in range(self.size) if r not in self.calls[n]]
                    if any(self.done[r] for r in missing):
                        self.dead = "rank %d waits in collective #%d (%s) that rank(s) %s never enter" % (
                            rank, n, op, [r for r in missing if self.done[r]])
                        self.cond.notify_all()
                        break
                    self.cond.wait(60)
                if n not in self.results:
                    raise CollectiveMismatch(self.dead or "timeout")
            return self.results[n][rank]

    def finish(self, rank):
        with self.cond:
            self.done[rank] = True
            self.cond.notify_all()

def _alltoallv(payloads):
    # payload: (sendbytes, scounts, soffs, ssize, recvview, rcounts, roffs, rsize)
    P = len(payloads)
    for s in range(P):
        for r in range(P):
            sb, sc, so, ss = payloads[s][:4]
            rv, rc, ro, rs = payloads[r][4:]
            ns = int(sc[r]) * ss
            nr = int(rc[s]) * rs
            if ns != nr:
                raise ValueError("rank %d sends %d bytes to rank %d which expects %d" % (s, ns, r, nr))
            if ns == 0:
                continue
            a = int(so[r]) * ss; b = int(ro[s]) * rs
            if a < 0 or a + ns > len(sb): raise ValueError("send buffer overrun")
            if b < 0 or b + nr > len(rv): raise ValueError("receive buffer overrun")
    out = []
    for r in range(P):
        rv, rc, ro, rs = payloads[r][4:]
        for s in range(P):
            sb, sc, so, ss = payloads[s][:4]
            n = int(sc[r]) * ss
            if n:
                a = int(so[r]) * ss; b = int(ro[s]) * rs
                rv[b:b + n] = sb[a:a + n]
        out.append(None)
    return out

def _bytes(a):
    a = np.asarray(a)
    # like mpi4py: the raw memory of any contiguous array, whatever the order of its axes
    if not (a.flags.c_contiguous or a.flags.f_contiguous):
        raise ValueError("buffer is not contiguous")
    return a.ravel(order='K').view('u1') if a.size else np.empty(0, 'u1')

class Comm(object):
    def __init__(self, world, rank):
        self.world, self.rank, self.size = world, rank, world.size
    def Get_rank(self): return self.rank
    def Get_size(self): return self.size
    def _r(self, op, payload, compute, sig=()):
        return self.world.rendezvous(self.rank, op, sig, payload, compute)
    def Barrier(self):
        self._r("Barrier", None, lambda p: [None] * len(p))
    barrier = Barrier
    def allgather(self, x):
        return list(self._r("allgather", copy.copy(x), lambda p: [list(p)] * len(p)))
    def gather(self, x, root=0):
        return self._r("gather", x, lambda p: [list(p) if r == root else None for r in range(len(p))], (root,))
    def bcast(self, x=None, root=0):
        return self._r("bcast", x, lambda p: [p[root]] * len(p), (root,))
    def allreduce(self, x, op=SUM):
        def comp(p):
            r = copy.deepcopy(p[0])
            for v in p[1:]:
                r = _op(op)(r, v)
            return [copy.deepcopy(r) for v in p]
        return self._r("allreduce", x, comp, (str(op),))
    def Allreduce(self, a, b, op=SUM):
        src = b if a is IN_PLACE or (isinstance(a, str) and a == IN_PLACE) else a
        def comp(p):
            r = np.array(p[0], copy=True)
            for v in p[1:]:
                if v.shape != r.shape or v.dtype != r.dtype:
                    raise ValueError("Allreduce buffers differ")
                r = _op(op)(r, v)
            return [r] * len(p)
        res = self._r("Allreduce", np.array(src, copy=True), comp, (str(op),))
        b[...] = res
    def Alltoall(self, a, b):
        a = np.asarray(a)
        if not (a.flags.c_contiguous and b.flags.c_contiguous): raise ValueError("not contiguous")
        def comp(p):
            P = len(p)
            n = len(p[0][0]) // P
            for s, q in p:
                if len(s) != n * P or len(q) != n * P or s.dtype != p[0][0].dtype or q.dtype != p[0][0].dtype:
                    raise ValueError("Alltoall buffers differ in size or type")
            new = [np.concatenate([p[s][0][r * n:(r + 1) * n] for s in range(P)]) for r in range(P)]
            for r in range(P):
                p[r][1][...] = new[r]
            return [None] * P
        self._r("Alltoall", (a.copy(), b), comp)
    def Alltoallv(self, send, recv):
        (sb, (sc, so), sdt) = send
        (rb, (rc, ro), rdt) = recv
        self._r("Alltoallv", (_bytes(sb).copy(), np.array(sc), np.array(so), sdt.Get_size(), _bytes(rb), np.array(rc), np.array(ro), rdt.Get_size()), _alltoallv)
    def Split(self, color=0, key=0):
        raise NotImplementedError
    def Dup(self):
        return self

def _op(op):
    if op == SUM: return lambda a, b: a + b
    if op == MAX: return np.maximum
    if op == MIN: return np.minimum
    raise ValueError(op)

class MPIError(Exception):
    pass

def run(size, fn, timeout=120):
    """Run fn(comm) on `size` ranks; returns list of ('ok', value) / ('exc', exception). Raises CollectiveMismatch."""
    world = World(size)
    res = [None] * size
    def main(r):
        try:
            res[r] = ('ok', fn(Comm(world, r)))
        except CollectiveMismatch as e:
            res[r] = ('mismatch', e)
        except BaseException as e:
            import traceback
            e._tb = traceback.format_exc()
            res[r] = ('exc', e)
        finally:
            world.finish(r)
    if size == 1:
        main(0)
    else:
        ts = [threading.Thread(target=main, args=(r,), daemon=True) for r in range(size)]
        for t in ts: t.start()
        for t in ts: t.join(timeout)
        if any(t.is_alive() for t in ts):
            raise CollectiveMismatch("ranks did not finish (deadlock)")
    return res, world

def ok(res):
    """values of all ranks, re-raising failures"""
    for k, v in res:
        if k == 'exc':
            raise RuntimeError("rank raised: " + getattr(v, '_tb', repr(v)))
    for k, v in res:
        if k == 'mismatch':
            raise v
    return [v for k, v in res]

_world1 = World(1)

def install():
    m = types.ModuleType("mpi4py")
    MPI = types.ModuleType("mpi4py.MPI")
    MPI.COMM_WORLD = Comm(_world1, 0)
    MPI.COMM_SELF = MPI.COMM_WORLD
    MPI.BYTE = Datatype(1)
    MPI.SUM, MPI.MAX, MPI.MIN, MPI.IN_PLACE = SUM, MAX, MIN, IN_PLACE
    MPI._addressof = lambda comm: id(comm.world)
    MPI.Comm = Comm
    m.MPI = MPI
    sys.modules["mpi4py"] = m
    sys.modules["mpi4py.MPI"] = MPI

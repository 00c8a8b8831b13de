"""A stand-in for mpi4py: the ranks run in lockstep, one at a time, and meet at every collective operation."""
import threading
import types

import numpy as np

from . import symnp as sn
from .engine import EngineStop


class Stop(BaseException):
    pass


class CollectiveMismatch(Exception):
    """The ranks do not agree on the collective operation: a real run would hang or abort."""


class World:
    def __init__(self, size):
        self.size = size
        self.go = [threading.Semaphore(0) for _ in range(size)]
        self.back = threading.Semaphore(0)
        self.slot = [None] * size
        self.reply = [None] * size
        self.state = ["new"] * size
        self.result = [None] * size
        self.err = None
        self.killed = False
        self.log = []

    # ---- called by a rank ----
    def meet(self, rank, kind, payload):
        if self.killed:
            raise Stop()
        self.slot[rank] = (kind, payload)
        self.state[rank] = "waiting"
        self.back.release()
        self.go[rank].acquire()
        if self.killed:
            raise Stop()
        r = self.reply[rank]
        if isinstance(r, BaseException):
            raise r
        return r

    # ---- the scheduler ----
    def run(self, fns):
        threads = []
        old = threading.stack_size(512 << 20)
        try:
            for r, fn in enumerate(fns):
                t = threading.Thread(target=self._main, args=(r, fn), daemon=True)
                threads.append(t)
                t.start()
        finally:
            threading.stack_size(old)
        try:
            while any(s != "done" for s in self.state):
                for r in range(self.size):
                    if self.state[r] in ("new", "ready"):
                        self.state[r] = "running"
                        self.go[r].release()
                        self.back.acquire()
                        if self.err is not None:
                            raise self.err
                waiting = [r for r in range(self.size) if self.state[r] == "waiting"]
                if not waiting:
                    continue
                kinds = {self.slot[r][0] for r in waiting}
                if len(waiting) < self.size or len(kinds) > 1:
                    what = sorted(kinds) + (["returned"] if len(waiting) < self.size else [])
                    for r in waiting:
                        self.reply[r] = CollectiveMismatch(f"ranks at {what}")
                        self.state[r] = "ready"
                    continue
                pay = [self.slot[r][1] for r in range(self.size)]
                self.log.append(kinds.pop())
                for r in range(self.size):
                    self.reply[r] = pay
                    self.state[r] = "ready"
        finally:
            self.killed = True
            for r in range(self.size):
                self.go[r].release()
            for t in threads:
                t.join()
        return self.result

    def _main(self, r, fn):
        self.go[r].acquire()
        if self.killed:
            return
        try:
            with np.errstate(all="ignore"):
                self.result[r] = fn(r)
        except Stop:
            pass
        except BaseException as e:  # noqa: BLE001
            self.err = e
        self.state[r] = "done"
        self.back.release()


def _buf(spec):
    return spec[0] if isinstance(spec, (list, tuple)) else spec


def module(world, rank):
    """The mpi4py module as one rank sees it."""
    MPI = types.ModuleType("mpi4py.MPI")
    for n in ("DOUBLE", "FLOAT", "INT", "LONG", "BOOL", "SUM", "MIN", "MAX", "PROD", "IN_PLACE"):
        setattr(MPI, n, f"MPI.{n}")

    def combine(parts, op):
        acc = parts[0]
        for p in parts[1:]:
            acc = {"MPI.SUM": lambda a, b: a + b, "MPI.MIN": sn_min, "MPI.MAX": sn_max,
                   "MPI.PROD": lambda a, b: a * b}[op](acc, p)
        return acc

    def snap(a):
        return a.copy() if isinstance(a, np.ndarray) else a

    class Comm:
        def Get_rank(self):
            return rank

        def Get_size(self):
            return world.size

        def Barrier(self):
            world.meet(rank, "Barrier", None)

        barrier = Barrier

        def Bcast(self, buf, root=0):
            b = _buf(buf)
            pay = world.meet(rank, f"Bcast {root} {b.shape}", snap(b))
            if rank != root:
                b[...] = pay[root]

        def bcast(self, obj=None, root=0):
            return snap(world.meet(rank, f"bcast {root}", obj)[root])

        def Allreduce(self, send, recv, op="MPI.SUM"):
            r = _buf(recv)
            s = _buf(send)
            s = r if isinstance(s, str) or isinstance(send, str) else s
            pay = world.meet(rank, f"Allreduce {op} {s.shape}", snap(s))
            r[...] = combine(pay, op)

        def allreduce(self, obj, op="MPI.SUM"):
            return snap(combine(world.meet(rank, f"allreduce {op}", snap(obj)), op))

        def Reduce(self, send, recv, op="MPI.SUM", root=0):
            s = _buf(send)
            pay = world.meet(rank, f"Reduce {op} {root} {s.shape}", snap(s))
            if rank == root:
                _buf(recv)[...] = combine(pay, op)

        def reduce(self, obj, op="MPI.SUM", root=0):
            pay = world.meet(rank, f"reduce {op} {root}", snap(obj))
            return combine(pay, op) if rank == root else None

        def allgather(self, obj):
            return [snap(p) for p in world.meet(rank, "allgather", obj)]

        def gather(self, obj, root=0):
            pay = world.meet(rank, f"gather {root}", obj)
            return [snap(p) for p in pay] if rank == root else None

        def scatter(self, obj=None, root=0):
            return snap(world.meet(rank, f"scatter {root}", obj)[root][rank])

    Comm.size, Comm.rank = world.size, rank
    MPI.COMM_WORLD = Comm()
    MPI.Comm = Comm
    m = types.ModuleType("mpi4py")
    m.MPI = MPI
    return m


def sn_min(a, b):
    return np.minimum(a, b)


def sn_max(a, b):
    return np.maximum(a, b)

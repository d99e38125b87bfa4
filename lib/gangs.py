"""Multi-rank simulation: a gang whose ranks are threads, and pools of real
gloo processes."""
from __future__ import annotations

import ctypes
import os
import pickle
import socket
import threading
import traceback
from collections.abc import Callable, Sequence
from typing import Any

import torch
from torch import Tensor

from harness import Violation

from fairseq2.device import CPU
from fairseq2.gang import FakeGang, Gang, Gangs, ReduceOperation


class Deadlock(Violation):
    pass


class _World:
    def __init__(self) -> None:
        self.blocked = 0
        self.progress = 0
        self.lock = threading.Lock()


class _Shared:
    """State shared by the ranks of one gang."""

    def __init__(self, size: int, world: _World | None = None) -> None:
        self.size = size
        self.world = world or _World()
        self.barrier = threading.Barrier(size)
        self.slots: list[Any] = [None] * size
        self.subs: dict[Any, _Shared] = {}
        self.lock = threading.Lock()
        self.timeout = 60.0

    def wait(self) -> None:
        w = self.world
        with w.lock:
            w.blocked += 1
        try:
            self.barrier.wait(self.timeout)
        finally:
            with w.lock:
                w.blocked -= 1
                w.progress += 1

    def exchange(self, rank: int, value: Any) -> list[Any]:
        self.slots[rank] = value
        self.wait()
        vals = list(self.slots)
        self.wait()
        return vals

    def abort(self) -> None:
        self.barrier.abort()
        with self.lock:
            subs = list(self.subs.values())
        for s in subs:
            s.abort()


class ThreadGang(Gang):
    def __init__(self, shared: _Shared, rank: int, device=CPU) -> None:
        self._s = shared
        self._rank = rank
        self._device = device
        self._n_sub = 0
        self.calls: list[str] = []

    def close(self) -> None:
        pass

    def create_gang(self, ranks: Sequence[int]) -> Gang | None:
        ranks = list(ranks)
        if len(set(ranks)) != len(ranks) or any(r < 0 or r >= self.size for r in ranks):
            raise ValueError("bad ranks")
        key = (self._n_sub, tuple(ranks))
        self._n_sub += 1
        with self._s.lock:
            sub = self._s.subs.get(key)
            if sub is None:
                sub = self._s.subs[key] = _Shared(len(ranks), self._s.world)
        if self._rank not in ranks:
            return None
        return ThreadGang(sub, ranks.index(self._rank), self._device)

    def as_process_group(self):
        from fairseq2.error import NotSupportedError

        raise NotSupportedError("no process group")

    def _xchg(self, name: str, v: Any) -> list[Any]:
        self.calls.append(name)
        vals = self._s.exchange(self._rank, (name, v))
        if len({n for n, _ in vals}) != 1:
            raise Deadlock(f"ranks issued different collectives: {[n for n, _ in vals]}")
        return [v for _, v in vals]

    def barrier(self) -> None:
        self._xchg("barrier", None)

    def all_reduce(self, tensor: Tensor, op: ReduceOperation) -> None:
        vals = self._xchg(f"all_reduce {op} {tuple(tensor.shape)} {tensor.dtype}", tensor.detach().clone())
        st = torch.stack(vals)
        if op == ReduceOperation.SUM:
            r = st.sum(0)
        elif op == ReduceOperation.MEAN:
            r = st.to(torch.float64).mean(0) if not st.is_floating_point() else st.mean(0)
        elif op == ReduceOperation.PRODUCT:
            r = st.prod(0)
        elif op == ReduceOperation.MIN:
            r = st.amin(0)
        else:
            r = st.amax(0)
        with torch.no_grad():
            tensor.copy_(r.to(tensor.dtype))

    def all_gather(self, output_tensor: Tensor, input_tensor: Tensor) -> None:
        vals = self._xchg(f"all_gather {tuple(input_tensor.shape)} {input_tensor.dtype}", input_tensor.detach().clone())
        with torch.no_grad():
            output_tensor.view(self.size, *input_tensor.shape).copy_(torch.stack(vals))

    def all_gather_to_list(self, output_tensors: list[Tensor], input_tensor: Tensor) -> None:
        vals = self._xchg("all_gather_to_list", input_tensor.detach().clone())
        if len(output_tensors) != self.size:
            raise ValueError("bad length")
        with torch.no_grad():
            for o, v in zip(output_tensors, vals):
                o.copy_(v)

    def broadcast(self, tensor: Tensor, source_rank: int = 0) -> None:
        if not 0 <= source_rank < self.size:
            raise ValueError("bad source rank")
        vals = self._xchg(f"broadcast {source_rank}", tensor.detach().clone())
        if self._rank != source_rank:
            with torch.no_grad():
                tensor.copy_(vals[source_rank])

    def broadcast_objects(self, objects: list[object], source_rank: int = 0) -> None:
        if not 0 <= source_rank < self.size:
            raise ValueError("bad source rank")
        vals = self._xchg(f"broadcast_objects {source_rank} {len(objects)}", pickle.dumps(list(objects)))
        if self._rank != source_rank:
            objects[:] = pickle.loads(vals[source_rank])

    @property
    def rank(self) -> int:
        return self._rank

    @property
    def size(self) -> int:
        return self._s.size

    @property
    def device(self):
        return self._device

    @property
    def supports_process_group(self) -> bool:
        return False


class RankError(Exception):
    pass


def run_ranks(n: int, fn: Callable[[Gang], Any], *, timeout: float = 60.0) -> list[Any]:
    """Runs `fn(gang)` on `n` ranks (threads); returns the per-rank results.

    Raises the first real error of a rank.
    """
    shared = _Shared(n)
    shared.timeout = timeout
    results: list[Any] = [None] * n
    errors: list[tuple[int, BaseException]] = []
    lock = threading.Lock()

    def body(r: int) -> None:
        try:
            results[r] = fn(ThreadGang(shared, r))
        except threading.BrokenBarrierError as ex:
            with lock:
                errors.append((r, ex))
        except BaseException as ex:
            with lock:
                errors.insert(0, (r, ex))
            shared.abort()

    ths = [threading.Thread(target=body, args=(r,), daemon=True) for r in range(n)]
    for t in ths:
        t.start()
    # All live ranks blocked, without progress, means that they never meet.
    stuck = 0
    seen = -1
    delay = 0.0005
    while any(t.is_alive() for t in ths):
        next(t for t in ths if t.is_alive()).join(delay)
        delay = min(0.25, delay * 2)
        with shared.world.lock:
            alive = sum(t.is_alive() for t in ths)
            still = alive > 0 and shared.world.blocked >= alive and shared.world.progress == seen
            seen = shared.world.progress
        stuck = stuck + 1 if still and delay >= 0.25 else 0
        if stuck >= 8:
            shared.abort()
    if errors:
        real = [e for _, e in errors if not isinstance(e, threading.BrokenBarrierError)]
        raise (real or [Deadlock("a collective was not joined by every rank")])[0]
    return results


def thread_gangs(root: Gang, tp_size: int = 1, *, dp_is_root: bool = False) -> Gangs:
    """Gangs of a rank in a (dp, tp) grid of thread gangs."""
    fake = FakeGang(device=CPU)
    if tp_size == 1:
        return Gangs(root=root, dp=root, rdp=root, sdp=fake, tp=fake, pp=fake)
    n = root.size
    if tp_size == n:
        return Gangs(root=root, dp=fake, rdp=fake, sdp=fake, tp=root, pp=fake)
    dp = n // tp_size
    mesh = [[i * tp_size + j for j in range(tp_size)] for i in range(dp)]
    dpg = tpg = None
    for j in range(tp_size):
        g = root.create_gang([mesh[i][j] for i in range(dp)])
        dpg = g or dpg
    for i in range(dp):
        g = root.create_gang(mesh[i])
        tpg = g or tpg
    assert dpg is not None and tpg is not None
    return Gangs(root=root, dp=dpg, rdp=dpg, sdp=fake, tp=tpg, pp=fake)


def free_port() -> int:
    with socket.socket() as s:
        s.bind(("127.0.0.1", 0))
        return s.getsockname()[1]


class ProcPool:
    """`n` forked processes joined in a gloo group; each runs `fn(gang, arg)`."""

    def __init__(self, n: int, fn: Callable[[Gang, Any], Any]) -> None:
        import multiprocessing as mp

        ctx = mp.get_context("fork")
        port = free_port()
        self.n = n
        self.conns = []
        self.procs = []
        for r in range(n):
            a, b = ctx.Pipe()
            p = ctx.Process(target=self._worker, args=(n, r, port, b, fn, self.conns + [a]), daemon=True)
            p.start()
            b.close()
            self.conns.append(a)
            self.procs.append(p)
        for r, c in enumerate(self.conns):
            if not c.poll(120) or c.recv() != "ready":
                raise RuntimeError("gloo pool did not start")

    @staticmethod
    def _worker(n, r, port, conn, fn, others) -> None:
        try:
            ctypes.CDLL(None).prctl(1, 9)  # ends with its parent
            for c in others:
                c.close()
            dn = os.open(os.devnull, os.O_WRONLY)
            os.dup2(dn, 1)
            os.environ.update(MASTER_ADDR="127.0.0.1", MASTER_PORT=str(port), RANK=str(r), WORLD_SIZE=str(n),
                              LOCAL_RANK=str(r), LOCAL_WORLD_SIZE=str(n), GLOO_SOCKET_IFNAME="lo")
            torch.set_num_threads(1)
            from datetime import timedelta

            from fairseq2.gang import ProcessGroupGang

            gang = ProcessGroupGang.create_default_process_group(CPU, timeout=timedelta(seconds=25))
            conn.send("ready")
        except BaseException:
            traceback.print_exc()
            conn.send("failed")
            os._exit(1)
        while True:
            try:
                arg = conn.recv()
            except EOFError:
                os._exit(0)
            try:
                conn.send(("ok", fn(gang, arg)))
            except BaseException as ex:
                conn.send(("err", (type(ex).__name__, str(ex), traceback.format_exc())))

    def run(self, args: list[Any], timeout: float = 90.0) -> list[Any]:
        for c, a in zip(self.conns, args):
            c.send(a)
        out = []
        for c in self.conns:
            if not c.poll(timeout):
                out.append(("hang", None))
                continue
            try:
                out.append(c.recv())
            except EOFError:
                out.append(("died", None))
        return out

    def kill(self) -> None:
        for p in self.procs:
            p.kill()
            p.join()
        for c in self.conns:
            c.close()

    def close(self) -> None:
        for c in self.conns:
            c.close()
        for p in self.procs:
            p.join(2)
            if p.is_alive():
                p.kill()
                p.join()

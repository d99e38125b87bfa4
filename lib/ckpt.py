"""Helpers of the checkpoint checks: thread pools, states, comparison."""
from __future__ import annotations

import copy
from collections import OrderedDict
from pathlib import Path

import torch
from hypothesis import strategies as st

from fairseq2.checkpoint import StandardCheckpointManager
from fairseq2.device import CPU
from fairseq2.file_system import FSspecFileSystem, GlobalFileSystem, NativeLocalFileSystem
from fairseq2.gang import FakeGang, Gang, Gangs
from fairseq2.io import _TorchTensorFileDumper, _TorchTensorFileLoader
from fairseq2.utils.threading import ThreadPool


class LazyFuture:
    """Runs its work when it is asked for, or when its time has come."""

    def __init__(self, fn, polls: int) -> None:
        self.fn, self.polls, self.ran, self.value, self.error = fn, polls, False, None, None

    def run(self) -> None:
        if not self.ran:
            self.ran = True
            try:
                self.value = self.fn()
            except BaseException as ex:
                self.error = ex

    def done(self) -> bool:
        if not self.ran and self.polls <= 0:
            self.run()
        self.polls -= 1
        return self.ran

    def result(self, timeout=None):
        self.run()
        if self.error is not None:
            raise self.error
        return self.value


class LazyPool(ThreadPool):
    """A thread pool whose work runs late, on the caller: its worst schedule."""

    def __init__(self, polls=lambda: 0) -> None:
        self.polls = polls
        self.queued = 0

    def queue(self, callback, *args, **kwargs):
        self.queued += 1
        return LazyFuture(lambda: callback(*args, **kwargs), self.polls())


class State:
    """A Stateful that holds whatever it is given."""

    def __init__(self, d=None) -> None:
        self.d = d

    def state_dict(self):
        return self.d

    def load_state_dict(self, d):
        self.d = d


def file_system(kind: str):
    if kind == "native":
        return NativeLocalFileSystem()
    if kind == "global":
        return GlobalFileSystem()
    if kind == "memory":
        import fsspec

        return FSspecFileSystem(fsspec.filesystem("memory"), "memory://")
    raise ValueError(kind)


def manager(out: Path, gangs: Gangs, fs_kind: str, pool=None) -> StandardCheckpointManager:
    fs = file_system(fs_kind)
    return StandardCheckpointManager(
        out, gangs, fs, _TorchTensorFileLoader(fs), _TorchTensorFileDumper(fs), pool or LazyPool()
    )


def grid(root: Gang, tp: int, sdp: int) -> Gangs:
    """rank = ((rdp, sdp), tp) grid of thread gangs."""
    n = root.size
    fake = FakeGang(device=CPU)
    if n == 1:
        return Gangs(root=root, dp=root, rdp=root, sdp=fake, tp=fake, pp=fake)
    rdp = n // (tp * sdp)
    mesh = torch.arange(n).view(rdp, sdp, tp)

    def pick(groups):
        g = None
        for ranks in groups:
            s = root.create_gang(ranks)
            g = s or g
        assert g is not None
        return g

    return Gangs(
        root=root,
        dp=pick([mesh[:, :, t].flatten().tolist() for t in range(tp)]),
        rdp=pick([mesh[:, s, t].tolist() for s in range(sdp) for t in range(tp)]),
        sdp=pick([mesh[r, :, t].tolist() for r in range(rdp) for t in range(tp)]),
        tp=pick([mesh[r, s, :].tolist() for r in range(rdp) for s in range(sdp)]),
        pp=fake,
    )


def layouts(max_n: int = 4):
    return st.sampled_from([
        (n, tp, sdp) for n in range(1, max_n + 1) for tp in range(1, n + 1) for sdp in range(1, n + 1) if n % (tp * sdp) == 0
    ])


DTYPES = ["float32", "float16", "bfloat16", "float64", "int64", "int32", "uint8", "bool", "complex64"]


def tensor(spec) -> torch.Tensor:
    dt, shape, seed, form = spec
    n = 1
    for s in shape:
        n *= s
    base = (torch.arange(n, dtype=torch.int64) * 7 + seed * 13) % 101
    dtype = getattr(torch, dt)
    t = (base % 2 == 0) if dtype == torch.bool else base.to(dtype)
    if dtype.is_floating_point and n > 2 and seed % 5 == 0:
        t[0], t[1] = float("nan"), float("inf")
    t = t.view(shape)
    if form == "t" and t.ndim >= 2:
        t = t.transpose(0, 1)
    elif form == "slice" and t.ndim >= 1 and t.shape[0] > 1:
        t = t[::2]
    elif form == "expand" and t.ndim >= 1 and t.shape[0] > 0:
        t = t[:1].expand(3, *t.shape[1:])
    return t


def tensor_specs():
    return st.tuples(
        st.sampled_from(DTYPES), st.lists(st.integers(0, 4), max_size=3).map(tuple), st.integers(0, 50),
        st.sampled_from(["plain", "plain", "t", "slice", "expand"]),
    )


def plain():
    leaf = st.one_of(
        st.none(), st.booleans(), st.integers(-(2**70), 2**70), st.floats(allow_nan=False), st.text(max_size=6), st.binary(max_size=6),
        tensor_specs().map(lambda s: ("T", s)),
    )
    return st.recursive(
        leaf,
        lambda c: st.one_of(
            st.lists(c, max_size=3), st.lists(c, max_size=3).map(lambda l: ("tuple", l)),
            st.dictionaries(st.one_of(st.text(max_size=4), st.integers(0, 9)), c, max_size=3).map(lambda d: ("dict", d)),
            st.dictionaries(st.text(max_size=4), c, max_size=3).map(lambda d: ("od", d)),
        ),
        max_leaves=6,
    )


def build(x, salt: int = 0):
    """Materialises a spec; `salt` makes states of ranks and steps differ."""
    if isinstance(x, tuple):
        if x[0] == "T":
            dt, shape, seed, form = x[1]
            return tensor((dt, shape, seed + salt, form))
        if x[0] == "tuple":
            return tuple(build(v, salt) for v in x[1])
        if x[0] == "dict":
            return {k: build(v, salt) for k, v in x[1].items()}
        if x[0] == "od":
            return OrderedDict((k, build(v, salt)) for k, v in x[1].items())
    if isinstance(x, list):
        return [build(v, salt) for v in x]
    if isinstance(x, int) and not isinstance(x, bool):
        return x + salt
    return x


def same(a, b, path: str = "") -> str | None:
    """The first difference, value for value and type for type."""
    if isinstance(b, torch.Tensor):
        if not isinstance(a, torch.Tensor):
            return f"{path}: {type(a).__name__} instead of a tensor"
        if type(a) is not type(b) and not isinstance(b, torch.nn.Parameter):
            return f"{path}: {type(a)} instead of {type(b)}"
        if a.dtype != b.dtype or a.shape != b.shape:
            return f"{path}: {a.dtype}{tuple(a.shape)} instead of {b.dtype}{tuple(b.shape)}"
        x, y = a.detach().cpu(), b.detach().cpu()
        if x.is_floating_point() or x.is_complex():
            eq = torch.allclose(x, y, atol=0, rtol=0, equal_nan=True) if x.numel() else True
        else:
            eq = torch.equal(x, y)
        return None if eq else f"{path}: {x} instead of {y}"
    if type(a) is not type(b):
        return f"{path}: type {type(a).__name__} instead of {type(b).__name__}"
    if isinstance(b, dict):
        if list(a) != list(b):
            return f"{path}: keys {list(a)} instead of {list(b)}"
        for k in b:
            if d := same(a[k], b[k], f"{path}.{k}"):
                return d
        return None
    if isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return f"{path}: length {len(a)} instead of {len(b)}"
        for i, (x, y) in enumerate(zip(a, b)):
            if d := same(x, y, f"{path}[{i}]"):
                return d
        return None
    return None if a == b else f"{path}: {a!r} instead of {b!r}"


def scramble(x) -> None:
    """Modifies a live state in place, as further training would."""
    if isinstance(x, torch.Tensor):
        with torch.no_grad():
            if any(d == 0 for d in x.stride()) and x.numel():
                x = x.as_strided((1,), (1,))  # overlapping memory cannot be filled
            x.fill_(1 if x.dtype == torch.bool else 99)
        return
    if isinstance(x, dict):
        for v in x.values():
            scramble(v)
        x["__later__"] = 1
    elif isinstance(x, list):
        for v in x:
            scramble(v)
        x.append("later")
    elif isinstance(x, tuple):
        for v in x:
            scramble(v)


DIR_NAMES = ["out", "out", "my run", "a[1]", "b*c", "q?x", "ünïcode", "ws_1.pre_x"]


def deep(x):
    return copy.deepcopy(x)

"""C02: a loaded checkpoint is exactly the state at the time of saving."""
import boot

boot.boot()

import os
import shutil
import tempfile
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

import torch
from ckpt import DIR_NAMES, LazyFuture, LazyPool, State, build, deep, grid, layouts, manager, plain, same, scramble, tensor, tensor_specs
from gangs import run_ranks
from harness import Arm, Ctx, HarnessError, Prop, Violation, expect, expect_eq, main, raises
from hypothesis import strategies as st

from fairseq2.checkpoint import CheckpointNotFoundError


def contains(x, pred):
    if pred(x):
        return True
    if isinstance(x, dict):
        return any(contains(v, pred) for v in x.values())
    if isinstance(x, (list, tuple)):
        return any(contains(v, pred) for v in x)
    return False


# A save is (kind, step, blocking, salt, seeds of aliasing); after each save the live
# states are modified; then maybe polls, loads; at the end everything is read back.
def cases():
    sd = st.dictionaries(st.one_of(st.text(max_size=5), st.sampled_from(["a.b", "model", "_x"])), plain(), max_size=4).map(lambda d: ("dict", d))
    mod = st.dictionaries(st.text(min_size=1, max_size=5), tensor_specs(), min_size=0, max_size=4)
    op = st.one_of(
        st.tuples(st.just("save"), st.integers(1, 4), st.booleans()),
        st.tuples(st.just("save"), st.integers(1, 4), st.booleans()),
        st.tuples(st.just("model"), st.integers(1, 4), st.booleans()),
        st.tuples(st.just("poll"), st.integers(0, 3)),
        st.tuples(st.just("load"), st.integers(1, 4)),
    )
    return st.tuples(
        layouts(4), st.sampled_from(["global", "global", "native", "memory"]), st.lists(op, min_size=1, max_size=7),
        st.tuples(sd, mod, sd, sd), st.lists(st.integers(0, 4), min_size=4, max_size=4), st.booleans(), st.sampled_from(DIR_NAMES),
    )


KINDS = ["trainer", "model", "optimizer", "data_reader"]


def shard_id(kind, gangs):
    """The ranks that own one and the same copy of this kind of state."""
    if kind == "trainer":
        return gangs.root.rank
    if kind == "data_reader":
        return gangs.dp.rank
    return (gangs.tp.rank, gangs.sdp.rank)


def live_states(specs, gangs, salt):
    tr, mod, opt, dr = specs
    ids = [shard_id(k, gangs) for k in KINDS]
    num = [x if isinstance(x, int) else x[0] * 5 + x[1] for x in ids]
    out = {
        "trainer": build(tr, salt + num[0]),
        "model": {k: build(("T", v), salt + num[1]) for k, v in mod.items()},
        "optimizer": build(opt, salt + num[2]),
        "data_reader": build(dr, salt + num[3]),
    }
    return out


def check(ctx, case):
    lay, fs, ops, specs, polls, threads, dirname = case
    n, tp, sdp = lay
    base = Path(tempfile.mkdtemp(prefix="c02_", dir=os.environ.get("FS2V_SCRATCH")))
    out = base / dirname
    if fs == "memory":
        out = Path(f"memory:/{base.name}")
    else:
        out.mkdir()
    used_async = [False]
    changed = [False]

    def body(root):
        gangs = grid(root, tp, sdp)
        if threads:
            class Pool:
                def __init__(self):
                    self.ex = ThreadPoolExecutor(1)

                def queue(self, cb, *a, **k):
                    return self.ex.submit(cb, *a, **k)

            pool = Pool()
        else:
            p = polls[root.rank % 4]
            pool = LazyPool(lambda: p)
        m = manager(out, gangs, fs, pool)
        saved = {}  # step -> (kind, states)
        pending = None
        ready, done_cb = [], []

        def settle():
            nonlocal pending
            if pending:
                saved[pending[0]] = pending[1:]
                pending = None

        def verify(step):
            what, want = saved[step]
            for kind in KINDS:
                s = State()
                if what == "model" and kind != "model":
                    raises(CheckpointNotFoundError, lambda: getattr(m, f"load_{kind}_state")(step, s), f"{kind} of a model-only checkpoint")
                    continue
                getattr(m, f"load_{kind}_state")(step, s)
                d = same(s.d, want[kind], kind)
                expect(d is None, lambda: f"rank {root.rank} of {lay}: step {step}: {d}")
                for t in tensors(s.d):
                    expect(t.device.type == "cpu", "a loaded tensor is not on the host")

        for i, op in enumerate(ops):
            if op[0] in ("save", "model"):
                _, step, blocking = op
                was, num_done = pending, len(done_cb)
                states = live_states(specs, gangs, i * 17)
                want = deep(states)
                holders = {k: State(v) for k, v in states.items()}
                kw = dict(
                    blocking=blocking,
                    ready_callback=lambda s, b: (ready.append((s, b)), None)[1],
                    saved_callback=lambda s, b: done_cb.append((s, b)),
                )
                if op[0] == "save":
                    m.save_checkpoint(step, holders["trainer"], holders["model"], holders["optimizer"], holders["data_reader"], **kw)
                else:
                    m.save_model_only(step, holders["model"], **kw)
                settle()
                expect_eq(ready[-1], (step, blocking), "the ready callback was not called")
                # Saving must not touch the live state.
                for k in KINDS:
                    d = same(states[k], want[k], k)
                    expect(d is None, lambda: f"saving changed the live state: {d}")
                saved.pop(step, None)
                if blocking:
                    saved[step] = (op[0], want)
                    expect_eq(done_cb[-1], (step, True), "the saved callback was not called")
                    expect(not m.is_saving, "is_saving after a blocking save")
                else:
                    pending = (step, op[0], want)
                    used_async[0] = True
                    expect(m.is_saving, "is_saving is not set")
                    expect_eq(done_cb[num_done:], [(was[0], False)] if was else [], "saved callbacks of an asynchronous save")
                for k in KINDS:
                    scramble(states[k])
                    changed[0] = True
                del states
            elif op[0] == "poll":
                for _ in range(op[1]):
                    r = m.maybe_complete_save_operation()
                    expect((r is None) == (pending is None), f"maybe_complete returned {r} with pending={pending is not None}")
                    if r:
                        expect_eq(done_cb[-1], (pending[0], False), "the saved callback was not called")
                        settle()
            elif op[0] == "load":
                listed = m.get_step_numbers()
                allowed = sorted(saved)
                if fs != "memory":
                    expect_eq(listed, allowed, "listed steps")
                if op[1] in saved:
                    verify(op[1])
            root.barrier()
        r = m.maybe_complete_save_operation(blocking=True)
        expect_eq(r, True if pending else None, "blocking completion")
        settle()
        expect(not m.is_saving, "is_saving at the end")
        root.barrier()
        expect_eq(m.get_step_numbers(), sorted(saved), "listed steps at the end")
        if not (fs == "memory"):
            expect_eq(m.get_step_numbers(exclude_model_only=True), sorted(s for s, v in saved.items() if v[0] == "save"), "full steps at the end")
        for step in saved:
            verify(step)
        if threads:
            pool.ex.shutdown()
        return len(saved)

    try:
        res = run_ranks(n, body)
    finally:
        shutil.rmtree(base)
        if fs == "memory":
            import fsspec

            mem = fsspec.filesystem("memory")
            if mem.exists(f"/{base.name}"):
                mem.rm(f"/{base.name}", recursive=True)
    sts = [specs[0], specs[2], specs[3]]
    has_tensor = bool(specs[1]) or any(contains(s, lambda x: isinstance(x, tuple) and len(x) > 0 and x[0] == "T") for s in sts)
    ctx.nontrivial(res[0] > 0 and has_tensor)
    ctx.label(f"fs_{fs}", f"n{n}")
    if used_async[0]:
        ctx.label("async")
    if sdp > 1:
        ctx.label("sharded")
    if tp > 1:
        ctx.label("tensor_parallel")


def tensors(x):
    if isinstance(x, torch.Tensor):
        yield x
    elif isinstance(x, dict):
        for v in x.values():
            yield from tensors(v)
    elif isinstance(x, (list, tuple)):
        for v in x:
            yield from tensors(v)


# Real modules and optimizers, trained between the save and the write.
def real_cases():
    return st.tuples(
        st.sampled_from(["linear", "tied", "bn", "mixed"]), st.sampled_from(["adamw", "sgd", "adam_ams"]), st.integers(0, 3), st.integers(1, 3),
        st.booleans(), st.integers(0, 99), st.integers(0, 3),
    )


def make(kind, optname, seed):
    torch.manual_seed(seed)
    if kind == "linear":
        mod = torch.nn.Sequential(torch.nn.Linear(3, 4), torch.nn.Linear(4, 2))
    elif kind == "tied":
        mod = torch.nn.Sequential(torch.nn.Linear(3, 3), torch.nn.Linear(3, 3))
        mod[1].weight = mod[0].weight
    elif kind == "bn":
        mod = torch.nn.Sequential(torch.nn.Linear(3, 4), torch.nn.BatchNorm1d(4))
    else:
        mod = torch.nn.Sequential(torch.nn.Linear(3, 4).double(), torch.nn.Linear(4, 2).double())
        mod.register_buffer("flag", torch.tensor([True, False]))
    ps = list(mod.parameters())
    if optname == "adamw":
        opt = torch.optim.AdamW([{"params": ps[:1], "lr": 0.1}, {"params": ps[1:]}], lr=0.01)
    elif optname == "sgd":
        opt = torch.optim.SGD(ps, lr=0.1, momentum=0.9)
    else:
        opt = torch.optim.Adam(ps, lr=0.1, amsgrad=True)
    return mod, opt


def step(mod, opt, seed):
    g = torch.Generator().manual_seed(seed)
    x = torch.randn(4, 3, generator=g, dtype=next(mod.parameters()).dtype)
    opt.zero_grad()
    mod(x).pow(2).sum().backward()
    opt.step()


def check_real(ctx, case):
    kind, optname, before, after, blocking, seed, late = case
    base = Path(tempfile.mkdtemp(prefix="c02_", dir=os.environ.get("FS2V_SCRATCH")))
    try:
        from ckpt import grid

        def body(root):
            m = manager(base, grid(root, 1, 1), "global", LazyPool(lambda: late))
            mod, opt = make(kind, optname, seed)
            for i in range(before):
                step(mod, opt, i)
            want_m, want_o = deep(mod.state_dict()), deep(opt.state_dict())
            m.save_checkpoint(7, State({"s": 1}), mod, opt, State({}), blocking=blocking)
            for i in range(after):
                step(mod, opt, 50 + i)
                m.maybe_complete_save_operation()
            m.maybe_complete_save_operation(blocking=True)
            sm, so = State(), State()
            m.load_model_state(7, sm)
            m.load_optimizer_state(7, so)
            d = same(dict(sm.d), dict(want_m), "model") or same(so.d, want_o, "optimizer")
            expect(d is None, lambda: f"{d}")
            # Trained on from the checkpoint it equals the one that was never saved.
            m1, o1 = make(kind, optname, seed + 1)
            m.load_model_state(7, m1)
            m.load_optimizer_state(7, o1)
            for i in range(after):
                step(m1, o1, 50 + i)
            d = same(dict(m1.state_dict()), dict(mod.state_dict()), "model") or same(o1.state_dict(), opt.state_dict(), "optimizer")
            expect(d is None, lambda: f"training on from the checkpoint: {d}")

        run_ranks(1, body)
    finally:
        shutil.rmtree(base)
    ctx.nontrivial(before > 0)
    ctx.label(kind, optname, "blocking" if blocking else "async")


# The model's state must be tensors, and unpicklable states are refused.
def check_bad(ctx, case):
    what, blocking, val = case
    base = Path(tempfile.mkdtemp(prefix="c02_", dir=os.environ.get("FS2V_SCRATCH")))
    try:
        def body(root):
            m = manager(base, grid(root, 1, 1), "global")
            good = {"w": torch.ones(2)}
            m.save_checkpoint(1, State({}), State(good), State({}), State({}), blocking=True)
            bad = {"model": {"w": torch.ones(1), "x": val}, "trainer": {"f": lambda: 1}, "optimizer": {"g": (i for i in [])}}[what]
            st_ = {"trainer": {}, "model": good, "optimizer": {}}
            st_[what] = bad

            def go():
                m.save_checkpoint(2, State(st_["trainer"]), State(st_["model"]), State(st_["optimizer"]), State({}), blocking=blocking)
                m.maybe_complete_save_operation(blocking=True)

            raises(Exception, go, f"invalid {what} state")
            m2 = manager(base, grid(root, 1, 1), "global")
            expect_eq(m2.get_step_numbers(), [1], "a refused state left a step behind")
            s = State()
            m2.load_model_state(1, s)
            expect(same(s.d, good) is None, "the earlier step was damaged")

        run_ranks(1, body)
    finally:
        shutil.rmtree(base)
    ctx.nontrivial()
    ctx.label(what)


def bad_cases():
    return st.tuples(st.sampled_from(["model", "model", "trainer", "optimizer"]), st.booleans(), st.one_of(st.integers(), st.none(), st.text(max_size=2), st.just([1])))


main(Prop(
    "C02",
    [Arm(f"history{i}", cases, check, quick=150, thorough=4000, timeout=120) for i in range(5)]
    + [
        Arm("real", real_cases, check_real, quick=150, thorough=3000),
        Arm("bad", bad_cases, check_bad, quick=60, thorough=500),
    ],
    rule="a history that saves at least one step whose states contain tensors",
    assumptions=["ranks are threads that share a file system", "fully sharded (DTensor) states are covered by plain shards, as FSDP needs several devices"],
))

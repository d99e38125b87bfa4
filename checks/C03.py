"""C03: checkpoint retention keeps exactly what the policy promises."""
import boot

boot.boot(recipe=True)

import logging
import os
import shutil
import tempfile
import time
from pathlib import Path

logging.disable(logging.WARNING)

import torch
from ckpt import DIR_NAMES, LazyPool, State, file_system, grid, manager
from gangs import Deadlock, run_ranks
from harness import Arm, Prop, Violation, expect, expect_eq, main
from hypothesis import strategies as st
from train import Cfg, Log, make_trainer

from fairseq2.device import CPU
from fairseq2.gang import FakeGang, create_fake_gangs
from fairseq2.task import TaskStopException

SCORES = st.one_of(st.sampled_from([-1.0, 0.0, 0.5, 0.5, 1e-30, float("-inf"), float("inf")]), st.floats(-1e6, 1e6), st.integers(-3, 3).map(float))


def policies():
    n = st.one_of(st.none(), st.integers(1, 4))
    return st.tuples(n, n, st.one_of(st.none(), st.integers(1, 7)))


def retained(steps, scores, policy):
    """What the policy keeps, by its definition."""
    last, best, every = policy
    if last is None and best is None and every is None or not steps:
        return set(steps)
    steps = sorted(steps)
    keep = {steps[-1]}
    if last is not None:
        keep |= set(steps[-last:])
    if best is not None:
        keep |= set(sorted((s for s in steps if s in scores), key=lambda s: (-scores[s], -s))[:best])
    if every is not None:
        keep |= {s for s in steps if s % every == 0}
    return keep


# ---- the manager under histories ------------------------------------------------------------


def histories():
    step = st.one_of(st.integers(1, 12), st.integers(1, 12), st.integers(95, 130), st.sampled_from([10**6, 99, 100, 1000]))
    op = st.one_of(
        st.tuples(st.just("save"), step, st.booleans(), st.booleans()),
        st.tuples(st.just("save"), step, st.booleans(), st.booleans()),
        st.tuples(st.just("save_model"), step, st.booleans(), st.just(0)),
        st.tuples(st.just("score"), step, SCORES, st.just(0)),
        st.tuples(st.just("score_last"), st.just(0), SCORES, st.just(0)),
        st.tuples(st.just("clean"), policies(), st.just(0), st.just(0)),
        st.tuples(st.just("demote"), st.just(0), st.just(0), st.just(0)),
        st.tuples(st.just("delete"), st.integers(0, 9), st.booleans(), st.just(0)),
        st.tuples(st.just("extra"), st.integers(0, 9), st.sampled_from(["hg", "hook", "hg.json"]), st.just(0)),
        st.tuples(st.just("restart"), st.just(0), st.just(0), st.just(0)),
    )
    return st.fixed_dictionaries(dict(
        init=st.lists(st.tuples(step, st.booleans(), st.one_of(st.none(), SCORES)), max_size=8, unique_by=lambda t: t[0]),
        ops=st.lists(op, min_size=2, max_size=10), ranks=st.sampled_from([1, 1, 1, 2, 3]), fs=st.sampled_from(["native", "global", "native", "memory"]),
        name=st.sampled_from(DIR_NAMES), policy=policies(), noise=st.booleans(),
    ))


def noise_files(ck, fs):
    """Things that are no checkpoints."""
    fs.make_directory(ck)
    for d in ("step_foo", "step_", "step_3x", "other", "steps_4"):
        fs.make_directory(ck / d)
        with fs.open_text(ck / d / "f.txt", mode=fm()) as fp:
            fp.write("x")
    for f in ("notes.txt", "step_8", "best"):
        with fs.open_text(ck / f, mode=fm()) as fp:
            fp.write("x")


def fm():
    from fairseq2.file_system import FileMode

    return FileMode.WRITE


NOISE = {"step_foo/f.txt", "step_/f.txt", "step_3x/f.txt", "other/f.txt", "steps_4/f.txt", "notes.txt", "step_8", "best"}


def tree(fs, ck):
    """All files below the checkpoint directory."""
    if hasattr(fs, "_fsspec"):
        base = str(ck).removeprefix("memory:").lstrip("/")
        base = "/" + base
        return {p[len(base) + 1:] for p in fs._fsspec.find(base)} if fs._fsspec.exists(base) else set()
    return {str(p.relative_to(ck)) for p in ck.rglob("*") if not p.is_dir()} if ck.exists() else set()


def check_history(ctx, c):
    base = Path(tempfile.mkdtemp(prefix="c03_", dir=os.environ.get("FS2V_SCRATCH")))
    mem = c["fs"] == "memory"
    if mem:
        c = dict(c, ranks=1)  # fsspec's memory files cannot be read by two threads
    if mem and set("[*?") & set(c["name"]):
        c = dict(c, name="out")  # fsspec's own rm() takes these for patterns
    out = Path(f"memory:/{base.name}") / c["name"] if mem else base / c["name"]
    try:
        if c["ranks"] == 1:
            drive(ctx, c, out, create_fake_gangs(CPU))
        else:
            run_ranks(c["ranks"], lambda g: drive(ctx, c, out, grid(g, 1, 1)))
    finally:
        shutil.rmtree(base)
        if mem:
            import fsspec

            m = fsspec.filesystem("memory")
            if m.exists("/" + base.name):
                m.rm("/" + base.name, recursive=True)


def drive(ctx, c, out, gangs):
    rank = gangs.root.rank
    fs = file_system(c["fs"])
    ck = out / "checkpoints"
    # A name that is no checkpoint step can still clash with a file.
    noise = c["noise"]
    if noise and rank == 0:
        noise_files(ck, fs)
    gangs.root.barrier()

    mgr = manager(out, gangs, c["fs"], LazyPool(lambda: 99))
    full, steps, scores, extra = set(), set(), {}, {}
    pending = None
    removed_some = False

    def settle():
        nonlocal pending
        if pending:
            mgr.maybe_complete_save_operation(blocking=True)
            steps.add(pending[0])
            (full.add if pending[1] else full.discard)(pending[0])
            pending = None

    def begin(s, is_full, blocking):
        nonlocal pending
        settle()
        if s == 8 and noise:
            s = 9
        # Saving again replaces what was there.
        steps.discard(s)
        full.discard(s)
        scores.pop(s, None)
        extra.pop(s, None)
        x = State({"x": torch.tensor([s, rank]), "s": torch.tensor(s)})
        if is_full:
            mgr.save_checkpoint(s, x, x, x, x, blocking=blocking)
        else:
            mgr.save_model_only(s, x, blocking=blocking)
        pending = (s, is_full)
        if blocking:
            pending = None
            steps.add(s)
            if is_full:
                full.add(s)

    def verify(what):
        gangs.root.barrier()
        expect_eq(mgr.get_step_numbers(), sorted(steps), f"{what}: steps")
        expect_eq(mgr.get_step_numbers(exclude_model_only=True), sorted(full), f"{what}: full steps")
        expect_eq(mgr.has_checkpoint(), bool(steps), f"{what}: has_checkpoint")
        expect_eq(mgr.has_checkpoint(exclude_model_only=True), bool(full), f"{what}: has_checkpoint of full ones")
        expect_eq(mgr.maybe_get_last_step_number(), max(steps, default=None), f"{what}: last step")
        expect_eq(mgr.maybe_get_last_step_number(exclude_model_only=True), max(full, default=None), f"{what}: last full step")
        want = sorted(((v, s) for s, v in scores.items() if s in steps), reverse=True)
        expect_eq(mgr.load_scores(), want, f"{what}: scores")
        keep = retained(steps, scores, c["policy"])
        expect_eq(mgr.get_stale_step_numbers(*c["policy"]), [s for s in sorted(steps) if s not in keep], f"{what}: stale steps for {c['policy']} with scores {scores}")
        if rank == 0:
            files = tree(fs, ck)
            if noise:
                expect(NOISE <= files, lambda: f"{what}: unrelated files are gone: {sorted(NOISE - files)}")
            got = {f.split("/")[0] for f in files if f.startswith("step_")} - {f.split("/")[0] for f in NOISE if noise}
            tmp = {f"step_{pending[0]}.tmp"} if pending and f"step_{pending[0]}.tmp" in got else set()
            if not (pending and c["fs"] == "memory"):
                expect_eq(got, {f"step_{s}" for s in steps} | tmp, f"{what}: step directories")
            for s in steps:
                kinds = {f.split("/")[1] for f in files if f.startswith(f"step_{s}/")}
                expect_eq(kinds, {"model"} | ({"trainer", "optimizer", "data_reader"} if s in full else set()) | extra.get(s, set()), f"{what}: parts of step {s}")
            sf = {f for f in files if f.startswith("scores/")}
            expect_eq(sf, {f"scores/step_{s}.txt" for s in scores}, f"{what}: score files")
        for s in sorted(steps)[-2:]:
            x = State()
            mgr.load_model_state(s, x)
            expect_eq(int(x.d["s"]), s, f"{what}: model of step {s}")
        gangs.root.barrier()

    for s, is_full, score in c["init"]:
        begin(s, is_full, True)
        if score is not None and s in steps:
            mgr.save_score(s, score)
            scores[s] = score
    verify("at the start")
    for op, a, b, d in c["ops"]:
        if c["fs"] == "memory" and op in ("clean", "demote", "delete", "extra", "score"):
            settle()  # a remote step has no temporary place
        if op == "save":
            begin(a, True, not b)
        elif op == "save_model":
            begin(a, False, not b)
        elif op == "score":
            if a in steps:
                mgr.save_score(a, b)
                scores[a] = b
        elif op == "score_last":
            # As the trainer does: perhaps while the step is still being saved.
            s = pending[0] if pending else max(steps, default=None)
            if s is not None:
                mgr.save_score(s, b)
                scores[s] = b
        elif op == "clean":
            stale = mgr.get_stale_step_numbers(*a)
            keep = retained(steps, scores, a)
            expect_eq(stale, [s for s in sorted(steps) if s not in keep], f"stale steps for {a} of {sorted(steps)} with scores {scores}")
            for s in stale:
                mgr.delete_checkpoint(s)
                steps.discard(s)
                full.discard(s)
                scores.pop(s, None)
                extra.pop(s, None)
                removed_some = True
        elif op == "demote":
            l = mgr.get_step_numbers(exclude_model_only=True)
            expect_eq(l, sorted(full), "full steps")
            gangs.root.barrier()
            for s in l[:-1]:
                mgr.delete_checkpoint(s, keep_model=True)
                full.discard(s)
                removed_some = True
        elif op == "delete":
            l = sorted(steps)
            if l:
                s = l[a % len(l)]
                mgr.delete_checkpoint(s, keep_model=b)
                full.discard(s)
                if not b:
                    steps.discard(s)
                    scores.pop(s, None)
                    extra.pop(s, None)
        elif op == "extra":
            l = sorted(steps)
            if l:
                s = l[a % len(l)]
                extra.setdefault(s, set()).add(b)
                if rank == 0:
                    if "." in b:
                        with fs.open_text(ck / f"step_{s}" / b, mode=fm()) as fp:
                            fp.write("x")
                    else:
                        fs.make_directory(ck / f"step_{s}" / b)
                        with fs.open_text(ck / f"step_{s}" / b / "data.txt", mode=fm()) as fp:
                            fp.write("x")
                gangs.root.barrier()
        elif op == "restart":
            settle()
            mgr = manager(out, gangs, c["fs"], LazyPool(lambda: 99))
        # A pending save has not taken its step's place yet on a remote file system.
        if not (pending and c["fs"] == "memory"):
            verify(f"after {op} {a} {b}")
    settle()
    verify("at the end")
    if rank == 0:
        ctx.nontrivial(removed_some)
        ctx.label(c["fs"], f"ranks_{c['ranks']}")
        if removed_some:
            ctx.label("removed")
        if c["policy"][1] is not None and len(scores) > 1:
            ctx.label("best_of_many")


# Thread ranks have no process group to synchronise metrics with.
import fairseq2.trainer as _trainer

_sync = _trainer.sync_and_compute_metrics
_trainer.sync_and_compute_metrics = lambda bag, gang: _sync(bag, gang) if gang.size == 1 else _sync(bag, FakeGang(device=CPU))


# ---- the trainer ----------------------------------------------------------------------------


def trainings():
    return st.fixed_dictionaries(dict(
        every=st.integers(1, 3), steps=st.integers(2, 14), policy=policies(), mode=st.sampled_from([False, False, "all_but_last", "all_but_last", "all"]),
        scores=st.lists(st.one_of(st.integers(-2, 2).map(float), st.floats(-10, 10)), min_size=14, max_size=14), polls=st.integers(0, 5),
        val=st.sampled_from([1, 1, 2]), stop_at=st.one_of(st.none(), st.integers(1, 13)), ranks=st.sampled_from([1]), delays=st.just(()),
    ))


def trainings_ranks():
    return st.builds(lambda c, r, d, m: dict(c, ranks=r, delays=d, steps=min(c["steps"], 8), mode=m), trainings(), st.integers(2, 3), st.lists(st.sampled_from([0, 0, 1, 3, 8]), min_size=3, max_size=12).map(tuple),
                     st.sampled_from(["all_but_last", "all_but_last", False, True]))


def check_trainer(ctx, c):
    base = Path(tempfile.mkdtemp(prefix="c03t_", dir=os.environ.get("FS2V_SCRATCH")))
    state = torch.get_rng_state()
    try:
        if c["ranks"] == 1:
            train(ctx, c, base, create_fake_gangs(CPU))
        else:
            run_ranks(c["ranks"], lambda g: train(ctx, c, base, grid(g, 1, 1)))
    finally:
        torch.set_rng_state(state)
        shutil.rmtree(base)


def train(ctx, c, out, gangs):
    rank = gangs.root.rank
    last, best, every = c["policy"]
    every = every and every * c["every"]
    policy = (last, best, every)
    val = c["every"] if c["val"] == 2 else 1
    cfg = Cfg(
        batches=lambda e: [[i] for i in range(5)], max_steps=c["steps"], ck=(0, c["every"], 0, None), pub=(0, 1, 0, None), val=(0, val, 0, None),
        save_model_only=c["mode"], keep=(last, best, every), has_validator=True, score=lambda s: c["scores"][s % 14], polls=c["polls"], opt="plain",
    )
    steps, full, scores = set(), set(), {}
    ck = out / "checkpoints"
    dropped = [0]

    def clean():
        keep = retained(steps, scores, policy)
        for s in steps - keep:
            dropped[0] += 1
            scores.pop(s, None)
        steps.intersection_update(keep)
        full.intersection_update(keep)

    def demote():
        if c["mode"] == "all_but_last" and full:
            m = max(full)
            dropped[0] += len(full) - 1
            full.clear()
            full.add(m)

    def segment(stop_at):
        log = Log()

        def hook(kind, at, t):
            if kind == "batch" and stop_at is not None and at == stop_at:
                trainer.request_stop()

        trainer = make_trainer(cfg, out, gangs, log, hook)
        mgr = trainer._checkpoint_manager
        inner = mgr._inner
        if c["delays"]:
            slow(inner, c["delays"], rank)

        def look(what):
            gangs.root.barrier()
            if rank == 0:
                expect_eq(inner.get_step_numbers(), sorted(steps), f"{what}: steps kept by {policy} with scores {scores}")
                expect_eq(inner.get_step_numbers(exclude_model_only=True), sorted(full), f"{what}: full steps with {c['mode']}")
            gangs.root.barrier()

        real_wrap = mgr._wrap

        def _wrap(step, k):
            k = real_wrap(step, k)
            cb = k["saved_callback"]

            def saved(n, b):
                steps.add(n)
                if c["mode"] in (False, "all_but_last"):
                    full.add(n)
                cb(n, b)
                clean()
                demote()
                look(f"after step {n} is saved")

            k["saved_callback"] = saved
            return k

        mgr._wrap = _wrap
        save_score = mgr.save_score

        def score(step, v):
            save_score(step, v)
            scores[step] = v

        mgr.save_score = score
        ran = trainer._save_score

        def _save_score(v):
            ran(v)
            if best is not None:
                clean()
            look(f"after step {trainer.step_nr} is scored")

        trainer._save_score = _save_score
        try:
            trainer.run()
        except TaskStopException:
            pass
        trainer.close()
        return trainer

    if c["stop_at"] and c["stop_at"] < c["steps"]:
        segment(c["stop_at"])
    if c["mode"] in (True, "all") and c["stop_at"]:
        pass
    else:
        segment(None)
        if rank == 0:
            expect(c["steps"] in steps, "the last step is not kept")
    if rank == 0:
        ctx.nontrivial(dropped[0] > 0)
        ctx.label(str(c["mode"]), f"ranks_{c['ranks']}")
        files = {p.name for p in ck.iterdir()} if ck.exists() else set()
        expect(not any(f.endswith(".tmp") for f in files), f"temporary files are left: {files}")


def slow(mgr, delays, rank):
    """Ranks list and delete at different speeds."""
    n = [0]

    def pause():
        n[0] += 1
        time.sleep(delays[(n[0] * 5 + rank * 3) % len(delays)] / 1000)

    listing, delete = mgr.get_step_numbers, mgr.delete_checkpoint

    def get_step_numbers(*a, **k):
        pause()
        r = listing(*a, **k)
        return r

    def delete_checkpoint(*a, **k):
        pause()
        return delete(*a, **k)

    mgr.get_step_numbers = get_step_numbers
    mgr.delete_checkpoint = delete_checkpoint


main(Prop(
    "C03",
    [Arm(f"history{i}", histories, check_history, quick=150, thorough=5000, timeout=90) for i in range(3)]
    + [Arm(f"trainer{i}", trainings, check_trainer, quick=60, thorough=2500, timeout=90) for i in range(3)]
    + [Arm("trainer_ranks", trainings_ranks, check_trainer, quick=60, thorough=1500, timeout=90), Arm("trainer_ranks2", trainings_ranks, check_trainer, quick=60, thorough=1500, timeout=90)],
    rule="a history in which a checkpoint was removed or reduced to its model by a policy",
    assumptions=[
        "scores are finite or infinite numbers, not NaN",
        "no pattern characters in names on remote file systems (fsspec's rm expands them)",
        "ranks are threads with a shared file system, at different speeds; a remote file system is fsspec's memory one",
    ],
))

"""T01: resuming from a checkpoint equals never having stopped."""
import boot

boot.boot(recipe=True)

import logging
import os
import shutil
import tempfile
from pathlib import Path

logging.disable(logging.WARNING)

import torch
from gangs import ProcPool
from harness import Arm, HarnessError, Prop, Violation, expect, expect_eq, main
from hypothesis import strategies as st
from train import Cfg, Killed, Log, digest, make_trainer

from fairseq2.device import CPU
from fairseq2.gang import FakeGang, Gangs, create_fake_gangs
from fairseq2.task import TaskStopException


def cases():
    interrupt = st.tuples(
        st.sampled_from(["stop", "kill"]), st.sampled_from(["batch", "batch", "batch", "validate", "save", "saved", "read", "end"]), st.integers(1, 9),
    )
    pub = st.tuples(st.sampled_from([None, 1, 1, 2]), st.sampled_from([None, None, 1]))

    def rest(pub):
        su, eu = pub[0] or 1, pub[1] or 1
        return st.fixed_dictionaries(dict(
            pub=st.just(pub),
            ck=st.tuples(st.one_of(st.none(), st.integers(1, 4).map(lambda k: k * su), st.integers(1, 2).map(lambda k: k * su)), st.sampled_from([None, None, eu, 2 * eu])),
            val=st.tuples(st.one_of(st.none(), st.integers(1, 3).map(lambda k: k * su)), st.sampled_from([None, None, eu])),
            lens=st.lists(st.integers(1, 6), min_size=1, max_size=3),
            sizes=st.lists(st.integers(1, 3), min_size=1, max_size=3),
            acc=st.sampled_from([1, 1, 2, 3]), drop=st.booleans(),
            max_steps=st.one_of(st.integers(2, 14), st.none()), max_epochs=st.one_of(st.none(), st.integers(1, 4)),
            opt=st.sampled_from(["sgd", "adamw", "adamw2"]), sched=st.sampled_from(["const", "noam", "myle", "cosine", "poly", "tri"]),
            fp16=st.one_of(st.none(), st.tuples(st.sampled_from([8.0, 32.0]), st.integers(1, 4), st.just(0.5))),
            overflow=st.frozensets(st.integers(0, 12), max_size=3), clip=st.sampled_from([None, 0.5]), seed=st.integers(0, 3),
            per_target=st.booleans(), polls=st.integers(0, 4), has_val=st.booleans(), at_start=st.booleans(),
            interrupts=st.lists(interrupt, min_size=1, max_size=4),
            save_model_only=st.sampled_from([False, False, "all_but_last"]), keep_last=st.sampled_from([None, None, 1, 2]),
        ))

    return pub.flatmap(rest)


def config(c, rank=0):
    lens, sizes = c["lens"], c["sizes"]

    def batches(e):
        n = lens[(e + rank) % len(lens)]
        start = sum(lens[(i + rank) % len(lens)] for i in range(e))
        order = sorted(range(n), key=lambda i: ((i + 1) * 7919 * (e + 1)) % 101)  # another order in each epoch
        return [[(start + i) + 1000 * k + 100000 * rank for k in range(sizes[(start + i) % len(sizes)])] for i in order]

    max_steps, max_epochs = c["max_steps"], c["max_epochs"]
    if max_steps is None and max_epochs is None:
        max_steps = 11
    if max_epochs is None and c["drop"] and max(lens) < c["acc"]:
        max_epochs = 2  # no step is ever taken
    return Cfg(
        batches=batches, accumulate=c["acc"], drop_remainder=c["drop"], max_steps=max_steps, max_epochs=max_epochs,
        val=(0, c["val"][0], 0, c["val"][1]), ck=(0, c["ck"][0], 0, c["ck"][1]), pub=(0, c["pub"][0], 0, c["pub"][1]),
        validate_at_start=c["at_start"], has_validator=c["has_val"], score=lambda s: float(s), opt=c["opt"], sched=c["sched"], fp16=c["fp16"],
        overflow_at=c["overflow"], clip=c["clip"], seed=c["seed"], per_target=c["per_target"], polls=c["polls"],
        save_model_only=c["save_model_only"], keep=(c["keep_last"], None, None),
    )


def segment(cfg, out, gangs, interrupt, noise, wrap=None):
    """One process' life; returns (log, trainer, how it ended)."""
    log = Log()
    # A new process has its own random state.
    torch.manual_seed(noise * 7919 + 13)
    torch.rand(noise % 5)
    trainer = None
    count = [0, 0]

    def hook(kind, at, t):
        count[1] += 1
        if count[1] > 1000:
            raise Violation("training does not end")
        if interrupt is None or kind != interrupt[1]:
            return
        count[0] += 1
        if count[0] == interrupt[2]:
            log("interrupt", interrupt)
            if interrupt[0] == "kill":
                raise Killed()
            trainer.request_stop()

    trainer = make_trainer(cfg, out, gangs, log, hook, wrap_model=wrap)
    try:
        trainer.run()
        how = "end"
    except TaskStopException:
        how = "stop"
    except Killed:
        how = "kill"
    return log, trainer, how


def sublist(a, b) -> bool:
    return any(b[i : i + len(a)] == a for i in range(len(b) - len(a) + 1))


def start_of(log):
    return min(log.trace) if log.trace else None


def compare(ctx, c, cfg, runs, labels=True):
    """Compares the segments with the run that was never interrupted."""
    (ref, rt, how) = runs[0]
    if how != "end":
        raise HarnessError(f"the reference run ended with {how}")
    ref_final = (rt.step_nr, digest(rt._verif_net), rt._data_epoch_nr if ref.trace else 1)
    covered = set()
    restored = 0
    resumed_mid = False
    for k, (log, t, how) in enumerate(runs[1:]):
        for s, obs in log.trace.items():
            expect(s in ref.trace, f"segment {k} runs step {s}; the uninterrupted run ends at step {ref_final[0]}")
            whole = obs
            expect(sublist(whole, ref.trace[s]), lambda: f"segment {k} differs at step {s}: (ids, random, model, lrs, scale, epoch) {whole} instead of {ref.trace[s]}")
            covered.add(s)
        first = start_of(log)
        if k and first and first > 1:
            restored += 1
            resumed_mid = True
        if log.trace:
            steps = sorted(log.trace)
            expect_eq(steps, list(range(steps[0], steps[0] + len(steps))), "steps of a segment")
        base = next((e[1] for e in log.events if e[0] == "load"), 0)
        stops = [e for e in log.events if e[0] == "interrupt"]
        for (cat, s), vals in log.published.items():
            want = ref.published.get((cat, s))
            if want is None:
                continue  # a stop publishes, too
            exact = base == 0 or (cat, base) in ref.published
            # The window of a stop in between is shorter in both its halves.
            if s <= base or (stops and s >= max(log.trace, default=0)):
                continue
            for name, v in vals[0].items():
                if name.startswith("total_") or name in ("lr", "data_epoch") or exact:
                    w = want[0].get(name)
                    same = v == w or (isinstance(v, float) and isinstance(w, float) and abs(v - w) <= 1e-6 * max(1, abs(w)))
                    expect(same, f"segment {k} publishes {name}={v} at step {s}, the uninterrupted run {w}")
    last, lt, how = runs[-1]
    expect_eq(how, "end", "how the last segment ends")
    if ref.trace:
        expect_eq(lt.step_nr, ref_final[0], "the last step")
        expect_eq(covered, set(ref.trace), "steps run over all segments")
        expect_eq(digest(lt._verif_net), ref_final[1], "final parameters")
        a, b = rt._optimizer.state_dict(), lt._optimizer.state_dict()
        from ckpt import same as eq

        d = eq(b, a, "optimizer") or eq(lt._lr_scheduler.state_dict(), rt._lr_scheduler.state_dict(), "lr scheduler")
        expect(d is None, lambda: f"final state: {d}")
        expect_eq(lt._fp16_loss_scaler.state_dict(), rt._fp16_loss_scaler.state_dict(), "final loss scale")
        d = eq(dict(lt._data_reader.state_dict()), dict(rt._data_reader.state_dict()), "data reader")
        expect(d is None, lambda: f"final state: {d}")
    if labels:
        ctx.nontrivial(resumed_mid)
        ctx.label(f"restored_{min(restored, 3)}")
        for _, _, how in runs[1:-1]:
            ctx.label(how)
        for log, _, _ in runs[1:]:
            for e in log.events:
                if e[0] == "interrupt":
                    ctx.label(f"{e[1][0]}_{e[1][1]}")


def check(ctx, c):
    cfg = config(c)
    base = Path(tempfile.mkdtemp(prefix="t01_", dir=os.environ.get("FS2V_SCRATCH")))
    state = torch.get_rng_state()
    try:
        runs = [segment(cfg, base / "ref", create_fake_gangs(CPU), None, 1)]
        for i, it in enumerate(c["interrupts"] + [None]):
            runs.append(segment(cfg, base / "run", create_fake_gangs(CPU), it, 2 + i))
            if it is not None and runs[-1][2] == "end":
                break  # it came too late
        if c["interrupts"] and runs[-1][2] != "end":
            runs.append(segment(cfg, base / "run", create_fake_gangs(CPU), None, 99))
        compare(ctx, c, cfg, runs)
        # A further start has nothing left to do.
        again = segment(cfg, base / "run", create_fake_gangs(CPU), None, 77)
        has_ck = (base / "run/checkpoints").exists()
        if has_ck and runs[0][0].trace:
            # (It may repeat the overflowed steps that followed the last one.)
            tail = {s: o for s, o in runs[0][0].trace.items() if s > runs[0][1].step_nr}
            expect(again[0].trace in ({}, tail), lambda: f"a finished training that is started again runs the steps {again[0].trace}")
            expect_eq(digest(again[1]._verif_net), digest(runs[0][1]._verif_net), "parameters of a finished training that is started again")
    finally:
        torch.set_rng_state(state)
        shutil.rmtree(base)


# Several processes with DDP.
def worker(gang, arg):
    c, base = arg
    from fairseq2.nn.ddp import to_ddp

    fake = FakeGang(device=CPU)
    gang.close = lambda: None
    cfg = config(c, gang.rank)

    def gangs():
        return Gangs(root=gang, dp=gang, rdp=gang, sdp=fake, tp=fake, pp=fake)

    def seg(out, it, noise):
        log, t, how = segment(cfg, Path(out), gangs(), it, noise + 31 * gang.rank, wrap=lambda m, g: to_ddp(m, g))
        return log, t, how

    runs = [seg(base + "/ref", None, 1)]
    for i, it in enumerate(c["interrupts"] + [None]):
        runs.append(seg(base + "/run", it, 2 + i))
        if it is not None and runs[-1][2] == "end":
            break
    if runs[-1][2] != "end":
        runs.append(seg(base + "/run", None, 9))

    class C:
        def label(self, *a): pass
        def nontrivial(self, *a): pass

    compare(C(), c, cfg, runs, labels=False)
    mids = sum(1 for log, _, _ in runs[2:] if log.trace and min(log.trace) > 1)
    return digest(runs[-1][1]._verif_net), runs[-1][1].step_nr, mids


POOL = [None]


def check_ddp(ctx, c):
    # Kills must hit all ranks at the same point: only phases that all reach together.
    c = dict(c, interrupts=[(h, p, n) for h, p, n in c["interrupts"] if p == "batch"][:2] or [("kill", "batch", 3)], sizes=c["sizes"], overflow=frozenset())
    base = tempfile.mkdtemp(prefix="t01_", dir=os.environ.get("FS2V_SCRATCH"))
    try:
        if POOL[0] is None:
            POOL[0] = ProcPool(2, worker)
        res = POOL[0].run([(c, base)] * 2, timeout=60)
        bad = [r for r in res if r[0] != "ok"]
        if bad:
            POOL[0].kill()
            POOL[0] = None
            err = [r for r in bad if r[0] == "err"]
            hang = [r for r in bad if r[0] != "err"]
            v = [r for r in err if r[1][0] == "Violation"]
            if v:
                raise Violation(v[0][1][1])
            if err:
                if "/repo/src/fairseq2" in err[0][1][2]:
                    raise Violation(f"{err[0][1]}")
                raise HarnessError(err[0][1][2])
            raise Violation(f"the ranks hang: {hang}")
        expect_eq(res[0][1][:2], res[1][1][:2], "the ranks end with different parameters or steps")
        ctx.nontrivial(res[0][1][2] > 0)
    finally:
        shutil.rmtree(base)


main(Prop(
    "T01",
    [Arm(f"resume{i}", cases, check, quick=130, thorough=5000, timeout=120) for i in range(6)]
    + [Arm("ddp", cases, check_ddp, quick=25, thorough=500, timeout=120)],
    rule="an interrupted run that resumed from a checkpoint after step 1 and went on",
    assumptions=[
        "the data pipeline is a stand-in whose own resume is exact (the native one's is property D02), the reader, trainer, optimizer, scheduler, scaler, checkpoint manager are real",
        "a kill is an exception that nothing handles, with unfinished background saves dropped; C01 covers kills inside of a save",
        "metrics that are reset when published are compared when the resumed checkpoint coincides with a publication",
        "CPU; the multi-process runs use Gloo and DDP",
    ],
))

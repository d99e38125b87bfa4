"""T02: training validates, checkpoints, publishes and stops when configured."""
import boot

boot.boot(recipe=True)

import logging
import os
import shutil
import tempfile
from pathlib import Path

from ckpt import file_system
from harness import Arm, Prop, Violation, expect, expect_eq, main
from hypothesis import strategies as st
from train import Cfg, Log, make_trainer

from fairseq2.device import CPU
from fairseq2.gang import create_fake_gangs
from fairseq2.task import TaskStopException

logging.disable(logging.WARNING)


def settings(unit):
    """(after steps, every steps, after epochs, every epochs); multiples of `unit`."""
    su, eu = unit
    return st.tuples(
        st.integers(0, 6), st.one_of(st.none(), st.integers(1, 4).map(lambda k: k * su), st.integers(1, 3).map(lambda k: k * su)),
        st.integers(0, 2), st.one_of(st.none(), st.integers(1, 2).map(lambda k: k * eu), st.just(eu)),
    )


def cases():
    def rest(pub):
        unit = (pub[1] or 1, pub[3] or 1)
        return st.tuples(
            st.just(pub), settings(unit), settings(unit),
            st.lists(st.one_of(st.integers(1, 7), st.integers(0, 3)), min_size=1, max_size=4),  # batches in each epoch, cyclic
            st.sampled_from([1, 1, 1, 2, 3]), st.booleans(),  # accumulation, drop remainder
            st.one_of(st.none(), st.integers(1, 14)), st.one_of(st.none(), st.integers(1, 4)),
            st.one_of(st.none(), st.tuples(st.sampled_from(["batch", "batch", "validate", "read", "end", "saved"]), st.integers(1, 12))),
            st.one_of(st.none(), st.none(), st.integers(1, 12)),  # early stop at or after this step
            st.one_of(st.just(0), st.integers(0, 6)),  # how long background saves take
            st.booleans(), st.booleans(),  # validator, at start
            st.frozensets(st.integers(0, 12), max_size=3),  # overflows
            st.sampled_from([False, False, "all", "all_but_last", True]),
        )

    pub = st.tuples(st.integers(0, 4), st.one_of(st.none(), st.integers(1, 3)), st.integers(0, 2), st.one_of(st.none(), st.integers(1, 2)))
    return pub.flatmap(rest)


LIMIT = 40


class Sim:
    """What the settings promise, written down from their documentation."""

    def __init__(self, case, epoch_steps):
        (self.pub, self.ck, self.val, _, _, _, self.max_steps, self.max_epochs, self.stop, self.early, _, self.has_val, self.at_start, self.overflow, _) = case
        self.steps, self.saves, self.pubs, self.vals = [], [], [], []
        self.reruns = False
        self.how = self.run(epoch_steps)

    def due_step(self, s):
        return s[1] is not None and self.step > s[0] and self.step % s[1] == 0

    def due_epoch(self, s):
        return s[3] is not None and self.epoch > s[2] and self.epoch % s[3] == 0

    def do(self, pub, ck, val):
        if pub:
            self.pubs.append(self.step)
        if ck:
            self.saves.append(self.step)
        if val and self.has_val:
            self.vals.append(self.step)
            return self.early is not None and self.step >= self.early
        return False

    def run(self, epoch_steps):
        self.step, self.epoch = 0, 1
        self.stopping = False
        taken = 0
        if self.at_start and self.has_val:
            self.vals.append(0)
        while True:
            for n in epoch_steps(self.epoch - 1):
                self.step += 1
                taken += 1
                self.steps.append(self.step)
                if self.stop_at("batch"):
                    self.stopping = True
                if n in self.overflow:
                    self.overflow = self.overflow - {n}
                    self.step -= 1
                    if self.stopping:
                        self.reruns = True
                        self.do(*[self.step > 0] * 3)
                        return "stop"
                    continue
                if self.max_steps is not None and self.step >= self.max_steps:
                    self.do(True, True, True)
                    return "stop" if self.stopping else "end"
                if self.stopping:
                    self.do(*[self.step > 0] * 3)
                    return "stop"
                d = [self.due_step(s) for s in (self.pub, self.ck, self.val)]
                if self.do(*d):
                    if not d[1]:
                        self.saves.append(self.step)
                    return "stop"
                if d[2] and self.has_val and self.stop_at("validate"):
                    self.stopping = True
            if taken == 0:
                return "empty"
            d = [self.due_step(s) for s in (self.pub, self.ck, self.val)]
            if self.stop and self.stop[0] == "end" and self.stop[1] <= self.epoch:
                self.stopping = True
            if self.max_epochs is not None and self.epoch >= self.max_epochs:
                self.do(*[not x for x in d])
                return "stop" if self.stopping else "end"
            if self.stopping:
                self.reruns = True
                self.do(*[self.step > 0] * 3)
                return "stop"
            e = [not x and self.due_epoch(s) for x, s in zip(d, (self.pub, self.ck, self.val))]
            if self.do(*e):
                self.reruns = e[1] or d[1]
                if not (e[1] or d[1]):
                    self.saves.append(self.step)
                return "stop"
            if e[2] and self.has_val and self.stop_at("validate"):
                self.stopping = True
            self.epoch += 1

    def stop_at(self, phase):
        return self.stop is not None and self.stop[0] == phase and self.stop[1] <= self.step


def check(ctx, case):
    (pub, ck, val, lens, acc, drop, max_steps, max_epochs, stop, early, polls, has_val, at_start, overflow, model_only) = case
    if max_steps is None and max_epochs is None:
        max_steps = 14
        case = case[:6] + (14,) + case[7:]
    if stop and stop[0] in ("read", "saved"):
        pass
    base = Path(tempfile.mkdtemp(prefix="t02_", dir=os.environ.get("FS2V_SCRATCH")))
    if sum(lens) == 0:
        lens = [0]

    ids = {}

    def batches(e):
        # The ids are global numbers of the batches read.
        n = lens[e % len(lens)]
        start = sum(lens[i % len(lens)] for i in range(e))
        return [[start + i] for i in range(n)]

    def epoch_steps(e):
        b = batches(e)
        out = []
        for i in range(0, len(b), acc):
            g = b[i : i + acc]
            if drop and len(g) < acc:
                continue
            out.append(g[0][0])
        return out

    # An epoch without a step repeats for ever when nothing else ends training.
    if max_epochs is None and (not any(epoch_steps(e) for e in range(len(lens)))) and epoch_steps(0):
        return
    if max_epochs is None and not any(epoch_steps(e) for e in range(len(lens))):
        lens = [0]

    log = Log()
    count = [0]
    trainer = None

    asked = [False]

    def request_stop():
        asked[0] = True
        trainer.request_stop()

    def hook(kind, at, t):
        count[0] += 1
        if count[0] > 400:
            raise Violation(f"training does not end: {log.events[-5:]}")
        if stop is None:
            return
        what, n = stop
        if kind == what == "batch" and at >= n:
            request_stop()
        elif kind == what == "validate" and at >= n and at > 0:
            request_stop()
        elif kind == what == "end" and at[0] + 1 >= n:
            request_stop()
        elif kind == what == "read" and trainer.step_nr >= n:
            request_stop()
        elif kind == what == "saved" and at >= n:
            request_stop()

    fp16 = (8.0, 1000, 0.5) if overflow else None
    cfg = Cfg(
        batches=batches, accumulate=acc, drop_remainder=drop, max_steps=max_steps, max_epochs=max_epochs, val=val, ck=ck, pub=pub,
        validate_at_start=at_start, has_validator=has_val, score=lambda s: float(s), polls=polls,
        stop_score=(lambda s: s >= early) if early is not None else None, fp16=fp16, save_model_only=model_only,
    )
    hit = set()
    try:
        trainer = make_trainer(cfg, base, create_fake_gangs(CPU), log, hook)
        if overflow:
            # Each of the batches overflows once, when it comes first in its step.
            unit, inner = trainer._verif_unit, trainer._verif_unit.process_batch

            def process(batch, bag):
                loss, n = inner(batch, bag)
                if batch.ids[0] in overflow and batch.ids[0] in first and batch.ids[0] not in hit:
                    hit.add(batch.ids[0])
                    loss = loss * float("inf")
                return loss, n

            first = {n for e in range(200) for n in epoch_steps(e)}
            unit.process_batch = process
        try:
            trainer.run()
            raised = False
        except TaskStopException:
            raised = True

        ev = log.events
        got = {k: [e[1] if k != "publish" else e[2] for e in ev if e[0] == k] for k in ("batch", "save", "publish", "validate", "saved", "score")}
        steps = []
        for i, e in enumerate(ev):
            if e[0] == "batch" and e[2][0] in {n for x in range(200) for n in epoch_steps(x)}:
                steps.append(e[1])

        # Whatever happens, what was begun is finished, and in order.
        expect_eq(sorted(got["saved"]), sorted(got["save"]), "checkpoints begun and committed before training returned")
        m = trainer._checkpoint_manager
        expect(not m.is_saving, "a checkpoint was left uncommitted")
        expect_eq(m.get_step_numbers(), sorted(set(got["save"])), "checkpoints on disk")
        full = m.get_step_numbers(exclude_model_only=True)
        want_full = {False: sorted(set(got["save"])), "all": [], True: [], "all_but_last": sorted(set(got["save"]))[-1:]}[model_only]
        expect_eq(full, want_full, f"full checkpoints with save_model_only={model_only}")
        for e in ev:
            if e[0] == "validate":
                expect(e[2] is False, "validation ran in training mode")
        expect(trainer._verif_net.training or not got["batch"] , "the model was left in evaluation mode")

        if stop and stop[0] in ("read", "saved"):
            # The time of the request depends on the schedule; the end does not.
            check_random_stop(ctx, case, epoch_steps, ev, got, steps, raised)
            return

        sim = Sim((pub, ck, val, lens, acc, drop, max_steps, max_epochs, stop, early, polls, has_val, at_start, frozenset(o for o in overflow if True), model_only), epoch_steps)
        expect_eq(steps, sim.steps, "steps run")
        for name, want in (("save", sim.saves), ("publish", sim.pubs), ("validate", sim.vals)):
            have = got[name]
            if sim.reruns and have and want and have[-1] == want[-1]:
                # A stop that is decided between two steps may do the last one's again.
                have, want = list(dict.fromkeys(have)), list(dict.fromkeys(want))
            expect_eq(have, want, f"steps with {name}")
        stopped = asked[0] or sim.how == "stop"
        expect(sim.how == "empty" or raised == stopped, f"a stop was {'' if raised else 'not '}reported, but training ended by {sim.how}")
        if sim.how != "empty":
            expect_eq(trainer.step_nr, sim.step, "the last step")
        for s in sim.saves:
            if has_val and s in sim.vals and ck[1] and val[1] and s > ck[0] and s > val[0] and s % ck[1] == 0 and s % val[1] == 0:
                expect(s in got["score"], f"the score of step {s} was not saved")
        ctx.nontrivial(len(steps) > 1 and len(got["save"]) + len(got["validate"]) + len(got["publish"]) > 2)
        ctx.label(sim.how)
        if stop:
            ctx.label(f"stop_{stop[0]}")
        if hit:
            ctx.label("overflow")
        if early is not None and sim.how == "stop" and not sim.stopping:
            ctx.label("early_stop")
        if max_steps is None or max_epochs is not None:
            ctx.label("epochs")
    finally:
        shutil.rmtree(base)


def check_random_stop(ctx, case, epoch_steps, ev, got, steps, raised):
    """A stop requested while reading or committing: no step but the one under way."""
    seen = None
    for i, e in enumerate(ev):
        if e[0] == "saved" and case[8][0] == "saved" and e[1] >= case[8][1]:
            seen = i
            break
    if seen is not None:
        # commits happen at the start of a step, in a validation, or at the end
        later = {e[1] for e in ev[seen:] if e[0] == "batch"}
        expect(len(later) <= 1, f"steps {sorted(later)} were run after a stop request")
        expect(raised, "the stop was not reported")
    ctx.label(f"stop_{case[8][0]}")
    ctx.nontrivial(raised)


# Settings that contradict each other are refused; see the constructor.
main(Prop(
    "T02",
    [Arm(f"schedule{i}", cases, check, quick=250, thorough=8000, timeout=120) for i in range(6)],
    rule="a run of at least 2 steps with at least 3 saves, validations or publications (or a reported stop)",
    assumptions=["one rank; the loop's decisions are the same on every rank because all ranks run the same loop", "the data pipeline is a stand-in list, the reader is fairseq2's"],
))

"""E01: aggregated metrics equal the metrics of all data together."""
import boot

boot.boot(recipe=True)

import io
import json
import logging
import math
import os
import shutil
import tempfile
from pathlib import Path

logging.disable(logging.WARNING)

import torch
from gangs import ProcPool
from harness import Arm, HarnessError, Prop, Violation, expect, expect_eq, main, raises
from hypothesis import strategies as st
from sacrebleu.metrics.bleu import BLEU
from sacrebleu.metrics.chrf import CHRF
from torcheval.metrics import Throughput

from fairseq2.checkpoint import NOOP_HG_EXPORTER
from fairseq2.datasets import DataPipelineReader, Seq2SeqBatch, SequenceBatch, SyncMode
from fairseq2.device import CPU
from fairseq2.error import InvalidOperationError, StateDictError
from fairseq2.evaluator import Evaluator, EvalUnit
from fairseq2.file_system import LocalFileSystem
from fairseq2.gang import FakeGang, Gangs
from fairseq2.generator import Generator, GeneratorUnit
from fairseq2.metrics import Max, Mean, MetricBag, Min, Sum, sync_and_compute_metrics
from fairseq2.metrics.common import (
    add_nll_loss_metric,
    add_seq2seq_batch_metrics,
    add_seq_batch_metrics,
    update_nll_loss_metric,
    update_seq2seq_batch_metrics,
    update_seq_batch_metrics,
)
from fairseq2.metrics.recorders import CompositeMetricRecorder, JsonlMetricRecorder, MetricDescriptor, MetricDescriptorRegistry, MetricRecorder
from fairseq2.metrics.text import BleuMetric, ChrfMetric, WerMetric
from fairseq2.nn import BatchLayout
from fairseq2.profilers import NOOP_PROFILER
from fairseq2.utils.device_stat import NOOP_DEVICE_STAT_TRACKER
from fairseq2.utils.progress import NOOP_PROGRESS_REPORTER
from fairseq2.utils.stopwatch import Stopwatch
from fairseq2.validator import StandardValidator

SCRATCH = os.environ.get("FS2V_SCRATCH")

# ---------------------------------------------------------------- metrics and what they should be

KINDS = {"sum": Sum, "mean": Mean, "min": Min, "max": Max, "thr": Throughput, "bleu": BleuMetric, "chrf": ChrfMetric, "wer": WerMetric}

NUM = st.one_of(st.integers(-1000, 1000), st.sampled_from([0.5, -0.25, 3.75, 1e9, -1e-3, 2.0**30 + 1, 0.0]))
TEXT = st.lists(st.sampled_from(["a", "b", "the cat sat", "on", "the mat", "Hello, world!", "ab", "on the mat", "x1", "."]), max_size=6).map(" ".join)
PAIRS = st.lists(st.tuples(TEXT, TEXT), min_size=1, max_size=3)
UNITS = st.lists(st.tuples(st.lists(st.integers(0, 3), max_size=6), st.lists(st.integers(0, 3), max_size=6), TEXT, TEXT), min_size=1, max_size=3)
# How a number is passed: as is, in a tensor of some type, or as a vector.
FORM = st.sampled_from(["plain", "plain", "f32", "f64", "vec"])


def update_of(kind):
    if kind in ("sum", "mean"):
        return st.tuples(NUM, FORM, st.one_of(st.none(), st.integers(0, 20), st.sampled_from([0.5, 2.25])))
    if kind in ("min", "max"):
        return st.tuples(st.one_of(NUM, st.integers(2**24, 2**40)), FORM, st.none())
    if kind == "thr":
        return st.tuples(st.integers(0, 100), st.sampled_from([0.25, 1.0, 3.5]), st.none())
    return UNITS if kind == "wer" else PAIRS


def f32(x):
    return float(torch.tensor(float(x), dtype=torch.float32))


def passed(v, form):
    """Python floats are turned into single precision tensors, integers are exact."""
    return f32(v) if form == "f32" or (form == "plain" and isinstance(v, float)) else float(v)


def tensor_of(v, form):
    if form == "plain":
        return v
    if form == "f32":
        return torch.tensor(float(v), dtype=torch.float32)
    if form == "f64":
        return torch.tensor(float(v), dtype=torch.float64)
    return torch.tensor([float(v), float(v)], dtype=torch.float64)


def apply(kind, metric, u) -> None:
    if kind in ("sum", "mean"):
        v, form, w = u
        if w is None:
            metric.update(tensor_of(v, form))
        else:
            metric.update(tensor_of(v, form), weight=w)
    elif kind in ("min", "max"):
        metric.update(tensor_of(u[0], u[1]))
    elif kind == "thr":
        metric.update(u[0], u[1])
    elif kind in ("bleu", "chrf"):
        metric.update([r for r, _ in u], [h for _, h in u])
    else:
        def pad(rows):
            n = max(1, max(len(r) for r in rows))
            return torch.tensor([r + [9] * (n - len(r)) for r in rows]), BatchLayout((len(rows), n), [len(r) for r in rows])

        rows = [x for x in u if x[0] and x[1]] or [([1], [1], "a", "a")]
        a, al = pad([x[0] for x in rows])
        b, bl = pad([x[1] for x in rows])
        metric.update([x[2] for x in rows], a, al, [x[3] for x in rows], b, bl)


def lev(a, b):
    d = list(range(len(b) + 1))
    for i, x in enumerate(a):
        p, d[0] = d[0], i + 1
        for j, y in enumerate(b):
            p, d[j + 1] = d[j + 1], min(d[j + 1] + 1, d[j] + 1, p + (x != y))
    return d[-1]


def reference(kind, per_rank):
    """The value of the metric for the updates of all ranks."""
    us = [u for r in per_rank for u in r]
    if kind in ("sum", "mean"):
        tot = wt = 0.0
        for v, form, w in us:
            w = 1.0 if w is None else w
            n = 2 if form == "vec" else 1
            x = passed(v, form)
            tot += x * w * n
            wt += w * n
        if kind == "sum":
            return tot
        return tot / wt if wt else 0.0
    if kind == "min":
        return min([passed(u[0], u[1]) for u in us], default=math.inf)
    if kind == "max":
        return max([passed(u[0], u[1]) for u in us], default=-math.inf)
    if kind == "thr":
        t = max(sum(u[1] for u in r) for r in per_rank)
        return sum(u[0] for u in us) / t if t else 0.0
    if kind == "bleu":
        pairs = [p for u in us for p in u]
        if not pairs:
            return None
        return BLEU(smooth_method="none").corpus_score([h for _, h in pairs], [[r for r, _ in pairs]]).score
    if kind == "chrf":
        pairs = [p for u in us for p in u]
        if not pairs:
            return None
        return CHRF(char_order=6, word_order=2).corpus_score([h for _, h in pairs], [[r for r, _ in pairs]]).score
    rows = [x for u in us for x in ([y for y in u if y[0] and y[1]] or [([1], [1], "a", "a")])]
    ul, wl = sum(len(x[0]) for x in rows), sum(len(x[2].split()) for x in rows)
    if not ul or not wl:
        return (-1.0, -1.0)
    return 100.0 * sum(lev(x[0], x[1]) for x in rows) / ul, 100.0 * sum(lev(x[2].split(), x[3].split()) for x in rows) / wl


def plain(v):
    if isinstance(v, tuple):
        return tuple(plain(x) for x in v)
    return float(v)


def near(a, b, tol=1e-5) -> bool:
    if isinstance(a, tuple):
        return all(near(x, y, tol) for x, y in zip(a, b))
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


# ---------------------------------------------------------------- arms 1, 2: histories of one bag per rank

def op(kinds):
    i = st.integers(0, len(kinds) - 1)
    upd = i.flatmap(lambda k: st.tuples(st.just("upd"), st.just(k), update_of(kinds[k])))
    rest = st.sampled_from(["begin", "commit", "rollback", "rollback", "move", "snap", "revert", "reset", "bad"]).map(lambda o: (o, None, None))
    return st.one_of(upd, upd, rest)


def histories(n):
    def of(kinds):
        seg = st.tuples(*[st.lists(op(kinds), max_size=12) for _ in range(n)])
        return st.fixed_dictionaries(dict(n=st.just(n), kinds=st.just(kinds), segs=st.lists(seg, min_size=1, max_size=3)))

    return st.lists(st.sampled_from(list(KINDS)), min_size=1, max_size=4).flatmap(of)


def fresh(kinds):
    bag = MetricBag(CPU)
    for i, k in enumerate(kinds):
        bag.add(f"m{i}", KINDS[k]())
    return bag


def junk(kinds, bag) -> None:
    """Updates that must not show up anywhere else."""
    for i, k in enumerate(kinds):
        u = {"sum": (77, "plain", 3), "mean": (77, "plain", 3), "min": (-10**6, "plain", None), "max": (10**6, "plain", None), "thr": (999, 99.0, None),
             "bleu": [("a b c d e", "a b c d f")], "chrf": [("a b c d e", "a b c d f")], "wer": [([1, 2, 3], [3], "a b c", "d")]}[k]
        apply(k, bag.get(f"m{i}", KINDS[k]), u)


def disk(x):
    f = io.BytesIO()
    torch.save(x, f)
    f.seek(0)
    return torch.load(f, weights_only=True)


def run_rank(gang, case):
    """Runs the operations of a rank, returns what is computed at the end of each segment."""
    kinds = case["kinds"]
    bag = fresh(kinds)
    snap = None
    open_ = False
    out = []
    for seg in case["segs"]:
        for what, i, u in seg[gang.rank]:
            if what == "upd":
                apply(kinds[i], bag.get(f"m{i}", KINDS[kinds[i]]), u)
            elif what == "begin":
                if open_:
                    raises(InvalidOperationError, bag.begin_updates, "begin twice")
                else:
                    bag.begin_updates()
                    open_ = True
            elif what in ("commit", "rollback"):
                f = bag.commit_updates if what == "commit" else bag.rollback_updates
                if not open_:
                    raises(InvalidOperationError, f, f"{what} without begin")
                else:
                    f()
                    open_ = False
            elif what == "reset":
                bag.reset_metrics()
            elif what == "move":
                if open_:
                    continue
                other = fresh(kinds)
                junk(kinds, other)
                other.load_state_dict(disk(bag.state_dict()))
                junk(kinds, bag)
                bag = other
            elif what == "snap":
                snap = bag.state_dict()
            elif what == "revert":
                if snap is not None and not open_:
                    bag.load_state_dict(snap)
            elif what == "bad":
                sd = bag.state_dict()
                other = fresh(kinds)
                raises(StateDictError, lambda: other.load_state_dict({k: v for k, v in sd.items() if k != "m0"}), "a state without a metric loads")
                raises(StateDictError, lambda: other.load_state_dict({**sd, "zz": sd["m0"]}), "a state with an extra metric loads")
                raises(StateDictError, lambda: other.load_state_dict({**sd, "m0": 3}), "a state that is no mapping loads")
                raises(ValueError, lambda: bag.add("m0", Sum()), "a metric can be added twice")
                raises(ValueError, lambda: bag.get("zz", Sum), "an unknown metric can be read")
                raises(TypeError, lambda: bag.get("m0", Mean if kinds[0] != "mean" else Sum), "a metric can be read as another type")
        a = sync_and_compute_metrics(bag, gang)
        b = sync_and_compute_metrics(bag, gang)
        for v in (a, b):
            expect(v is not None or gang.rank != 0, "rank 0 gets no values")
        if a is not None:
            expect_eq(set(a), {f"m{i}" for i in range(len(kinds))}, "metrics")
            a, b = ({k: plain(x) for k, x in v.items()} for v in (a, b))
            expect(all(near(a[k], b[k]) for k in a), lambda: f"computing twice gives {a}, then {b}")
        out.append(a)
    return out


def model_rank(case, r):
    """The updates that count, of each metric, at the end of each segment."""
    n = len(case["kinds"])
    cur: list[list] = [[] for _ in range(n)]
    keep = snap = None
    out = []
    flags = set()

    def copy(x):
        return [list(y) for y in x]

    for seg in case["segs"]:
        for what, i, u in seg[r]:
            if what == "upd":
                cur[i].append(u)
            elif what == "begin" and keep is None:
                keep = copy(cur)
            elif what == "commit":
                keep = None
            elif what == "rollback" and keep is not None:
                if keep != cur:
                    flags.add("rolled back")
                cur, keep = keep, None
            elif what == "reset":
                cur = [[] for _ in range(n)]
            elif what == "move" and keep is None and any(cur):
                flags.add("moved")
            elif what == "snap":
                snap = copy(cur)
            elif what == "revert" and snap is not None and keep is None:
                if snap != cur:
                    flags.add("reverted")
                cur = copy(snap)
        out.append(copy(cur))
    return out, flags


def compare(ctx, case, results) -> None:
    ms = [model_rank(case, r) for r in range(case["n"])]
    for r, res in enumerate(results):
        compare_rank(ctx, case, ms, r, res)


def compare_rank(ctx, case, ms, rank, res) -> None:
    for s, values in enumerate(res):
        if values is None and rank != 0:
            continue
        for i, k in enumerate(case["kinds"]):
            per_rank = [m[0][s][i] for m in ms]
            want = reference(k, per_rank)
            got = values[f"m{i}"]
            if want is None:
                continue
            if k in ("sum", "mean"):
                # A single update is computed in the type of its input.
                terms = [abs(float(u[0]) * (1.0 if u[2] is None else u[2])) * (2 if u[1] == "vec" else 1) for p in per_rank for u in p]
                weights = sum((1.0 if u[2] is None else u[2]) * (2 if u[1] == "vec" else 1) for p in per_rank for u in p) if k == "mean" else 1.0
                ok = abs(got - want) * (weights or 1.0) <= 1e-9 + 2e-7 * sum(terms)
            else:
                ok = near(got, want, 1e-9 if k in ("min", "max", "thr") else 1e-5)
            expect(ok, lambda: f"segment {s}, rank {rank}: {k} is {got}, expected {want} of {per_rank}")
            if sum(1 for p in per_rank if p) >= min(2, case["n"]):
                ctx.nontrivial()
    for m in ms:
        for f in m[1]:
            ctx.label(f)


def local(ctx, case) -> None:
    compare(ctx, case, [run_rank(FakeGang(device=CPU), case)])


def worker(gang, arg):
    how, case = arg
    return run_rank(gang, case) if how == "bag" else run_loop(gang, case)


POOL: dict = {}


def pooled(n, arg):
    if n not in POOL:
        POOL[n] = ProcPool(n, worker)
    res = POOL[n].run([arg] * n, timeout=60)
    bad = [r for r in res if r[0] != "ok"]
    if bad:
        POOL.pop(n).kill()
        err = [r for r in bad if r[0] == "err"]
        for r in err:
            if r[1][0] == "Violation":
                raise Violation(r[1][1])
        for r in err:
            if "/src/fairseq2" in r[1][2]:
                raise Violation(f"{r[1]}")
            raise HarnessError(r[1][2])
        raise Violation(f"the ranks hang: {bad}")
    return [r[1] for r in res]


def ranks(ctx, case) -> None:
    compare(ctx, case, pooled(case["n"], ("bag", case)))


# ---------------------------------------------------------------- arms 3, 4: evaluation, generation and validation loops

class Item:
    def __init__(self, v) -> None:
        self.v = v

    def to(self, device, *, non_blocking=False) -> None:
        pass

    def __len__(self):
        return self.v % 3 + 1


class Recorder(MetricRecorder):
    def __init__(self) -> None:
        self.got: list = []

    def record_metric_values(self, category, values, step_nr=None) -> None:
        self.got.append((category, {k: plain(v) for k, v in values.items()}, step_nr))

    def close(self) -> None:
        pass


class Mixin:
    def __init__(self, name, model):
        self.n, self.m, self.seen, self.draws, self.final, self.published, self.modes = name, model, [], [], 0, 0, set()

    def prepare_metric_bag(self, bag):
        for n, m in (("num_examples", Sum()), ("num_elements", Sum()), ("total_num_examples", Sum()), ("padding", Sum()), ("loss", Mean()), ("top", Max())):
            bag.add(n, m)

    def process_batch(self, batch, bag):
        self.seen.append(batch.v)
        self.modes.add((self.m.training, torch.is_grad_enabled(), torch.is_inference_mode_enabled()))
        self.draws.append(float(torch.rand(())))
        bag.get("num_examples", Sum).update(len(batch))
        bag.get("total_num_examples", Sum).update(len(batch))
        bag.get("num_elements", Sum).update(batch.v)
        bag.get("padding", Sum).update(batch.v % 2)
        bag.get("loss", Mean).update(batch.v / 2, weight=len(batch))
        bag.get("top", Max).update(batch.v)

    def finalize(self, bag):
        self.final += 1

    def process_metric_values(self, values):
        self.published += 1
        values["extra"] = 5.0

    @property
    def name(self):
        return self.n


class EUnit(Mixin, EvalUnit):
    def set_train_step_nr(self, n):
        self.step = n


class GUnit(Mixin, GeneratorUnit):
    pass


class NoCkpt:
    def __init__(self, scores):
        self.scores = scores

    def load_scores(self):
        return self.scores

    def maybe_complete_save_operation(self, *, blocking=False):
        return None


def loop_cases(n):
    unit = st.tuples(st.sampled_from([None, "u", "v"]), st.tuples(*[st.lists(st.integers(0, 9), max_size=5) for _ in range(n)]))
    return st.fixed_dictionaries(dict(
        n=st.just(n), what=st.sampled_from(["eval", "eval", "valid", "valid", "gen"]), units=st.lists(unit, min_size=1, max_size=3), acc=st.sampled_from([1, 1, 2, 3]),
        drop=st.booleans(), mode=st.sampled_from([SyncMode.UNTIL_FIRST, SyncMode.UNTIL_LAST, SyncMode.UNTIL_LAST]), seed=st.integers(0, 5), higher=st.booleans(),
        score=st.sampled_from(["loss", "top", "extra"]), rounds=st.integers(1, 3), train_step=st.integers(1, 9),
    ))


def run_loop(gang, case):
    gang.close = lambda: None
    fake = FakeGang(device=CPU)
    gangs = Gangs(root=gang, dp=gang, rdp=gang, sdp=fake, tp=fake, pp=fake)
    r = gang.rank
    model = torch.nn.Linear(1, 1)
    units_in = case["units"][:1] if case["what"] == "gen" else case["units"]
    kls = GUnit if case["what"] == "gen" else EUnit
    units = [kls(n, model) for n, _ in units_in]
    readers = []
    for _, data in units_in:
        readers.append(DataPipelineReader(ItemPipeline(data[r]), gangs, num_accumulate=case["acc"], drop_remainder=case["drop"], sync=True, sync_mode=case["mode"]))
    rec = Recorder()
    common = dict(gangs=gangs, amp=False, amp_dtype=torch.float16, metric_recorder=rec, profiler=NOOP_PROFILER, device_stat_tracker=NOOP_DEVICE_STAT_TRACKER, wall_watch=Stopwatch(), progress_reporter=NOOP_PROGRESS_REPORTER, seed=case["seed"])
    torch.manual_seed(1234)
    before = torch.get_rng_state()
    scores = []
    if case["what"] == "eval":
        task = Evaluator(model=model, units=units, data_readers=readers, **common)
        task.run()
        raises(InvalidOperationError, task.run, "an evaluator runs twice")
        steps = task.step_nr
    elif case["what"] == "gen":
        task = Generator(model=model, unit=units[0], data_reader=readers[0], **common)
        task.run()
        raises(InvalidOperationError, task.run, "a generator runs twice")
        steps = task.step_nr
    else:
        desc = MetricDescriptor(case["score"], case["score"], 0, formatter=str, higher_better=case["higher"])
        task = StandardValidator(units=units, data_readers=readers, score_metric_descriptor=desc, checkpoint_manager=NoCkpt([]), hg_exporter=NOOP_HG_EXPORTER, **common)
        for k in range(case["rounds"]):
            model.eval()
            scores.append(task.run(case["train_step"] + k))
            task.reset()
        steps = 0
    same = torch.equal(before, torch.get_rng_state())
    return dict(rec=rec.got, seen=[u.seen for u in units], draws=[u.draws for u in units], final=[u.final for u in units], published=[u.published for u in units],
                modes=set().union(*[u.modes for u in units]), same=same, steps=steps, scores=scores, train_steps=[getattr(u, "step", None) for u in units])


class ItemPipeline:
    """As the native pipeline: its iterator goes on after a reset."""

    def __init__(self, data):
        self.data, self.i = data, 0

    def __iter__(self):
        return ItemIter(self)

    def reset(self, reset_rng=False):
        self.i = 0

    def state_dict(self, strict=True):
        return {"i": self.i}

    def load_state_dict(self, d):
        self.i = d["i"]


class ItemIter:
    def __init__(self, p):
        self.p = p

    def __iter__(self):
        return self

    def __next__(self):
        if self.p.i >= len(self.p.data):
            raise StopIteration
        self.p.i += 1
        return Item(self.p.data[self.p.i - 1])


def check_loop(ctx, case, res) -> None:
    n, acc, drop = case["n"], case["acc"], case["drop"]
    units = case["units"][:1] if case["what"] == "gen" else case["units"]
    rounds = case["rounds"] if case["what"] == "valid" else 1

    def reads(data):
        out = [data[i : i + acc] for i in range(0, len(data), acc)]
        if drop and out and len(out[-1]) != acc:
            out.pop()
        return out

    want_rec = []
    steps = 0
    for k in range(rounds):
        total = 0.0
        for u, (name, data) in enumerate(units):
            lists = [reads(d) for d in data]
            if case["mode"] == SyncMode.UNTIL_FIRST and n > 1:
                # Every rank reads as many batches as the one with the fewest.
                num = []
                for t in range(max(len(x) for x in lists)):
                    m = min(len(x[t]) if t < len(x) else 0 for x in lists)
                    if m == 0:
                        break
                    num.append(m)
                lists = [[x[t][:m] for t, m in enumerate(num)] for x in lists]
                nsteps = len(num)
            else:
                nsteps = max(len(x) for x in lists)
            steps += nsteps
            items = [[v for b in x for v in b] for x in lists]
            for r in range(n):
                expect_eq(res[r]["seen"][u][k * len(items[r]) : (k + 1) * len(items[r])], items[r], f"unit {u}: batches of rank {r} in round {k}")
            vals = [v for x in items for v in x]
            sizes = [v % 3 + 1 for v in vals]
            w = {"num_examples": float(sum(sizes)), "num_elements": float(sum(vals)), "padding": float(sum(v % 2 for v in vals)), "extra": 5.0,
                 "loss": sum(v / 2 * s for v, s in zip(vals, sizes)) / sum(sizes) if vals else 0.0, "top": float(max(vals, default=-math.inf))}
            w["batch_size"] = w["num_examples"] // nsteps if nsteps else 0.0
            w["elements_per_batch"] = w["num_elements"] // nsteps if nsteps else 0.0
            if w["num_elements"]:
                w["padding_ratio"] = w["padding"] / (w["num_elements"] + w["padding"])
            cat = {"eval": "eval", "valid": "valid", "gen": "generation"}[case["what"]]
            if name and case["what"] != "gen":
                cat += "/" + name
            want_rec.append((cat, w, case["train_step"] + k if case["what"] == "valid" else None))
            total += w[case["score"]] if case["higher"] else -w[case["score"]]
        if case["what"] == "valid":
            expect(near(res[0]["scores"][k], total), lambda: f"score {res[0]['scores'][k]} in round {k}, expected {total}")
    for r in range(n):
        for u in range(len(units)):
            expect_eq((len(res[r]["seen"][u]) * 1, res[r]["final"][u]), (len(res[r]["draws"][u]), rounds), f"rank {r}, unit {u}: calls")
        expect(res[r]["same"], f"rank {r}: the random state is not as before")
        expect(res[r]["modes"] <= {(False, False, True)}, lambda: f"rank {r}: batches run with (training, grad, inference) {res[r]['modes']}")
        # The random numbers of a run depend on nothing but the seed.
        flat = [x for d in res[r]["draws"] for x in d] if rounds == 1 else None
        if flat is not None:
            g = torch.Generator().manual_seed(case["seed"])
            expect(all(near(a, float(torch.rand((), generator=g))) for a in flat), f"rank {r}: the random numbers do not come from the seed")
        if r:
            expect_eq(res[r]["rec"], [], f"recorded by rank {r}")
        if case["what"] == "valid":
            expect_eq(res[r]["train_steps"], [case["train_step"] + rounds - 1] * len(units), "training steps of the units")
    rec = res[0]["rec"]
    expect_eq([(c, s) for c, _, s in rec], [(c, s) for c, _, s in want_rec], "categories and steps recorded")
    for (c, got, _), (_, want, _) in zip(rec, want_rec):
        expect(not [k for k in got if k.startswith("total_")], lambda: f"{c}: {got}")
        for k, v in want.items():
            expect(k in got and near(got[k], v), lambda: f"{c}: {k} is {got.get(k)}, expected {v}")
        for k in ("data_time", "compute_time", "lapse_time", "wall_time"):
            expect(k in got and 0.0 <= got[k] < 600, lambda: f"{c}: {k} is {got.get(k)}")
        expect("padding_ratio" in want or "padding_ratio" not in got, lambda: f"{c}: padding_ratio of nothing")
    if case["what"] in ("eval", "gen"):
        expect_eq([x["steps"] for x in res], [steps] * n, "steps")
    ctx.label(case["what"])
    ctx.nontrivial(len(units) + rounds > 2 or any(len(d) > acc for _, ds in units for d in ds))


def loops(ctx, case) -> None:
    check_loop(ctx, case, [run_loop(FakeGang(device=CPU), case)])


def loops2(ctx, case) -> None:
    check_loop(ctx, case, pooled(case["n"], ("loop", case)))


# ---------------------------------------------------------------- arm 5: metrics of batches do not depend on how data is batched

def batch_cases():
    row = st.tuples(st.integers(1, 6), st.integers(1, 6))
    return st.fixed_dictionaries(dict(rows=st.lists(row, min_size=1, max_size=8), cuts=st.lists(st.integers(1, 8), max_size=4), mask=st.booleans(), s2s=st.booleans(), packed=st.booleans()))


def batches(ctx, case) -> None:
    """Counts and losses of a data set do not depend on how it is cut into batches."""
    rows = case["rows"]

    def totals(cuts):
        bag = MetricBag(CPU)
        (add_seq2seq_batch_metrics if case["s2s"] else add_seq_batch_metrics)(bag)
        add_nll_loss_metric(bag)
        pos = 0
        pad = 0
        for k in cuts + [len(rows)]:
            part = rows[pos : pos + k]
            pos += k
            if not part:
                break

            def make(col):
                lens = [p[col] for p in part]
                if case["packed"]:
                    return torch.zeros((sum(lens),), dtype=torch.int64), lens, 0
                w = max(lens)
                return torch.zeros((len(lens), w), dtype=torch.int64), lens, sum(w - n for n in lens)

            a, al, ap = make(0)
            b, bl, bp = make(1)
            if case["s2s"]:
                batch = Seq2SeqBatch(a, al, b, bl, packed=case["packed"])
                update_seq2seq_batch_metrics(bag, batch)
                pad += ap + bp
                nt = sum(bl)
            else:
                batch = SequenceBatch(a, al, packed=case["packed"])
                update_seq_batch_metrics(bag, batch)
                pad += ap
                nt = sum(al)
            loss = torch.tensor(float(sum(p[0] * 3 + p[1] for p in part)))
            update_nll_loss_metric(bag, loss, nt)
        vals = {k: plain(v) for k, v in sync_and_compute_metrics(bag, FakeGang(device=CPU)).items()}
        return vals, float(pad)

    src, tgt = sum(r[0] for r in rows), sum(r[1] for r in rows)
    for cuts in ([], case["cuts"]):
        vals, pad = totals(list(cuts))
        want = {"num_examples": len(rows), "padding": pad, "nll_loss": sum(r[0] * 3 + r[1] for r in rows) / (tgt if case["s2s"] else src)}
        if case["s2s"]:
            want.update(num_elements=src + tgt, num_source_elements=src, num_target_elements=tgt)
        else:
            want.update(num_elements=src, num_target_elements=src)
        want.update({"total_" + k: v for k, v in want.items() if k.startswith("num_")})
        for k, v in want.items():
            expect(k in vals and near(vals[k], float(v)), lambda: f"cuts {cuts}: {k} is {vals.get(k)}, expected {v}")
        expect_eq(set(vals), set(want), "metrics")
    ctx.nontrivial(len(rows) > 1 and bool(case["cuts"]))


# ---------------------------------------------------------------- arm 6: recorded values

CAT = st.sampled_from(["train", "valid/a", "valid/b-1", "valid", "eval/x/y"])
BADCAT = st.sampled_from(["", "a//b", "../x", "a/../../b", "a b", "a.b", "/abs", "ü"])
VAL = st.one_of(NUM, st.sampled_from(["text", True, math.nan, math.inf, -math.inf]), st.lists(NUM, max_size=3), NUM.map(lambda v: torch.tensor(float(v), dtype=torch.float64)), st.lists(NUM, max_size=3).map(lambda v: torch.tensor([float(x) for x in v], dtype=torch.float64)))
RECOP = st.one_of(
    st.tuples(st.just("rec"), CAT, st.dictionaries(st.sampled_from("abcdefg"), VAL, max_size=4), st.one_of(st.none(), st.integers(0, 99))),
    st.tuples(st.just("rec"), CAT, st.dictionaries(st.sampled_from("abcdefg"), VAL, max_size=4), st.one_of(st.none(), st.integers(0, 99))),
    st.tuples(st.just("badcat"), BADCAT, st.just({"a": 1}), st.none()),
    st.tuples(st.just("badval"), CAT, st.sampled_from([{"a": 1, "b": None}, {"b": object}, {"a": 1.5, "z": {1: 2}}]), st.none()),
    st.tuples(st.just("reopen"), st.none(), st.none(), st.none()),
)


def record_cases():
    return st.fixed_dictionaries(dict(ops=st.lists(RECOP, min_size=1, max_size=8), two=st.booleans(), desc=st.dictionaries(st.sampled_from("abcd"), st.integers(0, 3), max_size=4)))


def recorders(ctx, case) -> None:
    d = Path(tempfile.mkdtemp(prefix="e01_", dir=SCRATCH))
    try:
        reg = MetricDescriptorRegistry([MetricDescriptor(n, f"Name of {n}", p, formatter=str) for n, p in case["desc"].items()])

        def make():
            a = JsonlMetricRecorder(d / "x", LocalFileSystem(), reg)
            return CompositeMetricRecorder([a, JsonlMetricRecorder(d / "y", LocalFileSystem(), reg)]) if case["two"] else a

        rec = make()
        want: dict = {}
        for what, cat, values, step in case["ops"]:
            if what == "reopen":
                rec.close()
                rec = make()
            elif what == "badcat":
                raises(ValueError, lambda: rec.record_metric_values(cat, values, step), f"category {cat!r} is accepted")
            elif what == "badval":
                raises(ValueError, lambda: rec.record_metric_values(cat, values, step), f"{values} are recorded")
            else:
                rec.record_metric_values(cat, values, step)
                names = sorted(values, key=lambda n: (case["desc"].get(n, 999), f"Name of {n}" if n in case["desc"] else n))
                want.setdefault(cat, []).append((step, [(f"Name of {n}" if n in case["desc"] else n, values[n].tolist() if isinstance(values[n], torch.Tensor) else values[n]) for n in names]))
                # What was recorded is on disk at once.
                check_files(d, case, want)
        rec.close()
        check_files(d, case, want)
        ctx.nontrivial(sum(len(v) for v in want.values()) > 1)
    finally:
        shutil.rmtree(d)


def eq(a, b):
    if isinstance(a, float) and isinstance(b, float) and math.isnan(a):
        return math.isnan(b)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(eq(x, y) for x, y in zip(a, b))
    if isinstance(b, list) and len(b) == 1 and not isinstance(a, list):
        return eq(a, b[0])  # a tensor with one element
    return a == b


def check_files(d, case, want) -> None:
    for base in ["x", "y"] if case["two"] else ["x"]:
        root = d / base / "metrics"
        files = {str(p.relative_to(root).with_suffix("")) for p in root.rglob("*.jsonl")} if root.exists() else set()
        expect(set(want) <= files, lambda: f"files {files}, expected {set(want)}")
        for f in files:
            lines = (root / f"{f}.jsonl").read_text().splitlines()
            w = want.get(f, [])
            expect_eq(len(lines), len(w), f"lines of {f}")
            for line, (step, vals) in zip(lines, w):
                got = json.loads(line)
                got.pop("Time")
                expect(got.pop("Step", None) == step, f"step in {line}")
                expect_eq(list(got), [n for n, _ in vals], f"names in {line}")
                for n, v in vals:
                    expect(eq(got[n], v), lambda: f"{n} is {got[n]!r}, recorded was {v!r}")
    outside = [p for p in d.rglob("*") if p.is_file() and p.suffix != ".jsonl"]
    expect(not outside, lambda: f"files {outside}")


if __name__ == "__main__":
    main(Prop("E01", [
        Arm("local", lambda: histories(1), local, quick=500, thorough=20000),
        Arm("ranks2", lambda: histories(2), ranks, quick=150, thorough=4000),
        Arm("ranks3", lambda: histories(3), ranks, quick=100, thorough=3000),
        Arm("loops", lambda: loop_cases(1), loops, quick=250, thorough=8000),
        Arm("loops2", lambda: loop_cases(2), loops2, quick=150, thorough=3000),
        Arm("batches", batch_cases, batches, quick=300, thorough=10000),
        Arm("recorders", record_cases, recorders, quick=200, thorough=8000),
    ], rule="metrics were updated on several ranks (or over several calls) and compared with a computation over all data at once",
        assumptions=["ranks call the synchronisation together", "sacrebleu's own corpus scores and torcheval's merging of throughputs (slowest rank's time) are the meaning of those metrics"]))

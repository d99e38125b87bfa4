"""D02: a data pipeline restored from saved state continues seamlessly."""
import boot

boot.boot_native(recipe=True)

import collections
import io
import pickle

import pipes
import torch
from harness import Arm, Prop, Violation, expect, expect_eq, main, raises
from hypothesis import strategies as st
from pipes import build, norm, run, take, watch

from fairseq2.data.data_pipeline import DataPipeline, DataPipelineError, read_sequence
from fairseq2.data.utils import read_pickle_wrapped_iterator
from fairseq2.datasets import DataPipelineReader
from fairseq2.datasets.data_reader import SyncMode
from fairseq2.gang import create_fake_gangs
from fairseq2.device import CPU

N = 30


def ops():
    return st.lists(
        st.one_of(
            st.tuples(st.just("next"), st.one_of(st.integers(0, 6), st.just(N))),
            st.tuples(st.just("next"), st.one_of(st.integers(0, 6), st.just(N))),
            st.tuples(st.just("reset"), st.booleans()),
            st.tuples(st.just("save"), st.sampled_from(["as is", "pickle", "torch"])),
            st.tuples(st.just("load"), st.integers(0, 5), st.sampled_from(["fresh", "same", "other"])),
            st.tuples(st.just("load"), st.integers(0, 5), st.sampled_from(["fresh", "same", "other"])),
        ),
        min_size=2, max_size=10,
    )


def step(p, op):
    """Applies an operation that is part of the history of a pipeline."""
    if op[0] == "next":
        try:
            return take(p, op[1])
        except DataPipelineError:
            return "error", True
    p.reset(reset_rng=op[1])
    return None


def copy_state(state, how):
    if how == "pickle":
        return pickle.loads(pickle.dumps(state))
    if how == "torch":
        f = io.BytesIO()
        torch.save(state, f)
        f.seek(0)
        return torch.load(f, weights_only=False)
    return state


def history(ctx, case, make=None):
    """Each pipeline yields what one with the same history of reads and resets does."""
    s, todo = case
    if make is None:
        s = pipes.tame(s)
        reads_ahead = bool(set(pipes.ops_of(s)) & {"shuffle", "sample"}) and "prefetch" in pipes.ops_of(s)

        def make():
            return build(s)
    else:
        reads_ahead = False
    cache: dict = {}

    def reference(path):
        """What the last operation of the path gives."""
        if path not in cache:
            p = make()
            for op in path:
                cache[path] = step(p, op)
        return cache[path]

    with watch(100):
        cur, path = make(), ()
        other = None
        saves: list = []
        seen = 0
        for op in todo + [("save", "as is"), ("load", -1, "fresh"), ("next", N), ("next", 2), ("reset", False), ("next", N)]:
            if op[0] in ("next", "reset"):
                if op[0] == "reset" and reads_ahead:
                    op = ("reset", True)
                got = step(cur, op)
                path += (op,)
                want = reference(path)
                if want is not None and want[0] == "error":
                    expect_eq(got, want, f"after {path}")
                    ctx.label("fails")
                    return
                expect_eq(got, want, f"after {path}, {len(saves)} saves")
                seen += len(got[0]) if got else 0
            elif op[0] == "save":
                saves.append((copy_state(cur.state_dict(), op[1]), path))
            else:
                if not saves:
                    continue
                state, at = saves[op[1] % len(saves)]
                if op[2] == "fresh":
                    other, cur = cur, make()
                elif op[2] == "other" and other is not None:
                    other, cur = cur, other
                cur.load_state_dict(state)
                path = at
                ctx.label(op[2])
        ctx.nontrivial(seen > 2)
        del cur, other


def histories(**kw):
    return st.tuples(pipes.program(rng=True, **kw), ops())


# ---- iterators of Python


@st.composite
def wrap_cases(draw):
    return dict(n=draw(st.integers(0, 8)), tail=draw(st.sampled_from(["none", "map", "bucket", "prefetch", "repeat"])), todo=draw(ops()))


class Squares:
    def __init__(self, n):
        self.n = n

    def __call__(self):
        for i in range(self.n):
            yield i * i


def wrapped(ctx, c):
    def make():
        b = read_pickle_wrapped_iterator(Squares(c["n"]))
        if c["tail"] == "map":
            b = b.map(lambda x: [x], num_parallel_calls=3)
        elif c["tail"] == "bucket":
            b = b.bucket(2)
        elif c["tail"] == "prefetch":
            b = b.prefetch(2)
        elif c["tail"] == "repeat":
            b = b.repeat()
        return b.and_return()

    if c["tail"] == "repeat" and c["n"] == 0:
        return
    history(ctx, (c, c["todo"]), make)


# ---- unordered maps


@st.composite
def unordered_cases(draw):
    return dict(c=draw(pipes.program(depth=2, root=False, finite=True)), par=draw(st.integers(2, 5)), k=draw(st.integers(0, 30)), at=draw(st.lists(st.integers(0, 6), min_size=1, max_size=4)),
                fresh=draw(st.booleans()), slow=draw(st.sampled_from([0.0, 0.0002])), go_on=draw(st.booleans()))


def unordered(ctx, c):
    """Without order, the rest is what is left of the examples."""
    s = {"op": "map", "k": c["k"], "two": False, "par": c["par"], "det": False, "c": c["c"]}
    want = collections.Counter(repr(norm(x)) for x in run(s))
    with watch(60):
        p = build(s, c["slow"])
        have: collections.Counter = collections.Counter()
        for n in c["at"]:
            have.update(map(repr, take(p, n)[0]))
            state = p.state_dict()
            if c["go_on"]:  # What the original reads from here on is in no state.
                rest, end = take(p, 10**6)
                expect_eq(have + collections.Counter(map(repr, rest)), want, "examples of the pipeline that went on after it was saved")
            if c["fresh"]:
                p = build(s, c["slow"])
            p.load_state_dict(pickle.loads(pickle.dumps(state)))
        have.update(map(repr, take(p, 10**6)[0]))
        expect_eq(have, want, "examples read before and after the restores")
    ctx.nontrivial(sum(want.values()) > 3)


# ---- readers


@st.composite
def reader_cases(draw):
    rng = draw(st.booleans())
    s = pipes.tame(draw(pipes.program(rng=rng, root=False, finite=True)))
    return dict(rng=rng, s=s, accum=draw(st.integers(1, 3)), drop=draw(st.booleans()), todo=draw(st.lists(st.one_of(st.tuples(st.just("next"), st.integers(1, 5)), st.just(("save",)), st.tuples(st.just("load"), st.booleans()), st.just(("reset",))), min_size=2, max_size=8)))


def reader(ctx, c):
    """Through a DataPipelineReader: the reader restored on its state reads on."""
    gangs = create_fake_gangs(CPU)
    # Reading ahead: see `tame`.
    s = pipes.serial(c["s"])

    def make():
        return DataPipelineReader(build({"op": "bucket", "n": 2, "drop": False, "c": s}), gangs, num_accumulate=c["accum"], drop_remainder=c["drop"], sync=True, sync_mode=SyncMode.UNTIL_FIRST)

    def read(r, n):
        out = []
        for _ in range(n):
            try:
                out.append(norm(next(r)))
            except StopIteration:
                out.append("end")
                break
        return out

    def reference(path):
        r = make()
        out = None
        for op in path:
            if op[0] == "next":
                out = read(r, op[1])
            else:
                r.reset()
        return out

    with watch(100):
        r, path, saved = make(), (), None
        for op in c["todo"] + [("save",), ("load", True), ("next", 30), ("reset",), ("next", 30)]:
            # Readers read past the end of their data, and some operators go on
            # drawing random numbers then.
            if op[0] == "reset" and c["rng"]:
                break
            if op[0] == "next":
                path += (op,)
                expect_eq(read(r, op[1]), reference(path), f"after {path}")
            elif op[0] == "reset":
                path += (op,)
                r.reset()
            elif op[0] == "save":
                saved = (pickle.loads(pickle.dumps(r.state_dict())), path)
            elif saved is not None:
                if op[1]:
                    r = make()
                r.load_state_dict(saved[0])
                path = saved[1]
    ctx.nontrivial(len(path) > 2)


# ---- damage


@st.composite
def damage_cases(draw):
    return dict(s=draw(pipes.program(rng=True, root=False)), n=draw(st.integers(0, 6)), how=draw(st.sampled_from(["key", "type", "cut", "extra", "swap"])), at=draw(st.integers(0, 30)))


def damage(ctx, c):
    """A state that is not one of this pipeline raises ValueError, or at least does no harm."""
    with watch():
        p = build(c["s"])
        take(p, c["n"])
        state = p.state_dict()
        pos = list(state["position"])
        if c["how"] == "key":
            bad: dict = {"positions": pos}
        elif c["how"] == "type":
            bad = {"position": "x"}
        elif c["how"] == "extra":
            bad = {"position": pos + [1]}
        elif c["how"] == "cut":
            if not pos:
                return
            bad = {"position": pos[: c["at"] % len(pos)]}
        else:
            i = c["at"] % max(1, len(pos))
            if not pos or isinstance(pos[i], str):
                return
            bad = {"position": pos[:i] + ["oops"] + pos[i + 1 :]}
        q = build(c["s"])
        try:
            q.load_state_dict(bad)
        except ValueError:
            ctx.nontrivial(len(pos) > 2)
            return
        except Exception as ex:
            raise Violation(f"{type(ex).__name__} rather than ValueError: {ex}")
        if c["how"] != "swap":
            raise Violation(f"a damaged state was taken: {c['how']}")
        # A constant or saved example may have been replaced.


main(
    Prop(
        "D02",
        [
            Arm("history", histories, history, quick=1500, thorough=60000),
            Arm("history2", lambda: histories(depth=2), history, quick=2500, thorough=60000),
            Arm("deep", lambda: histories(depth=5), history, quick=800, thorough=40000),
            Arm("wrapped", wrap_cases, wrapped, quick=800, thorough=20000),
            Arm("unordered", unordered_cases, unordered, quick=600, thorough=20000),
            Arm("reader", reader_cases, reader, quick=700, thorough=20000),
            Arm("damage", damage_cases, damage, quick=800, thorough=20000),
        ],
        rule="more than two examples read over a history with saves and loads; a state with more than two entries damaged",
        assumptions=[
            "states are saved with strict=True, the default",
            "random operators are given seeds: without them an unread pipeline has nothing to restore",
            "what reading ahead leaves behind in the random state of a pipeline that is reset before its end (without reset_rng) is not compared",
            "functions given to the pipeline depend on their argument only",
        ],
    )
)

"""D01: data pipeline operators produce exactly the examples they promise."""
import boot

boot.boot_native()

import collections
import itertools
import math
import os
import subprocess
import sys
import tempfile
import time
from pathlib import Path

import pipes
from harness import Arm, Prop, Violation, expect, expect_eq, main
from hypothesis import strategies as st
from pipes import FIN, INF, ModelError, build, norm, run, take, watch

from fairseq2.data.data_pipeline import DataPipeline, DataPipelineError, read_sequence

N = 40  # examples read of an infinite epoch


def expected(s, n):
    """The next n examples, whether the end follows, whether an error does."""
    out, it = [], run(s)
    for _ in range(n):
        try:
            out.append(norm(next(it)))
        except StopIteration:
            return out, True, False
        except ModelError:
            return out, False, True
    return out, False, False


def model_cases():
    epoch = st.tuples(st.one_of(st.just(N), st.integers(0, 8)), st.booleans())
    return st.tuples(pipes.program(), st.lists(epoch, min_size=1, max_size=3))


def model(ctx, case):
    s, epochs = case
    with watch():
        p = build(s)
        for e, (n, rng) in enumerate(epochs):
            want, end, fails = expected(s, n)
            got: list = []
            try:
                it = iter(p)
                for _ in range(n):
                    got.append(norm(next(it)))
                ended, failed = False, False
            except StopIteration:
                ended, failed = True, False
            except DataPipelineError as ex:
                ended, failed = False, True
                if not fails:
                    raise Violation(f"epoch {e}: failed after {got}: {ex}, expected {want}")
            except Exception as ex:
                raise Violation(f"epoch {e}: {type(ex).__name__}: {ex}")
            expect_eq(got, want, f"epoch {e}")
            expect_eq((ended, failed), (end, fails), f"epoch {e}: end of data, failure after {got}")
            if failed:
                ctx.label("fails")
                return
            if ended:
                expect_eq(take(p, 3), ([], True), "examples after the end of the data")
            p.reset(reset_rng=rng)
        ctx.label(*pipes.ops_of(s))
        ctx.nontrivial(len(set(pipes.ops_of(s))) > 2 and len(want) > 1)
        del p


# ---- random operators


def rng_cases():
    return st.tuples(pipes.program(rng=True), st.lists(st.tuples(st.integers(0, 12), st.booleans()), min_size=1, max_size=3))


def has_rng(s):
    return bool(set(pipes.ops_of(s)) & {"shuffle", "sample"})


def read(p, n):
    try:
        return take(p, n)
    except Exception as ex:
        return type(ex).__name__, True


def deterministic(ctx, case):
    """The examples depend on the program and its seeds only."""
    s, epochs = case
    s = pipes.tame(s)
    ops = set(pipes.ops_of(s))
    with watch():
        a, b, c = build(s), build(s), build(pipes.serial(s))
        first = None
        for n, rng in [(N, True)] + epochs + [(N, True)]:
            ra, rb, rc = read(a, n), read(b, n), read(c, n)
            expect_eq(ra, rb, "two pipelines built alike")
            expect_eq(ra, rc, "a parallel and a serial pipeline")
            if first is None:
                first = ra
            if isinstance(ra[0], str):
                return
            rng = rng or "prefetch" in ops or ("map" in ops and has_rng(s))
            for p in (a, b, c):
                p.reset(reset_rng=rng)
        for p in (a, b, c):
            p.reset(reset_rng=True)
            expect_eq(read(p, N), first, "first epoch after a reset of the random number generators")
        ctx.label(*ops)
        ctx.nontrivial(has_rng(s) and len(first[0]) > 2)


@st.composite
def shuffle_cases(draw):
    return dict(c=draw(st.one_of(pipes.source(hi=14), pipes.program(depth=2, root=False, finite=True))), window=draw(st.integers(0, 6)),
                seed=draw(st.integers(0, 2**63 - 1)), epochs=draw(st.integers(1, 3)), rng=draw(st.booleans()))


def shuffle(ctx, c):
    """Every epoch is a permutation, within the window, of the input."""
    xs = [repr(norm(x)) for x in run(c["c"])]
    w = c["window"] or len(xs)
    s = {"op": "shuffle", "window": c["window"], "seed": c["seed"], "c": c["c"]}
    with watch():
        p = build(s)
        orders = []
        for _ in range(c["epochs"]):
            got, end = take(p, len(xs) + 1)
            out = [repr(x) for x in got]
            orders.append(out)
            expect(end, f"{len(xs)} examples become more than that: {out}")
            expect_eq(sorted(out), sorted(xs), "examples")
            # Equal examples are taken in order.
            where = collections.defaultdict(collections.deque)
            for i, x in enumerate(xs):
                where[x].append(i)
            for t, x in enumerate(out):
                i = where[x].popleft()
                expect(i < t + w, f"output {t} is input {i}, outside of the window of {w}: {xs} -> {out}")
            p.reset(reset_rng=c["rng"])
        if w == 1:
            expect_eq(orders[0], xs, "order with a window of 1")
        if c["rng"]:
            expect(all(o == orders[0] for o in orders), "the order changed although the generator was reset")
        elif len(set(xs)) > 12 and w > 12 and c["epochs"] > 2:
            expect(len({tuple(o) for o in orders}) > 1, "every epoch has the same order")
        ctx.nontrivial(len(xs) > 3 and 1 < w)
        ctx.label(f"window {w}" if w < 4 else "wide")


@st.composite
def sample_cases(draw):
    n = draw(st.integers(1, 4))
    cs = [draw(st.one_of(pipes.source(lo=0 if i else 1, hi=7), pipes.source(lo=1, hi=3).map(lambda s: {"op": "repeat", "n": None, "c": s}),
                         st.just({"op": "count", "start": 0, "step": 1, "key": None}))) for i in range(n)]
    return dict(cs=cs, weights=draw(st.one_of(st.none(), st.lists(st.sampled_from([0.001, 0.3, 1.0, 5.0]), min_size=n, max_size=n))),
                seed=draw(st.integers(0, 2**63 - 1)), repeats=draw(st.booleans()), epochs=draw(st.integers(1, 2)))


def sample(ctx, c):
    """The output interleaves the inputs in order, until all ended once."""
    cs = [{"op": "map", "k": 3, "two": False, "par": 1, "c": x} for x in c["cs"]]  # [x]
    n = len(cs)
    # Tell the children apart.
    tagged = [{"op": "zip", "cs": [{"op": "const", "x": i, "key": None}, x], "short": True, "names": None, "flatten": False, "serial": True} for i, x in enumerate(cs)]
    fins = [pipes.finitude(x) for x in c["cs"]]
    # A zip of two pseudo-infinite pipelines is not possible.
    tagged = [{"op": "count", "start": 10**6 * i, "step": 1, "key": None} if f == pipes.PSEUDO else t for i, (t, f) in enumerate(zip(tagged, fins))]
    lens = [len(list(run(x))) if f == FIN else None for x, f in zip(cs, fins)]
    s = {"op": "sample", "cs": tagged, "weights": c["weights"], "seed": c["seed"], "repeats": c["repeats"]}
    if 0 in lens and c["repeats"]:
        # An empty pipeline cannot be repeated.
        with watch():
            try:
                take(build(s), 1)
            except DataPipelineError:
                return
        raise Violation("sampled from an empty pipeline with repeats")
    horizon = 400
    with watch():
        p = build(s)
        for _ in range(c["epochs"]):
            got, end = take(p, horizon)
            taken = [0] * n
            rows = [None if f == pipes.PSEUDO else (list(itertools.islice(run(x), horizon))) for x, f in zip(cs, fins)]
            for t, y in enumerate(got):
                i, v = (y // 10**6, None) if isinstance(y, int) else y
                if rows[i] is None:
                    expect_eq(y % 10**6, taken[i], f"output {t}: example of child {i}")
                else:
                    k = taken[i]
                    if lens[i] is not None:
                        expect(c["repeats"] or k < lens[i], f"output {t}: child {i} of {lens[i]} examples gave more")
                        k %= lens[i]
                    expect_eq(v, norm(rows[i][k]), f"output {t}: example of child {i}")
                taken[i] += 1

            def done(taken):
                # An infinite child never ends; one that repeats by itself has always ended.
                return all(f == pipes.PSEUDO or (f == FIN and k >= m) for f, k, m in zip(fins, taken, lens))

            if end:
                if any(f == FIN and m for f, m in zip(fins, lens)) or INF in fins:
                    expect(done(taken), f"ended after {taken} examples of children with {lens}, kinds {fins}")
                if c["repeats"] and got:
                    last = got[-1] // 10**6 if isinstance(got[-1], int) else got[-1][0]
                    before = list(taken)
                    before[last] -= 1
                    expect(not done(before) or PSEUDO_ONLY(fins, lens), f"went on after all children had ended: {taken} of {lens}")
            elif FIN in fins and INF not in fins and not c["weights"]:
                bound = max(m for m in lens if m is not None)
                expect(bound * n * 40 > horizon or not done([min(k, 10**9) for k in taken]), f"did not end after {taken} examples of children with {lens}")
            p.reset()
        ctx.label("repeats" if c["repeats"] else "once")
        ctx.nontrivial(n > 1 and len(got) > 3)


def PSEUDO_ONLY(fins, lens):
    return all(f == pipes.PSEUDO or m == 0 for f, m in zip(fins, lens))


def freq_cases():
    return st.tuples(st.lists(st.sampled_from([0.1, 0.5, 1.0, 2.0, 7.0]), min_size=2, max_size=5), st.integers(0, 2**63 - 1), st.sampled_from(["sample", "once", "shuffle", "window"]))


def freq(ctx, case):
    """Drawn as often as the weights say; every order as likely as the others."""
    w, seed, kind = case
    n = len(w)
    with watch():
        if kind in ("sample", "once"):
            total = 4000
            cs = [read_sequence([i]).repeat().and_return() for i in range(n)]
            gone = []
            if kind == "once":  # The first child ends at once; the others share its weight.
                cs[0] = read_sequence([0]).and_return()
                gone = [0]
            p = DataPipeline.sample(cs, w, seed, allow_repeats=kind == "sample").and_return()
            got, _ = take(p, total)
            if gone:
                k = got.index(0) if 0 in got else None
                if k is None:
                    return
                expect_eq(got.count(0), 1, "examples of a child that has one")
                got = got[k + 1 :]
            probs = [0.0 if i in gone else w[i] / sum(w[j] for j in range(n) if j not in gone) for i in range(n)]
            if len(got) < 500:
                return
            for i in range(n):
                dev = abs(got.count(i) - len(got) * probs[i])
                expect(dev <= 6.5 * math.sqrt(len(got) * probs[i] * (1 - probs[i])) + 1, f"child {i} with probability {probs[i]} was drawn {got.count(i)} times of {len(got)}")
        else:
            m = 4
            total = 3000
            win = 0 if kind == "shuffle" else 6
            p = read_sequence(list(range(m))).shuffle(win, seed=seed).and_return()
            counts: collections.Counter = collections.Counter()
            for _ in range(total):
                counts[tuple(take(p, m)[0])] += 1
                p.reset()
            perms = list(itertools.permutations(range(m)))
            pr = 1 / len(perms)
            for q in perms:
                dev = abs(counts[q] - total * pr)
                expect(dev <= 6.5 * math.sqrt(total * pr * (1 - pr)), f"order {q} came {counts[q]} times of {total}")
        ctx.label(kind)
        ctx.nontrivial()


# ---- parallelism


@st.composite
def async_cases(draw):
    return dict(c=draw(pipes.program(depth=2, root=False, finite=draw(st.booleans()))), par=draw(st.integers(2, 6)), k=draw(st.integers(0, 30)), epochs=draw(st.integers(1, 3)),
                slow=draw(st.sampled_from([0.0, 0.0, 0.0003])), pre=draw(st.sampled_from([None, 2])), part=draw(st.sampled_from([None, 0, 1, 3])))


def unordered(ctx, c):
    """Without order, the same examples."""
    s = {"op": "map", "k": c["k"], "two": False, "par": c["par"], "det": False, "c": c["c"]}
    if c["pre"]:
        s = {"op": "prefetch", "n": c["pre"], "c": s}
    inf = pipes.length(s) is None
    with watch(30):
        p = build(s, c["slow"])
        for _ in range(c["epochs"]):
            if c["part"] is not None:
                got, _ = take(p, c["part"])
                p.reset()
            if inf:
                got, end = take(p, N)
                # Those in flight may overtake.
                want = collections.Counter(repr(norm(x)) for x in itertools.islice(run(s), (N + 10) * c["par"] + 50))
                have = collections.Counter(map(repr, got))
                expect(not end and not have - want, f"examples {list(have - want)} appeared")
            else:
                got, end = take(p, 10**6)
                expect_eq(sorted(map(repr, got)), sorted(repr(norm(x)) for x in run(s)), "examples in any order")
                expect_eq(take(p, 2), ([], True), "after the end of the data")
            p.reset()
        del p
    ctx.label("infinite" if inf else "finite")
    ctx.nontrivial(len(got) > 3)


def tight(ctx, c):
    """Many short unordered maps in a row, to meet rare interleavings."""
    n, par, reps = c
    with watch(30):
        p = read_sequence(list(range(n))).map(lambda x: x + 1, num_parallel_calls=par, deterministic=False).and_return()
        for _ in range(reps):
            expect_eq(sorted(take(p, n + 1)[0]), list(range(1, n + 1)), "examples")
            p.reset()
    ctx.nontrivial()


# ---- failures


@st.composite
def fail_cases(draw):
    n = draw(st.integers(1, 12))
    return dict(n=n, at=draw(st.integers(0, n - 1)), par=draw(st.integers(1, 5)), det=draw(st.booleans()), pre=draw(st.sampled_from([None, 1, 3])), where=draw(st.sampled_from(["map", "filter", "yield", "inner"])))


class Boom(Exception):
    pass


def failing(ctx, c):
    """An error of the user's function surfaces, after nothing but right examples."""

    def fn(x):
        if x == c["at"]:
            raise Boom(f"boom {x}")
        return x

    def sub(x):
        fn(x)
        return read_sequence([x]).and_return()

    b = read_sequence(list(range(c["n"])))
    if c["where"] == "map":
        b = b.map(fn, num_parallel_calls=c["par"], deterministic=c["det"])
    elif c["where"] == "filter":
        b = b.filter(lambda x: fn(x) is not None)
    elif c["where"] == "yield":
        b = b.yield_from(sub)
    else:
        b = b.map(fn).map(lambda x: x, num_parallel_calls=c["par"])
    if c["pre"]:
        b = b.prefetch(c["pre"])
    with watch(30):
        p = b.and_return()
        got = []
        it = iter(p)
        try:
            while True:
                got.append(next(it))
        except Boom as ex:
            expect_eq(str(ex), f"boom {c['at']}", "error")
        except StopIteration:
            raise Violation(f"the error at {c['at']} was swallowed; got {got}")
        expect(c["at"] not in got, f"the failed example {c['at']} was returned: {got}")
        if c["where"] != "map" or c["det"] or c["par"] == 1:
            expect_eq(got, list(range(len(got))), "examples before the failure")
            if c["where"] != "map" or c["par"] == 1:
                expect_eq(len(got), c["at"], "number of examples before the failure")
            else:
                expect(c["at"] - c["par"] < len(got) <= c["at"], f"{len(got)} examples before the failure at {c['at']} with {c['par']} calls in parallel")
        else:
            expect(len(set(got)) == len(got) and set(got) <= set(range(c["n"])), f"examples before the failure: {got}")
        expect(p.is_broken, "the pipeline is not broken")
        try:
            next(iter(p))
        except DataPipelineError:
            pass
        else:
            raise Violation("a broken pipeline was read")
        p.reset()
        del p
    ctx.label(c["where"])
    ctx.nontrivial(c["at"] > 0)


@st.composite
def recover_cases(draw):
    xs = draw(st.lists(st.integers(0, 6), min_size=1, max_size=12))
    return dict(xs=xs, max=draw(st.integers(1, 5)), warn=draw(st.sampled_from([0, 0, 1, 2, 20])), par=draw(st.sampled_from([0, 1, 2, 4])), pre=draw(st.sampled_from([None, 1, 4])), par2=draw(st.sampled_from([0, 3])))


def recover(ctx, c):
    """A recoverable error costs the example that caused it, no other."""
    b = read_sequence([[x] * x for x in c["xs"]]).bucket_by_length([(1, c["max"])], min_data_len=0)
    want: list = [("ok", [[x] * x]) if x <= c["max"] else ("bad", None) for x in c["xs"]]
    if c["par"]:
        b = b.map(lambda x: ["a", x], num_parallel_calls=c["par"])
        want = [(k, ["a", v]) for k, v in want]
    if c["par2"]:
        b = b.map(lambda x: ["b", x], num_parallel_calls=c["par2"])
        want = [(k, ["b", v]) for k, v in want]
    if c["pre"]:
        b = b.prefetch(c["pre"])
    warn = c["warn"]
    events = []
    for k, v in want:
        if k == "ok":
            events.append(v)
        elif warn > 0:
            warn -= 1
        else:
            events.append("error")
    with watch(30):
        p = b.and_return(max_num_warnings=c["warn"])
        got: list = []
        it = iter(p)
        while len(got) <= len(want):
            try:
                got.append(norm(next(it)))
            except DataPipelineError:
                got.append("error")
                expect(not p.is_broken, "broken by a recoverable error")
            except StopIteration:
                break
        if c["warn"] == 0 or "error" not in events or not c["pre"]:
            expect_eq(got, events, "examples and errors")
        else:
            expect_eq([g for g in got if g != "error"], [e for e in events if e != "error"], "examples")
    ctx.nontrivial(any(k == "bad" for k, _ in want) and any(k == "ok" for k, _ in want))


SCRIPT = """
import sys, time
sys.path.insert(0, {lib!r})
import boot
boot.boot_native()
from fairseq2.data.data_pipeline import DataPipeline, read_sequence
cases = {cases!r}
for c in cases:
    def fn(x, c=c):
        if x == c["at"]:
            time.sleep(0.02)
            raise ValueError("late")
        return x
    b = read_sequence(list(range(8)))
    if c["zip"]:
        b = DataPipeline.zip([b.map(fn, num_parallel_calls=c["par"], deterministic=c["det"]).prefetch(c["pre"]).and_return(), read_sequence(list(range(8))).prefetch(2).and_return()])
    else:
        b = b.map(fn, num_parallel_calls=c["par"], deterministic=c["det"]).prefetch(c["pre"])
    p = b.and_return()
    it = iter(p)
    try:
        for _ in range(c["read"]):
            next(it)
    except (ValueError, StopIteration):
        pass
    time.sleep(c["wait"])
    if c["how"] == "del":
        del it, p
    elif c["how"] == "reset":
        try:
            p.reset()
        except ValueError:
            pass
        del it, p
    # else: left to the end of the process
print("survived")
"""


@st.composite
def drop_cases(draw):
    one = st.fixed_dictionaries(dict(at=st.integers(0, 9), par=st.sampled_from([1, 1, 3]), det=st.booleans(), pre=st.integers(1, 9), read=st.integers(0, 9), wait=st.sampled_from([0, 0, 0.05]),
                                     how=st.sampled_from(["del", "del", "reset", "leave"]), zip=st.booleans()))
    return draw(st.lists(one, min_size=8, max_size=20))


def dropping(ctx, cases):
    """Pipelines go away at any time, even if their background work has failed."""
    with tempfile.TemporaryDirectory(prefix="fs2v_d01_") as d:
        f = Path(d, "s.py")
        f.write_text(SCRIPT.format(lib=str(Path(pipes.__file__).parent), cases=cases))
        try:
            r = subprocess.run([sys.executable, str(f)], capture_output=True, text=True, timeout=120, env={**os.environ, "FS2_NATIVE_SO": str(boot.native_so)})
        except subprocess.TimeoutExpired:
            raise Violation("the process did not end")
    expect(r.returncode == 0 and "survived" in r.stdout, f"the process ended with {r.returncode}: {r.stderr[-1500:]}")
    ctx.nontrivial()


main(
    Prop(
        "D01",
        [
            Arm("model", model_cases, model, quick=4000, thorough=150000),
            Arm("model2", lambda: st.tuples(pipes.program(depth=5), st.just([(N, False)])), model, quick=2500, thorough=100000),
            Arm("deterministic", rng_cases, deterministic, quick=1500, thorough=60000),
            Arm("shuffle", shuffle_cases, shuffle, quick=2000, thorough=50000),
            Arm("sample", sample_cases, sample, quick=1500, thorough=40000),
            Arm("frequencies", freq_cases, freq, quick=40, thorough=800),
            Arm("unordered", async_cases, unordered, quick=400, thorough=8000),
            Arm("tight", lambda: st.tuples(st.integers(1, 4), st.integers(2, 4), st.integers(20, 100)), tight, quick=150, thorough=4000),
            Arm("failures", fail_cases, failing, quick=800, thorough=20000),
            Arm("recover", recover_cases, recover, quick=800, thorough=20000),
            Arm("dropping", drop_cases, dropping, quick=12, thorough=300),
        ],
        rule="a program with at least three kinds of operators that yields more than one example; a random operator over more than two examples; a failure after some examples; a pipeline with parallel calls over more than three examples",
        assumptions=[
            "programs have at most five levels of operators and 40 examples per epoch are compared",
            "what reading ahead leaves behind in the random state of a pipeline that is reset before its end (without reset_rng) is not compared",
            "round robin to the shortest over empty or pseudo-infinite pipelines, whose documentation does not say what comes, is not generated",
            "sampling frequencies are tested at 6.5 standard deviations with seeds fixed by VERIF_SEED",
        ],
    )
)

"""Programs over the native data pipeline: generation, construction and a reference interpreter."""
from __future__ import annotations

import itertools
import time
import zlib

import torch
from hypothesis import strategies as st

from fairseq2.data.data_pipeline import DataPipeline, read_iterator, read_sequence

FIN, PSEUDO, INF = 0, 1, 2


class ModelError(Exception):
    """The program fails here by contract."""


def norm(x):
    """An example as plain Python data."""
    if isinstance(x, torch.Tensor):
        return x.tolist()
    if isinstance(x, dict):
        return {str(k): norm(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [norm(v) for v in x]
    if isinstance(x, (int, float, bool)) or x is None:
        return x
    return str(x)


def h(x, k) -> int:
    return zlib.crc32(repr((k, norm(x))).encode())


def apply_map(x, k):
    x = norm(x)
    if k % 4 == 0:
        return [x, k]
    if k % 4 == 1:
        return h(x, k) % 1000
    if k % 4 == 2:
        return {"v": x}
    return [x]


def keep(x, k):
    return h(x, k) % 3 != 0


def seq_of(x, k, lo, hi):
    n = lo + h(x, k) % (hi - lo + 1)
    return [h(x, (k, i)) % 90 + 1 for i in range(n)]


def cost(x, k):
    return 1 + h(x, k) % 4


def split_batches(buf, mode):
    """bucket_creation_fn: the batches to return, and what stays."""
    buf = list(buf)
    if mode == 1:  # halves
        return [buf[i::2] for i in range(2) if buf[i::2]], []
    if mode == 3:  # all, or hold back a single one
        return ([buf], []) if len(buf) > 1 else ([], buf)
    if len(buf) == 1:  # pairs of all but the last
        return [buf], []
    rest = buf[:-1]
    return [rest[i : i + 2] for i in range(0, len(rest), 2)], buf[-1:]


def sub_spec(x, k):
    """The program that `yield_from` runs on an example."""
    return {"op": "list", "xs": [[norm(x), j] for j in range(1 + h(x, k) % 3)]}


class ListIter:
    """A picklable iterator for read_iterator."""

    def __init__(self, xs):
        self.xs, self.i = list(xs), 0

    def __iter__(self):
        return self

    def __next__(self):
        if self.i >= len(self.xs):
            raise StopIteration
        self.i += 1
        return self.xs[self.i - 1]


def rewind(it):
    return ListIter(it.xs)


# ---- construction


def build(s, slow=0.0):
    return builder(s, slow).and_return()


def builder(s, slow=0.0):
    op = s["op"]
    if op == "list":
        return read_sequence(s["xs"])
    if op == "iter":
        return read_iterator(ListIter(s["xs"]), rewind, infinite=False)
    if op == "count":
        return DataPipeline.count(s["start"], s["step"], *([s["key"]] if s["key"] else []))
    if op == "const":
        return DataPipeline.constant(s["x"], *([s["key"]] if s["key"] else []))
    if op in ("concat", "rr", "zip", "sample"):
        cs = [build(c, slow) for c in s["cs"]]
        if op == "concat":
            return DataPipeline.concat(cs)
        if op == "rr":
            return DataPipeline.round_robin(cs, stop_at_shortest=s["short"], allow_repeats=s["repeats"])
        if op == "sample":
            return DataPipeline.sample(cs, s["weights"], s["seed"], s["repeats"])
        return DataPipeline.zip(cs, names=s["names"], zip_to_shortest=s["short"], flatten=s["flatten"], disable_parallelism=s["serial"])
    b = builder(s["c"], slow)
    k = s.get("k", 0)
    if op == "take":
        return b.take(s["n"])
    if op == "skip":
        return b.skip(s["n"])
    if op == "shard":
        return b.shard(s["i"], s["n"], allow_uneven=s["uneven"])
    if op == "bucket":
        return b.bucket(s["n"], drop_remainder=s["drop"])
    if op == "filter":
        return b.filter(lambda x: keep(x, k))
    if op == "map":

        def fn(x):
            if slow:
                time.sleep(slow * (h(x, 7) % 5))
            return apply_map(x, k)

        fns = [fn, lambda x: apply_map(x, k + 1)] if s["two"] else fn
        return b.map(fns, num_parallel_calls=s["par"], deterministic=s.get("det", True))
    if op == "prefetch":
        return b.prefetch(s["n"])
    if op == "repeat":
        return b.repeat(s["n"], reset_rng=s.get("rng", False))
    if op == "yield":
        return b.yield_from(lambda x: build(sub_spec(x, k), slow) if s["seed"] is None else builder(sub_spec(x, k)).shuffle(0, seed=s["seed"]).and_return())
    if op == "shuffle":
        return b.shuffle(s["window"], seed=s["seed"])
    if op == "bbl":
        return b.map(lambda x: seq_of(x, k, s["lo"], s["hi"])).bucket_by_length([(a, l) for a, l in s["sizes"]], min_data_len=s["min"], skip_below_min_examples=True, skip_above_max_examples=True, drop_remainder=s["drop"])
    if op == "dyn":
        extra = {}
        if s["fn"]:
            extra["bucket_creation_fn"] = lambda buf: split_batches(buf, s["fn"])
        return b.dynamic_bucket(s["thr"], lambda x: float(cost(x, k)), min_num_examples=s["min"], max_num_examples=s["max"], drop_remainder=s["drop"], **extra)
    if op == "pack":
        return b.map(lambda x: torch.tensor(seq_of(x, k, s["lo"], s["hi"]))).pack(s["cap"], s["max"], pad_value=s["pad"], truncate=s["trunc"], drop_remainder=s["drop"])
    raise AssertionError(op)


# ---- reference interpreter


def finitude(s):
    op = s["op"]
    if op in ("list", "iter", "take"):
        return FIN
    if op in ("count", "const"):
        return PSEUDO
    if op == "zip":
        fs = [finitude(c) for c in s["cs"]]
        return FIN if not fs or FIN in fs else INF
    if op in ("rr", "sample") and s["cs"]:
        fs = {finitude(c) for c in s["cs"]}
        if INF in fs and not (op == "rr" and s["short"] and FIN in fs):
            return INF
        return FIN if FIN in fs else PSEUDO
    if op in ("concat", "rr", "sample"):
        return max([finitude(c) for c in s["cs"]], default=FIN)
    f = finitude(s["c"])
    if op == "repeat" and s["n"] is None:
        return INF
    return f


def run(s):
    """The examples of one epoch."""
    op = s["op"]
    if op in ("list", "iter"):
        yield from s["xs"]
    elif op == "count":
        for i in itertools.count():
            v = s["start"] + i * s["step"]
            yield {s["key"]: v} if s["key"] else v
    elif op == "const":
        while True:
            yield {s["key"]: s["x"]} if s["key"] else s["x"]
    elif op == "concat":
        for c in s["cs"]:
            yield from run(c)
    elif op == "rr":
        yield from run_rr(s)
    elif op == "zip":
        yield from run_zip(s)
    elif op == "take":
        yield from itertools.islice(run(s["c"]), s["n"])
    elif op == "skip":
        yield from itertools.islice(run(s["c"]), s["n"], None)
    elif op == "shard":
        it = run(s["c"])
        while True:
            group = list(itertools.islice(it, s["n"]))
            if len(group) == s["n"] or (s["uneven"] and len(group) > s["i"]):
                yield group[s["i"]]
            if len(group) < s["n"]:
                return
    elif op == "bucket":
        it = run(s["c"])
        while True:
            group = list(itertools.islice(it, s["n"]))
            if len(group) < s["n"]:
                if group and not s["drop"]:
                    yield group
                return
            yield group
    elif op == "filter":
        for x in run(s["c"]):
            if keep(x, s["k"]):
                yield x
    elif op == "map":
        for x in run(s["c"]):
            y = apply_map(x, s["k"])
            yield apply_map(y, s["k"] + 1) if s["two"] else y
    elif op == "prefetch":
        yield from run(s["c"])
    elif op == "repeat":
        n = 0
        while s["n"] is None or n < s["n"]:
            got = False
            for x in run(s["c"]):
                got = True
                yield x
            if not got:
                return
            n += 1
    elif op == "yield":
        for x in run(s["c"]):
            yield from run(sub_spec(x, s["k"]))
    elif op == "bbl":
        yield from run_bbl(s)
    elif op == "dyn":
        yield from run_dyn(s)
    elif op == "pack":
        yield from run_pack(s)
    else:
        raise AssertionError(op)


def length(s, most=3000):
    """The number of examples, or None if there is no end to them."""
    n = sum(1 for _ in itertools.islice(run(s), most))
    return n if n < most else None


def run_rr(s):
    fins = [finitude(c) for c in s["cs"]]
    its = [run(c) for c in s["cs"]]
    # The length of each finite child is needed to know when the last (or first) one ends.
    lens = [length(c) for c in s["cs"]]
    if not s["cs"]:
        return
    if s["short"]:
        rounds = min((n for n in lens if n is not None), default=None)
    else:
        rounds = None if any(n is None and f == INF for n, f in zip(lens, fins)) else max((n for n in lens if n is not None), default=0)
    r = 0
    while rounds is None or r < rounds:
        for i, c in enumerate(s["cs"]):
            if lens[i] == 0:
                continue
            if lens[i] is not None and r >= lens[i]:
                if not s["repeats"]:
                    continue
                if r % lens[i] == 0:
                    its[i] = run(c)
            yield next(its[i])
        r += 1


def run_zip(s):
    if not s["cs"]:
        return
    fins = [finitude(c) for c in s["cs"]]
    if all(f == PSEUDO for f in fins) or (FIN in fins and INF in fins):
        raise ModelError("mix")
    its = [run(c) for c in s["cs"]]
    done = object()
    while True:
        row = [next(it, done) for it in its]
        ends = [v is done for v in row]
        if any(ends):
            if s["short"] or all(e or f == PSEUDO for e, f in zip(ends, fins)):
                return
            raise ModelError("lengths")
        if s["flatten"]:
            if isinstance(row[0], dict):
                out: dict = {}
                for v in row:
                    if not isinstance(v, dict) or set(v) & set(out):
                        raise ModelError("flatten")
                    out.update(v)
                yield out
            else:
                flat = []
                for v in row:
                    if isinstance(v, dict):
                        raise ModelError("flatten")
                    flat += v if isinstance(v, list) else [v]
                yield flat
        elif s["names"]:
            yield dict(zip(s["names"], row))
        else:
            yield row


def run_bbl(s):
    sizes = sorted(s["sizes"], key=lambda p: p[1])
    buckets: list = [[] for _ in sizes]
    for x in run(s["c"]):
        q = seq_of(x, s["k"], s["lo"], s["hi"])
        if len(q) < s["min"] or len(q) > sizes[-1][1]:
            continue
        i = min(j for j, (_, l) in enumerate(sizes) if len(q) <= l)
        buckets[i].append(q)
        if len(buckets[i]) >= sizes[i][0]:
            yield buckets[i]
            buckets[i] = []
    for i in reversed(range(len(sizes))):
        if not buckets[i]:
            continue
        for j in reversed(range(i)):
            while len(buckets[i]) < sizes[i][0] and buckets[j]:
                buckets[i].append(buckets[j].pop())
        if s["drop"] and len(buckets[i]) != sizes[i][0]:
            return
        yield buckets[i]
        buckets[i] = []


def run_dyn(s):
    it = run(s["c"])
    buf: list = []
    while True:
        total = 0

        def ready():
            return (total >= s["thr"] and len(buf) >= (s["min"] or 0)) or (s["max"] is not None and len(buf) >= s["max"])

        ended = False
        while not ready():
            x = next(it, ...)
            if x is ...:
                ended = True
                break
            total += cost(x, s["k"])
            buf.append(x)
        if not buf:
            return
        if ended:
            if not s["drop"]:
                yield buf
            return
        if s["fn"]:
            outs, buf = split_batches(buf, s["fn"])
            # If all are held back, reading goes on.
            yield from outs
        else:
            yield buf
            buf = []


def run_pack(s):
    it = run(s["c"])
    rem = None
    while True:
        out, lens, full, any_ = [s["pad"]] * s["cap"], [], False, False
        pos = 0
        while True:
            if rem is not None:
                q, rem = rem, None
            else:
                x = next(it, ...)
                if x is ...:
                    break
                q = seq_of(x, s["k"], s["lo"], s["hi"])
            if not q:
                continue
            any_ = True
            n = min(len(q), s["cap"] - pos, s["max"])
            if len(q) > n:
                if not s["trunc"]:
                    rem = q
                    break
                # The last token of a full batch starts the next one, to be predicted from.
                rem = q[n - 1 :] if pos + n == s["cap"] else q[n:]
            out[pos : pos + n] = q[:n]
            lens.append(n)
            pos += n
            if pos == s["cap"]:
                full = True
                break
        if not any_ or (s["trunc"] and not full and s["drop"]):
            return
        yield {"seqs": out, "seq_lens": lens}


# ---- generation


def _size(s):
    return 1 + sum(_size(c) for c in s.get("cs", ())) + (_size(s["c"]) if "c" in s else 0)


def ops_of(s):
    yield s["op"]
    for c in s.get("cs", ()):
        yield from ops_of(c)
    if "c" in s:
        yield from ops_of(s["c"])


@st.composite
def source(draw, lo=0, hi=7, tag=None):
    n = draw(st.integers(lo, hi))
    base = draw(st.integers(0, 5)) * 100
    return {"op": draw(st.sampled_from(["list", "list", "list", "iter"])), "xs": [base + i for i in range(n)]}


def _nonempty(s):
    try:
        return next(run(strip(s)), None) is not None
    except ModelError:
        return False


def strip(s):
    """The program without its random operators."""
    if s["op"] in ("shuffle",):
        return strip(s["c"])
    out = dict(s)
    if s["op"] == "sample":
        out = {"op": "concat", "cs": s["cs"]}
    if "cs" in out:
        out["cs"] = [strip(c) for c in out["cs"]]
    if "c" in out:
        out["c"] = strip(out["c"])
    return out


@st.composite
def program(draw, depth=3, root=True, rng=False, finite=False):
    """A program; only its root may fail by contract."""
    if depth <= 0 or draw(st.integers(0, 9)) == 0:
        kind = draw(st.sampled_from(["fin", "fin", "fin", "fin", "count", "const"])) if not finite else "fin"
        if kind == "count":
            return {"op": "count", "start": draw(st.integers(-3, 3)), "step": draw(st.sampled_from([1, 2, -1])), "key": draw(st.sampled_from([None, None, "n"]))}
        if kind == "const":
            return {"op": "const", "x": draw(st.integers(0, 9)), "key": draw(st.sampled_from([None, None, "c"]))}
        return draw(source())
    ops = ["take", "skip", "shard", "bucket", "map", "map", "prefetch", "repeat", "concat", "rr", "rr", "zip", "yield", "filter", "bbl", "dyn", "pack"]
    if rng:
        ops += ["shuffle", "shuffle", "sample", "sample"]
    op = draw(st.sampled_from(ops))
    if op in ("concat", "rr", "zip", "sample"):
        n = draw(st.integers(1 if op == "sample" else 0 if root else 1, 3))
        cs = [draw(program(depth=depth - 1, root=False, rng=rng, finite=finite)) for _ in range(n)]
        if op == "concat":
            return {"op": op, "cs": cs}
        if op == "rr":
            s = {"op": op, "cs": cs, "short": draw(st.booleans()), "repeats": draw(st.booleans())}
            fs = [finitude(c) for c in cs]
            # A pseudo-infinite child only makes sense beside another one, and what the shortest child is only if none is empty.
            if PSEUDO in fs and (s["short"] or not any(f != PSEUDO and _nonempty(c) for f, c in zip(fs, cs))):
                s["cs"] = [{"op": "take", "n": 2, "c": c} for c in cs]
            if s["short"] and not all(_nonempty(c) for c in s["cs"]):
                s["short"] = False
                if any(finitude(c) == PSEUDO for c in s["cs"]):
                    s["cs"] = [{"op": "take", "n": 2, "c": c} for c in s["cs"]]
            return s
        if op == "sample":
            cs = [c if _nonempty(c) else {"op": "list", "xs": [7, 8]} for c in cs]
            if all(finitude(c) == PSEUDO for c in cs):
                cs = [{"op": "take", "n": 3, "c": c} for c in cs]
            w = draw(st.one_of(st.none(), st.lists(st.sampled_from([0.25, 0.5, 1.0, 3.0]), min_size=len(cs), max_size=len(cs))))
            return {"op": op, "cs": cs, "weights": w, "seed": draw(st.sampled_from([0, 1, 2, 77, 2**53, 2**63 + 1])), "repeats": draw(st.booleans())}
        mode = draw(st.sampled_from(["plain", "plain", "names", "flatten"])) if root else draw(st.sampled_from(["plain", "names"]))
        short = draw(st.booleans()) or not root
        fs = [finitude(c) for c in cs]
        if not root and (all(f == PSEUDO for f in fs) or (FIN in fs and INF in fs)):
            cs = [{"op": "take", "n": 4, "c": c} for c in cs]
        return {"op": op, "cs": cs, "short": short, "names": [f"f{i}" for i in range(len(cs))] if mode == "names" and cs else None, "flatten": mode == "flatten", "serial": draw(st.booleans())}
    c = draw(program(depth=depth - 1, root=False, rng=rng, finite=finite))
    if op == "filter" and finitude(c) != FIN:
        op = "take"
    k = draw(st.integers(0, 30))
    if op in ("take", "skip"):
        return {"op": op, "n": draw(st.integers(0, 6)), "c": c}
    if op == "shard":
        n = draw(st.integers(1, 4))
        return {"op": op, "i": draw(st.integers(0, n - 1)), "n": n, "uneven": draw(st.booleans()), "c": c}
    if op == "bucket":
        return {"op": op, "n": draw(st.integers(1, 4)), "drop": draw(st.booleans()), "c": c}
    if op == "filter":
        return {"op": op, "k": k, "c": c}
    if op == "map":
        return {"op": op, "k": k, "two": draw(st.booleans()), "par": draw(st.sampled_from([1, 1, 2, 3, 5])), "c": c}
    if op == "prefetch":
        return {"op": op, "n": draw(st.sampled_from([0, 1, 2, 5])), "c": c}
    if op == "repeat":
        return {"op": op, "n": draw(st.sampled_from([0, 1, 2, 3] if finite else [None, None, 0, 1, 2, 3])), "rng": draw(st.booleans()), "c": c}
    if op == "yield":
        return {"op": op, "k": k, "seed": draw(st.sampled_from([None, 3, 9])) if rng else None, "c": c}
    if op == "shuffle":
        w = draw(st.sampled_from([0, 1, 2, 3, 10]))
        return {"op": op, "window": w if w or finitude(c) == FIN else 4, "seed": draw(st.sampled_from([0, 1, 2, 77, 2**53, 2**64 - 1])), "c": c}
    if op == "bbl":
        inf = finitude(c) != FIN
        sizes = draw(st.lists(st.tuples(st.integers(1, 4), st.integers(1, 8)), min_size=1, max_size=3, unique_by=lambda p: p[1]))
        top = max(l for _, l in sizes)
        return {"op": op, "k": k, "lo": 1 if inf else 0, "hi": min(6, top) if inf else 6, "sizes": [list(p) for p in sizes], "min": 1 if inf else draw(st.integers(0, 2)), "drop": draw(st.booleans()), "c": c}
    if op == "dyn":
        lo = draw(st.sampled_from([None, 1, 2, 3]))
        hi = draw(st.sampled_from([None, 3, 4]))
        return {"op": op, "k": k, "thr": draw(st.integers(1, 9)), "min": lo, "max": hi, "fn": draw(st.integers(0, 3)), "drop": draw(st.booleans()), "c": c}
    if op == "pack":
        cap = draw(st.integers(2, 9))
        mx = draw(st.integers(1, 9))
        trunc = draw(st.booleans())
        return {"op": op, "k": k, "cap": cap, "max": mx, "lo": 0 if finitude(c) == FIN else 1, "hi": 12 if trunc else min(cap, mx), "pad": draw(st.sampled_from([0, -1])), "trunc": trunc, "drop": draw(st.booleans()), "c": c}
    raise AssertionError(op)


# ---- running


class watch:
    """Aborts the process if the block takes too long: a hang of the native code, which nothing can interrupt."""

    def __init__(self, seconds: float = 60.0):
        self.seconds = seconds

    def __enter__(self):
        import os
        import sys
        import threading

        def bark():
            sys.stderr.write(f"the pipeline did not answer for {self.seconds} s\n")
            sys.stderr.flush()
            os.abort()

        self.timer = threading.Timer(self.seconds, bark)
        self.timer.daemon = True
        self.timer.start()

    def __exit__(self, *_):
        self.timer.cancel()


def take(p, n):
    """Up to n examples, and whether the end was reached."""
    out, it = [], iter(p)
    for _ in range(n):
        try:
            out.append(norm(next(it)))
        except StopIteration:
            return out, True
    return out, False


def tame(s, root=True):
    """Prefetching only where reading ahead cannot be observed through resets."""
    out = dict(s)
    if "cs" in out:
        out["cs"] = [tame(c, False) for c in out["cs"]]
    if "c" in out:
        out["c"] = tame(out["c"], False)
    if out["op"] == "prefetch" and not root and set(ops_of(out)) & {"shuffle", "sample"}:
        return out["c"]
    return out


def serial(s):
    """The program without parallelism."""
    out = dict(s)
    if "cs" in out:
        out["cs"] = [serial(c) for c in out["cs"]]
    if "c" in out:
        out["c"] = serial(out["c"])
    if out["op"] == "prefetch":
        return out["c"]
    if out["op"] == "map":
        out["par"] = 1
    if out["op"] == "zip":
        out["serial"] = True
    return out

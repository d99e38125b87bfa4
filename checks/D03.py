"""D03: batching tensors by padding or packing is lossless."""
import boot

boot.boot_native()

import collections
import math

import torch
from harness import Arm, Prop, expect, expect_eq, main, raises
from hypothesis import strategies as st

from fairseq2.data.data_pipeline import CollateOptionsOverride, Collater, DataPipelineError, create_bucket_sizes, read_sequence
from fairseq2.datasets.batch import Seq2SeqBatch, SequenceBatch
from fairseq2.error import InvalidOperationError
from fairseq2.nn.utils.padding import pad_seqs

DTYPES = {"i64": torch.int64, "i32": torch.int32, "i16": torch.int16, "f32": torch.float32, "f64": torch.float64, "f16": torch.float16, "bf16": torch.bfloat16, "bool": torch.bool}


def tensor(seed, shape, dtype):
    g = torch.Generator().manual_seed(seed)
    if dtype == torch.bool:
        return torch.randint(0, 2, shape, generator=g).bool()
    if dtype.is_floating_point:
        return torch.randn(shape, generator=g, dtype=torch.float64).to(dtype)
    return torch.randint(-30000, 30000, shape, generator=g).to(dtype)


def same(a, b, what):
    expect(a.dtype == b.dtype and a.shape == b.shape and torch.equal(a, b), f"{what}: {tuple(a.shape)} {a.dtype} vs {tuple(b.shape)} {b.dtype}")


# ---- collating nested examples


PADS = st.sampled_from([0, None, 0, 1, -1, 7, -30000])


@st.composite
def nodes(draw, depth=3):
    """The structure that all examples of a bucket share."""
    kinds = ["ragged", "ragged", "fixed", "int", "str", "float", "bool", "none"]
    k = draw(st.sampled_from(kinds + (["list", "dict", "dict"] if depth else [])))
    if k == "list":
        return dict(k=k, xs=draw(st.lists(nodes(depth - 1), min_size=0, max_size=3)))
    if k == "dict":
        keys = draw(st.lists(st.sampled_from(["a", "b", "seqs", "key2", "x_y", "é"]), max_size=3, unique=True))
        return dict(k=k, xs={key: draw(nodes(depth - 1)) for key in keys})
    if k in ("ragged", "fixed"):
        return dict(k=k, d=draw(st.sampled_from(sorted(DTYPES))), tail=draw(st.lists(st.integers(0, 3), max_size=2)), n=draw(st.integers(0, 6)), strided=draw(st.booleans()))
    return dict(k=k)


@st.composite
def roots(draw):
    if draw(st.integers(0, 4)) == 0:
        return draw(nodes())
    return dict(k="dict", xs={key: draw(nodes(2)) for key in ["a", "b", "seqs", "key2"][: draw(st.integers(1, 4))]})


def leaf(node, seed, i):
    import hashlib

    h = int.from_bytes(hashlib.md5(f"{seed}/{i}".encode()).digest()[:4], "big")
    k = node["k"]
    if k in ("ragged", "fixed"):
        n = h % 8 if k == "ragged" else node["n"]
        t = tensor(h, [2 * n if node["strided"] else n] + node["tail"], DTYPES[node["d"]])
        return t[::2] if node["strided"] else t
    return {"int": h - 2**31, "str": f"s{h}", "float": h / 7, "bool": bool(h % 2), "none": None}[k]


def example(node, seed, path=()):
    if node["k"] == "list":
        return [example(x, seed, path + (i,)) for i, x in enumerate(node["xs"])]
    if node["k"] == "dict":
        return {key: example(x, seed, path + (key,)) for key, x in node["xs"].items()}
    return leaf(node, seed, path)


def paths(node, path=()):
    yield path, node
    xs = enumerate(node["xs"]) if node["k"] == "list" else node["xs"].items() if node["k"] == "dict" else []
    for key, x in xs:
        yield from paths(x, path + (key,))


def selector(path, stars):
    out = ""
    for i, s in enumerate(path):
        out += (f"[{'*' if i in stars else s}]") if isinstance(s, int) else (("." if out else "") + s)
    return out


def selected(path, sel):
    """Whether the path is among the ones that (path, stars) stands for."""
    p, stars = sel
    return len(p) == len(path) and all(a == b or (isinstance(a, int) and isinstance(b, int) and i in stars) for i, (a, b) in enumerate(zip(path, p)))


@st.composite
def collate_cases(draw):
    node = draw(roots())
    pad = draw(PADS)
    mult = draw(st.sampled_from([1, 1, 2, 4, 8])) if pad is not None else 1
    all_paths = [p for p, n in paths(node) if p]
    ovs = []
    for _ in range(draw(st.integers(0, 2)) if all_paths else 0):
        sels = []
        for _ in range(draw(st.integers(1, 2))):
            p = draw(st.sampled_from(all_paths))
            sels.append((p, draw(st.sets(st.integers(0, 3)))))
        opad = draw(PADS)
        ovs.append(dict(sels=sels, pad=opad, mult=draw(st.sampled_from([1, 3, 8])) if opad is not None else 1))
    return dict(node=node, n=draw(st.integers(1, 5)), pad=pad, mult=mult, ovs=ovs, seed=draw(st.integers(0, 10**6)), via=draw(st.sampled_from(["call", "call", "pipeline"])))


class Unstackable(Exception):
    pass


def clamp_pad(pad, dtype):
    return bool(pad) if dtype == torch.bool else pad


def check_collated(c, node, exs, out, path):
    if node["k"] == "list":
        expect(isinstance(out, list) and len(out) == len(node["xs"]), f"list at {path}: {out}")
        for i, x in enumerate(node["xs"]):
            check_collated(c, x, [e[i] for e in exs], out[i], path + (i,))
    elif node["k"] == "dict":
        expect(isinstance(out, dict) and sorted(out) == sorted(node["xs"]), f"dict at {path}: {out}")
        for key, x in node["xs"].items():
            check_collated(c, x, [e[key] for e in exs], out[key], path + (key,))
    elif node["k"] in ("ragged", "fixed"):
        pad, mult = options(c, path)
        if pad is None:
            same(out, torch.stack(exs), f"stacked at {path}")
            return
        lens = [len(e) for e in exs]
        expect_eq(sorted(out), ["is_ragged", "seq_lens", "seqs"], f"at {path}")
        expect_eq(list(out["seq_lens"]), lens, f"lengths at {path}")
        seqs = out["seqs"]
        width = math.ceil(max(lens) / mult) * mult
        expect_eq(list(seqs.shape), [len(exs), width] + node["tail"], f"shape at {path}")
        expect_eq(out["is_ragged"], any(n != width for n in lens), f"is_ragged at {path}")
        for i, e in enumerate(exs):
            same(seqs[i, : len(e)], e, f"sequence {i} at {path}")
            rest = seqs[i, len(e) :]
            same(rest, torch.full_like(rest, clamp_pad(pad, rest.dtype)), f"padding of {i} at {path}")
    else:
        expect_eq(out, exs, f"values at {path}")
        expect_eq([type(o) for o in out], [type(e) for e in exs], f"types at {path}")


def options(c, path):
    for ov in c["ovs"]:
        if any(selected(path, s) for s in ov["sels"]):
            return ov["pad"], ov["mult"]
    return c["pad"], c["mult"]


def stackable(c, node, exs, path=()):
    if node["k"] == "list":
        return all(stackable(c, x, [e[i] for e in exs], path + (i,)) for i, x in enumerate(node["xs"]))
    if node["k"] == "dict":
        return all(stackable(c, x, [e[k] for e in exs], path + (k,)) for k, x in node["xs"].items())
    if node["k"] == "ragged" and options(c, path)[0] is None:
        return len({len(e) for e in exs}) == 1
    return True


def collater_of(c):
    ovs = [CollateOptionsOverride(", ".join(selector(p, s) for p, s in ov["sels"]), pad_value=ov["pad"], pad_to_multiple=ov["mult"]) for ov in c["ovs"]]
    return dict(pad_value=c["pad"], pad_to_multiple=c["mult"], overrides=ovs)


def collating(ctx, c):
    exs = [example(c["node"], (c["seed"], i)) for i in range(c["n"])]
    kept = [example(c["node"], (c["seed"], i)) for i in range(c["n"])]
    ok = stackable(c, c["node"], exs)
    if c["via"] == "call":
        if not ok:
            raises(ValueError, lambda: Collater(**collater_of(c))(exs), "stacked tensors of different lengths")
            return
        out = Collater(**collater_of(c))(exs)
    else:
        p = read_sequence([exs]).collate(**collater_of(c)).and_return()
        if not ok:
            raises((ValueError, DataPipelineError), lambda: list(p), "stacked tensors of different lengths")
            return
        outs = list(p)
        expect_eq(len(outs), 1, "batches")
        out = outs[0]
    check_collated(c, c["node"], kept, out, ())
    # The examples themselves are left alone.
    again = Collater(**collater_of(c))(exs)
    check_collated(c, c["node"], kept, again, ())
    leaves = [n for _, n in paths(c["node"]) if n["k"] in ("ragged", "fixed")]
    ctx.label("overridden" if c["ovs"] else "plain")
    ctx.nontrivial(c["n"] > 1 and any(n["k"] == "ragged" for n in leaves))


# ---- buckets that do not fit together


@st.composite
def misfit_cases(draw):
    node = draw(roots().filter(lambda n: n["k"] in ("list", "dict") and n["xs"]))
    ps = [p for p, _ in paths(node)]
    return dict(node=node, n=draw(st.integers(2, 4)), at=draw(st.integers(1, 3)), path=draw(st.sampled_from(ps)), how=draw(st.sampled_from(["more", "less", "key", "type", "type"])), seed=draw(st.integers(0, 999)))


def get(x, path):
    for s in path:
        x = x[s]
    return x


def misfit(ctx, c):
    exs = [example(c["node"], (c["seed"], i)) for i in range(c["n"])]
    i = 1 + c["at"] % (c["n"] - 1) if c["n"] > 2 else 1
    node = get_node(c["node"], c["path"])
    x = get(exs[i], c["path"])
    how = c["how"]
    if node["k"] == "list" and how in ("more", "less"):
        if how == "more":
            x.append(1)
        elif x:
            x.pop()
        else:
            return
    elif node["k"] == "dict" and how in ("more", "less", "key"):
        if how == "more":
            x["zz"] = 1
        elif not x:
            return
        else:
            key = sorted(x)[0]
            v = x.pop(key)
            if how == "key":
                x["zz"] = v
    else:
        new = 3 if node["k"] != "int" else "3"
        if c["path"]:
            get(exs[i], c["path"][:-1])[c["path"][-1]] = new
        else:
            exs[i] = new
    raises(ValueError, lambda: Collater(pad_value=0)(exs), f"{how} at {c['path']} of example {i}")
    ctx.label(how)
    ctx.nontrivial()


def get_node(node, path):
    for s in path:
        node = node["xs"][s]
    return node


# ---- padding


pad_cases = st.fixed_dictionaries(
    dict(lens=st.lists(st.integers(1, 9), min_size=1, max_size=6), d=st.sampled_from(sorted(DTYPES)), tail=st.lists(st.integers(1, 3), max_size=2), pad=st.integers(-5, 100), mult=st.integers(1, 9), seed=st.integers(0, 9999))
)


def padding(ctx, c):
    dt = DTYPES[c["d"]]
    seqs = [tensor(c["seed"] + i, [n] + c["tail"], dt) for i, n in enumerate(c["lens"])]
    out, layout = pad_seqs(seqs, pad_value=c["pad"], pad_to_multiple=c["mult"])
    width = math.ceil(max(c["lens"]) / c["mult"]) * c["mult"]
    expect_eq(list(out.shape), [len(seqs), width] + c["tail"], "shape")
    expect_eq(list(layout.seq_lens), c["lens"], "lengths")
    expect_eq((layout.packed, layout.width, layout.padded), (False, width, any(n != width for n in c["lens"])), "layout")
    for i, s in enumerate(seqs):
        same(out[i, : layout.seq_lens[i]], s, f"sequence {i}")
        same(out[i, len(s) :], torch.full_like(out[i, len(s) :], clamp_pad(c["pad"], dt)), f"padding {i}")
    if layout.padded:
        mask = layout.position_indices < 0
        expect_eq(mask.tolist(), [[j >= n for j in range(width)] for n in c["lens"]], "padded positions")
    # The layout and the batch tell the same.
    b = SequenceBatch(out, list(layout.seq_lens))
    expect_eq((b.num_elements, b.padding, b.num_examples), (sum(c["lens"]), len(seqs) * width - sum(c["lens"]), len(seqs)), "counts")
    ctx.nontrivial(len(set(c["lens"])) > 1)


# ---- packing


@st.composite
def pack_cases(draw):
    cap = draw(st.integers(2, 16))
    trunc = draw(st.booleans())
    mx = draw(st.integers(1, 18))
    hi = 40 if trunc else min(cap, mx)
    return dict(cap=cap, mx=mx, trunc=trunc, drop=draw(st.booleans()), lens=draw(st.lists(st.integers(0, hi), max_size=12)), pad=draw(st.sampled_from([0, -1, 99])), d=draw(st.sampled_from(["i64", "i32", "f32"])), how=draw(st.sampled_from(["list", "list", "cut"])))


def packing(ctx, c):
    # Every token is told apart from all others.
    dt = DTYPES[c["d"]]
    total, seqs = 1000, []
    for n in c["lens"]:
        seqs.append(torch.arange(total, total + n).to(dt))
        total += n
    p = read_sequence(seqs).pack(c["cap"], c["mx"], pad_value=c["pad"], truncate=c["trunc"], drop_remainder=c["drop"]).and_return()
    out = list(p)
    pieces = []
    for j, b in enumerate(out):
        x, lens = b["seqs"], list(b["seq_lens"])
        expect_eq((list(x.shape), x.dtype), ([c["cap"]], dt), "shape and type of a batch")
        expect(lens and all(1 <= n <= c["mx"] for n in lens) and sum(lens) <= c["cap"], f"lengths {lens}")
        if c["trunc"] and (j + 1 < len(out) or c["drop"]):
            expect_eq(sum(lens), c["cap"], f"elements of full batch {j}")
        rest = x[sum(lens) :]
        same(rest, torch.full_like(rest, c["pad"]), "padding")
        pos = 0
        for i, n in enumerate(lens):
            pieces.append((x[pos : pos + n].tolist(), i + 1 == len(lens) and pos + n == c["cap"], j))
            pos += n
        sb = SequenceBatch(x, lens, packed=True)
        expect_eq((sb.num_elements, sb.padding, sb.num_examples), (sum(lens), c["cap"] - sum(lens), len(lens)), "counts")
    # Put together again: a piece that was cut by the end of its batch goes on
    # with its last token.
    want = [s.tolist() for s in seqs if len(s)]
    got, i = [], 0
    ended = True
    if c["trunc"]:
        got = []
        for s in want:
            if i == len(pieces):
                break
            cur = list(pieces[i][0])
            full = pieces[i][1]
            i += 1
            while len(cur) < len(s) and i < len(pieces):
                nxt = pieces[i][0]
                if full:
                    expect(nxt[0] == cur[-1], f"a cut sequence goes on with {nxt[0]} after {cur[-1]}")
                    cur += nxt[1:]
                else:
                    cur += nxt
                full = pieces[i][1]
                i += 1
            got.append(cur)
        ended = not c["drop"]
    else:
        got = [p[0] for p in pieces]
        i = len(pieces)
        # A sequence moves to the next batch only if it would not fit.
        for j in range(len(out) - 1):
            free = c["cap"] - sum(out[j]["seq_lens"])
            expect(list(out[j + 1]["seq_lens"])[0] > min(free, c["mx"]), f"batch {j} had room for the next sequence")
    expect_eq(i, len(pieces), "pieces that belong to a sequence")
    if ended:
        expect_eq(got, want, "sequences put together again")
    else:
        n = max(len(got) - 1, 0)
        expect_eq(got[:n], want[:n], "sequences put together again")
        if got:
            expect_eq(got[n], want[n][: len(got[n])], "the start of the last sequence")
        # What is dropped does not make a full batch.
        left = sum(map(len, want)) - sum(map(len, got))
        expect(left < c["cap"], f"{left} elements dropped")
    ctx.nontrivial(len(out) > 1 and len(pieces) > 3)


# ---- bucketing


@st.composite
def bucket_cases(draw):
    seqlen = draw(st.integers(1, 12))
    # Mostly lengths that the buckets take.
    low, high = draw(st.sampled_from([(0, 14), (1, seqlen), (1, seqlen), (1, seqlen)]))
    return dict(
        max_len=seqlen, k=draw(st.integers(1, 6)), min_len=draw(st.sampled_from([1, 1, 1, seqlen // 2 + 1])), mult=draw(st.sampled_from([1, 1, 2, 3, 8])),
        lens=draw(st.lists(st.integers(low, high), min_size=draw(st.sampled_from([0, 10, 25])), max_size=40)), drop=draw(st.booleans()), below=draw(st.booleans()), above=draw(st.booleans()),
        form=draw(st.sampled_from(["tensor", "list", "int", "dict", "pair", "star"])), lens2=draw(st.lists(st.integers(low, high), min_size=40, max_size=40)),
    )


def check_sizes(c, sizes):
    cap = c["max_len"] * c["k"]
    lens = [l for _, l in sizes]
    expect_eq(lens, sorted(set(lens)), "bucket lengths")
    expect(lens[-1] == c["max_len"] and lens[0] >= c["min_len"], f"bucket lengths {lens}")
    for n, l in sizes:
        expect(n >= 1 and n * l <= cap, f"bucket {n} x {l} for at most {cap} elements")
        expect(n % c["mult"] == 0 or n < c["mult"], f"{n} sequences, not a multiple of {c['mult']}")
        expect(n > cap // l - c["mult"], f"{n} sequences of length {l} where {cap // l} fit")
    for a, b in zip(lens, lens[1:]):
        # No bucket could have taken longer sequences.
        expect(cap // a > cap // (a + 1), f"bucket {a} could hold sequences of length {a + 1} as well")


def bucketing(ctx, c):
    cap = c["max_len"] * c["k"]
    sizes = create_bucket_sizes(max_num_elements=cap, max_seq_len=c["max_len"], min_seq_len=c["min_len"], num_seqs_multiple_of=c["mult"])
    check_sizes(c, sizes)
    sel, form = None, c["form"]
    length = {}
    exs = []
    for i, n in enumerate(c["lens"]):
        m = c["lens2"][i]
        if form == "tensor":
            e, n = torch.full((n, 2), i), n
        elif form == "list":
            e = [i] * n
        elif form == "int":
            # A length by itself.
            e = n
        elif form == "dict":
            e, sel = {"a": {"b": torch.full((n,), i)}, "i": i}, "a.b"
        elif form == "pair":
            e, sel, n = [i, [i] * n, torch.zeros(m)], "[1], [2]", max(n, m)
        else:
            e, sel, n = {"i": i, "xs": [{"y": [0] * n}, {"y": [0] * m}]}, "xs[*].y", max(n, m)
        exs.append(e)
        length[i] = n

    def ident(e):
        e = e["i"] if isinstance(e, dict) else e
        if form == "tensor":
            return int(e[0, 0]) if len(e) else None
        if form == "list":
            return e[0] if e else None
        if form == "pair":
            return e[0]
        return e

    def size(e):
        return len(e) if form in ("tensor", "list") else e if form == "int" else length[ident(e)]

    lens = [length[i] for i in range(len(exs))]
    p = read_sequence(exs).bucket_by_length(sizes, selector=sel, min_data_len=c["min_len"], skip_below_min_examples=c["below"], skip_above_max_examples=c["above"], drop_remainder=c["drop"]).and_return()
    it, out, errors = iter(p), [], 0
    first_bad = next((i for i, n in enumerate(lens) if (n < c["min_len"] and not c["below"]) or (n > c["max_len"] and not c["above"])), None)
    while True:
        try:
            out.append(next(it))
        except StopIteration:
            break
        except DataPipelineError:
            errors += 1
            break
    expect_eq(errors, int(first_bad is not None), "errors about lengths")
    seen = lens if first_bad is None else lens[:first_bad]
    fits = [n for n in seen if c["min_len"] <= n <= c["max_len"]]
    top = {l: n for n, l in sizes}
    ls = sorted(top)
    got = []
    for b in out:
        w = max(size(e) for e in b)
        l = next(l for l in ls if w <= l)
        expect(w * len(b) <= cap, f"a batch of {len(b)} x {w} of at most {cap}")
        expect(len(b) <= top[l], f"{len(b)} sequences of length up to {w} where the bucket holds {top[l]}")
        got += [ident(e) for e in b]
    want = [i for i, n in enumerate(seen) if c["min_len"] <= n <= c["max_len"]] if form != "int" else fits
    extra = collections.Counter(got) - collections.Counter(want)
    left = collections.Counter(want) - collections.Counter(got)
    expect(not extra, f"examples from nowhere: {extra}")
    if first_bad is None:
        if c["drop"]:
            expect(sum(left.values()) < max(top.values()), f"{sum(left.values())} examples dropped")
        else:
            expect(not left, f"lost examples: {left}")
    # Within a full bucket, examples come in their order.
    ctx.label(form)
    ctx.nontrivial(len(out) > 2 and len(sizes) > 1)


size_cases = st.fixed_dictionaries(dict(max=st.integers(-2, 200), len=st.integers(-2, 60), min=st.integers(-1, 12), mult=st.integers(-1, 9)))


def sizes(ctx, c):
    kw = dict(max_num_elements=c["max"], max_seq_len=c["len"], min_seq_len=c["min"], num_seqs_multiple_of=c["mult"])
    bad = c["len"] > c["max"] or c["min"] < 1 or c["min"] > c["len"] or c["mult"] < 1 or c["max"] % c["len"] != 0
    if bad:
        raises(ValueError, lambda: create_bucket_sizes(**kw), "invalid sizes")
        return
    check_sizes(dict(max_len=c["len"], k=c["max"] // c["len"], min_len=c["min"], mult=c["mult"]), create_bucket_sizes(**kw))
    ctx.nontrivial()


good_sizes = st.builds(lambda l, k, m, mult: dict(max=l * k, len=l, min=max(1, m % (l + 1)), mult=mult), st.integers(1, 200), st.integers(1, 60), st.integers(1, 100), st.integers(1, 16))


# ---- batching by cost


@st.composite
def cost_cases(draw):
    lo = draw(st.sampled_from([None, 1, 2, 4]))
    hi = draw(st.sampled_from([None, 4, 5]))
    return dict(costs=draw(st.lists(st.sampled_from([0.0, 0.5, 1.0, 2.25, 7.0]), max_size=30)), thr=draw(st.sampled_from([0.5, 1.0, 3.0, 6.5])), lo=lo, hi=hi, drop=draw(st.booleans()))


def by_cost(ctx, c):
    exs = [[i, x] for i, x in enumerate(c["costs"])]
    out = list(read_sequence(exs).dynamic_bucket(c["thr"], lambda e: e[1], min_num_examples=c["lo"], max_num_examples=c["hi"], drop_remainder=c["drop"]).and_return())

    def full(b):
        return (sum(e[1] for e in b) >= c["thr"] and len(b) >= (c["lo"] or 0)) or len(b) >= (c["hi"] or math.inf)

    got = [e for b in out for e in b]
    expect_eq(got, exs[: len(got)], "examples in order")
    for i, b in enumerate(out):
        expect(b and not full(b[:-1]), f"batch {b} went on although it was full")
        expect(full(b) or (i + 1 == len(out) and not c["drop"]), f"batch {b} is not full")
    left = exs[len(got) :]
    if c["drop"]:
        expect(not full(left), f"a full batch was dropped: {left}")
    else:
        expect(not left, f"lost examples: {left}")
    ctx.nontrivial(len(out) > 2)


# ---- batches


@st.composite
def batch_cases(draw):
    lens = draw(st.lists(st.integers(draw(st.sampled_from([1, 2, 2])), 6), min_size=1, max_size=5))
    return dict(packed=draw(st.booleans()), lens=lens, extra=draw(st.integers(0, 3)), none=draw(st.integers(0, 5)) == 0, tail=draw(st.lists(st.integers(1, 2), max_size=1)), mask=draw(st.sampled_from([None, "bool", "all", "none"])), seed=draw(st.integers(0, 9999)))


def make(c, off=1000):
    """Sequences whose elements are all different, batched; padding is -1."""
    seqs, t = [], off
    for n in c["lens"]:
        seqs.append(torch.arange(t, t + n).reshape([n] + [1] * len(c["tail"])).expand([n] + c["tail"]))
        t += n
    if c["packed"]:
        w = sum(c["lens"]) + c["extra"]
        x = torch.full([w] + c["tail"], -1)
        if seqs:
            x[: sum(c["lens"])] = torch.cat(seqs)
    else:
        w = max(c["lens"]) + c["extra"]
        x = torch.full([len(seqs), w] + c["tail"], -1)
        for i, s in enumerate(seqs):
            x[i, : len(s)] = s
    lens = list(c["lens"])
    if c["none"]:
        # All of the width is one sequence (per row).
        lens = [w] if c["packed"] else [w] * len(seqs)
    return x, lens


def mask_of(c, x):
    if c["mask"] is None:
        return None
    shape = x.shape[:1] if c["packed"] else x.shape[:2]
    if c["mask"] == "all":
        return torch.ones(shape, dtype=torch.bool)
    if c["mask"] == "none":
        return torch.zeros(shape, dtype=torch.bool)
    return tensor(c["seed"], shape, torch.bool)


def rows(x, lens, packed):
    out, pos = [], 0
    for i, n in enumerate(lens):
        out.append(x[pos : pos + n].tolist() if packed else x[i, :n].tolist())
        pos += n
    return out


def check_counts(b, x, lens, packed, tail_dims, mask, example):
    expect_eq(list(b.seq_lens), lens, "lengths")
    expect_eq(b.num_elements, sum(lens), "num_elements")
    expect_eq(b.num_examples, len(lens), "num_examples")
    expect_eq(b.batch_size, 1 if packed else x.size(0), "batch_size")
    total = x.size(0) if packed else x.size(0) * x.size(1)
    expect_eq(b.padding, total - sum(lens), "padding")
    expect_eq(b.num_target_elements, sum(lens) if mask is None else int(mask.sum()), "num_target_elements")
    expect_eq(b.packed, packed, "packed")
    expect(b.example is example, "the example is kept")
    same(b.seqs, x, "seqs")
    seqs, layout = b.as_input()
    same(seqs, x, "input")
    expect_eq((list(layout.seq_lens), layout.packed, layout.width), (lens, packed, x.size(0) if packed else x.size(1)), "input layout")


def auto_targets(x, lens, mask, packed):
    """(input, target, target is counted) of every step, in the order of the batch."""
    out, pos = [], 0
    for i, n in enumerate(lens):
        row = x[pos:] if packed else x[i]
        m = None if mask is None else (mask[pos:] if packed else mask[i])
        last = i + 1 == len(lens)
        for j in range(n):
            if (j + 1 == n) if not packed else (last and j + 1 == n):
                break
            out.append((row[j].tolist(), row[j + 1].tolist(), None if m is None else bool(m[j + 1])))
        pos += n
    return out


def batches(ctx, c):
    x, lens = make(c)
    mask = mask_of(c, x)
    ex = object()
    b = SequenceBatch(x, None if c["none"] else list(lens), packed=c["packed"], target_mask=mask, example=ex)
    check_counts(b, x, lens, c["packed"], len(c["tail"]), mask, ex)
    expect_eq(rows(b.seqs, list(b.seq_lens), c["packed"]), rows(x, lens, c["packed"]), "sequences")
    short = (lens == [1]) if c["packed"] else 1 in lens
    if short:
        raises(InvalidOperationError, b.as_auto_regressive, "a sequence without a target")
        ctx.label("too short")
        return
    inp, tgt = b.as_auto_regressive()
    check_counts(b, x, lens, c["packed"], len(c["tail"]), mask, ex)
    expect(inp.target_mask is None, "the input has no target mask")
    want = auto_targets(x, lens, mask, c["packed"])
    a = [e for r in rows(inp.seqs, list(inp.seq_lens), c["packed"]) for e in r]
    t = [e for r in rows(tgt.seqs, list(tgt.seq_lens), c["packed"]) for e in r]
    expect_eq(a, [w[0] for w in want], "inputs")
    expect_eq(t, [w[1] for w in want], "targets")
    expect_eq(list(inp.seqs.shape), list(tgt.seqs.shape), "shapes")
    expect(inp.example is ex, "the example is kept")
    tmask = None
    if mask is not None:
        tmask = mask[1:] if c["packed"] else mask[:, 1:]
        expect(tgt.target_mask is not None, "targets lost their mask")
        same(tgt.target_mask, tmask, "target mask")
        m = [e for r in rows(tgt.target_mask, list(tgt.seq_lens), c["packed"]) for e in r]
        expect_eq(m, [w[2] for w in want], "targets that count")
    else:
        expect(tgt.target_mask is None, "target mask")
    w = inp.seqs.shape[:1] if c["packed"] else inp.seqs.shape[:2]
    for q, mm in ((inp, None), (tgt, tmask)):
        expect_eq((q.num_elements, q.num_target_elements, q.num_examples, q.padding), (len(want), len(want) if mm is None else int(mm.sum()), len(q.seq_lens), math.prod(w) - len(want)), "counts after trimming")
    ctx.label("packed" if c["packed"] else "padded")
    ctx.nontrivial(len(lens) > 1)


@st.composite
def seq2seq_cases(draw):
    s = draw(batch_cases())
    t = draw(batch_cases())
    n = min(len(s["lens"]), len(t["lens"]))
    for c in (s, t):
        c["lens"] = c["lens"][:n]
        c["packed"] = s["packed"]
        if s["packed"] and n > 1:
            c["none"] = False
    if s["packed"] and n == 1:
        t["none"] = t["none"]
    return s, t


def seq2seq(ctx, case):
    s, t = case
    sx, slens = make(s)
    tx, tlens = make(t, 5000)
    packed, mask, ex = s["packed"], mask_of(t, tx), object()
    b = Seq2SeqBatch(sx, None if s["none"] else list(slens), tx, None if t["none"] else list(tlens), packed=packed, target_mask=mask, example=ex)

    def total(x):
        return x.size(0) if packed else x.size(0) * x.size(1)

    def counts(b, sx, slens, tx, tlens, mask):
        expect_eq((list(b.source_seq_lens), list(b.target_seq_lens)), (slens, tlens), "lengths")
        expect_eq(b.num_source_elements, sum(slens), "num_source_elements")
        expect_eq(b.num_target_elements, sum(tlens) if mask is None else int(mask.sum()), "num_target_elements")
        expect_eq(b.num_elements, sum(slens) + sum(tlens), "num_elements")
        expect_eq(b.num_examples, len(slens), "num_examples")
        expect_eq(b.batch_size, 1 if packed else len(slens), "batch_size")
        expect_eq(b.padding, total(sx) + total(tx) - sum(slens) - sum(tlens), "padding")
        same(b.source_seqs, sx, "source")
        same(b.target_seqs, tx, "target")
        for (q, l), x, lens in ((b.as_source_input(), sx, slens), (b.as_target_input(), tx, tlens)):
            same(q, x, "input")
            expect_eq((list(l.seq_lens), l.packed), (lens, packed), "layout")
        expect(b.example is ex, "the example is kept")

    counts(b, sx, slens, tx, tlens, mask)
    short = (tlens == [1]) if packed else 1 in tlens
    if short:
        raises(InvalidOperationError, b.as_auto_regressive, "a sequence without a target")
        ctx.label("too short")
        return
    inp, tgt = b.as_auto_regressive()
    want = auto_targets(tx, tlens, mask, packed)
    ilens = [n - 1 for n in tlens] if not packed else [n for n in tlens[:-1] + [tlens[-1] - 1] if n]
    counts(inp, sx, slens[: len(ilens)], tx[:-1] if packed else tx[:, :-1], ilens, None)
    a = [e for r in rows(inp.target_seqs, list(inp.target_seq_lens), packed) for e in r]
    q = [e for r in rows(tgt.seqs, list(tgt.seq_lens), packed) for e in r]
    expect_eq(a, [w[0] for w in want], "decoder inputs")
    expect_eq(q, [w[1] for w in want], "targets")
    tm = None if mask is None else (mask[1:] if packed else mask[:, 1:])
    expect_eq((tgt.num_elements, tgt.num_target_elements), (len(want), len(want) if tm is None else int(tm.sum())), "target counts")
    if tm is not None:
        same(tgt.target_mask, tm, "target mask")
    ctx.label("packed" if packed else "padded")
    ctx.nontrivial(len(slens) > 1)


# ---- batches that cannot be


@st.composite
def invalid_cases(draw):
    return dict(packed=draw(st.booleans()), shape=draw(st.lists(st.integers(0, 4), max_size=3)), lens=draw(st.one_of(st.none(), st.lists(st.integers(-1, 5), max_size=4))), mask=draw(st.one_of(st.none(), st.none(), st.lists(st.integers(0, 4), max_size=3))), two=draw(st.sampled_from([None, "source", "target"])))


def invalid(ctx, c):
    """A batch is accepted if and only if its lengths fit its tensor."""
    sh, lens, packed = c["shape"], c["lens"], c["packed"]
    if packed:
        ok = len(sh) >= 1 and sh[0] > 0
        l = lens if lens is not None else sh[:1]
        ok = ok and len(l) > 0 and all(n >= 1 for n in l) and sum(l) <= sh[0]
    else:
        ok = len(sh) >= 2 and sh[1] > 0
        l = lens if lens is not None else [sh[1]] * sh[0] if len(sh) > 1 else []
        ok = ok and (lens is None or len(lens) > 0) and len(l) == sh[0] and all(1 <= n <= sh[1] for n in l)
    on_mask = c["two"] != "source"
    if ok and c["mask"] is not None and on_mask:
        ok = c["mask"] == sh[: 1 if packed else 2]
    x = torch.zeros(sh)
    mask = None if c["mask"] is None or not on_mask else torch.ones(c["mask"], dtype=torch.bool)

    def make():
        if c["two"] is None:
            return SequenceBatch(x, lens, packed=packed, target_mask=mask)
        n = len(l) if packed else (sh[0] if sh else 1)
        good = torch.zeros([max(n, 1)] if packed else [n, 1])
        glens = ([1] * n or None) if packed else None
        if c["two"] == "source":
            return Seq2SeqBatch(x, lens, good, glens, packed=packed)
        return Seq2SeqBatch(good, glens, x, lens, packed=packed, target_mask=mask)

    if ok:
        b = make()
        expect_eq(b.num_examples, len(l), "examples")
    else:
        raises(ValueError, make, f"an invalid batch {c}")
    ctx.label("valid" if ok else "invalid")
    ctx.nontrivial(ok or lens is not None)


# ---- from examples to batches and back


@st.composite
def whole_cases(draw):
    hi = draw(st.integers(1, 10))
    return dict(lens=draw(st.lists(st.tuples(st.integers(1, hi), st.integers(1, 6)), min_size=1, max_size=30)), hi=hi, k=draw(st.integers(1, 4)), mult=draw(st.sampled_from([1, 2, 8])), pad=draw(st.sampled_from([0, 1, -1])), par=draw(st.sampled_from([1, 3])), pre=draw(st.integers(0, 3)), mode=draw(st.sampled_from(["length", "static", "cost"])))


def whole(ctx, c):
    """Examples bucketed, collated, made into batches, and recovered by their ids."""
    exs = [{"id": i, "src": torch.arange(i * 100, i * 100 + a), "tgt": torch.arange(-i * 100 - b, -i * 100), "name": f"ex{i}"} for i, (a, b) in enumerate(c["lens"])]
    b = read_sequence([dict(e) for e in exs])
    if c["mode"] == "length":
        b = b.bucket_by_length(create_bucket_sizes(max_num_elements=c["hi"] * c["k"], max_seq_len=c["hi"]), selector="src")
    elif c["mode"] == "static":
        b = b.bucket(c["k"])
    else:
        b = b.dynamic_bucket(float(c["hi"] * c["k"]), lambda e: float(len(e["src"])))
    b = b.map(Collater(pad_value=0, overrides=[CollateOptionsOverride("src", pad_value=c["pad"], pad_to_multiple=c["mult"])]), num_parallel_calls=c["par"]).prefetch(c["pre"])

    def to_batch(d):
        return Seq2SeqBatch(d["src"]["seqs"], d["src"]["seq_lens"], d["tgt"]["seqs"], d["tgt"]["seq_lens"], example=d)

    found = {}
    for batch in b.map(to_batch).and_return():
        d = batch.example
        expect_eq(batch.num_examples, len(d["id"]), "examples of a batch")
        for j, i in enumerate(d["id"]):
            expect(i not in found, f"example {i} came twice")
            found[i] = (batch.source_seqs[j, : batch.source_seq_lens[j]], batch.target_seqs[j, : batch.target_seq_lens[j]], d["name"][j])
        expect_eq(batch.source_seqs.size(1) % c["mult"], 0, "width of the batch")
    expect_eq(sorted(found), list(range(len(exs))), "examples")
    for i, e in enumerate(exs):
        same(found[i][0], e["src"], f"source of {i}")
        same(found[i][1], e["tgt"], f"target of {i}")
        expect_eq(found[i][2], e["name"], f"name of {i}")
    ctx.label(c["mode"])
    ctx.nontrivial(len(exs) > 4)


main(
    Prop(
        "D03",
        [
            Arm("collating", collate_cases, collating, quick=1500, thorough=100000),
            Arm("misfit", misfit_cases, misfit, quick=800, thorough=20000),
            Arm("padding", lambda: pad_cases, padding, quick=1000, thorough=40000),
            Arm("packing", pack_cases, packing, quick=2500, thorough=100000),
            Arm("bucketing", bucket_cases, bucketing, quick=2000, thorough=80000),
            Arm("sizes", lambda: st.one_of(size_cases.filter(lambda c: c["len"] != 0), good_sizes, good_sizes), sizes, quick=2500, thorough=100000),
            Arm("cost", cost_cases, by_cost, quick=1200, thorough=40000),
            Arm("batches", batch_cases, batches, quick=2000, thorough=60000),
            Arm("seq2seq", seq2seq_cases, seq2seq, quick=2000, thorough=60000),
            Arm("invalid", invalid_cases, invalid, quick=2000, thorough=60000),
            Arm("whole", whole_cases, whole, quick=500, thorough=15000),
        ],
        rule="more than one example with a ragged tensor; sequences of different lengths; more than two batches; a batch of more than one sequence",
        assumptions=[
            "the tensors of one batch have one dtype and differ in their first dimension only, as documented",
            "pad values are whole numbers that float64 and the dtype can hold",
            "packs hold at least two elements (a pack of one that is cut starts over from its only token)",
        ],
    )
)

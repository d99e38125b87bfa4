"""B01: batch layouts describe padded and packed batches faithfully."""
import boot

boot.boot()

import torch
from harness import Arm, Prop, expect, expect_eq, main, raises
from hypothesis import strategies as st

from fairseq2.nn import BatchLayout
from fairseq2.nn.utils.mask import apply_mask


def layouts():
    lens = st.lists(st.one_of(st.integers(1, 6), st.integers(1, 40)), min_size=1, max_size=7)
    return st.tuples(st.booleans(), lens, st.one_of(st.just(0), st.integers(0, 9)), st.lists(st.integers(1, 3), max_size=2), st.sampled_from([None, "of", "tuple"]), st.booleans())


def check_valid(ctx, case):
    packed, lens, extra, tail, form, implicit = case
    if packed:
        width = sum(lens) + extra
        shape = (width,)
        if implicit:
            lens, given = [width], None
        else:
            given = list(lens)
    else:
        width = max(lens) + extra
        shape = (len(lens), width)
        if implicit:
            lens, given = [width] * len(lens), None
        else:
            given = list(lens)
    if form == "tuple" and given is not None:
        given = tuple(given)
    if form == "of":
        seqs = torch.zeros(*shape, *tail)
        l = BatchLayout.of(seqs, given, packed=packed)
    else:
        l = BatchLayout(shape, given, packed=packed)
    if isinstance(given, list):
        given[0] = 99  # the caller's list is not the layout's
    expect_eq(list(l.seq_lens), lens, "seq_lens")
    expect_eq(l.seq_lens_pt.tolist(), lens, "seq_lens_pt")
    expect_eq(l.seq_lens_pt.dtype, torch.int32, "dtype of seq_lens_pt")
    expect_eq(l.width, width, "width")
    expect_eq(l.packed, packed, "packed")
    expect_eq(l.min_seq_len, min(lens), "min_seq_len")
    expect_eq(l.max_seq_len, max(lens), "max_seq_len")
    total = width if packed else width * len(lens)
    expect_eq(l.padded, sum(lens) < total, "padded")
    if packed:
        begin = [sum(lens[:i]) for i in range(len(lens) + 1)]
        pos = [i for n in lens for i in range(n)]
        pos += [-1] * (width - len(pos))
    else:
        begin = [i * width for i in range(len(lens) + 1)]
        pos = [list(range(n)) + [-1] * (width - n) for n in lens]
    expect_eq(list(l.seq_begin_indices), begin, "seq_begin_indices")
    expect_eq(l.seq_begin_indices_pt.tolist(), begin, "seq_begin_indices_pt")
    expect_eq(l.position_indices.tolist(), pos, "position_indices")
    expect_eq(tuple(l.position_indices.shape), tuple(shape), "shape of position_indices")

    # The mask of the real elements.
    mask = l.position_indices >= 0
    x = torch.arange(total * max(1, len(tail) and tail[0]), dtype=torch.float32) + 1
    x = x.view(*shape, *( [tail[0]] if tail else []))
    y = apply_mask(x, mask, fill_value=-7)
    expect_eq(tuple(y.shape), tuple(x.shape), "shape after masking")
    expect(bool((y[mask] == x[mask]).all()), "real elements changed by a mask")
    expect(bool((y[~mask] == -7).all()), "padding is not filled")
    expect(bool((x > 0).all()), "the input was changed")
    ctx.nontrivial(len(set(lens)) > 1)
    ctx.label("packed" if packed else "padded_form", "padding" if l.padded else "full")


def bad():
    return st.tuples(st.booleans(), st.lists(st.integers(-2, 8), max_size=5), st.integers(0, 12), st.integers(0, 5), st.integers(0, 3))


def check_any(ctx, case):
    """Arguments that fit are accepted, all others are rejected."""
    packed, lens, width, rows, dims = case
    if dims == 0:
        shape = (width,) if packed else (rows, width)
    elif dims == 1:
        shape = (width,)
    elif dims == 2:
        shape = (rows, width)
    else:
        shape = (rows, width, 2)
    if packed:
        ok = len(shape) == 1 and width >= 1 and all(n >= 1 for n in lens) and sum(lens) <= width
    else:
        ok = len(shape) == 2 and width >= 1 and len(lens) == rows and all(1 <= n <= width for n in lens)
    if ok:
        l = BatchLayout(shape, lens, packed=packed)
        expect_eq(list(l.seq_lens), lens, "seq_lens")
        if lens:
            expect_eq((l.min_seq_len, l.max_seq_len), (min(lens), max(lens)), "min and max")
        ctx.label("accepted")
    else:
        raises(ValueError, lambda: BatchLayout(shape, lens, packed=packed), f"lengths {lens} for shape {shape}")
        ctx.label("rejected")
    ctx.nontrivial(not ok and len(lens) > 0)


def masks():
    return st.tuples(
        st.lists(st.integers(1, 4), min_size=1, max_size=4), st.integers(1, 4), st.sampled_from(["float32", "float16", "int64", "bool", "float64"]),
        st.integers(0, 2**31 - 1), st.sampled_from([0, -1, 3, 1.5, "tensor", "inf"]),
    )


def check_mask(ctx, case):
    shape, mdims, dt, seed, fill = case
    mdims = min(mdims, len(shape))
    dtype = getattr(torch, dt)
    g = torch.Generator().manual_seed(seed)
    x = torch.randint(0, 50, shape, generator=g).to(dtype)
    m = torch.rand(shape[:mdims], generator=g) < 0.5
    if dtype == torch.bool:
        fill = 0
    if dtype == torch.int64 and (fill == 1.5 or fill == "inf"):
        fill = 2
    f = torch.tensor(4, dtype=dtype) if fill == "tensor" else (float("inf") if fill == "inf" else fill)
    x0, m0 = x.clone(), m.clone()
    y = apply_mask(x, m, fill_value=f)
    expect(torch.equal(x, x0) and torch.equal(m, m0), "the inputs were changed")
    full = m.view(*m.shape, *[1] * (x.ndim - m.ndim)).expand(x.shape)
    fv = f if isinstance(f, torch.Tensor) else torch.tensor(f, dtype=dtype if dtype != torch.bool else torch.bool)
    for i in range(x.numel()):
        a, b, k = y.reshape(-1)[i], x.reshape(-1)[i], bool(full.reshape(-1)[i])
        expect(float(a) == float(b if k else fv), f"element {i} is {a}; input {b}, mask {k}, fill {f}")
    ctx.nontrivial(m.any() and not m.all())


main(Prop(
    "B01",
    [Arm(f"valid{i}", layouts, check_valid, quick=700, thorough=40000, timeout=90) for i in range(3)]
    + [Arm(f"any{i}", bad, check_any, quick=1200, thorough=40000, timeout=90) for i in range(2)]
    + [Arm("mask", masks, check_mask, quick=500, thorough=10000, timeout=60)],
    rule="sequences of different lengths (any: inconsistent arguments; mask: some elements masked, some not)",
    assumptions=["layouts on the CPU, outside of torch.compile"],
))

"""N03: position encoders encode an element by its value and position alone, by their formula."""
import boot

boot.boot()

import math

import torch
from harness import Arm, Prop, expect, expect_close, expect_eq, main, raises
from hypothesis import strategies as st

from fairseq2.models.llama.config import LLaMARoPEScaleConfig
from fairseq2.models.llama.factory import init_llama_rope_freqs
from fairseq2.models.olmo.yarn_rope import YaRNRotaryEncoder
from fairseq2.models.wav2vec2.position_encoder import Wav2Vec2PositionEncoder, Wav2Vec2StackedPositionEncoder
from fairseq2.nn import (
    BatchLayout,
    IncrementalStateBag,
    LearnedPositionEncoder,
    ReferenceRotaryEncoder,
    RotaryEncoder,
    Sinusoidal2dPositionEncoder,
    Sinusoidal3dPositionEncoder,
    SinusoidalPositionEncoder,
)
from fairseq2.nn.position_encoder import DualRotaryEncoder

F64 = torch.float64


# ---- published formulas, one position at a time, in Python floats


def f_sin(x, p, c, enc):
    E = c["E"]
    h = E // 2
    off = 0 if c["legacy"] is None else 1 + c["legacy"]
    out = []
    for i in range(E):
        k = i % h
        w = math.exp(-k * math.log(10000.0) / max(h - 1, 1))
        out.append((math.sin if i < h else math.cos)((p + off) * w))
    return x + torch.tensor(out, dtype=F64)


def f_learned(x, p, c, enc):
    return x + enc.weight[p + 1].detach().to(F64)


def rot_pairs(x, angles, pairs, scale=1.0):
    y = x.clone()
    for a, (i, j) in zip(angles, pairs):
        co, si = math.cos(a) * scale, math.sin(a) * scale
        y[..., i] = x[..., i] * co - x[..., j] * si
        y[..., j] = x[..., j] * co + x[..., i] * si
    return y


def inter(E):
    return [(2 * i, 2 * i + 1) for i in range(E // 2)]


def half(E):
    return [(i, i + E // 2) for i in range(E // 2)]


def inv(E, theta):
    return [theta ** (-2.0 * i / E) for i in range(E // 2)]


def f_rope(x, p, c, enc):
    return rot_pairs(x, [p * w for w in inv(c["E"], c["theta"])], inter(c["E"]))


def f_ref(x, p, c, enc):
    return rot_pairs(x, [p * w for w in inv(c["E"], c["theta"])], half(c["E"]))


def f_dual(x, p, c, enc):
    h = c["E"] // 2
    a = rot_pairs(x[..., :h], [p * w for w in inv(h, c["theta"])], inter(h))
    b = rot_pairs(x[..., h:], [p * w for w in inv(h, c["theta2"])], inter(h))
    return torch.cat([a, b], -1)


def f_llama(x, p, c, enc):
    s = c["scale"]
    lo, hi = s["frequency_factors"]
    ws = []
    for w in inv(c["E"], c["theta"]):
        wl = 2 * math.pi / w
        n = s["original_context_length"]
        if wl < n / hi:
            ws.append(w)
        elif wl > n / lo:
            ws.append(w / s["factor"])
        else:
            t = (n / wl - lo) / (hi - lo)
            ws.append((1 - t) * w / s["factor"] + t * w)
    return rot_pairs(x, [p * w for w in ws], inter(c["E"]))


def f_yarn(x, p, c, enc):
    y, E, th = c["yarn"], c["E"], c["theta"]

    def dim(rot):
        return E * math.log(y["original_max_seq_len"] / (rot * 2 * math.pi)) / (2 * math.log(th))

    lo, hi = dim(y["beta_fast"]), dim(y["beta_slow"])
    if y["truncate"]:
        lo, hi = math.floor(lo), math.ceil(hi)
    lo, hi = max(lo, 0), min(hi, E - 1)
    if lo == hi:
        hi += 0.001
    ws = []
    for i, w in enumerate(inv(E, th)):
        r = min(max((i - lo) / (hi - lo), 0.0), 1.0)  # 0: keep, 1: interpolate
        ws.append(w * (1 - r) + w / y["scale_factor"] * r)

    def ms(m):
        return 1.0 if y["scale_factor"] <= 1 else 0.1 * m * math.log(y["scale_factor"]) + 1.0

    if y["mscale"] and y["mscale_all_dim"]:
        sc = ms(y["mscale"]) / ms(y["mscale_all_dim"])
    else:
        sc = ms(y["mscale"] or 1.0)
    return rot_pairs(x, [p * w for w in ws], half(E), sc)


def make(c):
    k, E, L = c["kind"], c["E"], c["L"]
    if k == "sin":
        return SinusoidalPositionEncoder(E, L, _legacy_pad_idx=c["legacy"]), f_sin
    if k == "learned":
        return LearnedPositionEncoder(E, L), f_learned
    if k == "rope":
        return RotaryEncoder(E, L, theta=c["theta"]), f_rope
    if k == "ref":
        return ReferenceRotaryEncoder(E, L, theta=c["theta"]), f_ref
    if k == "dual":
        return DualRotaryEncoder(E, L, theta=c["theta"], dual_theta=c["theta2"]), f_dual
    if k == "llama":
        sc = LLaMARoPEScaleConfig(**c["scale"])
        return RotaryEncoder(E, L, theta=c["theta"], freqs_init_fn=lambda e: init_llama_rope_freqs(e, sc)), f_llama
    return YaRNRotaryEncoder(E, L, theta=c["theta"], **c["yarn"]), f_yarn


ROT = ["rope", "ref", "dual", "llama", "yarn"]


@st.composite
def encoder(draw, kinds=("sin", "learned", *ROT)):
    k = draw(st.sampled_from(list(kinds)))
    E = draw(st.sampled_from([4, 8, 12] if k == "dual" else [2, 4, 6, 8, 16]))
    return dict(
        kind=k, E=E, L=draw(st.sampled_from([1, 2, 5, 9, 16, 40, 200])), theta=draw(st.sampled_from([50.0, 10000.0, 500000.0])),
        theta2=draw(st.sampled_from([77.0, 100000.0])), legacy=draw(st.sampled_from([None, 0, 1])),
        scale=dict(factor=draw(st.sampled_from([2.0, 8.0])), frequency_factors=draw(st.sampled_from([(1.0, 4.0), (2.0, 3.0)])),
                   original_context_length=draw(st.sampled_from([16, 64, 8192]))),
        yarn=dict(scale_factor=draw(st.sampled_from([1.0, 2.0, 8.0])), original_max_seq_len=draw(st.sampled_from([16, 64, 8192])),
                  beta_fast=draw(st.sampled_from([32.0, 8.0])), beta_slow=draw(st.sampled_from([1.0, 2.0])),
                  mscale=draw(st.sampled_from([1.0, 0.7, 0.0])), mscale_all_dim=draw(st.sampled_from([0.0, 1.0, 0.5])),
                  truncate=draw(st.booleans())),
    )


@st.composite
def token_cases(draw):
    c = draw(encoder())
    L = c["L"]
    form = draw(st.sampled_from(["full", "padded", "packed", "inc", "inc", "inc_packed"]))
    start = draw(st.integers(0, L - 1)) if form.startswith("inc") else 0
    cap = L - start
    lens = draw(st.lists(st.one_of(st.integers(1, min(cap, 12)), st.just(min(cap, 40))), min_size=1, max_size=4))
    if form in ("full", "inc"):
        lens = [lens[0]] * len(lens)
    return dict(
        c, form=form, start=start, lens=lens, extra=draw(st.integers(0, 4)), mid=draw(st.sampled_from([(), (3,), (2, 1)])),
        dtype=draw(st.sampled_from(["float32", "float32", "float64", "bfloat16", "float16"])), seed=draw(st.integers(0, 10**6)),
        training=draw(st.booleans()), rebuilt=draw(st.booleans()), given_layout=draw(st.booleans()),
    )


def tokens(ctx, c):
    torch.manual_seed(c["seed"])
    enc, f = make(c)
    if c["rebuilt"] and c["kind"] != "learned":
        # As after materialising a module from the meta device.
        for b in enc.buffers():
            b.fill_(float("nan"))
        for m in enc.modules():
            if m is enc or c["kind"] == "dual":
                m.reset_non_persistent_buffers()
    inc = c["form"].startswith("inc")
    enc.train(c["training"] and not inc)
    dt = getattr(torch, c["dtype"])
    if c["kind"] == "learned":
        enc.to(dt)
    E, mid, lens = c["E"], c["mid"], c["lens"]
    seqs = [torch.randn(n, *mid, E).to(dt) for n in lens]
    packed = c["form"] in ("packed", "inc_packed")
    if packed:
        W = sum(lens) + c["extra"]
        x = torch.full((W, *mid, E), 7.7).to(dt)
        at, place = 0, []
        for s in seqs:
            x[at : at + len(s)] = s
            place.append((slice(at, at + len(s)),))
            at += len(s)
        lay = BatchLayout((W,), lens, packed=True)
    else:
        W = max(lens) + (c["extra"] if c["form"] == "padded" else 0)
        x = torch.full((len(lens), W, *mid, E), -3.3).to(dt)
        place = []
        for i, s in enumerate(seqs):
            x[i, : len(s)] = s
            place.append((i, slice(0, len(s))))
        lay = BatchLayout((len(lens), W), lens if c["form"] == "padded" or c["given_layout"] else None)
    bag = None
    if inc:
        bag = IncrementalStateBag(c["L"] + 1)
        if c["start"]:
            bag.increment_step_nr(c["start"])
    elif c["training"] and c["seed"] % 3 == 0:
        # The state is to be ignored in training.
        bag = IncrementalStateBag(c["L"] + 5)
        bag.increment_step_nr(3)
    before = x.clone()
    y = enc(x, lay, state_bag=bag)
    ctx.label(c["kind"], c["form"])
    ctx.nontrivial(max(lens) > 1 and (len(set(lens)) > 1 or c["start"] > 0 or c["form"] != "full"))
    expect(torch.equal(x, before), "the input was modified")
    expect_eq((tuple(y.shape), y.dtype), (tuple(x.shape), dt), "shape and type")
    tol = {"float32": 2e-4, "float64": 2e-4, "bfloat16": 5e-2, "float16": 5e-3}[c["dtype"]]
    for s, pl in zip(seqs, place):
        got = y[pl]
        for p in range(len(s)):
            expect_close(got[p].to(F64), f(s[p].to(F64), c["start"] + p, c, enc), f"{c['kind']} ({c['form']}): position {c['start'] + p}", atol=tol, rtol=tol)
    # One more element than allowed.
    over = c["L"] - c["start"] + 1
    z = torch.randn(1, over, E)
    if not inc and bag is None or inc:
        raises(ValueError, lambda: enc(z, BatchLayout.of(z), state_bag=bag), "longer than the maximum")
        z = torch.randn(2, over + 1, E)
        raises(ValueError, lambda: enc(z, BatchLayout((2, over + 1), [1, over]), state_bag=bag), "longer than the maximum, padded")


@st.composite
def rel_cases(draw):
    c = draw(encoder(ROT))
    c["L"] = draw(st.sampled_from([16, 60, 200]))
    return dict(c, pos=draw(st.lists(st.tuples(st.integers(0, c["L"] // 2 - 1), st.integers(0, c["L"] // 2 - 1)), min_size=1, max_size=6)),
                shift=draw(st.integers(1, c["L"] // 2)), seed=draw(st.integers(0, 10**6)))


def relative(ctx, c):
    enc, _ = make(c)
    g = torch.Generator().manual_seed(c["seed"])
    q, k = torch.randn(c["E"], generator=g), torch.randn(c["E"], generator=g)
    L = c["L"]
    Q = enc(q.expand(1, L, -1).contiguous(), BatchLayout((1, L), None))[0]
    K = enc(k.expand(1, L, -1).contiguous(), BatchLayout((1, L), None))[0]
    ctx.label(c["kind"])
    ctx.nontrivial(any(i != j for i, j in c["pos"]))
    for i, j in c["pos"]:
        a, b = Q[i] @ K[j], Q[i + c["shift"]] @ K[j + c["shift"]]
        expect_close(a, b, f"{c['kind']}: dot product at ({i}, {j}) shifted by {c['shift']}", atol=3e-3)
    # A rotation keeps norms (up to YaRN's constant factor).
    r = Q.norm(dim=-1) / q.norm()
    expect_close(r, r[:1].expand_as(r), "norm over positions", atol=1e-4)


@st.composite
def conv_cases(draw):
    g = draw(st.sampled_from([1, 2, 4]))
    return dict(stack=draw(st.sampled_from([0, 1, 2, 3])), E=4 * draw(st.integers(1, 2)), g=g, k=draw(st.integers(1, 9)),
                lens=draw(st.lists(st.integers(1, 12), min_size=1, max_size=4)), extra=draw(st.integers(0, 5)),
                seed=draw(st.integers(0, 10**6)), pad=draw(st.sampled_from([0.0, 3.0, -50.0])))


def conv(ctx, c):
    torch.manual_seed(c["seed"])
    if c["stack"]:
        enc = Wav2Vec2StackedPositionEncoder(c["E"], c["k"], c["g"], c["stack"])
    else:
        enc = Wav2Vec2PositionEncoder(c["E"], c["k"], c["g"])
    enc.double().eval()
    with torch.no_grad():
        for n, p in enc.named_parameters():
            p.copy_(torch.randn_like(p))
        lens = c["lens"]
        W = max(lens) + c["extra"]
        x = torch.full((len(lens), W, c["E"]), c["pad"], dtype=F64)
        seqs = [torch.randn(n, c["E"], dtype=F64) for n in lens]
        for i, s in enumerate(seqs):
            x[i, : len(s)] = s
        y = enc(x, BatchLayout((len(lens), W), lens))
        ctx.label("stacked" if c["stack"] > 1 else "single")
        ctx.nontrivial(any(n < W for n in lens))
        expect_eq(tuple(y.shape), tuple(x.shape), "shape")
        for i, s in enumerate(seqs):
            a = enc(s[None], BatchLayout((1, len(s)), None))[0]
            expect_close(y[i, : len(s)], a, f"sequence {i} of length {len(s)} padded to {W} and alone", atol=1e-8)


@st.composite
def nd_cases(draw):
    d = draw(st.sampled_from([2, 3]))
    grid = draw(st.lists(st.integers(1, 7), min_size=d, max_size=d))
    if draw(st.booleans()):
        inp = list(grid)
    elif draw(st.booleans()):
        k = draw(st.integers(2, 3))
        inp = [k * x for x in grid]
    else:
        inp = draw(st.lists(st.integers(1, 12), min_size=d, max_size=d))
    u = draw(st.booleans())
    # Dimensions that the parts divide evenly.
    E = draw(st.sampled_from([4, 8, 16] if d == 2 else ([6, 12, 18] if u else [8, 16])))
    return dict(grid=grid, inp=inp, E=E, uniform=u, n=draw(st.integers(1, 3)), seed=draw(st.integers(0, 10**6)),
                dtype=draw(st.sampled_from(["float32", "float64", "bfloat16"])))


def nd(ctx, c):
    torch.manual_seed(c["seed"])
    d, E = len(c["grid"]), c["E"]
    enc = Sinusoidal2dPositionEncoder(E, tuple(c["grid"])) if d == 2 else Sinusoidal3dPositionEncoder(E, tuple(c["grid"]), uniform_power=c["uniform"])
    parts = [E // 2] * 2 if d == 2 else ([E // 3] * 3 if c["uniform"] else [E // 2, E // 4, E // 4])

    def code(p, n):
        h = n // 2
        ws = [10000.0 ** (-i / h) for i in range(h)]
        return [math.sin(p * w) for w in ws] + [math.cos(p * w) for w in ws]

    table = torch.zeros(*c["grid"], E, dtype=F64)
    for idx in torch.cartesian_prod(*[torch.arange(n) for n in c["grid"]]).reshape(-1, d).tolist():
        table[tuple(idx)] = torch.tensor(sum((code(p, n) for p, n in zip(idx, parts)), []), dtype=F64)
    if c["grid"] != c["inp"]:
        t = table.movedim(-1, 0)[None]
        t = torch.nn.functional.interpolate(t, size=tuple(c["inp"]), mode="bicubic" if d == 2 else "trilinear")
        table = t[0].movedim(0, -1)
    dt = getattr(torch, c["dtype"])
    x = torch.randn(c["n"], *c["inp"], E).to(dt)
    before = x.clone()
    y = enc(x)
    ctx.label(f"{d}d", "same grid" if c["grid"] == c["inp"] else "interpolated")
    ctx.nontrivial(math.prod(c["inp"]) > 1)
    expect(torch.equal(x, before), "the input was modified")
    expect_eq(y.dtype, dt, "type")
    tol = 5e-2 if dt == torch.bfloat16 else 1e-4
    expect_close(y.to(F64), x.to(F64) + table, f"{d}d encodings of {c['inp']} by {c['grid']}", atol=tol, rtol=tol)


main(Prop(
    "N03",
    arms=[
        Arm("tokens", token_cases, tokens, quick=900, thorough=30000, timeout=100),
        Arm("relative", rel_cases, relative, quick=300, thorough=8000, timeout=60),
        Arm("conv", conv_cases, conv, quick=400, thorough=8000, timeout=60),
        Arm("grid", nd_cases, nd, quick=300, thorough=6000, timeout=60),
    ],
    rule="more than one position, and sequences of different lengths, a start step, padding or packing; for grids more than one cell",
    assumptions=["CPU; the reference is the published formula in double precision, compared within the precision of float32 tables"],
))

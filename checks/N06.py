"""N06: losses, normalisation, feed-forward and residual layers equal their definitions."""
import boot

boot.boot(init=True)

import math

import models
import torch
from harness import Arm, Prop, expect, expect_close, expect_eq, main, raises
from hypothesis import strategies as st

import fairseq2.nn.normalization as norm_mod
from fairseq2.models.llama4.moe import MoE
from fairseq2.models.olmo.normalization import OLMORMSNorm
from fairseq2.models.transformer import (
    DauphinFeedForwardNetwork,
    GLUFeedForwardNetwork,
    StandardFeedForwardNetwork,
)
from fairseq2.models.transformer.ffn import AltUpFeedForwardNetwork
from fairseq2.models.wav2vec2 import Wav2Vec2Model
from fairseq2.models.wav2vec2.asr.model import Wav2Vec2AsrModel
from fairseq2.nn import (
    AdditiveResidualConnect,
    BatchLayout,
    DropPathResidualConnect,
    LAuReLResidualConnect,
    Linear,
    RMSNorm,
    ScaledResidualConnect,
    StandardLayerNorm,
)
from fairseq2.nn.functional import cross_entropy
from fairseq2.nn.utils.grad import scale_grad
from fairseq2.nn.utils.mask import apply_mask
from fairseq2.ops import repeat_interleave, unsqueeze

F64 = torch.float64


def rnd(*shape, seed, dtype=F64):
    return torch.randn(*shape, dtype=F64, generator=torch.Generator().manual_seed(seed)).to(dtype)


# ---------------------------------------------------------------- cross entropy
@st.composite
def xent_cases(draw):
    n, s, v = draw(st.integers(1, 3)), draw(st.integers(1, 5)), draw(st.integers(2, 7))
    tgt = draw(st.lists(st.integers(0, v - 1), min_size=n * s, max_size=n * s))
    pad = draw(st.sampled_from([None, None, 0, v - 1, "any"]))
    if pad == "any":
        pad = draw(st.integers(0, v - 1))
    mask = draw(st.one_of(st.none(), st.lists(st.booleans(), min_size=n * s, max_size=n * s)))
    return dict(n=n, s=s, v=v, tgt=tgt, pad=pad, mask=mask, smooth=draw(st.sampled_from([0.0, 0.0, 0.1, 0.5])),
                red=draw(st.sampled_from(["sum", "mean", "none"])), flat=draw(st.booleans()),
                scale=draw(st.sampled_from([0.1, 1.0, 30.0, 1000.0])), shift=draw(st.sampled_from([0.0, 0.0, 1e4, -300.0])),
                dtype=draw(st.sampled_from(["float32", "float32", "float64", "bfloat16", "float16"])), seed=draw(st.integers(0, 9999)))


def ref_xent(logits, tgt, pad, mask, smooth):
    """Per-token losses in double precision, and which of the tokens count."""
    lp = logits - torch.logsumexp(logits, -1, keepdim=True)
    v = logits.size(-1)
    out, counted = [], []
    for i in range(logits.size(0)):
        if (pad is not None and int(tgt[i]) == pad) or (mask is not None and not mask[i]):
            out.append(torch.zeros((), dtype=F64))
            counted.append(False)
            continue
        nll = -lp[i, tgt[i]]
        if smooth:
            # All probability mass `smooth` is spread over the other classes.
            rest = -(lp[i].sum() - lp[i, tgt[i]])
            nll = (1 - smooth) * nll + smooth / (v - 1) * rest
        out.append(nll)
        counted.append(True)
    return torch.stack(out), counted


def xent_arm(ctx, c):
    n, s, v = c["n"], c["s"], c["v"]
    dt = getattr(torch, c["dtype"])
    x = (rnd(n * s, v, seed=c["seed"]) * c["scale"]).to(dt)
    if c["shift"] and c["dtype"] in ("float32", "float64"):
        x = x + c["shift"]
    tgt = torch.tensor(c["tgt"])
    mask = None if c["mask"] is None else torch.tensor(c["mask"])
    ctx.label(c["red"])
    ctx.label("smooth" if c["smooth"] else "plain")
    if c["pad"] is not None and c["mask"] is not None:
        ctx.label("pad+mask")
    xr = x.detach().clone().double().requires_grad_()
    per, counted = ref_xent(xr, tgt, c["pad"], mask, c["smooth"])
    k = sum(counted)
    if k == 0:
        if c["red"] == "mean":
            return  # the mean of nothing
        per = per + 0 * xr.sum(-1)
    if 0 < k < n * s or c["smooth"]:
        ctx.nontrivial()
    w = rnd(n * s, seed=c["seed"] + 1)
    if c["red"] == "none":
        (per * w).sum().backward()
    else:
        per = per.sum() if c["red"] == "sum" else per.sum() / k
        per.backward()
    xi = x.clone().requires_grad_()
    flat = c["flat"]
    sh = (lambda t: t) if flat else (lambda t: t.view(n, s, *t.shape[1:]))
    before = (xi.detach().clone(), tgt.clone(), None if mask is None else mask.clone())
    y = cross_entropy(sh(xi), sh(tgt), c["pad"], label_smoothing=c["smooth"], target_mask=None if mask is None else sh(mask), reduction=c["red"])
    expect(y.dtype == torch.float32, f"the loss is of type {y.dtype}")
    if c["red"] == "none":
        expect_eq(tuple(y.shape), (n * s,) if flat else (n, s), "shape of the unreduced loss")
        (y.reshape(-1) * w.float()).sum().backward()
        y = y.reshape(-1)
    else:
        y.backward()
    # The float32 logits themselves may be rounded: the error scales with them.
    big = float(x.double().abs().max())
    tol = 2e-6 * (1 + big) * (n * s)
    expect_close(y.double(), per, f"cross entropy ({c['red']})", atol=tol, rtol=1e-5)
    gt = {torch.float32: 1e-5, torch.float64: 1e-5, torch.bfloat16: 2e-2, torch.float16: 3e-3}[dt] * (1 + (big * 1e-1 if big > 100 else 0))
    expect_close(xi.grad.double(), xr.grad, f"gradient of cross entropy ({c['red']})", atol=gt, rtol=gt)
    for i, used in enumerate(counted):
        if not used:
            expect(not xi.grad[i].any(), f"the ignored target {i} has a gradient")
    expect(torch.equal(xi.detach(), before[0]) and torch.equal(tgt, before[1]) and (mask is None or torch.equal(mask, before[2])), "an input was changed")


def bad_red_arm(ctx, c):
    ctx.nontrivial()
    x = rnd(2, 3, seed=c["seed"])
    expect(raises(ValueError, lambda: cross_entropy(x, torch.tensor([0, 1]), None, label_smoothing=c["smooth"], target_mask=torch.tensor([True, True]) if c["mask"] else None,
                                                    reduction=c["red"])), f"reduction {c['red']!r} was accepted")


# ---------------------------------------------------------------- norms
@st.composite
def norm_cases(draw):
    k = draw(st.integers(1, 2))
    shape = draw(st.lists(st.integers(1, 5), min_size=k, max_size=k))
    return dict(kind=draw(st.sampled_from(["ln", "rms", "rms_fallback", "olmo"])), shape=shape, lead=draw(st.lists(st.integers(1, 3), max_size=2)),
                bias=draw(st.booleans()), affine=draw(st.sampled_from([True, True, False])), eps=draw(st.sampled_from([1e-6, 1e-5, 0.1])),
                cast=draw(st.booleans()), dtype=draw(st.sampled_from(["float32", "float64", "bfloat16"])), seed=draw(st.integers(0, 9999)),
                scale=draw(st.sampled_from([1.0, 1e-3, 100.0])), int_shape=draw(st.booleans()), init=draw(st.booleans()))


def norm_arm(ctx, c):
    dt = getattr(torch, c["dtype"])
    shape = c["shape"][0] if len(c["shape"]) == 1 and c["int_shape"] else tuple(c["shape"])
    ctx.label(c["kind"])
    ctx.nontrivial()
    kw = dict(eps=c["eps"], elementwise_affine=c["affine"], dtype=dt)
    if c["init"]:
        kw["init_fn"] = lambda m: [torch.nn.init.constant_(p, 3.0) for p in m.parameters()]
    if c["kind"] == "ln":
        m = StandardLayerNorm(shape, c["bias"], cast_fp32=c["cast"], **kw)
    elif c["kind"] == "olmo":
        m = OLMORMSNorm(shape, c["bias"], **kw)
    else:
        m = RMSNorm(shape, c["bias"], **kw)
    names = {k for k, _ in m.named_parameters()}
    expect_eq(names, ({"weight"} | ({"bias"} if c["bias"] else set())) if c["affine"] else set(), "parameters")
    for k, p in m.named_parameters():
        want = 3.0 if c["init"] else (1.0 if k == "weight" else 0.0)
        expect(bool((p == want).all()), f"initial {k}")
        expect_eq(tuple(p.shape), tuple(c["shape"]), f"shape of {k}")
    with torch.no_grad():
        for i, p in enumerate(m.parameters()):
            p.copy_(rnd(*p.shape, seed=c["seed"] + i, dtype=dt))
    x = (rnd(*c["lead"], *c["shape"], seed=c["seed"] + 9) * c["scale"]).to(dt)
    dims = tuple(range(-len(c["shape"]), 0))
    xr = x.clone().double().requires_grad_()
    wr = m.weight.detach().clone().double().requires_grad_() if c["affine"] else None
    br = m.bias.detach().clone().double().requires_grad_() if c["affine"] and c["bias"] else None
    z = xr
    if c["kind"] == "ln":
        z = z - z.mean(dims, keepdim=True)
    z = z / torch.sqrt((z * z).mean(dims, keepdim=True) + c["eps"])
    if wr is not None:
        z = z * wr
    if br is not None:
        z = z + br
    w = rnd(*z.shape, seed=c["seed"] + 10)
    (z * w).sum().backward()
    xi = x.clone().requires_grad_()
    has = getattr(norm_mod, "_has_rms_norm", None)
    try:
        if c["kind"] == "rms_fallback" and has is not None:
            norm_mod._has_rms_norm = False
        y = m(xi)
    finally:
        if has is not None:
            norm_mod._has_rms_norm = has
    expect(y.dtype == dt, f"output of type {y.dtype} for an input of type {dt}")
    (y.double() * w).sum().backward()
    tol = {torch.float64: 1e-5, torch.float32: 1e-4, torch.bfloat16: 6e-2}[dt]  # some compute in single precision
    num = math.prod(c["shape"])
    if c["kind"] == "ln" and (dt == torch.float32 or c["cast"]) and x.numel():
        # Subtracting the mean cancels; the rest is divided by the deviation.
        spread = torch.sqrt(x.double().var(dims, unbiased=False).min() + c["eps"])
        tol += float(3e-7 * x.double().abs().max() / spread)
    single = c["kind"] == "ln" and (num == 1 or c["scale"] < 1 or c["scale"] > 1)
    expect_close(y.double(), z, f"{type(m).__name__}", atol=tol * (20 if single and dt != F64 else 1), rtol=tol)
    if dt == torch.bfloat16:
        return
    gs = max(1.0, float(xr.grad.abs().max()))
    expect_close(xi.grad.double(), xr.grad, f"gradient of {type(m).__name__}", atol=20 * tol * gs, rtol=10 * tol)
    if wr is not None:
        expect_close(m.weight.grad.double(), wr.grad, "gradient of the weight", atol=10 * tol * (1 + float(wr.grad.abs().max())), rtol=tol)
    if br is not None:
        expect_close(m.bias.grad.double(), br.grad, "gradient of the bias", atol=10 * tol, rtol=tol)


# ---------------------------------------------------------------- feed-forward
@st.composite
def ffn_cases(draw):
    c = dict(kind=draw(st.sampled_from(["std", "dauphin", "glu", "glu", "altup", "moe", "moe"])), dim=draw(st.integers(1, 5)), inner=draw(st.integers(2, 9)),
             bias=draw(st.booleans()), act=draw(st.sampled_from([None, "gelu", "tanh"])), scale=draw(st.sampled_from([1.0, 2 / 3, 0.5])),
             mult=draw(st.sampled_from([1, 2, 4, 5])), sparsity=draw(st.sampled_from([0.0, 0.0, 0.3, 0.5, 0.95])), dropout=draw(st.sampled_from([0.0, 0.5])),
             lead=draw(st.sampled_from([[1], [3], [2, 3]])), seed=draw(st.integers(0, 9999)), experts=draw(st.integers(1, 4)),
             shared=draw(st.booleans()), cap=draw(st.sampled_from([1.0, 2.0])), auto=draw(st.booleans()))
    c["top_k"] = draw(st.integers(1, c["experts"]))
    return c


ACT = {None: None, "gelu": torch.nn.GELU, "tanh": torch.nn.Tanh}


def sparsify(g, p):
    # Keeps what lies above the p-quantile of a normal distribution fit to the row.
    t = math.sqrt(2) * torch.erfinv(torch.tensor(2 * p - 1, dtype=F64))
    cut = g.mean(-1, keepdim=True) + t * g.var(-1, unbiased=False, keepdim=True).sqrt()
    return (g - cut).clamp(min=0)


def ffn_arm(ctx, c):
    ctx.label(c["kind"])
    ctx.nontrivial()
    d, k = c["dim"], c["kind"]
    act = ACT[c["act"]]
    a = act() if act else None
    inner = c["inner"]
    if k in ("glu", "moe"):
        scaled = int(inner * c["scale"])
        if k == "moe" and c["auto"]:
            scaled = int(scaled / (c["cap"] + int(c["shared"])))
        if scaled < 1:
            return
        inner = -(-scaled // c["mult"]) * c["mult"]
    if k == "std":
        m = StandardFeedForwardNetwork(d, inner, c["bias"], inner_activation=a, inner_dropout_p=c["dropout"], dtype=F64)
    elif k == "dauphin":
        m = DauphinFeedForwardNetwork(d, inner, c["bias"], inner_activation=a, inner_dropout_p=c["dropout"], dtype=F64)
    elif k == "glu":
        m = GLUFeedForwardNetwork(d, c["inner"], c["bias"], gate_activation=a, inner_dim_scale=c["scale"], inner_dim_to_multiple=c["mult"],
                                  inner_dropout_p=c["dropout"], activation_sparsity=c["sparsity"], dtype=F64)
    elif k == "altup":
        m = AltUpFeedForwardNetwork(d, inner, c["bias"], activation_sparsity=c["sparsity"], dtype=F64)
    else:
        m = MoE(d, c["inner"], c["shared"], c["experts"], c["cap"], c["top_k"], moe_activation=a, inner_dim_scale=c["scale"],
                inner_dim_to_multiple=c["mult"], auto_scale=c["auto"]).double()
    models.randomise(m, c["seed"])
    g = torch.Generator().manual_seed(c["seed"] + 3)
    if k == "moe":
        with torch.no_grad():
            for p in m.parameters():
                p.copy_(torch.randn(p.shape, generator=g, dtype=F64))
    m.eval()
    x = rnd(*c["lead"], d, seed=c["seed"] + 1)
    P = {n: p.detach().clone().requires_grad_() for n, p in m.named_parameters()}
    lin = lambda n, t: t @ P[n + ".weight"].T + (P[n + ".bias"] if n + ".bias" in P else 0.0)  # noqa: E731
    xr = x.clone().requires_grad_()
    if k == "std":
        f = a or torch.relu
        h = lin("inner_proj", xr)
        expect_eq(h.shape[-1], inner, "inner dimension")
        y = lin("output_proj", f(h))
    elif k == "dauphin":
        f = a or torch.sigmoid
        h = lin("inner_proj", xr)
        expect_eq(h.shape[-1], 2 * inner, "inner dimension")
        y = lin("output_proj", f(h[..., :inner]) * h[..., inner:])
    elif k in ("glu", "altup"):
        gt = lin("gate_proj", xr)
        expect_eq(gt.shape[-1], inner, "inner dimension")
        if c["sparsity"]:
            gt = sparsify(gt, c["sparsity"])
        if k == "glu":
            gt = a(gt) if a else gt * torch.sigmoid(gt)
        else:
            gt = 0.5 * gt * (1 + torch.tanh(math.sqrt(2 / math.pi) * (gt + 0.044715 * gt**3)))
        y = lin("output_proj", gt * lin("inner_proj", xr))
    else:
        f = a or torch.nn.SiLU()
        toks = xr.reshape(-1, d)
        E = c["experts"]
        gp, ip, op = (P["experts." + n].view(E, -1, P["experts." + n].shape[-1]) for n in ("gate_proj", "inner_proj", "output_proj"))
        expect_eq(gp.shape[-1], inner, "inner dimension of an expert")
        outs = []
        for t in toks:
            r = t @ P["router"]
            top = sorted(range(E), key=lambda e: -float(r[e].detach()))[: c["top_k"]]
            o = torch.zeros(d, dtype=F64)
            for e in top:
                s = t * torch.sigmoid(r[e])
                o = o + (f(s @ gp[e]) * (s @ ip[e])) @ op[e]
            if c["shared"]:
                gt = lin("shared_expert.gate_proj", t)
                o = o + lin("shared_expert.output_proj", gt * torch.sigmoid(gt) * lin("shared_expert.inner_proj", t))
            outs.append(o)
        y = torch.stack(outs).view(xr.shape)
    w = rnd(*y.shape, seed=c["seed"] + 2)
    (y * w).sum().backward()
    xi = x.clone().requires_grad_()
    z = m(xi)
    expect_eq(tuple(z.shape), tuple(x.shape), "shape of the output")
    (z * w).sum().backward()
    # The cutoff of the sparsification is computed in single precision.
    tol = 1e-9 if not (k in ("glu", "altup") and c["sparsity"]) else 1e-5
    expect_close(z, y, type(m).__name__, atol=tol * (1 + float(y.detach().abs().max())), rtol=tol)
    expect(torch.equal(xi.detach(), x), "the input was changed")
    if tol == 1e-9:
        expect_close(xi.grad, xr.grad, f"gradient of {type(m).__name__}", atol=1e-8 * (1 + float(xr.grad.abs().max())), rtol=1e-7)
        for n, p in m.named_parameters():
            if P[n].grad is None:
                expect(p.grad is None or not p.grad.any(), f"{n} should have no gradient")
            else:
                expect_close(p.grad if p.grad is not None else torch.zeros_like(p), P[n].grad, f"gradient of {n}", atol=1e-8 * (1 + float(P[n].grad.abs().max())), rtol=1e-7)
    # Dropout works in training only, and keeps the expected value.
    if k in ("std", "dauphin", "glu") and c["dropout"]:
        expect(torch.equal(m(x), m(x)), "evaluation is not deterministic")


# ---------------------------------------------------------------- residuals, small ops
@st.composite
def misc_cases(draw):
    return dict(kind=draw(st.sampled_from(["add", "scaled", "drop", "drop", "laurel", "repeat", "unsqueeze", "scale_grad", "apply_mask"])),
                n=draw(st.integers(1, 6)), s=draw(st.integers(1, 3)), d=draw(st.integers(1, 4)), p=draw(st.sampled_from([0.0, 0.1, 0.5, 0.9])),
                keep=draw(st.booleans()), train=draw(st.booleans()), scale=draw(st.sampled_from([0.0, 0.5, -2.0, 3.0])),
                dim=draw(st.integers(-3, 2)), rep=draw(st.integers(1, 4)), seed=draw(st.integers(0, 9999)), count=draw(st.integers(0, 3)))


def misc_arm(ctx, c):
    ctx.label(c["kind"])
    ctx.nontrivial()
    n, s, d, k = c["n"], c["s"], c["d"], c["kind"]
    x, r = rnd(n, s, d, seed=c["seed"]), rnd(n, s, d, seed=c["seed"] + 1)
    x0, r0 = x.clone(), r.clone()
    if k == "add":
        expect_close(AdditiveResidualConnect()(x, r), x0 + r0, "sum", atol=0)
    elif k == "scaled":
        m = ScaledResidualConnect(c["scale"])
        expect_close(m(x, r), x0 + c["scale"] * r0, "scaled residual", atol=1e-12)
    elif k == "drop":
        m = DropPathResidualConnect(c["p"], c["keep"])
        m.train(c["train"])
        if not c["train"] or c["p"] == 0:
            expect(torch.equal(m(x, r), x0 + r0), "drop path outside of training")
        else:
            torch.manual_seed(c["seed"])
            kept = 0
            trials = 200
            f = 1 / (1 - c["p"]) if c["keep"] else 1.0
            for _ in range(trials):
                y = m(x, r)
                for i in range(n):
                    full = torch.allclose(y[i], x0[i] * f + r0[i], atol=1e-9)
                    none = torch.allclose(y[i], r0[i], atol=1e-9)
                    expect(full or none, f"sequence {i} is neither dropped nor kept")
                    kept += full and not none
            q, t = 1 - c["p"], trials * n
            sd = math.sqrt(t * q * c["p"])
            expect(abs(kept - t * q) < 7 * sd + 1, f"{kept} of {t} sequences were kept, with a probability of {q}")
    elif k == "laurel":
        m = LAuReLResidualConnect(d, 2, RMSNorm(d, bias=False, dtype=F64), dtype=F64)
        models.randomise(m, c["seed"])
        e = x0 + r0 @ m.linear_left.weight.T @ m.linear_right.weight.T
        e = e / torch.sqrt((e * e).mean(-1, keepdim=True) + 1e-5) * m.layer_norm.weight
        expect_close(m(x, r), e, "LAuReL", atol=1e-8)
    elif k == "repeat":
        expect(torch.equal(repeat_interleave(x, c["dim"], c["rep"]), torch.repeat_interleave(x0, c["rep"], dim=c["dim"])), "repeat_interleave")
        return
    elif k == "unsqueeze":
        y = unsqueeze(x, dim=c["dim"], count=c["count"])
        e = x0
        for _ in range(c["count"]):
            e = e.unsqueeze(c["dim"])
        expect_eq(tuple(y.shape), tuple(e.shape), "unsqueeze")
    elif k == "scale_grad":
        xi = x.clone().requires_grad_()
        y = scale_grad(xi, c["scale"])
        expect(torch.equal(y, x0), "scale_grad changes the value")
        (y * r).sum().backward()
        expect_close(xi.grad, c["scale"] * r0, "scaled gradient", atol=1e-12)
        expect(raises(TypeError, lambda: scale_grad(torch.ones(2, dtype=torch.int64), 0.5)), "integers were accepted")
    else:
        mask = rnd(n, s, seed=c["seed"] + 3) > 0
        y = apply_mask(x, mask, fill_value=7)
        e = torch.stack([torch.stack([x0[i, j] if mask[i, j] else torch.full((d,), 7.0, dtype=F64) for j in range(s)]) for i in range(n)])
        expect(torch.equal(y, e), "apply_mask")
    expect(torch.equal(x, x0) and torch.equal(r, r0), "an input was changed")


# ---------------------------------------------------------------- model losses
@st.composite
def loss_cases(draw):
    fam = draw(st.sampled_from(["llama", "qwen", "gemma3n", "nllb", "s2t_transformer", "ctc", "ctc", "contrast", "contrast"]))
    c = dict(family=fam, seed=draw(st.integers(0, 9999)), smooth=draw(st.sampled_from([0.0, 0.1])), red=draw(st.sampled_from(["sum", "mean"])),
             n=draw(st.integers(1, 3)), s=draw(st.integers(1, 5)), mask=draw(st.booleans()))
    if fam in models.CLM:
        c["cfg"] = draw(models.CLM[fam]())
    elif fam in models.S2S:
        c["cfg"] = draw(models.S2S[fam]())
    elif fam == "ctc":
        c["frames"] = draw(st.lists(st.integers(1, 6), min_size=c["n"], max_size=c["n"]))
        c["tlens"] = draw(st.lists(st.integers(1, 4), min_size=c["n"], max_size=c["n"]))
        c["vocab"] = draw(st.integers(2, 4))
    else:
        c["distractors"] = draw(st.integers(1, 4))
        c["temp"] = draw(st.sampled_from([1.0, 0.1]))
        c["dup"] = draw(st.booleans())
        c["weights"] = (draw(st.sampled_from([0.0, 0.1])), draw(st.sampled_from([0.0, 10.0])))
    return c


def ctc_ref(lp, target):
    """-log of the probability of all alignments, by enumeration."""
    T, V = lp.shape
    import itertools

    tot = []
    for path in itertools.product(range(V), repeat=T):
        out = [p for i, p in enumerate(path) if p != 0 and (i == 0 or path[i - 1] != p)]
        if out == list(target):
            tot.append(sum(float(lp[t, p].detach()) for t, p in enumerate(path)))
    if not tot:
        return 0.0  # impossible alignments count as zero
    m = max(tot)
    return -(m + math.log(sum(math.exp(t - m) for t in tot)))


class _Front(torch.nn.Module):
    """Passes features through, as the frontend of a wav2vec 2.0 model would."""

    first_pass_dropout = None

    def extract_features(self, seqs, layout):
        return seqs, layout, seqs

    def process_features(self, seqs, layout, masker):
        return seqs, None


class _Enc(torch.nn.Module):
    def forward(self, seqs, layout):
        return seqs


class _Quant(torch.nn.Module):
    output_dim = 4
    num_codebooks = 2
    num_codebook_entries = 3


def loss_arm(ctx, c):
    fam = c["family"]
    ctx.label(fam)
    ctx.nontrivial()
    g = torch.Generator().manual_seed(c["seed"])
    if fam == "ctc":
        T, V = max(c["frames"]), c["vocab"]
        m = Wav2Vec2AsrModel(V, _Front(), _Enc(), Linear(V, V, bias=True, dtype=F64))
        models.randomise(m, c["seed"])
        m.eval()
        x = rnd(c["n"], T, V, seed=c["seed"])
        tl = c["tlens"]
        tgt = torch.randint(1, V, (c["n"], max(tl)), generator=g)
        lo, tlo = BatchLayout(x.shape[:2], seq_lens=c["frames"]), BatchLayout(tgt.shape, seq_lens=tl)
        loss, logits, _ = m(x, lo, tgt, tlo, return_logits=True)
        lp = torch.log_softmax(x @ m.final_proj.weight.T + m.final_proj.bias, -1)
        want = sum(ctc_ref(lp[i, : c["frames"][i]], tgt[i, : tl[i]].tolist()) for i in range(c["n"]))
        expect_close(loss.double(), torch.tensor(want, dtype=F64), "CTC loss of the batch", atol=1e-3, rtol=1e-4)
        expect_close(logits, x @ m.final_proj.weight.T + m.final_proj.bias, "logits", atol=1e-9)
        expect_close(m(x, lo, tgt, tlo), loss, "loss without the logits", atol=1e-6)
        return
    if fam == "contrast":
        m = Wav2Vec2Model(4, _Front(), _Enc(), torch.nn.Identity(), _Quant(), 4, num_distractors=c["distractors"], logit_temp=c["temp"], dtype=torch.float32)
        n, s, L, d = c["n"], c["s"], c["distractors"], 4
        seqs, tg, dist = (rnd(*z, seed=c["seed"] + i, dtype=torch.float32) for i, z in enumerate([(n, s, d), (n, s, d), (n, s, L, d)]))
        if c["dup"]:
            dist[0, 0, 0] = tg[0, 0]
        logits = m._compute_logits(seqs, tg, dist)
        want = torch.zeros(n, s, L + 1, dtype=F64)
        for i in range(n):
            for j in range(s):
                for q in range(L + 1):
                    v = tg[i, j] if q == 0 else dist[i, j, q - 1]
                    a, b = seqs[i, j].double(), v.double()
                    want[i, j, q] = a @ b / (a.norm() * b.norm()) / c["temp"]
                    if q and torch.equal(v, tg[i, j]):
                        want[i, j, q] = -math.inf
        expect_close(logits.double(), want, "contrastive logits", atol=1e-4)
        loss = m.compute_contrastive_loss(logits)
        e = sum(float(torch.logsumexp(want[i, j], 0) - want[i, j, 0]) for i in range(n) for j in range(s))
        expect_close(loss.double(), torch.tensor(e, dtype=F64), "contrastive loss", atol=1e-3)
        perp = torch.tensor(2.5)
        div = m.compute_diversity_loss(logits, perp)
        expect_close(div.double(), torch.tensor((6 - 2.5) / 6 * n * s, dtype=F64), "diversity loss", atol=1e-4)
        raw = rnd(n, s, d, seed=c["seed"] + 8, dtype=torch.float32)
        pen = m.compute_features_penalty(logits, raw)
        expect_close(pen.double(), (raw.double() ** 2).mean() * n * s, "feature penalty", atol=1e-3)
        from types import SimpleNamespace as NS

        out = m.compute_loss(NS(logits=logits, quantizer_output=NS(prob_perplexity=perp), raw_features=raw),
                             diversity_weight=c["weights"][0], features_penalty_weight=c["weights"][1])
        expect_close(out.aggregate.double(), loss.double() + c["weights"][0] * div.double() + c["weights"][1] * pen.double(), "aggregate loss", atol=1e-2, rtol=1e-4)
        return
    m = models.randomise(models.make_model(fam, c["cfg"]).double(), c["seed"])
    m.eval()
    pad = m.pad_idx
    ids = torch.randint(0, 20, (c["n"], c["s"]), generator=g)
    tgt = torch.randint(0, 20, (c["n"], c["s"]), generator=g)
    if pad is not None:
        tgt[torch.rand(tgt.shape, generator=g) < 0.3] = pad
    mask = (torch.rand(tgt.shape, generator=g) < 0.7) if c["mask"] else None
    kw = dict(label_smoothing=c["smooth"], reduction=c["red"])
    if mask is not None:
        kw["target_mask"] = mask
    with torch.no_grad():
        if fam in models.CLM:
            args = (ids, BatchLayout.of(ids))
        else:
            src = torch.randint(0, 20, (c["n"], 4), generator=g) if fam == "nllb" else rnd(c["n"], 12, c["cfg"]["num_fbank_channels"], seed=c["seed"])
            args = (src, BatchLayout.of(src), ids, BatchLayout.of(ids))
        logits = m(*args)
        per, counted = ref_xent(logits.double().flatten(0, 1), tgt.flatten(), pad, None if mask is None else mask.flatten(), c["smooth"])
        if not any(counted):
            return
        e = per.sum() if c["red"] == "sum" else per.sum() / sum(counted)
        a = m(*args, tgt, **kw)
        b, lg = m(*args, tgt, return_logits=True, **kw)
    expect_close(a.double(), e, f"loss of {fam}", atol=1e-4, rtol=1e-5)
    expect_close(b.double(), e, f"loss of {fam} returned with its logits", atol=1e-4, rtol=1e-5)
    expect_close(lg, logits, f"logits of {fam} returned with the loss", atol=1e-8)


bad_red_cases = st.fixed_dictionaries(dict(seed=st.integers(0, 99), smooth=st.sampled_from([0.0, 0.1]), mask=st.just(True), red=st.sampled_from(["avg", "", "Sum"])))

main(Prop("N06", [
    Arm("xent", xent_cases, xent_arm, quick=900, thorough=20000),
    Arm("xent_args", lambda: bad_red_cases, bad_red_arm, quick=20, thorough=50),
    Arm("norms", norm_cases, norm_arm, quick=700, thorough=15000),
    Arm("ffn", ffn_cases, ffn_arm, quick=500, thorough=12000),
    Arm("misc", misc_cases, misc_arm, quick=400, thorough=6000),
    Arm("losses", loss_cases, loss_arm, quick=300, thorough=6000),
], rule="some targets ignored or smoothed; any layer",
    assumptions=["finite logits", "the expected value of the masked or padded part of a mean over nothing is not defined"]))

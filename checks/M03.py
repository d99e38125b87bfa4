"""M03: a model's output for a sequence does not depend on the batch it is in."""
import boot

boot.boot(init=True)

import math

import models
import torch
from harness import Arm, Prop, expect, expect_close, expect_eq, main
from hypothesis import strategies as st

from fairseq2.error import NotSupportedError
from fairseq2.models.jepa import JepaConfig, JepaEncoderConfig
from fairseq2.models.jepa.classifier import JepaClassifierConfig, create_jepa_classifier_model
from fairseq2.models.jepa.factory import create_jepa_model
from fairseq2.models.transformer import set_default_sdpa_factory
from fairseq2.models.transformer.sdpa.naive import NaiveSDPA
from fairseq2.models.transformer.sdpa.torch import TorchSDPA
from fairseq2.models.wav2vec2.asr import Wav2Vec2AsrConfig
from fairseq2.models.wav2vec2.asr.factory import create_wav2vec2_asr_model
from fairseq2.nn import BatchLayout

V = models.VOCAB
SDPA = {"naive": lambda b, **kw: NaiveSDPA(b, **kw), "torch": lambda b, **kw: TorchSDPA(b, **kw)}


def build(family, cfg, sdpa, seed, make=None):
    set_default_sdpa_factory(SDPA[sdpa])
    torch.manual_seed(seed)
    m = make() if make else models.make_model(family, cfg)
    models.randomise(m, seed % 1000)
    return m.eval()


def same(a, b, msg):
    s = float(b.abs().max()) if b.numel() else 0.0
    expect_close(a, b, msg, rtol=1e-3, atol=2e-4 * max(1.0, s))


def tokens(draw, n, low=1):
    return draw(st.lists(st.integers(0, V - 1), min_size=low, max_size=n))


def pad(seqs, extra, fill, tail=(), dtype=torch.int64):
    w = max(len(s) for s in seqs) + extra
    out = torch.empty(len(seqs), w, *tail, dtype=dtype)
    g = torch.Generator().manual_seed(fill)
    if dtype == torch.int64:
        out.copy_(torch.randint(0, V, out.shape, generator=g) if fill else torch.zeros(out.shape))
    else:
        out.copy_(torch.randn(out.shape, generator=g) * (10.0 if fill else 0.0))
    for i, s in enumerate(seqs):
        out[i, : len(s)] = torch.as_tensor(s)
    return out, BatchLayout((len(seqs), w), [len(s) for s in seqs])


def single(s):
    t = torch.as_tensor(s).unsqueeze(0)
    return t, BatchLayout((1, t.size(1)), None)


def packed(seqs, extra):
    flat = torch.cat([torch.as_tensor(s) for s in seqs] + [torch.zeros(extra, dtype=torch.int64)])
    return flat, BatchLayout((flat.numel(),), [len(s) for s in seqs], packed=True)


def other(t):
    return (t + 1) % V


@st.composite
def clm_cases(draw):
    fam = draw(st.sampled_from(sorted(models.CLM)))
    cfg = draw(models.CLM[fam]())
    n = draw(st.integers(1, 4))
    seqs = [tokens(draw, draw(st.sampled_from([3, 12]))) for _ in range(n)]
    return dict(family=fam, cfg=cfg, sdpa=draw(st.sampled_from(["naive", "torch"])), seed=draw(st.integers(0, 2**31)), seqs=seqs, extra=draw(st.sampled_from([0, 0, 1, 4])),
                fill=draw(st.integers(0, 3)), cut=draw(st.integers(0, 11)), loss=draw(st.integers(0, 2)), ls=draw(st.sampled_from([0.0, 0.1])))


def clm(ctx, c):
    seqs = c["seqs"]
    m = build(c["family"], c["cfg"], c["sdpa"], c["seed"])
    with torch.no_grad():
        alone = [m(*single(s))[0] for s in seqs]
        for s, a in zip(seqs, alone):
            expect_eq(a.shape[0], len(s), "length of the output of a sequence alone")
        x, l = pad(seqs, c["extra"], c["fill"])
        y = m(x, l)
        for i, a in enumerate(alone):
            same(y[i, : len(a)], a, f"{c['family']}: sequence {i} in a padded batch and alone")
        expect(torch.equal(y, m(x, l)), "two evaluations differ")
        # Causality.
        k = c["cut"] % len(seqs[0])
        t = torch.tensor(seqs[0])
        t[k + 1 :] = other(t[k + 1 :])
        same(m(*single(t))[0][: k + 1], alone[0][: k + 1], f"{c['family']}: outputs up to position {k} after changing later tokens")
        if k + 1 < len(t) and len(t) > 1:
            z = m(*single(t[: k + 1]))[0]
            same(z, alone[0][: k + 1], f"{c['family']}: outputs of a prefix of {k + 1} tokens and of the whole")
        try:
            px, pl = packed(seqs, c["extra"])
            py = m(px, pl)
        except (NotSupportedError, ValueError, IndexError) as ex:
            # Gemma 3n has no support for packed batches.
            expect("packed" in str(ex) or c["family"] == "gemma3n", f"unexpected error {ex!r} of a packed batch")
            ctx.label(f"{c['family']}: no packing")
        else:
            b = 0
            for i, a in enumerate(alone):
                same(py[b : b + len(a)], a, f"{c['family']}: sequence {i} in a packed batch and alone")
                b += len(a)
            ctx.label(f"{c['family']}: packed")
        if c["loss"]:
            # The loss of the batch is the sum over its sequences.
            tg, _ = pad([[(7 * v + 3) % V for v in s] for s in seqs], c["extra"], c["fill"])
            mask = torch.zeros(tg.shape, dtype=torch.bool)
            for i, s in enumerate(seqs):
                mask[i, : len(s)] = True
            kw = dict(label_smoothing=c["ls"], reduction="sum")
            tot = m(x, l, tg, target_mask=mask, **kw)
            parts = [m(*single(s), tg[i : i + 1, : len(s)], **kw) for i, s in enumerate(seqs)]
            same(tot, sum(parts), f"{c['family']}: loss of a batch and sum of the losses of its sequences")
            if c["loss"] == 2:
                full, lg = m(x, l, tg, target_mask=mask, return_logits=True, **kw)
                same(full, tot, f"{c['family']}: loss with and without logits")
                expect(torch.equal(lg, y), "logits returned with the loss")
    ctx.label(c["family"], c["sdpa"])
    ctx.nontrivial(len({len(s) for s in seqs}) > 1)


@st.composite
def s2s_cases(draw):
    fam = draw(st.sampled_from(sorted(models.S2S)))
    cfg = draw(models.S2S[fam]())
    n = draw(st.integers(1, 3))
    if fam == "nllb":
        src = [tokens(draw, 10) for _ in range(n)]
    else:
        src = [draw(st.integers(1, 24)) for _ in range(n)]
    return dict(family=fam, cfg=cfg, sdpa=draw(st.sampled_from(["naive", "torch"])), seed=draw(st.integers(0, 2**31)), src=src, tgt=[tokens(draw, 8) for _ in range(n)],
                sx=draw(st.sampled_from([0, 0, 1, 5])), tx=draw(st.sampled_from([0, 0, 1, 3])), fill=draw(st.integers(0, 3)), cut=draw(st.integers(0, 7)), ls=draw(st.sampled_from([0.0, 0.1])))


def s2s(ctx, c):
    m = build(c["family"], c["cfg"], c["sdpa"], c["seed"])
    tgt = c["tgt"]
    nllb = c["family"] == "nllb"
    if nllb:
        src = [torch.tensor(s) for s in c["src"]]
        tail, dt = (), torch.int64
    else:
        g = torch.Generator().manual_seed(c["seed"])
        tail, dt = (c["cfg"]["num_fbank_channels"],), torch.float32
        src = [torch.randn(n, *tail, generator=g) for n in c["src"]]
    with torch.no_grad():
        alone = [m(*single(s), *single(t))[0] for s, t in zip(src, tgt)]
        sx, sl = pad(src, c["sx"], c["fill"], tail, dt)
        tx, tl = pad(tgt, c["tx"], c["fill"])
        y = m(sx, sl, tx, tl)
        for i, a in enumerate(alone):
            same(y[i, : len(a)], a, f"{c['family']}: pair {i} in a padded batch and alone")
        expect(torch.equal(y, m(sx, sl, tx, tl)), "two evaluations differ")
        k = c["cut"] % len(tgt[0])
        t = torch.tensor(tgt[0])
        t[k + 1 :] = other(t[k + 1 :])
        same(m(*single(src[0]), *single(t))[0][: k + 1], alone[0][: k + 1], f"{c['family']}: outputs up to position {k} after changing later tokens")
        tg, _ = pad([[(7 * v + 3) % V for v in s] for s in tgt], c["tx"], c["fill"])
        mask = torch.zeros(tg.shape, dtype=torch.bool)
        for i, s in enumerate(tgt):
            mask[i, : len(s)] = True
        kw = dict(label_smoothing=c["ls"], reduction="sum")
        tot = m(sx, sl, tx, tl, tg, target_mask=mask, **kw)
        parts = [m(*single(s), *single(t), tg[i : i + 1, : len(t)], **kw) for i, (s, t) in enumerate(zip(src, tgt))]
        same(tot, sum(parts), f"{c['family']}: loss of a batch and sum of the losses of its pairs")
        if nllb:
            try:
                ps, psl = packed(src, c["sx"])
                pt, ptl = packed(tgt, c["tx"])
                py = m(ps, psl, pt, ptl)
            except (NotSupportedError, ValueError) as ex:
                expect("packed" in str(ex), f"unexpected error {ex!r} of a packed batch")
            else:
                b = 0
                for i, a in enumerate(alone):
                    same(py[b : b + len(a)], a, f"{c['family']}: pair {i} in a packed batch and alone")
                    b += len(a)
                ctx.label("nllb: packed")
    ctx.label(c["family"], c["sdpa"])
    ctx.nontrivial(len({len(s) for s in src}) > 1 or len({len(t) for t in tgt}) > 1)


@st.composite
def asr_cases(draw):
    ec = draw(models.w2v2_encoder_config(True))
    ec["sample_fbank_every_k"] = 1
    if ec["use_conformer"]:
        ec["norm_order"] = "POST"
    frames = draw(st.lists(st.integers(2, 14), min_size=1, max_size=3))
    return dict(ec=ec, frames=frames, jit=draw(st.lists(st.integers(0, 2), min_size=3, max_size=3)), sdpa=draw(st.sampled_from(["naive", "torch"])), extra=draw(st.sampled_from([0, 0, 1, 7])),
                fill=draw(st.integers(0, 3)), seed=draw(st.integers(0, 2**31)), tgt=[draw(st.lists(st.integers(1, 6), min_size=1, max_size=max(1, f // 2))) for f in frames])


def asr(ctx, c):
    ec = c["ec"]

    def make():
        return create_wav2vec2_asr_model(Wav2Vec2AsrConfig(encoder_config=models.make_config("w2v2_encoder", ec), target_vocab_size=7))

    m = build("asr", None, c["sdpa"], c["seed"], make)
    lens = []
    for f, j in zip(c["frames"], c["jit"]):
        if ec["use_fbank"]:
            lens.append(f * ec["fbank_stride"] + j % ec["fbank_stride"])
        else:
            n = f
            for _, k, s in reversed(ec["feature_extractor_layer_descs"]):
                n = (n - 1) * s + k
            lens.append(n + j % ec["feature_extractor_layer_descs"][0][2])
    tail = (ec["num_fbank_channels"],) if ec["use_fbank"] else ()
    g = torch.Generator().manual_seed(c["seed"])
    src = [torch.randn(n, *tail, generator=g) for n in lens]
    with torch.no_grad():
        alone = [m(*single(s))[0][0] for s in src]
        x, l = pad(src, c["extra"], c["fill"], tail, torch.float32)
        y, yl = m(x, l)
        expect_eq(list(yl.seq_lens), c["frames"], "lengths of the outputs")
        for i, a in enumerate(alone):
            same(y[i, : len(a)], a, f"sequence {i} in a padded batch and alone")
        expect(torch.equal(y, m(x, l)[0]), "two evaluations differ")
        t, tl = pad(c["tgt"], 1, 0)
        t[t == 0] = 3  # the blank must not count as a target
        loss = m(x, l, t, tl)
        parts = [m(*single(s), *single(u)) for s, u in zip(src, c["tgt"])]
        same(loss, sum(parts), "CTC loss of a batch and sum of the losses of its sequences")
    ctx.label(ec["pos_encoder_type"], "fbank" if ec["use_fbank"] else "waveform", "conformer" if ec["use_conformer"] else "transformer")
    ctx.nontrivial(len(set(lens)) > 1)


@st.composite
def vision_cases(draw):
    nd = draw(st.sampled_from([2, 3]))
    patch = [draw(st.integers(1, 3)) for _ in range(nd)]
    grid = [draw(st.integers(1, 3)) for _ in range(nd)]
    h = draw(st.sampled_from([1, 2]))
    return dict(patch=patch, inp=[p * g for p, g in zip(patch, grid)], dim=12 * h, h=h, ch=draw(st.integers(1, 3)), layers=draw(st.integers(1, 2)), bias=draw(st.booleans()),
                cls=draw(st.booleans()), depth=draw(st.integers(1, 2)), proj=draw(st.booleans()), n=draw(st.integers(2, 3)), scale=draw(st.sampled_from([1, 1, 2])),
                up=draw(st.booleans()), sdpa=draw(st.sampled_from(["naive", "torch"])), seed=draw(st.integers(0, 2**31)))


def vision(ctx, c):
    ec = JepaEncoderConfig(model_dim=c["dim"], num_input_channels=c["ch"], input_dims=tuple(c["inp"]), patch_dims=tuple(c["patch"]), num_encoder_layers=c["layers"],
                           num_encoder_attn_heads=c["h"], qkv_bias=c["bias"], uniform_power=c["up"], dropout_p=0.2, droppath_p=0.2, attn_dropout_p=0.1)

    def make():
        if c["cls"]:
            return create_jepa_classifier_model(JepaClassifierConfig(encoder_config=ec, pool_depth=c["depth"], decoder_projection=c["proj"], num_classes=5))
        return create_jepa_model(JepaConfig(encoder_config=ec))

    m = build("jepa", None, c["sdpa"], c["seed"], make)
    dims = [d * c["scale"] for d in c["inp"]]
    x = torch.randn(c["n"], c["ch"], *dims)
    run = lambda v: m(v, BatchLayout.of(v)) if c["cls"] else m(v, BatchLayout.of(v))[0]
    with torch.no_grad():
        y = run(x)
        if not c["cls"]:
            expect_eq(y.shape[1], math.prod(d // p for d, p in zip(dims, c["patch"])), "number of patches")
        for i in range(c["n"]):
            same(y[i], run(x[i : i + 1])[0], f"input {i} in a batch and alone")
        perm = torch.randperm(c["n"])
        same(run(x[perm]), y[perm], "reordered batch")
        expect(torch.equal(run(x), y), "two evaluations differ")
    ctx.nontrivial(y.shape[0] > 1)


main(
    Prop(
        "M03",
        [
            Arm("clm", clm_cases, clm, quick=350, thorough=9000),
            Arm("s2s", s2s_cases, s2s, quick=250, thorough=7000),
            Arm("asr", asr_cases, asr, quick=250, thorough=7000),
            Arm("vision", vision_cases, vision, quick=150, thorough=4000),
        ],
        rule="the sequences of the batch have different lengths (vision: more than one input)",
        assumptions=["equality up to float32 rounding", "wav2vec 2.0 with layer normalised convolutions: group normalisation sees the padding by design"],
    )
)

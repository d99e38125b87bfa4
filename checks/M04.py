"""M04: self-supervised masking, quantisation and feature extraction respect lengths."""
import boot

boot.boot()

import math

import torch
import torch.nn.functional as F
from harness import Arm, KnownFinding, Prop, expect, expect_close, expect_eq, main, raises
from hypothesis import strategies as st
from models import make_config, randomise, w2v2_encoder_config
from torch.nn import Module

# The quantizer compiles a lambda for every call; its meaning is what matters.
torch.compile = lambda *a, **kw: (lambda f: f) if not a or a[0] is None else a[0]

from fairseq2.models.s2t_transformer.feature_extractor import Conv1dFbankSubsampler
from fairseq2.models.w2vbert import W2VBertConfig
from fairseq2.models.w2vbert.factory import W2VBertFactory
from fairseq2.models.wav2vec2 import Wav2Vec2Config
from fairseq2.models.wav2vec2.factory import Wav2Vec2Factory
from fairseq2.models.wav2vec2.feature_extractor import Wav2Vec2FbankFeatureExtractor, Wav2Vec2FeatureExtractor
from fairseq2.models.wav2vec2.masker import StandardWav2Vec2Masker, Wav2Vec2Masker
from fairseq2.models.wav2vec2.model import Wav2Vec2Features, Wav2Vec2Model
from fairseq2.models.wav2vec2.vector_quantizer import (
    GumbelWav2Vec2VectorQuantizer,
    Wav2Vec2VectorQuantizer,
    Wav2Vec2VectorQuantizerOutput,
)
from fairseq2.nn import BatchLayout
from fairseq2.nn.utils.mask import compute_row_mask


def fclose(a, b, msg, rtol=1e-4, atol=1e-6):
    """Compares numbers."""
    expect(abs(float(a) - float(b)) <= atol + rtol * abs(float(b)), f"{msg}: {float(a)} != {float(b)}")


def span_counts(lens, span, prob):
    """The possible numbers of spans: the code computes it in single precision."""
    x = min(prob / span * (n - 1) for n in lens)
    return {math.floor(x * (1 - 1e-6) - 1e-9), math.floor(x * (1 + 1e-6) + 1e-9)}


def runs(row):
    out, n = [], 0
    for v in [*row, False]:
        if v:
            n += 1
        elif n:
            out.append(n)
            n = 0
    return out


def cover(row, span):
    """The least number of spans that cover the masked positions."""
    c, i = 0, 0
    while i < len(row):
        if row[i]:
            c, i = c + 1, i + span
        else:
            i += 1
    return c


def check_mask(mask, shape, lens, span, counts):
    expect_eq(mask.dtype, torch.bool, "dtype of the mask")
    expect_eq(tuple(mask.shape), tuple(shape), "shape of the mask")
    rows = mask.tolist()
    masked = [sum(r) for r in rows]
    if max(counts) == 0 or not rows:
        expect_eq(sum(masked), 0, "masked positions when no span fits")
        return 0
    expect(len(set(masked)) == 1, f"rows have different numbers of masked positions: {masked}")
    for r, n in zip(rows, lens):
        expect(not any(r[n:]), f"positions beyond the length {n} of the row are masked: {r}")
        expect(sum(r) < n, f"every position of a row of length {n} is masked")
        expect(cover(r, span) <= max(counts), f"{r} is no subset of {counts} spans of length {span}")
    if min(counts) >= 1:
        expect(masked[0] >= span, f"only {masked[0]} positions are masked; one span has {span}")
        expect(any(all(k >= span for k in runs(r)) for r in rows), f"no row holds whole spans of length {span}: {rows}")
    return masked[0]


@st.composite
def row_cases(draw):
    span = draw(st.integers(1, 6))
    lens = draw(st.lists(st.one_of(st.integers(span + 1, span + 8), st.integers(2 * span + 2, 60), st.integers(3 * span + 2, 60)), min_size=1, max_size=5))
    if draw(st.integers(0, 9)) == 0:
        lens[draw(st.integers(0, len(lens) - 1))] = draw(st.integers(1, span))
    prob = draw(st.one_of(st.sampled_from([1.0, 0.65, 0.5]), st.floats(0.3, 1.0), st.floats(0.01, 1.0)))
    given = draw(st.booleans())
    if not given:
        lens = [max(lens)] * len(lens)
    top = max(span_counts(lens, span, prob))
    if top < 1 and draw(st.integers(0, 3)) > 0:
        lens, prob = [n + 2 * span for n in lens], max(prob, 0.5)
        top = max(span_counts(lens, span, prob))
    return dict(span=span, lens=lens, prob=prob, given=given, extra=draw(st.integers(0, 5)) if given else 0,
                mins=draw(st.one_of(st.just(0), st.integers(0, max(top, 0)), st.integers(0, max(top, 0)), st.just(max(top, 0) + 1))), seed=draw(st.integers(0, 2**31)), i32=draw(st.booleans()))


def rowmask(ctx, c):
    lens, span = c["lens"], c["span"]
    shape = (len(lens), max(lens) + c["extra"])
    torch.manual_seed(c["seed"])
    t = torch.tensor(lens, dtype=torch.int32 if c["i32"] else torch.int64) if c["given"] else None

    def run():
        return compute_row_mask(shape, span, c["prob"], row_lens=t, min_num_spans=c["mins"], device=torch.device("cpu"))

    if min(lens) <= span:
        raises(ValueError, run, "a row is not longer than the span")
        return
    counts = span_counts(lens, span, c["prob"])
    if c["mins"] > max(counts):
        raises(ValueError, run, "fewer spans fit than required")
        return
    if c["mins"] > min(counts):
        return
    m = run()
    n = check_mask(m, shape, lens, span, counts)
    if t is not None:
        expect_eq(t.tolist(), lens, "the given row lengths were changed")
    torch.manual_seed(c["seed"])
    expect(torch.equal(m, run()), "the same seed gives another mask")
    if n and len(set(lens)) > 1:
        ctx.nontrivial()


@st.composite
def start_cases(draw):
    span = draw(st.integers(1, 5))
    a, b = (draw(st.integers(span + 2, span + 9)) for _ in range(2))
    return span, a, b, draw(st.integers(0, 2**31))


def starts(ctx, case):
    """With one span per row, every start must be possible in every row."""
    span, a, b, seed = case
    prob = min(1.0, 1.2 * span / (min(a, b) - 1))
    lens = [a, b] * 400
    counts = span_counts(lens, span, prob)
    if counts != {1}:
        return
    torch.manual_seed(seed)
    m = compute_row_mask((800, max(a, b)), span, prob, row_lens=torch.tensor(lens))
    seen = {0: set(), 1: set()}
    for i, r in enumerate(m.tolist()):
        p = [j for j, v in enumerate(r) if v]
        expect_eq(p, list(range(p[0], p[0] + span)), "the one span of a row")
        seen[i % 2].add(p[0])
    # A missing start has a probability below 1e-16.
    for i, n in enumerate((a, b)):
        want = set(range(n - span + 1))
        if a == b:
            seen[i] = seen[0] | seen[1]
        expect_eq(seen[i], want, f"starts of spans of length {span} in rows of length {n}")
    ctx.nontrivial(a != b)


@st.composite
def mask_cases(draw):
    c = draw(row_cases())
    c["lens"] = [n if n > c["span"] else n + c["span"] for n in c["lens"]]
    c.update(dim=draw(st.integers(3, 9)), sspan=draw(st.integers(1, 2)), sprob=draw(st.sampled_from([0.0, 0.0, 0.5, 1.0])),
             smin=draw(st.sampled_from([0, 1])), dtype=draw(st.sampled_from(["float32", "float64", "bfloat16"])), mins=min(c["mins"], 1))
    return c


def masker(ctx, c):
    lens, span, dim = c["lens"], c["span"], c["dim"]
    dtype = getattr(torch, c["dtype"])
    width = max(lens) + c["extra"]
    torch.manual_seed(c["seed"])
    m = StandardWav2Vec2Masker(dim, span, c["prob"], c["mins"], c["sspan"], c["sprob"], c["smin"], dtype=torch.float32)
    x = torch.randn(len(lens), width, dim).to(dtype) + 10
    padded = c["given"]
    layout = BatchLayout((len(lens), width), lens if padded else None)
    rl = lens if padded else [width] * len(lens)
    counts = span_counts(rl, span, c["prob"])
    scounts = span_counts([dim], c["sspan"], c["sprob"]) if c["sprob"] > 0 else {0}
    if c["mins"] > max(counts) or (c["sprob"] > 0 and c["smin"] > max(scounts)):
        raises(ValueError, lambda: m(x.clone(), layout), "fewer spans fit than required")
        return
    if c["mins"] > min(counts) or (c["sprob"] > 0 and c["smin"] > min(scounts)):
        return
    with torch.no_grad():
        y, mask = m(x.clone(), layout)
    n = check_mask(mask, (len(lens), width), rl, span, counts)
    expect_eq(y.shape, x.shape, "shape of the masked sequences")
    want = torch.where(mask.unsqueeze(-1), m.temporal_mask_embed.detach().to(dtype), x)
    if c["sprob"] == 0:
        expect(torch.equal(y, want), "masked positions do not hold the mask embedding, or others were changed")
    else:
        # A feature is masked over the whole row or not at all.
        zero = (y == 0).all(dim=1)
        expect(torch.equal(y, want.masked_fill(zero.unsqueeze(1), 0.0)), "the spatial mask changed other values")
        check_mask(zero, (len(lens), dim), [dim] * len(lens), c["sspan"], scounts)
    e = Wav2Vec2Masker.extract_masked_elements(x, mask)
    expect_eq(tuple(e.shape), (len(lens), n, dim), "shape of the extracted elements")
    for i in range(len(lens)):
        expect(torch.equal(e[i], x[i][mask[i]]), "extracted elements are not the masked ones of the row in order")
    raises(ValueError, lambda: m(torch.zeros(5, dim), BatchLayout((5,), [2, 3], packed=True)), "packed input")
    ctx.nontrivial(n > 0 and len(set(lens)) > 1)


class Pass(Wav2Vec2VectorQuantizer):
    """Takes the features as the quantized vectors."""

    def forward(self, x):
        one = torch.tensor(1.0)
        return Wav2Vec2VectorQuantizerOutput(x, x, one * 3, one * 3, 1.0)


def losses(model, out, dw, pw):
    """The documented losses in double precision."""
    lg = out.logits.double()
    n, s = lg.shape[:2]
    con = -(torch.log_softmax(lg, dim=-1)[:, :, 0]).sum()
    total = model.quantizer.num_codebooks * model.quantizer.num_codebook_entries
    div = (total - out.quantizer_output.prob_perplexity.double()) / total * n * s
    pen = out.raw_features.double().pow(2).mean() * n * s
    return con + dw * div + pw * pen, con, div, pen


@st.composite
def contrast_cases(draw):
    n, k = draw(st.integers(1, 4)), draw(st.integers(2, 6))
    dup = draw(st.booleans())
    ids = draw(st.lists(st.integers(0, 3), min_size=n * k, max_size=n * k)) if dup else list(range(n * k))
    return dict(n=n, k=k, ids=ids, extra=draw(st.lists(st.integers(0, 3), min_size=n, max_size=n)),
                l=draw(st.one_of(st.integers(1, 8), st.just(250))), temp=draw(st.sampled_from([1.0, 0.1, 2.0])),
                seed=draw(st.integers(0, 2**31)), dw=draw(st.sampled_from([0.0, 0.1, 3.0])), pw=draw(st.sampled_from([0.0, 10.0])))


def contrast(ctx, c):
    n, k, ids = c["n"], c["k"], c["ids"]
    torch.manual_seed(c["seed"])
    m = Wav2Vec2Model(2, Module(), Module(), Module(), Pass(2, 2, 2, 5, (1.0, 1.0, 1.0)), 2, num_distractors=c["l"], logit_temp=c["temp"])
    with torch.no_grad():
        for lin in (m.final_proj, m.final_target_proj):
            lin.weight.copy_(torch.eye(2))
            if lin.bias is not None:
                lin.bias.zero_()
    angle = lambda i: math.pi * (i + 1) / (max(ids) + 2)
    t = torch.tensor([[math.cos(angle(i)), math.sin(angle(i))] for i in ids]).view(n, k, 2)
    width = k + max(c["extra"])
    g = torch.Generator().manual_seed(c["seed"])
    mask = torch.zeros(n, width, dtype=torch.bool)
    for i in range(n):
        mask[i, torch.randperm(width, generator=g)[:k]] = True
    # Masked outputs point to (1, 0); the rest must not matter.
    enc = torch.randn(n, width, 2, generator=g)
    enc[mask] = torch.tensor([1.0, 0.0]) * (torch.rand(n * k, 1, generator=g) + 0.5)
    raw = torch.randn(n, width, 3, generator=g)
    with torch.no_grad():
        out = m.quantize_and_contrast(Wav2Vec2Features(enc, BatchLayout((n, width), None), t, mask, raw))
        loss = m.compute_loss(out, diversity_weight=c["dw"], features_penalty_weight=c["pw"])
    expect_eq(tuple(out.logits.shape), (n, k, c["l"] + 1), "shape of the logits")
    expect_eq(out.num_targets, n * k, "number of targets")
    cosines = {i: math.cos(angle(i)) for i in set(ids)}
    seen = False
    for i in range(n):
        row = ids[i * k : (i + 1) * k]
        for s in range(k):
            v = (out.logits[i, s] * c["temp"]).tolist()
            fclose(v[0], cosines[row[s]], "the first logit is not the one of the own target", rtol=0, atol=1e-4)
            others = {row[j] for j in range(k) if j != s}
            got = set()
            for q in v[1:]:
                if q == -math.inf:
                    got.add(row[s])
                    continue
                who = min(cosines, key=lambda z: abs(cosines[z] - q))
                expect(abs(cosines[who] - q) < 1e-4, f"a logit {q} belongs to no target")
                expect(who != row[s], "a distractor equal to the target is not excluded")
                got.add(who)
            expect(got <= others, f"distractors {got} of position {s} are not other masked positions of its row {row}")
            if c["l"] == 250:
                expect_eq(got, others, "distractors never drawn")
                seen = True
    for a, b, w in zip((loss.aggregate, loss.contrastive, loss.diversity, loss.features_penalty), losses(m, out, c["dw"], c["pw"]),
                       ("aggregate", "contrastive", "diversity", "features penalty")):
        fclose(float(a), float(b), f"{w} loss", rtol=1e-4, atol=1e-4)
    ctx.nontrivial(seen or len(set(ids)) < len(ids))


@st.composite
def quant_cases(draw):
    g = draw(st.integers(1, 3))
    mx = draw(st.sampled_from([2.0, 1.0]))
    return dict(g=g, v=draw(st.integers(1, 5)), e=draw(st.integers(1, 3)), i=draw(st.integers(1, 4)), n=draw(st.integers(1, 3)),
                s=draw(st.integers(1, 5)), temps=(mx, draw(st.sampled_from([0.5, 1e-3])), draw(st.sampled_from([1.0, 0.9, 0.5]))),
                hist=draw(st.lists(st.sampled_from(["train", "train", "eval", "save", "load"]), min_size=1, max_size=10)), seed=draw(st.integers(0, 2**31)))


def quantizer(ctx, c):
    g, v, e = c["g"], c["v"], c["e"]
    torch.manual_seed(c["seed"])
    make = lambda: GumbelWav2Vec2VectorQuantizer(c["i"], g * e, g, v, c["temps"])
    q = make()
    mx, mn, dec = c["temps"]
    updates, saved = 0, None
    for op in c["hist"]:
        if op == "save":
            saved = ({k: t.clone() for k, t in q.state_dict().items()}, updates)
            continue
        if op == "load":
            if saved is not None:
                q = make()
                q.load_state_dict(saved[0])
                updates = saved[1]
                ctx.nontrivial(updates > 0)
            continue
        q.train(op == "train")
        x = torch.randn(c["n"], c["s"], c["i"])
        with torch.no_grad():
            out = q(x)
            ent = q.entries.view(g, v, e)
            lg = q.entry_proj(x).view(-1, g, v)
        fclose(out.temperature, max(mx * dec**updates, mn), f"temperature after {updates} updates", rtol=1e-6)
        if op == "train":
            updates += 1
        cb = out.cb.view(-1, g, v)
        expect(bool(((cb == 1).sum(-1) == 1).all()) and bool(((cb == 0).sum(-1) == v - 1).all()), "more or fewer than one entry of a codebook is chosen")
        idx = cb.argmax(-1)
        if op == "eval":
            expect(torch.equal(idx, lg.argmax(-1)), "the chosen entry has not the highest score")
        want = torch.stack([torch.cat([ent[j, k] for j, k in enumerate(r)]) for r in idx.tolist()]).view(c["n"], c["s"], g * e)
        expect_close(out.quantized_vectors, want, "quantized vectors are not the chosen entries", rtol=1e-5, atol=1e-6)
        probs = torch.softmax(lg.double(), -1).mean(0)
        hard = F.one_hot(lg.argmax(-1), v).double().mean(0)
        for got, p, w in ((out.prob_perplexity, probs, "probability"), (out.code_perplexity, hard, "code")):
            fclose(float(got), float(torch.exp(-(p * torch.log(p + 1e-7)).sum(-1)).sum()), f"{w} perplexity", rtol=1e-4)
    expect_eq(int(q.num_updates), updates, "number of updates")


def chain(descs, n):
    for _, k, s in descs:
        n = (n - k) // s + 1
    return n


@st.composite
def extract_cases(draw):
    kind = draw(st.sampled_from(["wave", "wave", "fbank", "s2t"]))
    c = dict(kind=kind, seed=draw(st.integers(0, 2**31)), extra=draw(st.integers(0, 5)), fill=draw(st.sampled_from([0.0, 1e3, -7.0])), tight=draw(st.booleans()))
    if kind == "wave":
        c.update(descs=[(draw(st.integers(1, 4)), draw(st.integers(1, 5)), draw(st.integers(1, 3))) for _ in range(draw(st.integers(1, 4)))],
                 bias=draw(st.booleans()), ch=draw(st.sampled_from([1, 1, 2])), ln=draw(st.sampled_from([True, True, False])), scale=draw(st.sampled_from([1.0, 0.1])),
                 three=draw(st.booleans()))
        low = 1
        while chain(c["descs"], low) < 1:
            low += 1
        for n in range(low, low + 200):  # integer division of negative numbers may jump back
            m, ok = n, True
            for _, k, s in c["descs"]:
                ok, m = ok and m >= k, (m - k) // s + 1
            if ok:
                low = n
                break
    elif kind == "fbank":
        c.update(stride=draw(st.integers(1, 4)), ch=draw(st.integers(1, 3)), every=draw(st.sampled_from([0, 1, 1, 1, 2, 3])))
        low = c["stride"]
    else:
        c.update(ch=draw(st.integers(1, 3)), inner=draw(st.sampled_from([2, 4])), out=draw(st.integers(1, 3)), kernels=draw(st.lists(st.integers(1, 5), min_size=1, max_size=3)))
        low = 1
    if kind == "wave" and not c["ln"]:
        low += c["descs"][0][2]  # group normalisation needs two values
    c["lens"] = draw(st.lists(st.one_of(st.integers(low, low + 6), st.integers(low, low + 60)), min_size=1, max_size=4))
    return c


def extractor(ctx, c):
    kind, lens = c["kind"], c["lens"]
    torch.manual_seed(c["seed"])
    if kind == "wave":
        m = Wav2Vec2FeatureExtractor(c["descs"], c["bias"], num_channels=c["ch"], layer_norm=c["ln"], grad_scale=c["scale"])
        shape = (c["ch"],) if c["ch"] > 1 or c["three"] else ()
    elif kind == "fbank":
        m = Wav2Vec2FbankFeatureExtractor(c["ch"], c["stride"], sample_every_k=c["every"])
        shape = (c["ch"],)
    else:
        m = Conv1dFbankSubsampler(c["ch"], c["inner"], c["out"], kernel_sizes=c["kernels"])
        shape = (c["ch"],)
    randomise(m, c["seed"] % 1000)
    m = m.double()
    xs = [torch.randn(n, *shape, dtype=torch.float64) for n in lens]
    width = max(lens) + (0 if c["tight"] else c["extra"])
    batch = torch.full((len(lens), width, *shape), c["fill"], dtype=torch.float64)
    for i, x in enumerate(xs):
        batch[i, : len(x)] = x
    if kind == "fbank" and c["every"] > 1:
        # Known: frames are not sampled, whole sequences of the batch are dropped.
        try:
            y, _ = m(batch.clone(), BatchLayout((len(lens), width), lens))
            n = len(y)
        except ValueError:
            n = -1
        if n != len(lens):
            raise KnownFinding("fbank-sample-every-k", "Wav2Vec2FbankFeatureExtractor with `sample_every_k` > 1 drops sequences of the batch")
        return
    with torch.no_grad():
        alone = []
        for x in xs:
            y, l = m(x.unsqueeze(0).clone(), BatchLayout((1, len(x)), None))
            expect_eq(list(l.seq_lens), [y.size(1)], "length of the features of a sequence alone")
            alone.append(y[0])
        y, l = m(batch.clone(), BatchLayout((len(lens), width), lens))
    expect_eq(l.width, y.size(1), "width of the layout of the features")
    expect_eq(list(l.seq_lens), [len(a) for a in alone], f"lengths of the features of {lens}")
    if kind != "wave" or c["ln"]:  # group normalisation sees the padding
        for i, a in enumerate(alone):
            expect_close(y[i, : len(a)], a, "features of a sequence in a padded batch and alone", rtol=1e-7, atol=1e-9)
    packed = BatchLayout((width,), [width], packed=True)
    raises(ValueError, lambda: m(batch[:1], packed), "packed input")
    ctx.nontrivial(len(set(lens)) > 1 or width > max(lens))


@st.composite
def model_cases(draw):
    ec = draw(w2v2_encoder_config(True))
    bert = draw(st.booleans())
    ec.update(dropout_p=0.0, attn_dropout_p=0.0, layer_drop_p=0.0)
    if ec["use_conformer"]:
        ec["norm_order"] = "POST"
    if ec["use_fbank"]:
        ec["sample_fbank_every_k"] = 1
    if bert:
        ec.update(num_encoder_layers=draw(st.integers(2, 3)))
    g = draw(st.integers(1, 3))
    frames = draw(st.lists(st.integers(6, 16), min_size=1, max_size=3))
    return dict(ec=ec, bert=bert, g=g, v=draw(st.integers(2, 4)), frames=frames, jit=draw(st.lists(st.integers(0, 2), min_size=3, max_size=3)), span=draw(st.integers(1, 3)),
                l=draw(st.integers(1, 5)), temp=draw(st.sampled_from([1.0, 0.1])), layers=draw(st.integers(1, 2)), tg=draw(st.integers(1, 3)),
                ls=draw(st.sampled_from([0.0, 0.1])), w=draw(st.sampled_from([1.0, 0.5])), seed=draw(st.integers(0, 2**31)), train=draw(st.booleans()), qgrad=draw(st.booleans()))


def whole(ctx, c):
    ec = c["ec"]
    cfg = Wav2Vec2Config(
        encoder_config=make_config("w2v2_encoder", ec), final_dim=4, temporal_mask_span_len=c["span"], max_temporal_mask_prob=0.7,
        min_num_temporal_mask_spans=0 if c["span"] > 2 else 1, quantized_dim=6, num_codebooks=c["g"], num_codebook_entries=c["v"],
        num_distractors=c["l"], logit_temp=c["temp"], quantizer_encoder_grad=c["qgrad"],
    )
    torch.manual_seed(c["seed"])
    if c["bert"]:
        nl = min(c["layers"], ec["num_encoder_layers"] - 1)
        tg = min(c["tg"], c["g"])
        model = W2VBertFactory(W2VBertConfig(w2v2_config=cfg, num_bert_encoder_layers=nl, num_target_codebooks=tg)).create_model()
        w = model.w2v2_model
    else:
        model = w = Wav2Vec2Factory(cfg).create_model()
    randomise(model, c["seed"] % 1000)
    model.train(c["train"])
    lens = []
    for f, j in zip(c["frames"], c["jit"]):
        if ec["use_fbank"]:
            lens.append(f * ec["fbank_stride"] + j % ec["fbank_stride"])
        else:
            n = f
            for _, k, s in reversed(ec["feature_extractor_layer_descs"]):
                n = (n - 1) * s + k
            lens.append(n + j % ec["feature_extractor_layer_descs"][0][2])
    width = max(lens)
    x = torch.randn(len(lens), width, *((ec["num_fbank_channels"],) if ec["use_fbank"] else ()))
    counts = span_counts(c["frames"], c["span"], 0.7)
    if max(counts) < 1 or len(counts) > 1:
        return
    outs = []
    feats = []
    real = w.quantize_and_contrast
    w.quantize_and_contrast = lambda f: (feats.append(f), real(f))[1]
    seen = []
    qx = []
    tops = []
    w.encoder.register_forward_hook(lambda m, a, o: tops.append(o))
    w.quantizer.register_forward_pre_hook(lambda m, a: qx.append(a[0]))
    w.encoder_frontend.post_extract_layer_norm.register_forward_hook(lambda m, a, o: seen.append(o.detach().clone()))
    layout = BatchLayout((len(lens), width), lens)
    kw = dict(bert_weight=c["w"], bert_label_smoothing=c["ls"], w2v2_weight=2.0) if c["bert"] else {}
    with w.encoder.register_layer_hook(lambda i, o, l, n: (outs.append(o), True)[1]):
        try:
            loss, out = model(x, layout, **kw)
        except RuntimeError as ex:
            if c["span"] == 1 and "randint" in str(ex) or "from to" in str(ex) or "random_" in str(ex):
                return  # one masked position has no distractors
            raise
    wo = out.w2v2_output if c["bert"] else out
    wl = loss.w2v2 if c["bert"] else loss
    n = check_mask(wo.temporal_mask, (len(lens), seen[0].size(1)), c["frames"], c["span"], counts)
    expect_eq(wo.num_targets, n * len(lens), "number of targets")
    expect(torch.equal(qx[0].detach(), torch.stack([s[m] for s, m in zip(seen[0], wo.temporal_mask)])), "quantized targets are not the unmasked features at the masked positions")
    expect_eq(qx[0].requires_grad, c["qgrad"], "whether targets pass gradients to the encoder")
    expect_eq(list(wo.encoder_output_layout.seq_lens), c["frames"], "lengths of the encoder output")
    want = losses(w, wo, 0.1, 10.0)
    for a, b, nm in zip((wl.aggregate, wl.contrastive, wl.diversity, wl.features_penalty), want, ("aggregate", "contrastive", "diversity", "features penalty")):
        fclose(float(a.detach()), float(b.detach()), f"{nm} loss", rtol=1e-4, atol=1e-4)
    if not c["bert"]:
        expect(torch.isfinite(wl.aggregate).item(), "the loss is not finite")
        ctx.nontrivial(len(set(lens)) > 1)
        return
    expect(torch.equal(wo.encoder_output, outs[ec["num_encoder_layers"] - nl - 1]), "wav2vec 2.0 output is not the one of the last layer below the BERT layers")
    idx = wo.quantizer_output.cb.view(-1, c["g"], c["v"]).argmax(-1)[:, :tg]
    expect(torch.equal(out.bert_targets.view(-1, tg), idx), "BERT targets are not the codes of the masked positions")
    top = torch.cat([o[m] for o, m in zip(tops[-1], wo.temporal_mask)])
    lg = model.final_bert_proj(top).view(-1, c["v"], tg)
    expect_close(out.bert_logits, lg, "BERT logits are not those of the masked positions", rtol=1e-5, atol=1e-6)
    lp = torch.log_softmax(lg.double(), dim=1)
    nll = -lp.gather(1, idx.unsqueeze(1)).sum()
    if c["ls"]:
        eps = c["ls"] / (c["v"] - 1)
        nll = (1 - c["ls"] - eps) * nll - eps * lp.sum()
    fclose(float(loss.bert.detach()), float(nll.detach()), "BERT loss", rtol=1e-4, atol=1e-4)
    fclose(float(loss.aggregate.detach()), float((c["w"] * nll + 2.0 * want[0]).detach()), "aggregate loss", rtol=1e-4, atol=1e-3)
    ctx.nontrivial(len(set(lens)) > 1 or tg < c["g"])


main(
    Prop(
        "M04",
        [
            Arm("rowmask", row_cases, rowmask, quick=1500, thorough=40000),
            Arm("starts", start_cases, starts, quick=60, thorough=1500),
            Arm("masker", mask_cases, masker, quick=800, thorough=20000),
            Arm("contrast", contrast_cases, contrast, quick=300, thorough=8000),
            Arm("quantizer", quant_cases, quantizer, quick=400, thorough=10000),
            Arm("extractor", extract_cases, extractor, quick=800, thorough=20000),
            Arm("whole", model_cases, whole, quick=200, thorough=5000),
        ],
        rule="rowmask/masker: rows of different lengths with masked positions; starts: two different lengths; contrast: every distractor enumerated or equal targets; "
        "quantizer: restored after an update; extractor: different lengths or padding; whole: different lengths or fewer target codebooks than codebooks",
        assumptions=[
            "single precision decides the number of spans when probability x length / span is within 1e-6 of an integer",
            "sequences are long enough for the convolutions and the mask span; at least two positions are masked (one has no distractor)",
            "torch.compile is replaced by the identity (the check judges what the quantizer computes, not the compiler)",
        ],
    )
)

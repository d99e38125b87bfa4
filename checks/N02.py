"""N02: decoding piece by piece with cached state equals one full pass."""
import boot

boot.boot(init=True)

import models
import torch
from harness import Arm, Prop, expect, expect_close, expect_eq, main
from hypothesis import strategies as st

from fairseq2.models.olmo.attention import OLMOMultiheadAttention
from fairseq2.models.transformer import (
    AttentionBiasCache,
    CausalAttentionBias,
    ChunkedAttentionBias,
    FullAttentionState,
    IdentityBias,
    LocalAttentionState,
    LocalAttentionStateFactory,
    StandardMultiheadAttention,
    StaticAttentionState,
)
from fairseq2.models.transformer.sdpa.naive import NaiveSDPA
from fairseq2.models.transformer.sdpa.torch import TorchSDPA
from fairseq2.nn import (
    BatchLayout,
    IncrementalStateBag,
    LearnedPositionEncoder,
    ReferenceRotaryEncoder,
    RMSNorm,
    RotaryEncoder,
    SinusoidalPositionEncoder,
)

F64 = torch.float64


@st.composite
def plans(draw, max_total=14, max_batch=3):
    """Chunks with a batch reorder (or none) before each but the first."""
    n = draw(st.integers(1, max_batch))
    shape = draw(st.sampled_from(["ones", "prefill", "any", "any"]))
    total = draw(st.sampled_from([x for x in (1, 2, 3, 4, 5, 6, 8, 10, 12, 14, 16, 18) if x <= max_total]))
    chunks = []
    while sum(chunks) < total:
        left = total - sum(chunks)
        if shape == "ones" or (shape == "prefill" and chunks):
            chunks.append(1)
        else:
            chunks.append(draw(st.integers(1, left)))
    steps = []
    b = n
    for i, c in enumerate(chunks):
        order = None
        if i and draw(st.integers(0, 2)) == 0:
            kind = draw(st.sampled_from(["perm", "dup", "any"]))
            if kind == "perm":
                order = draw(st.permutations(range(b)))
            elif kind == "dup":
                order = draw(st.lists(st.integers(0, b - 1), min_size=b, max_size=b))
            else:
                order = draw(st.lists(st.integers(0, b - 1), min_size=1, max_size=4))
            b = len(order)
        steps.append((c, None if order is None else list(order)))
    return dict(n=n, steps=steps, inc=draw(st.sampled_from([None, 1, 2, 3, 16])), slack=draw(st.sampled_from([1, 1, 5])))


def classify(ctx, plan):
    cs = [c for c, _ in plan["steps"]]
    os = [o for _, o in plan["steps"] if o is not None]
    ctx.label(*(["multi-token append"] if any(c > 1 for c in cs[1:]) else []), *(["reorder"] if os else []),
              *(["reorder, new size"] if any(len(o) != plan["n"] for o in os) else []), "steps>1" if len(cs) > 1 else "one step")
    ctx.nontrivial(len(cs) > 1 and (os or any(c > 1 for c in cs[1:]) or len(cs) > 4))


def bag_for(plan):
    return IncrementalStateBag(sum(c for c, _ in plan["steps"]) + plan["slack"], capacity_increment=plan["inc"])


@st.composite
def state_cases(draw):
    return dict(kind=draw(st.sampled_from(["full", "local", "local", "static"])), W=draw(st.integers(1, 7)),
                plan=draw(plans()), H=draw(st.integers(1, 2)), K=draw(st.integers(1, 2)), V=draw(st.integers(1, 2)))


def states(ctx, c):
    """Key/value state against plain lists."""
    plan = c["plan"]
    H, K, V = c["H"], c["K"], c["K"]
    total = sum(n for n, _ in plan["steps"])
    num = iter(range(1, 10**9))

    def new(b, n):
        k = torch.tensor([[[[next(num) for _ in range(K)] for _ in range(H)] for _ in range(n)] for _ in range(b)], dtype=torch.float64)
        return k, k[..., :V] + 0.5

    b = plan["n"]
    k, v = new(b, plan["steps"][0][0])
    hk, hv = [list(x) for x in k], [list(x) for x in v]
    mx = total + plan["slack"]
    if c["kind"] == "full":
        s = FullAttentionState(k, v, mx, plan["inc"])
    elif c["kind"] == "local":
        s = LocalAttentionState(k, v, mx, c["W"], plan["inc"])
    else:
        s = StaticAttentionState(k, v, mx, plan["inc"])
    classify(ctx, plan)
    ctx.label(c["kind"])
    for n, order in plan["steps"][1:]:
        if order is not None:
            s.reorder(torch.tensor(order))
            hk, hv = [list(hk[i]) for i in order], [list(hv[i]) for i in order]
            b = len(order)
        if c["kind"] != "static":
            k, v = new(b, n)
            s.append(k, v)
            for i in range(b):
                hk[i] += list(k[i])
                hv[i] += list(v[i])
        have = len(hk[0])
        need = have if c["kind"] != "local" else min(have, c["W"] - 1 + n)
        gk, gv = s.get()
        for name, got, hist in (("keys", gk, hk), ("values", gv, hv)):
            expect_eq(got.size(0), b, f"{name}: batch size")
            m = got.size(1)
            expect(need <= m <= have, lambda: f"{name}: {m} of {have} positions held, {need} needed")
            exp = torch.stack([torch.stack(h[have - m :]) for h in hist])
            expect(torch.equal(got, exp), lambda: f"{name} of the state: got {got[..., 0, 0].tolist()}, expected {exp[..., 0, 0].tolist()}")
        expect(0 < s.size_bytes() <= s.capacity_bytes(), f"size {s.size_bytes()}, capacity {s.capacity_bytes()}")


@st.composite
def mha_cases(draw):
    h, kv, d = draw(models.heads())
    bias = draw(st.sampled_from(["causal", "window", "chunk", "cross"]))
    return dict(h=h, kv=kv, d=d, bias=bias, arg=draw(st.integers(1, 6)), local=draw(st.booleans()), olmo=draw(st.integers(0, 3)) == 0,
                sdpa=draw(st.sampled_from(["naive", "torch"])), pos=draw(st.sampled_from([None, "rope", "ref", "sin", "learned"])),
                norm=draw(st.booleans()), src=draw(st.lists(st.integers(1, 6), min_size=4, max_size=4)),
                plan=draw(plans()), seed=draw(st.integers(0, 10**6)), given_layout=draw(st.booleans()))


def mha(ctx, c):
    plan = c["plan"]
    M = c["h"] * c["d"]
    total = sum(n for n, _ in plan["steps"])
    g = torch.Generator().manual_seed(c["seed"])
    bias = {"causal": lambda: CausalAttentionBias(), "window": lambda: CausalAttentionBias(attn_window_len=c["arg"]),
            "chunk": lambda: ChunkedAttentionBias(c["arg"]), "cross": lambda: IdentityBias()}[c["bias"]]()
    sdpa = (NaiveSDPA if c["sdpa"] == "naive" else TorchSDPA)(bias)
    L = total + 3
    pos = {None: lambda: None, "rope": lambda: RotaryEncoder(c["d"], L), "ref": lambda: ReferenceRotaryEncoder(c["d"], L),
           "sin": lambda: SinusoidalPositionEncoder(c["d"], L), "learned": lambda: LearnedPositionEncoder(c["d"], L)}[c["pos"]]()
    olmo = c["olmo"] and c["bias"] != "cross" and c["pos"] in (None, "ref")
    sf = LocalAttentionStateFactory(c["arg"]) if c["bias"] == "window" and c["local"] else None
    if olmo:
        qn = RMSNorm(M, bias=False) if c["norm"] else None
        kn = RMSNorm(c["kv"] * c["d"], bias=False) if c["norm"] else None
        m = OLMOMultiheadAttention(M, c["h"], sdpa, num_key_value_heads=c["kv"], rope_encoder=pos, q_norm=qn, k_norm=kn, state_factory=sf)
    else:
        cross = c["bias"] == "cross"
        qn = RMSNorm(c["d"], bias=False) if c["norm"] else None
        kn = RMSNorm(c["d"], bias=False) if c["norm"] else None
        m = StandardMultiheadAttention(M, c["h"], sdpa, num_key_value_heads=c["kv"], pos_encoder=None if cross else pos,
                                       q_norm=qn, k_norm=kn, state_factory=sf)
    models.randomise(m, c["seed"])
    m.double().eval()
    classify(ctx, plan)
    ctx.label(c["bias"], *(["olmo"] if olmo else []), *(["local state"] if sf else []))
    b = plan["n"]
    hist = torch.zeros(b, 0, M, dtype=F64)
    src = slens = None
    if c["bias"] == "cross":
        slens = c["src"][:b]
        src = torch.randn(b, max(slens), M, generator=g, dtype=F64)
    bag = bag_for(plan)
    with torch.no_grad():
        for n, order in plan["steps"]:
            if order is not None:
                bag.reorder(torch.tensor(order))
                hist = hist[order]
                b = len(order)
                if src is not None:
                    src, slens = src[order], [slens[i] for i in order]
            x = torch.randn(b, n, M, generator=g, dtype=F64)
            hist = torch.cat([hist, x], 1)
            lay = BatchLayout((b, n), [n] * b) if c["given_layout"] else BatchLayout.of(x)
            if src is None:
                y = m(x, lay, x, lay, x, AttentionBiasCache(), state_bag=bag)
                f = m(hist, BatchLayout.of(hist), hist, BatchLayout.of(hist), hist, AttentionBiasCache())
            else:
                sl = BatchLayout(src.shape[:2], slens)
                y = m(x, lay, src, sl, src, AttentionBiasCache(), state_bag=bag)
                f = m(hist, BatchLayout.of(hist), src, sl, src, AttentionBiasCache())
            bag.increment_step_nr(n)
            expect_close(y, f[:, -n:], f"output of positions {hist.size(1) - n}..{hist.size(1) - 1}", atol=1e-5)


@st.composite
def clm_cases(draw, families=tuple(models.CLM)):
    f = draw(st.sampled_from(families))
    return dict(family=f, config=draw(models.CLM[f]()), plan=draw(plans(max_total=18)), seed=draw(st.integers(0, 10**6)),
                given_layout=draw(st.booleans()))


def clm(ctx, c):
    plan = c["plan"]
    m = models.randomise(models.make_model(c["family"], c["config"]), c["seed"]).double().eval()
    g = torch.Generator().manual_seed(c["seed"])
    b = plan["n"]
    hist = torch.zeros(b, 0, dtype=torch.int64)
    bag = bag_for(plan)
    classify(ctx, plan)
    ctx.label(c["family"])
    with torch.no_grad():
        for n, order in plan["steps"]:
            if order is not None:
                bag.reorder(torch.tensor(order))
                hist = hist[order]
                b = len(order)
            x = torch.randint(4, models.VOCAB, (b, n), generator=g)
            hist = torch.cat([hist, x], 1)
            lay = BatchLayout((b, n), [n] * b) if c["given_layout"] else BatchLayout.of(x)
            y = m(x, lay, state_bag=bag)
            f = m(hist, BatchLayout.of(hist))
            bag.increment_step_nr(n)
            scale = max(1.0, f.abs().max().item())
            expect_close(y / scale, f[:, -n:] / scale, f"{c['family']}: logits of positions {hist.size(1) - n}..{hist.size(1) - 1}", atol=2e-5)


@st.composite
def s2s_cases(draw):
    f = draw(st.sampled_from(list(models.S2S)))
    return dict(family=f, config=draw(models.S2S[f]()), plan=draw(plans()), seed=draw(st.integers(0, 10**6)),
                src=draw(st.lists(st.integers(1, 9), min_size=3, max_size=3)), padded=draw(st.booleans()))


def s2s(ctx, c):
    plan = c["plan"]
    f = c["family"]
    m = models.randomise(models.make_model(f, c["config"]), c["seed"]).double().eval()
    g = torch.Generator().manual_seed(c["seed"])
    b = plan["n"]
    if c["padded"]:
        lens = c["src"][:b]
    else:
        lens = [c["src"][0]] * b
    shape = (b, max(lens))
    src = torch.randint(4, models.VOCAB, shape, generator=g) if f == "nllb" else torch.randn(*shape, c["config"]["num_fbank_channels"], generator=g, dtype=torch.float64)
    hist = torch.zeros(b, 0, dtype=torch.int64)
    bag = bag_for(plan)
    classify(ctx, plan)
    ctx.label(f, *(["padded source"] if len(set(lens)) > 1 else []))
    with torch.no_grad():
        for n, order in plan["steps"]:
            src_now, lens_now = src, lens
            if order is not None:
                bag.reorder(torch.tensor(order))
                hist = hist[order]
                src, lens = src[order], [lens[i] for i in order]
                b = len(order)
            x = torch.randint(4, models.VOCAB, (b, n), generator=g)
            hist = torch.cat([hist, x], 1)
            sl = BatchLayout((b, src.size(1)), lens if c["padded"] else None)
            y = m(src, sl, x, BatchLayout.of(x), state_bag=bag)
            full = m(src, sl, hist, BatchLayout.of(hist))
            bag.increment_step_nr(n)
            scale = max(1.0, full.abs().max().item())
            expect_close(y / scale, full[:, -n:] / scale, f"{f}: logits of positions {hist.size(1) - n}..{hist.size(1) - 1}", atol=2e-5)


main(Prop(
    "N02",
    arms=[
        Arm("states", state_cases, states, quick=1500, thorough=40000, timeout=60),
        Arm("attention", mha_cases, mha, quick=900, thorough=20000, timeout=100),
        Arm("clm", clm_cases, clm, quick=400, thorough=8000, timeout=120),
        Arm("gemma3n", lambda: clm_cases(("gemma3n",)), clm, quick=120, thorough=3000, timeout=120),
        Arm("windowed", lambda: clm_cases(("mistral", "olmo", "llama4")), clm, quick=300, thorough=6000, timeout=120),
        Arm("seq2seq", s2s_cases, s2s, quick=250, thorough=5000, timeout=120),
    ],
    rule="at least two decoding steps with a reorder of the batch, an append of several tokens, or more than four steps",
    assumptions=[
        "CPU, float64 (rotary encodings in float32), evaluation mode, dropout inactive; tiny models with all parameters random",
        "rows of a decoding batch have equal lengths (padded input is rejected by the attention modules)",
    ],
))

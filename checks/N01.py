"""N01: attention of a sequence is independent of how it is batched and equals its formula."""
import boot

boot.boot()

import math

import torch
from harness import Arm, Prop, Violation, expect, expect_close, main
from hypothesis import strategies as st

from fairseq2.models.olmo.attention import OLMOMultiheadAttention
from fairseq2.models.transformer import (
    ALiBiAttentionBias,
    AttentionBiasCache,
    AttentionWeightStoreHook,
    CausalAttentionBias,
    ChunkedAttentionBias,
    IdentityBias,
    StandardMultiheadAttention,
)
from fairseq2.models.transformer.sdpa.naive import NaiveSDPA
from fairseq2.models.transformer.sdpa.relative import RelativePositionalEncoding, RelativePositionSDPA
from fairseq2.models.transformer.sdpa.shaw import ShawRelativePositionSDPA
from fairseq2.models.transformer.sdpa.soft_capped import SoftCappedSDPA
from fairseq2.models.transformer.sdpa.torch import TorchSDPA
from fairseq2.nn import BatchLayout, RMSNorm, RotaryEncoder, StandardLayerNorm

F64 = torch.float64


def make_bias(b, H):
    k, a = b
    if k == "id":
        return IdentityBias()
    if k == "causal":
        return CausalAttentionBias(attn_window_len=a)
    if k == "chunk":
        return ChunkedAttentionBias(attn_chunk_size=a)
    return ALiBiAttentionBias(H)


def ref_bias(b, H, q, k):
    """(H, q, k) of float64."""
    kind, a = b
    t = torch.zeros(H, q, k, dtype=F64)
    for i in range(q):
        p = i + k - q
        for j in range(k):
            if kind == "causal":
                ok = j <= p and (a is None or j > p - a)
            elif kind == "chunk":
                ok = j <= p and j // a == p // a
            elif kind == "alibi":
                ok = j <= p
            else:
                ok = True
            if not ok:
                t[:, i, j] = -math.inf
            elif kind == "alibi":
                for h in range(H):
                    t[h, i, j] = j * 2.0 ** (-8.0 * (h + 1) / H)
    return t


def ref_attn(q, k, v, b, scale=None, cap=None, extra=None):
    """One sequence: (S,H,K), (T,H,K), (T,H,V) -> (S,H,V), (H,S,T)."""
    q, k, v = q.to(F64), k.to(F64), v.to(F64)
    H = q.size(1)
    w = torch.einsum("shk,thk->hst", q, k) * (q.size(-1) ** -0.5 if scale is None else scale)
    if cap is not None:
        w = torch.tanh(w / cap) * cap
    if extra is not None:
        w = w + extra
    w = w + ref_bias(b, H, q.size(0), k.size(0))
    w = torch.softmax(w, -1)
    return torch.einsum("hst,thv->shv", w, v), w


def gen(seed):
    g = torch.Generator().manual_seed(seed)
    return lambda *s: torch.randn(*s, generator=g, dtype=F64)


def pack(seqs, form, extra, dtype, junk):
    """Builds the batch; returns the tensor, its layout and the place of each sequence."""
    lens = [x.size(0) for x in seqs]
    rest = seqs[0].shape[1:]
    if form == "packed":
        W = sum(lens) + extra
        t = junk(W, *rest).to(dtype)
        pos, at = [], 0
        for x in seqs:
            t[at : at + x.size(0)] = x.to(dtype)
            pos.append((slice(at, at + x.size(0)),))
            at += x.size(0)
        return t, BatchLayout((W,), lens, packed=True), pos
    W = max(lens) + extra
    t = junk(len(seqs), W, *rest).to(dtype)
    pos = []
    for i, x in enumerate(seqs):
        t[i, : x.size(0)] = x.to(dtype)
        pos.append((i, slice(0, x.size(0))))
    given = None if all(n == W for n in lens) else lens
    return t, BatchLayout((len(seqs), W), given), pos


BIAS = st.one_of(
    st.just(("id", None)), st.just(("causal", None)), st.tuples(st.just("causal"), st.integers(1, 6)),
    st.tuples(st.just("chunk"), st.integers(1, 5)), st.just(("alibi", None)),
)
LENS = st.lists(st.integers(1, 7), min_size=1, max_size=4) | st.lists(st.just(1), min_size=1, max_size=4)


@st.composite
def sdpa_cases(draw):
    impl = draw(st.sampled_from(["naive", "torch", "naive", "torch", "cap", "shaw", "shaw_v", "rel"]))
    b = draw(BIAS)
    klens = draw(LENS)
    if impl == "rel" or b[0] == "chunk":
        qlens = klens
    elif b[0] == "id" and impl in ("naive", "torch", "cap"):
        qlens = draw(st.lists(st.integers(1, 7), min_size=len(klens), max_size=len(klens)))
    else:
        qlens = [draw(st.one_of(st.just(k), st.integers(1, k))) for k in klens]
    form = draw(st.sampled_from(["padded", "packed"])) if impl in ("naive", "torch", "cap") else "padded"
    if impl.startswith("shaw") and form == "padded":
        # The relative position of queries is only defined if they end with the keys.
        qlens = klens if len(set(zip(qlens, klens))) > 1 else qlens
    eq = draw(st.sampled_from([0, 0, 1, 3]))
    ek = eq if qlens == klens and draw(st.booleans()) else draw(st.sampled_from([0, 0, 2]))
    if impl == "rel":
        ek = eq
    if impl.startswith("shaw"):
        if qlens == klens:
            ek = eq
        else:
            eq = ek = 0
    return dict(
        impl=impl, bias=b, q=qlens, k=klens, form=form, eq=eq, ek=ek, H=draw(st.sampled_from([1, 2, 3, 4])),
        K=draw(st.sampled_from([2, 4, 6])), V=draw(st.sampled_from([None, 2, 5])), seed=draw(st.integers(0, 10**6)),
        f64=draw(st.booleans()), scale=draw(st.sampled_from([None, None, 1.0, 0.3])), weights=draw(st.booleans()),
        lhs=draw(st.integers(0, 5)), rhs=draw(st.none() | st.integers(0, 5)), big=draw(st.sampled_from([1.0, 100.0])),
        train=draw(st.booleans()), extra=draw(st.integers(0, 3)), first=draw(st.none() | BIAS),
    )


def sdpa(ctx, c):
    H, K = c["H"], c["K"]
    V = K if c["V"] is None or c["impl"] in ("shaw_v", "rel") else c["V"]
    g = gen(c["seed"])
    dtype = F64 if c["f64"] else torch.float32
    bias = make_bias(c["bias"], H)
    extra = [None] * len(c["q"])
    post = None
    torch.manual_seed(c["seed"])
    if c["impl"] == "naive":
        m = NaiveSDPA(bias, scale=c["scale"])
    elif c["impl"] == "torch":
        m = TorchSDPA(bias, scale=c["scale"])
    elif c["impl"] == "cap":
        m = SoftCappedSDPA(bias, soft_cap=1.5)
    elif c["impl"].startswith("shaw"):
        m = ShawRelativePositionSDPA(H * K, H, bias, c["lhs"], max_rhs_rel_pos=c["rhs"], use_rel_pos_values=c["impl"] == "shaw_v", dtype=dtype)
    else:
        m = RelativePositionSDPA(H * K, H, RelativePositionalEncoding(H * K, max(c["k"]) + c["eq"] + c["extra"]) if H * K % 2 == 0 else None, bias, dtype=dtype)
        with torch.no_grad():
            m.u_bias.copy_(g(H, K)), m.v_bias.copy_(g(H, K))
    m.train(c["train"])  # no dropout is configured
    qs = [g(n, H, K) for n in c["q"]]
    ks = [g(n, H, K) for n in c["k"]]
    vs = [g(n, H, V) for n in c["k"]]
    junk = lambda *s: g(*s) * c["big"]  # noqa: E731
    qt, ql, qp = pack(qs, c["form"], c["eq"], dtype, junk)
    kt, kl, kp = pack(ks, c["form"], c["ek"], dtype, junk)
    vt, _, _ = pack(vs, c["form"], c["ek"], dtype, junk)
    cache = AttentionBiasCache()
    if c["first"] is not None and (c["first"][0] != "chunk" or all(a <= b for a, b in zip(c["q"], c["k"]))):
        # Another layer of the model, with its own bias, has used the cache.
        NaiveSDPA(make_bias(c["first"], H))(qt, ql, kt, kl, vt, cache)
        ctx.label("shared cache")
    nw = c["weights"] and c["impl"] != "torch"
    out, w = m(qt, ql, kt, kl, vt, cache, needs_weights=nw)
    out2, _ = m(qt, ql, kt, kl, vt, cache, needs_weights=False)
    expect(torch.equal(out, out2) or torch.allclose(out, out2, atol=1e-6), "the result differs with a filled bias cache")
    expect(not torch.isnan(out).any(), "NaN in the output")
    ctx.label(c["impl"], c["form"], c["bias"][0])
    ctx.nontrivial(len(c["q"]) > 1 or c["eq"] or c["ek"])
    tol = 1e-4 if dtype == torch.float32 or True else 1e-9
    for i in range(len(qs)):
        q, k, v = qs[i], ks[i], vs[i]
        n, t = q.size(0), k.size(0)
        ex = None
        qq = q
        if c["impl"].startswith("shaw"):
            rhs = c["lhs"] if c["rhs"] is None else c["rhs"]
            idx = torch.tensor([[max(-c["lhs"], min(rhs, j - (a + t - n))) + c["lhs"] for j in range(t)] for a in range(n)])
            rk = m.rel_k_embed.weight.detach().to(F64)[idx]
            ex = torch.einsum("shk,stk->hst", q, rk) * K**-0.5
        elif c["impl"] == "rel":
            E = H * K
            r = torch.zeros(n, n, E, dtype=F64)
            for a in range(n):
                for j in range(n):
                    for e in range(0, E, 2):
                        f = math.exp(-math.log(10000.0) * e / E)
                        r[a, j, e], r[a, j, e + 1] = math.sin((a - j) * f), math.cos((a - j) * f)
            r = (r @ m.r_proj.weight.detach().to(F64).T).view(n, n, H, K)
            ex = torch.einsum("shk,sthk->hst", q + m.v_bias.detach().to(F64), r) * K**-0.5
            qq = q + m.u_bias.detach().to(F64)
        want, ww = ref_attn(qq, k, v, c["bias"], scale=c["scale"] if c["impl"] in ("naive", "torch") else None,
                            cap=1.5 if c["impl"] == "cap" else None, extra=ex)
        if c["impl"] == "shaw_v":
            rv = m.rel_v_embed.weight.detach().to(F64)[idx]
            want = want + torch.einsum("hst,stv->shv", ww, rv)
        expect_close(out[qp[i]], want, f"sequence {i}", atol=tol)
        if w is not None:
            if c["form"] == "packed":
                got = w[:, qp[i][0], :]
                full = torch.zeros(H, n, kt.size(0), dtype=F64)
                full[:, :, kp[i][0]] = ww
            else:
                got = w[i, :, :n, :]
                full = torch.zeros(H, n, kt.size(1), dtype=F64)
                full[:, :, :t] = ww
            expect_close(got, full, f"weights of sequence {i}", atol=tol)
            expect(bool((got[full == 0] == 0).all()), "weight on a forbidden position")


@st.composite
def mha_cases(draw):
    kind = draw(st.sampled_from(["self", "self", "cross", "olmo"]))
    b = draw(BIAS) if kind != "cross" else ("id", None)
    H = draw(st.sampled_from([1, 2, 4]))
    klens = draw(LENS)
    return dict(
        kind=kind, bias=b, H=H, kvH=draw(st.sampled_from([h for h in (1, 2, 4) if H % h == 0])),
        hd=draw(st.sampled_from([None, 2, 6])), kv_dim=draw(st.sampled_from([None, 6])) if kind == "cross" else None,
        norm=draw(st.sampled_from([None, "rms", "ln"])), v_norm=draw(st.booleans()), rope=draw(st.booleans()), bias_=draw(st.booleans()),
        q=klens if kind != "cross" else draw(st.lists(st.integers(1, 6), min_size=len(klens), max_size=len(klens))), k=klens,
        form=draw(st.sampled_from(["padded", "packed"])), eq=draw(st.sampled_from([0, 0, 2])), ek=draw(st.sampled_from([0, 0, 2])),
        impl=draw(st.sampled_from(["naive", "torch", "cap"])), hook=draw(st.booleans()), seed=draw(st.integers(0, 10**6)),
        big=draw(st.sampled_from([1.0, 50.0])),
    )


def mha(ctx, c):
    M, H, kvH = 8, c["H"], c["kvH"]
    hd = c["hd"] or M // H
    g = gen(c["seed"])
    torch.manual_seed(c["seed"])
    bias = make_bias(c["bias"], H)
    sd = {"naive": NaiveSDPA, "torch": TorchSDPA}.get(c["impl"], lambda b: SoftCappedSDPA(b, soft_cap=2.0))(bias)
    rope = RotaryEncoder(hd, 16) if c["rope"] and hd % 2 == 0 and c["kind"] != "cross" else None
    N = {None: lambda n: None, "rms": lambda n: RMSNorm(n, bias=False, dtype=F64), "ln": lambda n: StandardLayerNorm(n, bias=True, dtype=F64)}[c["norm"]]
    if c["kind"] == "olmo":
        m = OLMOMultiheadAttention(M, H, sd, head_dim=hd, num_key_value_heads=kvH, q_norm=N(hd * H), k_norm=N(hd * kvH), rope_encoder=rope, bias=c["bias_"], dtype=F64)
    else:
        m = StandardMultiheadAttention(
            M, H, sd, head_dim=hd, num_key_value_heads=kvH, kv_dim=c["kv_dim"], q_norm=N(hd), k_norm=N(hd),
            v_norm=N(hd) if c["v_norm"] else None, pos_encoder=rope, bias=c["bias_"], dtype=F64)
    with torch.no_grad():
        for p in m.parameters():
            p.copy_(g(*p.shape) * 0.5 + (1.0 if p.ndim == 1 else 0.0))
    m.eval()
    store = []
    if c["hook"] and c["impl"] != "torch":
        m.register_attn_weight_hook(AttentionWeightStoreHook(store))
    same = c["kind"] != "cross"
    kd = c["kv_dim"] or M
    qs = [g(n, M) for n in c["q"]]
    ks = qs if same else [g(n, kd) for n in c["k"]]
    junk = lambda *s: g(*s) * c["big"]  # noqa: E731
    qt, ql, qp = pack(qs, c["form"], c["eq"], F64, junk)
    kt, kl, kp = (qt, ql, qp) if same else pack(ks, c["form"], c["ek"], F64, junk)
    qt.requires_grad_()
    if not same:
        kt.requires_grad_()
    out = m(qt, ql, kt, kl, kt, AttentionBiasCache())
    expect(not torch.isnan(out).any(), "NaN in the output")
    ctx.label(c["kind"], c["form"], c["bias"][0], c["impl"])
    ctx.nontrivial(len(qs) > 1 or c["eq"])
    if c["hook"] and c["impl"] != "torch":
        expect(len(store) == 1, "the weight hook was not called once")

    coef = [g(*x.shape) for x in qs]
    loss = sum((out[qp[i]] * coef[i]).sum() for i in range(len(qs)))
    loss.backward()
    grads = {n: (torch.zeros_like(p) if p.grad is None else p.grad.clone()) for n, p in m.named_parameters()}
    m.zero_grad()

    def lin(pr, x):
        return torch.nn.functional.linear(x, pr.weight, pr.bias)

    def nrm(nm, x):
        return x if nm is None else nm(x)

    def rot(x):
        if rope is None:
            return x
        y = torch.empty_like(x)
        for s in range(x.size(0)):
            for e in range(0, hd, 2):
                a = s / 10000.0 ** (e / hd)
                y[s, :, e] = x[s, :, e] * math.cos(a) - x[s, :, e + 1] * math.sin(a)
                y[s, :, e + 1] = x[s, :, e] * math.sin(a) + x[s, :, e + 1] * math.cos(a)
        return y

    total = 0.0
    for i in range(len(qs)):
        # alone
        x, y = qs[i][None], ks[i][None]
        alone = m(x, BatchLayout.of(x), x if same else y, BatchLayout.of(x if same else y), x if same else y, AttentionBiasCache())
        expect_close(out[qp[i]], alone[0], f"sequence {i} in the batch vs alone", atol=2e-5)
        total = total + (alone[0] * coef[i]).sum()
        # by the textbook
        with torch.no_grad():
            q, k, v = lin(m.q_proj, qs[i]), lin(m.k_proj, ks[i]), lin(m.v_proj, ks[i])
            if c["kind"] == "olmo":
                q, k = nrm(m.q_norm, q), nrm(m.k_norm, k)
            q, k, v = (t.view(t.size(0), -1, hd) for t in (q, k, v))
            if c["kind"] != "olmo":
                q, k, v = nrm(m.q_norm, q), nrm(m.k_norm, k), nrm(m.v_norm, v)
            q, k = rot(q), rot(k)
            k = torch.stack([k[:, h // (H // kvH)] for h in range(H)], 1)
            v = torch.stack([v[:, h // (H // kvH)] for h in range(H)], 1)
            want, _ = ref_attn(q, k, v, c["bias"], cap=2.0 if c["impl"] == "cap" else None)
            expect_close(out[qp[i]], lin(m.output_proj, want.flatten(1)), f"sequence {i} vs formula", atol=1e-4)
    total.backward()
    for n, p in m.named_parameters():
        want = torch.zeros_like(p) if p.grad is None else p.grad
        expect_close(grads[n], want, f"gradient of {n}: batch vs alone", atol=1e-4, rtol=1e-3)
    # Padding gets no gradient.
    for t, ps in ((qt, qp), (kt, kp)):
        if t.grad is None:
            continue
        gr = t.grad.clone()
        for p in ps:
            gr[p] = 0
        expect(not torch.isnan(gr).any() and float(gr.abs().max()) == 0.0, "padding has a gradient")


@st.composite
def leak_cases(draw):
    c = draw(sdpa_cases())
    return {**c, "pos": draw(st.integers(0, 6)), "seq": draw(st.integers(0, 3))}


def leak(ctx, c):
    """Changing a key changes exactly the outputs of queries that may see it."""
    if c["impl"] not in ("naive", "torch", "cap"):
        c = {**c, "impl": "naive"}
    H, K = c["H"], c["K"]
    g = gen(c["seed"])
    m = {"naive": NaiveSDPA, "torch": TorchSDPA, "cap": SoftCappedSDPA}[c["impl"]](make_bias(c["bias"], H)).eval()
    qs = [g(n, H, K) for n in c["q"]]
    ks = [g(n, H, K) for n in c["k"]]
    vs = [g(n, H, K) for n in c["k"]]
    qt, ql, qp = pack(qs, c["form"], c["eq"], F64, g)
    kt, kl, kp = pack(ks, c["form"], c["ek"], F64, g)
    vt, _, _ = pack(vs, c["form"], c["ek"], F64, g)
    out, _ = m(qt, ql, kt, kl, vt, AttentionBiasCache())
    s = c["seq"] % len(ks)
    j = c["pos"] % c["k"][s]
    at = (kp[s][0].start + j,) if c["form"] == "packed" else (s, j)
    kt2, vt2 = kt.clone(), vt.clone()
    kt2[at] += g(H, K)
    vt2[at] += g(H, K) + 3.0
    out2, _ = m(qt, ql, kt2, kl, vt2, AttentionBiasCache())
    saw = 0
    for i in range(len(qs)):
        n, t = c["q"][i], c["k"][i]
        ok = (ref_bias(c["bias"], H, n, t) > -math.inf)[0]
        for a in range(n):
            same = torch.equal(out[qp[i]][a], out2[qp[i]][a])
            if i == s and bool(ok[a, j]):
                expect(not same, f"query {a} of sequence {i} does not see key {j} of its sequence, which it may")
                saw += 1
            else:
                d = float((out[qp[i]][a] - out2[qp[i]][a]).abs().max())
                expect(d < 1e-12, f"query {a} of sequence {i} sees key {j} of sequence {s}, which it must not")
    ctx.nontrivial(saw < sum(c["q"]))
    ctx.label(c["bias"][0], c["form"])


def leak_strategy():
    return leak_cases()


main(Prop(
    "N01",
    [Arm(f"sdpa{i}", lambda: sdpa_cases().filter(lambda c: c["impl"] != "rel" or c["H"] * c["K"] % 2 == 0), sdpa, 1200, 30000) for i in range(3)]
    + [Arm(f"mha{i}", mha_cases, mha, 700, 15000) for i in range(3)]
    + [Arm(f"leak{i}", leak_strategy, leak, 1000, 20000) for i in range(2)],
    rule="more than one sequence in the batch, or padding; for leak: some query must not see the changed key",
    assumptions=["CPU backends only (flash attention is not installed)", "padding holds finite numbers"],
))

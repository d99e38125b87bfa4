"""N04: tensor-parallel layers compute what their unsharded layers compute."""
import boot

boot.boot(init=True)

import threading
import warnings

import models
import torch
from gangs import run_ranks, thread_gangs
from harness import Arm, Prop, Violation, expect, expect_close, expect_eq, main
from hypothesis import strategies as st

from fairseq2.device import CPU
from fairseq2.gang import FakeGang, create_fake_gangs
from fairseq2.models.llama4.moe import MoE
from fairseq2.models.llama4.sharder import MoESharder
from fairseq2.models.olmo.attention import OLMOMultiheadAttention
from fairseq2.models.olmo.normalization import OLMORMSNorm
from fairseq2.models.transformer import (
    AttentionBiasCache,
    CausalAttentionBias,
    DauphinFeedForwardNetwork,
    FullAttentionState,
    GLUFeedForwardNetwork,
    IdentityBias,
    StandardFeedForwardNetwork,
    StandardMultiheadAttention,
)
from fairseq2.models.transformer.sdpa.naive import NaiveSDPA
from fairseq2.models.transformer.sdpa.torch import TorchSDPA
from fairseq2.nn import (
    BatchLayout,
    ColumnShardedLinear,
    IncrementalStateBag,
    Linear,
    RMSNorm,
    RotaryEncoder,
    RowShardedLinear,
    ShardedEmbedding,
    StandardEmbedding,
    StandardLayerNorm,
    VocabShardedEmbedding,
    get_shard_dims,
)
from fairseq2.ops.tensor_parallel import gather, reduce, reduce_on_backward, scatter
from fairseq2.sharder import (
    EmbeddingSharder,
    LinearSharder,
    ShardSpec,
    ShardSpecError,
    StandardModelSharder,
)

warnings.simplefilter("ignore")
F64 = torch.float64
LOCK = threading.Lock()  # torch's generator is shared by the threads


def rnd(*shape, seed):
    return torch.randn(*shape, dtype=F64, generator=torch.Generator().manual_seed(seed))


def seeded(seed, make):
    with LOCK:
        torch.manual_seed(seed)
        return make()


def tp_gangs(gang):
    return thread_gangs(gang, gang.size)


def chunk(t, n, r, dim):
    return t.chunk(n, dim=dim)[r] if n > 1 else t


def load_shards(ref, m, n, r, what):
    """Copies the slices of the reference's parameters; checks shapes on the way."""
    dims = get_shard_dims(m)
    refs = dict(ref.named_parameters())
    names = [k for k, _ in m.named_parameters()]
    expect_eq(sorted(names), sorted(refs), f"{what}: parameter names")
    with torch.no_grad():
        for k, p in m.named_parameters():
            full = refs[k]
            s = chunk(full, n, r, dims[k]) if k in dims else full
            expect_eq(tuple(p.shape), tuple(s.shape), f"{what}: shape of {k} on rank {r} of {n} (shard dims {dims})")
            p.copy_(s)
    return dims


def check_init(ref, m, n, r, what):
    dims = get_shard_dims(m)
    refs = dict(ref.named_parameters())
    for k, p in m.named_parameters():
        full = refs[k]
        s = chunk(full, n, r, dims[k]) if k in dims else full
        if tuple(p.shape) != tuple(s.shape) or not torch.equal(p, s):
            raise Violation(f"{what}: initial value of {k} on rank {r} of {n} is not its part of the unsharded layer's")


def check_grads(ref, m, dims, n, r, what, tol=2e-6):
    refs = dict(ref.named_parameters())
    for k, p in m.named_parameters():
        g = refs[k].grad
        if g is None:
            expect(p.grad is None or not p.grad.any(), f"{what}: {k} has a gradient on rank {r}, the reference has none")
            continue
        s = chunk(g, n, r, dims[k]) if k in dims else g
        expect(p.grad is not None, f"{what}: no gradient of {k} on rank {r} of {n}")
        expect_close(p.grad, s, f"{what}: gradient of {k} on rank {r} of {n}", atol=tol, rtol=1e-5)


SIZES = st.sampled_from([1, 2, 2, 3, 4])


# ---------------------------------------------------------------- primitives
@st.composite
def ops_cases(draw):
    n = draw(st.sampled_from([1, 2, 3, 4]))
    shape = draw(st.lists(st.integers(1, 3), min_size=1, max_size=3))
    dim = draw(st.integers(-len(shape), len(shape) - 1))
    return dict(n=n, shape=shape, dim=dim, seed=draw(st.integers(0, 9999)), op=draw(st.sampled_from(["reduce", "scatter", "gather", "on_backward"])),
                alias=draw(st.booleans()))


def ops_arm(ctx, c):
    n, shape, dim = c["n"], list(c["shape"]), c["dim"]
    ctx.label(c["op"])
    if n > 1:
        ctx.nontrivial()
    full_shape = list(shape)
    full_shape[dim] *= n

    def body(gang):
        r = gang.rank
        if c["op"] == "reduce":
            x = rnd(*shape, seed=c["seed"] + r).requires_grad_()
            before = x.detach().clone()
            y = reduce(x, gang)
            expect(torch.equal(x, before), "reduce changed its input")
            w = rnd(*shape, seed=c["seed"] + 77)
            (y * w).sum().backward()
            return y, sum(rnd(*shape, seed=c["seed"] + q) for q in range(n)), x.grad, w
        if c["op"] == "scatter":
            x = rnd(*full_shape, seed=c["seed"]).requires_grad_()
            y = scatter(x, gang, dim)
            w = rnd(*full_shape, seed=c["seed"] + 77)
            (y * chunk(w, n, r, dim)).sum().backward()
            return y, chunk(x, n, r, dim), x.grad, w
        if c["op"] == "gather":
            full = rnd(*full_shape, seed=c["seed"])
            x = chunk(full, n, r, dim).clone().requires_grad_()
            y = gather(x, gang, dim)
            w = rnd(*full_shape, seed=c["seed"] + 77)
            (y * w).sum().backward()
            return y, full, x.grad, chunk(w, n, r, dim)
        x = rnd(*shape, seed=c["seed"]).requires_grad_()
        z0 = rnd(*shape, seed=c["seed"] + 5).requires_grad_()
        z = z0 * 1.0
        y = reduce_on_backward(x, gang)
        ws = [rnd(*shape, seed=c["seed"] + 78 + q) for q in range(n)]
        if c["alias"]:
            # The gradient of a sum is passed on to both of its terms.
            ((y + z) * ws[r]).sum().backward()
            expect_close(z0.grad, ws[r], "gradient of another term of the sum", atol=1e-12)
        else:
            (y * ws[r]).sum().backward()
        return y, x, x.grad, sum(ws)

    for r, (y, ey, g, eg) in enumerate(run_ranks(n, body)):
        expect_close(y, ey, f"{c['op']} on rank {r} of {n}", atol=1e-12)
        expect_close(g, eg, f"gradient of {c['op']} on rank {r} of {n}", atol=1e-12)


# ---------------------------------------------------------------- linear
def my_init(p):
    torch.nn.init.normal_(p.weight, std=0.7)
    if getattr(p, "bias", None) is not None:
        torch.nn.init.normal_(p.bias)


@st.composite
def linear_cases(draw):
    n = draw(SIZES)
    return dict(n=n, i=draw(st.integers(1, 3)) * n, o=draw(st.integers(1, 3)) * n, bias=draw(st.booleans()),
                kind=draw(st.sampled_from(["col", "row"])), flag=draw(st.booleans()), flag2=draw(st.booleans()),
                how=draw(st.sampled_from(["init", "ctx", "from", "from_gang", "from_meta", "sharder"])), init=draw(st.booleans()),
                lead=draw(st.lists(st.integers(1, 3), min_size=0, max_size=2)), seed=draw(st.integers(0, 9999)),
                uneven=draw(st.integers(0, 9)) == 0)


def linear_arm(ctx, c):
    n, i, o = c["n"], c["i"], c["o"]
    col = c["kind"] == "col"
    ctx.label(c["kind"])
    ctx.label(c["how"])
    init = my_init if c["init"] else None
    kls = ColumnShardedLinear if col else RowShardedLinear
    if c["uneven"] and n > 1:
        ctx.label("uneven")

        def bad(gang):
            try:
                kls(i + (0 if col else 1), o + (1 if col else 0), c["bias"], gangs=tp_gangs(gang), dtype=F64)
            except ValueError:
                return True
            return False

        expect(all(run_ranks(n, bad)), "a dimension that does not divide by the ranks was accepted")
        return
    if n > 1:
        ctx.nontrivial()
    how = c["how"]
    ref = seeded(c["seed"], lambda: Linear(i, o, c["bias"], init_fn=init, dtype=F64))
    if how == "from_meta":
        src = Linear(i, o, c["bias"], init_fn=init, dtype=F64, device=torch.device("meta"))
    else:
        src = Linear(i, o, c["bias"], init_fn=init, dtype=F64)
        with torch.no_grad():
            for a, b in zip(src.parameters(), ref.parameters()):
                a.copy_(b)
    reduce_output = c["flag2"] or c["bias"]  # an unreduced output with a bias has no unsharded counterpart
    kw = dict(gather_output=c["flag"]) if col else dict(scatter_input=c["flag"], reduce_output=reduce_output)
    if how == "sharder":
        reduce_output = True
        kw = {}
    x = rnd(*c["lead"], i, seed=c["seed"] + 1)
    w = rnd(*c["lead"], o, seed=c["seed"] + 2)
    xr = x.clone().requires_grad_()
    yr = ref(xr)
    (yr * w).sum().backward()

    def body(gang):
        r = gang.rank
        gangs = tp_gangs(gang)
        if how == "init":
            m = seeded(c["seed"], lambda: kls(i, o, c["bias"], init_fn=init, gangs=gangs, dtype=F64, **kw))
        elif how == "ctx":
            with gangs:
                m = seeded(c["seed"], lambda: kls(i, o, c["bias"], init_fn=init, dtype=F64, **kw))
        elif how == "from":
            m = seeded(0, lambda: kls.from_linear(src, gangs=gangs, **kw))
        elif how == "from_gang":
            m = seeded(0, lambda: kls.from_linear(src, gang, **kw))
        elif how == "sharder":
            m = seeded(0, lambda: LinearSharder().shard(src, gangs, ShardSpec(0 if col else 1, region_boundary=c["flag"])))
            expect(isinstance(m, kls), f"LinearSharder returned {type(m)}")
        else:
            m = seeded(0, lambda: kls.from_linear(src, gangs=gangs, **kw))
            expect(m.weight.is_meta, "sharding a meta layer left the meta device")
            m.to_empty(device=CPU)
            seeded(c["seed"], m.reset_parameters)
        gang.barrier()  # what follows may draw, too
        if how not in ("from", "from_gang", "sharder"):
            check_init(ref, m, n, r, f"{kls.__name__} ({how})")
        else:
            check_init(src, m, n, r, f"{kls.__name__} ({how})")
        dims = load_shards(ref, m, n, r, kls.__name__)
        back = m.to_linear()
        for (k, a), (_, b) in zip(back.named_parameters(), ref.named_parameters()):
            expect(torch.equal(a, b), f"{kls.__name__}.to_linear() changes {k}")
        expect_eq((back.input_dim, back.output_dim, back.bias is None, back.weight.dtype), (i, o, not c["bias"], F64), "unsharded layer")
        scat = col or (kw.get("scatter_input", not c["flag"]))
        gath = (not col) or kw.get("gather_output", not c["flag"])
        xi = (x if scat else chunk(x, n, r, -1)).clone().requires_grad_()
        y = m(xi)
        (y * (w if gath else chunk(w, n, r, -1))).sum().backward()
        check_grads(ref, m, dims, n, r, f"{kls.__name__} {kw}")
        return y, xi.grad, scat, gath

    out = run_ranks(n, body)
    for r, (y, g, scat, gath) in enumerate(out):
        e = yr if gath else chunk(yr, n, r, -1)
        if not col and not reduce_output:
            y = sum(q[0] for q in out)
        expect_close(y, e, f"{kls.__name__} {kw}: output on rank {r} of {n}", atol=1e-10)
        expect_close(g, xr.grad if scat else chunk(xr.grad, n, r, -1), f"{kls.__name__} {kw}: gradient of the input on rank {r} of {n}", atol=1e-10)


# ---------------------------------------------------------------- embedding
@st.composite
def embed_cases(draw):
    n = draw(SIZES)
    v, d = draw(st.integers(1, 4)) * n, draw(st.integers(1, 3)) * n
    return dict(n=n, v=v, d=d, kind=draw(st.sampled_from(["vocab", "dim"])), pad=draw(st.one_of(st.none(), st.integers(0, v - 1))),
                how=draw(st.sampled_from(["init", "from", "from_gang", "from_meta", "sharder"])), init=draw(st.booleans()),
                ids=draw(st.lists(st.integers(0, v - 1), min_size=1, max_size=10)), two=draw(st.booleans()),
                seed=draw(st.integers(0, 9999)), uneven=draw(st.integers(0, 9)) == 0)


def embed_arm(ctx, c):
    n, v, d = c["n"], c["v"], c["d"]
    vocab = c["kind"] == "vocab"
    kls = VocabShardedEmbedding if vocab else ShardedEmbedding
    init = my_init if c["init"] else None
    how = c["how"]
    ctx.label(c["kind"])
    ctx.label("pad" if c["pad"] is not None else "nopad")
    if c["uneven"] and n > 1:
        def bad(gang):
            try:
                kls(v + (1 if vocab else 0), d + (0 if vocab else 1), gangs=tp_gangs(gang), dtype=F64)
            except ValueError:
                return True
            return False

        expect(all(run_ranks(n, bad)), "a dimension that does not divide by the ranks was accepted")
        return
    if n > 1:
        ctx.nontrivial()
    ref = seeded(c["seed"], lambda: StandardEmbedding(v, d, c["pad"], init_fn=init, dtype=F64))
    if c["pad"] is not None:
        expect(not ref.weight[c["pad"]].any(), "the initial embedding of the padding index is not zero")
    src = StandardEmbedding(v, d, c["pad"], init_fn=init, dtype=F64, device=torch.device("meta") if how == "from_meta" else None)
    if how != "from_meta":
        with torch.no_grad():
            src.weight.copy_(ref.weight)
    ids = torch.tensor(c["ids"])
    if c["two"]:
        ids = torch.stack([ids, ids.flip(0)])
    w = rnd(*ids.shape, d, seed=c["seed"] + 2)
    data = rnd(v, d, seed=c["seed"] + 3)

    def run_ref():
        with torch.no_grad():
            ref.weight.copy_(data)
        y = ref(ids)
        (y * w).sum().backward()
        return y

    def body(gang):
        r = gang.rank
        gangs = tp_gangs(gang)
        if how == "init":
            m = seeded(c["seed"], lambda: kls(v, d, c["pad"], init_fn=init, gangs=gangs, dtype=F64))
        elif how == "from_gang":
            m = seeded(0, lambda: kls.from_embedding(src, gang))
        elif how == "sharder":
            m = seeded(0, lambda: EmbeddingSharder().shard(src, gangs, ShardSpec(0 if vocab else 1)))
            expect(isinstance(m, kls), f"EmbeddingSharder returned {type(m)}")
        else:
            m = seeded(0, lambda: kls.from_embedding(src, gangs=gangs))
            if how == "from_meta":
                m.to_empty(device=CPU)
                seeded(c["seed"], m.reset_parameters)
        return m, r

    ms = run_ranks(n, body)
    for m, r in ms:
        check_init(ref, m, n, r, kls.__name__)
    yr = run_ref()

    def body2(gang):
        r = gang.rank
        m = [m for m, q in ms if q == r][0]
        # The shards keep the gang that they were made with; give them the live one.
        m.tp_gang = tp_gangs(gang).tp
        dims = load_shards(ref, m, n, r, kls.__name__)
        back = m.to_embedding()
        expect(torch.equal(back.weight, ref.weight), f"{kls.__name__}.to_embedding() changes the weight")
        expect_eq((back.num_embeddings, back.embed_dim, back.pad_idx), (v, d, c["pad"]), "unsharded embedding")
        keep = ids.clone()
        y = m(ids)
        expect(torch.equal(ids, keep), "the input indices were changed")
        (y * w).sum().backward()
        check_grads(ref, m, dims, n, r, kls.__name__)
        return y

    for r, y in enumerate(run_ranks(n, body2)):
        expect_close(y, yr, f"{kls.__name__}: output on rank {r} of {n}", atol=1e-12)


# ---------------------------------------------------------------- layers
@st.composite
def layer_cases(draw):
    n = draw(st.sampled_from([1, 2, 2, 3, 4]))
    c = dict(n=n, kind=draw(st.sampled_from(["mha", "mha", "ffn", "glu", "dauphin", "moe", "olmo"])), seed=draw(st.integers(0, 9999)),
             batch=draw(st.integers(1, 2)), len=draw(st.integers(1, 4)), bias=draw(st.booleans()))
    if c["kind"] in ("mha", "olmo"):
        kv = n * draw(st.integers(1, 2))
        c.update(kv=kv, h=kv * draw(st.integers(1, 2)), hd=draw(st.sampled_from([2, 4])), qn=draw(st.booleans()), kn=draw(st.booleans()),
                 vn=draw(st.booleans()), norm=draw(st.sampled_from(["rms", "layer"])), share=draw(st.booleans()),
                 pos=draw(st.booleans()), naive=draw(st.booleans()), causal=draw(st.booleans()), obias=draw(st.sampled_from([None, True, False])),
                 cross=draw(st.sampled_from([None, None, 5])) if c["kind"] == "mha" else None, inc=draw(st.booleans()))
    else:
        c.update(dim=draw(st.integers(1, 4)), inner=n * draw(st.integers(2, 4)), scale=draw(st.sampled_from([1.0, 2 / 3])),
                 sparsity=draw(st.sampled_from([0.0, 0.0, 0.5, 0.9])), experts=draw(st.integers(1, 3)), shared=draw(st.booleans()),
                 reduce_experts=draw(st.booleans()))
        c["top_k"] = draw(st.integers(1, c["experts"]))
    return c


def make_layer(c, gangs):
    k, n = c["kind"], c["n"]
    if k in ("mha", "olmo"):
        md = c["h"] * c["hd"]
        mk = (lambda d: RMSNorm(d, bias=c["bias"], dtype=F64)) if c["norm"] == "rms" else (lambda d: StandardLayerNorm(d, bias=c["bias"], dtype=F64))
        bias = CausalAttentionBias() if c["causal"] and not c["cross"] else IdentityBias()
        sdpa = NaiveSDPA(bias) if c["naive"] else TorchSDPA(bias)
        pos = RotaryEncoder(c["hd"], 32) if c["pos"] and not c["cross"] else None
        if k == "mha":
            qn = mk(c["hd"]) if c["qn"] else None
            kn = (qn if c["share"] and qn is not None else mk(c["hd"])) if c["kn"] else None
            return StandardMultiheadAttention(
                md, c["h"], sdpa, num_key_value_heads=c["kv"], kv_dim=c["cross"], bias=c["bias"], output_proj_bias=c["obias"],
                q_norm=qn, k_norm=kn, v_norm=mk(c["hd"]) if c["vn"] else None, pos_encoder=pos, gangs=gangs, dtype=F64)
        on = lambda d: mk(d)  # noqa: E731
        return OLMOMultiheadAttention(
            md, c["h"], sdpa, num_key_value_heads=c["kv"], bias=c["bias"], output_proj_bias=c["obias"],
            q_norm=on(c["h"] * c["hd"]) if c["qn"] else None, k_norm=on(c["kv"] * c["hd"]) if c["kn"] else None,
            rope_encoder=pos, gangs=gangs, dtype=F64)
    if k == "ffn":
        return StandardFeedForwardNetwork(c["dim"], c["inner"], c["bias"], gangs=gangs, dtype=F64)
    if k == "dauphin":
        return DauphinFeedForwardNetwork(c["dim"], c["inner"], c["bias"], gangs=gangs, dtype=F64)
    if k == "glu":
        return GLUFeedForwardNetwork(c["dim"], c["inner"], c["bias"], inner_dim_scale=c["scale"], inner_dim_to_multiple=n,
                                     activation_sparsity=c["sparsity"], gangs=gangs, dtype=F64)
    # The sharder turns the unsharded mixture into the sharded one.
    m = MoE(c["dim"], c["inner"], c["shared"], c["experts"], 1.0, c["top_k"], inner_dim_scale=1.0, inner_dim_to_multiple=n, auto_scale=False)
    return m.double()


def layer_arm(ctx, c):
    n, k = c["n"], c["kind"]
    ctx.label(k)
    if n > 1:
        ctx.nontrivial()
    att = k in ("mha", "olmo")
    ref = seeded(c["seed"], lambda: make_layer(c, create_fake_gangs(CPU)))
    fresh = seeded(c["seed"], lambda: make_layer(c, create_fake_gangs(CPU)))
    models.randomise(ref, c["seed"])
    if k == "moe":
        gp = torch.Generator().manual_seed(c["seed"])
        with torch.no_grad():
            for p in list(ref.parameters()):
                p.copy_(torch.randn(p.shape, generator=gp, dtype=F64))
    md = c["h"] * c["hd"] if att else c["dim"]
    x = rnd(c["batch"], c["len"], md, seed=c["seed"] + 1)
    w = rnd(c["batch"], c["len"], md, seed=c["seed"] + 2)
    mem = rnd(c["batch"], 3, c["cross"], seed=c["seed"] + 4) if att and c["cross"] else None

    def forward(m, x, mem):
        if not att:
            return m(x)
        lo = BatchLayout.of(x)
        if mem is not None:
            return m(x, lo, mem, BatchLayout.of(mem), mem, AttentionBiasCache())
        return m(x, lo, x, lo, x, AttentionBiasCache())

    def run(m):
        xi = x.clone().requires_grad_()
        mi = mem.clone().requires_grad_() if mem is not None else None
        y = forward(m, xi, mi)
        (y * w).sum().backward()
        return y, xi.grad, mi.grad if mi is not None else None

    yr, gr, gmr = run(ref)

    def body(gang):
        r = gang.rank
        gangs = tp_gangs(gang)
        if k == "moe":
            m = seeded(c["seed"], lambda: make_layer(c, create_fake_gangs(CPU)))
            with torch.no_grad():
                for a, b in zip(m.parameters(), ref.parameters()):
                    a.copy_(b)
            m = seeded(0, lambda: MoESharder().shard(m, gangs, ShardSpec(-1)))
            d3 = {"gate_proj": 2, "inner_proj": 2, "output_proj": 1}
            for nm, d in d3.items():
                full = getattr(ref.experts, nm)
                full = full.view(c["experts"], -1, full.shape[-1])
                expect(torch.equal(getattr(m.experts, nm), chunk(full, n, r, d).reshape(-1, getattr(m.experts, nm).shape[-1])),
                       f"MoE: shard of experts.{nm} on rank {r} of {n}")
            dims = None
        else:
            m = seeded(c["seed"], lambda: make_layer(c, gangs))
            gang.barrier()
            check_init(fresh, m, n, r, k)
            dims = load_shards(ref, m, n, r, k)
        y, g, gm = run(m)
        if dims is not None:
            check_grads(ref, m, dims, n, r, k)
        else:
            expect_close(m.router.grad, ref.router.grad, f"MoE: gradient of the router on rank {r} of {n}", atol=2e-6)
            for nm, d in d3.items():
                gf = getattr(ref.experts, nm).grad
                gf = chunk(gf.view(c["experts"], -1, gf.shape[-1]), n, r, d).reshape(-1, getattr(m.experts, nm).shape[-1])
                expect_close(getattr(m.experts, nm).grad, gf, f"MoE: gradient of experts.{nm} on rank {r} of {n}", atol=2e-6)
            if c["shared"]:
                check_grads(ref.shared_expert, m.shared_expert, get_shard_dims(m.shared_expert), n, r, "MoE: shared expert")
        inc = None
        if att and c["inc"] and not c["cross"] and c["causal"]:
            m.eval()
            bag = IncrementalStateBag(c["len"])
            with torch.no_grad():
                outs = []
                for t in range(c["len"]):
                    s = x[:, t : t + 1]
                    lo = BatchLayout.of(s)
                    outs.append(m(s, lo, s, lo, s, AttentionBiasCache(), state_bag=bag))
                    bag.increment_step_nr(1) if t + 1 < c["len"] else None
                inc = torch.cat(outs, 1)
        return y, g, gm, inc

    for r, (y, g, gm, inc) in enumerate(run_ranks(n, body)):
        expect_close(y, yr, f"{k}: output on rank {r} of {n}", atol=2e-6)
        expect_close(g, gr, f"{k}: gradient of the input on rank {r} of {n}", atol=2e-6)
        if gm is not None:
            expect_close(gm, gmr, f"{k}: gradient of the memory on rank {r} of {n}", atol=2e-6)
        if inc is not None:
            expect_close(inc, yr, f"{k}: incremental outputs on rank {r} of {n}", atol=2e-6)


# ---------------------------------------------------------------- models
@st.composite
def model_cases(draw):
    fam = draw(st.sampled_from(["llama", "qwen", "olmo", "mistral"]))
    cfg = draw(models.CLM[fam]())
    n = draw(st.sampled_from([1, 2, 2, 4]))
    cfg = dict(cfg)
    if n > 1:
        # Everything that is sharded has to divide by the number of ranks.
        d = cfg["model_dim"] // cfg["num_attn_heads"]
        cfg["num_attn_heads"] = max(cfg["num_attn_heads"], n)
        cfg["num_key_value_heads"] = max(cfg["num_key_value_heads"], n)
        cfg["model_dim"] = cfg["num_attn_heads"] * d
        cfg["tied_embeddings"] = False
        if fam == "mistral":
            cfg.pop("tied_embeddings")
        if fam == "llama":
            cfg["ffn_inner_dim_multiple_of"] = 4
        cfg["ffn_inner_dim"] = 8
        cfg["vocab_size"] = 24
        if fam in ("llama", "olmo"):
            cfg["shard_embed_dim"] = draw(st.booleans())
    return dict(family=fam, cfg=cfg, n=n, seed=draw(st.integers(0, 9999)), lens=draw(st.lists(st.integers(2, 6), min_size=1, max_size=2)),
                meta=draw(st.booleans()), gc=draw(st.booleans()))


def model_arm(ctx, c):
    n, fam = c["n"], c["family"]
    ctx.label(fam)
    if n > 1:
        ctx.nontrivial()
    fresh = seeded(c["seed"], lambda: models.make_model(fam, c["cfg"])).double()
    ref = models.randomise(seeded(c["seed"], lambda: models.make_model(fam, c["cfg"])).double(), c["seed"])
    ids = torch.randint(1, 20, (len(c["lens"]), max(c["lens"])), generator=torch.Generator().manual_seed(c["seed"]))
    lo = lambda: BatchLayout(ids.shape, seq_lens=c["lens"])  # noqa: E731
    tgt = ids.roll(-1, 1)

    def run(m):
        m.train()
        for q in m.modules():
            if isinstance(q, torch.nn.Dropout) or type(q).__name__ == "Dropout":
                q.p = 0.0
        logits = m(ids, lo())
        mask = torch.zeros(ids.shape, dtype=torch.bool)
        for i, l in enumerate(c["lens"]):
            mask[i, :l] = True
        loss = torch.nn.functional.cross_entropy(logits[mask], tgt[mask])
        loss.backward()
        return logits[mask], loss

    yr, lr = run(ref)

    def body(gang):
        gangs = tp_gangs(gang)
        with gangs:
            m = seeded(c["seed"], lambda: models.make_model(fam, c["cfg"])).double()
        gang.barrier()
        if fam != "olmo":  # creates its layers twice; not the same random numbers
            check_init(fresh, m, n, gang.rank, fam)
        dims = load_shards(ref, m, n, gang.rank, fam)
        y, loss = run(m)
        check_grads(ref, m, dims, n, gang.rank, fam)
        return y, loss

    for r, (y, loss) in enumerate(run_ranks(n, body)):
        expect_close(y, yr, f"{fam}: logits on rank {r} of {n}", atol=5e-6)
        expect_close(loss, lr, f"{fam}: loss on rank {r} of {n}", atol=2e-6)


# ---------------------------------------------------------------- spec-based
@st.composite
def spec_cases(draw):
    n = draw(st.sampled_from([2, 2, 3]))
    return dict(n=n, depth=draw(st.integers(1, 2)), embed_dim=draw(st.integers(0, 1)), boundary=draw(st.booleans()), bias=draw(st.booleans()),
                seed=draw(st.integers(0, 9999)), subset=draw(st.integers(0, 7)))


class Mlp(torch.nn.Module):
    def __init__(self, n, bias):
        super().__init__()
        self.inner_proj = Linear(4 * n, 2 * n, bias, dtype=F64)
        self.output_proj = Linear(2 * n, 4 * n, bias, dtype=F64)

    def forward(self, x):
        return self.output_proj(torch.tanh(self.inner_proj(x)))


class Net(torch.nn.Module):
    def __init__(self, c):
        super().__init__()
        n = c["n"]
        self.embed = StandardEmbedding(5 * n, 4 * n, dtype=F64)
        self.layers = torch.nn.ModuleList([Mlp(n, c["bias"]) for _ in range(c["depth"])])
        self.final_proj = Linear(4 * n, 5 * n, c["bias"], dtype=F64)

    def forward(self, ids):
        x = self.embed(ids)
        for m in self.layers:
            x = x + m(x)
        return self.final_proj(x)


def spec_arm(ctx, c):
    n = c["n"]
    ctx.nontrivial()
    specs = {r"^embed$": ShardSpec(c["embed_dim"])} if c["subset"] & 1 else {}
    if c["subset"] & 2:
        specs[r".*\.inner_proj$"] = ShardSpec(0, region_boundary=c["boundary"])
        specs[r".*\.output_proj$"] = ShardSpec(1, region_boundary=c["boundary"])
    if c["subset"] & 4:
        specs["^final_proj$"] = ShardSpec(0)
    ref = models.randomise(seeded(c["seed"], lambda: Net(c)), c["seed"])
    ids = torch.randint(0, 5 * n, (2, 3), generator=torch.Generator().manual_seed(c["seed"]))
    w = rnd(2, 3, 5 * n, seed=c["seed"])
    y0 = ref(ids)
    (y0 * w).sum().backward()

    def body(gang):
        m = seeded(c["seed"], lambda: Net(c))
        with torch.no_grad():
            for a, b in zip(m.parameters(), ref.parameters()):
                a.copy_(b)
        StandardModelSharder([LinearSharder(), EmbeddingSharder()]).shard(m, tp_gangs(gang), specs)
        dims = load_shards(ref, m, n, gang.rank, "sharded by specs")
        want = {k for k in dict(ref.named_parameters()) if any(__import__("re").match(p, k.rsplit(".", 1)[0]) for p in specs)}
        want = {k for k in want if not k.endswith("output_proj.bias")}
        expect_eq(set(dims), want, "parameters sharded by the specs")
        y = m(ids)
        (y * w).sum().backward()
        check_grads(ref, m, dims, n, gang.rank, "sharded by specs")
        return y

    for r, y in enumerate(run_ranks(n, body)):
        expect_close(y, y0, f"net sharded by specs on rank {r} of {n}", atol=1e-9)


main(Prop("N04", [
    Arm("ops", ops_cases, ops_arm, quick=250, thorough=4000),
    Arm("linear", linear_cases, linear_arm, quick=250, thorough=5000),
    Arm("embed", embed_cases, embed_arm, quick=200, thorough=4000),
    Arm("layers", layer_cases, layer_arm, quick=350, thorough=6000),
    Arm("models", model_cases, model_arm, quick=120, thorough=2500),
    Arm("specs", spec_cases, spec_arm, quick=60, thorough=1000),
], rule="more than one rank",
    assumptions=["ranks are threads joined by an exact in-process gang; float64", "heads, vocabulary and inner dimensions divide by the ranks"]))

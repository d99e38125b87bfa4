"""F01: data parallel wrappers move parameters, not results."""
import boot

boot.boot(init=True)

import copy
import os
import shutil
import tempfile
import warnings
from pathlib import Path

import models
import torch
from gangs import ProcPool
from harness import Arm, Prop, Violation, expect, expect_eq, main
from hypothesis import strategies as st
from torch import nn
from torch.distributed.tensor import DTensor

from fairseq2.device import CPU
from fairseq2.gang import create_fsdp_gangs, create_parallel_gangs
from fairseq2.models.gemma3n import apply_fsdp_to_gemma3n
from fairseq2.models.transformer import apply_fsdp_to_transformer
from fairseq2.models.transformer_lm import apply_fsdp_to_transformer_lm
from fairseq2.nn import BatchLayout
from fairseq2.nn.data_parallel import get_data_parallel_facade
from fairseq2.nn.ddp import to_ddp
from fairseq2.nn.fsdp import fsdp_load_local_state_dict, fsdp_local_state_dict, fsdp_no_sync, fsdp_summon_full_parameters, to_fsdp
from fairseq2.nn.utils.module import broadcast_module

warnings.filterwarnings("ignore")

FAMS = ("llama", "qwen", "olmo", "mistral", "gemma3n", "nllb")
CFG = {**models.CLM, **models.S2S}


def applier(fam, gran):
    if gran == "model":
        return lambda m, w: w(m, reshard_after_forward=False)
    f = apply_fsdp_to_gemma3n if fam == "gemma3n" else apply_fsdp_to_transformer if fam == "nllb" else apply_fsdp_to_transformer_lm
    return lambda m, w: f(m, gran, w)


def build(c, rank=0, meta=False):
    torch.manual_seed(c["seed"] % 1000)
    if meta:
        with torch.device("meta"):
            m = models.make_model(c["family"], c["cfg"])
    else:
        m = models.make_model(c["family"], c["cfg"])
        models.randomise(m, c["seed"] % 1000 + rank)
    if not c["mp"] and c["kind"] != "fsdp1":  # FSDP1 clips gradients in single precision only
        for p in m.parameters():  # so that the order of additions does not matter
            p.data = p.data.double()
    if c["freeze"]:
        for n, p in m.named_parameters():
            if n.endswith("layer_norm.weight"):
                p.requires_grad_(False)
    return m.eval()


def lower(m):
    """A copy with parameters, but not buffers, in lower precision."""
    m = copy.deepcopy(m)
    for p in m.parameters():
        p.data = p.data.to(torch.bfloat16)
    return m


def data(c, step, rank, micro):
    g = torch.Generator().manual_seed(c["seed"] % 1000 + step * 100 + rank * 10 + micro)
    n = 2 + (rank + micro) % 3
    return torch.randint(0, 20, (1 + rank % 2, n), generator=g)


def call(c, m, x):
    l = BatchLayout(tuple(x.shape), None)
    if c["family"] == "nllb":
        return m(x, l, x, l)
    return m(x, l)


def loss_of(o):
    o = o.float() if o.dtype == torch.bfloat16 else o
    w = torch.linspace(-1, 1, o.size(-1), dtype=o.dtype)
    return (o.tanh() * w).sum() + (o[..., 0] ** 2).sum() * 0.01


# ---------------------------------------------------------------- worker
_GANGS: dict = {}


def gangs_of(root, c):
    key = (c["kind"] == "ddp", c["intra"])
    if key not in _GANGS:
        gs = create_parallel_gangs(root)
        if c["kind"] != "ddp":
            gs = create_fsdp_gangs(gs, c["intra"])
        _GANGS[key] = gs
    return _GANGS[key]


def wrap(c, m, gs, broadcast, skip_init=False):
    if c["kind"] == "ddp":
        return to_ddp(m, gs, find_unused_parameters=c["unused"], normalize_grads=c["normalize"])
    return to_fsdp(m, gs, applier(c["family"], c["gran"]), version="v1" if c["kind"] == "fsdp1" else "v2",
                   mixed_precision_dtype=torch.bfloat16 if c["mp"] else None, fp32_reduce=c["fp32_reduce"], broadcast_state=broadcast,
                   skip_init=skip_init, reshard_after_forward=c["reshard"])


def local(c, m):
    f = get_data_parallel_facade(m)
    return {k: v.detach().clone() for k, v in (f.state_dict() if c["facade"] or c["kind"] == "ddp" else fsdp_local_state_dict(m)).items()}


def whole_layers(m, shapes):
    """Which layers hold whole (rather than sharded) parameters."""
    out: dict = {}
    for k, p in m.named_parameters():
        k = k.replace("_fsdp_wrapped_module.", "").replace("_checkpoint_wrapped_module.", "")
        i = k.find("layers.")
        if i >= 0 and len(shapes[k]) == 2:
            whole = p.shape == shapes[k] and not isinstance(p, DTensor)
            out.setdefault(k[: k.index(".", i + 7)], set()).add(whole)
    return out


def worker(root, c):
    if c.get("what") == "broadcast":
        return broadcast_worker(root, c)
    gs = gangs_of(root, c)
    rank = root.rank
    out: dict = {"logits": [], "norms": [], "summon": [], "states": []}
    meta = c["meta"] and rank != 0
    m = build(c, rank if c["broadcast"] else 0, meta)
    shapes = {k: v.shape for k, v in m.named_parameters()}
    if c["kind"] == "ddp":
        m = wrap(c, m, gs, True)
    else:
        m = wrap(c, m, gs, c["broadcast"])
    m.eval()
    f = get_data_parallel_facade(m)
    init = local(c, m)
    out["states"].append(init)
    opt = torch.optim.SGD([p for p in m.parameters() if p.requires_grad], lr=0.05)
    for s in range(c["steps"]):
        opt.zero_grad()
        logits = []
        for k in range(c["accum"]):
            x = data(c, s, rank, k)
            if k < c["accum"] - 1:
                ctxm = f.no_sync() if c["facade"] or c["kind"] == "ddp" else fsdp_no_sync(m)
                with ctxm:
                    o = call(c, m, x)
                    loss_of(o).backward()
            else:
                o = call(c, m, x)
                if s == 0 and c["kind"] != "ddp" and c["gran"] == "layer":
                    out["whole"] = whole_layers(m, shapes)
                loss_of(o).backward()
            logits.append(o.detach().clone())
        out["logits"].append(logits)
        out["norms"].append(float(f.clip_grad_norm(c["clip"])))
        opt.step()
        out["states"].append(local(c, m))
        if c["summon"] and c["kind"] != "ddp":
            res = []
            opt.zero_grad()
            with f.summon_full_parameters() if c["facade"] else fsdp_summon_full_parameters(m):
                # Ranks may call the model a different number of times.
                with torch.no_grad():
                    for i in range(rank % 3):
                        res.append(call(c, m, data(c, s, rank, 7 + i)).detach().clone())
            out["summon"].append(res)
    # Going back to the initial state.
    m.zero_grad(set_to_none=True)
    target = m
    if c["fresh"] and c["kind"] != "ddp":
        rng = torch.get_rng_state()
        m2 = build(c, rank + 50, c["fresh"] == "meta")
        if c["fresh"] == "meta":
            rng = torch.get_rng_state()
        target = wrap(c, m2, gs, False, skip_init=True)
        if c["fresh"] == "meta":
            out["rng"] = bool(torch.equal(rng, torch.get_rng_state()))
        target.eval()
    sd = {k: v.clone() for k, v in init.items()}
    if c["facade"] or c["kind"] == "ddp":
        get_data_parallel_facade(target).load_state_dict(sd)
    else:
        fsdp_load_local_state_dict(target, sd)
    out["again"] = local(c, target)
    with torch.no_grad():
        out["relogits"] = call(c, target, data(c, 0, rank, 0)).clone()
    out["gang"] = (gs.sdp.rank, gs.sdp.size, gs.rdp.rank, gs.rdp.size)
    return out


# ---------------------------------------------------------------- oracle
def reference(c, n):
    m = build(c)
    states = [{k: v.clone() for k, v in m.state_dict().items()}]
    out = {"logits": [], "norms": [], "summon": []}
    opt = torch.optim.SGD([p for p in m.parameters() if p.requires_grad], lr=0.05)
    for s in range(c["steps"]):
        opt.zero_grad()
        out["logits"].append([])
        for r in range(n):
            ls = []
            for k in range(c["accum"]):
                mm = m
                if c["mp"]:
                    mm = lower(m)
                o = call(c, mm, data(c, s, r, k))
                loss_of(o).backward()
                if c["mp"]:
                    for p, q in zip(m.parameters(), mm.parameters()):
                        if q.grad is not None:
                            p.grad = q.grad.float() if p.grad is None else p.grad + q.grad.float()
                ls.append(o.detach())
            out["logits"][-1].append(ls)
        if c["kind"] != "ddp" or c["normalize"]:
            for p in m.parameters():
                if p.grad is not None:
                    p.grad /= n
        out["norms"].append(float(nn.utils.clip_grad_norm_(m.parameters(), c["clip"] if c["clip"] is not None else float("inf"))))
        opt.step()
        states.append({k: v.clone() for k, v in m.state_dict().items()})
        mm = lower(m) if c["mp"] else m
        with torch.no_grad():
            out["summon"].append([[call(c, mm, data(c, s, r, 7 + i)) for i in range(r % 3)] for r in range(n)])
    out["states"] = states
    return out


def near(a, b, what, tol):
    a, b = a.double(), b.double()
    if a.shape != b.shape:
        raise Violation(f"{what}: shape {tuple(a.shape)}, expected {tuple(b.shape)}")
    if a.numel() == 0:
        return
    d = (a - b).abs().max().item()
    s = max(1.0, b.abs().max().item())
    if not d <= tol * s:
        raise Violation(f"{what} differs by {d:.3g}: {a.flatten()[:4].tolist()} != {b.flatten()[:4].tolist()}")


def stitch(parts, k, whole):
    """The whole of a parameter from the shards of its ranks."""
    ps = [p[k] for p in parts]
    if whole.dim() == 0:
        return ps[0]
    ps = [p for p in ps if p.numel()]
    return torch.cat(ps, 0) if ps else torch.zeros(0)


POOL: dict = {}


def pool(n):
    if n not in POOL:
        POOL[n] = ProcPool(n, worker)
    return POOL[n]


def run(n, c, retry=True):
    p = pool(n)
    res = p.run([c] * n)
    bad = [(r, x) for r, x in enumerate(res) if x[0] != "ok"]
    if not bad:
        return [x[1] for x in res]
    p.kill()
    del POOL[n]
    # One rank fails, the others lose their connection.
    first = [x for x in bad if x[1][0] == "err" and "pair closure" not in x[1][1][1] and "closed by peer" not in x[1][1][1]]
    if not first and retry:
        return run(n, c, False)  # a time-out on a busy machine does not happen twice
    r, x = (first or bad)[0]
    raise Violation(f"rank {r} of {n}: {x[0]}: {x[1][:2] if x[1] else ''}\n{x[1][2][-1500:] if x[1] else ''}")


@st.composite
def cases(draw, n, kind):
    fam = draw(st.sampled_from(FAMS))
    cfg = draw(CFG[fam]())
    if "dropout_p" in cfg:
        cfg["dropout_p"] = 0.0
    broadcast = kind != "fsdp1" and draw(st.booleans())  # FSDP1 broadcasts from an accelerator only
    return dict(n=n, kind=kind, family=fam, cfg=cfg, seed=draw(st.integers(0, 10**6)), steps=1 if kind == "fsdp1" else draw(st.integers(1, 2)), accum=draw(st.integers(1, 3)),
                clip=draw(st.sampled_from([None, None, 0.5, 100.0])), gran=draw(st.sampled_from(["layer", "layer", "stack", "model"])), reshard=draw(st.booleans()),
                broadcast=broadcast, meta=draw(st.booleans()) and (broadcast or kind == "ddp"), facade=draw(st.booleans()), summon=draw(st.booleans()),
                fresh=draw(st.sampled_from([None, "real", "meta"])), intra=(draw(st.sampled_from([None, 2])) if n == 4 else None), normalize=draw(st.booleans()),
                unused=fam == "gemma3n" or draw(st.booleans()), mp=kind != "ddp" and draw(st.sampled_from([False, False, False, True])), fp32_reduce=draw(st.booleans()),
                freeze=draw(st.sampled_from([False, False, True])))


def train(ctx, c):
    n = c["n"]
    ref = reference(c, n)
    got = run(n, c)
    tol = 0.1 if c["mp"] else 5e-4 if c["kind"] == "fsdp1" else 1e-5
    what = f"{c['family']}, {c['kind']} on {n} ranks"
    for s in range(c["steps"]):
        for r in range(n):
            for k in range(c["accum"]):
                if not (c["mp"] and s > 0):
                    near(got[r]["logits"][s][k], ref["logits"][s][r][k], f"{what}: output of rank {r} at step {s}, micro-batch {k}", tol)
            a, b = got[r]["norms"][s], ref["norms"][s]
            if not (c["mp"]):
                expect(abs(a - b) <= (1e-3 if c['kind'] == 'fsdp1' else 1e-4) * max(1e-2, b), f"{what}: gradient norm {a} on rank {r} at step {s}, expected {b}")
            if c["summon"] and c["kind"] != "ddp":
                expect_eq(len(got[r]["summon"][s]), r % 3, "calls")
                for i, o in enumerate(got[r]["summon"][s]):
                    if not c["mp"]:
                        near(o, ref["summon"][s][r][i], f"{what}: output of rank {r} with summoned parameters", tol)
    if "whole" in got[0]:
        for r in range(n):
            stacks: dict = {}
            for k in got[r]["whole"]:
                a, b = k.rsplit(".", 1)
                stacks.setdefault(a, []).append(int(b))
            for a, idx in stacks.items():
                for i in sorted(idx):
                    want_ = {not c["reshard"] or i == max(idx)}
                    expect_eq(got[r]["whole"][f"{a}.{i}"], want_, f"{what}: {a}.{i} of {max(idx) + 1} kept whole after the forward pass with `reshard_after_forward={c['reshard']}`")
    for i, want in enumerate(ref["states"]):
        if c["kind"] == "ddp":
            for r in range(n):
                compare(c, what, i, [got[r]["states"][i]], want, tol)
        else:
            size = got[0]["gang"][1]
            groups: dict = {}
            for r in range(n):
                sr, _, rr, _ = got[r]["gang"]
                groups.setdefault(rr, {})[sr] = got[r]["states"][i]
            expect_eq({len(g) for g in groups.values()}, {size}, "sizes of the sharding groups")
            for g in groups.values():
                compare(c, what, i, [g[q] for q in range(size)], want, tol)
    for r in range(n):
        a, b = got[r]["again"], got[r]["states"][0]
        expect_eq(set(a), set(b), "keys of the restored state")
        for k in a:
            expect(torch.equal(a[k], b[k]), f"{what}: {k} on rank {r} is not what was restored")
        near(got[r]["relogits"], ref["logits"][0][r][0], f"{what}: output of rank {r} after restoring", tol)
        if "rng" in got[r]:
            expect(got[r]["rng"], f"{what}: parameters were initialised in spite of `skip_init`")
    ctx.label(c["family"], c["kind"], c["gran"] if c["kind"] != "ddp" else "", "mp" if c["mp"] else "", "hybrid" if c["intra"] else "", "meta" if c["meta"] else "")
    ctx.nontrivial(c["accum"] > 1 or c["steps"] > 1)


def compare(c, what, i, parts, want, tol):
    for p in parts:
        expect_eq(set(p), set(want), f"{what}: keys of the state")
    for k, w in want.items():
        a = stitch(parts, k, w)
        if i == 0:
            expect(a.shape == w.shape and torch.equal(a.float(), w.float()), f"{what}: {k} is not that of the first rank after wrapping")
        elif not c["mp"]:
            near(a, w, f"{what}: {k} after {i} steps", tol)
        else:
            expect(a.dtype == w.dtype and a.shape == w.shape and bool(a.isfinite().all()), f"{what}: {k} after {i} steps is {a}")


# ---------------------------------------------------------------- broadcast_module
class Leaf(nn.Module):
    def __init__(self, spec, rank):
        super().__init__()
        g = torch.Generator().manual_seed(spec["seed"] + rank * 1000)
        for i, (kind, shape, dt) in enumerate(spec["tensors"]):
            v = (torch.randn(shape, generator=g) * 10).to(getattr(torch, dt))
            if kind == "param":
                self.register_parameter(f"t{i}", nn.Parameter(v, requires_grad=v.is_floating_point()))
            elif kind == "buffer":
                self.register_buffer(f"t{i}", v)
            elif kind == "temp":
                self.register_buffer(f"t{i}", v, persistent=False)
            else:
                self.register_buffer(f"t{i}", None)
        for j, ch in enumerate(spec["children"]):
            self.add_module(f"c{j}", Leaf(ch, rank))


def make_tree(c, rank):
    m = Leaf(c["tree"], rank)
    mods = list(m.modules())
    for a, b in c["ties"]:
        a, b = mods[a % len(mods)], mods[b % len(mods)]
        if a is not b and "shared" not in a._parameters and "shared" not in b._parameters:
            p = nn.Parameter(torch.full((2,), float(rank)))
            a.register_parameter("shared", p)
            b.register_parameter("shared", p)
    return m, mods


def broadcast_worker(root, c):
    m, mods = make_tree(c, root.rank)
    skip = {mods[i % len(mods)] for i in c["skip"]}
    broadcast_module(m, root, source_rank=c["source"], non_persistent_buffers=c["nonp"], skip_modules=skip)
    return {k: v.detach().clone() for k, v in [*m.named_parameters(remove_duplicate=False), *m.named_buffers()]}


@st.composite
def trees(draw, n):
    leaf = st.fixed_dictionaries(dict(seed=st.integers(0, 99), tensors=st.lists(st.tuples(
        st.sampled_from(["param", "buffer", "temp", "none"]), st.sampled_from([[], [1], [3], [2, 2], [0]]), st.sampled_from(["float32", "bfloat16", "int64", "float64"])), max_size=3)))

    def node(depth):
        d = dict(draw(leaf))
        d["children"] = [node(depth - 1) for _ in range(draw(st.integers(0, 2)))] if depth else []
        return d

    return dict(what="broadcast", n=n, tree=node(2), source=draw(st.integers(0, n - 1)), nonp=draw(st.booleans()),
                skip=draw(st.lists(st.integers(0, 9), max_size=2)), ties=draw(st.lists(st.tuples(st.integers(0, 9), st.integers(0, 9)), max_size=2)))


def broadcast(ctx, c):
    got = run(c["n"], c)
    src = make_tree(c, c["source"])[0]
    want = dict([*src.named_parameters(remove_duplicate=False), *src.named_buffers()])
    m, mods = make_tree(c, 0)
    names = {id(mod): name for name, mod in m.named_modules()}
    skipped = {names[id(mods[i % len(mods)])] for i in c["skip"]}
    temp = {(n + "." if n else "") + b for n, mod in m.named_modules() for b in mod._non_persistent_buffers_set}
    shared: dict = {}
    for k, v in [*m.named_parameters(remove_duplicate=False), *m.named_buffers()]:
        shared.setdefault(id(v), []).append(k)

    def sent(k):
        path = k.split(".")[:-1]
        return not any(".".join(path[:i]) in skipped for i in range(len(path) + 1))

    moved = 0
    for r in range(c["n"]):
        own = make_tree(c, r)[0]
        mine = dict([*own.named_parameters(remove_duplicate=False), *own.named_buffers()])
        expect_eq(set(got[r]), set(want), "tensors")
        for ks in shared.values():
            go = any(sent(k) and (c["nonp"] or k not in temp) for k in ks)
            for k in ks:
                w = want[k] if go else mine[k]
                moved += go and r != c["source"]
                expect(got[r][k].dtype == w.dtype and torch.equal(got[r][k], w), f"{k} on rank {r}: {got[r][k]}, expected {w.detach()} ({'broadcast' if go else 'left alone'})")
    ctx.nontrivial(moved > 0 and bool(skipped))


def arm(n, kind, quick, thorough):
    return Arm(f"{kind}_{n}", lambda: cases(n, kind), train, quick=quick, thorough=thorough, timeout=120)


main(
    Prop(
        "F01",
        [
            arm(2, "ddp", 60, 1500),
            arm(2, "fsdp2", 60, 1500),
            arm(3, "fsdp2", 40, 1000),
            arm(4, "fsdp2", 30, 800),
            arm(2, "fsdp1", 40, 1000),
            arm(4, "fsdp1", 24, 600),
            Arm("broadcast_3", lambda: trees(3), broadcast, quick=300, thorough=5000, timeout=120),
        ],
        rule="several steps or micro-batches; broadcast: some tensors are sent and some modules skipped",
        assumptions=["CPU with Gloo; models without batch normalisation (its synchronised variant needs an accelerator); FSDP1 without broadcasting the initial state", "evaluation mode (no dropout)"],
    )
)

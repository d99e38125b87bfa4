"""N05: module-tree utilities act on exactly the modules and parameters they name."""
import boot

boot.boot(init=True)

import logging
import math
import re
import warnings

import torch
from gangs import ThreadGang, run_ranks
from harness import Arm, Prop, Violation, expect, expect_close, expect_eq, main, raises
from hypothesis import strategies as st
from torch.nn import Module, Parameter

from fairseq2.device import CPU
from fairseq2.error import StateDictError
from fairseq2.nn.utils.grad import InconsistentGradNormError, check_grad_norms, clip_grad_norm, normalize_grads, scale_grads
from fairseq2.nn.utils.module import (
    apply_to_parameters,
    broadcast_module,
    freeze_parameters,
    load_state_dict,
    maybe_infer_device,
    remove_parametrizations,
    reset_non_persistent_buffers,
    reset_parameters,
    select_parameters,
    share_parameters,
    to_device,
    to_empty,
    visit_module,
)

warnings.simplefilter("ignore")
logging.disable(logging.WARNING)
META = torch.device("meta")


# ---------------------------------------------------------------- random module trees
class Node(Module):
    """A module with a log of what was done to it."""

    def __init__(self, nid):
        super().__init__()
        self.nid = nid
        self.log = []


class ResetNode(Node):
    def reset_parameters(self):
        self.log.append("reset")
        with torch.no_grad():
            for p in self.parameters(recurse=False):
                p.fill_(7)
            for b in self.buffers(recurse=False):
                b.fill_(9)


class BufNode(ResetNode):
    def reset_non_persistent_buffers(self):
        self.log.append("resetbuf")


@st.composite
def trees(draw):
    k = draw(st.integers(1, 5))
    nt = draw(st.integers(1, 6))
    nodes = []
    for i in range(k):
        kids = []
        for j in range(draw(st.integers(0, 3 if i < k - 1 else 0))):
            kids.append(draw(st.one_of(st.none(), st.integers(i + 1, k - 1), st.integers(i + 1, k - 1))))
        nodes.append(dict(
            cls=draw(st.sampled_from(["Node", "ResetNode", "BufNode"])), kids=kids,
            params=draw(st.lists(st.integers(0, nt - 1), min_size=draw(st.sampled_from([0, 1, 1])), max_size=2)), nparam=draw(st.booleans()),
            bufs=draw(st.lists(st.tuples(st.integers(0, 3), st.booleans()), max_size=2)), nbuf=draw(st.booleans())))
    for i in range(1, k):
        # Most nodes hang somewhere in the tree.
        if draw(st.integers(0, 4)):
            nodes[draw(st.integers(0, i - 1))]["kids"].append(i)
    return dict(nodes=nodes, seed=draw(st.integers(0, 9999)),
                frozen=draw(st.lists(st.integers(0, nt - 1), max_size=2)), grads=draw(st.lists(st.integers(0, nt - 1), max_size=3)))


def build(t, device=CPU, seed=None, grads=True):
    g = torch.Generator().manual_seed(t["seed"] if seed is None else seed)
    pool, bpool = {}, {}

    def par(i):
        if i not in pool:
            v = torch.randn(1 + i % 3, 2, generator=g)
            p = Parameter(v.to(device), requires_grad=i not in t["frozen"])
            if grads and i in t["grads"] and i not in t["frozen"] and device == CPU:
                p.grad = torch.randn(v.shape, generator=g)
            pool[i] = p
        return pool[i]

    def buf(i, persistent):
        if (i, persistent) not in bpool:
            bpool[i, persistent] = torch.randn(2, generator=g).to(device)
        return bpool[i, persistent]

    mods = []
    for i, n in enumerate(t["nodes"]):
        m = {"Node": Node, "ResetNode": ResetNode, "BufNode": BufNode}[n["cls"]](i)
        for j, p in enumerate(n["params"]):
            m.register_parameter(f"p{j}", par(p))
        if n["nparam"]:
            m.register_parameter("none", None)
        for j, (b, pers) in enumerate(n["bufs"]):
            m.register_buffer(f"b{j}", buf(b, pers), persistent=pers)
        if n["nbuf"]:
            m.register_buffer("nb", None)
        mods.append(m)
    for m, n in zip(mods, t["nodes"]):
        for j, c in enumerate(n["kids"]):
            m.register_module(f"c{j}", None if c is None else mods[c])
    return mods[0], mods


def paths(t, i=0, prefix=""):
    """Every path to every node, in the order of the definition."""
    yield prefix, i
    for j, c in enumerate(t["nodes"][i]["kids"]):
        if c is not None:
            yield from paths(t, c, f"{prefix}.c{j}" if prefix else f"c{j}")


def order(t, post):
    seen, out = set(), []

    def walk(i, name):
        if i in seen:
            return
        seen.add(i)
        if not post:
            out.append((name, i))
        for j, c in enumerate(t["nodes"][i]["kids"]):
            if c is not None:
                walk(c, f"{name}.c{j}" if name else f"c{j}")
        if post:
            out.append((name, i))

    walk(0, "")
    return out


def slots(mods):
    """Every place that holds a tensor, with the tensor."""
    out = {}
    for m in mods:
        for k, p in m._parameters.items():
            out[m.nid, k] = p
        for k, b in m._buffers.items():
            out[m.nid, k] = b
    return out


def ties(sl):
    ids = {}
    return {k: (None if v is None else ids.setdefault(id(v), k)) for k, v in sl.items()}


def reachable(t):
    return {i for _, i in paths(t)}


# ---------------------------------------------------------------- visiting
@st.composite
def visit_cases(draw):
    return dict(t=draw(trees()), post=draw(st.booleans()), recurse=draw(st.sampled_from([True, True, False])), memo=draw(st.lists(st.integers(0, 4), max_size=2)))


def visit_arm(ctx, c):
    t = c["t"]
    root, mods = build(t)
    want = order(t, c["post"])
    if len(want) < len(list(paths(t))):
        ctx.label("shared module")
    if len(want) > 1:
        ctx.nontrivial()
    got = []
    visit_module(root, lambda n, m: got.append((n, m.nid)), recurse=c["recurse"], post_order=c["post"])
    expect_eq(got, want if c["recurse"] else [("", 0)], "modules visited")
    # Modules in the memo are skipped, with all that only they reach.
    skip = {i for i in c["memo"] if i in reachable(t)}
    memo = {mods[i] for i in skip}
    got = []
    visit_module(root, lambda n, m: got.append(m.nid), post_order=c["post"], memo=memo)
    seen = set(skip)

    def walk(i):
        if i in seen:
            return
        seen.add(i)
        for k in t["nodes"][i]["kids"]:
            if k is not None:
                walk(k)

    walk(0)
    expect_eq(sorted(got), sorted(seen - skip), "modules visited with a memo")
    for fn, tag, classes in ((reset_parameters, "reset", ("ResetNode", "BufNode")), (reset_non_persistent_buffers, "resetbuf", ("BufNode",))):
        for m in mods:
            m.log.clear()
        fn(root, recurse=c["recurse"])
        for m in mods:
            hit = m.nid in (reachable(t) if c["recurse"] else {0}) and t["nodes"][m.nid]["cls"] in classes
            expect_eq(m.log, [tag] if hit else [], f"{fn.__name__}: what happened to module {m.nid}")


# ---------------------------------------------------------------- moving and mapping
@st.composite
def move_cases(draw):
    return dict(t=draw(trees()), what=draw(st.sampled_from(["apply", "apply", "identity", "norecurse", "empty", "device", "device", "mixed", "tometa"])),
                meta=draw(st.lists(st.booleans(), min_size=5, max_size=5)), pick=draw(st.integers(0, 9)))


def snapshot(mods):
    return {k: (None if v is None else (v, v.requires_grad, isinstance(v, Parameter), None if v.grad is None else v.grad.clone(),
                                        None if v.is_meta else v.detach().clone())) for k, v in slots(mods).items()}


def check_kept(before, mods, live, what, values=None):
    sl = slots(mods)
    expect_eq(list(sl), list(before), f"{what}: places of parameters and buffers")
    lv = lambda d: {k: v for k, v in d.items() if k[0] in live or not live}  # noqa: E731
    expect_eq(ties(lv(sl)), ties(lv({k: None if v is None else v[0] for k, v in before.items()})), f"{what}: which places share a tensor")
    for k, v in sl.items():
        b = before[k]
        if b is None:
            expect(v is None, f"{what}: {k} was None and is not any more")
            continue
        if k[0] not in live:
            expect(v is b[0], f"{what}: {k} is not part of the module, but was replaced")
            continue
        expect_eq((v.requires_grad, isinstance(v, Parameter), tuple(v.shape)), (b[1], b[2], tuple(b[0].shape)), f"{what}: requires_grad, kind and shape of {k}")
        if values is not None:
            expect(torch.equal(v.detach(), values(b[4])), f"{what}: value of {k}")
            if b[3] is not None:
                expect(v.grad is not None and torch.equal(v.grad, values(b[3])), f"{what}: gradient of {k}")
            else:
                expect(v.grad is None, f"{what}: {k} has a gradient")


def move_arm(ctx, c):
    t, what = c["t"], c["what"]
    ctx.label(what)
    live = reachable(t)
    if what in ("apply", "identity", "norecurse"):
        root, mods = build(t)
        before = snapshot(mods)
        pers = {m.nid: set(m._non_persistent_buffers_set) for m in mods}
        calls = []

        def fn(x):
            calls.append(id(x))
            return x if what == "identity" else x.detach() * 2 + 1

        if what == "norecurse":
            live = {0}
            # Tensors that the root shares with others stop being shared: a caller's memo keeps them together.
            memo = {}
            apply_to_parameters(root, fn, recurse=False, memo=memo)
            sl = slots(mods)
            for k, v in sl.items():
                if before[k] is None:
                    continue
                if k[0] == 0:
                    expect(torch.equal(v.detach(), before[k][4] * 2 + 1), f"value of {k}")
                    expect(memo.get(before[k][0]) is v, "the memo does not hold the new tensor")
                else:
                    expect(v is before[k][0], f"{k} of a descendant was changed")
            return
        if len([v for k, v in before.items() if v is not None]) > 1:
            ctx.nontrivial()
        apply_to_parameters(root, fn)
        expect_eq(len(calls), len(set(calls)), "a tensor was converted twice")
        check_kept(before, mods, live, what, values=(lambda x: x) if what == "identity" else (lambda x: x * 2 + 1))
        if what == "identity":
            for k, v in slots(mods).items():
                expect(v is None or v is before[k][0], f"{k} was replaced though its tensor did not change")
        expect_eq({m.nid: set(m._non_persistent_buffers_set) for m in mods}, pers, "non-persistent buffers")
        return
    if what == "tometa":
        root, mods = build(t)
        before = snapshot(mods)
        to_device(root, META)
        check_kept(before, mods, live, what)
        for k, v in slots(mods).items():
            expect(v is None or k[0] not in live or v.is_meta, f"{k} was not moved")
        return
    if what == "empty":
        root, mods = build(t, META)
        before = snapshot(mods)
        to_empty(root, CPU)
        check_kept(before, mods, live, what)
        for k, v in slots(mods).items():
            expect(v is None or k[0] not in live or v.device == CPU, f"{k} was not moved")
        for m in mods:
            expect_eq(m.log, [], "to_empty reset a module")
        return
    # to_device: each module is wholly on CPU or wholly on meta; tensors are not shared between the two.
    t = dict(t, nodes=[dict(n) for n in t["nodes"]])
    metas = {i: c["meta"][i] for i in range(len(t["nodes"]))}
    for i, n in enumerate(t["nodes"]):
        n["params"] = [p + (20 if metas[i] else 0) for p in n["params"]]
        n["bufs"] = [(b + (20 if metas[i] else 0), q) for b, q in n["bufs"]]
    root, mods = build(t)
    for m in mods:
        if metas[m.nid]:
            memo = {}
    memo = {}
    for m in mods:
        if metas[m.nid]:
            apply_to_parameters(m, lambda x: x.to(META), recurse=False, memo=memo)
    if what == "mixed":
        # One module holds tensors of both kinds.
        cands = [m for m in mods if m.nid in live and any(True for _ in m.parameters(recurse=False))]
        if not cands:
            return
        bad = cands[c["pick"] % len(cands)]
        bad.register_buffer("odd", torch.zeros(1, device=CPU if next(bad.parameters(recurse=False)).is_meta else META))
        before = snapshot(mods)
        expect(maybe_infer_device(bad, recurse=False) is None, "the device of a mixed module was inferred")
        raises(ValueError, lambda: to_device(root, CPU))
        for k, v in slots(mods).items():
            expect(v is None or v is before[k][0], f"{k} was replaced by a rejected move")
        ctx.nontrivial()
        return
    before = snapshot(mods)
    devs = {v.device for k, v in slots(mods).items() if v is not None and k[0] in live}
    dev = maybe_infer_device(root)
    expect_eq(dev, CPU if not devs else devs.pop() if len(devs) == 1 else None, "inferred device")
    to_device(root, CPU)
    check_kept(before, mods, live, what)
    if any(metas[i] for i in live):
        ctx.nontrivial()
    reset_ids = set()
    for m in mods:
        own = [v for v in [*m._parameters.values(), *m._buffers.values()] if v is not None]
        moved = m.nid in live and metas[m.nid] and own
        hit = moved and t["nodes"][m.nid]["cls"] != "Node"
        expect_eq(m.log, ["reset"] if hit else [], f"resets of module {m.nid}")
        if hit:
            reset_ids.update(id(v) for v in own)
    for k, v in slots(mods).items():
        if v is None or k[0] not in live:
            continue
        expect(v.device == CPU, f"{k} was not moved")
        if not metas[k[0]]:
            expect(v is before[k][0] and torch.equal(v.detach(), before[k][4]), f"{k} was on the device and was changed")
        elif id(v) in reset_ids:
            expect(bool((v == (7 if isinstance(v, Parameter) else 9)).all()), f"{k} does not hold its initial value")


# ---------------------------------------------------------------- sharing
@st.composite
def share_cases(draw):
    return dict(t=draw(trees()), fault=draw(st.sampled_from([None, None, None, "name", "count", "gradsrc", "gradtgt"])))


def share_arm(ctx, c):
    t, fault = c["t"], c["fault"]
    ctx.label(fault or "ok")
    src, smods = build(t, seed=1, grads=False)
    tgt, tmods = build(t, seed=2, grads=False)
    params = list(src.named_parameters())
    if fault == "count":
        tgt.register_parameter("extra", Parameter(torch.zeros(1)))
    elif fault == "name":
        src.register_parameter("aaa", Parameter(torch.zeros(1)))
        tgt.register_parameter("bbb", Parameter(torch.zeros(1)))
    elif fault in ("gradsrc", "gradtgt"):
        ps = list((src if fault == "gradsrc" else tgt).parameters())
        if not ps:
            return
        ps[-1].grad = torch.zeros_like(ps[-1])
    live = reachable(t)
    before = snapshot(tmods)
    sbefore = snapshot(smods)
    if fault:
        ctx.nontrivial()
        raises(ValueError, lambda: share_parameters(src, tgt))
        for k, v in slots(tmods).items():
            expect(v is None or v is before[k][0], f"{k} was replaced by a rejected call")
        return
    if params:
        ctx.nontrivial()
    share_parameters(src, tgt)
    ss = slots(smods)
    for k, v in slots(tmods).items():
        if k[0] in live:
            expect(v is ss[k], f"{k} is not shared with the source")
        else:
            expect(v is None or v is before[k][0], f"{k} is not part of the module")
    for k, v in ss.items():
        expect(v is None or (v is sbefore[k][0] and torch.equal(v.detach(), sbefore[k][4]) and v.requires_grad == sbefore[k][1]), f"the source's {k} was changed")


# ---------------------------------------------------------------- freezing and selecting
PATTERNS = ["p0", "c0", "c0.p0", r"c[01]\.p0", r".*p1$", r".*\.p0", "c1.c0.p1", "", "none", r"c0\..*", "zzz", r"p0$"]


@st.composite
def select_cases(draw):
    return dict(t=draw(trees()), names=draw(st.lists(st.sampled_from(PATTERNS), min_size=draw(st.sampled_from([0, 1, 1])), max_size=3)), exclude=draw(st.booleans()), value=draw(st.booleans()), node=draw(st.integers(0, 4)))


def select_arm(ctx, c):
    t = c["t"]
    root, mods = build(t)
    got = list(select_parameters(root, c["names"], exclude=c["exclude"]))
    seen, want = set(), []
    for prefix, i in paths(t):
        for j, _ in enumerate(t["nodes"][i]["params"]):
            p = mods[i]._parameters[f"p{j}"]
            if id(p) in seen:
                continue
            seen.add(id(p))
            n = f"{prefix}.p{j}" if prefix else f"p{j}"
            if any(n == q or re.match(q, n) for q in c["names"]) != c["exclude"]:
                want.append((n, id(p)))
    expect_eq([(n, id(p)) for n, p in got], want, f"parameters selected by {c['names']}")
    if 0 < len(want) < len(seen):
        ctx.nontrivial()
    m = mods[c["node"] % len(mods)]
    before = {id(p): p.requires_grad for x in mods for p in x.parameters()}
    freeze_parameters(m, c["value"])
    inside = {id(p) for p in m.parameters()}
    for x in mods:
        for p in x.parameters():
            expect_eq(p.requires_grad, (not c["value"]) if id(p) in inside else before[id(p)], "requires_grad after freezing")
    freeze_parameters(None)
    m = torch.nn.Linear(1, 1)
    freeze_parameters(m)
    expect(not m.weight.requires_grad and not m.bias.requires_grad, "freeze_parameters() does not freeze by default")


# ---------------------------------------------------------------- state
@st.composite
def state_cases(draw):
    return dict(t=draw(trees()), fault=draw(st.sampled_from([None, None, "missing", "extra", "none", "nonenested"])), pick=draw(st.integers(0, 20)), strict=draw(st.sampled_from([True, True, False])))


def state_arm(ctx, c):
    t, fault = c["t"], c["fault"]
    src, smods = build(t, seed=1)
    tgt, tmods = build(t, seed=2)
    sd = src.state_dict()
    keys = sorted(sd)
    nones = [(f"{p}.c{j}" if p else f"c{j}") for p, i in paths(t) for j, k in enumerate(t["nodes"][i]["kids"]) if k is None]
    ctx.label(str(fault))
    if fault in ("none", "nonenested"):
        if not nones:
            return
        key = nones[c["pick"] % len(nones)] + (".w" if fault == "none" else ".deep.w")
        sd[key] = torch.zeros(1)
        ctx.nontrivial()
        # A module that is None takes no state, strict or not.
        raises((StateDictError, RuntimeError), lambda: load_state_dict(tgt, sd, strict=c["strict"]))
        return
    if fault == "missing":
        if not keys:
            return
        del sd[keys[c["pick"] % len(keys)]]
    elif fault == "extra":
        sd["unknown.w"] = torch.zeros(1)
    if fault and c["strict"]:
        ctx.nontrivial()
        raises(RuntimeError, lambda: load_state_dict(tgt, sd))
        return
    if keys:
        ctx.nontrivial()
    before = snapshot(tmods)
    load_state_dict(tgt, sd, strict=c["strict"])
    check_kept(before, tmods, set(), "load_state_dict")  # loads in place
    got = tgt.state_dict()
    for k in keys:
        if k in sd:
            expect(torch.equal(got[k], sd[k]), f"{k} was not loaded")
    # State that is not part of the dictionary stays.
    np = {(m.nid, k) for m in tmods for k in m._non_persistent_buffers_set}
    for k, v in slots(tmods).items():
        if k in np and v is not None:
            expect(torch.equal(v, before[k][4]), f"non-persistent {k} was changed")


# ---------------------------------------------------------------- gradients
@st.composite
def grad_cases(draw):
    n = draw(st.integers(1, 3))
    return dict(t=draw(trees()), n=n, what=draw(st.sampled_from(["normalize", "scale", "clip", "clip", "check"])),
                targets=draw(st.lists(st.integers(0, 9), min_size=n, max_size=n)), value=draw(st.sampled_from([0.0, 0.5, -2.0, 3.0])),
                tensor=draw(st.booleans()), max_norm=draw(st.one_of(st.none(), st.floats(0.01, 20))), p=draw(st.sampled_from([1.0, 2.0, 3.0, math.inf])),
                norms=draw(st.lists(st.sampled_from([1.0, 1.0, 2.0, math.inf, math.nan, 1.0 + 1e-7, 1.0001, 0.0]), min_size=n, max_size=n)))


def grad_arm(ctx, c):
    t, what, n = c["t"], c["what"], c["n"]
    ctx.label(what)
    if what == "check":
        if n > 1:
            ctx.nontrivial()
        ns = torch.tensor(c["norms"])

        def body(gang):
            try:
                check_grad_norms(ns[gang.rank].clone(), gang, 5)
            except InconsistentGradNormError as ex:
                expect_eq((ex.step_nr, len(ex.grad_norms)), (5, n), "the error's fields")
                return False
            return True

        fin = ns.isfinite()
        near = fin.all() and bool(((ns - ns[0]).abs().max() / (ns[0] + 1e-6)) < 1e-6)
        ok = n == 1 or bool(near) or not fin.any()
        expect_eq(run_ranks(n, body), [ok] * n, f"whether gradient norms {c['norms']} agree")
        return
    # Distinct gradients per rank.
    def make(r):
        root, mods = build(t, seed=t["seed"])
        g = torch.Generator().manual_seed(t["seed"] + r)
        live = [p for p in root.parameters() if p.grad is not None]
        for p in live:
            p.grad = torch.randn(p.shape, generator=g)
        return root, live

    if what == "normalize":
        def body(gang):
            root, live = make(gang.rank)
            grads = [p.grad.clone() for p in live]
            normalize_grads(root, gang, c["targets"][gang.rank])
            f = n / max(1, sum(c["targets"]))
            for p, g0 in zip(live, grads):
                expect_close(p.grad, g0 * f, "normalised gradient", atol=1e-6, rtol=1e-6)
            return bool(live)

        if any(run_ranks(n, body)) and n > 1:
            ctx.nontrivial()
        return
    root, live = make(0)
    grads = [p.grad.clone() for p in live]
    if live:
        ctx.nontrivial()
    if what == "scale":
        scale_grads(root, torch.tensor(c["value"]) if c["tensor"] else c["value"])
        for p, g0 in zip(live, grads):
            expect_close(p.grad, g0 * c["value"], "scaled gradient", atol=1e-6)
        expect(all(p.grad is None for p in root.parameters() if not any(p is q for q in live)), "a gradient appeared")
        return
    flat = torch.cat([g.flatten() for g in grads]).double() if grads else torch.zeros(0)
    if not grads:
        want = 0.0
    elif c["p"] == math.inf:
        want = float(flat.abs().max())
    else:
        want = float((flat.abs() ** c["p"]).sum() ** (1 / c["p"]))
    values = [p.detach().clone() for p in root.parameters()]
    norm = clip_grad_norm(root, c["max_norm"], c["p"])
    expect_close(torch.as_tensor(norm).double(), torch.tensor(want, dtype=torch.float64), f"norm of order {c['p']}", atol=1e-5, rtol=1e-5)
    f = 1.0 if c["max_norm"] is None else min(1.0, c["max_norm"] / (want + 1e-6))
    for p, g0 in zip(live, grads):
        expect_close(p.grad, g0 * f, "clipped gradient", atol=1e-5)
    expect(all(torch.equal(a, b) for a, b in zip(values, root.parameters())), "clipping changed a parameter")


# ---------------------------------------------------------------- broadcast
@st.composite
def bcast_cases(draw):
    n = draw(st.integers(1, 3))
    return dict(t=draw(trees()), n=n, src=draw(st.integers(0, n - 1)), np=draw(st.booleans()), skip=draw(st.lists(st.integers(0, 4), max_size=2)))


def bcast_arm(ctx, c):
    import torch.distributed as dist

    t, n = c["t"], c["n"]

    def fake(gang, tensors, bucket, rank):
        sig = gang._xchg("sig", [tuple(x.shape) for x in tensors])
        if any(s != sig[0] for s in sig):
            raise Violation(f"the ranks broadcast different tensors: {sig}")
        for x in tensors:
            gang.broadcast(x, rank)

    keep, keep_pg = dist._broadcast_coalesced, ThreadGang.as_process_group
    dist._broadcast_coalesced = fake
    ThreadGang.as_process_group = lambda self: self
    try:
        def body(gang):
            root, mods = build(t, seed=10 + gang.rank)
            before = snapshot(mods)
            skip = {mods[i] for i in c["skip"] if i < len(mods)}
            broadcast_module(root, gang, source_rank=c["src"], non_persistent_buffers=c["np"], skip_modules=skip or None)
            for k, v in slots(mods).items():
                expect(v is None or v is before[k][0], f"{k} was replaced")
            return {k: (None if v is None else v.detach().clone()) for k, v in slots(mods).items()}, mods

        out = run_ranks(n, body)
    finally:
        dist._broadcast_coalesced = keep
        ThreadGang.as_process_group = keep_pg
    mods = out[0][1]
    # Modules reached without entering a skipped one.
    live, todo = set(), [0]
    while todo:
        i = todo.pop()
        if i in live or i in c["skip"]:
            continue
        live.add(i)
        todo += [k for k in t["nodes"][i]["kids"] if k is not None]
    tie = ties(slots(mods))
    shared = {tie[k] for k, v in slots(mods).items() if v is not None and k[0] in live and (c["np"] or k[1] not in mods[k[0]]._non_persistent_buffers_set)}
    if n > 1 and shared:
        ctx.nontrivial()
    src_sl, _ = out[c["src"]]
    for r in range(n):
        orig = {k: None if v is None else v.detach() for k, v in slots(build(t, seed=10 + r)[1]).items()}
        for k, v in out[r][0].items():
            if v is None:
                continue
            hit = tie[k] in shared
            expect(torch.equal(v, src_sl[k] if hit else orig[k]), f"{k} on rank {r} of {n} " + ("differs from the source's" if hit else "was not to be broadcast, but changed"))
    so = {k: None if v is None else v.detach() for k, v in slots(build(t, seed=10 + c["src"])[1]).items()}
    expect(all(v is None or torch.equal(v, so[k]) for k, v in src_sl.items()), "the source rank's module changed")


# ---------------------------------------------------------------- weight norm
@st.composite
def wn_cases(draw):
    return dict(norm=draw(st.lists(st.booleans(), min_size=3, max_size=3)), recurse=draw(st.sampled_from([True, True, False])), seed=draw(st.integers(0, 999)), dim=draw(st.integers(0, 1)))


def wn_arm(ctx, c):
    from torch.nn.utils import weight_norm

    torch.manual_seed(c["seed"])
    a, b, d = torch.nn.Linear(3, 3), torch.nn.Conv1d(3, 3, 1), torch.nn.Linear(3, 3)
    for f, m in zip(c["norm"], (a, b, d)):
        if f:
            weight_norm(m, dim=c["dim"])
            with torch.no_grad():
                m.weight_g.mul_(1.7)
    net = torch.nn.Sequential(a, torch.nn.Sequential(d))
    net.conv = b
    x = torch.randn(2, 3)
    f = lambda: (a(x), b(x[..., None]), d(x))  # noqa: E731
    y = f()
    remove_parametrizations(net, recurse=c["recurse"])
    if any(c["norm"]):
        ctx.nontrivial()
    for i, (m, flag) in enumerate(zip((a, b, d), c["norm"])):
        names = {k for k, _ in m.named_parameters()}
        if c["recurse"] or not flag:
            expect_eq(names, {"weight", "bias"}, "parameters after removing weight norm")
        else:
            expect_eq(names, {"weight_g", "weight_v", "bias"}, "parameters of a descendant without recursion")
    for u, v in zip(y, f()):
        expect_close(u, v, "output after removing weight norm", atol=1e-6)


main(Prop("N05", [
    Arm("visit", visit_cases, visit_arm, quick=500, thorough=10000),
    Arm("move", move_cases, move_arm, quick=800, thorough=15000),
    Arm("share", share_cases, share_arm, quick=400, thorough=8000),
    Arm("select", select_cases, select_arm, quick=400, thorough=8000),
    Arm("state", state_cases, state_arm, quick=400, thorough=8000),
    Arm("grads", grad_cases, grad_arm, quick=500, thorough=8000),
    Arm("bcast", bcast_cases, bcast_arm, quick=300, thorough=5000),
    Arm("wnorm", wn_cases, wn_arm, quick=60, thorough=500),
], rule="the tree has more than the trivial content for its operation (several modules or parameters, a real fault, or several ranks)",
    assumptions=["gangs are threads; coalesced broadcast is replaced by one broadcast per tensor", "devices: cpu and meta"]))

"""O01: the loss scaler follows its dynamic scaling rule and resumes exactly."""
import boot

boot.boot()

import copy
import math

import numpy as np
import torch
from torch.amp.grad_scaler import GradScaler
from torch.distributed.fsdp.sharded_grad_scaler import ShardedGradScaler


# There is no GPU here, and PyTorch turns a scaler for CUDA (its default) off.
def _on_cpu(cls):
    init = cls.__init__

    def __init__(self, *args, **kwargs):
        if not args:
            kwargs.setdefault("device", "cpu")
        init(self, *args, **kwargs)

    cls.__init__ = __init__


_on_cpu(GradScaler)
_on_cpu(ShardedGradScaler)

from harness import Arm, Prop, Violation, expect, expect_eq, main, raises
from hypothesis import strategies as st

from fairseq2.device import CPU
from fairseq2.error import StateDictError
from fairseq2.gang import FakeGang, Gangs, create_fake_gangs
from fairseq2.optim.fp16_loss_scaler import NOOP_FP16_LOSS_SCALER, StandardFloat16LossScaler
from gangs import ProcPool

LR = 0.5
GOOD = ["ok", "ok_small", "ok_big"]
BAD = ["inf", "-inf", "nan", "mixed", "late_nan"]


class Model:
    """The rule, in float32 as PyTorch keeps the scale."""

    def __init__(self, cfg):
        self.init, self.factor, self.window, self.min = cfg
        self.scale, self.good = np.float32(self.init), 0

    def step(self, bad):
        old = self.scale
        if bad:
            self.good = 0
            new = np.float32(float(old) * (1 / self.factor))
            exploded = float(new) < self.min
            if exploded:
                new = np.float32(self.min)
            self.scale = new
            return old, new, False, True, exploded
        self.good += 1
        new = old
        if self.good == self.window:
            self.good = 0
            with np.errstate(over="ignore"):
                g = np.float32(float(old) * self.factor)
            if np.isfinite(g):
                new = g
        self.scale = new
        return old, new, bool(new > old), False, False


def coef(kind, n, rank_bad=True):
    """Gradient of the unscaled loss for the two parameters."""
    a = torch.arange(1, n + 1, dtype=torch.float32) / 8
    b = -torch.arange(2, n + 2, dtype=torch.float32) / 16
    if not rank_bad:
        return a, b
    if kind == "ok_small":
        a, b = a / 64, b / 64
    elif kind == "ok_big":
        a, b = a * 4, b * 4
    elif kind == "inf":
        a = a.clone()
        a[0] = math.inf
    elif kind == "-inf":
        b = b.clone()
        b[-1] = -math.inf
    elif kind == "nan":
        a = a.clone()
        a[-1] = math.nan
    elif kind == "mixed":
        a, b = a.clone(), b.clone()
        a[0], b[0] = math.inf, math.nan
    elif kind == "late_nan":
        b = b.clone()
        b[n // 2] = math.nan
    return a, b


def make(gangs, cfg):
    return StandardFloat16LossScaler(gangs, init_scale=cfg[0], scale_factor=cfg[1], scale_window=cfg[2], min_scale=cfg[3])


def params(n, dtype):
    return [torch.zeros(n, dtype=dtype).requires_grad_(), torch.ones(n, dtype=dtype).requires_grad_()]


def near(x, y):
    return math.isclose(float(x), float(y), rel_tol=3e-6)


def run(ctx, gangs, cfg, ops, n, dtype, momentum, my_turn=lambda i: True):
    """Drives a scaler; returns the trace of observations."""
    scaler = make(gangs, cfg)
    ps = params(n, dtype)
    opt = torch.optim.SGD([{"params": [ps[0]]}, {"params": [ps[1]], "lr": LR / 2}], lr=LR, momentum=momentum)
    ref_p = params(n, torch.float32)
    ref_opt = torch.optim.SGD([{"params": [ref_p[0]]}, {"params": [ref_p[1]], "lr": LR / 2}], lr=LR, momentum=momentum)
    m = Model(cfg)
    expect_eq(scaler.scale_window, cfg[2], "scale window")
    for i, op in enumerate(ops):
        kind, unscale, save = op
        if save:
            sd = copy.deepcopy(scaler.state_dict()) if save == 1 else torch.load(_buf(scaler.state_dict()), weights_only=True)
            expect(near(sd["grad_scaler"].get("scale", 0.0), m.scale), "saved scale")
            scaler = make(gangs, (cfg[0] * 4, cfg[1], cfg[2], cfg[3]))
            scaler.load_state_dict(sd)
            m.scale = np.float32(sd["grad_scaler"]["scale"])
        bad = kind in BAD
        a, b = coef(kind, n, my_turn(i) or not bad)
        ga, gb = coef(kind, n)
        if kind == "overflow":  # finite gradients that overflow fp16 only when scaled
            bad = float(m.scale) >= 65520 or float(m.scale) * (n + 1) / 8 >= 65520
            a, b = ga, gb = coef("ok", n)
        before = [p.detach().clone() for p in ps]
        opt.zero_grad()
        loss = (ps[0] * a.to(dtype)).sum() + (ps[1] * b.to(dtype)).sum()
        scaler.backward(loss)
        if unscale:
            scaler.unscale_grads_(opt)
            if not bad:
                for p, g in zip(ps, (a, b)):
                    expect(torch.allclose(p.grad.float(), g, rtol=2e-3 if dtype == torch.float16 else 1e-5), "unscaled gradient")
        res = scaler.run_optimizer_step(opt)
        old, new, scaled, over, expl = m.step(bad)
        what = f"step {i} ({kind}, scale {float(old)!r})"
        expect(near(res.old_scale, old), f"{what}: old_scale {res.old_scale}")
        expect(near(res.new_scale, new), f"{what}: new_scale is {res.new_scale}, not {float(new)}")
        expect_eq((res.scaled, res.overflowed, res.exploded), (scaled, over, expl), f"{what}: (scaled, overflowed, exploded)")
        if bad:
            for p, q in zip(ps, before):
                expect(torch.equal(p.detach(), q), f"{what}: the optimizer stepped on an overflow")
        else:
            for p, g in zip(ref_p, (ga, gb)):
                p.grad = g.clone()
            ref_opt.step()
            for p, q in zip(ps, ref_p):
                expect(torch.allclose(p.detach().float(), q.detach(), atol=2e-2 if dtype == torch.float16 else 1e-5, rtol=1e-4),
                       f"{what}: wrong update {p.detach().tolist()} vs {q.detach().tolist()}")
        expect(res.new_scale >= cfg[3] * (1 - 1e-6), f"{what}: scale below its minimum")
        sd = scaler.state_dict()["grad_scaler"]
        expect(near(sd["scale"], new), f"{what}: the scale in use is {sd['scale']}, not {float(new)}")
    return m


def _buf(x):
    import io

    b = io.BytesIO()
    torch.save(x, b)
    b.seek(0)
    return b


def cfgs():
    return st.tuples(
        st.sampled_from([2.0**16, 2.0**8, 1.0, 3.0, 0.25, 2.0**100, 2.0**-10]),
        st.sampled_from([2.0, 2.0, 4.0, 1.5, 1.25, 3.0]),
        st.integers(1, 5),
        st.sampled_from([0.0001, 0.0001, 1.0, 0.25, 2.0**-10, 1e-6, 1e-8]),
    ).map(lambda c: (max(c[0], c[3]), *c[1:]))


def steps(extra=()):
    # Bursts make long good and bad runs likely.
    one = st.tuples(st.sampled_from(GOOD * 3 + BAD + list(extra)), st.booleans(), st.sampled_from([0, 0, 0, 0, 1, 2]))
    burst = st.tuples(st.sampled_from(["ok", "inf", "nan"]), st.integers(1, 8)).map(lambda t: [(t[0], t[1] % 2 == 0, 0)] * t[1])
    return st.lists(st.one_of(one.map(lambda o: [o]), burst), min_size=1, max_size=14).map(lambda l: [o for x in l for o in x])


def single_case():
    return st.tuples(cfgs(), steps(), st.integers(1, 4), st.sampled_from([0.0, 0.5]))


def single(ctx, case):
    cfg, ops, n, mom = case
    run(ctx, create_fake_gangs(CPU), cfg, ops, n, torch.float32, mom)
    kinds = [o[0] for o in ops]
    ctx.nontrivial(any(k in BAD for k in kinds) and any(k in GOOD for k in kinds))
    if any(o[2] for o in ops):
        ctx.label("restored")


def half_case():
    cfg = st.tuples(st.sampled_from([2.0**16, 2.0**10, 2.0**17, 256.0]), st.just(2.0), st.integers(1, 3), st.sampled_from([0.0001, 1.0]))
    return st.tuples(cfg, steps(("overflow",) * 6).map(lambda l: [("overflow" if k.startswith("ok") else k, u, s) for k, u, s in l]), st.integers(1, 4))


def half(ctx, case):
    cfg, ops, n = case
    run(ctx, create_fake_gangs(CPU), cfg, ops[:25], n, torch.float16, 0.0)
    ctx.nontrivial(any(o[0] == "overflow" for o in ops))


def min_scale_case():
    return st.tuples(cfgs(), st.integers(1, 60))


def state_errors_case():
    return st.tuples(cfgs(), st.sampled_from(["missing", "extra", "type", "empty_inner"]))


def state_errors(ctx, case):
    cfg, how = case
    s = make(create_fake_gangs(CPU), cfg)
    sd = s.state_dict()
    if how == "missing":
        sd.pop("grad_scaler")
    elif how == "extra":
        sd["more"] = 1
    elif how == "type":
        sd["grad_scaler"] = [1]
    else:
        sd["grad_scaler"] = {}
    raises(StateDictError, lambda: s.load_state_dict(sd), how)
    NOOP_FP16_LOSS_SCALER.load_state_dict({})
    raises(StateDictError, lambda: NOOP_FP16_LOSS_SCALER.load_state_dict({"a": 1}), "no-op scaler with state")
    ps = params(2, torch.float32)
    opt = torch.optim.SGD(ps, lr=LR)
    a, b = coef("ok", 2)
    NOOP_FP16_LOSS_SCALER.backward((ps[0] * a).sum() + (ps[1] * b).sum())
    NOOP_FP16_LOSS_SCALER.unscale_grads_(opt)
    r = NOOP_FP16_LOSS_SCALER.run_optimizer_step(opt)
    expect(torch.allclose(ps[0].detach(), -LR * a) and not (r.overflowed or r.scaled or r.exploded), "no-op scaler")
    r = NOOP_FP16_LOSS_SCALER.run_optimizer_step(opt, lambda: 3.0)
    expect_eq(r[0], 3.0, "closure result")
    ctx.nontrivial()


# ------------------------------------------------------------ several ranks


def rank_fn(root, arg):
    cfg, ops, n, who, topo = arg
    fake = FakeGang(CPU)
    gangs = (Gangs(root=root, dp=root, rdp=fake, sdp=root, tp=fake, pp=fake) if topo == "fsdp"
             else Gangs(root=root, dp=fake, rdp=fake, sdp=fake, tp=root, pp=fake))
    try:
        run(None, gangs, cfg, ops, n, torch.float32, 0.0, my_turn=lambda i: root.rank == who[i % len(who)])
    except Violation as ex:
        return str(ex)
    return None


def ranks_case(world):
    cfg = cfgs().map(lambda c: (min(c[0], 2.0**20), *c[1:]))
    return st.tuples(cfg, steps(), st.integers(1, 3), st.lists(st.integers(0, world - 1), min_size=1, max_size=5), st.sampled_from(["fsdp", "tp"]))


POOLS = {}


def ranks(world):
    def fn(ctx, case):
        pool = POOLS.get(world) or POOLS.setdefault(world, ProcPool(world, rank_fn))
        res = pool.run([case] * world)
        if any(r != ("ok", None) for r in res):
            del POOLS[world]
            pool.kill()
        for r, (s, v) in enumerate(res):
            if s == "err":
                raise Violation(f"rank {r}: {v[0]}: {v[1]}")
            expect(s == "ok", f"rank {r}: {s}")
        for r, (s, v) in enumerate(res):
            expect(v is None, f"rank {r}: {v}")
        ctx.nontrivial(any(o[0] in BAD for o in case[1]) and any(o[0] in GOOD for o in case[1]))

    return fn


main(Prop(
    "O01",
    [
        Arm("single", single_case, single, quick=500, thorough=12000),
        Arm("single2", single_case, single, quick=500, thorough=12000),
        Arm("half", half_case, half, quick=250, thorough=4000),
        Arm("state", state_errors_case, state_errors, quick=60, thorough=300),
        Arm("ranks2", lambda: ranks_case(2), ranks(2), quick=60, thorough=1500),
        Arm("ranks3", lambda: ranks_case(3), ranks(3), quick=40, thorough=1000),
    ],
    rule="a history with both finite and overflowing steps (or an fp16 overflow caused by the scale alone)",
    assumptions=["PyTorch's CUDA-availability switch of GradScaler is bypassed (device='cpu'), so that the scaler runs on CPU tensors"],
))

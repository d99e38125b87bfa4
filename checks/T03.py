"""T03: a training step applies the true mean gradient exactly once."""
import boot

boot.boot(recipe=True)

import logging
import os
import shutil
import tempfile
from pathlib import Path

logging.disable(logging.WARNING)

import torch
from gangs import ProcPool, run_ranks
from harness import Arm, HarnessError, Prop, Violation, expect, expect_eq, main, raises
from hypothesis import strategies as st
from train import Batch, Cfg, Log, make_trainer

from fairseq2.device import CPU
from fairseq2.gang import FakeGang, Gangs, create_fake_gangs
from fairseq2.nn.utils.grad import InconsistentGradNormError, check_grad_norms

FACTOR = 0.1  # learning rate


def cases(n_ranks):
    def f():
        # steps[i][k][r] is the number of targets of micro-batch k on rank r
        ranks = n_ranks if isinstance(n_ranks, int) else None
        size = st.one_of(st.integers(0, 4), st.integers(1, 6))

        def body(r, acc):
            full = st.lists(st.lists(size, min_size=r, max_size=r), min_size=acc, max_size=acc)
            last = st.lists(st.lists(size, min_size=r, max_size=r), min_size=1, max_size=acc)
            return st.fixed_dictionaries(dict(
                ranks=st.just(r), acc=st.just(acc), steps=st.builds(lambda a, b: a + [b], st.lists(full, max_size=3), last),
                clip=st.sampled_from([None, None, 0.05, 0.5, 5.0, 1e4]), per_target=st.sampled_from([True, True, True, False]),
                fp16=st.one_of(st.none(), st.tuples(st.sampled_from([8.0, 64.0, 1024.0]), st.integers(1, 3), st.just(0.5))),
                overflow=st.frozensets(st.tuples(st.integers(0, 3), st.integers(0, 2), st.integers(0, r - 1)), max_size=2),
                opt=st.sampled_from(["sgd", "sgd", "momentum", "adamw"]), freeze=st.booleans(), no_sync=st.booleans(), seed=st.integers(0, 3),
                scale=st.sampled_from([1.0, 1.0, 30.0, 1e-3]), pub=st.integers(1, 3),
            ))

        return st.tuples(st.just(ranks), st.integers(1, 3)).flatmap(lambda t: body(*t))

    return f


class Net(torch.nn.Module):
    def __init__(self, seed, dtype=torch.float32):
        super().__init__()
        g = torch.Generator().manual_seed(seed)
        self.a = torch.nn.Linear(3, 4)
        self.b = torch.nn.Linear(4, 2)
        self.frozen = torch.nn.Parameter(torch.ones(2))
        with torch.no_grad():
            for p in self.parameters():
                p.copy_(torch.randn(p.shape, generator=g) * 0.5)
        self.to(dtype)

    def forward(self, x):
        return self.b(torch.tanh(self.a(x))) * self.frozen


def loss_of(net, batch, scale):
    return (net(batch.x) - batch.y).pow(2).sum() * scale


def ids_of(step, k, rank, n):
    base = ((step * 10 + k) * 8 + rank) * 16
    return [base + i for i in range(n)]


def optimizer(name, params):
    if name == "adamw":
        return torch.optim.AdamW(params, lr=FACTOR)
    return torch.optim.SGD(params, lr=FACTOR, momentum=0.9 if name == "momentum" else 0.0)


def reference(c):
    """Plain training on the whole batch of each step, in double precision."""
    net = Net(c["seed"], torch.float64)
    if c["freeze"]:
        net.frozen.requires_grad_(False)
    params = [p for p in net.parameters()]
    opt = optimizer(c["opt"], [p for p in params if p.requires_grad])
    norms, out = [], []
    for i, step in enumerate(c["steps"]):
        if hits_overflow(c, i):
            continue
        total = torch.zeros((), dtype=torch.float64)
        n = 0
        for k, row in enumerate(step):
            for r, m in enumerate(row):
                b = Batch(ids_of(i, k, r, m), 3)
                b.x, b.y = b.x.double(), b.y.double()
                l = loss_of(net, b, c["scale"])
                if c["per_target"]:
                    total = total + l
                    n += m
                else:
                    total = total + l / max(m, 1) / len(step) / c["ranks"]
        if c["per_target"]:
            total = total / max(n, 1)
        opt.zero_grad(set_to_none=True)
        total.backward()
        gs = [p.grad for p in params if p.grad is not None]
        norm = torch.sqrt(sum((g * g).sum() for g in gs)).item()
        norms.append(norm)
        if c["clip"] is not None and norm > c["clip"]:
            for g in gs:
                g.mul_(c["clip"] / (norm + 1e-6))
        opt.step()
        out.append([p.detach().clone() for p in params])
    return net, norms, out


def hits_overflow(c, i):
    return bool(c["fp16"]) and any(s == i and k < len(c["steps"][i]) for s, k, r in c["overflow"])


def run(c, gangs, rank, base, wrap=None):
    """Trains; returns the parameters after each taken step, the published values and the trainer."""

    def batches(e):
        return [ids_of(i, k, rank, row[rank]) for i, step in enumerate(c["steps"]) for k, row in enumerate(step)]

    log = Log()
    cfg = Cfg(batches=batches, accumulate=c["acc"], max_epochs=1, clip=c["clip"], fp16=c["fp16"], opt="plain", pub=(0, c["pub"], 0, None), per_target=c["per_target"])
    net = Net(c["seed"])
    if c["freeze"]:
        net.frozen.requires_grad_(False)
    trainer = make_trainer(cfg, base, gangs, log, module=net, wrap_model=wrap)
    trainer._optimizer = optimizer(c["opt"], [p for p in net.parameters() if p.requires_grad])
    trainer._lr_scheduler = torch.optim.lr_scheduler.LambdaLR(trainer._optimizer, lambda s: 1.0)
    trainer._no_sync_grad_accumulation = c["no_sync"]
    pos = [0]

    def process_batch(batch, bag):
        i = k = 0
        n = pos[0]
        pos[0] += 1
        for i, step in enumerate(c["steps"]):
            if n < len(step):
                k = n
                break
            n -= len(step)
        from fairseq2.metrics import Mean, Sum

        loss = loss_of(trainer._model, batch, c["scale"])
        m = len(batch)
        if c["fp16"] and (i, k, rank) in c["overflow"]:
            loss = loss + sum(p.sum() for p in net.parameters()) * float("inf")
        bag.get("num", Sum).update(m)
        bag.get("total_num", Sum).update(m)
        bag.get("total_rand", Sum).update(torch.tensor(0.0, dtype=torch.float64))
        bag.get("loss", Mean).update(torch.zeros(()))
        if not c["per_target"]:
            return loss / max(m, 1), None
        return loss, m

    trainer._unit.process_batch = process_batch
    states = []
    real = trainer._run_post_step

    def post_step():
        from fairseq2.trainer import _TrainerState

        if trainer._state == _TrainerState.POST_STEP:
            states.append([p.detach().clone() for p in net.parameters()])
        return real()

    trainer._run_post_step = post_step
    trainer.run()
    expect(all(p.grad is None or not p.grad.any() for p in net.parameters()), "gradients are left over after a step")
    return states, log, trainer


def judge(c, rank, states, log, trainer):
    _, norms, want = reference(c)
    taken = [i for i in range(len(c["steps"])) if not hits_overflow(c, i)]
    expect_eq(trainer.step_nr, len(taken), "number of steps taken")
    expect_eq(len(states), len(taken), "number of steps taken")
    # Adam turns rounding errors of tiny gradients into whole steps.
    tol = 2e-4 if c["opt"] != "adamw" else 5e-3
    tiny = c["opt"] == "adamw" and any(n < 1e-4 for n in norms)
    for j, (a, b) in enumerate(zip(states, want)):
        if tiny:
            break
        for x, y in zip(a, b):
            m = max(1.0, float(y.abs().max()))
            if not m < 1e6:
                return  # diverges: nothing to compare
            d = float((x.double() - y).abs().max())
            expect(d <= tol * m, f"parameters after step {j + 1}: {x.flatten()[:6].tolist()} instead of {y.flatten()[:6].tolist()} (differ by {d})")
    if rank != 0:
        return
    pubs = [(s, v[0]) for (cat, s), v in log.published.items() if cat == "train"]
    done = 0
    for s, v in sorted(pubs, key=lambda t: t[0]):
        if s == done:
            continue
        window = taken[done:s]
        expect_eq(v["num"], sum(map(sum, (row for i in window for row in c["steps"][i]))), f"targets counted at step {s}")
        expect_eq(v["total_num"], sum(map(sum, (row for i in taken[:s] for row in c["steps"][i]))), f"all targets counted at step {s}")
        gn = sum(norms[done:s]) / len(window)
        expect(abs(v["grad_norm"] - gn) <= 1e-3 * max(gn, 1e-3), f"gradient norm published at step {s}: {v['grad_norm']} instead of {gn}")
        done = s


def describe(ctx, c):
    sizes = [m for step in c["steps"] for row in step for m in row]
    varied = len(set(sizes)) > 1
    ctx.nontrivial(varied and (c["acc"] > 1 or c["ranks"] > 1))
    if 0 in sizes:
        ctx.label("zero_targets")
    if any(hits_overflow(c, i) for i in range(len(c["steps"]))):
        ctx.label("overflow")
    if c["clip"]:
        ctx.label("clip")
    if c["acc"] > 1:
        ctx.label("accumulate")


def check_single(ctx, c):
    base = Path(tempfile.mkdtemp(prefix="t03_", dir=os.environ.get("FS2V_SCRATCH")))
    state = torch.get_rng_state()
    try:
        states, log, trainer = run(c, create_fake_gangs(CPU), 0, base)
        judge(c, 0, states, log, trainer)
        describe(ctx, c)
    finally:
        torch.set_rng_state(state)
        shutil.rmtree(base)


def worker(gang, arg):
    c, base = arg
    from fairseq2.nn.ddp import to_ddp

    fake = FakeGang(device=CPU)
    gang.close = lambda: None
    gangs = Gangs(root=gang, dp=gang, rdp=gang, sdp=fake, tp=fake, pp=fake)
    states, log, trainer = run(c, gangs, gang.rank, Path(base), wrap=lambda m, g: to_ddp(m, g))
    judge(c, gang.rank, states, log, trainer)
    import hashlib

    return [hashlib.sha1(b"".join(p.numpy().tobytes() for p in s)).hexdigest() for s in states]


POOL = {}


def check_ranks(ctx, c):
    n = c["ranks"]
    base = tempfile.mkdtemp(prefix="t03_", dir=os.environ.get("FS2V_SCRATCH"))
    try:
        if n not in POOL:
            POOL[n] = ProcPool(n, worker)
        res = POOL[n].run([(c, base)] * n, timeout=60)
        bad = [r for r in res if r[0] != "ok"]
        if bad:
            POOL.pop(n).kill()
            err = [r[1] for r in bad if r[0] == "err"]
            v = [e for e in err if e[0] == "Violation"]
            if v:
                raise Violation(v[0][1])
            if err and not any("/repo/src/fairseq2" in e[2] for e in err):
                raise HarnessError(err[0][2])
            raise Violation(f"ranks fail: {[e[:2] for e in err] or bad}")
        for r in res[1:]:
            expect_eq(r[1], res[0][1], "the parameters of the ranks differ")
        describe(ctx, c)
    finally:
        shutil.rmtree(base)


def norm_cases():
    v = st.one_of(st.floats(0, 1e4, width=32), st.sampled_from([0.0, 1.0, float("inf"), float("nan")]))
    return st.tuples(
        st.integers(1, 4), v, st.lists(st.one_of(st.just("same"), st.just("same"), v, st.sampled_from([1e-7, -1e-8, 1e-4, -1e-3])), min_size=4, max_size=4), st.booleans(),
    )


def check_norms(ctx, case):
    """Ranks with different gradient norms must not go on."""
    n, base, others, as_delta = case
    vals = [base]
    for o in others[: n - 1]:
        vals.append(base if o == "same" else (base * (1 + o) if as_delta and abs(o) < 0.01 and o == o else o))
    t = torch.tensor(vals, dtype=torch.float32)
    fin = t.isfinite()
    if fin.all():
        d = (t.double() - t[0].double()).abs().max() / (t[0].double() + 1e-6)
        if 3e-7 < d < 3e-6:
            return  # at the edge of the tolerance
        good = bool(d < 1e-6)
    else:
        good = not fin.any()
    if n == 1:
        good = True

    def body(g):
        try:
            check_grad_norms(t[g.rank].clone(), g, 5)
            return None
        except InconsistentGradNormError as ex:
            return ex

    res = run_ranks(n, body) if n > 1 else [body(FakeGang(device=CPU))]
    for ex in res:
        expect((ex is None) == good, f"norms {vals}: {'accepted' if ex is None else 'rejected'}")
        if ex is not None:
            expect_eq(ex.step_nr, 5, "step of the error")
    ctx.nontrivial(n > 1 and not good)
    ctx.label("consistent" if good else "inconsistent")


if __name__ == "__main__":
    main(Prop(
        "T03",
        [Arm(f"single{i}", cases(1), check_single, quick=300, thorough=6000, timeout=90) for i in range(3)]
        + [Arm("ddp2", cases(2), check_ranks, quick=220, thorough=4000, timeout=90), Arm("ddp3", cases(3), check_ranks, quick=160, thorough=3000, timeout=90)]
        + [Arm("norms", norm_cases, check_norms, quick=400, thorough=5000, timeout=60)],
        rule="targets of micro-batches differ and there are several micro-batches or ranks per step (norms: ranks disagree)",
        assumptions=[
            "the reference trains on the whole batch in double precision; parameters agree within 2e-4 (5e-3 for Adam) relative",
            "CPU; several ranks are Gloo processes with DDP (no FSDP without an accelerator)",
            "a step without any target leaves the gradient at zero",
        ],
    ))

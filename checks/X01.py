"""X01: process groups partition ranks and reduce correctly."""
import boot

boot.boot(init=True)

import math

import torch
from harness import Arm, Prop, Violation, expect, expect_eq, main, raises
from hypothesis import strategies as st

from fairseq2.device import CPU
from fairseq2.gang import (
    FakeGang, Gang, GangError, Gangs, ReduceOperation, all_sum, broadcast_flag, create_fake_gangs,
    create_fsdp_gangs, create_parallel_gangs, get_current_gangs, get_default_gangs, set_gangs,
)
from gangs import ProcPool, run_ranks

# ------------------------------------------------------------------ the grid


class PlainGang(Gang):
    """A gang that knows who its members are."""

    def __init__(self, members, me):
        self.members, self.me = tuple(members), me
        self.created = []

    def close(self): ...

    def create_gang(self, ranks):
        ranks = list(ranks)
        if len(set(ranks)) != len(ranks) or any(not 0 <= r < self.size for r in ranks):
            raise ValueError("bad ranks")
        self.created.append(tuple(ranks))
        m = [self.members[r] for r in ranks]
        return PlainGang(m, self.me) if self.me in m else None

    def _no(self, *a, **k):
        raise NotImplementedError

    as_process_group = barrier = all_reduce = all_gather = all_gather_to_list = broadcast = broadcast_objects = _no

    @property
    def rank(self):
        return self.members.index(self.me)

    @property
    def size(self):
        return len(self.members)

    device = CPU
    supports_process_group = False


def members(g, me):
    if isinstance(g, PlainGang):
        return g.members
    expect(isinstance(g, FakeGang) and g.size == 1 and g.rank == 0, f"unexpected gang {g!r} of size {g.size}")
    return (me,)


def divisors(n):
    return [d for d in range(1, n + 1) if n % d == 0]


def grid_case():
    return st.integers(1, 24).flatmap(
        lambda n: st.sampled_from(divisors(n)).flatmap(
            lambda tp: st.tuples(st.just(n), st.just(tp), st.sampled_from([None] + divisors(n // tp)[1:]))
        )
    )


def grid(ctx, case):
    n, tp, intra = case
    dp = n // tp
    views = {}
    orders = []
    for r in range(n):
        root = PlainGang(range(n), r)
        gs = create_parallel_gangs(root, tp_size=tp)
        expect(gs.root is root, "the root gang changed")
        before = list(root.created)
        orders.append(before)
        views[r] = {k: members(getattr(gs, k), r) for k in ("dp", "rdp", "sdp", "tp", "pp")}
        expect_eq(views[r]["rdp"], views[r]["dp"], "without FSDP the replicated gang is the data gang")
        expect_eq(views[r]["sdp"], (r,), "without FSDP the sharded gang is trivial")
        fs = create_fsdp_gangs(gs, intra)
        v = {k: members(getattr(fs, k), r) for k in ("dp", "rdp", "sdp", "tp", "pp")}
        expect_eq((v["dp"], v["tp"], v["pp"]), (views[r]["dp"], views[r]["tp"], views[r]["pp"]), "create_fsdp_gangs changed another gang")
        expect(fs.root is root, "the root gang changed")
        views[r]["f_rdp"], views[r]["f_sdp"] = v["rdp"], v["sdp"]
    expect(all(o == orders[0] for o in orders), f"ranks create sub-gangs in different orders: {orders}")
    for r in range(n):
        i, j = divmod(r, tp)
        exp_dp = tuple(k * tp + j for k in range(dp))
        expect_eq(views[r]["dp"], exp_dp, f"dp gang of rank {r}")
        expect_eq(views[r]["tp"], tuple(i * tp + k for k in range(tp)), f"tp gang of rank {r}")
        expect_eq(views[r]["pp"], (r,), f"pp gang of rank {r}")
        if intra is None:
            expect_eq(views[r]["f_sdp"], exp_dp, f"sdp gang of rank {r}")
            expect_eq(views[r]["f_rdp"], (r,), f"rdp gang of rank {r}")
        else:
            a, b = divmod(i, intra)
            expect_eq(views[r]["f_sdp"], tuple(exp_dp[a * intra + k] for k in range(intra)), f"intra-node gang of rank {r}")
            expect_eq(views[r]["f_rdp"], tuple(exp_dp[k * intra + b] for k in range(dp // intra)), f"inter-node gang of rank {r}")
    ctx.nontrivial(1 < tp < n or (intra and intra < dp))
    ctx.label("tp" if tp > 1 else "no_tp", "hybrid" if intra else "full")


def bad_layout_case():
    return st.tuples(st.integers(1, 16), st.integers(-2, 20), st.one_of(st.none(), st.integers(-2, 20)), st.integers(0, 15))


def bad_layout(ctx, case):
    n, tp, intra, r = case
    root = PlainGang(range(n), r % n)
    if tp < 1 or n % tp:
        raises(ValueError, lambda: create_parallel_gangs(root, tp_size=tp), "tp_size that does not divide the gang")
        ctx.nontrivial()
        return
    gs = create_parallel_gangs(root, tp_size=tp)
    expect_eq(gs.tp.size * gs.dp.size, n, "tp x dp")
    if intra is not None and (intra <= 1 or gs.dp.size % intra):
        raises(ValueError, lambda: create_fsdp_gangs(gs, intra), "intra_node_size that does not divide the gang")
        ctx.nontrivial()
        return
    fs = create_fsdp_gangs(gs, intra)
    expect_eq(fs.sdp.size * fs.rdp.size, gs.dp.size, "sdp x rdp")


def coord_case():
    g = st.tuples(st.integers(1, 4), st.integers(0, 3)).map(lambda t: (t[0], min(t[1], t[0] - 1)))
    return st.tuples(g, g, g, g)


def coordinator(ctx, case):
    def fg(t):
        return FakeGang(CPU, size=t[0], rank=t[1])

    root, dp, tp, pp = (fg(t) for t in case)
    bad = root.rank == 0 and (dp.rank != 0 or tp.rank != 0 or pp.rank != 0)
    mk = lambda: Gangs(root=root, dp=dp, rdp=dp, sdp=create_fake_gangs(CPU).sdp, tp=tp, pp=pp)
    if bad:
        ctx.nontrivial()
        raises(ValueError, mk, "coordinator that is not rank 0 in all parallel gangs")
    else:
        mk()


# ------------------------------------------------------------------ fake gang


def fake_case():
    return st.tuples(
        st.integers(-1, 6), st.integers(-1, 6), st.lists(st.integers(-2, 8), max_size=6),
        st.lists(st.integers(-3, 3), min_size=1, max_size=4), st.sampled_from(list(ReduceOperation)), st.integers(-1, 6),
    )


def fake(ctx, case):
    size, rank, ranks, vals, op, src = case
    if size <= 0 or not 0 <= rank < size:
        raises(ValueError, lambda: FakeGang(CPU, rank=rank, size=size), "invalid rank or size")
        return
    g = FakeGang(CPU, rank=rank, size=size)
    expect_eq((g.rank, g.size), (rank, size), "rank and size")
    bad = len(set(ranks)) != len(ranks) or any(not 0 <= r < size for r in ranks)
    if bad:
        ctx.label("bad_ranks")
        raises(ValueError, lambda: g.create_gang(ranks), f"create_gang({ranks}) on a gang of size {size}")
    elif ranks:
        sub = g.create_gang(ranks)
        if rank in ranks:
            expect(sub is not None, "a member got no gang")
            expect_eq((sub.rank, sub.size), (ranks.index(rank), len(ranks)), "sub-gang rank and size")
        else:
            expect(sub is None, "a non-member got a gang")
    t = torch.tensor(vals, dtype=torch.float64)
    u = t.clone()
    try:
        g.all_reduce(u, op)
    except Exception as ex:
        from fairseq2.error import NotSupportedError

        if not isinstance(ex, NotSupportedError):
            raise
    else:
        st_ = torch.stack([t] * size)
        exp = {"SUM": st_.sum(0), "MEAN": st_.mean(0), "PRODUCT": st_.prod(0), "MIN": st_.amin(0), "MAX": st_.amax(0)}[op.name]
        expect(torch.equal(u, exp), f"fake {op.name} of {vals} over {size}: {u.tolist()}")
    out = torch.full((size, len(vals)), -9.0, dtype=torch.float64)
    g.all_gather(out, t)
    expect(torch.equal(out, torch.stack([t] * size)), "fake all_gather")
    outs = [torch.full((len(vals),), -9.0, dtype=torch.float64) for _ in range(size)]
    g.all_gather_to_list(outs, t)
    expect(all(torch.equal(o, t) for o in outs), "fake all_gather_to_list")
    raises(ValueError, lambda: g.all_gather(torch.empty(size + 1, len(vals), dtype=t.dtype), t), "wrong output size")
    raises(ValueError, lambda: g.all_gather_to_list(outs + [t.clone()], t), "wrong output list length")
    if src == rank:
        w, ob = t.clone(), list(vals)
        g.broadcast(w, src)
        g.broadcast_objects(ob, src)
        expect(torch.equal(w, t) and ob == vals, "broadcast from this rank changes nothing")
        expect_eq(broadcast_flag(g, True, src), True, "broadcast_flag")
        expect_eq(broadcast_flag(g, False, src), False, "broadcast_flag")
    elif not 0 <= src < size:
        raises(ValueError, lambda: g.broadcast(t.clone(), src), "source rank out of range")
        raises(ValueError, lambda: g.broadcast_objects([1], src), "source rank out of range")
    expect_eq(all_sum(g, 3).item(), 3 * size, "all_sum")
    ctx.nontrivial(size > 1)


# --------------------------------------------------- real (gloo) process groups

OPS = ["SUM", "PRODUCT", "MIN", "MAX", "MEAN"]


def apply_ops(root, arg):
    """Runs the ops of a case on this rank; returns the observations."""
    sub_ranks, ops = arg
    out = []
    sub = None
    if sub_ranks is not None:
        try:
            sub = root.create_gang(sub_ranks)
        except ValueError:
            return [("create", "ValueError")]
        if sub is not None:
            out.append(("create", sub.rank, sub.size))
        else:
            out.append(("create", None))
    for kind, where, x, src, dt, shape in ops:
        g = root if where == "root" else sub
        if g is None:
            continue
        dtype = getattr(torch, dt)
        base = value(x, root.rank, shape, dtype)
        try:
            if kind in OPS:
                t = base.clone()
                g.all_reduce(t, ReduceOperation[kind])
                out.append((kind, t))
            elif kind == "gather":
                o = torch.full((g.size, *shape), -77, dtype=dtype)
                g.all_gather(o, base)
                out.append((kind, o))
            elif kind == "gather_list":
                o = [torch.full(tuple(shape), -77, dtype=dtype) for _ in range(g.size)]
                g.all_gather_to_list(o, base)
                out.append((kind, torch.stack(o)))
            elif kind == "broadcast":
                t = base.clone()
                g.broadcast(t, src % g.size)
                out.append((kind, t))
            elif kind == "objects":
                o = [{"r": root.rank, "x": x}, [root.rank] * (root.rank + 1)]
                g.broadcast_objects(o, src % g.size)
                out.append((kind, o))
            elif kind == "flag":
                out.append((kind, broadcast_flag(g, (x + root.rank) % 2 == 0, src % g.size)))
            elif kind == "sum":
                out.append((kind, all_sum(g, x + root.rank).item()))
            elif kind == "barrier":
                g.barrier()
                out.append((kind,))
        except GangError as ex:
            out.append((kind, f"GangError: {ex.__cause__}"))
    if sub is not None:
        sub.close()
    return out


def value(x, rank, shape, dtype):
    n = math.prod(shape)
    return ((torch.arange(n) * 3 + x + rank * 5) % 7 - 2).view(*shape).to(dtype)


def oracle(world, arg, r):
    sub_ranks, ops = arg
    out = []
    sub = None
    if sub_ranks is not None:
        if len(set(sub_ranks)) != len(sub_ranks) or any(not 0 <= q < world for q in sub_ranks):
            return [("create", "ValueError")]
        # As in PyTorch, the order of a new group's ranks is that of the list.
        if r in sub_ranks:
            sub = list(sub_ranks)
            out.append(("create", sub.index(r), len(sub)))
        else:
            out.append(("create", None))
    for kind, where, x, src, dt, shape in ops:
        m = list(range(world)) if where == "root" else sub
        if m is None:
            continue
        dtype = getattr(torch, dt)
        vals = [value(x, q, shape, dtype) for q in m]
        st_ = torch.stack(vals)
        if kind in OPS:
            s64 = st_.to(torch.float64)
            e = {"SUM": s64.sum(0), "PRODUCT": s64.prod(0), "MIN": s64.amin(0), "MAX": s64.amax(0), "MEAN": s64.mean(0)}[kind]
            out.append((kind, e.to(dtype)))
        elif kind in ("gather", "gather_list"):
            out.append((kind, st_))
        elif kind == "broadcast":
            out.append((kind, vals[src % len(m)]))
        elif kind == "objects":
            q = m[src % len(m)]
            out.append((kind, [{"r": q, "x": x}, [q] * (q + 1)]))
        elif kind == "flag":
            out.append((kind, (x + m[src % len(m)]) % 2 == 0))
        elif kind == "sum":
            out.append((kind, sum(x + q for q in m)))
        elif kind == "barrier":
            out.append((kind,))
    return out


def same(a, b):
    if len(a) != len(b):
        return False
    for p, q in zip(a, b):
        if len(p) != len(q):
            return False
        for v, w in zip(p, q):
            if isinstance(w, torch.Tensor):
                if not isinstance(v, torch.Tensor) or v.dtype != w.dtype or v.shape != w.shape or not torch.allclose(
                    v.double(), w.double(), atol=1e-4, rtol=1e-4
                ):
                    return False
            elif type(v) is not type(w) or v != w:
                return False
    return True


def real_case(world):
    op = st.tuples(
        st.sampled_from(["SUM", "PRODUCT", "MIN", "MAX", "MEAN", "gather", "gather_list", "broadcast", "objects", "flag", "sum", "barrier"]),
        st.sampled_from(["root", "sub", "sub"]), st.integers(-5, 5), st.integers(0, 5),
        st.sampled_from(["float32", "float64", "int64", "int32"]),
        st.lists(st.integers(1, 3), min_size=1, max_size=2).map(tuple),
    ).map(lambda o: o if o[0] != "MEAN" else (o[0], o[1], o[2], o[3], "float32", o[5]))
    good = st.sets(st.integers(0, world - 1), min_size=1, max_size=world).flatmap(lambda s: st.just(sorted(s)))
    bad = st.lists(st.integers(-1, world), min_size=1, max_size=world).filter(
        lambda l: len(set(l)) != len(l) or any(not 0 <= q < world for q in l)
    )
    ranks = st.one_of(st.none(), good, good, good, good, bad)
    return st.tuples(ranks, st.lists(op, min_size=1, max_size=6))


POOLS = {}


def real(world):
    def fn(ctx, case):
        pool = POOLS.get(world)
        if pool is None:
            pool = POOLS[world] = ProcPool(world, apply_ops)
        res = pool.run([case] * world, timeout=50)
        ok = all(s == "ok" and same(v, oracle(world, case, r)) for r, (s, v) in enumerate(res))
        if not ok:  # its ranks may be out of step now
            del POOLS[world]
            pool.kill()
        if any(s in ("hang", "died") for s, _ in res):
            raise Violation(f"collectives did not complete: {[s for s, _ in res]}")
        for r, (s, v) in enumerate(res):
            if s == "err":
                raise Violation(f"rank {r}: {v[0]}: {v[1]}")
            exp = oracle(world, case, r)
            expect(same(v, exp), lambda: f"rank {r}: got {v}, expected {exp}")
        sr = case[0]
        ctx.nontrivial(sr is not None and len(case[1]) > 1)
        ctx.label("no_sub" if sr is None else "bad_sub" if oracle(world, case, 0) == [("create", "ValueError")] else "sub")

    return fn


# ----------------------------------------------------------- current gangs


def current_case():
    return st.lists(st.sampled_from(["push", "pop", "check", "thread"]), max_size=12)


def current(ctx, case):
    import threading

    default = get_default_gangs(CPU)
    stack = []
    expect(get_current_gangs(CPU) is default, "current gangs are the default ones at first")
    try:
        for op in case:
            if op == "push":
                g = create_fake_gangs(CPU)
                cm = set_gangs(g)
                cm.__enter__()
                stack.append((g, cm))
            elif op == "pop" and stack:
                stack.pop()[1].__exit__(None, None, None)
            elif op == "thread":
                box = []
                t = threading.Thread(target=lambda: box.append(get_current_gangs(CPU)))
                t.start()
                t.join()
                expect(box[0] is default, "the gangs of one thread are visible in another")
            expect(get_current_gangs(CPU) is (stack[-1][0] if stack else default), f"wrong current gangs after {op}")
    finally:
        while stack:
            stack.pop()[1].__exit__(None, None, None)
    ctx.nontrivial(case.count("push") > 1)


main(Prop(
    "X01",
    [
        Arm("grid", grid_case, grid, quick=250, thorough=3000),
        Arm("bad_layout", bad_layout_case, bad_layout, quick=300, thorough=3000),
        Arm("coordinator", coord_case, coordinator, quick=300, thorough=3000),
        Arm("fake", fake_case, fake, quick=400, thorough=5000),
        Arm("gloo2", lambda: real_case(2), real(2), quick=120, thorough=1500),
        Arm("gloo3", lambda: real_case(3), real(3), quick=150, thorough=1500),
        Arm("gloo5", lambda: real_case(5), real(5), quick=80, thorough=800),
        Arm("current", current_case, current, quick=200, thorough=2000),
    ],
    rule="a layout with more than one group per dimension, a rejected layout, or a sub-group with at least two collectives",
    assumptions=["CPU devices: gloo process groups over loopback; NCCL and split_group are not exercised"],
))

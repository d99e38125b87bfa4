"""X02: random state save, restore and temporary seeding are exact."""
import boot

boot.boot()

import io

import torch
from harness import Arm, Prop, expect, expect_eq, main, raises
from hypothesis import strategies as st

from fairseq2.device import CPU, META_DEVICE
from fairseq2.error import StateDictError
from fairseq2.utils.rng import RngBag

N = 3


def ops():
    i = st.integers(0, N - 1)
    seed = st.one_of(st.integers(0, 5), st.sampled_from([2**32 - 1, 2**31, 12345]), st.integers(0, 2**32 - 1))
    return st.lists(
        st.one_of(
            st.tuples(st.just("draw"), i, st.sampled_from(["rand", "randint", "randn", "perm", "bern"]), st.integers(1, 9)),
            st.tuples(st.just("draw"), i, st.sampled_from(["rand", "randn"]), st.integers(1, 40)),
            st.tuples(st.just("seed"), seed),
            st.tuples(st.just("random_seed")),
            st.tuples(st.just("save"), st.booleans()),
            st.tuples(st.just("load"), st.integers(0, 3)),
            st.tuples(st.just("load_bad"), st.integers(0, 4)),
            st.tuples(st.just("enter"), seed),
            st.tuples(st.just("exit"), st.booleans()),
            st.tuples(st.just("bad_seed"), st.sampled_from([-1, 2**32, -5, 2**40])),
        ),
        min_size=1, max_size=25,
    )


def draw(g, kind, n):
    if kind == "rand":
        return torch.rand(n, generator=g)
    if kind == "randn":
        return torch.randn(n, generator=g)
    if kind == "randint":
        return torch.randint(0, 1000, (n,), generator=g)
    if kind == "perm":
        return torch.randperm(n, generator=g)
    return torch.bernoulli(torch.full((n,), 0.5), generator=g)


def check(ctx, case):
    use_default, ops = case
    real = [torch.Generator() for _ in range(N)]
    if use_default:
        bag = RngBag.from_device_defaults(CPU, META_DEVICE, torch.device("cpu"))
        real = [torch.default_generator]
    else:
        bag = RngBag(*real)
    ref = [torch.Generator() for _ in real]
    for k, (a, b) in enumerate(zip(real, ref)):
        a.manual_seed(100 + k)
        b.manual_seed(100 + k)
    saves = []  # (state dict, states of the reference)
    stack = []  # (context manager, outer states, number of saves)
    seen = set()

    class Boom(Exception):
        pass

    def agree(what):
        for k, (a, b) in enumerate(zip(real, ref)):
            expect(torch.equal(a.get_state(), b.get_state()), f"generator {k} is off after {what}")

    def leave(boom):
        cm, outer = stack.pop()
        if boom:
            try:
                cm.__exit__(Boom, Boom(), None)
            except Boom:
                pass
        else:
            cm.__exit__(None, None, None)
        for g, s in zip(ref, outer):
            g.set_state(s)

    try:
        for op in ops:
            seen.add(op[0])
            if op[0] == "draw":
                k = op[1] % len(real)
                g = None if use_default else real[k]
                x, y = draw(g, op[2], op[3]), draw(ref[k], op[2], op[3])
                expect(torch.equal(x, y), f"draw {op}: {x.tolist()} vs {y.tolist()}")
            elif op[0] == "seed":
                bag.manual_seed(op[1])
                for g in ref:
                    g.manual_seed(op[1])
            elif op[0] == "random_seed":
                bag.seed()
                s = real[0].initial_seed()
                expect(all(g.initial_seed() == s for g in real), "generators of one bag got different seeds")
                for g in ref:
                    g.manual_seed(s)
            elif op[0] == "save":
                sd = bag.state_dict()
                if op[1]:
                    b = io.BytesIO()
                    torch.save(sd, b)
                    b.seek(0)
                    sd = torch.load(b, weights_only=True)
                saves.append((sd, [g.get_state() for g in ref]))
            elif op[0] == "load" and saves:
                sd, states = saves[op[1] % len(saves)]
                bag.load_state_dict(sd)
                for g, s in zip(ref, states):
                    g.set_state(s)
            elif op[0] == "load_bad":
                sd = bag.state_dict()
                if op[1] == 0:
                    del sd["generators"]
                elif op[1] == 1:
                    sd["generators"] = tuple(sd["generators"])
                elif op[1] == 2:
                    sd["generators"] = sd["generators"] + [sd["generators"][0]]
                elif op[1] == 3:
                    sd["generators"] = sd["generators"][:-1]
                else:
                    sd["generators"] = [7] * len(real)
                raises(StateDictError, lambda: bag.load_state_dict(sd), f"bad state {op[1]}")
            elif op[0] == "enter" and len(stack) < 3:
                cm = bag.temporary_manual_seed(op[1])
                stack.append((cm, [g.get_state() for g in ref]))
                cm.__enter__()
                for g in ref:
                    g.manual_seed(op[1])
            elif op[0] == "exit" and stack:
                leave(op[1])
            elif op[0] == "bad_seed":
                raises(ValueError, lambda: bag.manual_seed(op[1]), "seed out of range")

                def bad_tmp():
                    with bag.temporary_manual_seed(op[1]):
                        return "entered"

                raises(ValueError, bad_tmp, "temporary seed out of range")
            agree(op)
    finally:
        while stack:
            leave(False)
    agree("leaving the temporary seeds")
    ctx.nontrivial("draw" in seen and ({"save", "load"} <= seen or {"enter", "exit"} <= seen))
    for s in ("load", "enter"):
        if s in seen:
            ctx.label(s)


def case():
    return st.tuples(st.booleans(), ops())


main(Prop(
    "X02",
    [Arm("histories", case, check, quick=600, thorough=15000), Arm("histories2", case, check, quick=600, thorough=15000)],
    rule="a history with draws and either a save and a restore or an entered and left temporary seed",
    assumptions=["CPU generators only"],
))

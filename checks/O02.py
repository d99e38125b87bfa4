"""O02: learning-rate schedules follow their formulas at every step."""
import boot

boot.boot(recipe=True)

import copy
import io
import math
import warnings
from fractions import Fraction

import torch
from harness import Arm, Prop, expect, expect_eq, main, raises
from hypothesis import strategies as st

from fairseq2.optim.lr_schedulers import (
    CosineAnnealingLR, MyleLR, NoamLR, PassthroughLR, PolynomialDecayLR, TriStageLR, get_effective_lr,
)

warnings.filterwarnings("ignore")

LRS = [0.5, 1.0, 0.125, 3e-4, 2.0, 0.01]


def lr():
    return st.sampled_from(LRS)


def small():
    return st.sampled_from([0.0, 0.0, 1e-5, 0.25, 1.0, 0.001])


def per_group(g, s):
    """One value for all groups or one for each."""
    return st.one_of(s, st.lists(s, min_size=g, max_size=g))


def grp(v, i):
    return v[i] if isinstance(v, (list, tuple)) else v


def make_opt(lrs, tensor_lr=False):
    ps = [torch.nn.Parameter(torch.zeros(1)) for _ in lrs]
    return torch.optim.SGD([{"params": [p], "lr": torch.tensor(l, dtype=torch.float64) if tensor_lr else l} for p, l in zip(ps, lrs)], lr=0.1)


def warm(base, start, t, w):
    return start + (base - start) * t / w


# Each family: builder(opt, cfg), formula(cfg, group, base, t).


def f_pass(c, i, b, t):
    return b


def f_noam(c, i, b, t):
    w = c["w"]
    if t < w:
        return b * t / w / math.sqrt(w)
    return b if t == 0 else b / math.sqrt(t)


def f_myle(c, i, b, t):
    w = c["w"]
    if t < w:
        return warm(b, grp(c["start"], i), t, w)
    return b * math.sqrt(w / t)


def f_poly(c, i, b, t):
    n, w, f = c["n"], c["w"], grp(c["final"], i)
    if t >= n:
        return f
    if t < w:
        return warm(b, grp(c["start"], i), t, w)
    return f + (b - f) * ((n - t) / (n - w)) ** c["power"]


def f_cos(c, i, b, t):
    w, f = c["w"], grp(c["final"], i)
    if t < w:
        return warm(b, grp(c["start"], i), t, w)
    pos, length, k = t - w, Fraction(c["len"]), 0
    while pos >= length:
        pos -= length
        length *= Fraction(c["mul"])
        k += 1
    if length.denominator != 1 or pos.denominator != 1:
        return None  # how fractional cycles round is not specified
    m = c["lr_mul"] ** k
    return m * f + 0.5 * (m * b - m * f) * (1 + math.cos(math.pi * float(pos) / float(length)))


def f_tri(c, i, b, t):
    s, h, d = c["stages"]
    if t < s:
        return warm(b, b * grp(c["start"], i), t, s)
    if t < s + h:
        return b
    if t < s + h + d:
        return b * grp(c["final"], i) ** ((t - s - h) / d)
    return b * grp(c["final"], i)


def ratios(c):
    n = sum(c["stages"])
    return tuple(s / n for s in c["stages"])


FAMILIES = {
    "pass": (lambda o, c, **k: PassthroughLR(o, **k), f_pass),
    "noam": (lambda o, c, **k: NoamLR(o, c["w"], **k), f_noam),
    "myle": (lambda o, c, **k: MyleLR(o, c["w"], start_lr=c["start"], **k), f_myle),
    "poly": (lambda o, c, **k: PolynomialDecayLR(o, c["n"], c["w"], power=c["power"], start_lr=c["start"], final_lr=c["final"], **k), f_poly),
    "cos": (lambda o, c, **k: CosineAnnealingLR(o, c["len"], c["w"], cycle_mul=c["mul"], lr_mul=c["lr_mul"], start_lr=c["start"], final_lr=c["final"], **k), f_cos),
    "tri": (lambda o, c, **k: TriStageLR(o, sum(c["stages"]), ratios(c), start_lr_scale=c["start"], final_lr_scale=c["final"], **k), f_tri),
}


def config(fam, g):
    d = {"g": st.just(g)}
    w = st.integers(0, 12)
    if fam == "noam":
        d["w"] = w
    elif fam == "myle":
        d.update(w=st.integers(1, 12), start=per_group(g, small()))
    elif fam == "poly":
        base = st.fixed_dictionaries({
            "w": w, "extra": st.integers(1, 30), "power": st.sampled_from([1.0, 2.0, 0.5, 3.0, 1.5]),
            "start": per_group(g, small()), "final": per_group(g, small()),
        })
        return base.map(lambda c: {**c, "n": c["w"] + c["extra"]})
    elif fam == "cos":
        # Cycle lengths stay whole numbers for as long as cases run.
        lm = st.one_of(
            st.tuples(st.integers(1, 25), st.just(1.0)),
            st.tuples(st.integers(1, 6), st.sampled_from([2.0, 3.0, 4.0, 5.0, 6.0, 7.0, 10.0])),
            st.tuples(st.sampled_from([16, 32]), st.just(1.5)),
            st.tuples(st.sampled_from([64]), st.just(1.25)),
        )
        return st.fixed_dictionaries({
            "w": w, "lm": lm, "lr_mul": st.sampled_from([1.0, 0.5, 0.9, 0.25]),
            "start": per_group(g, small()), "final": per_group(g, small()),
        }).map(lambda c: {**c, "len": c["lm"][0], "mul": c["lm"][1]})
    elif fam == "tri":
        stages = st.tuples(st.integers(0, 12), st.integers(0, 12), st.integers(0, 20)).filter(
            lambda s: sum(s) > 0 and all(int(x / sum(s) * sum(s)) == x for x in s)
        )
        pos = st.sampled_from([0.01, 0.5, 1.0, 0.1])
        return st.fixed_dictionaries({"stages": stages, "start": per_group(g, st.sampled_from([0.01, 0.0, 1.0, 0.3])), "final": per_group(g, pos)})
    return st.fixed_dictionaries(d)


def case(fam):
    def build():
        groups = st.lists(lr(), min_size=1, max_size=3)
        return groups.flatmap(lambda lrs: st.tuples(
            config(fam, len(lrs)), st.just(lrs), st.integers(1, 110), st.lists(st.integers(0, 100), max_size=3),
            st.sampled_from([None, None, 0, 3, 17, 50, 115, 230, 1000]), st.booleans(),
        ))

    return build


def total(fam, c):
    return {"poly": lambda: c["n"], "tri": lambda: sum(c["stages"]), "cos": lambda: c["w"] + c["len"]}.get(fam, lambda: c.get("w", 0))()


def check(fam):
    mk, formula = FAMILIES[fam]

    def fn(ctx, case):
        cfg, lrs, n, saves, last, tensor = case
        opt = make_opt(lrs, tensor)
        t = 0
        if last is not None:
            for pg, l in zip(opt.param_groups, lrs):
                pg["initial_lr"] = torch.tensor(l, dtype=torch.float64) if tensor else l
            t = last + 1
            sch = mk(opt, cfg, last_epoch=last)
        else:
            sch = mk(opt, cfg)
        for k in range(n + 1):
            if k in saves:
                buf = io.BytesIO()
                torch.save({"s": sch.state_dict(), "o": opt.state_dict()}, buf)
                buf.seek(0)
                sd = torch.load(buf, weights_only=True)
                opt = make_opt(lrs, tensor)
                sch = mk(opt, cfg)
                opt.load_state_dict(sd["o"])
                sch.load_state_dict(sd["s"])
            got = [float(x) for x in sch.get_last_lr()]
            used = [float(pg["lr"]) for pg in opt.param_groups]
            expect_eq(got, used, f"step {t}: reported and used learning rates differ")
            expect_eq(float(get_effective_lr(sch)), got[0], "effective learning rate")
            exp = [formula(cfg, i, b, t) for i, b in enumerate(lrs)]
            for i, (a, e) in enumerate(zip(got, exp)):
                if e is None:
                    continue
                expect(math.isclose(a, e, rel_tol=1e-6, abs_tol=1e-12), f"step {t}, group {i}: lr {a!r}, formula {e!r}")
                lo, hi = bounds(fam, cfg, i, lrs[i], exp[i])
                expect(lo - 1e-9 <= a <= hi + 1e-9, f"step {t}, group {i}: lr {a} not in [{lo}, {hi}]")
            opt.step()
            sch.step()
            t += 1
        ctx.nontrivial(t > total(fam, cfg) and len(lrs) > 1)
        if tensor:
            ctx.label("tensor_lr")
        if saves:
            ctx.label("restored")

    return fn


def bounds(fam, c, i, b, e):
    if fam in ("pass", "noam"):
        return 0.0, b
    s = grp(c["start"], i)
    if fam == "myle":
        return 0.0, max(s, b)
    if fam == "tri":
        f = b * grp(c["final"], i)
        return min(b * s, b, f), max(b * s, b, f)
    f = grp(c["final"], i)
    return (0.0 if fam == "cos" else min(s, b, f)), max(s, b, f)


# ---------------------------------------------- any growth factor stays bounded


def cos_any_case():
    return st.tuples(st.integers(1, 20), st.floats(1.01, 4.0), st.integers(0, 5), st.integers(0, 400))


def cos_any(ctx, case):
    length, mul, w, n = case
    opt = make_opt([1.0])
    sch = CosineAnnealingLR(opt, length, w, cycle_mul=mul, final_lr=0.25)
    for t in range(n):
        v = float(sch.get_last_lr()[0])
        if t >= w:
            expect(0.25 - 1e-9 <= v <= 1.0 + 1e-9, f"lr {v} out of bounds at step {t}")
        opt.step()
        sch.step()
    ctx.nontrivial(n > w + length)


# ---------------------------------------------------------- rejected settings


def bad_case():
    return st.tuples(st.sampled_from(["poly_warm", "myle0", "tri_sum", "groups"]), st.integers(1, 3), st.integers(0, 20), st.integers(0, 5), st.sampled_from(["poly", "cos", "myle", "tri"]))


def bad(ctx, case):
    how, g, a, b, fam = case
    opt = make_opt([1.0] * g)
    if how == "poly_warm":
        raises(ValueError, lambda: PolynomialDecayLR(opt, a, a + b), "warmup not shorter than the schedule")
    elif how == "myle0":
        raises(ValueError, lambda: MyleLR(opt, 0), "no warmup")
    elif how == "tri_sum":
        raises(ValueError, lambda: TriStageLR(opt, 10, (0.1, 0.2, 0.3 + a / 100)), "ratios that do not add up")
    else:
        v = [0.5] * (g + 1 + b)
        mk = {
            "poly": lambda: PolynomialDecayLR(opt, 10, 1, final_lr=v), "cos": lambda: CosineAnnealingLR(opt, 10, 1, start_lr=v),
            "myle": lambda: MyleLR(opt, 3, start_lr=v), "tri": lambda: TriStageLR(opt, 10, (0.2, 0.2, 0.6), final_lr_scale=v),
        }[fam]
        raises(ValueError, mk, "wrong number of per-group values")
    ctx.nontrivial()


# -------------------------------------------------- from recipe configuration


def recipe_case(fam):
    def build():
        return st.lists(lr(), min_size=1, max_size=3).flatmap(lambda lrs: st.tuples(
            st.just(fam), config(fam, len(lrs)), st.just(lrs), st.integers(1, 60), st.booleans(), st.booleans(), small(),
        ))

    return build


def recipe(ctx, case):
    from fairseq2.recipe.config import (
        CosineAnnealingLRConfig, MyleLRConfig, NoamLRConfig, PolynomialDecayLRConfig, RegimeSection, TriStageLRConfig,
    )
    from fairseq2.recipe.internal import lr_schedulers as F

    fam, c, lrs, n, use_scale, own_len, scale = case
    opt = make_opt(lrs)
    c = dict(c)
    if fam == "noam":
        sch = F._NoamLRFactory(opt).create(NoamLRConfig(num_warmup_steps=c["w"]))
    elif fam == "myle":
        sch = F._MyleLRFactory(opt).create(MyleLRConfig(num_warmup_steps=c["w"], start_lr=c["start"]))
    elif fam == "poly":
        cfg = PolynomialDecayLRConfig(num_warmup_steps=c["w"], power=c["power"], start_lr=c["start"], final_lr=c["final"])
        sch = F._PolynomialDecayLRFactory(opt, RegimeSection(num_steps=c["n"])).create(cfg)
    elif fam == "tri":
        cfg = TriStageLRConfig(stage_ratio=ratios(c), start_lr_scale=c["start"], final_lr_scale=c["final"])
        sch = F._TriStageLRFactory(opt, RegimeSection(num_steps=sum(c["stages"]))).create(cfg)
    else:
        kw = {"final_lr": c["final"], "final_lr_scale": None}
        if use_scale:
            kw = {"final_lr": None, "final_lr_scale": scale}
            c["final"] = [l * scale for l in lrs]
        num_steps = c["w"] + c["len"] if not own_len else 77
        cfg = CosineAnnealingLRConfig(
            cycle_len=c["len"] if own_len else None, num_warmup_steps=c["w"], cycle_mul=c["mul"], lr_mul=c["lr_mul"], start_lr=c["start"], **kw
        )
        sch = F._CosineAnnealingLRFactory(opt, RegimeSection(num_steps=num_steps)).create(cfg)
    for t in range(n):
        for i, b in enumerate(lrs):
            v, e = float(opt.param_groups[i]["lr"]), FAMILIES[fam][1](c, i, b, t)
            expect(e is None or math.isclose(v, e, rel_tol=1e-6, abs_tol=1e-12), f"{fam} step {t}, group {i}: lr {v!r}, formula {e!r}")
        opt.step()
        sch.step()
    ctx.nontrivial(n > total(fam, c))


main(Prop(
    "O02",
    [Arm(f, case(f), check(f), quick=q, thorough=q * 20) for f, q in
     [("pass", 40), ("noam", 150), ("myle", 200), ("poly", 300), ("cos", 500), ("tri", 300)]]
    + [Arm(f"recipe_{f}", recipe_case(f), recipe, quick=120, thorough=2000) for f in ("noam", "myle", "poly", "cos", "tri")]
    + [Arm("cos_any", cos_any_case, cos_any, quick=100, thorough=1500), Arm("bad", bad_case, bad, quick=150, thorough=1000)],
    rule="a run with several parameter groups that goes past the end of the schedule (of the first cycle, of the warmup)",
))

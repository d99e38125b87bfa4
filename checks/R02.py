"""R02: recipe runs are configured and named reproducibly.

Generated configuration classes, configuration files and command lines go through
the command line interface; a model overlays them in order. Sweep tags are
compared over pairs of configurations.
"""
import boot

boot.boot(init=True)

import contextlib
import io
import os
import pickle
import re
import shutil
import subprocess
import sys
import tempfile
from copy import deepcopy
from dataclasses import dataclass, field, fields
from pathlib import Path
from random import Random

from configs import BAD, CONV, Types, chain, dcs, same, sites, values
from harness import Arm, KnownFinding, Prop, Violation, expect, expect_eq, main, raises
from hypothesis import strategies as st
from ruamel.yaml import YAML

import fairseq2.recipe  # noqa: F401
from fairseq2.file_system import NativeLocalFileSystem
from fairseq2.recipe.base import Recipe, RecipeContext
from fairseq2.recipe.cli import main as cli_main
from fairseq2.recipe.component import ComponentNotKnownError
from fairseq2.recipe.error import LRSchedulerNotKnownError, OptimizerNotKnownError

UNKNOWN = (ComponentNotKnownError, LRSchedulerNotKnownError, OptimizerNotKnownError)
from fairseq2.recipe.config import (
    AdafactorConfig, AdamWConfig, CommonSection, CosineAnnealingLRConfig, GangSection, LRSchedulerSection, ModelSection, NoamLRConfig,
    OptimizerSection, RegimeSection, SequenceGeneratorSection, TrainerSection,
)
from fairseq2.recipe.error import RecipeConfigParseError
from fairseq2.recipe.internal.config import _RecipeConfigHolder
from fairseq2.recipe.internal.output_dir import _OutputDirectoryCreator
from fairseq2.recipe.internal.sweep_tag import _StandardSweepTagGenerator
from fairseq2.task import Task
from fairseq2.utils.config import StandardConfigMerger
from fairseq2.utils.structured import StandardValueConverter, StructureError
from fairseq2.utils.validation import ValidationError
from fairseq2.world_info import WorldInfo

SCRATCH = Path(tempfile.gettempdir())


def yaml_dump(x) -> str:
    y = YAML(typ="safe", pure=True)
    y.width = 10**6
    y.default_flow_style = True
    y.allow_unicode = True
    buf = io.StringIO()
    y.dump(x, buf)
    s = buf.getvalue()
    if s.endswith("\n...\n"):
        s = s[:-5]
    return s.rstrip("\n")


def yaml_load(s):
    return YAML(typ="safe", pure=True).load(s)


class FakeRecipe(Recipe):
    def __init__(self, kls, task=None):
        self.kls = kls
        self.task = task
        self.original = None

    def create_task(self, context: RecipeContext) -> Task:
        return self.task(context)

    @property
    def config_kls(self):
        return self.kls


def cli(recipe, argv):
    """The output of the command line interface."""
    old, out = sys.argv, io.StringIO()
    sys.argv = ["recipe", "--no-rich", "--no-exit-on-error", *argv]
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
            cli_main(recipe)
    finally:
        sys.argv = old
    return out.getvalue()


# -- loading ------------------------------------------------------------------------


@st.composite
def loads(draw):
    spec = draw(dcs(depth=3))
    default = draw(values(spec))
    # All fields of a recipe configuration have defaults.
    spec = ("dc", tuple((n, s, False) for n, s, _ in spec[1]), type(spec[2])([default.vals[n] for n, _, _ in spec[1]]), spec[3])
    case = dict(spec=spec, file=None, items=[], bad=None)
    if draw(st.integers(0, 3)):
        case["file"] = dict(value=draw(values(spec)), keep=draw(st.integers(0, 2**16)), dels=draw(st.integers(0, 2**16)) if draw(st.integers(0, 3)) == 0 else 0, style=draw(st.sampled_from(["plain", "set", "dir"])), cut=draw(st.sampled_from([0, 1]) | st.integers(0, 2**16)))
    for _ in range(draw(st.integers(0, 4))):
        case["items"].append(dict(value=draw(values(spec)), pick=draw(st.integers(0, 10**6)), how=draw(st.sampled_from(["", "", "set:", "del:"])), new=draw(st.booleans()), space=draw(st.booleans())))
    if draw(st.integers(0, 3)) == 0:
        case["bad"] = (draw(st.integers(0, 10**6)), draw(st.integers(0, 10**6)), draw(st.sampled_from(["type", "unknown"])), draw(st.sampled_from(["file", "cli"])))
    return case


def paths(spec, plain, prefix=()):
    """The fields of nested configurations."""
    if spec[0] == "opt" and plain is not None:
        spec = spec[2]
    if spec[0] != "dc" or not isinstance(plain, dict):
        return
    for n, s, _ in spec[1]:
        if n in plain:
            yield prefix + (n,), s
            yield from paths(s, plain[n], prefix + (n,))


def get(x, path):
    for p in path:
        x = x[p]
    return x


def put(x, path, v):
    for p in path[:-1]:
        if not isinstance(x.get(p), dict):
            x[p] = {}
        x = x[p]
    x[path[-1]] = v


def remove(x, path):
    for p in path[:-1]:
        if not isinstance(x.get(p), dict):
            x[p] = {}
        x = x[p]
    x.pop(path[-1], None)


def overlay(base, over):
    out = dict(base) if isinstance(base, dict) else {}
    for k in over.get("_del_", []):
        out.pop(k, None)
    for k, v in over.items():
        if k not in ("_del_", "_set_"):
            out[k] = overlay(out.get(k), v) if isinstance(v, dict) else v
    out.update(over.get("_set_", {}))
    return out


def thin(x, rng, top=True):
    return {k: thin(v, rng, False) if isinstance(v, dict) else v for k, v in x.items() if top or rng.random() < 0.6}


# -- merging ------------------------------------------------------------------------

MKEYS = st.sampled_from(["a", "b", "a", "b", "a.b"])
TREE = st.recursive(
    st.none() | st.booleans() | st.integers(-2, 2) | st.sampled_from(["x", ""]) | st.lists(st.integers(0, 2), max_size=2),
    lambda sub: st.dictionaries(MKEYS, sub, max_size=3) | st.lists(st.dictionaries(MKEYS, sub, max_size=1), max_size=2),
    max_leaves=12,
)


SECTIONS = st.dictionaries(MKEYS, st.dictionaries(MKEYS, TREE, min_size=1, max_size=3) | TREE, min_size=1, max_size=3)


@st.composite
def overrides(draw, depth=3):
    sub = st.one_of(overrides(depth - 1), overrides(depth - 1), TREE) if depth else TREE
    out = draw(st.dictionaries(MKEYS, sub, min_size=1 if depth == 3 else 0, max_size=3))
    if draw(st.integers(0, 2)) == 0:
        out["_del_"] = draw(st.lists(MKEYS, max_size=3))
    if draw(st.integers(0, 2)) == 0:
        out["_set_"] = draw(st.dictionaries(MKEYS, TREE, max_size=2))
    # Directives may stand anywhere in the mapping.
    return {k: out[k] for k in draw(st.permutations(list(out)))}


def merging(ctx, case) -> None:
    base, over = case
    a, b = deepcopy(base), deepcopy(over)
    got = StandardConfigMerger().merge(base, over)
    expect_eq((base, over), (a, b), "the inputs after merging")
    want = overlay(base, over) if isinstance(over, dict) else over
    expect(same(got, want), lambda: f"{over} over {base}: {got} instead of {want}")
    ctx.nontrivial(isinstance(base, dict) and bool(set(base) & set(over)))
    ctx.label("del" if "_del_" in repr(over) else "no del", "set" if "_set_" in repr(over) else "no set")

    # The result shares nothing with its sources.
    def spoil(x):
        for v in list(x.values() if isinstance(x, dict) else x if isinstance(x, list) else []):
            spoil(v)
        if isinstance(x, (dict, list)):
            x.clear()

    spoil(got)
    expect_eq((base, over), (a, b), "the inputs after a change of the result")


def has_dir(x):
    return "${" in repr(x)


def loading(ctx, case) -> None:
    t = Types()
    spec = case["spec"]
    kls = t.type(spec)
    recipe = FakeRecipe(kls)
    want = CONV.unstructure(kls())
    argv = ["--dump-config"]
    d = Path(tempfile.mkdtemp(dir=SCRATCH))
    bad = case["bad"]
    over = None
    if case["file"] is not None:
        f = case["file"]
        src = CONV.unstructure(t.value(spec, f["value"]))
        names = [n for i, (n, _, _) in enumerate(spec[1]) if f["keep"] >> i & 1]
        sub = {n: src[n] for n in names}
        if f["cut"]:
            # Sections are given in part.
            sub = thin(sub, Random(f["cut"]))
        over = {"_set_": sub} if f["style"] == "set" else sub
        if f["dels"]:
            over = dict(over, _del_=[n for i, (n, _, _) in enumerate(spec[1]) if f["dels"] >> i & 1])
    elif bad is not None and bad[3] == "file":
        over = {}
    items = []
    if over is not None:
        if bad is not None and bad[3] == "file" and bad[2] == "unknown":
            over = dict(over, unknown_=1)
        (d / "c").mkdir()
        path = d / "c" / "config.yaml"
        with open(path, "w", encoding="utf-8") as fp:
            fp.write(yaml_dump(over))
        # Through a link, or a path that is not resolved.
        if case["file"] and case["file"]["style"] == "dir":
            path = d / "c" / ".." / "c" / "config.yaml"
        argv += ["--config-file", str(path)]
        want = overlay(want, over)
        # Directives are expanded.
        want = expand(want, str((d / "c").resolve()))
    for it in case["items"]:
        src = CONV.unstructure(t.value(spec, it["value"]))
        ps = list(paths(spec, src))
        p, _ = ps[it["pick"] % len(ps)]
        name = ".".join(p)
        if it["how"] == "del:":
            items.append(f"del:{name}")
            remove(want, p)
        else:
            v = get(src, p)
            sep = " = " if it["space"] else "="
            items.append((it["how"] + name + sep + yaml_dump(v), it["new"]))
            put(want, p, v)
        want = deepcopy(want)
    if bad is not None and bad[3] == "cli":
        if bad[2] == "unknown":
            items.append("unknown_=1")
            put(want, ("unknown_",), 1)
    if bad is not None and bad[2] == "type":
        # An ill-typed setting at the end.
        scalars = [(n, s[1]) for n, s, _ in spec[1] if s[0] == "leaf" and s[1] in BAD]
        if scalars:
            n, k = scalars[bad[0] % len(scalars)]
            bads = [b for b in BAD[k] if not isinstance(b, (bytes, float)) and b != 10**400]
            b = bads[bad[1] % len(bads)]
            items.append(f"{n}={yaml_dump(b)}")
            put(want, (n,), b)
    argv2 = []
    for it in items:
        it, new = it if isinstance(it, tuple) else (it, False)
        if not argv2 or new:
            argv2.append("--config")
        argv2.append(it)
    argv += argv2
    try:
        expected = CONV.structure(want, kls)
        failed = None
    except StructureError as ex:
        expected, failed = None, ex
    try:
        out = cli(recipe, argv)
    except RecipeConfigParseError as ex:
        expect(failed is not None, lambda: f"{argv} was rejected: {chain(ex)}")
        fs = re.findall(r"`\w+` field|extra key\(s\) [^.]*", chain(failed))
        text = chain(ex)
        expect(all(x in text for x in fs), lambda: f"the error does not name {fs}: {text}")
        ctx.label("rejected")
        ctx.nontrivial()
        return
    except SystemExit as ex:
        raise Violation(f"{argv}: exit {ex.code}")
    finally:
        shutil.rmtree(d)
    expect(failed is None, lambda: f"{argv} was accepted, but: {chain(failed)}")
    got = yaml_load(out)
    ref = CONV.unstructure(expected)
    expect(same(got, ref), lambda: f"{argv}: configuration {got} instead of {ref}; file {over}")
    if case["items"] and over:
        ctx.nontrivial()
    ctx.label("items" if case["items"] else "no items", "file" if over is not None else "no file")


def expand(x, d):
    if isinstance(x, list):
        return [expand(e, d) for e in x]
    if isinstance(x, dict):
        return {k: expand(v, d) for k, v in x.items()}
    if isinstance(x, str):
        return x.replace("${dir}", d)
    return x


# -- malformed command lines --------------------------------------------------------


@dataclass
class Small:
    a: int = 1
    b: str = "x"


@st.composite
def malformed(draw):
    return dict(item=draw(st.sampled_from(["a", "", "  ", "del:a=1", "a=[1", "b={x", "a=: :", "b='x", "--", "a=\"", "b=@x", "b=%y"])), before=draw(st.booleans()), file=draw(st.sampled_from([None, None, "missing", "dir", "empty", "broken", "list", "scalar"])))


def malformed_lines(ctx, case) -> None:
    d = Path(tempfile.mkdtemp(dir=SCRATCH))
    try:
        argv = ["--dump-config"]
        if case["file"] is not None:
            p = d / "x.yaml"
            if case["file"] == "dir":
                p.mkdir()
            elif case["file"] != "missing":
                p.write_text({"empty": "", "broken": "a: [1", "list": "[1, 2]", "scalar": "3"}[case["file"]])
            try:
                out = cli(FakeRecipe(Small), argv + ["--config-file", str(p)])
            except RecipeConfigParseError:
                ctx.nontrivial()
            else:
                raise Violation(f"a configuration file that is {case['file']} was accepted: {out!r}")
            return
        if case["item"] == "--":
            return
        items = (["a=2"] if case["before"] else []) + [case["item"]]
        try:
            out = cli(FakeRecipe(Small), argv + ["--config", *items])
        except SystemExit as ex:
            expect_eq(ex.code, 2, "exit code")
            ctx.nontrivial()
        except RecipeConfigParseError:
            ctx.nontrivial()
        else:
            raise Violation(f"{items} was accepted: {out!r}")
    finally:
        shutil.rmtree(d)


# -- real sections -------------------------------------------------------------------


@dataclass(kw_only=True)
class RealConfig:
    model: ModelSection = field(default_factory=lambda: ModelSection(name="m"))
    gang: GangSection = field(default_factory=lambda: GangSection())
    trainer: TrainerSection = field(default_factory=lambda: TrainerSection())
    optimizer: OptimizerSection = field(default_factory=lambda: OptimizerSection(name="adamw", config=AdamWConfig()))
    lr_scheduler: LRSchedulerSection = field(default_factory=lambda: LRSchedulerSection(name="cosine_annealing", config=CosineAnnealingLRConfig(cycle_len=10)))
    regime: RegimeSection = field(default_factory=lambda: RegimeSection(num_steps=1))
    common: CommonSection = field(default_factory=lambda: CommonSection())


GOOD = [
    ("optimizer.config.lr", 0.25), ("optimizer.config.betas", [0.5, 0.25]), ("optimizer.config.weight_decay", 1.5), ("optimizer.config.impl", "naive"),
    ("regime.num_steps", 7), ("regime.num_steps", None), ("regime.num_data_epochs", 3), ("regime.validate_every_n_steps", 4),
    ("gang.tensor_parallel_size", 2), ("gang.timeout", 3), ("trainer.data_parallelism", "fsdp"), ("trainer.max_grad_norm", 0.5), ("trainer.max_grad_norm", None),
    ("trainer.mixed_precision.dtype", "float16"), ("trainer.grad_accumulation.num_batches", 4), ("trainer.fsdp.granularity", "stack"),
    ("common.seed", 5), ("common.no_sweep_dir", True), ("common.sweep_format", "x.{hash}"), ("common.assets.extra_paths", ["/a", "b"]),
    ("common.torch.num_threads", 2), ("lr_scheduler.config.cycle_len", 20), ("lr_scheduler.config.final_lr", 0.125),
    ("lr_scheduler.config.num_warmup_steps", 3), ("common.metric_recorders.wandb.enabled", False),
]
ILL = [
    ("optimizer.config.foo", 1, RecipeConfigParseError), ("optimizer.config.lr", "abc", RecipeConfigParseError), ("optimizer.config.betas", [0.5], RecipeConfigParseError),
    ("optimizer.name", "nope", UNKNOWN), ("lr_scheduler.name", "nope", UNKNOWN), ("optimizer.config.impl", "quick", RecipeConfigParseError),
    ("regime.num_steps", "abc", RecipeConfigParseError), ("regime.num_steps", 0, ValidationError), ("regime.nun_steps", 4, RecipeConfigParseError),
    ("gang.tensor_parallel_size", 0, ValidationError), ("trainer.data_parallelism", "zdp", RecipeConfigParseError), ("trainer.mixed_precision.dtype", "floaty", RecipeConfigParseError),
    ("trainer.grad_accumulation.num_batches", 0, ValidationError), ("common.seed", [1], RecipeConfigParseError), ("common.no_sweep_dir", "maybe", RecipeConfigParseError),
    ("lr_scheduler.config.cycle_len", 1.5, RecipeConfigParseError), ("lr_scheduler.config.num_warmup_steps", -1, ValidationError), ("common.torch.compiled_region_activation_memory_budget", 2.0, ValidationError),
    ("optimizer", None, RecipeConfigParseError), ("common.torch.default_sdpa", "flash9", RecipeConfigParseError), ("lr_scheduler.config.num_warmup_steps", "3s", RecipeConfigParseError),
]
SWAPS = [("optimizer", {"name": "adafactor", "config": {"lr": 0.5}}), ("lr_scheduler", {"name": "noam", "config": {"num_warmup_steps": 9}})]


@st.composite
def section_cases(draw):
    good = draw(st.lists(st.integers(0, len(GOOD) - 1), min_size=1, max_size=6))
    return dict(good=good, via=draw(st.lists(st.booleans(), min_size=6, max_size=6)), ill=draw(st.one_of(st.none(), st.none(), st.integers(0, len(ILL) - 1))), swap=draw(st.one_of(st.none(), st.none(), st.integers(0, 1))))


def sections(ctx, case) -> None:
    d = Path(tempfile.mkdtemp(dir=SCRATCH))
    try:
        want = CONV.unstructure(RealConfig())
        file_: dict = {}
        items = []
        swap = SWAPS[case["swap"]] if case["swap"] is not None else None
        chosen = [GOOD[i] for i in case["good"]]
        if swap:
            chosen = [c for c in chosen if not c[0].startswith(swap[0])]
        for (name, v), via in zip(chosen, case["via"]):
            if via:
                put(file_, name.split("."), v)
        for (name, v), via in zip(chosen, case["via"]):
            if not via:
                items.append(f"{name}={yaml_dump(v)}")
        for (name, v), via in zip(chosen, case["via"]):
            if via:
                put(want, name.split("."), v)
        for (name, v), via in zip(chosen, case["via"]):
            if not via:
                put(want, name.split("."), v)
        if swap:
            items.append(f"{swap[0]}={yaml_dump(swap[1])}")
            cfg = AdafactorConfig(lr=0.5) if swap[0] == "optimizer" else NoamLRConfig(num_warmup_steps=9)
            want[swap[0]] = {"name": swap[1]["name"], "config": CONV.unstructure(cfg)}
        ill = ILL[case["ill"]] if case["ill"] is not None else None
        if ill is not None:
            if swap and ill[0].startswith(swap[0]):
                return
            # The last one counts.
            items.append(f"{ill[0]}={yaml_dump(ill[1])}")
        argv = ["--dump-config"]
        if file_:
            (d / "f.yaml").write_text(yaml_dump(file_))
            argv += ["--config-file", str(d / "f.yaml")]
        if items:
            argv += ["--config", *items]
        # Parsing happens before validation: other settings must be valid.
        try:
            out = cli(FakeRecipe(RealConfig), argv)
        except (RecipeConfigParseError, ValidationError, *UNKNOWN) as ex:
            if ill is None:
                invalid = invalid_combination(want)
                expect(invalid and isinstance(ex, ValidationError), lambda: f"{argv}: {chain(ex)}")
                return
            expect(isinstance(ex, ill[2]) or isinstance(ex, ValidationError), lambda: f"{argv}: {ex!r} instead of {ill[2]}")
            leaf = ill[0].split(".")[-1]
            if ill[2] is not UNKNOWN:
                expect(leaf in chain(ex) or isinstance(ex, ValidationError), lambda: f"{argv}: the error does not name {leaf}: {chain(ex)}")
            ctx.nontrivial()
            ctx.label("ill")
            return
        expect(ill is None, lambda: f"{ill} was accepted")
        got = yaml_load(out)
        expect(same(got, want), lambda: f"{argv}: {diff(got, want)}")
        ctx.nontrivial()
        ctx.label("good")
    finally:
        shutil.rmtree(d)


def diff(a, b, path=""):
    if isinstance(a, dict) and isinstance(b, dict):
        return {f"{path}.{k}": (a.get(k, "missing"), b.get(k, "missing")) for k in a.keys() | b.keys() if not same(a.get(k, "missing"), b.get(k, "missing"))}
    return (a, b)


def invalid_combination(want) -> bool:
    """Settings that are fine on their own, but not together."""
    from fairseq2.utils.validation import StandardObjectValidator

    cfg = CONV.structure(want, RealConfig)
    try:
        StandardObjectValidator().validate(cfg)
    except ValidationError:
        return True
    # The untyped component configurations
    from fairseq2.recipe.config import AdamWConfig as A, CosineAnnealingLRConfig as C

    for section, kls in (("optimizer", A), ("lr_scheduler", C)):
        if want[section]["name"] in ("adamw", "cosine_annealing"):
            try:
                StandardObjectValidator().validate(CONV.structure(want[section]["config"], kls))
            except ValidationError:
                return True
    return False


# -- whole runs ---------------------------------------------------------------------


@dataclass(kw_only=True)
class RunConfig:
    gang: GangSection = field(default_factory=lambda: GangSection())
    common: CommonSection = field(default_factory=lambda: CommonSection(cluster="none"))
    x: int = 0
    names: list[str] = field(default_factory=list)


class FakeTask(Task):
    def __init__(self, fn):
        self.fn = fn

    def run(self):
        self.fn()

    def request_stop(self):
        pass

    def close(self):
        pass

    @property
    def step_nr(self):
        return 0


def runs(ctx, case) -> None:
    """A run has one configuration, which is the one it was started with."""
    d = Path(tempfile.mkdtemp(dir=SCRATCH))
    seen = []
    try:
        f = d / "f.yaml"
        first = {"x": case["x"], "names": case["names"], "common": {"no_sweep_dir": case["no_sweep"], "seed": case["seed"]}}
        f.write_text(yaml_dump(first))

        def task(context):
            def run():
                a = context.config.as_(RunConfig)
                seen.append((CONV.unstructure(a), context.output_dir))
                # Somebody prepares the next run.
                f.write_text(yaml_dump({"x": case["x"] + 1, "names": ["other"], "common": {"seed": 77}}) if case["change"] == "edit" else "x: [")
                if case["change"] == "remove":
                    f.unlink()
                b = context.config.as_(RunConfig)
                seen.append((CONV.unstructure(b), context.output_dir))
                seen.append((CONV.unstructure(context.get_config_as(RunConfig)), context.output_dir))

            return FakeTask(run)

        out = d / "out"
        argv = [str(out), "--config-file", str(f), *(["--config", f"x={case['y']}"] if case["y"] is not None else [])]
        cli(FakeRecipe(RunConfig, task), argv)
        want = CONV.unstructure(RunConfig())
        want["x"] = case["x"] if case["y"] is None else case["y"]
        want["names"] = case["names"]
        want["common"]["no_sweep_dir"] = case["no_sweep"]
        want["common"]["seed"] = case["seed"]
        for cfg, dir_ in seen:
            expect(same(cfg, want), lambda: f"the configuration is {diff(cfg, want)}")
            expect_eq(dir_, seen[0][1], "output directory")
        expect_eq(len(seen), 3, "runs")
        dir_ = seen[0][1]
        expect(dir_.parent == out.resolve() if not case["no_sweep"] else dir_ == out.resolve(), f"output directory {dir_} of {out}")
        dumped = yaml_load((dir_ / "config.yaml").read_text())
        expect(same(dumped, want), lambda: f"config.yaml: {diff(dumped, want)}")
        # The dumped configuration repeats the run in the same directory.
        seen.clear()
        shutil.copy(dir_ / "config.yaml", f)
        cli(FakeRecipe(RunConfig, task), [str(out), "--config-file", str(f)])
        expect(same(seen[0][0], want), lambda: f"from config.yaml: {diff(seen[0][0], want)}")
        expect_eq(seen[0][1], dir_, "output directory of the repeated run")
        ctx.nontrivial()
    finally:
        shutil.rmtree(d)


def run_cases():
    return st.fixed_dictionaries(dict(
        x=st.integers(0, 5), y=st.one_of(st.none(), st.integers(6, 9)), names=st.lists(st.sampled_from(["a", "b c", "1", "é"]), max_size=2),
        seed=st.integers(0, 9), no_sweep=st.booleans(), change=st.sampled_from(["edit", "break", "remove"]),
    ))


# -- sweep tags ----------------------------------------------------------------------

# No value holds a letter of a key.
KEYS = ["a", "b", "c", "d", "a_b", "cab"]
WORDS = ["", "x", "y", "xy", "v1.0", "v10", "v/1/0", "/v/10", "z" * 15, "z" * 16, "z" * 17, "z" * 15 + "/", "z" * 15 + "/z", "X", " x", "x ", "é", "x-y", "x_y", "lr", "\n", "!", "?"]


@st.composite
def schemas(draw, depth=2):
    k = draw(st.sampled_from(["str", "str", "str", "int", "float", "bool", "opt"] + (["list", "map", "map"] if depth else [])))
    if k == "list":
        return (k, draw(schemas(depth=depth - 1)))
    if k == "map":
        ks = draw(st.lists(st.sampled_from(KEYS), min_size=1, max_size=3, unique=True))
        return (k, tuple((n, draw(schemas(depth=depth - 1))) for n in ks))
    return (k,)


def tagged(s):
    k = s[0]
    if k == "list":
        return st.lists(tagged(s[1]), max_size=3)
    if k == "map":
        return st.fixed_dictionaries({n: tagged(e) for n, e in s[1]})
    return {
        "str": st.sampled_from(WORDS), "int": st.integers(-3, 12), "float": st.sampled_from([0.0, 1.0, 0.1, 1e-5, 1e22, -2.5]),
        "bool": st.booleans(), "opt": st.one_of(st.none(), st.integers(0, 3)),
    }[k]


@st.composite
def pairs(draw):
    ks = draw(st.lists(st.sampled_from(KEYS), min_size=1, max_size=4, unique=True))
    s = ("map", tuple((n, draw(schemas())) for n in ks))
    a = draw(tagged(s))
    b = draw(tagged(s)) if draw(st.integers(0, 3)) == 0 else deepcopy(a)
    n = draw(st.sampled_from(ks))
    if draw(st.booleans()):
        b[n] = draw(tagged(dict(s[1])[n]))
    return dict(a=a, b=b, order=draw(st.randoms(use_true_random=False)).random(), ws=draw(st.integers(1, 8)), form=draw(st.sampled_from(["ws_{world_size}.{hash}", "{hash}", "r/{hash}/x", "{{{hash}}}"])))


def shuffled(x, r):
    if isinstance(x, dict):
        ks = list(x)
        ks = ks[int(r * len(ks)) :] + ks[: int(r * len(ks))]
        return {k: shuffled(x[k], r) for k in ks}
    if isinstance(x, list):
        return [shuffled(e, r) for e in x]
    return x


def tag_of(cfg, form="{hash}", ws=1, no_sweep=False):
    section = CommonSection(sweep_format=form, no_sweep_dir=no_sweep)
    return _StandardSweepTagGenerator(section, WorldInfo(0, ws, 0, 1), _RecipeConfigHolder(cfg), CONV).maybe_generate()


def effective(x):
    """What of a configuration makes a difference: all but empty containers."""
    out = {}

    def go(v, path):
        if isinstance(v, dict):
            for k, e in v.items():
                go(e, path + (k,))
        elif isinstance(v, list):
            for i, e in enumerate(v):
                go(e, path + (i,))
        else:
            out[path] = (type(v), v)

    go(x, ())
    return out


def tags(ctx, case) -> None:
    a, b = case["a"], shuffled(case["b"], case["order"])
    kept = deepcopy(a)
    ta, tb = tag_of(a, case["form"], case["ws"]), tag_of(b, case["form"], case["ws"])
    expect_eq(tag_of(a, case["form"], case["ws"]), ta, "the same configuration again")
    expect(same(a, kept), "the configuration was modified")
    equal = effective(a) == effective(b)
    if equal:
        expect_eq(tb, ta, f"tags of equal configurations {a}")
    else:
        expect(ta != tb, lambda: f"{a} and {b} have the same tag {ta}")
        ctx.nontrivial()
    ctx.label("equal" if equal else "different")
    expect_eq(tag_of(a, no_sweep=True), None, "tag without sweep directory")
    # Different world sizes are different runs.
    expect(tag_of(a, "ws_{world_size}.{hash}", case["ws"] + 1) != tag_of(a, "ws_{world_size}.{hash}", case["ws"]), "tags of different world sizes")
    # The directory exists, and is shared by equal configurations.
    root = Path(tempfile.mkdtemp(dir=SCRATCH))
    try:
        fs = NativeLocalFileSystem()

        class Gen:
            def __init__(self, t):
                self.t = t

            def maybe_generate(self):
                return self.t

        da = _OutputDirectoryCreator(Gen(ta), fs).create(root / "o" / ".." / "o")
        db = _OutputDirectoryCreator(Gen(tb), fs).create(root / "o")
        expect(da.is_dir() and db.is_dir(), "the output directory does not exist")
        expect_eq(da == db, equal, "shared output directory")
        expect_eq(_OutputDirectoryCreator(Gen(None), fs).create(root / "o"), (root / "o").resolve(), "output directory without a tag")
    finally:
        shutil.rmtree(root)


CHILD = """
import sys, pickle
sys.path.insert(0, {lib!r})
import boot
boot.boot()
from dataclasses import dataclass, field
from pathlib import Path
from fairseq2.utils.structured import StandardValueConverter
from fairseq2.recipe.config import CommonSection
from fairseq2.recipe.internal.config import _RecipeConfigHolder
from fairseq2.recipe.internal.sweep_tag import _StandardSweepTagGenerator
from fairseq2.world_info import WorldInfo
out = []
c = StandardValueConverter()
for elems in pickle.load(sys.stdin.buffer):
    cfg = dict(names=set(elems), paths=set(Path(e) for e in elems), pairs=set((e, 1) for e in elems))
    g = _StandardSweepTagGenerator(CommonSection(), WorldInfo(0, 2, 0, 1), _RecipeConfigHolder(cfg), c)
    out.append((g.maybe_generate(), c.unstructure(cfg)))
print("RESULT" + repr(out))
"""


def processes(ctx, case) -> None:
    """All processes of a run find the same tag."""
    res = []
    for seed in case["seeds"]:
        env = dict(os.environ, PYTHONHASHSEED=str(seed))
        code = CHILD.format(lib=str(Path(__file__).resolve().parent.parent / "lib"))
        p = subprocess.run([sys.executable, "-c", code], input=pickle.dumps(case["sets"]), capture_output=True, env=env)
        if p.returncode:
            raise RuntimeError(p.stderr.decode()[-2000:])
        res.append(eval(p.stdout.decode().split("RESULT", 1)[1]))
    for r in res[1:]:
        for x, y, elems in zip(r, res[0], case["sets"]):
            expect_eq(x, y, f"tag and plain form of a configuration with the set {sorted(elems)} in two processes")
    ctx.nontrivial()


def process_cases():
    return st.fixed_dictionaries(dict(
        seeds=st.tuples(st.integers(1, 1000), st.integers(1001, 2000)),
        sets=st.lists(st.lists(st.text("abcdef", min_size=1, max_size=4), min_size=2, max_size=6, unique=True), min_size=10, max_size=20),
    ))


# -- formats ----------------------------------------------------------------------


@st.composite
def formats(draw):
    cfg = draw(tagged(("map", (("a", ("str",)), ("b", ("map", (("c", ("int",)), ("d", ("bool",))))), ("cab", ("list", ("float",))), ("d", ("opt",))))))
    cfg["cab"] = cfg["cab"] + [0.5]
    good = st.sampled_from(["lit", "lit", "open", "close", "key", "key", "key"])
    toks = []
    for k in draw(st.lists(good, min_size=1, max_size=6)):
        if k == "lit":
            toks.append((k, draw(st.sampled_from(["x", "-", "r_", ".", "é", "a b", "/"]))))
        elif k == "key":
            toks.append((k, draw(st.sampled_from(["a", "b.c", "b.d", "cab[0]", "d", "world_size"]))))
        else:
            toks.append((k,))
    bad = None
    if draw(st.integers(0, 2)) == 0:
        bad = (draw(st.integers(0, 6)), draw(st.sampled_from(["{nope}", "{b}", "{}", "{a", "}", "{cab[7]}", "{ a}", "}x", "{b.c.d}"])))
    return dict(cfg=cfg, toks=toks, bad=bad, ws=draw(st.integers(1, 9)))


def tag_text(v):
    if v is None:
        return "none"
    if isinstance(v, bool):
        return "t" if v else "f"
    if isinstance(v, str):
        return "".join(c for c in v if c.isalnum() or c in "-_")
    return str(v)


def formatting(ctx, case) -> None:
    cfg = case["cfg"]
    vals = {"a": cfg["a"], "b.c": cfg["b"]["c"], "b.d": cfg["b"]["d"], "cab[0]": cfg["cab"][0], "d": cfg["d"], "world_size": case["ws"]}
    fmt, pat = "", ""
    parts = []
    for t in case["toks"]:
        if t[0] == "lit":
            parts.append((t[1], re.escape(t[1])))
        elif t[0] == "open":
            parts.append(("{{", re.escape("{")))
        elif t[0] == "close":
            parts.append(("}}", re.escape("}")))
        else:
            s = tag_text(vals[t[1]])
            parts.append(("{" + t[1] + "}", re.escape(s) if len(s) < 16 else "[0-9a-f]{8}"))
    if case["bad"] is not None:
        i, b = case["bad"]
        i = min(i, len(parts))
        # The braces must not become escaped ones.
        left = "".join(p[0] for p in parts[:i])
        right = "".join(p[0] for p in parts[i:])
        if b in ("{a", "}", "}x") and (left.endswith(("{", "}")) or right.startswith(("{", "}")) or "}" in right and b == "{a"):
            return
        if left.endswith("{") or right.startswith("}") or left.endswith("}") and b.startswith("}") or b.endswith("}") and right.startswith("}"):
            return
        fmt = left + b + right
        if not fmt.strip():
            return
        ex = raises(ValidationError, lambda: tag_of(cfg, fmt, case["ws"]), f"sweep format {fmt!r}")
        expect("sweep_format" in str(ex), f"the error does not name the setting: {ex}")
        ctx.nontrivial()
        ctx.label("bad")
        return
    fmt = "".join(p[0] for p in parts)
    pat = "".join(p[1] for p in parts)
    if fmt != fmt.strip() or not fmt:
        return
    got = tag_of(cfg, fmt, case["ws"])
    expect(re.fullmatch(pat, got, re.S), lambda: f"{fmt!r} is {got!r}; expected {pat!r}")
    ctx.label("good")
    if any(t[0] == "key" for t in case["toks"]):
        ctx.nontrivial()


# -- ambiguous hashes ----------------------------------------------------------------

AMBIGUOUS = [
    ({"a": "1", "b": "2b3"}, {"a": "1b2", "b": "3"}),
    ({"a": None}, {"a": "none"}),
    ({"a": True}, {"a": "t"}),
    ({"a": 1}, {"a": "1"}),
]


def ambiguous(ctx, case) -> None:
    a, b = AMBIGUOUS[case["i"]]
    ctx.nontrivial()
    if tag_of(a) == tag_of(b):
        raise KnownFinding(f"sweep-hash-{case['i']}", f"{a} and {b} have the same sweep hash")


main(Prop(
    "R02",
    [
        Arm("load0", loads, loading, quick=150, thorough=8000, timeout=700),
        Arm("load1", loads, loading, quick=150, thorough=8000, timeout=700),
        Arm("load2", loads, loading, quick=150, thorough=8000, timeout=700),
        Arm("merging", lambda: st.tuples(st.one_of(SECTIONS, SECTIONS, SECTIONS, TREE), overrides()), merging, quick=1000, thorough=40000),
        Arm("sections", section_cases, sections, quick=120, thorough=3000),
        Arm("malformed", malformed, malformed_lines, quick=60, thorough=500),
        Arm("runs", run_cases, runs, quick=25, thorough=400),
        Arm("tags", pairs, tags, quick=800, thorough=30000),
        Arm("formats", formats, formatting, quick=1500, thorough=50000),
        Arm("processes", process_cases, processes, quick=2, thorough=20),
        Arm("ambiguous", lambda: st.fixed_dictionaries(dict(i=st.integers(0, len(AMBIGUOUS) - 1))), ambiguous, quick=12, thorough=12),
    ],
    rule="load: a file and command line settings were overlaid, or a bad setting was rejected; tags: the configurations differ; formats: a placeholder was filled or a bad format rejected",
    assumptions=["texts in the configurations of the tags arm hold no letters of keys, and a setting keeps its type (see the known finding)", "a placeholder of a text of 16 or more word characters is a hash"],
))

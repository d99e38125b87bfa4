"""R01: configurations convert to plain data and back without change.

Generated configuration classes and values; a reference model of the merging of
overrides, of the expansion of directives, and of the collection of validation
errors.
"""
import boot

boot.boot(init=True)

import io
from copy import deepcopy
from dataclasses import dataclass, fields, is_dataclass
from pathlib import Path

from configs import CONV, Tag, Types, bad_for, chain, count, floats, ints, is_plain, objects, same, sites, spoiled, values, walk
from harness import Arm, Prop, Violation, expect, expect_eq, main, raises
from hypothesis import strategies as st

from fairseq2.file_system import NativeLocalFileSystem
from fairseq2.utils.config import ReplaceEnvDirective, ReplacePathDirective, StandardConfigMerger, StandardConfigProcessor
from fairseq2.utils.structured import StructureError
from fairseq2.utils.validation import StandardObjectValidator, Validatable, ValidationError, ValidationResult
from fairseq2.utils.yaml import RuamelYamlDumper, RuamelYamlLoader

def round_trip(ctx, case) -> None:
    t = Types()
    s, v = case["spec"], case["value"]
    kls = t.type(s)
    obj = t.value(s, v)
    before = deepcopy(obj)
    plain = CONV.unstructure(obj)
    expect(is_plain(plain), f"not plain: {plain!r}")
    expect(same(obj, before), "unstructure modified its argument")
    if "'derived'" not in repr(plain):
        want = t.plain(s, v)
        expect(same(plain, want), lambda: f"plain form {plain!r} instead of {want!r}")
    kept = deepcopy(plain)
    back = CONV.structure(plain, kls)
    expect(same(back, obj), lambda: f"{obj!r} came back as {back!r} via {plain!r}")
    expect(same(plain, kept), "structure modified its argument")
    # An object is structured to itself.
    expect(same(CONV.structure(obj, kls), obj), "an object is not structured to itself")
    # Equal objects have equal plain forms.
    again = CONV.unstructure(back)
    expect_eq(again, plain, "plain form after a round trip")
    # Unstructured data is the same after unstructuring.
    expect_eq(CONV.unstructure(plain), plain, "unstructure of plain data")
    # As written to and read from a file.
    buf = io.StringIO()
    RuamelYamlDumper(FS).dump(plain, buf)
    buf.seek(0)
    try:
        (loaded,) = RuamelYamlLoader(FS).load(buf)
    except Exception as ex:
        raise Violation(f"the dumped configuration cannot be loaded: {ex!r}; {buf.getvalue()!r}")
    expect(same(loaded, plain), lambda: f"{plain!r} was dumped and loaded as {loaded!r}")
    # Fields left out have their defaults; integral floats and texts are numbers.
    for n, e, required in s[1]:
        d = dict(plain)
        del d[n]
        d.pop("derived", None)
        if required:
            r_value = raises(StructureError, lambda: CONV.structure(d, kls), "a required field is missing")
            expect(f"`{n}` field" in chain(r_value), f"the error does not name {n}: {chain(r_value)}")
        else:
            got = CONV.structure(d, kls)
            f = next(f for f in fields(kls) if f.name == n)
            expect(same(getattr(got, n), f.default_factory()), f"default of {n}")
            for m, *_ in s[1]:
                if m != n:
                    expect(same(getattr(got, m), getattr(obj, m)), f"{m} changed when {n} was left out")
    if count(s) > 5:
        ctx.nontrivial()
    for e in walk(s):
        ctx.label(e[0])


FS = NativeLocalFileSystem()


# -- ill-typed data ----------------------------------------------------------------

def rejected(ctx, case) -> None:
    t = Types()
    s, v = case["spec"], case["value"]
    kls = t.type(s)
    plain = CONV.unstructure(t.value(s, v))
    places = list(sites(s, plain, [], []))
    e, holder, key, names = places[case["pick"] % len(places)]
    bads = bad_for(e, holder[key])
    bad = bads[case["how"] % len(bads)]
    if "tag" in repr(e) and isinstance(bad, str) and bad in Tag.__members__:
        return
    holder[key] = bad
    try:
        got = CONV.structure(plain, kls)
    except StructureError as ex:
        text = chain(ex)
    except Exception as ex:
        raise Violation(f"{bad!r} for {'.'.join(names)} of type {e}: {ex!r} instead of a StructureError")
    else:
        raise Violation(f"{bad!r} was taken for {'.'.join(names)} of type {e} as {got!r}")
    for n in names:
        expect(f"`{n}` field" in text, f"{bad!r} for {'.'.join(names)}: the error does not name {n}: {text}")
    ctx.label(e[0] if e[0] != "leaf" else e[1])
    ctx.nontrivial()


# -- lenient data --------------------------------------------------------------------


@st.composite
def lenients(draw):
    return dict(i=draw(ints), f=draw(floats), wrap=draw(st.integers(0, 4)))


def lenient(ctx, case) -> None:
    """Numbers may be given as text, and integers for floating point numbers."""
    i, f = case["i"], case["f"]
    w = [lambda x, t: (x, t), lambda x, t: ([x], list[t]), lambda x, t: ({"k": x}, dict[str, t]), lambda x, t: ((x,), tuple[t]), lambda x, t: (x, t | None)][case["wrap"]]

    def got(x, t):
        r = CONV.structure(*w(x, t))
        return {0: lambda: r, 1: lambda: r[0], 2: lambda: r["k"], 3: lambda: r[0], 4: lambda: r}[case["wrap"]]()

    expect(same(got(str(i), int), i), f"{i} from text")
    expect(same(got(repr(f), float), f), f"{f} from text")
    expect(same(got(i, int), i), f"{i}")
    expect(same(got(i, float), float(i)), f"float from {i}")
    if f.is_integer():
        expect(same(got(f, int), int(f)), f"integral {f}")
    else:
        raises(StructureError, lambda: got(f, int), f"{f} as an integer")
    ctx.nontrivial()


# -- merging -----------------------------------------------------------------------

keys = st.sampled_from(["a", "b", "c", "lr", "optim"])
leaves = st.one_of(st.integers(0, 5), st.sampled_from(["x", "", None, True, 0.5]), st.lists(st.integers(0, 3), max_size=2), st.lists(st.dictionaries(keys, st.integers(0, 2), max_size=1), max_size=2))


def trees(depth, directives):
    @st.composite
    def g(draw, depth=depth):
        out = {}
        for k in draw(st.lists(keys, max_size=4, unique=True)):
            out[k] = draw(g(depth=depth - 1)) if depth and draw(st.integers(0, 2)) else draw(leaves)
        if directives:
            if draw(st.integers(0, 2)) == 0:
                out["_del_"] = draw(st.lists(keys, max_size=3))
            if draw(st.integers(0, 2)) == 0:
                out["_set_"] = draw(trees(1, False))
            items = draw(st.permutations(list(out.items())))
            out = dict(items)
        return out

    return g()


@st.composite
def merges(draw):
    base = draw(st.one_of(trees(3, False), trees(3, False), trees(3, False), leaves))
    return dict(base=base, overrides=[draw(st.one_of(trees(3, True), trees(3, True), trees(3, True), leaves)) for _ in range(draw(st.integers(1, 3)))])


def merged(base, over):
    if not isinstance(over, dict):
        return over
    out = dict(base) if isinstance(base, dict) else {}
    for k in over.get("_del_", []):
        out.pop(k, None)
    for k, v in over.items():
        if k not in ("_del_", "_set_"):
            out[k] = merged(out.get(k), v)
    for k, v in over.get("_set_", {}).items():
        out[k] = v
    return out


def mutate(x):
    if isinstance(x, dict):
        for v in list(x.values()):
            mutate(v)
        x["!"] = 1
    elif isinstance(x, list):
        for v in x:
            mutate(v)
        x.append("!")


def merging(ctx, case) -> None:
    m = StandardConfigMerger()
    base = case["base"]
    for over in case["overrides"]:
        b0, o0 = deepcopy(base), deepcopy(over)
        got = m.merge(base, over)
        want = merged(b0, o0)
        expect(same(base, b0) and same(over, o0), "merge modified an argument")
        expect(same(got, want), lambda: f"{b0} with {o0} is {got} instead of {want}")
        if isinstance(over, dict):
            other = m.merge(base, over)
            mutate(other)
            expect(same(base, b0) and same(over, o0), "the result shares objects with an argument")
            if over and isinstance(base, dict):
                ctx.nontrivial()
            if "_del_" in repr(over):
                ctx.label("del")
            if "_set_" in repr(over):
                ctx.label("set")
            # Nothing is changed by empty overrides.
            if isinstance(base, dict):
                expect(same(m.merge(base, {}), b0), "empty overrides changed the configuration")
        base = got
    # Bad directives.
    if isinstance(base, dict):
        for bad in ({"_del_": "a"}, {"_del_": {"a": 1}}, {"_del_": [1]}, {"_set_": ["a"]}, {"_set_": {1: 2}}, {"a": {"_del_": "b"}}, {"a": {"b": {"_set_": 3}}}):
            raises((TypeError, ValueError), lambda: m.merge(base, bad), f"{bad}")


@st.composite
def typed_merges(draw):
    c = draw(objects())
    names = [n for n, _, _ in c["spec"][1]]
    other = draw(values(c["spec"]))
    return dict(c, other=other, fields=draw(st.lists(st.sampled_from(names), unique=True, min_size=1)))


def typed_merge(ctx, case) -> None:
    """Overriding some fields of a configuration changes these fields only."""
    t = Types()
    s = case["spec"]
    kls = t.type(s)
    obj, other = t.value(s, case["value"]), t.value(s, case["other"])
    plain = CONV.unstructure(obj)
    src = CONV.unstructure(other)
    got = CONV.structure(StandardConfigMerger().merge(plain, {"_set_": {n: src[n] for n in case["fields"]}}), kls)
    for n, _, _ in s[1]:
        want = getattr(other if n in case["fields"] else obj, n)
        expect(same(getattr(got, n), want), f"{n} is {getattr(got, n)!r} instead of {want!r}")
    ctx.nontrivial()


# -- directives --------------------------------------------------------------------

ENV = {"HOME_": "/h", "E": "", "X1": "v$1", "_u": "${dir}", "LONG_NAME": "\\1"}


@st.composite
def pieces(draw):
    k = draw(st.sampled_from(["text", "text", "dir", "env", "envd", "junk"]))
    if k == "text":
        return ("text", draw(st.sampled_from(["", "a", "/x/", " ", "$", "{", "}", ":"])))
    if k == "dir":
        return ("dir",)
    if k == "env":
        return ("env", draw(st.sampled_from([*ENV, "MISSING", "m2"])), None)
    if k == "envd":
        return ("env", draw(st.sampled_from([*ENV, "MISSING", "m2"])), draw(st.sampled_from(["", "d", "a:b", "${dir", "{x", "1 2"])))
    return ("text", draw(st.sampled_from(["${env:}", "${env:1A}", "${ dir}", "${en:X}", "$dir", "${env:A-B}"])))


def text_trees(depth=3):
    leaf = st.one_of(st.lists(pieces(), max_size=4).map(tuple), st.lists(pieces(), max_size=4).map(tuple), st.integers(0, 3), st.none(), st.booleans())
    return st.recursive(leaf, lambda c: st.one_of(st.lists(c, max_size=3), st.dictionaries(keys, c, max_size=3)), max_leaves=8)


@st.composite
def process_cases(draw):
    return dict(tree=draw(text_trees()), order=draw(st.booleans()), as_default=draw(st.booleans()))


class Env_:
    def maybe_get(self, name):
        return ENV.get(name)

    def get(self, name):
        return ENV[name]


def render(p):
    out = ""
    for x in p:
        if x[0] == "text":
            out += x[1]
        elif x[0] == "dir":
            out += "${dir}"
        else:
            out += "${env:" + x[1] + ("" if x[2] is None else ":" + x[2]) + "}"
    return out


def scan(s):
    """Expands the environment variables of a text, left to right."""
    import string

    out, i = "", 0
    first = string.ascii_letters + "_"
    while i < len(s):
        if s.startswith("${env:", i):
            j = i + 6
            k = j
            while k < len(s) and s[k] in first + (string.digits if k > j else ""):
                k += 1
            name = s[j:k]
            if name and k < len(s):
                if s[k] == "}":
                    out += ENV.get(name, "")
                    i = k + 1
                    continue
                if s[k] == ":":
                    e = s.find("}", k)
                    if e >= 0:
                        out += ENV.get(name, s[k + 1 : e])
                        i = e + 1
                        continue
        out += s[i]
        i += 1
    return out


def processing(ctx, case) -> None:
    env, path = ReplaceEnvDirective(Env_()), ReplacePathDirective(Path("/cfg/d"))
    ds = [env, path] if case["order"] else [path, env]
    if case["as_default"]:
        proc, extra = StandardConfigProcessor(ds[:1]), ds[1:]
    else:
        proc, extra = StandardConfigProcessor([]), ds

    def expand(s):
        for d in ds:
            s = scan(s) if d is env else "/cfg/d".join(s.split("${dir}"))
        return s

    def go(x, fn):
        if isinstance(x, tuple):
            return fn(render(x))
        if isinstance(x, list):
            return [go(e, fn) for e in x]
        if isinstance(x, dict):
            return {k: go(v, fn) for k, v in x.items()}
        return x

    data = go(case["tree"], lambda s: s)
    kept = deepcopy(data)
    got = proc.process(data, extra)
    want = go(case["tree"], expand)
    expect(same(data, kept), "process modified its argument")
    expect(same(got, want), lambda: f"{data} became {got} instead of {want}")
    if not same(want, data):
        ctx.nontrivial()
    expect(same(StandardConfigProcessor([]).process(data), kept), "changed without directives")


# -- validation --------------------------------------------------------------------


@dataclass
class Plain:
    a: object = None
    b: object = None


@dataclass
class Checked(Validatable):
    a: object = None
    errors_: tuple = ()
    b: object = None

    def validate(self) -> ValidationResult:
        r = ValidationResult()
        for e in self.errors_:
            r.add_error(e)
        return r


@dataclass(frozen=True)
class Key:
    errors_: tuple = ()

    def validate(self) -> ValidationResult:
        r = ValidationResult()
        for e in self.errors_:
            r.add_error(e)
        return r


class Loose:
    """Not a data class, but can be validated."""

    def __init__(self, errors_):
        self.errors_ = errors_

    def validate(self) -> ValidationResult:
        r = ValidationResult()
        for e in self.errors_:
            r.add_error(e)
        return r

    def __repr__(self):
        return f"Loose({self.errors_})"

    def __deepcopy__(self, memo):
        return Loose(self.errors_)


errs = st.one_of(st.just(()), st.lists(st.sampled_from(["E1.", "`x` must be positive.", "bad."]), max_size=2).map(tuple))


def graphs():
    leaf = st.one_of(st.integers(0, 2), st.none(), st.just("s"), st.builds(Loose, errs), st.builds(Key, errs), st.builds(Checked, errors_=errs))
    return st.recursive(
        leaf,
        lambda c: st.one_of(
            st.builds(Plain, c, c), st.builds(Checked, c, errs, c), st.builds(Checked, c, errs, c), st.lists(c, max_size=3), st.lists(c, max_size=3).map(tuple),
            st.dictionaries(st.sampled_from(["k", "k.2", 3]), c, max_size=2), st.lists(st.builds(Key, errs), max_size=3).map(set),
        ),
        max_leaves=8,
    )


def errors_of(x, path, out):
    if hasattr(x, "validate") and x.errors_:
        out[path] = list(x.errors_)
    if is_dataclass(x):
        for f in fields(x):
            errors_of(getattr(x, f.name), path + (f.name,), out)
    elif isinstance(x, dict):
        for k, v in x.items():
            errors_of(v, path + (f"[{k!r}]",), out)
    elif isinstance(x, (list, tuple, set)):
        for i, v in enumerate(x):
            errors_of(v, path + (f"[{i}]",), out)


def collect(r, path, out):
    if r.errors:
        out[path] = list(r.errors)
    for k, s in r.sub_results.items():
        collect(s, path + (k,), out)


def validation(ctx, case) -> None:
    x = case["x"]
    want: dict = {}
    errors_of(x, (), want)
    v = StandardObjectValidator()
    if not want:
        v.validate(x)
        return
    r_value = raises(ValidationError, lambda: v.validate(x), "an object with errors")
    got: dict = {}
    collect(r_value.result, (), got)
    expect_eq(got, want, "validation errors")
    text = str(r_value)
    for path, es in want.items():
        expect(all(e in text for e in es), f"{es} are missing in {text!r}")
        if path:
            name = ""
            for p in path:
                name += p if not name or p.startswith("[") else "." + p
            expect(f"`{name}` is not valid: {' '.join(es)}" in text, f"{name} is missing in {text!r}")
    if any(len(p) > 1 for p in want):
        ctx.nontrivial()


main(Prop(
    "R01",
    [
        Arm("round0", objects, round_trip, quick=500, thorough=20000),
        Arm("round1", objects, round_trip, quick=500, thorough=20000),
        Arm("reject0", spoiled, rejected, quick=800, thorough=25000),
        Arm("reject1", spoiled, rejected, quick=800, thorough=25000),
        Arm("lenient", lenients, lenient, quick=1000, thorough=20000),
        Arm("merge", merges, merging, quick=800, thorough=50000),
        Arm("override", typed_merges, typed_merge, quick=400, thorough=15000),
        Arm("process", process_cases, processing, quick=1500, thorough=50000),
        Arm("validate", lambda: st.fixed_dictionaries(dict(x=graphs())), validation, quick=1500, thorough=50000),
    ],
    rule="round: a class of more than five types; reject: the changed value was turned down; merge: a mapping was merged into a mapping; process: a text changed; validate: an error below the first level",
    assumptions=["the plain forms of the elements of a union differ", "no NaN", "texts of control characters are not written to files"],
))

"""Generated configuration classes, values of them, and their plain forms."""
import types
from collections.abc import Mapping, Sequence, Set
from copy import deepcopy
from dataclasses import dataclass, field, fields, is_dataclass, make_dataclass
from enum import Enum
from pathlib import Path
from typing import Literal, Optional, Union

import torch
from hypothesis import strategies as st

from fairseq2.data_type import DataType
from fairseq2.device import Device
from fairseq2.utils.structured import StandardValueConverter

CONV = StandardValueConverter()


class Color(Enum):
    RED = 1
    GREEN = "g"
    BLUE = 3


class Tag(str, Enum):
    X = "y"
    Y = "z"


LIT = Literal["aa", "b c", "C"]
DTYPES = [torch.float32, torch.float16, torch.bfloat16, torch.int64, torch.bool, torch.complex64]
DEVICES = ["cpu", "cuda:0", "cuda:3", "meta", "cuda"]
STRS = ["", "a", "1", "1.5", "true", "no", "null", "~", "1e3", "2020-01-01", "0x1f", "a: b", "- x", "#c", " s ", "é漢", "x\ny", "${dir}", "'q\"", "nan", "0o7", "1_000", "12:30:45", "=", "\t", "a\\nb", "%"]
texts = st.one_of(st.sampled_from(STRS), st.text(st.characters(codec="utf-8", exclude_categories=("Cs", "Cc")), max_size=6))
floats = st.one_of(st.sampled_from([0.0, 1.0, -1.5, 1e-5, 1e22, 1e-300, 3.0, 0.1, float("inf"), -float("inf")]), st.floats(allow_nan=False))
ints = st.one_of(st.integers(-3, 12), st.sampled_from([2**31, -(2**63), 10**25]))


# -- types -----------------------------------------------------------------------
# A spec describes a type: how to write it, its values, and data that cannot be of it.

SCALARS = ["int", "float", "bool", "str"]
TEXTUAL = ["path", "dtype", "device", "enum", "tag", "lit"]
NAMES = ["a", "b", "lr", "num_steps", "items", "x_y", "validate_", "name", "type", "keys"]


def hashable(d, depth):
    return d(st.sampled_from([("leaf", k) for k in ("int", "str", "path", "enum", "float", "dtype")] + ([("tuple", (("leaf", "int"), ("leaf", "str"))), ("frozen",)] if depth else [])))


@st.composite
def specs(draw, depth=2):
    kinds = ["leaf"] * 4
    if depth:
        kinds += ["list", "tuple", "tuplen", "set", "dict", "opt", "opt", "union", "dc", "dc"]
    k = draw(st.sampled_from(kinds))
    if k == "leaf":
        return ("leaf", draw(st.sampled_from(SCALARS + TEXTUAL)))
    if k == "list":
        return ("list", draw(st.sampled_from(["list", "Sequence"])), draw(specs(depth=depth - 1)))
    if k == "tuple":
        return ("tuple", tuple(draw(st.lists(specs(depth=depth - 1), min_size=1, max_size=3))))
    if k == "tuplen":
        return ("tuplen", draw(specs(depth=depth - 1)))
    if k == "set":
        return ("set", draw(st.sampled_from(["set", "Set"])), hashable(draw, 1))
    if k == "dict":
        return ("dict", draw(st.sampled_from(["dict", "Mapping"])), ("leaf", draw(st.sampled_from(["str", "int", "path", "enum"]))), draw(specs(depth=depth - 1)))
    if k == "opt":
        s = draw(specs(depth=depth - 1).filter(lambda s: s[0] not in ("opt", "union")))
        return ("opt", draw(st.sampled_from(["|", "None|", "Optional", "Union"])), s)
    if k == "union":
        # The plain forms of the elements do not overlap.
        scal = draw(st.lists(st.sampled_from(SCALARS), unique=True, max_size=3))
        els = [("leaf", x) for x in scal]
        if not set(scal) & {"str", "int", "float"} and draw(st.booleans()):
            els.append(("leaf", draw(st.sampled_from(["path", "enum", "dtype", "lit"]))))
        if draw(st.booleans()):
            els.append(draw(st.sampled_from([("list", "list", ("leaf", "int")), ("tuplen", ("leaf", "str")), ("set", "set", ("leaf", "int")), ("tuple", (("leaf", "int"), ("leaf", "path")))])))
        if draw(st.booleans()) or len(els) < 2:
            els.append(draw(dcs(depth=depth - 1)) if draw(st.booleans()) else ("dict", "dict", ("leaf", "str"), ("leaf", "int")))
        if len(els) < 2:
            els.append(("leaf", "bool" if els[0] != ("leaf", "bool") else "int"))
        els = draw(st.permutations(els))
        # None is a third element, or there is none: `X | None` is another kind.
        none = len(els) > 1 and draw(st.booleans())
        return ("union", draw(st.sampled_from(["|", "Union"])), tuple(els), none)
    return draw(dcs(depth=depth - 1))


@st.composite
def dcs(draw, depth=2):
    names = draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=4, unique=True))
    fs = []
    for n in names:
        s = draw(specs(depth=depth))
        required = draw(st.integers(0, 2)) == 0
        fs.append((n, s, required, None if required else draw(values(s))))
    fs.sort(key=lambda f: not f[2])
    derived = draw(st.integers(0, 5)) == 0
    return ("dc", tuple((n, s, r) for n, s, r, _ in fs), Box([v for *_, v in fs]), derived)


class Box:
    """Keeps default values out of the identity of a spec."""

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return repr(self.v)


@dataclass(frozen=True)
class Frozen:
    p: int
    q: str = "d"


@dataclass
class Node:
    """A value of a generated class, before the class exists."""

    vals: dict


def values(s):
    k = s[0]
    if k == "leaf":
        return {
            "int": ints, "float": floats, "bool": st.booleans(), "str": texts,
            "path": st.sampled_from(["a/b", "/x y/z", "é", ".", "1", "~", "null"]).map(Path),
            "dtype": st.sampled_from(DTYPES), "device": st.sampled_from(DEVICES).map(torch.device),
            "enum": st.sampled_from(list(Color)), "tag": st.sampled_from(list(Tag)),
            "lit": st.sampled_from(["aa", "b c", "C"]),
        }[s[1]]
    if k == "list":
        return st.lists(values(s[2]), max_size=3)
    if k == "tuple":
        return st.tuples(*[values(e) for e in s[1]])
    if k == "tuplen":
        return st.lists(values(s[1]), max_size=3).map(tuple)
    if k == "set":
        return st.lists(values(s[2]), max_size=4).map(set)
    if k == "frozen":
        return st.builds(Frozen, ints, texts)
    if k == "dict":
        return st.dictionaries(values(s[2]), values(s[3]), max_size=3)
    if k == "opt":
        return st.one_of(st.none(), values(s[2]), values(s[2]))
    if k == "union":
        return st.one_of(*[values(e) for e in s[2]], *([st.none()] if s[3] else []))
    if k == "dc":
        # A Node cannot be hashed and is only ever built for its own spec.
        return st.fixed_dictionaries({n: values(e) for n, e, _ in s[1]}).map(lambda v: Node(dict(v, **{"!": s[2]})))
    raise AssertionError(k)


class Types:
    """The Python types of specs, and the values of these types."""

    def __init__(self):
        self.classes = {}
        self.keep = []

    def type(self, s):
        k = s[0]
        if k == "leaf":
            return {"int": int, "float": float, "bool": bool, "str": str, "path": Path, "dtype": DataType, "device": Device, "enum": Color, "tag": Tag, "lit": LIT}[s[1]]
        if k == "list":
            return {"list": list, "Sequence": Sequence}[s[1]][self.type(s[2])]
        if k == "tuple":
            return tuple[tuple(self.type(e) for e in s[1])]
        if k == "tuplen":
            return tuple[self.type(s[1]), ...]
        if k == "set":
            return {"set": set, "Set": Set}[s[1]][self.type(s[2])]
        if k == "frozen":
            return Frozen
        if k == "dict":
            return {"dict": dict, "Mapping": Mapping}[s[1]][self.type(s[2]), self.type(s[3])]
        if k == "opt":
            t = self.type(s[2])
            try:
                return {"|": lambda: t | None, "None|": lambda: None | t, "Optional": lambda: Optional[t], "Union": lambda: Union[None, t]}[s[1]]()
            except TypeError:
                return Optional[t]
        if k == "union":
            ts = [self.type(e) for e in s[2]] + ([types.NoneType] if s[3] else [])
            if s[1] == "|":
                t = ts[0]
                for u in ts[1:]:
                    t = t | u
                return t
            return Union[tuple(ts)]
        if k == "dc":
            c = self.classes.get(id(s[2]))
            if c is None:
                fs = []
                for (n, e, required), dflt in zip(s[1], s[2].v):
                    t = self.type(e)
                    if required:
                        fs.append((n, t))
                    else:
                        fs.append((n, t, field(default_factory=lambda e=e, d=dflt: self.value(e, d))))
                ns = {}
                if s[3]:
                    # Derived from the other fields, not given.
                    fs.append(("derived", int, field(init=False, default=0)))
                    first = s[1][0][0]
                    ns["__post_init__"] = lambda o: setattr(o, "derived", len(str(getattr(o, first))) % 7)
                c = make_dataclass(f"Gen{len(self.classes)}", fs, namespace=ns)
                self.classes[id(s[2])] = c
                self.keep.append(s)
            return c
        raise AssertionError(k)

    def value(self, s, v):
        """The value with the nodes replaced by objects of their classes."""
        k = s[0]
        if k in ("leaf", "frozen", "set"):
            return deepcopy(v)
        if k == "list":
            return [self.value(s[2], e) for e in v]
        if k == "tuple":
            return tuple(self.value(t, e) for t, e in zip(s[1], v))
        if k == "tuplen":
            return tuple(self.value(s[1], e) for e in v)
        if k == "dict":
            return {a: self.value(s[3], b) for a, b in v.items()}
        if k == "opt":
            return None if v is None else self.value(s[2], v)
        if k == "union":
            return None if v is None else self.value(element(s, v), v)
        if k == "dc":
            return self.type(s)(**{n: self.value(e, v.vals[n]) for n, e, _ in s[1]})

    def plain(self, s, v):
        """The documented plain form of a value."""
        k = s[0]
        if k == "leaf":
            return {"path": str, "dtype": lambda x: str(x)[6:], "device": str, "enum": lambda x: x.name, "tag": lambda x: x.name}.get(s[1], lambda x: x)(v)
        if k == "list":
            return [self.plain(s[2], e) for e in v]
        if k == "tuple":
            return [self.plain(t, e) for t, e in zip(s[1], v)]
        if k == "tuplen":
            return [self.plain(s[1], e) for e in v]
        if k == "set":
            return Bag([self.plain(s[2], e) for e in v])
        if k == "frozen":
            return {"p": v.p, "q": v.q}
        if k == "dict":
            return {self.plain(s[2], a): self.plain(s[3], b) for a, b in v.items()}
        if k == "opt":
            return None if v is None else self.plain(s[2], v)
        if k == "union":
            return None if v is None else self.plain(element(s, v), v)
        if k == "dc":
            out = {n: self.plain(e, v.vals[n]) for n, e, _ in s[1]}
            return out


class Bag(list):
    """A list in any order."""


def element(s, v):
    """The element of a union that a value is of."""
    for e in s[2]:
        if e[0] == "dc":
            ok = isinstance(v, Node) and v.vals["!"] is e[2]
        elif e[0] == "leaf":
            t = {"int": int, "float": float, "bool": bool, "str": str, "lit": str, "dtype": torch.dtype, "enum": Color, "tag": Tag}.get(e[1])
            ok = isinstance(v, Path) if e[1] == "path" else type(v) is t
        else:
            t = {"list": list, "tuple": tuple, "tuplen": tuple, "set": set, "dict": dict}[e[0]]
            ok = type(v) is t
        if ok:
            return e
    raise AssertionError((s, v))


def same(a, b) -> bool:
    """Equal, and of equal types throughout."""
    if isinstance(b, Bag):
        if type(a) is not list or len(a) != len(b):
            return False
        rest = list(b)
        for x in a:
            for i, y in enumerate(rest):
                if same(x, y):
                    del rest[i]
                    break
            else:
                return False
        return True
    if type(a) is not type(b):
        return False
    if is_dataclass(a):
        return all(same(getattr(a, f.name), getattr(b, f.name)) for f in fields(a))
    if isinstance(a, dict):
        return len(a) == len(b) and all(any(same(k, l) and same(v, w) for l, w in b.items()) for k, v in a.items())
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, (set, frozenset)):
        return a == b and {type(x) for x in a} == {type(x) for x in b}
    return a == b


def is_plain(x) -> bool:
    if isinstance(x, dict):
        return type(x) is dict and all(is_plain(k) and is_plain(v) for k, v in x.items())
    if isinstance(x, list):
        return type(x) is list and all(map(is_plain, x))
    return x is None or type(x) in (int, float, bool, str)


@st.composite
def objects(draw):
    s = draw(dcs(depth=3))
    return dict(spec=s, value=draw(values(s)))


def count(s):
    return 1 + sum(count(e) for e in subs(s))


def subs(s):
    k = s[0]
    if k in ("list", "set"):
        return [s[2]]
    if k in ("tuple",):
        return list(s[1])
    if k == "tuplen":
        return [s[1]]
    if k == "dict":
        return [s[2], s[3]]
    if k == "opt":
        return [s[2]]
    if k == "union":
        return list(s[2])
    if k == "dc":
        return [e for _, e, _ in s[1]]
    return []


def walk(s):
    yield s
    for e in subs(s):
        yield from walk(e)


def chain(ex) -> str:
    out = []
    while ex is not None:
        out.append(str(ex))
        ex = ex.__cause__
    return "\n".join(out)


BAD = {
    "int": ["abc", "", None, [1], {}, 1.5, -0.25, float("inf"), "1.5", {"a": 1}],
    "float": ["abc", "", None, [1.0], {}, "1,5", 10**400],
    "bool": ["true", "False", 1, 0, None, 1.0, [], {}],
    "str": [1, None, ["a"], True, {}, 1.5, b"a"],
    "path": [1, None, ["a"], True, {}],
    "dtype": ["float33", "nn", "tensor", 3, None, [], "torch."],
    "device": ["gpu!", "cpu:x", 3, None, {}],
    "enum": ["red", "NOPE", 1, None, "", "g"],
    "tag": ["z", "NOPE", 1, None],
    "lit": ["A", "aa ", 1, None, []],
}


@st.composite
def spoiled(draw):
    c = draw(objects())
    return dict(c, pick=draw(st.integers(0, 10**6)), how=draw(st.integers(0, 10**6)))


def sites(s, plain, path, names):
    """The places in plain data: (spec, container, key, names of the fields)."""
    k = s[0]
    if k == "dc":
        for n, e, required in s[1]:
            if n in plain:
                yield (e, plain, n, names + [n])
                yield from sites(e, plain[n], path + [n], names + [n])
    elif k == "list":
        for i in range(len(plain)):
            yield (s[2], plain, i, names)
            yield from sites(s[2], plain[i], path, names)
    elif k == "tuple":
        for i in range(len(plain)):
            yield (s[1][i], plain, i, names)
            yield from sites(s[1][i], plain[i], path, names)
    elif k == "tuplen":
        for i in range(len(plain)):
            yield (s[1], plain, i, names)
            yield from sites(s[1], plain[i], path, names)
    elif k == "dict":
        for a in plain:
            yield (s[3], plain, a, names)
            yield from sites(s[3], plain[a], path, names)
    elif k == "opt":
        if plain is not None:
            yield from sites(s[2], plain, path, names)


def bad_for(s, cur):
    """Data that is not of the type."""
    k = s[0]
    if k == "leaf":
        return list(BAD[s[1]])
    if k == "list":
        return ["abc", "", 3, None, {}, {"a": 1}, True]
    if k == "tuple":
        n = len(s[1])
        return ["a" * n, 3, None, {}, [1] * (n + 1), list(cur) + [0] if isinstance(cur, list) else [], list(cur)[:-1] if isinstance(cur, list) else 1]
    if k == "tuplen":
        return ["abc", 3, None, {"a": 1}]
    if k == "set":
        out = ["abc", 3, None, {"a": 1}]
        if isinstance(cur, list) and cur:
            out.append(cur + cur[:1])
        return out
    if k == "dict":
        return ["abc", 3, None, [], [("a", 1)], True]
    if k == "dc":
        out = ["abc", 3, None, [], True, 1.5]
        if isinstance(cur, dict):
            out.append(dict(cur, unknown_=1))
            req = [n for n, _, r in s[1] if r]
            if req:
                out.append({a: b for a, b in cur.items() if a != req[0]})
            out.append({**cur, 5: 1})
        return out
    if k == "opt":
        return [b for b in bad_for(s[2], cur) if b is not None]
    if k == "union":
        has = {e[1] for e in s[2] if e[0] == "leaf"}
        out = [b"x", object()]
        if not has & {"str", "path", "lit"}:
            out.append("not a number")
        if not has & {"float", "str"} and not has & {"int", "bool"}:
            out.append(1.5)
        if not s[3]:
            out.append(None)
        return out
    return []



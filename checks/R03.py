"""R03: dependency resolution yields one consistent object graph."""
import boot

boot.boot(init=True)

from collections.abc import Callable, Collection, Iterable, Sequence
from typing import Optional

from harness import Arm, Prop, Violation, expect, expect_eq, main, raises
from hypothesis import strategies as st

from fairseq2.error import InternalError, InvalidOperationError
from fairseq2.runtime.dependency import (
    AutoWireError,
    DependencyContainer,
    DependencyCycleError,
    DependencyLookup,
    DependencyNotFoundError,
    DependencyResolver,
    wire_object,
)
from fairseq2.runtime.lazy import Lazy
from fairseq2.runtime.lookup import Lookup

N = 5  # classes K0 … K4; Sub_i derives from K_i


class Boom(Exception):
    pass


class Node:
    """An object made by a provider: which registration made it, the how manieth, and of what."""

    def __init__(self, reg, parts):
        self.reg, self.parts = reg, parts


KS = [type(f"K{i}", (Node,), {}) for i in range(N)]
SUBS = [type(f"Sub{i}", (KS[i],), {}) for i in range(N)]
KEYS = [None, "a", "b", 0, ("t", 1)]

# ---------------------------------------------------------------- arm 1: histories over random graphs

C = st.integers(0, 3)
KEY = st.sampled_from([0, 0, 0, 1, 2])
CKEY = st.sampled_from([0, 0, 1])
DEP = st.one_of(st.tuples(st.sampled_from(["one", "maybe"]), C, KEY), st.tuples(st.sampled_from(["all", "all-late"]), C, CKEY))
# A registration: where, class, key, kind of provider, its dependencies, singleton.
REG = st.fixed_dictionaries(dict(
    where=st.sampled_from(["single", "single", "coll"]), cls=C, key=KEY,
    kind=st.sampled_from(["new"] * 10 + ["sub", "sub", "none", "boom", "wrong", "inst", "none-inst"]),
    deps=st.lists(DEP, max_size=3), single=st.booleans(),
))
OP = st.one_of(
    st.tuples(st.just("resolve"), C, KEY), st.tuples(st.just("resolve"), C, KEY),
    st.tuples(st.just("maybe"), C, KEY),
    st.tuples(st.just("all"), C, CKEY),
    st.tuples(st.just("again"), st.integers(0, 3), st.just(0)),  # iterate a collection that was resolved earlier once more
    st.tuples(st.just("keys"), C, st.booleans()),
    st.tuples(st.just("register"), C, KEY),
    st.tuples(st.just("mend"), st.just(0), st.just(0)),  # what went boom works from here on
)


@st.composite
def graph_cases(draw):
    regs = draw(st.lists(REG, min_size=3, max_size=10))
    base = draw(st.booleans())
    if base:
        # Every class has a provider, and most dependencies lead to a class that comes later.
        for i in range(4):
            r = dict(draw(REG), where="single", cls=i, key=0)
            r["deps"] = [(h, min(c + i + 1, 3) if i < 3 and draw(st.integers(0, 3)) else c, k) for h, c, k in r["deps"] if i < 3 or h.startswith("all")]
            regs.insert(draw(st.integers(0, len(regs))), r)
    return dict(regs=regs, dup=draw(st.lists(st.integers(0, 8), max_size=2)), ops=draw(st.lists(OP, min_size=2, max_size=8)))


class Missing(Exception):
    def __init__(self, cls, key):
        self.at = (cls, key)


class Cycle(Exception):
    pass


class Wrong(Exception):
    pass


class Model:
    """The container as a user understands it. Objects are ('obj', registration, parts); singletons are told apart by identity."""

    def __init__(self):
        self.single, self.coll, self.skeys, self.ckeys = {}, {}, {}, {}
        self.cache, self.active, self.mended = {}, [], False

    def make(self, r, reg, cls):
        if r in self.cache:
            obj = self.cache[r]
        else:
            if reg["kind"] in ("inst", "none-inst"):
                obj = self.fixed[r]
            else:
                if r in self.active:
                    raise Cycle()
                self.active.append(r)
                try:
                    parts = [self.dep(d) for d in reg["deps"]]
                    if reg["kind"] == "boom" and not self.mended:
                        raise Boom(r)
                    obj = None if reg["kind"] == "none" else ["wrong" if reg["kind"] == "wrong" else "obj", r, parts]
                finally:
                    self.active.pop()
                if reg["single"]:
                    self.cache[r] = obj
        if obj is not None and obj[0] == "wrong":
            raise Wrong()
        return obj

    def one(self, cls, key):
        r = self.single.get((cls, key))
        if r is None:
            raise Missing(cls, key)
        obj = self.make(r, self.regs[r], cls)
        if obj is None:
            raise Missing(cls, key)
        return obj

    def maybe(self, cls, key):
        try:
            return self.one(cls, key)
        except Missing as ex:
            if ex.at == (cls, key):
                return None
            raise

    def all(self, cls, key):
        out = []
        for r in self.coll.get((cls, key), []):
            obj = self.make(r, self.regs[r], cls)
            if obj is not None:
                out.append(obj)
        return out

    def dep(self, d):
        how, cls, key = d
        if how == "one":
            return self.one(cls, key)
        if how == "maybe":
            return self.maybe(cls, key)
        if how == "all":
            return self.all(cls, key)
        return None  # resolved, not iterated


def alike(pairs, got, want, path="object"):
    """`got` has the structure of `want`, and the same objects are shared in both."""
    if want is None:
        expect(got is None, lambda: f"{path}: {got!r} instead of None")
        return
    if isinstance(want, list) and (not want or isinstance(want[0], (list, type(None)))):
        expect(isinstance(got, list) and len(got) == len(want), lambda: f"{path}: {len(got)} elements, expected {[w[1] for w in want]}, got {[getattr(g, 'reg', g) for g in got]}")
        for i, (g, w) in enumerate(zip(got, want)):
            alike(pairs, g, w, f"{path}[{i}]")
        return
    a, b = pairs
    if id(want) in a or id(got) in b:
        expect(a.get(id(want)) is got and b.get(id(got)) is want, lambda: f"{path}: objects of registration {want[1]} are shared differently than expected")
        return
    expect(getattr(got, "reg", None) == want[1], lambda: f"{path}: made by registration {getattr(got, 'reg', got)}, expected {want[1]}")
    a[id(want)], b[id(got)] = got, want
    expect_eq(len(got.parts), len(want[2]), f"{path}: parts")
    for i, (g, w) in enumerate(zip(got.parts, want[2])):
        alike(pairs, g, w, f"{path}.{i}")


def graphs(ctx, case) -> None:
    c, m = DependencyContainer(), Model()
    regs = m.regs = case["regs"] + [case["regs"][i % len(case["regs"])] for i in case["dup"]]
    m.fixed = {}
    calls: list[int] = []
    state = {"mended": False}
    keep: list = []  # so that ids stay valid

    def dep(resolver, d):
        how, cls, key = d
        if how == "one":
            return resolver.resolve(KS[cls], key=KEYS[key])
        if how == "maybe":
            return resolver.maybe_resolve(KS[cls], key=KEYS[key])
        it = resolver.collection.resolve(KS[cls], key=KEYS[key])
        return list(it) if how == "all" else None

    def provider(r, reg):
        def make(resolver):
            calls.append(r)
            parts = [dep(resolver, d) for d in reg["deps"]]
            if reg["kind"] == "boom" and not state["mended"]:
                raise Boom(r)
            if reg["kind"] == "none":
                return None
            obj = Node(r, parts) if reg["kind"] == "wrong" else (SUBS if reg["kind"] == "sub" else KS)[reg["cls"]](r, parts)
            keep.append(obj)
            return obj

        return make

    def register(r, reg):
        target = c if reg["where"] == "single" else c.collection
        cls, key = KS[reg["cls"]], KEYS[reg["key"]]
        if reg["kind"] in ("inst", "none-inst"):
            obj = KS[reg["cls"]](r, []) if reg["kind"] == "inst" else None
            keep.append(obj)
            target.register_instance(cls, obj, key=key)
            m.fixed[r] = ["obj", r, []] if obj is not None else None
        else:
            target.register(cls, provider(r, reg), key=key, singleton=reg["single"])

    for r, reg in enumerate(regs):
        at = (reg["cls"], reg["key"])
        if reg["where"] == "single" and at in m.single:
            raises(InvalidOperationError, lambda: register(r, reg), f"{at} can be registered twice")
            continue
        register(r, reg)
        if reg["where"] == "single":
            m.single[at] = r
            m.skeys.setdefault(at[0], []).append(KEYS[at[1]])
        else:
            m.coll.setdefault(at, []).append(r)
            m.ckeys.setdefault(at[0], []).append(KEYS[at[1]])
    expect_eq(calls, [], "registering calls providers")

    pairs: tuple[dict, dict] = ({}, {})
    lazies: list = []
    frozen = False
    worked = 0

    def both(what, real, model):
        """Runs both; compares outcome."""
        nonlocal worked
        try:
            want = model()
            keep.append(want)
            err = None
        except (Missing, Cycle, Boom, Wrong) as ex:
            err = ex
        assert not m.active
        try:
            got = real()
            keep.append(got)
        except DependencyCycleError as ex:
            expect(isinstance(err, Cycle), lambda: f"{what}: {ex}, expected {err!r}")
            path = [(k, key) for k, key in ex.cycle]
            expect(path[-1] in path[:-1] and len(path) >= 2, lambda: f"{what}: the path reported is no cycle: {ex}")
            ctx.label("cycle")
            return
        except DependencyNotFoundError as ex:
            expect(isinstance(err, Missing), lambda: f"{what}: {ex!r}, expected {err!r}")
            expect_eq((ex.kls, ex.key), (KS[err.at[0]], KEYS[err.at[1]]), f"{what}: what is missing")
            ctx.label("missing")
            return
        except InternalError as ex:
            expect(isinstance(err, Wrong), lambda: f"{what}: {ex!r}, expected {err!r}")
            ctx.label("wrong type")
            return
        except Boom as ex:
            expect(isinstance(err, Boom) and err.args == ex.args, lambda: f"{what}: {ex!r}, expected {err!r}")
            ctx.label("boom")
            return
        expect(err is None, lambda: f"{what}: {got!r}, expected {err!r}")
        alike(pairs, got, want, what)
        if want:
            worked += 1

    for op, a, b in case["ops"]:
        what = f"{op}({a}, {b})"
        if op == "resolve":
            frozen = True
            both(what, lambda: c.resolve(KS[a], key=KEYS[b]), lambda: m.one(a, b))
        elif op == "maybe":
            frozen = True
            both(what, lambda: c.maybe_resolve(KS[a], key=KEYS[b]), lambda: m.maybe(a, b))
        elif op == "all":
            frozen = True
            before = len(calls)
            it = c.collection.resolve(KS[a], key=KEYS[b])
            expect_eq(len(calls), before, "resolving a collection calls providers")
            lazies.append((it, a, b))
            both(what, lambda: list(it), lambda: m.all(a, b))
        elif op == "again" and lazies:
            it, x, y = lazies[a % len(lazies)]
            both(what, lambda: list(it), lambda: m.all(x, y))
        elif op == "keys":
            src, want = (c.collection, m.ckeys) if b else (c, m.skeys)
            expect_eq(list(src.iter_keys(KS[a])), want.get(a, []), f"keys of K{a}")
        elif op == "register":
            if frozen:
                reg = dict(where="single" if b else "coll", cls=a, key=b, kind="new", deps=[], single=False)
                for f in (lambda: register(99, reg), lambda: c.register_type(KS[a], key="late"), lambda: c.register_instance(KS[a], KS[a](9, []), key="late"),
                          lambda: c.collection.register_type(KS[a]), lambda: c.collection.register_instance(KS[a], KS[a](9, []))):
                    raises(InvalidOperationError, f, "registering after the first resolve works")
        elif op == "mend":
            state["mended"] = m.mended = True
    if worked and any(regs[r]["deps"] for r in set(calls)):
        ctx.nontrivial()


# ---------------------------------------------------------------- arm 2: auto-wiring

NAMES = ["iterable", "sequence", "collection", "lookup", "lazy", "call", "opt", "old_opt", "plain", "default", "resolver", "odd_default", "var"]


class W:
    """Whatever was passed in."""


def wire_cases():
    param = st.fixed_dictionaries(dict(kind=st.sampled_from(NAMES), cls=st.integers(0, 2), kw=st.booleans(), override=st.sampled_from([False, False, False, True])))
    return st.fixed_dictionaries(dict(
        params=st.lists(param, min_size=1, max_size=6),
        have=st.lists(st.tuples(st.integers(0, 2), st.integers(0, 2), st.booleans()), max_size=4, unique_by=lambda t: t[:2]),  # class, key, singleton
        coll=st.lists(st.tuples(st.integers(0, 2), st.booleans()), max_size=4),
        ill=st.sampled_from([None] * 8 + ["extra", "positional", "untyped", "union", "alias"]), how=st.sampled_from(["wire", "wire", "type", "sub", "singleton", "coll"]),
    ))


def annotation(p):
    k = KS[p["cls"]]
    return {
        "iterable": Iterable[k], "sequence": Sequence[k], "collection": Collection[k], "lookup": Lookup[k], "lazy": Lazy[k], "call": Callable[[], k],
        "opt": k | None, "old_opt": Optional[k], "plain": k, "default": k, "resolver": DependencyResolver, "odd_default": list[int] | dict[str, int],
    }.get(p["kind"])


class Token(Node):
    pass


DEFAULTS = {"default": Token("default", []), "odd_default": [7]}


def make_class(params, ill):
    """A class whose constructor has the parameters."""
    pos = [(i, p) for i, p in enumerate(params) if not p["kw"] and p["kind"] != "var" and p["kind"] not in DEFAULTS]
    posd = [(i, p) for i, p in enumerate(params) if not p["kw"] and p["kind"] in DEFAULTS]
    kw = [(i, p) for i, p in enumerate(params) if p["kw"] and p["kind"] != "var"]
    parts = ["self"]
    ns: dict = {}
    hints: dict = {}

    def one(i, p):
        ns[f"t{i}"] = annotation(p)
        d = DEFAULTS.get(p["kind"])
        s = f"p{i}: t{i}"
        if d is not None:
            ns[f"d{i}"] = d
            s += f" = d{i}"
        return s

    if ill == "positional":
        ns["tp"] = KS[0]
        parts += ["pp: tp", "/"]
    parts += [one(i, p) for i, p in pos]
    if ill == "untyped":
        parts.append("pu")
    if ill == "union":
        ns["tu"] = KS[0] | KS[1]
        parts.append("pq: tu")
    if ill == "alias":
        ns["ta"] = list[int] | None
        parts.append("pa: ta")
    parts += [one(i, p) for i, p in posd]
    if any(p["kind"] == "var" for p in params):
        parts.append("*args: int")
    elif kw:
        parts.append("*")
    parts += [one(i, p) for i, p in kw]
    if any(p["kind"] == "var" for p in params):
        parts.append("**kwargs: int")
    ns["W"] = W
    body = "\n".join(f"    self.p{i} = p{i}" for i, p in pos + posd + kw) or "    pass"
    exec(f"class C(W):\n  def __init__({', '.join(parts)}):\n" + body.replace("    ", "      "), ns)
    return ns["C"], [(i, p) for i, p in pos + posd + kw]


def wiring(ctx, case) -> None:
    if case["ill"] is not None and case["how"] == "singleton":
        case = dict(case, how="type")
    cls, params = make_class(case["params"], case["ill"])
    c = DependencyContainer()
    seq = [0]
    single: dict = {}

    def provider(tag, k):
        def make(resolver):
            seq[0] += 1
            return KS[k](tag, seq[0])

        return make

    have = {(k, key): s for k, key, s in case["have"]}
    for (k, key), s in have.items():
        c.register(KS[k], provider(("one", k, key), k), key=KEYS[key], singleton=s)
    for j, (k, s) in enumerate(case["coll"]):
        c.collection.register(KS[k], provider(("coll", j), k), singleton=s)

    overrides = {f"p{i}": object() for i, p in params if p["override"]} if case["how"] == "wire" else {}
    if case["how"] in ("type", "singleton"):
        c.register_type(cls, singleton=case["how"] == "singleton")
    elif case["how"] == "sub":
        c.register_type(W, cls)
        raises(ValueError, lambda: c.register_type(cls, W, key="x"), "a type that is no subclass can be registered")
        raises(ValueError, lambda: c.collection.register_type(cls, KS[0]), "a type that is no subclass can be registered")
    elif case["how"] == "coll":
        c.collection.register_type(W, cls)
        c.collection.register_type(cls)

    def build():
        if case["how"] == "wire":
            return wire_object(c, cls, **overrides, **({"nobody": 1} if case["ill"] == "extra" else {}))
        if case["how"] == "coll":
            objs = list(c.collection.resolve(W))
            expect_eq(len(objs), 1, "objects in the collection")
            return objs[0]
        return c.resolve(W if case["how"] == "sub" else cls)

    needed = [(p["cls"], 0) for i, p in params if p["kind"] == "plain" and f"p{i}" not in overrides]
    missing = [n for n in needed if n not in have]
    ill = case["ill"] if not (case["ill"] == "extra" and case["how"] != "wire") else None
    try:
        obj = build()
    except DependencyNotFoundError as ex:
        expect(bool(missing), lambda: f"{ex!r}, although everything is registered")
        expect((ex.kls, ex.key) in [(KS[k], KEYS[key]) for k, key in missing], lambda: f"{ex!r} instead of one of {missing}")
        ctx.label("missing")
        return
    except AutoWireError as ex:
        expect(ill is not None and ex.kls is cls, lambda: f"{ex!r} for {case}")
        ctx.label(ill)
        return
    expect(ill is None, lambda: f"a constructor with {ill!r} was wired")
    expect(not missing, lambda: f"wired, although {missing} is missing")
    expect(type(obj) is cls, lambda: f"{type(obj)}")

    def is_one(what, got, k, key=0):
        expect(isinstance(got, KS[k]) and got.reg == ("one", k, key), lambda: f"{what}: {getattr(got, 'reg', got)!r}, expected the object of {(k, key)}")
        if have[k, key]:
            expect(single.setdefault((k, key), got) is got, lambda: f"{what}: another instance of the singleton {(k, key)}")

    def are_all(what, got, k):
        expect_eq([g.reg for g in got], [("coll", j) for j, (kk, _) in enumerate(case["coll"]) if kk == k], what)
        for g in got:
            if case["coll"][g.reg[1]][1]:
                expect(single.setdefault(g.reg, g) is g, lambda: f"{what}: another instance of a singleton")

    seen: list[int] = []
    for i, p in params:
        what, got, kind, k = f"p{i}: {p['kind']} of K{p['cls']}", getattr(obj, f"p{i}"), p["kind"], p["cls"]
        if f"p{i}" in overrides:
            expect(got is overrides[f"p{i}"], lambda: f"{what}: {got!r} instead of what was passed")
        elif kind in ("sequence", "collection"):
            expect(isinstance(got, (list, tuple)), lambda: f"{what}: {type(got)}")
            are_all(what, got, k)
        elif kind == "iterable":
            are_all(what, list(got), k)
            are_all(what, list(got), k)
        elif kind == "lookup":
            expect(isinstance(got, Lookup) and got.kls is KS[k], lambda: f"{what}: {got!r}")
            expect_eq(list(got.iter_keys()), [KEYS[key] for kk, key, _ in case["have"] if kk == k], f"{what}: keys")
            for key in range(4):
                o = got.maybe_get(KEYS[key])
                if (k, key) in have:
                    is_one(what, o, k, key)
                else:
                    expect(o is None, lambda: f"{what}: {o!r} for an unknown key")
        elif kind in ("lazy", "call"):
            before = seq[0]
            f = got.get if kind == "lazy" else got
            if (k, 0) in have:
                x, y = f(), f()
                is_one(what, x, k)
                is_one(what, y, k)
                if kind == "lazy":
                    expect(x is y, lambda: f"{what}: two objects")
                    expect(seq[0] <= before + 1, lambda: f"{what}: made {seq[0] - before} times")
                elif not have[k, 0]:
                    expect(x is not y, lambda: f"{what}: not called each time")
            else:
                ex = raises(DependencyNotFoundError, f, f"{what}: nothing is registered")
        elif kind in ("opt", "old_opt"):
            if (k, 0) in have:
                is_one(what, got, k)
            else:
                expect(got is None, lambda: f"{what}: {got!r}")
        elif kind == "plain":
            is_one(what, got, k)
        elif kind == "default":
            if (k, 0) in have:
                is_one(what, got, k)
            else:
                expect(got is DEFAULTS["default"], lambda: f"{what}: {got!r}")
        elif kind == "odd_default":
            expect(got is DEFAULTS["odd_default"], lambda: f"{what}: {got!r}")
        elif kind == "resolver":
            expect(got is c, lambda: f"{what}: {got!r}")
        if isinstance(got, Node) and got.reg != "default" and not have.get((k, 0)):
            seen.append(id(got))
    expect(len(set(seen)) == len(seen), "two parameters share an object that is not a singleton")

    again = build()
    expect((again is obj) == (case["how"] == "singleton"), lambda: f"built twice with {case['how']}: {'the same' if again is obj else 'another'} object")
    ctx.nontrivial()
    ctx.label(case["how"])


# ---------------------------------------------------------------- arm 3: graphs of wired classes

def class_graph_cases():
    def g(n):
        return st.fixed_dictionaries(dict(
            edges=st.lists(st.lists(st.tuples(st.integers(0, n - 1), st.sampled_from(["plain", "plain", "plain", "opt", "default", "sequence", "lazy"])), max_size=3, unique_by=lambda t: t[0]), min_size=n, max_size=n),
            single=st.lists(st.booleans(), min_size=n, max_size=n), absent=st.frozensets(st.integers(0, n - 1), max_size=1),
            acyclic=st.sampled_from([True, True, False]), roots=st.lists(st.integers(0, n - 1), min_size=1, max_size=4),
        ))

    return st.integers(2, 6).flatmap(g)


def class_graph(ctx, case) -> None:
    """Every class takes others in its constructor; compared with building the graph by hand."""
    n = len(case["edges"])
    edges = [[(j, kind) for j, kind in es if not case["acyclic"] or j > i] for i, es in enumerate(case["edges"])]
    ns: dict = {"Lazy": Lazy, "Sequence": Sequence}
    src = []
    for i in range(n):
        params, body = ["self"], ["pass"]
        for j, kind in sorted(edges[i], key=lambda e: e[1] == "default"):
            t = {"plain": f"C{j}", "opt": f"C{j} | None", "default": f"C{j}", "sequence": f"Sequence[C{j}]", "lazy": f"Lazy[C{j}]"}[kind]
            params.append(f"p{j}: '{t}'" + (" = None" if kind == "default" else ""))
            body.append(f"self.p{j} = p{j}")
        src.append(f"class C{i}:\n  def __init__({', '.join(params)}):\n" + "".join(f"    {b}\n" for b in body))
    import sys
    import types as pytypes

    mod = pytypes.ModuleType("wired_by_r03")
    sys.modules["wired_by_r03"] = mod
    mod.__dict__.update(ns)
    exec("\n".join(src), mod.__dict__)
    cs = [getattr(mod, f"C{i}") for i in range(n)]

    c = DependencyContainer()
    for i in range(n):
        if i not in case["absent"]:
            c.register_type(cs[i], singleton=case["single"][i])
            c.collection.register_type(cs[i], singleton=case["single"][i])

    cache: dict = {}

    def model(i, stack, coll=False):
        if i in case["absent"]:
            raise Missing(i, None)
        me = (i, coll)
        if me in cache:
            return cache[me]
        if me in stack:
            raise Cycle()
        parts = {}
        for j, kind in sorted(edges[i], key=lambda e: e[1] == "default"):
            if kind == "plain":
                parts[j] = model(j, stack + [me])
            elif kind in ("opt", "default"):
                try:
                    parts[j] = model(j, stack + [me])
                except Missing as ex:
                    if ex.at != (j, None):
                        raise
                    parts[j] = None
            elif kind == "sequence":
                parts[j] = [model(j, stack + [me], True)] if j not in case["absent"] else []
            else:
                parts[j] = ("lazy", j)
        out = [i, parts]
        if case["single"][i]:
            cache[me] = out
        return out

    pairs: tuple[dict, dict] = ({}, {})
    keep = []

    def compare(got, want, path):
        if want is None:
            expect(got is None, lambda: f"{path}: {got!r}")
            return
        i, parts = want
        expect(type(got) is cs[i], lambda: f"{path}: {got!r} is no C{i}")
        a, b = pairs
        if id(want) in a or id(got) in b:
            expect(a.get(id(want)) is got and b.get(id(got)) is want, lambda: f"{path}: shared differently than expected")
            return
        a[id(want)], b[id(got)] = got, want
        keep.extend([got, want])
        for j, w in parts.items():
            g = getattr(got, f"p{j}")
            if isinstance(w, tuple):
                expect(isinstance(g, Lazy), lambda: f"{path}.p{j}: {g!r}")
                attempt(lambda: g.get(), lambda: model(j, []), f"{path}.p{j}.get()", lazy=(a, g))
            elif isinstance(w, list) and (not w or isinstance(w[0], list)):
                expect_eq(len(g), len(w), f"{path}.p{j}: elements")
                for x, y in zip(g, w):
                    compare(x, y, f"{path}.p{j}[]")
            else:
                compare(g, w, f"{path}.p{j}")

    depth = [0]

    def attempt(real, mod_, path, lazy=None):
        if depth[0] > 6:
            return
        try:
            want, err = mod_(), None
        except (Missing, Cycle) as ex:
            want, err = None, ex
        try:
            got = real()
        except DependencyCycleError as ex:
            expect(isinstance(err, Cycle), lambda: f"{path}: {ex}, expected {err!r}")
            ctx.label("cycle")
            return
        except DependencyNotFoundError as ex:
            expect(isinstance(err, Missing) and ex.kls is cs[err.at[0]], lambda: f"{path}: {ex!r}, expected {err!r}")
            ctx.label("missing")
            return
        expect(err is None, lambda: f"{path}: {got!r}, expected {err!r}")
        depth[0] += 1
        compare(got, want, path)
        depth[0] -= 1

    for r in case["roots"]:
        attempt(lambda: c.resolve(cs[r]), lambda: model(r, []), f"C{r}")
    if any(edges):
        ctx.nontrivial()


if __name__ == "__main__":
    main(Prop("R03", [
        Arm("graphs", graph_cases, graphs, quick=2500, thorough=120000),
        Arm("graphs2", graph_cases, graphs, quick=2500, thorough=120000),
        Arm("wiring", wire_cases, wiring, quick=1500, thorough=60000),
        Arm("class_graph", class_graph_cases, class_graph, quick=1500, thorough=60000),
    ], rule="an object with dependencies was resolved and compared with the model's", assumptions=["one thread resolves at a time"]))

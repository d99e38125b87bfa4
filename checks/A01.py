"""A01: asset cards resolve names, environments and inheritance consistently."""
from __future__ import annotations

import io
import os
import shutil
import tempfile
from pathlib import Path
from typing import Any

import boot

boot.boot(init=True)

from hypothesis import strategies as st

from harness import Arm, Prop, expect, expect_eq, main, raises  # noqa: E402

from fairseq2.assets import AssetCard, AssetCardError  # noqa: E402
from fairseq2.assets.card import StandardAssetConfigLoader  # noqa: E402
from fairseq2.assets.metadata_provider import (  # noqa: E402
    AssetMetadataError,
    AssetSourceNotFoundError,
    CachedAssetMetadataProvider,
    FileAssetMetadataSource,
    InMemoryAssetMetadataSource,
    StandardFileAssetMetadataLoader,
    YamlAssetMetadataFileLoader,
)
from fairseq2.assets.store import AssetNotFoundError, StandardAssetStore  # noqa: E402
from fairseq2.file_system import NativeLocalFileSystem  # noqa: E402
from fairseq2.utils.config import StandardConfigMerger, StandardConfigProcessor  # noqa: E402
from fairseq2.utils.structured import StandardValueConverter  # noqa: E402
from fairseq2.utils.uri import Uri  # noqa: E402
from fairseq2.utils.yaml import RuamelYamlDumper, RuamelYamlLoader  # noqa: E402

FS = NativeLocalFileSystem()

NAMES = ["a", "b", "c", "d", "long-name_1.x", "Ünï"]
ENVS = ["user", "e1", "e2"]
FIELDS = ["f1", "f2", "f3"]

values = st.one_of(
    st.none(),
    st.booleans(),
    st.integers(-3, 3),
    st.sampled_from([0.5, -1.0]),
    st.sampled_from(["x", "", "2", "http://host/x", "/abs/p q", "rel/p"]),
    st.lists(st.integers(0, 2), max_size=2),
    st.dictionaries(st.sampled_from(["k", "l"]), st.integers(0, 2), max_size=2),
)


def pad(s: str, how: int) -> str:
    return [s, " " + s, s + " ", " " + s + "  "][how]


@st.composite
def entries(draw, names=NAMES[:4], wild=True):
    name = draw(st.sampled_from(names))
    e: dict[str, Any] = {}
    env = draw(st.sampled_from([None, None, None, "", *ENVS]))
    p = draw(st.sampled_from([0, 0, 0, 1, 2, 3])) if wild else 0
    full = pad(name, p)
    if env is not None:
        full += "@" + pad(env, draw(st.sampled_from([0, 0, 3])) if wild else 0)
    e["name"] = full
    if draw(st.booleans()):
        later = names[names.index(name) + 1 :]
        ok = later and draw(st.integers(0, 7))
        e["base"] = pad(draw(st.sampled_from(later if ok else names)), p)
    for f in FIELDS:
        if draw(st.booleans()):
            e[f] = draw(values)
    if wild and draw(st.integers(0, 19)) == 0:
        # Something is wrong with this entry.
        w = draw(st.sampled_from(["name", "noname", "numname", "at", "base@", "basenum", "baseempty"]))
        if w == "name":
            e["name"] = draw(st.sampled_from(["@", " @user", "@e1", ""]))
        elif w == "noname":
            del e["name"]
        elif w == "numname":
            e["name"] = 3
        elif w == "at":
            e["name"] = "a@b@c"
        elif w == "base@":
            e["base"] = "a@user"
        elif w == "basenum":
            e["base"] = 4
        else:
            e["base"] = "  "
    return e


class Bad(Exception):
    """The model's verdict that a source is not valid."""


def canon(e: dict[str, Any]) -> tuple[str, dict[str, Any]]:
    e = dict(e)
    name = e.pop("name", None)
    if not isinstance(name, str) or not name:
        raise Bad
    parts = name.split("@")
    if len(parts) > 2 or not parts[0].strip():
        raise Bad
    env = parts[1].strip() if len(parts) == 2 else ""
    if e.get("base") is not None:
        b = e["base"]
        if not isinstance(b, str) or "@" in b or not b.strip():
            raise Bad
        e["base"] = b.strip()
    return f"{parts[0].strip()}@{env}", e


def load_model(es: list[dict[str, Any]]) -> dict[str, dict[str, Any]]:
    out: dict[str, dict[str, Any]] = {}
    for e in es:
        n, m = canon(e)
        if n in out:
            raise Bad
        out[n] = m
    return out


class Cycle(Exception):
    pass


class NoBase(Exception):
    pass


Chain = list[dict[str, tuple[Any, Any]]]


def resolve_model(metas: dict[str, tuple[dict[str, Any], Any]], name: str, envs: list[str], seen=()) -> Chain | None:
    """The card's chain, from the leaf to the root; each field comes with the
    directories its relative path may stand for."""
    if name in seen:
        raise Cycle
    if f"{name}@" not in metas:
        if seen:
            raise NoBase
        return None
    meta, where = metas[f"{name}@"]
    layer = {k: (v, {where}) for k, v in meta.items()}
    layers: Chain = [layer]
    for env in envs:
        em = metas.get(f"{name}@{env}")
        if em is not None:
            emeta, ewhere = em
            elayer = {k: (v, {ewhere} if ewhere is not None else {None, where}) for k, v in emeta.items()}
            if emeta.get("base") == name:
                # An environment's variant on top of the asset itself.
                layers = [elayer, layer]
            else:
                # Either the asset's or its variant's directory.
                layers = [{**{k: (v, w | {ewhere}) for k, (v, w) in layer.items()}, **elayer}]
            break
    base = layers[-1].get("base", (None, None))[0]
    if isinstance(base, str):
        rest = resolve_model(metas, base, envs, (*seen, name))
        assert rest is not None
        layers = layers + rest
    return layers


def lookup_model(metas, query: str, default_envs: list[str]) -> Chain | None:
    if "@" in query:
        name, env = query.split("@", 1)
        env = env.strip()
        envs = [env] if env else []
    else:
        name, envs = query, default_envs
    name = name.strip()
    if not name:
        return None
    return resolve_model(metas, name, envs)


def find(chain: Chain, field: str):
    for layer in chain:
        if field in layer:
            return layer[field]
    return None


def same(a: Any, b: Any) -> bool:
    return type(a) is type(b) and a == b


def to_yaml(es: list[Any]) -> str:
    out = []
    for e in es:
        buf = io.StringIO()
        RuamelYamlDumper(FS).dump(e, buf)
        out.append(buf.getvalue())
    return "---\n".join(out)


@st.composite
def store_cases(draw):
    wild = draw(st.integers(0, 2)) == 0
    n = draw(st.integers(1, 4))
    sources = []
    used: set[str] = set()
    for _ in range(n):
        kind = draw(st.sampled_from(["mem", "mem", "file", "dir"]))
        es = draw(st.lists(entries(wild=wild), max_size=5))
        if not wild:
            # Keep names unique, so that most stores are valid.
            keep = []
            for e in es:
                c = canon(e)[0]
                if c not in used:
                    used.add(c)
                    keep.append(e)
            es = keep
            if not sources and draw(st.integers(0, 4)):
                # Every asset exists, so that most bases do.
                for x in NAMES[:4]:
                    if f"{x}@" not in used:
                        used.add(f"{x}@")
                        es.append({"name": x, "f1": x})
        layout = draw(st.lists(st.sampled_from(["x.yaml", "y.yml", "sub/x.yaml", "sub/deep/z.yaml", "no.txt"]), min_size=len(es), max_size=len(es)))
        sources.append((kind, es, layout))
    env = draw(st.sampled_from([None, None, "e1", "e2", " e1 ", "user", "zz", "", "  "]))
    queries = draw(st.lists(st.sampled_from(["a", "b", "c", "d", "a@", "b@e1", "c@user", "a@e2", " a ", " b @ e1 ", "d@nope", "zz", "", "@", " @e1", "zz@user", "c@e1@x"]), min_size=3, max_size=8))
    probe = (draw(st.sampled_from(FIELDS)), draw(values))
    return dict(sources=sources, env=env, queries=queries, probe=probe)


def store_arm(ctx, case) -> None:
    root = Path(tempfile.mkdtemp(prefix="a01-")).resolve()
    try:
        _store_arm(ctx, case, root)
    finally:
        shutil.rmtree(root)


def _store_arm(ctx, case, root: Path) -> None:
    loader = StandardFileAssetMetadataLoader(FS, YamlAssetMetadataFileLoader(RuamelYamlLoader(FS)))
    providers = []
    metas: dict[str, tuple[dict[str, Any], Any]] = {}
    for i, (kind, es, layout) in enumerate(case["sources"]):
        where: dict[str, Any] = {}
        if kind == "mem":
            source = InMemoryAssetMetadataSource(f"mem{i}", [dict(e) for e in es])
            used_es = es
            places = [None] * len(es)
        else:
            d = root / f"s{i}"
            d.mkdir()
            if kind == "file":
                (d / "only.yaml").write_text(to_yaml(es), encoding="utf-8")
                source = FileAssetMetadataSource(d / "only.yaml", loader, not_exist_ok=False)
                used_es = es
                places = [d] * len(es)
            else:
                by_file: dict[str, list[Any]] = {}
                for e, f in zip(es, layout):
                    by_file.setdefault(f, []).append(e)
                used_es, places = [], []
                for f, fes in by_file.items():
                    p = d / f
                    p.parent.mkdir(parents=True, exist_ok=True)
                    p.write_text(to_yaml(fes), encoding="utf-8")
                    if f.endswith((".yaml", ".yml")):
                        used_es += fes
                        places += [p.parent] * len(fes)
                source = FileAssetMetadataSource(d, loader, not_exist_ok=False)
        try:
            model = load_model(used_es)
        except Bad:
            raises(AssetMetadataError, lambda: list(source.load()), "source with an invalid or duplicate entry")
            ctx.label("bad source")
            return
        provs = list(source.load())
        expect_eq(len(provs), 1, "one source gives one provider")
        expect_eq(set(provs[0].asset_names), set(model), "names of a source")
        if kind == "mem" and es:
            again = list(source.load())
            expect_eq(set(again[0].asset_names), set(model), "names of an in-memory source that is loaded again")
        for e, place in zip(used_es, places):
            where[canon(e)[0]] = place
        providers.append((provs[0], {k: (m, where[k]) for k, m in model.items()}))

    dup = any(k in o[1] for i, (_, m) in enumerate(providers) for k in m for o in providers[:i])
    make = lambda: StandardAssetStore([p for p, _ in providers], default_env=case["env"])  # noqa: E731
    if dup:
        raises(AssetMetadataError, make, "two sources have the same asset")
        ctx.label("duplicate")
        return
    store = make()
    for _, m in providers:
        metas.update(m)
    expect_eq(set(store.asset_names), set(metas), "names of the store")

    env = (case["env"] or "").strip()
    default_envs = ["user", env] if env else ["user"]

    for q in case["queries"] * 2:
        # Twice: a look-up leaves the store as it was.
        try:
            chain = lookup_model(metas, q, default_envs)
        except Cycle:
            ex = raises(Exception, lambda: store.retrieve_card(q), f"{q!r} inherits from itself")
            expect(not isinstance(ex, AssetNotFoundError), f"{q!r} inherits from itself: {type(ex)}")
            why: BaseException | None = ex
            while why is not None:
                expect(not isinstance(why, RecursionError), f"{q!r} inherits from itself, the look-up ends only by exhausting the stack: {ex}")
                why = why.__cause__ or why.__context__
            ctx.label("cycle")
            continue
        except NoBase:
            raises(AssetCardError, lambda: store.retrieve_card(q), f"{q!r} has an unknown base")
            ctx.label("no base")
            continue
        if chain is None:
            expect(store.maybe_retrieve_card(q) is None, f"{q!r} must be unknown")
            raises(AssetNotFoundError, lambda: store.retrieve_card(q), f"{q!r} must be unknown")
            continue
        card = store.retrieve_card(q)
        ctx.nontrivial(len(chain) > 1 or any("@" in k and not k.endswith("@") for k in metas))
        check_card(ctx, card, chain, q)

    # Search by the value of a field.
    field, value = case["probe"]
    try:
        want = set()
        for k in metas:
            if k.endswith("@"):
                chain = resolve_model(metas, k[:-1], default_envs)
                hit = find(chain, field)
                if hit is not None and hit[0] == value:
                    want.add(k[:-1])
    except (Cycle, NoBase):
        return
    got = [c.name for c in store.find_cards(field, value)]
    expect_eq(sorted(got), sorted(want), f"cards whose {field} is {value!r}")


def check_card(ctx, card: AssetCard, chain: Chain, q: str) -> None:
    for f in [*FIELDS, "base", "zz"]:
        hit = find(chain, f)
        if hit is None:
            expect(not card.has_field(f), f"{q!r} has no field {f}")
            expect(card.maybe_get_field(f) is None, f"{q!r} has no field {f}")
            raises(AssetCardError, lambda: card.field(f), f"{q!r} has no field {f}")
            continue
        value, dirs = hit
        expect(card.has_field(f), f"{q!r} has the field {f}")
        got = card.field(f)
        expect(same(got.value, value), f"{q!r}.{f} is {got.value!r}, not {value!r}")
        for kls in (bool, int, float, str, list, dict):
            if isinstance(value, kls):
                expect(same(got.as_(kls), value), f"{q!r}.{f} as {kls}")
            else:
                raises(AssetCardError, lambda: got.as_(kls), f"{q!r}.{f} = {value!r} as {kls}")
        if not isinstance(value, str):
            raises(AssetCardError, got.as_uri, f"{q!r}.{f} = {value!r} as URI")
        elif value.startswith("http:"):
            expect_eq(str(got.as_uri()), value, f"{q!r}.{f} as URI")
        elif value.startswith("/"):
            expect_eq(got.as_uri().to_path(), Path(value), f"{q!r}.{f} as path")
        elif None in dirs:
            # Defined in memory: there is nothing to be relative to.
            if dirs == {None}:
                raises(AssetCardError, got.as_uri, f"{q!r}.{f} = {value!r} as URI")
        else:
            ctx.label("relative")
            p = got.as_uri().to_path()
            expect(p in {d / value for d in dirs}, f"{q!r}.{f} = {value!r} as path is {p}, not under {dirs}")


# A path survives as a URI.
path_chars = st.sampled_from("ab z.%#?;&=+~éß漢@:'\"[]{}$*\\^|,!-_")


@st.composite
def path_cases(draw):
    return "/" + "/".join(draw(st.lists(st.text(path_chars, min_size=1, max_size=6).filter(lambda s: s not in (".", "..")), max_size=4)))


def path_arm(ctx, s) -> None:
    p = Path(s)
    ctx.nontrivial(any(c in s for c in " %#?;é漢"))
    u = Uri.from_path(p)
    expect_eq(u.scheme, "file", "scheme")
    expect_eq(u.to_path(), p, "path to URI to path")
    expect_eq(Uri.parse(str(u)).to_path(), p, "path to URI to text to path")
    card = AssetCard("n", {"f": s})
    expect_eq(card.field("f").as_uri().to_path(), p, "path field")


# Configuration overrides of a chain of cards.
leaf = st.one_of(st.integers(0, 4), st.sampled_from(["s", "t"]))
cfg = st.recursive(
    st.dictionaries(st.sampled_from(["x", "y", "z"]), leaf, max_size=3),
    lambda c: st.dictionaries(st.sampled_from(["x", "y", "z", "d"]), st.one_of(leaf, c), max_size=3),
    max_leaves=6,
)


@st.composite
def config_cases(draw):
    return dict(base=draw(cfg), cards=draw(st.lists(st.one_of(st.none(), cfg), min_size=1, max_size=4)))


def merged(a: Any, b: Any) -> Any:
    if not isinstance(b, dict):
        return b
    out = dict(a) if isinstance(a, dict) else {}
    for k, v in b.items():
        out[k] = merged(out.get(k), v)
    return out


class _Raw:
    """A structured form that is the plain form, to compare the merge only."""

    def unstructure(self, obj):
        return obj.d

    def structure(self, obj, kls):
        return kls(obj)


class Cfg:
    def __init__(self, d):
        self.d = d


def config_arm(ctx, case) -> None:
    loader = StandardAssetConfigLoader(_Raw(), StandardConfigMerger(), StandardConfigProcessor([]))
    card = None
    want: Any = case["base"]
    n = 0
    for i, ov in enumerate(reversed(case["cards"])):
        meta: dict[str, Any] = {} if ov is None else {"cfg": ov}
        card = AssetCard(f"c{i}", meta, card)
        if ov is not None:
            want = merged(want, ov)
            n += 1
    ctx.nontrivial(n > 1)
    import copy

    before = copy.deepcopy(case)
    got = loader.load(card, Cfg(case["base"]), "cfg")
    expect_eq(got.d, want, "configuration of a chain of cards")
    expect_eq(case, before, "the cards and the base configuration are left as they were")


main(Prop(
    "A01",
    [
        Arm("stores", store_cases, store_arm, quick=3000, thorough=100000),
        Arm("paths", path_cases, path_arm, quick=1500, thorough=30000),
        Arm("configs", config_cases, config_arm, quick=1500, thorough=30000),
    ],
    rule="stores: the looked-up card has a base or the store holds environment variants; paths: special characters; configs: two or more cards override",
    assumptions=[
        "A relative path of an asset that an environment's variant overlays may stand for the directory of either file.",
    ],
))

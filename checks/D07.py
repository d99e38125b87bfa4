"""D07: parquet datasets are read completely, in shards, and resumably."""
import boot

boot.boot_native()

import math
import os
import pickle
import shutil
import tempfile
import warnings
from collections import Counter
from dataclasses import dataclass, field
from pathlib import Path
from typing import List, Optional

import numpy as np
warnings.simplefilter("ignore")

import pyarrow as pa
import pyarrow.compute as pc
import pyarrow.parquet as pq
import torch
from harness import Arm, Prop, Violation, expect, expect_eq, main
from hypothesis import strategies as st

from fairseq2.data.data_pipeline import read_sequence
from fairseq2.data.parquet.arrow_transform import (
    apply_filter,
    concat_table,
    filter_list_by_range,
    filter_list_with_min_max_length,
    filter_strings_by_length,
    repeat_list_column,
    shuffle_table,
    simple_array_to_nested,
)
from fairseq2.data.parquet.fragment_loading import (
    FragmentLoadingConfig,
    NamedColumns,
    ParquetFragmentLoader,
)
from fairseq2.data.parquet.fragment_streaming import (
    FragmentStreamingConfig,
    ParquetDatasetLimitOptions,
    ParquetFragmentStreamer,
)
from fairseq2.data.parquet.table_bucketing import TableBucketer, TableBucketingConfig
from fairseq2.data.parquet.table_bucketing.primitives import (
    build_batching_loop_over_one_table,
    compute_length_splits,
    compute_rows_length,
)
from fairseq2.data.parquet.utils import circular_shift_left, pyarrow_table_to_torch_dict

_dir = None


def scratch() -> Path:
    global _dir
    if _dir is None or _dir[0] != os.getpid():
        _dir = (os.getpid(), tempfile.TemporaryDirectory(prefix="d07-"))
    return Path(_dir[1].name)


def native(thing, what=""):
    try:
        return thing()
    except Violation:
        raise
    except Exception as e:
        raise Violation(f"{what}: {type(e).__name__}: {e}; cause: {e.__cause__!r}") from e


# ------------------------------------------------------------------ datasets

SCHEMA = pa.schema([
    ("id", pa.int64()), ("seq", pa.list_(pa.int32())), ("text", pa.string()), ("val", pa.float64()),
])


@st.composite
def datasets(draw):
    """(kind of partitioning, [(partition values, [rows per row group])])"""
    kind = draw(st.sampled_from(["flat", "flat", "split", "split/lang", "number"]))
    n = draw(st.integers(1, 5))
    files = []
    for _ in range(n):
        part = {
            "flat": {}, "split": {"split": draw(st.sampled_from(["train", "dev"]))},
            "split/lang": {"split": draw(st.sampled_from(["train", "dev"])), "lang": draw(st.sampled_from(["en", "fr", "x y"]))},
            "number": {"shard": draw(st.integers(0, 3))},
        }[kind]
        files.append((part, draw(st.lists(st.integers(1, 4), min_size=1, max_size=5))))
    return kind, files, draw(st.sampled_from(["dense", "null", "null"])), draw(st.booleans())


def row(i, nulls):
    r = {"id": i, "seq": list(range(i % 5)), "text": "é" * (i % 3) + str(i), "val": i / 4}
    if nulls == "null":
        for c, m in (("seq", 7), ("text", 5), ("val", 3)):
            if i % m == m - 1:
                r[c] = None
    return r


def write(ds, root: Path):
    """Writes the files and returns [(path, partition values, [rows of each group])]."""
    _, files, nulls, _ = ds
    out, i = [], 0
    if root.exists():
        shutil.rmtree(str(root))
    for n, (part, groups) in enumerate(files):
        d = root
        for k, v in part.items():
            d = d / f"{k}={v}"
        d.mkdir(parents=True, exist_ok=True)
        path = d / f"f{n}.parquet"
        rows = []
        with pq.ParquetWriter(path, SCHEMA) as w:
            for size in groups:
                chunk = [row(i + j, nulls) for j in range(size)]
                i += size
                rows.append(chunk)
                w.write_table(pa.Table.from_pylist(chunk, SCHEMA), row_group_size=size)
        out.append((str(path), part, rows))
    return sorted(out, key=lambda x: x[0])


def fragment_key(f):
    return f.path, tuple(rg.id for rg in f.row_groups)


# ------------------------------------------------------------------ streaming

LIMITS = st.one_of(
    st.none(), st.none(), st.none(),
    st.fixed_dictionaries({"nb_files": st.integers(1, 6)}),
    st.fixed_dictionaries({"nb_fragments": st.integers(1, 8)}),
    st.fixed_dictionaries({"nb_rows": st.integers(1, 20)}),
    st.fixed_dictionaries({"fraction_of_files": st.sampled_from([0.1, 0.25, 0.5, 0.75, 1.0])}),
    st.fixed_dictionaries({"nb_fragments": st.integers(1, 8), "nb_rows": st.integers(1, 20), "nb_files": st.integers(1, 6)}),
)


@st.composite
def streams(draw):
    ds = draw(datasets())
    filters = [None, None]
    if ds[0] in ("split", "split/lang"):
        filters += ['pc.field("split") == "train"', ['pc.field("split") == "dev"']]
    if ds[0] == "split/lang":
        filters += [['pc.field("split") == "train"', 'pc.field("lang") != "fr"'], 'pc.is_in(pc.field("lang"), pa.array(["en", "x y"]))']
    if ds[0] == "number":
        filters += ['pc.field("shard") > 0', ['pc.field("shard") < 3', 'pc.field("shard") != 1']]
    shift = draw(st.integers(0, 3)) == 0
    conf = dict(
        partition_filters=draw(st.sampled_from(filters)),
        split_to_row_groups=draw(st.booleans()) or draw(st.booleans()),
        seed=draw(st.integers(0, 1000)),
        fragment_shuffle_window=draw(st.sampled_from([-1, 0, 1, 2, 3, 4, 7, 40])),
        files_circular_shift=shift,
        nb_epochs=draw(st.integers(1, 4)),
    )
    return ds, conf, draw(LIMITS), draw(st.sampled_from([1, 2, 2, 3, 4])), (not shift) and draw(st.integers(0, 3)) == 0, draw(st.sampled_from(["directory", "directory", "files"]))


def keep_file(part, filters):
    for f in [filters] if isinstance(filters, str) else filters or []:
        ok = {
            'pc.field("split") == "train"': lambda: part["split"] == "train",
            'pc.field("split") == "dev"': lambda: part["split"] == "dev",
            'pc.field("lang") != "fr"': lambda: part["lang"] != "fr",
            'pc.is_in(pc.field("lang"), pa.array(["en", "x y"]))': lambda: part["lang"] in ("en", "x y"),
            'pc.field("shard") > 0': lambda: part["shard"] > 0,
            'pc.field("shard") < 3': lambda: part["shard"] < 3,
            'pc.field("shard") != 1': lambda: part["shard"] != 1,
        }[f]()
        if not ok:
            return False
    return True


def selected(files, conf, limit):
    """The fragments of an epoch, in the order of the dataset."""
    files = [f for f in files if keep_file(f[1], conf["partition_filters"])]
    limit = limit or {}
    if "fraction_of_files" in limit:
        files = files[: max(int(round(limit["fraction_of_files"] * len(files))), 1)]
    if "nb_files" in limit:
        files = files[: limit["nb_files"]]
    out, rows = [], 0
    for path, _, groups in files:
        if conf["split_to_row_groups"]:
            units = [((path, (i,)), len(g)) for i, g in enumerate(groups)]
        else:
            units = [((path, tuple(range(len(groups)))), sum(map(len, groups)))]
        for key, n in units:
            out.append(key)
            rows += n
            if len(out) >= limit.get("nb_fragments", math.inf) or rows >= limit.get("nb_rows", math.inf):
                return out
    return out


def source_of(root, files, how, conf, limit, **kw):
    c = FragmentStreamingConfig(
        parquet_path=str(root) if how == "directory" or files[0][1] else [f[0] for f in files],
        limit=ParquetDatasetLimitOptions(**limit) if limit else None, **{**conf, **kw},
    )
    return ParquetFragmentStreamer(c)


def usable(conf, limit, whole):
    # Passed over in files with circular shifts: what selects fragments goes with a full listing.
    return bool(whole) and not (conf["files_circular_shift"] and limit and ("nb_fragments" in limit or "nb_rows" in limit))


def streaming(ctx, case):
    ds, conf, limit, world, even, how = case
    root = scratch() / "ds"
    files = write(ds, root)
    whole = selected(files, conf, limit)
    if not usable(conf, limit, whole):
        return
    epochs, window = conf["nb_epochs"], conf["fragment_shuffle_window"]
    listed = window == -1 or bool(limit and ("nb_fragments" in limit or "nb_rows" in limit))
    shift = conf["files_circular_shift"] and window != -1
    ctx.label(ds[0], f"window {window}", f"ranks {world}", "limit" if limit else "all", "even" if even else "uneven", "shift" if shift else "no shift")
    ctx.nontrivial(len(whole) > 2 and (world > 1 or epochs > 1))

    def stream(rank, of, ev=False):
        b = source_of(root, files, how, conf, limit).build_pipeline(rank, of, even_sharding=ev)
        return [fragment_key(f) for f in native(lambda: list(b.and_return()), "reading the stream")]

    E, total = len(whole), Counter(whole * epochs)
    single = stream(0, 1)
    counts(single, total, "the stream of one rank")
    if stream(0, 1) != single:
        raise Violation("the order differs from one time to the next with the same seed")
    if window == 0 and not shift:
        expect_eq(single, whole * epochs, "order without shuffling")
    for e in range(1, epochs):
        w = 1 if listed or window == 0 else window
        head = Counter(single[: math.ceil(e * E / w) * w])
        for key in set(whole):
            if head[key] < e:
                raise Violation(f"{key} is not among the fragments of epoch {e}")
    if world == 1:
        return
    shards = [stream(r, world, even) for r in range(world)]
    got = Counter(k for s in shards for k in s)
    if even:
        for s in shards:
            expect_eq(len(s), E * epochs // world, "length of an even shard")
        if got - total:
            raise Violation(f"more than once: {got - total}")
        expect_eq(interleave(shards), single[: E * epochs // world * world], "shards")
        return
    counts(shards, total, "the shards together")
    if shift:
        for key in set(whole):  # of one rank only
            owners = [r for r, s in enumerate(shards) if key in s]
            expect_eq(len(owners), 1, f"ranks that read {key}")
    else:
        expect_eq(interleave(shards), single, "shards in turn")


def interleave(shards):
    out = []
    for i in range(max(map(len, shards))):
        out += [s[i] for s in shards if i < len(s)]
    return out


def counts(got, total, what):
    if got and isinstance(got[0], list):
        got = [k for s in got for k in s]
    got = Counter(got)
    if got != total:
        raise Violation(f"{what}: missing {dict(total - got)}, surplus {dict(got - total)}")


def endless(ctx, case):
    """Without a number of epochs the stream goes on, epoch by epoch."""
    ds, conf, limit, world, _, how = case
    root = scratch() / "ds"
    files = write(ds, root)
    whole = selected(files, conf, limit)
    if not usable(conf, limit, whole):
        return
    E = len(whole)
    window = conf["fragment_shuffle_window"]
    listed = window == -1 or bool(limit and ("nb_fragments" in limit or "nb_rows" in limit))
    n = 3 * E if not listed else E * 3
    it = iter(source_of(root, files, how, conf, limit, nb_epochs=None).build_pipeline().and_return())
    got = native(lambda: [fragment_key(next(it)) for _ in range(n)], "an endless stream")
    ctx.nontrivial(E > 1)
    w = 1 if listed or window == 0 else window
    for e in range(1, 4):
        upto = math.ceil(e * E / w) * w
        if upto > n:
            continue
        head = Counter(got[:upto])
        for key in set(whole):
            if head[key] < e:
                raise Violation(f"{key} is not among the fragments of epoch {e}")
    if window == 0 and not conf["files_circular_shift"]:
        expect_eq(got, whole * 3, "order without shuffling")


def resuming(ctx, case):
    """Saved positions are taken up again, also after others."""
    (ds, conf, limit, world, even, how), cuts, reset_at, same = case
    root = scratch() / "ds"
    files = write(ds, root)
    whole = selected(files, conf, limit)
    if not usable(conf, limit, whole):
        return

    def pipeline():
        return source_of(root, files, how, conf, limit).build_pipeline(world - 1, world, even_sharding=even).and_return()

    full = [fragment_key(f) for f in native(lambda: list(pipeline()), "reading the stream")]
    ctx.label(f"window {conf['fragment_shuffle_window']}", "list" if conf["fragment_shuffle_window"] == -1 else "stream")
    ctx.nontrivial(len(full) > 2)
    p, at = pipeline(), 0
    for i, cut in enumerate(cuts):
        it = iter(p)
        for _ in range(cut):
            f = native(lambda: next(it, None), "reading on")
            if at == len(full):
                if f is not None:
                    raise Violation(f"the stream goes on after its end with {fragment_key(f)}")
                break
            if f is None:
                raise Violation(f"the stream ends after {at} of {len(full)} fragments")
            expect_eq(fragment_key(f), full[at], f"fragment {at} of {len(full)} after {i} resumptions")
            at += 1
        if i == reset_at:
            native(p.reset, "reset")
            at = 0
            continue
        state = native(lambda: pickle.loads(pickle.dumps(p.state_dict())), "saving")
        if not same:
            p = pipeline()
        else:  # read a little further first
            native(lambda: next(iter(p), None), "reading on")
        native(lambda: p.load_state_dict(state), "restoring")
    rest = [fragment_key(f) for f in native(lambda: list(p), "reading the rest")]
    expect_eq(rest, full[at:], f"the rest after {at} of {len(full)}")


# ------------------------------------------------------------------ loading


@dataclass
class Columns(NamedColumns):
    uid: Optional[str] = "id"
    tokens: Optional[str] = None
    label: Optional[str] = None
    extra_columns: List[str] = field(default_factory=list)


@st.composite
def loads(draw):
    ds = draw(datasets())
    part = list({"flat": [], "split": ["split"], "split/lang": ["split", "lang"], "number": ["shard"]}[ds[0]])
    columns = None
    if draw(st.booleans()):
        columns = {
            "uid": "id", "tokens": draw(st.sampled_from([None, "seq"])),
            "label": draw(st.sampled_from([None, "val", *part])), "extra_columns": draw(st.sampled_from([[], ["text"]])),
        }
    conf = dict(
        rename_columns=draw(st.booleans()), add_fragment_traces=draw(st.booleans()), drop_null=draw(st.booleans()),
        min_batch_size=draw(st.sampled_from([1, 1, 1, 2, 3])),
        filters=draw(st.sampled_from([None, None, 'pc.field("id") > 3', 'pc.field("id") != 5', ['pc.field("id") > 2', 'pc.field("id") < 9'], 'pc.greater(pc.field("id"), 1000)'])),
        num_parallel_fragments=draw(st.sampled_from([1, 1, 3])), nb_prefetch=draw(st.sampled_from([0, 0, 2])),
        use_threads=draw(st.booleans()), cache=draw(st.integers(0, 5)) == 0,
    )
    return ds, columns, conf, draw(st.booleans()), draw(st.sampled_from([0, 3]))


FILTERS = {
    'pc.field("id") > 3': lambda i: i > 3, 'pc.field("id") != 5': lambda i: i != 5, 'pc.field("id") > 2': lambda i: i > 2,
    'pc.field("id") < 9': lambda i: i < 9, 'pc.greater(pc.field("id"), 1000)': lambda i: i > 1000,
}


def model_rows(part, groups, columns, conf):
    """The rows of a table made of the groups [(id, rows)] of a file."""
    out = []
    for gid, rows in groups:
        for j, r in enumerate(rows):
            r = {**r, **part}
            fs = conf["filters"]
            if not all(FILTERS[f](r["id"]) for f in ([fs] if isinstance(fs, str) else fs or [])):
                continue
            if columns is not None:
                names = {v: k for k, v in columns.items() if isinstance(v, str)}
                keep = [*names, *columns["extra_columns"]]
                r = {(names.get(k, k) if conf["rename_columns"] else k): v for k, v in r.items() if k in keep}
            if conf["drop_null"] and any(v is None for v in r.values()):
                continue
            if conf["add_fragment_traces"]:
                r["__row_groups_ids"], r["__index_in_fragement"] = gid, j
            out.append(r)
    return out


def rows_of(table):
    """The rows without the columns whose content is pyarrow's business."""
    rows = table.to_pylist()
    for r in rows:
        for c in ("__batch_index", "__fragment_index", "__filename"):
            r.pop(c, None)
    return rows


def loading(ctx, case):
    ds, columns, conf, split, window = case
    root = scratch() / "ds"
    files = write(ds, root)
    by_path = {f[0]: f for f in files}
    stream = dict(partition_filters=None, split_to_row_groups=split, seed=1, fragment_shuffle_window=window, files_circular_shift=False, nb_epochs=1)
    fragments = [fragment_key(f) for f in source_of(root, files, "directory", stream, None).build_pipeline().and_return()]
    want = []
    for path, groups in fragments:
        _, part, rows = by_path[path]
        w = model_rows(part, [(g, rows[g]) for g in groups], columns, conf)
        if len(w) >= conf["min_batch_size"]:
            want.append(w)
    c = FragmentLoadingConfig(columns=Columns(**columns) if columns else None, cache_dir=str(scratch() / "cache") if conf["cache"] else None, **conf)
    p = ParquetFragmentLoader(c).apply(source_of(root, files, "directory", stream, None).build_pipeline()).and_return()
    got = [rows_of(t) for t in native(lambda: list(p), "loading")]
    ctx.label(ds[0], "columns" if columns else "all columns", "filter" if conf["filters"] else "no filter", "traces" if conf["add_fragment_traces"] else "no traces", "drop null" if conf["drop_null"] else "keep null")
    ctx.nontrivial(len(want) > 1)
    if conf["drop_null"] and len(got) != len(want):
        # Tables without rows are passed on if no rows are asked for.
        got = [g for g in got if g]
    expect_eq(got, want, "rows")
    if not conf["cache"]:
        p.reset()
        it = iter(p)
        head = [rows_of(next(it)) for _ in range(len(want) // 2)]
        state = pickle.loads(pickle.dumps(p.state_dict()))
        q = ParquetFragmentLoader(c).apply(source_of(root, files, "directory", stream, None).build_pipeline()).and_return()
        native(lambda: q.load_state_dict(state), "restoring")
        expect_eq(head + [rows_of(t) for t in native(lambda: list(q), "loading the rest")], want, "rows of a resumed loader")


# ------------------------------------------------------------------ bucketing


@st.composite
def buckets(draw):
    sizes = draw(st.lists(st.integers(1, 6), min_size=1, max_size=7))
    lens = [draw(st.lists(st.integers(0, 9), min_size=n, max_size=n)) for n in sizes]
    if draw(st.integers(0, 3)) == 0:
        lens = [[draw(st.integers(0, 3))] * 6 for _ in range(3)]
    target = draw(st.sampled_from([None, "target_table_size", "target_table_size", "target_total_length", "target_table_memory"]))
    conf: dict = {}
    if target:
        conf[target] = draw(st.integers(1, 20)) if target != "target_table_memory" else 1
        conf["min_fragment_number"] = draw(st.sampled_from([1, 1, 2, 3]))
        conf["max_fragment_number"] = draw(st.sampled_from([None, None, 3, 4]))
    batch = draw(st.sampled_from(["none", "size", "size", "length", "length"]))
    if batch == "size":
        conf["batch_size"] = draw(st.integers(1, 6))
    elif batch == "length":
        conf["total_batch_length"] = draw(st.integers(3, 30))
        conf["drop_long_seq"] = draw(st.booleans())
    conf["order_by_length"] = draw(st.booleans())
    conf["shuffle"] = draw(st.integers(0, 2)) > 0
    conf["length_columns"] = draw(st.sampled_from([["seq"], ["n"], ["text"], ["seq", "n"], ["n8"], ["seq", None], ["n8", "n8"], ["big"]]))
    conf["length_reducer"] = draw(st.sampled_from(["max", "sum"]))
    conf["combine_chunks"] = draw(st.booleans())
    conf["seed"] = draw(st.integers(0, 100))
    conf["nb_prefetch"] = draw(st.sampled_from([0, 0, 2]))
    conf["num_parallel_calls"] = draw(st.sampled_from([1, 1, 3]))
    return lens, conf, draw(st.integers(0, 12)), draw(st.integers(0, 4)) == 0


def bucket_tables(lens):
    out, i = [], 0
    for table in lens:
        rows = []
        for n in table:
            rows.append({"id": i, "seq": [i] * n, "text": "é" * n, "n": n, "n8": n * 14, "big": None if n == 9 else n, "fixed": [i, -i]})
            i += 1
        out.append(pa.Table.from_pylist(rows, pa.schema([
            ("id", pa.int64()), ("seq", pa.list_(pa.int32())), ("text", pa.string()), ("n", pa.int64()), ("n8", pa.int8()),
            ("big", pa.int64()), ("fixed", pa.list_(pa.int32(), 2)),
        ])))
    return out


def length_of(r, conf):
    ls = []
    for c in conf["length_columns"]:
        if c is not None:
            v = r[c]
            ls.append(0 if v is None else v if isinstance(v, int) else len(v))
    return max(ls) if conf["length_reducer"] == "max" else sum(ls)


def bucketing(ctx, case):
    lens, conf, cut, cache = case
    tables = bucket_tables(lens)
    rows = [r for t in tables for r in t.to_pylist()]
    by_id = {r["id"]: r for r in rows}
    if conf.get("max_fragment_number") is not None and conf["max_fragment_number"] < conf["min_fragment_number"]:
        return

    def pipeline():
        c = TableBucketingConfig(**conf, cache=cache, cache_dir=str(scratch() / "cache") if cache else None)
        return TableBucketer(c).apply(read_sequence(tables)).and_return()

    p = pipeline()
    batches = [t.to_pylist() for t in native(lambda: list(p), "bucketing")]
    target = next((k for k in conf if k.startswith("target")), None)
    mini = "batch_size" in conf or "total_batch_length" in conf
    ctx.label(str(target), "batch_size" if "batch_size" in conf else "total" if mini else "tables", "shuffle" if conf["shuffle"] else "in order", "by length" if conf["order_by_length"] else "not by length")
    ctx.nontrivial(len(rows) > 3 and (mini or target is not None))

    dropped = set()
    if "total_batch_length" in conf and conf["drop_long_seq"] and "batch_size" not in conf:
        dropped = {r["id"] for r in rows if length_of(r, conf) > conf["total_batch_length"]}
    seen = Counter(r["id"] for b in batches for r in b)
    if seen != Counter(set(by_id) - dropped):
        raise Violation(f"rows {dict(Counter(set(by_id) - dropped) - seen)} missing, {dict(seen - Counter(set(by_id) - dropped))} surplus")
    for b in batches:
        for r in b:
            expect_eq(r, by_id[r["id"]], "row")
    if not all(batches):
        raise Violation("a batch without rows")

    # In which table each row lies
    groups = concatenated(lens, conf, target)
    where = {i: g for g, ids in enumerate(groups) for i in ids}
    for b in batches:
        if len({where[r["id"]] for r in b}) != 1:
            raise Violation(f"rows of several tables in a batch: {[r['id'] for r in b]}, tables {groups}")
    expect_eq(sorted(where[b[0]["id"]] for b in batches), [where[b[0]["id"]] for b in batches], "tables in order")
    if not mini:
        expect_eq([sorted(r["id"] for r in b) for b in batches], groups, "tables")
    if "batch_size" in conf:
        size = conf["batch_size"]
        if any(len(b) > size for b in batches):
            raise Violation(f"a batch of more than {size} rows")
        if conf["combine_chunks"] or target is None or conf["shuffle"] or conf["order_by_length"]:
            for g in range(len(groups)):
                n = [len(b) for b in batches if where[b[0]["id"]] == g]
                expect_eq(sorted(n), sorted([size] * (len(groups[g]) // size) + ([len(groups[g]) % size] if len(groups[g]) % size else [])), "batch sizes")
    elif mini:
        limit = conf["total_batch_length"]
        for b in batches:
            ls = [length_of(r, conf) for r in b]
            if max(ls) * len(ls) > limit and not (len(ls) == 1 and not conf["drop_long_seq"]):
                raise Violation(f"a batch of lengths {ls} for a total of {limit}")
    if conf["order_by_length"] and mini:
        for g in range(len(groups)):
            spans = [[length_of(r, conf) for r in b] for b in batches if where[b[0]["id"]] == g]
            spans = sorted((min(s), max(s)) for s in spans)
            for (_, hi), (lo, _) in zip(spans, spans[1:]):
                if hi > lo:
                    raise Violation(f"batches whose lengths overlap: {spans}")
    if not conf["shuffle"] and not conf["order_by_length"] and target != "target_total_length" and (
        "batch_size" in conf or not mini
    ):
        expect_eq([r["id"] for b in batches for r in b], list(by_id), "order")
    if not cache and "shuffle" in conf:
        if not conf["nb_prefetch"]:  # the thread that prefetches draws from the same generator
            again = [t.to_pylist() for t in list(pipeline())]
            expect_eq(again, batches, "another run with the same seed")
        p = pipeline()
        it = iter(p)
        head = [t.to_pylist() for _, t in zip(range(cut), it)]
        state = native(lambda: pickle.loads(pickle.dumps(p.state_dict())), "saving")
        q = pipeline()
        native(lambda: q.load_state_dict(state), "restoring")
        rest = [t.to_pylist() for t in native(lambda: list(q), "bucketing the rest")]
        seen = Counter(r["id"] for b in head + rest for r in b)
        if seen != Counter(set(by_id) - dropped):
            raise Violation(f"resumed after {len(head)} of {len(batches)} batches: rows {dict(Counter(set(by_id) - dropped) - seen)} missing, {dict(seen - Counter(set(by_id) - dropped))} surplus")


def concatenated(lens, conf, target):
    """The row ids of the tables to split."""
    ids, out, i = [], [], 0
    for t in lens:
        ids.append(list(range(i, i + len(t))))
        i += len(t)
    if target is None:
        return ids
    if target == "target_table_memory":
        threshold = None
    acc: list = []
    cost, n = 0.0, 0
    for t, g in zip(lens, ids):
        if target == "target_table_size":
            cost += len(t)
        elif target == "target_total_length":
            rows = bucket_rows(t)
            cost += sum(sum(0 if r[c] is None else r[c] if isinstance(r[c], int) else len(r[c]) for r in rows) for c in conf["length_columns"] if c)
        acc += g
        n += 1
        full = target != "target_table_memory" and cost >= conf[target] and n >= conf["min_fragment_number"]
        if full or (conf["max_fragment_number"] is not None and n >= conf["max_fragment_number"]):
            out.append(acc)
            acc, cost, n = [], 0.0, 0
    if acc:
        out.append(acc)
    return out


def bucket_rows(t):
    return [{"seq": [0] * n, "text": "é" * n, "n": n, "n8": n * 14, "big": None if n == 9 else n} for n in t]


# ------------------------------------------------------------------ splits


@st.composite
def lengths(draw):
    dtype = draw(st.sampled_from(["int8", "uint8", "int16", "int32", "int32", "int64"]))
    top = draw(st.sampled_from([5, 20, 127 if dtype in ("int8", "uint8") else 30000]))
    ls = draw(st.lists(st.one_of(st.integers(0, top), st.integers(0, 5), st.just(top)), max_size=25))
    return dtype, ls, draw(st.integers(1, max(1, 3 * top))), draw(st.booleans()), draw(st.booleans()), draw(st.sampled_from(["array", "pyarrow"]))


def splits(ctx, case):
    dtype, ls, limit, by_length, drop, via = case
    ctx.label(dtype, "ordered" if by_length else "in order")
    ctx.nontrivial(len(ls) > 3)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if via == "array":
            col = np.array(ls, dtype=dtype)
            if dtype in ("int8", "uint8", "int16"):
                col = col.astype(np.int32)  # asked for by the signature
        else:
            col = compute_rows_length(pa.array(ls, getattr(pa, dtype)()))
            expect_eq([int(x) for x in col], ls, "lengths of rows")
        out = compute_length_splits(col, limit, order_by_length=by_length, drop_long_sample=drop)
    seen = Counter(int(i) for s in out for i in s)
    want = Counter(i for i, n in enumerate(ls) if not drop or n <= limit)
    if seen != want:
        raise Violation(f"missing {dict(want - seen)}, surplus {dict(seen - want)}")
    for s in out:
        if not len(s):
            raise Violation("an empty split")
        ns = [ls[i] for i in s]
        if max(ns) * len(ns) > limit and len(ns) > 1:
            raise Violation(f"a split of lengths {ns} for {limit} tokens")
        if by_length and ns != sorted(ns):
            raise Violation(f"lengths {ns} are not in order")
    small = [int(i) for s in out for i in s if ls[i] <= limit]
    if not by_length:
        expect_eq(small, [i for i, n in enumerate(ls) if n <= limit], "order")
    else:
        expect_eq([ls[i] for i in small], sorted(n for n in ls if n <= limit), "lengths in order")
        fit = [s for s in out if ls[s[0]] <= limit]
        for a, b in zip(fit, fit[1:]):  # no split could have taken another row
            if ls[b[0]] * (len(a) + 1) <= limit:
                raise Violation(f"lengths {[ls[i] for i in a]} and {ls[b[0]]} fit together within {limit}")


# ------------------------------------------------------------------ rows


@st.composite
def transforms(draw):
    what = draw(st.sampled_from(["strings", "strings", "range", "range", "lengths", "null", "concat", "shuffle", "nested", "shift"]))
    n = draw(st.integers(0, 8))
    if what == "strings":
        col = [draw(st.lists(st.text(st.sampled_from("aé漢"), max_size=4), max_size=3)) for _ in range(n)]
        lo, hi = draw(st.sampled_from([(None, 2), (1, None), (1, 3), (0, 0), (2, 2), (3, 1)]))
    elif what == "range":
        col = [draw(st.lists(st.integers(-5, 5).map(float), max_size=3)) for _ in range(n)]
        lo, hi = draw(st.sampled_from([(None, 2), (-1, None), (-1, 3), (0, 0), (None, None), (3, -3)]))
    elif what == "lengths":
        col = [draw(st.lists(st.integers(0, 9), max_size=5)) for _ in range(n)]
        lo, hi = draw(st.sampled_from([(0, 2), (1, 5), (2, 3), (3, 2)]))
    else:
        col = [draw(st.one_of(st.none(), st.integers(0, 5))) for _ in range(n)]
        lo = hi = None
    return what, col, lo, hi, draw(st.lists(st.integers(0, 8), max_size=3)), draw(st.integers(0, 20))


def cut(table, at):
    """The same rows in chunks and slices"""
    at = sorted({min(a, len(table)) for a in at} | {0, len(table)})
    parts = [table.slice(a, b - a) for a, b in zip(at, at[1:])] or [table]
    return pa.concat_tables(parts)


def rows_arm(ctx, case):
    what, col, lo, hi, at, k = case
    type_ = {"strings": pa.list_(pa.string()), "range": pa.list_(pa.float64()), "lengths": pa.list_(pa.int32())}.get(what, pa.int64())
    table = cut(pa.table({"id": pa.array(range(len(col)), pa.int64()), "c": pa.array(col, type_)}), at)
    ctx.label(what)
    ctx.nontrivial(len(col) > 1)

    def ids(t):
        if t.schema != table.schema:
            raise Violation(f"the schema becomes {t.schema}")
        for r in t.to_pylist():
            expect_eq(r["c"], col[r["id"]], "value")
        return t["id"].to_pylist()

    if what == "strings":
        ok = [i for i, c in enumerate(col) if all((lo or 0) <= len(s) and (hi is None or len(s) <= hi) for s in c)]
        expect_eq(ids(filter_strings_by_length(table, "c", lo, hi)), ok, f"rows with strings of {lo} to {hi} characters among {col}")
    elif what == "range":
        ok = [i for i, c in enumerate(col) if all((lo is None or lo <= v) and (hi is None or v <= hi) for v in c)]
        expect_eq(ids(filter_list_by_range(table, "c", lo, hi)), ok, f"rows with values of {lo} to {hi} among {col}")
    elif what == "lengths":
        ok = [i for i, c in enumerate(col) if lo <= len(c) <= hi]
        expect_eq(ids(filter_list_with_min_max_length(table, ["c"], lo, hi)), ok, f"rows of length {lo} to {hi} among {col}")
    elif what == "null":
        expect_eq(ids(apply_filter(table)), [i for i, c in enumerate(col) if c is not None], "rows without nulls")
        expect_eq(ids(apply_filter(table, drop_null=False)), list(range(len(col))), "rows")
        expect_eq(ids(apply_filter(table, pc.field("c") > 2)), [i for i, c in enumerate(col) if c is not None and c > 2], "rows")
    elif what == "concat":
        for combine in (False, True):
            t = concat_table([table.slice(a, 2) for a in range(0, len(col), 2)] or [table], combine=combine)
            expect_eq(ids(t), list(range(len(col))), "rows of a concatenation")
    elif what == "shuffle":
        a = ids(shuffle_table(table, np.random.RandomState(k)))
        expect_eq(sorted(a), list(range(len(col))), "shuffled rows")
        expect_eq(ids(shuffle_table(table, np.random.RandomState(k))), a, "another shuffle with the same seed")
    elif what == "nested":
        expect_eq(simple_array_to_nested(table["c"]).to_pylist(), [[c] for c in col], "nested values")
        expect_eq(simple_array_to_nested(pa.array(col, pa.int64())[1:]).to_pylist(), [[c] for c in col[1:]], "nested values of a slice")
        arr = pa.array(col, pa.int64())
        expect_eq(repeat_list_column(arr, k % 4 + 1).to_pylist(), [col] * (k % 4 + 1), "repeated values")
    else:
        got = circular_shift_left(list(col), k)
        expect_eq(got, [col[(i + k) % len(col)] for i in range(len(col))], f"shifted by {k}")


# ------------------------------------------------------------------ tensors


@st.composite
def conversions(draw):
    n = draw(st.integers(0, 7))
    at = draw(st.lists(st.integers(0, 7), max_size=2))
    how = draw(st.sampled_from(["whole", "slice", "chunks", "chunk slice", "take", "batch"]))
    kinds = draw(st.lists(st.sampled_from([
        "int64", "int32", "int8", "float32", "float64", "string", "list<int64>", "list<float32>", "large_list<int32>", "fixed<int32,2>", "fixed<float32,3>",
        "dict", "struct", "list<fixed>",
    ]), min_size=1, max_size=4, unique=True))
    return n, kinds, how, at, draw(st.integers(0, 6)), draw(st.integers(0, 7)), draw(st.integers(0, 1000))


def make_column(kind, n, rng):
    i = lambda: int(rng.randint(-100, 100))  # noqa: E731
    f = lambda: float(rng.randint(-100, 100)) / 8  # noqa: E731
    if kind in ("int64", "int32", "int8"):
        return pa.array([i() for _ in range(n)], getattr(pa, kind)())
    if kind in ("float32", "float64"):
        return pa.array([f() for _ in range(n)], getattr(pa, kind)())
    if kind == "string":
        return pa.array(["é" * rng.randint(3) + str(i()) for _ in range(n)], pa.string())
    if kind == "list<int64>":
        return pa.array([[i() for _ in range(rng.randint(4))] for _ in range(n)], pa.list_(pa.int64()))
    if kind == "list<float32>":
        return pa.array([[f() for _ in range(rng.randint(4))] for _ in range(n)], pa.list_(pa.float32()))
    if kind == "large_list<int32>":
        return pa.array([[i() for _ in range(rng.randint(4))] for _ in range(n)], pa.large_list(pa.int32()))
    if kind == "fixed<int32,2>":
        return pa.array([[i(), i()] for _ in range(n)], pa.list_(pa.int32(), 2))
    if kind == "fixed<float32,3>":
        return pa.array([[f(), f(), f()] for _ in range(n)], pa.list_(pa.float32(), 3))
    if kind == "dict":
        return pa.DictionaryArray.from_arrays(pa.array(rng.randint(0, 3, n), pa.int32()), pa.array(["a", "bé", "c"]))
    if kind == "struct":
        return pa.array([{"x": i(), "y": str(i())} for _ in range(n)], pa.struct([("x", pa.int64()), ("y", pa.string())]))
    return pa.array([[[i(), i()] for _ in range(rng.randint(1, 4))] for _ in range(n)], pa.list_(pa.list_(pa.int32(), 2)))


def plain(x):
    if isinstance(x, torch.Tensor):
        return x.tolist()
    if isinstance(x, dict):
        cols = {k: plain(v) for k, v in x.items()}
        n = len(next(iter(cols.values())))
        return [{k: v[i] for k, v in cols.items()} for i in range(n)]
    if isinstance(x, (pa.Array, pa.ChunkedArray)):
        return x.to_pylist()
    return [plain(v) if isinstance(v, torch.Tensor) else v for v in x]


def tensors(ctx, case):
    n, kinds, how, at, a, size, seed = case
    rng = np.random.RandomState(seed)
    table = pa.table({k: make_column(k, n, rng) for k in kinds})
    if how == "slice":
        table = table.slice(min(a, n), size)
    elif how in ("chunks", "chunk slice"):
        table = cut(table, at)
        if how == "chunk slice":
            table = table.slice(min(a, n), size)
    elif how == "take":
        table = table.take(pa.array(rng.permutation(n)[:size]))
    elif how == "batch" and n:
        parts = table.to_batches(max_chunksize=max(1, size))
        table = pa.Table.from_batches([parts[a % len(parts)]])
    ctx.label(how, *kinds)
    ctx.nontrivial(len(table) > 0)
    if not len(table):
        return
    out = pyarrow_table_to_torch_dict(table)
    expect_eq(set(out), set(kinds), "columns")
    for k in kinds:
        expect_eq(plain(out[k]), table[k].to_pylist(), f"{how}: column {k}")
        if k in ("int64", "int32", "int8", "float32", "float64"):
            if not isinstance(out[k], torch.Tensor) or str(out[k].dtype) != f"torch.{k}":
                raise Violation(f"column {k} becomes {out[k]!r}")


main(Prop(
    "D07",
    [
        Arm("streaming", streams, streaming, quick=350, thorough=12000),
        Arm("endless", streams, endless, quick=120, thorough=4000),
        Arm("resuming", lambda: st.tuples(streams(), st.lists(st.integers(0, 9), min_size=1, max_size=5), st.integers(0, 8), st.booleans()), resuming, quick=350, thorough=12000),
        Arm("loading", loads, loading, quick=300, thorough=10000),
        Arm("bucketing", buckets, bucketing, quick=1200, thorough=15000),
        Arm("splits", lengths, splits, quick=1500, thorough=60000),
        Arm("rows", transforms, rows_arm, quick=1000, thorough=40000),
        Arm("tensors", conversions, tensors, quick=1000, thorough=40000),
    ],
    rule="several fragments and more than one rank or epoch; several tables or batches; several rows",
    assumptions=["what lies under the readers (pyarrow) is trusted", "filters name loaded columns", "windowed shuffling may cross epochs by a window"],
))

"""D05: text reading and conversion reproduce the file's content."""
import boot

boot.boot_native()

import os
import pickle
import re
import tempfile
from pathlib import Path

import torch
from harness import Arm, KnownFinding, Prop, Violation, expect, expect_eq, main
from hypothesis import strategies as st

from fairseq2.data.data_pipeline import DataPipelineError, FileMapper, read_sequence
from fairseq2.data.text import (
    LineEnding,
    StrSplitter,
    StrToIntConverter,
    StrToTensorConverter,
    read_text,
)

SPACE = " \t\n\v\f\r"

_dir = None


def scratch() -> Path:
    global _dir
    if _dir is None or _dir[0] != os.getpid():
        _dir = (os.getpid(), tempfile.TemporaryDirectory(prefix="d05-"))
    return Path(_dir[1].name)


# ------------------------------------------------------------------ reading

_char = st.one_of(
    st.sampled_from(list("ab \t\r\v\f\x00\x0b\x1c\x85\u2028\ufeff\u00a0é漢😀\u200d")),
    st.characters(codec="utf-8", exclude_characters="\n"),
)
_word = st.one_of(
    st.text(_char, max_size=8),
    st.sampled_from(["", " ", "x", "\r", "\r\r", " a ", "\t", "\u00a0", "é"]),
)


@st.composite
def files(draw):
    """Lines, most of which end as the file's style says and some of which lie at
    the edge of a block."""
    block = draw(st.sampled_from([None, 1, 1024, 1025, 1500, 2048]))
    size = max(block or 1024, 1024)
    style = draw(st.sampled_from(["\n", "\r\n", "mixed"]))
    endings = {"\n": ["\n"], "\r\n": ["\r\n"], "mixed": ["\n", "\r\n", "\r\r\n"]}[style]
    text = bytearray()
    for _ in range(draw(st.integers(0, 9))):
        word = draw(_word)
        end = draw(st.sampled_from(endings))
        where = draw(st.sampled_from(["as is"] * 3 + ["edge", "edge", "repeat"]))
        body = word.encode("utf-8")
        if where == "repeat":  # several lines of the same kind
            text += (body + end.encode()) * draw(st.integers(2, 40))
            continue
        if where == "edge":
            # The line feed shall be the first, the second, or the last byte of a block.
            target = draw(st.sampled_from([0, 0, 1, 2, size - 1]))
            have = len(text) + len(body) + len(end) - 1
            pad = (target - have) % size
            pad += size * draw(st.sampled_from([0, 0, 0, 1, 2]))
            at = draw(st.sampled_from(["front", "back"]))
            fill = draw(st.sampled_from(["z", " ", "\r"])).encode() * pad
            body = fill + body if at == "front" else body + fill
        text += body + end.encode()
    if draw(st.integers(0, 7)) == 0:  # not terminated
        text += draw(st.text(_char, min_size=1, max_size=5)).encode()
    options = {
        "line_ending": draw(st.sampled_from(["INFER", "INFER", "LF", "CRLF"])),
        "ltrim": draw(st.booleans()),
        "rtrim": draw(st.booleans()),
        "skip_empty": draw(st.booleans()),
        "memory_map": draw(st.integers(0, 2)) == 0,
        "block_size": block,
        "key": draw(st.sampled_from([None, None, "line", ""])),
        "encoding": draw(st.sampled_from([None, None, "UTF-8", "utf-8", "utf8"])),
    }
    return bytes(text), options


def lines_of(raw: bytes, o) -> "tuple[list, bool]":
    """The items to read from the file, and whether its last line isn't terminated."""
    crlf = o["line_ending"] == "CRLF"
    if o["line_ending"] == "INFER":
        first = raw.find(b"\n")
        if first < 0:
            return [], bool(raw)
        crlf = raw[first - 1 : first] == b"\r"
    end = b"\r\n" if crlf else b"\n"
    parts = raw.split(end)
    rest = parts.pop()
    out = []
    for part in parts:
        if o["skip_empty"] and not part:
            continue
        s = (part + end).decode("utf-8")
        if o["ltrim"]:
            s = s.lstrip(SPACE)
        if o["rtrim"]:
            s = s.rstrip(SPACE)
        out.append({o["key"]: s} if o["key"] is not None else s)
    return out, bool(rest)


def reader(path, o):
    o = dict(o)
    o["line_ending"] = getattr(LineEnding, o["line_ending"])
    return read_text(path, **o)


def native(thing):
    """An unexpected exception of the native code is a violation."""
    try:
        return thing()
    except Violation:
        raise
    except Exception as e:
        raise Violation(f"{type(e).__name__}: {e}; cause: {e.__cause__!r}") from e


def read_all(it, limit=100_000):
    """Yields what can be read and whether an error ended it."""
    out = []
    while len(out) < limit:
        try:
            out.append(next(it))
        except StopIteration:
            return out, False
        except DataPipelineError:
            return out, True
    raise Violation("the pipeline does not end")


def diff(got, want, what):
    if got == want:
        return
    for i, (g, w) in enumerate(zip(got, want)):
        if g != w:
            raise Violation(f"{what}: item {i} is {short(g)}, not {short(w)} ({len(got)} and {len(want)} items)")
    raise Violation(f"{what}: {len(got)} items rather than {len(want)}")


def short(x):
    r = repr(x)
    return r if len(r) < 120 else f"{r[:60]}…{r[-50:]} ({len(r)})"


def note(ctx, raw, o, want, rest):
    size = max(o["block_size"] or 1 << 27, 1024)
    split = not o["memory_map"] and any(raw[i - 1 : i + 1] == b"\r\n" for i in range(size, len(raw), size))
    ctx.label(o["line_ending"], f"blocks: {min(len(raw) // size, 3)}", "mapped" if o["memory_map"] else "read")
    if split:
        ctx.label("line ending split over blocks")
    if rest:
        ctx.label("not terminated")
    ctx.nontrivial(len(want) >= 2)


def reading(ctx, case):
    raw, o = case
    path = scratch() / "text"
    path.write_bytes(raw)
    want, rest = lines_of(raw, o)
    note(ctx, raw, o, want, rest)
    p = reader(path, o).and_return()
    for turn in range(2):
        got, error = read_all(iter(p))
        if rest:
            # Reported, and never made part of another line or dropped.
            if not error:
                raise Violation(f"the unterminated end of the file is not reported: {short(got[-1:])}")
            diff(got, want, "lines before the error")
            return
        if error:
            raise Violation("the file cannot be read")
        diff(got, want, f"read {turn}")
        native(p.reset)


# ------------------------------------------------------------------ history

_steps = st.lists(
    st.one_of(
        st.tuples(st.just("next"), st.one_of(st.integers(0, 5), st.just(1000))),
        st.tuples(st.just("next"), st.one_of(st.integers(0, 5), st.just(1000))),
        st.tuples(st.just("save")),
        st.tuples(st.just("load"), st.integers(0, 5), st.booleans()),
        st.tuples(st.just("load"), st.integers(0, 5), st.booleans()),
        st.tuples(st.just("reset")),
    ),
    min_size=3, max_size=12,
)


def history(ctx, case):
    """Positions saved at any line are taken up again by the same and by other readers."""
    (raw, o), steps = case
    raw = raw[: raw.rfind(b"\n") + 1]
    if o["line_ending"] == "CRLF" or o["line_ending"] == "INFER":
        raw = raw[: raw.rfind(b"\r\n") + 2] if lines_of(raw, o)[1] else raw
    want, rest = lines_of(raw, o)
    if rest:
        return
    path = scratch() / "text"
    path.write_bytes(raw)
    note(ctx, raw, o, want, rest)
    p = reader(path, o).and_return()
    at = 0
    saved = [(p.state_dict(), 0)]
    for step in steps:
        if step[0] == "next":
            it = iter(p)
            for _ in range(step[1]):
                try:
                    item = native(lambda: next(it, None))
                except Violation as v:
                    raise Violation(f"reading line {at}: {v}") from v
                if at == len(want):
                    if item is not None:
                        raise Violation(f"{short(item)} is read past the end")
                    break
                if item is None:
                    raise Violation(f"the end is reported at line {at} of {len(want)}")
                if item != want[at]:
                    raise Violation(f"line {at} is {short(item)}, not {short(want[at])}")
                at += 1
        elif step[0] == "save":
            saved.append((native(lambda: pickle.loads(pickle.dumps(p.state_dict()))), at))
        elif step[0] == "load":
            state, at2 = saved[step[1] % len(saved)]
            if step[2]:
                p = reader(path, o).and_return()
                ctx.label("load into new")
            else:
                ctx.label("load into same")
            try:
                p.load_state_dict(state)
            except Exception as e:
                raise Violation(f"the position after {at2} of {len(want)} lines cannot be restored: {e}") from e
            at = at2
        else:
            native(p.reset)
            at = 0


# ------------------------------------------------------------------ encoding

CODECS = ["utf-16", "utf-16-le", "utf-16-be", "latin-1", "cp1252", "utf-32-le", "shift_jis"]


@st.composite
def encoded(draw):
    codec = draw(st.sampled_from(CODECS))
    chars = st.characters(codec=codec.replace("_jis", "-jis") if codec in ("latin-1", "cp1252") else "ascii", exclude_characters="\n\r")
    if codec == "shift_jis":
        chars = st.sampled_from(list("abc かなカナ漢字"))
    elif codec.startswith("utf"):
        chars = st.characters(codec="utf-8", exclude_characters="\n\r")
    return codec, draw(st.lists(st.text(chars, max_size=6), min_size=1, max_size=5))


def encodings(ctx, case):
    codec, lines = case
    text = "".join(line + "\n" for line in lines)
    raw = text.encode(codec)
    path = scratch() / "encoded"
    path.write_bytes(raw)
    ctx.label(codec)
    ctx.nontrivial(raw != text.encode())
    want_raw = None if raw == text.encode() else raw
    name = {"latin-1": "ISO-8859-1", "shift_jis": "SHIFT_JIS"}.get(codec, codec.upper())
    got, error = None, None
    try:
        got = list(read_text(path, encoding=name, memory_map=len(lines) % 2 == 0).and_return())
    except (DataPipelineError, UnicodeDecodeError, RuntimeError, ValueError) as e:
        error = e
    if got == [line + "\n" for line in lines]:
        return
    if want_raw is None:
        raise Violation(f"{codec}: {short(got)} is read from {short(text)} ({error})")
    # As if no encoding had been given
    parts = [p + b"\n" for p in want_raw.split(b"\n")[:-1]]
    try:
        plain = [p.decode() for p in parts]
    except UnicodeDecodeError:
        plain = None
    if (error is None and got == plain) or (error is not None and (plain is None or not raw.endswith(b"\n"))):
        raise KnownFinding("text-encoding-ignored", f"{codec}: the encoding of a text file has no effect")
    raise Violation(f"{codec}: {short(got)} is read from {short(text)} ({error})")


# ------------------------------------------------------------------ splitting


@st.composite
def splits(draw):
    sep = draw(st.sampled_from(["\t", "\t", ",", " ", "|", "a", "\n", "\x00"]))
    field = st.text(st.one_of(st.sampled_from(list("ab12 \t,|é漢😀")), st.characters(codec="utf-8")), max_size=4)
    s = draw(st.one_of(
        st.lists(field, min_size=1, max_size=7).map(sep.join),
        st.lists(st.sampled_from(["", "x", "y ", "é"]), min_size=1, max_size=7).map(sep.join),
    ))
    n = s.count(sep) + 1
    kind = draw(st.sampled_from(["all", "one", "some", "some"]))
    if kind == "all":
        indices = None
    elif kind == "one":
        indices = draw(st.integers(0, n if draw(st.booleans()) else max(n - 1, 0)))
    else:
        indices = draw(st.lists(st.integers(0, n if draw(st.integers(0, 3)) == 0 else max(n - 1, 0)), unique=True, max_size=5))
    exclude = draw(st.booleans())
    m = n if indices is None or indices == [] else (1 if isinstance(indices, int) else len(indices))
    if exclude and indices is not None and indices != []:
        m = max(n - m, 0)
    names = None
    if draw(st.booleans()):
        pool = draw(st.permutations(["b", "a", "é", "d", "e", "c", "x", "y", "z", "w"]))
        names = pool[: draw(st.sampled_from([m, m, m, m, m + 1, max(m - 1, 0)]))]
    piped = draw(st.booleans())
    return s, sep, indices, exclude, names, piped


def splitting(ctx, case):
    s, sep, indices, exclude, names, piped = case
    fields = s.split(sep)
    which = None if indices is None or indices == [] else ([indices] if isinstance(indices, int) else list(indices))
    bad = False
    if which is None:
        out = fields
    elif max(which) >= len(fields):
        bad, out = True, []
    elif exclude:
        out = [f for i, f in enumerate(fields) if i not in which]
    else:
        out = [fields[i] for i in which]
    want: object = out
    if not bad and names:
        if len(names) != len(out):
            bad = True
        want = dict(zip(names, out))
    elif isinstance(indices, int) and not exclude and out:
        want = out[0]
    ctx.label("names" if names else "no names", "error" if bad else "ok", type(indices).__name__, "exclude" if exclude else "keep")
    ctx.nontrivial(len(fields) > 1 and not bad)
    kw = {} if indices is None else {"indices": indices}
    try:
        f = StrSplitter(sep=sep, names=names, exclude=exclude, **kw)
        got = next(iter(read_sequence([s]).map(f).and_return())) if piped else f(s)
    except (ValueError, DataPipelineError) as e:
        if not bad:
            raise Violation(f"{case} is refused: {e} {e.__cause__}")
        return
    if bad:
        raise Violation(f"{case} gives {got!r}, no error")
    if isinstance(want, list) and which is not None and not exclude and which != sorted(which):
        # The order of unnamed fields isn't specified: as asked for or as in the text.
        if got == [fields[i] for i in sorted(which)]:
            return
    expect_eq(got, want, f"split of {s!r} by {sep!r} with indices={indices} exclude={exclude} names={names}")


# ------------------------------------------------------------------ numbers

DTYPES = {
    torch.uint8: (0, 255), torch.int8: (-128, 127), torch.int16: (-(2**15), 2**15 - 1),
    torch.int32: (-(2**31), 2**31 - 1), torch.int64: (-(2**63), 2**63 - 1),
}


def _edges(lo, hi):
    return st.one_of(st.integers(-300, 300), st.integers(lo, hi), st.sampled_from([lo, hi, lo - 1, hi + 1, 0, -1]))


@st.composite
def tensors(draw):
    dtype = draw(st.sampled_from([None, *DTYPES]))
    lo, hi = DTYPES[dtype or torch.int32]
    good = st.integers(lo, hi).map(str)
    any_ = st.one_of(
        good, good, good,
        _edges(lo, hi).map(str), st.sampled_from(["+1", "1.0", "1e3", "0x1", "-", "a", "1a", "00", "-0", "007", "1\t", "\n", "٣", "1_0", "--1"]),
    )
    words = draw(st.lists(good if draw(st.booleans()) else any_, max_size=8))
    s = ""
    for i, w in enumerate(words):
        s += (" " * draw(st.sampled_from([1, 1, 2, 3])) if i else draw(st.sampled_from(["", " "]))) + w
    s += draw(st.sampled_from(["", "", " "]))
    n = len(words)
    sizes = [None, [n], [-1], [1, n], [n, 1], [2, -1], [-1, 2], [n + 1]] + ([[n // 2, 2]] if n % 2 == 0 else [])
    return s, draw(st.sampled_from(sizes)), dtype, draw(st.booleans())


def to_tensor(ctx, case):
    s, size, dtype, piped = case
    lo, hi = DTYPES[dtype or torch.int32]
    words = [w for w in s.split(" ") if w]
    ok = all(re.fullmatch("-?[0-9]+", w) and lo <= int(w) <= hi for w in words)
    # "-0" is no unsigned number to some readers.
    unclear = ok and lo == 0 and any(w.startswith("-") for w in words)
    want = None
    if ok:
        want = torch.tensor([int(w) for w in words], dtype=dtype or torch.int32)
        if size:
            try:
                want = want.view(size)
            except RuntimeError:
                ok = False
    ctx.label(str(dtype), "ok" if ok else "error")
    ctx.nontrivial(len(words) > 1)
    try:
        f = StrToTensorConverter(size=size, dtype=dtype)
        got = next(iter(read_sequence([s]).map(f).and_return())) if piped else f(s)
    except (ValueError, RuntimeError, DataPipelineError) as e:
        if ok and not unclear:
            raise Violation(f"{case} is refused: {e}")
        return
    if not ok:
        raise Violation(f"{s!r} as {dtype} {size} gives {got!r}, no error")
    if got.dtype != want.dtype or got.shape != want.shape or not torch.equal(got, want):
        raise Violation(f"{s!r} as {dtype} {size} gives {got!r}, not {want!r}")


DIGITS = "0123456789abcdefghijklmnopqrstuvwxyz"


def render(n, base, upper):
    sign, n = ("-" if n < 0 else ""), abs(n)
    out = ""
    while True:
        out = DIGITS[n % base] + out
        n //= base
        if not n:
            break
    return sign + (out.upper() if upper else out)


@st.composite
def ints(draw):
    base = draw(st.sampled_from([None, 10, 2, 8, 16, 36, 3, 7]))
    n = draw(_edges(-(2**63), 2**63 - 1))
    s = draw(st.sampled_from(["", "", "", "0", "00", " ", "+"])) + render(n, base or 10, draw(st.booleans()))
    s += draw(st.sampled_from(["", "", "", " ", "z", "9", ".0", "\n"]))
    if draw(st.integers(0, 9)) == 0:
        s = draw(st.one_of(st.text(max_size=4), st.sampled_from(["", "-", "0x10", "1_000", "٣"])))
    return s, base, draw(st.booleans())


def to_int(ctx, case):
    s, base, piped = case
    b = base or 10
    chars = DIGITS[:b] + DIGITS[:b].upper()
    body = s[1:] if s.startswith("-") else s
    want = None
    if body and all(c in chars for c in body):
        n = int(s, b)
        if -(2**63) <= n < 2**63:
            want = n
    ctx.label("ok" if want is not None else "error")
    ctx.nontrivial(want is not None and b != 10 or want is None)
    try:
        f = StrToIntConverter() if base is None else StrToIntConverter(base)
        got = next(iter(read_sequence([s]).map(f).and_return())) if piped else f(s)
    except (ValueError, DataPipelineError) as e:
        if want is not None:
            raise Violation(f"{s!r} in base {b} is refused: {e}")
        return
    if want is None or got != want or type(got) is not int:
        raise Violation(f"{s!r} in base {b} gives {got!r}, not {want}")


# ------------------------------------------------------------------ files


@st.composite
def mappings(draw):
    contents = draw(st.lists(st.one_of(st.binary(max_size=40), st.binary(max_size=3).map(lambda b: b * 3000)), min_size=1, max_size=4))
    names = ["a", "b.bin", "dir/c", "d é"][: len(contents)]
    asks = []
    for _ in range(draw(st.integers(1, 10))):
        i = draw(st.integers(0, len(contents) - 1))
        size = len(contents[i])
        number = st.one_of(
            st.integers(0, size + 2), st.integers(0, size), st.integers(0, size),
            st.sampled_from([size, 2**31, 2**32, 2**63 - 1, 2**63, 2**64 - 1, 2**64, 2**64 - size, 2**64 + 1]),
        )
        parts = [names[i]]
        for _ in range(draw(st.sampled_from([0, 1, 2, 2, 2]))):
            parts.append(str(draw(number)))
        kind = draw(st.integers(0, 19))
        if kind == 0:
            parts.append(draw(st.sampled_from(["", "0", "x", " "])))
        elif kind == 1 and len(parts) > 1:
            parts[-1] = draw(st.sampled_from(["-1", "+1", "1x", "0x1", "", "1.0"]))
        elif kind == 2:
            parts[0] = draw(st.sampled_from(["missing", "", "dir"]))
        elif kind == 3:
            parts = [draw(st.sampled_from(["", " "])) + p + " " for p in parts]
        asks.append(":".join(parts))
    return list(zip(names, contents)), asks, draw(st.sampled_from([None, 0, 1, 2, 100])), draw(st.sampled_from(["root", "absolute"])), draw(st.sampled_from(["call", "map", "parallel"]))


def mapping(ctx, case):
    files, asks, cached, how, via = case
    with tempfile.TemporaryDirectory(dir=scratch()) as d:
        root = Path(d)
        held = {}
        for name, data in files:
            (root / name).parent.mkdir(exist_ok=True)
            (root / name).write_bytes(data)
            held[name] = data
        if how == "absolute":
            asks = [a if a.strip().startswith(":") or not a.strip() else f"{root}/{a.lstrip()}" for a in asks]
            held = {f"{root}/{k}": v for k, v in held.items()}
        mapper = FileMapper(root if how == "root" else None, cached_fd_count=cached)
        wants = [slice_of(held, ask) for ask in asks]
        ctx.label(how, via, f"cache {cached}")
        ctx.nontrivial(sum(w is not None for w in wants) > 1)
        if via == "call":
            keep = []
            for ask, want in zip(asks, wants):
                try:
                    got = mapper(ask)
                except (ValueError, OSError, RuntimeError) as e:
                    if want is not None:
                        raise Violation(f"{ask!r} is refused: {e}")
                    continue
                if want is None:
                    raise Violation(f"{ask!r} is mapped rather than refused")
                expect_eq(set(got), {"path", "data"}, "keys")
                expect_eq(got["path"], ask, "path")
                keep.append((ask, got["data"], want))
            for ask, data, want in keep:  # after all evictions
                expect_eq(bytes(data), want, f"content of {ask!r}")
        else:
            good = [(a, w) for a, w in zip(asks, wants) if w is not None]
            got = native(lambda: list(
                read_sequence([a for a, _ in good] * 3).map(mapper, num_parallel_calls=4 if via == "parallel" else 1).and_return()
            ))
            expect_eq([g["path"] for g in got], [a for a, _ in good] * 3, "paths")
            for g, (a, w) in zip(got, good * 3):
                expect_eq(bytes(g["data"]), w, f"content of {a!r}")


def slice_of(held, ask):
    parts = [p.strip(SPACE) for p in ask.split(":")]
    if len(parts) > 3 or not all(parts) or parts[0] not in held:
        return None
    if not all(re.fullmatch("[0-9]+", p) and int(p) < 2**64 for p in parts[1:]):
        return None
    data = held[parts[0]]
    numbers = [int(p) for p in parts[1:]]
    if numbers and numbers[0] > len(data):
        return None
    if len(numbers) == 2 and sum(numbers) > len(data):
        return None
    lo = numbers[0] if numbers else 0
    return data[lo : lo + numbers[1]] if len(numbers) == 2 else data[lo:]


main(Prop(
    "D05",
    [
        Arm("lines", files, reading, quick=900, thorough=40000),
        Arm("positions", lambda: st.tuples(files(), _steps), history, quick=900, thorough=40000),
        Arm("encodings", encoded, encodings, quick=100, thorough=2000),
        Arm("splitting", splits, splitting, quick=2500, thorough=80000),
        Arm("tensors", tensors, to_tensor, quick=2500, thorough=80000),
        Arm("integers", ints, to_int, quick=2500, thorough=80000),
        Arm("mapping", mappings, mapping, quick=800, thorough=30000),
    ],
    rule="a file of at least two lines, a string with a separator, a list of at least two numbers, a number that is no plain decimal, or two or more mapped slices",
    assumptions=[
        "texts hold valid Unicode; an unterminated last line is reported as an error",
        "a line is empty for skip_empty if the file holds nothing but its line ending",
        "the order of unnamed fields picked by unsorted indices is unspecified",
    ],
))

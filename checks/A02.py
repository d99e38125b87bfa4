"""A02: the asset cache only ever serves complete downloads.

A history of requests for a few sources runs against a real HTTP server on the
loopback interface, with failures of the server, of the file system, and deaths
of the downloading process. A model knows which contents may be in the cache.
"""
import boot

boot.boot(init=True)

import bz2
import errno
import gzip
import io
import lzma
import os
import shutil
import sys
import tarfile
import tempfile
import threading
import time
import warnings
import zipfile
from http.server import BaseHTTPRequestHandler, ThreadingHTTPServer
from pathlib import Path

from harness import Arm, Prop, Violation, expect, expect_eq, main, raises
from hypothesis import strategies as st

from fairseq2.assets.download_manager import (
    AssetDownloadError,
    DelegatingAssetDownloadManager,
    LocalAssetDownloadManager,
    StandardAssetDownloadManager,
)
from fairseq2.error import NotSupportedError
from fairseq2.file_system import GlobalFileSystem, NativeLocalFileSystem
from fairseq2.utils.progress import _NoopProgressReporter
from fairseq2.utils.uri import Uri

warnings.filterwarnings("ignore", category=DeprecationWarning)

WATCH = {"open", "os.rename", "os.remove", "os.rmdir", "os.mkdir", "os.link", "os.symlink", "os.truncate", "os.utime", "os.chmod",
         "shutil.rmtree", "shutil.move", "shutil.copyfile", "tempfile.mkstemp"}


class Saboteur:
    """Fails, or ends the process at, the k-th change of the file system."""

    def __init__(self):
        self.on = False
        self.dir = ""
        self.left = 0
        self.kill = False
        self.hit = ""

    def __call__(self, event, args):
        if not self.on or event not in WATCH:
            return
        if event == "open":
            if not isinstance(args[1], str):
                if args[2] is None or not (args[2] & (os.O_WRONLY | os.O_RDWR | os.O_CREAT)):
                    return
            elif not any(c in args[1] for c in "wax+"):
                return
        p = args[0]
        if isinstance(p, (str, bytes, os.PathLike)):
            q = os.fsdecode(p)
            if os.path.isabs(q) and not q.startswith(self.dir):
                return
        self.left -= 1
        if self.left < 0:
            self.on = False
            self.hit = f"{event} {args[0]}"
            if self.kill:
                os._exit(9)
            raise OSError(errno.EIO, "injected failure")


SABOTEUR = Saboteur()
sys.addaudithook(SABOTEUR)


class Handler(BaseHTTPRequestHandler):
    protocol_version = "HTTP/1.1"
    routes: dict = {}
    hits: list = []
    hold = None

    def log_message(self, *a):
        pass

    def do_GET(self):
        type(self).hits.append(self.path)
        r = self.routes.get(self.path)
        if r is None:
            self.send_error(404)
            return
        fault = r.get("fault")
        self.close_connection = True
        if fault == "http":
            self.send_error(r["arg"])
            return
        if fault == "drop":
            self.connection.close()
            return
        body = r["body"]
        if r.get("redirect"):
            self.send_response(302)
            self.send_header("Location", r["redirect"])
            self.send_header("Content-Length", "0")
            self.end_headers()
            return
        self.send_response(200)
        if r["disposition"] is not None:
            self.send_header("Content-Disposition", r["disposition"])
        chunked = r["framing"] == "chunked"
        if r["framing"] == "length":
            self.send_header("Content-Length", str(len(body)))
        elif chunked:
            self.send_header("Transfer-Encoding", "chunked")
        self.send_header("Connection", "close")
        self.end_headers()
        if fault in ("truncate", "die"):
            body = body[: int(len(body) * r["arg"])]
        try:
            for i in range(0, len(body), 5000):
                b = body[i : i + 5000]
                if chunked:
                    b = f"{len(b):x}\r\n".encode() + b + b"\r\n"
                self.wfile.write(b)
            self.wfile.flush()
            if fault == "die":
                # Half of the body has been sent; the client dies now.
                self.hold.wait(20)
                return
            if chunked and fault != "truncate":
                self.wfile.write(b"0\r\n\r\n")
        except OSError:
            pass


_server = None


def server():
    global _server
    if _server is None:
        _server = ThreadingHTTPServer(("127.0.0.1", 0), Handler)
        _server.daemon_threads = True
        threading.Thread(target=_server.serve_forever, daemon=True).start()
    return _server.server_address[1]


# -- sources --------------------------------------------------------------------

NAMES = ["model.pt", "n%20m.bin", "x", "t%C3%A9.model", "w.safetensors"]
HOSTILE = ["..%2F..%2Fevil.bin", "%2e%2e%2Fevil", "a%2Fb.bin"]
DISPOSITIONS = [None, None, None, 'attachment; filename="x y.bin"', "attachment; filename=plain.bin", "attachment", "inline"]
HOSTILE_DISP = ['attachment; filename="../../evil.bin"', "attachment; filename=../evil.bin", 'attachment; filename="{root}/evil.bin"', 'attachment; filename=".."', 'attachment; filename="sub/dir/f.bin"']

trees = st.dictionaries(
    st.sampled_from(["f.bin", "g h.txt", "d/f.bin", "d/e/h", "k/i.pt"]),
    st.integers(0, 9),
    min_size=1, max_size=4,
)


@st.composite
def sources(draw, hostile=False):
    kind = draw(st.sampled_from(["plain", "plain", "zip", "tar", "tgz", "tbz", "txz", "zipraw"]))
    disp = draw(st.sampled_from(HOSTILE_DISP if hostile and draw(st.booleans()) else DISPOSITIONS))
    if kind in ("plain", "zipraw"):
        name = draw(st.sampled_from(HOSTILE if hostile and disp is None else NAMES))
    else:
        name = {"zip": "a.zip", "tar": "a.tar", "tgz": "a.tar.gz", "tbz": "a.tbz2", "txz": "a.tar.xz"}[kind]
        if kind == "zip":
            disp = draw(st.sampled_from([None, None, 'attachment; filename="z.zip"', "attachment; filename=q.zip"]))
        elif draw(st.booleans()):
            name = draw(st.sampled_from(NAMES))  # archives are recognised by content
    return dict(
        kind=kind, name=name, disp=disp, hostile=hostile,
        framing=draw(st.sampled_from(["length", "length", "chunked"])),
        redirect=draw(st.integers(0, 4)) == 0,
        trees=[draw(trees), draw(trees)],
        size=draw(st.sampled_from([1, 300, 8192, 20000])),
    )


def blob(n, seed):
    # Compressible, but distinct per seed; never looks like an archive.
    return (b"content-%d-" % seed * (n // 8 + 1))[: n] + b"!%d" % seed


def files_of(src, version):
    t = src["trees"][version % 2]
    return {k: blob(src["size"], v + 10 * version) for k, v in t.items()}


def body_of(src, version):
    kind = src["kind"]
    if kind == "plain":
        return blob(src["size"], 1000 + version)
    buf = io.BytesIO()
    fs = files_of(src, version)
    if kind in ("zip", "zipraw"):
        with zipfile.ZipFile(buf, "w", zipfile.ZIP_DEFLATED) as z:
            for k, v in fs.items():
                z.writestr(zipfile.ZipInfo(k), v)
    else:
        mode = {"tar": "w", "tgz": "w:gz", "tbz": "w:bz2", "txz": "w:xz"}[kind]
        with tarfile.open(fileobj=buf, mode=mode) as t:
            for k, v in fs.items():
                info = tarfile.TarInfo(k)
                info.size = len(v)
                t.addfile(info, io.BytesIO(v))
    return buf.getvalue()


def expected(src, version):
    """What a request returns: bytes for a single file, else a tree."""
    if src["kind"] in ("plain", "zipraw"):
        return body_of(src, version)
    fs = files_of(src, version)
    if len(fs) == 1 and "/" not in next(iter(fs)):
        return next(iter(fs.values()))
    return fs


def found(path: Path):
    if path.is_file():
        return path.read_bytes()
    out = {}
    for d, _, names in os.walk(path):
        for n in names:
            p = Path(d) / n
            out[str(p.relative_to(path))] = p.read_bytes()
    return out


# -- histories --------------------------------------------------------------------


@st.composite
def requests(draw, n, faults=True):
    i = draw(st.integers(0, n - 1))
    op = dict(src=i, kind=draw(st.sampled_from(["model", "tokenizer", "dataset"])), update=draw(st.integers(0, 3)) == 0, force=False, local=False, fault=None)
    how = draw(st.sampled_from(["get", "get", "get", "force", "force", "local"]))
    op["force"], op["local"] = how == "force", how == "local"
    if how != "local" and faults and draw(st.booleans()):
        f = draw(st.sampled_from(["http", "drop", "truncate", "die", "oserror", "oserror", "kill", "kill", "kill"]))
        if f == "http":
            arg = draw(st.sampled_from([404, 403, 500, 503]))
        elif f in ("truncate", "die"):
            arg = draw(st.sampled_from([0.0, 0.3, 0.5, 0.9]))
        else:
            arg = draw(st.integers(0, 28))
        op["fault"] = (f, arg)
    return op


def cases(hostile=False):
    @st.composite
    def g(draw):
        n = draw(st.integers(1, 2))
        srcs = [draw(sources(hostile=hostile)) for _ in range(n)]
        ops = draw(st.lists(requests(n, faults=not hostile), min_size=1, max_size=6))
        return dict(fs=draw(st.sampled_from(["native", "global"])), srcs=srcs, ops=ops)

    return g()


def run(ctx, case) -> None:
    root = Path(tempfile.mkdtemp(prefix="a02-")).resolve()
    try:
        _run(ctx, case, root)
    finally:
        SABOTEUR.on = False
        shutil.rmtree(root)


def _run(ctx, case, root: Path) -> None:
    port = server()
    cache = root / "w" / "cache"
    cache.mkdir(parents=True)
    fs = NativeLocalFileSystem() if case["fs"] == "native" else GlobalFileSystem()
    noop = _NoopProgressReporter()
    man = DelegatingAssetDownloadManager([LocalAssetDownloadManager(), StandardAssetDownloadManager(cache, fs, noop, noop)])
    Handler.routes = {}
    version = [0] * len(case["srcs"])
    uris = []
    for i, s in enumerate(case["srcs"]):
        # The sources differ by the query only.
        uris.append(Uri.parse(f"http://127.0.0.1:{port}/p/{s['name']}?id={i}"))
    # The versions that may be in the cache; None: nothing may be there.
    may: list[set] = [{None} for _ in uris]

    def install(i, fault=None, arg=None):
        s = case["srcs"][i]
        disp = s["disp"]
        if disp is not None:
            disp = disp.replace("{root}", str(root))
        r = dict(body=body_of(s, version[i]), disposition=disp, framing=s["framing"], fault=fault, arg=arg)
        p = f"/p/{s['name']}?id={i}"
        if s["redirect"]:
            Handler.routes[p] = dict(body=b"", redirect=f"/q/{i}/{s['name']}", disposition=None, framing="length")
            Handler.routes[f"/q/{i}/{s['name']}"] = r
        else:
            Handler.routes[p] = r

    def request(op, local=None, force=None):
        fn = {"model": man.download_model, "tokenizer": man.download_tokenizer, "dataset": man.download_dataset}[op["kind"]]
        return fn(uris[op["src"]], force=op["force"] if force is None else force, local_only=op["local"] if local is None else local)

    def look(i, path, allowed, what):
        expect(path.exists(), f"{what}: {path} does not exist")
        got = found(path)
        hit = [v for v in allowed if v is not None and got == expected(case["srcs"][i], v)]
        expect(hit, lambda: f"{what}: the content is not that of the source; {shape(got)} instead of {[shape(expected(case['srcs'][i], v)) for v in allowed if v is not None]}")
        return set(hit)

    def contained(what):
        extra = [str(p) for p in root.rglob("*") if p.is_file() and cache not in p.parents]
        expect(not extra, f"{what}: files outside of the cache: {extra}")

    for n, op in enumerate(case["ops"]):
        i = op["src"]
        if op["update"]:
            version[i] += 1
        what = f"request {n} {op}"
        fault = op["fault"]
        Handler.hits = []
        if fault is None:
            install(i)
            if op["local"]:
                try:
                    path = request(op)
                except AssetDownloadError:
                    expect(None in may[i], f"{what}: the asset is in the cache")
                    pass  # a complete download may still await its extraction
                else:
                    may[i] = look(i, path, may[i], what)
                expect_eq(Handler.hits, [], f"{what}: requests to the server")
            else:
                cached = None not in may[i] and not op["force"]
                try:
                    path = request(op)
                except AssetDownloadError as ex:
                    if case["srcs"][i]["hostile"]:
                        contained(what)
                        continue
                    raise Violation(f"{what}: {ex} {ex.__cause__!r}")
                allowed = {version[i]} if op["force"] else (may[i] - {None}) | ({version[i]} if None in may[i] else set())
                may[i] = look(i, path, allowed, what)
                if cached:
                    expect_eq(Handler.hits, [], f"{what}: requests to the server for a cached asset")
                    ctx.label("cached")
        else:
            ctx.label(fault[0])
            f, arg = fault
            before = set(may[i])
            new = {version[i], None} | (set() if op["force"] else before)
            if f in ("http", "drop", "truncate"):
                if f == "truncate" and not (case["srcs"][i]["framing"] in ("length", "chunked")):
                    continue
                install(i, f, arg)
                served = None in before or op["force"]
                try:
                    path = request(op)
                except Exception as ex:
                    if not served:
                        raise Violation(f"{what}: failed although the asset is cached: {ex!r}")
                    ctx.nontrivial()
                    may[i] = before | {None} if not op["force"] else before | {None}
                else:
                    # Only content that was in the cache can be served.
                    allowed = before - {None} if not op["force"] else set()
                    # A complete download may be waiting to be extracted.
                    may[i] = look(i, path, allowed, what)
            else:
                if f == "die":
                    Handler.hold = threading.Event()
                    install(i, "die", arg)
                else:
                    install(i)
                if f == "oserror":
                    SABOTEUR.dir, SABOTEUR.left, SABOTEUR.kill, SABOTEUR.hit = str(root), arg, False, ""
                    SABOTEUR.on = True
                    try:
                        path = request(op)
                    except AssetDownloadError:
                        may[i] = before | new
                        ctx.nontrivial()
                    except OSError:
                        may[i] = before | new
                        ctx.nontrivial()
                    else:
                        SABOTEUR.on = False
                        may[i] = look(i, path, {v for v in before | new if v is not None}, what)
                    finally:
                        SABOTEUR.on = False
                else:
                    died = in_child(lambda: request(op), f, arg, root)
                    if f == "die":
                        Handler.hold.set()
                    if died:
                        ctx.nontrivial()
                    may[i] = before | new
                # Whatever happened, only complete content can be had offline.
                try:
                    path = request(op, local=True, force=False)
                except AssetDownloadError:
                    pass
                else:
                    may_now = look(i, path, may[i], f"offline after {what}")
                    may[i] = may_now
        contained(what)

    # In the end everything can be downloaded.
    for i in range(len(uris)):
        if case["srcs"][i]["hostile"]:
            continue
        install(i)
        op = dict(src=i, kind="model", force=False, local=False)
        try:
            path = request(op)
        except AssetDownloadError as ex:
            raise Violation(f"source {i} can no longer be downloaded: {ex} {ex.__cause__!r}")
        allowed = {version[i]} | {v for v in may[i] if v is not None} if None in may[i] else may[i]
        look(i, path, allowed, f"final request of source {i}")


def shape(x):
    return {k: f"{len(v)} bytes" for k, v in x.items()} if isinstance(x, dict) else f"{len(x)} bytes"


def in_child(fn, f, arg, root) -> bool:
    """Runs `fn` in a process that dies; whether it did."""
    if f == "die":
        # Dies once the server has sent part of the body.
        Handler.hits = []
    pid = os.fork()
    if pid == 0:
        try:
            if f == "kill":
                SABOTEUR.dir, SABOTEUR.left, SABOTEUR.kill = str(root), arg, True
                SABOTEUR.on = True
            fn()
            os._exit(0)
        except BaseException:
            os._exit(3)
    if f == "die":
        t = time.monotonic()
        while time.monotonic() - t < 5:
            p, status = os.waitpid(pid, os.WNOHANG)
            if p:
                return False
            if Handler.hits and time.monotonic() - t > 0.05:
                break
            time.sleep(0.005)
        time.sleep(0.03)
        os.kill(pid, 9)
    t = time.monotonic()
    while True:
        p, status = os.waitpid(pid, os.WNOHANG)
        if p:
            break
        if time.monotonic() - t > 30:  # a deadlock of the fork
            os.kill(pid, 9)
        time.sleep(0.001)
    return os.WIFSIGNALED(status) or os.waitstatus_to_exitcode(status) == 9


# -- local sources --------------------------------------------------------------------

chars = st.sampled_from("ab z.%#?;&=+~é漢@:'")


def local_cases():
    return st.tuples(
        st.lists(st.text(chars, min_size=1, max_size=5).filter(lambda s: s not in (".", "..")), min_size=1, max_size=3),
        st.booleans(), st.booleans(), st.sampled_from(["file", "s3", "hg", "http", "ftp"]),
    )


def local(ctx, case) -> None:
    parts, force, only, scheme = case
    man = DelegatingAssetDownloadManager([LocalAssetDownloadManager()])
    ctx.nontrivial(any(c in p for p in parts for c in " %#?;é"))
    if scheme == "file":
        p = Path("/" + "/".join(parts))
        expect_eq(man.download_model(Uri.from_path(p), force=force, local_only=only), p, "model at a local path")
        expect_eq(man.download_tokenizer(Uri.from_path(p), force=force, local_only=only), p, "tokenizer at a local path")
        expect_eq(man.download_dataset(Uri.from_path(p), force=force, local_only=only), p, "dataset at a local path")
    elif scheme == "s3":
        u = Uri.parse("s3://bucket/k/v")
        expect_eq(man.download_model(u), Path("s3://bucket/k/v"), "model at a remote path")
    else:
        raises(NotSupportedError, lambda: man.download_model(Uri.parse(f"{scheme}://x/y")), "scheme without a manager")


main(Prop("A02", [
    *[Arm(f"history{i}", cases, run, quick=250, thorough=6000, timeout=150) for i in range(6)],
    Arm("names", lambda: cases(hostile=True), run, quick=250, thorough=4000, timeout=150),
    Arm("local", local_cases, local, quick=500, thorough=10000),
], rule="history: a request failed or its process died; local: the path holds special characters",
    assumptions=[
        "one process at a time downloads an asset",
        "what the kernel was handed before a process dies is not lost (no power failure)",
        "archives hold regular files below the archive's root",
    ]))

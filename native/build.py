"""Builds fairseq2's C++ data pipeline from the working tree into a folder.

The audio, image and sentencepiece groups need libraries that are not in the
sandbox; they are left out (stubs.cc). Everything else is compiled as it stands.
"""
import os
import shutil
import subprocess
import sys
import sysconfig
from pathlib import Path

REPO = Path(os.environ.get("FS2_REPO", "/repo"))
HERE = Path(__file__).resolve().parent
SKIP_DIRS = ("audio", "image", "sentencepiece")


def old_pybind(out: Path, header_dir: Path) -> Path:
    """PyTorch's pybind11, with `++it` as in the 2.x releases that fairseq2 is written for.

    There it fetches the first element of an iterator that has not been read; since
    3.0 it skips that element.
    """
    root = out / "pybind"
    shutil.copytree(header_dir, root / "pybind11", dirs_exist_ok=True)
    f = root / "pybind11/pytypes.h"
    text = f.read_text()
    new = "iterator &operator++() {\n        init();\n        advance();"
    if text.count(new) == 1:
        f.write_text(text.replace(new, "iterator &operator++() {\n        advance();"))
    return root


def write_ninja(out: Path, opt: str, extra: str) -> None:
    import torch

    tdir = Path(torch.__file__).parent
    src = REPO / "native/src"
    bnd = REPO / "native/python/src"
    nat = REPO / "native/third-party/natsort"

    def ok(p: Path) -> bool:
        return not any(s in p.relative_to(src).parts for s in SKIP_DIRS)

    srcs = [p for p in sorted((src / "fairseq2n").rglob("*.cc")) if ok(p)]
    bsrcs = [p for p in sorted((bnd / "fairseq2n/bindings").rglob("*.cc"))
             if p.name not in ("audio.cc", "image.cc", "sentencepiece.cc")]
    inc = [old_pybind(out, tdir / "include/pybind11"), HERE / "shim", src, bnd, nat, sysconfig.get_paths()["include"], tdir / "include", tdir / "include/torch/csrc/api/include"]
    incs = " ".join(f"-isystem {i}" for i in inc)
    flags = (f"-std=c++17 {opt} -g0 -w -fPIC {extra} -DFMT_HEADER_ONLY=1 -DFAIRSEQ2N_USE_TBB "
             f"-D_GLIBCXX_USE_CXX11_ABI={int(torch._C._GLIBCXX_USE_CXX11_ABI)} -DTORCH_EXTENSION_NAME=bindings {incs}")
    lines = ["ninja_required_version = 1.3", f"flags = {flags}",
             "rule cxx", "  command = g++ $flags -MMD -MF $out.d -c $in -o $out", "  depfile = $out.d", "  deps = gcc",
             "rule cc", "  command = gcc -O1 -fPIC -w -c $in -o $out",
             "rule link", f"  command = g++ -shared {extra} -o $out $in $libs"]
    objs = []
    for i, p in enumerate(srcs + bsrcs + [HERE / "stubs.cc"]):
        o = f"o{i}_{p.stem}.o"
        lines.append(f"build {o}: cxx {p}")
        objs.append(o)
    lines.append(f"build strnat.o: cc {nat}/strnatcmp.c")
    objs.append("strnat.o")
    lines.append(f"build bindings.so: link {' '.join(objs)}")
    lib = tdir / "lib"
    lines.append(f"  libs = -L{lib} -L/opt/venv/lib -Wl,-rpath,{lib} -ltorch -ltorch_cpu -ltorch_python -lc10 -l:libtbb.so.12 -lpthread")
    lines.append("default bindings.so")
    (out / "build.ninja").write_text("\n".join(lines) + "\n")


def build(out: Path, opt: str = "-O0", extra: str = "") -> Path:
    out.mkdir(parents=True, exist_ok=True)
    write_ninja(out, opt, extra)
    r = subprocess.run(["ninja", "-C", str(out), "-j", str(os.cpu_count() or 8)],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise RuntimeError("native build failed:\n" + r.stdout[-6000:])
    return out / "bindings.so"


if __name__ == "__main__":
    print(build(Path(sys.argv[1]), sys.argv[2] if len(sys.argv) > 2 else "-O0", sys.argv[3] if len(sys.argv) > 3 else ""))

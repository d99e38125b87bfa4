"""Makes fairseq2 (from /repo's working tree) and Hypothesis importable."""
from __future__ import annotations

import atexit
import importlib.machinery
import importlib.util
import os
import shutil
import subprocess
import sys
import tempfile
import types
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get("FS2_REPO", "/repo"))

HYP = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


def _paths() -> None:
    for p in (str(REPO / "src"), str(REPO / "native/python/src")):
        if p not in sys.path:
            sys.path.insert(0, p)
    if HYP not in sys.path:
        sys.path.append(HYP)


def _stub_fairseq2n(doc_mode: bool) -> types.ModuleType:
    import torch

    pkg = types.ModuleType("fairseq2n")
    pkg.__path__ = [str(REPO / "native/python/src/fairseq2n")]
    pkg.DOC_MODE = doc_mode
    pkg.__version__ = "0.0.0"
    pkg.supports_image = lambda: False
    pkg.supports_cuda = lambda: False
    pkg.cuda_version = lambda: None
    pkg.torch_version = lambda: torch.__version__
    pkg.torch_variant = lambda: "CPU-only"
    pkg._TORCH_VERSION = torch.__version__
    sys.modules["fairseq2n"] = pkg
    return pkg


def torch_setup() -> None:
    import torch

    torch.set_num_threads(1)
    try:
        torch.set_num_interop_threads(1)
    except RuntimeError:
        pass


def boot(init: bool = False, recipe: bool = False) -> None:
    """fairseq2 without its native extension (the project's own DOC_MODE)."""
    _paths()
    torch_setup()
    _stub_fairseq2n(doc_mode=True)
    import fairseq2

    assert Path(fairseq2.__file__).is_relative_to(REPO), fairseq2.__file__
    if recipe:
        import fairseq2.recipe  # before fairseq2.evaluator (circular import)
    if init:
        fairseq2.init_fairseq2()


_native_dir: str | None = None
native_so: Path | None = None


def build_native(opt: str = "-O0", extra: str = "") -> Path:
    """Builds the C++ data pipeline from the working tree in a scratch folder."""
    global _native_dir
    pre = os.environ.get("FS2_NATIVE_SO")
    if pre:  # development only
        return Path(pre)
    _native_dir = tempfile.mkdtemp(prefix="fs2native_")
    atexit.register(drop_native, os.getpid())
    sys.path.insert(0, str(VERIF / "native"))
    import build as native_build  # type: ignore

    return native_build.build(Path(_native_dir), opt, extra)


def drop_native(pid: int) -> None:
    if pid == os.getpid() and _native_dir and _native_dir.startswith(tempfile.gettempdir()):
        shutil.rmtree(_native_dir, ignore_errors=True)


def boot_native(init: bool = False, recipe: bool = False, opt: str = "-O0") -> None:
    """fairseq2 with the data pipeline part of its native extension."""
    _paths()
    torch_setup()
    import ctypes

    import torch  # noqa: F401

    global native_so
    native_so = so = build_native(opt)
    ctypes.CDLL("/opt/venv/lib/libtbb.so.12", mode=ctypes.RTLD_GLOBAL)
    _stub_fairseq2n(doc_mode=False)
    loader = importlib.machinery.ExtensionFileLoader("fairseq2n.bindings", str(so))
    spec = importlib.util.spec_from_file_location("fairseq2n.bindings", str(so), loader=loader)
    mod = importlib.util.module_from_spec(spec)
    loader.exec_module(mod)

    def reg(name: str, m: types.ModuleType) -> None:
        m.__path__ = []
        sys.modules[name] = m
        for k, v in list(vars(m).items()):
            if isinstance(v, types.ModuleType):
                reg(f"{name}.{k}", v)

    reg("fairseq2n.bindings", mod)

    class _Missing:
        def __init__(self, *a, **k):
            raise RuntimeError("not available in this build")

    for grp, names in {
        "data.audio": ["AudioDecoder", "WaveformToFbankConverter"],
        "data.image": ["ImageDecoder"],
        "data.text.sentencepiece": ["SentencePieceDecoder", "SentencePieceEncoder", "SentencePieceModel"],
    }.items():
        m = types.ModuleType("fairseq2n.bindings." + grp)
        for n in names:
            setattr(m, n, type(n, (_Missing,), {}))
        sys.modules["fairseq2n.bindings." + grp] = m
    import fairseq2

    if recipe:
        import fairseq2.recipe  # noqa: F401
    if init:
        fairseq2.init_fairseq2()

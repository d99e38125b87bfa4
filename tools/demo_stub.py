import sys, types
import torch
_m = types.ModuleType("fairseq2n")  # the native extension cannot be built here
_m.__path__ = []
_m.DOC_MODE = True
_m.__version__ = "0.0.0"
_m.supports_image = _m.supports_cuda = lambda: False
_m.cuda_version = lambda: None
_m.torch_version = lambda: torch.__version__
_m.torch_variant = lambda: "CPU-only"
_m._TORCH_VERSION = torch.__version__
sys.modules["fairseq2n"] = _m
torch.set_num_threads(1)

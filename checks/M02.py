"""M02: model checkpoints load identically from every format and sharding."""
import boot

boot.boot(init=True)

import hashlib
import os
import shutil
import tempfile
from pathlib import Path

import models
import safetensors.torch
import torch
from gangs import run_ranks, thread_gangs
from harness import Arm, KnownFinding, Prop, Violation, expect, expect_eq, main, raises
from hypothesis import strategies as st

from fairseq2.assets import AssetCard, AssetCardError
from fairseq2.device import CPU
from fairseq2.gang import FakeGang, create_fake_gangs
from fairseq2.model_checkpoint import CorruptModelCheckpointError, reshard_tensor
from fairseq2.models.gemma3n import get_gemma3n_model_hub
from fairseq2.models.llama import get_llama_model_hub
from fairseq2.models.llama4 import get_llama4_model_hub
from fairseq2.models.mistral import get_mistral_model_hub
from fairseq2.models.nllb import get_nllb_model_hub
from fairseq2.models.olmo import get_olmo_model_hub
from fairseq2.models.qwen import get_qwen_model_hub
from fairseq2.models.s2t_conformer import get_s2t_conformer_model_hub
from fairseq2.models.s2t_transformer import get_s2t_transformer_model_hub
from fairseq2.nn import BatchLayout

HUBS = {"llama": get_llama_model_hub, "qwen": get_qwen_model_hub, "olmo": get_olmo_model_hub, "mistral": get_mistral_model_hub, "nllb": get_nllb_model_hub,
        "gemma3n": get_gemma3n_model_hub, "llama4": get_llama4_model_hub, "s2t_transformer": get_s2t_transformer_model_hub, "s2t_conformer": get_s2t_conformer_model_hub}
CFG = {**models.CLM, **models.S2S}
TP = ("llama", "qwen", "olmo", "mistral")


# ---------------------------------------------------------------- reshard
@st.composite
def reshard_cases(draw):
    s, t = draw(st.sampled_from([1, 2, 3, 4, 6])), draw(st.sampled_from([1, 2, 3, 4, 6]))
    dp = draw(st.integers(1, 4))
    nd = draw(st.integers(1, 3))
    shape = [draw(st.integers(1, 5)) for _ in range(nd)]
    dim = draw(st.one_of(st.none(), st.integers(0, nd - 1)))
    if dim is not None:
        shape[dim] = s * t * draw(st.integers(1, 2))
    return dict(s=s, t=t, dp=dp, tdp=draw(st.integers(1, 3)), shape=shape, dim=dim, rank=draw(st.integers(0, t - 1)), dtype=draw(st.sampled_from(["float32", "bfloat16", "int64"])))


def chunks(t, n):
    """The shards of FSDP: slices of equal size along the first dimension; trailing ones may be empty."""
    k = -(-t.size(0) // n)
    return [t[i * k : (i + 1) * k].clone() for i in range(n)]


def reshard(ctx, c):
    n = 1
    for d in c["shape"]:
        n *= d
    full = torch.arange(n).view(c["shape"]).to(getattr(torch, c["dtype"]))
    tp = [full] * c["s"] if c["dim"] is None else list(full.chunk(c["s"], c["dim"]))
    splits = [chunks(x, c["dp"]) for x in tp]
    dims = {} if c["dim"] is None else {"p": c["dim"], "q": 0}
    r = reshard_tensor("p", splits, (c["s"], c["dp"]), (c["t"], c["tdp"]), (c["rank"], c["rank"] % c["tdp"]), dims)
    want = full if c["dim"] is None else full.chunk(c["t"], c["dim"])[c["rank"]]
    expect_eq(r.dtype, full.dtype, "dtype")
    expect(r.shape == want.shape and torch.equal(r, want), f"resharded {c['s']}x{c['dp']} -> rank {c['rank']} of {c['t']}: {r} != {want}")
    ctx.nontrivial(c["s"] != c["t"] and c["dim"] is not None)


# ---------------------------------------------------------------- load
def tp_for(c, tp):
    """Adapts a configuration so that its dimensions divide by the tensor parallel sizes."""
    c = dict(c)
    if tp > 1:
        for k in ("num_attn_heads", "num_key_value_heads"):
            c[k] = c[k] * tp
        c["model_dim"] *= tp
        if "ffn_inner_dim_scale" in c:
            c["ffn_inner_dim_scale"], c["ffn_inner_dim_multiplier"] = 1.0, 1.0
        c["ffn_inner_dim"] = -(-c["ffn_inner_dim"] // (2 * tp)) * 2 * tp
        c["vocab_size"] = 24
        if "tied_embeddings" in c:
            c["tied_embeddings"] = False  # not supported with tensor parallelism
    return c


@st.composite
def load_cases(draw, fault=False):
    fam = draw(st.sampled_from(sorted(HUBS)))
    big = draw(st.booleans())
    if big and not fault:
        fam = draw(st.sampled_from(TP))
    cfg = draw(CFG[fam]())
    stp = ttp = 1
    if fam in TP and not fault:
        stp, ttp = (draw(st.sampled_from([1, 2, 4] if big else [1])) for _ in range(2))
    elif fam in TP:
        stp = draw(st.sampled_from([1, 2]))
    cfg = tp_for(cfg, max(stp, ttp))
    if stp == 1:
        form = draw(st.sampled_from(["native", "native", "pt", "safetensors", "multi"] + (["consolidated"] if fam == "llama" else [])))
    else:
        form = draw(st.sampled_from(["native"] + (["consolidated"] if fam == "llama" else [])))
    return dict(family=fam, cfg=cfg, stp=stp, ttp=ttp, form=form, sdp=draw(st.integers(1, 3)) if form == "native" else 1, dp=draw(st.sampled_from([1, 1, 2])) if ttp < 4 else 1,
                files=draw(st.integers(2, 4)), mmap=draw(st.booleans()), suffix=draw(st.sampled_from([".pt", ".pth", ".bin"])),
                sdtype=draw(st.sampled_from(["float32", "float32", "bfloat16", "float64"])), tdtype=draw(st.sampled_from(["float32", "float32", "bfloat16"])),
                rank0=draw(st.booleans()), seed=draw(st.integers(0, 2**31)), restrict=draw(st.sampled_from([None, True])))


@st.composite
def buffer_cases(draw):
    """Data parallel shards of a model with persistent buffers."""
    return dict(draw(load_cases()), family="s2t_conformer", cfg=draw(CFG["s2t_conformer"]()), stp=1, ttp=1, form="native", sdp=draw(st.integers(2, 3)), dp=1)


def split_tp(full, whole_shapes, n, dims):
    out = []
    for r in range(n):
        out.append({k: (v.chunk(n, dims[k])[r].clone() if k in dims else v.clone()) for k, v in full.items()})
    return out


_dims_cache: dict = {}


def true_dims(family, cfg, n):
    """The dimension along which each parameter is sharded, from the shapes alone."""
    key = (family, repr(sorted(cfg.items())), n)
    if key not in _dims_cache:
        whole = {k: v.shape for k, v in models.make_model(family, cfg).state_dict().items()}

        def body(gang):
            from fairseq2.gang import set_gangs

            with set_gangs(thread_gangs(gang, n)):
                return {k: v.shape for k, v in models.make_model(family, cfg).state_dict().items()}

        dims = {}
        for shapes in run_ranks(n, body):
            expect_eq(set(shapes), set(whole), "parameters of a tensor parallel model")
            for k, s in shapes.items():
                diff = [i for i in range(len(s)) if s[i] != whole[k][i]]
                expect(len(diff) <= 1 and all(s[i] * n == whole[k][i] for i in diff), f"{k} of shape {tuple(whole[k])} has the shape {tuple(s)} on {n} ranks")
                if diff:
                    dims[k] = diff[0]
        if len(_dims_cache) > 50:
            _dims_cache.clear()
        _dims_cache[key] = dims
    return _dims_cache[key]


def write(c, d: Path, full, bufs=()):
    """Writes `full` in the chosen layout; returns the path and the written files."""
    form, n = c["form"], c["stp"]
    dt = getattr(torch, c["sdtype"])
    full = {k: (v.to(dt) if v.is_floating_point() else v) for k, v in full.items()}
    if form in ("pt", "safetensors"):
        f = d / ("m" + (c["suffix"] if form == "pt" else ".safetensors"))
        if form == "pt":
            torch.save(full, f)
        else:
            safetensors.torch.save_file({k: v.clone().contiguous() for k, v in full.items()}, f)
        return f, [f], full
    p = d / "ckpt"
    p.mkdir()
    files = []
    if form == "multi":
        ks = sorted(full)
        g = torch.Generator().manual_seed(c["seed"])
        groups = [[] for _ in range(c["files"])]
        for i, k in enumerate(ks):
            groups[i if i < c["files"] else int(torch.randint(0, c["files"], (), generator=g))].append(k)
        for i, gr in enumerate(groups):
            f = p / f"model-{i + 1:05d}-of-{c['files']:05d}.safetensors"
            safetensors.torch.save_file({k: full[k].clone().contiguous() for k in gr}, f)
            files.append(f)
        return p, files, full
    shards = split_tp(full, None, n, true_dims(c["family"], c["cfg"], n) if n > 1 else {})
    for r, sh in enumerate(shards):
        if form == "consolidated":
            f = p / f"consolidated.{r:02d}.pth"
            torch.save(sh, f)
            files.append(f)
            continue
        t = p / "pp_00" / f"tp_{r:02d}"
        t.mkdir(parents=True)
        for q in range(c["sdp"]):
            f = t / f"sdp_{q:02d}.pt"
            torch.save({k: (chunks(v, c["sdp"])[q] if c["sdp"] > 1 and k not in bufs else v) for k, v in sh.items()}, f)
            files.append(f)
    return p, files, full


def source(c):
    torch.manual_seed(c["seed"])
    m = models.make_model(c["family"], c["cfg"])
    models.randomise(m, c["seed"] % 1000)
    return m.eval()


def probe(m, fam, cfg):
    """The outputs of a model for a fixed input."""
    g = torch.Generator().manual_seed(1)
    x = torch.randint(0, 20, (1, 5), generator=g)
    l = BatchLayout((1, 5), None)
    with torch.no_grad():
        if fam in models.CLM:
            return m(x, l)
        if fam == "nllb":
            return m(x, l, x, l)
        f = torch.randn(1, 9, cfg["num_fbank_channels"], generator=g).to(next(m.parameters()).dtype)
        return m(f, BatchLayout((1, 9), None), x, l)


def scalars(full):
    return [k for k, v in full.items() if v.dim() == 0]


def buffers(m):
    return {k for k, _ in m.named_buffers()} & set(m.state_dict())


def load(ctx, c):
    m = source(c)
    if c["sdp"] > 1 and buffers(m):
        # Every shard holds the whole of a buffer.
        do_load(ctx, dict(c, sdp=1), m)
        try:
            do_load(ctx, c, m)
        except (CorruptModelCheckpointError, Violation, RuntimeError) as ex:
            raise KnownFinding("native-sharded-buffers", f"{c['family']}: a checkpoint of {c['sdp']} FSDP shards cannot be loaded, its buffers are taken for shards: {ex}")
    else:
        do_load(ctx, c, m)


def do_load(ctx, c, m):
    fam, cfg = c["family"], c["cfg"]
    full = {k: v.detach().clone() for k, v in m.state_dict().items()}
    d = Path(tempfile.mkdtemp(prefix="m02_"))
    try:
        path, files, full = write(c, d, full, buffers(m))
        before = {f: hashlib.sha1(f.read_bytes()).hexdigest() for f in files}
        if c["dp"] > 1:
            c["rank0"] = True  # broadcasting takes processes; see F01
        config = models.make_config(fam, cfg)
        td = getattr(torch, c["tdtype"])
        n, dp = c["ttp"], c["dp"]
        hub = HUBS[fam]()

        def body(gang):
            gangs = thread_gangs(gang, n) if gang.size > 1 else create_fake_gangs(CPU)
            r = hub.load_custom_model(path, config, gangs=gangs, dtype=td, mmap=c["mmap"], load_rank0_only=c["rank0"], restrict=c["restrict"])
            return gang.rank, r

        got = run_ranks(n * dp, body)
        dims = true_dims(fam, cfg, n) if n > 1 else {}
        for r, lm in got:
            tr, dr = r % n, r // n
            if c["rank0"] and dr > 0:
                continue
            st_ = lm.state_dict()
            expect_eq(set(st_), set(full), "parameters of the loaded model")
            for k, v in full.items():
                w = (v.chunk(n, dims[k])[tr] if k in dims else v)
                # Parameters of normalisation layers and such keep their own type.
                w = w.to(st_[k].dtype)
                expect(st_[k].shape == w.shape and torch.equal(st_[k], w), f"{fam}, {c['form']} {c['stp']}x{c['sdp']} -> rank {r} of {n}x{dp}: {k} is not the slice of the whole")
            if n == 1 and c["tdtype"] == "float32" and c["sdtype"] != "bfloat16":
                lm.eval()
                expect(torch.equal(probe(lm, fam, cfg), probe(m, fam, cfg)), f"{fam}: the loaded model has other outputs (buffers not restored)")
        for f in files:
            expect_eq(hashlib.sha1(f.read_bytes()).hexdigest(), before[f], "a checkpoint file was changed by loading")
        if n == 1:
            # Iterating gives the same tensors.
            it = dict(hub.iter_checkpoint(path, config, mmap=c["mmap"], restrict=c["restrict"]))
            for k, v in it.items():
                expect(k in full and torch.equal(v, full[k]) and v.dtype == full[k].dtype, f"iter_checkpoint() gives another tensor for {k}")
    finally:
        shutil.rmtree(d)
    ctx.label(fam, c["form"], f"{c['stp']}->{c['ttp']}")
    ctx.nontrivial(c["stp"] != c["ttp"] or c["sdp"] > 1 or c["form"] == "multi" or c["dp"] > 1)


# ---------------------------------------------------------------- faults
@st.composite
def fault_cases(draw):
    c = draw(load_cases(fault=True))
    c["dp"] = 1
    c["fault"] = draw(st.sampled_from(["truncate", "delete", "garbage", "drop", "extra", "shape", "transpose", "nontensor", "empty", "duplicate", "nothing"]))
    c["at"] = draw(st.floats(0, 0.999))
    c["which"] = draw(st.integers(0, 50))
    return c


def reload(f):
    return safetensors.torch.load_file(f) if f.suffix == ".safetensors" else torch.load(f)


def resave(f, s):
    if f.suffix == ".safetensors":
        safetensors.torch.save_file({k: v.clone().contiguous() for k, v in s.items()}, f)
    else:
        torch.save(s, f)


def faults(ctx, c):
    fam, cfg = c["family"], c["cfg"]
    m = source(c)
    if c["sdp"] > 1 and buffers(m):
        c = dict(c, sdp=1)
    full = {k: v.detach().clone() for k, v in m.state_dict().items()}
    tied = {}
    for k, v in m.state_dict(keep_vars=True).items():
        tied.setdefault(id(v), []).append(k)
    tied = {k for g in tied.values() if len(g) > 1 for k in g}
    d = Path(tempfile.mkdtemp(prefix="m02_"))
    try:
        path, files, full = write(c, d, full)
        f = files[c["which"] % len(files)]
        kind = c["fault"]
        quiet = False  # a fault that may leave the checkpoint whole
        if kind == "truncate":
            b = f.read_bytes()
            f.write_bytes(b[: int(len(b) * c["at"])])
        elif kind == "delete":
            f.unlink()
        elif kind == "garbage":
            f.write_bytes(os.urandom(int(c["at"] * 300)) + b"\0")
        elif kind == "empty":
            f.write_bytes(b"")
        elif kind == "nothing":
            for x in files:
                x.unlink()
        elif kind == "duplicate":
            if c["form"] != "multi":
                return
            s = reload(files[0])
            k = sorted(s)[c["which"] % len(s)]
            t = reload(files[1])
            t[k] = s[k] + 1
            resave(files[1], t)
        else:
            s = reload(f)
            ks = sorted(s)
            k = ks[c["which"] % len(ks)]
            if kind == "drop":
                if k in tied:
                    return
                quiet = f != files[0]  # a later shard may hold nothing, or a copy, of a parameter
                del s[k]
            elif kind == "extra":
                if f != files[0] and c["form"] != "multi":
                    return  # the first shard names the keys
                s["decoder.unknown.weight"] = torch.zeros(3)
            elif kind == "shape":
                if s[k].dim() and not s[k].numel():
                    return
                s[k] = torch.cat([s[k], s[k][:1]]) if s[k].dim() else s[k].repeat(2)
                if c["sdp"] == 1 and c["stp"] > 1:
                    # A replicated parameter is taken from the first shard only.
                    quiet = f != files[0]
                quiet = quiet or k in tied
            elif kind == "transpose":
                if s[k].dim() != 2 or s[k].size(0) == s[k].size(1) or k in tied or c["stp"] > 1 or c["sdp"] > 1:
                    return
                s[k] = s[k].T.contiguous()
            elif kind == "nontensor":
                if f.suffix == ".safetensors" or (c["stp"] > 1 and f != files[0]):
                    return
                s[k] = "hello"
            resave(f, s)
        config = models.make_config(fam, cfg)
        try:
            lm = HUBS[fam]().load_custom_model(path, config, gangs=create_fake_gangs(CPU), dtype=torch.float32, mmap=c["mmap"])
        except Violation:
            raise
        except Exception as ex:
            # A shard without a parameter that the first one names is not foreseen.
            documented = isinstance(ex, (CorruptModelCheckpointError, OSError))
            if not documented and not (kind in ("drop", "shape") and c["stp"] * c["sdp"] > 1):
                raise
            ctx.label(f"{kind}: {type(ex).__name__}")
            ctx.nontrivial()
            return
        st_ = lm.state_dict()
        ok = all(torch.equal(st_[k], v.to(st_[k].dtype)) for k, v in full.items())
        expect(ok and (quiet or kind in ("truncate",)), f"{fam}, {c['form']}: fault `{kind}` in {f.name} went unnoticed (parameters {'equal' if ok else 'differ'})")
        ctx.label(f"{kind}: harmless")
    finally:
        shutil.rmtree(d)


# ---------------------------------------------------------------- cards
@st.composite
def card_cases(draw):
    fam = draw(st.sampled_from(["qwen", "nllb", "mistral", "llama"]))
    return dict(family=fam, cfg=draw(CFG[fam]()), sub=draw(st.sampled_from([None, "m.pt", "a/m.pt", "a/../m.pt", "./a/b/m.pt", "../out/m.pt", "a/../../out/m.pt", "esc/m.pt", "none.pt"])),
                via=draw(st.sampled_from(["plain", "link", "dots", "nested-link"])), relative=draw(st.booleans()), seed=draw(st.integers(0, 2**31)),
                bad=draw(st.sampled_from([None] * 4 + ["truncated"])))


def cards(ctx, c):
    """A model named by an asset card, possibly below a directory behind a symbolic link."""
    fam, cfg = c["family"], c["cfg"]
    m = source(c)
    full = {k: v.detach().clone() for k, v in m.state_dict().items()}
    d = Path(tempfile.mkdtemp(prefix="m02_"))
    try:
        real = d / "real" / "cache"
        out = d / "real" / "out"
        real.mkdir(parents=True)
        out.mkdir()
        torch.save({k: torch.zeros_like(v) for k, v in full.items()}, out / "m.pt")
        (real / "esc").symlink_to(out)
        sub = c["sub"]
        inside = sub is None or not (".." in sub.replace("a/../m", "m") or sub.startswith("esc"))
        where = real / (sub or "m.pt")
        if inside and sub != "none.pt":
            (real / "a").mkdir(exist_ok=True)
            where.parent.mkdir(parents=True, exist_ok=True)
            torch.save(full, where)
            if c["bad"]:
                b = where.read_bytes()
                where.write_bytes(b[: len(b) // 2])
        (real / "a").mkdir(exist_ok=True)
        root = {"plain": real, "link": d / "ln", "dots": d / "real" / ".." / "real" / "cache", "nested-link": d / "ln2" / "cache"}[c["via"]]
        (d / "ln").symlink_to(real)
        (d / "ln2").symlink_to(d / "real")
        meta = {"model_family": fam}
        target = root if sub is not None else root / "m.pt"
        if c["relative"]:
            meta["__base_path__"] = target.parent
            meta["checkpoint"] = target.name
        else:
            meta["checkpoint"] = str(target)
        if sub is not None:
            meta["checkpoint_path"] = sub
        card = AssetCard("foo", meta)
        hub = HUBS[fam]()
        load_ = lambda: hub.load_model(card, config=models.make_config(fam, cfg), gangs=create_fake_gangs(CPU), dtype=torch.float32)  # noqa: E731
        if not inside:
            raises(AssetCardError, load_, f"`checkpoint_path` {sub} leaves the checkpoint directory")
        elif sub == "none.pt":
            raises((AssetCardError, FileNotFoundError), load_, "a missing checkpoint")
        elif c["bad"]:
            raises(AssetCardError, load_, "a truncated checkpoint")
        else:
            st_ = load_().state_dict()
            for k, v in full.items():
                expect(torch.equal(st_[k], v.to(st_[k].dtype)), f"{k} differs")
    finally:
        shutil.rmtree(d)
    ctx.label(c["via"], str(sub))
    ctx.nontrivial(c["via"] != "plain" or not inside)


main(
    Prop(
        "M02",
        [
            Arm("reshard", reshard_cases, reshard, quick=1500, thorough=60000),
            Arm("load", load_cases, load, quick=250, thorough=6000),
            Arm("buffers", buffer_cases, load, quick=8, thorough=100),
            Arm("faults", fault_cases, faults, quick=300, thorough=8000),
            Arm("cards", card_cases, cards, quick=150, thorough=3000),
        ],
        rule="reshard: other tensor parallel size; load: resharded, several files or several ranks; faults: the fault is reported; cards: through a link, or escaping",
        assumptions=["sizes divide by the tensor parallel sizes", "damage that leaves a readable file with the right names and shapes cannot be noticed (no checksums in the formats)"],
    )
)

"""M01: converting model states to and from other formats."""
import boot

boot.boot(init=True)

import dataclasses
import re
import shutil
import tempfile
import warnings
from pathlib import Path

import torch
import transformers
from hypothesis import strategies as st
from transformers.models.gemma3n.modeling_gemma3n import Gemma3nAudioEncoder, Gemma3nMultimodalEmbedder

import models
from fairseq2.device import CPU
from fairseq2.gang import create_fake_gangs
from fairseq2.models.gemma3n.config import Gemma3nAudioConfig, Gemma3nConfig
from fairseq2.models.gemma3n.factory import create_gemma3n_model
from fairseq2.models.gemma3n.interop import convert_gemma3n_state_dict, export_gemma3n
from fairseq2.models.hg import HuggingFaceConfig, get_hugging_face_converter, save_hugging_face_model
from fairseq2.models.jepa import JepaConfig, JepaEncoderConfig
from fairseq2.models.jepa.factory import create_jepa_model
from fairseq2.models.jepa.interop import convert_jepa_state_dict
from fairseq2.models.llama.interop import convert_llama_state_dict, convert_to_ref_llama_state_dict
from fairseq2.models.llama4.interop import convert_llama4_state_dict
from fairseq2.models.mistral.interop import convert_mistral_state_dict
from fairseq2.models.nllb.interop import convert_nllb_state_dict
from fairseq2.models.olmo.interop import convert_olmo_state_dict
from fairseq2.models.qwen.interop import convert_qwen_state_dict
from fairseq2.models.s2t_conformer.interop import convert_s2t_conformer_state_dict
from fairseq2.models.s2t_transformer.interop import convert_s2t_transformer_state_dict
from fairseq2.models.utils.checkpoint import ModelCheckpointMismatchError, convert_state_dict, create_reverse_key_map, set_model_state
from fairseq2.models.w2vbert import W2VBertConfig
from fairseq2.models.w2vbert.factory import W2VBertFactory
from fairseq2.models.w2vbert.interop import convert_w2vbert_state_dict
from fairseq2.models.wav2vec2 import Wav2Vec2Config
from fairseq2.models.wav2vec2.asr.config import Wav2Vec2AsrConfig
from fairseq2.models.wav2vec2.asr.factory import create_wav2vec2_asr_model
from fairseq2.models.wav2vec2.asr.interop import convert_wav2vec2_asr_state_dict
from fairseq2.models.wav2vec2.factory import Wav2Vec2Factory
from fairseq2.models.wav2vec2.interop import convert_wav2vec2_state_dict
from fairseq2.nn import BatchLayout
from fairseq2.runtime.dependency import get_dependency_resolver
from fairseq2.utils.progress import NOOP_PROGRESS_REPORTER
from harness import Arm, Prop, Violation, expect, expect_eq, main, raises

warnings.simplefilter("ignore")
transformers.logging.set_verbosity_error()
transformers.logging.disable_progress_bar()

V = models.VOCAB


def clone(sd):
    return {k: v.clone() for k, v in sd.items()}


def same_state(got, want, what):
    expect_eq(sorted(set(got)), sorted(set(want)), f"parameters: {what}")
    for k, w in want.items():
        g = got[k]
        expect(tuple(g.shape) == tuple(w.shape), f"{what}: {k} has shape {tuple(g.shape)} instead of {tuple(w.shape)}")
        expect(torch.equal(g.to(w.dtype), w), f"{what}: {k} has other values")


def close(a, b, what, tol=2e-3):
    expect(a.shape == b.shape, f"{what}: {tuple(a.shape)} and {tuple(b.shape)}")
    d = float((a.double() - b.double()).abs().max()) if a.numel() else 0.0
    expect(d <= tol * (1 + float(b.abs().max())), f"{what} differ by {d}")


# ---- Hugging Face: export, its own model, and back


@st.composite
def qwen_configs(draw):
    c = draw(models.qwen_config())
    if draw(st.booleans()):  # Qwen 2.5
        c.update(qkv_proj_bias=True, q_norm=False, k_norm=False, head_dim=None)
    else:  # Qwen 3
        c.update(qkv_proj_bias=False, q_norm=True, k_norm=True)
    return c


@st.composite
def olmo_configs(draw):
    c = draw(models.olmo_config())
    y = c["yarn_scale_config"]
    if y and y["mscale_all_dim"] == 0.0:
        y["mscale"] = 1.0  # Transformers has no mscale of its own then.
    return c


CONFIGS = {"llama": models.llama_config, "qwen": qwen_configs, "olmo": olmo_configs, "gemma3n": models.gemma3n_config}
BACK = {"llama": convert_llama_state_dict, "qwen": convert_qwen_state_dict, "olmo": convert_olmo_state_dict, "gemma3n": convert_gemma3n_state_dict}
EPS = {"llama": 1e-5}


@st.composite
def hf_cases(draw, family):
    n = draw(st.integers(1, 12))
    return dict(f=family, c=draw(CONFIGS[family]()), seed=draw(st.integers(0, 2**31)), tok=draw(st.lists(st.lists(st.integers(0, V - 4), min_size=n, max_size=n), min_size=1, max_size=2)), file=draw(st.integers(0, 3)) == 0)


def made(family, c, seed):
    """The model and the configuration that created it, which the factory of OLMO completes."""
    import importlib

    cfg = models.make_config(family, c)
    m = getattr(importlib.import_module(f"fairseq2.models.{family}.factory"), f"create_{family}_model")(cfg)
    models.randomise(m, seed % 100003)
    return cfg, m.eval()


def exported(f, sd, cfg):
    if f == "gemma3n":
        e = export_gemma3n(sd, cfg)
        return e.state_dict, HuggingFaceConfig(e.config, e.config_kls_name, e.arch)
    conv = get_hugging_face_converter(f)
    return conv.to_hg_state_dict(sd, cfg), conv.to_hg_config(cfg)


def loads(m, sd, what, unused=None):
    r = m.load_state_dict(sd, strict=False)
    tied = set(getattr(m, "_tied_weights_keys", None) or ())
    missing = [k for k in r.missing_keys if k not in tied]
    unexpected = [k for k in r.unexpected_keys if unused is None or not re.search(unused, k)]
    expect(not missing and not unexpected, f"{what}: missing {missing[:5]}, unexpected {unexpected[:5]}")


def hf(ctx, c):
    f = c["f"]
    cfg, m = made(f, c["c"], c["seed"])
    want = clone(m.state_dict())
    hs, hc = exported(f, clone(want), cfg)
    tokens = torch.tensor(c["tok"])
    with torch.no_grad():
        ours = m(tokens, BatchLayout(tuple(tokens.shape), None))
    expect(all(isinstance(k, str) and isinstance(v, torch.Tensor) for k, v in hs.items()), "exported state of tensors")
    if f == "gemma3n":
        # Its whole needs the vision tower (timm): the text model only.
        hm = transformers.Gemma3nForCausalLM._from_config(hc.data["text_config"], dtype=torch.float32).eval()
        # The layers which share keys and values have, in checkpoints, parameters without use.
        loads(hm, {k.replace("model.language_model.", "model."): v for k, v in clone(hs).items()}, "exported Gemma 3n", r"self_attn\.(k_proj|v_proj|k_norm)\.")
    else:
        cls = getattr(transformers, hc.arch)
        if c["file"]:
            d = Path(tempfile.mkdtemp(prefix="m01_"))
            try:
                save_hugging_face_model(d / "x", clone(hs), hc)
                hm, info = cls.from_pretrained(d / "x", output_loading_info=True, dtype=torch.float32)
                hm.eval()
                bad = {k: v for k, v in info.items() if v}
                expect(not bad, f"Transformers on the saved model: {bad}")
                # And fairseq2 on the saved model.
                got = family_of(f).load_custom_model(d / "x", cfg, create_fake_gangs(CPU), torch.float32, False, False, None)
                same_state(got.state_dict(), want, "model loaded from the saved files")
            finally:
                shutil.rmtree(d)
        else:
            hcfg = getattr(transformers, hc.kls_name)(**hc.data)
            hm = cls._from_config(hcfg, dtype=torch.float32).eval()
            expect_eq(bool(hcfg.tie_word_embeddings), cfg.tied_embeddings, "tied embeddings")
            loads(hm, clone(hs), f"exported {f}")
            if cfg.tied_embeddings:
                hm.tie_weights()
    with torch.no_grad():
        theirs = hm(input_ids=tokens).logits
    close(ours, theirs, f"logits of {f} and of its export")
    # Back, from what was exported and from what Transformers holds.
    config = models.make_config(f, c["c"])
    back = BACK[f](clone(hs), config)
    same_up_to_ties(m, back, want, "exported and converted back")
    if f != "gemma3n":
        back = BACK[f](clone(hm.state_dict()), config)
        same_up_to_ties(m, back, want, "converted from the state of Transformers' model")
    ctx.label(f, hc.kls_name, "tied" if cfg.tied_embeddings else "untied", "files" if c["file"] and f != "gemma3n" else "memory")
    ctx.nontrivial(tokens.shape[1] > 2)


def same_up_to_ties(m, got, want, what):
    extra = set(got) - set(want)
    expect(not extra, f"{what}: unknown parameters {sorted(extra)[:5]}")
    for k, w in want.items():
        if k in got:
            expect(tuple(got[k].shape) == tuple(w.shape) and torch.equal(got[k], w), f"{what}: {k} has other values")
    # Loading must be enough to get the model back.
    for p in m.parameters():
        with torch.no_grad():
            p.fill_(7.0)
    set_model_state(m, list(got.items()), NOOP_PROGRESS_REPORTER)
    same_state(m.state_dict(), want, what)


def family_of(name):
    from fairseq2.models import ModelFamily
    from fairseq2.runtime.lookup import Lookup

    return get_dependency_resolver().resolve(ModelFamily, key=name)


# ---- the audio tower of Gemma 3n


@st.composite
def audio_cases(draw):
    h = draw(st.sampled_from([1, 2]))
    return dict(
        a=dict(
            vocab_size=5, vocab_offset=20, input_feat_size=draw(st.sampled_from([8, 13])), hidden_size=h * draw(st.sampled_from([4, 6])),
            conf_num_hidden_layers=draw(st.integers(1, 2)), conf_num_attention_heads=h, conf_conv_kernel_size=draw(st.sampled_from([3, 5])),
            conf_attention_chunk_size=draw(st.integers(2, 4)), conf_attention_context_left=draw(st.sampled_from([1, 2, 3, 4, 6])),
            conf_attention_context_right=draw(st.sampled_from([0, 0, 1, 2])), conf_attention_logit_cap=draw(st.sampled_from([5.0, 50.0])),
            conf_reduction_factor=draw(st.sampled_from([1, 2, 4])), conf_residual_weight=draw(st.sampled_from([0.5, 0.25])),
            sscp_conv_channel_size=draw(st.sampled_from([(4, 2), (6, 3)])), sscp_conv_group_norm_eps=draw(st.sampled_from([1e-3, 1e-1])),
            sscp_conv_kernel_size=draw(st.sampled_from([((3, 3), (3, 3)), ((5, 3), (3, 5))])), sscp_conv_stride_size=draw(st.sampled_from([((2, 2), (2, 2)), ((1, 2), (2, 1))])),
                    ),
        t=draw(st.integers(8, 40)), n=draw(st.integers(1, 2)), seed=draw(st.integers(0, 2**31)),
    )


def audio(ctx, c):
    a = Gemma3nAudioConfig(**c["a"])
    cfg = Gemma3nConfig(model_dim=8, max_seq_len=40, vocab_size=25, num_layers=2, num_attn_heads=2, num_key_value_heads=1, head_dim=4, ffn_inner_dim=8, altup_hidden_dim=8,
                        num_kv_shared_layers=0, vocab_size_per_layer_input=20, hidden_size_per_layer_input=4, laurel_rank=2, audio_config=a)
    m = models.randomise(create_gemma3n_model(cfg), c["seed"] % 100003).eval()
    want = clone(m.state_dict())
    e = export_gemma3n(clone(want), cfg)
    ac, tc = e.config["audio_config"], e.config["text_config"]
    tower = Gemma3nAudioEncoder._from_config(ac, dtype=torch.float32).eval()
    embed = Gemma3nMultimodalEmbedder(ac, tc).eval()
    for mod, prefix in ((tower, "model.audio_tower."), (embed, "model.embed_audio.")):
        loads(mod, {k[len(prefix):]: v for k, v in clone(e.state_dict).items() if k.startswith(prefix)}, prefix)
    g = torch.Generator().manual_seed(c["seed"])
    x = torch.randn(c["n"], c["t"], a.input_feat_size, generator=g)
    with torch.no_grad():
        ours = m.audio_tower(x)
        o = tower(x, torch.zeros(c["n"], c["t"], dtype=torch.bool))
        theirs = embed(inputs_embeds=o.last_hidden_state if hasattr(o, "last_hidden_state") else o[0])
        close(ours, theirs, "outputs of the audio tower and of its export")
        ids = torch.arange(5)[None]
        close(m.audio_tower.embedder(ids, is_soft=False), embed(input_ids=ids + a.vocab_offset), "embeddings of audio tokens")
    same_up_to_ties(m, convert_gemma3n_state_dict(clone(e.state_dict), cfg), want, "exported and converted back")
    # Towers that are not integrated are left out, and so is the audio tower where not configured.
    sd = {**clone(e.state_dict), "model.vision_tower.x": torch.zeros(1), "model.embed_vision.y": torch.zeros(1), "model.embed_audio.embedding_post_projection_norm.weight": torch.ones(())}
    same_up_to_ties(m, convert_gemma3n_state_dict(dict(sd), cfg), want, "converted with a vision tower")
    text = convert_gemma3n_state_dict(dict(sd), dataclasses.replace(cfg, audio_config=None))
    expect_eq(sorted(text), sorted(k for k in want if not k.startswith("audio_tower.") and k in convert_gemma3n_state_dict(clone(e.state_dict), cfg)), "parameters of the text model")
    ctx.nontrivial(ours.shape[1] > 1)


# ---- formats of other libraries, written from the names that those give to the same parameters


def rules(sd, table, heads=()):
    """Renames keys: of each table, the first rule that applies."""
    out = {}
    for k, v in sd.items():
        n = k
        for a, b in table:
            r = re.sub(a, b, n)
            if r != n:
                n = r
                break
        expect(n not in out, "harness: two parameters with one name")
        out[n] = v
    return out


def T(prefix_fs2, prefix, pairs):
    return [(rf"^{prefix_fs2}\.(\d+)\.{re.escape(a)}", rf"{prefix}.\1.{b}") for a, b in pairs]


FS_ATTN = [("self_attn.output_proj.", "self_attn.out_proj.")]
FS_FFN = [("ffn.inner_proj.", "fc1."), ("ffn.output_proj.", "fc2."), ("ffn_layer_norm.", "final_layer_norm.")]
FS_DEC = [("encoder_decoder_attn.output_proj.", "encoder_attn.out_proj."), ("encoder_decoder_attn_layer_norm.", "encoder_attn_layer_norm."), ("encoder_decoder_attn.", "encoder_attn.")]
CONFORMER = [
    ("ffn1_layer_norm.", "ffn1.layer_norm."), ("ffn1.inner_proj.", "ffn1.w_1."), ("ffn1.output_proj.", "ffn1.w_2."),
    ("ffn2_layer_norm.", "ffn2.layer_norm."), ("ffn2.inner_proj.", "ffn2.w_1."), ("ffn2.output_proj.", "ffn2.w_2."),
    ("self_attn.q_proj.", "self_attn.linear_q."), ("self_attn.k_proj.", "self_attn.linear_k."), ("self_attn.v_proj.", "self_attn.linear_v."),
    ("self_attn.output_proj.", "self_attn.linear_out."), ("self_attn.sdpa.r_proj.", "self_attn.linear_pos."), ("self_attn.sdpa.u_bias", "self_attn.pos_bias_u"),
    ("self_attn.sdpa.v_bias", "self_attn.pos_bias_v"), ("conv_layer_norm.", "conv_module.layer_norm."), ("conv.", "conv_module."), ("layer_norm.", "final_layer_norm."),
]
S2T_DEC = [*T("decoder.layers", "decoder.layers", FS_ATTN + FS_DEC + FS_FFN), (r"^decoder_frontend\.embed\.", "decoder.embed_tokens."), (r"^final_proj\.", "decoder.output_projection.")]

NLLB = [
    *T("encoder.layers", "encoder.layers", FS_ATTN + FS_FFN), (r"^encoder_frontend\.embed\.", "encoder.embed_tokens."),
    (r"^encoder_frontend\.layer_norm\.", "encoder.layernorm_embedding."), (r"^decoder_frontend\.layer_norm\.", "decoder.layernorm_embedding."), *S2T_DEC,
]
S2T = [*T("encoder.layers", "encoder.transformer_layers", [*FS_ATTN, *FS_FFN, ("", "")]), (r"^encoder_frontend\.feature_extractor\.layers\.(\d+)\.conv\.", r"encoder.subsample.conv_layers.\1."), *S2T_DEC]
S2TC = [*T("encoder.layers", "encoder.conformer_layers", [*CONFORMER, ("", "")]), (r"^encoder_frontend\.feature_extractor\.layers\.(\d+)\.conv\.", r"encoder.subsample.conv_layers.\1."), (r"^encoder_frontend\.proj\.", "encoder.linear."), *S2T_DEC]
W2V_FRONT = [
    (r"^encoder_frontend\.pos_encoder\.conv\.", "encoder.pos_conv.0."), (r"^encoder_frontend\.pos_encoder\.layers\.(\d+)\.conv\.", r"encoder.pos_conv.\1.0."),
    (r"^encoder_frontend\.feature_extractor\.layers\.(\d+)\.conv\.", r"feature_extractor.conv_layers.\1.0."), (r"^encoder_frontend\.feature_extractor\.layers\.(\d+)\.layer_norm\.", r"feature_extractor.conv_layers.\1.2.1."),
    (r"^encoder_frontend\.feature_extractor\.layers\.0\.group_norm\.", "feature_extractor.conv_layers.0.2."), (r"^encoder_frontend\.post_extract_layer_norm\.", "layer_norm."),
    (r"^encoder_frontend\.model_dim_proj\.", "post_extract_proj."), (r"^encoder_frontend\.layer_norm\.", "encoder.layer_norm."), (r"^masker\.temporal_mask_embed", "mask_emb"),
    (r"^quantizer\.entries", "quantizer.vars"), (r"^quantizer\.entry_proj\.", "quantizer.weight_proj."), (r"^final_target_proj\.", "project_q."),
]
W2V = [*T("encoder.layers", "encoder.layers", FS_ATTN + FS_FFN), *W2V_FRONT]
W2VB = [*T("encoder.layers", "encoder.layers", CONFORMER), *W2V_FRONT]
REF = [
    *T("decoder.layers", "layers", [("self_attn.q_proj.", "attention.wq."), ("self_attn.k_proj.", "attention.wk."), ("self_attn.v_proj.", "attention.wv."), ("self_attn.output_proj.", "attention.wo."), ("self_attn_layer_norm.", "attention_norm."),
                                    ("ffn.gate_proj.", "feed_forward.w1."), ("ffn.output_proj.", "feed_forward.w2."), ("ffn.inner_proj.", "feed_forward.w3."), ("ffn_layer_norm.", "ffn_norm.")]),
    (r"^decoder\.layer_norm\.", "norm."), (r"^decoder_frontend\.embed\.", "tok_embeddings."), (r"^final_proj\.", "output."),
]
L4 = [
    *T("decoder.layers", "layers", [("self_attn.output_proj.", "attention.wo."), ("self_attn_layer_norm.weight", "attention.wqkv.layer_norm_weight"), ("ffn.gate_proj.", "feed_forward.w1."), ("ffn.output_proj.weight", "feed_forward.mlp.fc2_weight"), ("ffn.inner_proj.", "feed_forward.w3."),
                                    ("ffn.router", "feed_forward.router_DE"), ("ffn.shared_expert.gate_proj.", "feed_forward.w_in_shared_FD."), ("ffn.shared_expert.inner_proj.", "feed_forward.w_swiglu_FD."),
                                    ("ffn.shared_expert.output_proj.", "feed_forward.w_out_shared_DF."), ("ffn.experts.gate_proj", "feed_forward.experts.moe_w_in_eD_F"), ("ffn.experts.inner_proj", "feed_forward.experts.moe_w_swiglu_eD_F"), ("ffn.experts.output_proj", "feed_forward.experts.moe_w_out_eF_D")]),
    (r"^decoder\.layer_norm\.", "norm."), (r"^decoder_frontend\.embed\.", "tok_embeddings."), (r"^final_proj\.", "output."),
]
JEPA = [
    *T("encoder.layers", "module.backbone.blocks", [("self_attn.output_proj.", "attn.proj."), ("self_attn_layer_norm.", "norm1."), ("ffn.inner_proj.", "mlp.fc1."), ("ffn.output_proj.", "mlp.fc2."), ("ffn_layer_norm.", "norm2.")]),
    (r"^encoder\.layer_norm\.", "module.backbone.norm."), (r"^encoder_frontend\.feature_extractor\.conv\.", "module.backbone.patch_embed.proj."),
]


def jepa_model(c):
    return create_jepa_model(JepaConfig(encoder_config=JepaEncoderConfig(**c)))


@st.composite
def jepa_config(draw):
    nd = draw(st.sampled_from([2, 3]))
    h = draw(st.sampled_from([1, 2]))
    patch = tuple(draw(st.integers(1, 3)) for _ in range(nd))
    return dict(model_dim=12 * h, num_encoder_attn_heads=h, num_input_channels=draw(st.integers(1, 3)), patch_dims=patch, input_dims=tuple(p * draw(st.integers(1, 3)) for p in patch), num_encoder_layers=draw(st.integers(1, 3)), qkv_bias=draw(st.booleans()))


@st.composite
def w2v_config(draw, kind):
    c = draw(models.w2v2_encoder_config())
    # fairseq has one encoder.layer_norm: before the layers or behind them.
    c["layer_norm_features"] = kind != "w2vbert" and c["norm_order"] == "POST"
    if kind == "w2vbert":
        while_fb = dict(use_fbank=True, num_fbank_channels=draw(st.sampled_from([2, 3])), fbank_stride=draw(st.sampled_from([1, 2])), sample_fbank_every_k=1)
        c.pop("feature_extractor_layer_descs", None)
        c.update(while_fb, feature_dim=while_fb["num_fbank_channels"] * while_fb["fbank_stride"], use_conformer=True, depthwise_conv_kernel_size=3, norm_order="POST", num_encoder_layers=2, layer_drop_p=0.0,
                 pos_encoder_type=draw(st.sampled_from(["conv", "relative", "rotary"])), pos_encoder_depth=1)
    else:
        for k in ("num_fbank_channels", "fbank_stride", "sample_fbank_every_k"):
            c.pop(k, None)
        c.update(use_fbank=False, use_conformer=False, depthwise_conv_kernel_size=0, pos_encoder_type="conv")
        c.setdefault("feature_extractor_layer_descs", [(c["feature_dim"], 3, 2)] * draw(st.integers(1, 3)))
        if kind == "wav2vec2_asr":
            c["pos_encoder_depth"] = 1
    return c


def w2v_model(kind, c):
    ec = models.make_config("w2v2_encoder", c)
    if kind == "wav2vec2_asr":
        cfg = Wav2Vec2AsrConfig(encoder_config=ec, target_vocab_size=V)
        return cfg, create_wav2vec2_asr_model(cfg)
    cfg = Wav2Vec2Config(encoder_config=ec, final_dim=4, quantized_dim=6, num_codebooks=2, num_codebook_entries=3)
    if kind == "wav2vec2":
        return cfg, Wav2Vec2Factory(cfg).create_model()
    cfg = W2VBertConfig(w2v2_config=cfg, num_bert_encoder_layers=1, num_target_codebooks=1)
    return cfg, W2VBertFactory(cfg).create_model()


FORMATS = ["llama", "mistral", "llama4", "nllb", "s2t_transformer", "s2t_conformer", "wav2vec2", "wav2vec2_asr", "w2vbert", "jepa"]


@st.composite
def format_cases(draw, names):
    f = draw(st.sampled_from(names))
    if f in ("wav2vec2", "wav2vec2_asr", "w2vbert"):
        c = draw(w2v_config(f))
    elif f == "jepa":
        c = draw(jepa_config())
    else:
        c = draw((models.CLM | models.S2S)[f]())
    return dict(f=f, c=c, seed=draw(st.integers(0, 2**31)), wrap=draw(st.booleans()), noise=draw(st.booleans()), tp=draw(st.sampled_from([1, 2, 4])), key=draw(st.sampled_from(["target_encoder", "encoder", "both"])))


def formats(ctx, c):
    f, d = c["f"], c["c"]
    noise = {"encoder.version": torch.ones(1), "decoder.version": torch.ones(1), "encoder.embed_positions._float_tensor": torch.ones(1), "decoder.embed_positions._float_tensor": torch.ones(1)}
    z = torch.zeros(())
    if f in ("wav2vec2", "wav2vec2_asr", "w2vbert"):
        cfg, m = w2v_model(f, d)
        models.randomise(m, c["seed"] % 100003)
        m.eval()
        for k, b in m.named_buffers():
            if k.endswith("num_updates"):
                b.zero_()
        want = clone(m.state_dict())
        if f == "wav2vec2":
            src = rules(want, W2V)
        elif f == "wav2vec2_asr":
            src = {("w2v_encoder.proj." + k[11:] if k.startswith("final_proj.") else "w2v_encoder.w2v_model." + k): v for k, v in rules(want, W2V).items()}
        else:
            inner = {k[len("w2v2_model."):]: v for k, v in want.items() if k.startswith("w2v2_model.")}
            src = rules(inner, W2VB)
            src.update({k.replace("final_bert_proj.", "mlm_proj."): v for k, v in want.items() if not k.startswith("w2v2_model.")})
        src.pop("quantizer.num_updates", None)
        conv = {"wav2vec2": convert_wav2vec2_state_dict, "wav2vec2_asr": convert_wav2vec2_asr_state_dict, "w2vbert": convert_w2vbert_state_dict}[f]
    elif f == "jepa":
        cfg, m = JepaConfig(encoder_config=JepaEncoderConfig(**d)), jepa_model(d)
        models.randomise(m, c["seed"] % 100003)
        want = clone(m.state_dict())
        src = {}
        for k, v in rules(want, JEPA).items():
            if (r := re.match(r"encoder\.layers\.(\d+)\.self_attn\.([qkv])_proj\.(weight|bias)$", k)) is not None:
                if r[2] == "q":
                    src[f"module.backbone.blocks.{r[1]}.attn.qkv.{r[3]}"] = torch.cat([want[k.replace("q_proj", f"{x}_proj")] for x in "qkv"])
            else:
                src[k] = v
        noise = {"module.backbone.pos_embed": torch.ones(1)}
        conv = convert_jepa_state_dict
    else:
        cfg, m = made(f, d, c["seed"])
        want = clone(m.state_dict())
        if f in ("llama", "mistral"):
            src = rules(want, REF)
            noise = {"rope.freqs": torch.ones(2)} if f == "llama" else {}
            conv = {"llama": convert_llama_state_dict, "mistral": convert_mistral_state_dict}[f]
            if f == "llama":
                same_state(convert_to_ref_llama_state_dict(clone(want)), src, "written in the reference format")
        elif f == "llama4":
            return llama4(ctx, c, cfg, m, want)
        else:
            src = rules(want, {"nllb": NLLB, "s2t_transformer": S2T, "s2t_conformer": S2TC}[f])
            conv = {"nllb": convert_nllb_state_dict, "s2t_transformer": convert_s2t_transformer_state_dict, "s2t_conformer": convert_s2t_conformer_state_dict}[f]
            if f == "nllb":
                # Control symbols come in another order: (PAD, UNK, BOS, EOS) here, (BOS, PAD, EOS, UNK) there.
                e = want["final_proj.weight"]
                for k in ("encoder.embed_tokens.weight", "decoder.embed_tokens.weight", "decoder.output_projection.weight"):
                    src[k] = e[torch.tensor([2, 0, 3, 1, *range(4, V)])].clone()
    src = clone(src)
    if c["noise"]:
        src.update(noise)
    given = src
    if f == "jepa":
        other = {k: v + 1 for k, v in src.items()}
        given = {"target_encoder": {"target_encoder": src}, "encoder": {"encoder": src}, "both": {"encoder": other, "target_encoder": src}}[c["key"]]
    elif c["wrap"] and f != "mistral":
        given = {"model": src}
    got = conv(given, cfg)
    same_up_to_ties(m, got, want, f"{f} converted")
    if f != "jepa":
        # A state of fairseq2's own is left alone, with or without a prefix.
        same_up_to_ties(m, conv(clone(want), cfg), want, f"{f} of fairseq2's own")
        if f not in ("llama", "mistral"):
            same_up_to_ties(m, conv({"module." + k: v.clone() for k, v in want.items()}, cfg), want, f"{f} of fairseq2's own with a prefix")
    ctx.label(f)
    ctx.nontrivial(len(want) > 4)


def llama4(ctx, c, cfg, m, want):
    h, kv = cfg.num_attn_heads, cfg.num_key_value_heads or cfg.num_attn_heads
    tp = max(t for t in (1, 2, 4) if t <= c["tp"] and h % t == 0 and kv % t == 0)
    src = rules(want, L4)
    parts = []
    for r in range(tp):
        part = {}
        for k, v in src.items():
            if (g := re.match(r"decoder\.layers\.(\d+)\.self_attn\.([qkv])_proj\.weight$", k)) is not None:
                if g[2] == "q":
                    part[f"layers.{g[1]}.attention.wqkv.weight"] = torch.cat([want[k.replace("q_proj", f"{x}_proj")].chunk(tp)[r] for x in "qkv"])
            else:
                part[k] = v
        part = clone(part)
        if c["noise"]:
            part.update({"rope.freqs": torch.ones(1), "layers.0.attention.wo._extra_state": torch.ones(1), "vision_encoder.x": torch.ones(1), "layers.0.feed_forward.expert_activation_DE": torch.ones(1), "layers.0.feed_forward.running_stats_3E": torch.ones(1)})
        parts.append(convert_llama4_state_dict(part, cfg))
    got = {}
    for k in parts[0]:
        got[k] = torch.cat([p[k] for p in parts]) if re.search(r"\.[qkv]_proj\.weight$", k) and "self_attn" in k else parts[0][k]
    same_up_to_ties(m, got, want, "llama4 converted")
    raises(ValueError, lambda: convert_llama4_state_dict({"lm_head.weight": torch.zeros(1)}, cfg), "a Hugging Face checkpoint of Llama 4")
    ctx.label("llama4", f"of {tp} shards")
    ctx.nontrivial(tp > 1 or cfg.num_layers > 1)


# ---- the architectures that come with fairseq2


def arch_list():
    return sorted((f, a) for f in ("llama", "qwen", "olmo", "gemma3n") for a in family_of(f).get_archs())


@st.composite
def arch_cases(draw):
    return dict(at=draw(st.sampled_from(arch_list())))


def archs(ctx, c):
    f, a = c["at"]
    fam = family_of(f)
    cfg = fam.maybe_get_arch_config(a)
    # The shapes do not depend on the number of layers, but its pattern does.
    cfg.num_layers = min(cfg.num_layers, 12)
    if f == "gemma3n":
        cfg.num_kv_shared_layers = 2
        cfg.audio_config = None
    if f == "olmo" and cfg.layer_types is not None:
        cfg.layer_types = cfg.layer_types[: cfg.num_layers]
    import importlib

    with torch.device("meta"):
        m = getattr(importlib.import_module(f"fairseq2.models.{f}.factory"), f"create_{f}_model")(cfg)
        sd = dict(m.state_dict())
        hs, hc = exported(f, sd, cfg)
        if f == "gemma3n":
            hm = transformers.Gemma3nForCausalLM._from_config(hc.data["text_config"])
            hs = {k.replace("model.language_model.", "model."): v for k, v in hs.items()}
        else:
            hm = getattr(transformers, hc.arch)._from_config(getattr(transformers, hc.kls_name)(**hc.data))
    want = {k: tuple(v.shape) for k, v in hm.state_dict().items()}
    got = {k: tuple(v.shape) for k, v in hs.items()}
    if hm.config.tie_word_embeddings:
        want.pop("lm_head.weight", None)
        got.pop("lm_head.weight", None)
    if f == "gemma3n":
        got = {k: v for k, v in got.items() if k in want or not re.search(r"self_attn\.(k_proj|v_proj|k_norm)\.", k)}
    expect_eq(got, want, f"names and shapes of {a}")
    ctx.label(f, a)
    ctx.nontrivial()


# ---- the functions below them


@st.composite
def map_cases(draw):
    word = st.sampled_from(["a", "bb", "c_d", "e1", "f2g", "hh.i", "k.l_m"])
    n = draw(st.integers(1, 6))
    rows = []
    for i in range(n):
        rows.append((draw(word), draw(word), draw(st.booleans()), draw(st.booleans()), draw(st.lists(st.integers(0, 120), min_size=1, max_size=3, unique=True))))
    return dict(rows=rows, other=draw(st.lists(word, max_size=2)))


def maps(ctx, c):
    key_map, state, want = {}, {}, {}
    for i, (a, b, group, anchor, idx) in enumerate(c["rows"]):
        # The first components make the rules apply to distinct keys.
        src, dst = f"s{i}x.{a}", f"t{i}y.{b}"
        pat = src.replace(".", r"\.")
        if group:
            key_map[f"^{pat}\\.([0-9]+)\\.w\\."] = rf"{dst}.\1.v."
            for j in idx:
                state[f"{src}.{j}.w.weight"] = want[f"{dst}.{j}.v.weight"] = object()
        else:
            key_map[("^" if anchor else "") + pat + r"\."] = f"{dst}."
            state[f"{src}.bias"] = want[f"{dst}.bias"] = object()
    for i, o in enumerate(c["other"]):
        state[f"z{i}.{o}"] = want[f"z{i}.{o}"] = object()
    before = dict(state)
    got = convert_state_dict(state, key_map)
    expect_eq(got, want, "converted")
    expect_eq(state, before, "the given state")
    expect_eq(convert_state_dict(got, create_reverse_key_map(key_map)), before, "converted back")
    ctx.nontrivial(len(state) > 2)


class Node(torch.nn.Module):
    pass


@st.composite
def set_cases(draw):
    n = draw(st.integers(1, 6))
    ps = [dict(at=draw(st.sampled_from(["", "a", "b", "a.c", "b.d.e"])), shape=draw(st.lists(st.integers(0, 3), max_size=2)), kind=draw(st.sampled_from(["param", "param", "buffer", "temp"])), tie=draw(st.one_of(st.none(), st.integers(0, n - 1)))) for _ in range(n)]
    return dict(ps=ps, order=draw(st.randoms(use_true_random=False)).random(), drop=draw(st.lists(st.integers(0, n - 1), max_size=2)), extra=draw(st.integers(0, 2)) if draw(st.booleans()) else 0, shape=draw(st.one_of(st.none(), st.none(), st.integers(0, n - 1))), dtype=draw(st.sampled_from(["float32", "float64", "float16"])))


def setting(ctx, c):
    import random

    root = Node()

    def at(path):
        x = root
        for p in path.split(".") if path else []:
            if not hasattr(x, p):
                x.add_module(p, Node())
            x = getattr(x, p)
        return x

    objs, names = [], []
    for i, p in enumerate(c["ps"]):
        mod, name = at(p["at"]), f"p{i}"
        o = torch.full(p["shape"], -1.0)
        if p["kind"] == "param":
            o = torch.nn.Parameter(o)
            if p["tie"] is not None and p["tie"] < i and c["ps"][p["tie"]]["kind"] == "param":
                o = objs[p["tie"]]
            mod.register_parameter(name, o)
        else:
            mod.register_buffer(name, o, persistent=p["kind"] == "buffer")
        objs.append(o)
        names.append(f"{p['at']}.{name}" if p["at"] else name)
    state = {n: o for n, o, p in zip(names, objs, c["ps"]) if p["kind"] != "temp"}
    g = torch.Generator().manual_seed(7)
    values = {id(o): torch.randint(0, 50, o.shape, generator=g).to(getattr(torch, c["dtype"])) for o in objs}
    ckpt = {n: values[id(o)] for n, o in state.items()}
    for i in c["drop"]:
        ckpt.pop(names[i], None)
    bad = None
    if c["shape"] is not None and names[c["shape"]] in ckpt:
        bad = names[c["shape"]]
        t = ckpt[bad]
        ckpt[bad] = torch.zeros((*t.shape, 2))
    items = list(ckpt.items()) + [(f"nowhere.{i}", torch.zeros(1)) for i in range(c["extra"])]
    random.Random(c["order"]).shuffle(items)
    loaded = {id(state[n]) for n in ckpt if n != bad}
    missing = [n for n, o in state.items() if n not in ckpt and id(o) not in loaded]
    fails = bool(missing or bad or c["extra"])
    try:
        set_model_state(root, iter(items), NOOP_PROGRESS_REPORTER)
    except ModelCheckpointMismatchError as ex:
        expect(fails, f"refused a checkpoint that fits: {ex}")
        for n in missing + ([bad] if bad else []) + [f"nowhere.{i}" for i in range(c["extra"])]:
            expect(n in str(ex), f"the message {str(ex)!r} does not name {n}")
        for n in state:
            if n not in missing and n != bad:
                expect(not re.search(rf"(^|[\s,`]){re.escape(n)}($|[\s,`])", str(ex)), f"the message {str(ex)!r} names {n}, which fits")
    else:
        expect(not fails, f"took a checkpoint with missing {missing}, misshaped {bad}, {c['extra']} unexpected")
        for n, o in state.items():
            expect(torch.equal(o.detach().double(), values[id(o)].double()), f"{n} was not set")
            expect(o.dtype == torch.float32, f"{n} changed its type")
    ctx.label("refused" if fails else "set")
    ctx.nontrivial(len(state) > 1)


main(Prop(
    "M01",
    [
        Arm("llama", lambda: hf_cases("llama"), hf, quick=250, thorough=4000, timeout=60),
        Arm("qwen", lambda: hf_cases("qwen"), hf, quick=250, thorough=4000, timeout=60),
        Arm("olmo", lambda: hf_cases("olmo"), hf, quick=250, thorough=4000, timeout=60),
        Arm("gemma3n", lambda: hf_cases("gemma3n"), hf, quick=200, thorough=3000, timeout=60),
        Arm("gemma3n_audio", audio_cases, audio, quick=60, thorough=1200, timeout=60),
        Arm("fairseq", lambda: format_cases(["nllb", "s2t_transformer", "s2t_conformer", "wav2vec2", "wav2vec2_asr", "w2vbert"]), formats, quick=500, thorough=8000, timeout=60),
        Arm("reference", lambda: format_cases(["llama", "mistral", "llama4", "jepa"]), formats, quick=500, thorough=8000, timeout=60),
        Arm("archs", arch_cases, archs, quick=40, thorough=150, timeout=120),
        Arm("maps", map_cases, maps, quick=300, thorough=6000),
        Arm("setting", set_cases, setting, quick=600, thorough=12000),
    ],
    rule="an input of more than two tokens, a state of more than a few parameters, several output frames or shards",
    assumptions=[
        "Transformers is the reference for LLaMA, Qwen, OLMO and Gemma 3n; of Gemma 3n, the text model and the audio tower are compared separately since its vision tower needs a package that is not installed",
        "configurations of Qwen that neither Qwen 2.5 nor Qwen 3 has (biases with norms) have no counterpart and are not generated; the clipping of the audio tower stays at its inert default, and its epsilon at the one that Transformers uses whatever the configuration",
        "the formats of fairseq and of the reference LLaMA, Mistral, Llama 4 and JEPA are written by the check from their published parameter names; dense Llama 4 layers with a fused first projection are not among them",
    ],
))

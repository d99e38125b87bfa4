"""Tiny random models of every family, with all parameters randomised."""
from __future__ import annotations

import importlib
import math

import torch
from hypothesis import strategies as st

VOCAB = 23


def _fam(name, kls, fn, mod=None):
    m = importlib.import_module(f"fairseq2.models.{mod or name}")
    cfg = importlib.import_module(f"fairseq2.models.{mod or name}.config")
    fac = importlib.import_module(f"fairseq2.models.{mod or name}.factory")
    return getattr(cfg, kls), getattr(fac, fn)


@st.composite
def heads(draw, gqa=True, even=True):
    h = draw(st.sampled_from([1, 2, 4]))
    kv = draw(st.sampled_from([x for x in (1, 2, 4) if h % x == 0])) if gqa else h
    d = draw(st.sampled_from([2, 4, 6]))
    return h, kv, d


@st.composite
def llama_config(draw, scaled=True):
    h, kv, d = draw(heads())
    tied = draw(st.booleans())
    return dict(
        model_dim=h * d, max_seq_len=draw(st.sampled_from([24, 40])), vocab_size=VOCAB,
        pad_idx=draw(st.sampled_from([None, 0, 3])), tied_embeddings=tied, num_layers=draw(st.integers(1, 3)),
        num_attn_heads=h, num_key_value_heads=kv, ffn_inner_dim=draw(st.sampled_from([8, 12])),
        ffn_inner_dim_scale=draw(st.sampled_from([1.0, 2 / 3])), ffn_inner_dim_multiplier=draw(st.sampled_from([1.0, 1.3])),
        ffn_inner_dim_multiple_of=draw(st.sampled_from([1, 4])), rope_theta=draw(st.sampled_from([100.0, 10000.0])),
        use_scaled_rope=draw(st.booleans()) if scaled else False, rope_scale=dict(
            factor=draw(st.sampled_from([2.0, 8.0])), frequency_factors=(1.0, 4.0),
            original_context_length=draw(st.sampled_from([8, 64]))),
        init_std_scale=draw(st.sampled_from(["none", "layer", "stack"])), shard_embed_dim=not tied,
    )


@st.composite
def qwen_config(draw):
    h, kv, d = draw(heads())
    hd = draw(st.sampled_from([None, 4, 6]))
    return dict(
        model_dim=h * d, max_seq_len=draw(st.sampled_from([24, 40])), vocab_size=VOCAB, tied_embeddings=draw(st.booleans()),
        num_layers=draw(st.integers(1, 3)), num_attn_heads=h, num_key_value_heads=kv, head_dim=hd,
        qkv_proj_bias=draw(st.booleans()), q_norm=draw(st.booleans()), k_norm=draw(st.booleans()),
        ffn_inner_dim=draw(st.sampled_from([8, 10])), rope_theta=draw(st.sampled_from([100.0, 10000.0])),
    )


@st.composite
def mistral_config(draw):
    h, kv, d = draw(heads())
    return dict(
        model_dim=h * d, max_seq_len=draw(st.sampled_from([24, 40])), vocab_size=VOCAB,
        pad_idx=draw(st.sampled_from([None, 0])), attn_window_len=draw(st.sampled_from([1, 2, 3, 5, 8, 64])),
        num_layers=draw(st.integers(1, 3)), num_attn_heads=h, num_key_value_heads=kv,
        ffn_inner_dim=draw(st.sampled_from([8, 10])),
    )


@st.composite
def olmo_config(draw):
    h, kv, d = draw(heads())
    n = draw(st.integers(1, 5))
    sw = draw(st.sampled_from([None, 1, 2, 3, 5, 64]))
    types = None
    if sw is not None and draw(st.booleans()):
        types = draw(st.lists(st.sampled_from(["sliding_attention", "full_attention"]), min_size=n, max_size=n))
    yarn = None
    if sw is not None and draw(st.booleans()):
        yarn = dict(scale_factor=draw(st.sampled_from([2.0, 8.0])), original_max_seq_len=draw(st.sampled_from([8, 16])),
                    beta_fast=draw(st.sampled_from([32.0, 4.0])), truncate=draw(st.booleans()),
                    mscale=draw(st.sampled_from([1.0, 0.5])), mscale_all_dim=draw(st.sampled_from([0.0, 1.0])))
    return dict(
        model_dim=h * d, max_seq_len=draw(st.sampled_from([24, 40])), vocab_size=VOCAB, pad_idx=draw(st.sampled_from([0, 3])),
        bos_token_id=None, eos_token_id=1, tied_embeddings=draw(st.booleans()), num_layers=n, num_attn_heads=h,
        num_key_value_heads=kv, ffn_inner_dim=draw(st.sampled_from([8, 10])), rope_theta=draw(st.sampled_from([100.0, 10000.0])),
        sliding_window=sw, layer_types=types, yarn_scale_config=yarn, init_std_scale=draw(st.sampled_from(["none", "layer", "stack"])),
    )


@st.composite
def gemma3n_config(draw):
    h = draw(st.sampled_from([1, 2, 4]))
    kv = draw(st.sampled_from([x for x in (1, 2, 4) if h % x == 0]))
    n = draw(st.integers(2, 8))
    hd = draw(st.sampled_from([2, 4]))
    # Sources of both kinds have to come before the layers that share them.
    first = draw(st.integers(5, n)) if n > 5 else n
    return dict(
        model_dim=h * hd, max_seq_len=draw(st.sampled_from([24, 40])), vocab_size=VOCAB,
        pad_idx=draw(st.sampled_from([None, 0])), num_layers=n, num_attn_heads=h, num_key_value_heads=kv,
        head_dim=hd, ffn_inner_dim=8, altup_hidden_dim=draw(st.sampled_from([8, 10])),
        sliding_window=draw(st.sampled_from([1, 2, 3, 5, 64])), rope_theta=100.0, rope_theta_global=1000.0,
        final_logit_soft_cap=draw(st.sampled_from([3.0, 30.0])), num_kv_shared_layers=n - first, laurel_rank=2,
        altup_num_inputs=draw(st.sampled_from([2, 4])), altup_active_idx=draw(st.sampled_from([0, 1])),
        altup_correct_scale=draw(st.booleans()), vocab_size_per_layer_input=draw(st.sampled_from([VOCAB, VOCAB - 3])),
        hidden_size_per_layer_input=4,
    )


@st.composite
def llama4_config(draw):
    c = draw(llama_config(scaled=False))
    e = draw(st.sampled_from([1, 2, 4]))
    c["experts"] = dict(num_experts=e, use_shared_expert=draw(st.booleans()), capacity_factor=1.0,
                        top_k=draw(st.integers(1, e)), interleave_moe_layer_step=draw(st.integers(1, 2)))
    c["ffn_inner_dim"] = 24
    c["attention_chunk_size"] = draw(st.sampled_from([1, 2, 3, 5, 64]))
    c["use_qk_norm"] = draw(st.booleans())
    c["nope_layer_interval"] = draw(st.sampled_from([None, 1, 2, 4]))
    return c


@st.composite
def nllb_config(draw):
    h = draw(st.sampled_from([1, 2, 4]))
    h2 = draw(st.sampled_from([x for x in (1, 2, 4)]))
    return dict(
        model_dim=4 * max(h, h2), max_seq_len=draw(st.sampled_from([24, 40])), vocab_size=VOCAB, pad_idx=draw(st.sampled_from([0, 3])),
        num_encoder_layers=draw(st.integers(1, 2)), num_decoder_layers=draw(st.integers(1, 2)),
        num_encoder_attn_heads=h, num_decoder_attn_heads=h2, ffn_inner_dim=draw(st.sampled_from([8, 10])), dropout_p=0.1,
    )


@st.composite
def s2t_transformer_config(draw):
    h = draw(st.sampled_from([1, 2]))
    return dict(
        model_dim=4 * h, max_source_seq_len=64, num_fbank_channels=draw(st.sampled_from([2, 5])), max_target_seq_len=24,
        target_vocab_size=VOCAB, pad_idx=1, num_encoder_layers=draw(st.integers(1, 2)), num_decoder_layers=draw(st.integers(1, 2)),
        num_encoder_attn_heads=h, num_decoder_attn_heads=h, ffn_inner_dim=8, dropout_p=0.1,
    )


@st.composite
def s2t_conformer_config(draw):
    c = draw(s2t_transformer_config())
    c["use_relative_pos"] = draw(st.booleans())
    c["depthwise_conv_kernel_size"] = draw(st.sampled_from([1, 3, 5]))
    return c


@st.composite
def w2v2_encoder_config(draw, layer_norm_convs=None):
    h = draw(st.sampled_from([1, 2]))
    fb = draw(st.booleans())
    conf = draw(st.booleans())
    pos = draw(st.sampled_from(["conv", "relative", "rotary"] if conf else ["conv"]))
    ln = True if layer_norm_convs else (draw(st.booleans()) if layer_norm_convs is None else False)
    c = dict(
        model_dim=8 * h, max_seq_len=128, feature_dim=draw(st.sampled_from([4, 6])), use_fbank=fb,
        layer_norm_features=draw(st.booleans()), feature_extractor_bias=draw(st.booleans()),
        feature_extractor_layer_norm_convs=ln, feature_grad_scale=draw(st.sampled_from([1.0, 0.1])),
        pos_encoder_type=pos, pos_encoder_depth=draw(st.sampled_from([1, 3])) if pos == "conv" else 1,
        pos_conv_kernel_size=draw(st.sampled_from([3, 4, 7])), num_pos_conv_groups=draw(st.sampled_from([1, 2])),
        use_conformer=conf, num_encoder_layers=draw(st.integers(1, 2)), num_encoder_attn_heads=h, ffn_inner_dim=8,
        dropout_p=0.1, layer_drop_p=draw(st.sampled_from([0.0, 0.3])), norm_order=draw(st.sampled_from(["POST", "PRE"])),
        depthwise_conv_kernel_size=draw(st.sampled_from([1, 3])) if conf else 0,
    )
    if fb:
        c.update(num_fbank_channels=draw(st.sampled_from([2, 3])), fbank_stride=draw(st.sampled_from([1, 2])),
                 sample_fbank_every_k=draw(st.sampled_from([1, 2])))
        c["feature_dim"] = c["num_fbank_channels"] * c["fbank_stride"]
    else:
        c["feature_extractor_layer_descs"] = [(c["feature_dim"], draw(st.integers(1, 4)), draw(st.integers(1, 3)))
                                              for _ in range(draw(st.integers(1, 3)))]
    return c


CLM = {"llama": llama_config, "qwen": qwen_config, "mistral": mistral_config, "olmo": olmo_config,
       "gemma3n": gemma3n_config, "llama4": llama4_config}
S2S = {"nllb": nllb_config, "s2t_transformer": s2t_transformer_config, "s2t_conformer": s2t_conformer_config}


def make_config(family, c):
    c = dict(c)
    if family == "llama":
        from fairseq2.models.llama.config import LLaMAConfig, LLaMARoPEScaleConfig

        c["rope_scale"] = LLaMARoPEScaleConfig(**c["rope_scale"])
        return LLaMAConfig(**c)
    if family == "qwen":
        from fairseq2.models.qwen.config import QwenConfig

        return QwenConfig(**c)
    if family == "mistral":
        from fairseq2.models.mistral.config import MistralConfig

        return MistralConfig(**c)
    if family == "olmo":
        from fairseq2.models.olmo.config import OLMOConfig, YaRNScaleConfig

        if c["yarn_scale_config"]:
            c["yarn_scale_config"] = YaRNScaleConfig(**c["yarn_scale_config"])
        return OLMOConfig(**c)
    if family == "gemma3n":
        from fairseq2.models.gemma3n.config import Gemma3nConfig

        return Gemma3nConfig(**c)
    if family == "llama4":
        from fairseq2.models.llama4.config import Llama4Config, Llama4ExpertsConfig
        from fairseq2.models.llama.config import LLaMARoPEScaleConfig

        c["rope_scale"] = LLaMARoPEScaleConfig(**c["rope_scale"])
        c["experts"] = Llama4ExpertsConfig(**c["experts"])
        return Llama4Config(**c)
    if family == "nllb":
        from fairseq2.models.nllb.config import NllbConfig

        return NllbConfig(**c)
    if family == "s2t_transformer":
        from fairseq2.models.s2t_transformer.config import S2TTransformerConfig

        return S2TTransformerConfig(**c)
    if family == "s2t_conformer":
        from fairseq2.models.s2t_conformer.config import S2TConformerConfig

        return S2TConformerConfig(**c)
    if family == "w2v2_encoder":
        from fairseq2.models.transformer import TransformerNormOrder
        from fairseq2.models.wav2vec2.config import Wav2Vec2EncoderConfig

        c["norm_order"] = TransformerNormOrder[c["norm_order"]]
        return Wav2Vec2EncoderConfig(**c)
    raise KeyError(family)


def make_model(family, c):
    cfg = make_config(family, c)
    m = importlib.import_module(f"fairseq2.models.{family}.factory")
    return getattr(m, f"create_{family}_model")(cfg)


def randomise(m, seed, gain=1.0):
    """Gives every parameter and buffer statistic a random value; ties stay ties."""
    g = torch.Generator().manual_seed(seed)
    with torch.no_grad():
        for n, p in m.named_parameters():
            r = torch.randn(p.shape, generator=g, dtype=torch.float64)
            if p.dim() <= 1:
                v = r * 0.3 + (1.0 if n.endswith("weight") else 0.0)
            elif "embed" in n:
                v = r
            else:
                v = r * gain * math.sqrt(1.0 / max(1, p[0].numel()))
            p.copy_(v.to(p.dtype))
        for n, b in m.named_buffers():
            if n.endswith("running_mean"):
                b.copy_(torch.randn(b.shape, generator=g) * 0.3)
            elif n.endswith("running_var"):
                b.copy_(torch.rand(b.shape, generator=g) + 0.5)
    return m

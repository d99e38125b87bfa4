"""D06: tokenizers round-trip text and frame it as configured."""
import boot

boot.boot(init=True)

import base64
import functools
import json
import os
import random
import re
import shutil
import tempfile
from collections import Counter
from pathlib import Path

import torch
from harness import Arm, Prop, expect, expect_eq, main, raises
from hypothesis import strategies as st
from tokenizers import AddedToken, decoders, models, pre_tokenizers
from tokenizers import Tokenizer as Tok
from transformers import PreTrainedTokenizerFast

import fairseq2.data.tokenizers.sentencepiece as sp_mod
import fairseq2.models.nllb.tokenizer as nllb_mod
import fairseq2.models.s2t_transformer.tokenizer as s2t_mod
from fairseq2.data.tokenizers import VocabularyInfo
from fairseq2.data.tokenizers.hg import HuggingFaceTokenDecoder, HuggingFaceTokenEncoder, load_hg_token_model
from fairseq2.data.tokenizers.tiktoken import TiktokenDecoder, TiktokenEncoder, load_tiktoken_model
from fairseq2.error import NotSupportedError
from fairseq2.models.gemma3n.tokenizer import load_gemma3n_tokenizer
from fairseq2.models.hg.tokenizer import HgTokenizerConfig, load_hg_tokenizer
from fairseq2.models.llama4.tokenizer import Llama4TokenizerConfig, load_llama4_tokenizer
from fairseq2.models.llama.tokenizer import LLaMATokenizerConfig, load_llama_tokenizer
from fairseq2.models.olmo.tokenizer import OLMOTokenizerConfig, load_olmo_tokenizer
from fairseq2.models.qwen.tokenizer import QwenTokenizerConfig, load_qwen_tokenizer

CORPUS = [
    "the quick brown fox's jumped over 1234567 lazy dogs, and didn't they'll say: \"hello, world\"!\n\n",
    "Größe, déjà vu, naïve — coöperate; 日本語のテキスト 中文字符 한국어 текст 😀😃🏳️‍🌈\r\n\t  x  ",
    "def f(x):\n    return x ** 2  # comment\n" * 2,
]


@functools.cache
def vocabulary(seed: int, merges: int) -> tuple[list[bytes], list[tuple[bytes, bytes]]]:
    """All bytes in a random order and the pairs merged most often in a text."""
    rng = random.Random(seed)
    base = [bytes([i]) for i in range(256)]
    rng.shuffle(base)
    text = list(CORPUS)
    rng.shuffle(text)
    words = [[w.encode()[i : i + 1] for i in range(len(w.encode()))] for w in re.findall(r"\s?\S+|\s+", "".join(text))]
    pairs, tokens = [], list(base)
    for _ in range(merges):
        count = Counter(p for w in words for p in zip(w, w[1:]) if p[0] + p[1] not in tokens)
        if not count:
            break
        top = sorted(count.items(), key=lambda kv: (-kv[1], rng.random()))[0][0]
        pairs.append(top)
        tokens.append(top[0] + top[1])
        for w in words:
            i = 0
            while i < len(w) - 1:
                if (w[i], w[i + 1]) == top:
                    w[i : i + 2] = [top[0] + top[1]]
                i += 1
    return tokens, pairs


DIR = Path(tempfile.mkdtemp(prefix="fs2v_d06_"))


def own_dir() -> Path:
    """The arms are processes of their own."""
    d = DIR / str(os.getpid())
    d.mkdir(exist_ok=True)
    return d


texts = st.one_of(
    st.text(max_size=40),
    st.lists(st.sampled_from([w for c in CORPUS for w in re.findall(r"\s?\S+|\s+", c)] + [" ", "\n", "  ", "\t", "é", "😀", "'s", " n't", " .", " ,", "123", "\u200d", "\x00", "\u0301", "İ"]), max_size=25).map("".join),
)

vocabs = st.tuples(st.integers(0, 3), st.sampled_from([0, 20, 120]))

TT_RE = r"(?i:'s|'t|'re|'ve|'m|'ll|'d)|[^\r\n\p{L}\p{N}]?\p{L}+|\p{N}{1,3}| ?[^\s\p{L}\p{N}]+[\r\n]*|\s*[\r\n]+|\s+(?!\S)|\s+"


def tt_file(v) -> Path:
    f = own_dir() / f"tt_{v[0]}_{v[1]}.model"
    if not f.exists():
        f.write_bytes(b"".join(base64.b64encode(t) + b" " + str(i).encode() + b"\n" for i, t in enumerate(vocabulary(*v)[0])))
    return f


def pieces(text: str, specials: list[str]) -> list[str]:
    """The text cut at the special tokens in it."""
    if not specials:
        return [text]
    return [p for p in re.split("(" + "|".join(re.escape(s) for s in sorted(specials, key=len, reverse=True)) + ")", text) if p]


def check_encoder(enc, dec, skip, text, prefix, suffix, special_ids, vocab: VocabularyInfo, byte_of, added=0):
    """`special_ids`: the special tokens and their indices; `byte_of`: what an ordinary index stands for; `added`: tokens
    that the size of the vocabulary leaves out (fairseq2 reports the base vocabulary of a Hugging Face tokenizer)."""
    out = enc(text)
    expect(out.dtype == torch.int64 and out.ndim == 1, f"indices {out.dtype} {tuple(out.shape)}")
    ids = out.tolist()
    expect(all(0 <= i < vocab.size + added for i in ids), f"indices {ids} of a vocabulary of size {vocab.size} and {added} added tokens")
    for got, want in ((enc.prefix_indices, prefix), (enc.suffix_indices, suffix)):
        expect_eq(None if got is None else got.tolist(), [special_ids[t] for t in want] or None, "prefix or suffix indices")
    n, m = len(prefix), len(suffix)
    expect_eq(ids[:n], [special_ids[t] for t in prefix], "the tokens before the text")
    expect_eq(ids[len(ids) - m :] if m else [], [special_ids[t] for t in suffix], "the tokens after the text")
    body = ids[n : len(ids) - m]
    # The body spells the text.
    names = {i: t for t, i in special_ids.items()}
    spelled, got_specials = b"", []
    for i in body:
        if i in names:
            spelled += names[i].encode()
            got_specials.append(names[i])
        else:
            spelled += byte_of(i)
    expect_eq(spelled, text.encode(), "the text spelled by the indices")
    expect_eq(got_specials, [p for p in pieces(text, list(special_ids)) if p in special_ids], "special tokens in the text")
    full = "".join(prefix) + text + "".join(suffix)
    expect_eq(dec(out), full, "decoded")
    plain = "".join(p for p in pieces(text, list(special_ids)) if p not in special_ids)
    expect_eq(skip(out), plain, "decoded without special tokens")
    toks = enc.encode_as_tokens(text)
    expect_eq(len(toks), len(ids), "number of tokens")
    expect(all(isinstance(t, str) for t in toks), "tokens are strings")
    expect_eq(dec.decode_from_tokens(toks), full, "decoded from tokens")
    expect_eq(skip.decode_from_tokens(toks), plain, "decoded from tokens without special tokens")
    # Again, since encoders keep their prefix and suffix.
    expect_eq(enc(text).tolist(), ids, "encoded again")
    raises(ValueError, lambda: dec(out.unsqueeze(0)), "two-dimensional indices")
    return body


# ---- tiktoken


@st.composite
def tt_cases(draw):
    sp = draw(st.lists(st.sampled_from(["<|a|>", "<|b|>", "<|end|>", "[X]", "<|a|>b", "<pad>"]), max_size=5, unique=True))
    picks = st.lists(st.sampled_from(sp), max_size=3) if sp else st.just([])
    one = st.one_of(st.none(), st.sampled_from(sp)) if sp else st.none()
    text = draw(st.lists(st.one_of(texts, st.sampled_from(sp) if sp else texts), max_size=4).map("".join))
    return dict(v=draw(vocabs), sp=sp, prefix=draw(picks), suffix=draw(picks), named={k: draw(one) for k in ["unk", "bos", "eos", "pad", "boh", "eoh"]}, text=text)


def check_vocab(info, size, named, special_ids):
    expect_eq(info.size, size, "vocabulary size")
    for k, t in named.items():
        want = None if t is None else special_ids[t]
        if k == "pad" and t == named["eos"]:
            want = None  # Padding that cannot be told from the end.
        expect_eq(getattr(info, f"{k}_idx"), want, f"index of {k}")


def tiktoken(ctx, c):
    tokens, _ = vocabulary(*c["v"])
    model = load_tiktoken_model(tt_file(c["v"]), TT_RE, special_tokens=c["sp"] or None, **{f"{k}_token": t for k, t in c["named"].items()})
    ids = {t: len(tokens) + i for i, t in enumerate(c["sp"])}
    check_vocab(model.vocab_info, len(tokens) + len(ids), c["named"], ids)
    expect_eq(model.num_bpe_tokens, len(tokens), "ordinary tokens")
    enc = TiktokenEncoder(model, prefix_tokens=c["prefix"], suffix_tokens=c["suffix"])
    # "<|a|>" and "<|a|>b" overlap: which one is taken is tiktoken's choice.
    if "<|a|>b" in c["text"] and {"<|a|>", "<|a|>b"} <= set(c["sp"]):
        return
    check_encoder(enc, TiktokenDecoder(model), TiktokenDecoder(model, skip_special_tokens=True), c["text"], c["prefix"], c["suffix"], ids, model.vocab_info, lambda i: tokens[i])
    ctx.label("special in text" if any(s in c["text"] for s in c["sp"]) else "plain")
    ctx.nontrivial(len(c["text"]) > 3)


MODES = {
    # family: {mode: (prefix, suffix)}; EOS stands for the configured one.
    "bos_eos": {None: "be", "default": "be", "prompt": "b", "prompt_response": "e", "as_is": ""},
    "eos": {None: "e", "default": "e", "prompt": "", "prompt_response": "e", "as_is": ""},
    "bos": {None: "b", "default": "b", "prompt": "b", "as_is": ""},
}


def framing(kind, mode, bos, eos):
    m = MODES[kind][mode]
    return [bos] if "b" in m else [], [eos] if "e" in m else []


def check_arguments(tok, kind, error):
    raises(ValueError, lambda: tok.create_encoder(task="translation"), "a task")
    raises(ValueError, lambda: tok.create_encoder(lang="en"), "a language")
    for mode in ("nope", "") + tuple(m for m in ("prompt_response",) if m not in MODES[kind]):
        raises(error, lambda mode=mode: tok.create_encoder(mode=mode), f"mode {mode}")


@st.composite
def family_cases(draw, families, specials):
    f = draw(st.sampled_from(families))
    text = draw(st.lists(st.one_of(texts, texts, st.sampled_from(specials[f])), max_size=3).map("".join))
    return dict(f=f, v=draw(vocabs), mode=draw(st.sampled_from([None, "default", "prompt", "prompt_response", "as_is", "raw"])), alt=draw(st.booleans()), text=text)


TT_SPECIALS = {"llama3": ["<|begin_of_text|>", "<|eot_id|>", "<|reserved_special_token_100|>", "<|python_tag|>"], "llama4": ["<|begin_of_text|>", "<|eot|>", "<|image|>", "<|patch|>", "<|reasoning_thinking_start|>", "<|reserved_special_token_7|>"]}

# As published: at which place after the ordinary tokens they come.
LLAMA3_AT = {"<|begin_of_text|>": 0, "<|end_of_text|>": 1, "<|reserved_special_token_0|>": 2, "<|reserved_special_token_1|>": 3, "<|finetune_right_pad_id|>": 4, "<|step_id|>": 5, "<|start_header_id|>": 6, "<|end_header_id|>": 7, "<|eom_id|>": 8, "<|eot_id|>": 9, "<|python_tag|>": 10}
LLAMA3_AT |= {f"<|reserved_special_token_{i}|>": 9 + i for i in range(2, 247)}
LLAMA4_AT = {"<|begin_of_text|>": 0, "<|end_of_text|>": 1, "<|fim_prefix|>": 2, "<|fim_middle|>": 3, "<|fim_suffix|>": 4, "<|header_start|>": 5, "<|header_end|>": 6, "<|eom|>": 7, "<|eot|>": 8, "<|step|>": 9, "<|finetune_right_pad|>": 18, "<|image_start|>": 80, "<|image_end|>": 81, "<|tile_x_separator|>": 84, "<|tile_y_separator|>": 85, "<|image|>": 90, "<|patch|>": 92, "<|reasoning_thinking_start|>": 1142, "<|reasoning_thinking_end|>": 1143}
LLAMA4_AT |= {f"<|text_post_train_reserved_special_token_{i}|>": 10 + i for i in range(8)} | {f"<|text_post_train_reserved_special_token_{i}|>": 11 + i for i in range(8, 69)}
LLAMA4_AT |= {f"<|vision_reserved_special_token_{i}|>": 82 + i for i in range(2)} | {f"<|vision_reserved_special_token_{i}|>": 84 + i for i in range(2, 6)} | {"<|vision_reserved_special_token_6|>": 91} | {f"<|vision_reserved_special_token_{i}|>": 86 + i for i in range(7, 1048)}
LLAMA4_AT |= {f"<|reasoning_reserved_special_token_{i}|>": 1134 + i for i in range(8)} | {f"<|reserved_special_token_{i}|>": 1144 + i for i in range(2048 - 1144)}


@functools.cache
def tt_tokenizer(f, v, alt):
    if f == "llama3":
        return load_llama_tokenizer(tt_file(v), LLaMATokenizerConfig(impl="tiktoken", use_eot=alt))
    return load_llama4_tokenizer(tt_file(v), Llama4TokenizerConfig(use_eot=alt))


def check_family(ctx, c, tok, kind, bos, eos, special_ids, byte_of, error=NotSupportedError, added=0):
    if c["mode"] == "raw":
        enc, (prefix, suffix) = tok.create_raw_encoder(), ([], [])
    elif c["mode"] in MODES[kind]:
        enc = tok.create_encoder(mode=c["mode"])
        prefix, suffix = framing(kind, c["mode"], bos, eos)
    else:
        raises(error, lambda: tok.create_encoder(mode=c["mode"]), f"mode {c['mode']}")
        return
    check_encoder(enc, tok.create_decoder(), tok.create_decoder(skip_special_tokens=True), c["text"], prefix, suffix, special_ids, tok.vocab_info, byte_of, added)
    ctx.label(c["f"])
    ctx.nontrivial(len(c["text"]) > 3)


def tt_family(ctx, c):
    tokens, _ = vocabulary(*c["v"])
    tok = tt_tokenizer(c["f"], c["v"], c["alt"])
    n = len(tokens)
    if c["f"] == "llama3":
        at, named = LLAMA3_AT, dict(unk=None, bos="<|begin_of_text|>", eos="<|eot_id|>" if c["alt"] else "<|end_of_text|>", pad="<|finetune_right_pad_id|>", boh="<|start_header_id|>", eoh="<|end_header_id|>")
    else:
        at, named = LLAMA4_AT, dict(unk=None, bos="<|begin_of_text|>", eos="<|eot|>" if c["alt"] else "<|end_of_text|>", pad="<|finetune_right_pad|>", boh="<|header_start|>", eoh="<|header_end|>")
    ids = {t: n + i for t, i in at.items()}
    check_vocab(tok.vocab_info, n + (256 if c["f"] == "llama3" else 2048), named, ids)
    check_arguments(tok, "bos_eos", NotSupportedError)
    check_family(ctx, c, tok, "bos_eos", named["bos"], named["eos"], ids, lambda i: tokens[i])


# ---- Hugging Face


def byte_chars() -> dict[int, str]:
    """The characters that stand for bytes in GPT-2 style vocabularies."""
    keep = [*range(33, 127), *range(161, 173), *range(174, 256)]
    out = {b: chr(b) for b in keep}
    n = 0
    for b in range(256):
        if b not in out:
            out[b] = chr(256 + n)
            n += 1
    return out


BC = byte_chars()

HG_SPECIALS = {
    "llama": ["<|begin_of_text|>", "<|end_of_text|>", "<|finetune_right_pad_id|>", "<|start_header_id|>", "<|end_header_id|>", "<|eot_id|>"],
    "qwen": ["<|endoftext|>", "<|im_start|>", "<|im_end|>"],
    "olmo": ["<|endoftext|>", "<|pad|>", "<|im_start|>", "<|im_end|>"],
    "gemma3n": ["<pad>", "<eos>", "<bos>", "<unk>", "<start_of_turn>", "<end_of_turn>"],
}


@functools.cache
def hg_dir(f, v) -> Path:
    tokens, pairs = vocabulary(*v)
    names = ["".join(BC[b] for b in t) for t in tokens]
    tk = Tok(models.BPE(vocab={n: i for i, n in enumerate(names)}, merges=[tuple("".join(BC[b] for b in t) for t in p) for p in pairs]))
    tk.pre_tokenizer = pre_tokenizers.ByteLevel(add_prefix_space=False)
    tk.decoder = decoders.ByteLevel()
    d = own_dir() / f"hg_{f}_{v[0]}_{v[1]}"
    kw = {"bos_token": HG_SPECIALS[f][0]} if f in ("llama", "olmo") else {"bos_token": "<bos>"} if f == "gemma3n" else {}
    if f == "olmo":
        kw["eos_token"] = "<|endoftext|>"  # named by its chat template
    fast = PreTrainedTokenizerFast(tokenizer_object=tk, clean_up_tokenization_spaces=False, **kw)
    fast.add_special_tokens({"additional_special_tokens": [AddedToken(s, special=True, normalized=False) for s in HG_SPECIALS[f]]})
    fast.save_pretrained(d)
    return d


@functools.cache
def hg_ids(f, v):
    """The indices written to the tokenizer file."""
    d = json.loads((hg_dir(f, v) / "tokenizer.json").read_text())
    return {t["content"]: t["id"] for t in d["added_tokens"]}


@functools.cache
def hg_tokenizer(f, v, alt):
    d = hg_dir(f, v)
    if f == "llama":
        return load_llama_tokenizer(d, LLaMATokenizerConfig(impl="hg", use_eot=alt))
    if f == "qwen":
        return load_qwen_tokenizer(d, QwenTokenizerConfig(use_im_end=alt))
    if f == "olmo":
        return load_olmo_tokenizer(d, OLMOTokenizerConfig(use_im_end=alt))
    return load_gemma3n_tokenizer(d, None)


def hg_named(f, alt):
    if f == "llama":
        return "bos_eos", dict(unk=None, bos="<|begin_of_text|>", eos="<|eot_id|>" if alt else "<|end_of_text|>", pad="<|finetune_right_pad_id|>", boh="<|start_header_id|>", eoh="<|end_header_id|>")
    if f == "qwen":
        return "eos", dict(unk=None, bos=None, eos="<|im_end|>" if alt else "<|endoftext|>", pad="<|endoftext|>", boh=None, eoh=None)
    if f == "olmo":
        return "eos", dict(unk="<|endoftext|>", bos="<|endoftext|>", eos="<|im_end|>" if alt else "<|endoftext|>", pad="<|pad|>", boh=None, eoh=None)
    return "bos", dict(unk="<unk>", bos="<bos>", eos="<eos>", pad="<pad>", boh=None, eoh=None)


def hg_family(ctx, c):
    tokens, _ = vocabulary(*c["v"])
    tok = hg_tokenizer(c["f"], c["v"], c["alt"])
    ids = hg_ids(c["f"], c["v"])
    kind, named = hg_named(c["f"], c["alt"])
    check_vocab(tok.vocab_info, len(tokens), named, ids)
    error = ValueError if c["f"] == "gemma3n" else NotSupportedError
    check_arguments(tok, kind, error)
    check_family(ctx, c, tok, kind, named["bos"], named["eos"], ids, lambda i: tokens[i], error, added=len(ids))


# ---- the generic Hugging Face tokenizer, used over and over


@st.composite
def generic_cases(draw):
    names = HG_SPECIALS["llama"]
    op = st.one_of(
        st.tuples(st.just("decoder"), st.booleans()), st.tuples(st.just("decode"), st.booleans()), st.tuples(st.just("encoder"), st.sampled_from([None, "cpu"])), st.tuples(st.just("raw"), st.sampled_from([None, "cpu"])), st.tuples(st.just("encode"), st.sampled_from([None, "cpu"])),
        st.tuples(st.just("direct"), st.lists(st.sampled_from(names), max_size=2), st.lists(st.sampled_from(names), max_size=2)),
    )
    return dict(v=draw(vocabs), named={k: draw(st.one_of(st.none(), st.sampled_from(names))) for k in ["unk", "bos", "eos", "pad", "boh", "eoh"]}, ops=draw(st.lists(st.tuples(op, texts, st.sampled_from(["", *names])), min_size=1, max_size=6)))


@functools.cache
def generic_tokenizer(v, named):
    return load_hg_tokenizer(hg_dir("llama", v), HgTokenizerConfig(**dict(named)))


def generic(ctx, c):
    tokens, _ = vocabulary(*c["v"])
    tok = load_hg_tokenizer(hg_dir("llama", c["v"]), HgTokenizerConfig(**{f"{k}_token": t for k, t in c["named"].items()}))
    ids = hg_ids("llama", c["v"])
    named = dict(c["named"])
    named["bos"] = named["bos"] or "<|begin_of_text|>"  # from the file
    check_vocab(tok.vocab_info, len(tokens), named, ids)
    expect_eq((tok.bos_token, tok.bos_token_id, tok.eos_token), ("<|begin_of_text|>", ids["<|begin_of_text|>"], None), "tokens of the underlying tokenizer")
    model = tok.model
    full_dec, skip_dec = HuggingFaceTokenDecoder(model), HuggingFaceTokenDecoder(model, skip_special_tokens=True)
    for op, text, sp in c["ops"]:
        text = text + sp + text
        want = HuggingFaceTokenEncoder(model)(text)
        plain = "".join(p for p in pieces(text, list(ids)) if p not in ids)
        if op[0] in ("decoder", "decode"):
            got = tok.create_decoder(skip_special_tokens=op[1])(want) if op[0] == "decoder" else tok.decode(want, skip_special_tokens=op[1])
            expect_eq(got, plain if op[1] else text, f"{op} of {text!r}")
        elif op[0] == "direct":
            enc = HuggingFaceTokenEncoder(model, prefix_tokens=op[1], suffix_tokens=op[2])
            check_encoder(enc, full_dec, skip_dec, text, op[1], op[2], ids, tok.vocab_info, lambda i: tokens[i], added=len(ids))
        else:
            dev = None if op[1] is None else torch.device(op[1])
            if op[0] == "encode":
                got = tok.encode(text, device=dev)
            else:
                got = (tok.create_encoder if op[0] == "encoder" else tok.create_raw_encoder)(device=dev)(text)
            expect_eq(got.tolist(), want.tolist(), f"{op} of {text!r}")
        conv = tok.convert_tokens_to_ids(list(ids))
        expect_eq(conv, list(ids.values()), "indices of the special tokens")
    ctx.nontrivial(len(c["ops"]) > 2)


# ---- chats


@st.composite
def chat_cases(draw):
    word = st.text(alphabet="abcdefghij äö😀\n", min_size=0, max_size=12)
    f = draw(st.sampled_from(["llama", "qwen", "gemma3n", "olmo"]))
    n = draw(st.integers(1, 5))
    roles = draw(st.sampled_from([["user", "assistant"], ["system", "user", "assistant"]]))
    roles = (roles + ["user", "assistant"] * 3)[: max(n, 1)]
    return dict(f=f, v=draw(vocabs), msgs=[[r, draw(word)] for r in roles], prompt=draw(st.booleans()), alt=draw(st.booleans()))


def chat(ctx, c):
    """Every message comes in order and the mask covers what the assistant says."""
    tok = hg_tokenizer(c["f"], c["v"], c["alt"])
    msgs = [{"role": r, "content": f"<{i}{t.strip()}{i}>"} for i, (r, t) in enumerate(c["msgs"])]
    enc = tok.create_encoder(mode="as_is")
    masks = c["f"] != "olmo"
    apply = tok.apply_chat_template if c["f"] == "gemma3n" else enc.apply_chat_template
    out = apply(msgs, add_generation_prompt=c["prompt"], tokenize=True, return_dict=True, **({"return_assistant_tokens_mask": True} if masks else {}))
    ids = list(out["input_ids"])
    dec = tok.create_decoder()
    text = dec(torch.tensor(ids))
    pos = 0
    for m in msgs:
        at = text.find(m["content"], pos)
        expect(at >= 0, f"{m} is missing from {text!r}")
        pos = at + len(m["content"])
    if c["f"] == "llama":
        want = "<|begin_of_text|>" + "".join(f"<|start_header_id|>{m['role']}<|end_header_id|>\n\n{m['content']}<|eot_id|>" for m in msgs)
        if c["prompt"]:
            want += "<|start_header_id|>assistant<|end_header_id|>\n\n"
        expect_eq(text, want, "the chat")
    if masks:
        mask = list(out["assistant_masks"])
        expect_eq(len(mask), len(ids), "length of the mask")
        said = dec(torch.tensor([i for i, k in zip(ids, mask) if k], dtype=torch.int64))
        rest = dec(torch.tensor([i for i, k in zip(ids, mask) if not k], dtype=torch.int64))
        for m in msgs:
            mine = m["role"] == "assistant"
            expect((m["content"] in said) == mine and (m["content"] in rest) != mine, f"{m}: masked {said!r}, others {rest!r}")
        # The turn ends are learned as well.
        n = sum(m["role"] == "assistant" for m in msgs)
        end = {"llama": "<|eot_id|>", "qwen": "<|im_end|>", "gemma3n": "<end_of_turn>"}[c["f"]]
        expect_eq(said.count(end), n, "turn ends of the assistant")
    ctx.label(c["f"])
    ctx.nontrivial(len(msgs) > 2)


# ---- SentencePiece tokenizers, over a stand-in for the native processor


class FakeModel:
    """Characters, with control symbols added the way the C++ model does."""

    def __init__(self, path, control_symbols=None):
        self.path, self.control_symbols = path, list(control_symbols or [])
        toks = ["<unk>", "<s>", "</s>"]
        chars = [chr(c) for c in range(32, 127)] + list("äöüß日本")
        if path.name.startswith("s2t"):
            toks += [f"<lang:{x}>" for x in ("en", "de", "fr", "zz")]
        toks += chars
        for s in self.control_symbols:
            name, _, at = s.partition("@")
            toks.insert(int(at) if at else len(toks), name)
        self.toks = toks
        self.idx = {t: i for i, t in enumerate(toks)}
        self.controls = {"<s>", "</s>"} | {s.partition("@")[0] for s in self.control_symbols} | {t for t in toks if t.startswith("<lang:")}

    def token_to_index(self, t):
        return self.idx.get(t, self.idx["<unk>"])

    def index_to_token(self, i):
        return self.toks[i]

    unk_idx = property(lambda self: self.idx.get("<unk>"))
    bos_idx = property(lambda self: self.idx.get("<s>"))
    eos_idx = property(lambda self: self.idx.get("</s>"))
    pad_idx = property(lambda self: self.idx.get("<pad>"))
    vocabulary_size = property(lambda self: len(self.toks))


class FakeEncoder:
    def __init__(self, model, prefix_tokens=None, suffix_tokens=None, reverse=False, enable_sampling=False, nbest_size=-1, alpha=0.1, device=None, pin_memory=False):
        assert not reverse and not enable_sampling
        self.m, self.pre, self.suf, self.device = model, list(prefix_tokens or []), list(suffix_tokens or []), device
        for t in self.pre + self.suf:
            if t not in model.idx:
                raise ValueError(f"{t} is not a symbol of the model")

    def encode_as_tokens(self, text):
        return self.pre + list(text) + self.suf

    def __call__(self, text):
        return torch.tensor([self.m.token_to_index(t) for t in self.encode_as_tokens(text)], dtype=torch.int64, device=self.device)

    def _ids(self, ts):
        return torch.tensor([self.m.idx[t] for t in ts]) if ts else None

    prefix_indices = property(lambda self: self._ids(self.pre))
    suffix_indices = property(lambda self: self._ids(self.suf))


class FakeDecoder:
    def __init__(self, model, reverse=False):
        assert not reverse
        self.m = model

    def __call__(self, ids):
        return "".join(t for t in (self.m.toks[i] for i in ids.tolist()) if t not in self.m.controls)

    def decode_from_tokens(self, tokens):
        return "".join(t for t in tokens if t not in self.m.controls)


for _mod in (sp_mod, nllb_mod, s2t_mod):
    _mod.SentencePieceEncoder, _mod.SentencePieceDecoder, _mod.SentencePieceModel = FakeEncoder, FakeDecoder, FakeModel

LANGS = ["en", "de", "fr", "eng_Latn", "zho_Hans"]


@st.composite
def sp_cases(draw):
    f = draw(st.sampled_from(["nllb", "nllb", "s2t", "s2t", "llama", "char", "mistral"]))
    langs = draw(st.lists(st.sampled_from(LANGS if f == "nllb" else LANGS[:3]), min_size=1, max_size=4, unique=True))
    own = draw(st.sampled_from(["translation", "transcription"]))
    fit = {"nllb": (langs, ["translation"], ["source", "target", "source_mining", "source_mmt_bt", "source_smt_bt"]), "s2t": (langs, [own], ["target"])}.get(f, ([None], [None], ["default", "prompt", "prompt_response"] if f != "char" else [None]))
    odd = draw(st.integers(0, 3)) == 0
    lang, task, mode = (draw(st.sampled_from([None, *(any_ if odd else some)])) for some, any_ in zip(fit, ([*LANGS, "xx"], ["translation", "transcription", "nope"], ["default", "prompt", "prompt_response", "as_is", "source", "target", "source_mining", "source_mmt_bt", "source_smt_bt", "nope"])))
    return dict(
        f=f, langs=langs, default=draw(st.sampled_from(langs)), lang=lang, own=own, task=task, mode=mode, raw=draw(st.integers(0, 5)) == 0,
        text=draw(st.text(alphabet="abc XYZ,.äö日", max_size=12)),
    )


def sentencepiece(ctx, c):
    from fairseq2.data.tokenizers.char import load_char_tokenizer
    from fairseq2.models.mistral.tokenizer import load_mistral_tokenizer
    from fairseq2.models.nllb.tokenizer import NllbTokenizerConfig, load_nllb_tokenizer
    from fairseq2.models.s2t_transformer.tokenizer import S2TTransformerTokenizerConfig, load_s2t_transformer_tokenizer

    f, mode, lang, task = c["f"], c["mode"], c["lang"], c["task"]
    path = Path(f"{f}.model")
    controls: list[str] = []
    pad = None
    if f == "nllb":
        tok = load_nllb_tokenizer(path, NllbTokenizerConfig(langs=c["langs"], default_lang=c["default"]))
        controls = [f"__{x}__" for x in c["langs"]] + ["<MINED_DATA>", "<MMT_BT_DATA>", "<SMT_BT_DATA>", "<pad>@0"]
        pad = 0
    elif f == "s2t":
        tok = load_s2t_transformer_tokenizer(path, S2TTransformerTokenizerConfig(task=c["own"], target_langs=set(c["langs"]), default_target_lang=c["default"]))
    elif f == "llama":
        tok = load_llama_tokenizer(path, LLaMATokenizerConfig())
    elif f == "mistral":
        tok = load_mistral_tokenizer(path, None)
    else:
        tok = load_char_tokenizer(path, None)
    model = tok._model
    expect_eq((model.path, sorted(model.control_symbols)), (path, sorted(controls)), "what is asked from the model")
    off = 1 if f == "nllb" else 0
    info = tok.vocab_info
    expect_eq((info.size, info.unk_idx, info.bos_idx, info.eos_idx, info.pad_idx), (len(model.toks), off, 1 + off, 2 + off, pad), "vocabulary")
    # What is to be expected: the framing, or an error.
    want: object
    if f in ("llama", "mistral"):
        table = {None: (["<s>"], ["</s>"]), "default": (["<s>"], ["</s>"]), "prompt": (["<s>"], []), "prompt_response": ([], ["</s>"])}
        want = ValueError if task is not None or lang is not None else table.get(mode, NotSupportedError)
    elif f == "char":
        want = ([], []) if task is None and lang is None and mode is None else ValueError
    elif f == "nllb":
        tag = lang or c["default"]
        src = {None: [], "source": [], "source_mining": ["<MINED_DATA>"], "source_mmt_bt": ["<MMT_BT_DATA>"], "source_smt_bt": ["<SMT_BT_DATA>"]}
        if task not in (None, "translation"):
            want = ValueError
        elif tag not in c["langs"]:
            want = NotSupportedError
        elif mode in src:
            want = ([f"__{tag}__", *src[mode]], ["</s>"])
        elif mode == "target":
            want = (["</s>", f"__{tag}__"], ["</s>"])
        else:
            want = ValueError
    else:
        tag = lang or c["default"]
        if task not in (None, c["own"]) or mode not in (None, "target"):
            want = ValueError
        elif tag not in c["langs"]:
            want = NotSupportedError
        elif c["own"] == "translation" and len(c["langs"]) > 1:
            want = (["</s>", f"<lang:{tag}>"], [])
        else:
            want = (["</s>"], [])
    if c["raw"]:
        enc, want = tok.create_raw_encoder(), ([], [])
    elif isinstance(want, type):
        raises(want, lambda: tok.create_encoder(task=task, lang=lang, mode=mode), f"{c}")
        ctx.label("refused")
        return
    else:
        enc = tok.create_encoder(task=task, lang=lang, mode=mode)
    prefix, suffix = want
    expect_eq(enc.encode_as_tokens(c["text"]), prefix + list(c["text"]) + suffix, "tokens")
    ids = enc(c["text"])
    expect(all(0 <= i < info.size for i in ids.tolist()), "indices in the vocabulary")
    for skip in (False, True):
        dec = tok.create_decoder(skip_special_tokens=skip)
        expect_eq(dec(ids), c["text"], "decoded")
        expect_eq(dec.decode_from_tokens(enc.encode_as_tokens(c["text"])), c["text"], "decoded from tokens")
    ctx.label(f)
    ctx.nontrivial(bool(prefix))


# ---- vocabularies


def vocab_info(ctx, c):
    v = VocabularyInfo(c[0], *c[1:])
    u, b, e, p = c[1:5]
    expect_eq((v.size, v.unk_idx, v.bos_idx, v.eos_idx), (c[0], u, b, e), "as given")
    expect_eq(v.pad_idx, None if p == e else p, "padding")
    ctx.nontrivial(p is not None)


idx = st.one_of(st.none(), st.integers(0, 5))


if __name__ == "__main__":
    try:
        main(
            Prop(
                "D06",
                [
                    Arm("tiktoken", tt_cases, tiktoken, quick=900, thorough=40000),
                    Arm("tt_family", lambda: family_cases(["llama3", "llama4"], TT_SPECIALS), tt_family, quick=800, thorough=30000),
                    Arm("hg_family", lambda: family_cases(["llama", "qwen", "olmo", "gemma3n"], HG_SPECIALS), hg_family, quick=1200, thorough=40000),
                    Arm("generic", generic_cases, generic, quick=150, thorough=5000),
                    Arm("chat", chat_cases, chat, quick=500, thorough=15000),
                    Arm("sentencepiece", sp_cases, sentencepiece, quick=2500, thorough=60000),
                    Arm("vocab_info", lambda: st.tuples(st.integers(1, 9), idx, idx, idx, idx, idx, idx), vocab_info, quick=500, thorough=5000),
                ],
                rule="a text of more than three characters; a tokenizer used more than twice; a chat of more than two messages; an encoder with a prefix",
                assumptions=[
                    "texts are valid Unicode (no lone surrogates)",
                    "vocabularies hold all bytes, as byte-level ones do; Hugging Face tokenizers neither normalise nor clean up spaces",
                    "the SentencePiece processor is not installed: its tokenizers are checked over a character-level stand-in with its interface",
                ],
            )
        )
    finally:
        shutil.rmtree(DIR, ignore_errors=True)

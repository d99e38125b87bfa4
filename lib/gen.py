"""Toy models with arbitrary next-token distributions, and reference helpers for generation."""
from __future__ import annotations

import random
import zlib

import torch
from harness import Violation
from torch import Tensor

from fairseq2.data.tokenizers import VocabularyInfo
from fairseq2.models.clm import CausalLM
from fairseq2.models.seq2seq import Seq2SeqModel
from fairseq2.nn import BatchLayout, IncrementalState


class _Hist(IncrementalState):
    def __init__(self, seqs, src=None):
        self.seqs = seqs
        self.src = src

    def reorder(self, new_order):
        self.seqs = self.seqs.index_select(0, new_order)
        if self.src is not None:
            self.src = [self.src[int(i)] for i in new_order]

    def size_bytes(self):
        return 0

    def capacity_bytes(self):
        return 0


class Dist:
    """Logits as a fixed pseudo-random function of (source, prefix)."""

    def __init__(self, seed, vocab, scale=2.0, eos_bias=0.0, eos=None):
        self.seed, self.vocab, self.scale, self.eos_bias, self.eos = seed, vocab, scale, eos_bias, eos
        self.memo = {}

    def __call__(self, src, prefix) -> Tensor:
        key = (src, tuple(prefix))
        t = self.memo.get(key)
        if t is None:
            g = torch.Generator().manual_seed(zlib.crc32(repr((self.seed, key)).encode()))
            t = torch.randn(self.vocab, generator=g) * self.scale
            if self.eos is not None:
                t[self.eos] += self.eos_bias
            self.memo[key] = t
        return t


def _extend(m, seqs, layout, bag, src=None):
    if layout.packed or layout.padded or tuple(seqs.shape) != (len(layout.seq_lens), layout.max_seq_len):
        raise Violation(f"the model was called with a layout of {layout.seq_lens} for a {tuple(seqs.shape)} batch")
    st = bag.maybe_get_state(m, _Hist) if bag is not None else None
    start = 0
    if st is None:
        st = _Hist(seqs.clone(), src)
        if bag is not None:
            bag.set_state(m, st)
    else:
        start = st.seqs.size(1)
        st.seqs = torch.cat([st.seqs, seqs], 1)
    if bag is not None and bag.step_nr != start:
        raise Violation(f"the state bag is at step {bag.step_nr}, but {start} steps were decoded")
    return st, start


class ToyLM(CausalLM):
    def __init__(self, dist, max_seq_len):
        super().__init__(max_seq_len)
        self.dist = dist
        self.training_calls = 0

    def forward(self, seqs, seqs_layout, targets=None, *, state_bag=None, **kw):
        if self.training:
            raise Violation("the model is in training mode")
        st, start = _extend(self, seqs, seqs_layout, state_bag)
        rows = st.seqs.tolist()
        return torch.stack([torch.stack([self.dist((), r[: t + 1]) for t in range(start, len(r))]) for r in rows]).clone()


class ToyS2S(Seq2SeqModel):
    def __init__(self, dist, max_seq_len):
        super().__init__(64, max_seq_len)
        self.dist = dist

    def forward(self, source_seqs, source_seqs_layout, target_seqs, target_seqs_layout, targets=None, *, state_bag=None, **kw):
        if self.training:
            raise Violation("the model is in training mode")
        src = [tuple(s[:n]) for s, n in zip(source_seqs.tolist(), source_seqs_layout.seq_lens)]
        st, start = _extend(self, target_seqs, target_seqs_layout, state_bag, src)
        return torch.stack([torch.stack([self.dist(s, r[: t + 1]) for t in range(start, len(r))]) for s, r in zip(st.src, st.seqs.tolist())]).clone()


def vocab_info(v, unk, eos, pad):
    return VocabularyInfo(size=v, unk_idx=unk, bos_idx=None, eos_idx=eos, pad_idx=pad)


def pad_batch(seqs, pad):
    n = max(map(len, seqs))
    t = torch.full((len(seqs), n), pad, dtype=torch.int64)
    for i, s in enumerate(seqs):
        t[i, : len(s)] = torch.tensor(s)
    return t, BatchLayout(t.shape, seq_lens=[len(s) for s in seqs])


# Step processors, by brute force: which next tokens are forbidden after `prefix`.
def banned_tokens(banned, prefix):
    return {b[-1] for b in banned if len(b) - 1 <= len(prefix) and (len(b) == 1 or list(prefix[len(prefix) - (len(b) - 1):]) == list(b[:-1]))}


def ngram_tokens(n, prefix):
    prefix = list(prefix)
    tail = prefix[len(prefix) - (n - 1):] if n > 1 else []
    return {prefix[i + n - 1] for i in range(len(prefix) - n + 1) if prefix[i : i + n - 1] == tail}

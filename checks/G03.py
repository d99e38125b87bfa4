"""G03: step processors forbid exactly the tokens they should."""
import boot

boot.boot(init=True)

import gen
import torch
from harness import Arm, Prop, expect, expect_eq, main, raises
from hypothesis import strategies as st

from fairseq2.generation.step_processor import BannedSequenceProcessor, NGramRepeatBlockProcessor


@st.composite
def seqs_(draw, v, max_len=10):
    n, s = draw(st.integers(1, 4)), draw(st.integers(1, max_len))
    return draw(st.lists(st.lists(st.integers(0, v - 1), min_size=s, max_size=s), min_size=n, max_size=n))


@st.composite
def cases(draw):
    v = draw(st.integers(2, 5))
    seqs = draw(seqs_(v))
    kind = draw(st.sampled_from(["ban", "ban", "ngram", "both"]))
    banned = []
    same = draw(st.sampled_from([None, None, 1, 2, 3]))
    for _ in range(draw(st.integers(0, 4))):
        if draw(st.booleans()):
            # A sequence that the end of some row starts.
            row = seqs[draw(st.integers(0, len(seqs) - 1))]
            k = min((same or draw(st.integers(1, 6))) - 1, len(row))
            b = row[len(row) - k :] + [draw(st.integers(0, v - 1))]
        else:
            b = draw(st.lists(st.integers(0, v - 1), min_size=same or 1, max_size=same or 12))
        banned.append(b)
    return dict(v=v, seqs=seqs, kind=kind, banned=banned, n=draw(st.integers(1, 5)), lprob=draw(st.booleans()), seed=draw(st.integers(0, 999)),
                dtype=draw(st.sampled_from(["float32", "float64", "bfloat16"])))


def arm(ctx, c):
    v, seqs, kind = c["v"], c["seqs"], c["kind"]
    t = torch.tensor(seqs)
    g = torch.Generator().manual_seed(c["seed"])
    probs = torch.softmax(torch.randn(len(seqs), v, generator=g), -1).to(getattr(torch, c["dtype"])) + 1e-3
    if c["lprob"]:
        probs = probs.log()
    before = probs.clone()
    want = [set() for _ in seqs]
    ps = []
    if kind != "ngram":
        bs = [torch.tensor(b) for b in c["banned"]]
        ps.append(BannedSequenceProcessor(bs))
        expect_eq([b.tolist() for b in bs], c["banned"], "the banned sequences given to the processor")
        for w, s in zip(want, seqs):
            w |= gen.banned_tokens(c["banned"], s)
    if kind != "ban":
        ps.append(NGramRepeatBlockProcessor(c["n"]))
        for w, s in zip(want, seqs):
            w |= gen.ngram_tokens(c["n"], s)
    for _ in range(2):  # a processor has no memory
        for p in ps:
            r = p(t, probs, lprob=True) if c["lprob"] else p(t, probs)
            expect(r is None, "a processor returned something")
    expect(torch.equal(t, torch.tensor(seqs)), "the sequences were changed")
    if any(want):
        ctx.nontrivial()
    ctx.label(kind, "some forbidden" if any(want) else "none forbidden")
    for i in range(len(seqs)):
        for k in range(v):
            got = float(probs[i, k])
            if k in want[i]:
                expect(got == (-float("inf") if c["lprob"] else 0.0), f"token {k} after {seqs[i]} has to be forbidden (banned {c['banned']}, n-gram {c['n']}, {kind}), but scores {got}")
            else:
                expect(got == float(before[i, k]), f"token {k} after {seqs[i]} was changed from {float(before[i, k])} to {got} (banned {c['banned']}, n-gram {c['n']}, {kind})")


@st.composite
def bad_cases(draw):
    bs = draw(st.lists(st.lists(st.integers(0, 3), min_size=1, max_size=3), max_size=3))
    return dict(bs=bs, at=draw(st.integers(0, len(bs))))


def bad_arm(ctx, c):
    ctx.nontrivial()
    bs = [torch.tensor(b) for b in c["bs"]]
    bs.insert(c["at"], torch.empty(0, dtype=torch.int64))
    raises(ValueError, lambda: BannedSequenceProcessor(bs))
    raises(ValueError, lambda: NGramRepeatBlockProcessor(0))


main(Prop("G03", [
    Arm("processors", cases, arm, quick=3000, thorough=80000),
    Arm("arguments", bad_cases, bad_arm, quick=30, thorough=100),
], rule="at least one token is forbidden by the brute-force definition",
    assumptions=["token ids lie in the vocabulary"]))

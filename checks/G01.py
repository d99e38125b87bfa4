"""G01: beam search returns the best hypotheses with their true scores."""
import boot

boot.boot(init=True)

import gen
import models
import torch
from harness import Arm, Prop, expect, expect_eq, main, raises
from hypothesis import strategies as st

from fairseq2.generation import SequenceGenerationError
from fairseq2.generation.beam_search import BeamSearchSeq2SeqGenerator, BeamSearchSequenceGenerator, StandardBeamSearchAlgorithm
from fairseq2.generation.step_processor import BannedSequenceProcessor, NGramRepeatBlockProcessor
from fairseq2.nn import BatchLayout

NEG = float("-inf")
GAP = 2e-4  # candidates closer than this may be ordered either way


# ---------------------------------------------------------------- the reference
class Tie(Exception):
    pass


def step_lprobs(logits, temp):
    return torch.log_softmax((logits / temp).double(), -1).tolist()


def processed(lp, prefix, c, final, early):
    lp = list(lp)
    if final:
        return [x if i == c["eos"] else NEG for i, x in enumerate(lp)]
    for t in gen.banned_tokens(c["banned"], prefix):
        lp[t] = NEG
    if c["ngram"]:
        for t in gen.ngram_tokens(c["ngram"], prefix):
            lp[t] = NEG
    if c["unk"] is not None:
        lp[c["unk"]] -= c["unk_penalty"]
    if c["pad"] is not None:
        lp[c["pad"]] = NEG
    if early:
        lp[c["eos"]] = NEG
    return lp


def ref_beam(logits, prompt, c, lo, hi):
    """Plain beam search for one prompt; `logits(prefix)` is the model."""
    B, eos = c["beam"], c["eos"]
    steps = [0.0]
    for t in range(1, len(prompt)):
        steps.append(step_lprobs(logits(prompt[:t]), c["temp"])[prompt[t]])
    beam = [(list(prompt), steps)]
    out = []
    for t in range(len(prompt), hi):
        cands = []
        for seq, ss in beam:
            lp = processed(step_lprobs(logits(seq), c["temp"]), seq, c, t == hi - 1, t < lo - 1)
            cands += [(sum(ss) + x, seq + [k], ss + [x]) for k, x in enumerate(lp) if x != NEG]
        cands.sort(key=lambda z: -z[0])
        for a, b in zip(cands[: 2 * B], cands[1 : 2 * B + 1]):
            if a[0] - b[0] < GAP:
                raise Tie()
        top = cands[: 2 * B]
        for z in top[:B]:
            if z[1][-1] == eos:
                out.append((z[0], z[1], z[2]))
                if len(out) == B:
                    break
        if len(out) == B:
            break
        beam = [(s, ss) for _, s, ss in top if s[-1] != eos][:B]
        if not beam:
            break
    res = []
    for tot, seq, ss in out:
        score = tot / (len(seq) - 1) ** c["len_penalty"] if c["norm"] else tot
        res.append((score, seq, ss))
    res.sort(key=lambda z: -z[0])
    for a, b in zip(res, res[1:]):
        if a[0] - b[0] < GAP:
            raise Tie()
    return res


# ---------------------------------------------------------------- cases
@st.composite
def options(draw, small=False):
    v = draw(st.integers(3, 6) if small else st.integers(8, 14))
    ids = draw(st.permutations(range(v)))
    eos = ids[0]
    c = dict(v=v, eos=eos, pad=draw(st.sampled_from([None, ids[1], ids[1]])), unk=draw(st.sampled_from([None, ids[2]])),
             beam=draw(st.integers(1, 3)), min_gen=draw(st.sampled_from([1, 1, 2, 3])), temp=draw(st.sampled_from([1.0, 1.0, 0.7, 2.0])),
             unk_penalty=draw(st.sampled_from([0.0, 1.5, -1.0])), len_penalty=draw(st.sampled_from([1.0, 0.5, 2.0])), norm=draw(st.booleans()),
             echo=draw(st.booleans()), chunk=draw(st.sampled_from([None, 1, 2, 3, 512])), cap=draw(st.sampled_from([None, 1, 3, 16])),
             ngram=draw(st.sampled_from([0, 0, 0, 1, 2, 3])), seed=draw(st.integers(0, 10**6)), eos_bias=draw(st.sampled_from([0.0, 1.5, 3.0])))
    c["max_gen"] = c["min_gen"] + draw(st.integers(0, 6))
    ok = [t for t in range(v) if t != c["pad"]]
    c["banned"] = draw(st.lists(st.lists(st.sampled_from(ok), min_size=1, max_size=3).filter(lambda b: b != [eos]), max_size=draw(st.sampled_from([0, 0, 3]))))
    n = draw(st.integers(1, 3))
    same = draw(st.booleans())
    k = draw(st.integers(1, 6))
    # Prompts may hold EOS themselves (as between the turns of a conversation).
    c["prompts"] = [draw(st.lists(st.sampled_from(ok), min_size=k if same else 1, max_size=k if same else 6)) for _ in range(n)]
    c["max_seq"] = draw(st.sampled_from([None, None, 8, 10]))
    c["model_max"] = draw(st.sampled_from([20, 20, 9]))
    return c


@st.composite
def toy_cases(draw):
    c = draw(options())
    c["s2s"] = draw(st.booleans())
    c["srcs"] = [draw(st.lists(st.integers(0, 5), min_size=1, max_size=4)) for _ in c["prompts"]]
    c["a"] = draw(st.sampled_from([0, 1, 0.5]))
    c["scale"] = draw(st.sampled_from([1.0, 2.0, 4.0]))
    c["custom_algo"] = draw(st.booleans())
    return c


def procs(c):
    ps = []
    if c["banned"]:
        ps.append(BannedSequenceProcessor([torch.tensor(b) for b in c["banned"]]))
    if c["ngram"]:
        ps.append(NGramRepeatBlockProcessor(c["ngram"]))
    return ps or None


def kwargs(c):
    return dict(beam_size=c["beam"], min_gen_len=c["min_gen"], max_seq_len=c["max_seq"], echo_prompt=c["echo"], normalize_scores=c["norm"],
                temperature=c["temp"], unk_penalty=c["unk_penalty"], len_penalty=c["len_penalty"], prefill_chunk_size=c["chunk"],
                decode_capacity_increment=c["cap"], step_processors=procs(c))


def limits(c, prompts, max_gen, model_max):
    cap = model_max if c["max_seq"] is None else min(c["max_seq"], model_max)
    k = max(map(len, prompts))
    return k, cap, min(cap, k + c["min_gen"]), min(cap, k + max_gen)


def compare(c, out, logits_of, prompts, lo, hi, what="", tol=1e-4):
    expect_eq(len(out.hypotheses), len(prompts), f"{what}number of results")
    compared = 0
    for i, (p, hyps) in enumerate(zip(prompts, out.hypotheses)):
        start = 0 if c["echo"] else len(p)
        # Whatever the search found has to be true.
        expect(len(hyps) <= c["beam"], f"{what}{len(hyps)} hypotheses for a beam of {c['beam']}")
        seen = set()
        last = None
        for h in hyps:
            seq = h.seq.tolist()
            full = (seq if c["echo"] else list(p) + seq)
            expect_eq(full[: len(p)], list(p), f"{what}prompt {i} within its hypothesis")
            body = full[len(p) :]
            expect(len(body) >= 1 and body[-1] == c["eos"] and c["eos"] not in body[:-1], f"{what}hypothesis {body} of prompt {i} does not end with its first EOS ({c['eos']})")
            expect(c["pad"] not in body, f"{what}hypothesis {body} of prompt {i} has padding ({c['pad']})")
            expect(lo <= len(full) <= hi, f"{what}hypothesis of {len(full)} tokens for limits of {lo} and {hi}")
            expect(tuple(full) not in seen, f"{what}hypothesis {full} was returned twice")
            seen.add(tuple(full))
            ss, forced = [0.0], False
            for t in range(1, len(full)):
                lp = step_lprobs(logits_of(i, full[:t]), c["temp"])
                if t >= len(p):
                    lp = processed(lp, full[:t], c, t == hi - 1, t < lo - 1)
                ss.append(lp[full[t]])
            expect(min(ss) > NEG, f"{what}hypothesis {full} holds a forbidden token (step scores {ss})")
            expect_eq(len(h.step_scores), len(seq), f"{what}number of step scores")
            for t, (a, b) in enumerate(zip(h.step_scores.tolist(), ss[start:])):
                expect(abs(a - b) <= tol * (1 + abs(b)) * 3, f"{what}step score {t} of hypothesis {seq} (prompt {p}) is {a}, but the model gives {b}")
            score = sum(ss) / ((len(full) - 1) ** c["len_penalty"] if c["norm"] else 1)
            expect(abs(float(h.score) - score) <= tol * (1 + abs(sum(ss))), f"{what}score of hypothesis {full} is {float(h.score)}, not {score}")
            expect(last is None or float(h.score) <= last + 1e-7, f"{what}the hypotheses are not in the order of their scores")
            last = float(h.score)
        try:
            want = ref_beam(lambda s: logits_of(i, s), list(p), c, lo, hi)
        except Tie:
            continue
        compared += 1
        expect_eq([(x.seq.tolist() if c["echo"] else list(p) + x.seq.tolist()) for x in hyps], [s for _, s, _ in want], f"{what}hypotheses for prompt {i} {p}")
    return compared


def generate(c, model, prompts, srcs, max_gen, hook=None):
    vi = gen.vocab_info(c["v"], c["unk"], c["eos"], c["pad"])
    t, lo = gen.pad_batch(prompts, c["pad"] if c["pad"] is not None else 0)
    if srcs is None:
        g = BeamSearchSequenceGenerator(model, vi, StandardBeamSearchAlgorithm() if c.get("custom_algo") else None, max_gen_len=max_gen, **kwargs(c))
        args = (t, lo)
    else:
        g = BeamSearchSeq2SeqGenerator(model, vi, max_gen_len=(c["a"], max_gen), **kwargs(c))
        s, slo = gen.pad_batch(srcs, 0) if isinstance(srcs, list) else srcs
        args = (s, slo, t, lo)
    expect(g.model is model and not model.training, "the generator does not put the model into evaluation mode")
    handle = g.register_step_hook(hook) if hook is not None else None
    out = g(*args)
    if handle is not None:
        handle.remove()
        n = hook.calls
        g(*args)
        expect_eq(hook.calls, n, "calls of a removed hook")
    return out


class Hook:
    def __init__(self, prompts):
        self.prompts, self.calls, self.last = prompts, 0, 0

    def __call__(self, prompt_indices, seqs, step_scores, prefill):
        self.calls += 1
        expect_eq(len(prompt_indices), len(seqs), "rows given to the hook")
        expect_eq(tuple(step_scores.shape), tuple(seqs.shape), "shape of the step scores given to the hook")
        if not prefill:
            expect(seqs.size(1) > self.last, "the hook did not see a new step")
        self.last = seqs.size(1)
        for i, row in zip(prompt_indices.tolist(), seqs.tolist()):
            p = self.prompts[i][: len(row)]
            expect_eq(row[: len(p)], list(p), f"sequence that the hook sees for prompt {i}")


def toy_arm(ctx, c):
    dist = gen.Dist(c["seed"], c["v"], c["scale"], c["eos_bias"], c["eos"])
    prompts = c["prompts"]
    s2s = c["s2s"]
    max_gen = c["max_gen"]
    if s2s:
        max_gen = int(c["a"] * max(map(len, c["srcs"])) + c["max_gen"])
    k, cap, lo, hi = limits(c, prompts, max_gen, c["model_max"])
    model = (gen.ToyS2S if s2s else gen.ToyLM)(dist, c["model_max"])
    srcs = c["srcs"] if s2s else None
    if k >= cap:
        ctx.label("too long")
        raises(ValueError, lambda: generate(c, model, prompts, srcs, c["max_gen"]))
        return
    ctx.label("s2s" if s2s else "lm")
    if len({len(p) for p in prompts}) > 1:
        ctx.label("mixed lengths")
    if c["beam"] > 1 or len(prompts) > 1:
        ctx.nontrivial()
    out = generate(c, model, prompts, srcs, c["max_gen"], Hook(prompts))
    n = compare(c, out, lambda i, s: dist(tuple(c["srcs"][i]) if s2s else (), s), prompts, lo, hi)
    ctx.label("compared" if n else "ties")


# ---------------------------------------------------------------- tiny vocabularies, wide beams
@st.composite
def tiny_cases(draw):
    c = draw(options(small=True))
    c.update(s2s=False, srcs=[[0]] * len(c["prompts"]), a=0, scale=draw(st.sampled_from([1.0, 3.0])), custom_algo=False, beam=draw(st.sampled_from([2, 4, 8, 60])))
    c["max_gen"] = min(c["max_gen"], 4)
    c["min_gen"] = min(c["min_gen"], c["max_gen"])
    return c


def tiny_arm(ctx, c):
    toy_arm(ctx, c)
    if c["beam"] == 60 and not (c["banned"] or c["ngram"]):
        ctx.label("exhaustive")


# ---------------------------------------------------------------- real models
@st.composite
def model_cases(draw):
    fam = draw(st.sampled_from(["llama", "qwen", "mistral", "olmo", "gemma3n", "nllb", "s2t_transformer"]))
    c = draw(options())
    c.update(family=fam, cfg=draw(models.CLM[fam]() if fam in models.CLM else models.S2S[fam]()), v=models.VOCAB, a=0, custom_algo=False, model_max=None,
             slens=[draw(st.integers(1, 5)) for _ in c["prompts"]])
    c["max_gen"] = c["min_gen"] + draw(st.integers(0, 4))
    return c


def model_arm(ctx, c):
    fam = c["family"]
    ctx.label(fam)
    ctx.nontrivial()
    m = models.randomise(models.make_model(fam, c["cfg"]), c["seed"])
    m.eval()
    prompts = c["prompts"]
    with torch.no_grad():
        if fam in models.CLM:
            srcs, src_of = None, None
            mmax = m.max_seq_len
        else:
            g = torch.Generator().manual_seed(c["seed"])
            if fam == "nllb":
                rows = [torch.randint(1, 20, (k,), generator=g) for k in c["slens"]]
            else:
                rows = [torch.randn(4 * k + 4, c["cfg"]["num_fbank_channels"], generator=g) for k in c["slens"]]
            pad = torch.nn.utils.rnn.pad_sequence(rows, batch_first=True)
            srcs = (pad, BatchLayout(pad.shape[:2], seq_lens=[len(r) for r in rows]))
            mmax = m.max_target_seq_len
        k, cap, lo, hi = limits(c, prompts, c["max_gen"], mmax)
        if k >= cap:
            return
        out = generate(c, m, prompts, srcs, c["max_gen"])
        memo = {}

        def logits_of(i, s):
            key = (i if srcs is not None else 0, tuple(s))
            if key not in memo:
                t = torch.tensor([s])
                if srcs is None:
                    memo[key] = m(t, BatchLayout.of(t))[0, -1]
                else:
                    r = rows[i][None]
                    memo[key] = m(r, BatchLayout(r.shape[:2], seq_lens=[r.shape[1]]), t, BatchLayout.of(t))[0, -1]
            return memo[key]

        n = compare(c, out, logits_of, prompts, lo, hi, f"{fam}: ", tol=3e-4)
    ctx.label("compared" if n else "ties")


# ---------------------------------------------------------------- algorithm step and arguments
@st.composite
def algo_cases(draw):
    return dict(n=draw(st.integers(1, 4)), v=draw(st.integers(2, 9)), s=draw(st.integers(1, 4)), beam=draw(st.integers(1, 6)), seed=draw(st.integers(0, 9999)),
                fault=draw(st.sampled_from([None, None, None, "nan", "noeos", "min", "max", "minmax", "chunk", "cap", "packed", "s2smax"])))


def algo_arm(ctx, c):
    f = c["fault"]
    g = torch.Generator().manual_seed(c["seed"])
    ctx.nontrivial()
    if f is None:
        lp = torch.log_softmax(torch.randn(c["n"], c["v"], generator=g), -1)
        ss = -torch.rand(c["n"], c["s"], generator=g)
        keep = lp.clone(), ss.clone()
        r = StandardBeamSearchAlgorithm().step(c["beam"], lp, ss)
        expect(torch.equal(lp, keep[0]) and torch.equal(ss, keep[1]), "the step changed its inputs")
        al = sorted(((float(ss[i, -1] + lp[i, j]), i, j) for i in range(c["n"]) for j in range(c["v"])), reverse=True)[: 2 * c["beam"]]
        expect_eq(len(r.scores), len(al), f"number of candidates for a beam of {c['beam']} with {c['n']} sequences and {c['v']} tokens")
        for (s, i, j), a, b, d in zip(al, r.scores.tolist(), r.seq_indices.tolist(), r.vocab_indices.tolist()):
            expect(abs(a - s) < 1e-5 and abs(float(ss[b, -1] + lp[b, d]) - a) < 1e-5, f"candidate ({b}, {d}) with score {a} is not the best one left ({i}, {j}) with {s}")
        return
    dist = gen.Dist(0, 6)
    mk = lambda **k: BeamSearchSequenceGenerator(gen.ToyLM(dist, 20), gen.vocab_info(6, None, 1, 0), **k)  # noqa: E731
    if f == "nan":
        d2 = lambda s, p: torch.full((6,), float("nan")) if len(p) == c["s"] else dist(s, p)  # noqa: E731
        gn = BeamSearchSequenceGenerator(gen.ToyLM(d2, 20), gen.vocab_info(6, None, 1, 0), min_gen_len=6, max_gen_len=8)
        ex = raises(SequenceGenerationError, lambda: gn(torch.tensor([[2, 3]]), BatchLayout((1, 2), seq_lens=[2])))
        expect_eq(ex.step_nr, None if c["s"] < 2 else c["s"], "step of the error")
    elif f == "noeos":
        raises(ValueError, lambda: BeamSearchSequenceGenerator(gen.ToyLM(dist, 20), gen.vocab_info(6, None, None, 0)))
    elif f == "min":
        raises(ValueError, lambda: mk(min_gen_len=0))
    elif f == "max":
        raises(ValueError, lambda: mk(max_gen_len=0))
    elif f == "minmax":
        raises(ValueError, lambda: mk(min_gen_len=3, max_gen_len=2))
    elif f == "chunk":
        raises(ValueError, lambda: mk(prefill_chunk_size=0))
    elif f == "cap":
        raises(ValueError, lambda: mk(decode_capacity_increment=0))
    elif f == "packed":
        raises(ValueError, lambda: mk()(torch.tensor([2, 3, 4]), BatchLayout((3,), seq_lens=[1, 2], packed=True)))
    else:
        g2 = BeamSearchSeq2SeqGenerator(gen.ToyS2S(dist, 20), gen.vocab_info(6, None, 1, 0), max_gen_len=(0.0, 2), min_gen_len=3)
        t = torch.tensor([[2, 3]])
        raises(ValueError, lambda: g2(t, BatchLayout.of(t), t, BatchLayout.of(t)))


main(Prop("G01", [
    Arm("toy", toy_cases, toy_arm, quick=2000, thorough=12000),
    Arm("tiny", tiny_cases, tiny_arm, quick=1000, thorough=5000),
    Arm("models", model_cases, model_arm, quick=250, thorough=1500),
    Arm("algo", algo_cases, algo_arm, quick=1000, thorough=3000),
], rule="a beam or batch of more than one",
    assumptions=["length limits count from the longest prompt of the batch", f"candidates whose scores are within {GAP} of each other may be ordered either way"]))

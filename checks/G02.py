"""G02: sampling draws only admissible tokens and reports true scores."""
import boot

boot.boot(init=True)

import math

import gen
import models
import torch
from harness import Arm, Prop, expect, expect_close, expect_eq, main, raises
from hypothesis import strategies as st

from fairseq2.generation import SequenceGenerationError
from fairseq2.generation.sampling import Sampler, SamplingSeq2SeqGenerator, SamplingSequenceGenerator, TopKSampler, TopPSampler
from fairseq2.generation.step_processor import BannedSequenceProcessor, NGramRepeatBlockProcessor
from fairseq2.nn import BatchLayout


# ---------------------------------------------------------------- samplers
def dist_of(c):
    g = torch.Generator().manual_seed(c["seed"])
    p = torch.softmax(torch.randn(c["v"], generator=g) * c["scale"], -1)
    for z in c["zero"]:
        p[z % c["v"]] = 0
    if c["ties"]:
        p = (p * 4).ceil() / 4
        for z in c["zero"]:
            p[z % c["v"]] = 0
    if not bool((p > 0).any()):
        p[0] = 1
    return p * c["mass"]


def sampler_probs(kind, arg, p):
    """Possible supports of the sampler: (the tokens surely in, the tokens possibly in)."""
    v = len(p)
    p = p.double() / p.double().sum()
    srt = sorted(range(v), key=lambda i: -float(p[i]))
    if kind == "k":
        k = min(arg, v)
        kth = float(p[srt[k - 1]])
        sure = {i for i in range(v) if float(p[i]) > kth * (1 + 1e-6)}
        maybe = {i for i in range(v) if float(p[i]) >= kth * (1 - 1e-6)}
        count = k
    else:
        cum, count, near = 0.0, 0, False
        for i in srt:
            if abs(cum - arg) < 1e-5:
                near = True
            if cum > arg:
                break
            cum += float(p[i])
            count += 1
        if near:
            return None
        last = float(p[srt[count - 1]])
        sure = {i for i in range(v) if float(p[i]) > last * (1 + 1e-6)}
        maybe = {i for i in range(v) if float(p[i]) >= last * (1 - 1e-6)}
    return sure, {i for i in maybe if float(p[i]) > 0}, count


@st.composite
def sampler_cases(draw):
    kind = draw(st.sampled_from(["k", "p"]))
    v = draw(st.integers(2, 9))
    return dict(kind=kind, v=v, arg=draw(st.integers(1, 11)) if kind == "k" else draw(st.sampled_from([0.0, 0.05, 0.3, 0.5, 0.8, 0.9, 0.97, 1.0])),
                scale=draw(st.sampled_from([0.3, 1.0, 3.0])), zero=draw(st.lists(st.integers(0, 8), max_size=3)), ties=draw(st.integers(0, 4)) == 0,
                mass=draw(st.sampled_from([1.0, 1.0, 0.3, 2.0])), seed=draw(st.integers(0, 9999)), n=draw(st.sampled_from([300, 3000])))


def sampler_arm(ctx, c):
    p = dist_of(c)
    r = sampler_probs(c["kind"], c["arg"], p)
    ctx.label(c["kind"])
    if r is None:
        return
    sure, maybe, count = r
    n = c["n"]
    s = TopKSampler(c["arg"]) if c["kind"] == "k" else TopPSampler(c["arg"])
    # Rows of other distributions around the ones of interest.
    other = torch.softmax(torch.randn(n, c["v"], generator=torch.Generator().manual_seed(c["seed"] + 1)), -1)
    batch = torch.stack([p.expand(n, -1), other], 1).flatten(0, 1)
    keep = batch.clone()
    torch.manual_seed(c["seed"])
    out = s.sample(batch)
    expect(torch.equal(batch, keep), "the sampler changed the probabilities")
    expect_eq(tuple(out.shape), (2 * n,), "shape of the sample")
    drawn = out[::2]
    got = set(drawn.tolist())
    expect(got <= maybe, f"{got - maybe} drawn, but only {maybe} are admissible ({s.__class__.__name__}({c['arg']}), {p.tolist()})")
    if len(maybe) > 1 and len(maybe) < c["v"]:
        ctx.nontrivial()
    torch.manual_seed(c["seed"])
    expect(torch.equal(s.sample(batch), out), "sampling is not determined by the seed")
    if len(maybe) == min(count, len([x for x in p if x > 0])):
        tot = sum(float(p[i]) for i in maybe)
        for i in maybe:
            q = float(p[i]) / tot
            f = float((drawn == i).sum()) / n
            expect(abs(f - q) <= 6 * math.sqrt(q * (1 - q) / n) + 12 / n, f"token {i} was drawn with frequency {f}, but has probability {q} among {maybe}")


# ---------------------------------------------------------------- generators
class Pick(Sampler):
    """A sampler without chance: a fixed function of a row's probabilities."""

    def __init__(self, seed, v):
        self.w = torch.rand(v, generator=torch.Generator().manual_seed(seed)) + 0.5

    def sample(self, probs):
        if bool((probs < 0).any()):
            raise AssertionError("negative probabilities")
        return (probs * self.w).argmax(-1)

    def ref(self, p):
        x = torch.tensor(p, dtype=torch.float64) * self.w.double()
        t = torch.topk(x, 2).values
        return None if float(t[0] - t[1]) < 1e-5 * float(t[0]) + 1e-9 else int(x.argmax())


def step_probs(logits, temp):
    return torch.softmax((logits / temp).double(), -1).tolist()


def processed(p, prefix, c, early):
    p = list(p)
    for t in gen.banned_tokens(c["banned"], prefix):
        p[t] = 0.0
    if c["ngram"]:
        for t in gen.ngram_tokens(c["ngram"], prefix):
            p[t] = 0.0
    if c["unk"] is not None:
        p[c["unk"]] = max(0.0, p[c["unk"]] - c["unk_penalty"])
    if c["pad"] is not None:
        p[c["pad"]] = 0.0
    if early:
        p[c["eos"]] = 0.0
    return p


@st.composite
def options(draw):
    v = draw(st.integers(8, 12))
    ids = draw(st.permutations(range(v)))
    eos = ids[0]
    c = dict(v=v, eos=eos, pad=draw(st.sampled_from([None, ids[1], ids[1]])), unk=draw(st.sampled_from([None, ids[2], ids[2]])),
             gens=draw(st.integers(1, 3)), min_gen=draw(st.sampled_from([1, 1, 2, 3])), temp=draw(st.sampled_from([1.0, 0.6, 2.0])),
             unk_penalty=draw(st.sampled_from([0.0, 0.0, 0.02, 0.3, -0.4])), len_penalty=draw(st.sampled_from([1.0, 0.5, 2.0])), norm=draw(st.booleans()),
             echo=draw(st.booleans()), chunk=draw(st.sampled_from([None, 1, 2, 3, 512])), cap=draw(st.sampled_from([None, 1, 3, 16])),
             ngram=draw(st.sampled_from([0, 0, 0, 2, 3])), seed=draw(st.integers(0, 10**6)), eos_bias=draw(st.sampled_from([0.0, 1.5, 3.0])),
             scores=draw(st.sampled_from([True, True, True, False])), sampler=draw(st.sampled_from(["pick", "pick", "k", "p", "k1"])),
             arg=draw(st.integers(0, 5)))
    c["max_gen"] = c["min_gen"] + draw(st.integers(0, 6))
    ok = [t for t in range(v) if t != c["pad"]]
    c["banned"] = draw(st.lists(st.lists(st.sampled_from(ok), min_size=1, max_size=3).filter(lambda b: b != [eos]), max_size=draw(st.sampled_from([0, 0, 3]))))
    n = draw(st.integers(1, 3))
    same = draw(st.booleans())
    k = draw(st.integers(1, 6))
    c["prompts"] = [draw(st.lists(st.sampled_from(ok), min_size=k if same else 1, max_size=k if same else 6)) for _ in range(n)]
    c["max_seq"] = draw(st.sampled_from([None, None, 8, 10]))
    c["model_max"] = draw(st.sampled_from([20, 20, 9]))
    return c


@st.composite
def toy_cases(draw):
    c = draw(options())
    c["s2s"] = draw(st.booleans())
    c["srcs"] = [draw(st.lists(st.integers(0, 5), min_size=1, max_size=4)) for _ in c["prompts"]]
    c["a"] = draw(st.sampled_from([0, 1, 0.5]))
    c["scale"] = draw(st.sampled_from([1.0, 2.0]))
    return c


def make_sampler(c):
    return {"pick": lambda: Pick(c["seed"], c["v"]), "k": lambda: TopKSampler(c["arg"] + 1), "k1": lambda: TopKSampler(1), "p": lambda: TopPSampler(c["arg"] / 5)}[c["sampler"]]()


def kwargs(c):
    ps = []
    if c["banned"]:
        ps.append(BannedSequenceProcessor([torch.tensor(b) for b in c["banned"]]))
    if c["ngram"]:
        ps.append(NGramRepeatBlockProcessor(c["ngram"]))
    return dict(num_gens=c["gens"], min_gen_len=c["min_gen"], max_seq_len=c["max_seq"], echo_prompt=c["echo"], normalize_scores=c["norm"], compute_scores=c["scores"],
                temperature=c["temp"], unk_penalty=c["unk_penalty"], len_penalty=c["len_penalty"], prefill_chunk_size=c["chunk"],
                decode_capacity_increment=c["cap"], step_processors=ps or None)


class Hook:
    def __init__(self, prompts, scores):
        self.prompts, self.scores, self.calls = prompts, scores, 0

    def __call__(self, prompt_indices, seqs, step_scores, prefill):
        self.calls += 1
        expect_eq(len(prompt_indices), len(seqs), "rows given to the hook")
        expect((step_scores is not None) == self.scores, "step scores given to the hook")
        for i, row in zip(prompt_indices.tolist(), seqs.tolist()):
            p = self.prompts[i][: len(row)]
            expect_eq(row[: len(p)], list(p), f"sequence that the hook sees for prompt {i}")


def generate(c, model, prompts, srcs, max_gen):
    vi = gen.vocab_info(c["v"], c["unk"], c["eos"], c["pad"])
    t, lo = gen.pad_batch(prompts, c["pad"] if c["pad"] is not None else 0)
    if srcs is None:
        g = SamplingSequenceGenerator(model, vi, make_sampler(c), max_gen_len=max_gen, **kwargs(c))
        args = (t, lo)
    else:
        g = SamplingSeq2SeqGenerator(model, vi, make_sampler(c), max_gen_len=(c["a"], max_gen), **kwargs(c))
        s, slo = gen.pad_batch(srcs, 0) if isinstance(srcs, list) else srcs
        args = (s, slo, t, lo)
    expect(g.model is model and not model.training, "the generator does not put the model into evaluation mode")
    hook = Hook(prompts, c["scores"])
    g.register_step_hook(hook)
    torch.manual_seed(c["seed"])
    return g(*args)


def check(c, out, logits_of, prompts, lo, hi, what="", tol=1e-4):
    expect_eq(len(out.hypotheses), len(prompts), f"{what}number of results")
    sampler = make_sampler(c)
    for i, (p, hyps) in enumerate(zip(prompts, out.hypotheses)):
        expect_eq(len(hyps), c["gens"], f"{what}number of generations for prompt {i}")
        start = 0 if c["echo"] else len(p)
        last = None
        for h in hyps:
            seq = h.seq.tolist()
            full = seq if c["echo"] else list(p) + seq
            expect_eq(full[: len(p)], list(p), f"{what}prompt {i} within its generation")
            body = full[len(p) :]
            expect(len(body) >= 1 and body[-1] == c["eos"] and c["eos"] not in body[:-1], f"{what}generation {body} of prompt {i} does not end with its first EOS ({c['eos']})")
            expect(lo <= len(full) <= hi, f"{what}generation of {len(full)} tokens for limits of {lo} and {hi}")
            ss = [0.0]
            for t in range(1, len(full)):
                raw = step_probs(logits_of(i, full[:t]), c["temp"])
                tok = full[t]
                if t < len(p) or t == hi - 1:
                    ss.append(raw[tok])
                    continue
                pr = processed(raw, full[:t], c, t < lo - 1)
                ss.append(pr[tok])
                if sum(pr) <= 0:
                    return "stuck"
                expect(pr[tok] > 0, f"{what}token {tok} was drawn after {full[:t]}, but is forbidden")
                if c["sampler"] == "pick":
                    want = sampler.ref(pr)
                    if want is None:
                        break
                    expect_eq(tok, want, f"{what}choice after {full[:t]} (prompt {p})")
                else:
                    r = sampler_probs("p" if c["sampler"] == "p" else "k", c["arg"] / 5 if c["sampler"] == "p" else 1 if c["sampler"] == "k1" else c["arg"] + 1, torch.tensor(pr))
                    if r is not None:
                        expect(tok in r[1], f"{what}token {tok} was drawn after {full[:t]}, but only {r[1]} are admissible")
            if len(ss) < len(full):
                continue  # a tie
            if not c["scores"]:
                expect(h.score is None and h.step_scores is None, f"{what}scores that were not asked for")
                continue
            expect_eq(len(h.step_scores), len(seq), f"{what}number of step scores")
            for t, (a, b) in enumerate(zip(h.step_scores.tolist(), ss[start:])):
                expect(abs(a - b) <= tol, f"{what}step score {t} of generation {seq} (prompt {p}) is {a}, but the model gives {b}")
            tot = sum(math.log(x) for x in ss[1:])
            score = tot / ((len(full) - 1) ** c["len_penalty"] if c["norm"] else 1)
            expect(abs(float(h.score) - score) <= 10 * tol * (1 + abs(tot)), f"{what}score of generation {full} is {float(h.score)}, not {score}")
            expect(last is None or float(h.score) <= last + 1e-7, f"{what}the generations are not in the order of their scores")
            last = float(h.score)
        if c["sampler"] in ("pick", "k1"):
            expect(all(torch.equal(h.seq, hyps[0].seq) for h in hyps), f"{what}generations of a sampler without chance differ")
    return None


def limits(c, prompts, max_gen, model_max):
    cap = model_max if c["max_seq"] is None else min(c["max_seq"], model_max)
    k = max(map(len, prompts))
    return k, cap, min(cap, k + c["min_gen"]), min(cap, k + max_gen)


def toy_arm(ctx, c):
    dist = gen.Dist(c["seed"], c["v"], c["scale"], c["eos_bias"], c["eos"])
    prompts, s2s, max_gen = c["prompts"], c["s2s"], c["max_gen"]
    if s2s:
        max_gen = int(c["a"] * max(map(len, c["srcs"])) + c["max_gen"])
    k, cap, lo, hi = limits(c, prompts, max_gen, c["model_max"])
    model = (gen.ToyS2S if s2s else gen.ToyLM)(dist, c["model_max"])
    srcs = c["srcs"] if s2s else None
    if k >= cap:
        ctx.label("too long")
        raises(ValueError, lambda: generate(c, model, prompts, srcs, c["max_gen"]))
        return
    ctx.label(c["sampler"])
    if len({len(p) for p in prompts}) > 1:
        ctx.label("mixed lengths")
    if len(prompts) > 1 or c["gens"] > 1:
        ctx.nontrivial()
    out = generate(c, model, prompts, srcs, c["max_gen"])
    if check(c, out, lambda i, s: dist(tuple(c["srcs"][i]) if s2s else (), s), prompts, lo, hi):
        ctx.label("stuck")


# ---------------------------------------------------------------- real models
@st.composite
def model_cases(draw):
    fam = draw(st.sampled_from(["llama", "qwen", "mistral", "olmo", "gemma3n", "nllb", "s2t_transformer"]))
    c = draw(options())
    c.update(family=fam, cfg=draw(models.CLM[fam]() if fam in models.CLM else models.S2S[fam]()), v=models.VOCAB, a=0, model_max=None,
             slens=[draw(st.integers(1, 5)) for _ in c["prompts"]])
    c["max_gen"] = c["min_gen"] + draw(st.integers(0, 4))
    return c


def model_arm(ctx, c):
    fam = c["family"]
    ctx.label(fam)
    ctx.nontrivial()
    m = models.randomise(models.make_model(fam, c["cfg"]), c["seed"])
    m.eval()
    prompts = c["prompts"]
    with torch.no_grad():
        if fam in models.CLM:
            srcs = None
            mmax = m.max_seq_len
        else:
            g = torch.Generator().manual_seed(c["seed"])
            if fam == "nllb":
                rows = [torch.randint(1, 20, (k,), generator=g) for k in c["slens"]]
            else:
                rows = [torch.randn(4 * k + 4, c["cfg"]["num_fbank_channels"], generator=g) for k in c["slens"]]
            pad = torch.nn.utils.rnn.pad_sequence(rows, batch_first=True)
            srcs = (pad, BatchLayout(pad.shape[:2], seq_lens=[len(r) for r in rows]))
            mmax = m.max_target_seq_len
        k, cap, lo, hi = limits(c, prompts, c["max_gen"], mmax)
        if k >= cap:
            return
        out = generate(c, m, prompts, srcs, c["max_gen"])
        memo = {}

        def logits_of(i, s):
            key = (i if srcs is not None else 0, tuple(s))
            if key not in memo:
                t = torch.tensor([s])
                if srcs is None:
                    memo[key] = m(t, BatchLayout.of(t))[0, -1]
                else:
                    r = rows[i][None]
                    memo[key] = m(r, BatchLayout(r.shape[:2], seq_lens=[r.shape[1]]), t, BatchLayout.of(t))[0, -1]
            return memo[key]

        check(c, out, logits_of, prompts, lo, hi, f"{fam}: ", tol=3e-4)


# ---------------------------------------------------------------- distribution end to end
@st.composite
def freq_cases(draw):
    v = draw(st.integers(3, 5))
    return dict(v=v, seed=draw(st.integers(0, 9999)), k=draw(st.integers(2, 5)), p=draw(st.sampled_from([0.5, 0.9, 1.0])), kind=draw(st.sampled_from(["k", "p"])),
                prompts=draw(st.lists(st.lists(st.integers(0, v - 1), min_size=1, max_size=3), min_size=1, max_size=3)), temp=draw(st.sampled_from([0.6, 1.0])))


def freq_arm(ctx, c):
    """Over many generations, each continuation occurs as often as its probability says."""
    ctx.nontrivial()
    v, n = c["v"], 1500
    dist = gen.Dist(c["seed"], v, 1.5)
    s = TopKSampler(c["k"]) if c["kind"] == "k" else TopPSampler(c["p"])
    g = SamplingSequenceGenerator(gen.ToyLM(dist, 30), gen.vocab_info(v, None, 0, None), s, num_gens=n, max_gen_len=3, temperature=c["temp"])
    torch.manual_seed(c["seed"])
    k = max(map(len, c["prompts"]))
    out = g(*gen.pad_batch(c["prompts"], 0))
    for p, hyps in zip(c["prompts"], out.hypotheses):
        expect_eq(len(hyps), n, "number of generations")
        counts = {}
        for h in hyps:
            seq = h.seq.tolist()
            for t in range(1, len(seq) + 1):
                counts[tuple(seq[:t])] = counts.get(tuple(seq[:t]), 0) + 1
        todo = [((), n)]
        for pre, tot in todo:
            if len(p) + len(pre) >= k + 2 or (pre and pre[-1] == 0) or tot < 50:
                continue
            pr = torch.tensor(step_probs(dist((), list(p) + list(pre)), c["temp"]))
            if len(p) + len(pre) < k:
                pr[0] = 0  # the shortest length counts from the longest prompt
            r = sampler_probs(c["kind"], c["k"] if c["kind"] == "k" else c["p"], pr)
            if r is None:
                continue
            mass = sum(float(pr[i]) for i in r[1])
            for i in range(v):
                q = float(pr[i]) / mass if i in r[1] else 0.0
                cnt = counts.get(pre + (i,), 0)
                expect(abs(cnt / tot - q) <= 6 * math.sqrt(q * (1 - q) / tot) + (12 / tot if q else 0), f"after {list(p) + list(pre)}, token {i} was drawn {cnt} times of {tot}, but has probability {q}")
                if cnt:
                    todo.append((pre + (i,), cnt))


# ---------------------------------------------------------------- arguments
arg_cases = st.fixed_dictionaries(dict(fault=st.sampled_from(["nan", "noeos", "min", "max", "minmax", "chunk", "cap", "packed", "s2smax"]), at=st.integers(1, 4)))


def arg_arm(ctx, c):
    ctx.nontrivial()
    f = c["fault"]
    dist = gen.Dist(0, 6)
    mk = lambda **k: SamplingSequenceGenerator(gen.ToyLM(dist, 20), gen.vocab_info(6, None, 1, 0), TopKSampler(2), **k)  # noqa: E731
    t = torch.tensor([[2, 3]])
    if f == "nan":
        d2 = lambda s, p: torch.full((6,), float("nan")) if len(p) == c["at"] else dist(s, p)  # noqa: E731
        gn = SamplingSequenceGenerator(gen.ToyLM(d2, 20), gen.vocab_info(6, None, 1, 0), TopKSampler(2), min_gen_len=6, max_gen_len=8)
        ex = raises(SequenceGenerationError, lambda: gn(t, BatchLayout.of(t)))
        expect_eq(ex.step_nr, None if c["at"] < 2 else c["at"], "step of the error")
    elif f == "noeos":
        raises(ValueError, lambda: SamplingSequenceGenerator(gen.ToyLM(dist, 20), gen.vocab_info(6, None, None, 0), TopKSampler(2)))
    elif f == "min":
        raises(ValueError, lambda: mk(min_gen_len=0))
    elif f == "max":
        raises(ValueError, lambda: mk(max_gen_len=0))
    elif f == "minmax":
        raises(ValueError, lambda: mk(min_gen_len=3, max_gen_len=2))
    elif f == "chunk":
        raises(ValueError, lambda: mk(prefill_chunk_size=0))
    elif f == "cap":
        raises(ValueError, lambda: mk(decode_capacity_increment=0))
    elif f == "packed":
        raises((ValueError, IndexError), lambda: mk()(torch.tensor([2, 3, 4]), BatchLayout((3,), seq_lens=[1, 2], packed=True)))
    else:
        g2 = SamplingSeq2SeqGenerator(gen.ToyS2S(dist, 20), gen.vocab_info(6, None, 1, 0), TopKSampler(2), max_gen_len=(0.0, 2), min_gen_len=3)
        raises(ValueError, lambda: g2(t, BatchLayout.of(t), t, BatchLayout.of(t)))


main(Prop("G02", [
    Arm("samplers", sampler_cases, sampler_arm, quick=2500, thorough=10000),
    Arm("toy", toy_cases, toy_arm, quick=2000, thorough=12000),
    Arm("models", model_cases, model_arm, quick=250, thorough=1500),
    Arm("freq", freq_cases, freq_arm, quick=25, thorough=400),
    Arm("arguments", lambda: arg_cases, arg_arm, quick=40, thorough=100),
], rule="several prompts or generations, or a distribution of which only a part is admissible",
    assumptions=["length limits count from the longest prompt of the batch", "at least one token is admissible at each step", "frequencies: six standard deviations"]))

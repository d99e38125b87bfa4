"""D04: ranks read data in lockstep without losing batches."""
import boot

boot.boot(recipe=True)

from gangs import run_ranks, thread_gangs
from harness import Arm, Prop, Violation, expect, expect_eq, main
from hypothesis import strategies as st

from fairseq2.data.data_pipeline import DataPipelineError
from fairseq2.datasets.data_reader import DataPipelineReader, DataReadError, SyncMode
from fairseq2.device import CPU
from fairseq2.gang import FakeGang, Gangs, create_fake_gangs


class Pipe:
    """A data pipeline over a list that depends on the epoch."""

    def __init__(self, rank, lens, fail=None):
        self.rank, self.lens, self.fail = rank, lens, fail
        self.epoch = self.pos = 0
        self.strict = None

    def n(self):
        return self.lens[self.epoch % len(self.lens)]

    def item(self, e, i):
        return (self.rank, e, i)

    def __iter__(self):
        pipe = self

        class It:
            def __iter__(self):
                return self

            def __next__(self):
                if pipe.pos >= pipe.n():
                    raise StopIteration
                if pipe.fail == (pipe.epoch, pipe.pos):
                    raise DataPipelineError("broken example")
                pipe.pos += 1
                return pipe.item(pipe.epoch, pipe.pos - 1)

        return It()

    def reset(self, reset_rng=False):
        self.epoch += 1
        self.pos = 0

    def state_dict(self, strict=True):
        self.strict = strict
        return {"e": self.epoch, "p": self.pos}

    def load_state_dict(self, d):
        self.epoch, self.pos = d["e"], d["p"]


def cases():
    def body(ranks, tp):
        return st.fixed_dictionaries(dict(
            ranks=st.just(ranks), tp=st.just(tp), lens=st.lists(st.lists(st.one_of(st.integers(0, 5), st.integers(0, 12)), min_size=ranks // tp, max_size=ranks // tp), min_size=1, max_size=2),
            acc=st.integers(1, 4), drop=st.booleans(), mode=st.sampled_from(list(SyncMode)), sync=st.sampled_from([True, True, True, False]),
            ops=st.lists(st.sampled_from(["next", "next", "next", "next", "save", "load", "fresh", "reset"]), min_size=3, max_size=24), strict=st.booleans(),
            epochs=st.integers(1, 3),
        ))

    return st.sampled_from([(1, 1), (2, 1), (2, 1), (3, 1), (4, 1), (2, 2), (4, 2)]).flatmap(lambda t: body(*t))


def expected(c, epoch):
    """Reads of an epoch: for each read, the list of each dp rank."""
    lens = c["lens"][epoch % len(c["lens"])]
    acc, drop = c["acc"], c["drop"]
    dp = c["ranks"] // c["tp"]

    def own(n):
        out = [list(range(i, min(i + acc, n))) for i in range(0, n, acc)]
        if drop:
            out = [b for b in out if len(b) == acc]
        return out

    if not c["sync"] or dp == 1:
        return None, [own(n) for n in lens]
    if c["mode"] == SyncMode.UNTIL_FIRST:
        m = min(lens)
        return len(own(m)), [own(m)] * dp
    per = [own(n) for n in lens]
    k = max(len(p) for p in per)
    return k, [p + [[]] * (k - len(p)) for p in per]


def check(ctx, c):
    def gangs_of(g):
        if c["ranks"] == 1:
            return create_fake_gangs(CPU)
        return thread_gangs(g, c["tp"])

    def body(g):
        gangs = gangs_of(g)
        r = gangs.dp.rank

        def build():
            p = Pipe(r, [l[r] for l in c["lens"]])
            return p, DataPipelineReader(p, gangs, num_accumulate=c["acc"], drop_remainder=c["drop"], sync=c["sync"], sync_mode=c["mode"], strict_state=c["strict"])

        pipe, reader = build()
        expect_eq(reader.num_accumulate, c["acc"], "num_accumulate")
        epoch, pos, eod = 0, 0, False
        saved = None
        restored = ended = 0

        def read():
            nonlocal pos, eod, ended
            _, exp = expected(c, epoch)
            want = exp[r][pos] if not eod and pos < len(exp[r]) else None
            try:
                got = next(reader)
            except StopIteration:
                got = None
            if want is None:
                expect(got is None, lambda: f"rank {r}: read {pos} of epoch {epoch}: got {got} after the end of data")
                eod = True
                ended += 1
            else:
                expect_eq(got, [(r, epoch, i) for i in want], f"rank {r}: read {pos} of epoch {epoch}")
                pos += 1

        # Without synchronisation the ranks do not end together, so they may not
        # issue different operations either: all of them follow the same list.
        for op in c["ops"]:
            if op == "next":
                read()
            elif op == "save":
                if eod:
                    continue  # (what follows the end of data is a reset)
                saved = (epoch, pos, dict(reader.state_dict()))
                expect_eq(pipe.strict, c["strict"], "strictness asked of the pipeline")
            elif op in ("load", "fresh"):
                sd = saved
                all_saved = gangs.root.size == 1 or True
                if sd is None:
                    continue
                if op == "fresh":
                    pipe, reader = build()
                    for _ in range(pos % 3 if not c["sync"] else 0):
                        read_any(reader)
                reader.load_state_dict(dict(sd[2]))
                epoch, pos, eod = sd[0], sd[1], False
                restored += 1
            elif op == "reset":
                reader.reset()
                epoch, pos, eod = epoch + 1, 0, False
        # From here to the end of some epochs.
        for _ in range(c["epochs"]):
            for _ in range(20):
                if eod:
                    break
                read()
            expect(eod, "data does not end")
            for _ in range(2):
                read()
            reader.reset()
            epoch, pos, eod = epoch + 1, 0, False
        return restored, ended

    if not c["sync"]:
        # A save depends on a rank's own end of data then.
        c = dict(c, ops=[o for o in c["ops"] if o != "save"])
    res = run_ranks(c["ranks"], body) if c["ranks"] > 1 else [body(None)]
    lens = c["lens"][0]
    ctx.nontrivial(len(set(lens)) > 1 and c["sync"])
    if res[0][0]:
        ctx.label("restored")
    ctx.label(c["mode"].name if c["sync"] else "no_sync", f"ranks_{c['ranks']}")


def read_any(reader):
    try:
        next(reader)
    except StopIteration:
        pass


def fail_cases():
    return st.tuples(st.integers(0, 6), st.integers(1, 4), st.integers(0, 7))


def check_fail(ctx, case):
    """An error of the pipeline is reported, and not taken for the end of data."""
    n, acc, at = case
    pipe = Pipe(0, [n], fail=(0, at))
    reader = DataPipelineReader(pipe, create_fake_gangs(CPU), num_accumulate=acc)
    got = []
    try:
        while True:
            got += next(reader)
    except StopIteration:
        expect(at >= n, f"the error at example {at} was taken for the end of data")
        expect_eq(len(got), n, "number of examples")
    except DataReadError:
        expect(at < n, "an error out of nothing")
        expect_eq(len(got), at // acc * acc, "number of examples before the error")
        ctx.nontrivial()


main(Prop(
    "D04",
    [Arm(f"lockstep{i}", cases, check, quick=500, thorough=20000, timeout=90) for i in range(5)] + [Arm("errors", fail_cases, check_fail, quick=150, thorough=1000)],
    rule="the ranks have different amounts of data and synchronise (errors: the pipeline fails)",
    assumptions=[
        "the pipeline is a list stand-in with the native pipeline's protocol; reading through the native one is part of D02",
        "ranks are threads that join real collectives of a simulated gang; all ranks save, load and reset at the same reads",
    ],
))

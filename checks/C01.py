"""C01: checkpoints survive a crash at any point of a save or delete.

A history of saves and deletions runs in a forked process that is killed just
before the k-th file system event of one of its ranks, or while a file grows past
a number of bytes. A fresh manager then looks at what is left.
"""
import boot

boot.boot()

import os
import pickle
import resource
import shutil
import signal
import sys
import tempfile
import threading
from pathlib import Path

import torch
from ckpt import DIR_NAMES, LazyPool, State, build, grid, layouts, manager, same
from gangs import run_ranks
from harness import Arm, Ctx, HarnessError, Prop, Violation, expect, expect_eq, main
from hypothesis import strategies as st

WATCH = {"open", "os.rename", "os.remove", "os.rmdir", "os.mkdir", "os.link", "os.symlink", "os.truncate", "os.utime", "os.chmod",
         "shutil.rmtree", "shutil.move", "shutil.copytree", "shutil.copyfile"}


class Killer:
    """Ends the process before the k-th watched event of one rank."""

    def __init__(self):
        self.on = False
        self.dir = ""
        self.rank = 0
        self.left = 0
        self.local = threading.local()
        self.fd = -1

    def __call__(self, event, args):
        if not self.on or event not in WATCH:
            return
        if getattr(self.local, "rank", None) != self.rank:
            return
        if event == "open":
            if not isinstance(args[1], str):
                # os.open: counted only when it writes
                if args[2] is None or not (args[2] & (os.O_WRONLY | os.O_RDWR | os.O_CREAT)):
                    return
            elif not any(c in args[1] for c in "wax+"):
                return
        p = args[0]
        if isinstance(p, (str, bytes, os.PathLike)):
            q = os.fsdecode(p)
            # Relative names come from directory-descriptor calls of rmtree.
            if os.path.isabs(q) and not q.startswith(self.dir):
                return
        self.left -= 1
        if self.left < 0:
            os.write(self.fd, f"{event} {args[0]}".encode()[:200])
            os._exit(9)


KILLER = Killer()
sys.addaudithook(KILLER)


def states_of(step, r, gangs_coord, spec, full):
    """The states that a rank saves for a step."""
    dp, tp, sdp = gangs_coord
    tr = {"who": ("trainer", step, r), "v": build(spec, step + r)}
    mod = {"w": torch.full((3 + step % 3,), float(step * 100 + tp * 10 + sdp)), "b": torch.arange(tp + sdp + 2) + step}
    opt = {"who": ("optimizer", step, tp, sdp), "m": torch.full((40,), float(step + tp + sdp)), "v": build(spec, step + tp)}
    dr = {"who": ("reader", step, dp), "pos": step * 7 + dp}
    return (tr, mod, opt, dr) if full else (None, mod, None, None)


def coord(n, tp, sdp, r):
    rdp = n // (tp * sdp)
    if n == 1:
        return (0, 0, 0)
    t, s = r % tp, (r // tp) % sdp
    return ((r // tp), t, s)


def run_history(out, case, pipe_w):
    """In the forked process; reports each completed operation."""
    (n, tp, sdp), fs, ops, spec, crash, _ = case
    op_i, rank, kind, k = crash

    def body(root):
        KILLER.local.rank = root.rank
        gangs = grid(root, tp, sdp)
        pool = LazyPool()
        m = manager(out, gangs, fs, pool)
        for i, op in enumerate(ops):
            if i == op_i:
                root.barrier()
                if root.rank == 0:
                    arm(rank % n, kind, k, out)
                root.barrier()
            do(m, op, root.rank, coord(n, tp, sdp, root.rank), spec)
            root.barrier()
            if root.rank == 0:
                os.write(pipe_w, b".")
        if op_i < len(ops):
            m.maybe_complete_save_operation(blocking=True)
        root.barrier()

    run_ranks(n, body)
    os.write(pipe_w, b"E")


def do(m, op, r, co, spec):
    name = op[0]
    if name in ("save", "model"):
        _, step, blocking = op
        tr, mod, opt, dr = states_of(step, r, co, spec, name == "save")
        if name == "save":
            m.save_checkpoint(step, State(tr), State(mod), State(opt), State(dr), blocking=blocking)
        else:
            m.save_model_only(step, State(mod), blocking=blocking)
    elif name == "wait":
        m.maybe_complete_save_operation(blocking=op[1])
    elif name == "score":
        m.save_score(op[1], float(op[1]) / 3)
    elif name == "delete":
        m.delete_checkpoint(op[1], keep_model=op[2])


def arm(rank, kind, k, out):
    if kind == "event":
        KILLER.dir, KILLER.rank, KILLER.left = str(out), rank, k
        KILLER.on = True
    else:
        resource.setrlimit(resource.RLIMIT_FSIZE, (k * 97, k * 97))


def model_of(ops, upto):
    """What must be, and what may be, on disk after `upto` completed operations
    with operation number `upto` possibly under way."""
    must, may, pending = {}, {}, None  # step -> "full" | "model"

    def commit():
        nonlocal pending
        if pending:
            must[pending[0]] = pending[1]
            pending = None

    for op in ops[:upto]:
        if op[0] in ("save", "model"):
            commit()
            must.pop(op[1], None)
            what = "full" if op[0] == "save" else "model"
            if op[2]:
                must[op[1]] = what
            else:
                pending = (op[1], what)
        elif op[0] == "wait":
            commit()
        elif op[0] == "delete":
            if pending and pending[0] == op[1]:
                commit()  # not generated
            if op[2]:
                if op[1] in must:
                    must[op[1]] = "model"
            else:
                must.pop(op[1], None)
    may = dict(must)
    if upto < len(ops):
        op = ops[upto]
        if op[0] in ("save", "model"):
            if pending:
                may[pending[0]] = pending[1]
            old = must.pop(op[1], None)  # being replaced
            may[op[1]] = ("full" if op[0] == "save" else "model", old)
        elif op[0] == "wait" and pending:
            may[pending[0]] = pending[1]
        elif op[0] == "delete":
            old = must.pop(op[1], None)
            if old and op[2]:
                must[op[1]] = "model"
                may[op[1]] = (old, "model")
    elif pending:
        may[pending[0]] = pending[1]
    return must, may


def valid(ops):
    """Keeps to what the trainer does: no deletion of the step being saved."""
    out, pending = [], None
    for op in ops:
        if op[0] == "delete" and op[1] == pending:
            out.append(("wait", True))
            pending = None
        if op[0] in ("save", "model"):
            pending = None if op[2] else op[1]
        elif op[0] == "wait":
            pending = None
        out.append(op)
    return out


def cases():
    step = st.integers(1, 6)
    op = st.one_of(
        st.tuples(st.just("save"), step, st.booleans()),
        st.tuples(st.just("save"), step, st.booleans()),
        st.tuples(st.just("model"), step, st.booleans()),
        st.tuples(st.just("wait"), st.just(True)),
        st.tuples(st.just("score"), step),
        st.tuples(st.just("delete"), step, st.booleans()),
        st.tuples(st.just("delete"), step, st.booleans()),
    )
    hist = st.lists(op, min_size=2, max_size=6).map(valid)
    # Histories whose last operation has something to interrupt.
    tail = st.sampled_from([
        [("save", 3, True)], [("save", 3, False), ("wait", True)], [("save", 3, True), ("delete", 3, False)], [("save", 3, True), ("delete", 3, True)],
        [("save", 3, True), ("save", 3, True)], [("save", 3, False), ("save", 4, False), ("wait", True)], [("model", 2, True), ("delete", 2, False)],
        [("save", 3, True), ("score", 3)], [("save", 3, True), ("score", 3), ("score", 3)], [("save", 2, True), ("score", 2)],
    ])
    hist = st.one_of(hist, st.tuples(hist, tail).map(lambda t: valid(t[0] + t[1])))
    spec = st.sampled_from([0, ("T", ("float32", (40,), 3, "plain")), [1, "x", ("tuple", [2, 3])]])

    def crash(h):
        idx = st.one_of(st.just(len(h) - 1), st.integers(0, len(h) - 1))
        return st.one_of(
            st.tuples(idx, st.integers(0, 3), st.just("event"), st.integers(0, 30)),
            st.tuples(idx, st.just(0), st.just("event"), st.integers(0, 14)),
            st.tuples(idx, st.just(0), st.just("bytes"), st.one_of(st.just(0), st.integers(0, 24))),
        )

    return hist.flatmap(lambda h: st.tuples(layouts(3), st.sampled_from(["global", "native"]), st.just(h), spec, crash(h), st.sampled_from(DIR_NAMES)))


def load_all(m, out, lay, fs, step, spec, what):
    """Loads a step on every rank; the first problem found, or None."""
    n, tp, sdp = lay
    bad = []

    def body(root):
        gangs = grid(root, tp, sdp)
        mm = manager(out, gangs, fs)
        r = root.rank
        exp = states_of(step, r, coord(n, tp, sdp, r), spec, True)
        names = ["trainer", "model", "optimizer", "data_reader"] if what == "full" else ["model"]
        for name in names:
            e = exp[["trainer", "model", "optimizer", "data_reader"].index(name)]
            s = State()
            try:
                getattr(mm, f"load_{name}_state")(step, s)
            except Exception as ex:
                bad.append(f"rank {r}: {name} state of step {step} does not load: {type(ex).__name__}: {ex}")
                continue
            if d := same(s.d, e):
                bad.append(f"rank {r}: {name} state of step {step} differs: {d}")

    run_ranks(n, body)
    return min(bad) if bad else None


def check(ctx, case):
    lay, fs, ops, spec, crash, dirname = case
    n, tp, sdp = lay
    base = Path(tempfile.mkdtemp(prefix="c01_", dir=os.environ.get("FS2V_SCRATCH")))
    try:
        out = base / dirname
        out.mkdir()
        pr, pw = os.pipe()
        er, ew = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(pr)
                KILLER.fd = ew
                signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
                torch.set_num_threads(1)  # renews the pool that the fork left behind, before there are threads
                run_history(out, case, pw)
                os._exit(0)
            except BaseException:
                import traceback

                os.write(ew, ("X" + traceback.format_exc()[-3000:]).encode())
                os._exit(7)
        os.close(pw)
        os.close(ew)
        _, status = os.waitpid(pid, 0)
        log = b""
        while c := os.read(pr, 4096):
            log += c
        note = b""
        while c := os.read(er, 4096):
            note += c
        os.close(pr)
        os.close(er)
        note = note.decode(errors="replace")
        if note.startswith("X"):
            raise Violation(f"the history failed by itself: {note[1:]}")
        done = log.count(b".")
        ended = b"E" in log
        if ended or done == len(ops):
            ops = ops + [("wait", True)]
            done = len(ops) if ended else done
        killed = os.WIFSIGNALED(status) or os.WEXITSTATUS(status) == 9
        if not killed and not ended:
            raise HarnessError(f"unexpected end: {status}")
        must, may = model_of(ops, done)
        at = "the end" if ended else f"operation {done} {ops[done]} ({note or 'while writing'})"

        # Nothing that is left may hurt a fresh manager.
        fresh = manager(out, grid_one(), fs)
        listed = fresh.get_step_numbers()
        full = fresh.get_step_numbers(exclude_model_only=True)
        expect_eq(listed, sorted(set(listed)), "step numbers are not ascending")
        expect(set(full) <= set(listed), "a full checkpoint is not listed at all")
        for s, what in must.items():
            expect(s in listed, f"committed step {s} is gone after a crash at {at}; listed: {listed}")
            if what == "full":
                expect(s in full, f"step {s} can no longer be resumed from after a crash at {at}")
        expect_eq(fresh.maybe_get_last_step_number(), listed[-1] if listed else None, "last step")
        expect_eq(fresh.has_checkpoint(), bool(listed), "has_checkpoint")
        try:
            scores = {s: v for v, s in fresh.load_scores()}
        except Exception as ex:
            raise Violation(f"scores no longer load after a crash at {at}: {type(ex).__name__}: {ex}")
        known, open_ = scores_of(ops, done)
        for s in listed:
            if s not in open_:
                expect_eq(scores.get(s), known.get(s), f"score of step {s} after a crash at {at}")
            elif s in scores:
                expect(scores[s] == s / 3, f"score of step {s} is {scores[s]} after a crash at {at}")
        for s in listed:
            expect(s in may or s in deleting(ops, done), f"step {s}, which was never saved completely, is listed after a crash at {at}")
            p = load_all(fresh, out, lay, fs, s, spec, "full" if s in full else "model")
            expect(p is None, lambda: f"after a crash at {at}, step {s} is listed{' as complete' if s in full else ''} but {p}")

        # Life goes on.
        def body(root):
            gangs = grid(root, tp, sdp)
            m = manager(out, gangs, fs)
            steps = [9, 3] if ended or ops[done][0] in ("score", "wait") else [ops[done][1], 9]
            for s in steps:
                tr, mod, opt, dr = states_of(s, root.rank, coord(n, tp, sdp, root.rank), spec, True)
                m.save_checkpoint(s, State(tr), State(mod), State(opt), State(dr), blocking=True)
            m.delete_checkpoint(5)
            return steps

        steps = run_ranks(n, body)[0]
        listed2 = fresh.get_step_numbers(exclude_model_only=True)
        for s in steps:
            expect(s in listed2 or s == 5, f"step {s} saved after the crash at {at} is not listed: {listed2}")
        for s in listed2:
            p = load_all(fresh, out, lay, fs, s, spec, "full")
            expect(p is None, lambda: f"after saving again: {p}")
        expect_eq(sorted((set(listed) | set(steps)) - {5}), fresh.get_step_numbers(), "steps after saving again and deleting step 5")
        ctx.nontrivial(killed and not ended)
        if killed:
            ctx.label(f"in_{ops[done][0]}", "bytes" if crash[2] == "bytes" else "event")
        else:
            ctx.label("no_crash")
    finally:
        shutil.rmtree(base)


def scores_of(ops, done):
    """The scores on disk, and the steps whose score an interrupted operation touches."""
    known, open_ = {}, set()
    for i, op in enumerate(ops[: done + 1]):
        if op[0] in ("save", "model") or (op[0] == "delete" and not op[2]):
            known.pop(op[1], None)
        elif op[0] == "score":
            known[op[1]] = op[1] / 3
        else:
            continue
        if i == done:
            open_.add(op[1])
    return known, open_


def deleting(ops, done):
    return {ops[done][1]} if done < len(ops) and ops[done][0] == "delete" else set()


def grid_one():
    from fairseq2.device import CPU
    from fairseq2.gang import create_fake_gangs

    return create_fake_gangs(CPU)


main(Prop(
    "C01",
    [Arm(f"crash{i}", cases, check, quick=150, thorough=4000, timeout=120) for i in range(6)],
    rule="a history whose process was killed in the middle of an operation",
    assumptions=[
        "a crash is the death of all ranks' processes; what the kernel was handed before it is not lost (no power failure)",
        "local file systems (native and fsspec); ranks are threads of one process",
    ],
))

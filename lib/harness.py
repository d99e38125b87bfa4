"""Shared machinery: runs the arms of a property, counts, shrinks, reports.

An arm is a function `fn(ctx, case)` over cases drawn from one Hypothesis
strategy. It raises Violation (through `expect*`) when the property does not
hold for the case. An exception that escapes from fairseq2's own code on a valid
case is a violation as well; one that comes from the harness is an error exit.
"""
from __future__ import annotations

import base64
import hashlib
import json
import multiprocessing as mp
import os
import pickle
import signal
import sys
import tempfile
import time
import traceback
import zlib
from collections import Counter
from dataclasses import dataclass, field
from pathlib import Path
from typing import Any, Callable

VERIF = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get("FS2_REPO", "/repo"))


class Violation(AssertionError):
    pass


class HarnessError(Exception):
    pass


def expect(cond: Any, msg: str | Callable[[], str] = "") -> None:
    if not cond:
        raise Violation(msg() if callable(msg) else msg)


def expect_eq(a: Any, b: Any, msg: str = "") -> None:
    if not (a == b):
        raise Violation(f"{msg}: got {short(a)}, expected {short(b)}")


def short(x: Any, n: int = 600) -> str:
    s = repr(x)
    return s if len(s) <= n else s[:n] + "..."


def expect_close(a, b, msg: str = "", atol: float = 1e-5, rtol: float = 1e-4) -> None:
    import torch

    if tuple(a.shape) != tuple(b.shape):
        raise Violation(f"{msg}: shape {tuple(a.shape)} vs expected {tuple(b.shape)}")
    a, b = a.detach(), b.detach()
    if not torch.allclose(a.to(torch.float64), b.to(torch.float64), atol=atol, rtol=rtol, equal_nan=True):
        d = (a.to(torch.float64) - b.to(torch.float64)).abs().nan_to_num(float("inf")).max().item()
        raise Violation(f"{msg}: max abs diff {d}; got {short(a)}, expected {short(b)}")


def raises(types, fn: Callable[[], Any], msg: str = "") -> BaseException:
    """Expects `fn` to raise one of `types`."""
    try:
        r = fn()
    except types as ex:  # type: ignore[misc]
        return ex
    raise Violation(f"{msg}: expected {types}, but got the result {short(r)}")


class Ctx:
    def __init__(self) -> None:
        self.labels: Counter[str] = Counter()
        self._nontrivial = False
        self.notes: list[str] = []
        self.known_hits: list[str] = []

    def label(self, *names: str) -> None:
        self.labels.update(names)

    def nontrivial(self, cond: Any = True) -> None:
        if cond:
            self._nontrivial = True


@dataclass
class Arm:
    name: str
    strategy: Callable[[], Any]
    fn: Callable[[Ctx, Any], None]
    quick: int = 100
    thorough: int = 2000
    timeout: float = 200.0  # soft, per arm, quick tier: no new case starts afterwards
    thorough_timeout: float = 3000.0
    isolate: bool = True
    rule: str = ""


@dataclass
class Prop:
    id: str
    arms: list[Arm]
    rule: str
    assumptions: list[str] = field(default_factory=list)
    jobs: int = 8


def _enc(case: Any) -> dict[str, Any]:
    d: dict[str, Any] = {"repr": short(case, 20000)}
    try:
        d["pickle"] = base64.b64encode(pickle.dumps(case)).decode()
    except Exception as ex:
        d["pickle_error"] = repr(ex)
    return d


def _from_repo(ex: BaseException) -> bool:
    """Whether fairseq2's code was on the stack when `ex` was raised."""
    seen = set()
    todo: list[BaseException | None] = [ex]
    while todo:
        e = todo.pop()
        if e is None or id(e) in seen:
            continue
        seen.add(id(e))
        tb = e.__traceback__
        while tb is not None:
            fn = tb.tb_frame.f_code.co_filename
            if fn.startswith(str(REPO) + "/"):
                return True
            tb = tb.tb_next
        todo.append(e.__cause__)
        if isinstance(e, BaseExceptionGroup):
            todo.extend(e.exceptions)
    return False


def _is_violation(ex: BaseException) -> bool:
    if isinstance(ex, Violation):
        return True
    if isinstance(ex, HarnessError):
        return False
    if isinstance(ex, (MemoryError, KeyboardInterrupt, SystemExit)):
        return False
    if type(ex).__module__.startswith("hypothesis"):
        return False
    if getattr(ex, "__fs2_native__", False):
        return True
    return _from_repo(ex)


def _known() -> dict[str, Any]:
    f = VERIF / "known_findings.json"
    return json.loads(f.read_text()) if f.exists() else {"findings": []}


class KnownFinding(Exception):
    """Raised by an arm when a case hits a listed finding."""

    def __init__(self, key: str, msg: str) -> None:
        super().__init__(msg)
        self.key = key


def run_arm(prop: Prop, arm: Arm, seed: int, tier: str, status: Path | None) -> dict[str, Any]:
    import hypothesis
    from hypothesis import HealthCheck, Phase, settings
    from hypothesis.internal.conjecture import engine

    engine.MAX_SHRINKING_SECONDS = 40 if tier == "quick" else 120

    n = arm.quick if tier == "quick" else arm.thorough
    limit = arm.timeout if tier == "quick" else arm.thorough_timeout
    if sc := os.environ.get("FS2_SCALE"):
        n = max(1, int(n * float(sc)))

    out: dict[str, Any] = {"arm": arm.name, "evaluations": 0, "skipped_time": 0, "violation": None, "error": None}
    labels: Counter[str] = Counter()
    nontrivial: set[str] = set()
    samples: list[str] = []
    known: Counter[str] = Counter()
    known_msgs: dict[str, str] = {}
    last_fail: list[Any] = []
    t0 = time.monotonic()
    listed = {f["id"] for f in _known().get("findings", []) if f.get("status") == "known" and f["property"] == prop.id}

    def one(case: Any) -> None:
        if not last_fail and time.monotonic() - t0 > limit:
            out["skipped_time"] += 1
            return
        ctx = Ctx()
        out["evaluations"] += 1
        if status is not None:
            status.write_text(json.dumps(_enc(case)))
        try:
            arm.fn(ctx, case)
        except KnownFinding as kf:
            if kf.key not in listed:
                last_fail.append((case, Violation(str(kf)), ""))
                raise Violation(f"[{kf.key}] {kf}") from None
            known[kf.key] += 1
            known_msgs.setdefault(kf.key, str(kf))
        except Exception as ex:
            if type(ex).__module__.startswith("hypothesis"):
                raise
            if _is_violation(ex):
                last_fail.append((case, ex, traceback.format_exc()))
                del last_fail[:-1]
            raise
        labels.update(ctx.labels)
        if ctx._nontrivial:
            h = hashlib.sha1(repr(case).encode()).hexdigest()
            if h not in nontrivial:
                nontrivial.add(h)
                if len(samples) < 3 or (len(samples) < 6 and len(nontrivial) % 37 == 0):
                    samples.append(f"{arm.name}: {short(case, 700)}")

    test = hypothesis.given(arm.strategy())(one)
    test = settings(
        max_examples=n, deadline=None, database=None, report_multiple_bugs=False, print_blob=False,
        phases=(Phase.explicit, Phase.generate, Phase.shrink), suppress_health_check=list(HealthCheck),
    )(test)
    arm_seed = zlib.crc32(f"{prop.id}/{arm.name}/{seed}".encode())
    test = hypothesis.seed(arm_seed)(test)

    try:
        test()
    except BaseException as ex:
        if isinstance(ex, KeyboardInterrupt):
            raise
        if last_fail:
            case, orig, tb = last_fail[-1]
            # Confirm outside Hypothesis.
            repro = False
            for _ in range(10):
                try:
                    arm.fn(Ctx(), case)
                except KnownFinding as kf:
                    repro = kf.key not in listed
                except Exception as ex2:
                    repro = _is_violation(ex2)
                    orig, tb = ex2, traceback.format_exc()
                if repro:
                    break
            # What depends on the schedule need not happen again.
            note = "" if repro else " (seen once; it depends on the schedule)"
            out["violation"] = {"case": _enc(case), "message": f"{type(orig).__name__}: {orig}"[:4000] + note, "traceback": tb[-6000:]}
        else:
            out["error"] = traceback.format_exc()[-6000:]
    out["labels"] = dict(labels)
    out["nontrivial"] = len(nontrivial)
    out["samples"] = samples
    out["known"] = dict(known)
    out["known_msgs"] = known_msgs
    out["seconds"] = round(time.monotonic() - t0, 2)
    return out


def _child(prop: Prop, idx: int, seed: int, tier: str, d: str) -> None:
    arm = prop.arms[idx]
    try:
        r = run_arm(prop, arm, seed, tier, Path(d, f"{idx}.case"))
    except BaseException:
        r = {"arm": arm.name, "evaluations": 0, "violation": None, "error": traceback.format_exc()[-6000:],
             "labels": {}, "nontrivial": 0, "samples": [], "known": {}, "known_msgs": {}, "seconds": 0}
    Path(d, f"{idx}.json").write_text(json.dumps(r))
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(0)


def main(prop: Prop) -> None:
    t0 = time.monotonic()
    args = sys.argv[1:]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = None
    only = None
    while args:
        a = args.pop(0)
        if a == "--replay":
            replay = args.pop(0)
        elif a == "--arm":
            only = args.pop(0)
        elif a in ("quick", "thorough"):
            tier = a
        else:
            raise SystemExit(f"unknown argument {a}")
    if tier not in ("quick", "thorough"):
        tier = "quick"

    if replay:
        r = json.loads(Path(replay).read_text())
        arm = next(a for a in prop.arms if a.name == r["arm"])
        case = pickle.loads(base64.b64decode(r["case"]["pickle"]))
        print(f"replaying {prop.id}/{arm.name}: {short(case, 3000)}")
        try:
            arm.fn(Ctx(), case)
        except Exception as ex:
            traceback.print_exc()
            if _is_violation(ex):
                print(f"VIOLATION property={prop.id} replay={replay}")
                sys.exit(1)
            sys.exit(3)
        print("the property holds for this case")
        sys.exit(0)

    sel = [i for i, a in enumerate(prop.arms) if only is None or a.name == only]
    results: dict[int, dict[str, Any]] = {}
    with tempfile.TemporaryDirectory(prefix=f"fs2v_{prop.id}_") as d:
        os.environ["FS2V_SCRATCH"] = d
        ctx = mp.get_context("fork")
        running: dict[int, Any] = {}
        todo = list(sel)
        sys.stdout.flush()
        while todo or running:
            while todo and len(running) < prop.jobs:
                i = todo.pop(0)
                pr = ctx.Process(target=_child, args=(prop, i, seed, tier, d))
                pr.start()
                running[i] = pr
            for i, pr in list(running.items()):
                pr.join(0.05)
                if pr.is_alive():
                    continue
                del running[i]
                f = Path(d, f"{i}.json")
                if f.exists():
                    results[i] = json.loads(f.read_text())
                    continue
                arm = prop.arms[i]
                r = {"arm": arm.name, "evaluations": 1, "violation": None, "error": None, "labels": {},
                     "nontrivial": 0, "samples": [], "known": {}, "known_msgs": {}, "seconds": 0}
                cf = Path(d, f"{i}.case")
                sig = -pr.exitcode if (pr.exitcode or 0) < 0 else 0
                if sig in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE, signal.SIGILL) and cf.exists():
                    r["violation"] = {"case": json.loads(cf.read_text()),
                                      "message": f"the process crashed with signal {sig}", "traceback": ""}
                else:
                    r["error"] = f"arm process ended with exit code {pr.exitcode}"
                results[i] = r

    viol, err = [], []
    for i in sel:
        r = results[i]
        print(f"[{prop.id}] {r['arm']}: {r['evaluations']} cases, {r['nontrivial']} non-trivial, {r['seconds']} s"
              + (f", {r['skipped_time']} skipped (time)" if r.get("skipped_time") else "")
              + (f" {r['labels']}" if r["labels"] else ""))
        for k, c in r["known"].items():
            print(f"KNOWN-FINDING: property={prop.id} {k}: {r['known_msgs'][k]} ({c} cases)")
        if r["violation"]:
            viol.append(r)
        if r["error"]:
            err.append(r)
            print(f"[{prop.id}] ERROR in {r['arm']}:\n{r['error']}", file=sys.stderr)

    ev = {
        "property": prop.id, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(r["evaluations"] for r in results.values()),
            "distinct_nontrivial": sum(r["nontrivial"] for r in results.values()),
            "rule": prop.rule,
            "samples": [s for r in results.values() for s in r["samples"]][:24],
            "arms": {r["arm"]: {"cases": r["evaluations"], "nontrivial": r["nontrivial"], "seconds": r["seconds"], "labels": r["labels"]}
                     for r in results.values()},
            "known_findings": {k: c for r in results.values() for k, c in r["known"].items()},
        },
        "assumptions": prop.assumptions,
        "wall_s": round(time.monotonic() - t0 + float(os.environ.get("FS2V_BOOT", "0")), 2),
        "violations": len(viol),
    }
    if not os.environ.get("FS2V_NO_EVIDENCE") and only is None:
        (VERIF / "evidence").mkdir(exist_ok=True)
        (VERIF / "evidence" / f"{prop.id}.json").write_text(json.dumps(ev, indent=1))

    if viol:
        rd = Path(os.environ.get("FS2V_REPLAYS", VERIF / "replays"))
        rd.mkdir(exist_ok=True)
        for r in viol:
            path = rd / f"{prop.id}_{r['arm']}.json"
            path.write_text(json.dumps({"property": prop.id, "arm": r["arm"], "seed": seed, **r["violation"]}, indent=1))
            print(f"[{prop.id}] {r['arm']}: {r['violation']['message']}\n  case: {r['violation']['case']['repr'][:3000]}")
            if os.environ.get("FS2V_TB"):
                print(r["violation"]["traceback"])
            print(f"VIOLATION property={prop.id} replay={path}")
        sys.stdout.flush()
        sys.exit(1)
    if err:
        sys.exit(3)
    print(f"[{prop.id}] held on everything explored ({ev['coverage']['evaluations']} cases, {ev['wall_s']} s)")
    sys.exit(0)

"""A small but real training set-up around fairseq2's Trainer."""
from __future__ import annotations

import hashlib
from dataclasses import dataclass, field, replace
from pathlib import Path
from typing import Any

import torch
from torch.amp.grad_scaler import GradScaler
from torch.distributed.fsdp.sharded_grad_scaler import ShardedGradScaler


# There is no GPU here, and PyTorch turns a scaler for CUDA (its default) off.
def _on_cpu(cls):
    init = cls.__init__

    def __init__(self, *args, **kwargs):
        if not args:
            kwargs.setdefault("device", "cpu")
        init(self, *args, **kwargs)

    cls.__init__ = __init__


_on_cpu(GradScaler)
_on_cpu(ShardedGradScaler)

import fairseq2.recipe  # noqa: F401  (must precede fairseq2.trainer)
from ckpt import LazyPool, manager

from fairseq2.checkpoint import NOOP_HG_EXPORTER
from fairseq2.datasets import DataPipelineReader, SyncMode
from fairseq2.early_stopper import NOOP_EARLY_STOPPER, EarlyStopper
from fairseq2.metrics import Mean, Sum
from fairseq2.metrics.recorders import MetricRecorder
from fairseq2.optim.fp16_loss_scaler import NOOP_FP16_LOSS_SCALER, StandardFloat16LossScaler
from fairseq2.optim.lr_schedulers import CosineAnnealingLR, MyleLR, NoamLR, PolynomialDecayLR, TriStageLR
from fairseq2.profilers import NOOP_PROFILER
from fairseq2.trainer import Trainer, TrainUnit
from fairseq2.utils.device_stat import NOOP_DEVICE_STAT_TRACKER
from fairseq2.utils.gc import NOOP_GARBAGE_COLLECTOR
from fairseq2.utils.progress import NOOP_PROGRESS_REPORTER
from fairseq2.utils.stopwatch import Stopwatch
from fairseq2.validator import NOOP_VALIDATOR, Validator


class Batch:
    """`ids` name the examples; `rows` are their features and targets."""

    def __init__(self, ids, dim: int) -> None:
        self.ids = list(ids)
        g = torch.Generator()
        xs, ys = [], []
        for i in self.ids:
            g.manual_seed(1000 + i)
            xs.append(torch.randn(dim, generator=g))
            ys.append(torch.randn(2, generator=g))
        self.x = torch.stack(xs) if xs else torch.zeros(0, dim)
        self.y = torch.stack(ys) if ys else torch.zeros(0, 2)

    def to(self, device, *, non_blocking=False):
        pass

    def __len__(self):
        return len(self.ids)


class ListPipeline:
    """Stands in for a native DataPipeline: another order in each epoch."""

    def __init__(self, epochs_of_batches, dim: int) -> None:
        self.of_epoch, self.dim = epochs_of_batches, dim
        self.epoch = self.pos = 0
        self.ended = False

    def __iter__(self):
        # As the native pipeline: a further iterator goes on where the last was.
        while True:
            b = self.of_epoch(self.epoch)
            if self.pos >= len(b):
                return
            self.pos += 1
            yield Batch(b[self.pos - 1], self.dim)

    def reset(self, reset_rng: bool = False) -> None:
        self.epoch += 1
        self.pos = 0

    def state_dict(self, strict: bool = True):
        return {"epoch": self.epoch, "pos": self.pos}

    def load_state_dict(self, d) -> None:
        self.epoch, self.pos = d["epoch"], d["pos"]


class _Iter:
    """An iterator that survives the end of an epoch, as the native one does."""

    def __init__(self, p) -> None:
        self.p = p

    def __iter__(self):
        return self

    def __next__(self):
        b = self.p.of_epoch(self.p.epoch)
        if self.p.pos >= len(b):
            self.p.hook("end", (self.p.epoch, self.p.pos), None)
            raise StopIteration
        self.p.hook("read", (self.p.epoch, self.p.pos), None)
        self.p.pos += 1
        return Batch(b[self.p.pos - 1], self.p.dim)


class Pipeline(ListPipeline):
    hook = staticmethod(lambda *a: None)

    def __iter__(self):
        return _Iter(self)


class Killed(BaseException):
    """The process dies here."""


@dataclass
class Cfg:
    # data
    batches: Any = None  # epoch -> list of batches (lists of ids)
    dim: int = 3
    accumulate: int = 1
    drop_remainder: bool = False
    # schedule
    max_steps: int | None = None
    max_epochs: int | None = None
    val: tuple = (0, None, 0, None)  # after steps, every steps, after epochs, every epochs
    ck: tuple = (0, None, 0, None)
    pub: tuple = (0, None, 0, None)
    validate_at_start: bool = False
    save_model_only: Any = False
    keep: tuple = (None, None, None)
    # numerics
    opt: str = "sgd"
    sched: str = "const"
    fp16: tuple | None = None  # init scale, window, min
    overflow_at: frozenset = frozenset()  # (epoch, first id) of batches whose loss overflows once at scale above the limit
    clip: float | None = None
    seed: int = 0
    per_target: bool = True
    has_validator: bool = False
    score: Any = None  # step -> float | None
    stop_score: Any = None  # step -> bool
    polls: int = 0


@dataclass
class Log:
    events: list = field(default_factory=list)
    trace: dict = field(default_factory=dict)  # step -> observation
    published: dict = field(default_factory=dict)

    def __call__(self, *e) -> None:
        self.events.append(e)


def digest(module) -> str:
    h = hashlib.sha1()
    for k, v in sorted(module.state_dict().items()):
        h.update(k.encode())
        h.update(v.detach().contiguous().numpy().tobytes())
    return h.hexdigest()[:12]


def scale_of(t) -> float:
    d = t._fp16_loss_scaler.state_dict()
    return float(d["grad_scaler"]["scale"]) if d else 1.0


class Unit(TrainUnit):
    def __init__(self, cfg: Cfg, model, log: Log, hook) -> None:
        self.cfg, self.net, self.log, self.hook = cfg, model, log, hook
        self.step = 0
        self.epoch = 0
        self.trainer = None

    def prepare_metric_bag(self, bag) -> None:
        bag.add("loss", Mean())
        bag.add("num", Sum())
        bag.add("total_num", Sum())
        bag.add("total_rand", Sum())

    def set_step_nr(self, step_nr: int) -> None:
        self.step = step_nr

    def set_data_epoch_nr(self, n: int) -> None:
        self.epoch = n
        self.log("epoch", n)

    def process_batch(self, batch, bag):
        t = self.trainer
        r = torch.rand(()).item()
        self.hook("batch", self.step, t)
        obs = (
            tuple(batch.ids), round(r, 7), digest(self.net), tuple(float(g["lr"]) for g in t._optimizer.param_groups),
            scale_of(t), self.epoch,
        )
        self.log.trace.setdefault(self.step, []).append(obs)
        self.log("batch", self.step, tuple(batch.ids))
        out = self.net(batch.x)
        loss = (out - batch.y).pow(2).sum()
        if self.cfg.fp16 and batch.ids and batch.ids[0] in self.cfg.overflow_at and scale_of(t) > 4:
            loss = loss * float("inf")
        n = len(batch)
        bag.get("num", Sum).update(n)
        bag.get("total_num", Sum).update(n)
        bag.get("total_rand", Sum).update(torch.tensor(r, dtype=torch.float64))
        bag.get("loss", Mean).update(loss.detach().nan_to_num(0, 0, 0) / max(n, 1))
        if self.cfg.per_target:
            return loss, n
        return loss / max(n, 1), None


class Recorder(MetricRecorder):
    def __init__(self, log: Log) -> None:
        self.log = log

    def record_metric_values(self, category, values, step_nr=None) -> None:
        self.log("publish", category, step_nr)
        keep = {k: (float(v) if isinstance(v, (int, float, torch.Tensor)) else v) for k, v in values.items() if "time" not in k and "per_second" not in k}
        self.log.published.setdefault((category, step_nr), []).append(keep)

    def close(self) -> None:
        pass


class Val(Validator):
    def __init__(self, cfg: Cfg, model, log: Log, hook) -> None:
        self.cfg, self.net, self.log, self.hook = cfg, model, log, hook
        self.trainer = None

    def run(self, step):
        self.hook("validate", step, self.trainer)
        self.log("validate", step, self.net.training)
        self.trainer._checkpoint_manager.maybe_complete_save_operation()
        return None if self.cfg.score is None else self.cfg.score(step)

    def reset(self) -> None:
        self.log("validate_end")


class Stopper(EarlyStopper):
    def __init__(self, cfg, log) -> None:
        self.cfg, self.log = cfg, log

    def should_stop(self, step, score):
        return bool(self.cfg.stop_score and self.cfg.stop_score(step))


def scheduler(name: str, opt):
    if name == "const":
        from torch.optim.lr_scheduler import LambdaLR

        return LambdaLR(opt, lambda s: 1.0)
    if name == "noam":
        return NoamLR(opt, num_warmup_steps=3)
    if name == "myle":
        return MyleLR(opt, num_warmup_steps=3, start_lr=0.001)
    if name == "cosine":
        return CosineAnnealingLR(opt, cycle_len=4, num_warmup_steps=2, cycle_mul=1.5, lr_mul=0.5, start_lr=0.01, final_lr=0.001)
    if name == "poly":
        return PolynomialDecayLR(opt, num_steps=12, num_warmup_steps=2, power=2.0)
    return TriStageLR(opt, num_steps=12, stage_ratio=(0.25, 0.25, 0.5), start_lr_scale=0.1, final_lr_scale=0.1)


def net(cfg: Cfg):
    g = torch.Generator().manual_seed(77)
    m = torch.nn.Sequential(torch.nn.Linear(cfg.dim, 4), torch.nn.Tanh(), torch.nn.Dropout(0.3), torch.nn.Linear(4, 2))
    with torch.no_grad():
        for p in m.parameters():
            p.copy_(torch.randn(p.shape, generator=g) * 0.5)
    return m


class Manager:
    """Notes what is asked of the checkpoint manager."""

    def __init__(self, inner, log: Log, hook) -> None:
        self._inner, self._log, self._hook = inner, log, hook

    def __getattr__(self, name):
        return getattr(self._inner, name)

    def save_checkpoint(self, step, *a, **k):
        self._log("save", step, bool(k.get("blocking")))
        self._inner.save_checkpoint(step, *a, **self._wrap(step, k))
        self._hook("save", step, None)

    def save_model_only(self, step, *a, **k):
        self._log("save", step, bool(k.get("blocking")))
        self._inner.save_model_only(step, *a, **self._wrap(step, k))
        self._hook("save", step, None)

    def _wrap(self, step, k):
        inner = k.get("saved_callback")

        def saved(n, b):
            self._log("saved", step)
            self._hook("saved", step, None)
            if inner:
                inner(n, b)

        k["saved_callback"] = saved
        return k

    def load_trainer_state(self, step, trainer):
        self._log("load", step)
        self._inner.load_trainer_state(step, trainer)

    def save_score(self, step, score):
        self._log("score", step)
        self._inner.save_score(step, score)

    def delete_checkpoint(self, step, *, keep_model=False):
        self._log("delete", step, keep_model)
        self._inner.delete_checkpoint(step, keep_model=keep_model)


def make_trainer(cfg: Cfg, out: Path, gangs, log: Log, hook=lambda *a: None, wrap_model=None, fs="global", module=None):
    model = module if module is not None else net(cfg)
    dp = wrap_model(model, gangs) if wrap_model else model
    params = list(dp.parameters())
    if cfg.opt == "sgd":
        opt = torch.optim.SGD(params, lr=0.05, momentum=0.9)
    elif cfg.opt == "plain":
        opt = torch.optim.SGD(params, lr=1.0)
    elif cfg.opt == "adamw2":
        opt = torch.optim.AdamW([{"params": params[:1], "lr": 0.02}, {"params": params[1:], "lr": 0.05}], lr=0.1)
    else:
        opt = torch.optim.AdamW(params, lr=0.05)
    sched = scheduler(cfg.sched, opt)
    if cfg.fp16:
        scaler = StandardFloat16LossScaler(gangs, init_scale=cfg.fp16[0], scale_window=cfg.fp16[1], min_scale=cfg.fp16[2])
    else:
        scaler = NOOP_FP16_LOSS_SCALER
    pipeline = Pipeline(cfg.batches, cfg.dim)
    pipeline.hook = hook
    reader = DataPipelineReader(
        pipeline, gangs, num_accumulate=cfg.accumulate, drop_remainder=cfg.drop_remainder, sync_mode=SyncMode.UNTIL_FIRST
    )
    unit = Unit(cfg, dp, log, hook)
    val = Val(cfg, dp, log, hook) if cfg.has_validator else NOOP_VALIDATOR
    mgr = Manager(manager(out, gangs, fs, LazyPool(lambda: cfg.polls)), log, hook)
    names = ["after_n_steps", "every_n_steps", "after_n_data_epochs", "every_n_data_epochs"]
    kw = {}
    for pre, vals in (("validate", cfg.val), ("checkpoint", cfg.ck), ("publish_metrics", cfg.pub)):
        for n, v in zip(names, vals):
            kw[f"{pre}_{n}"] = v
    trainer = Trainer(
        model=dp, unit=unit, data_reader=reader, gangs=gangs, amp=False, amp_dtype=torch.float32, optimizer=opt, lr_scheduler=sched,
        fp16_loss_scaler=scaler, validator=val, early_stopper=Stopper(cfg, log) if cfg.stop_score else NOOP_EARLY_STOPPER, checkpoint_manager=mgr,
        hg_exporter=NOOP_HG_EXPORTER, metric_recorder=Recorder(log), garbage_collector=NOOP_GARBAGE_COLLECTOR, profiler=NOOP_PROFILER,
        device_stat_tracker=NOOP_DEVICE_STAT_TRACKER, wall_watch=Stopwatch(), progress_reporter=NOOP_PROGRESS_REPORTER, seed=cfg.seed,
        max_grad_norm=cfg.clip, max_num_steps=cfg.max_steps, max_num_data_epochs=cfg.max_epochs, validate_at_start=cfg.validate_at_start,
        save_model_only=cfg.save_model_only, keep_last_n_checkpoints=cfg.keep[0], keep_best_n_checkpoints=cfg.keep[1],
        keep_checkpoint_every_n_steps=cfg.keep[2], **kw,
    )
    unit.trainer = trainer
    if cfg.has_validator:
        val.trainer = trainer
    trainer._verif_unit = unit
    trainer._verif_net = dp
    return trainer

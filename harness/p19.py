"""Early stopping and checkpoints. A system is fitted with callbacks; its twin
(same seed) is fitted period by period while the documented rules of the
callbacks, computed here from the recorded errors, decide when to store,
restore, save and stop. Both must end with the same population and files."""

import contextlib
import io
import json
import os

import pylib
import xcsf
from pylib import rules, same


class ES:
    def __init__(self, r, T):
        self.a = dict(monitor=r.choice(["train", "val"]), patience=r.choice([0, 0, 5, 20, T // 2, 10 ** 6]), restore_best=r.random() < 0.7,
                      min_delta=r.choice([0, 0, 0.01, 0.1]), start_from=r.choice([0, 0, T // 3, T // 2, T + 1]), verbose=r.random() < 0.5)
        self.best, self.at, self.pending = float("inf"), 0, False
        self.best_json = None
        self.stopped = False

    def make(self):
        return xcsf.EarlyStoppingCallback(**self.a)

    def run(self, sim, x, err, trial):
        a = self.a
        if trial < a["start_from"]:
            return False
        if err < self.best - a["min_delta"]:
            self.best, self.at = err, trial
            if a["restore_best"]:
                self.pending = True
                x.store()
                self.best_json = x.json()
                sim.ctx.count("bests_stored")
        if trial - a["patience"] > self.at:
            if a["restore_best"]:
                self.pending = False
                x.retrieve()
                sim.ctx.count("restored_on_stop")
            self.stopped = True
            sim.ctx.count("early_stops")
            return True
        return False

    def finish(self, sim, x):
        if self.a["restore_best"] and self.pending:
            x.retrieve()
            sim.ctx.count("restored_at_end")


class CP:
    def __init__(self, r, T, tmp, i):
        self.a = dict(monitor=r.choice(["train", "val"]), save_best_only=r.random() < 0.6, save_freq=r.choice([0, 0, 1, T // 4, T // 2, T + 5]), verbose=False)
        self.fa, self.fb = os.path.join(tmp, f"cpa{i}.bin"), os.path.join(tmp, f"cpb{i}.bin")
        for f in (self.fa, self.fb):
            if os.path.exists(f):
                os.unlink(f)
        self.best, self.at, self.saves = float("inf"), 0, 0
        self.desc = None

    def make(self):
        return xcsf.CheckpointCallback(filename=self.fa, **self.a)

    def save(self, sim, x):
        x.save(self.fb)
        self.saves += 1
        self.desc = x.json()  # (exporting parameters may use the random numbers)
        sim.ctx.count("checkpoints")

    def run(self, sim, x, err, trial):
        if trial >= self.at + self.a["save_freq"]:
            if not self.a["save_best_only"] or err < self.best:
                self.at = trial
                self.save(sim, x)
            if err < self.best:
                self.best = err
        return False

    def finish(self, sim, x):
        if not self.a["save_best_only"]:
            self.save(sim, x)


class Sim:
    def __init__(self, ctx):
        self.ctx = ctx


def run_case(ctx):
    r, g = ctx.rng, ctx.np
    p, info = pylib.params(r, recurrent=False, stochastic=True, preds=["constant", "nlms_linear", "nlms_quadratic", "neural", "rls_linear"])
    p["max_trials"], p["perf_trials"] = r.randint(5, 200), r.choice([1, 5, 10, 25])
    if r.random() < 0.5:
        p["loss_func"] = r.choice(["mae", "mse"])
        p.pop("huber_delta", None)
    T, P = p["max_trials"], p["perf_trials"]
    n = r.randint(2, 20)
    X, Y = pylib.inputs(g, n, p, info), pylib.targets(g, n, p)
    V, VY = pylib.inputs(g, 5, p, info), pylib.targets(g, 5, p)
    kw = {"validation_data": (V, VY)} if r.random() < 0.8 else {}
    cbs = []
    if r.random() < 0.85:
        cbs.append(ES(r, T))
    for i in range(r.randint(0 if cbs else 1, 2)):
        cbs.insert(r.randint(0, len(cbs)), CP(r, T, ctx.tmp, i))
    ctx.stage(f"fit with {[(type(c).__name__, c.a) for c in cbs]} {p}")
    where = f"{[(type(c).__name__, c.a) for c in cbs]} max={T} period={P} {info['cond']} {info['pred']}"
    a = xcsf.XCS(**p)
    with contextlib.redirect_stdout(io.StringIO()):
        a.fit(X, Y, shuffle=True, verbose=False, callbacks=[c.make() for c in cbs], **kw)
    got = {k: list(v) for k, v in a.get_metrics().items()}
    ctx.stage(f"period by period {p}")
    b = xcsf.XCS(**p)
    sim = Sim(ctx)
    s, i = 0, 0
    hist = []
    while s < T:
        w = min(P, T - s)
        b.set_params(max_trials=w)
        b.fit(X, Y, shuffle=True, warm_start=i > 0, verbose=False, **kw)
        b.set_params(max_trials=T)
        s += w
        i += 1
        m = b.get_metrics()
        hist.append((m["train"][-1], m["val"][-1]))
        stop = False
        for c in cbs:
            stop |= c.run(sim, b, m[c.a["monitor"]][-1], m["trials"][-1])
        if stop:
            break
    for c in cbs:
        c.finish(sim, b)
    m = b.get_metrics()
    ctx.check(len(got["train"]) == i, "stop-period", lambda: f"fit stopped after {len(got['train'])} periods, the errors {m['train'][:8]} {m['val'][:8]} say {i}; {where}")
    for k in ("train", "val", "trials", "psize", "msize", "mfrac"):
        ctx.check(len(got[k]) == len(m[k]) and same(got[k], m[k]), "metrics-" + k, lambda: f"{k}: {got[k][:12]} vs {m[k][:12]}; {where}")
    final = rules(a.json())
    ctx.check(final == rules(b.json()), "population", lambda: f"final population differs ({len(final)} vs {len(rules(b.json()))} rules); {where}")
    # directly: the population left is the one recorded at the best period
    for c in cbs:
        if isinstance(c, ES) and c.a["restore_best"] and c.best_json is not None:
            ctx.check(final == rules(c.best_json), "best-restored", lambda: f"the final population is not that of the best period (trial {c.at}, error {c.best}); {where}")
            ctx.count("best_populations_compared")
    ctx.distinct([c.a for c in cbs if isinstance(c, ES)], i, [round(h[0], 9) for h in hist][:6])
    for c in cbs:
        if isinstance(c, CP):
            ctx.check(os.path.exists(c.fa) == (c.saves > 0), "checkpoint-exists", lambda: f"file {'exists' if os.path.exists(c.fa) else 'missing'}, {c.saves} saves expected; {where}")
            if os.path.exists(c.fa) and c.saves:
                ctx.stage("load checkpoint")
                x = xcsf.XCS()
                x.load(c.fa)
                d = rules(x.json())
                ctx.check(d == rules(c.desc), "checkpoint-population", lambda: f"the checkpoint holds {len(d)} rules, not the {len(rules(c.desc))} of the system when written (trial {c.at}); {where}")
                q, w = x.internal_params(), b.internal_params()
                ctx.check(q == w, "checkpoint-params", lambda: f"{q} vs {w}")
                ctx.count("checkpoints_loaded")
    ctx.count("histories")
    ctx.count("periods", i)
    ctx.sample(where)


if __name__ == "__main__":
    pylib.main(lambda t: 12000 if t else 1000, run_case)

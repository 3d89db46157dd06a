"""The training loop does the work it reports. Three workloads:
- exact: one rule per data row, so every recorded number can be computed by an
  independent simulation of the rows visited;
- twin: any configuration; a fit must record what the same fit cut into single
  reporting periods records;
- score: scores against the mean loss of the predictions, and the rows drawn
  when only some are scored."""

import contextlib
import io
import json
import math
import os

import numpy as np
import pylib
import xcsf
from pylib import close, same


def capture(f):
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        f()
    return buf.getvalue()


def chi2_bad(counts):
    """Counts far from equal (probability of a false alarm below 1e-9)."""
    n, k = sum(counts), len(counts)
    if k < 2:
        return False
    e = n / k
    x = sum((c - e) ** 2 / e for c in counts)
    d = k - 1
    # Laurent-Massart bound on the upper tail: P(X >= d + 2 sqrt(d t) + 2 t) <= exp(-t)
    t = 23.0
    return e >= 10 and x > d + 2 * math.sqrt(d * t) + 2 * t


class Model:
    """Rows seen -> constant predictor with the standard update."""

    def __init__(self, p):
        self.p = p
        self.reset()

    def reset(self):
        self.pred, self.exp, self.time = {}, {}, 0
        self.error = self.p["e0"]

    def predict(self, row):
        return self.pred.get(row, [0.0] * self.p["y_dim"])

    def trial(self, row, y):
        b = self.p["beta"]
        pr = list(self.predict(row))
        e = pylib.loss(self.p["loss_func"], pr, y, self.p.get("huber_delta", 1.0))
        self.error += (e - self.error) * b
        k = self.exp.get(row, 0) + 1
        self.exp[row] = k
        step = 1.0 / k if k * b < 1 else b
        self.pred[row] = [a + (t - a) * step for a, t in zip(pr, y)]
        self.time += 1
        return e


def key_of(c):
    return "".join(str(v) for v in c)


def exact(ctx):
    r, g = ctx.rng, ctx.np
    big = r.random() < 0.04
    x_dim = r.randint(8, 9) if big else r.randint(2, 6)
    n = r.randint(100, 250) if big else r.randint(1, min(2 ** x_dim, 24))
    p, _ = pylib.params(r, x_dim=x_dim, conds=["ternary"], preds=["constant"])
    p.update(pop_size=600 if big else 200, pop_init=False, compaction=False, set_subsumption=False, m_probation=10 ** 6, theta_del=20)
    p["condition"]["args"] = {"bits": 1, "p_dontcare": 0.0}
    p["ea"].update(theta_ea=10 ** 7, subsumption=False)
    most = 1500 if big else 120
    p["max_trials"], p["perf_trials"] = r.randint(1, most), r.choice([1, 2, 7, 10, 33, 100, 500])
    codes = g.permutation(2 ** x_dim)
    rows = [[(c >> i) & 1 for i in range(x_dim)] for c in codes[:n]]
    X = np.array(rows, dtype=float) * 0.6 + 0.2
    Y = pylib.targets(g, n, p)
    other = [[(c >> i) & 1 for i in range(x_dim)] for c in codes[n:n + 5]]
    pick = [r.randrange(n) for _ in range(r.randint(0, 6))]
    Vrows = [rows[i] for i in pick] + other[:r.randint(0, len(other))]
    V = np.array(Vrows, dtype=float).reshape(-1, x_dim) * 0.6 + 0.2
    VY = pylib.targets(g, len(Vrows), p) if Vrows else None
    x = xcsf.XCS(**p)
    m = Model(p)
    want = {"train": [], "val": [], "trials": [], "psize": []}
    done = 0
    for k in range(r.randint(1, 3)):
        warm = k > 0 and r.random() < 0.6
        if r.random() < 0.4:
            p["max_trials"] = r.randint(1, most)
            x.set_params(max_trials=p["max_trials"])
        if r.random() < 0.2:
            p["perf_trials"] = r.choice([1, 3, 10, 50, 121])
            x.set_params(perf_trials=p["perf_trials"])
        val = bool(Vrows) and r.random() < 0.7
        ctx.stage(f"exact fit {k} warm={warm} n={n} {p}")
        x.fit(X, Y, shuffle=False, warm_start=warm, verbose=False, **({"validation_data": (V, VY)} if val else {}))
        if not warm:
            m.reset()
        T, P = p["max_trials"], p["perf_trials"]
        s = 0
        while s < T:
            w = min(P, T - s)
            errs = [m.trial(key_of(rows[(s + j) % n]), Y[(s + j) % n]) for j in range(w)]
            s += w
            done += w
            want["train"].append(sum(errs) / w)
            want["val"].append(sum(pylib.loss(p["loss_func"], m.predict(key_of(q)), t, p.get("huber_delta", 1.0)) for q, t in zip(Vrows, VY)) / len(Vrows) if val else 0.0)
            want["trials"].append(done)
            want["psize"].append(len(m.exp))
        got = x.get_metrics()
        ctx.count("periods", len(got["train"]))
        for name in want:
            ok = len(got[name]) == len(want[name]) and close(got[name], want[name], 1e-9, 1e-10)
            if not ctx.check(ok, "exact-" + name, lambda: f"after fit {k} (warm={warm}, n={n}, max={T}, period={P}): recorded {name} {got[name]} but the rows give {want[name]}; {p}"):
                return
        for name in ("msize", "mfrac"):
            ctx.check(len(got[name]) == len(want["train"]), "metric-length", lambda: f"{name} has {len(got[name])} entries, {len(want['train'])} periods")
        # figures reported at the end are those of the last period
        ctx.check(x.time() == m.time, "time", lambda: f"time {x.time()} after {m.time} trials")
        ctx.check(close(x.error(), m.error, 1e-9, 1e-10), "error", lambda: f"moving error {x.error()} expected {m.error}")
        ctx.check(got["psize"][-1] == x.pset_size(), "psize", lambda: f"{got['psize'][-1]} {x.pset_size()}")
        if not val:
            ctx.check(got["msize"][-1] == x.mset_size() and got["mfrac"][-1] == x.mfrac(), "msize", lambda: f"{got['msize'][-1]} {x.mset_size()} {got['mfrac'][-1]} {x.mfrac()}")
        # each row visited exactly as often as the order says
        seen = {}
        for c in json.loads(x.json())["classifiers"]:
            seen[c["condition"]["string"]] = c["experience"]
        ctx.check(sorted(seen.values()) == sorted(m.exp.values()), "visits", lambda: f"visits {seen} expected {m.exp}")
        pr = x.predict(X)
        ctx.check(close(pr, [m.predict(key_of(q)) for q in rows], 1e-9, 1e-10), "predictions", lambda: f"{pr}")
        ctx.distinct("exact", n, T, P, warm, val, p["loss_func"])
    ctx.count("exact_histories")
    ctx.sample(f"exact rows={n} max={p['max_trials']} period={p['perf_trials']} loss={p['loss_func']} train={want['train'][:4]}")


def shuffled(ctx):
    """Each row equally likely, none left out, none from elsewhere."""
    r, g = ctx.rng, ctx.np
    big = r.random() < 0.03
    x_dim = 9 if big else r.randint(1, 5)
    n = r.randint(100, 400) if big else r.randint(1, min(2 ** x_dim, 16))
    p, _ = pylib.params(r, x_dim=x_dim, conds=["ternary"], preds=["constant"])
    p.update(pop_size=450 if big else 200, pop_init=False, compaction=False, set_subsumption=False, m_probation=10 ** 7)
    p["condition"]["args"] = {"bits": 1, "p_dontcare": 0.0}
    p["ea"].update(theta_ea=10 ** 7, subsumption=False)
    T = n * (60 if big else r.randint(60, 300))
    p["max_trials"], p["perf_trials"] = T, r.choice([1, 10, 77, 1000, 10 ** 5])
    codes = g.permutation(2 ** x_dim)
    rows = [[(c >> i) & 1 for i in range(x_dim)] for c in codes[:n]]
    X, Y = np.array(rows, dtype=float), pylib.targets(g, n, p)
    x = xcsf.XCS(**p)
    ctx.stage(f"shuffled n={n} {p}")
    x.fit(X, Y, shuffle=True, verbose=False)
    cl = json.loads(x.json())["classifiers"]
    visits = [c["experience"] for c in cl]
    ctx.check(len(visits) == n, "shuffle-rows", lambda: f"{len(visits)} rows visited of {n} in {T} trials")
    ctx.check(sum(visits) == T, "shuffle-trials", lambda: f"visits {visits} for {T} trials")
    ctx.check(not chi2_bad(visits), "shuffle-uniform", lambda: f"visits {visits}")
    ctx.check(x.time() == T and x.get_metrics()["trials"][-1] == T and len(x.get_metrics()["train"]) == math.ceil(T / p["perf_trials"]), "shuffle-count",
              lambda: f"{x.time()} {x.get_metrics()['trials'][-3:]}")
    ctx.count("shuffled_trials", T)
    ctx.distinct("shuffled", n, T)


def twin(ctx):
    """A fit records what the same fit, cut into single periods, records."""
    r, g = ctx.rng, ctx.np
    p, info = pylib.params(r, recurrent=True, stochastic=True, threads=r.choice([1, 1, 2]))
    P = p["perf_trials"]
    n = r.randint(1, 10)
    shuffle = r.random() < 0.6
    if not shuffle:
        n = r.choice([d for d in range(1, P + 1) if P % d == 0])
    X, Y = pylib.inputs(g, n, p, info), pylib.targets(g, n, p)
    kw = {}
    if r.random() < 0.6:
        k = r.randint(1, 6)
        kw["validation_data"] = (pylib.inputs(g, k, p, info), pylib.targets(g, k, p))
    ctx.stage(f"twin whole n={n} {p}")
    a = xcsf.XCS(**p)
    a.fit(X, Y, shuffle=shuffle, verbose=False, **kw)
    ja = a.json()
    ma = {k: list(v) for k, v in a.get_metrics().items()}
    T = p["max_trials"]
    ctx.stage(f"twin cut n={n} {p}")
    b = xcsf.XCS(**p)
    s, first = 0, True
    states = []
    while s < T:
        w = min(P, T - s)
        b.set_params(max_trials=w)
        b.fit(X, Y, shuffle=shuffle, warm_start=not first, verbose=False, **kw)
        states.append((b.pset_size(), b.mset_size(), b.mfrac(), b.time()))
        s += w
        first = False
    mb = b.get_metrics()
    for name in ma:
        ctx.check(len(ma[name]) == len(mb[name]) and same(ma[name], mb[name]), "twin-" + name,
                  lambda: f"{name}: whole fit {ma[name]}, cut into periods {mb[name]}; n={n} shuffle={shuffle} {p}")
    ctx.check(ja == b.json(), "twin-population", lambda: f"population differs; n={n} shuffle={shuffle} {p}")
    ctx.check(a.time() == b.time() == T, "twin-time", lambda: f"{a.time()} {b.time()} {T}")
    for i, st in enumerate(states):
        ctx.check((ma["psize"][i], ma["msize"][i], ma["mfrac"][i]) == st[:3] and ma["trials"][i] == st[3], "twin-state",
                  lambda: f"period {i}: recorded {[ma[k][i] for k in ('psize', 'msize', 'mfrac', 'trials')]}, state {st}")
    if "validation_data" in kw and not info["memory"]:
        V, VY = kw["validation_data"]
        pr = a.predict(V)
        want = sum(pylib.loss(p["loss_func"], q, t, p.get("huber_delta", 1.0)) for q, t in zip(pr, VY)) / len(V)
        ctx.check(close(ma["val"][-1], want, 1e-9, 1e-12), "twin-validation", lambda: f"val {ma['val'][-1]} but predictions give {want}; {p}")
    if "validation_data" not in kw:
        ctx.check(all(v == 0 for v in ma["val"]), "no-validation", lambda: f"{ma['val']}")
    # a cold fit starts from scratch
    if r.random() < 0.5:
        ctx.stage(f"cold refit {p}")
        xcsf.XCS(**p)
        c = xcsf.XCS(**p)
        c.fit(X, Y, shuffle=shuffle, verbose=False, **kw)
        xcsf.XCS(**p)  # same random numbers again
        a.fit(X, Y, shuffle=shuffle, verbose=False, warm_start=False, **kw)
        # (default tree constants are drawn once per system)
        d = xcsf.XCS(**p)
        d.fit(X, Y, shuffle=shuffle, verbose=False, **kw)
        ctx.check(a.time() == d.time() == T, "cold-time", lambda: f"{a.time()} {d.time()}")
        na = len(a.get_metrics()["train"]) // 2
        ctx.check(a.get_metrics()["trials"][na:] == [T + t for t in ma["trials"]], "cold-trials", lambda: f"{a.get_metrics()['trials']}")
        ctx.count("cold_refits")
    ctx.count("twin_histories")
    ctx.count("periods", len(states))
    ctx.distinct("twin", T, P, n, shuffle, info["cond"], info["pred"])
    ctx.sample(f"twin cond={info['cond']} pred={info['pred']} max={T} period={P} rows={n} shuffle={shuffle}")


def score(ctx):
    r, g = ctx.rng, ctx.np
    n_act = r.choice([1, 1, 1, 2])
    p, info = pylib.params(r, n_actions=n_act, stochastic=True)
    n = r.randint(1, 12)
    X, Y = pylib.inputs(g, n, p, info), pylib.targets(g, n, p)
    x = xcsf.XCS(**p)
    if r.random() < 0.85:
        x.fit(X[:max(1, n // 2)], Y[:max(1, n // 2)], verbose=False)
    d = p.get("huber_delta", 1.0)
    for _ in range(3):
        m = pylib.n_rows(r, 12)
        X, Y = pylib.inputs(g, m, p, info), pylib.targets(g, m, p)
        cover = None if r.random() < 0.5 else pylib.targets(g, 1, p)[0] * 0.9 + 0.05
        kw = {} if cover is None else {"cover": cover}
        ctx.stage(f"score {p}")
        pr = x.predict(X, **kw)
        ctx.check(pr.shape == (m, p["y_dim"] * n_act), "predict-shape", lambda: f"{pr.shape} {m} {p['y_dim']} {n_act}")
        each = [pylib.loss(p["loss_func"], q[:p["y_dim"]], t, d) for q, t in zip(pr, Y)]
        want = sum(each) / m
        for N in (0, m + 1, m + r.randint(1, 1000)):
            got = x.score(X, Y, N=N, **kw)
            ctx.check(close(got, want, 1e-9, 1e-12), "score", lambda: f"score {got} but the predictions give {want} (N={N}, m={m}); {p}")
            ctx.count("scores")
        N = r.randint(1, m)
        got = x.score(X, Y, N=N, **kw)
        if all(math.isfinite(e) for e in each):
            lo, hi = min(each), max(each)
            ctx.check(lo - 1e-9 * abs(lo) - 1e-12 <= got <= hi + 1e-9 * abs(hi) + 1e-12, "score-sample-range", lambda: f"score of {N} rows is {got}, rows have {each}")
        # single rows: the mean is the row's own loss
        i = r.randrange(m)
        got = x.score(X[i:i + 1], Y[i:i + 1], N=r.choice([0, 1, 2, 9]), **kw)
        ctx.check(close(got, each[i], 1e-9, 1e-12), "score-row", lambda: f"row score {got}, loss {each[i]}; {p}")
        ctx.distinct("score", p["loss_func"], info["cond"], info["pred"], m, cover is None, n_act)


def drawn(ctx):
    """Which rows a partial score uses: row losses are distinct powers, so the
    total decodes to how often each row was used."""
    r, g = ctx.rng, ctx.np
    p, info = pylib.params(r, y_dim=1, conds=["dummy"], preds=["constant"], losses=["mae"])
    x = xcsf.XCS(**p)
    m = r.randint(2, 7)
    N = r.randint(1, m)
    X = pylib.inputs(g, m, p, info)
    pr = x.predict(X)[:, 0]
    base = N + 1
    Y = (pr + np.array([float(base ** i) for i in range(m)])).reshape(-1, 1)
    ctx.stage(f"drawn m={m} N={N}")
    tot = [0] * m
    for _ in range(60 * m // N + 20):
        s = x.score(X, Y, N=N) * N
        v = int(round(s))
        ctx.check(abs(s - v) < 1e-6, "drawn-sum", lambda: f"{s}")
        k = []
        while v:
            k.append(v % base)
            v //= base
        k += [0] * (m - len(k))
        if not ctx.check(len(k) == m and sum(k) == N, "drawn-rows", lambda: f"score with N={N} of {m} rows used the rows {k} times (sum {s})"):
            return
        tot = [a + b for a, b in zip(tot, k)]
        ctx.count("drawn_scores")
    ctx.check(not chi2_bad(tot), "drawn-uniform", lambda: f"rows used {tot} times (N={N} of {m})")
    ctx.check(all(tot), "drawn-missing", lambda: f"rows used {tot} times (N={N} of {m})") if sum(tot) > 40 * m else None
    ctx.distinct("drawn", m, N)


def callbacks(ctx):
    r, g = ctx.rng, ctx.np
    p, info = pylib.params(r)
    T, P = p["max_trials"], p["perf_trials"]
    n = r.randint(1, 8)
    X, Y = pylib.inputs(g, n, p, info), pylib.targets(g, n, p)
    f1, f2 = os.path.join(ctx.tmp, "a.bin"), os.path.join(ctx.tmp, "b.bin")
    for f in (f1, f2):
        if os.path.exists(f):
            os.unlink(f)
    x = xcsf.XCS(**p)
    cb = [xcsf.CheckpointCallback(monitor="train", filename=f1, save_freq=0)]
    patience = r.choice([0, 5, 10 ** 6])
    order = r.random() < 0.5
    es = xcsf.EarlyStoppingCallback(monitor="train", patience=patience, restore_best=False, min_delta=r.choice([0, 10.0]), start_from=r.choice([0, 15]))
    use_es = r.random() < 0.6
    if use_es:
        cb.insert(0 if order else 1, es)
    cb.append(xcsf.CheckpointCallback(monitor="train", filename=f2, save_freq=0))
    ctx.stage(f"callbacks {p}")
    out = capture(lambda: x.fit(X, Y, verbose=True, callbacks=cb))
    periods = len(x.get_metrics()["train"])
    total = math.ceil(T / P)
    stopped = out.count("EarlyStoppingCallback: stopping")
    ctx.check(stopped <= 1, "stop-once", lambda: f"{stopped} stops\n{out}")
    ctx.check(periods == total if not stopped else periods <= total, "periods", lambda: f"{periods} periods of {total}, stopped={stopped}")
    ctx.check(x.time() == min(T, periods * P), "trials", lambda: f"{x.time()} {periods} {P} {T}")
    for f in (f1, f2):
        k = out.count("saved " + f)
        ctx.check(k == periods + 1, "callback-count", lambda: f"{k} checkpoints in {periods} periods and one finish\n{out}")
    lines = [ln for ln in out.splitlines() if "trials=" in ln]
    ctx.check(len(lines) == periods, "status-lines", lambda: f"{len(lines)} status lines for {periods} periods\n{out}")
    mt = x.get_metrics()
    for i, ln in enumerate(lines[:periods]):
        d = dict(w.split("=") for w in ln.split()[1:])
        ok = float(d["trials"]) == mt["trials"][i] and abs(float(d["train"]) - mt["train"][i]) <= 1e-5 and float(d["pset"]) == mt["psize"][i] and abs(float(d["mset"]) - mt["msize"][i]) <= 0.051 and abs(float(d["mfrac"]) - mt["mfrac"][i]) <= 0.0051
        ctx.check(ok or not math.isfinite(mt["train"][i]), "status", lambda: f"{ln} but recorded {[mt[k][i] for k in mt]}")
    # silent: no status lines, and no callbacks: nothing saved
    os.unlink(f1)
    out = capture(lambda: x.fit(X, Y, verbose=False, warm_start=True))
    ctx.check("trials=" not in out and not os.path.exists(f1), "silent", lambda: out)
    try:
        capture(lambda: x.fit(X, Y, verbose=False, warm_start=True, callbacks=[r.choice([3, "x", None, object(), print])]))
        ctx.viol("bad-callback", "an object that is not a callback was accepted")
    except (ValueError, TypeError):
        ctx.count("refusals")
    for mk in (lambda: xcsf.EarlyStoppingCallback(monitor="x"), lambda: xcsf.EarlyStoppingCallback(patience=-1),
               lambda: xcsf.EarlyStoppingCallback(min_delta=-0.1), lambda: xcsf.CheckpointCallback(monitor="loss"),
               lambda: xcsf.CheckpointCallback(save_freq=-1)):
        try:
            mk()
            ctx.viol("bad-callback-argument", "invalid callback arguments were accepted")
        except (ValueError, TypeError):
            pass
    ctx.count("callback_runs")
    ctx.distinct("callbacks", T, P, patience, use_es, stopped)


KINDS = [exact, exact, exact, twin, twin, twin, score, score, shuffled, drawn, callbacks, callbacks]


def run_case(ctx):
    KINDS[ctx.idx % len(KINDS)](ctx)
    ctx.count("histories")


if __name__ == "__main__":
    pylib.main(lambda t: 24000 if t else 2400, run_case)

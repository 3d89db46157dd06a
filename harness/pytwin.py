"""The Python object against the core it fronts: a history of method calls is
mirrored, call by call and from the same random numbers, by the documented core
operations on a twin system (shim.cpp); results and saved states must agree."""

import contextlib
import ctypes
import json
import os
import sys

import numpy as np
import pylib
import xcsf
from pylib import same

L = ctypes.CDLL(xcsf.xcsf.__file__)
D, P, I, S = ctypes.c_double, ctypes.c_void_p, ctypes.c_int, ctypes.c_char_p
for name, res, args in [
    ("t_seed", None, [ctypes.c_uint32]), ("t_new", P, [S]), ("t_free", None, [P]), ("t_save", None, [P, S]), ("t_load", None, [P, S]),
    ("t_decision", I, [P, P, I]), ("t_update", None, [P, P, I, D, I]), ("t_error", D, [P, I, D, I, D]), ("t_rl", None, [P, I, P, I, D]),
    ("t_rlfit", D, [P, P, I, D]), ("t_fit", D, [P, P, P, I, I, I, I]), ("t_restart", None, [P]), ("t_predict", None, [P, P, P, I, P]),
    ("t_score", D, [P, P, P, I, I, P]), ("t_json", S, [P, I, I, I]), ("t_insert", None, [P, S, I]), ("t_act", None, [P, I, I, I]),
    ("t_params", S, [P]), ("t_set", None, [P, S]), ("t_stat", D, [P, I, I]), ("t_print", None, [P, I, I, I, I]), ("t_heap", D, []),
]:
    f = getattr(L, name)
    f.restype, f.argtypes = res, args

MODE = os.environ.get("TWIN", "all")
IMPORT_COND = ("dummy", "ternary", "hyperrectangle_csr", "hyperrectangle_ubr", "hyperellipsoid")
IMPORT_PRED = ("constant", "nlms_linear", "nlms_quadratic", "rls_linear", "rls_quadratic")


def ptr(a):
    return a.ctypes.data_as(P)


def printed(ctx, f):
    """What f writes to the C standard output."""
    sys.stdout.flush()
    name = os.path.join(ctx.tmp, "printed")
    keep = os.dup(1)
    fd = os.open(name, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600)
    os.dup2(fd, 1)
    os.close(fd)
    try:
        f()
        ctypes.CDLL(None).fflush(None)
    finally:
        os.dup2(keep, 1)
        os.close(keep)
    return open(name).read()


class Pair:
    def __init__(self, ctx, p, info):
        self.ctx, self.p, self.info = ctx, p, info
        self.x = xcsf.XCS(**json.loads(json.dumps(p)))
        self.f1, self.f2 = os.path.join(ctx.tmp, "a.bin"), os.path.join(ctx.tmp, "b.bin")
        self.x.save(self.f1)
        self.t = L.t_new(self.f1.encode())
        self.metrics = {k: [] for k in ("train", "val", "trials", "psize", "msize", "mfrac")}
        self.params = dict(p)
        self.stored = False
        self.log = []

    def both(self, what, a, b):
        """a on the object and b on the twin, from the same random numbers."""
        self.ctx.stage(f"{what} after {self.log} {self.p}")
        s = self.ctx.rng.randrange(1 << 30)
        L.t_seed(s)
        u = a()
        L.t_seed(s)
        v = b()
        self.ctx.count("call_" + what)
        return u, v

    def expect(self, what, a, b):
        u, v = self.both(what, a, b)
        ok = u == v if isinstance(u, (str, type(None))) else same(u, v)
        return self.ctx.check(ok, "differs-" + what, lambda: f"{what} of the object gives {str(u)[:700]} and the core's operation {str(v)[:700]}; before: {self.log[-12:]}; {self.p}")

    def state(self):
        u, v = self.both("save", lambda: self.x.save(self.f1), lambda: L.t_save(self.t, self.f2.encode()))
        same_file = open(self.f1, "rb").read() == open(self.f2, "rb").read()
        self.ctx.count("states_compared")
        return self.ctx.check(same_file, "state", lambda: f"after {self.log[-12:]} the object's complete state differs from the twin's; {self.p}")

    # ---- the calls

    def rl(self):
        c, r, x, t = self.ctx, self.ctx.rng, self.x, self.t
        self.log.append("trial")
        self.both("init_trial", x.init_trial, lambda: L.t_rl(t, 0, None, 0, 0.0))
        explore = r.random() < 0.6
        n = r.randint(1, 6)
        for j in range(n):
            st = pylib.inputs(c.np, 1, self.p, self.info)[0]
            if r.random() < 0.2:
                explore = not explore
            done = j == n - 1 and r.random() < 0.8
            rew = r.choice([0.0, 1.0, r.uniform(-2, 5), r.uniform(-2, 5)])
            self.both("init_step", x.init_step, lambda: L.t_rl(t, 1, None, 0, 0.0))
            a = []
            if not self.expect("decision", lambda: (a.append(x.decision(st, explore)), a[-1])[1], lambda: L.t_decision(t, ptr(st), explore)):
                return
            given = r.random() < 0.7
            if given and r.random() < 0.2:  # the error may be asked for first
                self.expect("error", lambda: x.error(rew, done, 5.0), lambda: L.t_error(t, a[0], rew, done, 5.0))
                given = False
            self.both("update", lambda: x.update(rew, done), lambda: L.t_update(t, ptr(st), a[0], rew, done))
            if given:
                mp = r.choice([1.0, 5.0, 1000.0])
                self.expect("error", lambda: x.error(rew, done, mp), lambda: L.t_error(t, a[0], rew, done, mp))
            self.both("end_step", x.end_step, lambda: L.t_rl(t, 2, ptr(st), a[0], rew))
            c.count("steps")
        self.both("end_trial", x.end_trial, lambda: L.t_rl(t, 3, None, 0, 0.0))

    def rlfit(self):
        r = self.ctx.rng
        self.log.append("rlfit")
        st, a, rew = pylib.inputs(self.ctx.np, 1, self.p, self.info)[0], r.randrange(self.p["n_actions"]), r.uniform(-2, 5)
        self.expect("rlfit", lambda: self.x.fit(st, a, rew), lambda: L.t_rlfit(self.t, ptr(st), a, rew))

    def data(self, n):
        return pylib.inputs(self.ctx.np, n, self.p, self.info), pylib.targets(self.ctx.np, n, self.p)

    def fit(self):
        r, t = self.ctx.rng, self.t
        n, shuffle, warm = pylib.n_rows(r, 12), r.random() < 0.5, r.random() < 0.5
        X, Y = self.data(n)
        kw, val = {}, None
        if r.random() < 0.5:
            val = self.data(pylib.n_rows(r, 6))
            kw["validation_data"] = val
        T, W = int(self.params["max_trials"]), int(self.params["perf_trials"])
        zeros = np.zeros(self.p["y_dim"] * self.p["n_actions"])
        self.log.append(f"fit(warm={warm}, val={val is not None})")

        def twin():
            if not warm:
                L.t_restart(t)
                self.stored = False
            s = 0
            while s < T:
                w = min(W, T - s)
                e = L.t_fit(t, ptr(X), ptr(Y), n, shuffle, s, w)
                v = L.t_score(t, ptr(val[0]), ptr(val[1]), len(val[0]), 0, ptr(zeros)) if val else 0.0
                m = self.metrics
                m["trials"].append((m["trials"][-1] if m["trials"] else 0) + w)
                for k, q in (("train", e), ("val", v), ("psize", L.t_stat(t, 1, 0)), ("msize", L.t_stat(t, 5, 0)), ("mfrac", L.t_stat(t, 7, 0))):
                    m[k].append(q)
                s += w

        self.both("fit", lambda: self.x.fit(X, Y, shuffle=shuffle, warm_start=warm, verbose=False, **kw), twin)
        got = self.x.get_metrics()
        for k in self.metrics:
            self.ctx.check(same(got[k], self.metrics[k]), "metrics", lambda: f"{k}: {got[k]} but the core gives {self.metrics[k]}; {self.log} {self.p}")

    def cover(self):
        """Argument for the object, and the answer it stands for."""
        r, yd, na = self.ctx.rng, self.p["y_dim"], self.p["n_actions"]
        if r.random() < 0.35:
            return {}, np.zeros(yd * na)
        c = self.ctx.np.random(yd) * 4 - 2
        if self.p["loss_func"] in ("log", "binary_log", "onehot"):
            c = np.abs(c) / 3
        return {"cover": c}, np.tile(c, na)

    def predict(self):
        c, t = self.ctx, self.t
        X, _ = self.data(pylib.n_rows(c.rng, 8))
        if c.rng.random() < 0.4:  # inputs no rule may match
            X = X + c.np.integers(-3, 4, X.shape)
        kw, full = self.cover()
        self.log.append("predict")
        out = np.full((len(X), len(full)), 7.0)
        got = []
        self.expect("predict", lambda: (got.append(self.x.predict(X, **kw)), got[-1])[1], lambda: (L.t_predict(t, ptr(X), ptr(out), len(X), ptr(full)), out)[1])
        if self.x.pset_size() == 0:
            c.check(same(got[0], np.tile(full, (len(X), 1))), "empty-cover", lambda: f"no rules, so predict must give {full} for each row, got {got[0]}")
        c.count("rows", len(X))

    def score(self):
        c, t = self.ctx, self.t
        X, Y = self.data(pylib.n_rows(c.rng, 8))
        if c.rng.random() < 0.4:
            X = X + c.np.integers(-3, 4, X.shape)
        kw, full = self.cover()
        N = c.rng.choice([0, 0, 1, 2, 3, 8, 50])
        self.log.append(f"score({N})")
        self.expect("score", lambda: self.x.score(X, Y, N=N, **kw), lambda: L.t_score(t, ptr(X), ptr(Y), len(X), N, ptr(full)))

    def json(self):
        r = self.ctx.rng
        k = [r.random() < 0.6 for _ in range(3)]
        self.log.append("json")
        if r.random() < 0.3:
            self.expect("json", self.x.json, lambda: L.t_json(self.t, 1, 1, 1).decode())
        else:
            self.expect("json", lambda: self.x.json(*k), lambda: L.t_json(self.t, *k).decode())
        name = os.path.join(self.ctx.tmp, "pop.json")
        self.expect("json_write", lambda: (self.x.json_write(name), open(name).read())[1], lambda: L.t_json(self.t, 1, 1, 1).decode())

    def insert(self):
        r = self.ctx.rng
        if self.info["cond"] not in IMPORT_COND or self.info["pred"] not in IMPORT_PRED or self.p.get("action", {"type": "integer"})["type"] != "integer":
            return
        text = L.t_json(self.t, 1, 1, 1).decode()
        d = json.loads(text)
        if not d:
            return
        rules = d["classifiers"]
        pick = r.sample(rules, r.randint(1, min(5, len(rules))))
        how = r.choice(["one", "many", "file"])
        self.log.append("insert-" + how)
        if how == "one":
            one = json.dumps(pick[0])
            self.both("json_insert_cl", lambda: self.x.json_insert_cl(one), lambda: L.t_insert(self.t, one.encode(), 1))
            return
        many = json.dumps({"classifiers": pick})
        if how == "many":
            self.both("json_insert", lambda: self.x.json_insert(many), lambda: L.t_insert(self.t, many.encode(), 0))
        else:
            name = os.path.join(self.ctx.tmp, "in.json")
            open(name, "w").write(many)
            self.both("json_read", lambda: self.x.json_read(name), lambda: L.t_insert(self.t, many.encode(), 0))

    def getters(self):
        x, t = self.x, self.t
        for what, f in ((0, x.time), (1, x.pset_size), (2, x.pset_num), (3, x.pset_mean_cond_size), (4, x.pset_mean_pred_size),
                        (5, x.mset_size), (6, x.aset_size), (7, x.mfrac), (8, x.error), (12, x.pset_mean_pred_layers), (15, x.pset_mean_cond_layers)):
            if what not in (3, 4) or x.pset_size() > 0:  # no mean of nothing
                self.expect(f"getter{what}", f, lambda: L.t_stat(t, what, 0))
        if self.p["prediction"]["type"] == "neural":
            for layer in range(len(self.p["prediction"]["args"])):
                for what, f in ((9, x.pset_mean_pred_eta), (10, x.pset_mean_pred_neurons), (11, x.pset_mean_pred_connections)):
                    self.expect(f"getter{what}", lambda: f(layer), lambda: L.t_stat(t, what, layer))
        if self.p["condition"]["type"] == "neural":
            for layer in range(len(self.p["condition"]["args"])):
                for what, f in ((13, x.pset_mean_cond_neurons), (14, x.pset_mean_cond_connections)):
                    self.expect(f"getter{what}", lambda: f(layer), lambda: L.t_stat(t, what, layer))

    def store(self):
        if not self.stored or self.ctx.rng.random() < 0.5:
            self.log.append("store")
            self.both("store", self.x.store, lambda: L.t_act(self.t, 0, 0, 0))
            self.stored = True
        else:
            self.log.append("retrieve")
            self.both("retrieve", self.x.retrieve, lambda: L.t_act(self.t, 1, 0, 0))
            self.stored = False

    def reload(self):
        self.log.append("load")
        name = os.path.join(self.ctx.tmp, "keep.bin")
        if not os.path.exists(name) or self.ctx.rng.random() < 0.5 or not getattr(self, "kept", False):
            self.x.save(name)
            self.kept = dict(self.params)
            return
        self.both("load", lambda: self.x.load(name), lambda: (L.t_load(self.t, name.encode()), L.t_params(self.t)))  # the object reads its parameters anew
        self.params = dict(self.kept)
        self.stored = False

    def set(self):
        r = self.ctx.rng
        new = {k: v for k, v in {"max_trials": r.randint(1, 60), "perf_trials": r.randint(1, 40), "beta": r.uniform(0.01, 1), "e0": r.uniform(0, 0.5),
                                 "gamma": r.uniform(0, 1), "alpha": r.uniform(0, 1), "p_explore": r.uniform(0, 1), "theta_sub": r.randint(0, 50),
                                 "set_subsumption": r.random() < 0.5, "m_probation": r.randint(1, 100), "random_state": r.choice([None, 3, 99])}.items() if r.random() < 0.4}
        self.log.append(f"set{sorted(new)}")
        core = {k: (-1 if v is None else v) for k, v in new.items()}
        self.both("set_params", lambda: self.x.set_params(**new), lambda: L.t_set(self.t, json.dumps(core).encode()))
        self.params.update(new)
        u, v = self.both("internal_params", self.x.internal_params, lambda: json.loads(L.t_params(self.t).decode()))
        self.ctx.check(u == v, "params", lambda: f"parameters in force {u} but the core has {v}")

    def expand(self):
        if self.p["prediction"]["type"] != "neural":
            return
        self.log.append("expand")
        self.both("pred_expand", self.x.pred_expand, lambda: L.t_act(self.t, 2, 0, 0))

    def classify(self):
        """Autoencoder to classifier, and what can be done without covering."""
        r, c, t = self.ctx.rng, self.ctx, self.t
        yd, nd = r.randint(2, 5), r.randint(0, 3)
        self.log.append(f"ae_to_classifier({yd}, {nd})")
        self.both("ae_to_classifier", lambda: self.x.ae_to_classifier(yd, nd), lambda: L.t_act(t, 3, yd, nd))
        self.p = {**self.p, "y_dim": yd, "loss_func": "onehot"}
        self.getters()
        if self.p["n_actions"] == 1:
            self.predict()
            self.score()

    def show(self):
        k = [self.ctx.rng.random() < 0.6 for _ in range(3)]
        self.log.append("print")
        self.expect("print_pset", lambda: printed(self.ctx, lambda: self.x.print_pset(*k)), lambda: printed(self.ctx, lambda: L.t_print(self.t, 0, *k)))
        self.expect("print_params", lambda: printed(self.ctx, self.x.print_params), lambda: printed(self.ctx, lambda: L.t_print(self.t, 1, 0, 0, 0)))


def run_case(ctx):
    r = ctx.rng
    n_act = {"rl": r.choice([2, 2, 3, 5]), "cover": r.choice([1, 2, 3]), "json": r.choice([1, 2, 4]), "fit": 1}.get(MODE, r.choice([1, 1, 2, 3]))
    o = {"conds": IMPORT_COND, "preds": IMPORT_PRED} if MODE == "json" and r.random() < 0.7 else {}
    p, info = pylib.params(r, n_actions=n_act, recurrent=MODE != "json", stochastic=True, neural_act=True, **o)
    p["max_trials"] = r.randint(1, 40)
    q = Pair(ctx, p, info)
    learn = [q.rl, q.rl, q.rlfit] if n_act > 1 else [q.fit]
    pool = {"rl": learn, "fit": learn * 2 + [q.predict, q.insert], "cover": learn + [q.predict, q.predict, q.score], "json": learn + [q.json, q.json, q.insert],
            "all": learn * 3 + [q.predict, q.predict, q.score, q.json, q.insert, q.getters, q.store, q.store, q.reload, q.reload, q.set, q.expand, q.show]}[MODE]
    n = r.randint(2, 8 if MODE != "all" else 12)
    for i in range(n):
        op = r.choice(learn if i == 0 and r.random() < 0.7 else pool)
        op()
        if ctx.viols:
            return
        if MODE != "all" or r.random() < 0.5:
            if not q.state():
                return
    if MODE == "all":
        q.getters()
        if p["prediction"]["type"] == "neural" and r.random() < 0.5:
            q.classify()
    q.state()
    L.t_free(q.t)
    ctx.count("histories")
    ctx.distinct(q.log, p["random_state"])
    ctx.sample(f"{q.log} cond={info['cond']} pred={info['pred']} n_actions={n_act}")


if __name__ == "__main__":
    pylib.main(lambda t: 30000 if t else 4000, run_case)

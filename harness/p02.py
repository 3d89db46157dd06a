"""Every block acquired by the module is followed (memtrack.c) over repeated,
identical lives of Python systems: the same calls on a newly made system, which
is then dropped. Blocks left behind by every further life are a leak; what only
the first life leaves (tables made once) is not."""

import ctypes
import gc
import json
import os
import pickle

import numpy as np
import pylib
import xcsf

MT = ctypes.CDLL(None)  # the preloaded recorder
MT.mt_figure.restype = ctypes.c_longlong
MT.mt_figure.argtypes = [ctypes.c_int]
MT.mt_sites.argtypes = [ctypes.c_char_p, ctypes.c_size_t]
IMPORT = ("dummy", "ternary", "hyperrectangle_csr", "hyperrectangle_ubr", "hyperellipsoid")
IMPORT_PRED = ("constant", "nlms_linear", "nlms_quadratic", "rls_linear", "rls_quadratic")


class Life:
    def __init__(self, ctx):
        r = self.r = ctx.rng
        self.dir = ctx.tmp
        self.n_act = r.choice([1, 1, 2, 3])
        self.p, self.info = pylib.params(r, n_actions=self.n_act, recurrent=True, neural_act=True, stochastic=True)
        self.p["max_trials"], self.p["pop_size"] = r.randint(1, 12), r.randint(5, 25)
        n = r.randint(1, 6)
        self.X, self.Y = pylib.inputs(ctx.np, n, self.p, self.info), pylib.targets(ctx.np, n, self.p)
        self.cover = np.abs(ctx.np.random(self.p["y_dim"]))
        learn = [self.rl, self.rlfit] if self.n_act > 1 else [self.fit, self.fit_cb]
        pool = learn + [self.predict, self.score, self.json, self.jfile, self.insert, self.getters, self.params, self.saveload, self.pickle, self.store,
                        self.refused]
        self.ops = [r.choice(learn)] + [r.choice(pool) for _ in range(r.randint(1, 5))]
        if self.p["prediction"]["type"] == "neural":
            self.ops.append(self.expand)
        self.actions = [r.randrange(self.n_act) for _ in range(4)]

    def rl(self, x):
        x.init_trial()
        for j, s in enumerate(self.X):
            x.init_step()
            x.decision(s, j % 2 == 0)
            x.update(1.0, j == len(self.X) - 1)
            x.error(1.0, j == len(self.X) - 1, 5.0)
            x.end_step()
        x.end_trial()

    def rlfit(self, x):
        for a, s in zip(self.actions, self.X):
            x.fit(s, a, 0.5)

    def fit(self, x):
        x.fit(self.X, self.Y, verbose=False, warm_start=len(self.X) % 2 == 0)

    def fit_cb(self, x):
        name = os.path.join(self.dir, "cp.bin")
        cb = [xcsf.EarlyStoppingCallback(monitor="val", patience=5, restore_best=True, verbose=False),
              xcsf.CheckpointCallback(monitor="train", filename=name, save_best_only=False, verbose=False)]
        x.fit(self.X, self.Y, validation_data=(self.X, self.Y), callbacks=cb, verbose=False)

    def predict(self, x):
        x.predict(self.X)
        x.predict(np.asfortranarray(self.X).astype(np.float32), cover=self.cover)

    def score(self, x):
        if self.n_act == 1:
            x.score(self.X, self.Y)
            x.score(self.X, self.Y, N=1, cover=self.cover)

    def json(self, x):
        x.json()
        x.json(False, True, False)

    def jfile(self, x):
        x.json_write(os.path.join(self.dir, "pop.json"))

    def insert(self, x):
        if self.info["cond"] in IMPORT and self.info["pred"] in IMPORT_PRED and self.p.get("action", {"type": "integer"})["type"] == "integer":
            d = json.loads(x.json())
            if d:
                x.json_insert_cl(json.dumps(d["classifiers"][0]))
                x.json_insert(json.dumps(d))
                name = os.path.join(self.dir, "in.json")
                with open(name, "w") as f:
                    json.dump(d, f)
                x.json_read(name)

    def getters(self, x):
        for f in (x.time, x.pset_size, x.pset_num, x.mset_size, x.aset_size, x.mfrac, x.error, x.get_metrics, x.pset_mean_cond_size, x.pset_mean_pred_size):
            f()

    def params(self, x):
        x.get_params()
        x.internal_params()
        x.set_params(beta=0.2, e0=0.1, alpha=1.0)

    def saveload(self, x):
        name = os.path.join(self.dir, "s.bin")
        x.save(name)
        x.load(name)
        xcsf.XCS().load(name)

    def pickle(self, x):
        pickle.loads(pickle.dumps(x)).predict(self.X)

    def store(self, x):
        x.store()
        if self.n_act > 1:
            self.rlfit(x)
        x.store()
        x.retrieve()

    def expand(self, x):
        x.pred_expand()
        x.predict(self.X)

    def refused(self, x):
        for f in (lambda: x.predict(np.zeros((2, self.p["x_dim"] + 1))), lambda: x.fit(self.X, self.Y[:-1], verbose=False),
                  lambda: x.predict(self.X, cover=np.zeros(self.p["y_dim"] + 2)), lambda: x.score(self.X, np.zeros((len(self.X), self.p["y_dim"] + 1)))):
            try:
                f()
            except (ValueError, TypeError, RuntimeError):
                pass

    def once(self):
        x = xcsf.XCS(**self.p)
        for f in self.ops:
            f(x)
        size = x.pset_size()
        del x
        return size


def run_case(ctx):
    life = Life(ctx)
    names = [f.__name__ for f in life.ops]
    ctx.stage(f"{names} {life.p}")
    assert MT.mt_start() > 0
    rounds = 8 if ctx.thorough else 5
    size, live, held, objs = [], [], [], []
    for i in range(rounds):
        size.append(life.once())
        gc.collect()
        live.append(MT.mt_figure(0))
        held.append(MT.mt_figure(1))
        objs.append(len(gc.get_objects()))
    if len(set(size)) > 1 or MT.mt_figure(3):
        ctx.count("unsteady")  # lives were not identical: no verdict
        return
    grow = [b - a for a, b in zip(live[1:], live[2:])]
    if min(grow) > 0:
        buf = ctypes.create_string_buffer(4000)
        MT.mt_sites(buf, 4000)
        ctx.viol("leak", f"every further life of a system leaves {grow} more blocks behind, all calls alike: {names}; e.g. {buf.value.decode()}; {life.p}")
    og = [b - a for a, b in zip(objs[1:], objs[2:])]
    ctx.check(min(og) <= 0, "objects", lambda: f"every further life of a system leaves {og} more Python objects behind: {names}; {life.p}")
    ctx.count("lives", rounds)
    ctx.count("blocks_followed", MT.mt_figure(2))
    ctx.count("lives_balanced", sum(g == 0 for g in grow))
    for n in names:
        ctx.count("op_" + n)
    ctx.distinct(names, life.p)
    ctx.sample(f"{names}: {MT.mt_figure(2)} blocks acquired, {live[0]} left after the first life, {live[-1]} after the last")
    if ctx.verbose:
        print(names, live, objs)


if __name__ == "__main__":
    pylib.main(lambda t: 12000 if t else 800, run_case)

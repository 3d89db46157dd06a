"""Pickled, copied, saved and separate systems. A system trained for a while is
pickled (deep-copied, saved and loaded); original and copy must report the same
and train on identically from the same random numbers. Several systems used in
turn must behave as each does alone."""

import copy
import json
import os
import pickle

import numpy as np
import pylib
import xcsf
from pylib import rules, same


def reseed(s):
    """Constructing a system seeds the shared random number generator."""
    xcsf.XCS(random_state=int(s))


def facts(x):
    return [x.time(), x.error(), x.pset_size(), x.pset_num(), x.mset_size(), x.aset_size(), x.mfrac(), x.pset_mean_cond_size(), x.pset_mean_pred_size()]


class Script:
    """Operations on one system, each from its own random numbers."""

    def __init__(self, ctx, p, info, n):
        r, g = ctx.rng, ctx.np
        self.p, self.info, self.ops = p, info, []
        for _ in range(n):
            k = r.random()
            m = pylib.n_rows(r, 10)
            X, Y = pylib.inputs(g, m, p, info), pylib.targets(g, m, p)
            s = r.randrange(1 << 30)
            if p["n_actions"] > 1 and k < 0.6:
                self.ops.append(("rl", s, [(X[i], r.random() < 0.7, r.uniform(-1, 3)) for i in range(m)]))
            elif k < 0.55:
                self.ops.append(("fit", s, X, Y, r.random() < 0.5, r.random() < 0.8))
            elif k < 0.7:
                self.ops.append(("predict", s, X))
            elif k < 0.8:
                self.ops.append(("score", s, X, Y, r.choice([0, 2])))
            elif k < 0.87:
                self.ops.append(("json", s))
            elif k < 0.94:
                self.ops.append(("store", s) if r.random() < 0.5 else ("retrieve", s))
            else:
                self.ops.append(("params", s, r.choice([0.05, 0.2, 0.5])))

    def run(self, x, op):
        """Performs the operation; returns everything the caller sees."""
        reseed(op[1])
        o = []
        if op[0] == "fit":
            x.fit(op[2], op[3], shuffle=op[4], warm_start=op[5], verbose=False)
            k = len(x.get_metrics()["train"])
            o += [x.get_metrics()["train"][-1], x.get_metrics()["psize"][-1]]
        elif op[0] == "predict":
            o += list(x.predict(op[2]).ravel())
        elif op[0] == "score":
            o.append(x.score(op[2], op[3], N=op[4]))
        elif op[0] == "json":
            o.append(len(x.json()))
        elif op[0] == "store":
            x.store()
        elif op[0] == "retrieve":
            x.store()
            x.retrieve()
        elif op[0] == "params":
            x.set_params(beta=op[2])
            o.append(x.internal_params()["beta"])
        elif op[0] == "rl":
            x.init_trial()
            for i, (s, ex, rew) in enumerate(op[2]):
                x.init_step()
                a = x.decision(s, ex)
                x.update(rew, i == len(op[2]) - 1)
                o += [a, x.error(rew, i == len(op[2]) - 1, 3.0)]
                x.end_step()
            x.end_trial()
        return o + facts(x)


def make(ctx, **kw):
    r = ctx.rng
    p, info = pylib.params(r, n_actions=r.choice([1, 1, 1, 2, 3]), recurrent=True, stochastic=True, neural_act=True, stateful=r.random() < 0.5, threads=r.choice([1, 1, 2]), **kw)
    p["max_trials"] = r.randint(1, 40)
    return p, info


def pickled(ctx):
    r, g = ctx.rng, ctx.np
    p, info = make(ctx)
    x = xcsf.XCS(**p)
    sc = Script(ctx, p, info, r.randint(0, 4))
    where = f"{[o[0] for o in sc.ops]} x_dim={p['x_dim']} y_dim={p['y_dim']} n_actions={p['n_actions']} {info['cond']} {info['pred']}"
    ctx.stage("train " + where)
    for op in sc.ops:
        sc.run(x, op)
    x.internal_params()  # fills in derived layer sizes
    before = x.json()
    how = r.choice(["pickle", "pickle", "deepcopy", "copy", "save", "twice", "file"])
    ctx.stage(how + " " + where)
    left = set(os.listdir(ctx.tmp))
    if how == "pickle":
        y = pickle.loads(pickle.dumps(x, protocol=r.randint(2, pickle.HIGHEST_PROTOCOL)))
    elif how == "deepcopy":
        y = copy.deepcopy(x)
    elif how == "copy":
        y = copy.copy(x)
    elif how == "twice":
        y = pickle.loads(pickle.dumps(pickle.loads(pickle.dumps(x))))
    elif how == "file":
        f = os.path.join(ctx.tmp, "x.pkl")
        with open(f, "wb") as h:
            pickle.dump({"a": x, "b": [x]}, h)
        with open(f, "rb") as h:
            d = pickle.load(h)
        y = d["a"]
        os.unlink(f)
    else:
        f = os.path.join(ctx.tmp, "x.bin")
        n = x.save(f)
        q, _ = make(ctx)
        y = xcsf.XCS() if r.random() < 0.5 else xcsf.XCS(**q)
        if r.random() < 0.5:
            y.set_params(max_trials=20)
            try:
                y.fit(np.ones((2, y.internal_params()["x_dim"])) * 0.5, np.ones((2, y.internal_params()["y_dim"])), verbose=False)
            except ValueError:
                pass
        ctx.check(y.load(f) == n, "save-count", "different numbers of elements written and read")
        os.unlink(f)
    ctx.check(set(os.listdir(ctx.tmp)) == left, "temporary-file", lambda: f"left behind: {set(os.listdir(ctx.tmp)) - left}")
    ctx.count("copies_" + how)
    ctx.check(x.json() == before, "original-changed", lambda: f"{how} changed the original; {where}")
    ctx.check(y.json() == before, "population", lambda: f"{how}: population differs; {where}")
    px, py = x.internal_params(), y.internal_params()
    ctx.check(px == py, "params", lambda: f"{how}: parameters differ: {[(k, px.get(k), py.get(k)) for k in set(px) | set(py) if px.get(k) != py.get(k)]}; {where}")
    gp = dict(y.get_params())
    if gp.get("random_state") is None:
        gp["random_state"] = -1
    ctx.check(gp == py, "get_params", lambda: f"{how}: get_params of the copy does not report its parameters: {[(k, gp.get(k), py.get(k)) for k in set(gp) | set(py) if gp.get(k) != py.get(k)]}; {where}")
    ctx.check(same(facts(x), facts(y)), "facts", lambda: f"{how}: {facts(x)} vs {facts(y)}; {where}")
    # further work from equal random numbers, in turn
    sc2 = Script(ctx, p, info, r.randint(1, 4))
    for op in sc2.ops:
        if op[0] in ("store", "retrieve"):
            continue
        ctx.stage(f"continue {op[0]} {how} {where}")
        if op[0] == "fit" and not op[5]:
            op = op[:5] + (True,)
        a = sc2.run(x, op)
        b = sc2.run(y, op)
        ja, jb = x.json(), y.json()
        if not ctx.check(same(a, b), "continued", lambda: f"{how}: {op[0]} gives {a[:12]} on the original, {b[:12]} on the copy; {where}"):
            return
        if not ctx.check(ja == jb, "continued-population", lambda: f"{how}: after {op[0]} the populations differ; {where}"):
            return
        ctx.count("continued_" + op[0])
    # what is done to the copy does not reach the original
    if r.random() < 0.5:
        ja = x.json()
        y.fit(pylib.inputs(g, 4, p, info), pylib.targets(g, 4, p), verbose=False)
        y.set_params(beta=0.33, pop_size=9)
        ctx.check(x.json() == ja, "shared", lambda: f"training the copy changed the original; {where}")
        ctx.check(x.internal_params()["beta"] != 0.33, "shared-params", "parameters of the copy and the original are shared")
        del y
        ctx.check(x.json() == ja, "shared-free", lambda: f"freeing the copy changed the original; {where}")
        x.predict(pylib.inputs(g, 4, p, info))
    ctx.count("pickles")
    ctx.distinct(how, info["cond"], info["pred"], p["n_actions"], hash(before))
    ctx.sample(how + " " + where)


def alone_log(sc):
    x = xcsf.XCS(**sc.p)
    log = [x.json()]
    for op in sc.ops:
        log.append((sc.run(x, op), x.json()))
    log.append(x.internal_params())
    return log


def in_child(f):
    """The result of f in a process in which no system was ever made; this
    process dies the way the child did, if it does."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            with os.fdopen(w, "wb") as h:
                pickle.dump(f(), h)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as h:
        data = h.read()
    _, status = os.waitpid(pid, 0)
    if os.WIFSIGNALED(status):
        os.kill(os.getpid(), os.WTERMSIG(status))
    if status != 0:
        os._exit(os.WEXITSTATUS(status) or 1)
    return pickle.loads(data)


def several(ctx):
    """Interleaved use against each system alone."""
    r = ctx.rng
    scs = []
    for _ in range(r.randint(2, 4)):
        p, info = make(ctx)
        scs.append(Script(ctx, p, info, r.randint(1, 5)))
    alone = []
    for sc in scs:
        ctx.stage(f"alone {[o[0] for o in sc.ops]} {sc.p}")
        alone.append(in_child(lambda: alone_log(sc)))
        ctx.count("alone_in_a_process_of_its_own")
    xs = [None] * len(scs)
    pos = [0] * len(scs)
    last = [None] * len(scs)
    while True:
        ready = [i for i in range(len(scs)) if pos[i] <= len(scs[i].ops)]
        if not ready:
            break
        i = r.choice(ready)
        sc = scs[i]
        ctx.stage(f"interleaved {i} {pos[i]} {sc.p}")
        if xs[i] is None:
            xs[i] = xcsf.XCS(**sc.p)
            ctx.check(xs[i].json() == alone[i][0], "start", lambda: f"a new system differs because others exist; {sc.p}")
            last[i] = xs[i].json()
        else:
            op = sc.ops[pos[i] - 1]
            out = sc.run(xs[i], op)
            want = alone[i][pos[i]]
            if not ctx.check(same(out, want[0]), "interleaved", lambda: f"{op[0]} gives {out[:12]}, alone {want[0][:12]}; {sc.p}"):
                return
            last[i] = xs[i].json()
            if not ctx.check(last[i] == want[1], "interleaved-population", lambda: f"population after {op[0]} differs from that alone; {sc.p}"):
                return
            ctx.count("interleaved_" + op[0])
        pos[i] += 1
        # nobody else changed
        for j, y in enumerate(xs):
            if y is not None and j != i:
                ctx.check(y.json() == last[j], "others", lambda: f"work on system {i} changed system {j}; {scs[j].p}")
                ctx.count("others_checked")
        if pos[i] > len(sc.ops) and r.random() < 0.5:
            ip = xs[i].internal_params()
            ctx.check(ip == alone[i][-1], "params", lambda: f"{ip} vs {alone[i][-1]}")
            xs[i] = None  # freed while others live
            pos[i] = 10 ** 6
    ctx.count("several")
    ctx.distinct("several", [[o[0] for o in s.ops] for s in scs], [s.p["random_state"] for s in scs])


def run_case(ctx):
    import tempfile
    tempfile.tempdir = ctx.tmp
    (several if ctx.idx % 3 == 2 else pickled)(ctx)
    ctx.count("histories")


if __name__ == "__main__":
    pylib.main(lambda t: 20000 if t else 1800, run_case)

"""Driver for the monitors of the Python interface: every case runs in a forked
child, so a crash, exit() or sanitizer report of the code under test ends that
case only. Also: random configurations over all representations."""

import argparse
import hashlib
import json
import math
import mmap
import os
import random
import resource
import signal
import struct
import sys
import traceback

import numpy as np


class Ctx:
    def __init__(self, seed, idx, thorough, verbose, tmp):
        self.seed, self.idx, self.thorough, self.verbose, self.tmp = seed, idx, thorough, verbose, tmp
        self.rng = random.Random(seed)
        self.np = np.random.default_rng(seed)
        self.counters, self.hashes, self.samples, self.viols = {}, set(), [], []

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + int(n)

    def distinct(self, *vals):
        h = hashlib.sha256(repr(vals).encode()).hexdigest()[:16]
        self.hashes.add(h)

    def sample(self, text):
        if len(self.samples) < 2:
            self.samples.append(str(text)[:600])

    def stage(self, text):
        b = str(text).encode()[:1000]
        STAGE.seek(0)
        STAGE.write(b + b"\0" * (1024 - len(b)))

    def viol(self, key, msg):
        if len(self.viols) < 8:
            self.viols.append((key, str(msg)[:3000]))

    def check(self, cond, key, msg):
        if not cond:
            self.viol(key, msg() if callable(msg) else msg)
        return bool(cond)


STAGE = None


def same(a, b):
    """Bit-for-bit equality up to the payload of NaNs."""
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.all((a == b) | (np.isnan(a) & np.isnan(b))))


def close(a, b, rel=1e-9, ab=1e-12):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    return bool(np.all((np.abs(a - b) <= ab + rel * np.maximum(np.abs(a), np.abs(b))) | (a == b) | (np.isnan(a) & np.isnan(b))))


def seed_of(seed, salt, idx):
    return int.from_bytes(hashlib.sha256(f"{seed}/{salt}/{idx}".encode()).digest()[:7], "big")


def tail(path, n=3000):
    try:
        s = open(path, errors="replace").read()
    except OSError:
        return ""
    for w in ("ERROR: AddressSanitizer", "runtime error:", "WARNING: ThreadSanitizer"):
        p = s.find(w)
        if p >= 0:
            return s[max(0, p - 200):p + n]
    return s[-n:]


def main(n_cases, run_case):
    global STAGE
    ap = argparse.ArgumentParser()
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--salt", default="x")
    ap.add_argument("--worker", type=int, default=0)
    ap.add_argument("--workers", type=int, default=1)
    ap.add_argument("--tmp", default="/tmp")
    ap.add_argument("--out", default="/dev/stdout")
    ap.add_argument("--case", type=int, default=-1)
    ap.add_argument("--limit", type=int, default=-1)
    ap.add_argument("--cpu", type=int, default=40)
    ap.add_argument("--stop", default="")
    ap.add_argument("--verbose", action="store_true")
    ap.add_argument("--thorough", action="store_true")
    a = ap.parse_args()
    if a.thorough:
        a.cpu *= 5
    STAGE = mmap.mmap(-1, 1024)
    n = a.limit if a.limit > 0 else n_cases(a.thorough)
    log = os.path.join(a.tmp, f"log.{a.worker}")
    res = os.path.join(a.tmp, f"res.{a.worker}")
    scratch = os.path.join(a.tmp, f"w{a.worker}")
    os.makedirs(scratch, exist_ok=True)
    out = {"evaluations": 0, "inconclusive": 0, "counters": {}, "hashes": [], "samples": [], "violations": []}
    hashes = set()
    cases = [a.case] if a.case >= 0 else range(a.worker, n, a.workers)
    for idx in cases:
        if a.stop and os.path.exists(a.stop):  # another worker has found a violation
            break
        ctx = Ctx(seed_of(a.seed, a.salt, idx), idx, a.thorough, a.verbose, scratch)
        for attempt in range(2):
            if os.path.exists(res):
                os.unlink(res)
            ctx.stage("start")
            sys.stdout.flush()
            sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    if not a.verbose:
                        fd = os.open(log, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600)
                        os.dup2(fd, 1)
                        os.dup2(fd, 2)
                        os.close(fd)
                    resource.setrlimit(resource.RLIMIT_CPU, (a.cpu, a.cpu + 5))
                    signal.alarm(2 * a.cpu + 60)
                    if "LD_PRELOAD" not in os.environ:
                        resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
                    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                    try:
                        run_case(ctx)
                    except Exception:
                        ctx.viol("exception", traceback.format_exc()[-2500:])
                    sys.stdout.flush()
                    with open(res + ".t", "w") as f:
                        json.dump([ctx.counters, sorted(ctx.hashes)[:2000], ctx.samples, ctx.viols], f)
                    os.rename(res + ".t", res)
                except BaseException:
                    traceback.print_exc()
                    code = 98
                os._exit(code)
            _, st = os.waitpid(pid, 0)
            if not os.path.exists(res) and os.WIFSIGNALED(st) and os.WTERMSIG(st) in (signal.SIGXCPU, signal.SIGALRM, signal.SIGKILL) and attempt == 0:
                continue
            break
        out["evaluations"] += 1
        if os.path.exists(res):
            c, h, s, v = json.load(open(res))
            for k, x in c.items():
                out["counters"][k] = out["counters"].get(k, 0) + x
            hashes.update(h)
            if len(out["samples"]) < 2:
                out["samples"] += s
            out["violations"] += [{"case": idx, "key": k, "msg": m} for k, m in v]
        else:
            stage = STAGE[:1024].split(b"\0")[0].decode(errors="replace")
            if os.WIFSIGNALED(st):
                sg = os.WTERMSIG(st)
                if sg == signal.SIGKILL:
                    out["inconclusive"] += 1
                    continue
                key = "hang" if sg in (signal.SIGXCPU, signal.SIGALRM) else "crash"
                how = f"killed by signal {sg}"
            else:
                key = "sanitizer" if os.WEXITSTATUS(st) == 99 else "exit"
                how = f"process ended with status {os.WEXITSTATUS(st)}"
            out["violations"].append({"case": idx, "key": key, "msg": f"{how} during: {stage}\n{tail(log)}"})
        if out["violations"] and a.stop:
            open(a.stop, "w").close()
            break
        if len(out["violations"]) >= 30 or (out["violations"] and out["violations"][-1]["key"] == "hang"):
            break
    out["hashes"] = sorted(hashes)
    with open(a.out, "w") as f:
        json.dump(out, f)


# ------------------------------------------------------------ configurations

EPS = sys.float_info.epsilon
FUNCS = ["logistic", "relu", "tanh", "linear", "gaussian", "sin", "cos", "softplus", "leaky", "selu", "loggy"]


def layers(r, n_in, n_out, learn, recurrent, info, stochastic=False):
    lay = []

    def common(n, neurons):
        d = {"n_init": n, "evolve_weights": r.random() < 0.7, "evolve_functions": r.random() < 0.2,
             "evolve_connect": r.random() < 0.3, "evolve_neurons": neurons and r.random() < 0.4,
             "sgd_weights": learn and r.random() < 0.9}
        if d["evolve_neurons"]:
            d["n_max"] = n + r.randint(0, 4)
            d["max_neuron_grow"] = r.randint(1, 2)
        if d["sgd_weights"]:
            d["eta"] = r.uniform(0.001, 0.2)
            d["evolve_eta"] = r.random() < 0.4
            if d["evolve_eta"]:
                d["eta_min"] = 0.0005
            d["momentum"] = r.choice([0, 0.5, 0.9])
            d["decay"] = r.choice([0, 0, 0.001])
        return d

    def noisy(**dims):
        info["stochastic"] = True
        if r.random() < 0.5:
            return {"type": "dropout", "probability": r.uniform(0, 0.5), **dims}
        return {"type": "noise", "probability": r.uniform(0, 1), "scale": r.uniform(0, 0.5), **dims}

    if n_in >= 4 and r.random() < 0.25:
        h, w, c = r.choice([d for d in ((1, n_in, 1), (2, n_in // 2, 1), (2, n_in // 4, 2)) if d[0] * d[1] * d[2] == n_in])
        dims = {"height": h, "width": w, "channels": c}
        if stochastic and r.random() < 0.2:
            lay.append(noisy(**dims))
            dims = {}
        for _ in range(r.randint(1, 2)):
            k = r.randrange(4)
            if k == 0:
                nf, size, stride, pad = r.randint(1, 3), r.randint(1, min(2, h, w)), r.randint(1, 2), r.randint(0, 1)
                lay.append({"type": "convolutional", "activation": r.choice(FUNCS), **dims, "size": size, "stride": stride, "pad": pad, **common(nf, True)})
                h, w = (h + 2 * pad - size) // stride + 1, (w + 2 * pad - size) // stride + 1
            elif k == 1:
                size, stride = r.randint(1, min(2, h, w)), r.randint(1, 2)
                lay.append({"type": "maxpool", **dims, "size": size, "stride": stride, "pad": 0})
                h, w = (h - size) // stride + 1, (w - size) // stride + 1
            elif k == 2:
                lay.append({"type": "avgpool", **dims})
                h = w = 1
            else:
                lay.append({"type": "upsample", **dims, "stride": 2})
                h, w = 2 * h, 2 * w
            dims = {}
        info["image"] = True
    elif stochastic and r.random() < 0.1:
        lay.append(noisy())
    for _ in range(r.randint(0, 2)):
        n = r.randint(1, 5)
        k = r.random()
        if recurrent and k < 0.15:
            lay.append({"type": "recurrent", "activation": r.choice(FUNCS), **common(n, True)})
            info["memory"] = True
        elif recurrent and k < 0.3:
            lay.append({"type": "lstm", "activation": r.choice(FUNCS), "recurrent_activation": r.choice(FUNCS), **common(n, True)})
            info["memory"] = True
        else:
            lay.append({"type": "connected", "activation": r.choice(FUNCS), **common(n, True)})
        if stochastic and r.random() < 0.4:
            lay.append(noisy())
    lay.append({"type": "connected", "activation": r.choice(["linear", "logistic", "linear"]), **common(n_out, False)})
    return {f"layer_{i}": x for i, x in enumerate(lay)}


def n_rows(r, hi):
    """Mostly few rows, sometimes a large batch."""
    return r.randint(100, 700) if r.random() < 0.05 else r.randint(1, hi)


def params(r, **o):
    """Random keyword arguments of a system; o fixes or limits some of them."""
    info = {"memory": False, "stochastic": False}
    x_dim = o.get("x_dim") or (r.randint(6, 30) if r.random() < 0.06 else r.randint(1, 5))
    n_actions = o.get("n_actions", 1)
    y_dim = 1 if n_actions > 1 else (o.get("y_dim") or (r.randint(4, 12) if r.random() < 0.06 else r.randint(1, 3)))
    conds = o.get("conds") or ["dummy", "ternary", "hyperrectangle_csr", "hyperrectangle_ubr", "hyperellipsoid", "tree_gp", "dgp", "neural",
                               "hyperrectangle_csr", "hyperrectangle_ubr", "rule_dgp"]
    preds = o.get("preds") or ["constant", "nlms_linear", "nlms_quadratic", "rls_linear", "rls_quadratic", "neural", "neural"]
    cond, pred = r.choice(conds), r.choice(preds)
    if x_dim > 8 and pred == "rls_quadratic":
        pred = "rls_linear"
    rec = o.get("recurrent", False)
    losses = ["mae", "mse", "rmse", "huber"]
    if n_actions == 1:
        losses += ["onehot", "log"] if y_dim > 1 else ["binary_log"]
    if o.get("losses"):
        losses = o["losses"]
    lo, hi = r.choice([(0, 1), (0, 1), (-1, 1)])
    info.update(lo=lo, hi=hi, cond=cond, pred=pred)
    p = {
        "x_dim": x_dim, "y_dim": y_dim, "n_actions": n_actions, "omp_num_threads": o.get("threads", 1),
        "random_state": r.randrange(1 << 30), "pop_size": r.randint(60, 250) if r.random() < 0.05 else r.randint(8, 60), "pop_init": r.random() < 0.4,
        "max_trials": r.randint(1, 80), "perf_trials": r.randint(1, 30), "loss_func": r.choice(losses),
        "e0": r.choice([0.001, 0.05, 0.3]), "alpha": r.choice([0.1, 1.0, r.uniform(0, 1)]), "nu": r.choice([1, 5, r.uniform(0.5, 8)]), "beta": r.choice([0.05, 0.1, 0.5, 1]),
        "delta": r.choice([0.1, 0.5, 0, 1]), "theta_del": r.choice([0, 20, 5]), "init_fitness": r.choice([0.01, 0.01, 0.3, 1]), "init_error": r.choice([0, 0.5]),
        "m_probation": r.choice([5, 50, 10000]), "stateful": o.get("stateful", False), "compaction": r.random() < 0.3,
        "set_subsumption": r.random() < 0.4, "theta_sub": r.choice([2, 20]), "gamma": r.choice([0.5, 0.95]), "p_explore": r.choice([0.5, 0.9]),
        "teletransportation": 50,
        "ea": {"select_type": r.choice(["roulette", "tournament"]), "theta_ea": r.choice([0, 2, 10]), "lambda": r.choice([2, 2, 4]),
               "p_crossover": r.choice([0.0, 0.8, 1.0]), "err_reduc": r.choice([1.0, 1.0, 0.25]), "fit_reduc": r.choice([0.1, 1.0]), "subsumption": r.random() < 0.3,
               "pred_reset": r.random() < 0.2},
    }
    if p["loss_func"] == "huber":
        p["huber_delta"] = r.uniform(0.1, 2)
    if p["ea"]["select_type"] == "tournament":
        p["ea"]["select_size"] = r.uniform(0.2, 1)
    n_act_bits = max(1, math.ceil(math.log2(n_actions))) if n_actions > 1 else 1
    c = {"type": cond}
    span = hi - lo
    if cond in ("hyperrectangle_csr", "hyperellipsoid", "hyperrectangle_ubr"):
        c["args"] = {"eta": r.choice([0, 0.1]), "min": lo, "max": hi, "spread_min": r.uniform(0.05, 0.6) * span}
    elif cond == "ternary":
        c["args"] = {"bits": r.randint(1, 3), "p_dontcare": r.choice([0.3, 0.5, 0.9])}
    elif cond == "tree_gp":
        c["args"] = {"min_constant": lo, "max_constant": hi, "n_constants": r.randint(1, 20), "init_depth": r.randint(1, 4), "max_len": r.choice([64, 500])}
    elif cond == "dgp" or cond == "rule_dgp":
        c["args"] = {"max_k": r.randint(1, 3), "max_t": r.randint(1, 5), "n": n_act_bits + 1 + r.randint(1, 8), "evolve_cycles": r.random() < 0.5}
    elif cond == "neural":
        c["args"] = layers(r, x_dim, 1, False, rec, info)
    p["condition"] = c
    q = {"type": pred}
    if pred.startswith("nlms"):
        q["args"] = {"x0": 1, "eta": r.uniform(0.05, 0.5), "evolve_eta": r.random() < 0.5}
        if q["args"]["evolve_eta"]:
            q["args"]["eta_min"] = 0.001
    elif pred.startswith("rls"):
        q["args"] = {"x0": 1, "scale_factor": r.choice([100, 1000]), "lambda": r.choice([1, 0.999])}
    elif pred == "neural":
        q["args"] = layers(r, x_dim, y_dim, True, rec, info, o.get("stochastic", False))
    p["prediction"] = q
    if n_actions > 1 and not cond.startswith("rule"):
        if o.get("neural_act") and r.random() < 0.3:
            a = layers(r, x_dim, n_actions, False, rec, info)
            a[f"layer_{len(a)}"] = {"type": "softmax", "scale": 1}
            p["action"] = {"type": "neural", "args": a}
        else:
            p["action"] = {"type": "integer"}
    return p, info


def onehot(rng, n, k):
    y = np.zeros((n, k))
    y[np.arange(n), rng.integers(0, k, n)] = 1
    return y


def targets(rng, n, p):
    k, l = p["y_dim"], p["loss_func"]
    if l in ("onehot", "log"):
        return onehot(rng, n, k)
    if l == "binary_log":
        return rng.integers(0, 2, (n, 1)).astype(float)
    return rng.random((n, k))


def inputs(rng, n, p, info):
    return info["lo"] + (info["hi"] - info["lo"]) * rng.random((n, p["x_dim"]))


def rules(text):
    """The population as a sorted list of canonical rule texts."""
    d = json.loads(text)
    return sorted(json.dumps(c, sort_keys=True) for c in (d["classifiers"] if d else []))


def loss(name, pred, y, delta=1.0):
    """Reference losses of one row."""
    pred, y = [float(v) for v in pred], [float(v) for v in y]
    n = len(y)
    if name == "mae":
        return math.fsum(abs(a - b) for a, b in zip(pred, y)) / n
    if name == "mse":
        return math.fsum((a - b) ** 2 for a, b in zip(pred, y)) / n
    if name == "rmse":
        return math.sqrt(math.fsum((a - b) ** 2 for a, b in zip(pred, y)) / n)
    if name == "huber":
        t = 0
        for a, b in zip(pred, y):
            e = b - a
            t += 0.5 * e * e if abs(e) <= delta else delta * (abs(e) - 0.5 * delta)
        return t / n
    if name == "log":
        return -math.fsum(b * math.log(max(a, EPS)) for a, b in zip(pred, y))
    if name == "binary_log":
        e = 0.0
        for a, b in zip(pred, y):
            e += b * math.log(max(a, EPS)) + (1 - b) * math.log(max(1 - a, EPS))
        return -e
    if name == "onehot":
        return 0.0 if y[int(np.argmax(pred))] == 1 else 1.0
    raise ValueError(name)

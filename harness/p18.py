"""Parameters given as Python keywords: every value given is the value the
system reports, other parameters keep theirs, and a system built from reported
parameters reports the same."""

import json

import pylib
import xcsf


def leaves(d, path=()):
    for k, v in d.items():
        if isinstance(v, dict):
            yield from leaves(v, path + (k,))
        else:
            yield path + (k,), v


def look(d, path):
    for k in path:
        if not isinstance(d, dict) or k not in d:
            return None
        d = d[k]
    return d


def population(x):
    """The rules; accuracy is derived from the parameters."""
    d = json.loads(x.json())
    for c in d["classifiers"] if d else []:
        c.pop("accuracy", None)
    return d


def eq(a, b):
    if isinstance(a, bool) or isinstance(b, bool):
        return a is b or a == b and isinstance(a, bool) == isinstance(b, bool)
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return abs(a - b) <= 1e-12 * max(abs(a), abs(b))
    return a == b


def run_case(ctx):
    r = ctx.rng
    p, info = pylib.params(r, n_actions=r.choice([1, 1, 2, 5]), recurrent=True, stochastic=True, neural_act=True, stateful=r.random() < 0.5, threads=r.randint(1, 4))
    if r.random() < 0.2:
        p["random_state"] = None
    ctx.stage(f"construct {p}")
    x = xcsf.XCS(**p)
    ip = x.internal_params()
    given = json.loads(json.dumps(p))

    def compare(d, ip, what):
        for path, v in leaves(d):
            got = look(ip, path)
            if path == ("random_state",) and v is None:
                v = -1
            if got is None and path[0] in ("gamma", "teletransportation", "p_explore", "huber_delta"):
                continue
            if got is None and path[-1] == "pad" and v == 0:
                continue  # no padding is not reported
            ctx.check(eq(got, v), "value", lambda: f"{what}: {'.'.join(path)} given {v!r}, reported {got!r}; {d}")
            ctx.count("values")
            ctx.distinct(path, v if isinstance(v, (str, bool)) else round(float(v), 3))

    compare(given, ip, "constructor")
    gp = x.get_params()
    for k, v in p.items():
        ctx.check(gp.get(k) == v, "get_params", lambda: f"get_params reports {k}={gp.get(k)!r}, given {v!r}")
    # a system built from what is reported reports the same
    ctx.stage(f"rebuild {ip}")
    q = dict(ip)
    if q["random_state"] < 0 and r.random() < 0.5:
        q["random_state"] = None
    y = xcsf.XCS(**q)
    jp = y.internal_params()
    ctx.check(jp == ip, "rebuild", lambda: f"rebuilt system differs: {[(k, ip.get(k), jp.get(k)) for k in set(ip) | set(jp) if ip.get(k) != jp.get(k)]}")
    # changing some leaves the others
    o, _ = pylib.params(r, x_dim=p["x_dim"], y_dim=p["y_dim"], n_actions=p["n_actions"], threads=r.randint(1, 4))
    names = [k for k in o if k not in ("x_dim", "y_dim", "n_actions", "condition", "prediction", "action", "pop_init", "loss_func", "huber_delta", "ea")]
    ch = {k: o[k] for k in r.sample(names, r.randint(1, 6))}
    if r.random() < 0.5:
        ch["ea"] = {k: o["ea"][k] for k in r.sample([k for k in o["ea"] if k not in ("select_type", "select_size")], 2)}
    ctx.stage(f"set_params {ch}")
    before = population(x)
    x.set_params(**ch)
    np_ = x.internal_params()
    compare(ch, np_, "set_params")
    touched = {p_ for p_, _ in leaves(ch)}
    for path, v in leaves(ip):
        if path not in touched:
            ctx.check(eq(look(np_, path), v), "others", lambda: f"set_params({ch}) changed {'.'.join(path)} from {v!r} to {look(np_, path)!r}")
            ctx.count("others_checked")
    ctx.check(population(x) == before, "population", lambda: f"set_params({ch}) changed the population")
    ctx.check(y.internal_params() == jp, "shared", "set_params of one system changed another")
    ctx.count("systems")
    ctx.sample(f"{ch}")


if __name__ == "__main__":
    pylib.main(lambda t: 10000 if t else 1500, run_case)

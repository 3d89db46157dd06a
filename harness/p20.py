"""Arrays of any layout and type mean what they mean in NumPy: a history of
calls is run twice from one seed, first with contiguous double-precision copies
and then with every array in another layout, overwritten after use, and with
calls of unfitting shape in between. All results must be identical."""

import gc
import json

import numpy as np
import pylib
import xcsf
from pylib import same

KINDS = ["f8", "f4", "f2", "g", "i1", "u1", "i2", "i4", "i8", "u8", "u4", "bool", ">f8", ">i4", ">f4", "object"]
LAYOUTS = ["C", "F", "rows", "cols", "neg", "negcols", "transposed", "unaligned", "readonly", "list", "tuple", "matrix", "offset",
           "broadcast", "memmap", "fortran_slice", "subclass"]


class Sub(np.ndarray):
    pass


def values(ctx, shape, kind, lo, hi):
    """Values exactly representable in the type."""
    g = ctx.np
    if kind == "bool":
        return g.integers(0, 2, shape).astype(float)
    if kind[-2:] in ("i1", "u1", "i2", "i4", "i8", "u8", "u4"):
        return g.integers(0 if kind[0] == "u" else int(lo), int(hi) + 1, shape).astype(float)
    if kind == "f2" or kind[-2:] == "f4":
        return lo + (hi - lo) * g.integers(0, 65, shape) / 64.0
    return lo + (hi - lo) * g.random(shape)


def layout(ctx, a, kind, how):
    """The same values in another representation."""
    g, r = ctx.np, ctx.rng
    t = a.astype(object if kind == "object" else ("?" if kind == "bool" else kind))
    if how == "list":
        return t.tolist()
    if how == "tuple":
        return tuple(tuple(v) for v in t.tolist()) if a.ndim == 2 else tuple(t.tolist())
    if how == "C":
        return np.ascontiguousarray(t)
    if how == "F":
        return np.asfortranarray(t)
    if how == "readonly":
        t = t.copy()
        t.flags.writeable = False
        return t
    if how == "subclass":
        return t.view(Sub)
    if how == "matrix":
        return np.matrix(t) if a.ndim == 2 else t
    if how == "unaligned" and kind not in ("object",):
        b = np.zeros(t.nbytes + 1, dtype="u1")
        v = np.ndarray(t.shape, t.dtype, buffer=b.data, offset=1)
        v[...] = t
        return v
    if how == "offset":
        b = np.empty(t.size + 7, dtype=t.dtype)
        b[...] = 1
        v = b[5:5 + t.size].reshape(t.shape)
        v[...] = t
        return v
    if how == "memmap" and kind != "object":
        ctx.mm = getattr(ctx, "mm", 0) + 1
        f = f"{ctx.tmp}/mm{ctx.mm}"
        v = np.memmap(f, dtype=t.dtype, mode="w+", shape=t.shape)
        v[...] = t
        return v
    if how == "broadcast" and a.ndim == 2 and len(a) > 1 and np.all(a == a[0]):
        return np.broadcast_to(t[0], t.shape)
    if how == "transposed" and a.ndim == 2:
        return np.ascontiguousarray(t.T).T
    # strided views into larger arrays whose other elements are different
    sh = t.shape
    if how in ("rows", "neg"):
        b = np.empty((sh[0] * 2 + 1,) + sh[1:], dtype=t.dtype)
        b[...] = 1
        v = b[1::2] if how == "rows" else b[:0:-2]
    elif how in ("cols", "negcols", "fortran_slice") and a.ndim == 2:
        b = np.empty((sh[0], sh[1] * 2 + 1), dtype=t.dtype, order="F" if how == "fortran_slice" else "C")
        b[...] = 1
        v = b[:, 1:1 + sh[1]] if how == "cols" else b[:, :0:-2] if how == "negcols" else b[:, 1::2]
    else:
        b = np.empty((sh[0] * 3,) + sh[1:], dtype=t.dtype)
        b[...] = 0
        v = b[::3]
    v[...] = t
    return v


class Plain:
    """First run: contiguous double-precision copies."""

    def __init__(self):
        self.log = []

    def arr(self, a, *_):
        return np.array(a, dtype=np.float64, order="C")

    def after(self):
        pass

    def bad(self, *_):
        pass


class Hostile:
    def __init__(self, ctx, script_rng):
        self.ctx, self.r, self.log, self.live = ctx, script_rng, [], []

    def arr(self, a, kind, how, flat=False):
        v = layout(self.ctx, a, kind, how)
        self.ctx.count("arrays")
        self.ctx.distinct("layout", kind, how, a.shape)
        self.ctx.count("layout_" + how)
        keep = np.array(v, dtype=object).tolist()
        self.live.append((v, keep))
        return v

    def after(self):
        """The caller's arrays are unmodified; then overwrite them."""
        for v, keep in self.live:
            self.ctx.check(np.array(v, dtype=object).tolist() == keep, "caller-modified", lambda: f"the caller's array was changed: {keep} -> {v}")
            if isinstance(v, np.ndarray):
                try:
                    v.flags.writeable = True
                    v[...] = 0 if self.r.random() < 0.5 else 1
                except ValueError:
                    pass
        self.live = []
        gc.collect(0)


def script(ctx, p, info):
    """A history of calls, as data."""
    r = ctx.rng
    n_act, xd, yd = p["n_actions"], p["x_dim"], p["y_dim"]
    lo, hi = info["lo"], info["hi"]

    def arr(shape, target=False):
        kind = r.choice(KINDS)
        how = r.choice(LAYOUTS)
        if target:
            a = pylib.targets(ctx.np, shape[0], p)
            if kind not in ("f8", ">f8", "g", "object"):
                a = np.round(a)
        else:
            a = values(ctx, shape, kind, lo, hi)
            if how == "broadcast" and len(shape) == 2:
                a[...] = a[0]
        if len(shape) == 2 and shape[1] == 1 and how != "matrix" and r.random() < 0.4:
            a = a.reshape(-1)
        return a, kind, how

    ops = []
    for _ in range(r.randint(3, 8)):
        k = r.random()
        n = pylib.n_rows(r, 12)
        if n_act > 1 and k < 0.6:
            steps = [(arr((xd,)), r.random() < 0.7, r.uniform(-1, 5)) for _ in range(r.randint(1, 6))]
            ops.append(("rl", steps))
        elif n_act > 1 and k < 0.8:
            ops.append(("rlfit", arr((xd,)), r.randrange(n_act), r.uniform(0, 5)))
        elif k < 0.45 and n_act == 1:
            val = None
            if r.random() < 0.5:
                m = pylib.n_rows(r, 6)
                val = (arr((m, xd)), arr((m, yd), True))
            ops.append(("fit", arr((n, xd)), arr((n, yd), True), r.random() < 0.5, r.random() < 0.7, val))
        elif k < 0.75 or n_act > 1:
            ops.append(("predict", arr((n, xd)), arr((yd,)) if r.random() < 0.5 else None))
        else:
            ops.append(("score", arr((n, xd)), arr((n, yd), True), r.choice([0, 0, 3, 100]), arr((yd,)) if r.random() < 0.5 else None))
    return ops


def bad_call(ctx, x, p):
    """A call that does not fit; it must raise and change nothing."""
    r = ctx.rng
    xd, yd, na = p["x_dim"], p["y_dim"], p["n_actions"]
    n = r.randint(1, 5)
    X, Y = np.ones((n, xd)) * 0.5, np.ones((n, yd)) * 0.5
    wx, wy = np.ones((n, xd + r.choice([1, 2] + ([-1] if xd > 1 else [])))), np.ones((n, yd + r.choice([1, 3] + ([-1] if yd > 1 else []))))
    warm = r.random() < 0.5
    kw = dict(warm_start=warm, verbose=False)
    calls = [
        ("fit: too many or few inputs", lambda: x.fit(wx, Y, **kw)),
        ("fit: too many or few outputs", lambda: x.fit(X, wy, **kw)),
        ("fit: row counts differ", lambda: x.fit(X, np.ones((n + 1, yd)), **kw)),
        ("fit: 3-D inputs", lambda: x.fit(np.ones((n, xd, 1)), Y, **kw)),
        ("fit: 3-D outputs", lambda: x.fit(X, np.ones((n, yd, 1)), **kw)),
        ("fit: 0-D", lambda: x.fit(np.float64(1), np.float64(1), **kw)),
        ("fit: no rows", lambda: x.fit(np.ones((0, xd)), np.ones((0, yd)), **kw)),
        ("fit: validation inputs", lambda: x.fit(X, Y, validation_data=(wx, Y), **kw)),
        ("fit: validation outputs", lambda: x.fit(X, Y, validation_data=(X, wy), **kw)),
        ("fit: validation rows differ", lambda: x.fit(X, Y, validation_data=(X, np.ones((n + 1, yd))), **kw)),
        ("fit: validation tuple of one", lambda: x.fit(X, Y, validation_data=(X,), **kw)),
        ("fit: validation tuple of three", lambda: x.fit(X, Y, validation_data=(X, Y, Y), **kw)),
        ("fit: validation without rows", lambda: x.fit(X, Y, validation_data=(np.ones((0, xd)), np.ones((0, yd))), **kw)),
        ("fit: text", lambda: x.fit(np.array([["a"] * xd] * n), Y, **kw)),
        ("predict: inputs", lambda: x.predict(wx)),
        ("predict: 3-D", lambda: x.predict(np.ones((n, xd, 1)))),
        ("predict: 0-D", lambda: x.predict(np.float64(1))),
        ("predict: cover length", lambda: x.predict(X, cover=np.ones(yd + 1))),
        ("predict: empty cover", lambda: x.predict(X, cover=np.ones(0))),
        ("predict: 2-D cover", lambda: x.predict(X, cover=np.ones((1, yd)))),
        ("predict: 0-D cover", lambda: x.predict(X, cover=np.float64(2))),
        ("predict: text cover", lambda: x.predict(X, cover=["a"] * yd)),
        ("score: inputs", lambda: x.score(wx, Y)),
        ("score: outputs", lambda: x.score(X, wy)),
        ("score: rows differ", lambda: x.score(X, np.ones((n + 1, yd)))),
        ("score: cover", lambda: x.score(X, Y, cover=np.ones(yd + 1))),
        ("score: no rows", lambda: x.score(np.ones((0, xd)), np.ones((0, yd)))),
        ("score: 3-D", lambda: x.score(X, np.ones((n, yd, 1)))),
        ("decision: short or long state", lambda: x.decision(np.ones(wx.shape[1]), r.random() < 0.5)),
        ("decision: 2-D state", lambda: x.decision(np.ones((1, xd)), True)),
        ("decision: 0-D state", lambda: x.decision(np.float64(1), True)),
        ("rl fit: state", lambda: x.fit(np.ones(wx.shape[1]), 0, 1.0)),
        ("rl fit: 2-D state", lambda: x.fit(np.ones((xd, 2)), 0, 1.0)),
        ("rl fit: action too large", lambda: x.fit(np.ones(xd), na + r.choice([0, 1, 1000]), 1.0)),
        ("rl fit: negative action", lambda: x.fit(np.ones(xd), -r.choice([1, 2, 1000]), 1.0)),
        ("rl fit: fractional action", lambda: x.fit(np.ones(xd), 0.5, 1.0)),
    ]
    if xd > 1:
        calls.append(("predict: one row as 1-D", lambda: x.predict(np.ones(xd))))
        calls.append(("fit: 1-D inputs", lambda: x.fit(np.ones(n), Y, **kw)))
    if yd > 1:
        calls.append(("fit: 1-D outputs", lambda: x.fit(X, np.ones(n), **kw)))
    name, call = r.choice(calls)
    ctx.stage("refusal " + name)
    try:
        got = call()
    except (ValueError, TypeError, RuntimeError, IndexError) as e:
        ctx.count("refusals")
        ctx.distinct("refused", name)
        return
    ctx.viol("accepted-misfit", f"{name}: no exception (x_dim={xd} y_dim={yd} n_actions={na} n={n}); result {got!r}")


def run(ctx, p, ops, how, hostile):
    x = xcsf.XCS(**json.loads(json.dumps(p)))
    log = how.log
    held = []

    def bad():
        if hostile and ctx.rng.random() < 0.5:
            bad_call(ctx, x, p)

    for i, op in enumerate(ops):
        bad()
        ctx.stage(f"op {i} {op[0]} hostile={hostile} {p}")
        if op[0] == "fit":
            kw = {}
            if op[5] is not None:
                kw["validation_data"] = (how.arr(*op[5][0]), how.arr(*op[5][1]))
            x.fit(how.arr(*op[1]), how.arr(*op[2]), shuffle=op[3], warm_start=op[4], verbose=False, **kw)
            how.after()
            m = x.get_metrics()
            log.append(("metrics", [m[k] for k in ("train", "val", "trials", "psize", "msize", "mfrac")]))
        elif op[0] == "predict":
            out = x.predict(how.arr(*op[1]), **({} if op[2] is None else {"cover": how.arr(*op[2])}))
            how.after()
            log.append(("predict", out.copy()))
            held.append((out, out.copy()))
        elif op[0] == "score":
            v = x.score(how.arr(*op[1]), how.arr(*op[2]), N=op[3], **({} if op[4] is None else {"cover": how.arr(*op[4])}))
            how.after()
            log.append(("score", v))
        elif op[0] == "rlfit":
            v = x.fit(how.arr(*op[1]), op[2], op[3])
            how.after()
            log.append(("rlfit", v))
        else:
            x.init_trial()
            for j, (st, ex, rew) in enumerate(op[1]):
                done = j == len(op[1]) - 1
                x.init_step()
                a = x.decision(how.arr(*st), ex)
                how.after()
                x.update(rew, done)
                e = x.error(rew, done, 5.0)
                x.end_step()
                log.append(("step", [a, e]))
            x.end_trial()
        log.append(("state", [x.time(), x.pset_size(), x.pset_num(), x.mset_size(), x.mfrac(), x.error()]))
        log.append(("json", x.json()))
    for out, copy in held:
        ctx.check(same(out, copy), "result-changed", "a returned prediction array changed later")
        if hostile:
            out[...] = 7.0
    bad()
    log.append(("json", x.json()))
    log.append(("params", json.dumps(x.internal_params(), sort_keys=True)))
    return x


def run_case(ctx):
    r = ctx.rng
    p, info = pylib.params(r, n_actions=r.choice([1, 1, 2, 3]), threads=r.choice([1, 1, 2]))
    p["max_trials"] = r.randint(1, 30)
    ops = script(ctx, p, info)
    a, b = Plain(), Hostile(ctx, r)
    run(ctx, p, ops, a, False)
    run(ctx, p, ops, b, True)
    ctx.check(len(a.log) == len(b.log), "log-length", f"{len(a.log)} vs {len(b.log)}")
    for i, (u, v) in enumerate(zip(a.log, b.log)):
        ctx.count("compared_" + u[0])
        ok = u[0] == v[0] and (u[1] == v[1] if isinstance(u[1], str) else same(u[1], v[1]))
        if not ok:
            ctx.viol("differs-" + u[0], f"entry {i} of the history differs between layouts:\n{str(u)[:900]}\n{str(v)[:900]}\n{[o[0] for o in ops]} {p}")
            break
    ctx.count("histories")
    ctx.distinct([o[0] for o in ops], p["random_state"])
    ctx.sample(f"{[o[0] for o in ops]} cond={info['cond']} pred={info['pred']} n_actions={p['n_actions']}")


if __name__ == "__main__":
    pylib.main(lambda t: 20000 if t else 1500, run_case)

// A history run from its seed, with the complete state after every call.
#pragma once
#include "params.h"
#include "ops.h"

static Flat snapshot(const struct XCSF *x)
{
    Flat f = flat_params(x);
    flat_constants(f, x);
    f.d("time", x->time);
    f.d("system error", x->error);
    f.d("mset_size", x->mset_size);
    f.d("aset_size", x->aset_size);
    f.d("mfrac", x->mfrac);
    f.d("explore", x->explore);
    f.d("pset_size", x->pset.size);
    f.d("pset_num", x->pset.num);
    for (auto *c : members(x->pset)) {
        f.d("err", c->err); f.d("fit", c->fit); f.d("num", c->num); f.d("exp", c->exp);
        f.d("size", c->size); f.d("time", c->time); f.d("age", c->age); f.d("mtotal", c->mtotal);
        f.arr("prediction", c->prediction, x->y_dim);
        flat_cond(f, x, c, FL_ALL);
        flat_pred(f, x, c, FL_ALL);
        flat_act(f, x, c, FL_ALL);
    }
    f.d("stored_size", x->prev_pset.size);
    f.d("stored_num", x->prev_pset.num);
    return f;
}
struct Run {
    std::vector<Flat> states;
    std::vector<std::vector<double>> outs;
    std::string trace;
};
static Run run(Ctx &c, const Cfg &cfg, uint64_t wseed, int n_ops, unsigned char poison)
{
    Run o;
    const Rng keep = c.rng;
    c.rng = Rng(wseed);
    {
        World w(c, cfg, poison);
        o.states.push_back(snapshot(w.x()));
        o.outs.push_back({});
        for (int i = 0; i < n_ops; ++i) {
            w.run(w.pick_op());
            o.states.push_back(snapshot(w.x()));
            o.outs.push_back(w.outputs);
        }
        o.trace = w.trace;
    }
    c.rng = keep;
    return o;
}
// empty if two runs agree, else what differs
static std::string run_diff(const Run &a, const Run &b)
{
    for (size_t i = 0; i < a.states.size(); ++i) {
        const std::string df = flat_diff(a.states[i], b.states[i]);
        if (!df.empty()) return fmt("after %zu calls: %s", i, df.c_str());
        bool same = a.outs[i].size() == b.outs[i].size();
        for (size_t k = 0; same && k < a.outs[i].size(); ++k)
            same = same_bits(a.outs[i][k], b.outs[i][k]) || (std::isnan(a.outs[i][k]) && std::isnan(b.outs[i][k]));
        if (!same) return fmt("after %zu calls: returned values", i);
    }
    return "";
}

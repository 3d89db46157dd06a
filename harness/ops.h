// Random operation histories on a system: the workload shared by the
// life-cycle checks (memory, leaks, determinism, bookkeeping, purity).
#pragma once
#include "flat.h"
#include <unistd.h>

static bool g_quiet = false; // monitors off: an auxiliary system is at work

// An environment the harness controls: random states, random episode lengths
// and rewards, drawn from its own generator (not the library's).
struct ScriptEnv {
    Rng r;
    const Cfg *c;
    std::vector<double> state;
    int left = 1, max_len = 1;
    bool done = false, multi = false;
    double max_p = 1;
    long long steps = 0, trials = 0;
    std::vector<int> actions;
    ScriptEnv(uint64_t seed, const Cfg *cfg) : r(seed), c(cfg), state(cfg->x_dim)
    {
        max_len = r.range(1, 6);
        multi = max_len > 1;
        max_p = r.pick({ 1.0, 1000.0, 2.5 });
    }
};
static inline ScriptEnv *senv(const struct XCSF *x) { return (ScriptEnv *) x->env; }
static bool se_done(const struct XCSF *x) { return senv(x)->done; }
static bool se_multi(const struct XCSF *x) { return senv(x)->multi; }
static double se_execute(const struct XCSF *x, const int a)
{
    ScriptEnv *e = senv(x);
    e->actions.push_back(a);
    e->steps++;
    e->done = --e->left <= 0;
    if (e->done) return e->r.chance(0.6) ? e->max_p : 0;
    return e->r.chance(0.2) ? e->max_p * e->r.uni(-0.5, 0.5) : 0;
}
static double se_max(const struct XCSF *x) { return senv(x)->max_p; }
static const double *se_state(const struct XCSF *x)
{
    ScriptEnv *e = senv(x);
    gen_x(e->r, *e->c, e->state.data());
    return e->state.data();
}
static void se_free(const struct XCSF *) {}
static void se_reset(const struct XCSF *x)
{
    ScriptEnv *e = senv(x);
    e->left = e->r.range(1, e->max_len);
    e->done = false;
    e->trials++;
}
static const struct EnvVtbl SCRIPT_VTBL = { se_done, se_multi, se_execute, se_max, se_state, se_free, se_reset };

enum Op { OP_FIT, OP_FIT_TEST, OP_RL, OP_RLFIT, OP_PREDICT, OP_SCORE, OP_SCORE_N, OP_SAVELOAD, OP_LOADOTHER, OP_EXPORT,
          OP_REINSERT, OP_STORE, OP_RETRIEVE, OP_PRINT, OP_PARAMS, OP_EXPAND, OP_N };
static const char *OP_NAME[OP_N] = { "fit", "fit_test", "rl_exp", "rl_fit", "predict", "score", "score_n", "save_load", "load_other",
                                     "export", "reinsert", "store", "retrieve", "print", "params", "expand" };

struct World {
    Ctx &ctx;
    Rng &r;
    Cfg c;
    Sys *s;
    Data d, t;
    ScriptEnv env;
    bool json_ok;
    bool long_runs = true;
    bool surgery = false; // networks of the rules may be given further layers
    std::vector<double> outputs; // everything the caller observes
    std::string trace;
    World(Ctx &cx, const Cfg &cfg, unsigned char poison = 0)
        : ctx(cx), r(cx.rng), c(cfg), s(new Sys(cfg, poison)), env(mix64(cx.seed), &c)
    {
        Rng dr(mix64(cx.seed + 5));
        d = gen_data(dr, c, dr.chance(0.03) ? dr.range(100, 600) : dr.range(1, 25));
        t = gen_data(dr, c, dr.chance(0.03) ? dr.range(100, 600) : dr.range(1, 10));
        s->x.env = &env;
        s->x.env_vptr = &SCRIPT_VTBL;
        json_ok = c.cond != "tree_gp" && c.cond != "neural" && c.cond != "rule_neural" && c.pred != "neural" &&
            !(c.n_actions > 1 && c.act == "neural");
    }
    ~World() { delete s; }
    void reset_env(const Cfg *cp) { env.c = cp; }
    struct XCSF *x() { return &s->x; }
    bool rl() const { return c.n_actions > 1; }
    Op pick_op()
    {
        static const int W[OP_N] = { 30, 8, 0, 0, 8, 5, 5, 4, 4, 3, 3, 4, 4, 2, 3, 0 };
        static const int WR[OP_N] = { 0, 0, 24, 14, 4, 0, 0, 4, 4, 3, 3, 4, 4, 2, 3, 0 };
        if (surgery && c.pred == "neural" && r.chance(0.1)) return OP_EXPAND;
        const int *w = rl() ? WR : W;
        int tot = 0;
        for (int i = 0; i < OP_N; ++i) tot += w[i];
        int k = r.below(tot);
        for (int i = 0; i < OP_N; ++i) { if (k < w[i]) return (Op) i; k -= w[i]; }
        return OP_FIT;
    }
    // trials of one fit: now and then many, so that experience and numerosity grow large
    int length(int n) { return long_runs && c.x_dim < 10 && r.chance(0.03) ? r.range(150, 600) : r.range(1, n); }
    void out(double v) { outputs.push_back(v); }
    void run(Op op)
    {
        trace += std::string(" ") + OP_NAME[op];
        stage("%s | ops:%s | x_dim=%d y_dim=%d n_actions=%d", c.json.c_str(),
              trace.size() > 300 ? trace.substr(trace.size() - 300).c_str() : trace.c_str(), c.x_dim, c.y_dim, c.n_actions);
        count(fmt("op_%s", OP_NAME[op]).c_str());
        struct XCSF *x = this->x();
        switch (op) {
            case OP_FIT: {
                Input in = d.in();
                out(xcs_supervised_fit(x, &in, NULL, r.chance(0.5), r.below(7), length(40)));
                break;
            }
            case OP_FIT_TEST: {
                Input in = d.in(), tt = t.in();
                out(xcs_supervised_fit(x, &in, &tt, r.chance(0.5), r.below(7), length(25)));
                break;
            }
            case OP_RL: {
                param_set_max_trials(x, r.range(1, 8));
                out(xcs_rl_exp(x));
                break;
            }
            case OP_RLFIT: {
                const int n = r.range(1, 15);
                std::vector<double> st(c.x_dim);
                for (int i = 0; i < n; ++i) {
                    gen_x(r, c, st.data());
                    const int a = r.below(c.n_actions);
                    out(xcs_rl_fit(x, st.data(), a, r.uni(-1, 1)));
                }
                break;
            }
            case OP_PREDICT: {
                std::vector<double> p((size_t) t.n * x->pa_size), cov(x->pa_size);
                for (double &v : cov) v = r.uni(-1, 1);
                const bool use = r.chance(0.6);
                xcs_supervised_predict(x, t.x.data(), p.data(), t.n, use ? cov.data() : NULL);
                for (double v : p) out(v);
                break;
            }
            case OP_SCORE: {
                Input in = t.in();
                std::vector<double> cov(x->pa_size);
                for (double &v : cov) v = r.uni(0.01, 0.99);
                out(xcs_supervised_score(x, &in, r.chance(0.6) ? cov.data() : NULL));
                break;
            }
            case OP_SCORE_N: {
                Input in = t.in();
                std::vector<double> cov(x->pa_size);
                for (double &v : cov) v = r.uni(0.01, 0.99);
                out(xcs_supervised_score_n(x, &in, r.range(1, t.n + 3), r.chance(0.6) ? cov.data() : NULL));
                break;
            }
            case OP_SAVELOAD: {
                const std::string f = ctx.tmp + "/save.bin";
                out((double) xcsf_save(x, f.c_str()));
                if (r.chance(0.7)) out((double) xcsf_load(x, f.c_str()));
                break;
            }
            case OP_LOADOTHER: {
                // into a system built with other parameters and dimensions
                const std::string f = ctx.tmp + "/save2.bin";
                out((double) xcsf_save(x, f.c_str()));
                g_quiet = true;
                GenOpts o;
                o.neural = true;
                o.a_max = 3;
                Cfg oc = gen_cfg(r, o);
                Sys *o2 = new Sys(oc);
                Rng dr(r.u64());
                if (oc.n_actions == 1 && r.chance(0.6)) {
                    Data dd = gen_data(dr, oc, 5);
                    Input in = dd.in();
                    xcs_supervised_fit(&o2->x, &in, NULL, false, 0, 10);
                }
                out((double) xcsf_load(&o2->x, f.c_str()));
                o2->x.env = &env;
                o2->x.env_vptr = &SCRIPT_VTBL;
                o2->c = c;
                delete s;
                s = o2;
                g_quiet = false;
                break;
            }
            case OP_EXPORT: {
                char *j = clset_json_export(x, &x->pset, r.chance(0.8), r.chance(0.8), r.chance(0.8));
                out((double) strlen(j));
                free(j);
                break;
            }
            case OP_REINSERT: {
                if (!json_ok || x->pset.size < 1) break;
                char *j = clset_json_export(x, &x->pset, true, true, true);
                stage("reinsert %s", c.json.c_str());
                clset_json_insert(x, j);
                free(j);
                out(x->pset.num);
                break;
            }
            case OP_STORE: xcsf_store_pset(x); break;
            case OP_RETRIEVE:
                if (x->prev_pset.size > 0) xcsf_retrieve_pset(x);
                break;
            case OP_PRINT:
                xcsf_print_pset(x, r.chance(0.7), r.chance(0.7), r.chance(0.7));
                break;
            case OP_PARAMS: {
                char *j = param_json_export(x);
                out((double) strlen(j));
                free(j);
                param_print(x);
                break;
            }
            case OP_EXPAND:
                if (x->pred->type == PRED_TYPE_NEURAL) xcsf_pred_expand(x);
                break;
            default: break;
        }
    }
};

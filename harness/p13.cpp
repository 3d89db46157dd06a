// P13: constant and linear predictors, followed through whole histories: each
// prediction and each weight change is recomputed from the state before it.
#include "mon.h"
int n_cases(bool t) { return t ? 24000 : 7000; }

static std::string where;
struct Snap { Vec pred, w, m; int exp; double eta; int n; };
static std::map<struct Cl *, Snap> old;
static Vec x_in, y_in;

static void snap(const struct XCSF *x, struct Cl *k, Snap &s)
{
    s.exp = k->exp;
    s.pred.assign(k->prediction, k->prediction + x->y_dim);
    const int t = x->pred->type;
    if (t == PRED_TYPE_NLMS_LINEAR || t == PRED_TYPE_NLMS_QUADRATIC) {
        auto p = (struct PredNLMS *) k->pred;
        s.w.assign(p->weights, p->weights + p->n_weights);
        s.eta = p->eta;
        s.n = p->n;
    } else if (t == PRED_TYPE_RLS_LINEAR || t == PRED_TYPE_RLS_QUADRATIC) {
        auto p = (struct PredRLS *) k->pred;
        s.w.assign(p->weights, p->weights + p->n_weights);
        s.m.assign(p->matrix, p->matrix + (size_t) p->n * p->n);
        s.n = p->n;
    }
}
// s: state before the update; k: after
static void judge(const struct XCSF *x, struct Cl *k, const Snap &s, const double *in, const double *y)
{
    const int t = x->pred->type;
    const int exp_now = s.exp + 1;
    const double f = exp_now * x->BETA < 1 ? 1.0 / exp_now : x->BETA;
    if (t == PRED_TYPE_CONSTANT) {
        count("constant_steps");
        for (int i = 0; i < x->y_dim; ++i) {
            const double want = s.pred[i] + (y[i] - s.pred[i]) * f;
            CHECK(close(k->prediction[i], want, 1e-9, 1e-11 * (1 + fabs(y[i]))), "constant", "constant prediction went from %.12g to %.12g, expected %.12g (payoff %.12g, experience %d); %s", s.pred[i], k->prediction[i], want, y[i], exp_now, where.c_str());
        }
        return;
    }
    const bool quad = t == PRED_TYPE_NLMS_QUADRATIC || t == PRED_TYPE_RLS_QUADRATIC;
    Vec tm = o_terms(in, x->x_dim, x->pred->x0, quad);
    const int n = (int) tm.size();
    if (s.n != n || (int) s.w.size() != n * x->y_dim) { viol("terms", "predictor holds %d weights per output, expected %d; %s", s.n, n, where.c_str()); return; }
    Vec p(x->y_dim, 0);
    double mag = 1;
    for (int i = 0; i < x->y_dim; ++i)
        for (int j = 0; j < n; ++j) { p[i] += tm[j] * s.w[i * n + j]; mag = std::max(mag, fabs(tm[j] * s.w[i * n + j])); }
    if (t == PRED_TYPE_NLMS_LINEAR || t == PRED_TYPE_NLMS_QUADRATIC) {
        count(quad ? "nlms_quadratic_steps" : "nlms_steps");
        auto q = (struct PredNLMS *) k->pred;
        double nrm = x->pred->x0 * x->pred->x0;
        for (int i = 0; i < x->x_dim; ++i) nrm += in[i] * in[i];
        for (int i = 0; i < x->y_dim; ++i)
            for (int j = 0; j < n; ++j) {
                const double want = s.w[i * n + j] + s.eta * (y[i] - p[i]) / nrm * tm[j];
                if (!close(q->weights[i * n + j], want, 1e-8, 1e-9 * mag)) {
                    viol("nlms", "weight %d of output %d went from %.12g to %.12g, expected %.12g; %s", j, i, s.w[i * n + j], q->weights[i * n + j], want, where.c_str());
                    return;
                }
            }
    } else {
        count(quad ? "rls_quadratic_steps" : "rls_steps");
        auto q = (struct PredRLS *) k->pred;
        const double lam = x->pred->lambda;
        std::vector<long double> g(n, 0);
        long double div = 0, dsum = 0;
        double pm = 0;
        for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { g[i] += (long double) s.m[i * n + j] * tm[j]; pm = std::max(pm, fabs(s.m[i * n + j])); }
        for (int i = 0; i < n; ++i) { div += g[i] * tm[i]; for (int j = 0; j < n; ++j) dsum += fabsl((long double) s.m[i * n + j] * tm[j] * tm[i]); }
        div += lam;
        if (div < 1e-3 * lam || !std::isfinite(pm)) { count("rls_ill_conditioned"); return; }
        // rounding of the gain: relative to the terms summed
        const double ge = (double) (1e-13 * (pm * n * 10 + 1) / div * (1 + dsum / div));
        for (int i = 0; i < x->y_dim; ++i)
            for (int j = 0; j < n; ++j) {
                const double want = (double) (s.w[i * n + j] + (y[i] - p[i]) * g[j] / div);
                if (!close(q->weights[i * n + j], want, 1e-8, 1e-9 * mag + ge * fabs(y[i] - p[i]))) {
                    viol("rls", "weight %d of output %d went from %.12g to %.12g, expected %.12g; %s", j, i, s.w[i * n + j], q->weights[i * n + j], want, where.c_str());
                    return;
                }
            }
        for (int i = 0; i < n; ++i)
            for (int j = 0; j < n; ++j) {
                // P' = (P - g (x'P)) / lambda
                long double xp = 0, xa = 0;
                for (int l = 0; l < n; ++l) { xp += (long double) tm[l] * s.m[l * n + j]; xa += fabsl((long double) tm[l] * s.m[l * n + j]); }
                const double want = (double) ((s.m[i * n + j] - g[i] / div * xp) / lam);
                if (!close(q->matrix[i * n + j], want, 1e-7, (double) ((1e-12 * pm * (1 + fabsl(g[i] / div) * n) + ge * xa) / lam))) {
                    viol("rls-matrix", "gain matrix entry (%d,%d) went from %.12g to %.12g, expected %.12g; %s", i, j, s.m[i * n + j], q->matrix[i * n + j], want, where.c_str());
                    return;
                }
            }
    }
}

void run_case(Ctx &c)
{
    GenOpts o;
    const bool rl = c.rng.chance(0.25);
    if (rl) o.a_min = 2, o.a_max = 3;
    o.pop_max = 25;
    o.x_max = 6;
    o.conds = { "dummy", "ternary", "hyperrectangle_csr", "hyperrectangle_ubr", "hyperellipsoid" };
    o.preds = { "constant", "nlms_linear", "nlms_quadratic", "rls_linear", "rls_quadratic" };
    o.acts = { "integer" };
    Cfg cfg = gen_cfg(c.rng, o);
    rand_init_seed(cfg.seed);
    where = cfg.brief();
    World w(c, cfg);
    HK.pre_update = [](struct XCSF *x, struct Set *s, const double *in, const double *y, bool) {
        old.clear();
        for (auto *k : members(*s)) snap(x, k, old[k]);
        x_in.assign(in, in + x->x_dim);
        y_in.assign(y, y + x->y_dim);
    };
    HK.post_update = [](struct XCSF *x, struct Set *, const double *in, const double *y, bool) {
        CHECK(!memcmp(in, x_in.data(), 8 * x_in.size()) && !memcmp(y, y_in.data(), 8 * y_in.size()), "data", "an update altered its input or target; %s", where.c_str());
        for (auto &k : old) judge(x, k.first, k.second, x_in.data(), y_in.data());
        if (!old.empty()) { Hash h; for (auto &k : old) for (double v : k.second.w) h.d(v); for (double v : y_in) h.d(v); distinct(h.h); }
    };
    static std::map<struct Cl *, OPred> pp;
    HK.pre_pa = [](const struct XCSF *x, const double *in) { pp.clear(); for (auto *k : members(x->mset)) pp[k] = o_predict(x, k, in); };
    HK.post_pa = [](const struct XCSF *x, const double *) {
        for (auto &k : pp)
            for (int i = 0; i < x->y_dim; ++i) {
                count("predictions");
                CHECK(close(k.first->prediction[i], k.second.v[i], 1e-8, 1e-10 * (1 + k.second.mag)), "prediction", "rule predicts %.17g, its weights and the input give %.17g; %s", k.first->prediction[i], k.second.v[i], where.c_str());
            }
    };
    const int n = c.rng.range(1, c.thorough ? 8 : 4);
    for (int i = 0; i < n; ++i) { w.run(w.pick_op()); where = cfg.brief() + " ops:" + w.trace; }
    // single rules on wide-ranging data
    struct XCSF *x = w.x();
    Vec in(x->x_dim), y(x->y_dim), in0, y0;
    for (int r = 0; r < 3; ++r) {
        struct Cl *k = (struct Cl *) malloc(sizeof(struct Cl));
        cl_init(x, k, 1, 1);
        cl_rand(x, k);
        const double sc = c.rng.pick({ 1.0, 0.01, 20.0 });
        const int steps = c.rng.range(1, 40);
        for (int t = 0; t < steps; ++t) {
            for (double &v : in) v = c.rng.uni(-1, 1) * sc;
            if (c.rng.chance(0.1)) for (double &v : in) v = 0;
            for (double &v : y) v = c.rng.uni(-1, 1) * c.rng.pick({ 1.0, 100.0 });
            in0 = in; y0 = y;
            const OPred p = o_predict(x, k, in.data());
            cl_predict(x, k, in.data());
            for (int i = 0; i < x->y_dim; ++i) CHECK(close(k->prediction[i], p.v[i], 1e-8, 1e-10 * (1 + p.mag)), "prediction", "rule predicts %.17g, its weights and the input give %.17g; %s", k->prediction[i], p.v[i], where.c_str());
            Snap s;
            snap(x, k, s);
            k->exp++;
            pred_update(x, k, in.data(), y.data());
            CHECK(in == in0 && y == y0, "data", "an update altered its input or target; %s", where.c_str());
            judge(x, k, s, in.data(), y.data());
            if (SH->n_viol) break;
        }
        cl_free(x, k);
    }
    count("histories");
    sample("%s eta=%g lambda=%g x0=%g; ops:%s", cfg.brief().c_str(), x->pred->eta, x->pred->lambda, x->pred->x0, w.trace.c_str());
}

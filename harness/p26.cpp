// P26: inference and inspection. The complete contents of the system are read
// before and after every such operation; predictions are repeated in other
// batches, orders and positions.
#include "params.h"
#include "ops.h"
#include "mon.h"
int n_cases(bool t) { return t ? 30000 : 9000; }

static Flat stats_kept(const struct XCSF *x, bool counters)
{
    Flat f;
    f.d("pset_size", x->pset.size);
    f.d("pset_num", x->pset.num);
    int i = 0;
    for (auto *c : members(x->pset)) {
        f.d("identity", (double) (uintptr_t) c);
        f.d("err", c->err); f.d("fit", c->fit); f.d("num", c->num); f.d("exp", c->exp); f.d("size", c->size); f.d("time", c->time);
        if (counters) { f.d("age", c->age); f.d("mtotal", c->mtotal); f.d("m", c->m); f.d("action", c->action); f.arr("prediction", c->prediction, x->y_dim); }
        const int what = counters ? FL_ALL : FL_MU | FL_MOMENTUM;
        flat_cond(f, x, c, what);
        flat_pred(f, x, c, what);
        flat_act(f, x, c, what);
        ++i;
    }
    return f;
}
static Flat whole(const struct XCSF *x, bool counters)
{
    Flat f = stats_kept(x, counters);
    f.d("time", x->time);
    f.d("system error", x->error);
    if (counters) { f.d("mset_size", x->mset_size); f.d("aset_size", x->aset_size); f.d("mfrac", x->mfrac); f.d("explore", x->explore); }
    f.d("stored_size", x->prev_pset.size);
    f.d("stored_num", x->prev_pset.num);
    return f;
}
static void params_of(const struct XCSF *x, Flat &f)
{
    f = flat_params(x);
    flat_constants(f, x);
}
void run_case(Ctx &c)
{
    Rng &r = c.rng;
    GenOpts o;
    const bool rl = c.idx % 4 == 3;
    if (rl) o.a_min = 2, o.a_max = 4;
    o.stochastic_layers = true;
    o.pop_max = 40;
    o.x_max = 6;
    if (c.idx % 2) o.stateful = 0;
    Cfg cfg = gen_cfg(r, o);
    World w(c, cfg);
    for (int i = 0, n = r.range(0, 3); i < n; ++i) w.run(rl ? (r.chance(0.5) ? OP_RL : OP_RLFIT) : OP_FIT);
    if (r.chance(0.3)) w.run(OP_STORE);
    if (r.chance(0.2)) w.run(OP_SAVELOAD);
    struct XCSF *x = w.x();
    free(param_json_export(x)); // fills in the derived sizes of the layers
    const int na = x->pa_size;
    for (int k = 0, n = r.range(1, 5); k < n && !SH->n_viol; ++k) {
        const int op = r.below(9);
        const bool infer = op < 4;
        const Flat b = whole(x, !infer);
        Flat pb, pa;
        params_of(x, pb);
        const std::vector<double> dx = w.t.x, dy = w.t.y;
        std::vector<double> cov(na);
        for (double &v : cov) v = r.uni(0.05, 0.95);
        const std::vector<double> cov0 = cov;
        const char *name = "";
        Input in = w.t.in();
        stage("op %d %s", op, cfg.json.c_str());
        switch (op) {
            case 0: case 1: {
                name = "predict";
                std::vector<double> p((size_t) w.t.n * na);
                xcs_supervised_predict(x, w.t.x.data(), p.data(), w.t.n, cov.data());
                break;
            }
            case 2: name = "score"; xcs_supervised_score(x, &in, cov.data()); break;
            case 3: name = "score_n"; xcs_supervised_score_n(x, &in, r.range(1, w.t.n + 2), cov.data()); break;
            case 4: name = "export"; free(clset_json_export(x, &x->pset, r.chance(0.8), r.chance(0.8), r.chance(0.8))); break;
            case 5: name = "print"; xcsf_print_pset(x, r.chance(0.8), r.chance(0.8), r.chance(0.8)); break;
            case 6: name = "save"; xcsf_save(x, (c.tmp + "/s.bin").c_str()); break;
            case 7: name = "parameters"; free(param_json_export(x)); param_print(x); break;
            default:
                name = "metrics";
                clset_mean_cond_size(x, &x->pset);
                clset_mean_pred_size(x, &x->pset);
                clset_mean_time(&x->pset);
                clset_total_fit(&x->pset);
                clset_mfrac(x);
                if (x->cond->type == COND_TYPE_NEURAL) {
                    clset_mean_cond_layers(x, &x->pset);
                    clset_mean_cond_neurons(x, &x->pset, 0);
                    clset_mean_cond_connections(x, &x->pset, 0);
                }
                if (x->pred->type == PRED_TYPE_NEURAL) {
                    clset_mean_pred_layers(x, &x->pset);
                    clset_mean_pred_neurons(x, &x->pset, 0);
                    clset_mean_pred_connections(x, &x->pset, 0);
                    clset_mean_pred_eta(x, &x->pset, 0);
                }
        }
        std::string df = flat_diff(b, whole(x, !infer));
        CHECK(df.empty(), fmt("altered_by_%s", name).c_str(), "%s changes %s; %s", name, df.c_str(), cfg.json.c_str());
        params_of(x, pa);
        df = flat_diff(pb, pa);
        CHECK(df.empty(), fmt("parameters_by_%s", name).c_str(), "%s changes the parameter %s; %s", name, df.c_str(), cfg.json.c_str());
        CHECK(dx == w.t.x && dy == w.t.y && cov == cov0, "data_altered", "%s changes the caller's data; %s", name, cfg.json.c_str());
        count(fmt("op_%s", name).c_str());
        count("rules_compared", x->pset.size);
    }
    // rows that are only evaluated while training on others are not learnt from
    if (!rl && c.idx % 3 == 0 && !SH->n_viol) {
        const int xd = cfg.x_dim, yd = cfg.y_dim;
        Input in = w.d.in(), te = w.t.in();
        std::set<std::vector<double>> train;
        for (int i = 0; i < w.d.n; ++i) {
            std::vector<double> v(w.d.row(i), w.d.row(i) + xd);
            v.insert(v.end(), w.d.y.begin() + (size_t) i * yd, w.d.y.begin() + (size_t) (i + 1) * yd);
            train.insert(v);
        }
        static int updates, steps, trials;
        updates = steps = 0;
        trials = r.range(1, 20);
        HK.pre_update = [&](struct XCSF *, struct Set *, const double *a, const double *b, bool) {
            ++updates;
            std::vector<double> v(a, a + xd);
            v.insert(v.end(), b, b + yd);
            CHECK(train.count(v), "learns_test", "a rule set is updated with a row that is not in the training data while test data are evaluated; %s", cfg.json.c_str());
        };
        HK.pre_ea = [&](struct XCSF *, const struct Set *) { ++steps; };
        stage("fit with test data %s", cfg.json.c_str());
        xcs_supervised_fit(x, &in, &te, r.chance(0.5), r.below(5), trials);
        HK.pre_update = nullptr;
        HK.pre_ea = nullptr;
        CHECK(updates == trials && steps == trials, "test_steps", "%d updates and %d evolutionary steps in %d trials with test data; %s", updates, steps, trials, cfg.json.c_str());
        count("test_evaluations", trials);
    }
    // the prediction of an input does not depend on its batch; dropout and
    // noise are off outside training
    if (!cfg.recurrent && !SH->n_viol) {
        const int n = w.t.n, xd = cfg.x_dim;
        std::vector<double> p((size_t) n * na), cov(na);
        for (double &v : cov) v = r.uni(-1, 1);
        stage("batches %s", cfg.json.c_str());
        xcs_supervised_predict(x, w.t.x.data(), p.data(), n, cov.data());
        for (int rep = 0; rep < 3 && !SH->n_viol; ++rep) {
            const int m = r.chance(0.04) ? r.range(100, 600) : r.range(1, n + 4);
            std::vector<double> bx((size_t) m * xd), q((size_t) m * na);
            std::vector<int> row(m);
            for (int i = 0; i < m; ++i) {
                row[i] = r.chance(0.15) ? -1 : r.below(n);
                if (row[i] < 0) gen_x(r, cfg, &bx[(size_t) i * xd]); // a stranger in the batch
                else std::copy(w.t.row(row[i]), w.t.row(row[i]) + xd, &bx[(size_t) i * xd]);
            }
            xcs_supervised_predict(x, bx.data(), q.data(), m, cov.data());
            for (int i = 0; i < m; ++i)
                for (int j = 0; row[i] >= 0 && j < na; ++j) {
                    count("predictions_repeated");
                    CHECK(close(q[(size_t) i * na + j], p[(size_t) row[i] * na + j], 1e-12, 1e-300), "batch",
                          "the prediction of one input is %s in a batch of %d and %s at position %d of a batch of %d; %s", num(p[(size_t) row[i] * na + j]).c_str(), n,
                          num(q[(size_t) i * na + j]).c_str(), i, m, cfg.json.c_str());
                }
        }
        count("batch_histories");
    }
    Hash h;
    h.add(cfg.hash());
    h.str(w.trace);
    distinct(h.h);
    sample("%s; %d rules", cfg.brief().c_str(), x->pset.size);
}

// P09: prediction array, decisions and default answers against an independent
// evaluation of the matching rules.
#include "mon.h"
int n_cases(bool t) { return t ? 24000 : 2000; }

static std::string where;
struct Row { Vec v; bool sure; double mag; };
static Row exp_pa;           // expected prediction array of the current trial
static bool have_pa = false; // pa_build ran since the last match
static std::vector<Row> rows;
static std::set<int> advocated;
static bool empty_mset = false;

static Row expected(const struct XCSF *x, const double *in)
{
    Row r;
    r.sure = true;
    r.mag = 1e-3;
    r.v.assign(x->pa_size, 0);
    Vec nr(x->pa_size, 0);
    for (auto *k : members(x->mset)) {
        OPred p = o_predict(x, k, in);
        if (!p.sure) r.sure = false;
        r.mag = std::max(r.mag, p.mag);
        for (int j = 0; j < x->y_dim; ++j) {
            r.v[k->action * x->y_dim + j] += p.v[j] * k->fit;
            nr[k->action * x->y_dim + j] += k->fit;
        }
    }
    for (int i = 0; i < x->pa_size; ++i) {
        if (nr[i] != 0) r.v[i] /= nr[i];
        else r.v[i] = 0;
        if (nr[i] != 0 && fabs(nr[i]) < 1e-280) r.sure = false;
    }
    return r;
}
static bool eq(const Row &r, const double *p, int n, int &bad)
{
    for (int i = 0; i < n; ++i)
        if (!close(r.v[i], p[i], 1e-8, 1e-9 * r.mag)) { bad = i; return false; }
    return true;
}

void run_case(Ctx &c)
{
    GenOpts o;
    const bool rl = c.idx % 3 == 0;
    if (rl) o.a_min = 2, o.a_max = 5;
    o.pop_max = 40;
    o.allow_zero_fit = c.rng.chance(0.2);
    Cfg cfg = gen_cfg(c.rng, o);
    rand_init_seed(cfg.seed);
    where = cfg.brief();
    World w(c, cfg);
    HK.post_match = [](struct XCSF *x, const double *in, bool) {
        have_pa = false;
        empty_mset = members(x->mset).empty();
    };
    HK.pre_pa = [](const struct XCSF *x, const double *in) {
        exp_pa = expected(x, in);
        advocated.clear();
        for (auto *k : members(x->mset)) if (k->fit != 0) advocated.insert(k->action);
    };
    HK.post_pa = [&cfg](const struct XCSF *x, const double *in) {
        have_pa = true;
        count("prediction_arrays");
        int b = 0;
        if (exp_pa.sure) CHECK(eq(exp_pa, x->pa, x->pa_size, b), "weighted-mean", "prediction array entry %d is %.17g, the fitness-weighted mean is %.17g (%d matching rules); %s", b, x->pa[b], exp_pa.v[b], x->mset.size, where.c_str());
        if (x->mset.size > 1) count("several_rules");
        // what each rule says is its prediction for this input
        rows.push_back(exp_pa);
        Hash h;
        h.add(cfg.hash());
        for (double v : exp_pa.v) h.d(v);
        distinct(h.h);
    };
    const int n = c.rng.range(2, c.thorough ? 8 : 4);
    Data d = gen_data(c.rng, cfg, 12);
    for (int i = 0; i < n; ++i) {
        w.run(w.pick_op());
        where = cfg.brief() + " ops:" + w.trace;
        struct XCSF *x = w.x();
        // thin the population so that inputs without a match occur
        if (!rl) {
            // predictions with and without a default answer
            const int m = c.rng.chance(0.02) ? c.rng.range(100, 600) : c.rng.range(1, 12);
            const bool use = c.rng.chance(0.7);
            Vec out((size_t) m * x->pa_size, NAN), cov(x->pa_size);
            for (double &v : cov) v = c.rng.uni(0.05, 0.95);
            Data dd = gen_data(c.rng, cfg, m);
            std::vector<bool> empt;
            std::vector<Row> want;
            const Nums n0 = nums(x);
            auto old = HK.post_match;
            HK.post_match = [&](struct XCSF *y, const double *in, bool cv) {
                old(y, in, cv);
                empt.push_back(empty_mset);
                CHECK(cv == !use, "cover-mode", "covering was %srequested while predicting %s a default answer; %s", cv ? "" : "not ", use ? "with" : "without", where.c_str());
            };
            rows.clear();
            auto collect = [&](const char *what) {
                // expected row per sample
                want.clear();
                size_t k = 0;
                for (size_t r = 0; r < empt.size(); ++r) {
                    if (use && empt[r]) want.push_back({ cov, true, 1 });
                    else if (k < rows.size()) want.push_back(rows[k++]);
                    else { viol("no-array", "%s: no prediction was computed for a sample with matching rules; %s", what, where.c_str()); want.push_back({ cov, false, 1 }); }
                }
            };
            xcs_supervised_predict(x, dd.x.data(), out.data(), m, use ? cov.data() : NULL);
            CHECK((int) empt.size() == m, "samples", "%zu match sets were built for %d samples; %s", empt.size(), m, where.c_str());
            collect("predict");
            for (int r = 0; r < m && r < (int) want.size(); ++r) {
                int b = 0;
                count("predicted_rows");
                if (use && empt[r]) {
                    count("default_answers");
                    for (int j = 0; j < x->pa_size; ++j) CHECK(out[r * x->pa_size + j] == cov[j], "default", "no rule matches and the answer is %g, not the given default %g; %s", out[r * x->pa_size + j], cov[j], where.c_str());
                } else if (want[r].sure) CHECK(eq(want[r], &out[r * x->pa_size], x->pa_size, b), "output", "returned prediction %.17g, expected %.17g; %s", out[r * x->pa_size + b], want[r].v[b], where.c_str());
            }
            if (use) CHECK(nums(x) == n0, "default-changed", "predicting with a default answer changed the population; %s", where.c_str());
            // scores
            empt.clear();
            rows.clear();
            Input in = dd.in();
            const bool sub = c.rng.chance(0.4);
            const int N = c.rng.range(1, m + 2);
            std::vector<const double *> seen;
            HK.pre_match = [&](struct XCSF *, const double *p, bool) { seen.push_back(p); };
            const double sc = sub ? xcs_supervised_score_n(x, &in, N, use ? cov.data() : NULL) : xcs_supervised_score(x, &in, use ? cov.data() : NULL);
            HK.pre_match = nullptr;
            collect("score");
            double e = 0;
            bool sure = true;
            double mag = 1;
            for (size_t r = 0; r < want.size() && r < seen.size(); ++r) {
                int row = -1;
                for (int q = 0; q < m; ++q) if (!memcmp(seen[r], dd.row(q), sizeof(double) * x->x_dim)) { row = q; break; }
                if (row < 0) { viol("score-row", "scored an input that is not in the data; %s", where.c_str()); sure = false; break; }
                if (seen[r] >= dd.x.data() && seen[r] < dd.x.data() + dd.x.size()) row = (int) (seen[r] - dd.x.data()) / x->x_dim;
                if (!want[r].sure) sure = false;
                mag = std::max(mag, want[r].mag);
                e += o_loss(o_loss_name(x), want[r].v.data(), dd.tgt(row), x->y_dim, x->HUBER_DELTA, &sure);
            }
            const int want_n = !sub || N > m ? m : N;
            CHECK((int) seen.size() == want_n, "score-samples", "%zu samples were scored, expected %d; %s", seen.size(), want_n, where.c_str());
            // log losses amplify differences near zero
            const std::string ln = o_loss_name(x);
            const bool amp = ln == "log" || ln == "binary_log" || ln == "onehot";
            if (sure && want_n == (int) seen.size()) {
                count("scores");
                CHECK(close(sc, e / want_n, amp ? 1e-4 : 1e-7, 1e-8 * mag * (ln == "mse" ? mag : 1)), "score", "score %.17g, mean loss of the expected predictions %.17g (%s); %s", sc, e / want_n, ln.c_str(), where.c_str());
            }
            if (use) CHECK(nums(x) == n0, "default-changed", "scoring with a default answer changed the population; %s", where.c_str());
            HK.post_match = old;
        } else {
            // decisions
            for (int k = 0; k < 6; ++k) {
                const bool explore = c.rng.chance(0.5);
                param_set_explore(x, explore);
                Vec st(x->x_dim);
                gen_x(c.rng, cfg, st.data());
                xcs_rl_init_trial(x);
                xcs_rl_init_step(x);
                const int a = xcs_rl_decision(x, st.data());
                CHECK(a >= 0 && a < x->n_actions, "decision-range", "decision %d of %d; %s", a, x->n_actions, where.c_str());
                count("decisions");
                if (exp_pa.sure && a >= 0 && a < x->n_actions) {
                    const double best = *std::max_element(exp_pa.v.begin(), exp_pa.v.end());
                    const bool is_best = exp_pa.v[a] >= best - 1e-8 * exp_pa.mag;
                    if (!explore || x->P_EXPLORE == 0) { count("exploit_decisions"); CHECK(is_best, "exploit", "exploiting chose action %d with payoff %.12g, the best is %.12g; %s", a, exp_pa.v[a], best, where.c_str()); }
                    else if (!is_best && !advocated.empty()) CHECK(advocated.count(a), "explore", "exploring chose action %d, which no matching rule advocates; %s", a, where.c_str());
                }
                xcs_rl_end_step(x, st.data(), a < 0 ? 0 : a % x->n_actions, 0);
                clset_free(&x->aset);
                x->prev_aset.list = NULL;
                x->prev_aset.size = x->prev_aset.num = 0;
                xcs_rl_end_trial(x);
                // arrays over incomplete match sets
                clset_init(&x->mset);
                clset_init(&x->kset);
                clset_match(x, st.data(), false);
                pa_build(x, st.data());
                const double best = *std::max_element(exp_pa.v.begin(), exp_pa.v.end());
                for (int q = 0; q < 4 && exp_pa.sure; ++q) {
                    const int b = pa_best_action(x);
                    CHECK(b >= 0 && b < x->n_actions && exp_pa.v[b] >= best - 1e-8 * exp_pa.mag, "exploit", "best action %d, payoffs up to %.12g; %s", b, best, where.c_str());
                    const int rnd = pa_rand_action(x);
                    CHECK(rnd >= 0 && rnd < x->n_actions, "explore-range", "random action %d of %d; %s", rnd, x->n_actions, where.c_str());
                    if (!advocated.empty()) { count("random_actions"); CHECK(advocated.count(rnd), "explore", "random action %d is advocated by no matching rule; %s", rnd, where.c_str()); }
                    CHECK(close(pa_best_val(x), best, 1e-8, 1e-9 * exp_pa.mag), "best-value", "best value %.17g, expected %.17g; %s", pa_best_val(x), best, where.c_str());
                    CHECK(close(pa_val(x, b), exp_pa.v[b], 1e-8, 1e-9 * exp_pa.mag), "value", "payoff of action %d is %.17g, expected %.17g; %s", b, pa_val(x, b), exp_pa.v[b], where.c_str());
                }
                if ((int) advocated.size() < x->n_actions) count("incomplete_arrays");
                clset_kill(x, &x->kset);
                clset_free(&x->mset);
            }
        }
    }
    count("histories");
    sample("%s; ops:%s; then predictions/scores/decisions compared row by row", cfg.brief().c_str(), w.trace.c_str());
}

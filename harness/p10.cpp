// P10: credit assignment. Every set update is recomputed from the state before
// it; rules outside the set must come out bit for bit the same.
#include "mon.h"
int n_cases(bool t) { return t ? 16000 : 4000; }

static std::string where;
struct Old { int exp, num, time, age, mtotal; double err, fit, size; Vec pred; bool sure; double mag; Flat cond, act, net; bool learn; };
// an independent copy of a network, training state included
static bool net_clone(struct Net *dst, const struct Net *src)
{
    FILE *f = tmpfile();
    if (!f) return false;
    neural_save(src, f);
    rewind(f);
    neural_load(dst, f);
    fclose(f);
    return true;
}
static const Vec *X_IN, *Y_IN;
// what one learning step on this input and target makes of it
static Flat net_learned(const struct Net *src)
{
    struct Net n;
    Flat f;
    if (!net_clone(&n, src)) return f;
    Vec in = *X_IN, y = *Y_IN;
    neural_propagate(&n, in.data(), false);
    neural_learn(&n, y.data(), in.data());
    flat_net(f, &n, FL_MU);
    neural_free(&n);
    return f;
}
static std::map<struct Cl *, Old> old;
static std::vector<struct Cl *> mem;
static std::map<struct Cl *, uint64_t> others;
static int set_num, upd_cnt;
static std::vector<std::pair<Vec, Vec>> fed;

void run_case(Ctx &c)
{
    GenOpts o;
    const bool rl = c.idx % 3 == 0;
    if (rl) o.a_min = 2, o.a_max = 4;
    o.pop_max = 40;
    o.allow_zero_fit = c.rng.chance(0.1);
    Cfg cfg = gen_cfg(c.rng, o);
    rand_init_seed(cfg.seed);
    where = cfg.brief();
    World w(c, cfg);
    HK.pre_update = [](struct XCSF *x, struct Set *s, const double *in, const double *y, bool cur) {
        old.clear();
        others.clear();
        mem = members(*s);
        set_num = s->num;
        upd_cnt++;
        fed.push_back({ Vec(in, in + x->x_dim), Vec(y, y + x->y_dim) });
        long long sum = 0;
        for (auto *k : mem) {
            Old q = { k->exp, k->num, k->time, k->age, k->mtotal, k->err, k->fit, k->size, {}, true, 1, {}, {}, {}, false };
            sum += k->num;
            bool memory = false, random = false;
            if (x->pred->type == PRED_TYPE_NEURAL) {
                ONet n(&((struct PredNeural *) k->pred)->net);
                memory = n.memory;
                random = n.random;
                if (!memory && !random && (old.empty() || old.size() % 8 == 3)) {
                    X_IN = &fed.back().first;
                    Y_IN = &fed.back().second;
                    q.net = net_learned(&((struct PredNeural *) k->pred)->net);
                    q.learn = true;
                }
            }
            // a network with memory has been run on this input already
            if (cur && memory) { q.pred.assign(k->prediction, k->prediction + x->y_dim); for (double v : q.pred) q.mag = std::max(q.mag, fabs(v)); }
            else { OPred p = o_predict(x, k, in); q.pred = p.v; q.sure = p.sure; q.mag = std::max(1.0, p.mag); }
            flat_cond(q.cond, x, k);
            flat_act(q.act, x, k);
            old[k] = q;
        }
        // deleting single units during covering is not reflected in the set's
        // count; it can only happen at the size limit
        if (x->pset.num < x->POP_SIZE) CHECK(sum == set_num, "set-num", "the set reports %d units, its members hold %lld; %s", set_num, sum, where.c_str());
        for (auto *k : members(x->pset)) if (!old.count(k)) others[k] = flat_rule(x, k).hash();
    };
    HK.post_update = [&cfg](struct XCSF *x, struct Set *, const double *in, const double *y, bool cur) {
        count("updates");
        count(cur ? "updates_current" : "updates_previous");
        const std::string ln = o_loss_name(x);
        bool acc_sure = true;
        double acc_sum = 0;
        std::map<struct Cl *, double> acc;
        std::set<struct Cl *> seen;
        for (auto *k : mem) {
            if (!seen.insert(k).second) { viol("twice", "a rule is twice in the updated set; %s", where.c_str()); return; }
            const Old &q = old[k];
            count("members_updated");
            CHECK(k->exp == q.exp + 1, "experience", "experience went from %d to %d in one update; %s", q.exp, k->exp, where.c_str());
            bool sure = q.sure;
            const double e = o_loss(ln, q.pred.data(), y, x->y_dim, x->HUBER_DELTA, &sure);
            const bool avg = k->exp * x->BETA < 1;
            if (fabs(k->exp * x->BETA - 1) < 1e-12) sure = sure && true;
            count(avg ? "cumulative_averages" : "learning_rate_steps");
            const double f = avg ? 1.0 / k->exp : x->BETA;
            const double we = q.err + (e - q.err) * f, ws = q.size + (set_num - q.size) * f;
            // at the switch point both forms give the same value
            const double tol = 1e-8 * (1 + fabs(e) + fabs(q.err)) * (ln == "mse" ? q.mag : 1) * 10 * q.mag;
            if (sure && fabs(q.err) < 1e300 && fabs(e) < 1e300) CHECK(close(k->err, we, 1e-8, tol), "error", "error went from %.12g to %.12g, expected %.12g (loss %.12g, experience %d, beta %g); %s", q.err, k->err, we, e, k->exp, x->BETA, where.c_str());
            CHECK(close(k->size, ws, 1e-9, 1e-9), "set-size", "set size estimate went from %.12g to %.12g, expected %.12g (set of %d); %s", q.size, k->size, ws, set_num, where.c_str());
            CHECK(k->time == q.time && k->age == q.age && k->mtotal == q.mtotal, "stamps", "an update changed a rule's time stamp or match counters; %s", where.c_str());
            // the condition follows the input where it is configured to, and
            // nothing else about the rule's condition and action moves
            Flat fc = q.cond, nc, na;
            if (x->cond->type == COND_TYPE_HYPERRECTANGLE_CSR || x->cond->type == COND_TYPE_HYPERELLIPSOID)
                for (int i = 0; i < x->x_dim; ++i) fc.v[i] += x->cond->eta * (in[i] - fc.v[i]);
            flat_cond(nc, x, k);
            flat_act(na, x, k);
            std::string df = flat_diff(fc, nc, 1e-12, 1e-12);
            CHECK(df.empty(), "condition", "an update left the condition with %s (expected vs found); %s", df.c_str(), where.c_str());
            df = flat_diff(q.act, na);
            CHECK(df.empty(), "action", "an update changed the action part: %s; %s", df.c_str(), where.c_str());
            if (q.learn) {
                Flat fn;
                flat_net(fn, &((struct PredNeural *) k->pred)->net, FL_MU);
                df = flat_diff(q.net, fn, 1e-9, 1e-12);
                count("network_updates");
                CHECK(df.empty(), "learning", "an update did not make one learning step: %s (one step vs found); %s", df.c_str(), where.c_str());
            }
            if (close(k->err, x->E0, 1e-12, 1e-15) && k->err != x->E0) acc_sure = false;
            const double a = k->err > x->E0 ? std::max(x->ALPHA * pow(k->err / x->E0, -x->NU), DBL_EPSILON) : 1;
            if (a < 1) count("inaccurate"); else count("accurate");
            acc[k] = a;
            acc_sum += a * q.num;
        }
        for (auto *k : mem) {
            const Old &q = old[k];
            const double wf = q.fit + x->BETA * (acc[k] * q.num / acc_sum - q.fit);
            if (acc_sure) CHECK(close(k->fit, wf, 1e-9, 1e-13), "fitness", "fitness went from %.12g to %.12g, expected %.12g (accuracy %.6g of %.6g, numerosity %d, set of %zu); %s", q.fit, k->fit, wf, acc[k], acc_sum, q.num, mem.size(), where.c_str());
        }
        for (auto *k : members(x->pset)) {
            auto f = others.find(k);
            if (f == others.end()) { CHECK(old.count(k), "created", "an update added a rule to the population; %s", where.c_str()); continue; }
            count("bystanders");
            CHECK(flat_rule(x, k).hash() == f->second, "bystander", "a rule outside the updated set was altered; %s", where.c_str());
        }
        Hash h;
        h.add(cfg.hash());
        for (auto *k : mem) { h.d(k->err); h.d(k->fit); }
        distinct(h.h);
        (void) in;
    };
    const int n = c.rng.range(2, c.thorough ? 12 : 6);
    for (int i = 0; i < n; ++i) {
        struct XCSF *x = w.x();
        if (!rl && c.rng.chance(0.5)) {
            // each trial updates once, with the row's own target
            Data d = gen_data(c.rng, cfg, c.rng.range(1, 9));
            Input in = d.in();
            const int start = c.rng.below(20), trials = c.rng.range(1, 30);
            fed.clear();
            xcs_supervised_fit(x, &in, NULL, false, start, trials);
            w.trace += " seqfit";
            CHECK((int) fed.size() == trials, "update-count", "%zu updates in %d training trials; %s", fed.size(), trials, where.c_str());
            for (int k = 0; k < (int) fed.size() && k < trials; ++k) {
                const int row = (k + start) % d.n;
                count("trials_followed");
                CHECK(fed[k].first == Vec(d.row(row), d.row(row) + cfg.x_dim) && fed[k].second == Vec(d.tgt(row), d.tgt(row) + cfg.y_dim),
                      "update-data", "trial %d was not credited with input and target of row %d; %s", k, row, where.c_str());
            }
        } else {
            upd_cnt = 0;
            const Op op = w.pick_op();
            w.run(op);
            if (op == OP_PREDICT || op == OP_SCORE || op == OP_SCORE_N) CHECK(upd_cnt == 0, "update-uncalled", "%s updated rules; %s", OP_NAME[op], where.c_str());
        }
        where = cfg.brief() + " ops:" + w.trace;
    }
    count("histories");
    sample("%s beta=%g e0=%g nu=%g; ops:%s", cfg.brief().c_str(), w.x()->BETA, w.x()->E0, w.x()->NU, w.trace.c_str());
}

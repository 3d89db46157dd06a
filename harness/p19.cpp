// P19 (first part): storing and retrieving populations. The stored copy is
// read from memory after every later operation, and what comes back is
// compared rule by rule with what was held when it was stored. (Memory of
// networks and graphs, momentum and the RLS matrix start afresh in a copy.)
#include "flat.h"
#include "ops.h"
int n_cases(bool t) { return t ? 30000 : 3000; }

static const char *SKIP = "rls_matrix";
static std::vector<Flat> content(const struct XCSF *x, const struct Set &s)
{
    std::vector<Flat> v;
    for (auto *c : members(s)) {
        Flat f = flat_rule(x, c, FL_MU, true), g;
        for (size_t i = 0; i < f.v.size(); ++i)
            if (strcmp(f.lab[i], SKIP)) g.d(f.lab[i], f.v[i]);
        v.push_back(g);
    }
    return v;
}
// as collections: the order of rules is not part of the contract
static std::string differ(const std::vector<Flat> &a, const std::vector<Flat> &b)
{
    if (a.size() != b.size()) return fmt("%zu rules vs %zu rules", a.size(), b.size());
    std::multimap<uint64_t, size_t> m;
    for (size_t i = 0; i < b.size(); ++i) m.insert({ b[i].hash(), i });
    for (size_t i = 0; i < a.size(); ++i) {
        auto it = m.find(a[i].hash());
        if (it == m.end()) {
            std::string d = "no rule of the same shape";
            for (auto &k : m)
                if (b[k.second].v.size() == a[i].v.size()) { d = flat_diff(a[i], b[k.second]); if (k.second + i + 1 == b.size()) break; }
            return fmt("rule %zu: %s", i, d.c_str());
        }
        m.erase(it);
    }
    return "";
}
static std::vector<double> probes(World &w)
{
    struct XCSF *x = w.x();
    std::vector<double> p((size_t) w.t.n * x->pa_size), cov(x->pa_size, 0.25);
    xcs_supervised_predict(x, w.t.x.data(), p.data(), w.t.n, cov.data());
    return p;
}
void run_case(Ctx &c)
{
    Rng &r = c.rng;
    GenOpts o;
    const bool rl = c.idx % 3 == 2;
    if (rl) o.a_min = 2, o.a_max = 4;
    o.stochastic_layers = true;
    o.pop_max = 40;
    o.x_max = 6;
    Cfg cfg = gen_cfg(r, o);
    World w(c, cfg);
    static const Op SUP[] = { OP_FIT, OP_FIT, OP_FIT_TEST, OP_PREDICT, OP_SCORE, OP_SCORE_N, OP_EXPORT, OP_REINSERT, OP_PRINT, OP_PARAMS };
    static const Op REI[] = { OP_RL, OP_RL, OP_RLFIT, OP_RLFIT, OP_PREDICT, OP_EXPORT, OP_REINSERT, OP_PRINT, OP_PARAMS, OP_RL };
    auto train = [&](int n) {
        for (int i = 0; i < n; ++i) w.run(rl ? REI[r.below(10)] : SUP[r.below(10)]);
    };
    struct XCSF *x = w.x();
    train(r.range(0, 4));
    for (int round = 0, n = r.range(1, 3); round < n && !SH->n_viol; ++round) {
        const std::string where = fmt("round %d, %s", round, cfg.brief().c_str());
        std::vector<double> p0;
        if (!cfg.recurrent) p0 = probes(w);
        const std::vector<Flat> held = content(x, x->pset);
        const Flat before = flat_pop(x), sys = flat_sys(x);
        const int num = x->pset.num, size = x->pset.size;
        if (size == 0) { train(1); continue; }
        stage("store %s", cfg.json.c_str());
        if (r.chance(0.2)) { xcsf_store_pset(x); count("stored_twice"); }
        xcsf_store_pset(x);
        std::string d = flat_diff(before, flat_pop(x));
        CHECK(d.empty(), "store-changes", "storing changed the population: %s; %s", d.c_str(), where.c_str());
        d = flat_diff(sys, flat_sys(x));
        CHECK(d.empty(), "store-changes-system", "storing changed the system: %s; %s", d.c_str(), where.c_str());
        d = differ(held, content(x, x->prev_pset));
        CHECK(d.empty() && x->prev_pset.num == num && x->prev_pset.size == size, "stored-copy",
              "the stored copy differs (%d rules/%d units of %d/%d): %s; %s", x->prev_pset.size, x->prev_pset.num, size, num, d.c_str(), where.c_str());
        count("stores");
        const int steps = r.range(0, 5);
        for (int i = 0; i < steps && !SH->n_viol; ++i) {
            train(1);
            d = differ(held, content(x, x->prev_pset));
            CHECK(d.empty(), "stored-altered", "later work altered the stored copy: %s; ops:%s; %s", d.c_str(), w.trace.c_str(), where.c_str());
            count("stored_copies_checked");
        }
        const Flat sys2 = flat_sys(x);
        stage("retrieve %s", cfg.json.c_str());
        xcsf_retrieve_pset(x);
        d = differ(held, content(x, x->pset));
        CHECK(d.empty() && x->pset.num == num && x->pset.size == size, "retrieved",
              "the retrieved population differs (%d rules/%d units of %d/%d): %s; ops:%s; %s", x->pset.size, x->pset.num, size, num, d.c_str(), w.trace.c_str(), where.c_str());
        d = flat_diff(sys2, flat_sys(x));
        CHECK(d.empty(), "retrieve-changes-system", "retrieving changed the system: %s; %s", d.c_str(), where.c_str());
        count("retrievals");
        { Hash h; for (auto &f : held) h.i((long long) f.hash()); distinct(h.h); }
        if (r.chance(0.3)) { // nothing left to retrieve: the population stays
            const Flat b = flat_pop(x);
            xcsf_retrieve_pset(x);
            d = flat_diff(b, flat_pop(x));
            CHECK(d.empty(), "retrieve-nothing", "retrieving without a stored population changed the current one: %s; %s", d.c_str(), where.c_str());
            count("empty_retrievals");
        }
        if (!cfg.recurrent) {
            const std::vector<double> p1 = probes(w);
            for (size_t i = 0; i < p0.size(); ++i)
                CHECK(close(p0[i], p1[i], 1e-7, 1e-9), "predictions", "prediction %zu was %.17g when stored, %.17g after retrieving; ops:%s; %s", i, p0[i], p1[i], w.trace.c_str(), where.c_str());
            count("predictions_compared", (long long) p0.size());
        }
        train(r.range(0, 3));
    }
    count("histories");
    sample("%s:%s", cfg.brief().c_str(), w.trace.c_str());
}

// P08: who absorbs whom. Set subsumption is judged from the state before and
// after each set update, offspring subsumption from the offspring released
// during an evolutionary step, and the generality test directly on rule pairs.
#include "mon.h"
int n_cases(bool t) { return t ? 60000 : 12000; }

static std::string where;
struct Member { int num; };
static Nums before, at_limit;
static std::vector<std::vector<struct Cl *>> cands; // per released offspring: rules that may account for it
static bool in_ea = false, saw_limit = false;
static std::vector<struct Cl *> ea_set;

static bool same_but_mu(const struct XCSF *x, const struct Cl *a, const struct Cl *b)
{
    Flat f, g;
    flat_cond(f, x, a, 0); flat_act(f, x, a, 0);
    flat_cond(g, x, b, 0); flat_act(g, x, b, 0);
    if (!x->ea->pred_reset && x->pred->type == PRED_TYPE_NEURAL) { flat_pred(f, x, a, 0); flat_pred(g, x, b, 0); }
    // learning rates evolve with the rates that govern them
    return flat_diff(f, g, 0, 0, "eta").empty();
}
static bool reliable(const struct XCSF *x, const struct Cl *c) { return c->exp > x->THETA_SUB && c->err < x->E0; }

// beyond doubt: strictly larger, rounding aside, and the same action
static bool surely_general(const struct XCSF *x, const struct Cl *a, const struct Cl *b)
{
    const double sl = 1e-9;
    if (x->act->type != ACT_TYPE_INTEGER || rule_act(x)) return false;
    if (((const struct ActInteger *) a->act)->action != ((const struct ActInteger *) b->act)->action) return false;
    switch (x->cond->type) {
        case COND_TYPE_HYPERRECTANGLE_CSR: case COND_TYPE_HYPERRECTANGLE_UBR: {
            auto p = (const struct CondRectangle *) a->cond, q = (const struct CondRectangle *) b->cond;
            const bool csr = x->cond->type == COND_TYPE_HYPERRECTANGLE_CSR;
            for (int i = 0; i < x->x_dim; ++i) {
                const double l1 = csr ? p->b1[i] - p->b2[i] : std::min(p->b1[i], p->b2[i]), u1 = csr ? p->b1[i] + p->b2[i] : std::max(p->b1[i], p->b2[i]);
                const double l2 = csr ? q->b1[i] - q->b2[i] : std::min(q->b1[i], q->b2[i]), u2 = csr ? q->b1[i] + q->b2[i] : std::max(q->b1[i], q->b2[i]);
                if (l1 > l2 - sl || u1 < u2 + sl) return false;
            }
            return true;
        }
        case COND_TYPE_TERNARY: {
            auto p = (const struct CondTernary *) a->cond, q = (const struct CondTernary *) b->cond;
            bool more = false;
            for (int i = 0; i < p->length; ++i) {
                if (p->string[i] != '#' && p->string[i] != q->string[i]) return false;
                more |= p->string[i] != q->string[i];
            }
            return more;
        }
    }
    return false;
}
// every point the absorbed rule accepts is accepted by the absorber
static void sample_points(Rng &r, const struct XCSF *x, const struct Cl *s, const struct Cl *c)
{
    std::vector<double> in(x->x_dim);
    const int t = x->cond->type;
    if (t == COND_TYPE_HYPERELLIPSOID || t == COND_TYPE_DUMMY) return;
    for (int rep = 0; rep < 6; ++rep) {
        for (int i = 0; i < x->x_dim; ++i) {
            if (t == COND_TYPE_TERNARY) {
                const int nb = x->cond->bits;
                auto p = (const struct CondTernary *) c->cond;
                double v = 0;
                for (int k = 0; k < nb; ++k) {
                    const char ch = p->string[i * nb + k];
                    const bool one = ch == '1' || (ch == '#' && r.chance(0.5));
                    if (one) v += ldexp(1, -(k + 1));
                }
                in[i] = v;
            } else {
                auto p = (const struct CondRectangle *) c->cond;
                const double lo = t == COND_TYPE_HYPERRECTANGLE_CSR ? p->b1[i] - p->b2[i] : std::min(p->b1[i], p->b2[i]);
                const double hi = t == COND_TYPE_HYPERRECTANGLE_CSR ? p->b1[i] + p->b2[i] : std::max(p->b1[i], p->b2[i]);
                in[i] = lo + (hi - lo) * r.uni(1e-6, 1 - 1e-6);
            }
        }
        const Eval ec = o_eval(x, c, in.data()), es = o_eval(x, s, in.data());
        if (ec.sure && es.sure && ec.match) {
            count("points_in_absorbed_region");
            CHECK(es.match, "region", "the absorber rejects an input the absorbed rule accepts; %s", where.c_str());
        }
    }
}

// whether every offspring can be given to one of its possible absorbers so that
// each absorber receives exactly what it gained (matching by augmenting paths)
static bool place(size_t i, std::map<struct Cl *, int> &inc, std::map<struct Cl *, std::vector<size_t>> &got, std::set<struct Cl *> &tried)
{
    for (auto *s : cands[i]) {
        if (inc[s] <= 0 || !tried.insert(s).second) continue;
        auto &g = got[s];
        if ((int) g.size() < inc[s]) { g.push_back(i); return true; }
        for (size_t &j : g) if (place(j, inc, got, tried)) { j = i; return true; }
    }
    return false;
}
static bool assign(std::map<struct Cl *, int> &inc)
{
    std::map<struct Cl *, std::vector<size_t>> got;
    for (size_t i = 0; i < cands.size(); ++i) {
        std::set<struct Cl *> tried;
        if (!place(i, inc, got, tried)) return false;
    }
    return true; // the totals agree
}

void run_case(Ctx &c)
{
    GenOpts o;
    if (c.rng.chance(0.4)) o.a_min = 2, o.a_max = 3;
    o.pop_min = 8;
    o.pop_max = 60;
    o.crowd_max = 150;
    o.subsume = c.rng.chance(0.85);
    o.x_max = 3;
    if (c.rng.chance(0.8)) {
        o.conds = { "ternary", "hyperrectangle_csr", "hyperrectangle_ubr", "hyperellipsoid" };
        o.preds = { "constant", "nlms_linear", "rls_linear" };
    }
    Cfg cfg = gen_cfg(c.rng, o);
    if (c.rng.chance(0.7)) {
        // make reliable rules common
        auto rep = [&](const char *k, const std::string &v) {
            size_t p = cfg.json.find(k);
            size_t q = cfg.json.find(',', p);
            cfg.json.replace(p, q - p, std::string(k) + v);
        };
        rep("\"theta_sub\":", std::to_string(c.rng.pick({ 0, 1, 3, 8 })));
        rep("\"e0\":", num(c.rng.pick({ 0.2, 0.5, 1.0, 3.0 })));
    }
    rand_init_seed(cfg.seed);
    where = cfg.brief();
    World w(c, cfg);
    if (w.x()->POP_SIZE > 60) w.long_runs = false; // all pairs of rules are compared
    static std::vector<struct Cl *> mem;
    static Rng pr(1);
    pr = Rng(c.seed ^ 77);
    HK.pre_update = [](struct XCSF *x, struct Set *s, const double *, const double *, bool) { before = nums(x); mem = members(*s); };
    HK.post_update = [](struct XCSF *x, struct Set *s, const double *, const double *, bool) {
        count("set_updates");
        Nums now = nums(x);
        std::vector<struct Cl *> gone, grown;
        for (auto &k : before) {
            auto f = now.find(k.first);
            if (f == now.end()) gone.push_back(k.first);
            else if (f->second > k.second) grown.push_back(k.first);
            else CHECK(f->second == k.second, "shrunk", "an update lowered a numerosity from %d to %d; %s", k.second, f->second, where.c_str());
        }
        if (!x->SET_SUBSUMPTION) {
            CHECK(gone.empty() && grown.empty(), "switched-off", "rules were absorbed although set subsumption is off; %s", where.c_str());
            return;
        }
        // the absorber is a most general reliable member and absorbs all it covers
        std::vector<struct Cl *> rel;
        for (auto *k : mem) if (reliable(x, k)) rel.push_back(k);
        if (!rel.empty()) {
            count("sets_with_reliable_rules");
            bool found = false, topped = false;
            for (auto *s2 : rel) {
                if (!now.count(s2)) continue;
                bool top = true, all = true;
                for (auto *r2 : rel) if (r2 != s2 && surely_general(x, r2, s2)) top = false;
                for (auto *k : mem) if (k != s2 && surely_general(x, s2, k) && now.count(k)) all = false;
                topped |= top;
                found |= top && all;
            }
            CHECK(found, "left-over", "after set subsumption %s; %s", topped ? "rules covered by the most general reliable rule remain" : "only reliable rules that another reliable rule covered remain", where.c_str());
        }
        if (gone.empty() && grown.empty()) return;
        count("rules_absorbed", gone.size());
        long long lost = 0, won = 0;
        for (auto *k : gone) lost += before[k];
        for (auto *k : grown) won += now[k] - before[k];
        CHECK(lost == won, "amount", "absorbed rules held %lld units, absorbers gained %lld; %s", lost, won, where.c_str());
        for (auto *k : grown) {
            CHECK(has(mem, k), "outside", "a rule outside the updated set absorbed others; %s", where.c_str());
            CHECK(reliable(x, k), "unreliable", "absorber has experience %d (threshold %d) and error %g (target %g); %s", k->exp, x->THETA_SUB, k->err, x->E0, where.c_str());
        }
        for (auto *g : gone) {
            CHECK(has(mem, g), "outside", "a rule outside the updated set was absorbed; %s", where.c_str());
            CHECK(!has(members(*s), g) && !has(members(x->pset), g), "remains", "an absorbed rule remains in a set; %s", where.c_str());
            bool ok = false;
            for (auto *k : grown) if (o_general(x, k, g)) { ok = true; sample_points(pr, x, k, g); }
            CHECK(ok, "not-general", "a rule was absorbed by one that does not cover it; %s", where.c_str());
        }
    };
    HK.pre_ea = [](struct XCSF *x, const struct Set *s) { before = nums(x); cands.clear(); ea_set = members(*s); in_ea = true; saw_limit = false; };
    HK.pre_free = [](const struct XCSF *x, struct Cl *k) {
        if (!in_ea || before.count(k) || saw_limit) return;
        std::vector<struct Cl *> v;
        bool ident = false;
        for (auto *m : ea_set) {
            const bool id = same_but_mu(x, m, k);
            if (id) ident = true;
            const bool gen = x->ea->subsumption && reliable(x, m) && o_general(x, m, k);
            if (id || gen) v.push_back(m);
        }
        count("offspring_released");
        if (!ident) {
            count("offspring_absorbed");
            CHECK(x->ea->subsumption, "switched-off", "an altered offspring was absorbed although offspring subsumption is off; %s", where.c_str());
            if (x->ea->subsumption) CHECK(!v.empty(), "offspring-not-general", "an altered offspring was absorbed although no rule of the set is reliable and covers it; %s", where.c_str());
        }
        cands.push_back(v);
    };
    HK.pre_limit = [](struct XCSF *x) { if (in_ea && !saw_limit) { saw_limit = true; at_limit = nums(x); } };
    HK.post_ea = [](struct XCSF *x, const struct Set *) {
        in_ea = false;
        if (!saw_limit) return;
        std::map<struct Cl *, int> inc;
        long long tot = 0;
        for (auto &k : at_limit) {
            auto f = before.find(k.first);
            if (f == before.end()) {
                if (x->ea->subsumption) {
                    count("offspring_inserted");
                    for (auto *m : ea_set) if (reliable(x, m)) CHECK(!surely_general(x, m, k.first), "offspring-left", "an offspring was inserted although a reliable rule of the set covers it; %s", where.c_str());
                }
                continue;
            }
            if (k.second != f->second) { inc[k.first] = k.second - f->second; tot += k.second - f->second; }
        }
        if (cands.empty() && inc.empty()) return;
        count("ea_accounts");
        CHECK(tot == (long long) cands.size(), "offspring-amount", "%zu offspring were absorbed or unchanged, existing rules gained %lld units; %s", cands.size(), tot, where.c_str());
        if (tot == (long long) cands.size()) {
            auto i2 = inc;
            CHECK(assign(i2), "offspring-wrong-absorber", "a rule gained a unit for an offspring it neither equals nor reliably covers; %s", where.c_str());
        }
        (void) x;
    };
    const int n = c.rng.range(2, c.thorough ? 12 : 6);
    for (int i = 0; i < n; ++i) {
        w.run(w.pick_op());
        where = cfg.brief() + " ops:" + w.trace;
    }
    // the generality test on pairs, including equal and edge-sharing rules
    struct XCSF *x = w.x();
    std::vector<struct Cl *> ps = members(x->pset);
    for (int rep = 0; rep < 80 && ps.size() > 1; ++rep) {
        struct Cl *a = ps[c.rng.below((int) ps.size())], *b = ps[c.rng.below((int) ps.size())];
        const int t = x->cond->type;
        if (a != b && c.rng.chance(0.6)) {
            const int i = c.rng.below(x->x_dim);
            if (t == COND_TYPE_HYPERRECTANGLE_CSR || t == COND_TYPE_HYPERRECTANGLE_UBR) {
                auto p = (struct CondRectangle *) a->cond, q = (struct CondRectangle *) b->cond;
                for (int j = 0; j < x->x_dim; ++j) {
                    if (t == COND_TYPE_HYPERRECTANGLE_CSR) { q->b1[j] = p->b1[j] * 1; q->b2[j] = p->b2[j] * (j == i ? c.rng.uni(0.5, 1.2) : c.rng.uni(0.3, 1)); if (j == i && c.rng.chance(0.5)) q->b1[j] += p->b2[j] * c.rng.uni(-0.5, 0.5); }
                    else {
                        const double lo = std::min(p->b1[j], p->b2[j]), hi = std::max(p->b1[j], p->b2[j]), s = hi - lo;
                        double l = lo + s * c.rng.uni(0, 0.3), h = hi - s * c.rng.uni(0, 0.3);
                        if (j == i && c.rng.chance(0.5)) l -= s * c.rng.uni(0, 0.5);
                        if (j == i && c.rng.chance(0.5)) h += s * c.rng.uni(0, 0.5);
                        if (c.rng.chance(0.5)) std::swap(l, h);
                        q->b1[j] = l; q->b2[j] = h;
                    }
                }
            } else if (t == COND_TYPE_TERNARY) {
                auto p = (struct CondTernary *) a->cond, q = (struct CondTernary *) b->cond;
                for (int j = 0; j < p->length; ++j) q->string[j] = p->string[j] == '#' ? "01#"[c.rng.below(3)] : p->string[j];
                if (c.rng.chance(0.5)) { const int j = c.rng.below(p->length); q->string[j] = "01#"[c.rng.below(3)]; }
            } else if (t == COND_TYPE_HYPERELLIPSOID) {
                auto p = (struct CondEllipsoid *) a->cond, q = (struct CondEllipsoid *) b->cond;
                for (int j = 0; j < x->x_dim; ++j) { q->center[j] = p->center[j]; q->spread[j] = p->spread[j] * (j == i ? c.rng.uni(0.5, 1.5) : 1); }
                if (c.rng.chance(0.3)) q->center[i] += p->spread[i] * c.rng.uni(-0.5, 0.5);
            }
        }
        if (a == b) continue;
        count("pairs");
        const bool g = cl_general(x, a, b);
        if (surely_general(x, a, b)) CHECK(g, "judged-not-general", "a rule is not judged more general than one that is strictly inside it; %s", where.c_str());
        if (g) {
            count("pairs_general");
            CHECK(o_general(x, a, b), "judged-general", "a rule is judged more general than one it does not cover; %s", where.c_str());
            sample_points(c.rng, x, a, b);
        }
    }
    count("histories");
    Hash h;
    h.add(cfg.hash());
    h.str(w.trace);
    distinct(h.h);
    sample("%s; ops:%s; theta_sub=%d e0=%g set_subsumption=%d", cfg.brief().c_str(), w.trace.c_str(), x->THETA_SUB, x->E0, x->SET_SUBSUMPTION);
}

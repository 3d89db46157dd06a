// P12: observed frequencies of deletion and parent selection against the
// probabilities the configuration prescribes; ranges of the random helpers.
#include "oracle.h"
int n_cases(bool t) { return t ? 12000 : 1600; }

static std::string where;
// chi-square with cells merged to an expectation of at least 8; the limit is
// far beyond anything chance produces (p < 1e-10)
static bool chi_ok(const std::vector<long long> &obs, const Vec &p, long long n, double &x2, int &df)
{
    x2 = 0;
    df = -1;
    double eo = 0, oo = 0;
    for (size_t i = 0; i < p.size(); ++i) {
        const double e = p[i] * n;
        if (e < 1e-9 && obs[i] > 0) { x2 = INFINITY; return false; }
        if (e < 8) { eo += e; oo += obs[i]; continue; }
        x2 += (obs[i] - e) * (obs[i] - e) / e;
        df++;
    }
    if (eo >= 8) { x2 += (oo - eo) * (oo - eo) / eo; df++; }
    else if (oo > eo + 8 * sqrt(eo + 1) + 25) { x2 = INFINITY; return false; }
    if (df < 1) return true;
    return x2 < df + 7 * sqrt(2.0 * df) + 32;
}
static std::string show(const std::vector<long long> &o, const Vec &p, long long n)
{
    std::string s;
    for (size_t i = 0; i < p.size() && i < 14; ++i) s += fmt(" %lld/%.1f", o[i], p[i] * n);
    return s;
}
static double rule_size(const struct XCSF *x, const struct Cl *k)
{
    double s = 0;
    switch (x->cond->type) {
        case COND_TYPE_GP: s = ((struct CondGP *) k->cond)->gp.len; break;
        case COND_TYPE_TERNARY: s = ((struct CondTernary *) k->cond)->length; break;
        case COND_TYPE_DGP: s = ((struct CondDGP *) k->cond)->dgp.n; break;
        case COND_TYPE_DUMMY: s = 0; break;
        default: s = x->x_dim;
    }
    // linear predictions of a configuration all have the same size
    if (x->pred->type == PRED_TYPE_NEURAL)
        for (const struct Llist *it = ((struct PredNeural *) k->pred)->net.tail; it; it = it->prev) {
            const struct Layer *l = it->layer;
            if (l->type == CONNECTED || l->type == CONVOLUTIONAL)
                for (int i = 0; i < l->n_weights; ++i) s += l->weight_active[i];
        }
    return s;
}

static void deletion(Ctx &c)
{
    GenOpts o;
    o.pop_min = 4;
    o.pop_max = 14;
    o.pop_init = 1;
    o.conds = { "tree_gp", "tree_gp", "tree_gp", "ternary", "hyperrectangle_csr", "dgp" };
    o.preds = { "constant", "nlms_linear", "rls_linear", "neural", "neural" };
    o.recurrent_layers = false;
    o.compaction = c.rng.chance(0.6);
    Cfg cfg = gen_cfg(c.rng, o);
    rand_init_seed(cfg.seed);
    Sys s(cfg);
    struct XCSF *x = &s.x;
    where = cfg.brief();
    std::vector<struct Cl *> ps = members(x->pset);
    if (x->pred->type == PRED_TYPE_NEURAL) // rules of different sizes
        for (auto *k : ps) for (int i = 0, m = c.rng.below(30); i < m; ++i) cl_mutate(x, k);
    x->pset.num = 0;
    const bool small = c.rng.chance(0.3);
    for (auto *k : ps) {
        k->num = c.rng.range(2, 7);
        x->pset.num += k->num;
        k->size = small ? c.rng.uni(1, 3) : c.rng.uni(1, 60);
        k->exp = c.rng.chance(0.5) ? x->THETA_DEL + c.rng.range(1, 20) : c.rng.range(0, x->THETA_DEL);
        k->fit = c.rng.pick({ 0.5, 0.3, 0.02, 0.001, 0.05 }) * c.rng.uni(0.5, 1.5);
        k->age = c.rng.chance(0.3) ? x->M_PROBATION : c.rng.range(1, 100);
        k->mtotal = std::max(1, k->age / 2);
        if (k->age <= x->M_PROBATION && c.rng.chance(0.4)) k->mtotal = 0; // still on probation
        if (c.rng.chance(0.3)) { k->age = x->M_PROBATION + 5; k->mtotal = 1; }
    }
    std::set<struct Cl *> never;
    if (c.idx % 4 == 0) {
        const int m = c.rng.range(1, 2);
        for (int i = 0; i < m; ++i) {
            struct Cl *k = ps[c.rng.below((int) ps.size())];
            k->mtotal = 0;
            k->age = x->M_PROBATION + c.rng.range(1, 3);
            never.insert(k);
        }
    }
    x->error = c.rng.chance(0.6) ? x->E0 * c.rng.uni(0, 0.99) : x->E0 * c.rng.uni(1.01, 2);
    const bool two = x->COMPACTION && x->error < x->E0;
    double tf = 0;
    for (auto *k : ps) tf += k->fit;
    const double avg = tf / x->pset.num;
    Vec vote, p(ps.size(), 0);
    double tv = 0;
    for (auto *k : ps) {
        double v = k->size * k->num;
        if (k->exp > x->THETA_DEL && k->fit / k->num < x->DELTA * avg) { v *= avg / (k->fit / k->num); count("raised_votes"); }
        vote.push_back(v);
        tv += v;
    }
    for (size_t i = 0; i < ps.size(); ++i) {
        if (!two) { p[i] += vote[i] / tv; continue; }
        for (size_t j = 0; j < ps.size(); ++j) {
            const double q = vote[i] / tv * vote[j] / tv;
            if (rule_size(x, ps[j]) > rule_size(x, ps[i])) p[j] += q;
            else p[i] += q;
        }
    }
    const int N = c.thorough ? 60000 : 20000;
    std::vector<long long> obs(ps.size(), 0);
    const int full = x->pset.num, lim = x->POP_SIZE;
    x->POP_SIZE = full - 1;
    std::vector<int> nm;
    for (auto *k : ps) nm.push_back(k->num);
    stage("deleting %s", cfg.json.c_str());
    const int n_draws = never.empty() ? N : 200;
    for (int t = 0; t < n_draws; ++t) {
        clset_init(&x->kset);
        clset_pset_enforce_limit(x);
        int hit = -1, lost = 0;
        for (size_t i = 0; i < ps.size(); ++i)
            if (ps[i]->num != nm[i]) { lost += nm[i] - ps[i]->num; hit = (int) i; ps[i]->num = nm[i]; }
        if (lost != 1 || hit < 0 || x->pset.num != full - 1) { viol("delete-one", "one unit too many led to %d units lost; %s", lost, where.c_str()); return; }
        x->pset.num = full;
        obs[hit]++;
        if (!never.empty()) { count("probation_deletions"); if (!never.count(ps[hit])) { viol("never-matched", "a rule was deleted although another one never matched within its probation; %s", where.c_str()); break; } }
        count("deletions");
    }
    if (never.empty()) {
        double x2;
        int df;
        count(two ? "compacting_distributions" : "vote_distributions");
        CHECK(chi_ok(obs, p, N, x2, df), "deletion-distribution", "deletions observed/expected:%s (chi2=%.1f df=%d, compaction %d); %s", show(obs, p, N).c_str(), x2, df, two, where.c_str());
    }
    x->POP_SIZE = lim;
    for (auto *k : ps) k->num = 1;
    x->pset.num = x->pset.size;
    Hash h;
    for (double v : p) h.d(v);
    distinct(h.h);
    sample("deletion: %s; expected shares%s", where.c_str(), show(obs, p, n_draws).c_str());
}

static void selection(Ctx &c)
{
    GenOpts o;
    o.pop_min = 3;
    o.pop_max = 12;
    o.pop_init = 1;
    o.conds = { "dummy" };
    o.preds = { "constant" };
    Cfg cfg = gen_cfg(c.rng, o);
    rand_init_seed(cfg.seed);
    Sys s(cfg);
    struct XCSF *x = &s.x;
    where = cfg.brief();
    x->ea->theta = 0;
    x->ea->lambda = 2;
    x->POP_SIZE = 1000000;
    std::vector<struct Cl *> ps = members(x->pset), in;
    clset_init(&x->mset);
    for (auto *k : ps) {
        k->fit = c.rng.pick({ 1.0, 0.1, 0.01 }) * c.rng.uni(0.1, 1);
        k->num = c.rng.range(1, 9);
        k->err = c.rng.uni();
        k->exp = c.rng.range(0, 99);
    }
    for (auto *k : ps) if (in.size() < 2 || c.rng.chance(0.8)) { clset_add(&x->mset, k); in.push_back(k); }
    in = members(x->mset);
    Vec p;
    const bool roul = x->ea->select_type == EA_SELECT_ROULETTE;
    if (roul) {
        double tf = 0;
        for (auto *k : in) tf += k->fit;
        for (auto *k : in) p.push_back(k->fit / tf);
    } else {
        const double tau = x->ea->select_size;
        const double any = 1 - pow(1 - tau, (double) in.size());
        for (auto *k : in) {
            int better = 0;
            for (auto *q : in) if (q->fit > k->fit) better++;
            p.push_back(tau * pow(1 - tau, better) / any);
        }
    }
    const int N = c.thorough ? 60000 : 20000;
    std::vector<long long> o1(in.size(), 0);
    long long same = 0;
    std::vector<int> nm;
    for (auto *k : in) nm.push_back(k->num);
    const int full = x->pset.num;
    stage("selecting %s", cfg.json.c_str());
    for (int t = 0; t < N; ++t) {
        clset_init(&x->kset);
        ea(x, &x->mset);
        int tot = 0;
        for (size_t i = 0; i < in.size(); ++i) {
            const int d = in[i]->num - nm[i];
            tot += d;
            o1[i] += d;
            if (d == 2) same++;
            in[i]->num = nm[i];
        }
        x->pset.num = full;
        x->time = 10;
        if (tot != 2) { viol("select-two", "an evolutionary step on unchangeable rules credited %d parents; %s", tot, where.c_str()); break; }
        count("parents", 2);
    }
    if (!SH->n_viol) {
        double x2;
        int df;
        count(roul ? "roulette_distributions" : "tournament_distributions");
        CHECK(chi_ok(o1, p, 2LL * N, x2, df), roul ? "roulette-distribution" : "tournament-distribution", "parents observed/expected:%s (chi2=%.1f df=%d); %s", show(o1, p, 2LL * N).c_str(), x2, df, where.c_str());
        double ps2 = 0;
        for (double v : p) ps2 += v * v;
        const double sd = sqrt(N * ps2 * (1 - ps2)) + 1;
        CHECK(fabs(same - N * ps2) < 7.5 * sd, "parent-independence", "both parents were the same rule %lld times, expected %.1f; %s", same, N * ps2, where.c_str());
    }
    clset_free(&x->mset);
    Hash h;
    for (double v : p) h.d(v);
    distinct(h.h);
    sample("selection (%s): %s; observed/expected%s", roul ? "roulette" : "tournament", where.c_str(), show(o1, p, 2LL * N).c_str());
}

static void helpers(Ctx &c)
{
    reseed((uint32_t) c.rng.u64());
    const int N = c.thorough ? 200000 : 50000;
    double lo = c.rng.uni(-10, 10), hi = lo + c.rng.pick({ 1e-9, 0.1, 1.0, 50.0, 1e6 });
    stage("uniform");
    std::vector<long long> b(20, 0);
    for (int i = 0; i < N; ++i) {
        const double v = rand_uniform(lo, hi);
        if (!(v >= lo && v <= hi)) { viol("uniform-range", "uniform(%g,%g) gave %.17g", lo, hi, v); break; }
        int k = (int) ((v - lo) / (hi - lo) * 20);
        b[std::max(0, std::min(19, k))]++;
    }
    double x2;
    int df;
    if (hi - lo > 1e-6) CHECK(chi_ok(b, Vec(20, 0.05), N, x2, df), "uniform-distribution", "uniform(%g,%g) is not uniform: chi2=%.1f df=%d", lo, hi, x2, df);
    const int a = c.rng.range(-20, 20), m = c.rng.range(1, 12);
    std::vector<long long> g(m, 0);
    for (int i = 0; i < N; ++i) {
        const int v = rand_uniform_int(a, a + m);
        if (v < a || v >= a + m) { viol("int-range", "integer(%d,%d) gave %d", a, a + m, v); break; }
        g[v - a]++;
    }
    CHECK(chi_ok(g, Vec(m, 1.0 / m), N, x2, df), "int-distribution", "integer(%d,%d) is not uniform: chi2=%.1f df=%d", a, a + m, x2, df);
    const double mu = c.rng.uni(-3, 3), sg = c.rng.uni(0.1, 3);
    static const double Q[] = { -1.6449, -1.2816, -0.8416, -0.5244, -0.2533, 0, 0.2533, 0.5244, 0.8416, 1.2816, 1.6449 };
    std::vector<long long> q(12, 0);
    Vec pq = { 0.05, 0.05, 0.1, 0.1, 0.1, 0.1, 0.1, 0.1, 0.1, 0.1, 0.05, 0.05 };
    double cor = 0, prev = 0;
    for (int i = 0; i < N; ++i) {
        const double z = (rand_normal(mu, sg) - mu) / sg;
        int k = 0;
        while (k < 11 && z > Q[k]) ++k;
        q[k]++;
        if (i) cor += z * prev;
        prev = z;
        if (std::isnan(z) || fabs(z) > 9) { viol("normal-range", "normal(%g,%g) gave z=%g", mu, sg, z); break; }
    }
    CHECK(chi_ok(q, pq, N, x2, df), "normal-distribution", "normal(%g,%g): chi2=%.1f df=%d", mu, sg, x2, df);
    CHECK(fabs(cor) < 7 * sqrt((double) N), "normal-correlation", "successive normals correlate: %g over %d", cor, N);
    count("helper_draws", 3LL * N);
    Hash h;
    h.d(lo); h.d(hi); h.i(a); h.i(m); h.d(mu); h.d(sg);
    distinct(h.h);
    sample("helpers: uniform(%g,%g) integer(%d,%d) normal(%g,%g), %d draws each", lo, hi, a, a + m, mu, sg, N);
}

void run_case(Ctx &c)
{
    const int k = c.idx % 8;
    if (k == 7) helpers(c);
    else if (k % 2) selection(c);
    else deletion(c);
    count("cases");
}

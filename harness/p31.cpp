// P31: frequencies of everything left to chance by configuration or by the
// rules' own rates, against the probability that each single draw should have.
#include "oracle.h"
int n_cases(bool t) { return t ? 6000 : 1200; }

static std::string where;
// observed minus expected number of events, with its variance; events of
// different probabilities may be added (each probability is known before its draw)
struct Tally { double diff = 0, var = 0, hits = 0, want = 0; long n = 0; };
static std::map<std::string, Tally> T;
static void draw(const std::string &k, double p, bool hit)
{
    Tally &t = T[k];
    t.diff += hit - p; t.var += p * (1 - p); t.hits += hit; t.want += p; ++t.n;
}
static void judge()
{
    for (auto &e : T) {
        const Tally &t = e.second;
        count("tallies"); count("draws", t.n);
        CHECK(fabs(t.diff) <= 7 * sqrt(t.var) + 6, "frequency", "%s: %.0f of %ld draws, expected %.1f (standard deviation %.1f); %s", e.first.c_str(), t.hits, t.n, t.want, sqrt(t.var), where.c_str());
    }
}
static const double ONE = 0.31731050786291410, TWO = 0.045500263896358417, TAIL = 0.15865525393145707, EPS = 0.0005;
// a normal step of standard deviation m, cut off at lo and hi
static void step(const std::string &k, double b, double a, double m, double lo, double hi)
{
    if (!(m > 0) || fabs(b) > 1e9 * m) return;
    if (b < hi && b > lo) draw(k + " rises", 0.5, a > b);
    if (b - m > lo && b + m < hi) draw(k + " moves by more than its rate", ONE, fabs(a - b) > m);
    if (b - 2 * m > lo && b + 2 * m < hi) draw(k + " moves by more than twice its rate", TWO, fabs(a - b) > 2 * m);
}
static void rate_lognormal(const std::string &k, double b, double a)
{
    if (b > EPS * 1.0001 && b < 0.9999) draw(k + " rises", 0.5, a > b);
    if (b * M_E < 0.9999) draw(k + " grows more than e-fold", TAIL, a > b * M_E);
    if (b / M_E > EPS * 1.0001) draw(k + " shrinks more than e-fold", TAIL, a < b / M_E);
}
static const double RATES[] = { 0.0005, 0.001, 0.002, 0.003, 0.005, 0.01, 0.015, 0.02, 0.05, 0.1 };
static void rate_select(const std::string &k, double b, double a)
{
    draw(k + " is selected anew", 0.09, a != b);
    if (a != b) for (double q : RATES) if (q != b) draw(fmt("a rate selected anew becomes %g", q), 1.0 / 9, a == q);
}
static struct Cl *fresh(struct XCSF *x)
{
    struct Cl *k = (struct Cl *) malloc(sizeof(struct Cl));
    cl_init(x, k, 1, 0);
    cl_rand(x, k);
    return k;
}
static struct Cl *covering(Ctx &c, struct XCSF *x, const Cfg &cfg, Vec &in)
{
    struct Cl *k = (struct Cl *) malloc(sizeof(struct Cl));
    gen_x(c.rng, cfg, in.data());
    cl_init(x, k, 1, 0);
    cl_cover(x, k, in.data(), 0);
    count("covers");
    return k;
}
// the real-valued genes of a condition, with their labels and limits
struct Gene { double *v; const char *lab; double lo, hi; };
static std::vector<Gene> genes(const struct XCSF *x, const struct Cl *c)
{
    std::vector<Gene> g;
    const double lo = x->cond->min, hi = x->cond->max;
    if (x->cond->type == COND_TYPE_HYPERELLIPSOID) {
        auto p = (const struct CondEllipsoid *) c->cond;
        for (int i = 0; i < x->x_dim; ++i) { g.push_back({ p->center + i, "centre", lo, hi }); g.push_back({ p->spread + i, "spread", 0, INFINITY }); }
    } else {
        auto p = (const struct CondRectangle *) c->cond;
        const bool csr = x->cond->type == COND_TYPE_HYPERRECTANGLE_CSR;
        for (int i = 0; i < x->x_dim; ++i) {
            g.push_back({ p->b1 + i, csr ? "centre" : "first bound", lo, hi });
            if (csr) g.push_back({ p->b2 + i, "spread", 0, INFINITY }); else g.push_back({ p->b2 + i, "second bound", lo, hi });
        }
    }
    return g;
}
static double *real_mu(const struct XCSF *x, const struct Cl *c)
{
    return x->cond->type == COND_TYPE_HYPERELLIPSOID ? ((const struct CondEllipsoid *) c->cond)->mu : ((const struct CondRectangle *) c->cond)->mu;
}
static void real_conditions(Ctx &c, struct XCSF *x, const Cfg &cfg, int n)
{
    const double lo = x->cond->min, hi = x->cond->max, smin = x->cond->spread_min, smax = fabs(hi - lo);
    const bool ubr = x->cond->type == COND_TYPE_HYPERRECTANGLE_UBR;
    Vec in(x->x_dim);
    for (int t = 0; t < n; ++t) {
        struct Cl *a = fresh(x), *b = fresh(x);
        auto ga = genes(x, a), gb = genes(x, b);
        draw("a new rate lies in the upper half", 0.5, *real_mu(x, a) > (1 + EPS) / 2);
        for (auto &g : ga) {
            const double mid = g.hi == INFINITY ? (smin + smax) / 2 : (lo + hi) / 2;
            if (g.hi != INFINITY || smin != smax) draw(fmt("a new %s lies in the upper half", g.lab), 0.5, *g.v > mid);
        }
        if (t % 2) { // recombination
            Vec va, vb;
            for (auto &g : ga) va.push_back(*g.v);
            for (auto &g : gb) vb.push_back(*g.v);
            const bool ch = cl_crossover(x, a, b);
            for (size_t i = 0; i < ga.size(); ++i)
                if (va[i] != vb[i]) draw(fmt("crossover exchanges %s %zu", ga[i].lab, i / 2), x->ea->p_crossover / 2, *ga[i].v == vb[i] && *gb[i].v == va[i]);
            draw("crossover is reported", x->ea->p_crossover * (1 - pow(0.5, (double) ga.size())), ch);
            count("crossovers");
        } else {
            for (int q = 0; q < 3; ++q) {
                Vec v;
                for (auto &g : ga) v.push_back(*g.v);
                const double m0 = *real_mu(x, a);
                cl_mutate(x, a);
                const double m = *real_mu(x, a);
                rate_lognormal("the rate of a condition", m0, m);
                for (size_t i = 0; i < ga.size(); ++i) step(fmt("mutation: %s", ga[i].lab), v[i], *ga[i].v, m, ga[i].lo, ga[i].hi);
                count("mutations");
            }
            cl_free(x, a);
            a = covering(c, x, cfg, in);
            ga = genes(x, a);
            if (smin != smax)
                for (int i = 0; i < x->x_dim; ++i) {
                    const double mid = (smin + smax) / 2;
                    if (ubr) {
                        draw("a covering interval reaches far down", 0.5, in[i] - *ga[2 * i].v > mid / 2);
                        draw("a covering interval reaches far up", 0.5, *ga[2 * i + 1].v - in[i] > mid / 2);
                    } else draw("a covering spread lies in the upper half", 0.5, *ga[2 * i + 1].v > mid);
                }
        }
        cl_free(x, a); cl_free(x, b);
    }
}
static void ternary(Ctx &c, struct XCSF *x, const Cfg &cfg, int n)
{
    Vec in(x->x_dim);
    const double p = x->cond->p_dontcare;
    for (int t = 0; t < n; ++t) {
        struct Cl *a = fresh(x), *b = fresh(x);
        auto pa = (struct CondTernary *) a->cond, pb = (struct CondTernary *) b->cond;
        auto str = [](struct CondTernary *q) { return std::string(q->string, q->length); };
        for (int i = 0; i < pa->length; ++i) {
            draw("a new symbol is don't care", p, pa->string[i] == '#');
            if (pa->string[i] != '#') draw("a new bit is one", 0.5, pa->string[i] == '1');
        }
        if (t % 2) {
            const std::string sa = str(pa), sb = str(pb);
            cl_crossover(x, a, b);
            for (int i = 0; i < pa->length; ++i)
                if (sa[i] != sb[i]) draw(fmt("crossover exchanges symbol %d", i), x->ea->p_crossover / 2, pa->string[i] == sb[i] && pb->string[i] == sa[i]);
            count("crossovers");
        } else {
            for (int q = 0; q < 3; ++q) {
                const std::string s = str(pa);
                const double m0 = pa->mu[0];
                cl_mutate(x, a);
                rate_lognormal("the rate of a condition", m0, pa->mu[0]);
                for (int i = 0; i < pa->length; ++i) {
                    draw("mutation changes a symbol", pa->mu[0], pa->string[i] != s[i]);
                    if (pa->string[i] != s[i] && s[i] == '#') draw("a don't care becomes one", 0.5, pa->string[i] == '1');
                }
                count("mutations");
            }
            cl_free(x, a);
            a = covering(c, x, cfg, in);
            pa = (struct CondTernary *) a->cond;
            for (int i = 0; i < pa->length; ++i) draw("a covering symbol is don't care", p, pa->string[i] == '#');
        }
        cl_free(x, a); cl_free(x, b);
    }
}
static void trees(struct XCSF *x, int n)
{
    const struct ArgsGPTree *g = x->cond->targs;
    const int nt = g->n_constants + g->n_inputs;
    for (int t = 0; t < n; ++t) {
        struct Cl *a = fresh(x), *b = fresh(x);
        struct GPTree *pa = &((struct CondGP *) a->cond)->gp;
        for (int i = 0; i < pa->len; ++i) {
            if (pa->tree[i] < 4) draw(fmt("a new tree uses function %d", pa->tree[i]), 0.25, true), draw(fmt("a new tree uses function %d", (pa->tree[i] + 1) % 4), 0.25, false), draw(fmt("a new tree uses function %d", (pa->tree[i] + 2) % 4), 0.25, false), draw(fmt("a new tree uses function %d", (pa->tree[i] + 3) % 4), 0.25, false);
            else draw("a new leaf is an input", (double) g->n_inputs / nt, pa->tree[i] >= 4 + g->n_constants);
        }
        if (t % 2) {
            const bool ch = cl_crossover(x, a, b);
            draw("crossover is reported", x->ea->p_crossover, ch);
            count("crossovers");
        } else
            for (int q = 0; q < 3; ++q) {
                const std::vector<int> s(pa->tree, pa->tree + pa->len);
                const double m0 = pa->mu[0];
                cl_mutate(x, a);
                rate_select("the rate of a tree", m0, pa->mu[0]);
                for (int i = 0; i < pa->len && i < (int) s.size(); ++i)
                    draw(s[i] < 4 ? "mutation changes a function" : "mutation changes a leaf", pa->mu[0] * (s[i] < 4 ? 0.75 : (nt - 1.0) / nt), pa->tree[i] != s[i]);
                count("mutations");
            }
        cl_free(x, a); cl_free(x, b);
    }
}
static void tree_rates(struct XCSF *x, int n)
{
    struct Cl *a = fresh(x);
    struct GPTree *p = &((struct CondGP *) a->cond)->gp;
    for (int t = 0; t < n; ++t) {
        const double m = p->mu[0];
        cl_mutate(x, a);
        rate_select("the rate of a tree", m, p->mu[0]);
        count("mutations");
    }
    cl_free(x, a);
}
static void graphs(struct XCSF *x, int n)
{
    for (int t = 0; t < n; ++t) {
        struct Cl *a = fresh(x);
        struct Graph *g = x->cond->type == COND_TYPE_DGP ? &((struct CondDGP *) a->cond)->dgp : &((struct RuleDGP *) a->cond)->dgp;
        for (int i = 0; i < g->n; ++i) {
            for (int f = 0; f < 3; ++f) draw(fmt("a new node has function %d", f), 1.0 / 3, g->function[i] == f);
            draw("a new initial state lies in the upper half", 0.5, g->initial_state[i] > 0.5);
        }
        for (int i = 0; i < g->klen; ++i) draw("a new connection leads to a node", 0.5, g->connectivity[i] >= g->n_inputs);
        for (int q = 0; q < 3; ++q) {
            const std::vector<int> f(g->function, g->function + g->n), k(g->connectivity, g->connectivity + g->klen);
            const Vec m(g->mu, g->mu + 3);
            cl_mutate(x, a);
            rate_lognormal("the function rate of a graph", m[0], g->mu[0]);
            rate_lognormal("the connection rate of a graph", m[1], g->mu[1]);
            draw("the cycle rate of a graph is drawn anew", 0.1, g->mu[2] != m[2]);
            for (int i = 0; i < g->n; ++i) draw("mutation changes a function", g->mu[0] * 2 / 3, g->function[i] != f[i]);
            for (int i = 0; i < g->klen; ++i) {
                draw("mutation changes a connection", g->mu[1] * (1 - 0.5 / (k[i] < g->n_inputs ? g->n_inputs : g->n)), g->connectivity[i] != k[i]);
            }
            count("mutations");
        }
        cl_free(x, a);
    }
}
static void actions(struct XCSF *x, int n)
{
    for (int t = 0; t < n; ++t) {
        struct Cl *a = fresh(x);
        auto p = (struct ActInteger *) a->act;
        const int na = x->n_actions;
        for (int i = 0; i < na; ++i) draw(fmt("a new rule advocates action %d", i), 1.0 / na, p->action == i);
        for (int q = 0; q < 4; ++q) {
            const int o = p->action;
            const double m0 = p->mu[0];
            cl_mutate(x, a);
            rate_lognormal("the rate of an action", m0, p->mu[0]);
            draw("mutation changes an action", p->mu[0] * (na - 1) / na, p->action != o);
            if (p->action != o) for (int i = 0; i < na; ++i) if (i != o) draw(fmt("a changed action becomes %d", i), 1.0 / (na - 1), p->action == i);
            count("mutations");
        }
        cl_free(x, a);
    }
}
static void nlms(struct XCSF *x, int n)
{
    for (int t = 0; t < n; ++t) {
        struct Cl *a = fresh(x);
        auto p = (struct PredNLMS *) a->pred;
        draw("a new learning rate lies in the upper half", x->pred->evolve_eta ? 0.5 : 1, p->eta > (x->pred->eta + x->pred->eta_min) / 2);
        for (int q = 0; q < 6; ++q) {
            const double e = p->eta, m0 = p->mu[0];
            cl_mutate(x, a);
            if (x->pred->evolve_eta) {
                rate_lognormal("the rate of a prediction", m0, p->mu[0]);
                step("mutation: learning rate", e, p->eta, p->mu[0], x->pred->eta_min, x->pred->eta);
            } else draw("the learning rate changes", 0, p->eta != e);
            count("mutations");
        }
        cl_free(x, a);
    }
}
enum { V_WEIGHTS, V_CONNECT, V_NEURONS, V_FUNCTIONS, V_ETA, V_N };
static void networks(struct XCSF *x, int what, int n)
{
    for (int t = 0; t < n; ++t) {
        struct Cl *a = fresh(x);
        struct Layer *l = ((struct PredNeural *) a->pred)->net.tail->layer;
        std::vector<struct Layer *> sub;
        if (l->type == RECURRENT) sub = { l->input_layer, l->self_layer, l->output_layer };
        else if (l->type == LSTM) sub = { l->uf, l->ui, l->ug, l->uo, l->wf, l->wi, l->wg, l->wo };
        else sub = { l };
        for (int q = 0; q < 6; ++q) {
            struct S { Vec w, b; std::vector<bool> on; };
            std::vector<S> s;
            for (auto *k : sub) s.push_back({ Vec(k->weights, k->weights + k->n_weights), Vec(k->biases, k->biases + k->n_biases), std::vector<bool>(k->weight_active, k->weight_active + k->n_weights) });
            const int f = l->function, no = l->n_outputs, ni = l->n_inputs;
            const double e = l->eta;
            const Vec m(l->mu, l->mu + 6);
            cl_mutate(x, a);
            for (int i = 0; i < 6; ++i) rate_select(fmt("rate %d of a layer", i), m[i], l->mu[i]);
            if (what == V_WEIGHTS)
                for (size_t z = 0; z < sub.size(); ++z) {
                    for (int i = 0; i < sub[z]->n_weights; ++i) if (s[z].on[i]) step("mutation: weight", s[z].w[i], sub[z]->weights[i], l->mu[4], -10, 10);
                    for (int i = 0; i < sub[z]->n_biases; ++i) step("mutation: bias", s[z].b[i], sub[z]->biases[i], l->mu[4], -10, 10);
                }
            else if (what == V_CONNECT && l->type == CONNECTED && ni > 1 && no > 1) {
                // (neurons and inputs left without any connection are given one)
                std::vector<int> act(ni), row(no);
                for (int i = 0; i < l->n_weights; ++i) act[i % ni] += s[0].on[i], row[i / ni] += s[0].on[i];
                for (int i = 0; i < l->n_weights; ++i)
                    if (act[i % ni] >= 5 && row[i / ni] >= 5) {
                        if (s[0].on[i]) draw("mutation disables a connection", l->mu[3], !l->weight_active[i]);
                        else draw("mutation enables a connection", l->mu[2], l->weight_active[i]);
                    }
            } else if (what == V_NEURONS && no > 1 && no < l->max_outputs) {
                draw("mutation changes the number of neurons", fmin(1, 10 * l->mu[1]), l->n_outputs != no);
                if (l->n_outputs != no) draw("neurons are added", 0.5, l->n_outputs > no);
            } else if (what == V_FUNCTIONS) draw("mutation changes an activation", l->mu[5] * 10 / 11, l->function != f);
            else if (what == V_ETA) step("mutation: learning rate", e, l->eta, l->mu[0], l->eta_min, l->eta_max);
            count("mutations");
        }
        cl_free(x, a);
    }
}
static void exploring(Ctx &c, struct XCSF *x, const Cfg &cfg, int n)
{
    Rng &r = c.rng;
    Vec s(x->x_dim);
    for (int i = 0; i < 60; ++i) { gen_x(r, cfg, s.data()); xcs_rl_fit(x, s.data(), r.below(x->n_actions), r.uni(0, 10)); }
    xcs_rl_init_trial(x);
    for (int i = 0; i < n; ++i) {
        if (i % 20 == 0) gen_x(r, cfg, s.data());
        const bool ex = r.chance(0.8);
        xcs_rl_init_step(x);
        x->explore = ex;
        const int a = xcs_rl_decision(x, s.data());
        int best = 0, ties = 0;
        bool all = true;
        for (int k = 0; k < x->n_actions; ++k) { if (x->pa[k] > x->pa[best]) best = k; all = all && x->nr[k] != 0; }
        for (int k = 0; k < x->n_actions; ++k) ties += fabs(x->pa[k] - x->pa[best]) <= 1e-12 * fabs(x->pa[best]);
        xcs_rl_end_step(x, s.data(), a, 0);
        if (ties != 1 || !all) continue;
        const double p = ex ? x->P_EXPLORE : 0;
        draw(ex ? "an exploring step takes the best action" : "an exploiting step takes the best action", 1 - p + p / x->n_actions, a == best);
        if (a != best) for (int k = 0; k < x->n_actions; ++k) if (k != best) draw("one of the other actions", 1.0 / (x->n_actions - 1), a == k);
        count("decisions");
    }
    xcs_rl_end_trial(x);
}
void run_case(Ctx &c)
{
    Rng &r = c.rng;
    T.clear();
    const int kind = c.idx % 8;
    const double boost = c.thorough ? 10 : 3;
    GenOpts o;
    o.neural = false; o.wide = false;
    o.conds = { "dummy" }; o.preds = { "constant" }; o.acts = { "integer" };
    o.pop_init = 0;
    switch (kind) {
        case 0: o.conds = { "hyperrectangle_csr", "hyperrectangle_ubr" }; break;
        case 1: o.conds = { "hyperellipsoid", "hyperrectangle_ubr" }; break;
        case 2: o.conds = { "ternary" }; break;
        case 3: o.conds = { "tree_gp" }; break;
        case 4: o.conds = { "dgp", "rule_dgp" }; o.a_max = 3; break;
        case 5: o.a_min = 2; o.a_max = 6; break;
        case 6: o.preds = { "nlms_linear", "nlms_quadratic" }; break;
        case 7: break;
    }
    Cfg cfg = gen_cfg(r, o);
    int what = -1;
    if (kind == 7) {
        what = r.below(V_N);
        static const char *L[] = { "connected", "connected", "recurrent", "lstm" };
        const char *lt = what == V_CONNECT || what == V_NEURONS ? "connected" : L[r.below(4)];
        cfg.x_dim = what == V_CONNECT ? r.range(7, 10) : r.range(2, 5); cfg.y_dim = 1;
        static const char *E[] = { "evolve_weights", "evolve_connect", "evolve_neurons", "evolve_functions", "evolve_eta" };
        std::string l0 = fmt("{\"type\":\"%s\",\"activation\":\"%s\",\"n_init\":%d,\"n_max\":20,\"max_neuron_grow\":1,\"sgd_weights\":%s,\"eta\":%s,\"eta_min\":%s,\"momentum\":0,\"%s\":true", lt, strcmp(lt, "lstm") ? "relu" : "tanh", r.range(what == V_CONNECT ? 6 : 2, 8), jb(what == V_ETA || r.chance(0.3)).c_str(), num(r.uni(0.05, 1)).c_str(), num(r.uni(0.0001, 0.04)).c_str(), E[what]);
        if (!strcmp(lt, "lstm")) l0 += ",\"recurrent_activation\":\"logistic\"";
        l0 += "}";
        cfg.json = fmt("{\"random_state\":%u,\"pop_init\":false,\"omp_num_threads\":1,\"condition\":{\"type\":\"dummy\"},\"prediction\":{\"type\":\"neural\",\"args\":{\"layer_0\":%s,\"layer_1\":{\"type\":\"connected\",\"activation\":\"linear\",\"n_init\":1}}}}", cfg.seed, l0.c_str());
        cfg.pred = fmt("neural %s %s", lt, E[what]);
    }
    where = cfg.brief() + " " + cfg.json;
    Sys s(cfg);
    struct XCSF *x = &s.x;
    x->explore = true;
    if (kind != 7) x->ea->p_crossover = r.chance(0.3) ? r.uni(0, 1) : x->ea->p_crossover;
    where += fmt(" p_crossover=%g", x->ea->p_crossover);
    stage("%s", where.c_str());
    switch (kind) {
        case 0: case 1: real_conditions(c, x, cfg, (int) (1500 * boost)); break;
        case 2: ternary(c, x, cfg, (int) (1500 * boost)); break;
        case 3: trees(x, (int) (1000 * boost)); tree_rates(x, (int) (20000 * boost)); break;
        case 4: graphs(x, (int) (800 * boost)); break;
        case 5:
            actions(x, (int) (1000 * boost));
            x->P_EXPLORE = r.chance(0.5) ? r.uni(0, 1) : x->P_EXPLORE;
            where += fmt(" p_explore=%g", x->P_EXPLORE);
            exploring(c, x, cfg, (int) (1500 * boost));
            break;
        case 6: nlms(x, (int) (1000 * boost)); break;
        case 7: networks(x, what, (int) (700 * boost)); break;
    }
    judge();
    static const char *KN[] = { "rectangles", "ellipsoids", "ternary", "trees", "graphs", "actions", "learning_rates", "networks" };
    count(fmt("cases_%s", KN[kind]).c_str());
    Hash h;
    h.add(cfg.hash()); h.d(x->ea->p_crossover); h.d(x->P_EXPLORE);
    distinct(h.h);
    if (T.size()) sample("%s: %zu kinds of draws, e.g. %s: %.0f of %ld, expected %.1f", cfg.brief().c_str(), T.size(), T.begin()->first.c_str(), T.begin()->second.hits, T.begin()->second.n, T.begin()->second.want);
}

// P15: chains of random creation, covering, copying, crossover, mutation and
// learning on single rules; every result audited, every bystander compared.
#include <functional>
#include "mon.h"
#include "wellformed.h"
int n_cases(bool t) { return t ? 200000 : 16000; }

static std::string where;
static struct XCSF *X;
static Flat genes(const struct Cl *c, int what = FL_ALL)
{
    Flat f;
    flat_cond(f, X, c, what);
    flat_pred(f, X, c, what);
    flat_act(f, X, c, what);
    return f;
}
// what mutation never touches
static Flat rest(const struct Cl *c)
{
    Flat f;
    flat_stats(f, X, c);
    f.arr("prediction", c->prediction, X->y_dim);
    f.d("action", c->action);
    f.d("m", c->m);
    if (X->pred->type != PRED_TYPE_NEURAL) {
        Flat g;
        flat_pred(g, X, c, 0);
        for (size_t i = 0; i < g.v.size(); ++i) if (strcmp(g.lab[i], "eta")) f.d(g.lab[i], g.v[i]);
    }
    return f;
}
static Flat piece(const struct Cl *c, int part)
{
    Flat f;
    if (part == 0) flat_cond(f, X, c, 0);
    else if (part == 1) flat_pred(f, X, c, 0);
    else flat_act(f, X, c, 0);
    return f;
}
struct LSnap { int type, opt, n, fn, rfn, nf; double eta; Vec w, b; std::vector<char> act; int grow; };
static std::vector<LSnap> net_snap(const struct Net *n)
{
    std::vector<LSnap> v;
    for (const struct Llist *it = n->tail; it; it = it->prev) {
        const struct Layer *l = it->layer;
        LSnap s;
        s.type = l->type; s.opt = l->options; s.n = l->n_outputs; s.fn = l->function; s.rfn = l->recurrent_function; s.eta = l->eta; s.nf = l->n_filters; s.grow = bounds_of(l)->max_neuron_grow;
        if (l->type == CONNECTED || l->type == CONVOLUTIONAL) {
            s.w.assign(l->weights, l->weights + l->n_weights);
            s.b.assign(l->biases, l->biases + l->n_biases);
            s.act.assign(l->weight_active, l->weight_active + l->n_weights);
        }
        std::vector<const struct Layer *> sub;
        if (l->type == RECURRENT) sub = { l->input_layer, l->self_layer, l->output_layer };
        if (l->type == LSTM) sub = { l->uf, l->ui, l->ug, l->uo, l->wf, l->wi, l->wg, l->wo };
        for (auto *k : sub) {
            s.w.insert(s.w.end(), k->weights, k->weights + k->n_weights);
            s.b.insert(s.b.end(), k->biases, k->biases + k->n_biases);
            s.act.insert(s.act.end(), k->weight_active, k->weight_active + k->n_weights);
        }
        v.push_back(s);
    }
    return v;
}
static void net_judge(const std::vector<LSnap> &a, const struct Net *n)
{
    std::vector<LSnap> b = net_snap(n);
    if (a.size() != b.size()) { viol("layers", "mutation changed the number of layers from %zu to %zu; %s", a.size(), b.size(), where.c_str()); return; }
    for (size_t i = 0; i < a.size(); ++i) {
        const LSnap &p = a[i], &q = b[i];
        const char *t = layer_type_as_string(p.type);
        CHECK(p.type == q.type && p.opt == q.opt, "layers", "mutation turned a %s layer into another; %s", t, where.c_str());
        const bool weighted = p.type == CONNECTED || p.type == CONVOLUTIONAL || p.type == RECURRENT || p.type == LSTM;
        if (!weighted) continue;
        count("layer_mutations");
        const bool grown_before = i > 0 && a[i - 1].n != b[i - 1].n;
        const int dn = p.type == CONVOLUTIONAL ? q.nf - p.nf : q.n - p.n;
        if (!(p.opt & LAYER_EVOLVE_NEURONS)) CHECK(dn == 0, "fixed-neurons", "a %s layer of fixed size went from %d to %d; %s", t, p.n, q.n, where.c_str());
        else CHECK(abs(dn) <= p.grow, "grow", "a %s layer changed by %d neurons at once, the limit is %d; %s", t, dn, p.grow, where.c_str());
        if (dn) count("neurons_changed");
        if (!(p.opt & LAYER_EVOLVE_FUNCTIONS)) CHECK(p.fn == q.fn && p.rfn == q.rfn, "fixed-function", "a %s layer with fixed functions went from %d/%d to %d/%d; %s", t, p.fn, p.rfn, q.fn, q.rfn, where.c_str());
        if (!(p.opt & LAYER_EVOLVE_ETA)) CHECK(same_bits(p.eta, q.eta), "fixed-eta", "a %s layer with fixed learning rate went from %g to %g; %s", t, p.eta, q.eta, where.c_str());
        if (dn == 0 && !grown_before) {
            if (!(p.opt & LAYER_EVOLVE_CONNECT)) CHECK(p.act == q.act, "fixed-connect", "a %s layer with fixed connections was rewired; %s", t, where.c_str());
            if (!(p.opt & (LAYER_EVOLVE_CONNECT | LAYER_EVOLVE_WEIGHTS))) CHECK(p.w == q.w, "fixed-weights", "a %s layer with fixed weights was altered; %s", t, where.c_str());
            if (!(p.opt & LAYER_EVOLVE_WEIGHTS)) CHECK(p.b == q.b, "fixed-weights", "a %s layer with fixed weights had its biases altered; %s", t, where.c_str());
        }
        // surviving neurons keep their biases, whatever else resized
        if ((p.type == CONNECTED) && !(p.opt & LAYER_EVOLVE_WEIGHTS)) {
            const size_t m = std::min(p.b.size(), q.b.size());
            CHECK(std::equal(p.b.begin(), p.b.begin() + m, q.b.begin()), "survivor", "resizing a connected layer altered surviving biases; %s", where.c_str());
            if (!(p.opt & LAYER_EVOLVE_CONNECT)) {
                const size_t ni = p.w.size() / p.n, nj = q.w.size() / q.n;
                bool ok = true;
                for (size_t o = 0; o < m && ok; ++o)
                    for (size_t k = 0; k < std::min(ni, nj); ++k) ok &= p.w[o * ni + k] == q.w[o * nj + k];
                CHECK(ok, "survivor", "resizing a connected layer altered surviving weights; %s", where.c_str());
            }
        }
    }
}
static std::vector<const struct Net *> nets(const struct Cl *c)
{
    std::vector<const struct Net *> v;
    if (X->cond->type == COND_TYPE_NEURAL) v.push_back(&((struct CondNeural *) c->cond)->net);
    if (X->cond->type == RULE_TYPE_NEURAL) v.push_back(&((struct RuleNeural *) c->cond)->net);
    if (X->pred->type == PRED_TYPE_NEURAL) v.push_back(&((struct PredNeural *) c->pred)->net);
    if (!rule_act(X) && X->act->type == ACT_TYPE_NEURAL) v.push_back(&((struct ActNeural *) c->act)->net);
    return v;
}
static void distort(Ctx &c, struct Cl *k, const Cfg &cfg)
{
    Rng &r = c.rng;
    std::vector<double> in(X->x_dim), y(X->y_dim);
    gen_x(r, cfg, in.data());
    for (double &v : y) v = r.uni(0, 1);
    switch (r.below(3)) {
        case 0: cl_mutate(X, k); break;
        case 1: cl_match(X, k, in.data()); break;
        default:
            cl_predict(X, k, in.data());
            k->exp++;
            cond_update(X, k, in.data(), y.data());
            pred_update(X, k, in.data(), y.data());
            act_update(X, k, in.data(), y.data());
    }
}

void run_case(Ctx &c)
{
    Rng &r = c.rng;
    GenOpts o;
    if (r.chance(0.5)) o.a_min = 2, o.a_max = 6;
    o.pop_init = 0;
    o.stochastic_layers = r.chance(0.2);
    o.x_max = r.chance(0.3) ? 9 : 5;
    o.pred_reset = r.chance(0.15);
    Cfg cfg = gen_cfg(r, o);
    rand_init_seed(cfg.seed);
    where = cfg.brief();
    if (where.find("neural") != std::string::npos) { const size_t p = cfg.json.find("\"condition\""); where += " " + cfg.json.substr(p, 1200); }
    if (c.idx % 6 == 0) { // whole populations during ordinary operation
        World w(c, cfg);
        for (int i = 0, m = r.range(2, 6); i < m && !SH->n_viol; ++i) {
            w.run(w.pick_op());
            X = w.x();
            for (auto *k : members(X->pset)) { count("population_audits"); if (!wf_rule(X, k, M_OTHER, where.c_str())) break; }
        }
        Hash h;
        h.add(cfg.hash());
        h.str(w.trace);
        distinct(h.h);
        return;
    }
    Sys s(cfg);
    X = &s.x;
    X->explore = r.chance(0.5);
    std::vector<struct Cl *> pool;
    std::vector<double> in(X->x_dim);
    auto fresh = [&](bool cover) {
        struct Cl *k = (struct Cl *) malloc(sizeof(struct Cl));
        cl_init(X, k, r.range(1, 5), r.range(0, 9));
        if (cover) {
            gen_x(r, cfg, in.data());
            cl_cover(X, k, in.data(), r.below(X->n_actions));
            count("covered");
        } else { cl_rand(X, k); count("created"); }
        wf_rule(X, k, cover ? M_COVER : M_RAND, where.c_str());
        pool.push_back(k);
    };
    fresh(false);
    fresh(r.chance(0.5));
    const int n = r.range(5, c.thorough ? 60 : 30);
    Hash h;
    for (int i = 0; i < n && !SH->n_viol; ++i) {
        const int op = r.below(10);
        struct Cl *a = pool[r.below((int) pool.size())];
        std::map<struct Cl *, Flat> by;
        for (auto *k : pool) if (k != a) by[k] = flat_rule(X, k);
        struct Cl *also = NULL;
        if (op < 4) {
            const Flat g0 = genes(a, FL_STATE | FL_MOMENTUM), r0 = rest(a);
            std::vector<std::vector<LSnap>> ns;
            for (auto *q : nets(a)) ns.push_back(net_snap(q));
            const bool mod = cl_mutate(X, a);
            count("mutations");
            if (!mod) {
                count("mutations_unchanged");
                const std::string d = flat_diff(g0, genes(a, FL_STATE | FL_MOMENTUM));
                CHECK(d.empty(), "unreported", "mutation reported no change but altered %s; %s", d.c_str(), where.c_str());
            }
            const std::string d = flat_diff(r0, rest(a));
            CHECK(d.empty(), "statistics", "mutation altered %s; %s", d.c_str(), where.c_str());
            auto nn = nets(a);
            if (X->n_actions == 1 && nn.size() > 1 && nn.back() != nn[0] && !rule_act(X) && X->act->type == ACT_TYPE_NEURAL) nn.pop_back();
            for (size_t q = 0; q < nn.size() && q < ns.size(); ++q) net_judge(ns[q], nn[q]);
            wf_rule(X, a, M_MUTATE, where.c_str());
        } else if (op < 6 && pool.size() > 1) {
            struct Cl *b = pool[r.below((int) pool.size())];
            if (a == b) continue;
            also = b;
            const Flat a0 = genes(a), b0 = genes(b), ra = rest(a), rb = rest(b);
            int la = 0, lb = 0;
            std::vector<int> nodes;
            if (X->cond->type == COND_TYPE_GP) {
                la = ((struct CondGP *) a->cond)->gp.len; lb = ((struct CondGP *) b->cond)->gp.len;
                if (la + lb > 4000) continue;
                for (auto *k : { a, b }) { auto p = (struct CondGP *) k->cond; nodes.insert(nodes.end(), p->gp.tree, p->gp.tree + p->gp.len); }
            }
            Flat pt[3][2];
            for (int q = 0; q < 3; ++q) { pt[q][0] = piece(a, q); pt[q][1] = piece(b, q); }
            const bool ch = cl_crossover(X, a, b);
            count(ch ? "crossovers" : "crossovers_unchanged");
            const Flat a1 = genes(a), b1 = genes(b);
            std::string d = flat_diff(ra, rest(a));
            if (d.empty()) d = flat_diff(rb, rest(b));
            CHECK(d.empty(), "statistics", "crossover altered %s; %s", d.c_str(), where.c_str());
            if (!ch) {
                d = flat_diff(a0, a1);
                if (d.empty()) d = flat_diff(b0, b1);
                CHECK(d.empty(), "unreported", "crossover reported no change but altered %s; %s", d.c_str(), where.c_str());
            } else if (X->cond->type == COND_TYPE_GP) {
                std::vector<int> after;
                for (auto *k : { a, b }) { auto p = (struct CondGP *) k->cond; after.insert(after.end(), p->gp.tree, p->gp.tree + p->gp.len); }
                std::sort(nodes.begin(), nodes.end());
                std::sort(after.begin(), after.end());
                CHECK(nodes == after, "material", "crossover of trees of %d and %d nodes did not just exchange nodes (%zu afterwards); %s", la, lb, after.size(), where.c_str());
            } else {
                // position by position the two rules hold what they held before
                for (int part = 0; part < 3; ++part) {
                    const Flat &pa = pt[part][0], &pb = pt[part][1];
                    const Flat qa = piece(a, part), qb = piece(b, part);
                    if (flat_diff(pa, qa).empty() && flat_diff(pb, qb).empty()) continue;
                    if (flat_diff(pa, qb).empty() && flat_diff(pb, qa).empty()) continue;
                    if (pa.v.size() != pb.v.size() || qa.v.size() != pa.v.size() || qb.v.size() != pa.v.size()) { viol("material", "crossover changed the shape of a rule; %s", where.c_str()); continue; }
                    for (size_t k = 0; k < pa.v.size(); ++k)
                        CHECK((qa.v[k] == pa.v[k] && qb.v[k] == pb.v[k]) || (qa.v[k] == pb.v[k] && qb.v[k] == pa.v[k]) || std::isnan(pa.v[k]), "material", "crossover turned %s (%.12g, %.12g) into (%.12g, %.12g); %s", pa.lab[k], pa.v[k], pb.v[k], qa.v[k], qb.v[k], where.c_str());
                }
            }
            wf_rule(X, a, M_OTHER, where.c_str());
            wf_rule(X, b, M_OTHER, where.c_str());
        } else if (op < 8) {
            // a copy equals its original and is independent of it
            struct Cl *b = (struct Cl *) malloc(sizeof(struct Cl));
            cl_init(X, b, a->size, a->time);
            cl_copy(X, b, a);
            count("copies");
            Flat fa, fb;
            flat_cond(fa, X, a, FL_MU); flat_cond(fb, X, b, FL_MU);
            flat_act(fa, X, a, FL_MU); flat_act(fb, X, b, FL_MU);
            const int pt = X->pred->type;
            if (!X->ea->pred_reset && pt != PRED_TYPE_CONSTANT) { flat_pred(fa, X, a, FL_MU); flat_pred(fb, X, b, FL_MU); }
            std::string d = flat_diff(fa, fb, 0, 0, "rls_matrix");
            CHECK(d.empty(), "copy", "a copy differs from its original in %s; %s", d.c_str(), where.c_str());
            wf_rule(X, b, M_OTHER, where.c_str());
            const bool first = r.chance(0.5);
            struct Cl *t = first ? a : b, *w = first ? b : a;
            const Flat w0 = flat_rule(X, w);
            for (int q = 0, m = r.range(1, 5); q < m; ++q) distort(c, t, cfg);
            d = flat_diff(w0, flat_rule(X, w));
            CHECK(d.empty(), "shared", "changing a %s changed %s of its %s; %s", first ? "rule" : "copy", d.c_str(), first ? "copy" : "original", where.c_str());
            if (pool.size() < 6 && r.chance(0.5)) pool.push_back(b);
            else {
                const Flat a1 = flat_rule(X, a);
                cl_free(X, b);
                d = flat_diff(a1, flat_rule(X, a));
                CHECK(d.empty(), "shared", "freeing a copy changed %s of its original; %s", d.c_str(), where.c_str());
            }
        } else if (op == 8 && pool.size() < 6) fresh(r.chance(0.6));
        else distort(c, a, cfg);
        for (auto &k : by) {
            if (k.first == also) continue;
            const std::string d = flat_diff(k.second, flat_rule(X, k.first));
            CHECK(d.empty(), "bystander", "an operator on one rule changed %s of another; %s", d.c_str(), where.c_str());
        }
        h.i(op);
        h.add(genes(a).hash());
        distinct(h.h);
    }
    count("histories");
    count(("cond_" + cfg.cond).c_str());
    sample("%s; chain of %d operators on %zu rules", cfg.brief().c_str(), n, pool.size());
    // ---- every legal value can be reached
    if (c.idx % 10 == 0 && !SH->n_viol) {
        struct Cl *k = pool[0];
        // kinds of symbols with their legal number; a verdict needs many observed
        // changes of that kind (mutation rates adapt and may be small)
        struct Kind { std::string what; int legal; double need; std::set<long> seen; double changes = 0; std::vector<long> now; };
        std::vector<Kind> kinds;
        auto see = [](Kind &q, std::vector<long> v) {
            for (size_t i = 0; i < v.size(); ++i) { q.seen.insert(v[i]); if (i >= q.now.size() || q.now[i] != v[i]) ++q.changes; }
            q.now = v;
        };
        std::function<void()> look;
        auto kind = [&](const char *w, int legal, double need = 0) { kinds.push_back({ w, legal, need ? need : legal * (40 + log(legal)) }); };
        if (X->cond->type == COND_TYPE_TERNARY) {
            kind("ternary symbols", 3);
            look = [&]() { auto p = (struct CondTernary *) k->cond; see(kinds[0], std::vector<long>(p->string, p->string + p->length)); };
        } else if (X->cond->type == COND_TYPE_DGP || X->cond->type == RULE_TYPE_DGP) {
            const struct Graph *g = X->cond->type == COND_TYPE_DGP ? &((struct CondDGP *) k->cond)->dgp : &((struct RuleDGP *) k->cond)->dgp;
            const int mt = g->evolve_cycles ? X->cond->dargs->max_t : 1;
            kind("graph connections", g->n + g->n_inputs, 2 * std::max(g->n, g->n_inputs) * (40 + log(g->n + g->n_inputs)));
            kind("graph functions", 3);
            kind("graph cycles", mt, 60.0 * mt * mt);
            look = [&kinds, &see, g]() {
                see(kinds[0], std::vector<long>(g->connectivity, g->connectivity + g->klen));
                see(kinds[1], std::vector<long>(g->function, g->function + g->n));
                see(kinds[2], { g->t });
            };
        } else if (X->cond->type == COND_TYPE_GP && ((struct CondGP *) k->cond)->gp.len >= 3) {
            kind("tree functions", 4);
            kind("tree terminals", X->cond->targs->n_constants + X->x_dim);
            look = [&]() {
                auto p = (struct CondGP *) k->cond;
                std::vector<long> f, t;
                for (int i = 0; i < p->gp.len; ++i) (p->gp.tree[i] < 4 ? f : t).push_back(p->gp.tree[i]);
                see(kinds[0], f);
                see(kinds[1], t);
            };
        } else if (!rule_act(X) && X->act->type == ACT_TYPE_INTEGER && X->n_actions > 1) {
            kind("actions", X->n_actions);
            look = [&]() { see(kinds[0], { ((struct ActInteger *) k->act)->action }); };
        }
        bool more = look != nullptr;
        for (int t = 0; t < 30000 && more; ++t) {
            cl_mutate(X, k);
            look();
            more = false;
            for (auto &q : kinds) more |= (int) q.seen.size() < q.legal && q.changes < q.need;
        }
        for (auto &q : kinds) {
            const bool all = (int) q.seen.size() == q.legal;
            if (!all && q.changes < q.need) { count("reach_undecided"); continue; }
            count("reach_checks");
            CHECK(all, "reach", "mutation reached only %zu of %d %s in %.0f changes; %s", q.seen.size(), q.legal, q.what.c_str(), q.changes, where.c_str());
        }
    }
    for (auto *k : pool) cl_free(X, k);
}

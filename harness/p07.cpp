// P07: condition semantics and match counters.
// (a) every rule of every match call in random histories, (b) single rules
// evaluated at and around the edges of the region they describe, with the
// region read from the exported JSON.
#include "mon.h"
int n_cases(bool t) { return t ? 40000 : 8000; }

static std::string where;
struct Pre { Eval e; int age, mtotal; };
static std::map<struct Cl *, Pre> pre;

static std::vector<double> jarr(const cJSON *o, const char *k)
{
    std::vector<double> v;
    const cJSON *a = cJSON_GetObjectItem(o, k), *e;
    cJSON_ArrayForEach(e, a) v.push_back(e->valuedouble);
    return v;
}
// meaning of an exported condition: 1 accepts, 0 rejects, -1 undecided
static int json_accepts(const struct XCSF *x, const cJSON *j, const double *in)
{
    const char *type = cJSON_GetObjectItem(j, "type") ? cJSON_GetObjectItem(j, "type")->valuestring : "";
    const std::string t = type;
    if (t == "dummy") return 1;
    if (t == "hyperrectangle_csr" || t == "hyperrectangle_ubr") {
        const bool csr = t == "hyperrectangle_csr";
        Vec a = jarr(j, csr ? "center" : "bound1"), b = jarr(j, csr ? "spread" : "bound2");
        if ((int) a.size() != x->x_dim || (int) b.size() != x->x_dim) return -2;
        int r = 1;
        for (int i = 0; i < x->x_dim; ++i) {
            const double lo = csr ? a[i] - b[i] : std::min(a[i], b[i]), hi = csr ? a[i] + b[i] : std::max(a[i], b[i]);
            const bool ex = dyadic(a[i]) && dyadic(b[i]) && dyadic(in[i]); // decimal rounding of the export
            const double m = std::min(fabs(in[i] - lo), fabs(in[i] - hi));
            if (m < 1e-12 * (1 + fabs(in[i])) && !ex) { if (r) r = -1; continue; }
            if (in[i] < lo || in[i] > hi) return 0;
        }
        return r;
    }
    if (t == "hyperellipsoid") {
        Vec a = jarr(j, "center"), b = jarr(j, "spread");
        if ((int) a.size() != x->x_dim || (int) b.size() != x->x_dim) return -2;
        double d = 0, slack = 1e-9; // what the decimal rounding of the export can do
        for (int i = 0; i < x->x_dim; ++i) {
            const double k = (in[i] - a[i]) / b[i], dk = 1e-14 * (fabs(a[i]) + fabs(in[i])) / fabs(b[i]);
            d += k * k;
            slack += 2 * fabs(k) * dk + dk * dk;
        }
        if (fabs(d - 1) < slack) return -1;
        return d < 1;
    }
    if (t == "ternary") {
        const cJSON *st = cJSON_GetObjectItem(j, "string");
        std::string s;
        if (cJSON_IsString(st)) s = st->valuestring;
        else { const cJSON *e; cJSON_ArrayForEach(e, st) s += cJSON_IsString(e) ? e->valuestring : "?"; }
        const int nb = x->cond->bits;
        if ((int) s.size() != nb * x->x_dim) return -2;
        for (int i = 0; i < x->x_dim; ++i) {
            const std::string b = o_bits(in[i], nb);
            for (int k = 0; k < nb; ++k) if (s[i * nb + k] != '#' && s[i * nb + k] != b[k]) return 0;
        }
        return 1;
    }
    return -1;
}

static void check_single(Ctx &c, World &w)
{
    struct XCSF *x = w.x();
    std::vector<struct Cl *> ps = members(x->pset);
    if (ps.empty()) return;
    std::vector<double> in(x->x_dim);
    for (int rep = 0; rep < 60; ++rep) {
        struct Cl *k = ps[c.rng.below((int) ps.size())];
        gen_x(c.rng, w.c, in.data());
        // move to the edge of the region in some attributes
        const int t = x->cond->type;
        const int kind = c.rng.below(6);
        for (int i = 0; i < x->x_dim; ++i) {
            double lo = 0, hi = 1, mid = 0.5;
            if (t == COND_TYPE_HYPERRECTANGLE_CSR || t == COND_TYPE_HYPERRECTANGLE_UBR) {
                auto p = (struct CondRectangle *) k->cond;
                if (rep % 3 == 0) { // bounds free of rounding
                    p->b1[i] = ldexp(c.rng.range(-64, 64), -5);
                    p->b2[i] = t == COND_TYPE_HYPERRECTANGLE_CSR ? ldexp(c.rng.range(1, 64), -5) : ldexp(c.rng.range(-64, 64), -5);
                }
                lo = t == COND_TYPE_HYPERRECTANGLE_CSR ? p->b1[i] - p->b2[i] : std::min(p->b1[i], p->b2[i]);
                hi = t == COND_TYPE_HYPERRECTANGLE_CSR ? p->b1[i] + p->b2[i] : std::max(p->b1[i], p->b2[i]);
                mid = (lo + hi) / 2;
            } else if (t == COND_TYPE_HYPERELLIPSOID) {
                auto p = (struct CondEllipsoid *) k->cond;
                mid = p->center[i];
                const double s = p->spread[i] / sqrt((double) x->x_dim);
                lo = mid - s * (1 - 1e-6);
                hi = mid + s * (1 + 1e-6);
            } else if (t == COND_TYPE_TERNARY) {
                const int nb = x->cond->bits;
                mid = ldexp(floor(ldexp(c.rng.uni(), std::min(nb, 50))), -nb);
                lo = mid;
                hi = nextafter(mid, -1);
                if (c.rng.chance(0.2)) mid = c.rng.pick({ 0.0, 1.0, 1.5, -0.5 });
            } else continue;
            switch (kind == 5 ? c.rng.below(5) : kind) {
                case 0: in[i] = mid; break;
                case 1: in[i] = lo; break;
                case 2: in[i] = hi; break;
                case 3: in[i] = c.rng.chance(0.2) ? nextafter(lo, -1e9) : mid; break;
                case 4: in[i] = c.rng.chance(0.2) ? nextafter(hi, 1e9) : mid; break;
            }
        }
        const Eval e = o_eval(x, k, in.data());
        char *js = cond_json_export(x, k);
        cJSON *j = cJSON_Parse(js);
        free(js);
        const int je = j ? json_accepts(x, j, in.data()) : -2;
        cJSON_Delete(j);
        const int age = k->age, mt = k->mtotal;
        const bool m = cl_match(x, k, in.data());
        count("single_evaluations");
        CHECK(je != -2, "export-shape", "exported condition is not of the documented form; %s", where.c_str());
        if (e.sure) {
            count(e.match ? "single_accepts" : "single_rejects");
            CHECK(m == e.match, "decision", "condition decides %d, its contents mean %d (margin %g); %s", m, e.match, e.margin, where.c_str());
        }
        if (je >= 0) { count("exported_meaning"); CHECK(m == (bool) je, "export-decision", "condition decides %d, its exported form means %d; %s", m, je, where.c_str()); }
        CHECK(cl_m(x, k) == m, "flag", "the recorded decision differs from the returned one; %s", where.c_str());
        CHECK(k->age == age + 1 && k->mtotal == mt + (m ? 1 : 0), "counters", "counters went from age=%d mtotal=%d to %d %d on a %s; %s", age, mt, k->age, k->mtotal, m ? "match" : "miss", where.c_str());
        CHECK(k->age > 0 && close(cl_mfrac(x, k), k->age > 0 ? (double) k->mtotal / k->age : 0, 1e-12), "fraction", "matched fraction %g of %d/%d; %s", cl_mfrac(x, k), k->mtotal, k->age, where.c_str());
        Hash h;
        for (double v : in) h.d(v);
        h.add((uint64_t) m);
        distinct(h.h);
    }
}

// inputs and contents for which the decision value is exactly the limit
static void check_limit(Ctx &c, World &w)
{
    struct XCSF *x = w.x();
    std::vector<struct Cl *> ps = members(x->pset);
    if (ps.empty()) return;
    Rng &r = c.rng;
    struct Cl *k = ps[r.below((int) ps.size())];
    Vec in(x->x_dim);
    gen_x(r, w.c, in.data());
    bool done = false;
    const char *what = "";
    struct Net *net = NULL;
    struct Graph *g = NULL;
    switch (x->cond->type) {
        case COND_TYPE_HYPERELLIPSOID: {
            auto p = (struct CondEllipsoid *) k->cond;
            const int d = r.below(x->x_dim);
            for (int i = 0; i < x->x_dim; ++i) {
                in[i] = p->center[i] = ldexp(r.range(-64, 64), -5);
                p->spread[i] = ldexp(1, -r.range(0, 5));
            }
            in[d] += r.chance(0.5) ? p->spread[d] : -p->spread[d];
            CHECK(!cl_match(x, k, in.data()), "limit", "an ellipsoid accepts a point at weighted distance exactly one; %s", where.c_str());
            in[d] = p->center[d] + (in[d] - p->center[d]) * (1 - ldexp(1, -20));
            CHECK(cl_match(x, k, in.data()), "limit", "an ellipsoid rejects a point just inside; %s", where.c_str());
            count("exact_limits");
            break;
        }
        case COND_TYPE_GP: {
            auto p = (struct CondGP *) k->cond;
            const int a = r.below(x->x_dim);
            p->gp.len = 1;
            p->gp.tree[0] = 4 + x->cond->targs->n_constants + a;
            in[a] = 0.5;
            done = true;
            what = "a tree";
            break;
        }
        case COND_TYPE_DGP: g = &((struct CondDGP *) k->cond)->dgp; break;
        case RULE_TYPE_DGP: g = &((struct RuleDGP *) k->cond)->dgp; break;
        case COND_TYPE_NEURAL: net = &((struct CondNeural *) k->cond)->net; break;
        case RULE_TYPE_NEURAL: net = &((struct RuleNeural *) k->cond)->net; break;
    }
    if (g) {
        for (int i = 0; i < g->n; ++i) { g->state[i] = g->initial_state[i] = 0.5; g->function[i] = 0; }
        for (int i = 0; i < g->klen; ++i) g->connectivity[i] = g->n_inputs + r.below(g->n);
        done = true;
        what = "a graph";
    }
    if (net && net->head->layer->type == CONNECTED && !x->explore) {
        struct Layer *l = net->head->layer;
        const bool lin = r.chance(0.5);
        l->function = lin ? LINEAR : LOGISTIC;
        for (int i = 0; i < l->n_weights; ++i) l->weights[i] = 0;
        for (int i = 0; i < l->n_biases; ++i) l->biases[i] = lin ? 0.5 : 0;
        if (l->n_outputs > 1) for (int i = 1; i < l->n_biases; ++i) l->biases[i] = 1; // only the first decides
        done = true;
        what = "a network";
    }
    if (done) {
        count("exact_limits");
        CHECK(!cl_match(x, k, in.data()), "limit", "%s whose output is exactly one half accepts; %s", what, where.c_str());
    }
}

void run_case(Ctx &c)
{
    GenOpts o;
    if (c.rng.chance(0.3)) o.a_min = 2, o.a_max = 4;
    o.pop_max = 30;
    if (c.idx % 2) {
        o.conds = { "ternary", "hyperrectangle_csr", "hyperrectangle_ubr", "hyperellipsoid", "tree_gp", "dgp" };
        o.preds = { "constant", "nlms_linear" };
    }
    Cfg cfg = gen_cfg(c.rng, o);
    rand_init_seed(cfg.seed);
    where = cfg.brief();
    World w(c, cfg);
    HK.pre_match = [](struct XCSF *x, const double *in, bool) {
        pre.clear();
        for (auto *k : members(x->pset)) pre[k] = { o_eval(x, k, in), k->age, k->mtotal };
    };
    HK.post_match = [&cfg](struct XCSF *x, const double *in, bool) {
        for (auto *k : members(x->pset)) {
            auto f = pre.find(k);
            if (f == pre.end()) {
                // created for this input: any evaluations made so far
                CHECK(k->mtotal >= 0 && k->mtotal <= k->age, "counters", "new rule has age %d and %d matches; %s", k->age, k->mtotal, where.c_str());
                continue;
            }
            const Pre &p = f->second;
            count("evaluations");
            if (p.e.sure) {
                count(p.e.match ? "accepts" : "rejects");
                CHECK(k->m == p.e.match, "decision", "condition decides %d, its contents mean %d (margin %g); %s", k->m, p.e.match, p.e.margin, where.c_str());
            }
            CHECK(k->age == p.age + 1 && k->mtotal == p.mtotal + (k->m ? 1 : 0), "counters", "counters went from age=%d mtotal=%d to %d %d on a %s; %s", p.age, p.mtotal, k->age, k->mtotal, k->m ? "match" : "miss", where.c_str());
        }
        (void) in;
    };
    HK.post_update = [](struct XCSF *x, struct Set *, const double *, const double *, bool) { (void) x; };
    const int n = c.rng.range(2, c.thorough ? 10 : 5);
    for (int i = 0; i < n; ++i) {
        w.run(w.pick_op());
        where = cfg.brief() + " ops:" + w.trace;
    }
    check_single(c, w);
    if (!SH->n_viol) check_limit(c, w);
    count(("cond_" + cfg.cond).c_str());
    count("histories");
    sample("%s; ops:%s; then 60 single evaluations at region edges", cfg.brief().c_str(), w.trace.c_str());
}

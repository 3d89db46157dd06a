// P27: network surgery and population figures. Surgery (a further hidden
// layer, or an autoencoder turned into a classifier) is compared layer by layer
// with the networks before it; every reported figure with a recomputation from
// the rules, during learning.
#include "mon.h"
#include "wellformed.h"
int n_cases(bool t) { return t ? 150000 : 15000; }
static std::string where;

static std::vector<Flat> layers_of(const struct Net *n)
{
    std::vector<Flat> v;
    for (const struct Llist *it = n->tail; it; it = it->prev) {
        Flat f;
        flat_layer(f, it->layer, FL_ALL);
        v.push_back(f);
    }
    return v;
}
static std::vector<const struct Layer *> chain(const struct Net *n)
{
    std::vector<const struct Layer *> v;
    for (const struct Llist *it = n->tail; it; it = it->prev) v.push_back(it->layer);
    return v;
}
static const struct Net *net_of(const struct Cl *c) { return &((const struct PredNeural *) c->pred)->net; }
static Flat rest(const struct XCSF *x, const struct Cl *c)
{
    Flat f;
    f.d("num", c->num); f.d("size", c->size); f.d("age", c->age); f.d("mtotal", c->mtotal); f.d("m", c->m); f.d("action", c->action);
    flat_cond(f, x, c, FL_ALL);
    flat_act(f, x, c, FL_ALL);
    return f;
}
// learning and evolution settings of a layer made by surgery
static void made_layer(const struct XCSF *x, const struct Layer *l, const char *what)
{
    const struct ArgsLayer *a = x->pred->largs;
    const auto opt = [&](int bit) { return (l->options & bit) != 0; };
    CHECK(l->type == CONNECTED, "made-type", "%s: the layer made is %s; %s", what, layer_type_as_string(l->type), where.c_str());
    CHECK(opt(LAYER_SGD_WEIGHTS) == a->sgd_weights && opt(LAYER_EVOLVE_WEIGHTS) == a->evolve_weights && opt(LAYER_EVOLVE_CONNECT) == a->evolve_connect && opt(LAYER_EVOLVE_ETA) == a->evolve_eta,
          "made-options", "%s: the layer made has options %u; the configured network has sgd=%d weights=%d connect=%d eta=%d; %s", what, l->options, a->sgd_weights, a->evolve_weights, a->evolve_connect, a->evolve_eta, where.c_str());
    if (a->sgd_weights) {
        CHECK(l->momentum == a->momentum && l->decay == a->decay && l->eta_max == a->eta && l->eta >= std::min(a->eta_min, a->eta) && l->eta <= a->eta, "made-rates",
              "%s: the layer made has eta=%g momentum=%g decay=%g, configured %g %g %g; %s", what, l->eta, l->momentum, l->decay, a->eta, a->momentum, a->decay, where.c_str());
    }
}

static void answers(World &w, const Cfg &cfg, int n_out, bool dist)
{
    struct XCSF *x = w.x();
    std::vector<double> in(x->x_dim);
    gen_x(w.r, cfg, in.data());
    for (auto *k : members(x->pset)) {
        if (!wf_net(net_of(k), x->x_dim, n_out, "prediction", where.c_str())) return;
        const OPred p = o_predict(x, k, in.data());
        const bool ex = x->explore;
        param_set_explore(x, false);
        const double *y = cl_predict(x, k, in.data());
        param_set_explore(x, ex);
        double sum = 0;
        for (int i = 0; i < n_out; ++i) {
            sum += y[i];
            if (p.sure) CHECK(close(y[i], p.v[i], 1e-7, 1e-9), "answer", "output %d of the network is %g, its layers give %g; %s", i, y[i], p.v[i], where.c_str());
            if (dist) CHECK(y[i] >= 0 && y[i] <= 1, "distribution", "output %d is %g; %s", i, y[i], where.c_str());
        }
        if (dist) CHECK(close(sum, 1, 1e-9, 1e-9), "distribution", "outputs sum to %.17g; %s", sum, where.c_str());
        count("answers");
        if (SH->n_viol) return;
    }
}

// leaves ones on the part of the stack that surgery uses
__attribute__((noinline)) static void dirty_stack()
{
    volatile unsigned char b[16384];
    for (size_t i = 0; i < sizeof b; ++i) b[i] = 1;
}
static void surgery(Ctx &c)
{
    Rng &r = c.rng;
    GenOpts o;
    o.preds = { "neural" };
    o.pop_max = 25;
    o.pred_reset = 0;
    o.stochastic_layers = true;
    const bool ae = c.idx % 3 == 1;
    if (!ae && r.chance(0.3)) o.a_min = 2, o.a_max = 4;
    Cfg cfg = gen_cfg(r, o);
    reseed(cfg.seed);
    where = cfg.brief() + " " + cfg.json;
    World w(c, cfg);
    struct XCSF *x = w.x();
    for (int i = 0, n = r.range(0, 2); i < n; ++i) w.run(cfg.n_actions > 1 ? OP_RLFIT : OP_FIT);
    for (int rep = 0, reps = ae ? 1 : r.range(1, 3); rep < reps && !SH->n_viol; ++rep) {
        std::vector<struct Cl *> b = members(x->pset);
        std::vector<std::vector<Flat>> lb;
        std::vector<Flat> rb;
        std::vector<std::vector<int>> outs;
        for (auto *k : b) {
            lb.push_back(layers_of(net_of(k)));
            rb.push_back(rest(x, k));
            outs.push_back({});
            for (auto *l : chain(net_of(k))) outs.back().push_back(l->n_outputs);
        }
        const int time = x->time, yd = ae ? r.range(2, 6) : x->y_dim, n_del = r.range(0, 4);
        stage("%s %s", ae ? "ae_to_classifier" : "expand", where.c_str());
        dirty_stack();
        if (ae) xcsf_ae_to_classifier(x, yd, n_del);
        else xcsf_pred_expand(x);
        std::vector<struct Cl *> a = members(x->pset);
        CHECK(a == b && x->time == time, "population", "surgery changed the population's members or the time; %s", where.c_str());
        if (SH->n_viol) return;
        for (size_t i = 0; i < a.size() && !SH->n_viol; ++i) {
            const struct Cl *k = a[i];
            const std::vector<Flat> la = layers_of(net_of(k));
            const auto ch = chain(net_of(k));
            const std::string df = flat_diff(rb[i], rest(x, k));
            CHECK(df.empty(), "rest", "surgery on the predictions changes %s; %s", df.c_str(), where.c_str());
            CHECK(k->exp == 0 && k->err == x->INIT_ERROR && k->fit == x->INIT_FITNESS && k->time == x->time, "restart",
                  "after surgery a rule has experience %d, error %g, fitness %g and time %d at time %d; %s", k->exp, k->err, k->fit, k->time, x->time, where.c_str());
            const size_t n = lb[i].size();
            size_t kept = ae ? std::max<size_t>(1, n > (size_t) n_del ? n - n_del : 1) : n - 1;
            CHECK(la.size() == (ae ? kept + 2 : n + 1), "layers", "%zu layers after %s of %zu (n_del=%d); %s", la.size(), ae ? "ae_to_classifier" : "pred_expand", n, n_del, where.c_str());
            if (SH->n_viol) return;
            for (size_t j = 0; j < kept; ++j) {
                const std::string d = flat_diff(lb[i][j], la[j]);
                CHECK(d.empty(), "kept", "surgery changes layer %zu of %zu: %s; %s", j, n, d.c_str(), where.c_str());
            }
            if (ae) {
                const struct Layer *l = ch[kept], *s = ch[kept + 1];
                made_layer(x, l, "classifier");
                CHECK(!(l->options & LAYER_EVOLVE_NEURONS), "made-options", "the number of classes may evolve; %s", where.c_str());
                CHECK(l->function == LINEAR && l->n_inputs == ch[kept - 1]->n_outputs && l->n_outputs == yd && s->type == SOFTMAX && s->n_outputs == yd && s->scale == 1,
                      "classifier", "the layers added are %s %d->%d and %s with %d outputs for %d classes; %s", layer_type_as_string(l->type), l->n_inputs, l->n_outputs, layer_type_as_string(s->type), s->n_outputs, yd, where.c_str());
            } else {
                const struct Layer *l = ch[n - 1];
                made_layer(x, l, "expansion");
                CHECK(((l->options & LAYER_EVOLVE_FUNCTIONS) != 0) == x->pred->largs->evolve_functions, "made-options", "evolution of the inserted layer's function is not as configured; %s", where.c_str());
                const int size = n > 1 ? outs[i][n - 2] : outs[i][0];
                CHECK(l->n_outputs == size && l->function == x->pred->largs->function, "expansion", "the layer inserted has %d neurons with %s, the one it follows has %d; %s", l->n_outputs, neural_activation_string(l->function), size, where.c_str());
                // the output layer keeps its contents, as far as it still has the same inputs
                if (ch[n]->n_inputs == (n > 1 ? outs[i][n - 2] : x->x_dim)) {
                    const std::string d = flat_diff(lb[i][n - 1], la[n]);
                    CHECK(d.empty(), "output-layer", "surgery changes the output layer: %s; %s", d.c_str(), where.c_str());
                }
            }
            count("networks_compared");
        }
        if (ae) {
            CHECK(x->y_dim == yd && x->pa_size == yd * x->n_actions && x->LOSS_FUNC == LOSS_ONEHOT, "classes", "y_dim=%d pa_size=%d loss=%d for %d classes; %s", x->y_dim, x->pa_size, x->LOSS_FUNC, yd, where.c_str());
        }
        if (!SH->n_viol) answers(w, cfg, yd, ae);
        if (ae && !SH->n_viol && x->pset.size) {
            std::vector<double> p((size_t) w.t.n * yd), cov(yd, 1.0 / yd);
            xcs_supervised_predict(x, w.t.x.data(), p.data(), w.t.n, cov.data());
            for (int i = 0; i < w.t.n; ++i) {
                double s = 0;
                for (int j = 0; j < yd; ++j) s += p[(size_t) i * yd + j];
                CHECK(close(s, 1, 1e-9, 1e-9), "system-distribution", "the system's class outputs sum to %.17g; %s", s, where.c_str());
                count("class_rows");
            }
        }
        if (!ae && rep + 1 < reps && !SH->n_viol) w.run(cfg.n_actions > 1 ? OP_RLFIT : OP_FIT);
        Hash h;
        h.add(cfg.hash());
        h.i(n_del);
        for (auto &l : lb) for (auto &f : l) h.add(f.hash());
        distinct(h.h);
    }
    count(ae ? "classifiers" : "expansions");
    sample("%s of %d networks; %s", ae ? "classifier" : "expansion", x->pset.size, cfg.brief().c_str());
}

static double o_active(const struct Layer *l)
{
    double n = 0;
    switch (l->type) {
        case CONNECTED: case CONVOLUTIONAL: for (int i = 0; i < l->n_weights; ++i) n += l->weight_active[i]; return n;
        case RECURRENT: return o_active(l->input_layer) + o_active(l->self_layer) + o_active(l->output_layer);
        case LSTM: for (const struct Layer *s : { l->uf, l->ui, l->ug, l->uo, l->wf, l->wi, l->wg, l->wo }) n += o_active(s); return n;
        default: return 0;
    }
}
static double o_net_size(const struct Net *n)
{
    double s = 0;
    for (auto *l : chain(n)) s += o_active(l);
    return s;
}
static double o_cond_size(const struct XCSF *x, const struct Cl *c)
{
    switch (x->cond->type) {
        case COND_TYPE_DUMMY: return 0;
        case COND_TYPE_HYPERRECTANGLE_CSR: case COND_TYPE_HYPERRECTANGLE_UBR: case COND_TYPE_HYPERELLIPSOID: return x->x_dim;
        case COND_TYPE_GP: return ((const struct CondGP *) c->cond)->gp.len;
        case COND_TYPE_DGP: return ((const struct CondDGP *) c->cond)->dgp.n;
        case RULE_TYPE_DGP: return ((const struct RuleDGP *) c->cond)->dgp.n;
        case COND_TYPE_TERNARY: return ((const struct CondTernary *) c->cond)->length;
        case COND_TYPE_NEURAL: return o_net_size(&((const struct CondNeural *) c->cond)->net);
        case RULE_TYPE_NEURAL: return o_net_size(&((const struct RuleNeural *) c->cond)->net);
        default: return NAN;
    }
}
static double o_pred_size(const struct XCSF *x, const struct Cl *c)
{
    const double n = x->x_dim;
    switch (x->pred->type) {
        case PRED_TYPE_CONSTANT: return x->y_dim;
        case PRED_TYPE_NLMS_LINEAR: case PRED_TYPE_RLS_LINEAR: return (n + 1) * x->y_dim;
        case PRED_TYPE_NLMS_QUADRATIC: case PRED_TYPE_RLS_QUADRATIC: return (1 + 2 * n + n * (n - 1) / 2) * x->y_dim;
        default: return o_net_size(net_of(c));
    }
}
static double o_mfrac(const struct XCSF *x, std::set<double> &any)
{
    double best = 0;
    const auto f = [](const struct Cl *c) { return c->age > 0 ? (double) c->mtotal / c->age : 0; };
    for (auto *c : members(x->pset)) if (c->err < x->E0 && c->exp * x->BETA > 1) best = std::max(best, f(c));
    any.clear();
    if (best > 0) { any.insert(best); return best; }
    double e = DBL_MAX;
    for (auto *c : members(x->pset)) if (c->exp * x->BETA > 1 && c->err < e) e = c->err;
    for (auto *c : members(x->pset)) if (c->exp * x->BETA > 1 && c->err == e) any.insert(f(c));
    if (any.empty()) any.insert(0);
    return *any.begin();
}
static double m0, a0, f0;
static void figures(Ctx &c)
{
    Rng &r = c.rng;
    GenOpts o;
    o.pop_max = 40;
    const bool rl = r.chance(0.4);
    if (rl) o.a_min = 2, o.a_max = 4;
    if (r.chance(0.4)) o.preds = { "neural" };
    if (r.chance(0.3)) o.conds = { "neural" };
    Cfg cfg = gen_cfg(r, o);
    reseed(cfg.seed);
    where = cfg.brief() + " " + cfg.json;
    World w(c, cfg);
    HK.pre_match = [](struct XCSF *x, const double *, bool) { m0 = x->mset_size; f0 = x->mfrac; };
    HK.post_match = [](struct XCSF *x, const double *, bool) {
        const double s = members(x->mset).size(), want = m0 + x->BETA * (s - m0);
        CHECK(close(x->mset_size, want, 1e-9, 1e-12), "mset-average", "average match set size %g after a set of %g on top of %g (beta=%g); %s", x->mset_size, s, m0, x->BETA, where.c_str());
        std::set<double> any;
        o_mfrac(x, any);
        bool ok = false;
        for (double v : any) ok |= close(x->mfrac, f0 + x->BETA * (v - f0), 1e-9, 1e-12);
        CHECK(ok, "mfrac", "average fraction matched %g after %g on top of %g; %s", x->mfrac, *any.begin(), f0, where.c_str());
        count("match_averages");
        if (*any.begin() > 0) count("mfrac_nonzero");
    };
    HK.pre_action = [](struct XCSF *x, int) { a0 = x->aset_size; };
    HK.post_action = [](struct XCSF *x, int) {
        const double s = members(x->aset).size(), want = a0 + x->BETA * (s - a0);
        CHECK(close(x->aset_size, want, 1e-9, 1e-12), "aset-average", "average action set size %g after a set of %g on top of %g; %s", x->aset_size, s, a0, where.c_str());
        count("action_averages");
    };
    for (int k = 0, n = r.range(1, 4); k < n && !SH->n_viol; ++k) {
        w.run(rl ? (r.chance(0.5) ? OP_RL : OP_RLFIT) : OP_FIT);
        struct XCSF *x = w.x();
        const auto ps = members(x->pset);
        const double np = ps.size();
        if (np == 0) continue;
        double cs = 0, pz = 0, tm = 0, tn = 0, fit = 0;
        for (auto *q : ps) { cs += o_cond_size(x, q); pz += o_pred_size(x, q); tm += (double) q->time * q->num; tn += q->num; fit += q->fit; }
        stage("figures %s", where.c_str());
        CHECK(close(clset_mean_cond_size(x, &x->pset), cs / np), "cond-size", "mean condition size %g, the rules give %g; %s", clset_mean_cond_size(x, &x->pset), cs / np, where.c_str());
        CHECK(close(clset_mean_pred_size(x, &x->pset), pz / np), "pred-size", "mean prediction size %g, the rules give %g; %s", clset_mean_pred_size(x, &x->pset), pz / np, where.c_str());
        CHECK(close(clset_mean_time(&x->pset), tm / tn), "mean-time", "mean time %g, the rules give %g; %s", clset_mean_time(&x->pset), tm / tn, where.c_str());
        CHECK(close(clset_total_fit(&x->pset), fit), "total-fit", "total fitness %g, the rules give %g; %s", clset_total_fit(&x->pset), fit, where.c_str());
        count("populations");
        const auto nets = [&](bool cond) {
            std::vector<std::vector<const struct Layer *>> v;
            for (auto *q : ps) v.push_back(chain(!cond ? net_of(q) : x->cond->type == COND_TYPE_NEURAL ? &((const struct CondNeural *) q->cond)->net : &((const struct RuleNeural *) q->cond)->net));
            return v;
        };
        for (int side = 0; side < 2; ++side) {
            const bool cond = side == 1;
            const bool neural = cond ? (x->cond->type == COND_TYPE_NEURAL || x->cond->type == RULE_TYPE_NEURAL) : x->pred->type == PRED_TYPE_NEURAL;
            if (!neural) continue;
            const auto v = nets(cond);
            double nl = 0;
            size_t least = 1000;
            for (auto &q : v) { nl += q.size(); least = std::min(least, q.size()); }
            const double gl = cond ? clset_mean_cond_layers(x, &x->pset) : clset_mean_pred_layers(x, &x->pset);
            CHECK(close(gl, nl / np), "layers-mean", "mean number of %s layers %g, the networks give %g; %s", cond ? "condition" : "prediction", gl, nl / np, where.c_str());
            for (size_t i = 0; i < least; ++i) {
                double nn = 0, con = 0, eta = 0;
                for (auto &q : v) { nn += q[i]->type == CONVOLUTIONAL ? q[i]->n_filters : q[i]->n_outputs; con += o_active(q[i]); eta += q[i]->eta; }
                const bool weights = v[0][i]->type == CONNECTED || v[0][i]->type == RECURRENT || v[0][i]->type == LSTM || v[0][i]->type == CONVOLUTIONAL;
                const double gn = cond ? clset_mean_cond_neurons(x, &x->pset, i) : clset_mean_pred_neurons(x, &x->pset, i);
                const double gc = cond ? clset_mean_cond_connections(x, &x->pset, i) : clset_mean_pred_connections(x, &x->pset, i);
                CHECK(close(gn, nn / np), "neurons-mean", "mean neurons of layer %zu %g, the networks give %g; %s", i, gn, nn / np, where.c_str());
                if (weights) CHECK(close(gc, con / np), "connections-mean", "mean connections of layer %zu %g, the networks give %g; %s", i, gc, con / np, where.c_str());
                if (!cond && weights) CHECK(close(clset_mean_pred_eta(x, &x->pset, i), eta / np), "eta-mean", "mean rate of layer %zu %g, the networks give %g; %s", i, clset_mean_pred_eta(x, &x->pset, i), eta / np, where.c_str());
                count("layer_figures");
            }
        }
    }
    HK = Hooks();
    Hash h;
    h.add(cfg.hash());
    h.str(w.trace);
    distinct(h.h);
    sample("figures of %d rules; %s", w.x()->pset.size, cfg.brief().c_str());
}

void run_case(Ctx &c)
{
    if (c.idx % 3 == 2) figures(c);
    else surgery(c);
}

// P17: populations exported as JSON, checked against the rules themselves, and
// imported into empty, occupied and full systems, whole and in part.
#include "mon.h"
#include "wellformed.h"
#include "params.h"
int n_cases(bool t) { return t ? 40000 : 4000; }

typedef std::vector<Flat> Flats;
// what the JSON of a rule carries (not the least-squares matrix, nor the
// action part of single-action systems)
static Flat carried(const struct XCSF *x, const struct Cl *c, bool stats = true, bool cond = true, bool act = true, bool pred = true, bool with_num = true)
{
    Flat f;
    if (stats) {
        f.d("err", c->err); f.d("fit", c->fit); if (with_num) f.d("num", c->num); f.d("exp", c->exp); f.d("size", c->size);
        f.d("time", c->time); f.d("age", c->age); f.d("mtotal", c->mtotal); f.d("m", c->m); f.d("action", c->action);
        f.arr("prediction", c->prediction, x->y_dim);
    }
    if (cond) flat_cond(f, x, c);
    if (act && x->n_actions > 1) flat_act(f, x, c);
    if (pred && x->pred->type != PRED_TYPE_CONSTANT) flat_pred(f, x, c);
    Flat g;
    for (size_t i = 0; i < f.v.size(); ++i) if (strcmp(f.lab[i], "rls_matrix")) g.d(f.lab[i], f.v[i]);
    return g;
}
static bool finite_flat(const Flat &f) { for (double v : f.v) if (!std::isfinite(v)) return false; return true; }
static std::string where;

static bool jnum(const cJSON *o, const char *k, double want, const char *what)
{
    const cJSON *i = cJSON_GetObjectItem(o, k);
    const bool ok = i && cJSON_IsNumber(i) && close(i->valuedouble, want, 1e-14, 0);
    CHECK(ok, "export", "%s: \"%s\" is %s, the rule has %.17g; %s", what, k, i ? num(i->valuedouble).c_str() : "missing", want, where.c_str());
    return ok;
}
static bool jarr(const cJSON *o, const char *k, const double *want, int n, const char *what)
{
    const cJSON *a = cJSON_GetObjectItem(o, k);
    if (!a || !cJSON_IsArray(a) || cJSON_GetArraySize(a) != n) { viol("export", "%s: \"%s\" should hold %d numbers; %s", what, k, n, where.c_str()); return false; }
    int i = 0;
    for (const cJSON *e = a->child; e; e = e->next, ++i)
        if (!close(e->valuedouble, want[i], 1e-14, 0)) { viol("export", "%s: \"%s\"[%d] is %.17g, the rule has %.17g; %s", what, k, i, e->valuedouble, want[i], where.c_str()); return false; }
    return true;
}
static bool jstr(const cJSON *o, const char *k, const std::string &want, const char *what)
{
    const cJSON *i = cJSON_GetObjectItem(o, k);
    const bool ok = i && cJSON_IsString(i) && want == i->valuestring;
    CHECK(ok, "export", "%s: \"%s\" is %s, should be %s; %s", what, k, i && cJSON_IsString(i) ? i->valuestring : "?", want.c_str(), where.c_str());
    return ok;
}
// the tokens of a tree in infix order, rebuilt from its prefix form without recursion
static std::vector<std::string> infix(const struct GPTree *g, const struct ArgsGPTree *a, std::vector<double> &vals)
{
    std::vector<std::string> out;
    struct Fr { int f, done; };
    std::vector<Fr> st;
    static const char *F[] = { "+", "-", "*", "/" };
    for (int i = 0; i < g->len; ++i) {
        const int n = g->tree[i];
        if (n < 4) { out.push_back("("); vals.push_back(NAN); st.push_back({ n, 0 }); continue; }
        if (n < 4 + a->n_constants) { out.push_back("#"); vals.push_back(a->constants[n - 4]); }
        else { out.push_back(fmt("feature_%d", n - 4 - a->n_constants)); vals.push_back(NAN); }
        while (!st.empty()) {
            if (st.back().done == 0) { out.push_back(F[st.back().f]); vals.push_back(NAN); st.back().done = 1; break; }
            out.push_back(")"); vals.push_back(NAN); st.pop_back();
        }
    }
    return out;
}
static void check_tree(const struct XCSF *x, const struct GPTree *g, const cJSON *jt)
{
    if (!jt) { viol("export", "no tree; %s", where.c_str()); return; }
    jarr(jt, "mutation", g->mu, 1, "tree");
    std::vector<double> v;
    const std::vector<std::string> want = infix(g, x->cond->targs, v);
    const cJSON *a = cJSON_GetObjectItem(jt, "array");
    if (!a || cJSON_GetArraySize(a) != (int) want.size()) { viol("export", "a tree of %zu tokens is exported with %d; %s", want.size(), a ? cJSON_GetArraySize(a) : -1, where.c_str()); return; }
    size_t i = 0;
    for (const cJSON *e = a->child; e; e = e->next, ++i) {
        const bool ok = want[i] == "#" ? cJSON_IsNumber(e) && close(e->valuedouble, v[i], 1e-14, 0) : cJSON_IsString(e) && want[i] == e->valuestring;
        if (!ok) { viol("export", "token %zu of a tree is \"%s\" (%.17g), the rule has %s (%.17g); %s", i, cJSON_IsString(e) ? e->valuestring : "", e->valuedouble, want[i].c_str(), v[i], where.c_str()); return; }
    }
    count("trees_exported"); count("tree_tokens", want.size());
}
static void check_weights(const struct Layer *l, const cJSON *o, bool full)
{
    if (!o) { viol("export", "no weights of a layer; %s", where.c_str()); return; }
    jnum(o, "n_weights", l->n_weights, "layer"); jnum(o, "n_biases", l->n_biases, "layer"); jnum(o, "n_active", l->n_active, "layer");
    CHECK((cJSON_GetObjectItem(o, "weights") != NULL) == full, "export", "weights present: not as requested; %s", where.c_str());
    if (!full) return;
    jarr(o, "weights", l->weights, l->n_weights, "layer"); jarr(o, "biases", l->biases, l->n_biases, "layer");
}
static void check_layer(const struct Layer *l, const cJSON *o, bool full)
{
    static const std::map<int, const char *> T = { { CONNECTED, "connected" }, { DROPOUT, "dropout" }, { NOISE, "noise" }, { SOFTMAX, "softmax" }, { RECURRENT, "recurrent" }, { LSTM, "lstm" }, { MAXPOOL, "maxpool" }, { CONVOLUTIONAL, "convolutional" }, { AVGPOOL, "avgpool" }, { UPSAMPLE, "upsample" } };
    static const std::map<int, const char *> A = { { LOGISTIC, "logistic" }, { RELU, "relu" }, { TANH, "tanh" }, { LINEAR, "linear" }, { GAUSSIAN, "gaussian" }, { SIN, "sin" }, { COS, "cos" }, { SOFT_PLUS, "softplus" }, { LEAKY, "leaky" }, { SELU, "selu" }, { LOGGY, "loggy" } };
    auto t = T.find(l->type);
    if (t == T.end()) return;
    jstr(o, "type", t->second, "layer"); jnum(o, "n_inputs", l->n_inputs, "layer"); jnum(o, "n_outputs", l->n_outputs, "layer");
    auto trainable = [&] { if (A.count(l->function)) jstr(o, "activation", A.at(l->function), "layer"); jnum(o, "eta", l->eta, "layer"); jarr(o, "mutation", l->mu, 6, "layer"); };
    auto item = [&](const char *k) { return cJSON_GetObjectItem(o, k); };
    switch (l->type) {
        case CONNECTED: trainable(); check_weights(l, item("weights"), full); break;
        case CONVOLUTIONAL:
            trainable(); check_weights(l, item("weights"), full);
            jnum(o, "n_filters", l->n_filters, "layer"); jnum(o, "size", l->size, "layer"); jnum(o, "stride", l->stride, "layer"); jnum(o, "pad", l->pad, "layer");
            break;
        case RECURRENT:
            trainable();
            check_weights(l->input_layer, item("input_layer"), full); check_weights(l->self_layer, item("self_layer"), full); check_weights(l->output_layer, item("output_layer"), full);
            break;
        case LSTM:
            trainable();
            if (A.count(l->recurrent_function)) jstr(o, "recurrent_activation", A.at(l->recurrent_function), "layer");
            check_weights(l->uf, item("uf_layer"), full); check_weights(l->ui, item("ui_layer"), full); check_weights(l->ug, item("ug_layer"), full); check_weights(l->uo, item("uo_layer"), full);
            check_weights(l->wf, item("wf_layer"), full); check_weights(l->wi, item("wi_layer"), full); check_weights(l->wg, item("wg_layer"), full); check_weights(l->wo, item("wo_layer"), full);
            break;
        case SOFTMAX: jnum(o, "temperature", l->scale, "layer"); break;
        case NOISE: jnum(o, "stdev", l->scale, "layer"); jnum(o, "probability", l->probability, "layer"); break;
        case DROPOUT: jnum(o, "probability", l->probability, "layer"); break;
        case MAXPOOL: jnum(o, "size", l->size, "layer"); jnum(o, "pad", l->pad, "layer"); // as the next
        case UPSAMPLE: jnum(o, "stride", l->stride, "layer"); // as the next
        case AVGPOOL: jnum(o, "height", l->height, "layer"); jnum(o, "width", l->width, "layer"); jnum(o, "channels", l->channels, "layer"); break;
    }
    count("layers_exported");
}
static void check_net(const struct Net *n, const cJSON *o, bool full)
{
    int i = 0;
    if (!o) { viol("export", "no network; %s", where.c_str()); return; }
    for (const struct Llist *it = n->tail; it; it = it->prev, ++i) {
        const cJSON *l = cJSON_GetObjectItem(o, fmt("layer_%d", i).c_str());
        if (!l) { viol("export", "layer %d of a network is not exported; %s", i, where.c_str()); return; }
        check_layer(it->layer, l, full);
    }
    CHECK(i == n->n_layers && cJSON_GetArraySize(o) == i, "export", "a network of %d layers is exported with %d; %s", n->n_layers, cJSON_GetArraySize(o), where.c_str());
    count("networks_exported");
    if (full) return;
    char *txt = neural_json_export(n, true);
    cJSON *j = cJSON_Parse(txt);
    check_net(n, j, true);
    cJSON_Delete(j); free(txt);
}
static void check_export(const struct XCSF *x, const Cfg &cfg, const struct Cl *c, const cJSON *o, bool cond, bool act, bool pred)
{
    jnum(o, "error", c->err, "rule"); jnum(o, "fitness", c->fit, "rule"); jnum(o, "set_size", c->size, "rule");
    jnum(o, "numerosity", c->num, "rule"); jnum(o, "experience", c->exp, "rule"); jnum(o, "time", c->time, "rule");
    jnum(o, "samples_seen", c->age, "rule"); jnum(o, "samples_matched", c->mtotal, "rule"); jnum(o, "current_action", c->action, "rule");
    const double acc = c->err > x->E0 ? fmax(x->ALPHA * pow(c->err / x->E0, -x->NU), 2.2204460492503131e-16) : 1;
    const cJSON *ja = cJSON_GetObjectItem(o, "accuracy");
    CHECK(ja && close(ja->valuedouble, acc, 1e-9, 1e-300), "export", "accuracy is reported as %.12g, should be %.12g; %s", ja ? ja->valuedouble : NAN, acc, where.c_str());
    const cJSON *m = cJSON_GetObjectItem(o, "current_match");
    CHECK(m && cJSON_IsBool(m) && (cJSON_IsTrue(m) != 0) == c->m, "export", "current_match is wrong; %s", where.c_str());
    jarr(o, "current_prediction", c->prediction, x->y_dim, "rule");
    const cJSON *jc = cJSON_GetObjectItem(o, "condition"), *jp = cJSON_GetObjectItem(o, "prediction"), *jA = cJSON_GetObjectItem(o, "action");
    CHECK((jc != NULL) == cond && (jp != NULL) == pred && (jA != NULL) == (act && x->n_actions > 1), "export", "parts present do not match the request %d%d%d; %s", cond, act, pred, where.c_str());
    if (jc) {
        jstr(jc, "type", cfg.cond, "condition");
        switch (x->cond->type) {
            case COND_TYPE_HYPERRECTANGLE_CSR: case COND_TYPE_HYPERRECTANGLE_UBR: {
                auto p = (const struct CondRectangle *) c->cond;
                const bool csr = x->cond->type == COND_TYPE_HYPERRECTANGLE_CSR;
                jarr(jc, csr ? "center" : "bound1", p->b1, x->x_dim, "condition"); jarr(jc, csr ? "spread" : "bound2", p->b2, x->x_dim, "condition");
                jarr(jc, "mutation", p->mu, 1, "condition");
                break;
            }
            case COND_TYPE_HYPERELLIPSOID: {
                auto p = (const struct CondEllipsoid *) c->cond;
                jarr(jc, "center", p->center, x->x_dim, "condition"); jarr(jc, "spread", p->spread, x->x_dim, "condition"); jarr(jc, "mutation", p->mu, 1, "condition");
                break;
            }
            case COND_TYPE_TERNARY: {
                auto p = (const struct CondTernary *) c->cond;
                jstr(jc, "string", std::string(p->string, p->length), "condition"); jarr(jc, "mutation", p->mu, 1, "condition");
                break;
            }
            case COND_TYPE_DGP: case RULE_TYPE_DGP: {
                const struct Graph *g = x->cond->type == COND_TYPE_DGP ? &((const struct CondDGP *) c->cond)->dgp : &((const struct RuleDGP *) c->cond)->dgp;
                const cJSON *jg = cJSON_GetObjectItem(jc, "graph");
                if (!jg) { viol("export", "no graph; %s", where.c_str()); break; }
                jnum(jg, "n", g->n, "graph"); jnum(jg, "t", g->t, "graph"); jnum(jg, "n_inputs", g->n_inputs, "graph");
                jarr(jg, "initial_state", g->initial_state, g->n, "graph"); jarr(jg, "current_state", g->state, g->n, "graph");
                std::vector<double> k(g->connectivity, g->connectivity + g->klen);
                jarr(jg, "connectivity", k.data(), g->klen, "graph"); jarr(jg, "mutation", g->mu, 3, "graph");
                static const char *F[] = { "Fuzzy NOT", "Fuzzy AND", "Fuzzy OR" };
                const cJSON *jf = cJSON_GetObjectItem(jg, "functions");
                if (!jf || cJSON_GetArraySize(jf) != g->n) { viol("export", "a graph of %d functions is exported with %d; %s", g->n, jf ? cJSON_GetArraySize(jf) : -1, where.c_str()); break; }
                int i = 0;
                for (const cJSON *e = jf->child; e; e = e->next, ++i)
                    if (!cJSON_IsString(e) || strcmp(e->valuestring, F[g->function[i]])) { viol("export", "function %d of a graph is %s, the rule has %s; %s", i, cJSON_IsString(e) ? e->valuestring : "?", F[g->function[i]], where.c_str()); break; }
                break;
            }
            case COND_TYPE_GP: check_tree(x, &((const struct CondGP *) c->cond)->gp, cJSON_GetObjectItem(jc, "tree")); break;
            case COND_TYPE_NEURAL: check_net(&((const struct CondNeural *) c->cond)->net, cJSON_GetObjectItem(jc, "network"), false); break;
            case RULE_TYPE_NEURAL: check_net(&((const struct RuleNeural *) c->cond)->net, cJSON_GetObjectItem(jc, "network"), false); break;
        }
    }
    if (jp) {
        jstr(jp, "type", cfg.pred, "prediction");
        if (x->pred->type == PRED_TYPE_NLMS_LINEAR || x->pred->type == PRED_TYPE_NLMS_QUADRATIC) {
            auto p = (const struct PredNLMS *) c->pred;
            jarr(jp, "weights", p->weights, p->n_weights, "prediction"); jnum(jp, "eta", p->eta, "prediction"); jarr(jp, "mutation", p->mu, 1, "prediction");
        } else if (x->pred->type == PRED_TYPE_RLS_LINEAR || x->pred->type == PRED_TYPE_RLS_QUADRATIC) {
            auto p = (const struct PredRLS *) c->pred;
            jarr(jp, "weights", p->weights, p->n_weights, "prediction");
        } else if (x->pred->type == PRED_TYPE_CONSTANT) jarr(jp, "prediction", c->prediction, x->y_dim, "prediction");
        else if (x->pred->type == PRED_TYPE_NEURAL) check_net(&((const struct PredNeural *) c->pred)->net, cJSON_GetObjectItem(jp, "network"), false);
    }
    if (jA && !rule_act(x) && x->act->type == ACT_TYPE_NEURAL) {
        jstr(jA, "type", "neural", "action");
        check_net(&((const struct ActNeural *) c->act)->net, cJSON_GetObjectItem(jA, "network"), false);
    }
    if (jA && !rule_act(x) && x->act->type == ACT_TYPE_INTEGER) {
        auto p = (const struct ActInteger *) c->act;
        jnum(jA, "action", p->action, "action"); jarr(jA, "mutation", p->mu, 1, "action");
    }
}
static Flats carry_all(const struct XCSF *x, bool with_num = true) { Flats v; for (auto *c : members(x->pset)) v.push_back(carried(x, c, true, true, true, true, with_num)); return v; }
static std::string where_of(const Flat &a, const Flat &b) { return flat_diff(a, b, 1e-14, 0); }

void run_case(Ctx &c)
{
    Rng &r = c.rng;
    GenOpts o;
    if (r.chance(0.35)) o.a_min = 2, o.a_max = 5;
    o.x_max = r.chance(0.2) ? 10 : 5;
    o.conds = { "hyperrectangle_csr", "hyperrectangle_ubr", "hyperellipsoid", "ternary", "dgp", "dummy" };
    if (o.a_min > 1) o.conds.push_back("rule_dgp");
    o.acts = { "integer" };
    o.preds = { "constant", "nlms_linear", "nlms_quadratic", "rls_linear", "rls_quadratic" };
    // trees and networks: their import is not supported, the export is
    const bool only_export = r.chance(0.2);
    if (only_export) {
        o.conds = { "tree_gp", "tree_gp", "neural", "hyperrectangle_csr" };
        if (o.a_min > 1) o.conds.push_back("rule_neural"), o.acts.push_back("neural");
        o.preds = { "constant", "nlms_linear", "neural" };
        o.stochastic_layers = true;
    }
    Cfg cfg = gen_cfg(r, o);
    reseed(cfg.seed);
    World w(c, cfg);
    for (int i = 0, n = r.range(0, 5); i < n; ++i) { Op q = w.pick_op(); if (q != OP_LOADOTHER) w.run(q); }
    struct XCSF *x = w.x();
    where = cfg.brief() + " ops:" + w.trace;
    if (getenv("VERIF_MSG")) where += " " + cfg.json;
    const Flats src = carry_all(x);
    bool fin = true;
    for (auto &f : src) fin = fin && finite_flat(f);
    if (!fin) { count("skipped_nonfinite"); return; }
    const std::vector<struct Cl *> rules = members(x->pset);
    const int total = x->pset.num;
    // 1. the exported text describes the rules
    const bool pc = r.chance(0.8), pa = r.chance(0.8), pp = r.chance(0.8);
    char *txt = clset_json_export(x, &x->pset, pc, pa, pp);
    cJSON *j = cJSON_Parse(txt);
    const cJSON *arr = j ? cJSON_GetObjectItem(j, "classifiers") : NULL;
    if (!arr || cJSON_GetArraySize(arr) != (int) rules.size()) viol("export", "%d rules exported as %d; %s", (int) rules.size(), arr ? cJSON_GetArraySize(arr) : -1, where.c_str());
    else { int i = 0; for (const cJSON *e = arr->child; e; e = e->next) check_export(x, cfg, rules[i++], e, pc, pa, pp); }
    count("rules_exported", rules.size());
    cJSON_Delete(j); free(txt);
    if (SH->n_viol) return;
    if (only_export) {
        count("exports_of_trees_and_networks");
        for (size_t i = 0; i < src.size() && i < 40; ++i) distinct(src[i].hash());
        return;
    }
    txt = clset_json_export(x, &x->pset, true, true, true);
    std::string full = txt;
    free(txt);
    if (r.chance(0.3)) { cJSON *q = cJSON_Parse(full.c_str()); char *u = cJSON_PrintUnformatted(q); full = u; free(u); cJSON_Delete(q); }
    // 2. into an empty system with the same parameters
    const int mode = r.below(3);
    Cfg ec = cfg;
    auto setk = [&](const char *k, const std::string &v) { // replaces a top-level value
        const std::string key = std::string("\"") + k + "\":";
        size_t p = ec.json.find(key);
        if (p == std::string::npos) ec.json = "{" + key + v + "," + ec.json.substr(1);
        else { size_t e = ec.json.find_first_of(",}", p); ec.json.replace(p, e - p, key + v); }
    };
    setk("pop_init", "false");
    if (mode == 0) { // through the population file
        const std::string f = c.tmp + "/pop.json";
        FILE *fp = fopen(f.c_str(), "w"); fwrite(full.data(), 1, full.size(), fp); fclose(fp);
        setk("population_file", "\"" + f + "\"");
        if (r.chance(0.4)) setk("pop_init", "true");
        count("population_files");
    }
    {
        stage("import into an empty system; %s", where.c_str());
        Sys e(ec, (unsigned char) r.below(256));
        if (mode == 1) clset_json_insert(&e.x, full.c_str());
        else if (mode == 2) { // one by one, last first
            cJSON *q = cJSON_Parse(full.c_str());
            const cJSON *a = cJSON_GetObjectItem(q, "classifiers");
            for (int i = cJSON_GetArraySize(a) - 1; i >= 0; --i) clset_json_insert_cl(&e.x, cJSON_GetArrayItem(a, i));
            cJSON_Delete(q);
        }
        Flats got = carry_all(&e.x);
        bool filled = e.x.POP_INIT;
        if (filled) {
            CHECK(e.x.pset.num == e.x.POP_SIZE, "fill", "a population file with %d of %d rules and pop_init gives a total of %d; %s", total, x->POP_SIZE, e.x.pset.num, where.c_str());
            CHECK(got.size() >= src.size(), "fill", "rules of the population file are missing; %s", where.c_str());
            if (got.size() >= src.size()) got.erase(got.begin(), got.end() - src.size()); // later rules come first
        }
        if (got.size() != src.size()) viol("imported", "%zu rules became %zu; %s", src.size(), got.size(), where.c_str());
        else {
            bool exact = true;
            for (size_t i = 0; i < src.size(); ++i) {
                const std::string d = where_of(src[i], got[i]);
                if (!d.empty()) { viol("imported", "rule %zu came back with another %s; %s", i, d.c_str(), where.c_str()); break; }
                if (!flat_diff(src[i], got[i]).empty()) exact = false;
            }
            if (!filled) CHECK(e.x.pset.num == total && e.x.pset.size == (int) src.size(), "imported", "total %d became %d; %s", total, e.x.pset.num, where.c_str());
            if (exact && !filled) {
                count("exact_imports");
                const int n = r.range(1, 8);
                Vec in(n * cfg.x_dim), p1((size_t) n * x->pa_size), p2(p1.size()), cov(x->pa_size, 0.25);
                for (int i = 0; i < n; ++i) gen_x(r, cfg, &in[i * cfg.x_dim]);
                xcs_supervised_predict(x, in.data(), p1.data(), n, cov.data());
                xcs_supervised_predict(&e.x, in.data(), p2.data(), n, cov.data());
                for (size_t i = 0; i < p1.size(); ++i)
                    if (!same_bits(p1[i], p2[i])) { viol("predictions", "output %zu: the original predicts %.17g, the import %.17g; %s", i, p1[i], p2[i], where.c_str()); break; }
                count("prediction_rows_compared", n);
            }
        }
        count("imports");
    }
    if (SH->n_viol) return;
    // 3. into a system that holds rules already
    {
        Sys t(cfg, (unsigned char) r.below(256));
        if (cfg.n_actions == 1 && r.chance(0.7)) { Input in = w.d.in(); xcs_supervised_fit(&t.x, &in, NULL, true, 0, r.range(1, 15)); }
        else if (cfg.n_actions > 1) for (int i = r.range(0, 8); i > 0; --i) { Vec s(cfg.x_dim); gen_x(r, cfg, s.data()); xcs_rl_fit(&t.x, s.data(), r.below(cfg.n_actions), 1); }
        const Flats old = carry_all(&t.x);
        const Flats oldn = carry_all(&t.x, false), srcn = carry_all(x, false);
        const int before = t.x.pset.num;
        cJSON *q = cJSON_Parse(full.c_str());
        cJSON *a = cJSON_GetObjectItem(q, "classifiers");
        // a sub-list of the rules
        std::vector<int> kept;
        const double keep = r.pick({ 1.0, 0.5, 0.1, 0.0 });
        for (int i = 0, n = (int) src.size(), k = 0; i < n; ++i) {
            if (r.chance(keep)) { kept.push_back(i); ++k; }
            else cJSON_DeleteItemFromArray(a, k);
        }
        const Flats now = carry_all(x);
        char *u = cJSON_Print(q);
        stage("import into an occupied system; %s", where.c_str());
        clset_json_insert(&t.x, u);
        free(u); cJSON_Delete(q);
        int add = 0;
        for (int i : kept) add += rules[i]->num;
        const Flats got = carry_all(&t.x);
        int sum = 0;
        for (auto *m : members(t.x.pset)) { sum += m->num; CHECK(m->num > 0, "occupied", "rule with numerosity %d; %s", m->num, where.c_str()); }
        CHECK(sum == t.x.pset.num && t.x.pset.size == (int) got.size(), "occupied", "counts: total %d reported %d; %s", sum, t.x.pset.num, where.c_str());
        if (before + add <= t.x.POP_SIZE) {
            bool ok = got.size() == old.size() + kept.size() && t.x.pset.num == before + add;
            CHECK(ok, "occupied", "%zu rules (total %d) plus %zu (total %d) gave %zu (total %d); %s", old.size(), before, kept.size(), add, got.size(), t.x.pset.num, where.c_str());
            // predictions of x may have moved the match counters of the source since: compare with the text inserted
            for (size_t i = 0; ok && i < got.size(); ++i) {
                const std::string d = i < kept.size() ? where_of(src[kept[i]], got[i]) : flat_diff(old[i - kept.size()], got[i]);
                if (!d.empty()) { viol("occupied", "%s rule %zu has another %s; %s", i < kept.size() ? "inserted" : "resident", i, d.c_str(), where.c_str()); break; }
            }
            count("occupied_inserts");
        } else {
            CHECK(t.x.pset.num == t.x.POP_SIZE, "limit", "total %d after inserting %d into %d with a limit of %d; %s", t.x.pset.num, add, before, t.x.POP_SIZE, where.c_str());
            const std::vector<struct Cl *> m = members(t.x.pset);
            for (size_t i = 0; i < m.size(); ++i) {
                Flat g = carried(&t.x, m[i], true, true, true, true, false);
                bool found = false;
                for (size_t k = 0; !found && k < old.size(); ++k) found = flat_diff(oldn[k], g).empty();
                for (size_t k = 0; !found && k < kept.size(); ++k) { Flat s; for (size_t z = 0; z < src[kept[k]].v.size(); ++z) if (strcmp(src[kept[k]].lab[z], "num")) s.d(src[kept[k]].lab[z], src[kept[k]].v[z]); found = where_of(s, g).empty(); }
                if (!found) { viol("limit", "after inserting above the limit rule %zu is neither a resident nor an inserted one; %s", i, where.c_str()); break; }
            }
            count("overfull_inserts");
        }
    }
    if (SH->n_viol) return;
    // 4. incomplete rules
    {
        Cfg pcfg = ec;
        ec = cfg; setk("pop_init", "false"); setk("pop_size", "100000");
        Sys e(ec, (unsigned char) r.below(256));
        cJSON *q = cJSON_Parse(full.c_str());
        cJSON *a = cJSON_GetObjectItem(q, "classifiers");
        static const char *K[] = { "error", "fitness", "set_size", "numerosity", "experience", "time", "samples_seen", "samples_matched", "current_match", "current_action", "current_prediction", "condition", "action", "prediction" };
        std::vector<unsigned> gone;
        for (cJSON *e1 = a->child; e1; e1 = e1->next) {
            unsigned g = 0;
            for (int k = 0; k < 14; ++k) if (r.chance(0.3)) { g |= 1u << k; cJSON_DeleteItemFromObject(e1, K[k]); }
            if (r.chance(0.3)) for (const char *part : { "condition", "action", "prediction" }) { cJSON *p = cJSON_GetObjectItem(e1, part); if (p && r.chance(0.5)) { cJSON_DeleteItemFromObject(p, "mutation"); g |= 1u << 20; } }
            cJSON *cd = cJSON_GetObjectItem(e1, "condition"), *gr = cd ? cJSON_GetObjectItem(cd, "graph") : NULL;
            if (gr && r.chance(0.4)) for (const char *part : { "t", "initial_state", "current_state", "functions", "connectivity", "mutation" }) if (r.chance(0.4)) { cJSON_DeleteItemFromObject(gr, part); g |= 1u << 21; }
            gone.push_back(g);
        }
        char *u = cJSON_Print(q);
        stage("import of incomplete rules; %s", where.c_str());
        clset_json_insert(&e.x, u);
        free(u); cJSON_Delete(q);
        const std::vector<struct Cl *> m = members(e.x.pset);
        if (m.size() != rules.size()) { viol("partial", "%zu incomplete rules became %zu; %s", rules.size(), m.size(), where.c_str()); return; }
        for (size_t i = 0; i < m.size(); ++i) {
            const struct Cl *g = m[i];
            const Flat &s = src[i];
            auto field = [&](const char *l) { for (size_t k = 0; k < s.v.size(); ++k) if (!strcmp(s.lab[k], l)) return s.v[k]; return (double) NAN; };
            const unsigned b = gone[i];
            auto want = [&](int bit, const char *l, double got, double init) {
                const double wv = b >> bit & 1 ? init : field(l);
                CHECK(close(got, wv, 1e-14, 0), "partial", "%s of rule %zu (%s in the JSON) is %.17g, should be %.17g; %s", l, i, b >> bit & 1 ? "absent" : "given", got, wv, where.c_str());
            };
            want(0, "err", g->err, e.x.INIT_ERROR); want(1, "fit", g->fit, e.x.INIT_FITNESS);
            want(3, "num", g->num, 1); want(4, "exp", g->exp, 0); want(6, "age", g->age, 0); want(7, "mtotal", g->mtotal, 0);
            if (!(b & 4)) want(2, "size", g->size, 0); else CHECK(std::isfinite(g->size) && g->size >= 0, "partial", "set size %g; %s", g->size, where.c_str());
            if (!(b & 32)) want(5, "time", g->time, 0); else CHECK(g->time >= 0 && g->time <= e.x.time, "partial", "time %d; %s", g->time, where.c_str());
            Made how = (b >> 11 & 1) ? M_RAND : M_OTHER;
            if (!wf_rule(&e.x, g, how, where.c_str())) break;
            CHECK(g->action >= 0 && g->action < e.x.n_actions, "partial", "current action %d; %s", g->action, where.c_str());
        }
        // given parts are taken over
        for (size_t i = 0; i < m.size() && !SH->n_viol; ++i) {
            if (gone[i] >> 20) continue;
            struct { int bit; bool c, a, p; const char *n; } PT[] = { { 11, true, false, false, "condition" }, { 12, false, true, false, "action" }, { 13, false, false, true, "prediction" } };
            for (auto &pt : PT) {
                if (gone[i] >> pt.bit & 1) continue;
                const std::string d = where_of(carried(x, rules[i], false, pt.c, pt.a, pt.p), carried(&e.x, m[i], false, pt.c, pt.a, pt.p));
                if (x->cond->type == COND_TYPE_DGP || x->cond->type == RULE_TYPE_DGP) { if (pt.bit == 11) continue; } // node states moved while predicting
                CHECK(d.empty(), "partial", "%s of incomplete rule %zu differs in %s; %s", pt.n, i, d.c_str(), where.c_str());
            }
            count("partial_rules");
        }
    }
    count("histories");
    count(("cond_" + cfg.cond).c_str());
    count(("pred_" + cfg.pred).c_str());
    for (size_t i = 0; i < src.size() && i < 40; ++i) distinct(src[i].hash());
    sample("%s; %zu rules, total %d; ops:%s", cfg.brief().c_str(), rules.size(), total, w.trace.c_str());
}

// Complete contents of rules as flat labelled vectors, read directly from the
// data structures (independent of the save/export code under test).
#pragma once
#include "gen.h"

struct Flat {
    std::vector<double> v;
    std::vector<const char *> lab;
    void d(const char *l, double x) { v.push_back(x); lab.push_back(l); }
    void arr(const char *l, const double *a, int n) { for (int i = 0; i < n; ++i) d(l, a ? a[i] : NAN); }
    void iarr(const char *l, const int *a, int n) { for (int i = 0; i < n; ++i) d(l, a ? a[i] : NAN); }
    void barr(const char *l, const bool *a, int n) { for (int i = 0; i < n; ++i) d(l, a ? (double) a[i] : NAN); }
    uint64_t hash() const { Hash h; for (double x : v) h.d(x); return h.h; }
};
// empty string if equal, else what differs
inline std::string flat_diff(const Flat &a, const Flat &b, double rel = 0, double ab = 0, const char *skip = nullptr)
{
    if (a.v.size() != b.v.size()) return fmt("different shape (%zu vs %zu fields)", a.v.size(), b.v.size());
    for (size_t i = 0; i < a.v.size(); ++i) {
        if (strcmp(a.lab[i], b.lab[i])) return fmt("field %zu: %s vs %s", i, a.lab[i], b.lab[i]);
        if (skip && strstr(skip, a.lab[i])) continue;
        const bool eq = rel == 0 && ab == 0 ? (a.v[i] == b.v[i] || (std::isnan(a.v[i]) && std::isnan(b.v[i])))
                                            : close(a.v[i], b.v[i], rel, ab);
        if (!eq) return fmt("%s (field %zu): %.17g vs %.17g", a.lab[i], i, a.v[i], b.v[i]);
    }
    return "";
}

enum { FL_MU = 1, FL_STATE = 2, FL_MOMENTUM = 4, FL_ALL = 7 };

inline int n_mu_layer(const struct Layer *l)
{
    switch (l->type) {
        case CONNECTED: case CONVOLUTIONAL: return 6;
        case RECURRENT: return 6;
        case LSTM: return 6;
        default: return 0;
    }
}
inline void flat_layer(Flat &f, const struct Layer *l, int what)
{
    if (!l) { f.d("layer_null", 1); return; }
    f.d("layer_type", l->type);
    f.d("n_inputs", l->n_inputs);
    f.d("n_outputs", l->n_outputs);
    f.d("options", l->options);
    f.d("function", l->function);
    f.d("eta", l->eta);
    f.d("eta_max", l->eta_max);
    f.d("eta_min", l->eta_min);
    f.d("momentum", l->momentum);
    f.d("decay", l->decay);
    f.d("max_outputs", l->max_outputs);
    f.d("max_neuron_grow", l->max_neuron_grow);
    switch (l->type) {
        case CONNECTED:
        case CONVOLUTIONAL:
            f.d("n_weights", l->n_weights);
            f.d("n_biases", l->n_biases);
            f.d("n_active", l->n_active);
            f.arr("weights", l->weights, l->n_weights);
            f.barr("weight_active", l->weight_active, l->n_weights);
            f.arr("biases", l->biases, l->n_biases);
            if (what & FL_MOMENTUM) {
                f.arr("weight_updates", l->weight_updates, l->n_weights);
                f.arr("bias_updates", l->bias_updates, l->n_biases);
            }
            if (what & FL_MU) f.arr("mu", l->mu, 6);
            if (l->type == CONVOLUTIONAL) {
                f.d("n_filters", l->n_filters);
                f.d("height", l->height); f.d("width", l->width); f.d("channels", l->channels);
                f.d("size", l->size); f.d("stride", l->stride); f.d("pad", l->pad);
                f.d("out_w", l->out_w); f.d("out_h", l->out_h); f.d("out_c", l->out_c);
            }
            break;
        case RECURRENT:
            if (what & FL_MU) f.arr("mu", l->mu, 6);
            if (what & FL_STATE) f.arr("prev_state", l->prev_state, l->n_outputs), f.arr("fed_back_output", l->output, l->n_outputs);
            flat_layer(f, l->input_layer, what);
            flat_layer(f, l->self_layer, what);
            flat_layer(f, l->output_layer, what);
            break;
        case LSTM:
            f.d("recurrent_function", l->recurrent_function);
            if (what & FL_MU) f.arr("mu", l->mu, 6);
            if (what & FL_STATE) {
                f.arr("lstm_h", l->h, l->n_outputs);
                f.arr("lstm_c", l->c, l->n_outputs);
            }
            for (const struct Layer *s : { l->uf, l->ui, l->ug, l->uo, l->wf, l->wi, l->wg, l->wo }) flat_layer(f, s, what);
            break;
        case MAXPOOL: case AVGPOOL: case UPSAMPLE:
            f.d("height", l->height); f.d("width", l->width); f.d("channels", l->channels);
            f.d("size", l->size); f.d("stride", l->stride); f.d("pad", l->pad);
            f.d("out_w", l->out_w); f.d("out_h", l->out_h); f.d("out_c", l->out_c);
            break;
        case DROPOUT: case NOISE:
            f.d("probability", l->probability);
            f.d("scale", l->scale);
            break;
        case SOFTMAX:
            f.d("scale", l->scale);
            break;
    }
}
inline void flat_net(Flat &f, const struct Net *n, int what)
{
    f.d("n_layers", n->n_layers);
    f.d("net_in", n->n_inputs);
    f.d("net_out", n->n_outputs);
    for (const struct Llist *it = n->tail; it != NULL; it = it->prev) flat_layer(f, it->layer, what);
}
inline void flat_graph(Flat &f, const struct Graph *g, int what)
{
    f.d("dgp_n", g->n); f.d("dgp_t", g->t); f.d("dgp_klen", g->klen); f.d("dgp_max_k", g->max_k);
    f.d("dgp_max_t", g->max_t); f.d("dgp_n_inputs", g->n_inputs); f.d("dgp_evolve", g->evolve_cycles);
    f.arr("dgp_initial_state", g->initial_state, g->n);
    if (what & FL_STATE) f.arr("dgp_state", g->state, g->n);
    f.iarr("dgp_function", g->function, g->n);
    f.iarr("dgp_connectivity", g->connectivity, g->klen);
    if (what & FL_MU) f.arr("mu", g->mu, 3);
}
inline int mu_cond(int type)
{
    switch (type) {
        case COND_TYPE_HYPERRECTANGLE_CSR: case COND_TYPE_HYPERRECTANGLE_UBR: case COND_TYPE_HYPERELLIPSOID:
        case COND_TYPE_TERNARY: return 1;
    }
    return 0;
}
inline void flat_cond(Flat &f, const struct XCSF *x, const struct Cl *c, int what = FL_ALL)
{
    switch (x->cond->type) {
        case COND_TYPE_HYPERRECTANGLE_CSR:
        case COND_TYPE_HYPERRECTANGLE_UBR: {
            auto p = (const struct CondRectangle *) c->cond;
            f.arr("b1", p->b1, x->x_dim); f.arr("b2", p->b2, x->x_dim);
            if (what & FL_MU) f.arr("mu", p->mu, 1);
            break;
        }
        case COND_TYPE_HYPERELLIPSOID: {
            auto p = (const struct CondEllipsoid *) c->cond;
            f.arr("center", p->center, x->x_dim); f.arr("spread", p->spread, x->x_dim);
            if (what & FL_MU) f.arr("mu", p->mu, 1);
            break;
        }
        case COND_TYPE_TERNARY: {
            auto p = (const struct CondTernary *) c->cond;
            f.d("length", p->length);
            for (int i = 0; i < p->length; ++i) f.d("string", p->string[i]);
            if (what & FL_MU) f.arr("mu", p->mu, 1);
            break;
        }
        case COND_TYPE_GP: {
            auto p = (const struct CondGP *) c->cond;
            f.d("gp_len", p->gp.len); f.iarr("gp_tree", p->gp.tree, p->gp.len);
            if (what & FL_MU) f.arr("mu", p->gp.mu, 1);
            break;
        }
        case COND_TYPE_DGP: flat_graph(f, &((const struct CondDGP *) c->cond)->dgp, what); break;
        case RULE_TYPE_DGP:
            f.d("rule_dgp_outputs", ((const struct RuleDGP *) c->cond)->n_outputs);
            flat_graph(f, &((const struct RuleDGP *) c->cond)->dgp, what);
            break;
        case COND_TYPE_NEURAL: flat_net(f, &((const struct CondNeural *) c->cond)->net, what); break;
        case RULE_TYPE_NEURAL: flat_net(f, &((const struct RuleNeural *) c->cond)->net, what); break;
        default: break;
    }
}
inline void flat_pred(Flat &f, const struct XCSF *x, const struct Cl *c, int what = FL_ALL)
{
    switch (x->pred->type) {
        case PRED_TYPE_NLMS_LINEAR:
        case PRED_TYPE_NLMS_QUADRATIC: {
            auto p = (const struct PredNLMS *) c->pred;
            f.d("nlms_n", p->n); f.d("nlms_nw", p->n_weights); f.d("eta", p->eta);
            f.arr("nlms_weights", p->weights, p->n_weights);
            if (what & FL_MU) f.arr("mu", p->mu, 1);
            break;
        }
        case PRED_TYPE_RLS_LINEAR:
        case PRED_TYPE_RLS_QUADRATIC: {
            auto p = (const struct PredRLS *) c->pred;
            f.d("rls_n", p->n); f.d("rls_nw", p->n_weights);
            f.arr("rls_weights", p->weights, p->n_weights);
            f.arr("rls_matrix", p->matrix, p->n * p->n);
            break;
        }
        case PRED_TYPE_NEURAL: flat_net(f, &((const struct PredNeural *) c->pred)->net, what); break;
        case PRED_TYPE_CONSTANT: f.arr("constant", c->prediction, x->y_dim); break;
        default: break;
    }
}
inline bool rule_act(const struct XCSF *x) { return x->cond->type == RULE_TYPE_DGP || x->cond->type == RULE_TYPE_NEURAL; }
inline void flat_act(Flat &f, const struct XCSF *x, const struct Cl *c, int what = FL_ALL)
{
    if (rule_act(x)) return;
    if (x->act->type == ACT_TYPE_INTEGER) {
        auto p = (const struct ActInteger *) c->act;
        f.d("act_integer", p->action);
        if (what & FL_MU) f.arr("mu", p->mu, 1);
    } else flat_net(f, &((const struct ActNeural *) c->act)->net, what);
}
inline void flat_stats(Flat &f, const struct XCSF *x, const struct Cl *c)
{
    (void) x;
    f.d("err", c->err); f.d("fit", c->fit); f.d("num", c->num); f.d("exp", c->exp); f.d("size", c->size);
    f.d("time", c->time); f.d("age", c->age); f.d("mtotal", c->mtotal);
}
inline Flat flat_rule(const struct XCSF *x, const struct Cl *c, int what = FL_ALL, bool cur = true)
{
    Flat f;
    flat_stats(f, x, c);
    if (cur) { f.d("m", c->m); f.d("action", c->action); f.arr("prediction", c->prediction, x->y_dim); }
    flat_cond(f, x, c, what);
    flat_pred(f, x, c, what);
    flat_act(f, x, c, what);
    return f;
}
inline Flat flat_pop(const struct XCSF *x, int what = FL_ALL, bool cur = true)
{
    Flat f;
    f.d("pset_size", x->pset.size);
    f.d("pset_num", x->pset.num);
    for (auto *c : members(x->pset)) {
        Flat g = flat_rule(x, c, what, cur);
        f.v.insert(f.v.end(), g.v.begin(), g.v.end());
        f.lab.insert(f.lab.end(), g.lab.begin(), g.lab.end());
    }
    return f;
}
inline Flat flat_sys(const struct XCSF *x)
{
    Flat f;
    f.d("time", x->time); f.d("error", x->error); f.d("mset_size", x->mset_size); f.d("aset_size", x->aset_size); f.d("mfrac", x->mfrac);
    return f;
}

// Well-formedness of a rule, judged from its contents alone.
#pragma once
#include "oracle.h"

enum Made { M_RAND, M_COVER, M_MUTATE, M_OTHER };
#define WF(cond, key, ...) do { if (!(cond)) { viol(key, __VA_ARGS__); return false; } } while (0)

inline bool wf_mu(const double *mu, int n, const char *what, const char *where)
{
    for (int i = 0; i < n; ++i)
        WF(mu[i] >= 0.0005 - 1e-12 && mu[i] <= 1 + 1e-12, "rate", "%s: self-adaptive rate %d is %.12g; %s", what, i, mu[i], where);
    return true;
}
// the part of a compound layer that carries its limits
inline const struct Layer *bounds_of(const struct Layer *l) { return l->type == RECURRENT ? l->input_layer : l->type == LSTM ? l->uf : l; }
inline bool wf_layer(const struct Layer *l, bool sub, const char *where)
{
    const char *t = layer_type_as_string(l->type);
    WF(l->n_outputs >= 1 && l->n_inputs >= 1, "network", "%s layer with %d inputs and %d outputs; %s", t, l->n_inputs, l->n_outputs, where);
    switch (l->type) {
        case CONNECTED: case CONVOLUTIONAL: {
            if (l->type == CONNECTED) {
                WF(l->n_weights == l->n_inputs * l->n_outputs && l->n_biases == l->n_outputs, "network", "connected layer %dx%d has %d weights and %d biases; %s", l->n_inputs, l->n_outputs, l->n_weights, l->n_biases, where);
                if (!sub) WF(!(l->options & LAYER_EVOLVE_NEURONS) || l->n_outputs <= l->max_outputs, "neurons", "layer grew to %d neurons, the limit is %d; %s", l->n_outputs, l->max_outputs, where);
            } else {
                const int w = (l->width + 2 * l->pad - l->size) / l->stride + 1, h = (l->height + 2 * l->pad - l->size) / l->stride + 1;
                WF(l->n_weights == l->channels * l->n_filters * l->size * l->size && l->n_biases == l->n_filters && l->n_outputs == w * h * l->n_filters,
                   "network", "convolutional layer %dx%dx%d with %d filters has %d weights, %d biases, %d outputs; %s", l->width, l->height, l->channels, l->n_filters, l->n_weights, l->n_biases, l->n_outputs, where);
                WF(!(l->options & LAYER_EVOLVE_NEURONS) || l->n_filters <= l->max_outputs, "neurons", "layer grew to %d filters, the limit is %d; %s", l->n_filters, l->max_outputs, where);
            }
            int act = 0;
            for (int i = 0; i < l->n_weights; ++i) {
                act += l->weight_active[i];
                WF(std::isfinite(l->weights[i]) && fabs(l->weights[i]) <= 10, "weight", "%s weight %d is %.12g; %s", t, i, l->weights[i], where);
                WF(l->weight_active[i] || l->weights[i] == 0, "inactive", "%s connection %d is inactive with weight %.12g; %s", t, i, l->weights[i], where);
            }
            for (int i = 0; i < l->n_biases; ++i) WF(std::isfinite(l->biases[i]) && fabs(l->biases[i]) <= 10, "weight", "%s bias %d is %.12g; %s", t, i, l->biases[i], where);
            WF(act == l->n_active, "active-count", "%s layer counts %d active connections, it has %d; %s", t, l->n_active, act, where);
            break;
        }
        case RECURRENT: {
            const struct Layer *v[] = { l->input_layer, l->self_layer, l->output_layer };
            for (auto *s : v) {
                WF(s->n_outputs == l->n_outputs, "network", "recurrent layer of %d neurons holds a part with %d; %s", l->n_outputs, s->n_outputs, where);
                if (!wf_layer(s, true, where)) return false;
            }
            WF(l->input_layer->n_inputs == l->n_inputs && l->self_layer->n_inputs == l->n_outputs && l->output_layer->n_inputs == l->n_outputs,
               "network", "recurrent layer %dx%d holds parts of other widths; %s", l->n_inputs, l->n_outputs, where);
            WF(l->n_active == v[0]->n_active + v[1]->n_active + v[2]->n_active, "active-count", "recurrent layer counts %d active connections; its parts add up otherwise; %s", l->n_active, where);
            WF(!(l->options & LAYER_EVOLVE_NEURONS) || l->n_outputs <= bounds_of(l)->max_outputs, "neurons", "recurrent layer grew to %d neurons, the limit is %d; %s", l->n_outputs, l->max_outputs, where);
            break;
        }
        case LSTM: {
            const struct Layer *u[] = { l->uf, l->ui, l->ug, l->uo }, *w[] = { l->wf, l->wi, l->wg, l->wo };
            for (int i = 0; i < 4; ++i) {
                WF(u[i]->n_inputs == l->n_inputs && u[i]->n_outputs == l->n_outputs && w[i]->n_inputs == l->n_outputs && w[i]->n_outputs == l->n_outputs,
                   "network", "LSTM layer %dx%d holds gates of other widths; %s", l->n_inputs, l->n_outputs, where);
                if (!wf_layer(u[i], true, where) || !wf_layer(w[i], true, where)) return false;
            }
            int na = 0;
            for (int i = 0; i < 4; ++i) na += u[i]->n_active + w[i]->n_active;
            WF(l->n_active == na, "active-count", "LSTM layer counts %d active connections; its gates have %d; %s", l->n_active, na, where);
            WF(l->recurrent_function >= 0 && l->recurrent_function < 11, "function", "recurrent activation %d; %s", l->recurrent_function, where);
            WF(!(l->options & LAYER_EVOLVE_NEURONS) || l->n_outputs <= bounds_of(l)->max_outputs, "neurons", "LSTM layer grew to %d neurons, the limit is %d; %s", l->n_outputs, l->max_outputs, where);
            break;
        }
        default: break;
    }
    if (l->type == CONNECTED || l->type == CONVOLUTIONAL || l->type == RECURRENT || l->type == LSTM) {
        WF(l->function >= 0 && l->function < 11, "function", "%s layer with activation %d; %s", t, l->function, where);
        if (l->options & LAYER_SGD_WEIGHTS) {
            const struct Layer *b = bounds_of(l);
            const double lo = l->options & LAYER_EVOLVE_ETA ? b->eta_min : b->eta_max;
            WF(l->eta >= lo - 1e-15 && l->eta <= b->eta_max + 1e-15, "eta", "%s layer with learning rate %.12g outside [%g, %g]; %s", t, l->eta, lo, b->eta_max, where);
        }
        if (!sub && l->mu && !wf_mu(l->mu, n_mu_layer(l), t, where)) return false;
    }
    return true;
}
// a layer is built as its arguments say; evolving aspects excepted
inline bool wf_as_configured(const struct Layer *l, const struct ArgsLayer *a, const char *where)
{
    const char *t = layer_type_as_string(l->type);
    std::vector<const struct Layer *> parts = { l };
    if (l->type == RECURRENT) parts = { l->input_layer, l->self_layer, l->output_layer };
    if (l->type == LSTM) parts = { l->uf, l->ui, l->ug, l->uo, l->wf, l->wi, l->wg, l->wo };
    switch (l->type) {
        case CONNECTED: case CONVOLUTIONAL: case RECURRENT: case LSTM: {
            for (auto *k : parts) {
                WF(k->momentum == a->momentum && k->decay == a->decay, "configured", "%s layer learns with momentum %g and decay %g, configured %g and %g; %s", t, k->momentum, k->decay, a->momentum, a->decay, where);
                WF(k->eta == l->eta, "configured", "parts of a %s layer learn at rates %g and %g; %s", t, k->eta, l->eta, where);
            }
            if (a->sgd_weights) {
                const double lo = a->evolve_eta ? a->eta_min : a->eta;
                WF(l->eta >= lo - 1e-15 && l->eta <= a->eta + 1e-15, "configured", "%s layer with learning rate %.12g, configured [%g, %g]; %s", t, l->eta, lo, a->eta, where);
            }
            const int n = l->type == CONVOLUTIONAL ? l->n_filters : l->n_outputs;
            if (!a->evolve_neurons) WF(n == a->n_init, "configured", "%s layer of %d neurons, configured %d; %s", t, n, a->n_init, where);
            else WF(n >= 1 && n <= std::max(a->n_max, a->n_init), "configured", "%s layer of %d neurons, configured up to %d; %s", t, n, a->n_max, where);
            if (!a->evolve_functions) {
                WF(l->function == a->function, "configured", "%s layer with activation %d, configured %d; %s", t, l->function, a->function, where);
                if (l->type == LSTM) WF(l->recurrent_function == a->recurrent_function, "configured", "LSTM layer with recurrent activation %d, configured %d; %s", l->recurrent_function, a->recurrent_function, where);
            }
            const struct { bool on; int bit; const char *name; } O[] = {
                { a->evolve_weights, LAYER_EVOLVE_WEIGHTS, "evolve_weights" }, { a->evolve_neurons, LAYER_EVOLVE_NEURONS, "evolve_neurons" },
                { a->evolve_functions, LAYER_EVOLVE_FUNCTIONS, "evolve_functions" }, { a->evolve_connect, LAYER_EVOLVE_CONNECT, "evolve_connect" },
                { a->evolve_eta, LAYER_EVOLVE_ETA, "evolve_eta" }, { a->sgd_weights, LAYER_SGD_WEIGHTS, "sgd_weights" } };
            for (auto &o : O) WF(((l->options & o.bit) != 0) == o.on, "configured", "%s layer has %s %s, configured otherwise; %s", t, o.name, o.on ? "off" : "on", where);
            break;
        }
        case DROPOUT: WF(l->probability == a->probability, "configured", "dropout %g, configured %g; %s", l->probability, a->probability, where); break;
        case NOISE: WF(l->probability == a->probability && l->scale == a->scale, "configured", "noise %g of scale %g, configured %g and %g; %s", l->probability, l->scale, a->probability, a->scale, where); break;
        case SOFTMAX: WF(l->scale == a->scale, "configured", "softmax scale %g, configured %g; %s", l->scale, a->scale, where); break;
        default: break;
    }
    if (l->type == CONVOLUTIONAL || l->type == MAXPOOL) WF(l->size == a->size && l->pad == a->pad, "configured", "%s of size %d padded %d, configured %d and %d; %s", t, l->size, l->pad, a->size, a->pad, where);
    if (l->type == CONVOLUTIONAL || l->type == MAXPOOL || l->type == UPSAMPLE) WF(l->stride == a->stride, "configured", "%s with stride %d, configured %d; %s", t, l->stride, a->stride, where);
    return true;
}
inline bool wf_net(const struct Net *n, int in, int out, const char *what, const char *where, const struct ArgsLayer *args = NULL)
{
    std::vector<const struct Layer *> v;
    for (const struct Llist *it = n->tail; it; it = it->prev) v.push_back(it->layer);
    WF((int) v.size() == n->n_layers && !v.empty(), "network", "%s network counts %d layers, it has %zu; %s", what, n->n_layers, v.size(), where);
    for (size_t i = 0; i < v.size(); ++i) {
        if (i) WF(v[i]->n_inputs == v[i - 1]->n_outputs, "network", "%s layer %zu (%s) takes %d inputs, the layer before (%s) gives %d; %s", what, i, layer_type_as_string(v[i]->type), v[i]->n_inputs, layer_type_as_string(v[i - 1]->type), v[i - 1]->n_outputs, where);
        if (!wf_layer(v[i], false, where)) return false;
    }
    int na = 0;
    for (const struct ArgsLayer *a = args; a; a = a->next) ++na;
    if (args && na == (int) v.size()) { // not after surgery
        bool same = true;
        const struct ArgsLayer *a = args;
        for (size_t i = 0; i < v.size(); ++i, a = a->next) same &= v[i]->type == a->type;
        a = args;
        if (same) for (size_t i = 0; i < v.size(); ++i, a = a->next) if (!wf_as_configured(v[i], a, where)) return false;
        if (same) count("networks_as_configured");
    }
    WF(v[0]->n_inputs == in && n->n_inputs == in, "network", "%s network takes %d inputs, the problem has %d; %s", what, v[0]->n_inputs, in, where);
    WF(n->n_outputs == v.back()->n_outputs && (out == 0 || n->n_outputs == out), "network", "%s network gives %d outputs, %d are needed; %s", what, v.back()->n_outputs, out, where);
    return true;
}
inline bool wf_graph(const struct Graph *g, const struct ArgsDGP *a, const char *where)
{
    WF(g->n == a->n && g->max_k == a->max_k && g->klen == g->n * g->max_k && g->n_inputs == a->n_inputs, "graph", "graph of %d nodes x %d inputs, configured %d x %d; %s", g->n, g->max_k, a->n, a->max_k, where);
    WF(g->t >= 1 && g->t <= a->max_t, "cycles", "graph runs %d cycles, the limit is %d; %s", g->t, a->max_t, where);
    for (int i = 0; i < g->n; ++i) {
        WF(g->function[i] >= 0 && g->function[i] < 3, "graph", "node %d has function %d; %s", i, g->function[i], where);
        WF(g->initial_state[i] >= 0 && g->initial_state[i] <= 1 && g->state[i] >= 0 && g->state[i] <= 1, "graph", "node %d has state %.12g, initially %.12g; %s", i, g->state[i], g->initial_state[i], where);
    }
    for (int i = 0; i < g->klen; ++i) WF(g->connectivity[i] >= 0 && g->connectivity[i] < g->n + g->n_inputs, "graph", "connection %d goes to %d of %d; %s", i, g->connectivity[i], g->n + g->n_inputs, where);
    return wf_mu(g->mu, 3, "graph", where);
}
inline int tree_span(const int *t, int len, int pos) // end of the subtree, -1 if incomplete
{
    int need = 1;
    while (need > 0) {
        if (pos >= len) return -1;
        need += t[pos] < 4 ? 1 : -1;
        ++pos;
    }
    return pos;
}
inline bool wf_rule(const struct XCSF *x, const struct Cl *c, Made how, const char *where)
{
    const double lo = x->cond->min, hi = x->cond->max, sp = fabs(hi - lo), sl = 1e-12 * (1 + sp + fabs(hi) + fabs(lo));
    switch (x->cond->type) {
        case COND_TYPE_HYPERRECTANGLE_CSR: case COND_TYPE_HYPERELLIPSOID: {
            const double *b1, *b2, *mu;
            if (x->cond->type == COND_TYPE_HYPERELLIPSOID) { auto p = (const struct CondEllipsoid *) c->cond; b1 = p->center; b2 = p->spread; mu = p->mu; }
            else { auto p = (const struct CondRectangle *) c->cond; b1 = p->b1; b2 = p->b2; mu = p->mu; }
            for (int i = 0; i < x->x_dim; ++i) {
                WF(b1[i] >= lo - sl && b1[i] <= hi + sl, "centre", "centre %d is %.12g, outside [%g, %g]; %s", i, b1[i], lo, hi, where);
                WF(b2[i] > 0 && std::isfinite(b2[i]), "spread", "spread %d is %.12g; %s", i, b2[i], where);
                if (how == M_RAND || how == M_COVER) WF(b2[i] >= x->cond->spread_min - sl && b2[i] <= sp + sl, "spread", "spread %d of a new rule is %.12g, outside [%g, %g]; %s", i, b2[i], x->cond->spread_min, sp, where);
            }
            if (!wf_mu(mu, 1, "condition", where)) return false;
            break;
        }
        case COND_TYPE_HYPERRECTANGLE_UBR: {
            auto p = (const struct CondRectangle *) c->cond;
            for (int i = 0; i < x->x_dim; ++i) {
                if (how == M_COVER) {
                    const double w = fabs(p->b2[i] - p->b1[i]);
                    WF(w >= x->cond->spread_min - sl && w <= sp + sl, "spread", "interval %d of a covering rule is %.12g wide, outside [%g, %g]; %s", i, w, x->cond->spread_min, sp, where);
                } else if (how != M_OTHER)
                    WF(p->b1[i] >= lo - sl && p->b1[i] <= hi + sl && p->b2[i] >= lo - sl && p->b2[i] <= hi + sl, "bound", "interval %d is [%.12g, %.12g], outside [%g, %g]; %s", i, p->b1[i], p->b2[i], lo, hi, where);
                WF(std::isfinite(p->b1[i]) && std::isfinite(p->b2[i]), "bound", "interval %d is [%.12g, %.12g]; %s", i, p->b1[i], p->b2[i], where);
            }
            if (!wf_mu(p->mu, 1, "condition", where)) return false;
            break;
        }
        case COND_TYPE_TERNARY: {
            auto p = (const struct CondTernary *) c->cond;
            WF(p->length == x->x_dim * x->cond->bits, "ternary", "string of %d symbols for %d inputs of %d bits; %s", p->length, x->x_dim, x->cond->bits, where);
            for (int i = 0; i < p->length; ++i) WF(p->string[i] == '0' || p->string[i] == '1' || p->string[i] == '#', "ternary", "symbol %d is %d; %s", i, p->string[i], where);
            if (!wf_mu(p->mu, 1, "condition", where)) return false;
            break;
        }
        case COND_TYPE_GP: {
            auto p = (const struct CondGP *) c->cond;
            const struct ArgsGPTree *a = x->cond->targs;
            WF(p->gp.len >= 1 && tree_span(p->gp.tree, p->gp.len, 0) == p->gp.len, "tree", "tree of %d nodes is not one complete expression; %s", p->gp.len, where);
            if (how == M_RAND || how == M_COVER) WF(p->gp.len <= a->max_len, "tree", "new tree of %d nodes, the limit is %d; %s", p->gp.len, a->max_len, where);
            for (int i = 0; i < p->gp.len; ++i) WF(p->gp.tree[i] >= 0 && p->gp.tree[i] < 4 + a->n_constants + x->x_dim, "tree", "node %d is %d of %d; %s", i, p->gp.tree[i], 4 + a->n_constants + x->x_dim, where);
            for (int i = 0; i < a->n_constants; ++i) WF(a->constants[i] >= a->min && a->constants[i] <= a->max, "tree", "constant %d is %.12g, outside [%g, %g]; %s", i, a->constants[i], a->min, a->max, where);
            if (!wf_mu(p->gp.mu, 1, "tree", where)) return false;
            break;
        }
        case COND_TYPE_DGP: if (!wf_graph(&((const struct CondDGP *) c->cond)->dgp, x->cond->dargs, where)) return false; break;
        case RULE_TYPE_DGP: if (!wf_graph(&((const struct RuleDGP *) c->cond)->dgp, x->cond->dargs, where)) return false; break;
        case COND_TYPE_NEURAL: if (!wf_net(&((const struct CondNeural *) c->cond)->net, x->x_dim, 0, "condition", where, x->cond->largs)) return false; break;
        case RULE_TYPE_NEURAL: if (!wf_net(&((const struct RuleNeural *) c->cond)->net, x->x_dim, (int) fmax(1, ceil(log2(x->n_actions))) + 1, "rule", where, x->cond->largs)) return false; break;
    }
    switch (x->pred->type) {
        case PRED_TYPE_NLMS_LINEAR: case PRED_TYPE_NLMS_QUADRATIC: {
            auto p = (const struct PredNLMS *) c->pred;
            const double el = x->pred->evolve_eta ? x->pred->eta_min : x->pred->eta;
            WF(p->eta >= el - 1e-15 && p->eta <= x->pred->eta + 1e-15, "eta", "NLMS learning rate %.12g outside [%g, %g]; %s", p->eta, el, x->pred->eta, where);
            if (x->pred->evolve_eta && !wf_mu(p->mu, 1, "prediction", where)) return false;
            break;
        }
        case PRED_TYPE_NEURAL: if (!wf_net(&((const struct PredNeural *) c->pred)->net, x->x_dim, x->y_dim, "prediction", where, x->pred->largs)) return false; break;
    }
    if (!rule_act(x)) {
        if (x->act->type == ACT_TYPE_INTEGER) {
            auto p = (const struct ActInteger *) c->act;
            WF(p->action >= 0 && p->action < x->n_actions, "action", "action %d of %d; %s", p->action, x->n_actions, where);
            if (!wf_mu(p->mu, 1, "action", where)) return false;
        } else if (!wf_net(&((const struct ActNeural *) c->act)->net, x->x_dim, x->n_actions, "action", where, x->act->largs)) return false;
    }
    return true;
}

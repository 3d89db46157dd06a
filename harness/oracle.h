// Independent evaluation of rules from their contents: what a condition
// accepts, which action a rule advocates, what it predicts, what a loss is.
// Written from the documented meaning; shares no code with /repo.
#pragma once
#include "flat.h"

// ---------------------------------------------------------------- activations
inline double o_act(int f, double x)
{
    switch (f) {
        case 0: return x >= 0 ? 1 / (1 + exp(-x)) : exp(x) / (1 + exp(x));
        case 1: return x > 0 ? x : 0;
        case 2: { const double e = expm1(-2 * fabs(x)); const double t = -e / (2 + e); return x < 0 ? -t : t; }
        case 3: return x;
        case 4: return exp(-(x * x));
        case 5: return sin(x);
        case 6: return cos(x);
        case 7: return x > 0 ? x + log1p(exp(-x)) : log1p(exp(x));
        case 8: return x > 0 ? x : 0.1 * x;
        case 9: return x >= 0 ? 1.0507 * x : 1.0507 * 1.6732 * expm1(x);
        case 10: return 2 * o_act(0, x) - 1;
    }
    return NAN;
}
inline double o_grad(int f, double x)
{
    switch (f) {
        case 0: { const double s = o_act(0, x); return s * (1 - s); }
        case 1: return x > 0 ? 1 : 0;
        case 2: { const double t = o_act(2, x); return (1 - t) * (1 + t); }
        case 3: return 1;
        case 4: return -2 * x * exp(-(x * x));
        case 5: return cos(x);
        case 6: return -sin(x);
        case 7: return o_act(0, x);
        case 8: return x < 0 ? 0.1 : 1;
        case 9: return x >= 0 ? 1.0507 : 1.0507 * 1.6732 * exp(x);
        case 10: { const double s = o_act(0, x); return 2 * s * (1 - s); }
    }
    return NAN;
}
inline double o_clampn(double v) { return v < -100 ? -100 : v > 100 ? 100 : v; }

// ------------------------------------------------------------------- networks
typedef std::vector<double> Vec;
struct OLayer {
    int type, nin, nout, fn, rfn;
    int h, w, ch, size, stride, pad, ow, oh, oc, nf;
    double scale, prob;
    Vec wt, b, state, out, hh, cc;
    std::vector<OLayer> sub; // recurrent: input,self,output; lstm: uf ui ug uo wf wi wg wo
};
inline OLayer o_layer(const struct Layer *l)
{
    OLayer o;
    o.type = l->type; o.nin = l->n_inputs; o.nout = l->n_outputs; o.fn = l->function; o.rfn = l->recurrent_function;
    o.h = l->height; o.w = l->width; o.ch = l->channels; o.size = l->size; o.stride = l->stride; o.pad = l->pad;
    o.ow = l->out_w; o.oh = l->out_h; o.oc = l->out_c; o.nf = l->n_filters;
    o.scale = l->scale; o.prob = l->probability;
    switch (l->type) {
        case CONNECTED: case CONVOLUTIONAL:
            o.wt.assign(l->weights, l->weights + l->n_weights);
            o.b.assign(l->biases, l->biases + l->n_biases);
            break;
        case RECURRENT:
            o.sub = { o_layer(l->input_layer), o_layer(l->self_layer), o_layer(l->output_layer) };
            o.sub[0].fn = o.sub[1].fn = LINEAR;
            o.sub[2].fn = l->function;
            o.out.assign(l->output_layer->output, l->output_layer->output + l->n_outputs);
            break;
        case LSTM:
            for (const struct Layer *s : { l->uf, l->ui, l->ug, l->uo, l->wf, l->wi, l->wg, l->wo }) { o.sub.push_back(o_layer(s)); o.sub.back().fn = LINEAR; }
            o.hh.assign(l->h, l->h + l->n_outputs);
            o.cc.assign(l->c, l->c + l->n_outputs);
            break;
    }
    return o;
}
inline Vec o_forward(OLayer &l, const Vec &in)
{
    Vec out(l.nout);
    switch (l.type) {
        case CONNECTED:
            l.state.assign(l.nout, 0);
            for (int i = 0; i < l.nout; ++i) {
                double s = l.b[i];
                for (int j = 0; j < l.nin; ++j) s += in[j] * l.wt[(size_t) i * l.nin + j];
                l.state[i] = o_clampn(s);
                out[i] = o_act(l.fn, l.state[i]);
            }
            break;
        case CONVOLUTIONAL: {
            l.state.assign(l.nout, 0);
            for (int f = 0; f < l.nf; ++f)
                for (int y = 0; y < l.oh; ++y)
                    for (int x = 0; x < l.ow; ++x) {
                        double s = l.b[f];
                        for (int c = 0; c < l.ch; ++c)
                            for (int ky = 0; ky < l.size; ++ky)
                                for (int kx = 0; kx < l.size; ++kx) {
                                    const int iy = y * l.stride + ky - l.pad, ix = x * l.stride + kx - l.pad;
                                    if (iy < 0 || ix < 0 || iy >= l.h || ix >= l.w) continue;
                                    s += in[ix + l.w * (iy + l.h * c)] * l.wt[(((size_t) f * l.ch + c) * l.size + ky) * l.size + kx];
                                }
                        const int k = x + l.ow * (y + l.oh * f);
                        l.state[k] = o_clampn(s);
                        out[k] = o_act(l.fn, l.state[k]);
                    }
            break;
        }
        case MAXPOOL: {
            const int off = -l.pad / 2;
            for (int c = 0; c < l.ch; ++c)
                for (int y = 0; y < l.oh; ++y)
                    for (int x = 0; x < l.ow; ++x) {
                        double m = -INFINITY;
                        for (int ky = 0; ky < l.size; ++ky)
                            for (int kx = 0; kx < l.size; ++kx) {
                                const int iy = off + y * l.stride + ky, ix = off + x * l.stride + kx;
                                if (iy < 0 || ix < 0 || iy >= l.h || ix >= l.w) continue;
                                m = std::max(m, in[ix + l.w * (iy + l.h * c)]);
                            }
                        out[x + l.ow * (y + l.oh * c)] = m;
                    }
            break;
        }
        case AVGPOOL:
            for (int c = 0; c < l.ch; ++c) {
                double s = 0;
                for (int i = 0; i < l.h * l.w; ++i) s += in[i + l.h * l.w * c];
                out[c] = s / (l.h * l.w);
            }
            break;
        case UPSAMPLE:
            for (int c = 0; c < l.ch; ++c)
                for (int y = 0; y < l.h * l.stride; ++y)
                    for (int x = 0; x < l.w * l.stride; ++x)
                        out[(c * l.h * l.stride + y) * l.w * l.stride + x] = in[(c * l.h + y / l.stride) * l.w + x / l.stride];
            break;
        case SOFTMAX: {
            double mx = in[0], s = 0;
            for (double v : in) mx = std::max(mx, v);
            for (int i = 0; i < l.nin; ++i) { out[i] = exp((in[i] - mx) / l.scale); s += out[i]; }
            for (double &v : out) v /= s;
            break;
        }
        case DROPOUT: case NOISE: // inference
            out = in;
            break;
        case RECURRENT: {
            Vec a = o_forward(l.sub[0], in), b = o_forward(l.sub[1], l.out);
            for (int i = 0; i < l.nout; ++i) a[i] += b[i];
            out = o_forward(l.sub[2], a);
            l.out = out;
            break;
        }
        case LSTM: {
            Vec u[4], w[4];
            for (int k = 0; k < 4; ++k) { u[k] = o_forward(l.sub[k], in); w[k] = o_forward(l.sub[4 + k], l.hh); }
            for (int i = 0; i < l.nout; ++i) {
                const double f = o_act(l.rfn, o_clampn(u[0][i] + w[0][i]));
                const double g1 = o_act(l.rfn, o_clampn(u[1][i] + w[1][i]));
                const double g = o_act(l.fn, o_clampn(u[2][i] + w[2][i]));
                const double o = o_act(l.rfn, o_clampn(u[3][i] + w[3][i]));
                l.cc[i] = l.cc[i] * f + g1 * g;
                out[i] = o_act(l.fn, o_clampn(l.cc[i])) * o;
            }
            l.hh = out;
            break;
        }
    }
    return out;
}
struct ONet {
    std::vector<OLayer> l;
    bool memory = false, random = false;
    double gain = 1;
    std::vector<Vec> acts; // input of each layer of the last pass
    ONet() {}
    explicit ONet(const struct Net *n)
    {
        for (const struct Llist *it = n->tail; it; it = it->prev) {
            l.push_back(o_layer(it->layer));
            if (it->layer->type == RECURRENT || it->layer->type == LSTM) memory = true;
            if (it->layer->type == DROPOUT || it->layer->type == NOISE) random = true;
        }
    }
    Vec run(const Vec &in)
    {
        acts.clear();
        Vec v = in;
        for (auto &k : l) { acts.push_back(v); v = o_forward(k, v); }
        return v;
    }
};

// ----------------------------------------------------------------- conditions
inline double o_clamp(double v, double lo, double hi) { return v < lo ? lo : v > hi ? hi : v; }
inline double o_tree(const int *t, int len, int &pos, const struct ArgsGPTree *a, const double *x, bool &bad)
{
    if (pos >= len) { bad = true; return 0; }
    const int n = t[pos++];
    if (n >= 4 + a->n_constants) {
        if (n - 4 - a->n_constants >= a->n_inputs) { bad = true; return 0; }
        return x[n - 4 - a->n_constants];
    }
    if (n >= 4) return a->constants[n - 4];
    const double p = o_clamp(o_tree(t, len, pos, a, x, bad), -1000, 1000);
    const double q = o_clamp(o_tree(t, len, pos, a, x, bad), -1000, 1000);
    switch (n) {
        case 0: return p + q;
        case 1: return p - q;
        case 2: return p * q;
        default: return q != 0 ? p / q : p;
    }
}
// state after evaluating a graph
inline Vec o_graph(const struct Graph *g, const double *x, bool reset)
{
    Vec s(g->n);
    for (int i = 0; i < g->n; ++i) s[i] = reset ? g->initial_state[i] : g->state[i];
    for (int t = 0; t < g->t; ++t) {
        Vec nx(g->n);
        for (int i = 0; i < g->n; ++i) {
            Vec in(g->max_k);
            for (int k = 0; k < g->max_k; ++k) {
                const int c = g->connectivity[i * g->max_k + k];
                in[k] = c < g->n_inputs ? x[c] : s[c - g->n_inputs];
            }
            double v = in[0];
            if (g->function[i] == 0) v = 1 - in[0];
            else for (int k = 1; k < g->max_k; ++k) v = g->function[i] == 1 ? v * in[k] : v + in[k];
            nx[i] = o_clamp(v, 0, 1);
        }
        s = nx;
    }
    return s;
}
inline std::string o_bits(double f, int n)
{
    std::string s(n, '0');
    if (f >= 1) return std::string(n, '1');
    if (f <= 0) return s;
    double a = f;
    for (int i = 0; i < n; ++i) {
        a = ldexp(a, 1);
        if (a >= 1) { s[i] = '1'; a -= 1; }
    }
    return s;
}
inline bool dyadic(double v) { const double k = ldexp(v, 20); return fabs(k) < 1e12 && k == floor(k); }
// What evaluating a rule on x must give. Taken before the code evaluates it.
struct Eval {
    bool match = false;
    bool sure = true; // false: so close to the threshold that rounding decides
    int action = 0;
    bool action_sure = true;
    double margin = INFINITY;
};
inline void o_thresh(Eval &e, double v)
{
    e.match = v > 0.5;
    e.margin = fabs(v - 0.5);
    if (e.margin < 1e-9 || std::isnan(v)) e.sure = false;
}
inline int o_argmax(const Vec &v, int n, bool &sure)
{
    int b = 0;
    for (int i = 1; i < n; ++i) if (v[i] > v[b]) b = i;
    for (int i = 0; i < n; ++i) if (i != b && close(v[i], v[b], 1e-9, 1e-9)) sure = false;
    return b;
}
inline Eval o_eval(const struct XCSF *x, const struct Cl *c, const double *in)
{
    Eval e;
    Vec iv(in, in + x->x_dim);
    Vec bits; // outputs carrying the action, for rules
    switch (x->cond->type) {
        case COND_TYPE_DUMMY: e.match = true; break;
        case COND_TYPE_HYPERRECTANGLE_CSR:
        case COND_TYPE_HYPERRECTANGLE_UBR: {
            auto p = (const struct CondRectangle *) c->cond;
            e.match = true;
            for (int i = 0; i < x->x_dim; ++i) {
                double lo, hi;
                if (x->cond->type == COND_TYPE_HYPERRECTANGLE_CSR) {
                    lo = p->b1[i] - p->b2[i];
                    hi = p->b1[i] + p->b2[i];
                    const double m = std::min(fabs(in[i] - lo), fabs(in[i] - hi));
                    // at the bound only values free of rounding decide
                    if (m < 1e-12 * (1 + fabs(in[i])) && !(dyadic(in[i]) && dyadic(p->b1[i]) && dyadic(p->b2[i]))) e.sure = false;
                } else {
                    lo = std::min(p->b1[i], p->b2[i]);
                    hi = std::max(p->b1[i], p->b2[i]);
                }
                if (in[i] < lo || in[i] > hi) e.match = false;
            }
            break;
        }
        case COND_TYPE_HYPERELLIPSOID: {
            auto p = (const struct CondEllipsoid *) c->cond;
            double d = 0;
            for (int i = 0; i < x->x_dim; ++i) { const double k = (in[i] - p->center[i]) / p->spread[i]; d += k * k; }
            e.match = d < 1;
            if (fabs(d - 1) < 1e-12) e.sure = false;
            break;
        }
        case COND_TYPE_TERNARY: {
            auto p = (const struct CondTernary *) c->cond;
            e.match = true;
            const int nb = x->cond->bits;
            for (int i = 0; i < x->x_dim; ++i) {
                const std::string b = o_bits(in[i], nb);
                for (int j = 0; j < nb; ++j) {
                    const char s = p->string[i * nb + j];
                    if (s != '#' && s != b[j]) e.match = false;
                }
            }
            break;
        }
        case COND_TYPE_GP: {
            auto p = (const struct CondGP *) c->cond;
            int pos = 0;
            bool bad = false;
            const double v = o_tree(p->gp.tree, p->gp.len, pos, x->cond->targs, in, bad);
            o_thresh(e, v);
            break;
        }
        case COND_TYPE_DGP: {
            Vec s = o_graph(&((const struct CondDGP *) c->cond)->dgp, in, !x->STATEFUL);
            o_thresh(e, s[0]);
            break;
        }
        case RULE_TYPE_DGP: {
            bits = o_graph(&((const struct RuleDGP *) c->cond)->dgp, in, !x->STATEFUL);
            o_thresh(e, bits[0]);
            break;
        }
        case COND_TYPE_NEURAL: {
            ONet n(&((const struct CondNeural *) c->cond)->net);
            o_thresh(e, n.run(iv)[0]);
            if (n.random && x->explore) e.sure = false;
            break;
        }
        case RULE_TYPE_NEURAL: {
            ONet n(&((const struct RuleNeural *) c->cond)->net);
            bits = n.run(iv);
            o_thresh(e, bits[0]);
            if (n.random && x->explore) e.sure = e.action_sure = false;
            break;
        }
    }
    if (rule_act(x)) {
        const int n = (int) fmax(1, ceil(log2(x->n_actions)));
        int a = 0;
        for (int i = 0; i < n; ++i) {
            if (fabs(bits[i + 1] - 0.5) < 1e-9) e.action_sure = false;
            if (bits[i + 1] > 0.5) a += 1 << i;
        }
        e.action = std::min(a, x->n_actions - 1);
    } else if (x->act->type == ACT_TYPE_INTEGER) {
        e.action = ((const struct ActInteger *) c->act)->action;
    } else {
        ONet n(&((const struct ActNeural *) c->act)->net);
        e.action = o_argmax(n.run(iv), x->n_actions, e.action_sure);
        if (n.random && x->explore) e.action_sure = false;
    }
    return e;
}
// ---------------------------------------------------------------- predictions
inline Vec o_terms(const double *x, int n, double x0, bool quad)
{
    Vec t;
    t.push_back(x0);
    for (int i = 0; i < n; ++i) t.push_back(x[i]);
    if (quad)
        for (int i = 0; i < n; ++i)
            for (int j = i; j < n; ++j) t.push_back(x[i] * x[j]);
    return t;
}
struct OPred { Vec v; bool sure = true; double mag = 0; };
inline OPred o_predict(const struct XCSF *x, const struct Cl *c, const double *in)
{
    OPred r;
    r.v.assign(x->y_dim, 0);
    switch (x->pred->type) {
        case PRED_TYPE_CONSTANT: r.v.assign(c->prediction, c->prediction + x->y_dim); break;
        case PRED_TYPE_NLMS_LINEAR: case PRED_TYPE_NLMS_QUADRATIC: {
            auto p = (const struct PredNLMS *) c->pred;
            Vec t = o_terms(in, x->x_dim, x->pred->x0, x->pred->type == PRED_TYPE_NLMS_QUADRATIC);
            for (int i = 0; i < x->y_dim; ++i)
                for (size_t k = 0; k < t.size(); ++k) {
                    r.v[i] += t[k] * p->weights[i * t.size() + k];
                    r.mag = std::max(r.mag, fabs(t[k] * p->weights[i * t.size() + k]));
                }
            break;
        }
        case PRED_TYPE_RLS_LINEAR: case PRED_TYPE_RLS_QUADRATIC: {
            auto p = (const struct PredRLS *) c->pred;
            Vec t = o_terms(in, x->x_dim, x->pred->x0, x->pred->type == PRED_TYPE_RLS_QUADRATIC);
            for (int i = 0; i < x->y_dim; ++i)
                for (size_t k = 0; k < t.size(); ++k) {
                    r.v[i] += t[k] * p->weights[i * t.size() + k];
                    r.mag = std::max(r.mag, fabs(t[k] * p->weights[i * t.size() + k]));
                }
            break;
        }
        case PRED_TYPE_NEURAL: {
            ONet n(&((const struct PredNeural *) c->pred)->net);
            Vec o = n.run(Vec(in, in + x->x_dim));
            for (int i = 0; i < x->y_dim; ++i) r.v[i] = o[i];
            if (n.random && x->explore) r.sure = false;
            r.mag = 10;
            break;
        }
    }
    for (double v : r.v) r.mag = std::max(r.mag, fabs(v));
    return r;
}
// --------------------------------------------------------------------- losses
// margin: how far the decision of a discontinuous loss is from flipping
inline double o_loss(const std::string &name, const double *p, const double *y, int n, double delta, bool *sure = nullptr)
{
    double e = 0;
    if (name == "mae") { for (int i = 0; i < n; ++i) e += fabs(p[i] - y[i]); return e / n; }
    if (name == "mse") { for (int i = 0; i < n; ++i) e += (p[i] - y[i]) * (p[i] - y[i]); return e / n; }
    if (name == "rmse") { for (int i = 0; i < n; ++i) e += (p[i] - y[i]) * (p[i] - y[i]); return sqrt(e / n); }
    if (name == "log") { for (int i = 0; i < n; ++i) e -= y[i] * log(p[i] > DBL_EPSILON ? p[i] : DBL_EPSILON); return e; }
    if (name == "binary_log") {
        for (int i = 0; i < n; ++i) {
            const double a = p[i] > DBL_EPSILON ? p[i] : DBL_EPSILON, b = 1 - p[i] > DBL_EPSILON ? 1 - p[i] : DBL_EPSILON;
            e -= y[i] * log(a) + (1 - y[i]) * log(b);
        }
        return e;
    }
    if (name == "onehot") {
        int b = 0;
        for (int i = 1; i < n; ++i) if (p[i] > p[b]) b = i;
        if (sure) for (int i = 0; i < n; ++i) if (i != b && p[i] != p[b] && close(p[i], p[b], 1e-9, 1e-9)) *sure = false;
        return y[b] == 1 ? 0 : 1;
    }
    if (name == "huber") {
        for (int i = 0; i < n; ++i) {
            const double a = fabs(p[i] - y[i]);
            e += a <= delta ? a * a / 2 : delta * (a - delta / 2);
        }
        return e / n;
    }
    return NAN;
}
inline const char *o_loss_name(const struct XCSF *x)
{
    static const char *N[] = { "mae", "mse", "rmse", "log", "binary_log", "onehot", "huber" };
    return x->LOSS_FUNC >= 0 && x->LOSS_FUNC < 7 ? N[x->LOSS_FUNC] : "?";
}

// ----------------------------------------------------------------- generality
// Whether a must accept everything b accepts (slack: rounding); rules without
// a comparable condition never qualify.
inline bool o_general(const struct XCSF *x, const struct Cl *a, const struct Cl *b)
{
    const double sl = 1e-9;
    switch (x->cond->type) {
        case COND_TYPE_DUMMY: break;
        case COND_TYPE_HYPERRECTANGLE_CSR: {
            auto p = (const struct CondRectangle *) a->cond, q = (const struct CondRectangle *) b->cond;
            for (int i = 0; i < x->x_dim; ++i)
                if (p->b1[i] - p->b2[i] > q->b1[i] - q->b2[i] + sl || p->b1[i] + p->b2[i] < q->b1[i] + q->b2[i] - sl) return false;
            break;
        }
        case COND_TYPE_HYPERRECTANGLE_UBR: {
            auto p = (const struct CondRectangle *) a->cond, q = (const struct CondRectangle *) b->cond;
            for (int i = 0; i < x->x_dim; ++i)
                if (std::min(p->b1[i], p->b2[i]) > std::min(q->b1[i], q->b2[i]) || std::max(p->b1[i], p->b2[i]) < std::max(q->b1[i], q->b2[i])) return false;
            break;
        }
        case COND_TYPE_HYPERELLIPSOID: {
            auto p = (const struct CondEllipsoid *) a->cond, q = (const struct CondEllipsoid *) b->cond;
            bool same = true;
            for (int i = 0; i < x->x_dim; ++i) same &= p->center[i] == q->center[i] && p->spread[i] == q->spread[i];
            if (same) break;
            for (int i = 0; i < x->x_dim; ++i) {
                // an axis both share needs no test
                if (p->center[i] == q->center[i] && p->spread[i] == q->spread[i]) continue;
                for (int sg = -1; sg <= 1; sg += 2) {
                    double d = 0, slack = 1e-9;
                    for (int j = 0; j < x->x_dim; ++j) {
                        const double v = q->center[j] + (i == j ? sg * q->spread[j] : 0);
                        const double k = (v - p->center[j]) / p->spread[j];
                        const double dk = 1e-14 * (fabs(v) + fabs(p->center[j]) + fabs(q->center[j])) / fabs(p->spread[j]);
                        d += k * k;
                        slack += 2 * fabs(k) * dk + dk * dk;
                    }
                    if (d > 1 + slack) return false;
                }
            }
            break;
        }
        case COND_TYPE_TERNARY: {
            auto p = (const struct CondTernary *) a->cond, q = (const struct CondTernary *) b->cond;
            if (p->length != q->length) return false;
            for (int i = 0; i < p->length; ++i)
                if (p->string[i] != '#' && p->string[i] != q->string[i]) return false;
            break;
        }
        default: return false;
    }
    if (x->act->type != ACT_TYPE_INTEGER) return false;
    return ((const struct ActInteger *) a->act)->action == ((const struct ActInteger *) b->act)->action;
}

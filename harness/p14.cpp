// P14: networks against an independent evaluation of the same layers, and one
// training step against the numerical gradient of that evaluation.
#include "mon.h"
int n_cases(bool t) { return t ? 120000 : 14000; }

static std::string where;
struct TNet {
    ONet n;
    std::vector<Vec> mask, off; // frozen random layers of the last training pass
    Vec run(const Vec &in, bool train, int upto = -1)
    {
        Vec v = in;
        n.acts.clear();
        const int m = upto < 0 ? (int) n.l.size() : upto;
        for (int i = 0; i < m; ++i) {
            n.acts.push_back(v);
            if (train && !mask[i].empty()) { for (size_t k = 0; k < v.size(); ++k) v[k] = v[k] * mask[i][k] + off[i][k]; }
            else v = o_forward(n.l[i], v);
        }
        return v;
    }
};
static std::vector<struct Layer *> layers(const struct Net *n)
{
    std::vector<struct Layer *> v;
    for (const struct Llist *it = n->tail; it; it = it->prev) v.push_back(it->layer);
    return v;
}
static void shape(const struct Net *n)
{
    auto v = layers(n);
    CHECK((int) v.size() == n->n_layers, "shape", "the network counts %d layers, it has %zu; %s", n->n_layers, v.size(), where.c_str());
    for (size_t i = 0; i < v.size(); ++i) {
        const struct Layer *l = v[i];
        if (i) CHECK(l->n_inputs == v[i - 1]->n_outputs, "shape", "layer %zu takes %d inputs, the layer before gives %d; %s", i, l->n_inputs, v[i - 1]->n_outputs, where.c_str());
        if (l->type == CONVOLUTIONAL) {
            const int w = (l->width + 2 * l->pad - l->size) / l->stride + 1, h = (l->height + 2 * l->pad - l->size) / l->stride + 1;
            CHECK(l->out_w == w && l->out_h == h && l->n_outputs == w * h * l->n_filters, "shape", "convolution of %dx%dx%d with size %d stride %d pad %d gives %dx%d, %d outputs; %s", l->width, l->height, l->channels, l->size, l->stride, l->pad, l->out_w, l->out_h, l->n_outputs, where.c_str());
            CHECK(l->n_weights == l->channels * l->n_filters * l->size * l->size, "shape", "convolution has %d weights; %s", l->n_weights, where.c_str());
        }
        if (l->type == CONNECTED) CHECK(l->n_weights == l->n_inputs * l->n_outputs && l->n_biases == l->n_outputs, "shape", "connected layer %dx%d has %d weights; %s", l->n_inputs, l->n_outputs, l->n_weights, where.c_str());
    }
}

// image layers in the middle of a stack, so that gradients pass through them
static std::string image_stack(Rng &r, int &n_in, int n_out)
{
    std::string s;
    int k = 0, h = r.range(2, 4), w = r.range(2, 4), ch = r.range(1, 2);
    auto add = [&](const std::string &b) { if (k) s += ","; s += fmt("\"layer_%d\":{", k++) + b + "}"; };
    auto learn = [&]() {
        return fmt(",\"evolve_weights\":true,\"evolve_functions\":false,\"evolve_connect\":%s,\"evolve_neurons\":false,\"sgd_weights\":%s,\"eta\":%s,\"evolve_eta\":false,\"momentum\":%s,\"decay\":%s",
            jb(r.chance(0.3)).c_str(), jb(r.chance(0.9)).c_str(), num(r.uni(0.01, 0.3)).c_str(), num(r.chance(0.5) ? 0 : r.uni(0, 0.9)).c_str(), num(r.chance(0.5) ? 0 : r.uni(0, 0.05)).c_str());
    };
    auto fn = [&]() { return std::string(r.pick<const char *>({ "logistic", "tanh", "linear", "gaussian", "sin", "cos", "softplus", "loggy", "leaky", "selu" })); };
    n_in = h * w * ch;
    for (int i = 0, m = r.range(2, 4); i < m; ++i) {
        const std::string dims = fmt(",\"height\":%d,\"width\":%d,\"channels\":%d", h, w, ch);
        const int t = i ? r.below(4) : 0;
        if (t <= 1) {
            const int size = r.range(1, std::min(3, std::min(h, w))), pad = size > 1 ? r.below(2) : 0, stride = size > 1 ? r.range(1, 2) : 1, nf = r.range(1, 3);
            add(fmt("\"type\":\"convolutional\",\"activation\":\"%s\",\"n_init\":%d,\"size\":%d,\"stride\":%d,\"pad\":%d", fn().c_str(), nf, size, stride, pad) + dims + learn());
            h = (h + 2 * pad - size) / stride + 1; w = (w + 2 * pad - size) / stride + 1; ch = nf;
        } else if (t == 2) {
            const int size = r.range(1, std::min(2, std::min(h, w))), pad = r.below(2) * (size > 1), stride = r.range(1, 2);
            add(fmt("\"type\":\"maxpool\",\"size\":%d,\"stride\":%d,\"pad\":%d", size, stride, pad) + dims);
            h = (h + pad - size) / stride + 1; w = (w + pad - size) / stride + 1;
        } else if (h * w * ch < 40) {
            const int stride = r.range(1, 2);
            add(fmt("\"type\":\"upsample\",\"stride\":%d", stride) + dims);
            h *= stride; w *= stride;
        }
    }
    if (r.chance(0.4)) add(fmt("\"type\":\"avgpool\",\"height\":%d,\"width\":%d,\"channels\":%d", h, w, ch));
    add(fmt("\"type\":\"connected\",\"activation\":\"%s\",\"n_init\":%d", fn().c_str(), n_out) + learn());
    return "{" + s + "}";
}

void run_case(Ctx &c)
{
    Rng &r = c.rng;
    GenOpts o;
    o.conds = { "dummy" };
    o.preds = { "neural" };
    o.x_max = r.chance(0.5) ? 16 : 6;
    o.y_max = 4;
    o.big_nets = r.chance(0.3);
    o.pop_max = 10;
    o.pop_init = 0;
    o.recurrent_layers = r.chance(0.5);
    o.stochastic_layers = r.chance(0.3);
    Cfg cfg = gen_cfg(r, o);
    if (r.chance(0.35)) {
        const size_t p = cfg.json.find(",\"prediction\"");
        cfg.json = cfg.json.substr(0, p) + ",\"prediction\":{\"type\":\"neural\",\"args\":" + image_stack(r, cfg.x_dim, cfg.y_dim) + "}}";
        count("image_stacks");
    }
    rand_init_seed(cfg.seed);
    where = cfg.brief();
    { const size_t p = cfg.json.find("\"prediction\""); if (p != std::string::npos) where += " " + cfg.json.substr(p); }
    Sys s(cfg);
    struct XCSF *x = &s.x;
    struct Cl *k = (struct Cl *) malloc(sizeof(struct Cl));
    cl_init(x, k, 1, 1);
    if (r.chance(0.7)) cl_rand(x, k);
    else { Vec in(cfg.x_dim, 0.5); cl_cover(x, k, in.data(), 0); }
    const int muts = r.chance(0.5) ? r.range(1, 6) : 0;
    for (int i = 0; i < muts; ++i) cl_mutate(x, k);
    struct Net *net = &((struct PredNeural *) k->pred)->net;
    auto ls = layers(net);
    if (r.chance(0.3))
        for (auto *l : ls)
            if (l->type == CONNECTED || l->type == CONVOLUTIONAL) {
                const double sd = r.pick({ 0.3, 0.3, 2.0, 8.0 });
                for (int i = 0; i < l->n_weights; ++i) if (l->weight_active[i]) l->weights[i] = o_clamp(r.gauss() * sd, -10, 10);
                for (int i = 0; i < l->n_biases; ++i) l->biases[i] = o_clamp(r.gauss() * sd, -10, 10);
            }
    shape(net);
    for (auto *l : ls) { static const char *N[] = { "connected", "dropout", "noise", "softmax", "recurrent", "lstm", "maxpool", "convolutional", "avgpool", "upsample" }; if (l->type >= 0 && l->type < 10) count(fmt("layer_%s", N[l->type]).c_str()); }
    bool mem = false, soft_other = false;
    int ns = 0;
    for (auto *l : ls) { mem |= l->type == RECURRENT || l->type == LSTM; if (l->type == SOFTMAX) { ++ns; soft_other |= l->scale != 1; } }
    if (ns && !soft_other) count("unit_softmax");
    if (ns && r.chance(0.15)) { // sharp: differences of many hundreds in the exponent
        for (auto *l : ls) if (l->type == SOFTMAX) l->scale = r.uni(0.005, 0.05);
        soft_other = true;
        count("sharp_softmax");
    } else if (ns && r.chance(0.6)) { for (auto *l : ls) if (l->type == SOFTMAX) l->scale = 1; soft_other = false; }
    // ---- inference over a sequence of inputs
    TNet t;
    t.n = ONet(net);
    t.mask.assign(ls.size(), Vec());
    t.off = t.mask;
    const double sc = r.pick({ 1.0, 1.0, 10.0 });
    for (int i = 0, m = r.range(1, 6); i < m; ++i) {
        Vec in(cfg.x_dim), in0;
        for (double &v : in) v = r.chance(0.1) ? 0 : r.uni(-sc, sc);
        in0 = in;
        const Vec want = t.run(in, false);
        neural_propagate(net, in.data(), false);
        CHECK(in == in0, "input", "propagating changed the input; %s", where.c_str());
        Vec got(net->n_outputs);
        for (int j = 0; j < net->n_outputs; ++j) got[j] = neural_output(net, j);
        count("inferences");
        // compare layer by layer so that a deviation is located
        bool bad = false;
        for (size_t q = 0; q < ls.size() && !bad; ++q) {
            const double *ov = layer_output(ls[q]);
            const Vec &w = q + 1 < ls.size() ? t.n.acts[q + 1] : want;
            for (int j = 0; j < ls[q]->n_outputs && !bad; ++j)
                if (!close(ov[j], w[j], 1e-8, 1e-9 * (1 + sc))) {
                    bad = true;
                    viol("forward", "layer %zu (%s) output %d is %.15g, its definition gives %.15g; step %d; %s", q, layer_type_as_string(ls[q]->type), j, ov[j], w[j], i, where.c_str());
                }
        }
        for (int j = 0; j < net->n_outputs && !bad; ++j)
            if (!close(got[j], want[j], 1e-8, 1e-9 * (1 + sc))) { bad = true; viol("output", "network output %d is %.15g, composition gives %.15g; %s", j, got[j], want[j], where.c_str()); }
        if (bad) { cl_free(x, k); return; }
        if (ls.back()->type == SOFTMAX) {
            double sum = 0;
            bool neg = false;
            for (double v : got) { sum += v; neg |= v < 0; }
            CHECK(!neg && close(sum, 1, 1e-9), "softmax", "softmax outputs sum to %.15g; %s", sum, where.c_str());
        }
        if (!mem) {
            neural_propagate(net, in.data(), false);
            for (int j = 0; j < net->n_outputs; ++j) CHECK(same_bits(got[j], neural_output(net, j)), "repeat", "the same input gives %.17g then %.17g; %s", got[j], neural_output(net, j), where.c_str());
        }
    }
    // ---- networks with memory: learning keeps them computing what they describe
    if (mem && !SH->n_viol)
        for (int st = 0, m = r.range(1, 4); st < m; ++st) {
            Vec in(cfg.x_dim), y(cfg.y_dim);
            for (double &v : in) v = r.uni(-1, 1);
            for (double &v : y) v = r.uni(-1, 1);
            neural_propagate(net, in.data(), true);
            neural_learn(net, y.data(), in.data());
            t.n = ONet(net);
            const Vec want = t.run(in, false);
            neural_propagate(net, in.data(), false);
            count("recurrent_learning_steps");
            for (int j = 0; j < net->n_outputs; ++j)
                CHECK(close(neural_output(net, j), want[j], 1e-8, 1e-9), "forward", "after learning, output %d is %.15g, its definition gives %.15g; %s", j, neural_output(net, j), want[j], where.c_str());
        }
    // ---- random layers while training
    for (size_t q = 0; q < ls.size(); ++q) {
        struct Layer *l = ls[q];
        if (l->type != DROPOUT && l->type != NOISE) continue;
        const int reps = 150;
        long long hit = 0, tot = 0;
        double sum = 0, sq = 0;
        Vec in(l->n_inputs);
        net->train = true;
        for (int i = 0; i < reps; ++i) {
            for (double &v : in) v = r.uni(0.5, 2);
            layer_forward(l, net, in.data());
            const double *ov = layer_output(l);
            for (int j = 0; j < l->n_inputs; ++j) {
                ++tot;
                if (l->type == DROPOUT) {
                    if (ov[j] == 0) ++hit;
                    else CHECK(close(ov[j], in[j] / (1 - l->probability), 1e-12), "dropout", "dropout with probability %g turned %.15g into %.15g; %s", l->probability, in[j], ov[j], where.c_str());
                } else if (ov[j] != in[j]) { ++hit; sum += ov[j] - in[j]; sq += (ov[j] - in[j]) * (ov[j] - in[j]); }
            }
        }
        count("random_layers");
        const double p = l->probability, sd = sqrt(p * (1 - p) * tot);
        if (l->type == DROPOUT || l->scale > 0)
            CHECK(fabs(hit - p * tot) <= 6 * sd + 1, "rate", "%s with probability %g acted on %lld of %lld values; %s", l->type == DROPOUT ? "dropout" : "noise", p, hit, tot, where.c_str());
        if (l->type == NOISE && l->scale > 0 && hit > 50) {
            CHECK(fabs(sum / hit) <= 6 * l->scale / sqrt((double) hit), "noise", "noise of scale %g has mean %g over %lld; %s", l->scale, sum / hit, hit, where.c_str());
            CHECK(fabs(sqrt(sq / hit) / l->scale - 1) <= 6 / sqrt(2.0 * hit) + 0.01, "noise", "noise of scale %g has deviation %g over %lld; %s", l->scale, sqrt(sq / hit), hit, where.c_str());
        }
    }
    // ---- learning
    if (mem || soft_other || (ns && ls.back()->type != SOFTMAX)) { count("histories"); cl_free(x, k); return; }
    std::map<size_t, Vec> vw, vb; // running updates
    const int steps = r.range(1, 4);
    for (int st = 0; st < steps && !SH->n_viol; ++st) {
        Vec in(cfg.x_dim), y(cfg.y_dim);
        for (double &v : in) v = r.chance(0.1) ? 0 : r.uni(-1, 1);
        const double ys = r.pick({ 1.0, 3.0 });
        for (double &v : y) v = r.uni(-ys, ys);
        if (ns) { for (double &v : y) v = 0; y[r.below(cfg.y_dim)] = 1; }
        t.n = ONet(net);
        neural_propagate(net, in.data(), true);
        bool sat = false;
        for (size_t q = 0; q < ls.size(); ++q) {
            struct Layer *l = ls[q];
            t.mask[q].clear();
            t.off[q].clear();
            if (l->type != DROPOUT && l->type != NOISE) continue;
            const double *iv = q ? layer_output(ls[q - 1]) : in.data(), *ov = layer_output(l);
            t.mask[q].assign(l->n_inputs, 1);
            t.off[q].assign(l->n_inputs, 0);
            for (int j = 0; j < l->n_inputs; ++j) {
                if (l->type == NOISE) t.off[q][j] = ov[j] - iv[j];
                else if (iv[j] == 0) sat = true; // cannot tell whether it was dropped
                else t.mask[q][j] = ov[j] == 0 ? 0 : 1 / (1 - l->probability);
            }
        }
        const Vec out = t.run(in, true);
        for (int j = 0; j < net->n_outputs; ++j)
            if (!close(out[j], neural_output(net, j), 1e-8, 1e-9)) { viol("forward", "training pass: output %d is %.15g, expected %.15g; %s", j, neural_output(net, j), out[j], where.c_str()); cl_free(x, k); return; }
        // values at the limit of the neuron state have no usable gradient
        for (size_t q = 0; q < ls.size(); ++q) { // ties in a maximum
            if (ls[q]->type != MAXPOOL) continue;
            Vec v = t.n.acts[q];
            std::sort(v.begin(), v.end());
            for (size_t j = 1; j < v.size(); ++j) if (v[j] - v[j - 1] < 2e-3 && ls[q]->size > 1) sat = true;
        }
        // neither have values at the bend of a piecewise function
        for (auto &l : t.n.l) for (double v : l.state) if (fabs(v) > 99 || ((l.fn == 1 || l.fn == 8 || l.fn == 9) && fabs(v) < 2e-3)) sat = true;
        Vec res(out.size());
        for (size_t j = 0; j < out.size(); ++j) res[j] = y[j] - out[j];
        const int upto = (int) ls.size() - (ns ? 1 : 0);
        auto obj = [&]() { Vec v = t.run(in, true, upto); double e = 0; for (size_t j = 0; j < v.size(); ++j) e += res[j] * v[j]; return e; };
        struct Want { size_t q; int i; bool bias; double g; bool sure; };
        std::vector<Want> ws;
        for (size_t q = 0; q < ls.size(); ++q) {
            OLayer &l = t.n.l[q];
            if (l.type != CONNECTED && l.type != CONVOLUTIONAL) continue;
            if (vw[q].empty()) { vw[q].assign(l.wt.size(), 0); vb[q].assign(l.b.size(), 0); }
            for (int b = 0; b < 2; ++b) {
                Vec &pv = b ? l.b : l.wt;
                for (size_t i = 0; i < pv.size(); ++i) {
                    const double w0 = pv[i];
                    double g[2];
                    for (int hh = 0; hh < 2; ++hh) {
                        const double h = hh ? 2e-4 : 4e-4;
                        pv[i] = w0 + h; const double a = obj();
                        pv[i] = w0 - h; const double d = obj();
                        g[hh] = (a - d) / (2 * h);
                    }
                    pv[i] = w0;
                    ws.push_back({ q, (int) i, b == 1, (4 * g[1] - g[0]) / 3, fabs(g[1] - g[0]) < 1e-4 * (1 + fabs(g[0])) });
                }
            }
        }
        std::vector<Vec> w0(ls.size()), b0(ls.size());
        for (size_t q = 0; q < ls.size(); ++q) { w0[q] = t.n.l[q].wt; b0[q] = t.n.l[q].b; }
        Vec in0 = in, y0 = y;
        neural_learn(net, y.data(), in.data());
        CHECK(in == in0 && y == y0, "input", "learning changed its input or target; %s", where.c_str());
        if (sat) { count("saturated"); break; }
        count("learning_steps");
        bool stop = false;
        for (auto &w : ws) {
            struct Layer *l = ls[w.q];
            const double old = w.bias ? b0[w.q][w.i] : w0[w.q][w.i];
            const double now = w.bias ? l->biases[w.i] : l->weights[w.i];
            if (!w.bias && !l->weight_active[w.i]) { CHECK(now == 0, "inactive", "an inactive connection has weight %.15g; %s", now, where.c_str()); count("inactive_weights"); continue; }
            if (!(l->options & LAYER_SGD_WEIGHTS)) { CHECK(same_bits(now, old), "frozen", "a weight of a layer without gradient descent went from %.15g to %.15g; %s", old, now, where.c_str()); count("frozen_weights"); continue; }
            double &v = w.bias ? vb[w.q][w.i] : vw[w.q][w.i];
            if (!w.sure) { stop = true; count("kinks"); continue; }
            v += w.g;
            if (!w.bias) v -= l->decay * old;
            const double want = o_clamp(old + l->eta * v, -10, 10);
            v *= l->momentum;
            count("gradients");
            if (!close(now - old, want - old, 2e-5, 1e-8 + l->eta * 2e-6 * (1 + fabs(w.g)))) {
                viol(w.bias ? "bias-step" : "weight-step", "layer %zu (%s) %s %d moved by %.12g, the gradient step is %.12g (eta %g momentum %g decay %g); training step %d; %s", w.q, layer_type_as_string(l->type), w.bias ? "bias" : "weight", w.i, now - old, want - old, l->eta, l->momentum, l->decay, st, where.c_str());
                stop = true;
                break;
            }
        }
        Hash h;
        for (auto &w : ws) h.d(w.g);
        distinct(h.h);
        if (stop) break; // a kink leaves the running update unknown
    }
    count("histories");
    sample("%s; %d mutations, %zu layers", where.c_str(), muts, ls.size());
    cl_free(x, k);
}

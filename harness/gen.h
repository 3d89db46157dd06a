// Random valid configurations (as JSON text, the documented interface), data
// sets, and a RAII system.
#pragma once
#include "core.h"

struct GenOpts {
    int x_min = 1, x_max = 5;
    int y_min = 1, y_max = 3;
    int a_min = 1, a_max = 1; // actions; >1 => reinforcement learning style
    int pop_min = 5, pop_max = 60;
    int crowd_max = 400;
    std::vector<std::string> conds, preds, acts; // empty: all
    bool stochastic_layers = false;              // dropout / noise
    bool recurrent_layers = true;
    bool image_layers = true;
    bool neural = true;          // network representations at all
    bool allow_zero_fit = false; // init_fitness / fit_reduc of zero
    bool big_nets = false;
    int threads = 1;
    int pop_init = -1;  // -1 random
    int subsume = -1;   // -1 random
    int compaction = -1;
    int stateful = -1;
    int pred_reset = -1;
    double p_theta_low = 0.7; // probability of a small EA threshold
    bool all_losses = true;
    bool evolve_layers = true;
    bool idle = true; // learning settings on layers that do not learn
    bool wide = true; // occasionally many inputs / outputs / bits / actions
};

inline std::string jb(bool b) { return b ? "true" : "false"; }

struct Cfg {
    int x_dim, y_dim, n_actions;
    double lo = 0, hi = 1; // input range
    std::string cond, pred, act, loss;
    std::string json;
    uint32_t seed;
    bool recurrent = false; // network with memory somewhere, or stateful graph
    bool stochastic = false;
    uint64_t hash() const { Hash h; h.str(json); h.i(x_dim); h.i(y_dim); h.i(n_actions); return h.h; }
    std::string brief() const
    {
        return fmt("x_dim=%d y_dim=%d n_actions=%d cond=%s pred=%s act=%s loss=%s",
                   x_dim, y_dim, n_actions, cond.c_str(), pred.c_str(), act.c_str(), loss.c_str());
    }
};

static const char *ACTS_ANY[] = { "logistic", "relu", "tanh", "linear", "gaussian", "sin",
                                  "cos", "softplus", "leaky", "selu", "loggy" };

struct LayerGen {
    Rng &r;
    const GenOpts &o;
    Cfg &c;
    int cnt = 0;
    std::string out;
    void add(const std::string &body)
    {
        if (cnt) out += ",";
        out += fmt("\"layer_%d\":{", cnt++) + body + "}";
    }
    std::string sgd(bool sgd_on)
    {
        std::string s = ",\"sgd_weights\":" + jb(sgd_on);
        if (sgd_on) {
            const bool ev = o.evolve_layers && r.chance(0.4);
            s += ",\"eta\":" + num(r.uni(0.001, 0.2));
            s += ",\"evolve_eta\":" + jb(ev);
            if (ev) s += ",\"eta_min\":" + num(r.uni(0.00001, 0.001));
            s += ",\"momentum\":" + num(r.chance(0.5) ? 0 : r.uni(0, 0.9));
            s += ",\"decay\":" + num(r.chance(0.6) ? 0 : r.uni(0, 0.01));
        } else if (o.idle && r.chance(0.2)) { // settings that are without effect here
            const bool ev = o.evolve_layers && r.chance(0.5);
            s += ",\"eta\":" + num(r.uni(0.001, 0.2)) + ",\"momentum\":" + num(r.uni(0, 0.9)) + ",\"decay\":" + num(r.uni(0, 0.01)) + ",\"evolve_eta\":" + jb(ev);
            if (ev) s += ",\"eta_min\":" + num(r.uni(0.00001, 0.0005));
        }
        return s;
    }
    std::string evo(int n_init, bool neurons_ok)
    {
        const bool on = o.evolve_layers;
        const bool en = on && neurons_ok && r.chance(0.5);
        std::string s = ",\"evolve_weights\":" + jb(on && r.chance(0.7)) +
            ",\"evolve_functions\":" + jb(on && r.chance(0.2)) +
            ",\"evolve_connect\":" + jb(on && r.chance(0.4)) +
            ",\"evolve_neurons\":" + jb(en);
        if (en)
            s += fmt(",\"n_max\":%d,\"max_neuron_grow\":%d", n_init + (o.wide && r.chance(0.1) ? r.range(5, 20) : r.below(5)), o.wide && r.chance(0.1) ? r.range(4, 12) : r.range(1, 3));
        return s;
    }
    std::string fn(bool out_layer, bool out_needs_half)
    {
        if (out_layer && out_needs_half)
            return std::string(r.pick<const char *>({ "linear", "logistic", "linear" }));
        if (out_layer)
            return std::string(r.pick<const char *>({ "linear", "logistic", "tanh", "linear", "softplus" }));
        return ACTS_ANY[r.below(11)];
    }
    void noisy(const std::string &dims)
    {
        c.stochastic = true;
        if (r.chance(0.5)) add(fmt("\"type\":\"dropout\",\"probability\":%s", num(r.uni(0, 0.6)).c_str()) + dims);
        else add(fmt("\"type\":\"noise\",\"probability\":%s,\"scale\":%s", num(r.uni(0, 1)).c_str(), num(r.uni(0, 0.5)).c_str()) + dims);
        count("gen_noisy_input");
    }
    // stack from n_in to n_out; half: output 0 must be able to cross 0.5
    std::string stack(int n_in, int n_out, bool half, bool learn, bool softmax_end)
    {
        const bool sg = learn && r.chance(0.85);
        bool image = false;
        if (o.image_layers && n_in >= 4 && r.chance(0.3)) {
            int h = 1, w = n_in, ch = 1;
            if (n_in % 2 == 0 && r.chance(0.7)) { h = 2; w = n_in / 2; }
            if (n_in % 4 == 0 && r.chance(0.4)) { ch = 2; h = 2; w = n_in / 4; }
            if (n_in == 9) { h = 3; w = 3; ch = 1; }
            if (n_in == 18) { h = 3; w = 3; ch = 2; }
            if (n_in == 16 && r.chance(0.7)) { h = 4; w = 4; ch = 1; }
            if (n_in == 20 && r.chance(0.5)) { h = 4; w = 5; ch = 1; }
            const int n_img = r.pick({ 1, 1, 2, 2, 3 });
            bool first = true;
            if (o.stochastic_layers && r.chance(0.2)) { // noisy input image; without dimensions it is one row
                std::string d = fmt(",\"height\":%d,\"width\":%d,\"channels\":%d", h, w, ch);
                if (r.chance(0.4)) { d = ""; h = 1; w = n_in; ch = 1; }
                noisy(d);
                first = false;
            }
            for (int li = 0; li < n_img; ++li) {
                std::string dims;
                if (li == 0 && first) dims = fmt(",\"height\":%d,\"width\":%d,\"channels\":%d", h, w, ch);
                const int k = r.chance(0.5) ? 0 : r.range(1, 3);
                const int mn = std::min(h, w);
                if (k == 0) {
                    const int size = r.range(1, std::max(1, std::min(3, mn)));
                    const int pad = r.below(3) % (size > 1 ? 3 : 2);
                    const int stride = r.range(1, 3);
                    const int nf = r.range(1, 5);
                    add(fmt("\"type\":\"convolutional\",\"activation\":\"%s\"", fn(false, false).c_str()) +
                        dims + fmt(",\"size\":%d,\"stride\":%d,\"pad\":%d,\"n_init\":%d", size, stride, pad, nf) +
                        evo(nf, true) + sgd(sg));
                    h = (h + 2 * pad - size) / stride + 1;
                    w = (w + 2 * pad - size) / stride + 1;
                    ch = nf;
                } else if (k == 1) {
                    const int size = r.range(1, std::max(1, std::min(2, mn)));
                    const int pad = r.below(2) * (size > 1), stride = r.range(1, 2);
                    add("\"type\":\"maxpool\"" + dims + fmt(",\"size\":%d,\"stride\":%d,\"pad\":%d", size, stride, pad));
                    h = (h + pad - size) / stride + 1;
                    w = (w + pad - size) / stride + 1;
                } else if (k == 2) {
                    add("\"type\":\"avgpool\"" + dims);
                    h = w = 1;
                } else {
                    const int stride = h * w * ch > 60 ? 1 : r.range(1, 2);
                    add("\"type\":\"upsample\"" + dims + fmt(",\"stride\":%d", stride));
                    h *= stride;
                    w *= stride;
                }
                if (o.stochastic_layers && r.chance(0.15)) {
                    c.stochastic = true;
                    add(fmt("\"type\":\"dropout\",\"probability\":%s", num(r.uni(0, 0.95)).c_str()));
                }
                if (li) count("gen_stacked_image_layer");
            }
            image = true;
            count("gen_image_layer");
        }
        if (!image && o.stochastic_layers && r.chance(0.1)) noisy(""); // noisy input
        int hidden = o.wide && r.chance(0.04) ? r.range(3, 5) : r.range(0, o.big_nets ? 3 : 2);
        for (int i = 0; i < hidden; ++i) {
            const int n = o.wide && r.chance(0.05) ? r.range(6, 40) : r.range(1, o.big_nets ? 12 : 5);
            const double t = r.uni();
            if (o.recurrent_layers && t < 0.12) {
                add(fmt("\"type\":\"recurrent\",\"activation\":\"%s\",\"n_init\":%d", fn(false, false).c_str(), n) +
                    evo(n, true) + sgd(sg));
                c.recurrent = true;
                count("gen_recurrent_layer");
            } else if (o.recurrent_layers && t < 0.22) {
                add(fmt("\"type\":\"lstm\",\"activation\":\"%s\",\"recurrent_activation\":\"%s\",\"n_init\":%d",
                        fn(false, false).c_str(), fn(false, false).c_str(), n) + evo(n, true) + sgd(sg));
                c.recurrent = true;
                count("gen_lstm_layer");
            } else {
                add(fmt("\"type\":\"connected\",\"activation\":\"%s\",\"n_init\":%d", fn(false, false).c_str(), n) +
                    evo(n, true) + sgd(sg));
            }
            if (o.image_layers && o.wide && r.chance(0.04)) { // neurons seen as an image of one row
                const int k = r.below(4);
                if (k == 0) add("\"type\":\"avgpool\"");
                else if (k == 1) add(fmt("\"type\":\"maxpool\",\"size\":1,\"stride\":%d,\"pad\":0", r.range(1, 2)));
                else if (k == 2) add(fmt("\"type\":\"upsample\",\"stride\":%d", r.range(1, 2)));
                else {
                    const int nf = r.range(1, 3);
                    add(fmt("\"type\":\"convolutional\",\"activation\":\"%s\",\"size\":1,\"stride\":1,\"pad\":0,\"n_init\":%d", fn(false, false).c_str(), nf) + evo(nf, true) + sgd(sg));
                }
                count("gen_image_of_neurons");
            }
            if (o.stochastic_layers && r.chance(0.4)) {
                c.stochastic = true;
                if (r.chance(0.5)) add(fmt("\"type\":\"dropout\",\"probability\":%s", num(r.chance(0.3) ? r.uni(0.5, 0.95) : r.uni(0, 0.5)).c_str()));
                else add(fmt("\"type\":\"noise\",\"probability\":%s,\"scale\":%s", num(r.uni(0, 1)).c_str(), num(r.uni(0, 0.5)).c_str()));
                count("gen_stochastic_layer");
            }
        }
        add(fmt("\"type\":\"connected\",\"activation\":\"%s\",\"n_init\":%d", fn(true, half).c_str(), n_out) +
            evo(n_out, false) + sgd(sg));
        if (o.stochastic_layers && !softmax_end && r.chance(0.05)) {
            c.stochastic = true;
            if (r.chance(0.5)) add(fmt("\"type\":\"dropout\",\"probability\":%s", num(r.uni(0, 0.5)).c_str()));
            else add(fmt("\"type\":\"noise\",\"probability\":%s,\"scale\":%s", num(r.uni(0, 1)).c_str(), num(r.uni(0, 0.3)).c_str()));
        }
        if (softmax_end) add(fmt("\"type\":\"softmax\",\"scale\":%s", num(r.chance(0.2) ? r.uni(0.02, 0.2) : r.uni(0.5, 2)).c_str()));
        return "{" + out + "}";
    }
};

inline Cfg gen_cfg(Rng &r, const GenOpts &o)
{
    Cfg c;
    c.x_dim = r.range(o.x_min, o.x_max);
    c.y_dim = r.range(o.y_min, o.y_max);
    c.n_actions = r.range(o.a_min, o.a_max);
    if (o.wide) {
        if (o.x_min < o.x_max && o.x_max >= 4 && r.chance(0.08)) c.x_dim = r.chance(0.15) ? r.range(25, 70) : r.range(6, 24);
        if (o.y_min < o.y_max && o.y_max >= 3 && r.chance(0.08)) c.y_dim = r.chance(0.25) ? r.range(9, 20) : r.range(4, 8);
        if (o.a_min < o.a_max && o.a_max >= 3 && r.chance(0.08)) c.n_actions = r.chance(0.25) ? r.range(12, 40) : r.range(5, 11);
    }
    if (c.n_actions > 1) c.y_dim = 1;
    if (r.chance(0.25)) { c.lo = -1; c.hi = 1; }
    else if (r.chance(0.1)) { c.lo = -5; c.hi = 10; }
    std::vector<std::string> cs = o.conds, ps = o.preds, as = o.acts;
    if (cs.empty()) {
        cs = { "dummy", "ternary", "hyperrectangle_csr", "hyperrectangle_csr", "hyperrectangle_ubr", "hyperrectangle_ubr",
               "hyperellipsoid", "tree_gp", "dgp" };
        if (o.neural) { cs.push_back("neural"); cs.push_back("rule_neural"); }
        cs.push_back("rule_dgp");
    }
    if (ps.empty()) {
        ps = { "constant", "nlms_linear", "nlms_quadratic", "rls_linear", "rls_quadratic" };
        if (o.neural) { ps.push_back("neural"); ps.push_back("neural"); }
    }
    if (as.empty()) {
        as = { "integer", "integer" };
        if (o.neural) as.push_back("neural");
    }
    c.cond = r.pick(cs);
    c.pred = r.pick(ps);
    if (c.x_dim > 8 && c.pred == "rls_quadratic" && std::find(ps.begin(), ps.end(), "rls_linear") != ps.end()) c.pred = "rls_linear";
    c.act = c.n_actions > 1 ? r.pick(as) : "integer";
    // (covering draws networks and graphs until one advocates the wanted action)
    if (c.act == "neural" || c.cond == "rule_dgp" || c.cond == "rule_neural") c.n_actions = std::min(c.n_actions, 9);
    if (c.cond == "rule_dgp" || c.cond == "rule_neural") c.act = "integer";
    if (c.cond == "tree_gp" || c.cond == "dgp" || c.cond == "rule_dgp") {
        if (r.chance(0.7)) { c.lo = 0; c.hi = 1; }
    }
    // losses
    std::vector<std::string> ls = { "mae", "mse", "rmse", "huber" };
    if (o.all_losses && c.n_actions == 1) {
        if (c.y_dim > 1) { ls.push_back("onehot"); ls.push_back("log"); }
        else ls.push_back("binary_log");
    }
    c.loss = r.pick(ls);
    c.seed = (uint32_t) (r.u64() & 0x3fffffff);
    const bool stateful = o.stateful < 0 ? r.chance(0.5) : o.stateful;
    if (stateful && (c.cond == "dgp" || c.cond == "rule_dgp")) c.recurrent = true;

    // many general and reliable rules at once
    const bool flock = o.wide && o.subsume != 0 && o.pop_max >= 25 && o.pop_init != 0 && (c.cond == "ternary" || c.cond.compare(0, 6, "hyperr") == 0) && r.chance(0.05);
    std::string j = "{";
    j += fmt("\"omp_num_threads\":%d", o.threads);
    j += fmt(",\"random_state\":%u", c.seed);
    j += ",\"pop_init\":" + jb(flock || (o.pop_init < 0 ? r.chance(0.4) : o.pop_init));
    j += fmt(",\"max_trials\":%d,\"perf_trials\":%d", r.range(1, 50), r.range(1, 20));
    const bool crowd = flock || (o.wide && o.pop_max >= 40 && r.chance(0.03));
    j += fmt(",\"pop_size\":%d", std::max(crowd ? r.range(o.pop_max, std::max(o.pop_max, o.crowd_max)) : r.range(o.pop_min, o.pop_max), c.n_actions > 4 ? 4 * c.n_actions : c.n_actions + 1));
    j += ",\"loss_func\":\"" + c.loss + "\"";
    if (c.loss == "huber") j += ",\"huber_delta\":" + num(r.uni(0.05, 2));
    j += ",\"gamma\":" + num(r.chance(0.2) ? r.pick({ 0.0, 1.0 }) : r.uni(0, 1));
    j += fmt(",\"teletransportation\":%d", r.range(1, 20));
    j += ",\"p_explore\":" + num(r.pick({ 0.0, 0.5, 0.9, 1.0 }));
    const bool subs = flock || (o.subsume < 0 ? r.chance(0.5) : o.subsume);
    j += ",\"set_subsumption\":" + jb(subs && !(flock && r.chance(0.7)));
    j += fmt(",\"theta_sub\":%d", flock ? 0 : r.pick({ 0, 1, 2, 5, 20, 100 }));
    j += ",\"e0\":" + num(flock ? 100 : r.chance(0.15) ? r.pick({ 5.0, 100.0, r.uni(0.0005, 2) }) : r.pick({ 0.001, 0.01, 0.1, 0.3, 1.0 }));
    j += ",\"alpha\":" + num(r.chance(0.2) ? r.uni(0, 1) : r.pick({ 0.1, 1.0, 0.5 }));
    j += ",\"nu\":" + num(r.chance(0.2) ? r.uni(0.1, 15) : r.pick({ 1.0, 5.0, 2.5, 10.0 }));
    j += ",\"beta\":" + num(r.chance(0.25) ? r.uni(0.004, 1) : r.pick({ 0.05, 0.1, 0.2, 0.5, 1.0 }));
    j += ",\"delta\":" + num(r.chance(0.2) ? r.uni(0, 1) : r.pick({ 0.1, 0.0, 0.5, 1.0 }));
    j += fmt(",\"theta_del\":%d", r.pick({ 0, 5, 20, 50 }));
    j += ",\"init_fitness\":" + num(o.allow_zero_fit && r.chance(0.2) ? 0 : r.pick({ 0.01, 0.1, 0.001, 1.0 }));
    j += ",\"init_error\":" + num(r.pick({ 0.0, 0.01, 0.5 }));
    j += fmt(",\"m_probation\":%d", r.pick({ 0, 5, 50, 10000 }));
    j += ",\"stateful\":" + jb(stateful);
    j += ",\"compaction\":" + jb(o.compaction < 0 ? r.chance(0.3) : o.compaction);
    // EA
    j += ",\"ea\":{";
    const bool tour = r.chance(0.5);
    j += std::string("\"select_type\":\"") + (tour ? "tournament" : "roulette") + "\"";
    if (tour) j += ",\"select_size\":" + num(r.uni(0.1, 1));
    j += ",\"theta_ea\":" + num(flock || r.chance(o.p_theta_low) ? r.range(0, 4) : r.range(5, 40));
    j += fmt(",\"lambda\":%d", o.wide && r.chance(0.04) ? 2 * r.range(4, 12) : r.pick({ 2, 2, 2, 4, 6 }));
    j += ",\"p_crossover\":" + num(r.pick({ 0.8, 0.0, 1.0, 0.5 }));
    j += ",\"err_reduc\":" + num(r.pick({ 1.0, 0.25, 0.5 }));
    j += ",\"fit_reduc\":" + num(o.allow_zero_fit && r.chance(0.2) ? 0 : r.pick({ 0.1, 1.0, 0.5 }));
    j += ",\"subsumption\":" + jb(subs && (flock || r.chance(0.7)));
    j += ",\"pred_reset\":" + jb(o.pred_reset < 0 ? r.chance(0.25) : o.pred_reset);
    j += "}";
    // condition
    j += ",\"condition\":{\"type\":\"" + c.cond + "\"";
    const std::string mm = ",\"min\":" + num(c.lo) + ",\"max\":" + num(c.hi);
    const double span = c.hi - c.lo;
    if (c.cond == "hyperrectangle_csr" || c.cond == "hyperellipsoid")
        j += ",\"args\":{\"eta\":" + num(r.chance(0.4) ? 0 : r.uni(0, 0.5)) + mm + ",\"spread_min\":" + num(r.uni(0.01, 0.6) * span) + "}";
    else if (c.cond == "hyperrectangle_ubr")
        j += ",\"args\":{\"eta\":" + num(r.chance(0.6) ? 0 : r.uni(0, 0.5)) + mm + ",\"spread_min\":" + num(r.uni(0.01, 0.6) * span) + "}";
    else if (c.cond == "ternary")
        j += fmt(",\"args\":{\"bits\":%d,\"p_dontcare\":%s}", o.wide && r.chance(0.1) ? r.range(7, 40) : r.range(1, 6), num(flock ? 0.85 : r.pick({ 0.0, 0.3, 0.5, 0.9, 1.0 })).c_str());
    else if (c.cond == "tree_gp")
        j += fmt(",\"args\":{\"min_constant\":%s,\"max_constant\":%s,\"n_constants\":%d,\"init_depth\":%d,\"max_len\":%d}",
                 num(c.lo).c_str(), num(c.hi + 1).c_str(), o.wide && r.chance(0.05) ? r.range(121, 600) : r.range(1, 120), o.wide && r.chance(0.25) ? r.range(6, 14) : r.range(1, 5), r.chance(0.1) ? r.range(3, 63) : r.range(64, 10000));
    else if (c.cond == "dgp")
        j += fmt(",\"args\":{\"max_k\":%d,\"max_t\":%d,\"n\":%d,\"evolve_cycles\":%s}",
                 o.wide && r.chance(0.08) ? r.range(5, 12) : r.range(1, 4), o.wide && r.chance(0.08) ? r.range(9, 30) : r.range(1, 8), o.wide && r.chance(0.08) ? r.range(15, 70) : r.range(1, 14), jb(r.chance(0.7)).c_str());
    else if (c.cond == "rule_dgp")
        j += fmt(",\"args\":{\"max_k\":%d,\"max_t\":%d,\"n\":%d,\"evolve_cycles\":%s}",
                 o.wide && r.chance(0.08) ? r.range(5, 12) : r.range(1, 4), o.wide && r.chance(0.08) ? r.range(9, 30) : r.range(1, 8), o.wide && r.chance(0.08) ? r.range(17, 70) : r.range(8, 16), jb(r.chance(0.7)).c_str());
    else if (c.cond == "neural") {
        LayerGen g{ r, o, c };
        j += ",\"args\":" + g.stack(c.x_dim, r.chance(0.85) ? 1 : r.range(2, 3), true, false, false);
    } else if (c.cond == "rule_neural") {
        LayerGen g{ r, o, c };
        const int n = (int) fmax(1, ceil(log2(c.n_actions))) + 1;
        j += ",\"args\":" + g.stack(c.x_dim, n, true, false, false);
    }
    j += "}";
    // action
    if (c.n_actions > 1 && c.cond != "rule_dgp" && c.cond != "rule_neural") {
        j += ",\"action\":{\"type\":\"" + c.act + "\"";
        if (c.act == "neural") {
            LayerGen g{ r, o, c };
            j += ",\"args\":" + g.stack(c.x_dim, c.n_actions, false, false, r.chance(0.5));
        }
        j += "}";
    }
    // prediction
    j += ",\"prediction\":{\"type\":\"" + c.pred + "\"";
    if (c.pred == "nlms_linear" || c.pred == "nlms_quadratic") {
        const bool ev = r.chance(0.5);
        j += ",\"args\":{\"x0\":" + num(r.pick({ 1.0, 0.5, 2.0 })) + ",\"eta\":" + num(r.uni(0.01, 1)) + ",\"evolve_eta\":" + jb(ev);
        if (ev) j += ",\"eta_min\":" + num(r.uni(0.0001, 0.01));
        j += "}";
    } else if (c.pred == "rls_linear" || c.pred == "rls_quadratic") {
        j += ",\"args\":{\"x0\":" + num(r.pick({ 1.0, 0.5 })) + ",\"scale_factor\":" + num(r.pick({ 1000.0, 10.0, 100.0 })) +
            ",\"lambda\":" + num(r.pick({ 1.0, 0.99, 0.9 })) + "}";
    } else if (c.pred == "neural") {
        LayerGen g{ r, o, c };
        const bool sm = c.y_dim > 1 && r.chance(0.3);
        j += ",\"args\":" + g.stack(c.x_dim, c.y_dim, false, true, sm);
    }
    j += "}}";
    c.json = j;
    return c;
}

struct Data {
    int n = 0, xd = 1, yd = 1;
    std::vector<double> x, y;
    Input in() { return Input{ x.data(), y.data(), xd, yd, n }; }
    const double *row(int i) const { return &x[(size_t) i * xd]; }
    const double *tgt(int i) const { return &y[(size_t) i * yd]; }
};
inline void gen_x(Rng &r, const Cfg &c, double *x)
{
    const bool bin = r.chance(0.15);
    for (int i = 0; i < c.x_dim; ++i) {
        const double t = r.uni();
        if (bin || t < 0.04) x[i] = r.chance(0.5) ? c.lo : c.hi;
        else x[i] = r.uni(c.lo, c.hi);
    }
}
inline Data gen_data(Rng &r, const Cfg &c, int n)
{
    Data d;
    d.n = n;
    d.xd = c.x_dim;
    d.yd = c.y_dim;
    d.x.resize((size_t) n * c.x_dim);
    d.y.resize((size_t) n * c.y_dim);
    const int kind = r.below(4);
    const double a = r.uni(-2, 2), b = r.uni(-1, 1);
    for (int i = 0; i < n; ++i) {
        double *x = &d.x[(size_t) i * c.x_dim];
        gen_x(r, c, x);
        double s = 0;
        for (int j = 0; j < c.x_dim; ++j) s += x[j] * (j % 2 ? -1 : 1);
        double *y = &d.y[(size_t) i * c.y_dim];
        if (c.loss == "onehot" || c.loss == "log") {
            for (int j = 0; j < c.y_dim; ++j) y[j] = 0;
            y[(int) (fabs(s) * 7) % c.y_dim] = 1;
        } else if (c.loss == "binary_log") y[0] = s > 0.2;
        else
            for (int j = 0; j < c.y_dim; ++j) {
                if (kind == 0) y[j] = a * s + b + j;
                else if (kind == 1) y[j] = sin(3 * s + j);
                else if (kind == 2) y[j] = s > 0.3 * j ? 1 : 0;
                else y[j] = a;
            }
    }
    return d;
}

// A system under test, built through the documented parameter interface.
struct Sys {
    struct XCSF x;
    Cfg c;
    bool live = false;
    Sys(const Cfg &cfg, unsigned char poison = 0) : c(cfg)
    {
        memset(&x, poison, sizeof x);
        stage("param_init/import %s", c.json.c_str());
        param_init(&x, c.x_dim, c.y_dim, c.n_actions);
        param_json_import(&x, c.json.c_str());
        stage("xcsf_init %s", c.json.c_str());
        xcsf_init(&x);
        live = true;
        stage("running %s x_dim=%d y_dim=%d n_actions=%d", c.json.c_str(), c.x_dim, c.y_dim, c.n_actions);
    }
    void free_()
    {
        if (live) {
            xcsf_free(&x);
            param_free(&x);
            live = false;
        }
    }
    ~Sys() { free_(); }
    Sys(const Sys &) = delete;
};
inline std::vector<struct Cl *> members(const struct Set &s, int cap = 1000000)
{
    std::vector<struct Cl *> v;
    for (const struct Clist *it = s.list; it != NULL && (int) v.size() < cap; it = it->next) v.push_back(it->cl);
    return v;
}

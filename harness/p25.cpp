// P25: every selectable loss and activation against independent formulas, on
// values that include ties, kinks, limits and extreme magnitudes.
#include "mon.h"
#include "oracle.h"
int n_cases(bool t) { return t ? 300000 : 16000; }
static const char *LOSS[] = { "mae", "mse", "rmse", "log", "binary_log", "onehot", "huber" };
static const char *ACT[] = { "logistic", "relu", "tanh", "linear", "gaussian", "sin", "cos", "softplus", "leaky", "selu", "loggy" };
static double val(Rng &r, int k)
{
    switch (r.below(k)) {
        case 0: return r.uni();
        case 1: return r.uni(-1, 1);
        case 2: return r.pick({ 0.0, 1.0, 0.5, -1.0, 1e-300, 1 - 1e-16, 2.2204460492503131e-16, 1e-17 });
        case 3: return r.gauss() * pow(10, r.range(-8, 6));
        case 4: return r.range(-3, 3);
        default: return r.gauss() * pow(10, r.range(-60, 100));
    }
}
void run_case(Ctx &c)
{
    Rng &r = c.rng;
    // losses
    const int y_dim = r.chance(0.3) ? 1 : r.range(2, r.chance(0.2) ? 40 : 8);
    struct XCSF x;
    memset(&x, r.below(256), sizeof x);
    param_init(&x, r.range(1, 4), y_dim, 1);
    const int li = c.idx % 7;
    const std::string name = LOSS[li];
    const double delta = r.pick({ 1.0, 0.1, 2.5, 1e-3, 100.0, r.uni(0.01, 4) });
    // the loss can be selected before or after its parameter
    std::string a = "\"loss_func\":\"" + name + "\"", b = "\"huber_delta\":" + num(delta);
    std::string js = "{" + (r.chance(0.5) ? a + "," + b : b + "," + a) + "}";
    stage("losses: %s y_dim=%d", js.c_str(), y_dim);
    param_json_import(&x, js.c_str());
    for (int k = 0; k < 30; ++k) {
        Vec p(y_dim), y(y_dim);
        const bool prob = name == "log" || name == "binary_log";
        const int mag = r.chance(0.3) ? 6 : 5;
        const double share = r.chance(0.3) ? val(r, 5) : NAN; // identical values
        for (int i = 0; i < y_dim; ++i) {
            p[i] = prob ? (r.chance(0.2) ? (double) r.below(2) : r.chance(0.2) ? r.uni() * 1e-16 : r.uni()) : val(r, mag);
            y[i] = prob ? (r.chance(0.5) ? (double) r.below(2) : r.uni()) : r.chance(0.2) ? p[i] : val(r, mag);
            if (!std::isnan(share) && !prob && r.chance(0.4)) p[i] = share;
            if (name == "huber" && r.chance(0.3)) y[i] = p[i] + (r.chance(0.5) ? delta : -delta) * r.pick({ 1.0, 0.999, 1.001, 3.0, 0.1 });
        }
        if (name == "onehot" || (name == "log" && r.chance(0.7))) {
            for (double &v : y) v = 0;
            y[r.below(y_dim)] = 1;
            if (name == "onehot" && r.chance(0.2)) for (int i = 0; i < y_dim; ++i) p[i] -= 5; // all negative
        }
        if (name == "log" && r.chance(0.5)) { double s = 0; for (double v : p) s += v; if (s > 0) for (double &v : p) v /= s; }
        const Vec p0 = p, y0 = y;
        const double got = (x.loss_ptr)(&x, p.data(), y.data());
        bool sure = true;
        const double want = o_loss(name, p.data(), y.data(), y_dim, delta, &sure);
        if (sure) CHECK(close(got, want, 1e-9, 1e-13), "loss", "%s of %d outputs gives %.17g, its definition %.17g; p[0]=%.17g y[0]=%.17g delta=%.17g", name.c_str(), y_dim, got, want, p[0], y[0], delta);
        else { count("ties"); CHECK(got == 0 || got == 1, "loss", "onehot error is %.17g", got); }
        CHECK(std::isfinite(got), "finite", "%s of finite values is %.17g; p[0]=%.17g y[0]=%.17g", name.c_str(), got, p[0], y[0]);
        CHECK(got >= 0, "negative", "%s is negative: %.17g; p[0]=%.17g y[0]=%.17g", name.c_str(), got, p[0], y[0]);
        CHECK(p == p0 && y == y0, "inputs", "%s altered its arguments", name.c_str());
        bool eq = p == y;
        if (eq && (name == "mae" || name == "mse" || name == "rmse" || name == "huber")) CHECK(got == 0, "zero", "%s of a perfect prediction is %.17g", name.c_str(), got);
        count(("loss_" + name).c_str());
        Hash h; h.i(li); for (double v : p) h.d(v); for (double v : y) h.d(v);
        if (k < 8) distinct(h.h);
    }
    param_free(&x);
    // activations
    const int f = (c.idx / 7) % 11;
    const int id = neural_activation_as_int(ACT[f]);
    CHECK(!strcmp(neural_activation_string(id), ACT[f]), "name", "activation %s is named %s", ACT[f], neural_activation_string(id));
    Vec xs;
    for (int k = 0; k < 40; ++k) {
        double v;
        switch (r.below(6)) {
            case 0: v = r.uni(-3, 3); break;
            case 1: v = r.uni(-100, 100); break;
            case 2: v = r.pick({ 0.0, -0.0, 100.0, -100.0, 1.0, -1.0, 1e-300, -1e-300, 1e-9, -1e-9 }); break;
            case 3: v = r.gauss() * pow(10, r.range(-12, 0)); break;
            case 4: v = r.range(-40, 40); break;
            default: v = r.uni(-20, 20);
        }
        xs.push_back(v);
        const double got = neural_activate(id, v), want = o_act(f, v);
        CHECK(close(got, want, 1e-9, 1e-13), "activation", "%s(%.17g) = %.17g, should be %.17g", ACT[f], v, got, want);
        const double g = neural_gradient(id, v), gw = o_grad(f, v);
        const bool kink = v == 0 && (f == 1 || f == 8 || f == 9);
        if (!kink) {
            CHECK(close(g, gw, 1e-8, 1e-12), "gradient", "derivative of %s at %.17g is given as %.17g, is %.17g", ACT[f], v, g, gw);
            // and the derivative of what the library itself computes
            const double e = 1e-5;
            if (fabs(v) > 2 * e || (f != 1 && f != 8 && f != 9)) {
                const double nd = (neural_activate(id, v + e) - neural_activate(id, v - e)) / (2 * e);
                CHECK(fabs(nd - g) < 1e-4 * (1 + fabs(g)), "numeric", "derivative of %s at %.17g is given as %.17g, numerically %.17g", ACT[f], v, g, nd);
            }
        } else {
            const double lo = f == 1 ? 0 : f == 8 ? 0.1 : 1.0507, hi = f == 1 ? 1 : f == 8 ? 1 : 1.0507 * 1.6732;
            CHECK(g >= lo - 1e-9 && g <= hi + 1e-9, "gradient", "derivative of %s at its kink is %.17g", ACT[f], g);
        }
        count(fmt("act_%s", ACT[f]).c_str());
        Hash h; h.i(100 + f); h.d(v); if (k < 8) distinct(h.h);
    }
    // vectors: same function elementwise, states limited to [-100, 100]
    Vec st = xs, out(xs.size()), dl(xs.size());
    for (size_t i = 0; i < st.size(); ++i) { if (r.chance(0.2)) st[i] *= 7; dl[i] = r.gauss(); }
    const Vec s0 = st, d0 = dl;
    neural_activate_array(st.data(), out.data(), (int) st.size(), id);
    for (size_t i = 0; i < st.size(); ++i) {
        const double cl = o_clampn(s0[i]);
        CHECK(close(out[i], o_act(f, cl), 1e-9, 1e-13), "vector", "%s of element %zu (%.17g) is %.17g, should be %.17g", ACT[f], i, s0[i], out[i], o_act(f, cl));
    }
    neural_gradient_array(st.data(), dl.data(), (int) st.size(), id);
    for (size_t i = 0; i < st.size(); ++i) {
        if (st[i] == 0 && (f == 1 || f == 8 || f == 9)) continue;
        const double w = d0[i] * o_grad(f, o_clampn(s0[i]));
        CHECK(close(dl[i], w, 1e-8, 1e-12), "vector", "gradient of %s applied to element %zu (%.17g) is %.17g, should be %.17g", ACT[f], i, s0[i], dl[i], w);
    }
    count("vectors", 2);
    sample("%s over %d outputs (delta %.3g), %s over %zu points", name.c_str(), y_dim, delta, ACT[f], xs.size());
}

// P18: accepted parameters take effect exactly; invalid ones are refused.
// The oracle is a table of the documented ranges and the fields of the live
// system; refusals are observed in a forked process (exit status and output).
#include "params.h"
#include <fcntl.h>
#include <sys/wait.h>
#include <unistd.h>
extern "C" {
#include <cjson/cJSON.h>
}

enum Kind { KI, KD, KB, KS };
struct Par {
    const char *path; // section.name; "" section is the top level
    Kind kind;
    double lo, hi;
    bool lo_open;
    bool clamp; // replaced by the nearest legal value with a warning
    std::function<double(const struct XCSF *)> get;
    std::vector<const char *> names; // of an enumeration, by value
    const char *needs = "";          // representation which has it
};
static const double INF = HUGE_VAL;
#define G(e) [](const struct XCSF *x) -> double { return (double) (e); }
static std::vector<Par> &table()
{
    static std::vector<Par> t = {
        { "x_dim", KI, 1, 40, false, false, G(x->x_dim) },
        { "y_dim", KI, 1, 40, false, false, G(x->y_dim) },
        { "n_actions", KI, 1, 40, false, false, G(x->n_actions) },
        { "omp_num_threads", KI, 1, 1000, false, false, G(x->OMP_NUM_THREADS) },
        { "random_state", KI, 0, INF, false, false, G(x->RANDOM_STATE) },
        { "pop_init", KB, 0, 1, false, false, G(x->POP_INIT) },
        { "max_trials", KI, 1, INF, false, false, G(x->MAX_TRIALS) },
        { "perf_trials", KI, 1, INF, false, false, G(x->PERF_TRIALS) },
        { "pop_size", KI, 1, INF, false, false, G(x->POP_SIZE) },
        { "loss_func", KS, 0, 6, false, false, G(x->LOSS_FUNC), { "mae", "mse", "rmse", "log", "binary_log", "onehot", "huber" } },
        { "huber_delta", KD, 0, INF, false, false, G(x->HUBER_DELTA) },
        { "gamma", KD, 0, 1, false, false, G(x->GAMMA) },
        { "teletransportation", KI, 1, INF, false, false, G(x->TELETRANSPORTATION) },
        { "p_explore", KD, 0, 1, false, false, G(x->P_EXPLORE) },
        { "set_subsumption", KB, 0, 1, false, false, G(x->SET_SUBSUMPTION) },
        { "theta_sub", KI, 0, INF, false, false, G(x->THETA_SUB) },
        { "e0", KD, 0, INF, false, false, G(x->E0) },
        { "alpha", KD, 0, 1, false, false, G(x->ALPHA) },
        { "nu", KD, 0, INF, false, false, G(x->NU) },
        { "beta", KD, 0, 1, false, false, G(x->BETA) },
        { "delta", KD, 0, 1, false, false, G(x->DELTA) },
        { "theta_del", KI, 0, INF, false, false, G(x->THETA_DEL) },
        { "init_fitness", KD, 0, INF, false, false, G(x->INIT_FITNESS) },
        { "init_error", KD, 0, INF, false, false, G(x->INIT_ERROR) },
        { "m_probation", KI, 0, INF, false, false, G(x->M_PROBATION) },
        { "stateful", KB, 0, 1, false, false, G(x->STATEFUL) },
        { "compaction", KB, 0, 1, false, false, G(x->COMPACTION) },
        { "ea.select_type", KS, 0, 1, false, false, G(x->ea->select_type), { "roulette", "tournament" } },
        { "ea.select_size", KD, 0, 1, true, false, G(x->ea->select_size) },
        { "ea.theta_ea", KD, 0, INF, false, false, G(x->ea->theta) },
        { "ea.lambda", KI, 2, INF, false, false, G(x->ea->lambda) },
        { "ea.p_crossover", KD, 0, 1, false, false, G(x->ea->p_crossover) },
        { "ea.err_reduc", KD, 0, 1, false, false, G(x->ea->err_reduc) },
        { "ea.fit_reduc", KD, 0, 1, false, false, G(x->ea->fit_reduc) },
        { "ea.subsumption", KB, 0, 1, false, false, G(x->ea->subsumption) },
        { "ea.pred_reset", KB, 0, 1, false, false, G(x->ea->pred_reset) },
        { "condition.eta", KD, 0, 1, false, true, G(x->cond->eta), {}, "hyperrectangle_csr hyperrectangle_ubr hyperellipsoid" },
        { "condition.min", KD, -INF, INF, false, false, G(x->cond->min), {}, "hyperrectangle_csr hyperrectangle_ubr hyperellipsoid" },
        { "condition.max", KD, -INF, INF, false, false, G(x->cond->max), {}, "hyperrectangle_csr hyperrectangle_ubr hyperellipsoid" },
        { "condition.spread_min", KD, 0, INF, false, true, G(x->cond->spread_min), {}, "hyperrectangle_csr hyperrectangle_ubr hyperellipsoid" },
        { "condition.bits", KI, 1, INF, false, true, G(x->cond->bits), {}, "ternary" },
        { "condition.p_dontcare", KD, 0, 1, false, true, G(x->cond->p_dontcare), {}, "ternary" },
        { "condition.min_constant", KD, -INF, INF, false, false, G(x->cond->targs->min), {}, "tree_gp" },
        { "condition.max_constant", KD, -INF, INF, false, false, G(x->cond->targs->max), {}, "tree_gp" },
        { "condition.n_constants", KI, 1, 100000, false, true, G(x->cond->targs->n_constants), {}, "tree_gp" },
        { "condition.init_depth", KI, 1, INF, false, true, G(x->cond->targs->init_depth), {}, "tree_gp" },
        { "condition.max_len", KI, 1, INF, false, true, G(x->cond->targs->max_len), {}, "tree_gp" },
        { "condition.max_k", KI, 1, INF, false, true, G(x->cond->dargs->max_k), {}, "dgp rule_dgp" },
        { "condition.max_t", KI, 1, INF, false, true, G(x->cond->dargs->max_t), {}, "dgp rule_dgp" },
        { "condition.n", KI, 1, INF, false, true, G(x->cond->dargs->n), {}, "dgp rule_dgp" },
        { "condition.evolve_cycles", KB, 0, 1, false, false, G(x->cond->dargs->evolve_cycles), {}, "dgp rule_dgp" },
        { "prediction.x0", KD, -INF, INF, false, false, G(x->pred->x0), {}, "nlms_linear nlms_quadratic rls_linear rls_quadratic" },
        { "prediction.eta", KD, 0, 1, false, true, G(x->pred->eta), {}, "nlms_linear nlms_quadratic" },
        { "prediction.eta_min", KD, 0, 1, false, true, G(x->pred->eta_min), {}, "nlms_linear nlms_quadratic" },
        { "prediction.evolve_eta", KB, 0, 1, false, false, G(x->pred->evolve_eta), {}, "nlms_linear nlms_quadratic" },
        { "prediction.scale_factor", KD, -INF, INF, false, false, G(x->pred->scale_factor), {}, "rls_linear rls_quadratic" },
        { "prediction.lambda", KD, -INF, INF, false, false, G(x->pred->lambda), {}, "rls_linear rls_quadratic" },
    };
    return t;
}
static const char *CONDS[] = { "hyperrectangle_csr", "hyperrectangle_ubr", "hyperellipsoid", "ternary", "tree_gp", "dgp", "rule_dgp", "dummy" };
static const int CTYPE[] = { COND_TYPE_HYPERRECTANGLE_CSR, COND_TYPE_HYPERRECTANGLE_UBR, COND_TYPE_HYPERELLIPSOID, COND_TYPE_TERNARY,
                             COND_TYPE_GP, COND_TYPE_DGP, RULE_TYPE_DGP, COND_TYPE_DUMMY };
static const char *PREDS[] = { "constant", "nlms_linear", "nlms_quadratic", "rls_linear", "rls_quadratic" };
static const int PTYPE[] = { PRED_TYPE_CONSTANT, PRED_TYPE_NLMS_LINEAR, PRED_TYPE_NLMS_QUADRATIC, PRED_TYPE_RLS_LINEAR, PRED_TYPE_RLS_QUADRATIC };

static bool word(const char *list, const std::string &w) { return (" " + std::string(list) + " ").find(" " + w + " ") != std::string::npos; }
static std::string sect(const Par &p) { const char *d = strchr(p.path, '.'); return d ? std::string(p.path, d - p.path) : ""; }
static std::string leaf(const Par &p) { const char *d = strchr(p.path, '.'); return d ? d + 1 : p.path; }

static double legal(Rng &r, const Par &p)
{
    if (p.kind == KB || p.kind == KS) return r.range((int) p.lo, (int) p.hi);
    const double hi = std::isinf(p.hi) ? (p.kind == KI ? (r.chance(0.1) ? 2147483647. : 5000) : r.pick({ 1.0, 10.0, 1e6 })) : p.hi;
    const double lo = std::isinf(p.lo) ? -r.pick({ 1.0, 10.0, 1e6 }) : p.lo;
    if (r.chance(0.12)) return hi;
    if (r.chance(0.12) && !p.lo_open) return lo;
    if (p.kind == KI) return (double) (int64_t) (lo + floor(r.uni() * (hi - lo + 1)));
    double v = r.uni(lo, hi);
    if (p.lo_open && v <= lo) v = hi;
    if (r.chance(0.2)) v = lo + (hi - lo) * pow(10, -r.uni(1, 9));
    return v;
}
static std::string text(const Par &p, double v)
{
    if (p.kind == KB) return jb(v != 0);
    if (p.kind == KS) return std::string("\"") + p.names[(int) v] + "\"";
    if (p.kind == KI) return fmt("%.0f", v);
    return fmt("%.17g", v);
}
typedef std::pair<const Par *, double> Item;
struct Doc { // a JSON document of parameters
    std::vector<Item> items;
    int cond = -1, pred = -1;
    std::string extra_top, extra_ea, extra_cond, extra_pred; // raw text
    std::string render(Rng &r) const
    {
        std::vector<std::string> top;
        std::map<std::string, std::vector<std::string>> sec;
        for (auto &i : items) {
            const std::string s = sect(*i.first), e = "\"" + leaf(*i.first) + "\":" + text(*i.first, i.second);
            if (s.empty()) top.push_back(e);
            else sec[s].push_back(e);
        }
        if (!extra_top.empty()) top.push_back(extra_top);
        if (!extra_ea.empty()) sec["ea"].push_back(extra_ea);
        if (!extra_cond.empty()) sec["condition"].push_back(extra_cond);
        if (!extra_pred.empty()) sec["prediction"].push_back(extra_pred);
        auto shuffle = [&](std::vector<std::string> &v) { for (int i = (int) v.size() - 1; i > 0; --i) std::swap(v[i], v[r.below(i + 1)]); };
        auto join = [&](std::vector<std::string> v) { shuffle(v); std::string s; for (auto &e : v) s += (s.empty() ? "" : ",") + e; return s; };
        if (sec.count("ea")) top.push_back("\"ea\":{" + join(sec["ea"]) + "}");
        auto typed = [&](const char *name, const char *type) {
            std::vector<std::string> v = { fmt("\"type\":\"%s\"", type) };
            if (sec.count(name)) v.push_back("\"args\":{" + join(sec[name]) + "}");
            top.push_back(std::string("\"") + name + "\":{" + join(v) + "}");
        };
        if (cond >= 0) typed("condition", CONDS[cond]);
        if (pred >= 0) typed("prediction", PREDS[pred]);
        return "{" + join(top) + "}";
    }
};
static Doc gen_doc(Rng &r, double density)
{
    Doc d;
    if (r.chance(0.85)) d.cond = r.below(8);
    if (r.chance(0.85)) d.pred = r.below(5);
    for (const Par &p : table()) {
        const std::string s = sect(p);
        if (s == "condition" && (d.cond < 0 || !word(p.needs, CONDS[d.cond]))) continue;
        if (s == "prediction" && (d.pred < 0 || !word(p.needs, PREDS[d.pred]))) continue;
        if (!r.chance(density)) continue;
        d.items.push_back({ &p, legal(r, p) });
    }
    return d;
}
static void fresh(struct XCSF *x, Rng &r)
{
    memset(x, r.below(256), sizeof *x);
    param_init(x, r.range(1, 6), r.range(1, 3), r.range(1, 4));
}
static const cJSON *at(const cJSON *root, const Par &p)
{
    const std::string s = sect(p), l = leaf(p);
    const cJSON *o = root;
    if (!s.empty()) {
        o = cJSON_GetObjectItemCaseSensitive(o, s.c_str());
        if (o && s != "ea") o = cJSON_GetObjectItemCaseSensitive(o, "args");
        if (!o) return NULL;
    }
    return cJSON_GetObjectItemCaseSensitive(o, l.c_str());
}
static std::vector<double> readall(const struct XCSF *x)
{
    std::vector<double> v;
    for (const Par &p : table()) v.push_back(p.get(x));
    return v;
}
static void check_reported(const struct XCSF *x, const std::string &json, const Doc &d)
{
    char *e = param_json_export(x);
    cJSON *root = cJSON_Parse(e);
    if (!root) { viol("export_text", "exported parameters are not JSON: %s", e); free(e); return; }
    const cJSON *ct = cJSON_GetObjectItemCaseSensitive(root, "condition");
    for (auto &i : d.items) {
        const Par &p = *i.first;
        const cJSON *v = at(root, p);
        if (!v) { // reported only where it has a meaning
            const std::string n = p.path;
            const bool may = n == "huber_delta" || n == "gamma" || n == "teletransportation" || n == "p_explore" || n == "ea.select_size" ||
                n == "condition.eta" || n == "prediction.eta_min";
            CHECK(may, "not_reported", "%s was set and is not in the exported parameters\n%s", p.path, json.c_str());
            continue;
        }
        count("values_reported");
        bool ok;
        if (p.kind == KB) ok = cJSON_IsBool(v) && cJSON_IsTrue(v) == (i.second != 0);
        else if (p.kind == KS) ok = cJSON_IsString(v) && !strcmp(v->valuestring, p.names[(int) i.second]);
        else ok = cJSON_IsNumber(v) && close(v->valuedouble, i.second, 1e-14, 0);
        if (!ok) {
            char *t = cJSON_PrintUnformatted(v);
            viol("reported", "%s set to %s is reported as %s\n%s", p.path, text(p, i.second).c_str(), t, json.c_str());
            free(t);
        }
    }
    if (d.cond >= 0) {
        const cJSON *t = ct ? cJSON_GetObjectItemCaseSensitive(ct, "type") : NULL;
        CHECK(t && cJSON_IsString(t) && !strcmp(t->valuestring, CONDS[d.cond]), "reported", "condition type %s is not reported", CONDS[d.cond]);
    }
    cJSON_Delete(root);
    free(e);
}
static void valid_case(Ctx &c)
{
    Rng &r = c.rng;
    Doc d = gen_doc(r, r.pick({ 0.08, 0.3, 0.7, 1.0 }));
    struct XCSF x;
    const uint64_t is = r.u64();
    { Rng q(is); fresh(&x, q); }
    const std::vector<double> before = readall(&x);
    const int ct0 = x.cond->type, pt0 = x.pred->type;
    const std::string json = d.render(r);
    stage("import %s", json.c_str());
    param_json_import(&x, json.c_str());
    const std::vector<double> after = readall(&x);
    std::map<const Par *, double> want;
    for (auto &i : d.items) want[i.first] = i.second;
    for (size_t k = 0; k < table().size(); ++k) {
        const Par &p = table()[k];
        auto it = want.find(&p);
        if (it != want.end()) {
            count("values_set");
            CHECK(after[k] == it->second, "in_force", "%s was given as %s and the system uses %s\n%s", p.path, num(it->second).c_str(), num(after[k]).c_str(), json.c_str());
        } else {
            count("values_left");
            CHECK(after[k] == before[k], "other_altered", "%s was not given and changed from %s to %s\n%s", p.path, num(before[k]).c_str(), num(after[k]).c_str(), json.c_str());
        }
    }
    CHECK(x.cond->type == (d.cond >= 0 ? CTYPE[d.cond] : ct0), "in_force", "condition type is %d\n%s", x.cond->type, json.c_str());
    CHECK(x.pred->type == (d.pred >= 0 ? PTYPE[d.pred] : pt0), "in_force", "prediction type is %d\n%s", x.pred->type, json.c_str());
    // the number of threads and the loss really are in use
    CHECK(omp_get_max_threads() == x.OMP_NUM_THREADS, "in_use", "omp_num_threads %d but %d threads would be used", x.OMP_NUM_THREADS, omp_get_max_threads());
    {
        const double a[1] = { 0.25 }, b[1] = { 0.875 };
        const int yd = x.y_dim;
        x.y_dim = 1;
        double want_l = NAN;
        if (x.LOSS_FUNC == 0) want_l = 0.625;
        else if (x.LOSS_FUNC == 1) want_l = 0.625 * 0.625;
        else if (x.LOSS_FUNC == 2) want_l = 0.625;
        else if (x.LOSS_FUNC == 6) want_l = 0.625 <= x.HUBER_DELTA ? 0.5 * 0.625 * 0.625 : x.HUBER_DELTA * (0.625 - 0.5 * x.HUBER_DELTA);
        if (!std::isnan(want_l)) CHECK(close(x.loss_ptr(&x, a, b), want_l, 1e-9, 1e-12), "in_use", "loss %d does not take effect: %s", x.LOSS_FUNC, num(x.loss_ptr(&x, a, b)).c_str());
        x.y_dim = yd;
    }
    // reported as set
    check_reported(&x, json, d);
    // another order of the same settings means the same
    struct XCSF y;
    { Rng q(is); fresh(&y, q); }
    const std::string json2 = d.render(r);
    stage("import %s", json2.c_str());
    param_json_import(&y, json2.c_str());
    std::string df = flat_diff(flat_params(&x), flat_params(&y));
    CHECK(df.empty(), "order", "the order of the settings matters: %s\n%s\n%s", df.c_str(), json.c_str(), json2.c_str());
    count("orders_compared");
    // exported and imported elsewhere
    struct XCSF z;
    { Rng q(r.u64()); fresh(&z, q); }
    char *e = param_json_export(&x);
    stage("reimport %s", e);
    param_json_import(&z, e);
    df = flat_diff(flat_params(&x), flat_params(&z), 1e-14, 0);
    CHECK(df.empty(), "elsewhere", "exported parameters imported elsewhere differ: %s\n%s", df.c_str(), e);
    count("exports_reimported");
    free(e);
    // imported twice: nothing changes
    param_json_import(&x, json.c_str());
    df = flat_diff(flat_params(&x), flat_params(&y));
    CHECK(df.empty(), "repeat", "importing the same settings again changes %s\n%s", df.c_str(), json.c_str());
    Hash h;
    h.str(json);
    distinct(h.h);
    sample("%s", json.c_str());
    param_free(&x);
    param_free(&y);
    param_free(&z);
}

struct Outcome { bool exited = false; int status = 0; bool sig = false; std::string out; double val = NAN; bool rest = true; };
// import json in a process of its own; p: the parameter to read afterwards
static Outcome attempt(Ctx &c, uint64_t is, const std::string &json, const Par *p)
{
    const std::string of = c.tmp + "/out.txt", vf = c.tmp + "/val.bin";
    fflush(NULL);
    unlink(vf.c_str());
    const pid_t pid = fork();
    if (pid == 0) {
        const int fd = open(of.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
        dup2(fd, 1);
        dup2(fd, 2);
        struct XCSF x;
        Rng q(is);
        fresh(&x, q);
        std::vector<double> b = readall(&x);
        param_json_import(&x, json.c_str());
        std::vector<double> a = readall(&x);
        double rec[2] = { p ? p->get(&x) : 0, 1 };
        for (size_t k = 0; k < a.size(); ++k)
            if (&table()[k] != p && a[k] != b[k]) rec[1] = 0;
        fflush(NULL);
        FILE *f = fopen(vf.c_str(), "wb");
        fwrite(rec, sizeof rec, 1, f);
        fclose(f);
        _exit(0);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    Outcome o;
    o.sig = WIFSIGNALED(st);
    o.status = WIFEXITED(st) ? WEXITSTATUS(st) : WTERMSIG(st);
    FILE *f = fopen(vf.c_str(), "rb");
    if (f) {
        double rec[2];
        if (fread(rec, sizeof rec, 1, f) == 1) { o.val = rec[0]; o.rest = rec[1] != 0; }
        fclose(f);
    } else o.exited = true;
    f = fopen(of.c_str(), "rb");
    if (f) { char b[600]; size_t n = fread(b, 1, sizeof b, f); o.out.assign(b, n); fclose(f); }
    return o;
}
static void judge_refused(const Outcome &o, const char *what, const std::string &json)
{
    count("refusals_judged");
    if (o.sig) { viol("crash_on_invalid", "%s: the process died from signal %d\n%s", what, o.status, json.c_str()); return; }
    if (!o.exited) { viol("accepted", "%s was accepted silently or not refused\n%s\noutput: %s", what, json.c_str(), o.out.c_str()); return; }
    CHECK(o.status != 0, "accepted", "%s: refused with a successful status\n%s", what, json.c_str());
    CHECK(!o.out.empty(), "silent", "%s: refused without any message\n%s", what, json.c_str());
}
static void invalid_case(Ctx &c)
{
    Rng &r = c.rng;
    const uint64_t is = r.u64();
    const Par &p = table()[r.below((int) table().size())];
    Doc d;
    d.cond = r.below(7);
    d.pred = r.range(1, 4);
    const std::string s = sect(p);
    if (s == "condition") do d.cond = r.below(7); while (!word(p.needs, CONDS[d.cond]));
    if (s == "prediction") do d.pred = r.range(1, 4); while (!word(p.needs, PREDS[d.pred]));
    auto put = [&](const std::string &raw) {
        if (s.empty()) d.extra_top = raw;
        else if (s == "ea") d.extra_ea = raw;
        else if (s == "condition") d.extra_cond = raw;
        else d.extra_pred = raw;
    };
    const int mode = r.below(4);
    Hash h;
    h.i(mode);
    h.str(p.path);
    if (mode == 0 && p.kind != KB && p.kind != KS && strcmp(p.path, "random_state") && !(std::isinf(p.lo) && std::isinf(p.hi))) {
        // out of range
        const bool below = std::isinf(p.hi) || p.hi == 40 || p.hi == 100000 ? true : std::isinf(p.lo) ? false : r.chance(0.5);
        double v;
        const double mag = r.pick({ 0.0, 1.0, 1000.0, 1e-6 });
        if (below) {
            if (p.kind == KI) v = p.lo - 1 - floor(mag);
            else v = p.lo_open && mag == 0 ? p.lo : p.lo - (mag > 0 ? mag * r.uni(0.01, 1) : 1e-12);
        } else {
            if (p.kind == KI) v = p.hi + 1 + floor(mag);
            else v = p.hi + (mag > 0 ? mag * r.uni(0.01, 1) : 1e-12);
        }
        put("\"" + leaf(p) + "\":" + (p.kind == KI ? fmt("%.0f", v) : fmt("%.17g", v)));
        const std::string json = d.render(r);
        h.d(v);
        stage("invalid %s", json.c_str());
        Outcome o = attempt(c, is, json, &p);
        const std::string what = fmt("%s = %s, outside its range [%s,%s],", p.path, num(v).c_str(), num(p.lo).c_str(), num(p.hi).c_str());
        count("out_of_range");
        if (!o.exited) {
            // replaced by the nearest legal value, with a warning
            const double near = below ? p.lo : p.hi;
            count("clamped");
            CHECK(!o.out.empty(), "silent", "%s was not refused and there is no warning\n%s", what.c_str(), json.c_str());
            CHECK(o.val >= p.lo && o.val <= p.hi && !(p.lo_open && o.val == p.lo), "accepted", "%s is in use (%s)\n%s", what.c_str(), num(o.val).c_str(), json.c_str());
            CHECK(p.lo_open || o.val == near, "nearest", "%s was replaced by %s\n%s", what.c_str(), num(o.val).c_str(), json.c_str());
        } else judge_refused(o, what.c_str(), json);
        sample("%s -> %s %s", what.c_str(), o.exited ? "refused:" : "replaced:", o.out.c_str());
    } else if (mode == 1) {
        // the wrong kind
        std::string v;
        if (p.kind == KB) v = r.pick<const char *>({ "1", "0", "\"true\"", "null", "[true]", "2.5" });
        else if (p.kind == KS) v = r.pick<const char *>({ "1", "true", "null", "\"nonsense\"", "\"\"", "[]", "{}" });
        else v = r.pick<const char *>({ "\"1\"", "true", "false", "null", "[1]", "{}", "\"x\"" });
        if (p.kind == KS && r.chance(0.5)) {
            std::string nm = p.names[r.below((int) p.names.size())];
            if (r.chance(0.5)) nm += r.pick<const char *>({ "x", "_", " ", "2" });
            else nm = nm.substr(0, nm.size() - 1);
            bool real = false;
            for (auto *q : p.names) real |= nm == q;
            if (!real) v = "\"" + nm + "\"";
        }
        put("\"" + leaf(p) + "\":" + v);
        const std::string json = d.render(r);
        h.str(v);
        stage("invalid %s", json.c_str());
        count("wrong_kind");
        judge_refused(attempt(c, is, json, NULL), fmt("%s = %s, of the wrong kind,", p.path, v.c_str()).c_str(), json);
    } else if (mode == 2) {
        // an unknown name
        std::string n = leaf(p);
        const int k = r.below(4);
        if (k == 0) n += r.pick<const char *>({ "s", "_", "x", "0" });
        else if (k == 1) n = n.substr(0, n.size() - 1);
        else if (k == 2) n = "no_such_" + n;
        else n = n.substr(1);
        if (n.empty()) n = "zz";
        bool real = n == "version" || n == "population_file" || n == "ea" || n == "action" || n == "condition" || n == "prediction";
        for (auto &q : table())
            if (sect(q) == s && leaf(q) == n) real = true;
        if (real) n = "zzz_" + n;
        put("\"" + n + "\":" + text(p, legal(r, p)));
        const std::string json = d.render(r);
        h.str(n);
        stage("invalid %s", json.c_str());
        count("unknown_name");
        judge_refused(attempt(c, is, json, NULL), fmt("the unknown name %s.%s", s.c_str(), n.c_str()).c_str(), json);
    } else {
        // unknown representation, missing type, or text that is not JSON
        std::string json;
        const int k = r.below(8);
        const char *which = r.pick<const char *>({ "condition", "prediction", "action" });
        if (k == 0) json = fmt("{\"%s\":{\"type\":\"%s\"}}", which, r.pick<const char *>({ "none", "", "hyperrectangle", "nlms", "integers", "neurals", "dgpx" }));
        else if (k == 1) json = fmt("{\"%s\":{\"args\":{}}}", which);
        else if (k == 2) json = fmt("{\"%s\":{\"type\":%s}}", which, r.pick<const char *>({ "1", "null", "true", "{}" }));
        else if (k == 3) json = r.pick<const char *>({ "{\"pop_size\":10", "{\"pop_size\"}", "", "{'pop_size':10}", "{\"pop_size\":}", "x" });
        else if (k == 7) json = "{\"population_file\":\"" + std::string(r.range(513, 3000), 'n') + "\"}"; // beyond the documented length
        else if (k >= 5) {
            which = r.pick<const char *>({ "condition", "prediction" });
            json = fmt("{\"%s\":{\"type\":\"neural\",\"args\":{\"layer_0\":{\"type\":\"connected\",\"activation\":\"linear\",\"n_init\":1,%s}}}}", which,
                       r.pick<const char *>({ "\"n_inits\":2", "\"evolve_weights\":1", "\"sgd_weights\":\"yes\"", "\"eta\":\"0.1\"", "\"eta\":true",
                                              "\"activation\":\"linea\"", "\"activation\":3", "\"type\":\"conn\"", "\"momentums\":0.5", "\"scal\":1",
                                              "\"evolve_neurons\":true,\"max_neuron_grow\":0", "\"decay\":null", "\"probability\":\"x\"" }));
        } else json = fmt("{\"ea\":%s}", r.pick<const char *>({ "5", "true", "\"x\"", "{\"select_type\":\"best\"}", "{\"select_type\":3}" }));
        h.str(json);
        stage("invalid %s", json.c_str());
        count("bad_document");
        judge_refused(attempt(c, is, json, NULL), "an invalid document", json);
    }
    distinct(h.h);
}
// every setting of every layer is in force
static double layer_get(const struct ArgsLayer *a, const std::string &k)
{
    if (k == "n_init") return a->n_init;
    if (k == "n_max") return a->n_max;
    if (k == "max_neuron_grow") return a->max_neuron_grow;
    if (k == "height") return a->height;
    if (k == "width") return a->width;
    if (k == "channels") return a->channels;
    if (k == "size") return a->size;
    if (k == "stride") return a->stride;
    if (k == "pad") return a->pad;
    if (k == "eta") return a->eta;
    if (k == "eta_min") return a->eta_min;
    if (k == "momentum") return a->momentum;
    if (k == "decay") return a->decay;
    if (k == "probability") return a->probability;
    if (k == "scale") return a->scale;
    if (k == "evolve_weights") return a->evolve_weights;
    if (k == "evolve_neurons") return a->evolve_neurons;
    if (k == "evolve_functions") return a->evolve_functions;
    if (k == "evolve_eta") return a->evolve_eta;
    if (k == "evolve_connect") return a->evolve_connect;
    if (k == "sgd_weights") return a->sgd_weights;
    return NAN;
}
static int index_of(const char *const *names, int n, const char *s)
{
    for (int i = 0; i < n; ++i)
        if (!strcmp(names[i], s)) return i;
    return -1;
}
static void check_layers(const Cfg &cfg, const char *section, const struct ArgsLayer *a)
{
    static const char *types[] = { "connected", "dropout", "noise", "softmax", "recurrent", "lstm", "maxpool", "convolutional", "avgpool", "upsample" };
    cJSON *root = cJSON_Parse(cfg.json.c_str());
    const cJSON *sec = cJSON_GetObjectItem(root, section);
    const cJSON *args = sec ? cJSON_GetObjectItem(sec, "args") : NULL;
    for (const cJSON *l = args ? args->child : NULL; l; l = l->next) {
        if (!a) { viol("layers", "%s: fewer layers in force than given\n%s", section, cfg.json.c_str()); break; }
        for (const cJSON *f = l->child; f; f = f->next) {
            const std::string k = f->string;
            double want, got;
            if (k == "type") want = index_of(types, 10, f->valuestring), got = a->type;
            else if (k == "activation") want = index_of(ACTS_ANY, 11, f->valuestring), got = a->function;
            else if (k == "recurrent_activation") want = index_of(ACTS_ANY, 11, f->valuestring), got = a->recurrent_function;
            else {
                want = cJSON_IsBool(f) ? cJSON_IsTrue(f) : f->valuedouble;
                got = layer_get(a, k);
            }
            count("layer_values");
            CHECK(want == got, "in_force", "%s.%s.%s was given as %s and the system uses %s\n%s", section, l->string, f->string, num(want).c_str(), num(got).c_str(), cfg.json.c_str());
        }
        a = a->next;
    }
    if (args) CHECK(!a, "layers", "%s: more layers in force than given\n%s", section, cfg.json.c_str());
    cJSON_Delete(root);
}
// complete configurations, networks included, survive export and import, and
// training leaves the parameters alone
static std::string quoted(const std::string &s)
{
    std::string q;
    for (char ch : s) { if (ch == '"' || ch == '\\') q += '\\'; q += ch; }
    return q;
}
static void full_case(Ctx &c)
{
    Rng &r = c.rng;
    GenOpts o;
    o.a_max = r.chance(0.4) ? 4 : 1;
    o.stochastic_layers = true;
    o.big_nets = true;
    o.x_max = 9;
    o.pop_max = 20;
    o.idle = false; // (not exported, being without effect)
    Cfg cfg = gen_cfg(r, o);
    Sys a(cfg);
    if (cfg.cond == "neural" || cfg.cond == "rule_neural") check_layers(cfg, "condition", a.x.cond->largs);
    if (cfg.pred == "neural") check_layers(cfg, "prediction", a.x.pred->largs);
    if (cfg.n_actions > 1 && cfg.act == "neural") check_layers(cfg, "action", a.x.act->largs);
    // (the derived sizes of later layers are filled in when a network is built)
    std::string name(r.chance(0.5) ? r.range(0, 40) : r.range(0, 511), ' ');
    for (char &ch : name) ch = (char) r.range(33, 126);
    param_json_import(&a.x, ("{\"population_file\":\"" + quoted(name) + "\"}").c_str());
    CHECK(name == a.x.population_file, "string", "population_file '%s' was given, '%s' is in force", name.c_str(), a.x.population_file);
    free(param_json_export(&a.x));
    const Flat p0 = flat_params(&a.x);
    char *e = param_json_export(&a.x);
    std::string df = flat_diff(p0, flat_params(&a.x));
    CHECK(df.empty(), "export_alters", "exporting changes %s\n%s", df.c_str(), cfg.json.c_str());
    struct XCSF z;
    Rng q(r.u64());
    fresh(&z, q);
    stage("reimport %s", e);
    param_json_import(&z, e);
    free(param_json_export(&z));
    df = flat_diff(p0, flat_params(&z), 1e-14, 0);
    CHECK(df.empty(), "elsewhere", "exported parameters imported elsewhere differ: %s\nexport: %s\noriginal: %s", df.c_str(), e, cfg.json.c_str());
    CHECK(name == z.population_file, "string", "population_file '%s' is '%s' after export and import; %s", name.c_str(), z.population_file, e);
    char *e2 = param_json_export(&z);
    CHECK(!strcmp(e, e2), "elsewhere_text", "the export of the imported parameters differs\n%s\n%s", e, e2);
    count("full_configurations");
    free(e2);
    free(e);
    param_free(&z);
    if (cfg.n_actions == 1 && !cfg.recurrent) {
        Data d = gen_data(r, cfg, 8);
        Input in = d.in();
        xcs_supervised_fit(&a.x, &in, NULL, true, 0, 12);
        df = flat_diff(p0, flat_params(&a.x));
        CHECK(df.empty(), "training_alters", "training changes the parameter %s\n%s", df.c_str(), cfg.json.c_str());
        count("trained");
    }
    distinct(cfg.hash());
}
int n_cases(bool thorough) { return thorough ? 300000 : 16000; }
void run_case(Ctx &c)
{
    const int k = c.idx % 8;
    if (k < 4) valid_case(c);
    else if (k < 7) for (int i = 0; i < 3; ++i) invalid_case(c);
    else full_case(c);
}

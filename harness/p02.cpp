// P02: every allocation of the library is recorded (linker-wrapped allocator,
// and the JSON library's allocation hooks). Freed blocks are kept aside, so a
// block given back twice is seen exactly. After the system is freed no block
// may be left; while it runs the number of blocks held is compared with that
// of a fresh system holding the same rules.
#include "program.h"
#include <cjson/cJSON.h>
#include <dlfcn.h>
#include <mutex>
#include <unordered_map>
#include <deque>
#include <fcntl.h>
#include <sys/stat.h>
int n_cases(bool t) { return t ? 24000 : 1800; }

struct Blk { size_t size; void *site; bool freed; long long seq; };
static std::mutex g_mu;
static std::unordered_map<void *, Blk> *g_tab;
static std::deque<std::pair<void *, size_t>> *g_q;
static size_t g_qbytes;
static long long g_live, g_bytes, g_allocs, g_frees, g_seq;
static bool g_on;

static std::string site_name(void *a)
{
    Dl_info i;
    if (dladdr(a, &i) && i.dli_sname) return i.dli_sname;
    return fmt("%p", a);
}
extern "C" {
void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
void __real_free(void *);
char *__real_strdup(const char *);
FILE *__real_fopen(const char *, const char *);
int __real_fclose(FILE *);
static void note(void *p, size_t n, void *site)
{
    if (!g_on || !p) return;
    std::lock_guard<std::mutex> l(g_mu);
    (*g_tab)[p] = Blk{ n, site, false, ++g_seq };
    ++g_live; g_bytes += (long long) n; ++g_allocs;
}
// true: the block is ours and now in quarantine
static bool drop(void *p, void *site)
{
    if (!g_tab || !p) return false;
    std::lock_guard<std::mutex> l(g_mu);
    auto it = g_tab->find(p);
    if (it == g_tab->end()) return false;
    if (it->second.freed) {
        viol("released_twice", "a block of %zu bytes from %s is released again in %s; %s", it->second.size, site_name(it->second.site).c_str(), site_name(site).c_str(), SH->stage);
        return true;
    }
    it->second.freed = true;
    --g_live; g_bytes -= (long long) it->second.size; ++g_frees;
    g_q->push_back({ p, it->second.size });
    g_qbytes += it->second.size;
    while (g_qbytes > (48u << 20)) {
        auto e = g_q->front();
        g_q->pop_front();
        g_qbytes -= e.second;
        g_tab->erase(e.first);
        __real_free(e.first);
    }
    return true;
}
void *__wrap_malloc(size_t n) { void *p = __real_malloc(n); note(p, n, __builtin_return_address(0)); return p; }
void *__wrap_calloc(size_t a, size_t b) { void *p = __real_calloc(a, b); note(p, a * b, __builtin_return_address(0)); return p; }
void __wrap_free(void *p) { if (!drop(p, __builtin_return_address(0))) __real_free(p); }
void *__wrap_realloc(void *o, size_t n)
{
    void *site = __builtin_return_address(0);
    if (!o) { void *p = __real_malloc(n); note(p, n, site); return p; }
    size_t old = 0;
    bool ours = false;
    {
        std::lock_guard<std::mutex> l(g_mu);
        if (g_tab) {
            auto it = g_tab->find(o);
            if (it != g_tab->end()) { ours = true; old = it->second.size; }
        }
    }
    if (!ours) return __real_realloc(o, n);
    void *p = __real_malloc(n ? n : 1);
    memcpy(p, o, old < n ? old : n);
    note(p, n, site);
    drop(o, site);
    return p;
}
char *__wrap_strdup(const char *s) { char *p = __real_strdup(s); note(p, strlen(s) + 1, __builtin_return_address(0)); return p; }
FILE *__wrap_fopen(const char *f, const char *m) { FILE *p = __real_fopen(f, m); if (p && g_on) { std::lock_guard<std::mutex> l(g_mu); (*g_tab)[p] = Blk{ 0, __builtin_return_address(0), false, ++g_seq }; ++g_live; ++g_allocs; } return p; }
int __wrap_fclose(FILE *f)
{
    if (g_tab) {
        std::lock_guard<std::mutex> l(g_mu);
        auto it = g_tab->find(f);
        if (it != g_tab->end()) { g_tab->erase(it); --g_live; ++g_frees; }
    }
    return __real_fclose(f);
}
static void *cj_alloc(size_t n) { void *p = __real_malloc(n); note(p, n, __builtin_return_address(0)); return p; }
static void cj_free(void *p) { __wrap_free(p); }
}
static void start()
{
    g_tab = new std::unordered_map<void *, Blk>;
    g_q = new std::deque<std::pair<void *, size_t>>;
    cJSON_Hooks h = { cj_alloc, cj_free };
    cJSON_InitHooks(&h);
    g_on = true;
}
static void judge(const char *what, const std::string &hist, const Cfg &c)
{
    g_on = false;
    if (g_live == 0) return;
    std::map<std::string, std::pair<long long, long long>> by;
    for (auto &e : *g_tab)
        if (!e.second.freed) { auto &b = by[site_name(e.second.site)]; b.first++; b.second += (long long) e.second.size; }
    std::string t, first;
    for (auto &e : by) { t += fmt(" %s:%lld blocks/%lld bytes", e.first.c_str(), e.second.first, e.second.second); if (first.empty()) first = e.first; }
    viol("left_over", "after %s %lld blocks are still held, allocated in%s; history:%s; %s", what, g_live, t.c_str(), hist.c_str(), c.json.c_str());
}
static void program_case(Ctx &c)
{
    std::string a1;
    Cfg cfg = program_run(c, a1, start);
    judge("a complete program run", " " + a1, cfg);
    Hash h; h.add(cfg.hash()); h.str(a1);
    distinct(h.h);
    sample("program %s: %s; %lld blocks allocated and released", a1.c_str(), cfg.brief().c_str(), g_allocs);
}
// many trials in a small population: what is held must not grow
static void growth_case(Ctx &c)
{
    Rng &r = c.rng;
    GenOpts o;
    const bool rl = c.idx % 3 == 0;
    if (rl) o.a_min = 2, o.a_max = 3;
    o.pop_min = 5; o.pop_max = 12;
    o.x_max = 3;
    o.p_theta_low = 1;
    Cfg cfg = gen_cfg(r, o);
    start();
    std::string hist;
    {
        World w(c, cfg);
        struct XCSF *x = w.x();
        const bool conv = r.chance(0.5);
        const int trials = c.thorough ? 1200 : 500;
        if (!rl) {
            Input in = w.d.in();
            if (conv) { Input t = w.t.in(); xcs_supervised_fit(x, &in, &t, true, 0, trials / 2); }
            else xcs_supervised_fit(x, &in, NULL, true, 0, trials);
            std::vector<double> p((size_t) w.d.n * x->pa_size), cov(x->pa_size);
            for (int i = 0; i < trials / w.d.n + 1; ++i) xcs_supervised_predict(x, w.d.x.data(), p.data(), w.d.n, r.chance(0.5) ? cov.data() : NULL);
        } else if (conv) {
            param_set_max_trials(x, trials / 4);
            xcs_rl_exp(x);
        } else {
            std::vector<double> st(cfg.x_dim);
            for (int i = 0; i < trials; ++i) { gen_x(r, cfg, st.data()); xcs_rl_fit(x, st.data(), r.below(cfg.n_actions), r.uni()); }
        }
        if (r.chance(0.5)) { for (int i = 0; i < trials / 10; ++i) { free(clset_json_export(x, &x->pset, true, true, true)); free(param_json_export(x)); } hist += " export*"; }
        if (r.chance(0.3)) { for (int i = 0; i < trials / 10; ++i) xcsf_save(x, (c.tmp + "/g.bin").c_str()), xcsf_load(x, (c.tmp + "/g.bin").c_str()); hist += " save_load*"; }
        if (r.chance(0.3)) { for (int i = 0; i < trials / 10; ++i) xcsf_store_pset(x), xcsf_retrieve_pset(x); hist += " store_retrieve*"; }
        clset_kill(x, &x->prev_pset);
        const long long held = g_live;
        // the same rules in a fresh system
        xcsf_save(x, (c.tmp + "/g.bin").c_str());
        const long long before = g_live;
        long long fresh;
        {
            Sys s2(cfg);
            xcsf_load(&s2.x, (c.tmp + "/g.bin").c_str());
            fresh = g_live - before;
        }
        CHECK(held <= fresh + fresh / 2 + 100, "grows", "after %d trials the system holds %lld blocks, a fresh one with the same %d rules %lld; %s; %s", trials, held, x->pset.size,
              fresh, hist.c_str(), cfg.json.c_str());
        count("growth_histories");
        count("growth_trials", trials);
    }
    judge("free", " long training" + hist, cfg);
    Hash h; h.add(cfg.hash()); h.i(g_allocs);
    distinct(h.h);
}
void run_case(Ctx &c)
{
    Rng &r = c.rng;
    if (c.idx % 8 == 6) return program_case(c);
    if (c.idx % 8 == 7) return growth_case(c);
    GenOpts o;
    const bool rl = c.idx % 3 == 0;
    if (rl) o.a_max = 4, o.a_min = 2;
    o.stochastic_layers = r.chance(0.3);
    o.threads = r.chance(0.05) ? 3 : 1;
    Cfg cfg = gen_cfg(r, o);
    std::string hist;
    start();
    if (c.idx % 8 == 5) { // parameters only: one configuration after another
        struct XCSF x;
        memset(&x, r.below(256), sizeof x);
        param_init(&x, cfg.x_dim, cfg.y_dim, cfg.n_actions);
        for (int i = 0, n = r.range(0, 4); i < n; ++i) {
            GenOpts o2 = o;
            o2.x_min = o2.x_max = cfg.x_dim;
            Cfg c2;
            do c2 = gen_cfg(r, o2); while (c2.y_dim != cfg.y_dim || c2.n_actions != cfg.n_actions);
            stage("params %s", c2.json.c_str());
            param_json_import(&x, c2.json.c_str());
            if (r.chance(0.5)) free(param_json_export(&x));
            hist += " import:" + c2.cond + "/" + c2.pred + "/" + c2.act;
            cfg = c2;
        }
        for (int i = 0, n = r.below(3); i < n; ++i) { // systems started over
            xcsf_init(&x);
            if (cfg.n_actions == 1 && hist.size()) {
                Data d = gen_data(r, cfg, 5);
                Input in = d.in();
                xcs_supervised_fit(&x, &in, NULL, true, 0, r.range(1, 30));
            }
            xcsf_free(&x);
            hist += " init_free";
        }
        param_free(&x);
        count("parameter_histories");
    } else {
        World *w = new World(c, cfg, (unsigned char) r.below(256));
        w->surgery = true;
        const int n = r.range(1, c.thorough ? 18 : 9);
        for (int i = 0; i < n; ++i) w->run(w->pick_op());
        if (r.chance(0.3) && w->x()->pred->type == PRED_TYPE_NEURAL && cfg.n_actions == 1) {
            xcsf_ae_to_classifier(w->x(), r.range(1, 4), r.below(3));
            w->trace += " ae_to_classifier";
            count("op_ae_to_classifier");
        }
        hist = w->trace;
        stage("free %s | ops:%s", cfg.json.c_str(), hist.c_str());
        delete w;
        count("histories");
        count("ops", n);
    }
    judge("free", hist, cfg);
    count("blocks_followed", g_allocs);
    Hash h;
    h.add(cfg.hash());
    h.str(hist);
    distinct(h.h);
    sample("%s; %s; %lld blocks allocated, %lld released", cfg.brief().c_str(), hist.c_str(), g_allocs, g_frees);
}

// P04: every history is run twice from the same seed; in between the process
// is disturbed (other systems, other seeds, a half-used Gaussian, a different
// clock, other heap contents and layout). The complete state is compared
// after every operation.
#include "twin.h"
#include <malloc.h>
#include <time.h>
int n_cases(bool t) { return t ? 60000 : 5000; }

static time_t g_now = 1700000000;
extern "C" {
time_t __wrap_time(time_t *t)
{
    g_now += 7919;
    if (t) *t = g_now;
    return g_now;
}
}

static double flat_value(const Flat &f, const char *lab)
{
    for (size_t i = 0; i < f.v.size(); ++i)
        if (!strcmp(f.lab[i], lab)) return f.v[i];
    return 0;
}
// the top-level parameters in any order
static std::string shuffled(Rng &r, const std::string &json)
{
    cJSON *j = cJSON_Parse(json.c_str());
    std::vector<cJSON *> v;
    while (j->child) v.push_back(cJSON_DetachItemViaPointer(j, j->child));
    for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[r.below((int) i)]);
    for (cJSON *e : v) { std::string k = e->string; cJSON_AddItemToObject(j, k.c_str(), e); }
    char *s = cJSON_PrintUnformatted(j);
    std::string o = s;
    free(s);
    cJSON_Delete(j);
    return o;
}
void run_case(Ctx &c)
{
    Rng &r = c.rng;
    GenOpts o;
    if (c.idx % 3 == 0) o.a_min = 2, o.a_max = 4;
    o.threads = r.chance(0.1) ? 3 : 1;
    o.stochastic_layers = o.threads == 1 && r.chance(0.5);
    Cfg cfg = gen_cfg(r, o);
    if (cfg.cond == "tree_gp" && r.chance(0.3)) { // default arguments
        const size_t a = cfg.json.find("\"tree_gp\",\"args\":{"), e = cfg.json.find("}", a);
        cfg.json.erase(a + 9, e + 1 - (a + 9));
        count("default_tree_arguments");
    }
    if (r.chance(0.2)) { // any seed is a seed
        const size_t a = cfg.json.find("\"random_state\":"), e = cfg.json.find(",", a);
        const int s = r.pick({ 0, 1, 2, 2147483647, 42 });
        cfg.json.replace(a, e - a, fmt("\"random_state\":%d", s));
    }
    if (r.chance(0.5)) cfg.json = shuffled(r, cfg.json);
    const uint64_t wseed = r.u64();
    const int n_ops = r.range(2, c.thorough ? 14 : 9);
    Run a, b;
    std::string did;
    for (int k = 0; k < 2; ++k) {
        // the process before the run
        mallopt(M_PERTURB, r.chance(0.2) ? 0 : r.range(1, 255));
        g_now += r.below(100000);
        if (r.chance(0.8)) rand_init_seed((uint32_t) r.u64());
        for (int i = 0, n = r.below(4); i < n; ++i) { rand_normal(0, 1); did += " gauss"; }
        std::vector<void *> hold;
        for (int i = 0, n = r.below(40); i < n; ++i) hold.push_back(malloc(r.range(1, 3000)));
        for (void *&p : hold) if (r.chance(0.5)) { memset(p, r.below(256), 1); free(p); p = nullptr; }
        if (r.chance(0.6)) { // another system, trained and freed
            Ctx c2 = c;
            c2.rng = Rng(r.u64());
            GenOpts o2;
            if (r.chance(0.4)) o2.a_min = 2, o2.a_max = 4;
            o2.stochastic_layers = true;
            Cfg cf2 = r.chance(0.3) ? cfg : gen_cfg(r, o2);
            World w2(c2, cf2, (unsigned char) r.below(256));
            for (int i = 0, n = r.range(1, 3); i < n; ++i) w2.run(w2.pick_op());
            did += " other_system";
            count("disturbing_systems");
        }
        (k ? b : a) = run(c, cfg, wseed, n_ops, (unsigned char) r.below(256));
        for (void *p : hold) free(p);
    }
    mallopt(M_PERTURB, 0);
    size_t i = 0;
    for (; i < a.states.size() && !SH->n_viol; ++i) {
        const std::string df = flat_diff(a.states[i], b.states[i]);
        CHECK(df.empty(), "state", "after %zu calls of the same seeded history two runs differ in %s; calls:%s; disturbances:%s; %s", i, df.c_str(), a.trace.c_str(), did.c_str(),
              cfg.json.c_str());
        bool same = a.outs[i].size() == b.outs[i].size();
        for (size_t k = 0; same && k < a.outs[i].size(); ++k) same = same_bits(a.outs[i][k], b.outs[i][k]) || (std::isnan(a.outs[i][k]) && std::isnan(b.outs[i][k]));
        CHECK(same, "results", "after %zu calls of the same seeded history two runs returned different results; calls:%s; %s", i, a.trace.c_str(), cfg.json.c_str());
        count("states_compared");
        count("fields_compared", (long long) a.states[i].v.size());
    }
    // another seed
    if (!SH->n_viol && (cfg.cond.find("hyper") == 0 || cfg.cond == "neural") && flat_value(a.states.back(), "pset_size") > 0 && a.trace.find("load_other") == std::string::npos) {
        cJSON *j = cJSON_Parse(cfg.json.c_str());
        const int s0 = cJSON_GetObjectItem(j, "random_state")->valueint;
        const int s1 = r.chance(0.8) ? s0 ^ (1 << r.below(31)) : (int) (r.u64() & 0x7fffffff);
        cJSON_Delete(j);
        if (s0 != s1) {
            Cfg c2 = cfg;
            const size_t p = c2.json.find("\"random_state\":"), e = c2.json.find_first_of(",}", p);
            c2.json.replace(p, e - p, fmt("\"random_state\":%d", s1));
            Run d = run(c, c2, wseed, n_ops, 0);
            bool any = false;
            for (auto *cl : { &a, &d }) any |= flat_value(cl->states.back(), "pset_size") < 1;
            if (!any) {
                // compare rule contents only: the seed is itself a parameter
                Flat &fa = a.states.back(), &fd = d.states.back();
                bool same = fa.v.size() == fd.v.size();
                for (size_t k = 0; same && k < fa.v.size(); ++k)
                    same = !strcmp(fa.lab[k], "RANDOM_STATE") || !strcmp(fa.lab[k], "random_state") || fa.v[k] == fd.v[k] || (std::isnan(fa.v[k]) && std::isnan(fd.v[k]));
                CHECK(!same, "seed_ignored", "seeds %d and %d give the very same run; calls:%s; %s", s0, s1, a.trace.c_str(), cfg.json.c_str());
                count("other_seeds");
            }
        }
    }
    count("histories");
    count(("cond_" + cfg.cond).c_str());
    Hash h;
    h.add(a.states.back().hash());
    h.str(a.trace);
    distinct(h.h);
    sample("%s; calls:%s; between:%s; %zu fields equal", cfg.brief().c_str(), a.trace.c_str(), did.c_str(), a.states.back().v.size());
}

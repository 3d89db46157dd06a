// P16: save at a random point of a history, load into some other system,
// compare everything, then run both on from the same seed.
#include "mon.h"
#include "params.h"
#include <sys/wait.h>
#include <unistd.h>
int n_cases(bool t) { return t ? 40000 : 4000; }
void run_case(Ctx &c)
{
    Rng &r = c.rng;
    GenOpts o;
    if (r.chance(0.35)) o.a_min = 2, o.a_max = 5;
    o.x_max = r.chance(0.3) ? 9 : 5;
    o.pop_max = 40;
    if (r.chance(0.15)) { o.pop_min = 60; o.pop_max = 250; o.pop_init = 1; }
    o.stochastic_layers = r.chance(0.2);
    Cfg cfg = gen_cfg(r, o);
    rand_init_seed(cfg.seed);
    World w(c, cfg);
    for (int i = 0, n = r.range(0, 6); i < n; ++i) w.run(w.pick_op());
    const std::string where = cfg.brief() + " ops:" + w.trace + " json:" + cfg.json;
    struct XCSF *x = w.x();
    auto state = [&](const struct XCSF *y) { Flat f = flat_pop(y); Flat g = flat_sys(y), h = flat_params(y); flat_constants(h, y); for (auto *q : { &g, &h }) { f.v.insert(f.v.end(), q->v.begin(), q->v.end()); f.lab.insert(f.lab.end(), q->lab.begin(), q->lab.end()); } return f; };
    std::string name(r.chance(0.7) ? 0 : r.range(1, 512), ' '); // the name of a file to start from, used when a system is made
    for (char &ch : name) ch = (char) r.range(33, 126);
    param_set_population_file(x, name.c_str());
    const Flat before = state(x);
    const std::string file = c.tmp + "/sys.bin";
    const size_t s1 = xcsf_save(x, file.c_str());
    std::string d = flat_diff(before, state(x));
    CHECK(d.empty(), "save-pure", "saving changed %s; %s", d.c_str(), where.c_str());
    // the target: another configuration with a history of its own
    GenOpts o2;
    if (r.chance(0.4)) o2.a_min = 2, o2.a_max = 4;
    o2.x_max = 8;
    Cfg oc = r.chance(0.3) ? cfg : gen_cfg(r, o2);
    Sys *t = new Sys(oc, (unsigned char) r.below(256));
    if (oc.n_actions == 1 && r.chance(0.6)) {
        Data dd = gen_data(r, oc, 6);
        Input in = dd.in();
        xcs_supervised_fit(&t->x, &in, NULL, false, 0, 15);
        count("trained_targets");
    }
    if (r.chance(0.3)) xcsf_store_pset(&t->x);
    stage("load after %s", where.c_str());
    const size_t s2 = xcsf_load(&t->x, file.c_str());
    CHECK(s1 == s2 && s1 > 0, "count", "save reported %zu elements, load %zu; %s", s1, s2, where.c_str());
    t->x.env = &w.env;
    t->x.env_vptr = &SCRIPT_VTBL;
    t->c = cfg;
    d = flat_diff(before, state(&t->x));
    CHECK(d.empty(), "loaded", "the loaded system differs in %s; %s", d.c_str(), where.c_str());
    CHECK(name == t->x.population_file && name == x->population_file, "loaded", "population_file '%s' was saved, '%s' loaded; %s", name.c_str(), t->x.population_file, where.c_str());
    CHECK(t->x.prev_pset.size == 0 && t->x.prev_pset.list == NULL, "leftover", "the target still holds a stored population of its own; %s", where.c_str());
    char *j1 = clset_json_export(x, &x->pset, true, true, true), *j2 = clset_json_export(&t->x, &t->x.pset, true, true, true);
    CHECK(!strcmp(j1, j2), "export", "the loaded population exports differently; %s", where.c_str());
    free(j1); free(j2);
    j1 = param_json_export(x); j2 = param_json_export(&t->x);
    CHECK(!strcmp(j1, j2), "export", "the loaded parameters export differently: %s vs %s; %s", j1, j2, where.c_str());
    free(j1); free(j2);
    if (!d.empty()) { delete t; return; }
    // a file of another version is refused
    if (r.chance(0.15)) {
        FILE *f = fopen(file.c_str(), "rb");
        std::string all;
        char buf[4096];
        for (size_t m; (m = fread(buf, 1, sizeof buf, f)) > 0;) all.append(buf, m);
        fclose(f);
        int ver[3] = { VERSION_MAJOR, VERSION_MINOR, VERSION_BUILD };
        const size_t at = all.find(std::string((const char *) ver, sizeof ver));
        if (at == 0) {
            ver[r.below(2)] += r.chance(0.5) ? 1 : -1;
            all.replace(0, sizeof ver, (const char *) ver, sizeof ver);
            const std::string f2 = c.tmp + "/other.bin";
            f = fopen(f2.c_str(), "wb");
            fwrite(all.data(), 1, all.size(), f);
            fclose(f);
            fflush(0);
            const pid_t pid = fork();
            if (pid == 0) {
                xcsf_load(&t->x, f2.c_str());
                _exit(77);
            }
            int st = 0;
            waitpid(pid, &st, 0);
            count("foreign_versions");
            CHECK(!(WIFEXITED(st) && WEXITSTATUS(st) == 77), "version", "a file of version %d.%d.%d was loaded by %d.%d.%d; %s", ver[0], ver[1], ver[2], VERSION_MAJOR, VERSION_MINOR, VERSION_BUILD, where.c_str());
        }
    }
    // run both on
    xcsf_store_pset(x); // neither keeps an older stored population
    xcsf_store_pset(&t->x);
    const uint32_t seed = (uint32_t) (r.u64() & 0x3fffffff);
    std::vector<Op> ops;
    for (int i = 0, n = r.range(1, 4); i < n; ++i) { Op q = w.pick_op(); if (q != OP_LOADOTHER) ops.push_back(q); }
    const ScriptEnv e0 = w.env;
    const Rng r0 = r;
    w.outputs.clear();
    reseed(seed);
    for (Op q : ops) w.run(q);
    const std::vector<double> out1 = w.outputs;
    const Flat f1 = state(w.x());
    Sys *orig = w.s;
    w.s = t;
    w.env = e0;
    r = r0;
    w.outputs.clear();
    reseed(seed);
    for (Op q : ops) w.run(q);
    count("continued_runs");
    CHECK(out1.size() == w.outputs.size(), "continue", "the loaded system gave %zu results, the original %zu; %s", w.outputs.size(), out1.size(), where.c_str());
    for (size_t i = 0; i < out1.size() && i < w.outputs.size(); ++i)
        if (!same_bits(out1[i], w.outputs[i])) { viol("continue", "result %zu after loading is %.17g, the original gives %.17g; then %s; %s", i, w.outputs[i], out1[i], w.trace.c_str(), where.c_str()); break; }
    d = flat_diff(f1, state(w.x()));
    CHECK(d.empty(), "continue", "after running on, the loaded system differs in %s; then %s; %s", d.c_str(), w.trace.c_str(), where.c_str());
    count("histories");
    count("rules_compared", w.x()->pset.size);
    count(("cond_" + cfg.cond).c_str());
    count(("pred_" + cfg.pred).c_str());
    distinct(before.hash());
    sample("%s; %zu elements; target %s; then%s", cfg.brief().c_str(), s1, oc.brief().c_str(), w.trace.c_str());
    delete orig;
}

// P03: every history is run on one thread and then on several, under drawn
// interleavings; states and results are compared bit for bit. The same
// workload runs under ThreadSanitizer with the same OpenMP runtime.
#include "twin.h"
#include "gomp.h"
#ifdef RACES
int n_cases(bool t) { return t ? 4000 : 360; }
#else
int n_cases(bool t) { return t ? 12000 : 1000; }
#endif
void run_case(Ctx &c)
{
    Rng &r = c.rng;
    GenOpts o;
    if (c.idx % 3 == 0) o.a_min = 2, o.a_max = 4;
    o.stochastic_layers = r.chance(0.5);
    o.pop_min = 8;
    o.pop_max = 40;
    o.x_max = 4;
    if (r.chance(0.5)) o.pop_init = 1;
    Cfg cfg = gen_cfg(r, o);
    const uint64_t wseed = r.u64();
    const int n_ops = r.range(2, 5);
    SCH.team = 1;
    SCH.controlled = false;
#ifndef RACES
    Run a = run(c, cfg, wseed, n_ops, 0);
    const int variants = 4;
#else
    const int variants = 1;
#endif
    SCH.regions = SCH.parallel_regions = 0;
    for (int k = 0; k < variants && !SH->n_viol; ++k) {
        SCH.team = r.pick({ 2, 2, 3, 4, 5, 7, 8 });
        SCH.rs = r.u64();
        SCH.trace = Hash();
        SCH.switches = 0;
#ifndef RACES
        SCH.controlled = k < 3;
        // who goes first only, or switches inside the loops as well
        SCH.p_switch = k == 0 ? 0 : r.pick({ 3, 30, 300 });
        Run b = run(c, cfg, wseed, n_ops, 0);
        const std::string df = run_diff(a, b);
        CHECK(df.empty(), "schedule", "with %d threads (%s) the run differs from the single-threaded one %s; calls:%s; %s", SCH.team,
              SCH.controlled ? fmt("drawn interleaving, %ld switches", SCH.switches).c_str() : "free running", df.c_str(), a.trace.c_str(), cfg.json.c_str());
        count("schedules");
        count("switches", SCH.switches);
        for (auto &s : b.states) count("fields_compared", (long long) s.v.size());
        SCH.trace.add(cfg.hash());
        distinct(SCH.trace.h);
#else
        Run b = run(c, cfg, wseed, n_ops, 0);
        Hash h;
        h.add(cfg.hash());
        h.str(b.trace);
        distinct(h.h);
#endif
        count(fmt("team_%d", SCH.team).c_str());
    }
    count("histories");
    count("regions", SCH.regions);
    count("parallel_regions", SCH.parallel_regions);
    count(("cond_" + cfg.cond).c_str());
    if (cfg.stochastic) count("random_layers");
    sample("%s; %ld parallel regions", cfg.brief().c_str(), SCH.parallel_regions);
}

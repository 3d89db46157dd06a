// P01: random life-cycle histories under the sanitizers (AddressSanitizer and
// UndefinedBehaviorSanitizer, or memcheck for uninitialised values).
#include "program.h"
#ifdef MEMCHECK
int n_cases(bool t) { return t ? 2400 : 176; }
#else
int n_cases(bool t) { return t ? 20000 : 2000; }
#endif
void run_case(Ctx &c)
{
    Rng &r = c.rng;
    if (c.idx % 8 == 6) {
        std::string a1;
        Cfg cfg = program_run(c, a1);
        count("histories");
        Hash h;
        h.add(cfg.hash());
        h.str(a1);
        distinct(h.h);
        return;
    }
    GenOpts o;
    if (c.idx % 3 == 0) o.a_max = 4, o.a_min = 2;
    o.stochastic_layers = r.chance(0.3);
    o.x_max = r.chance(0.2) ? 12 : 5;
#ifdef MEMCHECK
    o.pop_max = 25;
#endif
    Cfg cfg = gen_cfg(r, o);
    rand_init_seed(cfg.seed);
    World w(c, cfg, (unsigned char) r.below(256));
    w.surgery = true;
    const int n = r.range(3, c.thorough ? 25 : 14);
    for (int i = 0; i < n; ++i) w.run(w.pick_op());
    // from autoencoding to classification (existing rules only: new ones would
    // still be made for the former outputs)
    if (r.chance(0.4) && w.x()->pred->type == PRED_TYPE_NEURAL && cfg.n_actions == 1 && w.x()->pset.size > 0) {
        stage("ae_to_classifier %s | ops:%s", cfg.json.c_str(), w.trace.c_str());
        struct XCSF *x = w.x();
        xcsf_ae_to_classifier(x, r.range(1, 4), r.below(3));
        Cfg c2 = cfg;
        c2.y_dim = x->y_dim;
        c2.loss = "onehot";
        Data d = gen_data(r, c2, r.range(1, 6));
        Input in = d.in();
        if (cfg.cond == "dummy" && !x->ea->pred_reset) xcs_supervised_fit(x, &in, NULL, true, 0, r.range(1, 20));
        std::vector<double> p((size_t) d.n * x->pa_size), cov(x->pa_size);
        xcs_supervised_predict(x, d.x.data(), p.data(), d.n, cov.data());
        xcs_supervised_score(x, &in, cov.data());
        free(clset_json_export(x, &x->pset, true, true, true));
        count("op_ae_to_classifier");
    }
    count("histories");
    count("ops", n);
    count(("cond_" + cfg.cond).c_str());
    count(("pred_" + cfg.pred).c_str());
    count(("act_" + cfg.act).c_str());
    Hash h;
    h.add(cfg.hash());
    h.str(w.trace);
    distinct(h.h);
    sample("%s; ops:%s; final pset size=%d num=%d", cfg.brief().c_str(), w.trace.c_str(), w.x()->pset.size, w.x()->pset.num);
    stage("free %s | ops:%s", cfg.json.c_str(), w.trace.c_str());
}

// Complete runs of the stand-alone program's steps: problem and parameters
// come from files in the case's scratch directory.
#pragma once
#include "ops.h"
#include <fcntl.h>

static void write_file(const std::string &f, const std::string &s)
{
    int fd = open(f.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
    if (write(fd, s.data(), s.size()) < 0) {}
    close(fd);
}
// a training problem given as files, as the stand-alone program reads them
static Cfg program_run(Ctx &c, std::string &a1, const std::function<void()> &begin = [] {}, const std::function<void()> &end = [] {})
{
    Rng &r = c.rng;
    const int kind = r.below(3);
    GenOpts o;
    o.all_losses = false;
    Cfg cfg;
    std::string a2;
    if (kind == 0) {
        o.y_max = 2;
        cfg = gen_cfg(r, o);
        Data d = gen_data(r, cfg, r.range(2, 15));
        for (const char *w : { "train", "test" })
            for (int y = 0; y < 2; ++y) {
                std::string s;
                const int k = y ? cfg.y_dim : cfg.x_dim;
                for (int i = 0; i < d.n; ++i)
                    for (int j = 0; j < k; ++j) s += num(y ? d.y[i * k + j] : d.x[i * k + j]) + (j + 1 < k ? "," : "\n");
                write_file(c.tmp + "/d_" + w + (y ? "_y.csv" : "_x.csv"), s);
            }
        a1 = "csv"; a2 = c.tmp + "/d";
    } else if (kind == 1) {
        o.a_min = o.a_max = 2;
        const int bits = r.pick({ 3, 6, 11 });
        o.x_min = o.x_max = bits;
        cfg = gen_cfg(r, o);
        a1 = "mp"; a2 = fmt("%d", bits);
    } else {
        o.a_min = o.a_max = 8;
        o.x_min = o.x_max = 8;
        cfg = gen_cfg(r, o);
        const int w = r.range(4, 8), h = r.range(4, 8);
        std::string s;
        std::vector<char> g((size_t) w * h, '*');
        for (char &ch : g) if (r.chance(0.2)) ch = 'O';
        g[r.below(w * h)] = 'F';
        g[(std::find(g.begin(), g.end(), 'F') - g.begin() + 1) % g.size()] = '*';
        for (int i = 0; i < h; ++i) s += std::string(&g[(size_t) i * w], w) + "\n";
        write_file(c.tmp + "/m.txt", s);
        a1 = "maze"; a2 = c.tmp + "/m.txt";
    }
    write_file(c.tmp + "/c.json", cfg.json);
    stage("program %s %s %s", a1.c_str(), a2.c_str(), cfg.json.c_str());
    std::string a0 = "xcsf", a3 = c.tmp + "/c.json";
    char *argv[] = { &a0[0], &a1[0], &a2[0], &a3[0], nullptr };
    begin();
    {
        struct XCSF *x = new struct XCSF;
        memset(x, r.below(256), sizeof *x);
        env_init(x, argv);
        config_read(x, argv[3]);
        xcsf_init(x);
        param_print(x);
        if (kind == 0) {
            const struct EnvCSV *env = (const struct EnvCSV *) x->env;
            xcs_supervised_fit(x, env->train_data, env->test_data, true, 0, x->MAX_TRIALS);
        } else {
            param_set_max_trials(x, std::min(x->MAX_TRIALS, 10));
            param_set_teletransportation(x, std::min(x->TELETRANSPORTATION, 20));
            xcs_rl_exp(x);
        }
        env_free(x);
        xcsf_free(x);
        param_free(x);
        delete x;
    }
    end();
    count(("program_" + a1).c_str());
    return cfg;
}

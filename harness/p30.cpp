// P30: the stand-alone program. The real main() runs in a process of its own on
// problems, configurations and saved systems written here; what it prints is
// parsed and compared with the same experiment performed trial by trial through
// the library's functions.
#include "params.h"
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
extern "C" int xcsf_program(int argc, char **argv);
int n_cases(bool t) { return t ? 40000 : 2000; }
static std::string where;

struct Run { int status = -1; bool signalled = false; std::string out; };
static Run program(const Ctx &c, const std::vector<std::string> &args)
{
    const std::string f = c.tmp + "/stdout.txt";
    fflush(stdout);
    fflush(stderr);
    const pid_t p = fork();
    if (p == 0) {
        const int fd = open(f.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
        dup2(fd, 1);
        close(fd);
        if (chdir(c.tmp.c_str())) _exit(97);
        std::vector<char *> av;
        for (auto &a : args) av.push_back(strdup(a.c_str()));
        av.push_back(NULL);
        const int rc = xcsf_program((int) args.size(), av.data());
        fflush(stdout);
        _exit(rc);
    }
    int st = 0;
    waitpid(p, &st, 0);
    Run r;
    r.signalled = WIFSIGNALED(st);
    r.status = r.signalled ? WTERMSIG(st) : WEXITSTATUS(st);
    FILE *fp = fopen(f.c_str(), "r");
    if (fp) {
        char b[65536];
        size_t n;
        while ((n = fread(b, 1, sizeof b, fp)) > 0) r.out.append(b, n);
        fclose(fp);
    }
    unlink(f.c_str());
    return r;
}
static void put(const std::string &f, const std::string &s)
{
    FILE *fp = fopen(f.c_str(), "w");
    fputs(s.c_str(), fp);
    fclose(fp);
}
// per-trial errors of predictions for the rows of a data set
static decltype(((struct XCSF *) 0)->loss_ptr) real_loss;
static const struct Input *watch = NULL;
static double watched = NAN;
static double rec_loss(const struct XCSF *x, const double *pred, const double *y)
{
    const double e = real_loss(x, pred, y);
    if (watch && pred == x->pa && y >= watch->y && y < watch->y + (size_t) watch->n_samples * watch->y_dim) watched = e;
    return e;
}
// one reinforcement learning trial through the stepping functions
static double rl_trial(struct XCSF *x, double *error, bool explore)
{
    env_reset(x);
    param_set_explore(x, explore);
    xcs_rl_init_trial(x);
    double total = 0, reward = 0;
    int steps = 0;
    for (bool done = false; steps < x->TELETRANSPORTATION && !done; ++steps) {
        xcs_rl_init_step(x);
        const double *state = env_get_state(x);
        const int action = xcs_rl_decision(x, state);
        reward = env_execute(x, action);
        done = env_is_done(x);
        xcs_rl_update(x, state, action, reward, done);
        total += xcs_rl_error(x, action, reward, done, env_max_payoff(x));
        xcs_rl_end_step(x, state, action, reward);
    }
    xcs_rl_end_trial(x);
    *error = total / steps;
    return env_multistep(x) ? steps : reward > 0;
}
struct Trial { double a, b; bool b_known; int size; };
static std::vector<Trial> experiment(struct XCSF *x, const std::string &kind)
{
    std::vector<Trial> v;
    if (kind == "csv") {
        const struct EnvCSV *e = (const struct EnvCSV *) x->env;
        real_loss = x->loss_ptr;
        x->loss_ptr = rec_loss;
        for (int i = 0; i < x->MAX_TRIALS; ++i) {
            watch = e->test_data;
            watched = NAN;
            Trial t;
            t.a = xcs_supervised_fit(x, e->train_data, e->test_data, true, i, 1);
            if (std::isnan(watched) && e->test_data->n_samples == 1) watched = real_loss(x, x->pa, e->test_data->y);
            t.b = watched;
            t.b_known = !std::isnan(watched);
            t.size = x->pset.size;
            v.push_back(t);
        }
        x->loss_ptr = real_loss;
    } else {
        for (int i = 0; i < x->MAX_TRIALS; ++i) {
            Trial t;
            double err = 0;
            rl_trial(x, &err, true);
            t.a = rl_trial(x, &err, false);
            t.b = err;
            t.b_known = true;
            t.size = x->pset.size;
            v.push_back(t);
        }
    }
    return v;
}
struct Problem { std::string kind, arg, desc; int x = 0, y = 1, a = 1; bool one_test = false; };
static Problem problem(Ctx &c)
{
    Rng &r = c.rng;
    Problem p;
    const int k = c.idx % 3;
    if (k == 0) {
        p.kind = "csv";
        p.x = r.range(1, 4);
        p.y = r.range(1, 3);
        const int n = r.range(1, 15), m = r.chance(0.4) ? 1 : r.range(2, 8);
        p.one_test = m == 1;
        for (int q = 0; q < 4; ++q) {
            std::string s;
            for (int i = 0; i < (q < 2 ? n : m); ++i)
                for (int j = 0, d = q % 2 ? p.y : p.x; j < d; ++j) s += fmt("%.6f%s", r.uni(), j + 1 < d ? "," : "\n");
            put(c.tmp + "/data" + (q < 2 ? "_train_" : "_test_") + (q % 2 ? "y" : "x") + ".csv", s);
        }
        p.arg = r.chance(0.5) ? "data" : c.tmp + "/data";
        p.desc = fmt("csv of %d+%d rows, %d+%d columns", n, m, p.x, p.y);
    } else if (k == 1) {
        p.kind = "mp";
        const int bits = r.pick({ 3, 6, 6, 8, 11 }); // incomplete sizes are rounded down
        p.arg = fmt("%d", bits);
        p.x = bits < 6 ? 3 : bits < 11 ? 6 : 11;
        p.a = 2;
        p.desc = "mp " + p.arg;
    } else {
        p.kind = "maze";
        const int w = r.range(3, 7), h = r.range(3, 6);
        std::string s;
        int fx = r.below(w * h), gx;
        do gx = r.below(w * h); while (gx == fx);
        for (int i = 0; i < w * h; ++i) {
            s += i == fx ? '*' : i == gx ? 'F' : r.chance(0.3) ? 'O' : '*';
            if ((i + 1) % w == 0) s += '\n';
        }
        put(c.tmp + "/m.txt", s);
        p.arg = r.chance(0.5) ? "m.txt" : c.tmp + "/m.txt";
        p.x = 8;
        p.a = 8;
        p.desc = "maze " + s;
    }
    return p;
}
static Cfg config(Rng &r, const Problem &p)
{
    GenOpts o;
    o.x_min = o.x_max = p.x;
    o.y_min = o.y_max = p.y;
    o.a_min = o.a_max = p.a;
    o.wide = false;
    o.stochastic_layers = r.chance(0.3);
    o.pop_min = 20;
    if (p.kind == "maze") o.preds = { "constant", "nlms_linear", "nlms_quadratic", "rls_linear" };
    Cfg c;
    do c = gen_cfg(r, o); while (c.x_dim != p.x || c.y_dim != p.y || c.n_actions != p.a);
    return c;
}
static void start(struct XCSF *x, Problem &p, const std::string &cfg)
{
    memset(x, 0, sizeof *x);
    char *av[] = { (char *) "xcsf", (char *) p.kind.c_str(), (char *) p.arg.c_str(), NULL };
    env_init(x, av);
    config_read(x, cfg.c_str());
    xcsf_init(x);
}
static void finish(struct XCSF *x)
{
    env_free(x);
    xcsf_free(x);
    param_free(x);
}
static void refusals(Ctx &c)
{
    Rng &r = c.rng;
    Problem p = problem(c);
    put(c.tmp + "/c.json", config(r, p).json);
    unlink((c.tmp + "/default.json").c_str());
    std::vector<std::vector<std::string>> bad = { { "xcsf" }, { "xcsf", p.kind }, { "xcsf", p.kind, p.arg, "c.json", "x.bin", "more" }, { "xcsf", "nothing", p.arg, "c.json" },
                                                  { "xcsf", p.kind, p.kind == "mp" ? "0" : "no_such_file", "c.json" },
                                                  { "xcsf", p.kind, p.arg, "c.json", "no_such_system.bin" } };
    const int i = r.below((int) bad.size());
    if (i == 4 && p.kind == "mp") return;
    std::string cmd;
    for (auto &a : bad[i]) cmd += a + " ";
    stage("refuse %s", cmd.c_str());
    const Run q = program(c, bad[i]);
    CHECK(!q.signalled && q.status == EXIT_FAILURE, "refusal", "'%s' ends with %s %d:\n%s", cmd.c_str(), q.signalled ? "signal" : "status", q.status, q.out.substr(0, 600).c_str());
    CHECK(!q.out.empty(), "refusal_silent", "'%s' is refused without a word", cmd.c_str());
    count("refusals");
}
void run_case(Ctx &c)
{
    Rng &r = c.rng;
    if (chdir(c.tmp.c_str())) return;
    if (c.idx % 15 == 14) { refusals(c); return; }
    Problem p = problem(c);
    Cfg cfg = config(r, p);
    const bool dflt = r.chance(0.15);
    const std::string cf = dflt ? "default.json" : "c.json";
    put(c.tmp + "/" + cf, cfg.json);
    std::vector<std::string> args = { "xcsf", p.kind, p.arg };
    std::string bin;
    if (!dflt) {
        args.push_back(r.chance(0.5) ? cf : c.tmp + "/" + cf);
        if (r.chance(0.35)) { // a saved system, trained under settings of its own
            bin = "s.bin";
            Cfg other = r.chance(0.5) ? cfg : config(r, p);
            put(c.tmp + "/o.json", other.json);
            struct XCSF s;
            stage("train and save %s", other.json.c_str());
            start(&s, p, c.tmp + "/o.json");
            experiment(&s, p.kind);
            xcsf_save(&s, (c.tmp + "/s.bin").c_str());
            finish(&s);
            args.push_back(bin);
        }
    }
    where = p.desc + "; " + (bin.empty() ? "" : "resumed; ") + cfg.json;
    stage("program %s", where.c_str());
    const Run q = program(c, args);
    CHECK(!q.signalled && q.status == 0, "status", "the program ends with %s %d; output ends\n%s\n%s", q.signalled ? "signal" : "status", q.status,
          q.out.substr(q.out.size() > 600 ? q.out.size() - 600 : 0).c_str(), where.c_str());
    if (SH->n_viol) return;
    // the same, through the library
    stage("twin %s", where.c_str());
    struct XCSF x;
    start(&x, p, c.tmp + "/" + cf);
    size_t elements = 0;
    if (!bin.empty()) elements = xcsf_load(&x, (c.tmp + "/" + bin).c_str());
    char *js = param_json_export(&x);
    const std::vector<Trial> tr = experiment(&x, p.kind);
    const int P = x.PERF_TRIALS, T = x.MAX_TRIALS;
    finish(&x);
    // what was printed
    const size_t brace = q.out.find('{');
    CHECK(brace != std::string::npos, "parameters", "no parameters are printed; %s", where.c_str());
    if (SH->n_viol) { free(js); return; }
    if (!bin.empty()) {
        const std::string head = q.out.substr(0, brace);
        CHECK(head.find(fmt("%d", (int) elements)) != std::string::npos, "loaded", "%d elements are loaded, the program prints '%s'; %s", (int) elements, head.c_str(), where.c_str());
        count("resumed");
    }
    const char *end = NULL;
    cJSON *a = cJSON_ParseWithOpts(q.out.c_str() + brace, &end, false), *b = cJSON_Parse(js);
    CHECK(a && b && cJSON_Compare(a, b, true), "parameters", "the parameters printed are not the ones in force:\n%.3000s\n%.3000s\n%s", q.out.c_str() + brace, js, where.c_str());
    cJSON_Delete(a);
    cJSON_Delete(b);
    free(js);
    if (SH->n_viol) return;
    std::vector<std::array<double, 4>> lines;
    std::string rest = end;
    for (size_t pos = 0; pos < rest.size();) {
        size_t nl = rest.find('\n', pos);
        if (nl == std::string::npos) nl = rest.size();
        const std::string l = rest.substr(pos, nl - pos);
        pos = nl + 1;
        if (l.find_first_not_of(" \t\r") == std::string::npos) continue;
        std::array<double, 4> v;
        char w[4][64];
        const int n = sscanf(l.c_str(), "%63s %63s %63s %63s", w[0], w[1], w[2], w[3]);
        bool ok = n == 4;
        for (int i = 0; ok && i < 4; ++i) { char *e; v[i] = strtod(w[i], &e); ok = !*e; }
        CHECK(ok, "line", "the program prints '%s'; %s", l.c_str(), where.c_str());
        if (!ok) return;
        lines.push_back(v);
    }
    // a report after each period (after the first trial of the next)
    int want = 0;
    double sa = 0, sb = 0;
    bool known = true;
    int n = 0;
    auto near = [](double got, double v) { return (std::isnan(got) && std::isnan(v)) || (std::isinf(v) && got == v) || fabs(got - v) <= 1.0e-5 + 1e-9 * fabs(v); };
    for (int t = 0; t < T; ++t) {
        sa += tr[t].a;
        if (tr[t].b_known) sb += tr[t].b; else known = false;
        ++n;
        if (t == 0 || t % P != 0) continue;
        CHECK(want < (int) lines.size(), "missing", "%d trials with reports every %d: %d lines; %s", T, P, (int) lines.size(), where.c_str());
        if (want >= (int) lines.size()) return;
        const auto &l = lines[want++];
        CHECK(l[0] == t, "trial", "report %d is for trial %g instead of %d; %s", want, l[0], t, where.c_str());
        // (the first period holds one trial more and its mean is not claimed to the digit)
        const bool first = n != P;
        CHECK(near(l[1], sa / P) || (first && near(l[1], sa / n)), "mean", "report of trial %d: %g, the mean over the %d trials is %.9g; %s", t, l[1], n, sa / P, where.c_str());
        if (known) {
            CHECK(near(l[2], sb / P) || (first && near(l[2], sb / n)), "mean2", "report of trial %d: second figure %g, the mean over the %d trials is %.9g; %s", t, l[2], n, sb / P, where.c_str());
            count("second_figures");
        }
        CHECK(l[3] == tr[t].size, "size", "report of trial %d: population %g, it has %d rules; %s", t, l[3], tr[t].size, where.c_str());
        count("reports");
        if (SH->n_viol) return;
        sa = sb = 0;
        n = 0;
        known = true;
    }
    CHECK(want == (int) lines.size(), "extra", "%d trials with reports every %d: %d lines; %s", T, P, (int) lines.size(), where.c_str());
    count(("programs_" + p.kind).c_str());
    Hash h;
    h.str(cfg.json);
    h.str(p.desc);
    distinct(h.h);
    sample("%s: %d trials, %d reports", p.desc.c_str(), T, want);
}

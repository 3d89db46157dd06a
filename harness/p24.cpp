// P24: built-in environments, data files and configuration files. Every call
// of an environment is compared with a model of it written here; files are
// written by the harness in many layouts and read back through the library.
#include "params.h"
#include <unistd.h>
#include <fcntl.h>
#include <map>
#include <algorithm>
int n_cases(bool t) { return t ? 60000 : 6000; }
static std::string where;

// ---- multiplexer
static std::vector<double> mux_state;
static bool mux_bad = false;
static double mux_want(const std::vector<double> &s, int k, int a)
{
    int addr = 0;
    for (int i = 0; i < k; ++i) addr = 2 * addr + (s[i] > 0.5);
    return a == (s[k + addr] > 0.5);
}
static int mux_k = 0;
static double m_exec(const struct XCSF *x, const int a)
{
    const double r = env_mux_execute(x, a);
    count("mux_actions");
    if (!mux_state.empty()) {
        const bool right = mux_want(mux_state, mux_k, a) != 0;
        CHECK(r == (right ? env_mux_maxpayoff(x) : 0), "mux_payoff", "%d-bit multiplexer: payoff %s for action %d, the addressed bit is %d; %s", (int) mux_state.size(),
              num(r).c_str(), a, (int) mux_want(mux_state, mux_k, 1), where.c_str());
        count(right ? "mux_right" : "mux_wrong");
    }
    return r;
}
static const double *m_state(const struct XCSF *x)
{
    const double *s = env_mux_get_state(x);
    mux_state.assign(s, s + x->x_dim);
    for (double v : mux_state) CHECK(v >= 0 && v <= 1, "mux_state", "multiplexer input %s outside [0,1]", num(v).c_str());
    return s;
}
static const struct EnvVtbl MUX_VT = { env_mux_is_done, env_mux_multistep, m_exec, env_mux_maxpayoff, m_state, env_mux_free, env_mux_reset };
static void mux_case(Ctx &c)
{
    Rng &r = c.rng;
    const int bits = r.chance(0.7) ? r.range(3, 40) : r.range(3, 300);
    int k = 1;
    while (k + 1 + (1 << (k + 1)) <= bits) ++k;
    mux_k = k;
    where = fmt("multiplexer of length %d", bits);
    struct XCSF x;
    memset(&x, r.below(256), sizeof x);
    char b[32];
    snprintf(b, sizeof b, "%d", bits);
    char *argv[] = { (char *) "xcsf", (char *) "mp", b, NULL };
    stage("env_init mp %d", bits);
    env_init(&x, argv);
    CHECK(x.x_dim == k + (1 << k) && x.n_actions == 2 && x.y_dim == 1, "mux_dim", "%s has %d inputs, %d actions, %d outputs", where.c_str(), x.x_dim, x.n_actions, x.y_dim);
    CHECK(!env_multistep(&x) && env_max_payoff(&x) > 0, "mux_kind", "%s: multistep %d max payoff %s", where.c_str(), env_multistep(&x), num(env_max_payoff(&x)).c_str());
    rand_init_seed(c.seed & 0xffffff);
    x.env_vptr = &MUX_VT;
    struct EnvMux *e = (struct EnvMux *) x.env;
    std::set<int> addrs;
    for (int i = 0; i < 60; ++i) {
        env_reset(&x);
        const double *s = env_get_state(&x);
        if (r.chance(0.5)) { // chosen inputs, threshold included
            for (int j = 0; j < x.x_dim; ++j) {
                ((double *) s)[j] = r.pick({ 0.0, 1.0, 0.5, nextafter(0.5, 1), nextafter(0.5, 0), 0.2, 0.8 });
                mux_state[j] = s[j];
            }
        }
        int addr = 0;
        for (int j = 0; j < k; ++j) addr = 2 * addr + (s[j] > 0.5);
        addrs.insert(addr);
        const double r0 = env_execute(&x, 0), r1 = env_execute(&x, 1);
        CHECK(r0 + r1 == env_max_payoff(&x), "mux_both", "payoffs %s and %s for the two actions; %s", num(r0).c_str(), num(r1).c_str(), where.c_str());
        CHECK(env_is_done(&x), "mux_done", "the multiplexer is not done after an action");
    }
    (void) e;
    count("mux_addresses", addrs.size());
    if (c.idx % 16 == 0) { // every bit is set about as often as not
        std::vector<int> set(x.x_dim);
        const int n = 400;
        for (int i = 0; i < n; ++i) {
            env_reset(&x);
            const double *s = env_get_state(&x);
            for (int j = 0; j < x.x_dim; ++j) set[j] += s[j] > 0.5;
        }
        for (int j = 0; j < x.x_dim; ++j)
            CHECK(abs(set[j] - n / 2) < 90, "mux_random", "%s: bit %d is set in %d of %d drawn inputs", where.c_str(), j, set[j], n); // nine standard deviations
        count("mux_bits_counted", x.x_dim);
    }
    if (bits <= 20 && r.chance(0.3)) { // inside a learning run
        param_json_import(&x, fmt("{\"omp_num_threads\":1,\"pop_size\":60,\"max_trials\":20,\"random_state\":%d,\"pop_init\":false,\"condition\":{\"type\":\"ternary\",\"args\":{\"bits\":1}}}", c.idx).c_str());
        xcsf_init(&x);
        xcs_rl_exp(&x);
        xcsf_free(&x);
        count("mux_learning_runs");
    }
    env_free(&x);
    param_free(&x);
    Hash h;
    h.i(bits);
    h.i(c.idx);
    distinct(h.h);
}
// ---- maze
struct Maze { int w, h; std::vector<std::string> g; };
static Maze MZ;
static int mx, my;
static bool mdone;
static double cell(char ch)
{
    switch (ch) { case '*': return 0.1; case 'O': return 0.3; case 'G': return 0.5; case 'F': return 0.7; default: return 0.9; }
}
static char at(int x, int y) { return MZ.g[((y % MZ.h) + MZ.h) % MZ.h][((x % MZ.w) + MZ.w) % MZ.w]; }
static void z_reset(const struct XCSF *x)
{
    env_maze_reset(x);
    const struct EnvMaze *e = (const struct EnvMaze *) x->env;
    mx = e->xpos;
    my = e->ypos;
    mdone = false;
    count("maze_trials");
    CHECK(mx >= 0 && mx < MZ.w && my >= 0 && my < MZ.h && at(mx, my) == '*', "maze_start", "the start (%d,%d) is not a free cell of the maze", mx, my);
    CHECK(!env_maze_is_done(x), "maze_start", "a maze is done before the first step");
}
static const double *z_state(const struct XCSF *x)
{
    const double *s = env_maze_get_state(x);
    int k = 0;
    for (int dy = -1; dy <= 1; ++dy)
        for (int dx = -1; dx <= 1; ++dx) {
            if (!dx && !dy) continue;
            CHECK(s[k] == cell(at(mx + dx, my + dy)), "maze_percept", "at (%d,%d) of a %dx%d maze the neighbour (%+d,%+d) '%c' is perceived as %s", mx, my, MZ.w, MZ.h, dx, dy,
                  at(mx + dx, my + dy), num(s[k]).c_str());
            ++k;
        }
    count("maze_percepts");
    if (mx == 0 || my == 0 || mx == MZ.w - 1 || my == MZ.h - 1) count("maze_percepts_at_edge");
    return s;
}
static double z_exec(const struct XCSF *x, const int a)
{
    static const int DX[] = { 0, 1, 1, 1, 0, -1, -1, -1 }, DY[] = { -1, -1, 0, 1, 1, 1, 0, -1 };
    const int nx = (mx + DX[a] + MZ.w) % MZ.w, ny = (my + DY[a] + MZ.h) % MZ.h;
    const char t = at(nx, ny);
    const double r = env_maze_execute(x, a);
    const struct EnvMaze *e = (const struct EnvMaze *) x->env;
    const bool go = t == '*' || t == 'F' || t == 'G', goal = t == 'F' || t == 'G';
    const int ex = go ? nx : mx, ey = go ? ny : my;
    CHECK(e->xpos == ex && e->ypos == ey, "maze_move", "action %d at (%d,%d) towards '%c' leads to (%d,%d), expected (%d,%d) in a %dx%d maze", a, mx, my, t, e->xpos, e->ypos, ex, ey, MZ.w, MZ.h);
    if (goal) mdone = true;
    CHECK(env_maze_is_done(x) == mdone, "maze_end", "done is %d after moving onto '%c'", env_maze_is_done(x), t);
    CHECK(r == (goal ? env_maze_maxpayoff(x) : 0), "maze_payoff", "payoff %s for moving towards '%c'", num(r).c_str(), t);
    mx = e->xpos;
    my = e->ypos;
    count(goal ? "maze_goals" : go ? "maze_moves" : "maze_blocked");
    return r;
}
static const struct EnvVtbl MAZE_VT = { env_maze_is_done, env_maze_multistep, z_exec, env_maze_maxpayoff, z_state, env_maze_free, z_reset };
static void maze_case(Ctx &c)
{
    Rng &r = c.rng;
    MZ.w = r.chance(0.2) ? r.range(1, 50) : r.range(2, 9);
    MZ.h = r.chance(0.2) ? r.range(1, 50) : r.range(2, 9);
    MZ.g.assign(MZ.h, std::string(MZ.w, '*'));
    const double wall = r.uni(0, 0.6), food = r.uni(0.01, 0.15);
    for (auto &row : MZ.g)
        for (auto &ch : row) {
            const double t = r.uni();
            ch = t < food ? (r.chance(0.5) ? 'F' : 'G') : t < food + wall ? (r.chance(0.5) ? 'O' : 'Q') : '*';
        }
    MZ.g[r.below(MZ.h)][r.below(MZ.w)] = '*';
    const std::string f = c.tmp + "/maze.txt";
    FILE *fp = fopen(f.c_str(), "w");
    const bool nl = r.chance(0.5);
    for (int y = 0; y < MZ.h; ++y) fprintf(fp, "%s%s", MZ.g[y].c_str(), y + 1 < MZ.h || nl ? "\n" : "");
    fclose(fp);
    struct XCSF x;
    memset(&x, r.below(256), sizeof x);
    char *argv[] = { (char *) "xcsf", (char *) "maze", (char *) f.c_str(), NULL };
    stage("env_init maze %dx%d", MZ.w, MZ.h);
    env_init(&x, argv);
    CHECK(x.x_dim == 8 && x.n_actions == 8 && x.y_dim == 1, "maze_dim", "a maze has %d inputs, %d actions and %d outputs", x.x_dim, x.n_actions, x.y_dim);
    CHECK(env_multistep(&x) && env_max_payoff(&x) > 0, "maze_kind", "maze: multistep %d max payoff %s", env_multistep(&x), num(env_max_payoff(&x)).c_str());
    rand_init_seed(c.seed & 0xffffff);
    x.env_vptr = &MAZE_VT;
    for (int t = 0; t < 6; ++t) {
        env_reset(&x);
        for (int i = 0; i < 25 && !env_is_done(&x); ++i) {
            env_get_state(&x);
            env_execute(&x, r.below(8));
        }
    }
    int free_cells = 0;
    for (auto &row : MZ.g) free_cells += (int) std::count(row.begin(), row.end(), '*');
    if (free_cells <= 30 && MZ.w * MZ.h <= 100 && r.chance(0.3)) { // every free cell is a start, all equally often
        std::map<std::pair<int, int>, int> seen;
        for (int i = 0; i < 200 * free_cells; ++i) {
            env_reset(&x);
            ++seen[{ mx, my }];
        }
        for (int yy = 0; yy < MZ.h; ++yy)
            for (int xx = 0; xx < MZ.w; ++xx)
                if (at(xx, yy) == '*' && free_cells > 1)
                    CHECK(abs(seen[{ xx, yy }] - 200) < 135, "maze_starts", "the free cell (%d,%d) of a %dx%d maze with %d free cells is the start of %d of %d trials", xx, yy, MZ.w, MZ.h,
                          free_cells, seen[{ xx, yy }], 200 * free_cells); // nine standard deviations
        count("maze_starts_counted", free_cells);
    }
    if (r.chance(0.2)) {
        param_json_import(&x, fmt("{\"omp_num_threads\":1,\"pop_size\":60,\"max_trials\":6,\"teletransportation\":15,\"random_state\":%d,\"pop_init\":false}", c.idx).c_str());
        xcsf_init(&x);
        xcs_rl_exp(&x);
        xcsf_free(&x);
        count("maze_learning_runs");
    }
    env_free(&x);
    param_free(&x);
    Hash h;
    for (auto &row : MZ.g) h.str(row);
    distinct(h.h);
    if (MZ.w < 10 && MZ.h < 6) { std::string s; for (auto &row : MZ.g) s += row + "/"; sample("maze %s", s.c_str()); }
}
// ---- data files
static int open_files()
{
    int n = 0;
    for (int i = 0; i < 256; ++i) n += fcntl(i, F_GETFD) != -1;
    return n;
}
static std::string field(Rng &r, double *v)
{
    const int k = r.below(7);
    std::string s;
    if (k == 0) s = fmt("%d", r.range(-1000, 1000));
    else if (k == 1) s = fmt("%.17g", r.gauss());
    else if (k == 2) s = fmt("%.3f", r.uni(-10, 10));
    else if (k == 3) s = fmt("%.6e", r.gauss() * pow(10, r.range(-20, 20)));
    else if (k == 4) s = fmt("+%.4f", r.uni());
    else if (k == 5) s = r.pick<const char *>({ "0", "1", "-0.0", "1e-300", ".5", "5." });
    else s = fmt("%.9g", r.uni(-1, 1));
    *v = strtod(s.c_str(), NULL);
    if (r.chance(0.1)) s = " " + s;
    if (r.chance(0.05)) s += " ";
    return s;
}
static std::vector<double> write_csv(Rng &r, const std::string &f, int n, int d, bool wide)
{
    std::vector<double> v;
    FILE *fp = fopen(f.c_str(), "w");
    const bool crlf = r.chance(0.2), last = r.chance(0.5), blanks = r.chance(0.2);
    for (int i = 0; i < n; ++i) {
        if (blanks && r.chance(0.2)) fprintf(fp, "%s", r.pick<const char *>({ "\n", "  \n", "\r\n", "\t\n" }));
        for (int j = 0; j < d; ++j) {
            double q;
            std::string s = field(r, &q);
            if (wide) s = fmt("%.17g", q = r.gauss());
            v.push_back(q);
            fprintf(fp, "%s%s", j ? "," : "", s.c_str());
        }
        if (i + 1 < n || last) fprintf(fp, crlf ? "\r\n" : "\n");
    }
    if (blanks && last && r.chance(0.3)) fprintf(fp, "\n\n");
    fclose(fp);
    return v;
}
static void csv_case(Ctx &c)
{
    Rng &r = c.rng;
    const bool wide = r.chance(0.1);
    const int xd = wide ? r.range(100, 900) : r.range(1, 8), yd = r.range(1, 4), n = r.chance(0.1) ? r.range(200, 900) : r.range(1, 20), m = r.range(1, 12);
    const std::string base = c.tmp + "/data";
    const std::vector<double> want[4] = { write_csv(r, base + "_train_x.csv", n, xd, wide), write_csv(r, base + "_train_y.csv", n, yd, false),
                                          write_csv(r, base + "_test_x.csv", m, xd, wide), write_csv(r, base + "_test_y.csv", m, yd, false) };
    struct XCSF x;
    memset(&x, r.below(256), sizeof x);
    char *argv[] = { (char *) "xcsf", (char *) "csv", (char *) base.c_str(), NULL };
    stage("env_init csv %dx%d", n, xd);
    const int files = open_files();
    env_init(&x, argv);
    CHECK(open_files() == files, "files_left_open", "%d files are left open after reading data files", open_files() - files);
    const struct EnvCSV *e = (const struct EnvCSV *) x.env;
    CHECK(x.x_dim == xd && x.y_dim == yd && x.n_actions == 1, "csv_dim", "%d columns and %d targets read as %d and %d, %d actions", xd, yd, x.x_dim, x.y_dim, x.n_actions);
    const struct Input *in[2] = { e->train_data, e->test_data };
    for (int k = 0; k < 2; ++k) {
        const int rows = k ? m : n;
        CHECK(in[k]->n_samples == rows && in[k]->x_dim == xd && in[k]->y_dim == yd, "csv_shape", "%d rows of %d+%d read as %d rows of %d+%d", rows, xd, yd, in[k]->n_samples, in[k]->x_dim, in[k]->y_dim);
        if (SH->n_viol) break;
        for (int i = 0; i < rows; ++i) {
            for (int j = 0; j < xd; ++j)
                CHECK(in[k]->x[(size_t) i * xd + j] == want[2 * k][(size_t) i * xd + j], "csv_value", "row %d column %d: %s read as %s", i, j, num(want[2 * k][(size_t) i * xd + j]).c_str(), num(in[k]->x[(size_t) i * xd + j]).c_str());
            for (int j = 0; j < yd; ++j)
                CHECK(in[k]->y[(size_t) i * yd + j] == want[2 * k + 1][(size_t) i * yd + j], "csv_value", "row %d target %d: %s read as %s", i, j, num(want[2 * k + 1][(size_t) i * yd + j]).c_str(), num(in[k]->y[(size_t) i * yd + j]).c_str());
        }
        count("csv_values", (long long) rows * (xd + yd));
    }
    count("csv_sets");
    env_free(&x);
    param_free(&x);
    Hash h;
    for (auto &w : want) for (double v : w) h.d(v);
    distinct(h.h);
}
// ---- configuration files
static std::string decorate(Rng &r, const std::string &j)
{
    std::string s;
    bool str = false;
    auto gap = [&]() {
        const int k = r.below(9);
        if (k == 0) s += " ";
        else if (k == 1) s += "\n";
        else if (k == 2) s += "\t ";
        else if (k == 3) s += "\r\n   ";
        else if (k == 4) s += fmt(" # %s\n", r.pick<const char *>({ "a comment", "\"pop_size\": 7,", "}{ # again", "it's \" one quote", "", "{" }));
    };
    if (r.chance(0.3)) s += "# leading comment\n";
    for (size_t i = 0; i < j.size(); ++i) {
        const char ch = j[i];
        if (!str && strchr("{}[],:", ch)) { gap(); s += ch; gap(); continue; }
        if (ch == '"' && (i == 0 || j[i - 1] != '\\')) str = !str;
        s += ch;
    }
    if (r.chance(0.5)) s += "\n";
    if (r.chance(0.3)) s += "# the end";
    return s;
}
static void config_case(Ctx &c)
{
    Rng &r = c.rng;
    GenOpts o;
    o.a_max = r.chance(0.4) ? 4 : 1;
    o.stochastic_layers = true;
    Cfg cfg = gen_cfg(r, o);
    std::string pf;
    if (r.chance(0.6)) {
        pf = r.pick<const char *>({ "pop.json", "my population.json", "pop#1.json", "/tmp/a b/c\td.json", "tab\tname", "" });
        std::string q;
        for (char ch : pf) { if (ch == '\t') q += "\\t"; else q += ch; }
        cfg.json = "{\"population_file\":\"" + q + "\"," + cfg.json.substr(1);
        count("config_strings");
    }
    const std::string f = c.tmp + "/config.json", d = decorate(r, cfg.json);
    FILE *fp = fopen(f.c_str(), "w");
    fputs(d.c_str(), fp);
    fclose(fp);
    struct XCSF x, y;
    memset(&x, 0, sizeof x);
    memset(&y, 0, sizeof y);
    param_init(&x, cfg.x_dim, cfg.y_dim, cfg.n_actions);
    param_init(&y, cfg.x_dim, cfg.y_dim, cfg.n_actions);
    stage("config %s", d.c_str());
    const int files = open_files();
    config_read(&x, f.c_str());
    CHECK(open_files() == files, "files_left_open", "%d files are left open after reading a configuration", open_files() - files);
    param_json_import(&y, cfg.json.c_str());
    const std::string df = flat_diff(flat_params(&x), flat_params(&y));
    CHECK(df.empty(), "config_params", "a configuration file gives %s than the same JSON; file:\n%s", df.c_str(), d.c_str());
    CHECK(!strcmp(x.population_file, y.population_file), "config_string", "population_file '%s' from the configuration file, '%s' from the same JSON", x.population_file, y.population_file);
    if (!pf.empty()) CHECK(pf == x.population_file, "config_string", "population_file '%s' was given, '%s' is in force", pf.c_str(), x.population_file);
    char *a = param_json_export(&x), *b = param_json_export(&y);
    CHECK(!strcmp(a, b), "config_export", "exports differ after a configuration file and the same JSON\n%s\n%s", a, b);
    free(a);
    free(b);
    count("config_files");
    param_free(&x);
    param_free(&y);
    Hash h;
    h.str(d);
    distinct(h.h);
}
void run_case(Ctx &c)
{
    switch (c.idx % 4) {
        case 0: mux_case(c); break;
        case 1: maze_case(c); break;
        case 2: csv_case(c); break;
        default: config_case(c);
    }
}

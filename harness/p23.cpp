// P23: reinforcement learning. A trace checker over the environment's side of
// the conversation (states, actions, rewards, ends of episodes) and the set
// updates the system performs: each step must credit the right rules, on the
// right state, with the right payoff, and nothing else.
#include "mon.h"
int n_cases(bool t) { return t ? 60000 : 10000; }

static std::string where;
static ScriptEnv *E = nullptr;

struct Upd { std::set<struct Cl *> who; Vec state; double payoff; bool ea = false; const struct Set *set; };
struct Step {
    Vec state;
    int action = -1;
    double reward = 0;
    bool done = false;
    Vec pa;                        // payoff prediction per action
    std::set<struct Cl *> aset;    // matching rules that advocate the action
    bool have_pa = false, executed = false, have_aset = false;
};
static Step cur, prev;
static bool have_prev = false, in_trial = false, explore_now = false, multi_mode = false;
static int step_in_trial = 0;
static std::vector<Upd> upds;
static std::vector<std::set<struct Cl *>> live_at; // population when each update started
static double err_before = 0;
static double last_err = NAN; // expected error of the step judged last
static bool last_err_sure = true;
static int n_ea = 0;

struct Old { double err, tol; int exp; };
static std::map<struct Cl *, Old> old_err;

static std::set<struct Cl *> popset(const struct XCSF *x)
{
    auto v = members(x->pset);
    return std::set<struct Cl *>(v.begin(), v.end());
}
static std::set<struct Cl *> inter(const std::set<struct Cl *> &a, const std::set<struct Cl *> &b)
{
    std::set<struct Cl *> r;
    for (auto *k : a) if (b.count(k)) r.insert(k);
    return r;
}
static void install()
{
    HK.post_pa = [](const struct XCSF *x, const double *) {
        if (!in_trial) return;
        cur.pa.assign(x->pa, x->pa + x->n_actions);
        cur.have_pa = true;
        std::vector<struct Cl *> m = members(x->mset);
        (void) m;
    };
    HK.pre_action = [](struct XCSF *x, int a) {
        if (!in_trial) return;
        if (!cur.executed) { cur.action = a; }
        CHECK(a == cur.action, "action", "the action set is formed for action %d, action %d was executed; %s", a, cur.action, where.c_str());
        cur.aset.clear();
        for (auto *k : members(x->mset))
            if (k->action == a) cur.aset.insert(k);
        cur.have_aset = true;
    };
    HK.pre_update = [](struct XCSF *x, struct Set *s, const double *in, const double *y, bool) {
        if (!in_trial) return;
        Upd u;
        for (auto *k : members(*s)) u.who.insert(k);
        u.state.assign(in, in + x->x_dim);
        u.payoff = y[0];
        u.set = s;
        upds.push_back(u);
        live_at.push_back(popset(x));
        count("updates");
        // the error each rule must come to hold: its prediction for the
        // state the set belongs to against the payoff
        old_err.clear();
        const std::string ln = o_loss_name(x);
        for (auto *k : u.who) {
            if (x->pred->type == PRED_TYPE_NEURAL) { ONet n(&((struct PredNeural *) k->pred)->net); if (n.memory || n.random) continue; }
            const OPred p = o_predict(x, k, in);
            bool sure = p.sure;
            const double e = o_loss(ln, p.v.data(), y, 1, x->HUBER_DELTA, &sure);
            const double f = (k->exp + 1) * x->BETA < 1 ? 1.0 / (k->exp + 1) : x->BETA;
            const double mag = std::max(1.0, p.mag);
            if (sure) old_err[k] = { k->err + (e - k->err) * f, 1e-7 * (1 + fabs(e) + fabs(k->err)) * mag * mag, k->exp };
        }
    };
    HK.post_update = [](struct XCSF *x, struct Set *, const double *, const double *, bool) {
        if (!in_trial) return;
        const std::set<struct Cl *> now = popset(x);
        for (auto &q : old_err) {
            if (!now.count(q.first)) continue; // subsumed
            count("member_errors");
            CHECK(close(q.first->err, q.second.err, 1e-8, q.second.tol), "stale", "an update left a rule with error %.12g; its prediction for the state of that set gives %.12g (step %d); %s", q.first->err, q.second.err, step_in_trial, where.c_str());
        }
    };
    HK.pre_ea = [](struct XCSF *x, const struct Set *s) {
        if (!in_trial) return;
        n_ea++;
        count("evolution_calls");
        CHECK(explore_now, "ea_exploit", "evolution runs in an exploitation step; %s", where.c_str());
        CHECK(!upds.empty() && upds.back().set == s && !upds.back().ea, "ea_set", "evolution runs on a set that was not the one just updated; %s", where.c_str());
        if (!upds.empty()) upds.back().ea = true;
    };
}
// everything the system did for the step is known: judge it
static void judge_step(struct XCSF *x)
{
    if (!cur.executed) return;
    count("steps");
    count(explore_now ? "steps_explore" : "steps_exploit");
    struct Want { std::set<struct Cl *> aset; Vec state; double payoff; const char *what; };
    std::vector<Want> want;
    CHECK(cur.have_pa && cur.have_aset, "sets", "a step ended without forming the prediction array and the action set; %s", where.c_str());
    if (!cur.have_pa || !cur.have_aset) return;
    double best = cur.pa[0];
    for (double v : cur.pa) best = std::max(best, v);
    if (have_prev) want.push_back({ prev.aset, prev.state, prev.reward + x->GAMMA * best, "previous" });
    if (cur.done) want.push_back({ cur.aset, cur.state, cur.reward, "terminal" });
    size_t i = 0;
    bool prev_gone = false;
    for (auto &w : want) {
        if (i >= upds.size()) {
            // nothing left to update if every member has been deleted
            const std::set<struct Cl *> now = popset(x);
            const bool gone = inter(w.aset, live_at.empty() ? now : live_at.back()).empty() || inter(w.aset, now).empty();
            CHECK(gone, "missing_update", "the %s action set is not updated (step %d); %s", w.what, step_in_trial, where.c_str());
            if (w.what[0] == 'p') prev_gone = true;
            continue;
        }
        const Upd &u = upds[i];
        const std::set<struct Cl *> exp = inter(w.aset, live_at[i]);
        if (exp.empty() && !u.who.empty()) { if (w.what[0] == 'p') prev_gone = true; continue; }
        if (exp.empty() && w.what[0] == 'p') prev_gone = true;
        count(w.what[0] == 'p' ? "previous_sets" : "terminal_sets");
        CHECK(u.who == exp, "wrong_set", "the %s update credits %zu rules, %zu rules of the action set are alive, %zu in common (step %d); %s", w.what,
              u.who.size(), exp.size(), inter(u.who, exp).size(), step_in_trial, where.c_str());
        bool same = true;
        for (size_t k = 0; k < w.state.size(); ++k) same = same && same_bits(w.state[k], u.state[k]);
        CHECK(same, "wrong_state", "the %s update is on another state than the one acted in (step %d); %s", w.what, step_in_trial, where.c_str());
        CHECK(close(u.payoff, w.payoff, 1e-9, 1e-12), "wrong_payoff", "the %s update uses payoff %s, expected %s (previous reward %s, gamma %s, best payoff %s, reward %s, step %d); %s", w.what,
              num(u.payoff).c_str(), num(w.payoff).c_str(), num(prev.reward).c_str(), num(x->GAMMA).c_str(), num(best).c_str(), num(cur.reward).c_str(), step_in_trial, where.c_str());
        CHECK(u.ea == explore_now, "ea", "evolution %s after the %s update although %s (step %d); %s", u.ea ? "runs" : "does not run", w.what, explore_now ? "exploring" : "exploiting", step_in_trial, where.c_str());
        ++i;
    }
    CHECK(i == upds.size(), "extra_update", "%zu set updates in a step that calls for %zu (previous step: %d, terminal: %d, step %d); %s", upds.size(), i, have_prev, cur.done, step_in_trial, where.c_str());
    // prediction error of the step
    double e = 0;
    last_err_sure = !prev_gone;
    const std::string ln = o_loss_name(x);
    bool sure = true;
    if (have_prev && !prev_gone) {
        const double p = prev.reward + x->GAMMA * cur.pa[cur.action], q = prev.pa[prev.action];
        e += o_loss(ln, &q, &p, 1, x->HUBER_DELTA, &sure) / E->max_p;
    }
    if (cur.done) {
        const double q = cur.pa[cur.action];
        e += o_loss(ln, &q, &cur.reward, 1, x->HUBER_DELTA, &sure) / E->max_p;
    }
    last_err_sure = last_err_sure && sure;
    last_err = e;
    if (last_err_sure) {
        count("errors_judged");
        const double w = err_before + (e - err_before) * x->BETA;
        CHECK(close(x->error, w, 1e-9, 1e-12), "error", "the system error went from %s to %s, expected %s (step error %s, step %d, done %d); %s", num(err_before).c_str(), num(x->error).c_str(),
              num(w).c_str(), num(e).c_str(), step_in_trial, cur.done, where.c_str());
    }
    err_before = x->error;
    prev = cur;
    have_prev = true;
    cur = Step();
    upds.clear();
    live_at.clear();
    step_in_trial++;
}
static bool check_choice = true;
static int trials = 0, limit = 0;
static Vec step_errs;
static double perf_sum = 0, last_reward = 0;
static int exploit_trials = 0;
static void begin_trial(struct XCSF *x, bool explore)
{
    in_trial = true;
    explore_now = explore;
    have_prev = false;
    step_in_trial = 0;
    cur = Step();
    upds.clear();
    live_at.clear();
    err_before = x->error;
    trials++;
    count("trials");
}
static void end_trial(struct XCSF *x)
{
    if (!in_trial) return;
    judge_step(x);
    CHECK(step_in_trial <= limit, "step_limit", "a trial took %d steps with the limit %d; %s", step_in_trial, limit, where.c_str());
    CHECK(step_in_trial == limit || E->done, "ended_early", "a trial ended after %d steps (limit %d) before the environment was done; %s", step_in_trial, limit, where.c_str());
    CHECK(step_in_trial >= 1, "no_step", "a trial without a step; %s", where.c_str());
    if (!explore_now) {
        perf_sum += E->multi ? step_in_trial : (last_reward > 0 ? 1 : 0);
        exploit_trials++;
    }
    in_trial = false;
}
static void p_reset(const struct XCSF *cx)
{
    struct XCSF *x = (struct XCSF *) cx;
    end_trial(x);
    se_reset(cx);
    // explore and exploit trials alternate, beginning with exploring
    begin_trial(x, trials % 2 == 0);
}
static const double *p_state(const struct XCSF *cx)
{
    struct XCSF *x = (struct XCSF *) cx;
    if (in_trial) {
        if (cur.executed) judge_step(x);
        CHECK(!(have_prev && prev.done), "step_after_end", "a step is taken after the end of the episode; %s", where.c_str());
        CHECK(x->explore == explore_now, "explore_flag", "exploration flag is %d in trial %d; %s", x->explore, trials, where.c_str());
    }
    const double *s = se_state(cx);
    cur.state.assign(s, s + cx->x_dim);
    return s;
}
static double p_execute(const struct XCSF *x, const int a)
{
    cur.action = a;
    CHECK(a >= 0 && a < x->n_actions, "action", "action %d of %d executed; %s", a, x->n_actions, where.c_str());
    if (in_trial && cur.have_pa && check_choice && (!explore_now || x->P_EXPLORE == 0)) {
        count("exploit_decisions");
        double best = cur.pa[0];
        for (double v : cur.pa) best = std::max(best, v);
        CHECK(cur.pa[a] == best, "exploit", "an exploiting step takes action %d with predicted payoff %s, the best is %s; %s", a, num(cur.pa[a]).c_str(), num(best).c_str(), where.c_str());
    }
    last_reward = se_execute(x, a);
    cur.executed = true;
    cur.reward = last_reward;
    cur.done = E->done;
    return last_reward;
}
static const struct EnvVtbl VT = { se_done, se_multi, p_execute, se_max, p_state, se_free, p_reset };

void run_case(Ctx &c)
{
    GenOpts o;
    o.a_min = 2;
    o.a_max = 5;
    o.pop_min = 4;
    o.pop_max = 60;
    o.big_nets = false;
    Cfg cfg = gen_cfg(c.rng, o);
    rand_init_seed(cfg.seed);
    where = cfg.brief() + " " + fmt("seed case %d", c.idx);
    World w(c, cfg);
    struct XCSF *x = w.x();
    E = &w.env;
    x->env_vptr = &VT;
    install();
    const int rounds = c.rng.range(1, 3);
    for (int k = 0; k < rounds; ++k) {
        const int mode = c.rng.below(3);
        E->max_len = c.rng.pick({ 1, 2, 4, 12, 40 });
        E->multi = E->max_len > 1;
        if (mode == 0) { // built-in experiment
            const int n = c.rng.range(1, 6);
            param_set_max_trials(x, n);
            limit = x->TELETRANSPORTATION;
            trials = 0;
            exploit_trials = 0;
            perf_sum = 0;
            stage("rl_exp %s", cfg.json.c_str());
            const double ret = xcs_rl_exp(x);
            end_trial(x);
            CHECK(trials == 2 * n, "trials", "%d trials run, %d pairs requested; %s", trials, n, where.c_str());
            CHECK(exploit_trials == n && close(ret, perf_sum / n, 1e-12, 0), "performance", "reported performance %s, observed %s; %s", num(ret).c_str(), num(perf_sum / n).c_str(), where.c_str());
            count("experiments");
        } else if (mode == 1) { // the step interface, driven by a caller
            limit = 1000;
            const int n = c.rng.range(1, 6);
            for (int t = 0; t < n; ++t) {
                const bool explore = c.rng.chance(0.6);
                se_reset(x);
                param_set_explore(x, explore);
                stage("steps %s", cfg.json.c_str());
                xcs_rl_init_trial(x);
                begin_trial(x, explore);
                bool done = false;
                const int maxs = c.rng.range(1, 25);
                int steps = 0;
                while (!done && steps < maxs) {
                    xcs_rl_init_step(x);
                    const double *s = p_state(x);
                    // the action taken need not be the one proposed
                    int a = xcs_rl_decision(x, s);
                    check_choice = true;
                    if (c.rng.chance(0.2)) { a = c.rng.below(x->n_actions); check_choice = false; }
                    const double rew = p_execute(x, a);
                    check_choice = true;
                    done = E->done;
                    xcs_rl_update(x, s, a, rew, done);
                    const double e = xcs_rl_error(x, a, rew, done, E->max_p);
                    judge_step(x);
                    if (last_err_sure) CHECK(close(e, last_err, 1e-9, 1e-12), "step_error", "the step error is reported as %s, expected %s; %s", num(e).c_str(), num(last_err).c_str(), where.c_str());
                    xcs_rl_end_step(x, s, a, rew);
                    ++steps;
                }
                in_trial = false;
                xcs_rl_end_trial(x);
            }
            count("driven_trials", n);
        } else { // single labelled samples
            const int n = c.rng.range(1, 12);
            Vec st(cfg.x_dim);
            for (int t = 0; t < n; ++t) {
                gen_x(c.rng, cfg, st.data());
                const int a = c.rng.below(cfg.n_actions);
                const double rew = c.rng.uni(-2, 2);
                begin_trial(x, true);
                E->max_p = 1;
                cur.state = st;
                cur.action = a;
                cur.reward = rew;
                cur.done = true;
                cur.executed = true;
                const double eb = x->error;
                stage("rl_fit %s", cfg.json.c_str());
                const double ret = xcs_rl_fit(x, st.data(), a, rew);
                err_before = eb;
                judge_step(x);
                if (last_err_sure) CHECK(close(ret, last_err, 1e-9, 1e-12), "fit_error", "the error of the sample is reported as %s, expected %s; %s", num(ret).c_str(), num(last_err).c_str(), where.c_str());
                in_trial = false;
                count("samples_fitted");
            }
        }
        if (SH->n_viol) break;
    }
    // how often, and what, exploring decides
    if (!SH->n_viol && c.idx % 8 == 0 && !cfg.recurrent) {
        Vec st(cfg.x_dim);
        gen_x(c.rng, cfg, st.data());
        const double p = c.rng.pick({ 0.0, 0.1, 0.5, 0.9, 1.0 });
        param_set_p_explore(x, p);
        std::vector<long> seen(x->n_actions, 0);
        const int n = 500;
        int draws = 0;
        std::set<int> adv;
        Vec pa;
        const bool explore = c.rng.chance(0.7);
        param_set_explore(x, explore);
        xcs_rl_init_trial(x);
        bool steady = true;
        for (int t = 0; t < n; ++t) {
            xcs_rl_init_step(x);
            const int a = xcs_rl_decision(x, st.data());
            std::set<int> ad;
            for (auto *k : members(x->mset)) ad.insert(k->action);
            Vec now(x->pa, x->pa + x->n_actions);
            if (t == 0) { adv = ad; pa = now; } // covering happens at the first
            else if (ad != adv || now != pa) steady = false;
            CHECK(ad.count(a), "decision", "decision for action %d that no matching rule advocates; %s", a, where.c_str());
            seen[a]++;
            ++draws;
            clset_free(&x->mset);
        }
        clset_free(&x->mset);
        xcs_rl_end_trial(x);
        int best = 0, ties = 0;
        for (int a = 1; a < x->n_actions; ++a) if (pa[a] > pa[best]) best = a;
        for (int a = 0; a < x->n_actions; ++a) ties += pa[a] == pa[best];
        if (steady && ties == 1) {
            count("decision_samples", draws);
            const double q = explore ? p : 0;
            for (int a = 0; a < x->n_actions; ++a) {
                const double pr = (adv.count(a) ? q / adv.size() : 0) + (a == best ? 1 - q : 0);
                const double sd = sqrt(pr * (1 - pr) * n);
                CHECK(fabs(seen[a] - pr * n) <= 6.5 * sd + (sd > 0 ? 4 : 0.001), "explore_rate", "action %d is decided %ld times of %d, expected %.1f (exploring %d, probability %g, %zu advocated, best %d); %s", a, seen[a], n, pr * n, explore, p, adv.size(), best, where.c_str());
            }
        }
    }
    Hash h;
    h.add(cfg.hash());
    h.i(x->pset.num);
    h.d(x->error);
    distinct(h.h);
    sample("%s: %lld environment steps in %lld trials", cfg.brief().c_str(), E->steps, E->trials);
}

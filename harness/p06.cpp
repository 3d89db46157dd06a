// P06: match and action set contents and covering, against an independent
// evaluation of every rule of the population taken before the code matches.
#include "mon.h"
int n_cases(bool t) { return t ? 60000 : 8000; }

static std::map<struct Cl *, Eval> pre, shown;
static std::string where;

// output that decides a new rule's match, for representations with memory
static double cur_output(const struct XCSF *x, const struct Cl *c)
{
    switch (x->cond->type) {
        case COND_TYPE_DGP: return ((const struct CondDGP *) c->cond)->dgp.state[0];
        case RULE_TYPE_DGP: return ((const struct RuleDGP *) c->cond)->dgp.state[0];
        case COND_TYPE_NEURAL: return neural_output(&((const struct CondNeural *) c->cond)->net, 0);
        case RULE_TYPE_NEURAL: return neural_output(&((const struct RuleNeural *) c->cond)->net, 0);
    }
    return 1;
}

void run_case(Ctx &c)
{
    GenOpts o;
    const int mode = c.idx % 4;
    if (mode < 2) o.a_min = 2, o.a_max = c.rng.chance(0.2) ? 9 : 5;
    o.pop_min = 2;
    o.pop_max = c.rng.chance(0.6) ? 14 : 60;
    if (c.rng.chance(0.5)) o.pop_init = 0;
    Cfg cfg = gen_cfg(c.rng, o);
    rand_init_seed(cfg.seed);
    where = cfg.brief();
    World w(c, cfg);
    HK.pre_match = [](struct XCSF *x, const double *in, bool) {
        pre.clear();
        for (auto *k : members(x->pset)) pre[k] = o_eval(x, k, in);
    };
    HK.post_match = [&cfg](struct XCSF *x, const double *in, bool cover) {
        count("match_sets");
        std::vector<struct Cl *> ps = members(x->pset), ms = members(x->mset);
        std::set<struct Cl *> pset(ps.begin(), ps.end()), mset(ms.begin(), ms.end());
        CHECK(mset.size() == ms.size(), "twice", "a rule is in the match set twice; %s", where.c_str());
        CHECK((int) ms.size() == x->mset.size, "mset-size", "match set holds %zu rules, reports %d; %s", ms.size(), x->mset.size, where.c_str());
        shown.clear();
        std::set<int> adv;          // actions advocated by accepting rules still present
        std::set<int> adv_deleted;  // ... and by ones deleted during covering
        int accepted = 0;
        bool unsure = false, all_known = true;
        for (auto &k : pre) {
            const Eval &e = k.second;
            if (!e.sure) unsure = true;
            if (!e.action_sure) all_known = false;
            if (!pset.count(k.first)) {
                if (e.match) { adv_deleted.insert(e.action); accepted++; }
                CHECK(!mset.count(k.first), "dead-in-mset", "the match set holds a rule that is no longer in the population; %s", where.c_str());
                count("deleted_in_covering");
                continue;
            }
            const bool in_m = mset.count(k.first);
            if (e.sure) {
                if (e.match && !in_m) viol("missing", "a rule accepting the input is not in the match set; %s", where.c_str());
                if (!e.match && in_m) viol("wrong", "a rule rejecting the input is in the match set (margin %g); %s", e.margin, where.c_str());
            }
            if (in_m) {
                accepted++;
                const int a = k.first->action;
                CHECK(!e.action_sure || e.action == a, "action", "rule advocates action %d, used as %d; %s", e.action, a, where.c_str());
                CHECK(a >= 0 && a < x->n_actions, "action-range", "rule action %d of %d; %s", a, x->n_actions, where.c_str());
                adv.insert(a);
                shown[k.first] = e;
            }
        }
        std::map<int, int> fresh;
        for (auto *k : ps) {
            if (pre.count(k)) continue;
            count("covered_rules");
            CHECK(cover, "uncalled-cover", "a rule was created although covering was not requested; %s", where.c_str());
            CHECK(mset.count(k), "new-missing", "a rule created for the input is not in the match set; %s", where.c_str());
            const int a = k->action;
            CHECK(a >= 0 && a < x->n_actions, "action-range", "covered rule has action %d of %d; %s", a, x->n_actions, where.c_str());
            fresh[a]++;
            Eval e;
            if (!cfg.recurrent) {
                e = o_eval(x, k, in);
                CHECK(!e.sure || e.match, "new-nomatch", "a rule created by covering rejects the input (margin %g); %s", e.margin, where.c_str());
                CHECK(!e.action_sure || e.action == a, "new-action", "a rule created for action %d advocates action %d; %s", a, e.action, where.c_str());
            } else {
                CHECK(cur_output(x, k) > 0.5 || fabs(cur_output(x, k) - 0.5) < 1e-9, "new-nomatch", "a rule created by covering outputs %g; %s", cur_output(x, k), where.c_str());
                e.action = a;
                if (x->act->type == ACT_TYPE_INTEGER && !rule_act(x)) CHECK(((struct ActInteger *) k->act)->action == a, "new-action", "a rule created for action %d advocates %d; %s", a, ((struct ActInteger *) k->act)->action, where.c_str());
            }
            shown[k] = e;
            CHECK(k->err == x->INIT_ERROR && k->fit == x->INIT_FITNESS && k->exp == 0 && k->num == 1, "new-init",
                  "covered rule starts with err=%g fit=%g exp=%d num=%d (configured %g %g 0 1); %s", k->err, k->fit, k->exp, k->num, x->INIT_ERROR, x->INIT_FITNESS, where.c_str());
            CHECK(k->time == x->time, "new-stamp", "a rule covered at time %d is stamped %d; %s", x->time, k->time, where.c_str());
            CHECK(k->size >= 1 && k->size <= 2 * (x->POP_SIZE + x->n_actions), "new-size", "a covered rule estimates its set at %g (population limit %d); %s", k->size, x->POP_SIZE, where.c_str());
            if (!unsure && all_known && x->n_actions > 1) CHECK(!adv.count(a), "needless-cover", "a rule was created for action %d although a matching rule advocates it; %s", a, where.c_str());
            if (!unsure && x->n_actions == 1) {
                bool kept = false;
                for (auto &p : pre) if (p.second.match && pset.count(p.first)) kept = true;
                CHECK(!kept, "needless-cover", "a rule was created although %d rules match; %s", accepted, where.c_str());
            }
        }
        for (auto &f : fresh) CHECK(f.second == 1, "cover-twice", "%d rules were created for action %d; %s", f.second, f.first, where.c_str());
        for (auto *k : ms) CHECK(pset.count(k), "foreign", "the match set holds a rule that is not in the population; %s", where.c_str());
        if (cover) {
            count("cover_requests");
            std::set<int> have;
            for (auto *k : ms) have.insert(k->action);
            CHECK((int) have.size() == x->n_actions, "uncovered", "%zu of %d actions advocated after covering; %s", have.size(), x->n_actions, where.c_str());
        }
        if (ms.empty()) count("empty_match_sets");
        if (!ms.empty() && ms.size() < ps.size()) count("proper_subsets");
        Hash h;
        h.add(cfg.hash());
        for (int i = 0; i < x->x_dim; ++i) h.d(in[i]);
        h.i(ms.size());
        h.i(ps.size());
        distinct(h.h);
    };
    HK.post_action = [](struct XCSF *x, int a) {
        count("action_sets");
        std::vector<struct Cl *> as = members(x->aset);
        std::set<struct Cl *> s(as.begin(), as.end());
        CHECK(s.size() == as.size(), "twice", "a rule is in the action set twice; %s", where.c_str());
        CHECK((int) as.size() == x->aset.size, "aset-size", "action set holds %zu rules, reports %d; %s", as.size(), x->aset.size, where.c_str());
        for (auto *k : members(x->mset)) {
            auto f = shown.find(k);
            const int act = f != shown.end() && f->second.action_sure ? f->second.action : k->action;
            if (act == a) CHECK(s.count(k), "aset-missing", "a matching rule advocating action %d is not in its action set; %s", a, where.c_str());
            else CHECK(!s.count(k), "aset-wrong", "a rule advocating action %d is in the action set of %d; %s", act, a, where.c_str());
            s.erase(k);
        }
        CHECK(s.empty(), "aset-foreign", "the action set of %d holds rules that are not in the match set; %s", a, where.c_str());
        if (as.size() < members(x->mset).size()) count("proper_action_subsets");
    };
    const int n = c.rng.range(3, c.thorough ? 12 : 7);
    for (int i = 0; i < n; ++i) {
        w.run(w.pick_op());
        where = cfg.brief() + " ops:" + w.trace;
    }
    count("histories");
    sample("%s; ops:%s; final rules=%d", cfg.brief().c_str(), w.trace.c_str(), w.x()->pset.size);
}

// P11: when evolution runs and how offspring start. Follows each offspring
// from the copying of its parent to its insertion, absorption or release.
#include "mon.h"
int n_cases(bool t) { return t ? 20000 : 2000; }

static std::string where;
struct Old { int exp, num, time, age, mtotal; double err, fit, size; uint64_t body; };
static std::map<struct Cl *, Old> old;
static std::vector<struct Cl *> mem;
static int time0, total0, due; // due: 1 yes, 0 no, -1 undecided
static bool in_ea = false, saw_limit = false;
struct Kid { struct Cl *parent; struct Cl *mate = nullptr; int pnum = 0, mnum = 0; bool cmod = false, mmod = false, crossed = false, mutated = false, freed = false; };
static std::map<struct Cl *, Kid> kids;              // live offspring
static std::vector<std::pair<struct Cl *, Kid>> done; // released offspring (their addresses may be reused)
static Nums at_limit;
static int total_at_limit;
static int ea_calls;

static uint64_t body(const struct XCSF *x, const struct Cl *k)
{
    Flat f;
    flat_cond(f, x, k);
    flat_pred(f, x, k);
    flat_act(f, x, k);
    f.arr("prediction", k->prediction, x->y_dim);
    return f.hash();
}
// checks on an offspring's start values; fates are handled by the caller
static void check_kid(const struct XCSF *x, struct Cl *k)
{
    auto f = kids.find(k);
    CHECK(k->exp == 0 && k->num == 1, "offspring-start", "offspring inserted with experience %d and numerosity %d; %s", k->exp, k->num, where.c_str());
    CHECK(k->time == x->time, "offspring-time", "offspring inserted with time %d at time %d; %s", k->time, x->time, where.c_str());
    if (f != kids.end() && old.count(f->second.parent)) {
        const Kid &d = f->second;
        const Old &p = old[d.parent];
        CHECK(k->size == p.size, "offspring-size", "offspring starts with set size %.12g, its parent has %.12g; %s", k->size, p.size, where.c_str());
        if (d.crossed && d.mate && old.count(d.mate)) {
            const Old &q = old[d.mate];
            const double we = x->ea->err_reduc * (d.cmod ? (p.err + q.err) / 2 : p.err);
            const double wf = x->ea->fit_reduc * (d.cmod ? (p.fit / d.pnum + q.fit / d.mnum) / 2 : p.fit / d.pnum);
            count(d.cmod ? "offspring_crossed" : "offspring_uncrossed");
            CHECK(close(k->err, we, 1e-12), "offspring-error", "offspring error %.12g, expected %.12g (parents %.12g %.12g, crossed %d); %s", k->err, we, p.err, q.err, d.cmod, where.c_str());
            CHECK(close(k->fit, wf, 1e-12), "offspring-fitness", "offspring fitness %.12g, expected %.12g (parents %.12g/%d %.12g/%d, crossed %d); %s", k->fit, wf, p.fit, d.pnum, q.fit, d.mnum, d.cmod, where.c_str());
            return;
        }
    }
    // not followed: some pair of members must explain the values
    bool ok = false;
    for (auto *a : mem) for (auto *b : mem) {
        if (ok) break;
        const Old &p = old[a], &q = old[b];
        if (k->size != p.size) continue;
        for (int i = 0; i <= x->ea->lambda && !ok; ++i) for (int j = 0; j <= x->ea->lambda && !ok; ++j) {
            const double e1 = x->ea->err_reduc * (p.err + q.err) / 2, e2 = x->ea->err_reduc * p.err;
            const double f1 = x->ea->fit_reduc * (p.fit / (p.num + i) + q.fit / (q.num + j)) / 2, f2 = x->ea->fit_reduc * p.fit / (p.num + i);
            if ((close(k->err, e1, 1e-10) && close(k->fit, f1, 1e-10)) || (close(k->err, e2, 1e-10) && close(k->fit, f2, 1e-10))) ok = true;
        }
    }
    CHECK(ok, "offspring-origin", "offspring err=%g fit=%g size=%g is explained by no pair of parents in the set; %s", k->err, k->fit, k->size, where.c_str());
}

void run_case(Ctx &c)
{
    GenOpts o;
    const bool rl = c.idx % 3 == 0;
    if (rl) o.a_min = 2, o.a_max = 4;
    o.pop_min = 8;
    o.pop_max = c.rng.chance(0.5) ? 300 : 40;
    o.p_theta_low = 0.5;
    Cfg cfg = gen_cfg(c.rng, o);
    rand_init_seed(cfg.seed);
    where = cfg.brief();
    World w(c, cfg);
    HK.pre_ea = [](struct XCSF *x, const struct Set *s) {
        ea_calls++;
        old.clear(); kids.clear(); done.clear();
        mem = members(*s);
        for (auto *k : members(x->pset)) old[k] = { k->exp, k->num, k->time, k->age, k->mtotal, k->err, k->fit, k->size, body(x, k) };
        for (auto *k : mem) if (!old.count(k)) old[k] = { k->exp, k->num, k->time, k->age, k->mtotal, k->err, k->fit, k->size, body(x, k) };
        time0 = x->time;
        total0 = x->pset.num;
        long double st = 0, sn = 0;
        for (auto *k : mem) { st += (long double) k->time * k->num; sn += k->num; }
        if (mem.empty()) due = 0;
        else {
            const double d1 = (double) (time0 + 1 - st / sn), d2 = (double) (time0 + 1 - st / s->num);
            const double th = x->ea->theta;
            const int a = d1 >= th, b = d2 >= th;
            due = a == b && fabs(d1 - th) > 1e-9 && fabs(d2 - th) > 1e-9 ? a : (d1 == th && d2 == th && s->num == sn ? 1 : -1);
            if (d1 == th && d2 == th) count("exactly_due");
        }
        in_ea = true;
        saw_limit = false;
    };
    HK.post_copy = [](const struct XCSF *, struct Cl *d, const struct Cl *s) {
        if (!in_ea) return;
        Kid k;
        k.parent = (struct Cl *) s;
        kids[d] = k;
        CHECK(has(mem, s), "parent-outside", "an offspring was copied from a rule outside the set; %s", where.c_str());
    };
    HK.pre_cross = [](const struct XCSF *, struct Cl *a, struct Cl *b) {
        if (!in_ea || !kids.count(a) || !kids.count(b)) return;
        Kid &p = kids[a], &q = kids[b];
        p.mate = q.parent; q.mate = p.parent;
        p.pnum = q.mnum = p.parent->num;
        q.pnum = p.mnum = q.parent->num;
    };
    HK.post_cross = [](const struct XCSF *x, struct Cl *a, struct Cl *b, bool r) {
        if (!in_ea || !kids.count(a) || !kids.count(b)) return;
        kids[a].crossed = kids[b].crossed = true;
        kids[a].cmod = kids[b].cmod = r;
        if (x->ea->p_crossover == 0) CHECK(!r, "crossover-rate", "crossover happened with probability zero; %s", where.c_str());
    };
    HK.post_mutate = [](const struct XCSF *, struct Cl *a, bool r) {
        if (!in_ea || !kids.count(a)) return;
        kids[a].mutated = true;
        kids[a].mmod = r;
    };
    HK.pre_free = [](const struct XCSF *x, struct Cl *k) {
        if (!in_ea || saw_limit) return;
        auto f = kids.find(k);
        if (f == kids.end()) return;
        f->second.freed = true;
        const Kid &d = f->second;
        if (d.crossed && d.mutated) {
            if (!d.cmod && !d.mmod) count("offspring_copies");
            else {
                count("offspring_absorbed");
                CHECK(x->ea->subsumption, "offspring-lost", "an altered offspring was discarded although nothing may absorb it; %s", where.c_str());
            }
        }
        done.push_back({ k, d });
        kids.erase(f);
    };
    HK.pre_limit = [](struct XCSF *x) {
        if (!in_ea || saw_limit) return;
        saw_limit = true;
        at_limit = nums(x);
        total_at_limit = x->pset.num;
    };
    HK.post_ea = [&cfg](struct XCSF *x, const struct Set *) {
        in_ea = false;
        count("ea_calls");
        CHECK(x->time == time0 + 1, "clock", "the clock went from %d to %d in one evolutionary call; %s", time0, x->time, where.c_str());
        std::vector<std::pair<struct Cl *, Kid>> all = done;
        for (auto &k : kids) all.push_back(k);
        const bool ran = saw_limit || !all.empty();
        std::vector<struct Cl *> ps = members(x->pset);
        int fresh = 0, alive = 0;
        for (auto *k : ps) if (!old.count(k)) fresh++;
        bool grew = false, stamped = true;
        for (auto *k : ps) { auto f = old.find(k); if (f != old.end() && k->num > f->second.num) grew = true; }
        for (auto *k : mem) if (k->num > 0) { alive++; if (k->time != x->time) stamped = false; }
        const bool did = fresh > 0 || grew || ran;
        if (due == 0) {
            count("not_due");
            CHECK(!did, "not-due", "evolution ran although it was not due; %s", where.c_str());
            for (auto *k : ps) {
                auto f = old.find(k);
                if (f == old.end()) continue;
                const Old &q = f->second;
                CHECK(k->time == q.time && k->num == q.num && same_bits(k->err, q.err) && same_bits(k->fit, q.fit) && k->exp == q.exp && k->size == q.size && body(x, k) == q.body,
                      "not-due-changed", "a rule was altered although evolution was not due; %s", where.c_str());
            }
            return;
        }
        if (due == 1) {
            count("due");
            CHECK(stamped, "stamp", "evolution was due and left a member of the set with an old time stamp; %s", where.c_str());
            const int want = 2 * ((x->ea->lambda + 1) / 2);
            if (saw_limit) CHECK(total_at_limit == total0 + want, "offspring-number", "%d offspring accounted for, configured %d; %s", total_at_limit - total0, want, where.c_str());
            else CHECK(x->pset.num == std::min(x->POP_SIZE, total0 + want), "offspring-number", "population went from %d to %d units, configured %d offspring; %s", total0, x->pset.num, want, where.c_str());
            if (!all.empty()) CHECK((int) all.size() == want, "offspring-created", "%zu offspring were created, configured %d; %s", all.size(), want, where.c_str());
            for (auto *k : ps) {
                auto f = old.find(k);
                if (f == old.end()) { count("offspring_inserted"); check_kid(x, k); continue; }
                const Old &q = f->second;
                count("bystanders");
                CHECK(same_bits(k->err, q.err) && same_bits(k->fit, q.fit) && k->exp == q.exp && k->size == q.size && k->age == q.age && k->mtotal == q.mtotal,
                      "parent-stats", "evolution altered the statistics of an existing rule; %s", where.c_str());
                CHECK(body(x, k) == q.body, "parent-body", "evolution altered the contents of an existing rule; %s", where.c_str());
                if (!has(mem, k)) CHECK(k->time == q.time, "stamp-outside", "evolution changed the time stamp of a rule outside the set; %s", where.c_str());
            }
            // fates
            if (saw_limit) {
                std::map<struct Cl *, int> copies;
                long long absorbed = 0;
                bool followed = true;
                for (auto &a : all) {
                    const Kid &k = a.second;
                    if (!k.crossed || !k.mutated) followed = false;
                    const bool ins = !k.freed && at_limit.count(a.first);
                    CHECK(ins != k.freed, "fate", "an offspring was neither inserted nor released; %s", where.c_str());
                    if (!k.cmod && !k.mmod) {
                        copies[k.parent]++;
                        if (k.crossed && k.mutated) CHECK(!ins, "copy-inserted", "an unchanged offspring was inserted instead of counted; %s", where.c_str());
                    } else if (!ins) absorbed++;
                }
                if (followed && !all.empty()) {
                    long long extra = 0;
                    for (auto &k : at_limit) {
                        auto f = old.find(k.first);
                        if (f == old.end()) continue;
                        const int inc = k.second - f->second.num, own = copies.count(k.first) ? copies[k.first] : 0;
                        CHECK(inc >= own, "copy-uncounted", "a parent with %d unchanged offspring gained %d; %s", own, inc, where.c_str());
                        extra += inc - own;
                    }
                    CHECK(extra == absorbed, "absorbed-count", "%lld offspring absorbed, %lld units gained for them; %s", absorbed, extra, where.c_str());
                }
            }
            Hash h;
            h.add(cfg.hash());
            h.i(x->time);
            h.i(ps.size());
            for (auto *k : mem) h.d(k->fit);
            distinct(h.h);
        }
    };
    const int n = c.rng.range(2, c.thorough ? 10 : 5);
    for (int i = 0; i < n; ++i) {
        ea_calls = 0;
        if (!rl && c.rng.chance(0.4)) {
            Data d = gen_data(c.rng, cfg, 7);
            Input in = d.in();
            const int tr = c.rng.range(1, 40);
            xcs_supervised_fit(w.x(), &in, NULL, true, 0, tr);
            w.trace += " fit*";
            CHECK(ea_calls == tr, "ea-calls", "evolution was considered %d times in %d training trials; %s", ea_calls, tr, where.c_str());
        } else {
            const Op op = w.pick_op();
            w.run(op);
            if (op != OP_FIT && op != OP_FIT_TEST && op != OP_RL && op != OP_RLFIT)
                CHECK(ea_calls == 0, "ea-uncalled", "%s evolved rules; %s", OP_NAME[op], where.c_str());
        }
        where = cfg.brief() + " ops:" + w.trace;
    }
    count("histories");
    sample("%s theta=%g lambda=%d; ops:%s", cfg.brief().c_str(), w.x()->ea->theta, w.x()->ea->lambda, w.trace.c_str());
}

// P05: exact population bookkeeping. Audits the population at every hook of
// every trial and accounts for each change of the total numerosity.
#include "mon.h"
int n_cases(bool t) { return t ? 40000 : 6000; }

static bool running = false;
static Nums last;
static std::string where;

static void audit(const struct XCSF *x, const char *at)
{
    count("audits");
    const long cap = (long) x->POP_SIZE + 100000;
    std::vector<struct Cl *> m = members(x->pset, (int) cap);
    CHECK((long) m.size() < cap, "endless-list", "%s: population list does not end; %s", at, where.c_str());
    std::set<struct Cl *> d(m.begin(), m.end());
    CHECK(d.size() == m.size(), "duplicate", "%s: a rule is in the population twice (%zu entries, %zu rules); %s", at, m.size(), d.size(), where.c_str());
    CHECK((int) m.size() == x->pset.size, "size", "%s: population holds %zu rules, reports %d; %s", at, m.size(), x->pset.size, where.c_str());
    long long tot = 0;
    for (auto *c : m) {
        tot += c->num;
        if (c->num < 1) { viol("num-below-one", "%s: rule with numerosity %d in the population; %s", at, c->num, where.c_str()); break; }
    }
    CHECK(tot == x->pset.num, "num", "%s: numerosities sum to %lld, population reports %d; %s", at, tot, x->pset.num, where.c_str());
    CHECK(tot <= x->POP_SIZE, "limit", "%s: total numerosity %lld above the limit %d; %s", at, tot, x->POP_SIZE, where.c_str());
}
static void unchanged(const struct XCSF *x, const char *at)
{
    Nums n = nums(x);
    CHECK(n == last, "between", "%s: the population changed outside matching, updating and evolving (%zu->%zu rules, %lld->%lld units); %s",
          at, last.size(), n.size(), total(last), total(n), where.c_str());
}

void run_case(Ctx &c)
{
    GenOpts o;
    if (c.idx % 3 == 0) o.a_min = 2, o.a_max = 4;
    o.pop_min = 3;
    o.pop_max = c.rng.chance(0.5) ? 15 : 80;
    o.stochastic_layers = c.rng.chance(0.1);
    Cfg cfg = gen_cfg(c.rng, o);
    rand_init_seed(cfg.seed);
    where = cfg.brief();
    World w(c, cfg);
    // monitors
    static Nums before;
    HK.pre_match = [](struct XCSF *x, const double *, bool) { unchanged(x, "before matching"); before = nums(x); };
    HK.post_match = [](struct XCSF *x, const double *, bool cover) {
        audit(x, "after matching");
        Nums n = nums(x);
        long long removed = 0, added = 0;
        for (auto &k : before) {
            auto f = n.find(k.first);
            const int now = f == n.end() ? 0 : f->second;
            if (now > k.second) viol("match-grew", "matching raised the numerosity of a rule from %d to %d; %s", k.second, now, where.c_str());
            removed += k.second - now;
        }
        for (auto &k : n)
            if (!before.count(k.first)) {
                added++;
                CHECK(k.second == 1, "cover-num", "covering created a rule with numerosity %d; %s", k.second, where.c_str());
            }
        if (!cover) CHECK(n == before, "nocover-changed", "matching without covering changed the population; %s", where.c_str());
        if (removed) {
            count("units_deleted_covering", removed);
            CHECK(total(n) == x->POP_SIZE, "over-deletion", "covering deleted %lld units and left %lld of at most %d; %s", removed, total(n), x->POP_SIZE, where.c_str());
        }
        if (added) count("rules_covered", added);
        last = n;
    };
    HK.pre_update = [](struct XCSF *x, struct Set *, const double *, const double *, bool) { unchanged(x, "before updating"); before = nums(x); };
    HK.post_update = [](struct XCSF *x, struct Set *, const double *, const double *, bool) {
        audit(x, "after updating");
        Nums n = nums(x);
        CHECK(total(n) == total(before), "update-total", "updating a set changed the total numerosity from %lld to %lld (%zu to %zu rules); %s",
              total(before), total(n), before.size(), n.size(), where.c_str());
        for (auto &k : n) CHECK(before.count(k.first), "update-new", "updating created a rule; %s", where.c_str());
        if (!x->SET_SUBSUMPTION) CHECK(n == before, "update-changed", "updating changed numerosities although subsumption is off; %s", where.c_str());
        if (n.size() < before.size()) count("rules_subsumed", before.size() - n.size());
        last = n;
    };
    HK.pre_ea = [](struct XCSF *x, const struct Set *) { unchanged(x, "before evolving"); before = nums(x); };
    HK.post_ea = [](struct XCSF *x, const struct Set *) {
        audit(x, "after evolving");
        Nums n = nums(x);
        const long long t0 = total(before), t1 = total(n);
        const long long full = std::min<long long>(x->POP_SIZE, t0 + 2 * ((x->ea->lambda + 1) / 2));
        CHECK(t1 == t0 || t1 == full, "ea-total", "evolving took the total numerosity from %lld to %lld (limit %d, %d offspring); %s", t0, t1, x->POP_SIZE, x->ea->lambda, where.c_str());
        long long removed = 0;
        for (auto &k : before) {
            auto f = n.find(k.first);
            const int now = f == n.end() ? 0 : f->second;
            if (now < k.second) removed += k.second - now;
        }
        if (removed) {
            count("units_deleted_evolving", removed);
            CHECK(t1 == x->POP_SIZE, "over-deletion", "evolving deleted %lld units and left %lld of at most %d; %s", removed, t1, x->POP_SIZE, where.c_str());
        }
        for (auto &k : n)
            if (!before.count(k.first)) {
                count("offspring_inserted");
                CHECK(k.second == 1, "offspring-num", "offspring inserted with numerosity %d; %s", k.second, where.c_str());
            }
        last = n;
    };
    HK.pre_free = [](const struct XCSF *x, struct Cl *c) {
        if (!running) return;
        count("rules_released");
        CHECK(!has(members(x->pset), c), "live-released", "a rule still in the population was released; %s", where.c_str());
    };
    audit(w.x(), "after initialisation");
    if (w.x()->POP_INIT) CHECK(w.x()->pset.num == w.x()->POP_SIZE, "init", "initial population holds %d of %d; %s", w.x()->pset.num, w.x()->POP_SIZE, where.c_str());
    else CHECK(w.x()->pset.num == 0, "init", "initial population holds %d rules, none were asked for; %s", w.x()->pset.num, where.c_str());
    const int n = c.rng.range(4, c.thorough ? 25 : 12);
    for (int i = 0; i < n; ++i) {
        const Op op = w.pick_op();
        struct XCSF *x = w.x();
        last = nums(x);
        const long long t0 = x->pset.num;
        running = op != OP_LOADOTHER && op != OP_SAVELOAD && op != OP_STORE && op != OP_RETRIEVE;
        long long stored = 0;
        for (auto *k : members(x->prev_pset)) stored += k->num;
        const bool ret = op == OP_RETRIEVE && x->prev_pset.size > 0;
        const int psz = x->pset.size;
        const int ssz = x->prev_pset.size;
        w.run(op);
        running = false;
        x = w.x();
        where = cfg.brief() + " ops:" + w.trace;
        audit(x, "after an operation");
        switch (op) {
            case OP_REINSERT:
                if (w.json_ok)
                    CHECK(x->pset.num == std::min<long long>(x->POP_SIZE, 2 * t0), "insert-total", "inserting %lld units into %lld gave %d (limit %d); %s", t0, t0, x->pset.num, x->POP_SIZE, where.c_str());
                break;
            case OP_SAVELOAD: case OP_LOADOTHER: case OP_STORE: case OP_EXPORT: case OP_PRINT: case OP_PARAMS:
                CHECK(x->pset.num == t0 && x->pset.size == psz, "op-total", "%s changed the population from %d rules/%lld units to %d/%d; %s",
                      OP_NAME[op], psz, t0, x->pset.size, x->pset.num, where.c_str());
                break;
            case OP_RETRIEVE:
                if (ret) CHECK(x->pset.num == stored && x->pset.size == ssz, "retrieve-total", "retrieving a stored population of %d rules/%lld units gave %d/%d; %s", ssz, stored, x->pset.size, x->pset.num, where.c_str());
                break;
            default: unchanged(x, "end of operation"); break;
        }
    }
    count("histories");
    Hash h;
    h.add(cfg.hash());
    h.str(w.trace);
    distinct(h.h);
    sample("%s; ops:%s; final rules=%d units=%d limit=%d", cfg.brief().c_str(), w.trace.c_str(), w.x()->pset.size, w.x()->pset.num, w.x()->POP_SIZE);
}

// Run-time hooks on the calls that make up a trial. Each symbol is wrapped by
// the linker (-Wl,--wrap=...); the wrapped call runs the property's monitor
// before and after the real function, which sees the real arguments and state.
#pragma once
#include "ops.h"
#include "oracle.h"

struct Hooks {
    std::function<void(struct XCSF *, const double *, bool)> pre_match, post_match;
    std::function<void(const struct XCSF *, const double *)> pre_pa, post_pa;
    std::function<void(struct XCSF *, int)> pre_action, post_action;
    std::function<void(struct XCSF *, struct Set *, const double *, const double *, bool)> pre_update, post_update;
    std::function<void(struct XCSF *, const struct Set *)> pre_ea, post_ea;
    std::function<void(const struct XCSF *, struct Cl *)> pre_free;
    std::function<void(struct XCSF *)> pre_limit, post_limit;
    std::function<void(const struct XCSF *, struct Cl *, const struct Cl *)> pre_copy, post_copy;
    std::function<void(const struct XCSF *, struct Cl *, struct Cl *)> pre_cross;
    std::function<void(const struct XCSF *, struct Cl *, struct Cl *, bool)> post_cross;
    std::function<void(const struct XCSF *, struct Cl *)> pre_mutate;
    std::function<void(const struct XCSF *, struct Cl *, bool)> post_mutate;
};
static Hooks HK;
#define CALL(h, ...) do { if (HK.h && !g_quiet) HK.h(__VA_ARGS__); } while (0)

extern "C" {
#ifdef WRAP_clset_match
void __real_clset_match(struct XCSF *x, const double *in, const bool cover);
void __wrap_clset_match(struct XCSF *x, const double *in, const bool cover)
{
    CALL(pre_match, x, in, cover);
    __real_clset_match(x, in, cover);
    CALL(post_match, x, in, cover);
}
#endif
#ifdef WRAP_pa_build
void __real_pa_build(const struct XCSF *x, const double *in);
void __wrap_pa_build(const struct XCSF *x, const double *in)
{
    CALL(pre_pa, x, in);
    __real_pa_build(x, in);
    CALL(post_pa, x, in);
}
#endif
#ifdef WRAP_clset_action
void __real_clset_action(struct XCSF *x, const int a);
void __wrap_clset_action(struct XCSF *x, const int a)
{
    CALL(pre_action, x, a);
    __real_clset_action(x, a);
    CALL(post_action, x, a);
}
#endif
#ifdef WRAP_clset_update
void __real_clset_update(struct XCSF *x, struct Set *s, const double *in, const double *y, const bool cur);
void __wrap_clset_update(struct XCSF *x, struct Set *s, const double *in, const double *y, const bool cur)
{
    CALL(pre_update, x, s, in, y, cur);
    __real_clset_update(x, s, in, y, cur);
    CALL(post_update, x, s, in, y, cur);
}
#endif
#ifdef WRAP_ea
void __real_ea(struct XCSF *x, const struct Set *s);
void __wrap_ea(struct XCSF *x, const struct Set *s)
{
    CALL(pre_ea, x, s);
    __real_ea(x, s);
    CALL(post_ea, x, s);
}
#endif
#ifdef WRAP_cl_free
void __real_cl_free(const struct XCSF *x, struct Cl *c);
void __wrap_cl_free(const struct XCSF *x, struct Cl *c)
{
    CALL(pre_free, x, c);
    __real_cl_free(x, c);
}
#endif
#ifdef WRAP_clset_pset_enforce_limit
void __real_clset_pset_enforce_limit(struct XCSF *x);
void __wrap_clset_pset_enforce_limit(struct XCSF *x)
{
    CALL(pre_limit, x);
    __real_clset_pset_enforce_limit(x);
    CALL(post_limit, x);
}
#endif
#ifdef WRAP_cl_copy
void __real_cl_copy(const struct XCSF *x, struct Cl *d, const struct Cl *s);
void __wrap_cl_copy(const struct XCSF *x, struct Cl *d, const struct Cl *s)
{
    CALL(pre_copy, x, d, s);
    __real_cl_copy(x, d, s);
    CALL(post_copy, x, d, s);
}
#endif
#ifdef WRAP_cl_crossover
bool __real_cl_crossover(const struct XCSF *x, struct Cl *a, struct Cl *b);
bool __wrap_cl_crossover(const struct XCSF *x, struct Cl *a, struct Cl *b)
{
    CALL(pre_cross, x, a, b);
    const bool r = __real_cl_crossover(x, a, b);
    CALL(post_cross, x, a, b, r);
    return r;
}
#endif
#ifdef WRAP_cl_mutate
bool __real_cl_mutate(const struct XCSF *x, struct Cl *c);
bool __wrap_cl_mutate(const struct XCSF *x, struct Cl *c)
{
    CALL(pre_mutate, x, c);
    const bool r = __real_cl_mutate(x, c);
    CALL(post_mutate, x, c, r);
    return r;
}
#endif
}

typedef std::map<struct Cl *, int> Nums;
inline Nums nums(const struct XCSF *x)
{
    Nums m;
    for (auto *c : members(x->pset)) m[c] = c->num;
    return m;
}
inline long long total(const Nums &m)
{
    long long t = 0;
    for (auto &k : m) t += k.second;
    return t;
}
inline bool has(const std::vector<struct Cl *> &v, const struct Cl *c)
{
    return std::find(v.begin(), v.end(), c) != v.end();
}

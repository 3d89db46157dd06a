// Core of the verification harness: deterministic random source, per-case
// context (event counters, distinct-case hashes, samples, violations) and the
// C interface of the code under test.
#pragma once
#include <algorithm>
#include <cinttypes>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <omp.h>

extern "C" {
#include "act_integer.h"
#include "act_neural.h"
#include "action.h"
#include "blas.h"
#include "cl.h"
#include "clset.h"
#include "clset_neural.h"
#include "cond_dgp.h"
#include "cond_dummy.h"
#include "cond_ellipsoid.h"
#include "cond_gp.h"
#include "cond_neural.h"
#include "cond_rectangle.h"
#include "cond_ternary.h"
#include "condition.h"
#include "config.h"
#include "dgp.h"
#include "ea.h"
#include "env.h"
#include "env_csv.h"
#include "env_maze.h"
#include "env_mux.h"
#include "gp.h"
#include "image.h"
#include "loss.h"
#include "neural.h"
#include "neural_activations.h"
#include "neural_layer.h"
#include "neural_layer_args.h"
#include "neural_layer_connected.h"
#include "pa.h"
#include "param.h"
#include "perf.h"
#include "pred_constant.h"
#include "pred_neural.h"
#include "pred_nlms.h"
#include "pred_rls.h"
#include "prediction.h"
#include "rule_dgp.h"
#include "rule_neural.h"
#include "sam.h"
#include "utils.h"
#include "xcs_rl.h"
#include "xcs_supervised.h"
#include "xcsf.h"
}

// Seeds the library's generator and makes sure that no Gaussian computed
// before is left over in rand_normal(), whatever its implementation.
inline void reseed(uint32_t seed)
{
    rand_init_seed(12345);
    const double v1 = rand_normal(0, 1);
    rand_normal(0, 1);
    rand_init_seed(12345);
    if (rand_normal(0, 1) == v1) rand_normal(0, 1);
    rand_init_seed(seed);
}

inline uint64_t mix64(uint64_t z)
{
    z += 0x9e3779b97f4a7c15ULL;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed) {}
    uint64_t u64() { s += 0x9e3779b97f4a7c15ULL; return mix64(s); }
    int below(int n) { return n <= 1 ? 0 : (int) (u64() % (uint64_t) n); }
    int range(int a, int b) { return a + below(b - a + 1); } // inclusive
    double uni() { return (u64() >> 11) * (1.0 / 9007199254740992.0); }
    double uni(double a, double b) { return a + uni() * (b - a); }
    bool chance(double p) { return uni() < p; }
    double gauss()
    {
        double u = uni() + 1e-18, v = uni();
        return sqrt(-2 * log(u)) * cos(2 * M_PI * v);
    }
    template <class T> T pick(std::initializer_list<T> l)
    {
        return *(l.begin() + below((int) l.size()));
    }
    template <class T> const T &pick(const std::vector<T> &l)
    {
        return l[below((int) l.size())];
    }
};

struct Hash {
    uint64_t h = 0xcbf29ce484222325ULL;
    void add(uint64_t v) { h = mix64(h ^ v) + 0x632be59bd9b4e019ULL; }
    void d(double v)
    {
        uint64_t u;
        memcpy(&u, &v, 8);
        add(u);
    }
    void i(int64_t v) { add((uint64_t) v); }
    void str(const std::string &s) { for (unsigned char c : s) add(c); add(s.size()); }
};

// Result area shared with the parent process: survives a crash of the case.
struct Shared {
    int done;
    int n_viol;
    struct { char key[96]; char msg[2400]; } viol[12];
    int n_cnt;
    struct { char name[56]; long long v; } cnt[160];
    int n_sample;
    char sample[3][1200];
    int n_hash;
    uint64_t hash[4096];
    char stage[2000];
};
extern Shared *SH;

struct Ctx {
    Rng rng;
    uint64_t seed = 0;
    int idx = 0;
    bool thorough = false;
    bool verbose = false;
    std::string tmp; // private scratch directory of this case's worker
};

void count(const char *name, long long n = 1);
void distinct(uint64_t h);
void sample(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void stage(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void viol(const char *key, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
#define CHECK(cond, key, ...) \
    do { if (!(cond)) viol(key, __VA_ARGS__); } while (0)

// Property interface.
int n_cases(bool thorough);
void run_case(Ctx &c);

// Closeness with both relative and absolute tolerance; NaN equals NaN.
inline bool close(double a, double b, double rel = 1e-9, double abs_ = 1e-12)
{
    if (a == b) return true;
    if (std::isnan(a) && std::isnan(b)) return true;
    return fabs(a - b) <= abs_ + rel * std::max(fabs(a), fabs(b));
}
inline bool same_bits(double a, double b) { return memcmp(&a, &b, 8) == 0; }

std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
std::string num(double v); // shortest round-trip text

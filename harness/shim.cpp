// Linked into the Python module under test: the core's own operations on a
// second system (the twin), for comparison with what the Python object does.
#include "core.h"

#define API extern "C" __attribute__((visibility("default")))

struct Twin {
    struct XCSF x;
    std::string out;
};

API void
t_seed(const uint32_t s)
{
    reseed(s);
}

API void *
t_new(const char *file)
{
    Twin *t = new Twin;
    param_init(&t->x, 1, 1, 1);
    xcsf_init(&t->x);
    xcsf_load(&t->x, file);
    return t;
}

API void
t_free(Twin *t)
{
    xcsf_free(&t->x);
    param_free(&t->x);
    delete t;
}

API void
t_save(Twin *t, const char *file)
{
    xcsf_save(&t->x, file);
}

API void
t_load(Twin *t, const char *file)
{
    xcsf_load(&t->x, file);
}

API int
t_decision(Twin *t, const double *s, const int explore)
{
    param_set_explore(&t->x, explore != 0);
    return xcs_rl_decision(&t->x, s);
}

API void
t_update(Twin *t, const double *s, const int a, const double r, const int done)
{
    xcs_rl_update(&t->x, s, a, r, done != 0);
}

API double
t_error(Twin *t, const int a, const double r, const int done, const double max_p)
{
    return xcs_rl_error(&t->x, a, r, done != 0, max_p);
}

API void
t_rl(Twin *t, const int what, const double *s, const int a, const double r)
{
    switch (what) {
        case 0: xcs_rl_init_trial(&t->x); break;
        case 1: xcs_rl_init_step(&t->x); break;
        case 2: xcs_rl_end_step(&t->x, s, a, r); break;
        default: xcs_rl_end_trial(&t->x); break;
    }
}

API double
t_rlfit(Twin *t, const double *s, const int a, const double r)
{
    return xcs_rl_fit(&t->x, s, a, r);
}

static struct Input
input(const double *x, const double *y, const int n, const struct XCSF *s)
{
    struct Input d;
    d.n_samples = n;
    d.x_dim = s->x_dim;
    d.y_dim = s->y_dim;
    d.x = (double *) x;
    d.y = (double *) y;
    return d;
}

API double
t_fit(Twin *t, const double *x, const double *y, const int n, const int shuffle, const int start, const int trials)
{
    const struct Input d = input(x, y, n, &t->x);
    return xcs_supervised_fit(&t->x, &d, NULL, shuffle != 0, start, trials);
}

API void
t_restart(Twin *t)
{
    xcsf_free(&t->x);
    xcsf_init(&t->x);
}

API void
t_predict(Twin *t, const double *x, double *out, const int n, const double *cover)
{
    xcs_supervised_predict(&t->x, x, out, n, cover);
}

API double
t_score(Twin *t, const double *x, const double *y, const int n, const int N, const double *cover)
{
    const struct Input d = input(x, y, n, &t->x);
    return N > 0 ? xcs_supervised_score_n(&t->x, &d, N, cover) : xcs_supervised_score(&t->x, &d, cover);
}

API const char *
t_json(Twin *t, const int c, const int a, const int p)
{
    if (t->x.pset.list == NULL) return "null";
    char *s = clset_json_export(&t->x, &t->x.pset, c != 0, a != 0, p != 0);
    t->out = s;
    free(s);
    return t->out.c_str();
}

API void
t_insert(Twin *t, const char *json, const int one)
{
    if (one) {
        cJSON *j = cJSON_Parse(json);
        clset_json_insert_cl(&t->x, j);
        cJSON_Delete(j);
    } else {
        clset_json_insert(&t->x, json);
    }
}

API void
t_act(Twin *t, const int what, const int a, const int b)
{
    switch (what) {
        case 0: xcsf_store_pset(&t->x); break;
        case 1: xcsf_retrieve_pset(&t->x); break;
        case 2: xcsf_pred_expand(&t->x); break;
        default: xcsf_ae_to_classifier(&t->x, a, b); break;
    }
}

API const char *
t_params(Twin *t)
{
    char *s = param_json_export(&t->x);
    t->out = s;
    free(s);
    return t->out.c_str();
}

API void
t_set(Twin *t, const char *json)
{
    param_json_import(&t->x, json);
}

// figures of the population, recomputed from its rules where that is simple
API double
t_stat(Twin *t, const int what, const int layer)
{
    const struct XCSF *x = &t->x;
    double n = 0, cs = 0, ps = 0, num = 0;
    for (const struct Clist *i = x->pset.list; i; i = i->next) {
        ++n;
        num += i->cl->num;
        cs += cl_cond_size(x, i->cl);
        ps += cl_pred_size(x, i->cl);
    }
    switch (what) {
        case 0: return x->time;
        case 1: return n;
        case 2: return num;
        case 3: return n ? cs / n : 0;
        case 4: return n ? ps / n : 0;
        case 5: return x->mset_size;
        case 6: return x->aset_size;
        case 7: return x->mfrac;
        case 8: return x->error;
        case 9: return clset_mean_pred_eta(x, &x->pset, layer);
        case 10: return clset_mean_pred_neurons(x, &x->pset, layer);
        case 11: return clset_mean_pred_connections(x, &x->pset, layer);
        case 12: return clset_mean_pred_layers(x, &x->pset);
        case 13: return clset_mean_cond_neurons(x, &x->pset, layer);
        case 14: return clset_mean_cond_connections(x, &x->pset, layer);
        case 15: return clset_mean_cond_layers(x, &x->pset);
        case 16: return x->MAX_TRIALS;
        case 17: return x->PERF_TRIALS;
        default: return x->pa_size;
    }
}

API void
t_print(Twin *t, const int what, const int c, const int a, const int p)
{
    if (what == 0) xcsf_print_pset(&t->x, c != 0, a != 0, p != 0);
    else param_print(&t->x);
    fflush(stdout);
}

#include <malloc.h>
API double
t_heap(void)
{
    const struct mallinfo2 m = mallinfo2();
    return (double) m.uordblks + (double) m.hblkhd;
}

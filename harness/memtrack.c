// Preloaded under the Python driver of P02: follows every block (and open file)
// acquired by the xcsf module, the JSON library or the C++ library on their
// behalf, whoever gives it back. Blocks of Python and NumPy are not followed.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <link.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
extern void *__libc_malloc(size_t);
extern void *__libc_calloc(size_t, size_t);
extern void *__libc_realloc(void *, size_t);
extern void *__libc_memalign(size_t, size_t);
extern void __libc_free(void *);
#define CAP (1u << 20)
static struct { void *p; size_t n; void *site; } tab[CAP]; // open addressing
static volatile int lock;
static long long live, bytes, total, lost;
static int on;
static struct { uintptr_t a, b; } range[64];
static int n_range;
static void enter(void) { while (__sync_lock_test_and_set(&lock, 1)) { } }
static void leave(void) { __sync_lock_release(&lock); }
static unsigned slot(const void *p) { return (unsigned) ((((uintptr_t) p >> 4) * 0x9E3779B97F4A7C15ull) >> 44) & (CAP - 1); }
static int ours(void *site)
{
    for (int i = 0; i < n_range; ++i) if ((uintptr_t) site >= range[i].a && (uintptr_t) site < range[i].b) return 1;
    return 0;
}
static void put(void *p, size_t n, void *site)
{
    if (!on || !p || !ours(site)) return;
    enter();
    if (live > (long long) CAP * 3 / 4) ++lost;
    else {
        unsigned i = slot(p);
        while (tab[i].p) i = (i + 1) & (CAP - 1);
        tab[i].p = p; tab[i].n = n; tab[i].site = site;
        ++live; ++total; bytes += (long long) n;
    }
    leave();
}
static int take(void *p)
{
    if (!on || !p) return 0;
    enter();
    unsigned i = slot(p);
    while (tab[i].p && tab[i].p != p) i = (i + 1) & (CAP - 1);
    const int found = tab[i].p != NULL;
    if (found) {
        --live; bytes -= (long long) tab[i].n;
        unsigned j = i;
        for (;;) { // close the gap
            tab[i].p = NULL;
            unsigned k;
            do {
                j = (j + 1) & (CAP - 1);
                if (!tab[j].p) { leave(); return 1; }
                k = slot(tab[j].p);
            } while (i <= j ? (i < k && k <= j) : (i < k || k <= j));
            tab[i] = tab[j];
            i = j;
        }
    }
    leave();
    return found;
}
#define SITE __builtin_return_address(0)
void *malloc(size_t n) { void *p = __libc_malloc(n); put(p, n, SITE); return p; }
void *calloc(size_t a, size_t b) { void *p = __libc_calloc(a, b); put(p, a * b, SITE); return p; }
void free(void *p) { take(p); __libc_free(p); }
void *realloc(void *o, size_t n)
{
    const int had = take(o);
    void *p = __libc_realloc(o, n);
    if (had && !p && n) { put(o, 0, SITE); return p; }
    put(p, n, SITE);
    return p;
}
int posix_memalign(void **r, size_t a, size_t n) { *r = __libc_memalign(a, n); put(*r, n, SITE); return *r ? 0 : ENOMEM; }
void *aligned_alloc(size_t a, size_t n) { void *p = __libc_memalign(a, n); put(p, n, SITE); return p; }
void *memalign(size_t a, size_t n) { void *p = __libc_memalign(a, n); put(p, n, SITE); return p; }
char *strdup(const char *s)
{
    const size_t n = strlen(s) + 1;
    char *p = __libc_malloc(n);
    if (p) memcpy(p, s, n);
    put(p, n, SITE);
    return p;
}
FILE *fopen(const char *f, const char *m)
{
    static FILE *(*real)(const char *, const char *);
    if (!real) real = (FILE * (*) (const char *, const char *) ) dlsym(RTLD_NEXT, "fopen");
    FILE *p = real(f, m);
    put((char *) p + 1, 0, SITE); // the stream itself, apart from its memory
    return p;
}
int fclose(FILE *f)
{
    static int (*real)(FILE *);
    if (!real) real = (int (*)(FILE *)) dlsym(RTLD_NEXT, "fclose");
    take((char *) f + 1);
    return real(f);
}
static int each(struct dl_phdr_info *i, size_t z, void *d)
{
    (void) z; (void) d;
    if (strstr(i->dlpi_name, "/xcsf.") || strstr(i->dlpi_name, "libcjson") || strstr(i->dlpi_name, "libstdc++"))
        for (int k = 0; k < i->dlpi_phnum; ++k)
            if (i->dlpi_phdr[k].p_type == PT_LOAD && (i->dlpi_phdr[k].p_flags & PF_X) && n_range < 64) {
                range[n_range].a = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr;
                range[n_range++].b = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr + i->dlpi_phdr[k].p_memsz;
            }
    return 0;
}
int mt_start(void) { dl_iterate_phdr(each, NULL); on = n_range > 0; return n_range; }
long long mt_figure(int what) { return what == 0 ? live : what == 1 ? bytes : what == 2 ? total : lost; }
// the sites holding most blocks, as text
void mt_sites(char *out, size_t n)
{
    size_t k = 0;
    int c = 0;
    out[0] = 0;
    for (unsigned i = 0; i < CAP && c < 12 && k + 200 < n; ++i) {
        if (!tab[i].p) continue;
        Dl_info d;
        const char *s = dladdr(tab[i].site, &d) && d.dli_sname ? d.dli_sname : "?";
        k += (size_t) snprintf(out + k, n - k, "%zu bytes by %.80s; ", tab[i].n, s);
        ++c;
    }
}

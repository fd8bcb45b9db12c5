/* Monitor linked into the shared library the Python interface is run on:
 * ledger of the library's allocations, current case for crash reports, case
 * time limit, and the values of the library's enumerators. */
#define _GNU_SOURCE
#include <cconfigspace.h>
#include <gsl/gsl_rng.h>
#include <signal.h>
#include <stdarg.h>
#include <stdatomic.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

#define EXPORT __attribute__((visibility("default")))
static atomic_long live, gsl, count;
static volatile unsigned long long cur;
void __asan_set_death_callback(void (*)(void));
void __sanitizer_set_death_callback(void (*)(void));

void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t);
void *__real_reallocarray(void *, size_t, size_t); void __real_free(void *);
char *__real_strdup(const char *); char *__real_strndup(const char *, size_t);
int __real_posix_memalign(void **, size_t, size_t); void *__real_aligned_alloc(size_t, size_t);
int __real_vasprintf(char **, const char *, va_list);
gsl_rng *__real_gsl_rng_alloc(const gsl_rng_type *); gsl_rng *__real_gsl_rng_clone(const gsl_rng *);
void __real_gsl_rng_free(gsl_rng *);

static void *up(void *p) { if (p) { live++; count++; } return p; }
void *__wrap_malloc(size_t n) { return up(__real_malloc(n)); }
void *__wrap_calloc(size_t a, size_t b) { return up(__real_calloc(a, b)); }
void *__wrap_realloc(void *o, size_t n) { void *p = __real_realloc(o, n); if (!o) up(p); else if (!n && !p) live--; return p; }
void *__wrap_reallocarray(void *o, size_t a, size_t b) { void *p = __real_reallocarray(o, a, b); if (!o) up(p); return p; }
void __wrap_free(void *p) { if (p) live--; __real_free(p); }
char *__wrap_strdup(const char *s) { return up(__real_strdup(s)); }
char *__wrap_strndup(const char *s, size_t n) { return up(__real_strndup(s, n)); }
int __wrap_posix_memalign(void **o, size_t a, size_t n) { int r = __real_posix_memalign(o, a, n); if (!r) up(*o); return r; }
void *__wrap_aligned_alloc(size_t a, size_t n) { return up(__real_aligned_alloc(a, n)); }
int __wrap_vasprintf(char **o, const char *f, va_list ap) { int r = __real_vasprintf(o, f, ap); if (r >= 0) up(*o); return r; }
int __wrap_asprintf(char **o, const char *f, ...) { va_list ap; va_start(ap, f); int r = __wrap_vasprintf(o, f, ap); va_end(ap); return r; }
gsl_rng *__wrap_gsl_rng_alloc(const gsl_rng_type *t) { gsl_rng *p = __real_gsl_rng_alloc(t); if (p) gsl++; return p; }
gsl_rng *__wrap_gsl_rng_clone(const gsl_rng *t) { gsl_rng *p = __real_gsl_rng_clone(t); if (p) gsl++; return p; }
void __wrap_gsl_rng_free(gsl_rng *r) { if (r) gsl--; __real_gsl_rng_free(r); }

static void death(void) {
	char b[64]; int n = snprintf(b, sizeof b, "\nDEATH case=%llu\n", cur);
	(void)!write(1, b, n);
}
static void hang(int s) {
	char b[64]; int n = snprintf(b, sizeof b, "\nHANG case=%llu\n", cur);
	(void)!write(1, b, n); _exit(97);
}
EXPORT long mon_live(void) { return live + gsl; }
EXPORT long mon_count(void) { return count; }
EXPORT void mon_init(void) { __sanitizer_set_death_callback(death); signal(SIGALRM, hang); }
EXPORT void mon_case(unsigned long long n, unsigned limit) { cur = n; alarm(limit); }

static const struct { const char *name; long value; } enums[] = {
#include "enums.inc"
};
EXPORT int mon_enum(size_t i, const char **name, long *value) {
	if (i >= sizeof enums / sizeof *enums) return 0;
	*name = enums[i].name; *value = enums[i].value; return 1;
}

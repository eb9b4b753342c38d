/* Runs one harness entry point natively on recorded inputs: replay NAME CASE INPUTS
   INPUTS: one line per input in call order, "f <hex double>" or "u <integer>".
   Prints CHECK lines for assertions that fail, OBS lines and REACH lines. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <math.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
static FILE *in;
static unsigned long nchk, nbad;
static int next(char *k, char *v) { return in && fscanf(in, " %1s %63s", k, v) == 2; }
double sym_f64(unsigned id, double lo, double hi) {
    char k[2], v[64];
    if (!next(k, v)) { printf("NOINPUT %u\n", id); fflush(stdout); _Exit(9); }
    double x = strtod(v, 0);
    return x < lo ? lo : x > hi ? hi : x;
}
uint64_t sym_u64(unsigned id, uint64_t lo, uint64_t hi) {
    char k[2], v[64];
    if (!next(k, v)) { printf("NOINPUT %u\n", id); fflush(stdout); _Exit(9); }
    uint64_t x = strtoull(v, 0, 10);
    return x < lo ? lo : x > hi ? hi : x;
}
uint64_t sym_choose(unsigned id, uint64_t lo, uint64_t hi) { return sym_u64(id, lo, hi); }
void sym_assume(_Bool c) { if (!c) { printf("ASSUME\n"); fflush(stdout); _Exit(0); } }
void sym_check(_Bool c, unsigned id) {
    nchk++;
    if (!c) { nbad++; printf("CHECK %u\n", id); fflush(stdout); }
}
void sym_check_close(double a, double b, double tol, unsigned id) {
    nchk++;
    if (!(fabs(a - b) <= tol)) { nbad++; printf("CHECK %u %.17g %.17g\n", id, a, b); fflush(stdout); }
}
void sym_check_le(double a, double b, unsigned id) {
    nchk++;
    if (!(a <= b)) { nbad++; printf("CHECK %u %.17g %.17g\n", id, a, b); fflush(stdout); }
}
void sym_may_end(void) {}
void sym_reach(unsigned id) { printf("REACH %u\n", id); fflush(stdout); }
void sym_obs_f64(unsigned id, double x) { printf("OBS %u %.17g\n", id, x); }
void sym_obs_u64(unsigned id, uint64_t x) { printf("OBS %u %llu\n", id, (unsigned long long)x); }
uint64_t sym_heap_live(void) { return 0; }
unsigned sym_is_native(void) { return 1; }
void sym_readable(const unsigned char *p, size_t n) {
    static volatile unsigned char s; static volatile int sink;
    for (size_t i = 0; i < n; i++) { s = p[i]; if (s > 100) sink++; }  /* valgrind sees the reads */
}
/* sizes of the live allocations, as the allocator was told them */
static struct { void *p; size_t n; } *tab;
static size_t cap, used;
static size_t slot(void *p) {
    size_t i = ((uintptr_t)p >> 4) * 0x9E3779B97F4A7C15ull % cap;
    while (tab[i].p && tab[i].p != p) i = (i + 1) % cap;
    return i;
}
void sym_alloc(void *p, size_t n, size_t align) {
    if (!p) return;
    if (used * 2 >= cap) {
        void *old = tab; size_t oc = cap;
        cap = cap ? cap * 2 : 4096; tab = calloc(cap, sizeof *tab); used = 0;
        for (size_t i = 0; i < oc; i++) if (((typeof(tab))old)[i].p) { size_t s = slot(((typeof(tab))old)[i].p); tab[s] = ((typeof(tab))old)[i]; used++; }
        free(old);
    }
    size_t s = slot(p);
    if (!tab[s].p) used++;
    tab[s].p = p; tab[s].n = n + 1;
}
void sym_dealloc(void *p, size_t n, size_t align) {
    if (!cap) return;
    size_t s = slot(p);
    if (tab[s].p == p && tab[s].n) { if (tab[s].n != n + 1) sym_check(0, 899); tab[s].n = 0; }
}
int main(int c, char **v) {
    if (c < 3) return 2;
    void (*f)(uint64_t) = (void (*)(uint64_t))dlsym(RTLD_DEFAULT, v[1]);
    if (!f) { fprintf(stderr, "no harness %s\n", v[1]); return 2; }
    if (c > 3) in = fopen(v[3], "r");
    f(strtoull(v[2], 0, 10));
    printf("DONE %lu %lu\n", nchk, nbad);
    return nbad ? 1 : 0;
}

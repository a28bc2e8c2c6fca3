// Native replay of a symbolic-execution input: supplies the recorded values to the real code.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <pthread.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <stdbool.h>
static struct { unsigned w; uint64_t v; } in[1 << 16];
static int n, pos, params_n;
static uint64_t params[64];
static uint64_t next(unsigned w) {
    if (pos >= n) { printf("EXHAUSTED\n"); fflush(stdout); _exit(43); }
    if (in[pos].w != w) { printf("MISMATCH %u %u\n", in[pos].w, w); fflush(stdout); _exit(44); }
    return in[pos++].v;
}
uint64_t __sym_var(uint32_t w) { return next(w); }
uint64_t __sym_range(uint64_t span) { unsigned w = span ? 64 - __builtin_clzll(span) : 1; uint64_t v = next(w); if (v > span) { printf("ASSUME\n"); fflush(stdout); _exit(42); } return v; }
void __sym_bytes(uint8_t *p, uint64_t k) { for (uint64_t i = 0; i < k; i++) p[i] = (uint8_t)next(8); }
uint64_t __sym_choose(uint64_t k) { (void)k; return next(0); }
uint64_t __sym_concretize(uint64_t v) { return v; }
uint64_t __sym_param(uint32_t i) { return (int)i < params_n ? params[i] : 0; }
void __sym_assume(bool c) { if (!c) { printf("ASSUME\n"); fflush(stdout); _exit(42); } }
void __sym_check(bool c, const char *l, uint64_t k) { if (!c) { printf("FAIL %.*s\n", (int)k, l); fflush(stdout); } }
void __sym_region(const char *l, uint64_t k) { (void)l; (void)k; }
void __sym_cover(const char *l, uint64_t k) { (void)l; (void)k; }
void __sym_obs(uint64_t v) { printf("OBS %llu\n", (unsigned long long)v); }
static pthread_t th[64];
static int nth;
struct tramp { void (*f)(uint8_t *); uint8_t *a; int id; };
#ifdef SCHED
// Replays a recorded schedule: one thread runs at a time; __sched_point is called before every atomic operation
// and hands over where the recorded schedule (number of atomic operations so far, thread) says so.
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
static pthread_cond_t cv = PTHREAD_COND_INITIALIZER;
static int cur, done_[65], wait_[65], ns, sp;
static struct { uint64_t at; int to; } sc[1 << 12];
static uint64_t points;
static __thread int me;
static void give(int to) { cur = to; pthread_cond_broadcast(&cv); }
static void take(void) { while (cur != me) pthread_cond_wait(&cv, &mu); }
static bool ready(int t) { return t <= nth && !done_[t] && (!wait_[t] || done_[wait_[t]]); }
static int pick(void) {
    if (sp < ns && sc[sp].to != me && ready(sc[sp].to)) return sc[sp++].to;
    for (int t = 0; t <= nth; t++) if (t != me && ready(t)) return t;
    printf("DEADLOCK\n"); fflush(stdout); _exit(45);
}
void __sched_point(void) {
    if (!nth || done_[me]) return;
    pthread_mutex_lock(&mu);
    while (sp < ns && sc[sp].at == points && sc[sp].to != me && ready(sc[sp].to)) { give(sc[sp++].to); take(); }
    points++;
    pthread_mutex_unlock(&mu);
}
static void *tr(void *p) {
    struct tramp t = *(struct tramp *)p; free(p); me = t.id;
    pthread_mutex_lock(&mu); take(); pthread_mutex_unlock(&mu);
    t.f(t.a);
    pthread_mutex_lock(&mu); done_[me] = 1; give(pick()); pthread_mutex_unlock(&mu);
    return 0;
}
void __sym_join(uint64_t t) {
    pthread_mutex_lock(&mu);
    while (!done_[t]) { wait_[me] = (int)t; give(pick()); take(); wait_[me] = 0; }
    pthread_mutex_unlock(&mu);
    pthread_join(th[t - 1], 0);
}
#else
static void *tr(void *p) { struct tramp t = *(struct tramp *)p; free(p); t.f(t.a); return 0; }
void __sym_join(uint64_t t) { pthread_join(th[t - 1], 0); }
#endif
uint64_t __sym_spawn(void (*f)(uint8_t *), uint8_t *a) { struct tramp *t = malloc(sizeof *t); t->f = f; t->a = a; t->id = ++nth; pthread_create(&th[nth - 1], 0, tr, t); return nth; }
int main(int c, char **v) {
    if (c < 3) return 2;
    void (*h)(void) = (void (*)(void))dlsym(RTLD_DEFAULT, v[1]);
    if (!h) { fprintf(stderr, "no harness %s\n", v[1]); return 2; }
    FILE *f = fopen(v[2], "r");
    if (!f) return 2;
    unsigned w; unsigned long long x;
    while (fscanf(f, "%u %llu", &w, &x) == 2) { in[n].w = w; in[n].v = x; n++; }
    fclose(f);
    if (c > 3) { char *p = v[3]; while (*p) { params[params_n++] = strtoull(p, &p, 10); if (*p == ',') p++; } }
#ifdef SCHED
    if (c > 4) { char *p = v[4]; while (*p && ns < 4096) { sc[ns].at = strtoull(p, &p, 10); p++; sc[ns++].to = (int)strtoull(p, &p, 10); if (*p == ',') p++; } }
#endif
    h();
    printf("DONE %d/%d\n", pos, n);
    return 0;
}

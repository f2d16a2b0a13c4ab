// Native counterpart of the harness API: feeds the recorded values to the real program and prints what it observes.
#include "sx.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <dlfcn.h>
#include <exception>
#include <malloc.h>
#include <pthread.h>
#include <string>
#include <ucontext.h>
#include <unistd.h>
#include <utility>
#include <vector>

static std::vector<std::pair<std::string, uint64_t>> g_log; static size_t g_pos;
static FILE *g_out;
static long g_live;
static bool g_started;
[[noreturn]] static void finish(const char *what, const char *msg, int rc) { fprintf(g_out, "%s %s\n", what, msg); fflush(g_out); _exit(rc); }
static uint64_t next(const std::string &base) {
    if (g_pos >= g_log.size()) return 0;     // beyond the recorded prefix: any value will do
    auto &p = g_log[g_pos];
    std::string n = p.first.substr(0, p.first.find('#'));
    if (n != base) { std::string m = "wanted " + base + " recorded " + p.first; finish("DIVERGED", m.c_str(), 66); }
    g_pos++; return p.second;
}
extern "C" {
uint64_t sx_sym(uint32_t bits, const char *name) { uint64_t v = next(name); return bits >= 64 ? v : v & ((1ull << bits) - 1); }
uint64_t sx_choose(uint64_t n, const char *name) { return next(name); }
void sx_assume(bool c) { if (!c) finish("ASSUME", "false", 66); }
void sx_assert_(bool c, const char *msg) { if (!c) finish("ASSERT", msg, 77); }
uint64_t sx_fork_value(uint64_t v) { return v; }
void sx_observe(const char *tag, uint64_t v) { fprintf(g_out, "OBS %s %llu\n", tag, (unsigned long long)v); }
void sx_cover(const char *) {}
uint64_t sx_heap_live() { return (uint64_t)g_live; }
void sx_note(const char *) {}
void sx_debug(const char *t, uint64_t v) { fprintf(stderr, "debug %s = %llu\n", t, (unsigned long long)v); }
int sx_native() { return 1; }
int sx_rt_format_double(char *buf, size_t n, const char *fmt, int prec, double v) { return snprintf(buf, n, fmt, prec, v); }
}
// ---- cooperative threads that follow the recorded schedule
struct Co { ucontext_t ctx; void (*fn)(void*); void *arg; int stat = 0; void *on = nullptr; char *stack = nullptr; };  // 0 run 1 mutex 2 cond 3 join 4 done
static std::deque<Co> g_co; static int g_cur; static bool g_sched_ok;
struct Mx { int owner; };
static bool runnable(int i) {
    Co &c = g_co[i]; if (c.stat == 4) return false; if (c.stat == 0) return true; if (c.stat == 1) return ((Mx*)c.on)->owner == 0;
    if (c.stat == 3) { if (c.on == (void*)-1) { for (size_t j = 1; j < g_co.size(); j++) if (g_co[j].stat != 4) return false; return true; } return g_co[(size_t)c.on].stat == 4; }
    return false;
}
static void pick() {
    int t = -1, n = 0; for (size_t i = 0; i < g_co.size(); i++) if (runnable(i)) { if (t < 0) t = i; n++; }
    if (!n) finish("DEADLOCK", "no runnable thread", 78);
    if (n > 1) { int q = (int)next("sched"); if (g_pos <= g_log.size() && q >= 0 && q < (int)g_co.size() && runnable(q)) t = q; }
    g_sched_ok = true; if (t != g_cur) { int me = g_cur; g_cur = t; swapcontext(&g_co[me].ctx, &g_co[t].ctx); }
}
static void schedPoint() { if (g_co.size() <= 1) return; if (g_sched_ok) { g_sched_ok = false; return; } int me = g_cur; pick(); g_sched_ok = false; }
static void tramp() { Co &c = g_co[g_cur]; c.fn(c.arg); g_co[g_cur].stat = 4; pick(); abort(); }
extern "C" {
int sx_spawn(void (*fn)(void*), void *arg) {
    long keep = g_live; struct Keep { long v; ~Keep() { g_live = v; } } k{keep};
    if (g_co.empty()) g_co.emplace_back();
    g_co.emplace_back(); Co &c = g_co.back(); c.fn = fn; c.arg = arg; getcontext(&c.ctx); c.stack = (char*)malloc(1 << 18); c.ctx.uc_stack.ss_sp = c.stack; c.ctx.uc_stack.ss_size = 1 << 18; c.ctx.uc_link = nullptr; makecontext(&c.ctx, tramp, 0); return g_co.size() - 1;
}
void sx_join_all() { if (g_co.size() <= 1) return; bool all = true; for (size_t j = 1; j < g_co.size(); j++) if (g_co[j].stat != 4) all = false; while (!all) { g_co[g_cur].stat = 3; g_co[g_cur].on = (void*)-1; pick(); all = true; for (size_t j = 1; j < g_co.size(); j++) if (g_co[j].stat != 4) all = false; } g_co[g_cur].stat = 0; g_sched_ok = false; long keep = g_live; g_co.resize(1); g_live = keep; }
void sx_join(int t) { while (g_co[t].stat != 4) { g_co[g_cur].stat = 3; g_co[g_cur].on = (void*)(size_t)t; pick(); } g_co[g_cur].stat = 0; g_sched_ok = false; }
int sx_self() { return g_cur; }
void sx_yield() { schedPoint(); }
int pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *) { ((Mx*)m)->owner = 0; return 0; }
int pthread_mutex_destroy(pthread_mutex_t *) { return 0; }
int pthread_mutex_lock(pthread_mutex_t *m_) {
    Mx *m = (Mx*)m_; if (!g_started || g_co.empty()) { if (g_started && m->owner) { if (g_co.empty()) finish("DEADLOCK", "self lock", 78); } m->owner = g_cur + 1; return 0; }
    schedPoint();
    for (;;) { if (m->owner == 0) { g_co[g_cur].stat = 0; m->owner = g_cur + 1; return 0; } if (m->owner == g_cur + 1) finish("DEADLOCK", "self lock", 78); g_co[g_cur].stat = 1; g_co[g_cur].on = m; pick(); 
        g_sched_ok = false; }
}
int pthread_mutex_trylock(pthread_mutex_t *m_) { Mx *m = (Mx*)m_; schedPoint(); if (m->owner == 0) { m->owner = g_cur + 1; return 0; } return 16; }
int pthread_mutex_unlock(pthread_mutex_t *m_) { Mx *m = (Mx*)m_; if (g_started && m->owner != g_cur + 1) finish("LOCKING", "unlock by non-owner", 79); m->owner = 0; return 0; }
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m_) {
    Mx *m = (Mx*)m_; if (g_co.empty()) finish("DEADLOCK", "single thread waits", 78); if (m->owner != g_cur + 1) finish("LOCKING", "wait without lock", 79);
    m->owner = 0; g_co[g_cur].stat = 2; g_co[g_cur].on = c; pick(); g_sched_ok = false;
    for (;;) { if (m->owner == 0) { g_co[g_cur].stat = 0; m->owner = g_cur + 1; return 0; } g_co[g_cur].stat = 1; g_co[g_cur].on = m; pick(); g_sched_ok = false; }
}
int pthread_cond_signal(pthread_cond_t *c) { schedPoint(); std::vector<int> w; for (size_t i = 0; i < g_co.size(); i++) if (g_co[i].stat == 2 && g_co[i].on == c) w.push_back(i); if (w.empty()) return 0; int t = w[0]; if (w.size() > 1) t = (int)next("wake"); g_co[t].stat = 0; g_co[t].on = nullptr; return 0; }
int pthread_cond_broadcast(pthread_cond_t *c) { schedPoint(); for (auto &t : g_co) if (t.stat == 2 && t.on == c) { t.stat = 0; t.on = nullptr; } return 0; }
int pthread_cond_init(pthread_cond_t *, const pthread_condattr_t *) { return 0; }
int pthread_cond_destroy(pthread_cond_t *) { return 0; }
}
// ---- heap accounting: the malloc family is interposed for the whole process, operator new included
#ifndef SX_ASAN
extern "C" {
void *__libc_malloc(size_t); void __libc_free(void*); void *__libc_calloc(size_t, size_t); void *__libc_realloc(void*, size_t); void *__libc_memalign(size_t, size_t);
void *malloc(size_t n) { void *p = __libc_malloc(n); if (p) g_live++; return p; }
void free(void *p) { if (p) g_live--; __libc_free(p); }
void *calloc(size_t a, size_t b) { void *p = __libc_calloc(a, b); if (p) g_live++; return p; }
void *realloc(void *q, size_t n) { void *p = __libc_realloc(q, n); if (!q && p) g_live++; return p; }
void *memalign(size_t a, size_t n) { void *p = __libc_memalign(a, n); if (p) g_live++; return p; }
void *aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void **r, size_t a, size_t n) { if (a < sizeof(void*) || (a & (a - 1))) return 22; void *p = memalign(a, n); if (!p) return 12; *r = p; return 0; }
}
#endif

int main(int argc, char **argv) {
    void (*entry)() = nullptr; for (auto &e : g_entries) if (argc > 1 && !strcmp(e.n, argv[1])) entry = e.f;
    if (!entry) return 3;
    g_out = stdout;
    if (const char *f = getenv("SX_REPLAY")) { FILE *in = fopen(f, "r"); char n[512]; unsigned long long v; while (in && fscanf(in, " %511[^\t\n]\t%llu", n, &v) == 2) g_log.push_back({n, v}); if (in) fclose(in); }
    if (const char *f = getenv("SX_OUT")) g_out = fopen(f, "w");
    std::set_terminate([] { finish("TERMINATE", "uncaught exception", 80); });
    static char iobuf[1 << 16]; setvbuf(g_out, iobuf, _IOFBF, sizeof iobuf); g_started = true; g_live = 0;
    entry();
    finish("DONE", g_pos == g_log.size() ? "all" : "short", 0);
}

namespace boost::container { __attribute__((weak)) void *dlmalloc_malloc(size_t n) { return malloc(n); } __attribute__((weak)) void dlmalloc_free(void *p) { free(p); } }

// Controlled scheduler and happens-before race detector behind the instrumentation of -fsanitize=thread.
// Compiled without instrumentation.  Exactly one thread runs at a time; every synchronisation
// operation is a scheduling point at which the explorer chooses who continues.
#pragma GCC optimize("no-tree-loop-distribute-patterns")
#include "rt_sched.h"
#include <pthread.h>
#include <dlfcn.h>
#include <unistd.h>
#include <errno.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <linux/futex.h>
#include <malloc.h>
#include <execinfo.h>

extern "C" void *__libc_malloc(size_t);
extern "C" void __libc_free(void *);
extern "C" void *__libc_calloc(size_t, size_t);
extern "C" void *__libc_realloc(void *, size_t);
extern "C" void *__libc_memalign(size_t, size_t);

typedef uint64_t u64; typedef uint32_t u32; typedef uint8_t u8;
namespace {
enum { MT = 16 };
enum St { NONE, READY, B_MUTEX, B_COND, B_JOIN, B_GUARD, DONE };
struct T {
    int id; volatile St st; void *obj; void *mtx; volatile int baton; u32 vc[MT];
    pthread_t real; void *(*fn)(void *); void *arg; void *ret; bool timed, woke_timeout, detached, reaped; int yielded; u64 slo, shi;
};
T th[MT]; int nth = 0;
__thread T *me = nullptr;
__thread int inrt = 0;
RtShm *sh = nullptr;
volatile bool active = false, ended = false;
bool multi = false;

// ---- objects (mutexes, condition variables, atomics, guards): clocks and owners
struct Obj { u64 addr; int owner; int rec; u32 vc[MT]; bool used; };
enum { NOBJ = 1 << 14 };
Obj objs[NOBJ]; int nobj = 0;
Obj *obj(const void *p, bool make = true) {
    u64 a = (u64) p; u32 h = u32((a * 0x9E3779B97F4A7C15ULL) >> 50) & (NOBJ - 1);
    for (int i = 0; i < NOBJ; ++i, h = (h + 1) & (NOBJ - 1)) {
        if (objs[h].used && objs[h].addr == a) return &objs[h];
        if (!objs[h].used) { if (!make) return nullptr; if (++nobj > NOBJ * 3 / 4) { sh->overflow = 1; } objs[h].used = true; objs[h].addr = a; objs[h].owner = -1; objs[h].rec = 0; memset(objs[h].vc, 0, sizeof objs[h].vc); return &objs[h]; }
    }
    sh->overflow = 1; return &objs[0];
}
// ---- shadow
struct Cell { u64 g; u32 wc[MT]; u8 wm[MT]; u32 rc[MT]; u8 rm[MT]; u8 am[MT]; u8 freed; };
enum { NCELL = 1 << 17 };
Cell *cells = nullptr; long ncell = 0; u32 *used = nullptr;
Cell *cell(u64 g, bool make = true) {
    u32 h = u32((g * 0x9E3779B97F4A7C15ULL) >> 47) & (NCELL - 1);
    for (int i = 0; i < 64; ++i, h = (h + 1) & (NCELL - 1)) {
        if (cells[h].g == g) return &cells[h];
        if (cells[h].g == 0) { if (!make) return nullptr; if (ncell > NCELL * 3 / 4) return nullptr; used[ncell++] = h; cells[h].g = g; return &cells[h]; }
    }
    return nullptr;
}
void fwait(volatile int *p) { while (!__atomic_load_n(p, __ATOMIC_ACQUIRE)) syscall(SYS_futex, p, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0); __atomic_store_n(p, 0, __ATOMIC_RELEASE); }
void fpost(volatile int *p) { __atomic_store_n(p, 1, __ATOMIC_RELEASE); syscall(SYS_futex, p, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }
void join_vc(u32 *a, const u32 *b) { for (int i = 0; i < MT; ++i) if (b[i] > a[i]) a[i] = b[i]; }
int tl = 0;
void tr(const char *op, const void *o) {
    if (tl > (int) sizeof sh->trace - 60) return;
    tl += snprintf(sh->trace + tl, sizeof sh->trace - tl, "%d:%s ", me ? me->id : -1, op);
}
void finish(int status, const char *msg) {
    if (!sh->status) { sh->status = status; if (msg) snprintf(sh->msg, sizeof sh->msg, "%s", msg); sh->threads = nth; }
    ended = true;
    _exit(status == 1 ? 0 : 77);
}
bool cond_can(T *t) { return false; }
bool enabled(T *t) {
    switch (t->st) {
        case READY: return true;
        case B_MUTEX: { auto o = obj(t->obj); return o->owner < 0; }
        case B_JOIN: return ((T *) t->obj)->st == DONE;
        case B_GUARD: { auto o = obj(t->obj); return o->owner < 0; }
        default: return false;
    }
}
int npts = 0; int spur_used = 0; bool quiet = false;
// selects who runs next; returns the thread
T *choose(bool yield) {
    T *opt[2 * MT]; u8 cost = 0; bool spur[2 * MT]; int n = 0;
    bool cur = me && me->st != DONE && enabled(me);
    if (cur && !yield) { spur[n] = false; opt[n++] = me; }
    for (int i = 0; i < nth && n < 8; ++i) {
        T *t = &th[i];
        if (t == me || !enabled(t)) continue;
        if (cur && !yield) cost |= 1 << n;
        spur[n] = false; opt[n++] = t;
    }
    if (yield && cur && n == 0) { spur[n] = false; opt[n++] = me; }
    if (spur_used < sh->spurious && n > 0)
        for (int i = 0; i < nth && n < 8; ++i) if (th[i].st == B_COND && !th[i].timed && obj(th[i].mtx)->owner < 0) { cost |= 1 << n; spur[n] = true; opt[n++] = &th[i]; }
    for (int i = 0; i < nth && n < 8; ++i) if (th[i].st == B_COND && th[i].timed) { if (n > 0) cost |= 1 << n; spur[n] = true; opt[n++] = &th[i]; }
    if (n == 0) return nullptr;
    int k = 0;
    if (sh->delay) cost = 0xfe;   // every departure from the default schedule is counted
    if (quiet) { for (; k < n && spur[k]; ++k); if (k == n) k = 0; }
    else if (n > 1) {
        if (npts >= RT_MAXPTS) { sh->overflow = 1; }
        else {
            if (npts < sh->prefix_len) { k = sh->prefix[npts]; if (k >= n) finish(3, "the execution is not reproducible"); }
            sh->nopt[npts] = u8(n); sh->cost[npts] = cost; sh->chosen[npts] = u8(k);
            ++npts; sh->npts = npts;
        }
    }
    if (spur[k]) { ++spur_used; opt[k]->woke_timeout = opt[k]->timed; opt[k]->st = B_MUTEX; opt[k]->obj = opt[k]->mtx; if (obj(opt[k]->mtx)->owner >= 0) return choose(yield); }
    return opt[k];
}
void give(T *n) {
    if (n == me) return;
    T *self = me;
    fpost(&n->baton);
    if (self && self->st != DONE) fwait(&self->baton);
}
void sched(bool yield = false) {
    if (++sh->steps > sh->max_steps) { char b[400]; snprintf(b, sizeof b, "no end after %ld synchronisation steps", sh->steps); finish(2, b); }
    T *n = choose(yield);
    if (!n) {
        char b[600]; int l = snprintf(b, sizeof b, "deadlock:");
        for (int i = 0; i < nth; ++i) if (th[i].st != DONE)
            l += snprintf(b + l, sizeof b - l, " thread %d waits for %s;", i, th[i].st == B_MUTEX ? "a mutex" : th[i].st == B_COND ? "a condition" : th[i].st == B_JOIN ? "a thread to end" : "an initialisation");
        finish(2, b);
    }
    give(n);
}
void race(const char *what, u64 addr, int other, void *pc) {
    char b[1200]; Dl_info d1; void *bt[14]; int n = backtrace(bt, 14);
    int l = snprintf(b, sizeof b, "%s (thread %d against thread %d) in", what, me->id, other);
    int k = 0;
    for (int i = 0; i < n && k < 4; ++i) if (dladdr(bt[i], &d1) && d1.dli_sname) {
        if (strstr(d1.dli_sname, "tsan") || !strncmp(d1.dli_sname, "rt_", 3) || !strcmp(d1.dli_sname, "free")) continue;
        ++k; l += snprintf(b + l, sizeof b - l, " %.90s <", d1.dli_sname); }
    finish(2, b);
}
void access(u64 a, size_t n, bool w, bool at, void *pc) {
    if (!active || !me || ended || !multi || inrt || quiet) return;
    if (!sh->check_races) return;
    ++inrt;
    ++sh->accesses;
    int t = me->id;
    while (n) {
        u64 g = a >> 3; unsigned o = a & 7; size_t k = 8 - o; if (k > n) k = n;
        u8 m = u8(((1u << k) - 1) << o);
        Cell *c = cell(g);
        if (c) {
            if (c->freed) race("use of freed memory", a, -1, pc);
            for (int i = 0; i < nth; ++i) if (i != t) {
                if ((c->wm[i] & m) && c->wc[i] > me->vc[i] && !(at && (c->am[i] & m))) race(w ? "data race: write after write" : "data race: read after write", a, i, pc);
                if (w && (c->rm[i] & m) && c->rc[i] > me->vc[i] && !(at && (c->am[i] & m))) race("data race: write after read", a, i, pc);
            }
            u32 now = me->vc[t];
            if (w) { if (c->wc[t] != now) { c->wc[t] = now; c->wm[t] = 0; } c->wm[t] |= m; }
            else { if (c->rc[t] != now) { c->rc[t] = now; c->rm[t] = 0; } c->rm[t] |= m; }
            if (at) c->am[t] |= m; else c->am[t] &= u8(~m);
        } else sh->overflow = 1;
        a += k; n -= k;
    }
    --inrt;
}
void clear_range(u64 a, size_t n, u8 freed) {
    if (!cells) return;
    if (n > 65536) n = 65536;
    for (u64 g = a >> 3; g < ((a + n + 7) >> 3); ++g) { Cell *c = cell(g, freed != 0 && n <= 4096); if (c) { u64 k = c->g; memset(c, 0, sizeof *c); c->g = k; c->freed = freed; } }
}
void *r_pthread_create = nullptr; inline void *R_pthread_create() { if (!r_pthread_create) r_pthread_create = dlsym(RTLD_NEXT, "pthread_create"); return r_pthread_create; }
void *r_pthread_join = nullptr; inline void *R_pthread_join() { if (!r_pthread_join) r_pthread_join = dlsym(RTLD_NEXT, "pthread_join"); return r_pthread_join; }
void *r_pthread_detach = nullptr; inline void *R_pthread_detach() { if (!r_pthread_detach) r_pthread_detach = dlsym(RTLD_NEXT, "pthread_detach"); return r_pthread_detach; }
void *r_pthread_mutex_lock = nullptr; inline void *R_pthread_mutex_lock() { if (!r_pthread_mutex_lock) r_pthread_mutex_lock = dlsym(RTLD_NEXT, "pthread_mutex_lock"); return r_pthread_mutex_lock; }
void *r_pthread_mutex_trylock = nullptr; inline void *R_pthread_mutex_trylock() { if (!r_pthread_mutex_trylock) r_pthread_mutex_trylock = dlsym(RTLD_NEXT, "pthread_mutex_trylock"); return r_pthread_mutex_trylock; }
void *r_pthread_mutex_unlock = nullptr; inline void *R_pthread_mutex_unlock() { if (!r_pthread_mutex_unlock) r_pthread_mutex_unlock = dlsym(RTLD_NEXT, "pthread_mutex_unlock"); return r_pthread_mutex_unlock; }
void *r_pthread_cond_wait = nullptr; inline void *R_pthread_cond_wait() { if (!r_pthread_cond_wait) r_pthread_cond_wait = dlsym(RTLD_NEXT, "pthread_cond_wait"); return r_pthread_cond_wait; }
void *r_pthread_cond_timedwait = nullptr; inline void *R_pthread_cond_timedwait() { if (!r_pthread_cond_timedwait) r_pthread_cond_timedwait = dlsym(RTLD_NEXT, "pthread_cond_timedwait"); return r_pthread_cond_timedwait; }
void *r_pthread_cond_clockwait = nullptr; inline void *R_pthread_cond_clockwait() { if (!r_pthread_cond_clockwait) r_pthread_cond_clockwait = dlsym(RTLD_NEXT, "pthread_cond_clockwait"); return r_pthread_cond_clockwait; }
void *r_pthread_cond_signal = nullptr; inline void *R_pthread_cond_signal() { if (!r_pthread_cond_signal) r_pthread_cond_signal = dlsym(RTLD_NEXT, "pthread_cond_signal"); return r_pthread_cond_signal; }
void *r_pthread_cond_broadcast = nullptr; inline void *R_pthread_cond_broadcast() { if (!r_pthread_cond_broadcast) r_pthread_cond_broadcast = dlsym(RTLD_NEXT, "pthread_cond_broadcast"); return r_pthread_cond_broadcast; }
void *r_pthread_once = nullptr; inline void *R_pthread_once() { if (!r_pthread_once) r_pthread_once = dlsym(RTLD_NEXT, "pthread_once"); return r_pthread_once; }
__attribute__((constructor)) void warm() { void *bt[4]; backtrace(bt, 4); R_pthread_create(); R_pthread_join(); R_pthread_detach(); R_pthread_mutex_lock(); R_pthread_mutex_trylock(); R_pthread_mutex_unlock(); R_pthread_cond_wait(); R_pthread_cond_timedwait(); R_pthread_cond_clockwait(); R_pthread_cond_signal(); R_pthread_cond_broadcast(); R_pthread_once(); }
void acq(Obj *o) { join_vc(me->vc, o->vc); }
void rel(Obj *o) { join_vc(o->vc, me->vc); me->vc[me->id]++; }
bool on() { return active && me && !ended; }
void lock_obj(void *m, bool recursive) {
    Obj *o = obj(m);
    if (recursive && o->owner == me->id) { ++o->rec; return; }
    while (obj(m)->owner >= 0) { me->st = B_MUTEX; me->obj = m; sched(); me->st = READY; }
    o = obj(m); o->owner = me->id; o->rec = 1; acq(o);
}
bool is_rec(pthread_mutex_t *m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }
void *tramp(void *p) {
    T *t = (T *) p; me = t;
    fwait(&t->baton);
    pthread_attr_t at; void *sp; size_t sz;
    t->ret = t->fn(t->arg);
    ++inrt; tr("end", nullptr); --inrt;
    t->vc[t->id]++;
    t->st = DONE;
    if (!ended) {
        T *n = choose(false);
        if (!n) {
            bool all = true; for (int i = 0; i < nth; ++i) if (th[i].st != DONE) all = false;
            if (!all) sched();
        } else { me = nullptr; fpost(&n->baton); }
    }
    me = nullptr;
    return t->ret;
}
}
extern "C" {
void rt_begin(RtShm *s) {
    sh = s; sh->npts = 0; sh->steps = 0; sh->status = 0; sh->msg[0] = 0; sh->trace[0] = 0; sh->outcome = 0; sh->overflow = 0; sh->accesses = 0;
    cells = (Cell *) mmap(nullptr, sizeof(Cell) * NCELL, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    used = (u32 *) mmap(nullptr, sizeof(u32) * NCELL, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    T *t = &th[0]; memset(t, 0, sizeof *t); t->id = 0; t->st = READY; t->vc[0] = 1; nth = 1; me = t; t->real = pthread_self();
    active = true;
}
void rt_end() { finish(1, nullptr); }
void rt_fail(const char *m) { finish(2, m); }
void rt_outcome(u64 h) { sh->outcome = (sh->outcome ^ h) * 1099511628211ULL + 12345; }
int rt_self() { return me ? me->id : -1; }
void rt_point() { if (on()) sched(); }
void rt_quiet(int q) { quiet = q != 0; }

// ---- threads
int pthread_create(pthread_t *pt, const pthread_attr_t *a, void *(*fn)(void *), void *arg) {
    auto r = (int (*)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *)) R_pthread_create();
    if (!on()) return r(pt, a, fn, arg);
    ++inrt;
    int slot = 1; while (slot < nth && !(th[slot].st == DONE && (th[slot].reaped))) ++slot;
    if (slot >= MT) { sh->overflow = 1; finish(3, "too many threads"); }
    T *t = &th[slot]; u32 epoch = slot < nth ? t->vc[slot] : 0; memset(t, 0, sizeof *t); t->id = slot; t->fn = fn; t->arg = arg; t->st = READY;
    join_vc(t->vc, me->vc); t->vc[t->id] = epoch + 1; me->vc[me->id]++;
    if (slot == nth) ++nth;
    multi = true;
    tr("create", nullptr);
    int rc = r(pt, a, tramp, t);
    t->real = *pt;
    pthread_attr_t at; void *sp; size_t sz;
    if (pthread_getattr_np(*pt, &at) == 0) { pthread_attr_getstack(&at, &sp, &sz); t->slo = (u64) sp; t->shi = t->slo + sz; pthread_attr_destroy(&at);
        for (long j = 0; j < ncell; ++j) { u32 i = used[j]; if ( (cells[i].g << 3) >= t->slo && (cells[i].g << 3) < t->shi) { u64 g = cells[i].g; memset(&cells[i], 0, sizeof(Cell)); cells[i].g = g; } } }
    --inrt;
    sched();
    return rc;
}
int pthread_join(pthread_t p, void **ret) {
    auto r = (int (*)(pthread_t, void **)) R_pthread_join();
    if (!on()) return r(p, ret);
    T *t = nullptr;
    for (int i = nth - 1; i >= 0; --i) if (!th[i].reaped && pthread_equal(th[i].real, p)) { t = &th[i]; break; }
    if (!t) return ESRCH;
    tr("join", nullptr);
    sched();
    while (t->st != DONE) { me->st = B_JOIN; me->obj = t; sched(); me->st = READY; }
    join_vc(me->vc, t->vc);
    ++inrt; int rc = r(p, ret); --inrt; t->reaped = true;
    return rc;
}
int pthread_detach(pthread_t p) { auto r = (int (*)(pthread_t)) R_pthread_detach(); return r(p); }
int sched_yield() { if (on()) { sched(true); return 0; } return syscall(SYS_sched_yield); }
int nanosleep(const timespec *a, timespec *b) { if (on()) { sched(true); return 0; } return syscall(SYS_nanosleep, a, b); }
int clock_nanosleep(clockid_t c, int f, const timespec *a, timespec *b) { if (on()) { sched(true); return 0; } return syscall(SYS_clock_nanosleep, c, f, a, b) < 0 ? errno : 0; }
int usleep(useconds_t u) { if (on()) { sched(true); return 0; } timespec t = {u / 1000000, long(u % 1000000) * 1000}; return syscall(SYS_nanosleep, &t, nullptr); }
// ---- mutexes
int pthread_mutex_lock(pthread_mutex_t *m) {
    auto r = (int (*)(pthread_mutex_t *)) R_pthread_mutex_lock();
    if (!on() || inrt) return r(m);
    tr("lock", m); sched();
    if (obj(m)->owner == me->id && !is_rec(m)) finish(2, "deadlock: a thread locks a mutex it already holds");
    lock_obj(m, is_rec(m)); return 0;
}
int pthread_mutex_trylock(pthread_mutex_t *m) {
    auto r = (int (*)(pthread_mutex_t *)) R_pthread_mutex_trylock();
    if (!on() || inrt) return r(m);
    tr("trylock", m); sched();
    Obj *o = obj(m);
    if (o->owner >= 0 && !(is_rec(m) && o->owner == me->id)) return EBUSY;
    lock_obj(m, is_rec(m)); return 0;
}
int pthread_mutex_unlock(pthread_mutex_t *m) {
    auto r = (int (*)(pthread_mutex_t *)) R_pthread_mutex_unlock();
    if (!on() || inrt) return r(m);
    Obj *o = obj(m);
    if (o->owner != me->id) finish(2, "a mutex is released by a thread that does not hold it");
    if (--o->rec > 0) return 0;
    tr("unlock", m);
    o->owner = -1; rel(o);
    sched();
    return 0;
}
int pthread_mutex_destroy(pthread_mutex_t *m) {
    if (on()) { Obj *o = obj(m, false); if (o && o->owner >= 0) finish(2, "a locked mutex is destroyed"); if (o) memset(o->vc, 0, sizeof o->vc); }
    return 0;
}
// ---- condition variables
static int cwait(pthread_cond_t *c, pthread_mutex_t *m, bool timed) {
    tr("wait", c);
    sched();   // others may act between the test of the condition and the wait (the mutex is still held)
    Obj *o = obj(m);
    if (o->owner != me->id) finish(2, "waiting on a condition without holding the mutex");
    o->owner = -1; o->rec = 0; rel(o);
    me->st = B_COND; me->obj = c; me->mtx = m; me->timed = timed; me->woke_timeout = false;
    sched();
    me->st = READY;
    lock_obj(m, false);
    tr("woken", c);
    return timed && me->woke_timeout ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { auto r = (int (*)(pthread_cond_t *, pthread_mutex_t *)) R_pthread_cond_wait(); if (!on()) return r(c, m); return cwait(c, m, false); }
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const timespec *t) { auto r = (int (*)(pthread_cond_t *, pthread_mutex_t *, const timespec *)) R_pthread_cond_timedwait(); if (!on()) return r(c, m, t); return cwait(c, m, true); }
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const timespec *t) { auto r = (int (*)(pthread_cond_t *, pthread_mutex_t *, clockid_t, const timespec *)) R_pthread_cond_clockwait(); if (!on()) return r(c, m, k, t); return cwait(c, m, true); }
int pthread_cond_signal(pthread_cond_t *c) {
    auto r = (int (*)(pthread_cond_t *)) R_pthread_cond_signal(); if (!on()) return r(c);
    tr("signal", c); sched();
    T *w[MT]; int n = 0; for (int i = 0; i < nth; ++i) if (th[i].st == B_COND && th[i].obj == c) w[n++] = &th[i];
    if (!n) return 0;
    int k = 0;
    if (n > 1) { if (npts < sh->prefix_len) k = sh->prefix[npts] % n; sh->nopt[npts] = u8(n); sh->cost[npts] = 0; sh->chosen[npts] = u8(k); sh->npts = ++npts; }
    w[k]->st = B_MUTEX; w[k]->obj = w[k]->mtx;
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t *c) {
    auto r = (int (*)(pthread_cond_t *)) R_pthread_cond_broadcast(); if (!on()) return r(c);
    tr("broadcast", c); sched();
    for (int i = 0; i < nth; ++i) if (th[i].st == B_COND && th[i].obj == c) { th[i].st = B_MUTEX; th[i].obj = th[i].mtx; }
    return 0;
}
int pthread_cond_destroy(pthread_cond_t *c) {
    if (on()) for (int i = 0; i < nth; ++i) if (th[i].st == B_COND && th[i].obj == c) finish(2, "a condition variable is destroyed while a thread waits on it");
    return 0;
}
int pthread_once(pthread_once_t *o, void (*f)()) {
    auto r = (int (*)(pthread_once_t *, void (*)())) R_pthread_once();
    if (!on() || inrt) return r(o, f);
    Obj *b = obj(o);
    if (*(int *) o == 2) { acq(b); return 0; }
    while (obj(o)->owner >= 0) { me->st = B_GUARD; me->obj = o; sched(); me->st = READY; }
    if (*(int *) o == 2) { acq(obj(o)); return 0; }
    obj(o)->owner = me->id; f(); *(int *) o = 2; b = obj(o); b->owner = -1; rel(b); return 0;
}
// ---- initialisation of function-local statics
int rt_guard_acquire(u64 *g) __asm__("__cxa_guard_acquire");
int rt_guard_acquire(u64 *g) {
    volatile char *p = (volatile char *) g;
    if (!on()) { if (p[0]) return 0; p[1] = 1; return 1; }
    while (true) {
        if (p[0]) { acq(obj(g)); return 0; }
        if (!p[1]) break;
        if (obj(g)->owner < 0) break;
        me->st = B_GUARD; me->obj = g; sched(); me->st = READY;
    }
    tr("static-init", g);
    p[1] = 1; obj(g)->owner = me->id;
    sched();
    return 1;
}
void rt_guard_release(u64 *g) __asm__("__cxa_guard_release");
void rt_guard_release(u64 *g) { volatile char *p = (volatile char *) g; p[1] = 0; p[0] = 1; if (on()) { Obj *o = obj(g); o->owner = -1; rel(o); sched(); } }
void rt_guard_abort(u64 *g) __asm__("__cxa_guard_abort");
void rt_guard_abort(u64 *g) { volatile char *p = (volatile char *) g; p[1] = 0; if (on()) { Obj *o = obj(g); o->owner = -1; rel(o); } }
// ---- memory
void *malloc(size_t n) { return __libc_malloc(n); }
void *calloc(size_t a, size_t b) { return __libc_calloc(a, b); }
void free(void *p) {
    if (!p) return;
    if (!active) { __libc_free(p); return; }
    if (!me || inrt || ended) return;   // leaked on purpose: addresses are never reused in a controlled execution
    size_t n = malloc_usable_size(p); if (n > 4096) n = 4096;
    if (multi && sh->check_races) {
        Cell *c = cell((u64) p >> 3, false);
        if (c && c->freed) { ++inrt; race("memory is freed twice", (u64) p, -1, nullptr); }
        access((u64) p, n, true, false, nullptr);
        ++inrt; clear_range((u64) p, n, 1); --inrt;
    }
}
void *realloc(void *p, size_t n) {
    if (!active) return __libc_realloc(p, n);
    void *q = __libc_malloc(n); if (p) { size_t k = malloc_usable_size(p); memcpy(q, p, k < n ? k : n); free(p); } return q;
}
static inline void cpy(char *d, const char *s, size_t n) { asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory"); }
void *memcpy(void *d, const void *s, size_t n) {
    if (active && me && multi && !inrt && n) { access((u64) s, n > 512 ? 512 : n, false, false, nullptr); access((u64) d, n > 512 ? 512 : n, true, false, nullptr); }
    cpy((char *) d, (const char *) s, n); return d;
}
void *memmove(void *d, const void *s, size_t n) {
    if (active && me && multi && !inrt && n) { access((u64) s, n > 512 ? 512 : n, false, false, nullptr); access((u64) d, n > 512 ? 512 : n, true, false, nullptr); }
    char *D = (char *) d; const char *Sx = (const char *) s;
    if (D < Sx || D >= Sx + n) cpy(D, Sx, n); else for (size_t i = n; i-- > 0;) ((volatile char *) D)[i] = Sx[i];
    return d;
}
// ---- instrumentation
#define PC __builtin_return_address(0)
#define RW(N) void __tsan_read##N(void *a) { access((u64) a, N, false, false, PC); } void __tsan_write##N(void *a) { access((u64) a, N, true, false, PC); } \
    void __tsan_unaligned_read##N(void *a) { access((u64) a, N, false, false, PC); } void __tsan_unaligned_write##N(void *a) { access((u64) a, N, true, false, PC); } \
    void __tsan_volatile_read##N(void *a) { access((u64) a, N, false, false, PC); } void __tsan_volatile_write##N(void *a) { access((u64) a, N, true, false, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void **p, void *v) { if (*p != v) access((u64) p, 8, true, false, PC); }
void __tsan_vptr_read(void **p) { access((u64) p, 8, false, false, PC); }
void __tsan_read_range(void *a, size_t n) { access((u64) a, n, false, false, PC); }
void __tsan_write_range(void *a, size_t n) { access((u64) a, n, true, false, PC); }
static void apoint(const volatile void *a, bool load8acq) { if (on() && multi && !quiet && sh->atomics && !load8acq) { tr("atomic", (const void *) a); sched(); } }
static void apre(const volatile void *a, int mo, bool w, size_t n) {
    if (!on() || !multi) return;
    access((u64) a, n, w, true, PC);
}
static void aacq(const volatile void *a, int mo) { if (on() && multi && !quiet && (mo == 1 || mo == 2 || mo == 4 || mo == 5)) { Obj *o = obj((const void *) a, false); if (o) acq(o); } }
static void arel(const volatile void *a, int mo) { if (on() && multi && !quiet && (mo == 3 || mo == 4 || mo == 5)) rel(obj((const void *) a)); }
#define AT(B, T) \
T __tsan_atomic##B##_load(const volatile T *a, int mo) { apoint(a, B == 8 && mo == 2); apre(a, mo, false, sizeof(T)); T v = *a; aacq(a, mo); return v; } \
void __tsan_atomic##B##_store(volatile T *a, T v, int mo) { apoint(a, false); apre(a, mo, true, sizeof(T)); *a = v; arel(a, mo); } \
T __tsan_atomic##B##_exchange(volatile T *a, T v, int mo) { apoint(a, false); apre(a, mo, true, sizeof(T)); T o = __atomic_exchange_n(a, v, 5); aacq(a, mo); arel(a, mo); return o; } \
T __tsan_atomic##B##_fetch_add(volatile T *a, T v, int mo) { apoint(a, false); apre(a, mo, true, sizeof(T)); T o = __atomic_fetch_add(a, v, 5); aacq(a, mo); arel(a, mo); return o; } \
T __tsan_atomic##B##_fetch_sub(volatile T *a, T v, int mo) { apoint(a, false); apre(a, mo, true, sizeof(T)); T o = __atomic_fetch_sub(a, v, 5); aacq(a, mo); arel(a, mo); return o; } \
T __tsan_atomic##B##_fetch_and(volatile T *a, T v, int mo) { apoint(a, false); apre(a, mo, true, sizeof(T)); T o = __atomic_fetch_and(a, v, 5); aacq(a, mo); arel(a, mo); return o; } \
T __tsan_atomic##B##_fetch_or(volatile T *a, T v, int mo) { apoint(a, false); apre(a, mo, true, sizeof(T)); T o = __atomic_fetch_or(a, v, 5); aacq(a, mo); arel(a, mo); return o; } \
T __tsan_atomic##B##_fetch_xor(volatile T *a, T v, int mo) { apoint(a, false); apre(a, mo, true, sizeof(T)); T o = __atomic_fetch_xor(a, v, 5); aacq(a, mo); arel(a, mo); return o; } \
T __tsan_atomic##B##_fetch_nand(volatile T *a, T v, int mo) { apoint(a, false); apre(a, mo, true, sizeof(T)); T o = __atomic_fetch_nand(a, v, 5); aacq(a, mo); arel(a, mo); return o; } \
int __tsan_atomic##B##_compare_exchange_strong(volatile T *a, T *c, T v, int mo, int fmo) { apoint(a, false); T e = *c; bool ok = *a == e; apre(a, mo, ok, sizeof(T)); if (ok) { *a = v; aacq(a, mo); arel(a, mo); return 1; } *c = *a; aacq(a, fmo); return 0; } \
int __tsan_atomic##B##_compare_exchange_weak(volatile T *a, T *c, T v, int mo, int fmo) { return __tsan_atomic##B##_compare_exchange_strong(a, c, v, mo, fmo); } \
T __tsan_atomic##B##_compare_exchange_val(volatile T *a, T c, T v, int mo, int fmo) { T e = c; __tsan_atomic##B##_compare_exchange_strong(a, &e, v, mo, fmo); return e; }
AT(8, u8) AT(16, uint16_t) AT(32, u32) AT(64, u64)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}
// OpenMP is not used in this variant
extern "C" { int omp_get_num_procs() { return 1; } int omp_get_max_threads() { return 1; } int omp_get_num_threads() { return 1; } int omp_get_thread_num() { return 0; } void omp_set_num_threads(int) {} int omp_in_parallel() { return 0; } }

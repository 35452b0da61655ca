// conc.h - runs pieces of the library as threads under the control of the explorer.
// The library is compiled with -fsanitize=thread, but its memory accesses are reported to
// this file instead of the runtime of the sanitizer: real threads of which only the one
// with the baton runs; the explorer decides at each access to memory that more than one of them may touch whether
// the other one goes on, and vector clocks tell whether two accesses to the same byte are
// ordered by synchronisation.
#ifndef MC_CONC_H
#define MC_CONC_H
#include "mc.h"
#include <pthread.h>
#include <semaphore.h>
#include <sys/resource.h>
#include <dlfcn.h>
#include <link.h>
#include <atomic>

#pragma clang attribute push(__attribute__((no_sanitize("thread"))), apply_to = function)
extern "C" { extern char __data_start[], _end[]; }
namespace mc { namespace conc {
enum { HORIZON = 4000, T = 3 };
static const size_t ARENA = 192u << 20;
struct Cell { uint32_t w[2]; uint32_t r[T]; };            // last write: thread, clock; last read of each thread
struct Sync { uint32_t c[T]; };
struct Run {
    X* x; bool on, inside; int cur, live, first; bool done[T]; sem_t baton[T]; pthread_t id[T]; std::function<void()> f[T];
    uint32_t clock[T][T]; uint64_t points, accesses; bool failed; Fail why; bool blocked; bool record;
};
alignas(16) inline char runSpace[sizeof(Run)];      // all zero is a good initial state of it
inline Run& R() { return *(Run*)runSpace; }
// memory is never used twice, so that an address stands for one object
struct Arena { char* base; size_t used; Cell* cells; Cell* globals; unsigned char* hot; unsigned char* seen; size_t nglob; /* seen: 1 read, 2 written; hot: 1 worth a decision, 2 known to be written */ };
inline Arena& A() { static Arena a; return a; }
inline void* region(size_t n) { void* p = mmap(0, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); return p == MAP_FAILED ? 0 : p; }
inline void arena() {
    Arena& a = A(); if (a.base) return;
    a.nglob = _end - __data_start; 
    a.cells = (Cell*)region(ARENA * sizeof(Cell)); a.globals = (Cell*)region(a.nglob * sizeof(Cell));
    a.hot = (unsigned char*)mmap(0, a.nglob, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    a.seen = (unsigned char*)mmap(0, a.nglob, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    a.base = (char*)region(ARENA);
}
inline void* alloc(size_t n, size_t align) {
    arena(); Arena& a = A(); if (align < 16) align = 16;
    size_t at = (a.used + 16 + align - 1) & ~(align - 1);
    if (n > ARENA || at + n > ARENA) { errno = ENOMEM; return 0; }
    ((size_t*)(a.base + at))[-1] = n; a.used = at + n; return a.base + at;
}
inline size_t sizeOf(void* p) { return ((size_t*)p)[-1]; }
inline std::string where(const void* p) {
    Dl_info i; if (dladdr(p, &i) && i.dli_sname) return i.dli_sname;
    return "";
}
inline void hold(int t) { while (sem_wait(&R().baton[t]) == -1 && errno == EINTR) {} }
inline void swapTo(int t) { Run& r = R(); int from = r.cur; r.cur = t; sem_post(&r.baton[t]); hold(from); }
inline int other() { int o = 3 - R().cur; return R().done[o] ? 0 : o; }
inline void point() {           // the other thread may go on here
    Run& r = R(); ++r.points;
    int o = other(); if (!o || r.x->devLeft <= 0 || r.points > HORIZON) return;
    if (r.x->dev(2, "the other thread goes on")) { r.x->note("    switch to thread %d", o); swapTo(o); }
}
struct Inside { Inside() { R().inside = true; } ~Inside() { R().inside = false; } };
inline void raise(const char* key, const std::string& msg) {
    Run& r = R(); if (r.failed) return; r.failed = true; r.why.key = std::string(r.x->s->site) + "|" + key; r.why.msg = msg; r.x->note("  %s", msg.c_str());
}
inline void touch(const void* p, size_t n, bool write, void* pc) {
    Run& r = R(); if (!r.on || r.inside) return;
    Arena& a = A(); Cell* c; const char* q = (const char*)p; bool global = false;
    if (q >= a.base && q < a.base + a.used) c = a.cells + (q - a.base);
    else if (q >= __data_start && q + n <= _end) { c = a.globals + (q - __data_start); global = true; }
    else return;
    Inside in; ++r.accesses; r.x->op();
    size_t g = q - __data_start;
    if (global && !r.record) { bool hot = false; for (size_t i = 0; i < n && !hot; ++i) hot = a.hot[g + i] & 1 || (write && !(a.hot[g + i] & 2)); if (hot) point(); }
    int t = r.cur;
    for (size_t i = 0; i < n; ++i) {
        Cell& k = c[i];
        if (global && r.record) a.seen[g + i] |= write ? 2 : 1;
        bool bad = k.w[1] && (int)k.w[0] != t && k.w[1] > r.clock[t][k.w[0]];
        if (write) for (int u = 1; u < T; ++u) if (u != t && k.r[u] && k.r[u] > r.clock[t][u]) bad = true;
        if (bad && !r.record) { Dl_info di; char b[300]; std::string what = global ? where(q) : "the heap"; (void)di;
            snprintf(b, sizeof b, "%s of %s (%p) by thread %d in %s is not ordered with what the other thread does there", write ? "a write" : "a read", what.empty() ? "static data" : what.c_str(), p, t, where(pc).c_str()); raise("race", b); }
        if (write) { k.w[0] = t; k.w[1] = r.clock[t][t]; } else k.r[t] = r.clock[t][t];
    }
}
inline std::map<const void*, Sync>& syncs() { static std::map<const void*, Sync>* m = new std::map<const void*, Sync>; return *m; }
inline void acquire(const void* o) { Run& r = R(); auto i = syncs().find(o); if (i != syncs().end()) for (int u = 0; u < T; ++u) r.clock[r.cur][u] = std::max(r.clock[r.cur][u], i->second.c[u]); }
inline void release(const void* o) { Run& r = R(); Sync& s = syncs()[o]; for (int u = 0; u < T; ++u) s.c[u] = std::max(s.c[u], r.clock[r.cur][u]); ++r.clock[r.cur][r.cur]; }
inline void sync(const void* o, bool acq, bool rel) { Run& r = R(); if (!r.on || r.inside) return; Inside in; if (!r.record) point(); if (acq) acquire(o); if (rel) release(o); }
// a library function with a static result: like a write of shared memory
inline void unsafe(const char* name) { Run& r = R(); if (!r.on || r.inside) return; Inside in; static std::map<std::string, Cell>* m = new std::map<std::string, Cell>; Cell& k = (*m)[name]; int t = r.cur; point();
    if (k.w[1] && (int)k.w[0] != t && k.w[1] > r.clock[t][k.w[0]] && !r.record) raise("race", std::string(name) + "() is used by both threads and has a static result"); k.w[0] = t; k.w[1] = r.clock[t][t]; }
inline void finish() { Run& r = R(); r.on = false; r.inside = false; r.cur = 0; sem_post(&r.baton[0]); }
inline void* entry(void* arg) {
    Run& r = R(); int t = (int)(size_t)arg; hold(t); r.inside = false;
    try { r.f[t](); }
    catch (Fail& e) { if (!r.failed) { r.failed = true; r.why = e; } }
    catch (std::exception& e) { r.inside = true; raise("exception", e.what()); r.inside = false; }
    r.inside = true; r.done[t] = true; int o = 3 - t; if (r.f[o] && !r.done[o]) { r.inside = false; r.cur = o; sem_post(&r.baton[o]); for (;;) pause(); }
    finish(); for (;;) pause();
}
inline void wait() {            // blocked until the other thread has done something
    Run& r = R(); int o = other(); if (!o) { raise("deadlock", "a thread waits for ever"); finish(); for (;;) pause(); } swapTo(o);
}
// both functions to their end under all schedules; b may be empty
inline void run(X& x, int first, std::function<void()> a, std::function<void()> b, bool record) {
    Run& r = R(); arena(); r.x = &x; r.failed = false; r.record = record; r.points = r.accesses = 0;
    memset(r.clock, 0, sizeof r.clock); for (int t = 0; t < T; ++t) { r.clock[t][t] = 1; r.done[t] = false; } r.clock[0][0] = 2; r.clock[1][0] = r.clock[2][0] = 1;
    r.f[1] = a; r.f[2] = b;
    r.on = false; for (int t = 0; t < T; ++t) sem_init(&r.baton[t], 0, 0);
    for (int t = 1; t < T; ++t) { if (!r.f[t]) { r.done[t] = true; continue; } if (pthread_create(&r.id[t], 0, entry, (void*)(size_t)t)) x.fail("harness", "pthread_create"); }
    r.cur = 0; r.inside = false; r.on = true;
    int f = r.done[2] ? 1 : first; swapTo(f); r.on = false; r.cur = 0;
    if (r.failed) throw r.why;
}
// what the two threads do to the same static data, as far as it is known from running them alone
inline void conflicts(const std::string& a, const std::string& b) {
    for (size_t i = 0; i < a.size(); ++i) A().hot[i] = ((a[i] & 2 && b[i]) || (b[i] & 2 && a[i]) ? 1 : 0) | (a[i] & 2 || b[i] & 2 ? 2 : 0);
}
// an execution in a process of its own, because it starts with fresh static data
struct Result { int done, pos, devLeft, failed; uint64_t outcome, points, accesses; char key[200], msg[1000]; size_t len; char out[1 << 16]; };
inline Result*& shared() { static Result* r; return r; }
inline void isolated(X& x, std::function<void(Result*)> f) {
    arena(); static int owner; if (owner != getpid()) { owner = getpid(); shared() = (Result*)mmap(0, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); }
    Result* r = shared(); r->done = 0; r->failed = 0; r->len = 0;
    int p = fork();
    if (p == 0) {
        struct rlimit l = { 60, 60 }; setrlimit(RLIMIT_CPU, &l);
        try { f(r); } catch (Fail& e) { r->failed = 1; snprintf(r->key, sizeof r->key, "%s", e.key.c_str()); snprintf(r->msg, sizeof r->msg, "%s", e.msg.c_str()); } catch (Prune&) { r->failed = 2; }
        r->pos = x.pos; r->devLeft = x.devLeft; r->outcome = x.outcome; r->points = R().points; r->accesses = R().accesses; r->done = 1; _exit(0);
    }
    int st; while (waitpid(p, &st, 0) == -1 && errno == EINTR) {}
    x.pos = r->done ? r->pos : x.s->len; x.devLeft = r->devLeft; x.outcome = r->outcome;
    if (!r->done) { x.s->len = std::max(x.s->len, x.s->prefix); x.fail("crash", "the execution dies: %s %d", WIFSIGNALED(st) ? "signal" : "exit", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st)); }
    if (r->failed == 1) throw Fail{r->key, r->msg};
    if (r->failed == 2) throw Prune();
}
}} // namespace

// ------------------------------------------------------------------ memory
extern "C" {
void* __libc_malloc(size_t); void __libc_free(void*); void* __libc_calloc(size_t, size_t); void* __libc_realloc(void*, size_t); void* __libc_memalign(size_t, size_t);
static inline bool ours() { return mc::conc::R().on; }
static inline bool mine(void* p) { mc::conc::Arena& a = mc::conc::A(); return (char*)p >= a.base && (char*)p < a.base + mc::conc::ARENA && a.base; }
void* malloc(size_t n) { return ours() ? mc::conc::alloc(n, 16) : __libc_malloc(n); }
void free(void* p) { if (p && !mine(p)) __libc_free(p); }
void* calloc(size_t a, size_t b) { if (!ours()) return __libc_calloc(a, b); if (b && a > SIZE_MAX / b) { errno = ENOMEM; return 0; } return mc::conc::alloc(a * b, 16); }       // fresh memory is zero
void* realloc(void* p, size_t n) { if (!p) return malloc(n); if (!mine(p)) return __libc_realloc(p, n); size_t o = mc::conc::sizeOf(p); if (n <= o) return p; void* q = malloc(n); if (q) memcpy(q, p, o); return q; }
void* memalign(size_t al, size_t n) { return ours() ? mc::conc::alloc(n, al) : __libc_memalign(al, n); }
void* aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
int posix_memalign(void** p, size_t al, size_t n) { *p = memalign(al, n); return *p ? 0 : ENOMEM; }
size_t malloc_usable_size(void* p) { return p && mine(p) ? mc::conc::sizeOf(p) : 0; }

// ------------------------------------------------------------------ what the compiler reports
#define PC __builtin_return_address(0)
#define ACC(n) void __tsan_read##n(void* p) { mc::conc::touch(p, n, false, PC); } void __tsan_write##n(void* p) { mc::conc::touch(p, n, true, PC); } \
  void __tsan_unaligned_read##n(void* p) { mc::conc::touch(p, n, false, PC); } void __tsan_unaligned_write##n(void* p) { mc::conc::touch(p, n, true, PC); } \
  void __tsan_read_write##n(void* p) { mc::conc::touch(p, n, true, PC); } void __tsan_unaligned_read_write##n(void* p) { mc::conc::touch(p, n, true, PC); } \
  void __tsan_volatile_read##n(void* p) { mc::conc::touch(p, n, false, PC); } void __tsan_volatile_write##n(void* p) { mc::conc::touch(p, n, true, PC); } \
  void __tsan_unaligned_volatile_read##n(void* p) { mc::conc::touch(p, n, false, PC); } void __tsan_unaligned_volatile_write##n(void* p) { mc::conc::touch(p, n, true, PC); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
void __tsan_vptr_update(void** p, void*) { mc::conc::touch(p, 8, true, PC); }
void __tsan_vptr_read(void** p) { mc::conc::touch(p, 8, false, PC); }
void __tsan_read_range(void* p, size_t n) { mc::conc::touch(p, n, false, PC); }
void __tsan_write_range(void* p, size_t n) { mc::conc::touch(p, n, true, PC); }
void* __tsan_memcpy(void* d, const void* s, size_t n) { mc::conc::touch(s, n, false, PC); mc::conc::touch(d, n, true, PC); return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { mc::conc::touch(s, n, false, PC); mc::conc::touch(d, n, true, PC); return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { mc::conc::touch(d, n, true, PC); return memset(d, c, n); }
#define ATO(n, ty) \
  ty __tsan_atomic##n##_load(const volatile ty* p, int mo) { mc::conc::sync((const void*)p, mo != 0, false); return *p; } void __tsan_atomic##n##_store(volatile ty* p, ty v, int mo) { mc::conc::sync((const void*)p, false, mo != 0); *p = v; } \
  ty __tsan_atomic##n##_exchange(volatile ty* p, ty v, int mo) { mc::conc::sync((const void*)p, mo != 0, mo != 0); ty o = *p; *p = v; return o; } \
  ty __tsan_atomic##n##_fetch_add(volatile ty* p, ty v, int mo) { mc::conc::sync((const void*)p, mo != 0, mo != 0); ty o = *p; *p = o + v; return o; } ty __tsan_atomic##n##_fetch_sub(volatile ty* p, ty v, int mo) { mc::conc::sync((const void*)p, mo != 0, mo != 0); ty o = *p; *p = o - v; return o; } \
  ty __tsan_atomic##n##_fetch_and(volatile ty* p, ty v, int mo) { mc::conc::sync((const void*)p, mo != 0, mo != 0); ty o = *p; *p = o & v; return o; } ty __tsan_atomic##n##_fetch_or(volatile ty* p, ty v, int mo) { mc::conc::sync((const void*)p, mo != 0, mo != 0); ty o = *p; *p = o | v; return o; } \
  ty __tsan_atomic##n##_fetch_xor(volatile ty* p, ty v, int mo) { mc::conc::sync((const void*)p, mo != 0, mo != 0); ty o = *p; *p = o ^ v; return o; } \
  int __tsan_atomic##n##_compare_exchange_strong(volatile ty* p, ty* e, ty v, int mo, int) { mc::conc::sync((const void*)p, mo != 0, mo != 0); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
  int __tsan_atomic##n##_compare_exchange_weak(volatile ty* p, ty* e, ty v, int a, int b) { return __tsan_atomic##n##_compare_exchange_strong(p, e, v, a, b); } \
  ty __tsan_atomic##n##_compare_exchange_val(volatile ty* p, ty e, ty v, int mo, int) { mc::conc::sync((const void*)p, mo != 0, mo != 0); ty o = *p; if (o == e) *p = v; return o; }
ATO(8, uint8_t) ATO(16, uint16_t) ATO(32, uint32_t) ATO(64, uint64_t)
void __tsan_atomic_thread_fence(int) { static char f; mc::conc::sync(&f, true, true); }
void __tsan_atomic_signal_fence(int) {}

// ------------------------------------------------------------------ synchronisation and static results (--wrap)
int __real_pthread_mutex_lock(pthread_mutex_t*); int __real_pthread_mutex_unlock(pthread_mutex_t*);
static std::map<const void*, int>& held() { static std::map<const void*, int>* m = new std::map<const void*, int>; return *m; }
#define ON (mc::conc::R().on && !mc::conc::R().inside)
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { if (!ON) return __real_pthread_mutex_lock(m); mc::conc::Inside in; if (!mc::conc::R().record) mc::conc::point(); while (held()[m] && held()[m] != mc::conc::R().cur) mc::conc::wait(); held()[m] = mc::conc::R().cur; mc::conc::acquire(m); return 0; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { if (!ON) return __real_pthread_mutex_unlock(m); mc::conc::Inside in; mc::conc::release(m); held()[m] = 0; return 0; }
int __wrap_pthread_once(pthread_once_t* o, void (*f)()) { static std::map<const void*, int>* st = new std::map<const void*, int>; if (!ON) { f(); return 0; }
    { mc::conc::Inside in; if (!mc::conc::R().record) mc::conc::point(); while ((*st)[o] == 1) mc::conc::wait(); if ((*st)[o] == 2) { mc::conc::acquire(o); return 0; } (*st)[o] = 1; } f(); { mc::conc::Inside in; (*st)[o] = 2; mc::conc::release(o); } return 0; }
int __real___cxa_guard_acquire(uint64_t*); void __real___cxa_guard_release(uint64_t*); void __real___cxa_guard_abort(uint64_t*);
int __wrap___cxa_guard_acquire(uint64_t* g) { if (!ON) return __real___cxa_guard_acquire(g); mc::conc::Inside in; if (!mc::conc::R().record) mc::conc::point(); char* b = (char*)g; while (b[1]) mc::conc::wait(); mc::conc::acquire(g); if (b[0]) return 0; b[1] = 1; return 1; }
void __wrap___cxa_guard_release(uint64_t* g) { char* b = (char*)g; if (!ON) { if (b[1]) { b[0] = 1; b[1] = 0; return; } return __real___cxa_guard_release(g); } mc::conc::Inside in; b[0] = 1; b[1] = 0; mc::conc::release(g); }
void __wrap___cxa_guard_abort(uint64_t* g) { char* b = (char*)g; if (!ON) return __real___cxa_guard_abort(g); b[1] = 0; }
struct tm; struct dirent;
#define UNSAFE(ret, name, params, args) ret __real_##name params; ret __wrap_##name params { mc::conc::unsafe(#name); return __real_##name args; }
UNSAFE(struct tm*, localtime, (const time_t* t), (t)) UNSAFE(struct tm*, gmtime, (const time_t* t), (t)) UNSAFE(char*, asctime, (const struct tm* t), (t)) UNSAFE(char*, ctime, (const time_t* t), (t))
UNSAFE(char*, strtok, (char* s, const char* d), (s, d)) UNSAFE(char*, setlocale, (int c, const char* l), (c, l)) UNSAFE(char*, tmpnam, (char* s), (s)) UNSAFE(int, rand, (), ())
UNSAFE(int, setenv, (const char* a, const char* b, int c), (a, b, c)) UNSAFE(int, unsetenv, (const char* a), (a)) UNSAFE(int, putenv, (char* a), (a)) UNSAFE(int, chdir, (const char* a), (a)) UNSAFE(mode_t, umask, (mode_t m), (m))
UNSAFE(void, tzset, (), ())
}
#pragma clang attribute pop
#endif

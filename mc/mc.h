// mc.h - a small stateless model checker: exhaustive, choice-driven depth-first
// exploration of executions of the real code.
//
// A harness is a set of suites.  A suite has a number of tasks and a body.  The
// body is an ordinary function that drives the code under test and asks the
// explorer for every nondeterministic decision (x.choose / x.dev).  The explorer
// runs the body once for every sequence of decisions: nothing is sampled.
//
// Work is spread over forked worker processes; the choice vector of the running
// execution lives in shared memory, so that a crash, a sanitizer report or a hang
// is attributed to exactly one execution, which is replayed alone before it is
// reported.
#ifndef MC_H
#define MC_H
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <cstdarg>
#include <string>
#include <vector>
#include <set>
#include <map>
#include <functional>
#include <algorithm>
#include <iostream>
#include <fstream>
#include <sstream>
#include <sys/mman.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <time.h>
#include <errno.h>

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define MC_ASAN 1
#endif
#endif
#ifdef MC_ASAN
#include <sanitizer/asan_interface.h>
#include <sanitizer/allocator_interface.h>
#endif

namespace mc {

// ---------------------------------------------------------------- hashing
inline uint64_t mix(uint64_t h, uint64_t v) {
    h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
    h ^= h >> 29; h *= 0xbf58476d1ce4e5b9ULL; h ^= h >> 32;
    return h;
}
inline uint64_t hashBytes(const void* p, size_t n, uint64_t h = 1469598103934665603ULL) {
    const unsigned char* c = (const unsigned char*)p;
    for (size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 1099511628211ULL; }
    return h;
}

// open addressing set in mmap'ed memory (so that it does not disturb malloc)
class HashSet {
    uint64_t* t; size_t cap, n; size_t limit; bool full_;
    static uint64_t* alloc(size_t c) {
        void* m = mmap(0, c * 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        if (m == MAP_FAILED) { perror("mmap"); _exit(2); }
        return (uint64_t*)m;
    }
    bool ins(uint64_t* tt, size_t c, uint64_t h) {
        size_t i = (h * 0x9E3779B97F4A7C15ULL) & (c - 1);
        while (tt[i]) { if (tt[i] == h) return false; i = (i + 1) & (c - 1); }
        tt[i] = h; return true;
    }
public:
    explicit HashSet(size_t lim = 8u << 20) : t(alloc(1024)), cap(1024), n(0), limit(lim), full_(false) {}
    void insert(uint64_t h) {
        if (h == 0) h = 1;
        if (n >= limit) { full_ = true; return; }
        if (ins(t, cap, h)) ++n;
        if (n * 2 > cap) {
            uint64_t* o = t; size_t oc = cap; cap *= 2; t = alloc(cap);
            for (size_t i = 0; i < oc; ++i) if (o[i]) ins(t, cap, o[i]);
            munmap(o, oc * 8);
        }
    }
    size_t size() const { return n; }
    bool full() const { return full_; }
    void dump(FILE* f) const { for (size_t i = 0; i < cap; ++i) if (t[i]) fwrite(&t[i], 8, 1, f); }
};

// ---------------------------------------------------------------- leak accounting
#ifdef MC_ASAN
inline volatile int64_t& liveBlocks() { static volatile int64_t b = 0; return b; }
inline void mallocHook(const volatile void* p, size_t) { if (p) liveBlocks() = liveBlocks() + 1; }
inline void freeHook(const volatile void* p) { if (p) liveBlocks() = liveBlocks() - 1; }
#endif

// ---------------------------------------------------------------- shared memory layout
enum { MAXCHOICE = 8192, MAXKNOWN = 256, MAXSUITE = 64 };
enum EndState { Running = 0, Failed = 1, Hung = 2, NonDet = 3 };
struct Slot {
    volatile int end;
    volatile int task;
    volatile int len;       // choices made by the running execution
    volatile int prefix;    // how many of them are dictated
    volatile int active;    // an execution is running
    volatile uint64_t execs, nodes, ops;
    volatile uint64_t suiteExecs[MAXSUITE];
    volatile uint64_t tasksDone;
    volatile uint64_t knownHits[MAXKNOWN];
    uint16_t choice[MAXCHOICE], arity[MAXCHOICE];
    char site[256];
    char key[512];
    char msg[4096];
};
struct Shared {
    volatile int nextTask;
    volatile int stop;
};

struct Fail { std::string key, msg; };
struct Prune {};            // abandon this execution silently (it is outside the bound)

class X;
struct Suite {
    std::string name;
    int ntasks;
    std::function<void(X&, int)> body;
    bool leak;              // check that every execution returns the heap to its initial state
    int devBound;
};

struct KnownEntry { std::string match; bool wildcard; };

class X {
public:
    Slot* s;
    bool verbose;
    FILE* out;
    int devLeft;
    uint64_t outcome;
    HashSet* states;
    int pos;                // next choice index
    bool measuring;
    X() : s(0), verbose(false), out(0), devLeft(0), outcome(0), states(0), pos(0), measuring(false) {}

    int choose(int n, const char* label = 0) {
        if (n < 1) fail("harness", "choose(%d) %s", n, label ? label : "");
        if (pos >= MAXCHOICE) fail("harness-horizon", "more than %d decisions in one execution", (int)MAXCHOICE);
        int i = pos++;
        int c;
        if (i < s->prefix) {
            c = s->choice[i];
            if (s->arity[i] != n || c >= n) {
                s->end = NonDet;
                snprintf(s->msg, sizeof(s->msg), "replay diverged at decision %d (%s): arity %d, recorded %d",
                    i, label ? label : "?", n, s->arity[i]);
                throw Fail{"nondeterminism", s->msg};
            }
        } else {
            c = 0;
            s->choice[i] = 0;
            s->arity[i] = (uint16_t)n;
            if (n > 1) s->nodes = s->nodes + 1;
        }
        s->len = pos;
        if (verbose && n > 1 && label) note("choice %s = %d of %d", label, c, n);
        return c;
    }
    // a deviation from the default answer: alternatives beyond 0 consume the deviation budget
    int dev(int n, const char* label = 0) {
        int c = choose(devLeft > 0 ? n : 1, label);
        if (c > 0) --devLeft;
        return c;
    }
    template <class T, size_t N> const T& pick(const T (&a)[N], const char* label = 0) { return a[choose((int)N, label)]; }
    template <class T> const T& pick(const std::vector<T>& a, const char* label = 0) { return a[choose((int)a.size(), label)]; }

    void note(const char* fmt, ...) __attribute__((format(printf, 2, 3))) {
        if (!verbose || measuring) return;
        va_list ap; va_start(ap, fmt);
        vfprintf(out, fmt, ap); fputc('\n', out); fflush(out);
        va_end(ap);
    }
    void op() { s->ops = s->ops + 1; }
    void obs(uint64_t v) { outcome = mix(outcome, v); }
    void state(uint64_t h) { if (!measuring) states->insert(h); }
    // names the place that is being exercised: part of the key of a crash or hang
    void site(const char* fmt, ...) __attribute__((format(printf, 2, 3))) {
        va_list ap; va_start(ap, fmt);
        vsnprintf(s->site, sizeof(s->site), fmt, ap);
        va_end(ap);
    }
    [[noreturn]] void fail(const char* key, const char* fmt, ...) __attribute__((format(printf, 3, 4))) {
        char buf[3000];
        va_list ap; va_start(ap, fmt);
        vsnprintf(buf, sizeof(buf), fmt, ap);
        va_end(ap);
        std::string k(s->site[0] ? std::string(s->site) + "|" + key : std::string(key));
        throw Fail{k, buf};
    }
    void check(bool ok, const char* key, const char* fmt, ...) __attribute__((format(printf, 4, 5))) {
        if (ok) return;
        char buf[3000];
        va_list ap; va_start(ap, fmt);
        vsnprintf(buf, sizeof(buf), fmt, ap);
        va_end(ap);
        std::string k(s->site[0] ? std::string(s->site) + "|" + key : std::string(key));
        throw Fail{k, buf};
    }
    [[noreturn]] void prune() { throw Prune(); }
};

inline std::string printable(const void* p, size_t n, size_t maxn = 80) {
    std::string r; const unsigned char* c = (const unsigned char*)p;
    char b[8];
    for (size_t i = 0; i < n && i < maxn; ++i) {
        if (c[i] >= 32 && c[i] < 127 && c[i] != '\\' && c[i] != '"') r += (char)c[i];
        else { snprintf(b, 8, "\\x%02x", c[i]); r += b; }
    }
    if (n > maxn) { snprintf(b, 8, "..."); r += b; }
    return r;
}
inline std::string jsonEsc(const std::string& s) {
    std::string r; char b[8];
    for (size_t i = 0; i < s.size(); ++i) {
        unsigned char c = s[i];
        if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
        else if (c == '\n') r += "\\n";
        else if (c < 32 || c > 126) { snprintf(b, 8, "\\u%04x", c); r += b; }
        else r += (char)c;
    }
    return r;
}

// not the builtin, which conc.h takes over
inline int takeNext(volatile int* p) {
    int v = 1;
    __asm__ volatile("lock xaddl %0, %1" : "+r"(v), "+m"(*p) : : "memory");
    return v;
}

class Explorer {
    std::vector<Suite> suites;
    std::vector<KnownEntry> known;
    Shared* sh; Slot* slots; int nw;
    std::string prop, outdir;
    std::set<std::string> seenKeys;
    double cpuLimit;       // CPU seconds per execution
    double wallCap;        // seconds for the whole exploration
    int total;
    std::function<void()> perWorkerInit, perWorkerExit;

    static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
    int suiteOf(int task, int& local) const {
        local = task;
        for (size_t i = 0; i < suites.size(); ++i) {
            if (local < suites[i].ntasks) return (int)i;
            local -= suites[i].ntasks;
        }
        return -1;
    }
    static Slot*& curSlot() { static Slot* s = 0; return s; }
    // A timer ticks twice per second of CPU time; an execution that lives through
    // maxTicks of them hangs.  (No system call per execution.)
    static volatile uint64_t& runNo() { static volatile uint64_t n = 0; return n; }
    static int& maxTicks() { static int n = 40; return n; }
    static void onTimer(int) {
        static uint64_t last = 0; static int ticks = 0;
        Slot* s = curSlot();
        if (!s || !s->active || runNo() != last) { last = runNo(); ticks = 0; return; }
        if (++ticks < maxTicks()) return;
        s->end = Hung;
        _exit(98);
    }
    void arm(double sec) {
        maxTicks() = (int)(sec * 2) + 1;
        struct itimerval it; memset(&it, 0, sizeof it);
        it.it_value.tv_usec = 500000; it.it_interval = it.it_value;
        setitimer(ITIMER_VIRTUAL, &it, 0);
    }
    int knownIndex(const std::string& key) const {
        for (size_t i = 0; i < known.size(); ++i) {
            if (known[i].wildcard) {
                if (key.compare(0, known[i].match.size(), known[i].match) == 0) return (int)i;
            } else if (key == known[i].match) return (int)i;
        }
        return -1;
    }
    void runBody(X& x, const Suite& su, int local) {
        x.pos = 0; x.outcome = 0; x.devLeft = su.devBound;
        x.s->site[0] = 0; x.s->len = 0;
        su.body(x, local);
    }
    // one execution; returns true if it ended without failure
    bool execute(X& x, const Suite& su, int local, Fail& f) {
        x.measuring = false;
        try {
#ifdef MC_ASAN
            int64_t b0 = liveBlocks();
            runBody(x, su, local);
            if (su.leak && liveBlocks() > b0) {
                // possibly a one-time initialisation: run the same execution again
                int keepPrefix = x.s->prefix; int len = x.s->len; uint64_t oc = x.outcome;
                bool leak = true; int64_t grow = 0;
                x.s->prefix = len;
                x.measuring = true;
                for (int k = 0; k < 3 && leak; ++k) {
                    int64_t b1 = liveBlocks();
                    runBody(x, su, local);
                    grow = liveBlocks() - b1;
                    leak = grow > 0;
                }
                x.measuring = false;
                x.s->prefix = keepPrefix; x.s->len = len; x.outcome = oc;
                if (leak) x.fail("leak", "every run of this execution leaves %ld heap blocks allocated", (long)grow);
            }
#else
            runBody(x, su, local);
#endif
        } catch (Fail& e) { x.measuring = false; f = e; return false; }
        catch (Prune&) { x.measuring = false; }
        catch (std::exception& e) { x.measuring = false; f.key = std::string(x.s->site) + "|exception"; f.msg = e.what(); return false; }
        return true;
    }
    // moves to the next execution of the task; false if the task is finished
    static bool advance(Slot* s) {
        int i = s->len - 1;
        while (i >= 0 && s->choice[i] + 1 >= s->arity[i]) --i;
        if (i < 0) return false;
        s->choice[i]++;
        s->prefix = i + 1;
        return true;
    }
    void quiet() {
        int fd = open("/dev/null", O_WRONLY);
        dup2(fd, 1); dup2(fd, 2); close(fd);
        std::cerr.rdbuf(0); std::cout.rdbuf(0);
    }
    void worker(int w, bool resume) {
        Slot* s = &slots[w];
        curSlot() = s;
        signal(SIGVTALRM, onTimer);
        quiet();
        if (perWorkerInit) perWorkerInit();
        arm(cpuLimit);
        HashSet states, outcomes;
        X x; x.s = s; x.states = &states;
        bool have = false;
        if (resume) { have = advance(s); if (!have) s->tasksDone = s->tasksDone + 1; }
        while (!sh->stop) {
            if (!have) {
                int t = takeNext(&sh->nextTask);
                if (t >= total) break;
                s->task = t; s->prefix = 0; s->len = 0;
            }
            int local; int si = suiteOf(s->task, local);
            const Suite& su = suites[si];
            for (;;) {
                if (sh->stop) break;
                Fail f;
                s->active = 1; s->end = Running;
                runNo() = runNo() + 1;
                bool ok = execute(x, su, local, f);
                s->active = 0;
                s->execs = s->execs + 1;
                s->suiteExecs[si] = s->suiteExecs[si] + 1;
                if (!ok) {
                    int k = s->end == NonDet ? -1 : knownIndex(f.key);
                    if (s->end != NonDet && seenKeys.count(f.key)) {
                        // development (--collect): already reported by this run
                    } else if (k >= 0) {
                        s->knownHits[k] = s->knownHits[k] + 1;
                    } else {
                        if (s->end != NonDet) s->end = Failed;
                        snprintf(s->key, sizeof(s->key), "%s", f.key.c_str());
                        snprintf(s->msg, sizeof(s->msg), "%s", f.msg.c_str());
                        dumpSets(w, states, outcomes);
                        if (perWorkerExit) perWorkerExit();
                        _exit(97);
                    }
                }
                outcomes.insert(mix(x.outcome, s->task));
                if (!advance(s)) break;
            }
            have = false;
            if (!sh->stop) s->tasksDone = s->tasksDone + 1;
        }
        s->active = 0;
        dumpSets(w, states, outcomes);
        if (perWorkerExit) perWorkerExit();
        _exit(0);
    }
    void dumpSets(int w, HashSet& st, HashSet& oc) {
        char n[600];
        snprintf(n, 600, "%s/sets.%d.%d", outdir.c_str(), w, (int)getpid());
        FILE* f = fopen(n, "wb");
        if (!f) return;
        uint64_t c[4] = { st.size(), oc.size(), st.full(), oc.full() };
        fwrite(c, 8, 4, f); st.dump(f); oc.dump(f);
        fclose(f);
    }
public:
    struct Result { int status; std::string key, msg, log; uint64_t outcome; };
    // run one execution alone in a fresh process, verbosely
    Result replay(int task, const std::vector<int>& ch, const std::vector<int>& ar, const std::string& logpath, double limit) {
        Slot* s = &slots[nw];
        memset((void*)s, 0, sizeof(Slot));
        for (size_t i = 0; i < ch.size(); ++i) { s->choice[i] = ch[i]; s->arity[i] = ar[i]; }
        s->prefix = (int)ch.size(); s->task = task;
        int p = fork();
        if (p == 0) {
            curSlot() = s;
            signal(SIGVTALRM, onTimer);
            int fd = open(logpath.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
            dup2(fd, 2);
            int nul = open("/dev/null", O_WRONLY); dup2(nul, 1);
            FILE* o = fdopen(fd, "a");
            if (perWorkerInit) perWorkerInit();
            HashSet states;
            X x; x.s = s; x.verbose = true; x.out = o; x.states = &states;
            int local; int si = suiteOf(task, local);
            fprintf(o, "suite %s task %d\n", suites[si].name.c_str(), local); fflush(o);
            Fail f;
            s->active = 1;
            arm(limit);
            bool ok = execute(x, suites[si], local, f);
            s->ops = x.outcome;
            if (!ok) {
                if (s->end != NonDet) s->end = Failed;
                snprintf(s->key, sizeof(s->key), "%s", f.key.c_str());
                snprintf(s->msg, sizeof(s->msg), "%s", f.msg.c_str());
                fprintf(o, "FAILED %s: %s\n", f.key.c_str(), f.msg.c_str()); fflush(o);
                if (perWorkerExit) perWorkerExit();
                _exit(97);
            }
            fflush(o);
            if (perWorkerExit) perWorkerExit();
            _exit(0);
        }
        int st = 0;
        double t0 = now(); bool killed = false;
        for (;;) {
            int r = waitpid(p, &st, WNOHANG);
            if (r == p) break;
            if (now() - t0 > limit * 4 + 30) { kill(p, SIGKILL); waitpid(p, &st, 0); killed = true; break; }
            usleep(2000);
        }
        Result R; R.status = 0; R.log = logpath; R.outcome = s->ops;
        if (killed) { R.status = Hung; R.key = std::string(s->site) + "|hang"; R.msg = "execution does not terminate (blocked)"; }
        else if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { }
        else if (WIFEXITED(st) && WEXITSTATUS(st) == 97) { R.status = s->end; R.key = s->key; R.msg = s->msg; }
        else if (WIFEXITED(st) && WEXITSTATUS(st) == 98) { R.status = Hung; R.key = std::string(s->site) + "|hang"; R.msg = "execution does not terminate within its CPU limit"; }
        else {
            R.status = Failed; R.key = std::string(s->site) + "|crash";
            R.msg = "process died: ";
            if (WIFSIGNALED(st)) { char b[64]; snprintf(b, 64, "signal %d", WTERMSIG(st)); R.msg += b; }
            else { char b[64]; snprintf(b, 64, "exit %d", WEXITSTATUS(st)); R.msg += b; }
            std::ifstream in(logpath.c_str()); std::string line;
            while (std::getline(in, line)) {
                size_t q = line.find("ERROR: AddressSanitizer");
                if (q == std::string::npos) q = line.find("Assertion");
                if (q != std::string::npos) { R.msg += " " + line.substr(q); break; }
            }
        }
        return R;
    }

    void add(const std::string& name, int ntasks, std::function<void(X&, int)> body, bool leak = true, int devBound = 0) {
        Suite s; s.name = name; s.ntasks = ntasks; s.body = body; s.leak = leak; s.devBound = devBound;
        suites.push_back(s);
    }
    void onWorker(std::function<void()> f, std::function<void()> g = std::function<void()>()) { perWorkerInit = f; perWorkerExit = g; }
    void setCpuLimit(double c) { cpuLimit = c; }
    Explorer(const char* p) : sh(0), slots(0), nw(8), prop(p), cpuLimit(20), wallCap(780), total(0) {}

    static std::string arg(int argc, char** argv, const char* name, const char* def = "") {
        for (int i = 1; i + 1 < argc; ++i) if (!strcmp(argv[i], name)) return argv[i + 1];
        return def;
    }
    static bool thorough() { const char* t = getenv("VERIF_TIER"); return t && !strcmp(t, "thorough"); }

    int main(int argc, char** argv) {
        outdir = arg(argc, argv, "--out", ".");
        std::string resultPath = outdir + "/result.json";
        std::string rp = arg(argc, argv, "--replay");
        std::string kf = arg(argc, argv, "--known");
        std::string only = arg(argc, argv, "--only");
        std::string collect = arg(argc, argv, "--collect", "1");   // development: keep going after N violations
        size_t maxViol = atoi(collect.c_str());
        std::string wc = arg(argc, argv, "--cap"); if (!wc.empty()) wallCap = atof(wc.c_str());
        long nproc = sysconf(_SC_NPROCESSORS_ONLN);
        nw = (int)std::min(16L, std::max(2L, nproc));
        if (!only.empty()) {
            std::vector<Suite> s2;
            for (size_t i = 0; i < suites.size(); ++i) if (suites[i].name == only) s2.push_back(suites[i]);
            suites.swap(s2);
        }
        for (size_t i = 0; i < suites.size(); ++i) total += suites[i].ntasks;
        if (!kf.empty()) {
            std::ifstream in(kf.c_str()); std::string line;
            while (std::getline(in, line)) {
                if (line.empty()) continue;
                KnownEntry e; e.wildcard = false; e.match = line;
                if (line[line.size() - 1] == '*') { e.wildcard = true; e.match.erase(line.size() - 1); }
                known.push_back(e);
            }
        }
        size_t bytes = sizeof(Shared) + sizeof(Slot) * (nw + 1);
        char* m = (char*)mmap(0, bytes, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        sh = (Shared*)m; slots = (Slot*)(m + sizeof(Shared));
#ifdef MC_ASAN
        __sanitizer_install_malloc_and_free_hooks(mallocHook, freeHook);
#endif
        if (!rp.empty()) return doReplay(rp);

        double t0 = now();
        std::vector<int> pids(nw, 0);
        std::vector<char> resume(nw, 0);
        struct V { int task; std::vector<int> ch, ar; Result r; };
        std::vector<V> viols;
        bool capped = false, harnessError = false; std::string herr;
        int live = 0;
        std::vector<uint64_t> lastExec(nw, 0); std::vector<double> lastT(nw, t0);
        for (int w = 0; w < nw; ++w) {
            int p = fork(); if (p == 0) worker(w, false);
            pids[w] = p; ++live;
        }
        while (live > 0) {
            int st; int p = waitpid(-1, &st, WNOHANG);
            if (!sh->stop && now() - t0 > wallCap) { capped = true; sh->stop = 1; }
            if (p <= 0) {
                usleep(3000);
                if (!sh->stop && now() - t0 > wallCap) { capped = true; sh->stop = 1; }
                for (int w = 0; w < nw; ++w) if (pids[w]) {
                    uint64_t e = slots[w].execs;
                    if (e != lastExec[w] || !slots[w].active) { lastExec[w] = e; lastT[w] = now(); }
                    else if (now() - lastT[w] > cpuLimit * 6 + 60) { kill(pids[w], SIGKILL); lastT[w] = now(); }
                }
                continue;
            }
            int w = -1; for (int i = 0; i < nw; ++i) if (pids[i] == p) w = i;
            if (w < 0) continue;
            pids[w] = 0; --live;
            if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
            Slot* s = &slots[w];
            if (!s->active && s->end == Running) { harnessError = true; herr = "worker died outside an execution"; sh->stop = 1; continue; }
            V v; v.task = s->task;
            for (int i = 0; i < s->len; ++i) { v.ch.push_back(s->choice[i]); v.ar.push_back(s->arity[i]); }
            if (s->end == NonDet) { harnessError = true; herr = s->msg; sh->stop = 1; continue; }
            char log[700]; snprintf(log, 700, "%s/log.%d", outdir.c_str(), (int)viols.size());
            v.r = replay(v.task, v.ch, v.ar, log, cpuLimit * 3);
            if (v.r.status == NonDet) { harnessError = true; herr = v.r.msg; sh->stop = 1; continue; }
            bool restart = true;
            if (v.r.status == 0) {
                // did not reproduce alone
                if (s->end == Hung) fprintf(stderr, "note: a slow execution finished when run alone\n");
                else { harnessError = true; herr = "a failure did not reproduce when replayed alone: " + std::string(s->key) + " " + s->msg; sh->stop = 1; continue; }
            } else {
                int k = knownIndex(v.r.key);
                if (k >= 0) s->knownHits[k] = s->knownHits[k] + 1;
                else if (seenKeys.insert(v.r.key).second || maxViol == 1) {
                    viols.push_back(v);
                    if (viols.size() >= maxViol) { sh->stop = 1; restart = false; }
                }
            }
            if (restart && !sh->stop) {
                s->execs = s->execs + (s->active ? 1 : 0);
                s->active = 0; s->end = Running;
                int q = fork(); if (q == 0) worker(w, true);
                pids[w] = q; ++live;
            }
        }
        double wall = now() - t0;

        // merge
        uint64_t execs = 0, nodes = 0, ops = 0, done = 0; std::vector<uint64_t> se(suites.size(), 0), kh(known.size(), 0);
        for (int w = 0; w < nw; ++w) {
            execs += slots[w].execs; nodes += slots[w].nodes; ops += slots[w].ops; done += slots[w].tasksDone;
            for (size_t i = 0; i < suites.size(); ++i) se[i] += slots[w].suiteExecs[i];
            for (size_t i = 0; i < known.size(); ++i) kh[i] += slots[w].knownHits[i];
        }
        HashSet st(64u << 20), oc(64u << 20); bool partial = false;
        {
            std::string cmd;
            // read the set files
            for (int w = 0; w < nw; ++w) (void)w;
            FILE* ls = popen(("ls " + outdir + "/sets.* 2>/dev/null").c_str(), "r");
            char n[700];
            while (ls && fgets(n, 700, ls)) {
                n[strcspn(n, "\n")] = 0;
                FILE* f = fopen(n, "rb"); if (!f) continue;
                uint64_t c[4];
                if (fread(c, 8, 4, f) == 4) {
                    uint64_t h;
                    for (uint64_t i = 0; i < c[0] && fread(&h, 8, 1, f) == 1; ++i) st.insert(h);
                    for (uint64_t i = 0; i < c[1] && fread(&h, 8, 1, f) == 1; ++i) oc.insert(h);
                    partial |= c[2] || c[3];
                }
                fclose(f); unlink(n);
            }
            if (ls) pclose(ls);
        }
        // samples: the first execution of some tasks, replayed twice (determinism check)
        std::vector<std::string> samples;
        if (!harnessError && viols.empty()) {
            for (int k = 0; k < 3 && total > 0; ++k) {
                int task = total == 1 ? 0 : (int)((int64_t)(total - 1) * k / 2);
                char log[700]; snprintf(log, 700, "%s/sample.%d", outdir.c_str(), k);
                std::vector<int> e;
                Result a = replay(task, e, e, log, cpuLimit * 3);
                Slot* s = &slots[nw];
                std::vector<int> ch, ar;
                for (int i = 0; i < s->len; ++i) { ch.push_back(s->choice[i]); ar.push_back(s->arity[i]); }
                Result b = replay(task, ch, ar, log, cpuLimit * 3);
                if (a.status == 0 && (b.status != 0 || a.outcome != b.outcome)) {
                    harnessError = true; herr = "the same schedule gave two different observations";
                }
                std::ifstream in(log); std::string txt, line; int nl = 0;
                while (std::getline(in, line) && nl++ < 14) { if (!txt.empty()) txt += "; "; txt += line.substr(0, 200); }
                samples.push_back(txt);
                unlink(log);
                if (total == 1) break;
            }
        }
        FILE* o = fopen(resultPath.c_str(), "w");
        fprintf(o, "{\"property\":\"%s\",\"tasks\":%d,\"tasks_done\":%lu,\"executions\":%lu,\"choice_nodes\":%lu,\"transitions\":%lu,"
            "\"states\":%lu,\"distinct_outcomes\":%lu,\"sets_partial\":%s,\"capped\":%s,\"wall\":%.3f,\"error\":\"%s\",\n\"suites\":{",
            prop.c_str(), total, (unsigned long)done, (unsigned long)execs, (unsigned long)nodes, (unsigned long)ops,
            (unsigned long)st.size(), (unsigned long)oc.size(), partial ? "true" : "false", capped ? "true" : "false", wall,
            harnessError ? jsonEsc(herr.empty() ? "error" : herr).c_str() : "");
        for (size_t i = 0; i < suites.size(); ++i)
            fprintf(o, "%s\"%s\":{\"tasks\":%d,\"executions\":%lu}", i ? "," : "", jsonEsc(suites[i].name).c_str(), suites[i].ntasks, (unsigned long)se[i]);
        fprintf(o, "},\n\"known\":[");
        for (size_t i = 0; i < known.size(); ++i)
            fprintf(o, "%s{\"match\":\"%s\",\"hits\":%lu}", i ? "," : "", jsonEsc(known[i].match + (known[i].wildcard ? "*" : "")).c_str(), (unsigned long)kh[i]);
        fprintf(o, "],\n\"samples\":[");
        for (size_t i = 0; i < samples.size(); ++i) fprintf(o, "%s\"%s\"", i ? "," : "", jsonEsc(samples[i]).c_str());
        fprintf(o, "],\n\"violations\":[");
        for (size_t i = 0; i < viols.size(); ++i) {
            const V& v = viols[i];
            int local; int si = suiteOf(v.task, local);
            char rpn[700]; snprintf(rpn, 700, "%s/viol.%d.replay", outdir.c_str(), (int)i);
            FILE* f = fopen(rpn, "w");
            fprintf(f, "suite %s\ntask %d\nchoices", suites[si].name.c_str(), local);
            for (size_t k = 0; k < v.ch.size(); ++k) fprintf(f, " %d/%d", v.ch[k], v.ar[k]);
            fprintf(f, "\n# key: %s\n# %s\n", v.r.key.c_str(), v.r.msg.c_str());
            std::ifstream in(v.r.log.c_str()); std::string line; int nl = 0;
            while (std::getline(in, line) && nl++ < 200) fprintf(f, "# %s\n", line.c_str());
            fclose(f);
            fprintf(o, "%s{\"suite\":\"%s\",\"key\":\"%s\",\"msg\":\"%s\",\"replay\":\"%s\"}", i ? ",\n" : "",
                jsonEsc(suites[si].name).c_str(), jsonEsc(v.r.key).c_str(), jsonEsc(v.r.msg).c_str(), rpn);
        }
        fprintf(o, "]}\n");
        fclose(o);
        if (harnessError) { fprintf(stderr, "harness error: %s\n", herr.c_str()); return 2; }
        return viols.empty() ? 0 : 1;
    }
    int doReplay(const std::string& path) {
        std::ifstream in(path.c_str()); std::string line, suite; int local = 0; std::vector<int> ch, ar;
        while (std::getline(in, line)) {
            if (line.compare(0, 6, "suite ") == 0) suite = line.substr(6);
            else if (line.compare(0, 5, "task ") == 0) local = atoi(line.c_str() + 5);
            else if (line.compare(0, 7, "choices") == 0) {
                std::istringstream ss(line.substr(7)); std::string w;
                while (ss >> w) { int a, b; sscanf(w.c_str(), "%d/%d", &a, &b); ch.push_back(a); ar.push_back(b); }
            }
        }
        int t = 0; bool found = false;
        for (size_t i = 0; i < suites.size() && !found; ++i) {
            if (suites[i].name == suite) { t += local; found = true; } else t += suites[i].ntasks;
        }
        if (!found) { fprintf(stderr, "no suite %s\n", suite.c_str()); return 2; }
        std::string log = outdir + "/replay.log";
        Result r = replay(t, ch, ar, log, cpuLimit * 3);
        std::ifstream l(log.c_str()); while (std::getline(l, line)) printf("%s\n", line.c_str());
        if (r.status) { printf("REPRODUCED %s: %s\n", r.key.c_str(), r.msg.c_str()); return 1; }
        printf("the execution passes\n");
        return 0;
    }
};

} // namespace mc
#endif

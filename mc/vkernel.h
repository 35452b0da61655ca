// vkernel.h - a model of the part of the kernel that a program needs to run other
// programs: pipes, descriptors, processes, signals.  The code under test runs for real;
// its system calls end here (linked with --wrap), so that the explorer decides how far
// the other processes have come at each of them.
#ifndef MC_VKERNEL_H
#define MC_VKERNEL_H
#include "streams.h"
#include <deque>
#include <poll.h>
#include <signal.h>
#include <sys/select.h>
#include <fcntl.h>
#include <errno.h>

extern "C" {
int __real_pipe(int*); int __real_pipe2(int*, int); pid_t __real_fork(); int __real_dup(int); int __real_dup2(int, int); int __real_dup3(int, int, int); int __real_close(int);
ssize_t __real_read(int, void*, size_t); ssize_t __real_write(int, const void*, size_t); int __real_poll(struct pollfd*, nfds_t, int); int __real_ppoll(struct pollfd*, nfds_t, const struct timespec*, const sigset_t*); int __real_select(int, fd_set*, fd_set*, fd_set*, struct timeval*);
int __real_kill(pid_t, int); pid_t __real_waitpid(pid_t, int*, int); int __real_sigprocmask(int, const sigset_t*, sigset_t*); int __real_pthread_sigmask(int, const sigset_t*, sigset_t*);
int __real_sigaction(int, const struct sigaction*, struct sigaction*); sighandler_t __real_signal(int, sighandler_t); void __real__exit(int) __attribute__((noreturn)); void __real_exit(int) __attribute__((noreturn));
int __real_execve(const char*, char* const*, char* const*); int __real_fcntl(int, int, ...);
}
namespace mc {
enum { CAP = 8192, ATOMIC = 4096 };       // of a pipe
struct Pipe { std::string buf; };
struct Fd { int pipe; bool writer, cloexec; std::shared_ptr<bool> nonblock; };     // pipe -1: something that is not ours
typedef std::map<int, Fd> Fds;
// what a program does: it writes `first`, then takes pieces of up to `piece` bytes from its
// input and writes each byte `times` times (at once, or all at the end), stops after `limit`
// bytes, writes `last`, and then does `then`
struct Program {
    enum Then { EXIT, LINGER, CLOSE_AND_LINGER, CLOSE_OUTPUT_AND_LINGER };
    std::string first, last; int piece, times; int64_t limit; bool atEnd; Then then; bool closeIn; const char* name;
    Program(const char* n = "", int p = 4096, int t = 1) : piece(p), times(t), limit(-1), atEnd(false), then(EXIT), closeIn(false), name(n) {}
    std::string output(const std::string& in) const {
        std::string o = first; size_t n = limit < 0 ? in.size() : std::min<size_t>(limit, in.size());
        for (size_t i = 0; i < n; ++i) o.append(times, in[i]);
        return o + last;
    }
};
struct Proc {
    int pid; Fds fds; Program prog; bool running, reaped; int status; std::string out, held, argv; int phase; int64_t got; int termSignal;
    Proc() : pid(0), running(true), reaped(false), status(0), phase(0), got(0), termSignal(0) {}
};
struct ChildEnd { int done; int how; int n; struct { int fd, pipe; bool writer, cloexec; } fds[64]; char argv[256]; };
enum { HOW_NONE, HOW_EXEC, HOW_EXIT, HOW__EXIT, HOW_FELL };

struct Kernel {
    X& x; Fds fds; std::vector<Pipe> pipes; std::vector<Proc> procs; ChildEnd* sh; bool inChild, active, inOp;
    bool pipeIgnored, pipeBlocked, pipePending; sigset_t mask;
    int failPipe, failFork; bool failExec, eager, interrupts, unflushed, quiet;     // failPipe: which call of pipe fails
    Program next; int steps; std::string bad; int badKills; std::vector<std::string> log;
    static Kernel*& cur() { static Kernel* k; return k; }
    static ChildEnd* shared() { static ChildEnd* s = 0; if (!s) s = (ChildEnd*)mmap(0, sizeof(ChildEnd), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); return s; }
    explicit Kernel(X& x_) : x(x_), sh(shared()), inChild(false), active(false), inOp(false), pipeIgnored(false), pipeBlocked(false), pipePending(false), failPipe(0), failFork(0), failExec(false), eager(false), interrupts(false), unflushed(false), quiet(false), steps(0), badKills(0) {
        sigemptyset(&mask); cur() = this;
    }
    ~Kernel() { cur() = 0; }
    void addStd(int fd) { Fd f; f.pipe = -1; f.writer = false; f.cloexec = false; f.nonblock.reset(new bool(false)); fds[fd] = f; }
    int lowest(int from = 0) const { int i = from; while (fds.count(i)) ++i; return i; }
    bool any(int p, bool writer) const {
        for (auto& f : fds) if (f.second.pipe == p && f.second.writer == writer) return true;
        for (auto& q : procs) if (q.running) for (auto& f : q.fds) if (f.second.pipe == p && f.second.writer == writer) return true;
        return false;
    }
    // like X::fail, also where nothing may be thrown
    [[noreturn]] void die(const char* key, const char* fmt, ...) __attribute__((format(printf, 3, 4))) {
        char buf[500]; va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
        if (!quiet || inChild) x.fail(key, "%s", buf);
        x.s->end = Failed; snprintf(x.s->key, sizeof x.s->key, "%s|%s", x.s->site, key); snprintf(x.s->msg, sizeof x.s->msg, "%s", buf);
        if (x.verbose) { fprintf(x.out, "FAILED %s: %s\n", x.s->key, buf); fflush(x.out); }
        __real__exit(97);
    }
    int addPipe(int* fd, int flags) {
        if (failPipe && --failPipe == 0) { errno = EMFILE; return -1; }
        pipes.push_back(Pipe()); 
        for (int i = 0; i < 2; ++i) { Fd f; f.pipe = (int)pipes.size() - 1; f.writer = i; f.cloexec = flags & O_CLOEXEC; f.nonblock.reset(new bool(flags & O_NONBLOCK)); fd[i] = lowest(); fds[fd[i]] = f; }
        x.note("  pipe() = %d, %d", fd[0], fd[1]); return 0;
    }
    // ------------------------------------------------------------ the other processes
    static bool readable(const Fds& t, int fd, int& p) { auto i = t.find(fd); if (i == t.end() || i->second.pipe < 0 || i->second.writer) return false; p = i->second.pipe; return true; }
    static bool writable(const Fds& t, int fd, int& p) { auto i = t.find(fd); if (i == t.end() || i->second.pipe < 0 || !i->second.writer) return false; p = i->second.pipe; return true; }
    void exitProc(Proc& q, int status) { q.running = false; q.status = status; q.fds.clear(); x.note("    process %d ends", q.pid); }
    bool step(Proc& q) {        // false: it is blocked
        if (!q.running) return false;
        int p;
        if (!q.out.empty()) {
            if (!writable(q.fds, 1, p)) { q.out.clear(); return true; }
            if (!any(p, false)) { exitProc(q, SIGPIPE); return true; }
            size_t room = CAP - pipes[p].buf.size(); if (!room) return false;
            size_t n = std::min(room, q.out.size()); pipes[p].buf += q.out.substr(0, n); q.out.erase(0, n); x.note("    process %d writes %lu", q.pid, n);
            return true;
        }
        switch (q.phase) {
        case 0: q.out = q.prog.first; q.phase = 1; if (q.prog.closeIn) q.fds.erase(0); return true;
        case 1: {
            int64_t want = q.prog.piece; if (q.prog.limit >= 0) want = std::min(want, q.prog.limit - q.got);
            if (want <= 0 || !readable(q.fds, 0, p)) { q.phase = 2; return true; }
            std::string& b = pipes[p].buf;
            if (b.empty()) { if (any(p, true)) return false; q.phase = 2; x.note("    process %d sees the end of its input", q.pid); return true; }
            size_t n = std::min<size_t>(want, b.size()); std::string o; for (size_t i = 0; i < n; ++i) o.append(q.prog.times, b[i]);
            b.erase(0, n); q.got += n; (q.prog.atEnd ? q.held : q.out) += o; x.note("    process %d reads %lu", q.pid, n); return true; }
        case 2: q.out = q.held + q.prog.last; q.phase = 3; return true;
        case 3: if (q.prog.then == Program::EXIT) { exitProc(q, 0); return true; } if (q.prog.then == Program::CLOSE_AND_LINGER) { q.fds.erase(0); q.fds.erase(1); } if (q.prog.then == Program::CLOSE_OUTPUT_AND_LINGER) q.fds.erase(1); q.phase = 4; return true;
        default: return false;
        }
    }
    bool stepAny() { for (auto& q : procs) if (step(q)) return true; return false; }
    void runAll() { int g = 0; while (stepAny()) if (++g > 100000) die("harness", "the other processes do not stop"); }
    // a point where other processes may run; true: the call is interrupted
    bool point(bool mayInterrupt) {
        if (inChild) return false;
        if (++steps > 3000) die("livelock", "system calls go on for ever");
        int k = x.dev(interrupts && mayInterrupt ? 4 : 3, "progress of the others");
        if (k == 3) { x.note("  interrupted"); errno = EINTR; return true; }
        if (k == 0 ? eager : k == 2) { if (!(eager && k == 2)) runAll(); else stepAny(); } else if (!eager && k == 1) stepAny();
        return false;
    }
    void block(const char* what) { if (!stepAny()) { log.push_back(what); x.note("  DEADLOCK in %s", what); die("deadlock", "%s waits for ever", what); } }
    // ------------------------------------------------------------ calls
    ssize_t read(int fd, void* to, size_t n) {
        auto i = fds.find(fd); if (i == fds.end() || i->second.pipe < 0 || i->second.writer) { errno = EBADF; return -1; }
        if (point(true)) return -1;
        int p = i->second.pipe; bool nb = *i->second.nonblock;
        while (pipes[p].buf.empty()) { if (!any(p, true)) { x.note("  read(%d) = 0", fd); return 0; } if (nb) { errno = EAGAIN; return -1; } block("read"); }
        size_t k = std::min(n, pipes[p].buf.size()); memcpy(to, pipes[p].buf.data(), k); pipes[p].buf.erase(0, k); x.note("  read(%d) = %lu", fd, k); x.op(); return k;
    }
    ssize_t write(int fd, const void* from, size_t n) {
        auto i = fds.find(fd); if (i == fds.end()) { errno = EBADF; return -1; }
        if (i->second.pipe < 0) { bad = "something is written to a descriptor that is not its own"; return n; }
        if (!i->second.writer) { errno = EBADF; return -1; }
        if (point(true)) return -1;
        int p = i->second.pipe; bool nb = *i->second.nonblock; size_t done = 0;
        while (done < n) {
            if (!any(p, false)) {
                if (done) break;
                if (!pipeIgnored && !pipeBlocked) { x.note("  SIGPIPE"); die("sigpipe", "the program is killed by SIGPIPE"); }
                if (!pipeIgnored) pipePending = true;
                x.note("  write(%d): EPIPE", fd); errno = EPIPE; return -1;
            }
            size_t room = CAP - pipes[p].buf.size(); if (n <= ATOMIC && room < n) room = 0;
            if (!room) { if (nb) { if (done) break; errno = EAGAIN; return -1; } block("write"); continue; }
            size_t k = std::min(room, n - done); pipes[p].buf.append((const char*)from + done, k); done += k;
        }
        x.note("  write(%d, %lu) = %lu", fd, n, done); x.op(); return done;
    }
    int close(int fd) { x.note("  close(%d)", fd); if (!fds.erase(fd)) { errno = EBADF; return -1; } return 0; }
    short ready(const struct pollfd& f) {
        auto i = fds.find(f.fd); if (f.fd < 0) return 0; if (i == fds.end()) return POLLNVAL; if (i->second.pipe < 0) return f.events & (POLLIN | POLLOUT);
        int p = i->second.pipe; short r = 0;
        if (!i->second.writer) { if (!pipes[p].buf.empty()) r |= f.events & (POLLIN | POLLRDNORM); if (!any(p, true)) r |= POLLHUP; }
        else { if (CAP - pipes[p].buf.size() >= ATOMIC) r |= f.events & (POLLOUT | POLLWRNORM); if (!any(p, false)) r |= POLLERR; }
        return r;
    }
    int poll(struct pollfd* f, nfds_t n, bool forever) {
        if (point(true)) return -1;
        for (;;) {
            int k = 0; for (nfds_t i = 0; i < n; ++i) if ((f[i].revents = ready(f[i]))) ++k;
            if (k) { x.note("  poll() = %d", k); return k; }
            if (!forever) { x.note("  poll() = 0"); stepAny(); return 0; }
            block("poll");
        }
    }
    int select(int n, fd_set* r, fd_set* w, fd_set* e, bool forever) {
        std::vector<struct pollfd> v; for (int i = 0; i < n; ++i) { short ev = 0; if (r && FD_ISSET(i, r)) ev |= POLLIN; if (w && FD_ISSET(i, w)) ev |= POLLOUT; if (ev) { struct pollfd p = { i, ev, 0 }; v.push_back(p); } }
        int k = poll(v.data(), v.size(), forever); if (k < 0) return k;
        if (r) FD_ZERO(r);
        if (w) FD_ZERO(w);
        if (e) FD_ZERO(e);
        k = 0; for (auto& p : v) { if (p.revents & POLLNVAL) { errno = EBADF; return -1; } if (r && p.events & POLLIN && p.revents & (POLLIN | POLLHUP)) { FD_SET(p.fd, r); ++k; } if (w && p.events & POLLOUT && p.revents & (POLLOUT | POLLERR)) { FD_SET(p.fd, w); ++k; } }
        return k;
    }
    int dup2(int a, int b) { auto i = fds.find(a); if (i == fds.end()) { errno = EBADF; return -1; } if (a != b) { Fd f = i->second; f.cloexec = false; fds[b] = f; } x.note("  dup2(%d, %d)", a, b); return b; }
    void leave(int how, const char* argv) {         // the end of the new process as far as the code under test is concerned
        sh->how = how; sh->n = 0; snprintf(sh->argv, sizeof sh->argv, "%s", argv);
        for (auto& f : fds) if (f.second.pipe >= 0 && sh->n < 64) { auto& o = sh->fds[sh->n++]; o.fd = f.first; o.pipe = f.second.pipe; o.writer = f.second.writer; o.cloexec = f.second.cloexec; }
        sh->done = 1; __real__exit(0);
    }
    int fork() {
        if (failFork) { errno = EAGAIN; return -1; }
        // what the new process does depends only on what happened so far: executions with
        // the same beginning share it
        uint64_t h = mix(mix(x.s->task, failExec), pipes.size() * 64 + procs.size()); for (int i = 0; i < x.pos; ++i) h = mix(h, x.s->choice[i]);
        struct Known { uint64_t key; ChildEnd end; }; static Known known[1024]; Known& kn = known[h % 1024];
        if (kn.key == h) *sh = kn.end;
        else {
            sh->done = 0; int r = __real_fork();
            if (r < 0) { perror("fork"); abort(); }
            if (r == 0) { inChild = true; x.verbose = false; return 0; }
            int st; __real_waitpid(r, &st, 0);
            if (!sh->done || sh->how == HOW_FELL) die("child", "the new process crashes or goes on in the code of its parent");
            kn.key = h; kn.end = *sh;
        }
        Proc q; q.pid = 5000 + (int)procs.size(); q.argv = sh->argv; q.prog = next; bool started = sh->how == HOW_EXEC;
        for (int i = 0; i < sh->n; ++i) if (!started || !sh->fds[i].cloexec) { Fd f; f.pipe = sh->fds[i].pipe; f.writer = sh->fds[i].writer; f.cloexec = sh->fds[i].cloexec; f.nonblock.reset(new bool(false)); q.fds[sh->fds[i].fd] = f; }
        if (!started) { q.prog = Program("not started"); q.prog.limit = 0; if (sh->how == HOW_EXIT && unflushed) q.prog.first = "text that its parent has not written yet"; }
        x.note("  fork() = %d (%s: %s)", q.pid, started ? "started" : "not started", q.argv.c_str());
        for (auto& f : q.fds) x.note("    it has %d: pipe %d %s", f.first, f.second.pipe, f.second.writer ? "for writing" : "for reading");
        procs.push_back(q); return q.pid;
    }
    int exec(const char* path, char* const* argv) {
        if (!inChild) die("exec", "the program replaces itself");
        if (failExec || !path || path[0] != '/') { errno = ENOENT; return -1; }
        std::string a; for (int i = 0; argv && argv[i]; ++i) { a += argv[i]; a += '|'; }
        leave(HOW_EXEC, a.c_str()); return -1;
    }
    int kill(int pid, int sig) {
        x.note("  kill(%d, %d)", pid, sig);
        for (auto& q : procs) if (q.pid == pid) { if (q.reaped) { bad = "a signal is sent to a process that is gone already"; errno = ESRCH; return -1; } q.termSignal = sig; if (q.running && (sig == SIGTERM || sig == SIGKILL || sig == SIGHUP || sig == SIGINT)) exitProc(q, sig); return 0; }
        bad = "a signal is sent to a process that has nothing to do with it"; ++badKills; errno = ESRCH; return -1;
    }
    int waitpid(int pid, int* st, int opt) {
        if (point(true)) return -1;
        for (auto& q : procs) if ((q.pid == pid || pid == -1) && !q.reaped) {
            while (q.running) { if (opt & WNOHANG) { stepAny(); return 0; } block("waitpid"); }
            q.reaped = true; if (st) *st = q.status ? q.status : 0; x.note("  waitpid() = %d", q.pid); return q.pid;
        }
        errno = ECHILD; return -1;
    }
    int setMask(int how, const sigset_t* set, sigset_t* old) {
        if (old) *old = mask;
        if (set) { for (int i = 1; i < 64; ++i) { int in = sigismember(set, i); if (how == SIG_SETMASK) { if (in == 1) sigaddset(&mask, i); else sigdelset(&mask, i); } else if (in == 1) { if (how == SIG_BLOCK) sigaddset(&mask, i); else sigdelset(&mask, i); } } }
        pipeBlocked = sigismember(&mask, SIGPIPE) == 1;
        if (!inChild && !pipeBlocked && pipePending && !pipeIgnored) { pipePending = false; die("sigpipe", "the program is killed by SIGPIPE"); }
        return 0;
    }
    int take(const sigset_t* set) { if (sigismember(set, SIGPIPE) == 1 && pipePending) { pipePending = false; return SIGPIPE; } return 0; }
};
inline Kernel* K() { Kernel* k = Kernel::cur(); return k && k->active ? k : 0; }
} // namespace mc

extern "C" {
using mc::K;
// while the model works, calls of the explorer itself go to the real kernel
struct Inside { mc::Kernel* k; Inside(mc::Kernel* k_) : k(k_) { k->active = false; } ~Inside() { k->active = true; } };
#define VK(call, real) mc::Kernel* k = K(); if (!k) return real; Inside in(k); return call
int __wrap_pipe(int* p) { VK(k->addPipe(p, 0), __real_pipe(p)); }
int __wrap_pipe2(int* p, int f) { VK(k->addPipe(p, f), __real_pipe2(p, f)); }
pid_t __wrap_fork() { VK(k->fork(), __real_fork()); }
pid_t __wrap_vfork() { VK(k->fork(), __real_fork()); }
int __wrap_execve(const char* p, char* const* a, char* const* e) { VK(k->exec(p, a), __real_execve(p, a, e)); }
int __wrap_execv(const char* p, char* const* a) { VK(k->exec(p, a), -1); }
int __wrap_execvp(const char* p, char* const* a) { VK(k->exec(p, a), -1); }
int __wrap_execvpe(const char* p, char* const* a, char* const*) { VK(k->exec(p, a), -1); }
int __wrap_dup(int a) { VK(k->dup2(a, k->lowest()), __real_dup(a)); }
int __wrap_dup2(int a, int b) { VK(k->dup2(a, b), __real_dup2(a, b)); }
int __wrap_dup3(int a, int b, int f) { mc::Kernel* k = K(); if (!k) return __real_dup3(a, b, f); Inside in(k); int r = k->dup2(a, b); if (r >= 0) k->fds[b].cloexec = f & O_CLOEXEC; return r; }
int __wrap_close(int f) { VK(k->close(f), __real_close(f)); }
ssize_t __wrap_read(int f, void* b, size_t n) { VK(k->read(f, b, n), __real_read(f, b, n)); }
ssize_t __wrap_write(int f, const void* b, size_t n) { VK(k->write(f, b, n), __real_write(f, b, n)); }
int __wrap_poll(struct pollfd* f, nfds_t n, int t) { VK(k->poll(f, n, t < 0), __real_poll(f, n, t)); }
int __wrap_ppoll(struct pollfd* f, nfds_t n, const struct timespec* t, const sigset_t* m) { VK(k->poll(f, n, !t), __real_ppoll(f, n, t, m)); }
int __wrap_select(int n, fd_set* r, fd_set* w, fd_set* e, struct timeval* t) { VK(k->select(n, r, w, e, !t), __real_select(n, r, w, e, t)); }
int __wrap_fcntl(int fd, int cmd, ...) {
    va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap);
    mc::Kernel* k = K(); if (!k) return __real_fcntl(fd, cmd, arg);
    Inside in(k); auto i = k->fds.find(fd); if (i == k->fds.end()) { errno = EBADF; return -1; }
    switch (cmd) {
    case F_GETFD: return i->second.cloexec ? FD_CLOEXEC : 0;
    case F_SETFD: i->second.cloexec = arg & FD_CLOEXEC; return 0;
    case F_GETFL: return (i->second.writer ? O_WRONLY : O_RDONLY) | (*i->second.nonblock ? O_NONBLOCK : 0);
    case F_SETFL: *i->second.nonblock = arg & O_NONBLOCK; return 0;
    case F_DUPFD: case F_DUPFD_CLOEXEC: { int n = k->lowest((int)arg); mc::Fd f = i->second; f.cloexec = cmd == F_DUPFD_CLOEXEC; k->fds[n] = f; return n; }
    }
    return 0;
}
int __wrap_kill(pid_t p, int s) { VK(k->kill(p, s), __real_kill(p, s)); }
pid_t __wrap_waitpid(pid_t p, int* s, int o) { VK(k->waitpid(p, s, o), __real_waitpid(p, s, o)); }
pid_t __wrap_wait4(pid_t p, int* s, int o, struct rusage*) { VK(k->waitpid(p, s, o), __real_waitpid(p, s, o)); }
int __wrap_sigprocmask(int h, const sigset_t* s, sigset_t* o) { VK(k->setMask(h, s, o), __real_sigprocmask(h, s, o)); }
int __wrap_pthread_sigmask(int h, const sigset_t* s, sigset_t* o) { VK(k->setMask(h, s, o), __real_pthread_sigmask(h, s, o)); }
int __wrap_sigaction(int n, const struct sigaction* a, struct sigaction* o) {
    mc::Kernel* k = K(); if (!k) return __real_sigaction(n, a, o);
    if (n != SIGPIPE) { if (o) memset(o, 0, sizeof *o); return 0; }
    if (o) { memset(o, 0, sizeof *o); o->sa_handler = k->pipeIgnored ? SIG_IGN : SIG_DFL; }
    if (a) k->pipeIgnored = a->sa_handler != SIG_DFL;
    return 0;
}
sighandler_t __wrap_signal(int n, sighandler_t h) { mc::Kernel* k = K(); if (!k) return __real_signal(n, h); sighandler_t o = k->pipeIgnored ? SIG_IGN : SIG_DFL; if (n == SIGPIPE) k->pipeIgnored = h != SIG_DFL; return o; }
int __wrap_sigpending(sigset_t* s) { mc::Kernel* k = K(); sigemptyset(s); if (k && k->pipePending) sigaddset(s, SIGPIPE); return 0; }
int __wrap_sigwait(const sigset_t* s, int* n) { mc::Kernel* k = K(); if (!k) return EINVAL; Inside in(k); *n = k->take(s); if (!*n) k->die("deadlock", "sigwait waits for ever"); return 0; }
int __wrap_sigtimedwait(const sigset_t* s, siginfo_t*, const struct timespec*) { mc::Kernel* k = K(); if (!k) return -1; int n = k->take(s); if (!n) { errno = EAGAIN; return -1; } return n; }
void __wrap_exit(int s) { mc::Kernel* k = K(); if (k && k->inChild) k->leave(mc::HOW_EXIT, ""); __real_exit(s); }
void __wrap__exit(int s) { mc::Kernel* k = K(); if (k && k->inChild) k->leave(mc::HOW__EXIT, ""); __real__exit(s); }
}
#endif

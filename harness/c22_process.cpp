// C22: a process stream shows exactly what a program makes of its input.
#include "vkernel.h"
#include "comp.h"
#include <sys/wait.h>
#include <strigi/processinputstream.h>
using namespace mc;
using namespace Strigi;

static std::vector<Program> programs;
static std::vector<std::string> inputs;
static std::vector<std::string> cmd(const char* p = "/bin/prog") { std::vector<std::string> a; a.push_back(p); a.push_back(""); a.push_back("two words"); return a; }
// one stream; the calls of the code under test go to the model while it is `on`
struct On { Kernel& k; On(Kernel& k_) : k(k_) { k.active = true; } ~On() { k.active = false; if (k.inChild) k.leave(HOW_FELL, ""); } };
struct Proxy : InputStream {        // switches the model on around every call
    Kernel& k; ProcessInputStream* p;
    Proxy(Kernel& k_, const std::vector<std::string>& a, InputStream* in) : k(k_), p(0) { { On on(k); p = new ProcessInputStream(a, in); } copy(); }
    ~Proxy() { On on(k); k.quiet = true; delete p; k.quiet = false; }
    void copy() { m_status = p->status(); m_size = p->size(); m_position = p->position(); m_error = p->error(); }
    int32_t read(const char*& s, int32_t mn, int32_t mx) { int32_t r; { On on(k); r = p->read(s, mn, mx); } copy(); return r; }
    int64_t skip(int64_t n) { int64_t r; { On on(k); r = p->skip(n); } copy(); return r; }
    int64_t reset(int64_t n) { int64_t r; { On on(k); r = p->reset(n); } copy(); return r; }
};
// how the program that uses the library treats SIGPIPE
static const char* sigName[] = { "SIGPIPE kills", "SIGPIPE is ignored", "SIGPIPE is blocked", "SIGPIPE is blocked and pending" };
static void setSignals(Kernel& k, int how) { k.pipeIgnored = how == 1; k.pipeBlocked = how >= 2; k.pipePending = how == 3; if (how >= 2) sigaddset(&k.mask, SIGPIPE); }
static void after(X& x, Kernel& k, size_t before, int sig = 0) {
    x.check(k.bad.empty(), "disturbs", "%s", k.bad.c_str());
    for (auto& q : k.procs) x.check(q.reaped, "zombie", "process %d is not waited for", q.pid);
    x.check(k.fds.size() == before, "descriptors", "%lu descriptors are open, before there were %lu", k.fds.size(), before);
    x.check(k.pipeBlocked == (sig >= 2) && k.pipeIgnored == (sig == 1), "signal-mask", "the signal mask is changed");
    x.check(k.pipePending == (sig == 3), "signal-pending", k.pipePending ? "a signal is left behind" : "a pending signal is gone");
}
static uint64_t stateOf(Kernel& k) { uint64_t h = k.fds.size(); for (auto& p : k.pipes) h = mix(h, p.buf.size()); for (auto& q : k.procs) h = mix(h, q.phase * 4 + q.running * 2 + q.reaped + q.out.size() * 64); return h; }
static void body(X& x, const Program& prog, const std::string* in, const Policy& pol, int stdfds, int use, bool eager, bool interrupts, int sig = 0) {
    x.note("program %s, input of %ld, source %s, %s, descriptors %d", prog.name, in ? (long)in->size() : -1L, pol.str().c_str(), eager ? "fast" : "slow", stdfds);
    Kernel k(x); k.eager = eager; k.interrupts = interrupts; k.next = prog; k.unflushed = true; setSignals(k, sig);
    for (int i = 0; i < 3; ++i) if (stdfds & 1 << i) k.addStd(i);
    size_t before = k.fds.size();
    std::unique_ptr<Src> src; if (in) src.reset(new Src(&x, in->data(), in->size(), pol));
    std::string want = prog.output(in ? *in : "");
    {
        Proxy s(k, cmd(), src.get());
        x.check(k.procs.size() == 1 && k.procs[0].argv == "/bin/prog||two words|", "arguments", "the program gets the arguments '%s'", k.procs.size() ? k.procs[0].argv.c_str() : "");
        x.state(stateOf(k));
        if (use < 0) { x.state(stateOf(k)); }
        else {
            Contract<char> c(x, &s, want.data(), want.size(), false);
            static const int64_t mn[] = { 1, 1, 5000, 1, 3 }, mx[] = { 0, 1, 0, 4000, 6000 };
            bool destroyEarly = use >= 5; int u = use % 5;
            // a program that stays has no end: read what there is
            bool stays = prog.then == Program::LINGER; int64_t all = want.size();
            auto rd = [&](int64_t mn, int64_t mx) { if (stays) mn = std::min(mn, all - c.pos); if (mn > 0) c.read(mn, mx); };
            if (destroyEarly) { rd(mn[u], mx[u]); if (u & 1 && c.pos + 3 < all) c.skip(3); }
            else {
                for (int i = 0; i < 4 && !c.ended; ++i) rd(mn[u], mx[u]);
                if (u == 1 && !c.ended) { c.skip(std::min<int64_t>(900, stays ? (all - c.pos) / 2 : all / 2)); if (!c.ended) c.resetTo(c.pos); }
                static const int64_t dn[] = { 2500, 2000, 5000, 1500, 3000 }, dx[] = { 0, 0, 0, 4000, 6000 };
                if (stays) while (!c.ended && c.pos < all) rd(dn[u], dx[u]); else c.drain(dn[u], dx[u]);
            }
            x.state(stateOf(k));
        }
    }
    after(x, k, before, sig); x.obs(stateOf(k));
}

int main(int argc, char** argv) {
    Explorer e("C22");
    bool th = Explorer::thorough();
    auto P = [&](Program p) { programs.push_back(p); };
    P(Program("cat")); P(Program("slow cat", 1000)); P(Program("three times", 3000, 3)); { Program p("all at the end", 4096); p.atEnd = true; p.last = "end"; P(p); }
    { Program p("talks first"); p.first = comp::content(9000, 1); P(p); } { Program p("head"); p.limit = 5000; P(p); } { Program p("ignores its input"); p.limit = 0; p.last = "nothing read"; P(p); } { Program p("silent"); p.times = 0; P(p); } { Program p("exits at once"); p.limit = 0; P(p); }
    { Program p("closes its input, then talks"); p.limit = 0; p.closeIn = true; p.first = "x"; p.last = comp::content(10000, 1); P(p); }
    { Program p("closes its output and stays"); p.last = "bye"; p.then = Program::CLOSE_AND_LINGER; P(p); } { Program p("stays"); p.last = "last"; p.then = Program::LINGER; P(p); }
    { Program p("closes its output only and stays"); p.limit = 3000; p.last = "bye"; p.then = Program::CLOSE_OUTPUT_AND_LINGER; P(p); }
    for (int n : { 0, 1, 4096, 8193, 17500 }) inputs.push_back(comp::content(n, 2));
    int np = (int)programs.size(), ni = (int)inputs.size();
    static std::vector<Policy> pol; pol.push_back(Policy(CHUNK_ALL, true, true, true)); pol.push_back(Policy(5000, false, false, false)); pol.push_back(Policy(4096, false, true, false)); pol.push_back(Policy(CHUNK_ALL, false, false, false));
    int npol = (int)pol.size();
    e.add("output", np * ni * npol, [=](X& x, int t) {
        const Program& p = programs[t % np]; x.site("%s", p.name); bool eager = x.choose(2, "speed"); int use = x.choose(4, "use");
        body(x, p, &inputs[t / np % ni], pol[t / np / ni], 7, use, eager, false);
    }, true, th ? 2 : 1);
    e.add("two deviations", np * 3, [=](X& x, int t) {
        const Program& p = programs[t % np]; x.site("%s", p.name); bool eager = x.choose(2, "speed");
        body(x, p, &inputs[t / np + 2], pol[1], 7, 0, eager, false);
    }, true, th ? 4 : 2);
    e.add("interrupted", np * ni, [=](X& x, int t) {
        const Program& p = programs[t % np]; x.site("interrupted: %s", p.name); bool eager = x.choose(2, "speed");
        body(x, p, &inputs[t / np], pol[x.choose(2, "source")], 7, 0, eager, true);
    }, true, th ? 2 : 1);
    e.add("no input", np, [=](X& x, int t) {
        Program p = programs[t]; x.site("no input: %s", p.name); bool eager = x.choose(2, "speed"); if (p.last.empty()) p.last = comp::content(t * 1000, 1);
        body(x, p, 0, pol[0], 7, x.choose(11, "use") - 1, eager, true);
    }, true, th ? 2 : 1);
    e.add("destroyed", np * ni * 2, [=](X& x, int t) {
        const Program& p = programs[t % np]; x.site("destroyed: %s", p.name); bool eager = x.choose(2, "speed"); int use = x.choose(6, "use");
        body(x, p, &inputs[t / np % ni], pol[t / np / ni], 7, use == 5 ? -1 : 5 + use, eager, true);
    }, true, th ? 2 : 1);
    // the program that uses the library may have none of the usual descriptors
    e.add("descriptors", np * 8, [=](X& x, int t) {
        const Program& p = programs[t % np]; x.site("descriptors %d: %s", t / np, p.name); bool eager = x.choose(2, "speed"); int i = x.choose(ni + 1, "input");
        body(x, p, i == ni ? 0 : &inputs[i], pol[1], t / np, x.choose(2, "use") * 5, eager, false);
    }, true, th ? 1 : 0);
    e.add("signals", np * ni * 4, [=](X& x, int t) {
        const Program& p = programs[t % np]; int sig = t / np / ni; x.site("%s: %s", sigName[sig], p.name); bool eager = x.choose(2, "speed"); int use = x.choose(3, "use") * 3;
        body(x, p, &inputs[t / np % ni], pol[x.choose(2, "source")], 7, use, eager, false, sig);
    }, true, th ? 2 : 1);
    // what cannot be started is not an empty output
    e.add("failures", 6, [=](X& x, int t) {
        x.site("failures"); bool input = t < 3 ? x.choose(2, "input") : true; int what = t % 3; bool eager = x.choose(2, "speed");
        Kernel k(x); k.eager = eager; k.next = programs[0]; for (int i = 0; i < 3; ++i) k.addStd(i);
        if (what == 0) k.failPipe = 1; else if (what == 1) { if (!input) return; k.failPipe = 2; } else k.failFork = 1;
        std::unique_ptr<Src> src(new Src(&x, "input", 5, pol[x.choose(2, "source")]));
        { Proxy s(k, cmd(), input ? src.get() : 0); const char* c; x.check(s.status() == Error && s.error()[0], "not-started", "a program that cannot be started gives status %s", stName(s.status())); x.check(s.read(c, 1, 0) == -2 && s.status() == Error, "not-started-read", "it can be read"); }
        after(x, k, 3); x.state(t);
    }, true, 1);
    e.add("not executable", 4, [=](X& x, int t) {
        x.site("not executable"); Kernel k(x); k.eager = x.choose(2, "speed"); k.failExec = true; k.unflushed = t & 1; k.next = programs[0]; for (int i = 0; i < 3; ++i) k.addStd(i);
        std::unique_ptr<Src> src(new Src(&x, inputs[4].data(), inputs[4].size(), pol[x.choose(2, "source")]));
        { Proxy s(k, cmd(), t & 2 ? src.get() : 0); const char* c; int32_t n = s.read(c, 1, 0); x.check(n < 0, "output", "a program that is not there gives %d bytes of output", n); }
        after(x, k, 3); x.state(t);
    }, true, th ? 3 : 2);
    // a failing input is an error of the output, wherever it happens
    e.add("failing input", np * 5, [=](X& x, int t) {
        const Program& p = programs[t % np]; x.site("failing input: %s", p.name); static const int64_t at[] = { 0, 1, 4096, 9000, 17499 }; int64_t pos = at[t / np];
        Policy pl = pol[x.choose(npol, "source")]; pl.errorAt = pos; Kernel k(x); k.eager = x.choose(2, "speed"); k.next = p; for (int i = 0; i < 3; ++i) k.addStd(i);
        Src src(&x, inputs[4].data(), inputs[4].size(), pl); std::string full = p.output(inputs[4]), got;
        { Proxy s(k, cmd(), &src); const char* c; int32_t n; bool wasError = false;
          while ((n = s.read(c, 600, 0)) > 0) { got.append(c, n); x.check(full.compare(0, got.size(), got) == 0, "content", "wrong output"); if (p.then == Program::LINGER && got.size() == full.size()) break; }
          wasError = s.status() == Error; x.note("ends with %s after %lu", stName(s.status()), got.size());
          x.check(n != 0, "zero", "read gives 0");
          x.check(wasError || got == full || p.then == Program::LINGER, "error-lost", "the input fails at %ld, the output ends normally after %lu of %lu", (long)pos, got.size(), full.size());
          x.check(!wasError || s.error()[0], "no-message", "an error without a message"); }
        after(x, k, 3); x.state(mix(t, got.size()));
    }, true, th ? 2 : 1);
    // an input that cannot go back loses data, the output does not end normally then
    e.add("no way back", np * 3, [=](X& x, int t) {
        struct Stuck : Src { bool back; Stuck(X* x, const std::string& d, const Policy& p) : Src(x, d.data(), d.size(), p), back(false) {} int64_t reset(int64_t p) { if (p == position()) return p; back = true; return position(); } };
        const Program& p = programs[t % np]; const std::string& in = inputs[2 + t / np]; x.site("no way back: %s", p.name); Kernel k(x); k.eager = x.choose(2, "speed"); k.next = p; for (int i = 0; i < 3; ++i) k.addStd(i);
        Stuck src(&x, in, pol[x.choose(npol, "source")]); std::string full = p.output(in), got;
        { Proxy s(k, cmd(), &src); const char* c; int32_t n;
          while ((n = s.read(c, p.then == Program::LINGER ? (int32_t)std::min<size_t>(600, full.size() - got.size()) : 600, 0)) > 0) { got.append(c, n); x.check(full.compare(0, got.size(), got) == 0, "content", "wrong output"); if (p.then == Program::LINGER && got.size() == full.size()) break; }
          x.check(got == full || s.status() == Error, "loss", "the output ends normally after %lu of %lu", got.size(), full.size()); x.check(s.status() != Error || src.back, "error", "an error without a reason"); }
        after(x, k, 3); x.state(mix(t, got.size()));
    }, true, th ? 2 : 1);
    // several at the same time
    e.add("two streams", np * np, [=](X& x, int t) {
        const Program &p = programs[t % np], &q = programs[t / np]; x.site("two streams: %s, %s", p.name, q.name);
        Kernel k(x); k.eager = x.choose(2, "speed"); for (int i = 0; i < 3; ++i) k.addStd(i); const std::string& i1 = inputs[3], i2 = inputs[4]; int order = x.choose(3, "order");
        Src s1(&x, i1.data(), i1.size(), pol[0]), s2(&x, i2.data(), i2.size(), pol[1]); std::string w1 = p.output(i1), w2 = q.output(i2);
        {
            k.next = p; std::unique_ptr<Proxy> a(new Proxy(k, cmd(), &s1)); Contract<char> c(x, a.get(), w1.data(), w1.size(), false); if (order == 1) c.read(1, 3);
            k.next = q; std::unique_ptr<Proxy> b(new Proxy(k, cmd(), &s2)); Contract<char> d(x, b.get(), w2.data(), w2.size(), false);
            if (order == 2) { if (q.then != Program::LINGER) d.drain(800, 0); if (p.then != Program::LINGER) c.drain(900, 0); b.reset(); a.reset(); }
            else { if (p.then != Program::LINGER) c.drain(900, 0); if (order) a.reset(); if (q.then != Program::LINGER) d.drain(800, 0); }
        }
        after(x, k, 3); x.state(stateOf(k));
    }, true, th ? 1 : 0);
    // the model of the programs and the pipes against the real ones
    e.add("real programs", 4 * ni, [=](X& x, int t) {
        const std::string& in = inputs[t / 4]; Program p("cat"); std::vector<std::string> a; int u = x.choose(4, "use");
        switch (t % 4) { case 0: a = cmd("/bin/cat"); a.resize(1); break;
            case 1: a = cmd("/usr/bin/head"); a.resize(1); a.push_back("-c"); a.push_back("5000"); p.limit = 5000; break;
            case 2: a = cmd("/bin/true"); p.limit = 0; break;
            default: a = cmd("/bin/sh"); a.resize(1); a.push_back("-c"); a.push_back("echo first; cat; echo last >&2; echo last"); p.first = "first\n"; p.last = "last\n"; }
        x.site("real programs: %s", a[0].c_str());
        int before = dup(0); close(before); Src src(&x, in.data(), in.size(), pol[u]); std::string want = p.output(in);
        if (access(a[0].c_str(), X_OK)) return;
        { ProcessInputStream s(a, &src); Contract<char> c(x, &s, want.data(), want.size(), false); c.drain(1500 + u, 0); }
        x.check(waitpid(-1, 0, WNOHANG) == -1, "zombie", "the program is not waited for"); int after = dup(0); close(after); x.check(before == after, "descriptors", "descriptors stay open");
        x.state(t);
    });
    return e.main(argc, argv);
}

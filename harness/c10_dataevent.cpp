// C10: every byte of a stream reaches the data handler exactly once and in order.
#include "streams.h"
#include <strigi/dataeventinputstream.h>
using namespace mc;
using namespace Strigi;

struct H : DataEventHandler {
    X* x; const char* d; int64_t N, seen; int ends; int stopAfter; bool stopped; DataEventInputStream* s;
    H(X* x_, const char* d_, int64_t n, int stop) : x(x_), d(d_), N(n), seen(0), ends(0), stopAfter(stop), stopped(false), s(0) {}
    bool handleData(const char* p, uint32_t n) {
        x->note("  handleData(%u)", n);
        x->check(!stopped, "event-after-decline", "an event arrives after the handler declined");
        x->check(ends == 0, "event-after-end", "an event arrives after handleEnd");
        x->check(n > 0, "empty-event", "empty event");
        x->check(seen + n <= N, "event-beyond", "events cover %ld of %ld bytes", (long)(seen + n), (long)N);
        x->check(!memcmp(p, d + seen, n), "event-content", "event at %ld is '%s', expected '%s'", (long)seen, printable(p, n).c_str(), printable(d + seen, n).c_str());
        seen += n;
        if (stopAfter >= 0 && seen > stopAfter) { stopped = true; return false; }
        return true;
    }
    void handleEnd() {
        x->note("  handleEnd");
        x->check(ends == 0, "second-end", "handleEnd is called twice");
        x->check(stopped || seen == N, "end-before-data", "handleEnd after %ld of %ld bytes", (long)seen, (long)N);
        ++ends;
    }
};

int main(int argc, char** argv) {
    Explorer e("C10");
    bool th = Explorer::thorough();
    std::vector<Policy> pol = policies(true);
    std::vector<Op> small = opsSmall(), ops = opsFull();
    int np = (int)pol.size(), no = (int)ops.size(), ns = (int)small.size();
    static const std::string all = "ABCDEFGHIJKLMNOP";
    auto body = [=](X& x, const Policy& p, int n, int stop, const std::vector<Op>& ops, int first, int depth, int fin) {
        Src src(&x, all.data(), n, p);
        H h(&x, all.data(), n, stop);
        x.note("%d bytes, %s, handler stops after %d", n, p.str().c_str(), stop);
        DataEventInputStream s(&src, h);
        Contract<char> c(x, &s, all.data(), n, p.seek);
        int64_t top = 0;
        auto after = [&]() {
            top = std::max(top, c.pos);
            if (!h.stopped && !c.ended) x.check(h.seen == top, "event-missing", "the stream was read up to %ld, events cover %ld", (long)top, (long)h.seen);
            if (!h.stopped && s.status() == Eof) x.check(h.ends == 1, "end-missing", "status Eof but handleEnd was called %d times", h.ends);
            if (h.ends) x.check(top == n, "end-early", "handleEnd at %ld of %d", (long)top, n);
            x.state(mix(h.seen * 8 + h.ends * 2 + h.stopped, mix(c.pos, n)));
        };
        c.apply(ops[first]); after();
        for (int i = 0; i < depth; ++i) { c.apply(ops[x.choose((int)ops.size(), "operation")]); after(); }
        if (fin == 0) c.drain(1, 2); else { if (c.pos < n) c.skip(n); c.read(1, 0); }
        after();
        if (!h.stopped) x.check(h.ends == 1 && h.seen == n, "end-missing", "at the end: %ld of %d bytes, %d ends", (long)h.seen, n, h.ends);
        else x.check(h.ends == 1, "end-count", "handler that declined: %d ends", h.ends);
    };
    int sizes[] = { 0, 1, 5 };
    e.add("events", np * no * 3, [=](X& x, int t) {
        x.site("events");
        body(x, pol[t % np], sizes[t / np / no], -1, ops, t / np % no, th ? 3 : 2, 0);
    });
    e.add("events-deep", np * ns * 2, [=](X& x, int t) {
        x.site("events-deep");
        body(x, pol[t % np], 7, -1, small, t / np % ns, th ? 4 : 3, t / np / ns);
    });
    e.add("decline", np * ns * 4, [=](X& x, int t) {
        x.site("decline");
        body(x, pol[t % np], 6, t / np / ns, small, t / np % ns, th ? 3 : 2, x.choose(2, "finish"));
    });
    // two handlers in series
    e.add("series", np * ns, [=](X& x, int t) {
        x.site("series");
        const Policy& p = pol[t % np];
        Src src(&x, all.data(), 6, p);
        H h1(&x, all.data(), 6, x.choose(2, "first declines") ? 1 : -1), h2(&x, all.data(), 6, -1);
        DataEventInputStream a(&src, h1); DataEventInputStream s(&a, h2);
        Contract<char> c(x, &s, all.data(), 6, p.seek);
        c.apply(small[t / np]); c.run(small, 2); c.drain(1, 2);
        x.check(h2.seen == 6 && h2.ends == 1, "second-handler", "second handler: %ld bytes, %d ends", (long)h2.seen, h2.ends);
        if (!h1.stopped) x.check(h1.seen == 6 && h1.ends == 1, "first-handler", "first handler: %ld bytes, %d ends", (long)h1.seen, h1.ends);
    });
    // the source fails: no end is ever announced
    e.add("source-fails", np * ns * 4, [=](X& x, int t) {
        Policy p = pol[t % np]; p.errorAt = t / np / ns * 2;
        x.site("source-fails");
        Src src(&x, all.data(), 9, p);
        H h(&x, all.data(), 9, x.choose(2, "declines") ? 1 : -1);
        DataEventInputStream s(&src, h);
        Contract<char> c(x, &s, all.data(), 9, p.seek, true);
        c.apply(small[t / np % ns]); c.run(small, 2);
        for (int i = 0; i < 20 && !c.ended; ++i) c.read(1, 2);
        x.check(c.ended && s.status() == Error, "error-lost", "I/O error at %ld: status %s at %ld", (long)p.errorAt, stName(s.status()), (long)s.position());
        x.check(h.ends == 0, "end-on-error", "handleEnd although the source failed");
    });
    return e.main(argc, argv);
}

// C03: a sub stream is exactly the window of its parent.
#include "streams.h"
#include <strigi/subinputstream.h>
using namespace mc;
using namespace Strigi;

int main(int argc, char** argv) {
    Explorer e("C03");
    bool th = Explorer::thorough();
    std::vector<Policy> pol = policies(true);
    std::vector<Op> full = opsFull(), small = opsSmall();
    int np = (int)pol.size(), nf = (int)full.size(), ns = (int)small.size();
    const std::string all = "ABCDEFGHIJKLMNOP";

    // window of a known length inside a longer parent
    auto window = [=](X& x, const Policy& p, int off, int len, int after, const std::vector<Op>& ops, int first, int depth, bool unlimited) {
        std::string d = all.substr(0, off + len + after);
        Src parent(&x, d.data(), d.size(), p);
        x.note("parent %s; window [%d,%d) of %lu%s", p.str().c_str(), off, off + len, d.size(), unlimited ? " (length not given)" : "");
        const char* q;
        if (off) {
            if (x.choose(2, "reach the offset")) x.check(parent.skip(off) == off, "harness", "skip");
            else while (parent.position() < off) x.check(parent.read(q, 1, off - parent.position()) > 0, "harness", "read");
        }
        SubInputStream s(&parent, unlimited ? -1 : len);
        if (!unlimited) x.check(s.size() == len, "size-known", "size() is %ld for a window of %d", (long)s.size(), len);
        Contract<char> c(x, &s, d.data() + off, len, p.seek);
        c.apply(ops[first]);
        for (int i = 0; i <= depth && !c.ended; ++i) {
            x.check(parent.position() == off + c.pos, "parent-position", "sub stream at %ld, parent at %ld, offset %d", (long)c.pos, (long)parent.position(), off);
            x.check(parent.highWater <= off + len, "reads-beyond", "parent was read up to %ld, the window ends at %d", (long)parent.highWater, off + len);
            if (i < depth) c.apply(ops[x.choose((int)ops.size(), "operation")]);
        }
        c.drain(2, 3);
        x.check(parent.position() == off + len, "parent-position", "after reading everything the parent is at %ld, not %d", (long)parent.position(), off + len);
        x.check(parent.highWater <= off + len, "reads-beyond", "parent was read up to %ld, the window ends at %d", (long)parent.highWater, off + len);
    };
    e.add("window", np * nf * 5, [=](X& x, int t) {
        static const int shape[5][3] = { { 0, 5, 0 }, { 0, 4, 3 }, { 2, 5, 2 }, { 3, 0, 2 }, { 2, 1, 1 } };
        const int* g = shape[t / np / nf];
        x.site("window");
        window(x, pol[t % np], g[0], g[1], g[2], full, t / np % nf, th ? 3 : 2, false);
    });
    e.add("window-deep", np * ns, [=](X& x, int t) {
        x.site("window-deep");
        window(x, pol[t % np], 2, 6, 3, small, t / np, th ? 5 : 3, false);
    });
    // no length: everything up to the end of the parent
    e.add("rest", np * ns * 4, [=](X& x, int t) {
        static const int shape[4][2] = { { 0, 5 }, { 2, 5 }, { 2, 0 }, { 0, 1 } };
        const int* g = shape[t / np / ns];
        x.site("rest");
        window(x, pol[t % np], g[0], g[1], 0, small, t / np % ns, th ? 4 : 3, true);
    });
    // a sub stream of a sub stream
    e.add("nested", np * ns, [=](X& x, int t) {
        const Policy& p = pol[t % np];
        x.site("nested");
        Src parent(&x, all.data(), 14, p);
        parent.skip(2);
        SubInputStream a(&parent, 9);
        a.skip(2);
        SubInputStream b(&a, 5);
        Contract<char> c(x, &b, all.data() + 4, 5, p.seek);
        c.apply(small[t / np]);
        c.run(small, th ? 3 : 2);
        c.drain(1, 2);
        x.check(a.position() == 7 && parent.position() == 9, "parent-position", "positions %ld %ld", (long)a.position(), (long)parent.position());
    });
    // the parent is shorter than the window: an error, never a silent end
    e.add("parent-too-short", np * ns * 6, [=](X& x, int t) {
        const Policy& p = pol[t % np];
        int have = t / np / ns;
        x.site("parent-too-short");
        Src parent(&x, all.data(), 2 + have, p);
        parent.skip(2);
        SubInputStream s(&parent, 6);
        Contract<char> c(x, &s, all.data() + 2, 6, p.seek, true);
        c.apply(small[t / np % ns]);
        c.run(small, th ? 3 : 2);
        for (int i = 0; i < 20 && !c.ended; ++i) c.read(1, 2);
        x.check(c.ended && s.status() == Error, "error-lost", "a window of 6 in a parent with only %d left ends with status %s at %ld", have, stName(s.status()), (long)s.position());
    });
    // the parent fails
    e.add("parent-fails", np * ns * 5, [=](X& x, int t) {
        Policy p = pol[t % np];
        p.errorAt = 2 + t / np / ns;
        bool unlimited = x.choose(2, "length given") != 0;
        x.site("parent-fails");
        Src parent(&x, all.data(), 14, p);
        parent.skip(2);
        SubInputStream s(&parent, unlimited ? -1 : 6);
        Contract<char> c(x, &s, all.data() + 2, unlimited ? 12 : 6, p.seek, true);
        c.apply(small[t / np % ns]);
        c.run(small, th ? 3 : 2);
        for (int i = 0; i < 20 && !c.ended; ++i) c.read(1, 2);
        x.check(c.ended && s.status() == Error, "error-lost", "I/O error of the parent at %ld: sub stream ends with status %s at %ld", (long)p.errorAt, stName(s.status()), (long)s.position());
    });
    return e.main(argc, argv);
}

// C15: the streams of an OLE document are listed exactly.
#include "ole.h"
#include <strigi/oleinputstream.h>
using namespace mc;
using namespace Strigi;

struct Arc { std::string bytes, what; Ents ents; };
static std::vector<Arc> arcs;
static ole::Doc d;
static void finish(const char* what) {
    for (int o = 0; o < 3; ++o) for (int s = 0; s < 3; ++s) { if (s != o && s != 0) continue; d.order = o; d.smallOrder = s; Arc a; a.what = what; a.bytes = d.build(); a.ents = d.ents(); arcs.push_back(a); }
    d = ole::Doc();
}
static int Doc_tables(const ole::Doc& q) { return (int)q.fat.size(); }
int main(int argc, char** argv) {
    Explorer e("C15");
    bool th = Explorer::thorough();
    std::vector<Policy> pol = policies(), few = policiesFew();
    int np = (int)pol.size(), nf = (int)few.size();
    d.add("A", "small"); finish("one small");
    d.add("B", comp::content(4096, 1)); finish("one of 4096");
    d.add("A", comp::content(63, 1)); d.add("B", comp::content(64, 2)); d.add("C", comp::content(65, 1)); d.add("D", comp::content(4095, 2)); finish("sizes of small streams");
    d.add("A", comp::content(4096, 1)); d.add("B", comp::content(4097, 2)); d.add("C", comp::content(4608, 1)); d.add("D", comp::content(5119, 2)); finish("sizes of large streams");
    d.add("S", "", 1); d.add("\5SummaryInformation", comp::content(200, 1)); d.add("", "", 0); d.add("T", "", 1); d.add("x", "y"); d.add("", "", 0); d.add("WordDocument", comp::content(6000, 2)); finish("storages and unused entries");
    d.add("empty", ""); d.add("full", "f"); d.add("empty2", ""); finish("empty streams");
    for (int i = 0; i < 9; ++i) d.add(std::string(i + 1, (char)('a' + i)), comp::content(i * 700 + 1, i)); finish("several directory blocks");
    d.add(std::string(31, 'n'), "name of 31"); d.add("\1Ole", "1"); d.add("with space", "2"); d.add("x", "3"); finish("names");
    d.spare = 130; d.add("A", "a"); d.add("B", comp::content(5000, 1)); finish("two table blocks");
    { ole::Doc i; i.add("in", "inner"); d.add("doc", i.build()); d.add("Z", "z"); finish("ole in ole"); }
    int na = (int)arcs.size();
    e.add("listing", na * np, [=](X& x, int t) {
        const Arc& a = arcs[t % na]; const Policy& p = pol[t / na];
        if (!p.sizeKnown) return;       // must be known before: see the suite unknown-size
        x.site("%s", a.what.c_str()); x.note("%s, source %s", a.what.c_str(), p.str().c_str());
        Src src(&x, a.bytes.data(), a.bytes.size(), p);
        x.check(OleInputStream::checkHeader(a.bytes.data(), (int)a.bytes.size()), "not-recognised", "the document is not recognised");
        OleInputStream z(&src);
        walk(x, &z, a.ents, a.ents.size() < 5 || th ? USES : 3);
    });
    e.add("unknown-size", na, [=](X& x, int t) {
        const Arc& a = arcs[t]; x.site("unknown-size: %s", a.what.c_str());
        const Policy& p = pol[x.choose(np, "source")]; if (p.sizeKnown) return;
        Src src(&x, a.bytes.data(), a.bytes.size(), p);
        OleInputStream z(&src);
        walk(x, &z, a.ents, 2);
    });
    // every size of a stream, between two others
    std::vector<int> sizes; for (int i = 1; i < 200; ++i) sizes.push_back(i); for (int i = 4090; i < 4104; ++i) sizes.push_back(i); for (int i = 500; i < 530; ++i) sizes.push_back(i); for (int i = 4600; i < 4613; ++i) sizes.push_back(i); sizes.push_back(65536); sizes.push_back(65537); sizes.push_back(300000);
    int nsz = (int)sizes.size();
    e.add("sizes", nsz, [=](X& x, int t) {
        x.site("sizes"); ole::Doc q; q.order = x.choose(3, "order"); q.smallOrder = q.order;
        q.add("before", "before!"); q.add("s", comp::content(sizes[t], 2)); q.add("after", comp::content(4200, 1));
        std::string b = q.build(); Policy p = few[x.choose(nf, "source")]; p.sizeKnown = true;
        Src src(&x, b.data(), b.size(), p);
        OleInputStream z(&src);
        int u = x.choose(USES, "use");
        walk(x, &z, q.ents(), 1, [=](int i) { return i == 1 ? u : 1; });
    });
    // a document whose last block is incomplete
    e.add("incomplete-block", 512, [=](X& x, int t) {
        // in reverse order the file ends with the first block of the stream, which is full: nothing of it may be missing
        x.site("incomplete-block"); ole::Doc r; r.order = 1; r.add("big", comp::content(4096 + t, 2)); std::string b = r.build();
        Policy p = few[x.choose(nf, "source")]; p.sizeKnown = true; int cut = x.choose(2, "cut");
        if (cut) b.resize(b.size() - 1);
        Src src(&x, b.data(), b.size(), p);
        OleInputStream z(&src);
        InputStream* s = z.nextEntry();
        if (cut) { std::string out; x.check(!s || !slurp(x, s, out), "truncated", "a stream that lacks a byte is complete"); x.check(s || z.status() == Error, "truncated", "a document that lacks a byte has no entries"); x.state(t); return; }
        x.check(s, "missing", "no entry"); checkInfo(x, &z, r.ents()[0], 0); useEntry(x, s, r.items[0].data, x.choose(USES, "use"));
        x.check(!z.nextEntry() && z.status() == Eof, "end", "end");
    });
    // the last block of the file holds the end of a stream and nothing of it is behind that
    e.add("short-last-block", 512 + 256, [=](X& x, int t) {
        bool small = t >= 512; int n = small ? t - 511 : t; x.site(small ? "short-last-block: small" : "short-last-block: large"); ole::Doc q; q.order = small ? 4 : 3;
        int others = x.choose(3, "other streams"); if (others > 0) q.add("one", "1"); if (others > 1 || small) q.add("two", comp::content(5000, 1)); q.add("s", comp::content(small ? n : 4096 + n, 2));
        std::string b = q.build(); size_t used = small ? n + (others > 0 ? 64 : 0) : n; size_t keep = (used + 511) / 512 * 512 - used; int more = x.choose(3, "cut"); if (more == 1) keep /= 2; if (keep == 512) keep = 0; if (more == 2) keep += 1; b.resize(b.size() - keep);
        Policy p = few[x.choose(nf, "source")]; p.sizeKnown = x.choose(2, "size known"); Src src(&x, b.data(), b.size(), p); OleInputStream z(&src);
        if (more < 2) { walk(x, &z, q.ents(), 2); return; }
        std::string out; InputStream* s; bool all = true; while ((s = z.nextEntry())) all = slurp(x, s, out) && all; x.check(!all || z.status() == Error, "truncated", "a document that lacks a byte is complete"); x.state(t);
    });
    // many blocks: small streams of together more than 8 MB, more than 109 table blocks
    e.add("large", 2, [=](X& x, int t) {
        x.site("large"); ole::Doc q; int n = 0;
        q.order = x.choose(2, "order");
        if (t == 0) for (n = 0; n < 2300; ++n) { char nm[20]; snprintf(nm, 20, "s%d", n); q.add(nm, comp::content(4000, 1)); }
        else { q.add("big", comp::content(9000000, 2)); q.add("small", "s"); q.add("big2", comp::content(9000, 1)); }
        std::string b = q.build(); Ents es = q.ents();
        Policy p; p.sizeKnown = true; Src src(&x, b.data(), b.size(), p);
        OleInputStream z(&src);
        int u = x.choose(2, "use");
        walk(x, &z, es, 1, [=](int) { return u; });
    });
    // every number of table blocks around the places where another extension block is needed
    static const int tables[] = { 108, 109, 110, 235, 236, 237, 238, 363, 364, 365, 366 };
    e.add("tables", 11, [=](X& x, int t) {
        x.site("tables"); ole::Doc q; q.order = x.choose(2, "order"); int nx = tables[t] > 109 ? (tables[t] - 109 + 126) / 127 : 0;
        int big = tables[t] * 128 - 60 - tables[t] - nx - 4;
        q.add("first", comp::content(5000, 1)); q.add("big", std::string((size_t)big * 512, 'b')); q.add("last", comp::content(6000, 2)); q.add("small", "small");
        std::string b = q.build(); Ents es = q.ents(); x.check(Doc_tables(q) == tables[t], "harness", "%d tables instead of %d", Doc_tables(q), tables[t]);
        Policy p; p.sizeKnown = true; Src src(&x, b.data(), b.size(), p);
        OleInputStream z(&src); int u = x.choose(2, "use");
        walk(x, &z, es, 1, [=](int) { return u; });
    });
    e.add("unsupported", 4, [=](X& x, int t) {
        x.site("unsupported"); ole::Doc q; q.add("A", "a"); q.add("B", comp::content(5000, 1)); std::string b = q.build();
        if (t == 0) b[0x1e] = 12; if (t == 1) b[0x1f] = 1; if (t == 2) b[0x20] = 7; if (t == 3) b[0x21] = 1;
        Policy p = few[x.choose(nf, "source")]; Src src(&x, b.data(), b.size(), p);
        OleInputStream z(&src);
        x.check(!z.nextEntry() && z.status() == Error && z.error()[0], "accepted", "unsupported block size: status %s", stName(z.status()));
        x.state(t);
    });
    return e.main(argc, argv);
}

// C19 (DAMAGE 0): a truncated archive is never listed as a complete one.
// C26 (DAMAGE 1): a failing source is never taken for the end, at any depth of streams.
#include "cases.h"
using namespace mc;
using namespace Strigi;

// lists everything; true if the listing ended normally
static bool list(X& x, const Case& c, InputStream* in, int use, size_t* count, bool* readAll, int depth) {
    std::unique_ptr<SubStreamProvider> p(c.f(in));
    bool ok = true; size_t n = 0;
    for (;;) {
        InputStream* s = p->nextEntry();
        x.op();
        if (!s) break;
        x.check(n < c.ents.size(), "extra", "an entry '%s' that the archive does not have", printable(p->entryInfo().filename.data(), p->entryInfo().filename.size()).c_str());
        const Ent& e = c.ents[n];
        // the directory of an OLE document may be cut behind the name: only complete entries are compared
        x.check(p->entryInfo().filename == e.name, "name", "entry %lu is called '%s', should be '%s'", n, printable(p->entryInfo().filename.data(), p->entryInfo().filename.size()).c_str(), printable(e.name.data(), e.name.size()).c_str());
        x.check(p->entryInfo().size == e.size, "size", "entry %lu has size %ld, should be %ld", n, (long)p->entryInfo().size, (long)e.size);
        int u = use == 4 ? (int)(n % 2) : use;
        if (c.innerAt == (int)n) {
            size_t k = 0; bool all = true; const Case& i = cases[c.inner];
            if (list(x, i, s, use, &k, &all, depth + 1)) x.check(k == i.ents.size(), "inner-incomplete", "the inner listing ends normally after %lu of %lu entries", k, i.ents.size());
            else ok = false;
        } else if (u == 1 || u == 3) {
            std::string out; bool r = u == 1 ? slurp(x, s, out) : slurp(x, s, out, 2, 3);
            x.check(e.data.compare(0, out.size(), out) == 0, "content", "entry %lu has other content", n);
            if (r) x.check(out == e.data, "incomplete-eof", "entry %lu '%s' ends normally after %lu of %lu bytes", n, printable(e.name.data(), e.name.size()).c_str(), out.size(), e.data.size());
            else { ok = false; x.check(s->error()[0], "no-message", "an entry fails without a message"); }
            x.obs(out.size());
        } else if (u == 2) { const char* d; s->read(d, 1, 2); s->skip(1); }
        ++n;
    }
    StreamStatus st = p->status();
    x.check(st != Ok, "status", "the listing stops with status Ok");
    if (st == Error) { x.check(p->error()[0], "no-message", "the listing fails without a message"); ok = false; }
    x.check(!p->nextEntry() && p->status() == st, "final", "the end is not final");
    *count = n;
    return ok;
}

int main(int argc, char** argv) {
    Explorer e(DAMAGE ? "C26" : "C19");
    bool th = Explorer::thorough();
    std::vector<Policy> few = policiesFew();
    int nf = (int)few.size();
    int fn = buildCases(!DAMAGE);
    int nc = (int)cases.size();
    static std::vector<std::pair<int, int> > at;
    for (int i = 0; i < nc; ++i) { if (!DAMAGE && cases[i].mail) continue; for (size_t b = 0; b <= cases[i].bytes.size() / 64; ++b) at.push_back(std::make_pair(i, (int)b)); }
    auto go = [=](X& x, const Case& c, size_t n, Policy p, int use) {
        x.note("%s, %lu of %lu bytes, source %s, use %d", c.what.c_str(), n, c.bytes.size(), p.str().c_str(), use);
        std::string b = c.bytes; if (n < b.size()) { if (DAMAGE) p.errorAt = (int)n; else b.resize(n); }
        Src src(&x, b.data(), b.size(), p);
        std::unique_ptr<InputStream> w(c.wrap ? wrappers[c.wrap].wrap(&src) : 0);
        size_t count = 0; bool all = true;
        bool ok = list(x, c, w ? w.get() : &src, use, &count, &all, 0);
        x.obs(count * 2 + ok); x.state(mix(mix(count, ok), n));
        if (n >= c.bytes.size()) { x.check(ok && count == c.ents.size(), "harness", "the undamaged archive gives %lu of %lu entries", count, c.ents.size()); return; }
        if (!ok || count == c.ents.size()) return;
        for (auto& q : c.complete) if (!DAMAGE && q.first == n && q.second == count) return;
        x.fail(DAMAGE ? "error-as-end" : "truncated-as-complete", "the listing ends normally after %lu of %lu entries", count, c.ents.size());
    };
    e.add("undamaged", nc, [=](X& x, int t) { const Case& c = cases[t]; if (!DAMAGE && c.mail) return; x.site("%s", c.what.c_str()); Policy p = few[x.choose(nf, "source")]; if (c.what.find("ole") != std::string::npos) p.sizeKnown = true; go(x, c, c.bytes.size(), p, x.choose(5, "use")); });
    e.add("damaged", (int)at.size(), [=](X& x, int t) {
        const Case& c = cases[at[t].first]; x.site("%s", c.what.c_str());
        size_t n = at[t].second * 64 + x.choose(64, "offset"); if (n >= c.bytes.size()) return;
        bool simple = at[t].first < fn;
        int k = simple || th ? x.choose(nf * 5, "use and source") : x.choose(5, "use and source");
        int s = simple || th ? k % nf : k, u = simple || th ? k / nf : k == 0 ? 1 : k == 1 ? 0 : k == 2 ? 3 : k == 3 ? 2 : 4;
        go(x, c, n, few[s], u);
    });
    // the archive is truncated, but not the stream that it is in
    if (!DAMAGE) {
        static std::vector<int> in; for (int i = 0; i < fn; ++i) if (!cases[i].mail && cases[i].what != "ole" && cases[i].what.compare(0, 3, "rpm")) in.push_back(i);
        static std::vector<std::pair<int, int> > cut; for (size_t i = 0; i < in.size(); ++i) for (size_t b = 0; b <= cases[in[i]].bytes.size() / 16; ++b) cut.push_back(std::make_pair(in[i], (int)b));
        e.add("archive-cut", (int)cut.size(), [=](X& x, int t) {
            const Case& o = cases[cut[t].first]; x.site("%s cut", o.what.c_str()); size_t n = cut[t].second * 16 + x.choose(16, "offset"); if (n >= o.bytes.size()) return;
            bool payload = o.what == "cpio"; int k = 1 + x.choose(NW - 1 + 3 * payload, "stream"); Case c; c.f = o.f; c.ents = o.ents; c.what = o.what; std::string b = o.bytes.substr(0, n);
            if (k >= NW) { if (n > o.bytes.size() - 101) return; c.f = RpmInputStream::factory; int m = k - NW; b = rpm::file(3, "1234567", 1, "name", m == 2 ? comp::lzmaAll(b, false) : comp::compress(m ? comp::BZ2 : comp::GZIP, b, 9)); k = 0; }
            else { if (!strcmp(wrappers[k].name, "lzma")) return; if (!strcmp(o.what.c_str(), "small ole") && !wrappers[k].seek) return; b = wrappers[k].encode(b); }
            Policy p = few[x.choose(th ? nf : 2, "source")]; int use = x.choose(th ? 5 : 2, "use"); Src src(&x, b.data(), b.size(), p); std::unique_ptr<InputStream> w(k ? wrappers[k].wrap(&src) : 0);
            size_t count = 0; bool all = true; bool ok = list(x, c, w ? w.get() : &src, use, &count, &all, 0); x.obs(count * 2 + ok); x.state(mix(mix(count, ok), n * 16 + k));
            if (!ok || count == o.ents.size()) return;
            for (auto& q : o.complete) if (q.first == n && q.second == count) return;
            x.fail("truncated-as-complete", "the listing ends normally after %lu of %lu entries", count, o.ents.size());
        });
    }
    return e.main(argc, argv);
}

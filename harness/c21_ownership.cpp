// C21: everything can be destroyed at any moment, gives back what it took and leaves alone what it was lent.
#include "cases.h"
#include <strigi/stringstream.h>
#include <strigi/fileinputstream.h>
#include <strigi/archivereader.h>
#include <strigi/inputstreamreader.h>
#include <strigi/substreamproviderprovider.h>
#include "mmapfileinputstream.h"
#include "skippingfileinputstream.h"
#include "skippingfileinputstream2.h"
#include "gzipcompressstream.h"
#include <dirent.h>
using namespace mc;
using namespace Strigi;

static int descriptors() { int n = 0; DIR* d = opendir("/proc/self/fd"); while (readdir(d)) ++n; closedir(d); return n; }
static std::string scratch;
// what was lent is still there and as good as before
static void stillGood(X& x, Src& s, bool gone, const std::string& b, const Policy& p) {
    x.check(!gone, "deleted", "the stream that was lent has been deleted");
    if (s.status() == Error) return;
    int64_t at = s.position(); x.check(at >= 0 && at <= (int64_t)b.size(), "position", "position %ld of %lu", (long)at, b.size());
    if (p.seek && s.reset(0) == 0) at = 0;
    std::string out; if (!slurp(x, &s, out)) { x.check(p.errorAt >= 0, "content", "the stream that was lent ends with an error"); return; }
    x.check(out == b.substr(at), "content", "the stream that was lent has other content now");
}
// a listing and the things that can be done with it
struct Listing {
    X& x; const Case* c; std::unique_ptr<SubStreamProvider> p; InputStream* s; size_t n; std::unique_ptr<Listing> in; std::unique_ptr<InputStream> on;
    Listing(X& x_, const Case* c_, InputStream* i) : x(x_), c(c_), p(c_->f(i)), s(0), n(0) {}
    void closeEntry() { in.reset(); on.reset(); }      // what was built on an entry goes before it
    void check(int64_t pos, const char* d, int64_t k) { if (!c || n > c->ents.size() || k <= 0) return; const std::string& e = c->ents[n - 1].data; x.check(pos >= 0 && pos + k <= (int64_t)e.size() && !memcmp(d, e.data() + pos, k), "content", "entry %lu has other content at %ld", n, (long)pos); }
    bool act(int o) {       // false: nothing is left to do
        x.op();
        if (o == 0) { closeEntry(); s = p->nextEntry(); x.note("  next: %s", s ? p->entryInfo().filename.c_str() : "end"); if (s) { ++n; x.check(p->currentEntry() == s, "current", "currentEntry() is another stream"); if (c && n <= c->ents.size()) x.check(p->entryInfo().filename == c->ents[n - 1].name, "name", "entry %lu is '%s'", n, p->entryInfo().filename.c_str()); } return true; }
        if (!s) return o == 9;
        if (in.get() && o >= 1 && o <= 4) return false;         // it belongs to the inner listing now
        InputStream* t = on.get() ? on.get() : s; const char* d; int32_t k; int64_t at = t->position(); bool plain = t == s && !in.get();
        if (o == 1) { k = t->read(d, 1, 1); x.note("  read one: %d", k); if (plain) check(at, d, k); }
        else if (o == 2) { x.note("  read all"); size_t total = 0; do { at = t->position(); k = t->read(d, 1, 0); if (plain) check(at, d, k); total += std::max(k, 0); } while (k > 0 && total < (8u << 20)); }
        else if (o == 3) { int64_t r = t->skip(3); x.note("  skip(3): %ld", (long)r); }
        else if (o == 4) { int64_t r = t->reset(0); x.note("  reset(0): %ld", (long)r); }
        else if (o == 5) { if (on.get() || in.get() || s->position() != 0) return false; const Case* i = c && c->innerAt == (int)n - 1 && n ? &cases[c->inner] : 0; if (!i) return false; x.note("  open the inner archive"); in.reset(new Listing(x, i, s)); }
        else if (o == 6) { if (!in.get()) return false; in->act(0); }
        else if (o == 7) { if (!in.get() || !in->s) return false; in->act(2); }
        else if (o == 8) { if (on.get() || in.get()) return false; x.note("  a part of it"); on.reset(new SubInputStream(s, 2)); }
        return true;
    }
};
typedef std::function<InputStream*(InputStream*, std::vector<std::unique_ptr<InputStream> >&)> Make;
struct Kind { const char* name; Make make; std::string bytes; };
static std::vector<Kind> kinds;

int main(int argc, char** argv) {
    Explorer e("C21");
    bool th = Explorer::thorough();
    std::vector<Policy> few = policiesFew(); int nf = (int)few.size();
    int fn = buildCases(false), nc = (int)cases.size(); (void)fn;
    const int OPS = 9, D = th ? 7 : 5;
    // at most three errors per archive: at a quarter, the middle, and three quarters
    e.add("listings", nc * nf, [=](X& x, int t) {
        const Case& c = cases[t / nf]; Policy p = few[t % nf]; x.site("%s", c.what.c_str()); if (c.what.find("ole") == 0 || c.what == "small ole") p.sizeKnown = true;
        int err = x.choose(4, "error"); if (err) p.errorAt = c.bytes.size() * err / 4; std::string b = c.bytes; if (err && x.choose(2, "truncated")) { b.resize(p.errorAt); p.errorAt = -1; }
        bool gone; { Src src(&x, b.data(), b.size(), p, &gone); x.note("%s, source %s", c.what.c_str(), p.str().c_str());
            { bool wgone = false; (void)wgone; std::unique_ptr<InputStream> w(c.wrap ? wrappers[c.wrap].wrap(&src) : 0); bool outerFirst = true; (void)outerFirst;
              { Listing l(x, &c, w ? w.get() : &src);
                for (int d = 0; d < (err || c.wrap ? D - 1 : D); ++d) { int o = x.choose(OPS + 1, "operation"); if (o == OPS) break; if (!l.act(o)) x.prune(); }
                x.state(mix(mix(t, l.n), mix(l.p->status(), l.s ? l.s->position() : -1))); }
              if (w) { x.check(w->status() <= Error && w->status() >= -1, "status", "the stream in between is gone"); const char* d; if (w->status() == Ok) w->read(d, 1, 1); } }
            stillGood(x, src, gone, b, p); }
        x.check(gone, "harness", "source");
    });
    // streams on streams
    std::string text = comp::content(300, 1);
    auto kind = [&](const char* n, const std::string& b, Make m) { Kind k = { n, m, b }; kinds.push_back(k); };
    typedef std::vector<std::unique_ptr<InputStream> >& V;
    for (int k = 1; k < NW; ++k) { Wrap w = wrappers[k].wrap; if (!strcmp(wrappers[k].name, "gzip in gzip")) continue; kind(wrappers[k].name, wrappers[k].encode(!strcmp(wrappers[k].name, "lzma") ? comp::content(5000, 1) : text), [w](InputStream* i, V) { return w(i); }); }
    kind("raw deflate", comp::compress(comp::RAW, text), [](InputStream* i, V) -> InputStream* { return new GZipInputStream(i, GZipInputStream::ZIPFORMAT); });
    kind("compress", text, [](InputStream* i, V) -> InputStream* { return new GZipCompressInputStream(i); });
    kind("terminated", text + "END" + text, [](InputStream* i, V) -> InputStream* { return new StringTerminatedSubStream(i, "END"); });
    kind("encoding from utf-16", text + text, [](InputStream* i, V) -> InputStream* { return new EncodingInputStream(i, "UTF-16", "UTF-8"); });
    kind("unknown encoding", text, [](InputStream* i, V) -> InputStream* { return new EncodingInputStream(i, "nonsense", "UTF-8"); });
    kind("part of a part", text, [](InputStream* i, V v) -> InputStream* { v.emplace_back(new SubInputStream(i, 200)); return new SubInputStream(v.back().get(), 100); });
    kind("not gzip", text, [](InputStream* i, V) -> InputStream* { return new GZipInputStream(i); });
    kind("not bz2", text, [](InputStream* i, V) -> InputStream* { return new BZ2InputStream(i); });
    kind("not lzma", text, [](InputStream* i, V) -> InputStream* { return new LZMAInputStream(i); });
    kind("empty gzip", "", [](InputStream* i, V) -> InputStream* { return new GZipInputStream(i); });
    kind("bz2 on gzip", comp::compress(comp::GZIP, comp::compress(comp::BZ2, text, 9)), [](InputStream* i, V v) -> InputStream* { v.emplace_back(new GZipInputStream(i)); return new BZ2InputStream(v.back().get()); });
    kind("lzma on base64", mail::b64(comp::lzmaAll(text, false), "\n"), [](InputStream* i, V v) -> InputStream* { v.emplace_back(new Base64InputStream(i)); return new LZMAInputStream(v.back().get()); });
    kind("events on encoding", text, [](InputStream* i, V v) -> InputStream* { v.emplace_back(new EncodingInputStream(i, "ISO-8859-1", "UTF-8")); return new DataEventInputStream(v.back().get(), nothing); });
    int nk = (int)kinds.size(); const int DS = th ? 6 : 4;
    e.add("streams", nk * nf, [=](X& x, int t) {
        const Kind& k = kinds[t / nf]; Policy p = few[t % nf]; x.site("%s", k.name); int err = x.choose(5, "error"); std::string b = k.bytes; if (err) { size_t at = b.size() * (err - 1) / 4 + 1; if (at > b.size()) return; p.errorAt = at; if (x.choose(2, "truncated")) { b.resize(at); p.errorAt = -1; } }
        bool gone; { Src src(&x, b.data(), b.size(), p, &gone); { std::vector<std::unique_ptr<InputStream> > between; std::unique_ptr<InputStream> s(k.make(&src, between)); const char* d;
            for (int i = 0; i < DS; ++i) { int o = x.choose(9, "operation"); x.op(); if (o == 8) break; x.note("  operation %d at %ld", o, (long)s->position());
                switch (o) { case 0: s->read(d, 1, 1); break; case 1: s->read(d, 1, 0); break; case 2: { int64_t n = 0, r; while ((r = s->read(d, 1, 0)) > 0 && n < (8 << 20)) n += r; } break; case 3: s->skip(5); break; case 4: s->reset(0); break; case 5: s->read(d, 400, 0); break; case 6: s->reset(std::max<int64_t>(0, s->position()) / 2); break; case 7: s->skip(100000); break; } }
            x.state(mix(mix(t, s->position()), s->status())); s.reset(); while (!between.empty()) between.pop_back(); }
          stillGood(x, src, gone, b, p); }
    });
    e.add("readers", 6 * nf, [=](X& x, int t) {
        static const char* encs[] = { "UTF-8", "UTF-16", "ISO-2022-JP", "ASCII", "nonsense", "" }; Policy p = few[t % nf]; x.site("reader of %s", encs[t / nf]); int err = x.choose(3, "error"); if (err) p.errorAt = err == 1 ? 1 : 150;
        bool gone; { Src src(&x, text.data(), text.size(), p, &gone); { InputStreamReader r(&src, t / nf == 5 ? 0 : encs[t / nf]); const wchar_t* d;
            for (int i = 0; i < DS; ++i) { int o = x.choose(6, "operation"); x.op(); if (o == 5) break; switch (o) { case 0: r.read(d, 1, 1); break; case 1: r.read(d, 1, 0); break; case 2: r.skip(5); break; case 3: r.reset(0); break; case 4: r.read(d, 1000, 0); break; } }
            x.state(mix(t, r.position())); }
          stillGood(x, src, gone, text, p); }
    });
    // files: every descriptor and every mapping is given back
    const char* vo = getenv("VERIF_OUT"); scratch = std::string(vo ? vo : "/tmp") + "/owner"; mkdir(scratch.c_str(), 0755);
    auto put = [](const std::string& n, const std::string& d) { std::ofstream f((scratch + n).c_str(), std::ios::binary); f << d; };
    put("/empty", ""); put("/small", "abc"); put("/large", comp::content(300000, 1)); for (auto& c : cases) { if (c.what == "tar in deflated zip") put("/archive.zip", c.bytes); if (c.what == "tar") put("/cut.tar", c.bytes.substr(0, 700)); }
    static const char* names[] = { "empty", "small", "large", "archive.zip", "cut.tar", "missing", "." };
    static std::function<InputStream*(const char*)> opens[] = {
        [](const char* n) -> InputStream* { return new FileInputStream(n); }, [](const char* n) -> InputStream* { FILE* f = fopen(n, "rb"); return new FileInputStream(f, n); }, [](const char* n) -> InputStream* { return new MMapFileInputStream(n); }, [](const char* n) -> InputStream* { return new SkippingFileInputStream(n); }, [](const char* n) -> InputStream* { return new SkippingFileInputStream2(n); } };
    e.add("files", 5 * 7, [=](X& x, int t) {
        std::string n = scratch + "/" + names[t % 7]; x.site("%s, kind %d", names[t % 7], t / 7); int before = descriptors();
        { std::unique_ptr<InputStream> s(opens[t / 7](n.c_str())); const char* d; for (int i = 0; i < 3; ++i) { int o = x.choose(6, "operation"); x.op(); if (o == 5) break; switch (o) { case 0: s->read(d, 1, 1); break; case 1: s->read(d, 1, 0); break; case 2: s->skip(5); break; case 3: s->reset(0); break; case 4: while (s->read(d, 1, 0) > 0) {} break; } } x.state(mix(t, s->position())); x.check(descriptors() <= before + 1, "descriptors", "more than one descriptor"); }
        x.check(descriptors() == before, "descriptors", "%d descriptors are open afterwards instead of %d", descriptors(), before);
    });
    e.add("reader of files", 7, [=](X& x, int t) {
        std::string n = scratch + "/" + names[t]; x.site("reader, %s", names[t]); int before = descriptors();
        { FileStreamOpener f; ArchiveReader r; r.addStreamOpener(&f); std::vector<InputStream*> open; std::vector<ArchiveReader::DirLister> l; EntryInfo i;
          for (int k = 0; k < (th ? 5 : 4); ++k) { int o = x.choose(8, "operation"); x.op(); if (o == 7) break; x.note("operation %d", o);
            switch (o) { case 0: r.stat(n + "/in/a", i); break; case 1: l.push_back(r.dirEntries(n)); break; case 2: if (l.empty()) x.prune(); l.back().nextEntry(i); break; case 3: if (InputStream* s = r.openStream(n + "/in/a")) { open.push_back(s); const char* d; s->read(d, 1, 1); } break; case 4: if (open.empty()) x.prune(); r.closeStream(open.front()); open.erase(open.begin()); break; case 5: if (l.empty()) x.prune(); l.erase(l.begin()); break; case 6: r.isArchive(n); break; } }
          for (auto s : open) r.closeStream(s); x.state(mix(t, open.size())); }
        x.check(descriptors() == before, "descriptors", "%d descriptors are open afterwards instead of %d", descriptors(), before);
    });
    // a reader of archives: listings and streams that are left at any moment
    struct Mem : StreamOpener {
        X& x; const std::string& b; Policy p; std::set<Src*> open; Mem(X& x_, const std::string& b_, const Policy& p_) : x(x_), b(b_), p(p_) {}
        struct Counted : Src { Mem& m; Counted(Mem& m_) : Src(&m_.x, m_.b.data(), m_.b.size(), m_.p), m(m_) { m.open.insert(this); } ~Counted() { m.open.erase(this); } };
        InputStream* openStream(const std::string& u) { return u == "f" ? new Counted(*this) : 0; }
        int stat(const std::string& u, EntryInfo& e) { if (u != "f") return -1; e = EntryInfo(); e.filename = "f"; e.size = b.size(); e.type = EntryInfo::File; e.mtime = 1; return 0; }
    };
    e.add("reader of archives", nc * 2, [=](X& x, int t) {
        const Case& c = cases[t / 2]; x.site("reader: %s", c.what.c_str()); int err = x.choose(3, "error"); std::string b = c.bytes; Policy p = few[t % 2 ? nf - 1 : 0]; if (err == 1) b.resize(b.size() * 2 / 3); if (err == 2) p.errorAt = b.size() / 2;
        Mem m(x, b, p);
        { std::unique_ptr<ArchiveReader> r(new ArchiveReader()); r->addStreamOpener(&m); std::vector<InputStream*> open; std::vector<ArchiveReader::DirLister> l; EntryInfo i; const char* d;
          std::string in = c.innerAt >= 0 ? c.ents[c.innerAt].name : c.ents.size() ? c.ents.back().name : "none", deep = in + "/" + (c.innerAt >= 0 && cases[c.inner].ents.size() ? cases[c.inner].ents.back().name : "x");
          for (int k = 0; k < (c.innerAt >= 0 && !err && t % 2 == 0 && !c.wrap ? 4 : 3) + (th ? 1 : 0); ++k) { int o = x.choose(11, "operation"); x.op(); if (o == 10) break; x.note("operation %d", o);
            switch (o) { case 0: r->stat("f/" + deep, i); break; case 1: l.push_back(r->dirEntries("f")); break; case 2: l.push_back(r->dirEntries("f/" + in)); break; case 3: if (l.empty()) x.prune(); l.back().nextEntry(i); break; case 4: if (l.empty()) x.prune(); l.erase(l.begin()); break;
              case 5: case 6: if (InputStream* s = r->openStream("f/" + (o == 5 ? in : deep))) { open.push_back(s); s->read(d, 1, 1); } break; case 7: if (open.empty()) x.prune(); r->closeStream(open.front()); open.erase(open.begin()); break; case 8: if (l.empty()) x.prune(); l.push_back(l.front()); break; case 9: r->isArchive("f"); break; } }
          x.state(mix(mix(t, open.size()), mix(l.size(), m.open.size())));
          int order = open.empty() && l.empty() ? 0 : x.choose(3, "order"); if (order == 0) { for (auto s : open) r->closeStream(s); l.clear(); } else if (order == 1) { for (auto s : open) r->closeStream(s); r.reset(); } /* else: the reader goes first, with its streams */ else r.reset(); }
        x.check(m.open.empty(), "open-left", "%lu streams are still there", m.open.size());
    });
    return e.main(argc, argv);
}

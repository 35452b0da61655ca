// C12: a zip archive is listed exactly.
#include "archive.h"
#include <strigi/zipinputstream.h>
using namespace mc;
using namespace Strigi;

struct Arc { std::string bytes, what; Ents ents; };
static std::vector<Arc> arcs;
static zip::Writer w; static Ents es;
static void add(const std::string& name, const std::string& d, const zip::Opt& o, int64_t mtime = 1000000000, int type = EntryInfo::File) {
    Ent e(name, d, mtime / 2 * 2, type);
    w.add(e, o);
    if (o.descriptor == 1 || o.descriptor == 2) e.size = -1;
    es.push_back(e);
}
static void finish(const char* what, const std::string& comment = "") { Arc a; a.what = what; a.bytes = w.done(comment); a.ents = es; arcs.push_back(a); w = zip::Writer(); es.clear(); }

int main(int argc, char** argv) {
    Explorer e("C12");
    bool th = Explorer::thorough();
    std::vector<Policy> pol = policies(), few = policiesFew();
    int np = (int)pol.size(), nf = (int)few.size();
    typedef zip::Opt O;
    std::string d600 = comp::content(600, 1), r300 = comp::content(300, 2);
    add("a", "hello", O(0)); add("b", "hello hello hello", O(8)); add("c", "", O(0)); finish("stored and deflated");
    add("a", "hello", O(8, 1)); add("b", "hello hello hello", O(8, 2)); add("c", r300, O(8, 1)); finish("data descriptors");
    add("a", "hello", O(8, 3)); add("b", d600, O(8, 3)); add("c", "x", O(8, 3)); finish("descriptors although sizes are known");
    add("a", "hello", O(8, 1)); add("b", "stored", O(0)); add("c", d600, O(8)); finish("mixed");
    add("dir", "", O(0), 1e9, EntryInfo::Dir); add("dir/a", "1", O(0)); add("dir/sub", "", O(8, 1), 1e9, EntryInfo::Dir); add("dir/sub/b", "22", O(8)); finish("directories", "a comment");
    add("e", "extra", O(0, 0, "UT\x05\x00\x03" "abcd")); add("f", "extra", O(8, 0, std::string(300, 'e'))); add("g", "extra", O(8, 1, std::string(5000, 'g'))); finish("extra fields");
    add("empty1", "", O(8)); add("empty2", "", O(8, 1)); add("empty3", "", O(8, 2)); add("empty4", "", O(0)); finish("empty files");
    add(std::string(3000, 'n'), "long name", O(8)); add("\xc3\xa9 \xff", "2", O(0)); add("../up/..", "3", O(0)); add("/abs", "4", O(8)); finish("names", std::string(60000, 'c'));
    add("inner.zip", arcs[0].bytes, O(0)); add("inner2.zip", arcs[1].bytes, O(8, 1)); add("last", "!", O(8)); finish("zip in zip");
    { O o(8); o.level = 0; add("l0", r300, o); o.level = 9; add("l9", d600, o); o.level = 1; add("l1", d600, o); finish("levels"); }
    add("pk", "PK\x03\x04PK\x07\x08PK\x01\x02", O(0)); add("pk2", "PK\x07\x08PK\x07\x08", O(8, 0)); add("pk3", std::string("PK\x01\x02"), O(8, 1)); finish("content like headers");
    for (int k = 0; k < 3; ++k) { auto z = [&](int m, int d, int which, const std::string& x = "") { O o(m, d, x); o.zip64 = which; return o; };
      if (k == 0) { add("a", "hello", z(0, 0, 1)); add("b", d600, z(8, 0, 1)); add("c", "", z(0, 0, 1)); add("d", "", z(8, 0, 1)); finish("64 bit sizes"); }
      if (k == 1) { add("a", "hello", z(0, 0, 2)); add("b", d600, z(8, 0, 2)); add("c", r300, z(8, 0, 3)); add("d", "d", z(0, 0, 3)); finish("one 64 bit size"); }
      if (k == 2) { add("a", "hello", z(8, 1, 1)); add("b", d600, z(8, 2, 1)); add("d", d600, z(8, 1, 1, std::string("UT\5\0\3abcd", 9))); add("e", "e", O(8, 1)); finish("64 bit descriptors"); } }
    { O o(8, 0, std::string("\2\0\10\0\1\0\20\0\1\1\1\1", 12)); add("a", "hello", o); o.extra = std::string("\1\0\20\0" "1234567812345678", 20); add("b", d600, o); o.method = 0; add("c", "c", o); finish("extra fields that look like 64 bit sizes"); o.extra = "x"; add("d", "d", o); o.extra = std::string("\1\0\20\0zz", 6); add("e", "e", o); o.extra = std::string("xx\xff\xff", 4); add("f", "f", o); finish("cut off extra fields"); }
    finish("no entries"); arcs.pop_back();
    int na = (int)arcs.size();
    e.add("listing", na * np, [=](X& x, int t) {
        const Arc& a = arcs[t % na]; const Policy& p = pol[t / na];
        x.site("%s", a.what.c_str());
        x.note("%s, source %s", a.what.c_str(), p.str().c_str());
        Src src(&x, a.bytes.data(), a.bytes.size(), p);
        x.check(ZipInputStream::checkHeader(a.bytes.data(), (int)a.bytes.size()), "not-recognised", "the archive is not recognised");
        ZipInputStream z(&src);
        walk(x, &z, a.ents, a.ents.size() < 4 || th ? USES : 5);
    });
    // all times of day, all days
    e.add("times", 24 * 4 + 31, [=](X& x, int t) {
        x.site("times");
        struct tm m; memset(&m, 0, sizeof m);
        m.tm_year = t < 96 ? 80 + t : 100; m.tm_mon = t % 12; m.tm_mday = t < 96 ? 1 + t % 28 : t - 95; m.tm_hour = t % 24; m.tm_min = t * 7 % 60; m.tm_sec = t * 2 % 60;
        if (t >= 96) m.tm_mon = 0;
        zip::Writer z; Ents l; l.push_back(Ent("t", "t", timegm(&m))); z.add(l[0], O(0)); std::string b = z.done();
        Src src(&x, b.data(), b.size(), few[x.choose(nf, "source")]);
        ZipInputStream zi(&src);
        walk(x, &zi, l, 2);
    });
    // sizes around the buffers, each way of storing, each use
    size_t sizes[] = { 1, 15, 16, 1023, 1024, 1025, 262143, 262144, 262145, 530000 };
    e.add("sizes", 10 * 5, [=](X& x, int t) {
        x.site("sizes");
        std::string d = comp::content(sizes[t % 10], t % 3);
        int how = t / 10; O o(how == 0 ? 0 : 8, how == 0 || how == 1 ? 0 : how - 1);
        zip::Writer z; Ents l; l.push_back(Ent("first", d, 1e9)); l.push_back(Ent("second", "two two two", 1e9)); z.add(l[0], o); z.add(l[1], O(8)); std::string b = z.done();
        if (how == 2 || how == 3) l[0].size = -1;
        const Policy& p = few[x.choose(nf, "source")];
        int u = x.choose(USES, "use of the entry");
        Src src(&x, b.data(), b.size(), p);
        ZipInputStream zi(&src);
        walk(x, &zi, l, 1, [=](int i) { return i ? 1 : u; });
    });
    // names and extra fields of any length that can be written
    static const int lens[] = { 1, 2, 255, 256, 1023, 1024, 1025, 4096, 32766, 32767, 32768, 40000, 65534, 65535 };
    e.add("field-lengths", 14 * 2 * 3, [=](X& x, int t) {
        x.site("field-lengths"); int n = lens[t % 14]; bool extra = t / 14 % 2; int how = t / 28; std::string nm("n"); O o(how ? 8 : 0, how == 2);
        if (extra) { n = std::max(n, 4); int v = x.choose(3, "extra field"); if (v == 0) { o.extra = std::string("ZZ", 2); zip::le(o.extra, n - 4, 2); o.extra.resize(n, 'e'); } if (v == 1) while ((int)o.extra.size() + 4 <= n) o.extra += std::string("ab\0\0", 4); if (v == 2) o.extra.assign(n, '\xff'); }
        else { nm.clear(); for (int i = 0; i < n; ++i) nm += (char)('a' + i % 25); if (n > 2 && x.choose(2, "directory")) nm[n - 1] = '/'; }
        bool dir = nm[nm.size() - 1] == '/'; if (dir) nm.resize(n - 1);
        zip::Writer z; Ents l; l.push_back(Ent(nm, "the data", 1e9, dir ? EntryInfo::Dir : EntryInfo::File)); z.add(l[0], o); if (how == 2) l[0].size = -1; l.push_back(Ent("next", "next", 1e9)); z.add(l[1], O(8));
        std::string b = z.done(); Src src(&x, b.data(), b.size(), few[x.choose(nf, "source")]); ZipInputStream zi(&src); walk(x, &zi, l, 1);
    });
    // after the entries there is one of the records that may be there; anything else is no end
    e.add("ends", 256, [=](X& x, int t) {
        x.site("ends"); zip::Writer z; int how = x.choose(3, "entry"); Ent g("good", "good data", 1e9); z.add(g, O(how ? 8 : 0, how == 2)); std::string b = z.out; int c = x.choose(256, "fourth character");
        b += "PK"; b += (char)t; b += (char)c; b += std::string(60, '\1');
        Src src(&x, b.data(), b.size(), few[(t + c) % nf]); ZipInputStream zi(&src); InputStream* s = zi.nextEntry(); std::string out; x.check(s && zi.entryInfo().filename == "good", "good", "the entry is missing");
        if (x.choose(2, "read it")) x.check(slurp(x, s, out) && out == g.data, "good", "the entry has wrong content");
        s = zi.nextEntry(); x.state(t * 256 + c);
        if (t == 3 && c == 4) return;
        if (t == 7 && c == 8 && how == 1) return;
        bool good = (t == 1 && c == 2) || (t == 5 && c == 6) || (t == 6 && c == 6) || (t == 6 && c == 8), also = (t == 5 && c == 5);
        x.check(!s && (zi.status() == (good ? Eof : Error) || (also && zi.status() == Eof)), "end", "the entries are followed by PK %d %d: %s status %s", t, c, s ? "an entry" : "no entry", stName(zi.status()));
        x.check(zi.status() == Eof || zi.error()[0], "message", "an error without a message"); x.check(!zi.nextEntry(), "final", "an entry after the end");
    });
    // sizes of 64 bits that are none
    e.add("negative-size", 2 * 4, [=](X& x, int t) {
        x.site("negative-size"); static const uint64_t v[] = { ~0ULL, 1ULL << 63, ~0ULL - 9, 0xffffffff00000005ULL }; zip::Writer z; z.add(Ent("good", "good", 1e9), O(8)); O o(t % 2 ? 8 : 0); o.zip64 = 1; size_t at = z.out.size(); z.add(Ent("bad", "bad data", 1e9), o);
        int which = x.choose(2, "of the data"); std::string n; zip::le(n, v[t / 2], 8); z.out.replace(at + 30 + 3 + 4 + 8 * which, 8, n); z.add(Ent("after", "after", 1e9), O(0)); std::string b = z.done();
        Src src(&x, b.data(), b.size(), few[x.choose(nf, "source")]); ZipInputStream zi(&src); InputStream* s = zi.nextEntry(); x.check(s, "good", "the good entry is missing"); useEntry(x, s, "good", x.choose(USES, "use")); s = zi.nextEntry(); x.state(t);
        x.check(!s && zi.status() == Error && zi.error()[0] && !zi.nextEntry(), "accepted", "a negative size gives %s status %s", s ? "an entry" : "no entry", stName(zi.status()));
    });
    // a stored entry of more than two gigabytes
    static const int64_t G[] = { 0x7fffffffLL, 0x80000000LL, 0xfffffff0LL, 0xffffffffLL, 0x100000000LL, 0x123456789aLL };
    e.add("large", 6 * 8, [=](X& x, int t) {
        x.site("large");
        int64_t n = G[t % 6]; int v = t / 6; bool big = n >= 0xffffffffLL; int64_t f = big ? 0xffffffffLL : n;
        std::string h("PK\x03\x04"); zip::le(h, 20, 2); zip::le(h, 0, 2); zip::le(h, 0, 2); zip::le(h, 0x21, 4); zip::le(h, 1, 4); zip::le(h, f, 4); zip::le(h, f, 4); zip::le(h, 3, 2); zip::le(h, big ? 20 : 0, 2); h += "big"; if (big) { zip::le(h, 1, 2); zip::le(h, 16, 2); zip::le(h, n, 8); zip::le(h, n, 8); }
        zip::Writer z; z.add(Ent("next", "abc", 1e9), O(8)); std::string rest = z.done();
        Sparse src(h.size() + n + rest.size(), 'z', v & 1, v & 2, v & 4);
        src.put(0, h); src.put(h.size() + n, rest);
        ZipInputStream zi(&src);
        InputStream* s = zi.nextEntry();
        x.check(s && zi.entryInfo().size == n && zi.entryInfo().filename == "big" && s->size() == n, "large-size", "an entry of %ld bytes is listed with %ld (%s)", (long)n, s ? (long)s->size() : -9, zi.error());
        const char* p; int k = x.choose(4, "use");
        if (k == 1) x.check(s->read(p, 10, 10) == 10 && !memcmp(p, "zzzzzzzzzz", 10), "content", "content of the large entry");
        if (k == 2) x.check(s->skip(n - 5) == n - 5 && s->read(p, 5, 0) == 5 && !memcmp(p, "zzzzz", 5) && s->read(p, 1, 0) == -1, "content", "end of the large entry");
        if (k == 3) x.check(s->skip(n + 100) == n, "skip", "skipping the large entry");
        s = zi.nextEntry();
        x.check(s && zi.entryInfo().filename == "next" && zi.entryInfo().size == 3, "after-large", "the entry after a large one is not found (%s)", zi.error());
        x.check(s->read(p, 3, 0) == 3 && !memcmp(p, "abc", 3), "after-large", "the entry after a large one has wrong content");
        x.check(!zi.nextEntry() && zi.status() == Eof, "after-large-end", "status %s at the end", stName(zi.status()));
        x.state(t * 4 + k);
    });
    // what cannot be read must not be shown as something else
    e.add("unsupported", 5 * 6, [=](X& x, int t) {
        static const int methods[] = { 1, 6, 9, 12, 14, 99 };
        int kind = t % 5, m = methods[t / 5]; x.site("unsupported");
        zip::Writer z; std::string d = "the plain text of the entry"; z.add(Ent("good", "good", 1e9), O(8));
        // the packed data is as good as arbitrary
        std::string packed = "\x01\x02\x03packed"; O o(0);
        size_t at = z.out.size();
        z.add(Ent("bad", packed, 1e9), O(0));
        int flags = 0; size_t usize = d.size();
        if (kind == 0) z.out[at + 8] = (char)m;                                  // an unknown method
        if (kind == 1) { z.out[at + 8] = (char)m; usize = packed.size(); }
        if (kind == 2) { flags = 1; usize = packed.size() - 1 - t / 5 % 2; }     // encrypted, stored: longer than the content
        if (kind == 3) { flags = 1; z.out[at + 8] = 8; }                         // encrypted, deflated
        if (kind == 4) { flags = 8; usize = 0; }                                 // stored with unknown size
        z.out[at + 6] = (char)flags; std::string us; zip::le(us, usize, 4); z.out.replace(at + 22, 4, us); if (kind == 4) z.out.replace(at + 18, 4, us);
        z.add(Ent("after", "after", 1e9), O(8)); std::string b = z.done();
        Src src(&x, b.data(), b.size(), few[x.choose(nf, "source")]);
        ZipInputStream zi(&src);
        InputStream* s = zi.nextEntry(); x.check(s, "good", "the good entry is missing");
        bool damaged = false, afterSeen = false; std::string out;
        while ((s = zi.nextEntry())) {
            if (zi.entryInfo().filename == "bad") { if (x.choose(2, "read it")) { bool ok = slurp(x, s, out); x.check(!ok, "wrong-content", "an entry that cannot be read is shown as '%s'", printable(out.data(), out.size()).c_str()); } damaged = true; }
            else if (zi.entryInfo().filename == "after") { afterSeen = true; x.check(slurp(x, s, out) && out == "after", "after", "the entry after has wrong content"); }
            else x.fail("extra", "an entry '%s' from nowhere", printable(zi.entryInfo().filename.data(), zi.entryInfo().filename.size()).c_str());
        }
        x.check(zi.status() == Error || (damaged && afterSeen), "silently-incomplete", "the listing ends normally without all entries");
        x.state(t);
    });
    return e.main(argc, argv);
}

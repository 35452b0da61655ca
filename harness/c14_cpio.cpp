// C14: cpio archives and rpm packages are listed exactly.
#include "archive.h"
#include <strigi/cpioinputstream.h>
#include <strigi/rpminputstream.h>
using namespace mc;
using namespace Strigi;

struct Arc { std::string bytes, what; Ents ents; };
static std::vector<Arc> arcs;
static Arc* cur;
static void start(const char* what) { arcs.push_back(Arc()); cur = &arcs.back(); cur->what = what; }
static void add(const std::string& stored, const std::string& name, const std::string& d, int64_t mtime, uint32_t mode = 0100644, bool upper = true, int nulls = 1) {
    cur->bytes += cpio::member(stored, d, mtime, mode, -1, upper, nulls);
    cur->ents.push_back(Ent(name, d, mtime, (mode & 0170000) == 040000 ? EntryInfo::Dir : EntryInfo::File));
}
static void finish(size_t block = 0) { cur->bytes += cpio::trailer(); if (block) cur->bytes += std::string((block - cur->bytes.size() % block) % block, 0); }

int main(int argc, char** argv) {
    Explorer e("C14");
    bool th = Explorer::thorough();
    std::vector<Policy> pol = policies(), few = policiesFew();
    int np = (int)pol.size(), nf = (int)few.size();
    std::string L300 = "dir/" + std::string(296, 'm'), d600 = comp::content(600, 1);
    start("three files"); add("a", "a", "hello", 1000000000); add("b.txt", "b.txt", "", 0); add("cc", "cc", d600, 1, 0100755, false); finish();
    start("directories"); add(".", ".", "", 5, 040755); add("dir", "dir", "", 5, 040755); add("dir/file", "dir/file", "x", 6); add("./sub", "sub", "", 7, 041777, false); finish(512);
    start("dot names"); add("./one", "one", "1", 1); add("./two", "two", "22", 2); add("./a", "a", "333", 3); add("./usr/bin", "usr/bin", "4444", 4); finish(512);
    start("long names"); add(L300, L300, "long", 10); add("short", "short", "s", 11); add("./" + L300, L300, "", 12); add(std::string(4095, 'p'), std::string(4095, 'p'), "path", 12); finish();
    start("modes"); add("link", "link", "target", 15, 0120777); add("suid", "suid", "", 16, 0104755); add("odd", "odd", "o", 17, 0); finish();
    start("times"); add("max32", "max32", "", 0x7fffffff); add("later", "later", "z", 0x80000001LL); add("latest", "latest", "l", 0xffffffffLL); finish();
    start("strange names"); add("a b", "a b", "1", 1); add("\xc3\xa9\xff", "\xc3\xa9\xff", "2", 2); add(".hidden", ".hidden", "3", 3); add("../up", "../up", "4", 4); add("TRAILER!!!!", "TRAILER!!!!", "t", 4); add("TRAILER!!", "TRAILER!!", "tt", 4); add("/abs", "/abs", "", 4); finish();
    start("several zeros after names"); add("a", "a", "1", 1, 0100644, true, 2); add("bb", "bb", "2", 1, 0100644, true, 5); add("./c", "c", "3", 1, 0100644, true, 4); finish();
    start("empty"); finish(512);
    start("something after the end"); add("a", "a", "1", 1); finish(); cur->bytes += cpio::member("not", "me", 1) + cpio::trailer();
    start("cpio in cpio"); add("in.cpio", "in.cpio", arcs[0].bytes, 1); add("y", "y", "yy", 2); finish();
    int na = (int)arcs.size();
    e.add("cpio", na * np, [=](X& x, int t) {
        const Arc& a = arcs[t % na]; const Policy& p = pol[t / na];
        x.site("cpio: %s", a.what.c_str());
        x.note("%s, source %s", a.what.c_str(), p.str().c_str());
        Src src(&x, a.bytes.data(), a.bytes.size(), p);
        x.check(CpioInputStream::checkHeader(a.bytes.data(), (int)a.bytes.size()), "not-recognised", "the archive is not recognised");
        CpioInputStream z(&src);
        walk(x, &z, a.ents, a.ents.size() < 4 || th ? USES : 5);
    });
    e.add("sizes", 300, [=](X& x, int t) {
        x.site("sizes");
        std::string d = comp::content(t, 2), name(1 + x.choose(5, "name"), 'n'); Ents es;
        es.push_back(Ent(name, d, 1)); es.push_back(Ent("second", "2", 2));
        std::string b = cpio::member(name, d, 1) + cpio::member("second", "2", 2) + cpio::trailer();
        Src src(&x, b.data(), b.size(), few[x.choose(nf, "source")]);
        CpioInputStream z(&src);
        int u = x.choose(USES, "use of the entry");
        walk(x, &z, es, 1, [=](int i) { return i ? 1 : u; });
    });
    // entries of every kind, with any amount of content
    static const uint32_t modes[] = { 0, 0644, 010644, 020644, 040755, 060644, 0100644, 0120777, 0140755, 0160000, 041777, 0170000, 0xff8041ed };
    e.add("kinds", 13 * 18, [=](X& x, int t) {
        x.site("kinds"); int n = t / 13 + (t / 13 > 12 ? 500 : 0); uint32_t m = modes[t % 13]; std::string d = comp::content(n, 2), name(1 + x.choose(4, "name"), 'n'); Ents es;
        es.push_back(Ent(name, d, 1, (m & 0170000) == 040000 ? EntryInfo::Dir : EntryInfo::File)); es.push_back(Ent("second", "2", 2));
        std::string b = cpio::member(name, d, 1, m) + cpio::member("second", "2", 2) + cpio::trailer();
        Src src(&x, b.data(), b.size(), few[x.choose(nf, "source")]); CpioInputStream z(&src);
        int u = x.choose(USES, "use of the entry"); walk(x, &z, es, 1, [=](int i) { return i ? 1 : u; });
    });
    e.add("name-lengths", 600, [=](X& x, int t) {
        x.site("name-lengths");
        int n = t + 1; bool dot = x.choose(2, "dot");
        std::string name; for (int i = 0; i < n; ++i) name += (char)('a' + i % 26);
        std::string b = cpio::member((dot ? "./" : "") + name, "x", 77) + cpio::member("next", "", 1) + cpio::trailer();
        Ents es; es.push_back(Ent(name, "x", 77)); es.push_back(Ent("next", "", 1));
        Src src(&x, b.data(), b.size(), few[x.choose(nf, "source")]);
        CpioInputStream z(&src);
        walk(x, &z, es, 2);
    });
    static const int64_t G[] = { 0x7fffffffLL, 0x80000000LL, 0xffffffffLL };
    e.add("large", 3 * 8, [=](X& x, int t) {
        x.site("large"); int64_t n = G[t % 3]; int v = t / 3;
        std::string h = cpio::member("big", "", 1, 0100644, n), rest = std::string((4 - n % 4) % 4, 0) + cpio::member("next", "abc", 2) + cpio::trailer();
        Sparse src(h.size() + n + rest.size(), 'z', v & 1, v & 2, v & 4);
        src.put(0, h); src.put(h.size() + n, rest);
        CpioInputStream zi(&src);
        InputStream* s = zi.nextEntry();
        x.check(s && zi.entryInfo().size == n && zi.entryInfo().filename == "big" && s->size() == n, "large-size", "an entry of %ld bytes is listed with %ld (%s)", (long)n, s ? (long)s->size() : -9, zi.error());
        const char* p; int k = x.choose(4, "use");
        if (k == 1) x.check(s->read(p, 10, 10) == 10 && !memcmp(p, "zzzzzzzzzz", 10), "content", "content of the large entry");
        if (k == 2) x.check(s->skip(n - 5) == n - 5 && s->read(p, 5, 0) == 5 && !memcmp(p, "zzzzz", 5) && s->read(p, 1, 0) == -1, "content", "end of the large entry");
        if (k == 3) x.check(s->skip(n + 100) == n, "skip", "skipping the large entry");
        s = zi.nextEntry();
        x.check(s && zi.entryInfo().filename == "next" && zi.entryInfo().size == 3, "after-large", "the entry after a large one is not found (%s)", zi.error());
        x.check(s->read(p, 3, 0) == 3 && !memcmp(p, "abc", 3), "after-large", "the entry after a large one has wrong content");
        x.check(!zi.nextEntry() && zi.status() == Eof, "after-large-end", "status %s at the end", stName(zi.status()));
        x.state(t * 4 + k);
    });
    // each digit of each field that is used, and of the six that start each header, replaced by something that is no digit
    static const int fields[] = { 14, 46, 54, 94 };
    e.add("invalid-digit", 4 * 8 + 6, [=](X& x, int t) {
        x.site("invalid-digit"); static const char bad[] = { 'g', 'G', '/', ':', '@', '`', ' ', 0, (char)0x80, '-' };
        std::string b = cpio::member("good", "good", 1); size_t at = b.size(); b += cpio::member("bad", "bad!", 2) + cpio::trailer();
        b[at + (t < 32 ? fields[t / 8] + t % 8 : t - 32)] = bad[x.choose(10, "character")];
        Src src(&x, b.data(), b.size(), few[x.choose(nf, "source")]);
        CpioInputStream z(&src);
        InputStream* s = z.nextEntry(); x.check(s && z.entryInfo().filename == "good", "good", "the good entry is missing");
        useEntry(x, s, "good", x.choose(USES, "use"));
        s = z.nextEntry();
        x.check(!s && z.status() == Error && z.error()[0], "accepted", "an invalid header gives %s status %s '%s'", s ? "an entry" : "no entry", stName(z.status()), z.error());
        x.check(!z.nextEntry() && z.status() == Error, "final", "the error is not final");
        x.state(t);
    });
    // rpm: the payload is such an archive, behind two sections
    std::vector<int> sub; for (int i = 0; i < na; ++i) if (i == 0 || i == 1 || i == 3 || i == 7 || i == 8) sub.push_back(i);
    struct Shape { int si; std::string ss; int hi; std::string hs; };
    std::vector<Shape> shapes = { { 0, "", 0, "" }, { 1, "x", 1, std::string("name\0", 5) }, { 2, "1234567", 3, std::string("ab\0cd\0ef\0", 9) }, { 7, std::string(108, 's'), 40, std::string(5000, 'h') }, { 3, "12345678", 2, "xy" }, { 1, std::string(70000, 's'), 300, std::string(300001, 'h') } };
    for (int k = 1; k < 9; ++k) shapes.push_back({ 1, std::string(k, 's'), 1, std::string(9 - k, 'h') });
    for (int k : { 1, 3, 15, 17 }) shapes.push_back({ 0, std::string(k, 's'), 0, std::string(18 - k, 'h') });
    int ns = (int)shapes.size(), nsub = (int)sub.size();
    static const int kinds[] = { comp::GZIP, comp::BZ2, comp::LZMA };
    e.add("rpm", nsub * ns * 3, [=](X& x, int t) {
        const Arc& a = arcs[sub[t % nsub]]; const Shape& s = shapes[t / nsub % ns]; int kind = kinds[t / nsub / ns];
        x.site("rpm: %s, %s", comp::kindName(kind), a.what.c_str());
        std::string payload = kind == comp::LZMA ? comp::lzmaAll(a.bytes, a.bytes.size() > 4096) : comp::compress(kind, a.bytes, 9);
        std::string b = rpm::file(s.si, s.ss, s.hi, s.hs, payload);
        const Policy& p = th ? pol[x.choose(np, "source")] : few[x.choose(nf, "source")];
        x.note("%s, source %s", a.what.c_str(), p.str().c_str());
        Src src(&x, b.data(), b.size(), p);
        x.check(RpmInputStream::checkHeader(b.data(), (int)b.size()), "not-recognised", "the package is not recognised");
        RpmInputStream r(&src);
        walk(x, &r, a.ents, th ? USES : 3);
    });
    // sections of many sizes, to the largest that rpm allows
    e.add("rpm-sections", 2 * 70 + 4, [=](X& x, int t) {
        x.site("rpm-sections"); int n = t / 2, i = t < 140 ? x.choose(3, "pieces") : 65535, other = t < 140 ? x.choose(2, "other") : 0; if (i && !n) return; if (t >= 140) n = 1 + (t - 140) / 2;
        std::string st; for (int k = 0; k < n; ++k) st += (char)('A' + k % 50); std::string b = t % 2 ? rpm::file(i, st, other, "x", comp::compress(comp::GZIP, arcs[0].bytes, 9)) : rpm::file(other, "x", i, st, comp::compress(comp::GZIP, arcs[0].bytes, 9));
        Src src(&x, b.data(), b.size(), few[x.choose(nf, "source")]); RpmInputStream r(&src); walk(x, &r, arcs[0].ents, 2);
    });
    // the place of each piece of the header
    e.add("rpm-offset", 5, [=](X& x, int t) {
        x.site("rpm-offset"); static const int64_t v[] = { 0, 7, 8, 9, -1, INT32_MIN, INT32_MAX, 0x01000000 }; int k = x.choose(8, "offset"), n = t < 2 ? 1 : 3, i = t < 2 ? 0 : t - 2; if (t == 1 && k) return;
        std::string b = rpm::file(1, "12345678", n, t == 1 ? "1" : "12345678", comp::compress(comp::GZIP, arcs[0].bytes, 9)); size_t at = 96 + 40 + 16 + 16 * i + 8; int64_t o = v[k];
        for (int j = 0; j < 4; ++j) b[at + j] = (char)(o >> (24 - 8 * j));
        Src src(&x, b.data(), b.size(), few[x.choose(nf, "source")]); RpmInputStream r(&src); x.state(t * 8 + k);
        if (o >= 0 && o < 8) { walk(x, &r, arcs[0].ents, 2); return; }
        InputStream* s = r.nextEntry();
        x.check(!s && r.status() == Error && r.error()[0], "accepted", "a piece of the header at %ld of 8 gives %s status %s '%s'", (long)o, s ? "an entry" : "no entry", stName(r.status()), r.error());
    });
    // sections with sizes that are not possible
    e.add("rpm-invalid", 12 * 2, [=](X& x, int t) {
        static const char v[12][5] = { "\xff\xff\xff\xff", "\x80\0\0\0", "\x7f\xff\xff\xff", "\x10\0\0\0", "\x08\0\0\0", "\x07\xff\xff\xff", "\0\x10\0\0", "\0\1\0\0", "\xf0\0\0\0", "\xff\xff\xff\xf0", "\x40\0\0\1", "\0\0\x7f\xff" };
        x.site("rpm-invalid"); int field = x.choose(2, "field");
        std::string b = rpm::file(1, "12345678", 1, "12345678", comp::compress(comp::GZIP, arcs[0].bytes, 9));
        b.replace(96 + (t / 12) * 40 + 8 + field * 4, 4, std::string(v[t % 12], 4));
        Src src(&x, b.data(), b.size(), few[x.choose(nf, "source")]);
        RpmInputStream r(&src);
        InputStream* s = r.nextEntry();
        x.check(!s && r.status() == Error && r.error()[0], "accepted", "an invalid section gives %s status %s '%s'", s ? "an entry" : "no entry", stName(r.status()), r.error());
        x.state(t * 2 + field);
    });
    return e.main(argc, argv);
}

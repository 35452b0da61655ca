// C11: a tar archive is listed exactly.
#include "archive.h"
#include <strigi/tarinputstream.h>
using namespace mc;
using namespace Strigi;

struct Arc { std::string bytes, what; Ents ents; };
static std::vector<Arc> arcs;
static Arc* cur;
static void start(const char* what) { arcs.push_back(Arc()); cur = &arcs.back(); cur->what = what; }
static void add(const std::string& stored, const std::string& name, const std::string& d, int64_t mtime, char type = '0', int style = tar::GNU, const std::string& prefix = "") {
    if (stored.size() > 100) cur->bytes += tar::longname(stored, 'L', style);
    cur->bytes += tar::header(stored, d.size(), mtime, type, style, prefix) + tar::pad(d);
    cur->ents.push_back(Ent(name, d, mtime, type == '5' ? EntryInfo::Dir : type == '0' || type == 0 ? EntryInfo::File : EntryInfo::Unknown));
}
static void finish(int blocks = 2) { cur->bytes += tar::end(blocks); }

int main(int argc, char** argv) {
    Explorer e("C11");
    bool th = Explorer::thorough();
    std::vector<Policy> pol = policies(), few = policiesFew();
    int np = (int)pol.size(), nf = (int)few.size();
    std::string L150(150, 'n'), L300 = "dir/" + std::string(296, 'm'), d600 = comp::content(600, 1);
    start("three files"); add("a", "a", "hello", 1000000000); add("b.txt", "b.txt", "", 0); add("c", "c", d600, 1); finish();
    start("directories"); add("dir/", "dir", "", 5, '5'); add("dir/file", "dir/file", "x", 6); add("./sub/", "sub", "", 7, '5'); finish(20);
    start("dot names"); add("./one", "one", "1", 1); add("./two", "two", "22", 2); cur->bytes += tar::header("./", 0, 3, '5', tar::GNU); add("./three", "three", "333", 3); finish(3);
    start("dot first"); cur->bytes += tar::header("./", 0, 3, '5', tar::GNU); add("./x", "x", "y", 9); finish();
    start("long names"); add(L150, L150, "long", 10); add("short", "short", "s", 11); add(L300, L300, "longer", 12); finish();
    start("long directory"); add(L150 + "/", L150, "", 10, '5'); add("./" + L150, L150, "x", 10); finish();
    start("name of 100"); add(std::string(100, 'q'), std::string(100, 'q'), "hundred", 13); add(std::string(99, 'r'), std::string(99, 'r'), "ninety nine", 14); finish();
    start("other types"); add("link", "link", "", 15, '2'); add("fifo", "fifo", "", 16, '6'); add("hard", "hard", "", 17, '1'); add("old", "old", "old style", 18, 0, tar::OLD); finish();
    start("long link target"); cur->bytes += tar::longname(L300, 'K'); cur->bytes += tar::header("sym", 0, 15, '2', tar::GNU, "", L300); cur->ents.push_back(Ent("sym", "", 15, EntryInfo::Unknown)); cur->bytes += tar::longname(L300, 'K'); add(L150, L150, "", 15, '2'); add("after", "after", "a", 1); finish();
    start("links"); for (int n : { 1, 99, 100 }) for (char c : { '1', '2' }) { std::string nm = std::string(1, c) + std::to_string(n); cur->bytes += tar::header(nm, 0, n, c, n % 2 ? tar::GNU : tar::USTAR, "", std::string(n, 'l')); cur->ents.push_back(Ent(nm, "", n, EntryInfo::Unknown)); } finish();
    start("binary numbers"); for (int k = 0; k < 6; ++k) { static const int64_t T[] = { -1, -315619200, 0x200000000LL, 0xffffffffffLL, 77, -0x80000000LL }; tar::H h; std::string nm = std::string("n") + (char)('0' + k); h.b = tar::header(nm, 1, 77, '0', k % 2 ? tar::GNU : tar::USTAR); if (k != 4) h.b256(136, 12, T[k]); if (k == 2 || k == 4) h.b256(108, 8, 3000000001LL); if (k > 2) h.b256(116, 8, 0xffffffff); if (k == 5) h.b256(124, 12, 1); cur->bytes += h.done() + tar::pad("c"); cur->ents.push_back(Ent(nm, "c", T[k])); } finish();
    start("ustar"); add("u", "u", "ustar", 20, '0', tar::USTAR); add("v", std::string(120, 'p') + "/v", "prefixed", 21, '0', tar::USTAR, std::string(120, 'p')); add("w/", "pp/w", "", 22, '5', tar::USTAR, "pp"); finish();
    start("old style"); add("o", "o", "1", 1, 0, tar::OLD); add("p/q", "p/q", "2", 2, '0', tar::OLD); finish();
    start("block sizes"); for (size_t n : { (size_t)511, (size_t)512, (size_t)513, (size_t)1024 }) { char nm[20]; snprintf(nm, 20, "f%lu", n); add(nm, nm, comp::content(n, 2), n); } finish();
    start("times"); add("max32", "max32", "", 0x7fffffff); add("later", "later", "", 0x80000001LL); add("late", "late", "l", 07777777777LL); finish();
    start("strange names"); add("a b", "a b", "1", 1); add("\xc3\xa9\xff", "\xc3\xa9\xff", "2", 2); add(".hidden", ".hidden", "3", 3); add("../up", "../up", "4", 4); add("./././@LongLink", "././@LongLink", "5", 5); finish();
    start("empty"); finish(20);
    start("tar in tar"); add("inner.tar", "inner.tar", arcs[0].bytes, 1); add("z", "z", "zz", 2); finish(2);
    int na = (int)arcs.size();
    e.add("listing", na * np, [=](X& x, int t) {
        const Arc& a = arcs[t % na]; const Policy& p = pol[t / na];
        x.site("%s", a.what.c_str());
        x.note("%s, source %s", a.what.c_str(), p.str().c_str());
        Src src(&x, a.bytes.data(), a.bytes.size(), p);
        if (!a.ents.empty()) x.check(TarInputStream::checkHeader(a.bytes.data(), (int)a.bytes.size()), "not-recognised", "the archive is not recognised");
        TarInputStream tar(&src);
        walk(x, &tar, a.ents, a.ents.size() < 4 || th ? USES : 5);
    });
    // all sizes of an entry: the next one is found
    e.add("sizes", 1100, [=](X& x, int t) {
        x.site("sizes");
        std::string d = comp::content(t, 2); Ents es;
        es.push_back(Ent("first", d, 1)); es.push_back(Ent("second", "2", 2));
        std::string b = tar::header("first", t, 1, '0', tar::GNU) + tar::pad(d) + tar::header("second", 1, 2, '0', tar::GNU) + tar::pad("2") + tar::end();
        const Policy& p = few[x.choose(nf, "source")];
        Src src(&x, b.data(), b.size(), p);
        TarInputStream tar(&src);
        int u = x.choose(USES, "use of the entry");
        walk(x, &tar, es, 1, [=](int i) { return i ? 1 : u; });
    });
    // all lengths of names
    e.add("name-lengths", 700, [=](X& x, int t) {
        x.site("name-lengths");
        int n = t + 1; bool dir = n > 1 && x.choose(2, "directory"); bool dot = x.choose(2, "dot");
        std::string name; for (int i = 0; i < n; ++i) name += (char)('a' + i % 26); std::string stored = (dot ? "./" : "") + name + (dir ? "/" : "");
        std::string b; if (stored.size() > 100 || x.choose(2, "long link anyway")) b += tar::longname(stored);
        b += tar::header(stored, 1, 77, dir ? '5' : '0', tar::GNU);
        b += tar::pad("x"); b += tar::header("next", 0, 1, '0', tar::GNU) + tar::end();
        Ents es; es.push_back(Ent(name, "x", 77, dir ? EntryInfo::Dir : EntryInfo::File)); es.push_back(Ent("next", "", 1));
        Src src(&x, b.data(), b.size(), few[x.choose(nf, "source")]);
        TarInputStream tar(&src);
        walk(x, &tar, es, 1);
    });
    // all lengths of prefixes; names that fill the field
    e.add("prefixes", 155 * 4, [=](X& x, int t) {
        x.site("prefixes"); int n = t / 4 + 1; static const int lens[] = { 1, 50, 99, 100 }; std::string pre, name(lens[t % 4], 'y');
        for (int i = 0; i < n; ++i) pre += i % 10 == 5 && i + 1 < n ? '/' : (char)('A' + i % 26);
        bool dir = x.choose(2, "directory"); if (dir) name[name.size() - 1] = '/'; if (dir && name.size() == 1) return;
        std::string b = tar::header(name, 2, 5, dir ? '5' : '0', tar::USTAR, pre) + tar::pad("ab") + tar::header("next", 0, 6, '0', tar::USTAR) + tar::end();
        Ents es; es.push_back(Ent(pre + "/" + (dir ? name.substr(0, name.size() - 1) : name), "ab", 5, dir ? EntryInfo::Dir : EntryInfo::File)); es.push_back(Ent("next", "", 6));
        Src src(&x, b.data(), b.size(), few[x.choose(nf, "source")]); TarInputStream tar(&src); walk(x, &tar, es, 1);
    });
    // names of many lengths, up to the longest that is accepted (1 MB); longer ones are an error
    static const int longest[] = { 1023, 1024, 4095, 4096, 4097, 5000, 8192, 32767, 32768, 65535, 65536, 70000, 262144, 1048574, 1048575, 1048576, 3000000 };
    e.add("very-long-names", 17 * 2, [=](X& x, int t) {
        x.site("very-long-names"); int n = longest[t % 17]; char type = t / 17 ? 'K' : 'L'; std::string nm; for (int i = 0; i < n; ++i) nm += (char)('a' + i % 25);
        std::string b = tar::header("before", 1, 1, '0', tar::GNU) + tar::pad("1") + tar::longname(nm, type) + tar::header("plain", 3, 2, '0', tar::GNU) + tar::pad("two") + tar::header("after", 0, 3, '0', tar::GNU) + tar::end();
        Ents es; es.push_back(Ent("before", "1", 1)); es.push_back(Ent(type == 'K' ? "plain" : nm, "two", 2)); es.push_back(Ent("after", "", 3));
        Src src(&x, b.data(), b.size(), few[x.choose(nf, "source")]); TarInputStream tar(&src);
        if (n < 1048576) { walk(x, &tar, es, 1); return; }
        InputStream* s = tar.nextEntry(); x.check(s && tar.entryInfo().filename == "before", "first", "the first entry is missing"); x.state(t);
        s = tar.nextEntry(); if (s) { checkInfo(x, &tar, es[1], 1); return; }
        x.check(tar.status() == Error && tar.error()[0] && !tar.nextEntry(), "too-long", "a name of %d bytes: status %s", n, stName(tar.status()));
    });
    // entries of every kind, with any amount of content
    static const int sz[] = { 0, 1, 511, 512, 513, 1024, 1025 };
    e.add("kinds", 128 * 7, [=](X& x, int t) {
        x.site("kinds"); char c = (char)(t / 7); int n = sz[t % 7]; std::string d = comp::content(n, 2), b; Ents es; const char* name = x.choose(2, "name") ? "dir/name" : "first";
        es.push_back(Ent(name, d, 1, c == '5' ? EntryInfo::Dir : c == '0' || c == 0 ? EntryInfo::File : EntryInfo::Unknown)); es.push_back(Ent("second", "2", 2));
        int style = x.choose(3, "style"); b = tar::header(name, n, 1, c, style) + tar::pad(d) + tar::header("second", 1, 2, '0', style) + tar::pad("2") + tar::end();
        Src src(&x, b.data(), b.size(), few[x.choose(nf, "source")]); TarInputStream tar(&src);
        int u = x.choose(USES, "use of the entry"); walk(x, &tar, es, 1, [=](int i) { return i ? 1 : u; });
    });
    // what may come before an entry: its name, what it links to, and the directory that everything is in, in any order
    e.add("long-names", 5 * 5 * 5 * 5, [=](X& x, int t) {
        x.site("long-names"); std::string b, name = "plain"; int v = t; bool lname = false; static const int lens[] = { 1, 511, 512, 99 };
        for (int i = 0; i < 4; ++i, v /= 5) switch (v % 5) {
            case 1: { int n = lens[(i + v) % 4]; std::string nm(n, (char)('a' + i)); b += tar::longname(nm); name = nm; lname = true; break; }
            case 2: b += tar::longname(std::string(lens[i], 'k'), 'K'); break;
            case 3: if (lname) return; b += tar::header("./", 0, 3, '5', tar::GNU); break;
            case 4: { std::string nm(120 + i, 'z'); b += tar::header("././@LongLink", nm.size() + 3, 0, 'L', tar::GNU) + tar::pad(nm + std::string(3, 0)); name = nm; lname = true; break; }
            default: ;
        }
        Ents es; es.push_back(Ent("before", "1", 1)); es.push_back(Ent(name, "two", 2)); es.push_back(Ent("after", "", 3));
        b = tar::header("before", 1, 1, '0', tar::GNU) + tar::pad("1") + b + tar::header("plain", 3, 2, '0', tar::GNU) + tar::pad("two") + tar::header("after", 0, 3, '0', tar::GNU) + tar::end();
        Src src(&x, b.data(), b.size(), few[x.choose(nf, "source")]); TarInputStream tar(&src); int u = x.choose(USES, "use of the first entry"); walk(x, &tar, es, 1, [=](int i) { return i ? 1 : u; });
    });
    // the blocks of zeros at the end, and what is no end
    e.add("ends", 24 * 4, [=](X& x, int t) {
        x.site("ends"); int zeros = t / 4, kind = t % 4; std::string b = tar::header("a", 5, 1, '0', tar::GNU) + tar::pad("hello") + std::string(zeros * 512, 0);
        if (kind == 1) b += std::string(100, 0); if (kind == 2) b += tar::header("b", 0, 1, '0', tar::GNU) + tar::end(); if (kind == 3) b += std::string(511, 0) + "x" + tar::end();
        Src src(&x, b.data(), b.size(), few[x.choose(nf, "source")]); TarInputStream tar(&src); InputStream* s = tar.nextEntry(); x.check(s && tar.entryInfo().filename == "a", "first", "the entry is missing"); useEntry(x, s, "hello", x.choose(USES, "use"));
        s = tar.nextEntry(); x.state(t);
        if (zeros == 0 && kind == 2) { x.check(s && tar.entryInfo().filename == "b", "second", "the second entry is missing"); return; }
        bool good = kind < 2 && zeros >= 2;
        x.check(!s && tar.status() == (good ? Eof : Error), "end", "%d blocks of zeros and %d: %s status %s", zeros, kind, s ? "an entry" : "no entry", stName(tar.status()));
        x.check(!tar.nextEntry() && tar.status() == (good ? Eof : Error), "final", "status %s later", stName(tar.status()));
    });
    // numbers that are none
    e.add("invalid-number", 12 * 2, [=](X& x, int t) {
        x.site("invalid-number"); static const char bad[] = { '8', '9', 'a', '-', '/', '.', 1 }; int at = t % 12, field = t / 12 ? 136 : 124; std::string h = tar::header("bad", 5, 1, '0', tar::GNU);
        if (at) h.replace(field, at, at, ' '); h[field + at] = bad[x.choose(7, "character")];
        std::string b = tar::header("good", 4, 1, '0', tar::GNU) + tar::pad("good") + h + tar::pad("hello") + tar::end();
        Src src(&x, b.data(), b.size(), few[x.choose(nf, "source")]); TarInputStream tar(&src); InputStream* s = tar.nextEntry(); x.check(s, "good", "the good entry is missing"); useEntry(x, s, "good", x.choose(USES, "use"));
        s = tar.nextEntry(); x.state(t); x.check(!s && tar.status() == Error && tar.error()[0], "accepted", "an invalid number gives %s status %s", s ? "an entry" : "no entry", stName(tar.status()));
    });
    e.add("negative-size", 4, [=](X& x, int t) {
        x.site("negative-size"); static const int64_t v[] = { -1, -512, -0x80000000LL, -0x7fffffffffffLL }; tar::H h; h.b = tar::header("bad", 5, 1, '0', tar::GNU); h.b256(124, 12, v[t]);
        std::string b = tar::header("good", 4, 1, '0', tar::GNU) + tar::pad("good") + h.done() + tar::pad("hello") + tar::end();
        Src src(&x, b.data(), b.size(), few[x.choose(nf, "source")]); TarInputStream tar(&src); InputStream* s = tar.nextEntry(); x.check(s, "good", "the good entry is missing"); useEntry(x, s, "good", x.choose(USES, "use"));
        s = tar.nextEntry(); x.state(t); x.check(!s && tar.status() == Error && tar.error()[0] && !tar.nextEntry(), "accepted", "a negative size gives %s status %s", s ? "an entry" : "no entry", stName(tar.status()));
    });
    // spellings of the numbers
    e.add("numbers", 8, [=](X& x, int t) {
        x.site("numbers");
        static const char* forms[] = { "00000000005", "          5 ", "          5\0", "5", "5 ", "0000005 ", "     5 ", "     5\0" };
        std::string f = forms[t]; if (t == 2) f += '\0';
        std::string h = tar::header("n", 0, 0, '0', tar::GNU); h.replace(124, 12, std::string(12, 0)); h.replace(124, f.size(), f); h.replace(136, 12, std::string(12, 0)); h.replace(136, f.size(), f);
        std::string b = h + tar::pad("12345") + tar::end(); Ents es; es.push_back(Ent("n", "12345", 5));
        Src src(&x, b.data(), b.size(), few[x.choose(nf, "source")]);
        TarInputStream tar(&src);
        walk(x, &tar, es, USES);
    });
    // files of more than two and four gigabytes, as octal and (beyond 8 GB) binary numbers
    static const int64_t G[] = { 0x7fffffffLL, 0x80000000LL, 0xffffffffLL, 0x100000000LL, 0x1ffffffffLL, 0x200000001LL };
    e.add("large", 6 * 8, [=](X& x, int t) {
        x.site("large");
        int64_t n = G[t % 6]; int v = t / 6; int64_t padded = (n + 511) / 512 * 512;
        std::string h = tar::header("big", n > 077777777777LL ? 0 : n, 3, '0', tar::GNU);
        if (n > 077777777777LL) { tar::H hh; hh.b = h; hh.b256(124, 12, n); h = hh.done(); }
        Sparse src(512 + padded + 1024 + 1024, 'z', v & 1, v & 2, v & 4);
        src.put(0, h); src.put(512 + n, std::string(padded - n, 0) + tar::header("next", 3, 4, '0', tar::GNU) + tar::pad("abc") + tar::end());
        TarInputStream tar(&src);
        InputStream* s = tar.nextEntry();
        x.check(s && tar.entryInfo().size == n && tar.entryInfo().filename == "big" && s->size() == n, "large-size", "an entry of %ld bytes is listed with %ld (%s)", (long)n, s ? (long)s->size() : -9, tar.error());
        const char* p; int k = x.choose(4, "use");
        if (k == 1) { x.check(s->read(p, 10, 10) == 10 && !memcmp(p, "zzzzzzzzzz", 10), "content", "content of the large entry"); }
        if (k == 2) x.check(s->skip(n - 5) == n - 5 && s->read(p, 5, 0) == 5 && !memcmp(p, "zzzzz", 5) && s->read(p, 1, 0) == -1, "content", "end of the large entry");
        if (k == 3) x.check(s->skip(n + 100) == n, "skip", "skipping the large entry");
        s = tar.nextEntry();
        x.check(s && tar.entryInfo().filename == "next" && tar.entryInfo().size == 3, "after-large", "the entry after a large one is not found (%s)", tar.error());
        x.check(s->read(p, 3, 0) == 3 && !memcmp(p, "abc", 3), "after-large", "the entry after a large one has wrong content");
        x.check(!tar.nextEntry() && tar.status() == Eof, "after-large-end", "status %s at the end", stName(tar.status()));
        x.state(t * 4 + k);
    });
    return e.main(argc, argv);
}

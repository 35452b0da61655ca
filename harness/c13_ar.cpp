// C13: an ar archive is listed exactly.
#include "archive.h"
#include <strigi/arinputstream.h>
using namespace mc;
using namespace Strigi;

struct Arc { std::string bytes, what; Ents ents; };
static std::vector<Arc> arcs;
static Arc* cur;
static void start(const char* what) { arcs.push_back(Arc()); cur = &arcs.back(); cur->what = what; cur->bytes = ar::magic(); }
static void add(const std::string& field, const std::string& name, const std::string& d, int64_t mtime, const char* uid = "0", const char* mode = "100644") {
    cur->bytes += ar::member(field, d, mtime, -1, uid, mode); cur->ents.push_back(Ent(name, d, mtime));
}
static void extra(const std::string& field, const std::string& d) { cur->bytes += ar::member(field, d, 0); }

int main(int argc, char** argv) {
    Explorer e("C13");
    bool th = Explorer::thorough();
    std::vector<Policy> pol = policies(), few = policiesFew();
    int np = (int)pol.size(), nf = (int)few.size();
    std::string L40(40, 'n'), L200 = std::string(196, 'm') + ".obj", d600 = comp::content(600, 1);
    start("gnu"); add("a.o/", "a.o", "hello", 1000000000); add("b.o/", "b.o", "", 0); add("c/", "c", d600, 1); add("d/", "d", "even", 2);
    start("bsd"); add("a.o", "a.o", "hello", 1000000000); add("sixteen_letters_", "sixteen_letters_", "odd", 3); add("z", "z", "!", 4);
    start("symbols"); extra("/", "\0\0\0\1\0\0\0\x44sym\0"); add("one.o/", "one.o", "111", 5); extra("/", "xx"); add("two.o/", "two.o", "2222", 6);
    start("symbols 64"); extra("/SYM64/", "12345678"); add("one.o/", "one.o", "1", 5);
    start("only symbols"); extra("/", "12345");
    start("long names"); extra("//", L40 + "/\n" + L200 + "/\n"); add("/0", L40, "first", 7); add("/42", L200, "second", 8); add("short/", "short", "third", 9); add("/0", L40, "again", 7);
    start("symbols and long names"); extra("/", "abcde"); extra("//", L40 + "/\nx y.o/\nlast"); add("/49", "last", "l", 1); add("/42", "x y.o", "", 2); add("/0", L40, "f", 7);
    start("names with spaces"); add("a b.o/", "a b.o", "1", 1); add("c d", "c d", "22", 2); add(" lead/", " lead", "", 3); add("trail /", "trail ", "4", 4);
    start("strange names"); add("\xc3\xa9\xff/", "\xc3\xa9\xff", "1", 1); add("`/", "`", "`\n", 2); add("..", "..", "", 3); add("!<arch>/", "!<arch>", "!<arch>\n", 3);
    start("full fields"); add("full/", "full", "123", 999999999999LL, "123456", "12345678"); add("x/", "x", "1", 7);
    start("empty");
    start("symbols after names"); extra("//", L40 + "/\nab/\n"); extra("/", "symbols"); add("/0", L40, "f", 7); extra("/SYM64/", "12345678"); add("/42", "ab", "g", 8); extra("/", ""); add("s/", "s", "h", 9);
    start("short names in the table"); extra("//", "a/\nb"); add("/0", "a", "1", 1); add("/3", "b", "2", 2); extra("//", "c"); add("/0", "c", "3", 3); extra("//", ""); add("d/", "d", "4", 4);
    start("no pad"); add("a/", "a", "12", 1); add("b/", "b", "123", 1); cur->bytes.resize(cur->bytes.size() - 1);
    start("closing byte"); add("a/", "a", "12", 1); cur->bytes += '\n';
    start("ar in ar"); add("in.a/", "in.a", arcs[0].bytes, 1); add("y/", "y", "yy", 2);
    int na = (int)arcs.size();
    e.add("listing", na * np, [=](X& x, int t) {
        const Arc& a = arcs[t % na]; const Policy& p = pol[t / na];
        x.site("%s", a.what.c_str());
        x.note("%s, source %s", a.what.c_str(), p.str().c_str());
        Src src(&x, a.bytes.data(), a.bytes.size(), p);
        x.check(ArInputStream::checkHeader(a.bytes.data(), (int)a.bytes.size()), "not-recognised", "the archive is not recognised");
        ArInputStream z(&src);
        walk(x, &z, a.ents, USES);
    });
    e.add("sizes", 600, [=](X& x, int t) {
        x.site("sizes");
        std::string d = comp::content(t, 2); Ents es;
        es.push_back(Ent("first", d, 1)); es.push_back(Ent("second", "2", 2));
        std::string b = ar::magic() + ar::member("first/", d, 1) + ar::member("second/", "2", 2);
        Src src(&x, b.data(), b.size(), few[x.choose(nf, "source")]);
        ArInputStream z(&src);
        int u = x.choose(USES, "use of the entry");
        walk(x, &z, es, 1, [=](int i) { return i ? 1 : u; });
    });
    // every length of a name, in the name field in both styles and in the table
    e.add("name-lengths", 64, [=](X& x, int t) {
        x.site("name-lengths");
        int n = t + 1; std::string name; for (int i = 0; i < n; ++i) name += (char)('a' + i % 26);
        int how = x.choose(3, "style"); int before = how == 2 ? x.choose(20, "names before") : 0;
        if (how == 0 && n > 15) return; if (how == 1 && n > 16) return;
        std::string b = ar::magic(), field = how == 0 ? name + "/" : name;
        if (how == 2) { std::string tab; for (int i = 0; i < before; ++i) tab += std::string(i + 16, 'b') + "/\n"; char f[20]; snprintf(f, 20, "/%lu", tab.size()); field = f; tab += name + "/\n" + "after/\n"; b += ar::member("//", tab, 0); }
        b += ar::member(field, "x", 77) + ar::member("next/", "", 1);
        Ents es; es.push_back(Ent(name, "x", 77)); es.push_back(Ent("next", "", 1));
        Src src(&x, b.data(), b.size(), few[x.choose(nf, "source")]);
        ArInputStream z(&src);
        walk(x, &z, es, 2);
    });
    // every character in a name
    e.add("name-bytes", 255, [=](X& x, int t) {
        x.site("name-bytes"); char c = (char)(t + 1); if (c == '\n') return;
        std::string name = std::string("n") + c + "m"; int how = x.choose(3, "style"); if (c == '/' && how != 2) return; std::string b = ar::magic();
        if (how == 2) b += ar::member("//", "z/\n" + name + "/\n", 0);
        b += ar::member(how == 0 ? name + "/" : how == 1 ? name : "/3", "x", 77);
        Ents es; es.push_back(Ent(name, "x", 77));
        Src src(&x, b.data(), b.size(), few[x.choose(nf, "source")]);
        ArInputStream z(&src);
        walk(x, &z, es, 2);
    });
    static const int64_t G[] = { 0x7fffffffLL, 0x80000000LL, 9999999999LL };
    e.add("large", 3 * 8, [=](X& x, int t) {
        x.site("large"); int64_t n = G[t % 3]; int v = t / 3;
        std::string h = ar::magic() + ar::member("big/", "", 1, n), rest = (n % 2 ? "\n" : "") + ar::member("next/", "abc", 2);
        Sparse src(h.size() + n + rest.size(), 'z', v & 1, v & 2, v & 4);
        src.put(0, h); src.put(h.size() + n, rest);
        ArInputStream zi(&src);
        InputStream* s = zi.nextEntry();
        x.check(s && zi.entryInfo().size == n && zi.entryInfo().filename == "big" && s->size() == n, "large-size", "an entry of %ld bytes is listed with %ld (%s)", (long)n, s ? (long)s->size() : -9, zi.error());
        const char* p; int k = x.choose(4, "use");
        if (k == 1) x.check(s->read(p, 10, 10) == 10 && !memcmp(p, "zzzzzzzzzz", 10), "content", "content of the large entry");
        if (k == 2) x.check(s->skip(n - 5) == n - 5 && s->read(p, 5, 0) == 5 && !memcmp(p, "zzzzz", 5) && s->read(p, 1, 0) == -1, "content", "end of the large entry");
        if (k == 3) x.check(s->skip(n + 100) == n, "skip", "skipping the large entry");
        s = zi.nextEntry();
        x.check(s && zi.entryInfo().filename == "next" && zi.entryInfo().size == 3, "after-large", "the entry after a large one is not found (%s)", zi.error());
        x.check(s->read(p, 3, 0) == 3 && !memcmp(p, "abc", 3), "after-large", "the entry after a large one has wrong content");
        x.check(!zi.nextEntry() && zi.status() == Eof, "after-large-end", "status %s at the end", stName(zi.status()));
        x.state(t * 4 + k);
    });
    // headers that are not valid end in an error, after what came before
    static const char* bad[] = { "size -1", "size x", "size 12x", "magic", "reference behind the table", "reference without a table", "nameless", "long table cut", "symbols cut", "header cut", "negative reference" };
    e.add("invalid", 11, [=](X& x, int t) {
        x.site("%s", bad[t]);
        std::string b = ar::magic() + ar::member("good/", "good", 1); size_t at = b.size();
        if (t <= 3) { b += ar::member("bad/", "0123456789", 1); if (t == 0) b.replace(at + 48, 4, "-1  "); if (t == 1) b.replace(at + 48, 2, "x "); if (t == 2) b.replace(at + 48, 3, "12x"); if (t == 3) b[at + 58] = 'x'; }
        if (t == 4) b += ar::member("//", "abc/\n", 0) + ar::member("/5", "x", 1);
        if (t == 5) b += ar::member("/0", "x", 1);
        if (t == 6) b += ar::member("", "x", 1);
        if (t == 7) b += ar::member("//", "abc/\n", 0, 100);
        if (t == 8) b += ar::member("/", "abc/\n", 0, 100);
        if (t == 9) b += ar::member("cut/", "", 0).substr(0, 59);
        if (t == 10) b += ar::member("//", "abc/\n", 0) + ar::member("/-1", "x", 1);
        Src src(&x, b.data(), b.size(), few[x.choose(nf, "source")]);
        ArInputStream z(&src);
        InputStream* s = z.nextEntry(); x.check(s && z.entryInfo().filename == "good", "good", "the good entry is missing");
        useEntry(x, s, "good", x.choose(USES, "use"));
        s = z.nextEntry();
        x.check(!s && z.status() == Error && z.error()[0], "accepted", "an invalid header gives %s status %s '%s'", s ? "an entry" : "no entry", stName(z.status()), z.error());
        x.check(!z.nextEntry() && z.status() == Error, "final", "the error is not final");
        x.state(t);
    });
    // a size of digits and then spaces, nothing else; a time that is none is 0
    e.add("numbers", 1000, [=](X& x, int t) {
        x.site("numbers"); static const char cs[] = "5 x-\0/+.\n0"; std::string f; for (int i = 0, v = t; i < 3; ++i, v /= 10) f += cs[v % 10]; int at = x.choose(3, "at") * 3 + 1, field = x.choose(2, "time"); std::string h = ar::member("n/", "0123456789abcdef", 5); 
        std::string num = std::string(at, '0') + f; num.resize(field ? 12 : 10, ' '); h.replace(field ? 16 : 48, num.size(), num);
        size_t i = 0; int64_t v = 0; for (; i < num.size() && num[i] >= '0' && num[i] <= '9'; ++i) v = v * 10 + num[i] - '0'; bool good = true; for (; i < num.size(); ++i) good = good && (num[i] == ' ' || !num[i]);
        std::string b = ar::magic() + ar::member("good/", "good", 1) + h.substr(0, 60); int64_t n = field ? 16 : v; std::string d = "0123456789abcdef"; d = comp::content(n <= 100 ? (int)n : 0, 1); if (n <= 100) { b += d; if (n % 2) b += '\n'; b += ar::member("next/", "", 2); } else if (good) return;
        Src src(&x, b.data(), b.size(), few[x.choose(nf, "source")]); ArInputStream z(&src); InputStream* s = z.nextEntry(); x.check(s, "good", "the good entry is missing"); s = z.nextEntry(); x.state(t);
        if (!good && !field) { x.check(!s && z.status() == Error && z.error()[0], "accepted", "a size of '%s' gives %s status %s", num.c_str(), s ? "an entry" : "no entry", stName(z.status())); return; }
        if (!good) { x.check(s && z.entryInfo().mtime == 0, "time", "a time of '%s' is %ld", num.c_str(), (long)z.entryInfo().mtime); return; }
        Ent en("n", d, field ? v : 5); x.check(s, "missing", "a number '%s' is not accepted: %s", num.c_str(), z.error()); checkInfo(x, &z, en, 1); useEntry(x, s, d, 1); s = z.nextEntry(); x.check(s && z.entryInfo().filename == "next", "next", "the next entry is missing");
    });
    // archives that end in a header
    e.add("cut-header", 61, [=](X& x, int t) {
        x.site("cut-header"); int odd = x.choose(2, "odd size"); std::string b = ar::magic() + ar::member("good/", odd ? "odds!" : "good", 1) + ar::member("cut/", "", 0).substr(0, t);
        Src src(&x, b.data(), b.size(), few[x.choose(nf, "source")]); ArInputStream z(&src); InputStream* s = z.nextEntry(); x.check(s && z.entryInfo().filename == "good", "good", "the good entry is missing"); useEntry(x, s, odd ? "odds!" : "good", x.choose(USES, "use"));
        s = z.nextEntry(); x.state(t);
        if (t == 60) { x.check(s && z.entryInfo().filename == "cut", "whole", "the whole header is not accepted"); return; }
        x.check(!s && z.status() == (t > 1 ? Error : Eof), "end", "%d bytes of a header: %s status %s", t, s ? "an entry" : "no entry", stName(z.status()));
    });
    return e.main(argc, argv);
}

// C18: no input makes a parser misbehave.
#include "ole.h"
#include "mailw.h"
#include <strigi/tarinputstream.h>
#include <strigi/zipinputstream.h>
#include <strigi/arinputstream.h>
#include <strigi/cpioinputstream.h>
#include <strigi/rpminputstream.h>
#include <strigi/oleinputstream.h>
#include <strigi/sdfinputstream.h>
#include <strigi/mailinputstream.h>
#include <strigi/gzipinputstream.h>
#include <strigi/bz2inputstream.h>
#include <strigi/lzmainputstream.h>
#include <strigi/substreamproviderprovider.h>
#include <sanitizer/allocator_interface.h>
using namespace mc;
using namespace Strigi;

static uint64_t hashOf(const std::string& s) { uint64_t h = 1469598103934665603ull; for (unsigned char c : s) h = (h ^ c) * 1099511628211ull; return h; }
static size_t biggest;
static void onMalloc(const volatile void*, size_t n) { if (n > biggest) biggest = n; }
static void onFree(const volatile void*) {}

typedef SubStreamProvider* (*Factory)(InputStream*);
typedef bool (*Check)(const char*, int32_t);
static SubStreamProvider* anyProvider(InputStream* i) { SubStreamProviderProvider p; return p.subStreamProvider(i); }
struct Format { const char* name; Factory f; Check check; std::vector<std::string> seeds; };
static std::vector<Format> formats;
static const char* wide[] = { "\xff\xff\xff\xff", "\x7f\xff\xff\xff", "\xff\xff\xff\x7f", "\x80\0\0\0", "\0\0\0\x80", "\0\0\0\0", "\x01\0\0\0", "\0\0\0\x01", "\xfe\xff\xff\xff", "\xff\xff\xff\xfe", "\0\0\1\0", "\0\1\0\0", "\x0f\xff\xff\xff", "\xff\xff\xff\x0f", "\x40\0\0\0", "\0\0\0\x40" };
static const char* texts[] = { "77777777777", "99999999999", "FFFFFFFF", "ffffffff", "7fffffff", "80000000", "-1 ", "-9999999999", "0x10", "           ", "/", "//", "/0", "/99", "$$$$", "--", "\r\n\r\n", ":", "=?utf-8?B?", "\"" };

// takes everything out of a provider, watching for what no input may cause
static void exercise(X& x, SubStreamProvider* p, size_t n, int use) {
    size_t entries = 0;
    for (;;) {
        InputStream* s = p->nextEntry();
        if (!s) break;
        x.op();
        x.check(p->currentEntry() == s, "current", "currentEntry() is not the entry that was returned");
        x.check(++entries <= n + 2, "endless", "more entries than bytes");
        int64_t size = s->size(), got = 0; const char* d; int32_t r = 0;
        x.check(size >= -1 && p->entryInfo().size >= -1, "negative-size", "an entry of size %ld", (long)size);
        if (use == 0) continue;
        if (use == 1) { s->skip(3); s->read(d, 1, 5); s->reset(0); continue; }
        for (;;) {
            int32_t mn = use == 2 ? 1 : 3, mx = use == 2 ? 0 : 4;
            r = s->read(d, mn, mx);
            if (r <= 0) break;
            x.check(mx == 0 || r <= mx, "more-than-max", "read gave more than allowed");
            unsigned sum = 0; for (int32_t i = 0; i < r; ++i) sum += (unsigned char)d[i]; x.obs(sum);
            got += r; x.check(got <= (64 << 20), "endless", "an entry does not end");
            x.check(s->position() == got, "position", "position %ld after %ld bytes", (long)s->position(), (long)got);
        }
        x.check(r != 0, "zero-read", "read returned 0");
        if (s->status() == Eof) {
            x.check(s->size() == got, "incomplete-eof", "an entry of size %ld ends after %ld bytes", (long)s->size(), (long)got);
            x.check(size < 0 || size == got, "incomplete-eof", "an entry of announced size %ld ends after %ld bytes", (long)size, (long)got);
        } else { x.check(s->status() == Error, "status", "status %s after the end", stName(s->status())); x.check(s->read(d, 1, 0) == -2, "error-final", "reading goes on after an error"); }
        x.obs(got);
    }
    StreamStatus st = p->status();
    x.check(st != Ok, "status", "no entry, but status Ok");
    x.check(st != Error || p->error()[0], "no-message", "error without a message");
    x.check(!p->nextEntry() && p->status() == st, "final", "the end is not final");
    x.obs(entries * 4 + st); x.state(hashOf(std::string(p->error())) * 31 + entries * 8 + st);
}
static void run(X& x, const Format& f, const std::string& b, const Policy& pol, int use, size_t limit) {
    biggest = 0;
    { std::vector<char> copy(b.begin(), b.end()); f.check(copy.data(), (int32_t)copy.size());
      Src src(&x, b.data(), b.size(), pol);
      std::unique_ptr<SubStreamProvider> p(f.f(&src));
      if (p) exercise(x, p.get(), b.size(), use); }
    x.check(biggest <= limit, "memory", "an input of %lu bytes makes the code allocate %lu bytes at once", b.size(), biggest);
}
static Ents none;
int main(int argc, char** argv) {
    Explorer e("C18");
    bool th = Explorer::thorough();
    __sanitizer_install_malloc_and_free_hooks(onMalloc, onFree);
    std::vector<Policy> few; few.push_back(Policy(CHUNK_ALL, true, true, true)); few.push_back(Policy(CHUNK_MIN, false, false, false)); few.push_back(Policy(CHUNK_ALL, false, true, false));
    int nf = (int)few.size();
    std::string L130(130, 'n');
    auto fmt = [&](const char* n, Factory f, Check c) -> Format& { formats.push_back(Format()); formats.back().name = n; formats.back().f = f; formats.back().check = c; return formats.back(); };
    { Format& f = fmt("tar", TarInputStream::factory, TarInputStream::checkHeader); f.seeds.push_back(tar::header("a", 5, 1, '0', tar::GNU) + tar::pad("hello") + tar::header("d/", 0, 1, '5', tar::USTAR, "pre") + tar::end()); f.seeds.push_back(tar::longname(L130) + tar::header(L130.substr(0, 99), 3, 1, '0', tar::GNU) + tar::pad("abc") + tar::header("b", 1, 1, '0', tar::OLD) + tar::pad("x") + tar::end(1)); }
    { Format& f = fmt("zip", ZipInputStream::factory, ZipInputStream::checkHeader); zip::Writer w; w.add(Ent("a", "stored", 1e9), zip::Opt(0)); w.add(Ent("b", "deflated deflated", 1e9), zip::Opt(8, 0, "UT\5\0\3abcd")); w.add(Ent("d", "", 1e9, EntryInfo::Dir), zip::Opt(0)); f.seeds.push_back(w.done()); zip::Writer v; v.add(Ent("a", "unknown size", 1e9), zip::Opt(8, 1)); v.add(Ent("b", "x", 1e9), zip::Opt(8, 2)); f.seeds.push_back(v.done("c")); }
    { Format& f = fmt("ar", ArInputStream::factory, ArInputStream::checkHeader); f.seeds.push_back(ar::magic() + ar::member("a.o/", "hello", 1) + ar::member("b", "12", 2)); f.seeds.push_back(ar::magic() + ar::member("/", "sym", 0) + ar::member("//", "long_name_of_a_member/\nother name/\n", 0) + ar::member("/0", "x", 1) + ar::member("/23", "yy", 1)); }
    std::string cp = cpio::member("./a", "hello", 1) + cpio::member("dir", "", 1, 040755) + cpio::member("b", "12", 1) + cpio::trailer();
    { Format& f = fmt("cpio", CpioInputStream::factory, CpioInputStream::checkHeader); f.seeds.push_back(cp); }
    { Format& f = fmt("rpm", RpmInputStream::factory, RpmInputStream::checkHeader); for (int k : { (int)comp::GZIP, (int)comp::BZ2, (int)comp::LZMA }) f.seeds.push_back(rpm::file(1, "1234567", 2, "name\0abc", k == comp::LZMA ? comp::lzmaAll(cp, false) : comp::compress(k, cp, 9))); }
    { Format& f = fmt("ole", OleInputStream::factory, OleInputStream::checkHeader); ole::Doc d; d.add("A", "small stream"); d.add("S", "", 1); d.add("B", comp::content(100, 1)); f.seeds.push_back(d.build()); ole::Doc l; l.order = 2; l.add("L", comp::content(4700, 1)); l.add("s", comp::content(200, 2)); f.seeds.push_back(l.build()); }
    { Format& f = fmt("sdf", SdfInputStream::factory, SdfInputStream::checkHeader); f.seeds.push_back("m\n p\n\n 36 39  0 V2000\nM  END\n$$$$\nn\n\n\n 1 V2000\n$$$$\n"); }
    { Format& f = fmt("mail", MailInputStream::factory, MailInputStream::checkHeader); std::string b; Ents es; mail::Part p; p.headers = "Subject: =?utf-8?B?w6k=?= =?iso-8859-1?q?=E9?=\nContent-Type: multipart/mixed; boundary=\"bb\"\n"; p.boundary = "bb"; p.preamble = "pre\n"; mail::Part k = mail::leaf("Content-Disposition: x; filename=\"a.txt\"\nContent-Transfer-Encoding: base64\n", "aGVsbG8="); p.kids.push_back(k);
        mail::Part m; m.headers = "Content-Type: multipart/x;\n boundary=in\n"; m.boundary = "in"; m.kids.push_back(mail::leaf("", "text")); p.kids.push_back(m); mail::text(p, b, es, true); f.seeds.push_back(b); f.seeds.push_back(mail::crlf(b)); f.seeds.push_back("From: a\n\nbody\n"); }
    size_t nonAny = formats.size();
    { Format& f = fmt("any", anyProvider, ZipInputStream::checkHeader); for (size_t i = 0; i < nonAny; ++i) for (auto& s : formats[i].seeds) if (s.size() < 1500) f.seeds.push_back(s); }
    struct SeedRef { int f, s; }; static std::vector<SeedRef> seeds;
    for (size_t f = 0; f < formats.size(); ++f) for (size_t s = 0; s < formats[f].seeds.size(); ++s) seeds.push_back({ (int)f, (int)s });
    int ns = (int)seeds.size();
    // the largest thing any of the formats needs for such small inputs: a document of unknown size is read in one go of 10 MB
    const size_t limit = 40 << 20;
    auto seed = [](int i) -> const std::string& { return formats[seeds[i].f].seeds[seeds[i].s]; };
    static std::vector<std::pair<int, int> > at;   // seed, block of 16 positions
    for (int i = 0; i < ns; ++i) for (size_t b = 0; b <= seed(i).size() / 16; ++b) at.push_back(std::make_pair(i, (int)b));
    int nat = (int)at.size();
    e.add("unchanged", ns, [=](X& x, int t) {
        x.site("%s", formats[seeds[t].f].name);
        run(x, formats[seeds[t].f], seed(t), few[x.choose(nf, "source")], x.choose(4, "use"), limit);
    });
    e.add("truncated", nat, [=](X& x, int t) {
        const Format& f = formats[seeds[at[t].first].f]; const std::string& s = seed(at[t].first); x.site("%s truncated", f.name);
        size_t n = at[t].second * 16 + x.choose(16, "offset"); if (n > s.size()) return;
        run(x, f, s.substr(0, n), few[x.choose(nf, "source")], x.choose(4, "use"), limit);
    });
    e.add("byte", nat, [=](X& x, int t) {
        const Format& f = formats[seeds[at[t].first].f]; std::string s = seed(at[t].first); x.site("%s byte", f.name);
        size_t n = at[t].second * 16 + x.choose(16, "offset"); if (n >= s.size()) return;
        static const int vals[] = { 0x00, 0xff, 0x80, 0x7f, 0x20, 0x2f, 0x30, 0x39, 0x0a }; int v = x.choose(th ? 256 : 13, "value");
        char c = th ? (char)v : v < 9 ? (char)vals[v] : v == 9 ? (char)(s[n] + 1) : v == 10 ? (char)(s[n] - 1) : v == 11 ? (char)(s[n] ^ 0x10) : (char)(s[n] ^ 0x80);
        if (c == s[n]) return; s[n] = c;
        int k = x.choose(3, "use and source");
        run(x, f, s, few[k], k == 0 ? 2 : k == 1 ? 0 : 3, limit);
    });
    e.add("field", nat, [=](X& x, int t) {
        const Format& f = formats[seeds[at[t].first].f]; std::string s = seed(at[t].first); x.site("%s field", f.name);
        size_t n = at[t].second * 16 + x.choose(16, "offset"); int v = x.choose(16 + 8 + 20, "value"); std::string w;
        if (v < 16) w.assign(wide[v], 4); else if (v < 24) w.assign(wide[v - 16], 2); else w = texts[v - 24];
        if (n + w.size() > s.size()) return; s.replace(n, w.size(), w);
        int k = x.choose(th ? 3 : 2, "use and source");
        run(x, f, s, few[k], k == 0 ? 2 : k == 1 ? 0 : 3, limit);
    });
    // pieces removed and repeated
    e.add("piece", nat, [=](X& x, int t) {
        const Format& f = formats[seeds[at[t].first].f]; std::string s = seed(at[t].first); x.site("%s piece", f.name);
        static const int lens[] = { 1, 2, 4, 16, 60, 64, 512 };
        size_t n = at[t].second * 16 + x.choose(16, "offset"); if (n >= s.size()) return; int l = lens[x.choose(7, "length")];
        if (n + l > s.size()) return; if (x.choose(2, "repeat")) s.insert(n, s.substr(n, l)); else s.erase(n, l);
        run(x, f, s, few[x.choose(2, "source")], 2 * x.choose(2, "use"), limit);
    });
    // OLE documents with chains of several blocks of each kind: every link of every chain leads anywhere
    static std::vector<std::string> docs; static std::vector<std::pair<int, int> > links;  // document, place of the link
    for (int o : { 0, 2, 5 }) { ole::Doc d; d.order = o; d.smallOrder = o == 2 ? 2 : 0; d.add("small", comp::content(4000, 1)); d.add("large", comp::content(4600, 2)); d.add("more", comp::content(4090, 3)); d.add("st", "", 1); for (int i = 0; i < 8; ++i) d.add(std::string(1, (char)('a' + i)), comp::content(30 + i, i)); d.items[d.items.size() - 1].name = "z"; d.add("end", comp::content(100, 1)); d.add("end2", comp::content(20, 1)); d.add("end3", comp::content(21, 1));
        docs.push_back(d.build()); int k = (int)docs.size() - 1; for (int i = 0; i < (int)docs[k].size() / 512 - 1; ++i) links.push_back(std::make_pair(k, 512 * (1 + d.fat[i / 128]) + i % 128 * 4)); for (size_t i = 0; i < d.minifat.size(); ++i) for (int j = 0; j < 128; j += o == 2 ? 1 : 5) links.push_back(std::make_pair(k, 512 * (1 + d.minifat[i]) + j * 4));
        for (int j = 0; j < 6; ++j) links.push_back(std::make_pair(k, 0x30 + 4 * j)); links.push_back(std::make_pair(k, 0x2c)); for (int j = 0; j < 4; ++j) links.push_back(std::make_pair(k, 0x4c + 4 * j)); for (size_t i = 0; i < d.dir.size(); ++i) for (int j = 0; j < 4; ++j) { links.push_back(std::make_pair(k, 512 * (1 + d.dir[i]) + 128 * j + 0x74)); links.push_back(std::make_pair(k, 512 * (1 + d.dir[i]) + 128 * j + 0x78)); } }
    e.add("ole-links", (int)links.size(), [=](X& x, int t) {
        x.site("ole link"); std::string s = docs[links[t].first]; int at = links[t].second, blocks = (int)s.size() / 512 - 1; static const uint32_t odd[] = { ~0u, ~0u - 1, ~0u - 2, ~0u - 3, ~0u - 4, 0x7fffffff, 0x80000000u, 0x007fffff, 0x01000000, 127, 128, 129, 4095, 4096, 4097, 65536 };
        int v = x.choose(blocks + 3 + 16, "value"); ole::Doc::put(s, at, v < blocks + 3 ? v : odd[v - blocks - 3]); int cut = x.choose(2, "cut"); if (cut) s.resize(s.size() - 512 + 130);
        for (auto& f : formats) if (!strcmp(f.name, "ole")) run(x, f, s, few[v % 2 ? 0 : 2], t % 2 ? 2 : 3, limit);
    });
    // and directory entries with names of any size, the last one at the very end of the document
    e.add("ole-names", 256, [=](X& x, int t) {
        x.site("ole name"); std::string s = docs[2]; size_t at = s.size() - 128 * (1 + x.choose(4, "entry")); s[at + 0x40] = (char)t; s[at + 0x41] = (char)x.choose(3, "high byte"); if (x.choose(2, "full name")) for (int i = 0; i < 64; i += 2) s[at + i] = 'n'; int w = x.choose(4, "wide"); if (w) s[at + 2 * w * 10 + 1] = 1; if (t % 16 == 0) s[at + 0x42] = (char)x.choose(8, "type");
        for (auto& f : formats) if (!strcmp(f.name, "ole")) run(x, f, s, few[0], 2, limit);
    });
    // the recognisers look at nothing but what they are given
    static const Check checks[] = { TarInputStream::checkHeader, ZipInputStream::checkHeader, ArInputStream::checkHeader, CpioInputStream::checkHeader, RpmInputStream::checkHeader, OleInputStream::checkHeader, SdfInputStream::checkHeader, MailInputStream::checkHeader, BZ2InputStream::checkHeader, LZMAInputStream::checkHeader, [](const char* d, int32_t n) { return GZipInputStream::checkHeader(d, n); } };
    e.add("headers", ns * 11, [=](X& x, int t) {
        x.site("header check %d", t / ns); const std::string& s = seed(t % ns); size_t n = std::min<size_t>(s.size(), 1100);
        int k = x.choose(3, "change");
        for (size_t i = 0; i <= n; ++i) { char* c = new char[i]; memcpy(c, s.data(), i); if (k && i) c[i - 1] = k == 1 ? 0 : (char)0xff; checks[t / ns](c, (int32_t)i); delete [] c; x.op(); }
        x.state(t);
    });
    // everything that is short: all inputs of up to two bytes, and up to six over the characters of the signatures
    e.add("short", 257, [=](X& x, int t) {
        x.site("short"); std::string s; if (t < 256) { s = (char)t; int c = x.choose(257, "second"); if (c < 256) s += (char)c; }
        size_t f = x.choose((int)nonAny + 1, "format"); run(x, formats[f], s, few[x.choose(nf, "source")], 2, limit);
    });
    if (th) e.add("two-fields", nat, [=](X& x, int t) {
        const Format& f = formats[seeds[at[t].first].f]; std::string s = seed(at[t].first); x.site("%s two fields", f.name); if (s.size() > 1400) return;
        size_t n = at[t].second * 16 + x.choose(16, "offset"), m = n + 1 + x.choose(40, "distance"); int v = x.choose(8, "value"), w = x.choose(8, "second value");
        if (m + 4 > s.size()) return; s.replace(n, 4, std::string(wide[v], 4)); s.replace(m, m - n >= 4 ? 4 : 1, std::string(wide[w], m - n >= 4 ? 4 : 1));
        run(x, f, s, few[0], 2, limit);
    });
    return e.main(argc, argv);
}

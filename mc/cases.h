// cases.h - an archive of every format, archives in archives, and archives read through
// every kind of stream
#ifndef MC_CASES_H
#define MC_CASES_H
#include "ole.h"
#include "mailw.h"
#include <strigi/tarinputstream.h>
#include <strigi/zipinputstream.h>
#include <strigi/arinputstream.h>
#include <strigi/cpioinputstream.h>
#include <strigi/rpminputstream.h>
#include <strigi/oleinputstream.h>
#include <strigi/sdfinputstream.h>
#include <strigi/mailinputstream.h>
#include <strigi/gzipinputstream.h>
#include <strigi/bz2inputstream.h>
#include <strigi/lzmainputstream.h>
#include <strigi/subinputstream.h>
#include <strigi/dataeventinputstream.h>
#include <strigi/encodinginputstream.h>
#include <strigi/stringterminatedsubstream.h>
#include "skippingbufferedstream.h"
#include "base64inputstream.h"
using namespace Strigi;
namespace mc {

typedef SubStreamProvider* (*Factory)(InputStream*);
typedef InputStream* (*Wrap)(InputStream*);
struct Nothing : DataEventHandler { bool handleData(const char*, uint32_t) { return true; } void handleEnd() {} } nothing;
struct Wrapper { const char* name; Wrap wrap; std::string (*encode)(const std::string&); bool seek; };
static std::string same(const std::string& s) { return s; }
static const Wrapper wrappers[] = {
    { "plain", 0, same, true },
    { "gzip", [](InputStream* i) -> InputStream* { return new GZipInputStream(i); }, [](const std::string& s) { return comp::compress(comp::GZIP, s); }, false },
    { "zlib", [](InputStream* i) -> InputStream* { return new GZipInputStream(i, GZipInputStream::ZLIBFORMAT); }, [](const std::string& s) { return comp::compress(comp::ZLIB, s); }, false },
    { "bz2", [](InputStream* i) -> InputStream* { return new BZ2InputStream(i); }, [](const std::string& s) { return comp::compress(comp::BZ2, s, 9); }, false },
    { "lzma", [](InputStream* i) -> InputStream* { return new LZMAInputStream(i); }, [](const std::string& s) { return comp::lzmaAll(s, true); }, false },
    { "lzma without size", [](InputStream* i) -> InputStream* { return new LZMAInputStream(i); }, [](const std::string& s) { return comp::lzmaAll(s, false); }, false },
    { "part", [](InputStream* i) -> InputStream* { return new SubInputStream(i); }, same, true },
    { "events", [](InputStream* i) -> InputStream* { return new DataEventInputStream(i, nothing); }, same, true },
    { "encoding", [](InputStream* i) -> InputStream* { return new EncodingInputStream(i, "ISO-8859-1", "ISO-8859-1"); }, same, false },
    { "base64", [](InputStream* i) -> InputStream* { return new Base64InputStream(i); }, [](const std::string& s) { return mail::b64(s, "\n"); }, false },
    { "gzip in gzip", [](InputStream* i) -> InputStream* { struct Two : GZipInputStream { InputStream* in; Two(InputStream* i) : GZipInputStream(i), in(i) {} ~Two() { delete in; } }; return new Two(new GZipInputStream(i)); }, [](const std::string& s) { return comp::compress(comp::GZIP, comp::compress(comp::GZIP, s)); }, false },
};
static const int NW = sizeof wrappers / sizeof *wrappers;

struct Case { std::string what; Factory f; std::string bytes; Ents ents; std::vector<std::pair<size_t, size_t> > complete;    // prefixes that are archives themselves, and their entries
    int innerAt; int inner;     // an entry that is an archive itself
    int wrap; bool mail;
    Case() : innerAt(-1), inner(-1), wrap(0), mail(false) {} };
static std::vector<Case> cases;
static Case& start(const char* what, Factory f) { cases.push_back(Case()); cases.back().what = what; cases.back().f = f; return cases.back(); }

// exactEnd: leave out what has no mark for its end
// returns how many of them are not nested
static int buildCases(bool exactEnd) {
    std::string L130(130, 'n'), d600 = comp::content(600, 1), d1200 = comp::content(1200, 2);
    { Case& c = start("tar", TarInputStream::factory); Ents& es = c.ents;
      es.push_back(Ent("a", "hello", 1)); c.bytes += tar::header("a", 5, 1, '0', tar::GNU) + tar::pad("hello");
      es.push_back(Ent(L130, d600, 1)); c.bytes += tar::longname(L130) + tar::header(L130.substr(0, 99), 600, 1, '0', tar::GNU) + tar::pad(d600);
      es.push_back(Ent("d", "", 1)); c.bytes += tar::header("d/", 0, 1, '5', tar::USTAR);
      es.push_back(Ent("e", std::string(512, 'e'), 1)); c.bytes += tar::header("e", 512, 1, '0', tar::USTAR) + std::string(512, 'e') + tar::end(); }
    { Case& c = start("zip", ZipInputStream::factory); zip::Writer w;
      c.ents.push_back(Ent("a", "stored data", 1e9)); w.add(c.ents.back(), zip::Opt(0));
      c.ents.push_back(Ent("b", d600, 1e9)); w.add(c.ents.back(), zip::Opt(8));
      c.ents.push_back(Ent("d", "", 1e9, EntryInfo::Dir)); w.add(c.ents.back(), zip::Opt(0, 0, "UT\5\0\3abcd"));
      c.ents.push_back(Ent("u", d1200, 1e9)); w.add(c.ents.back(), zip::Opt(8, 1)); c.ents.back().size = -1;
      c.ents.push_back(Ent("v", "x", 1e9)); w.add(c.ents.back(), zip::Opt(8, 2)); c.ents.back().size = -1;
      c.ents.push_back(Ent("w", "last", 1e9)); w.add(c.ents.back(), zip::Opt(8, 3));
      c.bytes = w.done("comment"); }
    { Case& c = start("ar", ArInputStream::factory); std::string& b = c.bytes; b = ar::magic(); auto& k = c.complete;
      auto border = [&](int pad) { for (int i = 0; i <= 1; ++i) k.push_back(std::make_pair(b.size() + i, c.ents.size())); if (pad) k.push_back(std::make_pair(b.size() - 1, c.ents.size())); };
      border(0); b += ar::member("/", "symbols", 0); border(1); b += ar::member("//", "long_name_of_a_member/\nother long name/\n", 0); border(0);
      c.ents.push_back(Ent("a.o", "hello", 1)); b += ar::member("a.o/", "hello", 1); border(1);
      c.ents.push_back(Ent("long_name_of_a_member", d600, 1)); b += ar::member("/0", d600, 1); border(0);
      c.ents.push_back(Ent("other long name", "odd", 1)); b += ar::member("/23", "odd", 1); border(1);
      c.ents.push_back(Ent("e", "", 1)); b += ar::member("e", "", 1); border(0); c.ents.push_back(Ent("b", "12", 1)); b += ar::member("b", "12", 1); }
    std::string cp;
    Ents ce; ce.push_back(Ent("a", "hello", 1)); ce.push_back(Ent("dir", "", 1, EntryInfo::Dir)); ce.push_back(Ent("b", d600, 1)); ce.push_back(Ent("c", "123", 1));
    cp = cpio::member("./a", "hello", 1) + cpio::member("dir", "", 1, 040755) + cpio::member("b", d600, 1) + cpio::member("c", "123", 1) + cpio::trailer();
    { Case& c = start("cpio", CpioInputStream::factory); c.bytes = cp + std::string(100, 0); c.ents = ce; }
    for (int k : { (int)comp::GZIP, (int)comp::BZ2, (int)comp::LZMA }) { Case& c = start(k == comp::GZIP ? "rpm with gzip" : k == comp::BZ2 ? "rpm with bz2" : "rpm with lzma", RpmInputStream::factory);
      c.ents = ce; c.bytes = rpm::file(3, "1234567", 5, "name\0abc" + d600, k == comp::LZMA ? comp::lzmaAll(cp, false) : comp::compress(k, cp, 9)); }
    for (int o = 0; o < 3; ++o) { Case& c = start("ole", OleInputStream::factory); ole::Doc d; d.order = d.smallOrder = o; d.add("A", "small stream"); d.add("S", "", 1); d.add("L", comp::content(4700, 1)); d.add("B", comp::content(100, 1)); c.bytes = d.build(); c.ents = d.ents();
      if (o == 0) { ole::Doc e; e.add("small", comp::content(1000, 1)); e.add("other", "x"); Case& k = start("small ole", OleInputStream::factory); k.bytes = e.build(); k.ents = e.ents(); } }
    { Case& c = start("sdf", SdfInputStream::factory); std::string head = "m\n p\n\n 36 39  0 V2000\n"; const char* names[] = { "M  END\n", "M  END\n> <X>\n$$\n\n", "" };
      for (int i = 0; i < 3; ++i) { std::string m = head + names[i]; char n[20]; snprintf(n, 20, "Molecule%d", i + 1); c.ents.push_back(Ent(n, m, 0));
        if (i == 0) for (size_t k = 0; k < m.size() + 4; ++k) c.complete.push_back(std::make_pair(k, 0));   // a file with a single molecule has no entries
        c.bytes += m + "$$$$\n"; c.complete.push_back(std::make_pair(c.bytes.size(), i + 1)); c.complete.push_back(std::make_pair(c.bytes.size() - 1, i + 1)); } }
    { Case& c = start("mail", MailInputStream::factory); c.mail = true; mail::Part p; p.headers = "Subject: s\nContent-Type: multipart/mixed; boundary=\"bb\"\n"; p.boundary = "bb"; p.preamble = "pre\n";
      mail::Part k = mail::leaf("Content-Disposition: x; filename=\"a.txt\"\nContent-Transfer-Encoding: base64\n", mail::b64(d600, "\n"), "a.txt"); k.data = d600; p.kids.push_back(k);
      mail::Part m; m.headers = "Content-Type: multipart/x;\n boundary=in\n"; m.boundary = "in"; m.kids.push_back(mail::leaf("Content-Type: text/plain\n", "text")); m.kids.push_back(mail::leaf("X: y\n", "more\ntext")); p.kids.push_back(m); p.epilogue = "after\n"; mail::text(p, c.bytes, c.ents, true); for (auto& q : c.ents) if (q.name != "a.txt") q.data += "\n"; }
    { Case& c = start("plain mail", MailInputStream::factory); c.mail = true; c.bytes = "From: a\nTo: b\nSubject: c\n\nbody\nof the mail\n"; Ent b("body", "body\nof the mail\n", 0); b.size = -1; c.ents.push_back(b); }
    int plain = (int)cases.size();
    // archives in archives
    auto nest = [&](const char* what, int outer, int inner) {
        Case c; c.what = what; c.inner = inner; const std::string& in = cases[inner].bytes; c.innerAt = 1; c.ents.push_back(Ent("x", "first", 1)); c.ents.push_back(Ent("in", in, 1)); c.ents.push_back(Ent("y", "last", 1));
        switch (outer) {
        case 0: c.f = TarInputStream::factory; for (auto& q : c.ents) c.bytes += tar::header(q.name, q.data.size(), 1, '0', tar::GNU) + tar::pad(q.data); c.bytes += tar::end(); break;
        case 1: case 2: case 3: { c.f = ZipInputStream::factory; zip::Writer w; for (auto& q : c.ents) { q.mtime = 1e9; w.add(q, zip::Opt(outer == 1 ? 0 : 8, outer == 3 && q.name == "in" ? 1 : 0)); if (outer == 3 && q.name == "in") q.size = -1; } c.bytes = w.done(); break; }
        case 4: c.f = ArInputStream::factory; c.bytes = ar::magic(); for (size_t i = 0; i < 3; ++i) { const Ent& q = c.ents[i]; for (int j = 0; j < 2; ++j) c.complete.push_back(std::make_pair(c.bytes.size() + j, i)); c.bytes += ar::member(q.name + "/", q.data, 1); if (q.data.size() % 2) c.complete.push_back(std::make_pair(c.bytes.size() - 1, i + 1)); } break;
        case 5: c.f = CpioInputStream::factory; for (auto& q : c.ents) c.bytes += cpio::member(q.name, q.data, 1); c.bytes += cpio::trailer(); break;
        default: { c.f = MailInputStream::factory; c.mail = true; mail::Part p; p.headers = "Subject: s\nContent-Type: multipart/mixed; boundary=\"bb\"\n"; p.boundary = "bb"; 
            for (auto& q : c.ents) { mail::Part k = mail::leaf("Content-Disposition: x; filename=\"" + q.name + "\"\nContent-Transfer-Encoding: base64\n", mail::b64(q.data, "\n"), q.name); k.data = q.data; p.kids.push_back(k); } c.ents.clear(); mail::text(p, c.bytes, c.ents, true); }
        }
        cases.push_back(c);
    };
    auto find = [&](const char* w) { for (size_t i = 0; i < cases.size(); ++i) if (cases[i].what == w) return (int)i; abort(); };
    nest("zip in tar", 0, find("zip")); nest("tar in stored zip", 1, find("tar")); nest("tar in deflated zip", 2, find("tar")); nest("tar in deflated zip of unknown size", 3, find("tar"));
    nest("cpio in ar", 4, find("cpio")); nest("small ole in cpio", 5, find("small ole")); nest("rpm in tar", 0, find("rpm with gzip")); nest("zip in mail", 6, find("zip")); nest("tar in mail", 6, find("tar"));
    nest("zip in tar in zip", 2, find("zip in tar")); nest("ole in zip in tar", 0, (nest("small ole in zip", 2, find("small ole")), find("small ole in zip")));
    // archives read through other streams
    for (const char* w : { "tar", "zip", "cpio", "ar", "sdf", "small ole" }) for (int k = 1; k < NW; ++k) {
        Case c = cases[find(w)]; if (!wrappers[k].seek && !strcmp(w, "small ole")) continue;
        if (!strcmp(wrappers[k].name, "lzma") && c.bytes.size() <= 4096) continue;      // smaller than the dictionary: not taken for lzma
        if (exactEnd && !strcmp(wrappers[k].name, "base64") && !c.complete.empty()) continue;      // base64 has no mark for its end
        c.what += std::string(" through ") + wrappers[k].name; c.wrap = k; c.bytes = wrappers[k].encode(c.bytes);
        if (wrappers[k].encode != same) c.complete.clear();
        cases.push_back(c);
    }
    return plain;
}
} // namespace mc
#endif

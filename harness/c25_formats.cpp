// C25: formats are recognised by their content, whatever the source does.
#include "cases.h"
#include <strigi/archivereader.h>
#include <strigi/substreamproviderprovider.h>
using namespace mc;
using namespace Strigi;

typedef bool (*Check)(const char*, int32_t);
// a format with a signature: bytes that have to be there, and how much of the file has to be seen
struct Sig { const char* name; Check check; std::string head; size_t from, n; int needed; const char* free; };   // free: positions within the signature where other values may be accepted
static std::string S(const char* s, size_t n) { return std::string(s, n); }
// the documented form of a mail: lines with a name, ':' and a value, folded lines, an empty line, a body, all in ASCII
static bool mailText(const std::string& s) {
    for (unsigned char c : s) if (c >= 128) return false;
    size_t p = 0;
    for (bool first = true;; first = false) {
        if (p >= s.size()) return true;
        bool folded = !first && (s[p] == ' ' || s[p] == '\t');
        if (!folded) {
            if (!first && s[p] == '\r') return p + 1 >= s.size() || s[p + 1] == '\n';       // the empty line; the rest is the body
            for (; p < s.size() && s[p] != ':'; ++p) if (s[p] <= 32 || s[p] == 127) return false;
            if (p >= s.size()) return true;
        }
        size_t q = s.find("\r\n", p); if (q == std::string::npos) return true;
        p = q + 2;
    }
}
// which provider
static const char* kind(SubStreamProvider* p) {
    if (!p) return "none";
    if (dynamic_cast<ZipInputStream*>(p)) return "zip"; if (dynamic_cast<SdfInputStream*>(p)) return "sdf"; if (dynamic_cast<MailInputStream*>(p)) return "mail";
    if (dynamic_cast<TarInputStream*>(p)) return "tar"; if (dynamic_cast<ArInputStream*>(p)) return "ar"; if (dynamic_cast<RpmInputStream*>(p)) return "rpm"; if (dynamic_cast<CpioInputStream*>(p)) return "cpio"; if (dynamic_cast<OleInputStream*>(p)) return "ole";
    return "another";
}
struct File { std::string what, kind, bytes; std::vector<std::string> names; bool any; File() : any(false) {} };   // any: for the archive reader only
static std::vector<File> files;
static File& file(const std::string& what, const char* k, const std::string& b) { files.push_back(File()); File& f = files.back(); f.what = what; f.kind = k; f.bytes = b; return f; }
struct One : StreamOpener {
    X* x; const std::string& b; Policy p; One(X* x_, const std::string& b_, const Policy& p_) : x(x_), b(b_), p(p_) {}
    InputStream* openStream(const std::string& u) { return u == "f" ? new Src(x, b.data(), b.size(), p) : 0; }
    int stat(const std::string& u, EntryInfo& e) { if (u != "f") return -1; e = EntryInfo(); e.filename = "f"; e.size = b.size(); e.type = EntryInfo::File; e.mtime = 1; return 0; }
};

int main(int argc, char** argv) {
    Explorer e("C25");
    bool th = Explorer::thorough();
    std::vector<Policy> pol = policies(), few = policiesFew(); int np = (int)pol.size(), nf = (int)few.size();
    // ---------------------------------------------------------------- signatures
    static std::vector<Sig> sigs;
    std::string d = comp::content(600, 1);
    auto sig = [&](const char* n, Check c, const std::string& head, size_t from, size_t len, int needed, const char* fr = "") { Sig s = { n, c, head.substr(0, 48), from, len, needed, fr }; sigs.push_back(s); };
    sig("gzip", GZipInputStream::checkHeader, comp::compress(comp::GZIP, d), 0, 2, 3);
    sig("bz2", BZ2InputStream::checkHeader, comp::compress(comp::BZ2, d, 9), 0, 10, 10, "\2\3");
    sig("empty bz2", BZ2InputStream::checkHeader, comp::compress(comp::BZ2, "", 9), 0, 10, 10, "\2\3");
    { zip::Writer w; w.add(Ent("a", "x", 1e9), zip::Opt(0)); sig("zip", ZipInputStream::checkHeader, w.done(), 0, 4, 9); }
    sig("ar", ArInputStream::checkHeader, ar::magic() + ar::member("a/", "x", 1), 0, 8, 8);
    sig("cpio", CpioInputStream::checkHeader, cpio::member("a", "x", 1), 0, 6, 6);
    sig("rpm", RpmInputStream::checkHeader, rpm::file(1, "1234567", 5, "name", ""), 0, 6, 6);
    { ole::Doc o; o.add("A", "x"); sig("ole", OleInputStream::checkHeader, o.build(), 0, 8, 9); }
    e.add("signatures", (int)sigs.size() * 49, [=](X& x, int t) {
        const Sig& s = sigs[t / 49]; int n = t % 49; if (n > (int)s.head.size()) return; x.site("%s", s.name);
        char* b = (char*)malloc(n ? n : 1); memcpy(b, s.head.data(), n); bool r = s.check(b, n); free(b); x.op();
        if (n < (int)(s.from + s.n)) x.check(!r, "too-short", "%d bytes are taken for a file of this kind", n);
        if (n >= std::max(s.needed, (int)(s.from + s.n))) x.check(r, "not-recognised", "not recognised from %d bytes", n);
        x.state(t);
    });
    e.add("signature bytes", (int)sigs.size() * 12, [=](X& x, int t) {
        const Sig& s = sigs[t / 12]; size_t i = t % 12; if (i >= s.head.size()) return; x.site("%s", s.name); std::string b = s.head.substr(0, 24);
        int v = x.choose(256, "value"); b[i] = (char)v; bool r = s.check(b.data(), (int)b.size()), in = i >= s.from && i < s.from + s.n && b[i] != s.head[i]; x.op();
        for (const char* f = s.free; *f && in; ++f) if (*f == (int)i) return;
        if (in) x.check(!r, "wrong-signature", "recognised with %02x as byte %lu of the signature", v, i); else x.check(r, "not-recognised", "not recognised with %02x as byte %lu, which does not belong to the signature", v, i);
        x.state(t);
    });
    // two streams of the tar kind: what every field may have at its end
    e.add("tar fields", 512, [=](X& x, int t) {
        static const std::string u = tar::header("a/b", 5, 1, '0', tar::USTAR), g = tar::header("a/b", 5, 1, '0', tar::GNU), o = tar::header("a/b", 5, 1, '0', tar::OLD);
        const std::string& h = *(x.choose(3, "variant") == 0 ? &u : x.choose(2, "variant") ? &g : &o); std::string b = h; int v = x.choose(256, "value"); bool same = b[t] == (char)v; b[t] = (char)v;
        size_t n = x.choose(2, "all") ? b.size() : 257; char* m = (char*)malloc(n); memcpy(m, b.data(), n); bool r = TarInputStream::checkHeader(m, (int)n); free(m); x.op(); x.site("tar");
        if (same || t >= 257) { x.check(r, "not-recognised", "a header is not recognised"); }
        else if (t >= 4 && t < 100) x.check(!r, "name", "something after the end of the name (byte %d)", t);
        else if (v == 0 || v == ' ' || (v >= '0' && v <= '7')) { static const int ends[] = { 107, 115, 123, 135, 147, 256 }; bool end = false; for (int k : ends) end |= t == k; if (!end && t > 100) x.check(r, "not-recognised", "a header is not recognised with %02x as byte %d", v, t); }
        else for (int k : { 107, 115, 123, 147, 256 }) if (t == k) x.check(!r, "field", "field with the end %02x (byte %d)", v, t);
        x.state(t);
    });
    e.add("short tar", 258, [=](X& x, int t) { std::string b = tar::header("a", 5, 1, '0', x.choose(2, "variant") ? tar::GNU : tar::USTAR); if (x.choose(2, "zeroes")) b.assign(512, 0); char* m = (char*)malloc(t + 1); memcpy(m, b.data(), t); bool r = TarInputStream::checkHeader(m, t); free(m); x.op(); if (t < 257 || !b[0]) x.check(!r, "too-short", "%d bytes are taken for a tar header", t); x.state(t); });
    // ---------------------------------------------------------------- mails
    static const char al[] = { 'a', ':', ' ', '\r', '\n', '\t', '\x80', '\x01', '\x7f' }; const int A = sizeof al; const int L = th ? 8 : 7;
    e.add("mail", A * A * A, [=](X& x, int t) {
        x.site("mail"); for (int more = 0; more <= L - 3; ++more) {
            int c = 1; for (int i = 0; i < more; ++i) c *= A;
            for (int k = 0; k < c; ++k) { std::string s; int v = t; for (int i = 0; i < 3; ++i) { s += al[v % A]; v /= A; } v = k; for (int i = 0; i < more; ++i) { s += al[v % A]; v /= A; }
                char* m = (char*)malloc(s.size()); memcpy(m, s.data(), s.size()); bool r = MailInputStream::checkHeader(m, (int)s.size()); free(m); x.op();
                if (r != mailText(s)) x.fail("mail", "'%s' is%s taken for a mail", printable(s.data(), s.size()).c_str(), r ? "" : " not"); }
            x.state(mix(t, more)); }
    }, false);
    // ---------------------------------------------------------------- choice of the format
    buildCases(false);
    static const char* first[] = { "a", "a:b", "From: x", "CHEBI:15377", "Subject:", "PK", "]", "V2000", "#!", "\xc3\xa4:", "a b: c", "x:y/z:w", "$$$$" };
    static const char* content[] = { "hello", "From: a\r\nTo: b\r\n\r\ntext", "", "a\nb\nc\n V2000\nM  END\n", "\x1f" };
    for (const char* n : first) for (const char* c : content) { Ent en(n, c, 1e9); std::string w = std::string(" with '") + n + "' first";
        for (int v = 0; v < 3; ++v) { File& f = file("tar" + w, "tar", tar::header(n, strlen(c), 1, '0', v == 0 ? tar::GNU : v == 1 ? tar::USTAR : tar::OLD) + tar::pad(c) + tar::header("second", 1, 1, '0', tar::GNU) + tar::pad("2") + tar::end()); f.names.push_back(n); f.names.push_back("second"); f.any = true; }
        { zip::Writer z; z.add(en, zip::Opt(0)); z.add(Ent("second", "2", 1e9), zip::Opt(8)); File& f = file("zip" + w, "zip", z.done()); f.names.push_back(n); f.names.push_back("second"); }
        if (!strchr(n, '/') && !strchr(n, ' ')) { File& f = file("ar" + w, "ar", ar::magic() + ar::member(std::string(n) + "/", c, 1) + ar::member("second/", "2", 1)); f.names.push_back(n); f.names.push_back("second"); f.any = true; } }
    for (const char* n : first) if (strcmp(n, "$$$$")) for (const char* nl : { "\n", "\r\n", "\r" }) { std::string N = nl, m = n + N + "  prog" + N + N + " 36 39  0 V2000" + N + "M  END" + N + "$$$$" + N; File& f = file(std::string("sdf with '") + n + "' first", "sdf", m + m); f.names.push_back("Molecule1"); f.names.push_back("Molecule2"); }
    for (int l : { 0, 1, 60, 75, 80, 81 }) for (int v : { 1, 30, 75, 76 }) for (const char* nl : { "\n", "\r\n", "\r" }) { std::string N = nl, w(l, 'n'), m = w + N + w + N + w + N + std::string(v, ' ') + "V2000" + N + "M  END" + N + "$$$$" + N; char what[60]; snprintf(what, 60, "sdf with lines of %d and %d", l, v); bool ok = l < 81 && v < 76; File& f = file(what, ok ? "sdf" : "none", m + m); if (ok) { f.names.push_back("Molecule1"); f.names.push_back("Molecule2"); } }
    for (const char* n : { "Subject: V2000", "Subject: Re: V2000 files", "X-V2000: a" }) for (int kb : { 0, 1, 3, 100 }) { File& f = file(std::string("mail with '") + n + "' in the fourth line", "mail", std::string("From: a\nTo: b\nX: c\n") + n + "\nContent-Type: multipart/mixed; boundary=\"bb\"\n\n--bb\nContent-Type: text/plain\n\nhello" + std::string(kb * 1000, 'x') + "\n--bb--\n"); f.names.push_back("1"); f.any = true; }
    { mail::Part p; p.headers = "Content-Type: multipart/mixed; boundary=\"bb\"\n"; File& f = file("mail", "mail", p.headers + "\n--bb\nContent-Type: text/plain\n\nhello\n--bb\nContent-Disposition: x; filename=\"a.txt\"\n\nmore\n--bb--\n"); f.names.push_back("1"); f.names.push_back("a.txt"); }
    for (const char* s : { "", "a", "todo", "hello world\n", "hello, world: text\n", "\n", "a\nb\nc\nV2000\n", "a\nb\nc\n V2000\nM  END\n", "BZh9", "BZ", "PK", "PK\3\4", "!<arch>", "070701", "From\n", " a: b\n", "Bj\xc3\xb6rn: x\n", "\x1f\x8b", "\x1f\x8b\x08", "]" }) { File& f = file(std::string("'") + printable(s, strlen(s)) + "'", "none", s); f.any = true; }
    for (size_t n : { 1, 2, 16, 255, 256, 257, 512, 1023, 1024, 1025, 2000 }) { char w[40]; snprintf(w, 40, "%lu zero bytes", n); file(w, "none", std::string(n, 0)); snprintf(w, 40, "%lu bytes of noise", n); std::string z; for (size_t i = 0; i < n; ++i) z += (char)(128 + (i * 37) % 128); file(w, "none", z); snprintf(w, 40, "%lu bytes of text", n); z = ""; while (z.size() < n) z += "some words and "; file(w, "none", z.substr(0, n)).any = true; }
    int nfi = (int)files.size();
    // from any position of a stream
    e.add("provider of a stream", nfi * np, [=](X& x, int t) {
        const File& f = files[t / np]; Policy p = pol[t % np]; x.site("%s", f.what.c_str()); if (f.any && f.kind == "mail") return;
        static const int offs[] = { 0, 1, 5, 3000 }; int off = offs[x.choose(4, "offset")]; std::string b = std::string(off, 'j') + f.bytes; bool fail = x.choose(2, "failing"); if (fail) { if (off > 5) return; p.errorAt = off + x.choose(3, "place of the error") * (f.bytes.size() / 3); }
        Src s(&x, b.data(), b.size(), p); if (off) { s.skip(off); if (x.choose(2, "something before")) { const char* c; s.reset(off - 1); if (s.position() == off - 1) s.read(c, 1, 1); } } if (s.position() != off || s.status() == Error) return;
        SubStreamProviderProvider pp; std::unique_ptr<SubStreamProvider> q(pp.subStreamProvider(&s)); std::string k = kind(q.get()); x.op(); x.note("%s at %d, source %s: %s", f.what.c_str(), off, p.str().c_str(), k.c_str());
        if (fail) { if (!q.get()) return; size_t i = 0; bool err = false; while (InputStream* en = q->nextEntry()) { if (++i > f.names.size() + 1) x.fail("extra", "more entries than there are"); std::string out; if (!slurp(x, en, out)) err = true; } x.check(err || q->status() == Error, "error-as-end", "the listing of a failing stream ends with %s", stName(q->status())); return; }
        bool known = f.kind == "zip" || f.kind == "sdf" || f.kind == "mail";
        if (known) { x.check(k == f.kind, "wrong-format", "is taken for %s", k.c_str()); for (auto& n : f.names) { x.check(q->nextEntry() != 0, "missing", "entry '%s' is missing: %s", n.c_str(), q->error()); x.check(q->entryInfo().filename == n, "name", "entry '%s' instead of '%s'", q->entryInfo().filename.c_str(), n.c_str()); } x.check(!q->nextEntry() && q->status() == Eof, "end", "status %s after the last entry: %s", stName(q->status()), q->error()); }
        else { if (!f.any) x.check(!q.get(), "wrong-format", "is taken for %s", k.c_str()); if (!q.get()) { x.check(s.position() == off, "position", "the position is %ld after nothing was recognised", (long)s.position()); std::string out; x.check(slurp(x, &s, out) && out == f.bytes, "content", "the stream does not go on with its content"); } }
        x.state(mix(t, off));
    });
    int nc = (int)cases.size();
    e.add("listing from any position", nc * np, [=](X& x, int t) {
        const Case& c = cases[t / np]; Policy p = pol[t % np]; if (c.wrap) return; x.site("%s", c.what.c_str()); if (c.what.find("ole") != std::string::npos && c.what.find(" in ") == std::string::npos) p.sizeKnown = true;
        static const int offs[] = { 0, 1, 511, 512, 513, 5000 }; int off = offs[x.choose(6, "offset")]; std::string b = std::string(off, 'j') + c.bytes; Src s(&x, b.data(), b.size(), p); s.skip(off); x.note("%s at %d, source %s", c.what.c_str(), off, p.str().c_str());
        std::unique_ptr<SubStreamProvider> q(c.f(&s)); int u = x.choose(3, "use");
        for (size_t i = 0; i < c.ents.size(); ++i) { InputStream* en = q->nextEntry(); x.op(); x.check(en, "missing", "entry %lu is missing at offset %d: %s", i, off, q->error()); x.check(q->entryInfo().filename == c.ents[i].name && q->entryInfo().size == c.ents[i].size, "entry", "entry %lu is '%s' of size %ld", i, q->entryInfo().filename.c_str(), (long)q->entryInfo().size); useEntry(x, en, c.ents[i].data, u == 2 ? i % 2 : u); }
        x.check(!q->nextEntry() && q->status() == Eof, "end", "status %s after the last entry: %s", stName(q->status()), q->error()); x.state(mix(t, off));
    });
    // through the archive reader, also packed
    e.add("archive reader", nfi * NW, [=](X& x, int t) {
        const File& f = files[t / NW]; const Wrapper& w = wrappers[t % NW]; x.site("%s", f.what.c_str()); int mode = w.encode == same ? 0 : 1; if (t % NW && !mode) return;
        if (strcmp(w.name, "zlib") == 0 || strcmp(w.name, "base64") == 0 || (!strcmp(w.name, "lzma") && f.bytes.size() <= 4096)) return;
        std::string b = w.encode(f.bytes); Policy p = few[x.choose(nf, "source")]; bool twice = x.choose(2, "in a tar"); if (twice) b = tar::header("in", b.size(), 1, '0', tar::GNU) + tar::pad(b) + tar::end();
        if (f.what.find("fourth line") != std::string::npos && (!p.seek || mode || twice) && f.bytes.size() > 400) return;      // what is recognised last has to go back to the start
        if (!p.seek && f.kind == "mail" && f.bytes.size() > 400) return;
        One o(&x, b, p); ArchiveReader r; r.addStreamOpener(&o); std::string u = twice ? "f/in" : "f"; x.note("%s, %s, source %s", f.what.c_str(), w.name, p.str().c_str());
        ArchiveReader::DirLister l = r.dirEntries(u); EntryInfo i; std::set<std::string> want(f.names.begin(), f.names.end()), got; if (want.count("x:y/z:w")) { want.erase("x:y/z:w"); want.insert("x:y"); }
        while (l.nextEntry(i)) { x.op(); x.check(want.count(i.filename) && got.insert(i.filename).second, "extra", "%s (%s): shows '%s'", u.c_str(), w.name, printable(i.filename.data(), i.filename.size()).c_str()); }
        for (auto& n : want) x.check(got.count(n), "missing", "%s (%s): does not show '%s'", u.c_str(), w.name, n.c_str());
        x.state(mix(t, twice)); x.obs(got.size());
    });
    return e.main(argc, argv);
}

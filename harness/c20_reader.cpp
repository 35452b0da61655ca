// C20: an archive reader shows the files inside of archives as a tree, whatever was asked before.
#include "mailw.h"
#include <strigi/archivereader.h>
#include <strigi/fileinputstream.h>
using namespace mc;
using namespace Strigi;

// ------------------------------------------------------------------ what is in the archives
enum Pack { NONE, TAR, TGZ, TBZ, TLZ, ZIPS, ZIPD, AR, MAIL, SDF, RPM, GZ2, PACKS };
static const char* packName[] = { "file", "tar", "tar.gz", "tar.bz2", "tar.lzma", "zip", "zip with unknown sizes", "ar", "mail", "sdf", "rpm", "tar.bz2.gz" };
struct It {
    std::string name, data; int64_t mtime; int type; int pack; std::vector<It> kids;
    It(const std::string& n, const std::string& d, int64_t m = 1000, int t = EntryInfo::File) : name(n), data(d), mtime(1000000000 + m), type(t), pack(NONE) {}
    It(const std::string& n, int p, const std::vector<It>& k, int64_t m = 2000) : name(n), mtime(1000000000 + m), type(EntryInfo::File), pack(p), kids(k) {}
};
static bool knowsTime(int p) { return p != MAIL && p != SDF; }
static std::string pack(It& it) {
    if (it.pack == NONE) return it.data;
    std::vector<std::string> d; for (auto& k : it.kids) d.push_back(pack(k));
    std::string b; int p = it.pack;
    if (p == TAR || p == TGZ || p == TBZ || p == TLZ || p == GZ2) {
        for (size_t i = 0; i < d.size(); ++i) {
            It& k = it.kids[i]; std::string n = k.name; bool dir = k.type == EntryInfo::Dir;
            if (n.size() > 99) b += tar::longname(n);
            b += tar::header(n, d[i].size(), k.mtime, dir ? '5' : '0', tar::GNU) + tar::pad(d[i]);
        }
        b += tar::end();
        if (p == TGZ) b = comp::compress(comp::GZIP, b, 9);
        if (p == TBZ || p == GZ2) b = comp::compress(comp::BZ2, b, 9);
        if (p == GZ2) b = comp::compress(comp::GZIP, b, 9);
        if (p == TLZ) b = comp::lzmaAll(b, false);
    } else if (p == ZIPS || p == ZIPD) {
        zip::Writer w; for (size_t i = 0; i < d.size(); ++i) { Ent e(it.kids[i].name, d[i], it.kids[i].mtime, it.kids[i].type); w.add(e, zip::Opt(p == ZIPD ? 8 : 0, p == ZIPD && it.kids[i].type == EntryInfo::File)); }
        b = w.done();
    } else if (p == AR) { b = ar::magic(); for (size_t i = 0; i < d.size(); ++i) b += ar::member(it.kids[i].name + "/", d[i], it.kids[i].mtime); }
    else if (p == MAIL) {
        b = "From: me@x\nSubject: parts\nContent-Type: multipart/mixed;\n\tboundary=\"XX\"\n\nmany parts\n\n";
        for (size_t i = 0; i < d.size(); ++i) b += "--XX\nContent-Disposition: attachment; filename=\"" + it.kids[i].name + "\"\nContent-Transfer-Encoding: base64\n\n" + mail::b64(d[i], "\n") + "\n";
        b += "--XX--\n";
    } else if (p == SDF) for (size_t i = 0; i < d.size(); ++i) b += d[i] + "$$$$\n";
    else if (p == RPM) { std::string c; for (size_t i = 0; i < d.size(); ++i) c += cpio::member(it.kids[i].name, d[i], it.kids[i].mtime, it.kids[i].type == EntryInfo::Dir ? 0040755 : 0100644); c += cpio::trailer(); b = rpm::file(2, "12345678", 2, "12345678", comp::compress(comp::GZIP, c, 9)); }
    it.data = b;
    return b;
}
struct Node;
typedef std::map<std::string, std::shared_ptr<Node> > Kids;
struct Node { std::string name, data; int64_t size, mtime; int type; Kids kids; bool late = false; };    // late: a directory that comes after things inside of it
typedef std::shared_ptr<Node> NodeP;
static NodeP node(const It& it, bool timeKnown);
static void addKids(Node* n, const It& it) {
    for (auto& k : it.kids) {
        NodeP c = node(k, knowsTime(it.pack));
        Node* at = n; size_t p = 0, q; const std::string& s = k.name;
        for (; (q = s.find('/', p)) != std::string::npos; p = q + 1) {
            NodeP& d = at->kids[s.substr(p, q - p)];
            if (!d) { d.reset(new Node()); d->name = s.substr(p, q - p); d->size = 0; d->mtime = 0; d->type = EntryInfo::Dir; }
            at = d.get(); if (at->type & EntryInfo::File) break;                            // what is below a file can only be reached through that file
        }
        if (at != n && at->type & EntryInfo::File) continue;
        c->name = s.substr(p);
        NodeP& o = at->kids[c->name]; if (o && o->type & EntryInfo::File) continue;         // of two files with one name the first is shown
        if (o) { for (auto& k : o->kids) c->kids[k.first] = k.second; c->late = true; }
        o = c;
    }
}
static NodeP node(const It& it, bool timeKnown) {
    NodeP n(new Node()); n->name = it.name; n->data = it.data; n->size = it.data.size(); n->mtime = timeKnown ? it.mtime : 0; n->type = it.type;
    if (it.pack != NONE && it.kids.size()) { n->type |= EntryInfo::Dir; addKids(n.get(), it); }
    return n;
}
static NodeP tree(It it) { pack(it); return node(it, true); }
static void urls(const NodeP& n, const std::string& url, std::vector<std::pair<std::string, NodeP> >& out) { out.push_back(std::make_pair(url, n)); for (auto& k : n->kids) urls(k.second, url + "/" + k.first, out); }

// ------------------------------------------------------------------ a file system
struct FSrc : Src { std::shared_ptr<int> n; FSrc(X* x, const NodeP& d, const Policy& p, std::shared_ptr<int> c) : Src(x, d->data.data(), d->data.size(), p), n(c) { ++*n; } ~FSrc() { --*n; } };
struct FS : StreamOpener {
    X& x; Policy pol; std::map<std::string, NodeP> files; std::shared_ptr<int> open; int opened;
    FS(X& x_, const Policy& p) : x(x_), pol(p), open(new int(0)), opened(0) {}
    InputStream* openStream(const std::string& url) { auto i = files.find(url); if (i == files.end() || !(i->second->type & EntryInfo::File)) return 0; ++opened; return new FSrc(&x, i->second, pol, open); }
    int stat(const std::string& url, EntryInfo& e) {
        auto i = files.find(url); if (i == files.end()) return -1;
        e = EntryInfo(); e.filename = i->second->name; e.size = i->second->size; e.mtime = i->second->mtime; e.type = i->second->type & EntryInfo::File ? EntryInfo::File : EntryInfo::Dir; return 0;
    }
};
static const char* pr(const std::string& s) { static std::string b[4]; static int k; k = (k + 1) % 4; b[k] = printable(s.data(), s.size(), 200); return b[k].c_str(); }
static void same(X& x, const EntryInfo& e, const Node& n, const char* who, const std::string& url) {
    x.check(e.filename == n.name, "name", "%s(%s) shows the name '%s', should be '%s'", who, pr(url), pr(e.filename), pr(n.name));
    x.check(e.type == n.type, "type", "%s(%s) shows '%s' with type %d, should be %d", who, pr(url), pr(n.name), e.type, n.type);
    x.check(e.size == n.size, "size", "%s(%s) shows '%s' with size %ld, should be %ld", who, pr(url), pr(n.name), (long)e.size, (long)n.size);
    x.check(e.mtime == n.mtime || (n.late && e.mtime == 0), "mtime", "%s(%s) shows '%s' with time %ld, should be %ld", who, pr(url), pr(n.name), (long)e.mtime, (long)n.mtime);
}
struct Lister {         // a listing together with what it must still show
    ArchiveReader::DirLister l; Kids left; std::string url; bool over;
    Lister(const ArchiveReader::DirLister& d, const NodeP& n, const std::string& u) : l(d), url(u), over(false) { if (n) left = n->kids; }
    bool next(X& x) {
        x.op(); EntryInfo e; bool r = l.nextEntry(e);
        x.note("next of %s: %s '%s'", url.c_str(), r ? "entry" : "end", r ? e.filename.c_str() : "");
        if (!r) { x.check(left.empty(), "missing-entry", "the listing of %s ends without '%s'", pr(url), left.empty() ? "" : pr(left.begin()->first)); over = true; return false; }
        x.check(!over, "not-final", "the listing of %s goes on after its end", pr(url));
        auto i = left.find(e.filename);
        x.check(i != left.end(), "extra-entry", "the listing of %s shows '%s'", pr(url), pr(e.filename));
        same(x, e, *i->second, "dirEntries", url); left.erase(i);
        return true;
    }
};
static void listAll(X& x, ArchiveReader& r, const std::string& url, const NodeP& n) { Lister l(r.dirEntries(url), n, url); while (l.next(x)) {} l.next(x); }
static void statOne(X& x, ArchiveReader& r, const std::string& url, const NodeP& n) {
    x.op(); EntryInfo e; int k = r.stat(url, e); x.note("stat(%s) = %d", url.c_str(), k);
    if (!n) { x.check(k != 0, "phantom", "stat(%s) finds something, '%s'", pr(url), pr(e.filename)); return; }
    x.check(k == 0, "stat", "stat(%s) finds nothing", pr(url)); same(x, e, *n, "stat", url);
}
static void openOne(X& x, ArchiveReader& r, const std::string& url, const NodeP& n, int use) {
    x.op(); InputStream* s = r.openStream(url); x.note("openStream(%s) = %s", url.c_str(), s ? "stream" : "null");
    if (!n || !(n->type & EntryInfo::File)) { x.check(!s, "phantom-stream", "openStream(%s) gives a stream", pr(url)); return; }
    x.check(s, "open", "openStream(%s) gives no stream", pr(url));
    useEntry(x, s, n->data, use); r.closeStream(s);
}
static void canOne(X& x, ArchiveReader& r, const std::string& url, const NodeP& n, const NodeP& file, bool root) {
    x.op(); bool can = r.canHandle(url), is = r.isArchive(url), arch = file && file->type == (EntryInfo::File | EntryInfo::Dir); x.note("canHandle(%s) = %d isArchive = %d", url.c_str(), can, is);
    x.check(can == arch, "canHandle", "canHandle(%s) is %d", pr(url), can);
    x.check(is == (root && arch), "isArchive", "isArchive(%s) is %d", pr(url), is);
}
static void checkOne(X& x, ArchiveReader& r, int how, const std::string& url, const NodeP& n, const NodeP& file, bool root) {
    switch (how) {
    case 0: statOne(x, r, url, n); break;
    case 1: openOne(x, r, url, n, 1); break;
    case 2: listAll(x, r, url, n && (n->type & EntryInfo::Dir) ? n : NodeP()); break;
    case 3: canOne(x, r, url, n, file, root); break;
    }
}
static void recursive(X& x, ArchiveReader& r, const std::string& url, const NodeP& n, int order) {
    Lister l(r.dirEntries(url), n, url);
    auto each = [&](const NodeP& k) { std::string u = url + "/" + k->name; if (order != 1) statOne(x, r, u, k); if (k->type & EntryInfo::Dir) recursive(x, r, u, k, order); openOne(x, r, u, k, 1); };
    std::set<std::string> before; for (auto& k : l.left) before.insert(k.first);
    for (;;) { bool more = l.next(x); for (auto& s : before) if (!l.left.count(s)) { each(n->kids[s]); before.erase(s); break; } if (!more) break; }
}

int main(int argc, char** argv) {
    Explorer e("C20");
    bool th = Explorer::thorough();
    std::vector<Policy> pol = policies(), few = policiesFew();
    int nf = (int)few.size();
    const int D = EntryInfo::Dir;
    static std::vector<std::pair<std::string, NodeP> > arcs;
    auto arc = [&](const std::string& what, int p, const std::vector<It>& k) { arcs.push_back(std::make_pair(what + " in " + packName[p], tree(It("file", p, k, 500)))); };
    std::string big = comp::content(3000, 2), mol = "mol\n  x\n\n  0  0  0  0  0  0  0  0  0  0999 V2000\nM  END\n";
    std::vector<It> flat = { It("aa", "first"), It("a", "second\n"), It("aab", big), It("b", "") };
    for (int p = TAR; p < PACKS; ++p) { if (p == SDF) arc("molecules", p, { It("Molecule1", mol), It("Molecule2", mol + ">x\n") }); else arc("flat", p, flat); }
    for (int p : { TAR, TGZ, ZIPS, ZIPD, RPM }) {
        arc("directories", p, { It("d", "", 600, D), It("d/x", "1"), It("d/xx", "22"), It("d/e", "", 700, D), It("d/e/x", "333"), It("dd", "no directory") });
        arc("implied directories", p, { It("d/e/f/g", "deep"), It("d/e/f/gg", "deeper"), It("d/x", "x"), It("dx", "dx"), It("q/d/e", "other") });
        arc("directories at the end", p, { It("d/e/x", "1"), It("d/y", "2"), It("d/e", "", 800, D), It("d", "", 900, D), It("d/z", "3") });
    }
    arc("strange names", TAR, { It("x/./f", "dot"), It("x/../g", "dots"), It("a//b", "double"), It(" ", "space"), It("new\nline", "nl"), It("\xc3\xa4", "umlaut"), It(std::string(150, 'n') + "/x", "long"), It("a.b.c", "dots") });
    auto nest = [&](const std::string& what, int outer, const std::vector<It>& k) { arc(what, outer, k); };
    for (int o : { TAR, TGZ, ZIPS, ZIPD, AR, MAIL, RPM }) for (int i = TAR; i < PACKS; ++i)
        nest(std::string("nested ") + packName[i], o, { It("n", "a prefix of the archive's name"), i == SDF ? It("n.x", SDF, { It("Molecule1", mol), It("Molecule2", mol) }) : It("n.x", i, { It("ab", "12"), It("a", "1"), It("c", big) }), It("n.x.y", "and the reverse"), It("z", "last") });
    for (int p : { TAR, TGZ, ZIPS, ZIPD, RPM }) arc("duplicates", p, { It("x", "first"), It("y", "yy"), It("x", "the second", 3), It("d/x", "3"), It("d/y", "4"), It("d/x", "second in d", 5), It("y", "", 6) });
    for (int p : { TGZ, ZIPD, AR, MAIL, RPM }) arc("long entries", p, { It("k", comp::content(40000, 2)), It("l", comp::content(33000, 1)), It("m", comp::content(70000, 2)), It("n", "short") });
    nest("duplicate archives", TAR, { It("n", TGZ, { It("i", "1"), It("j", "22") }), It("o", "o"), It("n", ZIPD, { It("i", "333"), It("k", "4") }), It("d/n", TAR, { It("i", "5") }), It("d/n", "no archive"), It("z", "no archive"), It("z", TAR, { It("i", "6") }) });
    nest("entries below files", TAR, { It("p", "plain"), It("p/x", "1"), It("n", TGZ, { It("i", "1"), It("j/k", "22") }), It("n/i", "other"), It("n/y/z", "none"), It("m/i", "one"), It("m/o", "two"), It("q", "last") });
    nest("archives side by side", TAR, { It("1", TGZ, { It("x", "1") }), It("2", ZIPD, { It("y", "2"), It("d/z", "22") }), It("3", AR, { It("w", "3") }), It("d/4", TAR, { It("e/5", TAR, { It("f/6", "deep") }) }) });
    nest("only archives, three deep", TGZ, { It("1", TAR, { It("2", ZIPS, { It("3", "x") }) }), It("4", ZIPD, { It("5", TBZ, { It("6", "y"), It("7", "z") }) }) });
    nest("below itself", TAR, { It("x", TAR, { It("x", TAR, { It("x", TAR, { It("x", "x") }) }) }), It("xx", TAR, { It("x", "other") }) });
    { It d("bottom", "found"); for (int i = 0; i < 14; ++i) d = It("t", i % 3 ? TAR : TGZ, { It("before", "b"), d, It("after", "a") }); nest("fifteen deep", TAR, { d }); }
    nest("empty things", TAR, { It("nothing", ""), It("d", "", 5, D), It("gz", comp::compress(comp::GZIP, "", 9)), It("gzipped text", comp::compress(comp::GZIP, "just some text\n", 9)), It("end", "x") });
    int na = (int)arcs.size();
    // everything about an archive, in several orders, by every kind of opener
    e.add("trees", na * 8, [=](X& x, int t) {
        auto& a = arcs[t % na]; x.site("%s", a.first.c_str()); const Policy& p = t / na < 8 && th ? pol[x.choose((int)pol.size(), "source")] : few[x.choose(nf, "source")];
        x.note("%s, source %s", a.first.c_str(), p.str().c_str());
        FS fs(x, p); fs.files["p/q"].reset(new Node()); fs.files["p/q"]->type = D; fs.files["p/q/file"] = a.second;
        std::vector<std::pair<std::string, NodeP> > all; urls(a.second, "p/q/file", all); int mode = t / na;
        { ArchiveReader r; r.addStreamOpener(&fs);
        if (mode < 4) { for (auto& u : all) checkOne(x, r, mode, u.first, u.second, a.second, u.second == a.second); std::reverse(all.begin(), all.end()); }
        else if (mode == 4) listAll(x, r, all[0].first, a.second);
        else if (mode == 5) { std::reverse(all.begin(), all.end()); for (auto& u : all) { listAll(x, r, u.first, u.second); statOne(x, r, u.first, u.second); } }
        else recursive(x, r, "p/q/file", a.second, mode - 6);
        for (int k = 0; k < 2; ++k) for (int how = 0; how < 4; ++how) for (auto& u : all) checkOne(x, r, how, u.first, u.second, a.second, u.second == a.second);
        }
        x.check(*fs.open == 0, "open-left", "%d streams stay open", *fs.open); x.state(t);
    });
    // what is not there is not found: names near to those that are
    e.add("absent", na, [=](X& x, int t) {
        auto& a = arcs[t]; x.site("%s", a.first.c_str());
        FS fs(x, few[x.choose(nf, "source")]); fs.files["file"] = a.second;
        std::vector<std::pair<std::string, NodeP> > all; urls(a.second, "file", all); std::set<std::string> there, missing; for (auto& u : all) there.insert(u.first);
        int v = x.choose(6, "kind of name");
        for (auto& u : all) { const std::string& s = u.first; std::string par = s.substr(0, s.rfind('/'));
            std::string m = v == 0 ? s + "x" : v == 1 ? s + "/x" : v == 2 ? s.substr(0, s.size() - 1) : v == 3 ? s + "/" + u.second->name : v == 4 ? par + "/none/" + u.second->name : s.substr(0, s.rfind('/') + 1) + "a" + u.second->name;
            if (!there.count(m) && m.compare(0, 5, "file/") == 0 && m[m.size() - 1] != '/') missing.insert(m); }
        { ArchiveReader r; r.addStreamOpener(&fs); int first = x.choose(4, "first");
        if (first == 3) listAll(x, r, "file", a.second);
        for (auto& m : missing) for (int k = 0; k < 3; ++k) checkOne(x, r, (first + k) % 3, m, NodeP(), a.second, false);
        for (auto& u : all) statOne(x, r, u.first, u.second);
        for (auto& m : missing) { statOne(x, r, m, NodeP()); openOne(x, r, m, NodeP(), 0); listAll(x, r, m, NodeP()); }
        listAll(x, r, "file", a.second); }
        x.check(*fs.open == 0, "open-left", "%d streams stay open", *fs.open); x.state(t * 8 + v);
    });
    // any use of streams, several open at the same time
    e.add("streams", na, [=](X& x, int t) {
        auto& a = arcs[t]; x.site("%s", a.first.c_str());
        FS fs(x, few[x.choose(3, "source")]); fs.files["file"] = a.second;
        std::vector<std::pair<std::string, NodeP> > all, f; urls(a.second, "file", all); for (auto& u : all) if (u.second->type & EntryInfo::File && u.first != "file") f.push_back(u);
        int i = x.choose((int)f.size(), "one"), j = x.choose((int)std::min<size_t>(f.size(), 4), "other"), u = x.choose(4, "use"); bool close = x.choose(2, "close");
        { ArchiveReader r; r.addStreamOpener(&fs);
          InputStream* s = r.openStream(f[i].first); x.check(s, "open", "no stream for %s", pr(f[i].first));
          Contract<char> c(x, s, f[i].second->data.data(), f[i].second->data.size(), false); if (u & 1) c.read(1, 2);
          InputStream* s2 = r.openStream(f[j].first); x.check(s2, "open", "no stream for %s", pr(f[j].first));
          Contract<char> c2(x, s2, f[j].second->data.data(), f[j].second->data.size(), false);
          c2.read(1, 3); c.read(2, 2); if (u & 2) { if (close) { r.closeStream(s2); s2 = 0; } c.drain(1, 0); if (s2) c2.drain(2, 5); } else { c2.drain(1, 0); if (close) { r.closeStream(s); s = 0; } else c.drain(3, 4); }
          statOne(x, r, f[j].first, f[j].second);
          if (close) { if (s) r.closeStream(s); if (s2) r.closeStream(s2); }
        }
        x.check(*fs.open == 0, "open-left", "%d streams stay open", *fs.open); x.state((t * 64 + i) * 4 + j);
    });
    // histories of operations, also with a file that changes
    static NodeP ver[3], plain = tree(It("t", NONE, {}, 50)), empty(new Node());
    plain->data = "plain text\n"; plain->size = 11; plain->type = EntryInfo::File;
    ver[0] = tree(It("a", TAR, { It("f", "1"), It("d/g", "22"), It("n", TGZ, { It("h", "333"), It("i", "4") }), It("ff", "5") }, 100));
    ver[1] = tree(It("a", ZIPD, { It("n", TAR, { It("i", "44"), It("j/k", "6") }), It("f", "11"), It("new", "7") }, 200));
    ver[2] = tree(It("a", NONE, {}, 200));   // the same time, another size
    ver[2]->data = "not an archive any more\n"; ver[2]->size = ver[2]->data.size(); ver[2]->type = EntryInfo::File;
    enum Kind { LIST, NEXT, COPY, ASSIGN, DROP, STAT, OPEN, READ, CLOSE, CAN, CHANGE, KILL };
    struct Act { int k; const char* u; int n; };
    auto history = [=](X& x, const std::vector<Act>& acts, int first, int second, int depth, const Policy& p, bool brief) {
        FS fs(x, p); int v = 0; fs.files["a"] = ver[0]; fs.files["t"] = plain;
        std::unique_ptr<ArchiveReader> r(new ArchiveReader()); r->addStreamOpener(&fs);
        std::vector<std::unique_ptr<Lister> > ls; struct Open { ArchiveReader* r; InputStream* s; std::unique_ptr<Contract<char> > c; NodeP n; ~Open() { r->closeStream(s); } }; std::vector<std::unique_ptr<Open> > os;
        auto find = [&](const std::string& u) -> NodeP { if (u == "t") return plain; if (u == "a") return fs.files.count("a") ? ver[v] : NodeP(); if (u[0] != 'a' || !fs.files.count("a")) return NodeP(); NodeP n = ver[v]; size_t q = 1; while (n && q != std::string::npos) { size_t z = u.find('/', q + 1); std::string s = u.substr(q + 1, z == std::string::npos ? z : z - q - 1); n = n->kids.count(s) ? n->kids[s] : NodeP(); q = z; } return n; };
        bool readerGone = false; uint64_t h = 0;
        for (int d = 0; d < depth; ++d) {
            int k = d == 0 ? first : d == 1 && second >= 0 ? second : x.choose((int)acts.size(), "operation"); const Act& a = acts[k]; h = mix(h, k);
            std::string u = a.u ? a.u : "";
            if (readerGone && a.k != NEXT && a.k != COPY && a.k != ASSIGN && a.k != DROP) return;
            switch (a.k) {
            case LIST: if (ls.size() < 4) { x.note("dirEntries(%s)", a.u); ls.emplace_back(new Lister(r->dirEntries(u), find(u), u)); } else return; break;
            case NEXT: if (a.n >= (int)ls.size()) return; ls[a.n]->next(x); break;
            case COPY: if (a.n >= (int)ls.size() || ls.size() >= 4) return; x.note("copy"); ls.emplace_back(new Lister(*ls[a.n])); break;
            case ASSIGN: if (ls.size() < 2) return; { Lister &to = *ls[a.n == 1], &from = *ls[a.n == 0]; x.note("assign"); to.l = from.l; if (&to != &from) { to.left = from.left; to.url = from.url; to.over = from.over; } } break;
            case DROP: if (a.n >= (int)ls.size()) return; x.note("drop"); ls.erase(ls.begin() + a.n); break;
            case STAT: statOne(x, *r, u, find(u)); break;
            case OPEN: { if (os.size() >= 2) return; NodeP n = find(u); InputStream* s = r->openStream(u); x.note("openStream(%s) = %s", a.u, s ? "stream" : "null"); bool is = n && n->type & EntryInfo::File; x.check(!!s == is, "open", "openStream(%s) gives %s", a.u, s ? "a stream" : "nothing"); if (s) { os.emplace_back(new Open()); os.back()->s = s; os.back()->r = r.get(); os.back()->n = n; os.back()->c.reset(new Contract<char>(x, s, n->data.data(), n->data.size(), false)); } } break;
            case READ: if (a.n >= (int)os.size()) return; os[a.n]->c->read(1, 2); break;
            case CLOSE: if (a.n >= (int)os.size()) return; os.erase(os.begin() + a.n); break;
            case CAN: canOne(x, *r, u, find(u), u[0] == 't' ? plain : find("a"), u == "a" || u == "t"); break;
            case CHANGE: x.note("change"); if (a.n == 0) { v = (v + 1) % 3; fs.files["a"] = ver[v]; } else if (fs.files.count("a")) fs.files.erase("a"); else fs.files["a"] = ver[v]; break;
            case KILL: os.clear(); x.note("the reader is destroyed"); r.reset(); readerGone = true; break;
            }
            uint64_t st = v; for (auto& l : ls) st = mix(st, hashBytes(l->url.data(), l->url.size(), l->left.size() * 2 + l->over)); for (auto& o : os) st = mix(st, o->c->pos); x.state(mix(st, *fs.open * 4 + readerGone * 2 + fs.files.count("a")));
        }
        // all that is still there is finished, in one of several orders
        int fin = x.choose(3, "ending");
        if (fin == 1) { for (auto& o : os) o->c->drain(1, 0); os.clear(); r.reset(); }
        for (auto& l : ls) { for (int g = 0; g < 20 && l->next(x); ++g) {} x.check(l->over, "endless", "the listing of %s does not end", pr(l->url)); if (r && !l->left.empty()) return; }
        if (r) { std::vector<std::pair<std::string, NodeP> > all; if (fs.files.count("a")) { if (brief) all.push_back(std::make_pair(std::string("a"), ver[v])); else urls(ver[v], "a", all); for (int how = 0; how < 3; ++how) for (auto& w : all) checkOne(x, *r, how, w.first, w.second, ver[v], w.first == "a"); } else for (int how = 0; how < 4; ++how) checkOne(x, *r, how, "a", NodeP(), NodeP(), true); }
        for (auto& o : os) o->c->drain(2, 3); os.clear();
        if (fin == 2) { r.reset(); ls.clear(); } else { ls.clear(); r.reset(); }
        x.check(*fs.open == 0, "open-left", "%d streams stay open", *fs.open); x.obs(h);
    };
    std::vector<Act> full = { {LIST, "a", 0}, {LIST, "a/d", 0}, {LIST, "a/n", 0}, {LIST, "a/none", 0}, {LIST, "t", 0}, {NEXT, 0, 0}, {NEXT, 0, 1}, {COPY, 0, 0}, {ASSIGN, 0, 0}, {ASSIGN, 0, 1}, {ASSIGN, 0, 2}, {DROP, 0, 0},
        {STAT, "a", 0}, {STAT, "a/f", 0}, {STAT, "a/n/i", 0}, {STAT, "a/none", 0}, {OPEN, "a/ff", 0}, {OPEN, "a/n/i", 0}, {OPEN, "a/d", 0}, {OPEN, "a", 0}, {READ, 0, 0}, {CLOSE, 0, 0}, {CAN, "a", 0}, {CAN, "a/n/i", 0}, {CAN, "t", 0}, {CHANGE, 0, 0}, {CHANGE, 0, 1}, {KILL, 0, 0} };
    e.add("histories", (int)full.size() * 2, [=](X& x, int t) { x.site("histories"); history(x, full, t % full.size(), -1, th ? 5 : 3, t / full.size() ? Policy(CHUNK_MIN, false, false, false) : few[0], false); });
    std::vector<Act> lists = { {LIST, "a", 0}, {LIST, "a/n", 0}, {NEXT, 0, 0}, {NEXT, 0, 1}, {COPY, 0, 0}, {ASSIGN, 0, 0}, {ASSIGN, 0, 1}, {DROP, 0, 0}, {STAT, "a", 0}, {CHANGE, 0, 0}, {KILL, 0, 0} };
    int nl = (int)lists.size();
    e.add("listers", nl * nl, [=](X& x, int t) { x.site("listers"); history(x, lists, t / nl, t % nl, th ? 7 : 5, few[0], true); });
    // archives inside of archives without end: every block is the header of an archive that has the rest as its only entry
    static const int levels[] = { 1, 2, 3, 9, 10, 11, 12, 30, 31, 32, 33, 34, 35, 63, 64, 65, 100, 127, 128, 129, 300, 1000, 5000, 20000 }; int nv = sizeof levels / sizeof *levels;
    e.add("bottomless", nv * 4, [=](X& x, int t) {
        x.site("bottomless"); int n = levels[t % nv]; if (n > 5000 && t / nv) return; NodeP f(new Node()); f->name = "f"; f->type = EntryInfo::File; f->mtime = 1;
        for (int i = 0; i < n; ++i) f->data += tar::header("t", 512 * (n - i), 7, '0', tar::GNU);
        f->data += std::string(1024, 0); f->size = f->data.size();
        FS fs(x, few[n > 5000 ? 0 : x.choose(nf > 3 ? 3 : nf, "source")]); fs.files["f"] = f;
        { ArchiveReader r; r.addStreamOpener(&fs); std::string u = "f"; EntryInfo e;
        switch (t / nv) {
        case 0: for (int i = 0; i < 12 && i < n; ++i) { ArchiveReader::DirLister l = r.dirEntries(u); x.check(l.nextEntry(e) && e.filename == "t", "level", "nothing at level %d of %d", i, n); x.check(e.size == 512 * (n - i), "level-size", "size %ld at level %d", (long)e.size, i); x.check(!l.nextEntry(e), "level-extra", "more than one entry at level %d", i); u += "/t"; x.op(); } break;
        case 1: x.check(r.canHandle("f/t/t") && r.isArchive("f") && !r.isArchive("f/t"), "handle", "the archive is not recognised"); break;
        case 2: for (int i = 0; i < 12 && i < n; ++i) { u += "/t"; x.op(); InputStream* s = r.openStream(u); x.check(s && s->size() == 512 * (n - i), "open", "no stream at level %d of %d", i, n); const char* c; int32_t m = s->read(c, 512, 512); x.check(m == 512 && (i == n - 1 || *c == 't'), "content", "wrong content at level %d", i); r.closeStream(s); } break;
        case 3: for (int i = 0; i < 12 && i < n; ++i) { u += "/t"; x.op(); x.check(r.stat(u, e) == 0 && e.size == 512 * (n - i), "stat", "level %d of %d is not found", i, n); x.check(r.stat(u + "x", e) != 0, "phantom", "something is found at level %d", i); } break;
        } }
        x.check(*fs.open == 0, "open-left", "%d streams stay open", *fs.open); x.state(t);
    });
    // damaged archives: what is listed is found
    static std::vector<int> hurt; for (int i = 0; i < na; ++i) { const std::string& w = arcs[i].first; if (w.find("directories in") == 0 || w.find("side by side") != std::string::npos || w.find("only archives") == 0 || w.find("below itself") == 0 || w.find("flat in mail") == 0 || w.find("flat in ar") == 0 || w.find("nested") == 0) hurt.push_back(i); }
    e.add("damaged", (int)hurt.size() * 16, [=](X& x, int t) {
        auto& a = arcs[hurt[t / 16]]; x.site("damaged: %s", a.first.c_str());
        NodeP f(new Node(*a.second)); std::string& b = f->data; size_t n = b.size(), steps = th ? 512 : 64, per = steps / 16;
        size_t at = n * (t % 16 * per + x.choose((int)per, "place")) / steps; int what = x.choose(4, "damage");
        if (what == 0) b.resize(at); else if (what == 1) b[at] ^= 1; else if (what == 2) b[at] = (char)0xff; else b.erase(at, 1);
        f->size = b.size();
        FS fs(x, few[0]); fs.files["f"] = f; int budget = 400, how = x.choose(2, "order");
        { ArchiveReader r; r.addStreamOpener(&fs); EntryInfo e0; if (how) r.stat("f/none/none", e0);
        std::function<void(const std::string&, int)> rec = [&](const std::string& u, int depth) {
            ArchiveReader::DirLister l = r.dirEntries(u); EntryInfo e, s;
            while (l.nextEntry(e) && --budget > 0) { x.op(); std::string w = u + "/" + e.filename;
                x.check(e.filename.find('/') == std::string::npos, "name", "the listing of %s shows '%s'", pr(u), pr(e.filename));
                x.check(r.stat(w, s) == 0, "stat", "'%s' is listed but not found", pr(w));
                x.check(s.filename == e.filename && (e.size < 0 || s.size == e.size || s.type != e.type), "stat-same", "'%s' is listed and found differently", pr(w));
                InputStream* i = r.openStream(w); if (i) { x.check(e.type & EntryInfo::File, "open", "'%s' is no file, but can be opened", pr(w)); const char* c; int32_t m; int64_t g = 0; while ((m = i->read(c, 1, 0)) > 0) g += m; x.obs(g); r.closeStream(i); }
                if (e.type & EntryInfo::Dir && depth < 8) rec(w, depth + 1); x.obs(e.type); }
        };
        rec("f", 0); }
        x.check(*fs.open == 0, "open-left", "%d streams stay open", *fs.open); x.state(t * 64 + what);
    });
    // several openers: the first that knows a file decides
    e.add("openers", na, [=](X& x, int t) {
        auto& a = arcs[t]; x.site("openers: %s", a.first.c_str()); FS one(x, few[0]), two(x, few[1]), three(x, few[2]); int other = x.choose((na + 3) / 4, "other") * 4 + t % 4; if (other >= na) return;
        one.files["x"] = plain; two.files["x"] = a.second; two.files["p/y"] = a.second; three.files["p/y"] = arcs[other].second; three.files["z"] = arcs[other].second; two.files["p"].reset(new Node()); two.files["p"]->type = D; two.files["p"]->name = "p"; two.files["p"]->size = 0; two.files["p"]->mtime = 0;
        { ArchiveReader r; r.addStreamOpener(&one); r.addStreamOpener(&two); r.addStreamOpener(&three);
        for (int k = 0; k < 2; ++k) for (int how = 0; how < 4; ++how) {
            checkOne(x, r, how, "x", plain, plain, true); checkOne(x, r, how, "p/y", a.second, a.second, true); checkOne(x, r, how, "z", arcs[other].second, arcs[other].second, true);
            auto k1 = a.second->kids.begin()->second, k2 = arcs[other].second->kids.begin()->second;
            checkOne(x, r, how, "p/y/" + k1->name, k1, a.second, false); checkOne(x, r, how, "z/" + k2->name, k2, arcs[other].second, false); checkOne(x, r, how, "x/" + k1->name, NodeP(), NodeP(), false); checkOne(x, r, how, "q/z", NodeP(), NodeP(), false);
            statOne(x, r, "p", two.files["p"]); openOne(x, r, "p", two.files["p"], 0); } }
        x.check(!*one.open && !*two.open && !*three.open, "open-left", "streams stay open"); x.state(t * 1000 + other);
    });
    // real files
    e.add("files", na, [=](X& x, int t) {
        auto& a = arcs[t]; x.site("files: %s", a.first.c_str()); const char* vo = getenv("VERIF_OUT"); char pid[40]; snprintf(pid, 40, "/files.%d", (int)getpid()); std::string dir = std::string(vo ? vo : "/tmp") + pid; mkdir(dir.c_str(), 0755); std::string f = dir + "/archive";
        FILE* o = fopen(f.c_str(), "wb"); fwrite(a.second->data.data(), 1, a.second->data.size(), o); fclose(o); fclose(fopen((dir + "/empty").c_str(), "wb")); o = fopen((dir + "/text").c_str(), "wb"); fputs("plain text\n", o); fclose(o);
        struct timeval tv[2] = { { 1000000500, 0 }, { 1000000500, 0 } }; utimes(f.c_str(), tv); utimes((dir + "/empty").c_str(), tv); utimes((dir + "/text").c_str(), tv); mkdir((dir + "/sub").c_str(), 0755); symlink("archive", (dir + "/link").c_str()); symlink("nowhere", (dir + "/dangling").c_str());
        NodeP n(new Node(*a.second)), em(new Node(*plain)), tx(new Node(*plain)), ln(new Node(*a.second)); n->name = "archive"; ln->name = "link"; em->name = "empty"; em->data = ""; em->size = 0; em->mtime = tx->mtime = 1000000500; tx->name = "text"; if (a.second->mtime != 1000000500) { n->mtime = ln->mtime = 1000000500; }
        FileStreamOpener op; EntryInfo e;
        { x.check(op.stat(dir + "/sub", e) == 0 && e.type == EntryInfo::Dir && e.filename == "sub", "stat-dir", "a directory has type %d", e.type); x.check(op.stat(dir + "/missing", e) == -1 && op.stat(dir + "/dangling", e) == -1 && op.stat(dir + "/text/x", e) == -1, "stat-missing", "a missing file is found"); x.check(op.stat("/dev/null", e) == 0 && e.type == EntryInfo::Unknown && e.filename == "null", "stat-device", "a device has type %d", e.type);
          x.check(!op.openStream(dir + "/missing") && !op.openStream(dir + "/dangling"), "open-missing", "a stream for what is no file"); std::unique_ptr<InputStream> s(op.openStream(dir + "/sub")); const char* c; x.check(!s || s->read(c, 1, 0) == -2, "open-directory", "a directory can be read"); }
        { ArchiveReader r; r.addStreamOpener(&op); std::vector<std::pair<std::string, NodeP> > all; urls(n, f, all); int first = x.choose(4, "first");
        for (int k = 0; k < 4; ++k) { int how = (first + k) % 4; for (auto& u : all) checkOne(x, r, how, u.first, u.second, n, u.second == n); checkOne(x, r, how, dir + "/empty", em, em, true); checkOne(x, r, how, dir + "/text", tx, tx, true); checkOne(x, r, how, dir + "/link", ln, ln, true); checkOne(x, r, how, dir + "/missing", NodeP(), NodeP(), true); checkOne(x, r, how, dir + "/missing/x", NodeP(), NodeP(), false); checkOne(x, r, how, dir + "/text/x", NodeP(), tx, false); }
        x.check(!r.canHandle(dir) && !r.isArchive(dir), "directory", "a directory is taken for an archive"); }
        for (const char* k : { "archive", "empty", "text", "link", "dangling" }) unlink((dir + "/" + k).c_str()); rmdir((dir + "/sub").c_str()); rmdir(dir.c_str());
        x.state(t);
    });
    return e.main(argc, argv);
}

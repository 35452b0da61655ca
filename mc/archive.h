// archive.h - writers of archives (reference encoders) and the checker of a listing
#ifndef MC_ARCHIVE_H
#define MC_ARCHIVE_H
#include "streams.h"
#include "comp.h"
#include <strigi/substreamprovider.h>
#include <time.h>

namespace mc {
using Strigi::EntryInfo;
using Strigi::SubStreamProvider;

struct Ent {
    std::string name, data;
    int64_t mtime; int type;        // type: EntryInfo::Type
    std::string aux;                // what a format knows besides (the content type)
    int64_t size;                   // the size that is announced before the entry is read (-1: unknown)
    Ent(const std::string& n = "", const std::string& d = "", int64_t m = 0, int t = EntryInfo::File) : name(n), data(d), mtime(m), type(t), size((int64_t)d.size()) {}
};
typedef std::vector<Ent> Ents;

// ------------------------------------------------------------------ tar
namespace tar {
struct H { std::string b; H() : b(512, 0) {}
    void str(int at, const std::string& s) { b.replace(at, s.size(), s); }
    void oct(int at, int w, int64_t v) { char t[32]; snprintf(t, 32, "%0*lo", w - 1, (unsigned long)v); str(at, t); }
    void b256(int at, int w, int64_t v) { for (int i = w - 1; i > 0; --i) { b[at + i] = (char)v; v >>= 8; } b[at] = (char)(v < 0 ? 0xff : 0x80); }
    std::string done() { for (int i = 0; i < 8; ++i) b[148 + i] = ' '; unsigned s = 0; for (unsigned char c : b) s += c; char t[16]; snprintf(t, 16, "%06o", s); str(148, t); b[154] = 0; b[155] = ' '; return b; }
};
enum Style { GNU, USTAR, OLD };
inline std::string header(const std::string& name, int64_t size, int64_t mtime, char type, int style, const std::string& prefix = "", const std::string& link = "") {
    H h; h.str(0, name.substr(0, 100)); h.str(100, "0000644"); h.str(108, "0001750"); h.str(116, "0001750"); h.oct(124, 12, size); h.oct(136, 12, mtime);
    h.b[156] = type; h.str(157, link.substr(0, 100));
    if (style == GNU) { h.str(257, "ustar  "); h.str(265, "user"); h.str(297, "group"); }
    if (style == USTAR) { h.str(257, std::string("ustar\0" "00", 8)); h.str(265, "user"); h.str(345, prefix); }
    return h.done();
}
inline std::string pad(const std::string& d) { return d + std::string((512 - d.size() % 512) % 512, 0); }
inline std::string longname(const std::string& n, char type = 'L', int style = GNU) { return header("././@LongLink", n.size() + 1, 0, type, style) + pad(n + std::string(1, 0)); }
inline std::string end(int blocks = 2) { return std::string(512 * blocks, 0); }
}
// ------------------------------------------------------------------ zip
namespace zip {
inline void le(std::string& s, uint64_t v, int n) { for (int i = 0; i < n; ++i) s += (char)(v >> (8 * i)); }
inline uint32_t dostime(int64_t t) { time_t tt = t; struct tm m; gmtime_r(&tt, &m); return (uint32_t)(m.tm_year - 80) << 25 | (m.tm_mon + 1) << 21 | m.tm_mday << 16 | m.tm_hour << 11 | m.tm_min << 5 | m.tm_sec / 2; }
struct Opt { int method; int flags; int descriptor; std::string extra; bool central; int level; int zip64;   // descriptor: 0 none, 1 with signature, 2 without, 3: although the sizes are in the header; zip64: the sizes (1: both, 2: of the content, 3: of the data) have 64 bits
    Opt(int m = 8, int d = 0, const std::string& e = "") : method(m), flags(0), descriptor(d), extra(e), central(true), level(6), zip64(0) {} };
struct Writer {
    std::string out, cd; int n;
    std::vector<size_t> starts, dataStarts, dataEnds;
    Writer() : n(0) {}
    void add(const Ent& e, const Opt& o) {
        std::string name = e.name + (e.type == EntryInfo::Dir ? "/" : "");
        std::string packed = o.method == 8 ? comp::deflateAll(e.data, -15, o.level) : e.data;
        uint32_t crc = crc32(0, (const Bytef*)e.data.data(), e.data.size());
        bool unknown = o.descriptor == 1 || o.descriptor == 2;
        size_t at = out.size(); starts.push_back(at);
        std::string extra = o.extra; bool lu = o.zip64 == 1 || o.zip64 == 2, lc = o.zip64 == 1 || o.zip64 == 3;
        if (o.zip64) { std::string z; le(z, 1, 2); le(z, 8 * (lu + lc), 2); if (lu) le(z, unknown ? 0 : e.data.size(), 8); if (lc) le(z, unknown ? 0 : packed.size(), 8); extra += z + "zz\3\0abc"; extra.resize(extra.size() + 1); }
        out += "PK\x03\x04"; le(out, o.zip64 ? 45 : 20, 2); le(out, o.flags | (unknown ? 8 : 0), 2); le(out, o.method, 2); le(out, dostime(e.mtime), 4);
        le(out, unknown ? 0 : crc, 4); le(out, lc ? 0xffffffff : unknown ? 0 : packed.size(), 4); le(out, lu ? 0xffffffff : unknown ? 0 : e.data.size(), 4);
        le(out, name.size(), 2); le(out, extra.size(), 2); out += name; out += extra;
        dataStarts.push_back(out.size());
        out += packed;
        dataEnds.push_back(out.size());
        if (o.descriptor == 1 || o.descriptor == 3) out += "PK\x07\x08";
        if (o.descriptor) { int w = o.zip64 ? 8 : 4; le(out, crc, 4); le(out, packed.size(), w); le(out, e.data.size(), w); }
        cd += "PK\x01\x02"; le(cd, 20, 2); le(cd, 20, 2); le(cd, o.flags | (unknown ? 8 : 0), 2); le(cd, o.method, 2); le(cd, dostime(e.mtime), 4);
        le(cd, crc, 4); le(cd, packed.size(), 4); le(cd, e.data.size(), 4); le(cd, name.size(), 2); le(cd, 0, 2); le(cd, 0, 2); le(cd, 0, 2); le(cd, 0, 2); le(cd, 0, 4); le(cd, at, 4); cd += name;
        ++n;
    }
    std::string done(const std::string& comment = "") {
        std::string r = out + cd;
        r += "PK\x05\x06"; le(r, 0, 2); le(r, 0, 2); le(r, n, 2); le(r, n, 2); le(r, cd.size(), 4); le(r, out.size(), 4); le(r, comment.size(), 2); r += comment;
        return r;
    }
};
}
// ------------------------------------------------------------------ ar
namespace ar {
inline std::string member(const std::string& namefield, const std::string& d, int64_t mtime, int64_t size = -1, const char* uid = "0", const char* mode = "100644") {
    char h[80]; snprintf(h, 80, "%-16s%-12ld%-6s%-6s%-8s%-10ld`\n", namefield.c_str(), (long)mtime, uid, uid, mode, (long)(size < 0 ? (int64_t)d.size() : size));
    std::string r(h, 60); r += d; if (d.size() % 2) r += '\n'; return r;
}
inline std::string magic() { return "!<arch>\n"; }
}
// ------------------------------------------------------------------ cpio (newc)
namespace cpio {
inline std::string member(const std::string& name, const std::string& d, int64_t mtime, uint32_t mode = 0100644, int64_t size = -1, bool upper = true, int nulls = 1) {
    char h[120]; std::string n = name + std::string(nulls, 0);
    snprintf(h, 120, upper ? "070701%08X%08X%08X%08X%08X%08X%08X%08X%08X%08X%08X%08X%08X" : "070701%08x%08x%08x%08x%08x%08x%08x%08x%08x%08x%08x%08x%08x",
        0xabcd, mode, 0, 0, 1, (unsigned)mtime, (unsigned)(size < 0 ? d.size() : size), 8, 1, 0, 0, (unsigned)n.size(), 0);
    std::string r(h, 110); r += n; r += std::string((4 - r.size() % 4) % 4, 0); r += d; r += std::string((4 - d.size() % 4) % 4, 0);
    return r;
}
inline std::string trailer() { return member("TRAILER!!!", "", 0, 0); }
}
// ------------------------------------------------------------------ rpm
namespace rpm {
inline void be(std::string& s, uint32_t v) { for (int i = 3; i >= 0; --i) s += (char)(v >> (8 * i)); }
inline std::string section(int nindex, const std::string& store) {
    std::string r("\x8e\xad\xe8\x01\0\0\0\0", 8); be(r, nindex); be(r, store.size());
    for (int i = 0; i < nindex; ++i) { be(r, 1000 + i); be(r, 6); be(r, store.empty() ? 0 : i % store.size()); be(r, 1); }
    return r + store;
}
inline std::string file(int sigIndex, const std::string& sigStore, int hdrIndex, const std::string& hdrStore, const std::string& payload) {
    std::string lead("\xed\xab\xee\xdb\x03\0", 6); lead.resize(96, 0);
    std::string sig = section(sigIndex, sigStore); sig += std::string((8 - sig.size() % 8) % 8, 0);
    return lead + sig + section(hdrIndex, hdrStore) + payload;
}
}

// a very large source: some pieces of text in a sea of one character
class Sparse : public Strigi::InputStream {
    std::vector<std::pair<int64_t, std::string> > pieces; char fill; std::string buf; int64_t n; bool eager; bool seek;
public:
    Sparse(int64_t total, char f, bool sizeKnown, bool e, bool sk) : fill(f), n(total), eager(e), seek(sk) { if (sizeKnown) m_size = n; }
    void put(int64_t at, const std::string& s) { pieces.push_back(std::make_pair(at, s)); }
    char at(int64_t i) const { for (auto& p : pieces) if (i >= p.first && i < p.first + (int64_t)p.second.size()) return p.second[i - p.first]; return fill; }
    void end() { m_status = Strigi::Eof; m_size = n; }
    int32_t read(const char*& start, int32_t min, int32_t max) {
        int64_t left = n - m_position; if (left == 0) { end(); return -1; }
        int64_t k = std::max<int64_t>(min, 4096); if (max >= min && max > 0) k = std::min<int64_t>(k, max); k = std::min(k, left);
        if (k > (64 << 20)) { m_status = Strigi::Error; m_error = "more data requested than this source gives at a time"; return -2; }
        buf.resize(k); for (int64_t i = 0; i < k; ++i) buf[i] = at(m_position + i);
        start = buf.data(); m_position += k;
        if (m_position == n && (eager || k < min)) end();
        return (int32_t)k;
    }
    int64_t skip(int64_t k) {
        if (k <= 0) return 0;
        int64_t left = n - m_position; if (!left) { end(); return -1; }
        int64_t r = std::min(k, left); m_position += r; if (m_position == n && (eager || r < k)) end();
        return r;
    }
    int64_t reset(int64_t p) {
        if (!seek && (p > m_position || p < m_position - (int64_t)buf.size())) return m_position;
        m_position = std::max<int64_t>(0, std::min(p, n)); m_status = Strigi::Ok; if (m_position == n && eager) end(); return m_position;
    }
};

// ------------------------------------------------------------------ checking a listing
enum { USES = 8 };
// uses an entry in one of several ways, checking everything that is seen of it
inline void useEntry(X& x, InputStream* s, const std::string& d, int how) {
    Contract<char> c(x, s, d.data(), d.size(), false);
    int64_t n = d.size();
    switch (how) {
    case 0: break;
    case 1: c.drain(1, 0); break;
    case 2: c.read(1, 1); break;
    case 3: c.skip(n / 2 + 1); break;
    case 4: c.read(2, 3); c.resetTo(0); c.read(1, 0); break;
    case 5: c.skip(n); break;
    case 6: c.skip(n + 10); break;
    case 7: c.drain(2, 3); c.read(1, 0); break;
    }
}
inline void checkInfo(X& x, const SubStreamProvider* p, const Ent& e, size_t i) {
    const EntryInfo& f = p->entryInfo();
    x.note("entry '%s' size %ld mtime %ld type %d", printable(f.filename.data(), f.filename.size()).c_str(), (long)f.size, (long)f.mtime, f.type);
    x.check(f.filename == e.name, "name", "entry %lu is called '%s', should be '%s'", i, printable(f.filename.data(), f.filename.size(), 300).c_str(), printable(e.name.data(), e.name.size(), 300).c_str());
    x.check(f.size == e.size, "size", "entry '%s' has size %ld, should be %ld", printable(e.name.data(), e.name.size()).c_str(), (long)f.size, (long)e.size);
    x.check(f.mtime == e.mtime, "mtime", "entry '%s' has time %ld, should be %ld", printable(e.name.data(), e.name.size()).c_str(), (long)f.mtime, (long)e.mtime);
    x.check(f.type == e.type, "type", "entry '%s' has type %d, should be %d", printable(e.name.data(), e.name.size()).c_str(), f.type, e.type);
}
// walks through all entries; how many of the USES are tried on each
inline void walk(X& x, SubStreamProvider* p, const Ents& es, int uses, std::function<int(int)> useOf = std::function<int(int)>()) {
    for (size_t i = 0; i < es.size(); ++i) {
        x.op();
        InputStream* s = p->nextEntry();
        if (!s) x.fail("missing", "entry %lu '%s' is missing: status %s '%s'", i, printable(es[i].name.data(), es[i].name.size()).c_str(), stName(p->status()), p->error());
        x.check(p->status() == Strigi::Ok, "status", "status %s at entry %lu", stName(p->status()), i);
        x.check(p->currentEntry() == s, "current", "currentEntry() is not the entry that was returned");
        checkInfo(x, p, es[i], i);
        int u = useOf ? useOf((int)i) : x.choose(uses, "use of the entry");
        useEntry(x, s, es[i].data, u);
        x.obs(u); x.state(mix(mix(i, u), hashBytes(es[i].data.data(), es[i].data.size())));
    }
    for (int k = 0; k < 2; ++k) {
        InputStream* s = p->nextEntry();
        x.check(!s, "extra", "an extra entry '%s' after the last", printable(p->entryInfo().filename.data(), p->entryInfo().filename.size()).c_str());
        x.check(p->status() == Strigi::Eof, "end", "status %s after the last entry: '%s'", stName(p->status()), p->error());
    }
}
} // namespace mc
#endif

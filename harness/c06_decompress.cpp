// C06: what a decompressing stream delivers is exactly what was compressed.
#include "streams.h"
#include "comp.h"
#include <strigi/gzipinputstream.h>
#include <strigi/bz2inputstream.h>
#include <strigi/lzmainputstream.h>
#include <gzipcompressstream.h>
using namespace mc;
using namespace Strigi;
using namespace comp;

static InputStream* decoder(int kind, InputStream* in) {
    switch (kind) {
    case GZIP: return new GZipInputStream(in);
    case ZLIB: return new GZipInputStream(in, GZipInputStream::ZLIBFORMAT);
    case RAW: return new GZipInputStream(in, GZipInputStream::ZIPFORMAT);
    case BZ2: return new BZ2InputStream(in);
    default: return new LZMAInputStream(in);
    }
}
struct Item { int kind; std::string plain, packed; std::string what; };

static void checkHeaders(X& x, const Item& it) {
    const char* p = it.packed.data(); int n = (int)it.packed.size();
    if (it.kind == GZIP) x.check(GZipInputStream::checkHeader(p, n), "not-recognised", "gzip data is not recognised");
    if (it.kind == BZ2) x.check(BZ2InputStream::checkHeader(p, n), "not-recognised", "bz2 data is not recognised");
    if (it.kind == LZMA) x.check(LZMAInputStream::checkHeader(p, n), "not-recognised", "lzma data is not recognised");
}
// packed data between other data in the parent; operations; then the rest; then the parent
static void drive(X& x, const Item& it, const Policy& p, int before, int after, const std::vector<int64_t>& cuts, std::function<void(Contract<char>&)> f) {
    std::string all = std::string(before, '#') + it.packed + std::string(after, '+');
    Src src(&x, all.data(), all.size(), p);
    for (int64_t c : cuts) src.cuts.push_back(before + c);
    if (before) src.skip(before);
    std::unique_ptr<InputStream> s(decoder(it.kind, &src));
    x.note("%s, %lu bytes packed into %lu, at offset %d followed by %d, source %s", it.what.c_str(), it.plain.size(), it.packed.size(), before, after, p.str().c_str());
    Contract<char> c(x, s.get(), it.plain.data(), it.plain.size(), false);
    f(c);
    x.check(c.pos == c.N && s->status() == Eof && s->size() == c.N, "incomplete", "ends at %ld of %ld with status %s size %ld", (long)c.pos, (long)c.N, stName(s->status()), (long)s->size());
    if (it.kind != LZMA) x.check(src.position() == (int64_t)(before + it.packed.size()), "parent-position", "the source is at %ld, the compressed data ends at %ld", (long)src.position(), (long)(before + it.packed.size()));
}

int main(int argc, char** argv) {
    Explorer e("C06");
    bool th = Explorer::thorough();
    std::vector<Policy> pol = policies();
    std::vector<Op> small = opsSmall();
    int np = (int)pol.size(), ns = (int)small.size();
    static std::vector<Item> tiny, big, all2;
    int tsizes[] = { 0, 1, 2, 6, 30 };
    for (int k = 0; k < KINDS; ++k) for (int n : tsizes) {
        Item it; it.kind = k; it.plain = content(n, 1); it.packed = compress(k, it.plain, n % 3 * 3); it.what = kindName(k); tiny.push_back(it);
    }
    size_t bsizes[] = { 4097, 32768, 32769, 65536, 262143, 262144, 262145, 524288, 600001 };
    for (int k = 0; k < KINDS; ++k) for (size_t n : bsizes) for (int fl = 0; fl < 3; ++fl) {
        if (!th && fl == 1 && n != 262144 && n != 600001) continue;
        Item it; it.kind = k; it.plain = content(n, fl); it.packed = compress(k, it.plain, fl == 2 ? 0 : fl == 1 ? 6 : 9); it.what = kindName(k); big.push_back(it);
        if (k == LZMA) { it.packed = lzmaAll(it.plain, 2); it.what = "lzma without mark"; big.push_back(it); }
    }
    int nt = (int)tiny.size(), nb = (int)big.size();
    e.add("operations", nt * np * ns, [=](X& x, int t) {
        const Item& it = tiny[t % nt]; const Policy& p = pol[t / nt % np];
        x.site("%s", it.what.c_str());
        checkHeaders(x, it);
        drive(x, it, p, 3, 4, std::vector<int64_t>(), [&](Contract<char>& c) { c.apply(small[t / nt / np]); c.run(small, th ? 2 : 1); c.drain(2, 3); });
    });
    // the input arrives in three pieces, cut anywhere
    e.add("cuts", nt, [=](X& x, int t) {
        const Item& it = tiny[t];
        x.site("%s:cuts", it.what.c_str());
        std::vector<int64_t> cuts; cuts.push_back(x.choose((int)it.packed.size() + 1, "first cut"));
        cuts.push_back(cuts[0] + x.choose((int)(it.packed.size() - cuts[0]) + 1, "second cut"));
        drive(x, it, Policy(CHUNK_ALL, false, false, false), 0, 3, cuts, [&](Contract<char>& c) { c.drain(x.choose(2, "read") ? 100 : 1, 0); });
    });
    // sizes around the internal buffers
    std::vector<Op> bops;
    bops.push_back(R(1, 0)); bops.push_back(R(262144, 262144)); bops.push_back(R(100000, 0)); bops.push_back(R(300000, 300001)); bops.push_back(K(262144)); bops.push_back(K(1000)); bops.push_back(Z(T_SEGSTART)); bops.push_back(Z(T_SEGMID));
    std::vector<Policy> bp; bp.push_back(Policy(CHUNK_ALL, true, true, true)); bp.push_back(Policy(4096, false, false, false)); bp.push_back(Policy(333, false, true, false));
    int nbp = (int)bp.size(), nbo = (int)bops.size();
    e.add("sizes", nb * nbp * nbo, [=](X& x, int t) {
        const Item& it = big[t % nb];
        x.site("%s:sizes", it.what.c_str());
        drive(x, it, bp[t / nb % nbp], 0, 7, std::vector<int64_t>(), [&](Contract<char>& c) { c.apply(bops[t / nb / nbp]); if (th) c.run(bops, 1); c.drain(x.choose(2, "drain") ? 100000 : 1, 0); });
    });
    // all short texts, all compression levels and strategies
    e.add("all-texts", 127 * KINDS, [=](X& x, int t) {
        int i = t / KINDS, len = 0, n = 1; while (i >= n) { i -= n; n *= 2; ++len; }
        Item it; it.kind = t % KINDS; it.what = kindName(it.kind);
        for (int k = 0; k < len; ++k) it.plain += (char)((i >> k & 1) ? 0xff : 0);
        for (int rep = 0; rep < (len > 3 ? 6 : 1); ++rep) it.plain += it.plain.substr(0, len);
        x.site("%s:all-texts", it.what.c_str());
        int lev = x.choose(3, "level") * 4 + (it.kind == BZ2), strat = it.kind < BZ2 ? x.choose(4, "strategy") : 0; bool flush = it.kind < BZ2 && x.choose(2, "flush");
        static const int strats[] = { Z_DEFAULT_STRATEGY, Z_FIXED, Z_HUFFMAN_ONLY, Z_RLE };
        if (it.kind < BZ2) it.packed = deflateAll(it.plain, it.kind == GZIP ? 31 : it.kind == ZLIB ? 15 : -15, lev, strats[strat], flush ? 3 : 0);
        else it.packed = compress(it.kind, it.plain, lev);
        drive(x, it, Policy(x.choose(2, "chunk") ? 1 : 0, false, false, false), 0, 2, std::vector<int64_t>(), [&](Contract<char>& c) { c.drain(1, 0); });
    }, false);
    // optional fields of the gzip header, small windows
    e.add("gzip-header", 16, [=](X& x, int t) {
        x.site("gzip:header");
        gz_header h; memset(&h, 0, sizeof h);
        h.time = 12345; h.os = 3; h.hcrc = t & 1;
        if (t & 2) h.name = (Bytef*)"a name.txt";
        if (t & 4) h.comment = (Bytef*)"a comment";
        static unsigned char extra[] = { 'A', 'B', 4, 0, 0x1f, 0x8b, 8, 0 };
        if (t & 8) { h.extra = extra; h.extra_len = sizeof extra; }
        Item it; it.kind = GZIP; it.what = "gzip with header"; it.plain = content(500, 1);
        it.packed = deflateAll(it.plain, 16 + 9 + x.choose(7, "window"), 6, Z_DEFAULT_STRATEGY, 0, &h);
        checkHeaders(x, it);
        drive(x, it, pol[x.choose(np, "source")], 2, 5, std::vector<int64_t>(), [&](Contract<char>& c) { c.drain(7, 11); });
    });
    // much data behind the compressed data, in the same segment of the source
    e.add("rest", nt * 4 * 2, [=](X& x, int t) {
        const Item& it = tiny[t % nt]; static const int rests[] = { 65535, 65536, 70000, 300000 };
        x.site("%s:rest", it.what.c_str());
        Policy p = t / nt / 4 ? Policy(CHUNK_ALL, false, false, false) : Policy(CHUNK_ALL, true, true, true);
        drive(x, it, p, x.choose(2, "offset") * 7, rests[t / nt % 4], std::vector<int64_t>(), [&](Contract<char>& c) { c.drain(x.choose(2, "read") ? 100 : 1, 0); });
    });
    // every size of the dictionary and every model that the format can ask for
    e.add("lzma-parameters", 14 * 3 * 15, [=](X& x, int t) {
        uint32_t dict = 4096u << (t % 14); int pb = t / 14 % 3 * 2, lc = 0, lp = t / 42;
        while (lp > 4 - lc) { lp -= 5 - lc; ++lc; }
        bool usual = lc == 3 && lp == 0 && pb == 2;
        if (dict > 0x10000 && !usual) return;
        x.site("lzma:parameters");
        Item it; it.kind = LZMA; it.what = "lzma"; it.plain = content(x.choose(2, "size") ? 9000 : 50, 1); int sized = it.plain.size() > dict ? x.choose(3, "sized") : 0;
        it.packed = lzmaAll(it.plain, sized, dict, lc, lp, pb);
        x.note("dictionary %u lc %d lp %d pb %d%s", dict, lc, lp, pb, sized ? ", size known" : "");
        if (usual) checkHeaders(x, it);                    // only the usual model is recognised
        if (!usual) { Src s0(&x, it.packed.data(), it.packed.size(), pol[0]); LZMAInputStream l(&s0); if (l.status() == Error) { x.check(l.error()[0], "error-without-message", "no message"); return; } }
        drive(x, it, pol[x.choose(2, "source") ? 0 : np - 1], 0, 5, std::vector<int64_t>(), [&](Contract<char>& c) { c.drain(x.choose(2, "read") ? 1000 : 1, 0); });
    });
    // compressing: the output of the compressing stream is a zlib stream of the input
    {
        static std::vector<std::string> in; size_t cs[] = { 0, 1, 5, 300, 20000, 70000 };
        for (size_t n : cs) for (int fl = 0; fl < 3; fl += 2) in.push_back(content(n, fl));
        int ni = (int)in.size();
        e.add("compress", ni * np * 12, [=](X& x, int t) {
            const std::string& d = in[t % ni]; const Policy& p = pol[t / ni % np]; int lev = t / ni / np - 1;
            if (d.size() > 1000 && p.chunk > 0) return;
            if (d.size() > 1000 && p.chunk == CHUNK_MIN && lev > 0) return;
            x.site("compress");
            Src src(&x, d.data(), d.size(), p);
            GZipCompressInputStream s(&src, lev);
            x.note("%lu bytes, level %d, source %s", d.size(), lev, p.str().c_str());
            std::string out; const char* q; int32_t n; static const int reads[3][2] = { { 1, 0 }, { 1, 1 }, { 100, 150 } };
            int k = x.choose(3, "read"), k2 = x.choose(3, "later reads"); int64_t guard = 0;
            while ((n = s.read(q, reads[k][0], reads[k][1])) > 0) { x.op(); out.append(q, n); if (out.size() > 20) k = k2; if (++guard > 1000000) x.fail("endless", "does not end"); }
            x.check(n == -1 && s.status() == Eof, "status", "ends with %d status %s", n, stName(s.status()));
            x.check(s.size() == (int64_t)out.size(), "size", "size() %ld, delivered %lu", (long)s.size(), out.size());
            std::string back; size_t used;
            x.check(referenceDecode(ZLIB, out, back, &used) && back == d && used == out.size(), "content", "%lu bytes of output do not decompress to the %lu bytes of input", out.size(), d.size());
            x.obs(hashBytes(out.data(), out.size()));
            x.state(mix(hashBytes(d.data(), d.size()), lev));
        });
        // and round trip through both streams
        e.add("round-trip", ni * 11, [=](X& x, int t) {
            const std::string& d = in[t % ni];
            x.site("round-trip");
            Src src(&x, d.data(), d.size(), Policy(CHUNK_ALL, false, false, false));
            GZipCompressInputStream s(&src, t / ni);
            GZipInputStream z(&s, GZipInputStream::ZLIBFORMAT);
            Contract<char> c(x, &z, d.data(), d.size(), false);
            if (d.size() < 1000) c.run(small, th ? 2 : 1);
            c.drain(x.choose(2, "drain") ? 1000 : 1, 0);
        });
    }
    return e.main(argc, argv);
}

// C07: damaged compressed data is an error, never a shorter or different file.
#include "streams.h"
#include "comp.h"
#include <strigi/gzipinputstream.h>
#include <strigi/bz2inputstream.h>
#include <strigi/lzmainputstream.h>
#include <gzipcompressstream.h>
using namespace mc;
using namespace Strigi;
using namespace comp;

static InputStream* decoder(int kind, InputStream* in) {
    switch (kind) {
    case GZIP: return new GZipInputStream(in);
    case ZLIB: return new GZipInputStream(in, GZipInputStream::ZLIBFORMAT);
    case RAW: return new GZipInputStream(in, GZipInputStream::ZIPFORMAT);
    case BZ2: return new BZ2InputStream(in);
    default: return new LZMAInputStream(in);
    }
}
struct Item { int kind; std::string plain, packed; bool sized; };

// read all of it; what was delivered must be a prefix of D; returns whether it ended normally
static bool readAll(X& x, InputStream* s, int mn, int mx, std::string& out) {
    const char* p; int32_t n; int guard = 0;
    while ((n = s->read(p, mn, mx)) > 0) { x.op(); out.append(p, n); if (out.size() > (8u << 20) || ++guard > 200000) x.fail("endless", "more than %lu bytes", out.size()); }
    if (s->status() == Error) {
        x.check(n == -2, "error-return", "read returns %d with status Error", n);
        x.check(s->error()[0] != 0, "error-without-message", "Error without a message");
        x.check(s->read(p, 1, 0) == -2 && s->status() == Error, "error-not-sticky", "after an error read continues");
        return false;
    }
    x.check(n == -1 && s->status() == Eof && s->size() == (int64_t)out.size(), "end", "read returned %d status %s size %ld after %lu bytes", n, stName(s->status()), (long)s->size(), out.size());
    return true;
}

int main(int argc, char** argv) {
    Explorer e("C07");
    bool th = Explorer::thorough();
    static std::vector<Item> items, large;
    size_t sizes[] = { 0, 1, 40, 700 };
    for (int k = 0; k < KINDS; ++k) for (size_t n : sizes) {
        Item it; it.kind = k; it.plain = content(n, n == 700 ? 2 : 1); it.packed = compress(k, it.plain, 6); it.sized = false; items.push_back(it);
    }
    for (int k = 0; k < KINDS; ++k) {
        Item it; it.kind = k; it.plain = content(k == LZMA ? 9000 : 6000, 1); it.packed = compress(k, it.plain, 9); it.sized = k == LZMA; items.push_back(it); if (k == LZMA) { it.packed = lzmaAll(it.plain, 2); items.push_back(it); }
        Item b; b.kind = k; b.plain = content(600001, 0); b.packed = compress(k, b.plain, 9); b.sized = k == LZMA; large.push_back(b); if (k == LZMA) { b.packed = lzmaAll(b.plain, 2); large.push_back(b); }
    }
    int ni = (int)items.size(), nl = (int)large.size();
    std::vector<Policy> pol; pol.push_back(Policy(CHUNK_ALL, true, true, true)); pol.push_back(Policy(CHUNK_MIN, false, false, false)); pol.push_back(Policy(CHUNK_ALL, false, false, false)); pol.push_back(Policy(7, true, true, false));
    static const int reads[][2] = { { 1, 0 }, { 5, 9 }, { 1000, 0 } };

    auto truncated = [=](X& x, const Item& it, size_t at, bool ioError) {
        Policy p = pol[x.choose((int)pol.size(), "source")];
        int r = x.choose(3, "read");
        if (ioError) p.errorAt = at;
        x.note("%s: %lu of %lu bytes%s, source %s", kindName(it.kind), at, it.packed.size(), ioError ? ", then an I/O error" : "", p.str().c_str());
        Src src(&x, it.packed.data(), ioError ? it.packed.size() : at, p);
        std::unique_ptr<InputStream> s(decoder(it.kind, &src));
        std::string out;
        bool ok = readAll(x, s.get(), reads[r][0], reads[r][1], out);
        x.check(out.size() <= it.plain.size() && !memcmp(out.data(), it.plain.data(), out.size()), "content", "delivers something else than the original");
        if (ok) {
            // an lzma file with a size in its header is complete before its last bytes
            bool acceptable = it.kind == LZMA && it.sized && out.size() == it.plain.size();
            x.check(acceptable, "silent-truncation", "%s cut after %lu of %lu bytes ends normally after %lu of %lu bytes", kindName(it.kind), at, it.packed.size(), out.size(), it.plain.size());
        }
        x.obs(out.size() * 2 + ok);
        x.state(mix(mix(it.kind, it.packed.size()), mix(at, out.size())));
    };
    // every truncation point
    std::vector<int> starts; int total = 0; for (const Item& it : items) { starts.push_back(total); total += (int)it.packed.size(); }
    auto locate = [=](int t, int& item, size_t& off) { item = 0; while (item + 1 < ni && starts[item + 1] <= t) ++item; off = t - starts[item]; };
    e.add("truncated", total, [=](X& x, int t) { int i; size_t o; locate(t, i, o); x.site("%s:truncated", kindName(items[i].kind)); truncated(x, items[i], o, false); });
    e.add("io-error", total, [=](X& x, int t) { int i; size_t o; locate(t, i, o); x.site("%s:io-error", kindName(items[i].kind)); truncated(x, items[i], o, true); });
    // larger than the output buffer: truncation in the last 60 bytes and some places before
    e.add("truncated-large", nl * 90, [=](X& x, int t) {
        const Item& it = large[t % nl]; int k = t / nl; size_t n = it.packed.size();
        size_t at = k < 60 ? n - 1 - k : n * (k - 60) / 31;
        if (k < 60 && (size_t)k + 1 > n) return;
        x.site("%s:truncated-large", kindName(it.kind));
        truncated(x, it, at, false);
    });
    // every byte changed in several ways: the reference library says what is acceptable
    e.add("corrupt", total, [=](X& x, int t) {
        int i; size_t o; locate(t, i, o);
        const Item& it = items[i];
        x.site("%s:corrupt", kindName(it.kind));
        static const unsigned char masks[] = { 0x01, 0x80, 0xff, 0x10, 0x02, 0x40 };
        unsigned char m = masks[x.choose(th ? 6 : 2, "mask")];
        std::string c = it.packed; c[o] ^= m;
        const Policy& p = pol[x.choose(2, "source")];
        int r = x.choose(2, "read");
        x.note("%s: byte %lu of %lu xor %02x", kindName(it.kind), o, c.size(), m);
        Src src(&x, c.data(), c.size(), p);
        std::unique_ptr<InputStream> s(decoder(it.kind, &src));
        std::string out, ref;
        bool ok = readAll(x, s.get(), reads[r][0], reads[r][1], out);
        if (it.kind == LZMA) {
            // nothing protects the content: what can be decoded is what the reference decodes
            bool refok = referenceDecode(LZMA, c, ref);
            bool complete = (int64_t)out.size() == s->size() && it.sized && o >= 13;       // what follows the last byte need not be looked at
            if (ok) x.check((refok || complete) && out == ref, "corruption-accepted", "lzma with byte %lu changed ends normally after %lu bytes (the reference %s, %lu bytes)", o, out.size(), refok ? "gives something else" : "rejects it", ref.size());
            else x.check(out.size() <= ref.size() && !memcmp(out.data(), ref.data(), out.size()), "content", "delivers something else than the reference");
        } else {
            bool refok = referenceDecode(it.kind, c, ref);
            if (ok) x.check(refok && out == ref, "corruption-accepted", "%s with byte %lu changed ends normally after %lu bytes (the reference %s)", kindName(it.kind), o, out.size(), refok ? "gives something else" : "rejects it");
            // accepted data must be the original, or undetectable; there is no reason to reject intact data
            else if (refok && it.kind != BZ2) x.check(it.kind == GZIP && o < 2, "intact-rejected", "%s with byte %lu changed is still intact but is rejected: %s", kindName(it.kind), o, s->error());
            // (bzip2 checks a block only after it has been delivered: what precedes the error may be anything)
            if (it.kind != BZ2 || refok) x.check(out.size() <= ref.size() && !memcmp(out.data(), ref.data(), out.size()), "content", "delivers something else than the reference");
        }
        x.obs(out.size() * 2 + ok);
        x.state(mix(mix(it.kind, it.packed.size()), mix(o, out.size() * 2 + ok)));
    });
    // the size in the header of an lzma file is not the size of what follows
    e.add("lzma-size", 6 * 2 * 10, [=](X& x, int t) {
        static const int sizes[] = { 5000, 262143, 262144, 262145, 524288, 600000 }, delta[] = { 0, 1, -1, 100, -100, 262144, -262144, 1 << 30, -500, 7 };
        int n = sizes[t % 6], form = 1 + t / 6 % 2; int64_t size = n + delta[t / 12]; if (size <= 4096) return;
        x.site("lzma:size"); std::string plain = content(n, x.choose(2, "content")), c = lzmaAll(plain, form);
        for (int i = 0; i < 8; ++i) c[5 + i] = (char)((uint64_t)size >> (8 * i));
        static const int rd[][2] = { { 1, 0 }, { 1000, 3000 }, { 262144, 0 }, { 300000, 400000 }, { 1, 262144 } }; int r = x.choose(5, "read");
        Src src(&x, c.data(), c.size(), pol[x.choose(2, "source") * 2]);
        LZMAInputStream s(&src);
        x.note("%d bytes, header says %ld, %s", n, (long)size, form == 1 ? "end mark" : "no end mark");
        std::string out, ref; bool ok = readAll(x, &s, rd[r][0], rd[r][1], out), refok = referenceDecode(LZMA, c, ref);
        if (refok) x.check(ok && out == ref, "intact-rejected", "%d bytes with size %ld: ends after %lu bytes: %s", n, (long)size, out.size(), s.error());
        else x.check(!ok, "corruption-accepted", "%d bytes with size %ld in the header end normally after %lu bytes, size() is %ld", n, (long)size, out.size(), (long)s.size());
        x.check(out.size() <= plain.size() && !memcmp(out.data(), plain.data(), out.size()), "content", "delivers something else");
        x.state(t); x.obs(out.size() * 2 + ok);
    });
    // not compressed data at all
    e.add("garbage", KINDS * 64, [=](X& x, int t) {
        int kind = t % KINDS, v = t / KINDS;
        x.site("%s:garbage", kindName(kind));
        int len = v % 16; std::string d;
        static const char* heads[] = { "", "\x1f\x8b", "BZh9", "]" };
        if (v / 16) d = heads[v / 16];
        if (v / 16 == 3) d += std::string(1, '\0');
        for (int i = (int)d.size(); i < len; ++i) d += (char)(i * 37 + v);
        Src src(&x, d.data(), d.size(), pol[x.choose(4, "source")]);
        std::unique_ptr<InputStream> s(decoder(kind, &src));
        std::string out, ref;
        bool ok = readAll(x, s.get(), 1, 0, out);
        if (ok) x.check(kind != LZMA && referenceDecode(kind, d, ref) && ref == out, "garbage-accepted", "%lu bytes that are not %s data end normally after %lu bytes", d.size(), kindName(kind), out.size());
        x.state(t);
    });
    // intact data of another kind
    e.add("wrong-format", KINDS * KINDS * 5, [=](X& x, int t) {
        int kind = t % KINDS; const Item& it = items[t / KINDS % ni]; x.site("%s:wrong-format", kindName(kind));
        if (kind == it.kind) return;
        Src src(&x, it.packed.data(), it.packed.size(), pol[x.choose(4, "source")]);
        std::unique_ptr<InputStream> s(decoder(kind, &src));
        std::string out, ref; bool ok = readAll(x, s.get(), 1, 0, out);
        if (ok) x.check(kind != LZMA && referenceDecode(kind, it.packed, ref) && ref == out, "wrong-format-accepted", "%s data ends normally as %s", kindName(it.kind), kindName(kind));
        x.state(t); x.obs(ok);
    });
    // the input of the compressor fails: its output must not look complete
    e.add("compress-error", 12, [=](X& x, int t) {
        x.site("compress-error");
        std::string d = content(t < 6 ? 10 : 30000, 2);
        Policy p = pol[x.choose(4, "source")]; p.errorAt = t < 6 ? t * 2 : (t - 6) * 6000;
        Src src(&x, d.data(), d.size(), p);
        GZipCompressInputStream s(&src, 6);
        std::string out, ref;
        bool ok = readAll(x, &s, 1, 0, out);
        x.check(!ok, "error-lost", "an I/O error at %ld of the input is not reported", (long)p.errorAt);
        x.check(!referenceDecode(ZLIB, out, ref), "complete", "output is a complete stream although the input failed");
        x.state(t);
    });
    return e.main(argc, argv);
}

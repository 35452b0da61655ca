// comp.h - reference compressors (zlib, libbz2, liblzma called directly)
#ifndef MC_COMP_H
#define MC_COMP_H
#include <zlib.h>
#include <bzlib.h>
#include <lzma.h>
#include <string>
#include <cstring>
#include <cstdlib>

namespace comp {
enum Kind { GZIP, ZLIB, RAW, BZ2, LZMA, KINDS };
inline const char* kindName(int k) { static const char* n[] = { "gzip", "zlib", "raw", "bz2", "lzma" }; return n[k]; }

inline std::string deflateAll(const std::string& d, int wbits, int level, int strategy = Z_DEFAULT_STRATEGY, size_t flushEvery = 0, gz_header* h = 0) {
    z_stream z; memset(&z, 0, sizeof z);
    if (deflateInit2(&z, level, Z_DEFLATED, wbits, 8, strategy) != Z_OK) abort();
    if (h) deflateSetHeader(&z, h);
    std::string out; char buf[65536];
    size_t pos = 0;
    for (;;) {
        size_t n = flushEvery ? std::min(flushEvery, d.size() - pos) : d.size();
        z.next_in = (Bytef*)d.data() + pos; z.avail_in = n; pos += n;
        bool last = pos >= d.size();
        int r;
        do {
            z.next_out = (Bytef*)buf; z.avail_out = sizeof buf;
            r = deflate(&z, last ? Z_FINISH : Z_FULL_FLUSH);
            out.append(buf, sizeof buf - z.avail_out);
        } while (last ? r != Z_STREAM_END : z.avail_out == 0);
        if (last) break;
    }
    deflateEnd(&z);
    return out;
}
inline std::string bz2All(const std::string& d, int level) {
    unsigned n = d.size() + d.size() / 50 + 700;
    std::string o(n, 0);
    if (BZ2_bzBuffToBuffCompress(&o[0], &n, (char*)d.data(), d.size(), level, 0, 0) != BZ_OK) abort();
    o.resize(n);
    return o;
}
// the .lzma format; 0: with an end marker only, 1: also with the size in its header, 2: the size and no end marker
inline std::string lzmaAll(const std::string& d, int form, uint32_t dict = 4096, int lc = 3, int lp = 0, int pb = 2) {
    lzma_options_lzma o; memset(&o, 0, sizeof o);
    lzma_lzma_preset(&o, 1); o.dict_size = dict; o.lc = lc; o.lp = lp; o.pb = pb;
    lzma_stream s = LZMA_STREAM_INIT;
    std::string out; char buf[65536];
    if (form == 2) {
        o.ext_flags = 0;
        lzma_filter fl[2] = { { LZMA_FILTER_LZMA1EXT, &o }, { LZMA_VLI_UNKNOWN, 0 } };
        if (lzma_raw_encoder(&s, fl) != LZMA_OK) abort();
        out += (char)((pb * 5 + lp) * 9 + lc); for (int i = 0; i < 4; ++i) out += (char)(dict >> (8 * i)); out += std::string(8, 0);
    } else if (lzma_alone_encoder(&s, &o) != LZMA_OK) abort();
    s.next_in = (const uint8_t*)d.data(); s.avail_in = d.size();
    lzma_ret r;
    do {
        s.next_out = (uint8_t*)buf; s.avail_out = sizeof buf;
        r = lzma_code(&s, LZMA_FINISH);
        out.append(buf, sizeof buf - s.avail_out);
    } while (r == LZMA_OK);
    lzma_end(&s);
    if (form) { uint64_t n = d.size(); for (int i = 0; i < 8; ++i) out[5 + i] = (char)(n >> (8 * i)); }
    return out;
}
inline std::string compress(int kind, const std::string& d, int level = 6) {
    switch (kind) {
    case GZIP: return deflateAll(d, 15 + 16, level);
    case ZLIB: return deflateAll(d, 15, level);
    case RAW: return deflateAll(d, -15, level);
    case BZ2: return bz2All(d, level < 1 ? 1 : level);
    default: return lzmaAll(d, d.size() > 5000 && level != 6);
    }
}
// what the reference libraries make of some bytes: true if they are a complete stream
inline bool referenceDecode(int kind, const std::string& c, std::string& out, size_t* used = 0) {
    out.clear();
    char buf[65536];
    if (kind == BZ2) {
        bz_stream b; memset(&b, 0, sizeof b);
        if (BZ2_bzDecompressInit(&b, 0, 0) != BZ_OK) abort();
        b.next_in = (char*)c.data(); b.avail_in = c.size();
        int r;
        do {
            b.next_out = buf; b.avail_out = sizeof buf;
            r = BZ2_bzDecompress(&b);
            out.append(buf, sizeof buf - b.avail_out);
        } while (r == BZ_OK && (b.avail_in || !b.avail_out));
        if (used) *used = c.size() - b.avail_in;
        BZ2_bzDecompressEnd(&b);
        return r == BZ_STREAM_END;
    }
    if (kind == LZMA) {
        lzma_stream s = LZMA_STREAM_INIT;
        if (lzma_alone_decoder(&s, 1u << 30) != LZMA_OK) abort();
        s.next_in = (const uint8_t*)c.data(); s.avail_in = c.size();
        lzma_ret r;
        do {
            s.next_out = (uint8_t*)buf; s.avail_out = sizeof buf;
            r = lzma_code(&s, LZMA_FINISH);
            out.append(buf, sizeof buf - s.avail_out);
        } while (r == LZMA_OK && out.size() < (8u << 20));
        if (used) *used = c.size() - s.avail_in;
        lzma_end(&s);
        return r == LZMA_STREAM_END;
    }
    z_stream z; memset(&z, 0, sizeof z);
    if (inflateInit2(&z, kind == GZIP ? 31 : kind == ZLIB ? 15 : -15) != Z_OK) abort();
    z.next_in = (Bytef*)c.data(); z.avail_in = c.size();
    int r;
    do {
        z.next_out = (Bytef*)buf; z.avail_out = sizeof buf;
        r = inflate(&z, Z_NO_FLUSH);
        out.append(buf, sizeof buf - z.avail_out);
    } while (r == Z_OK && (z.avail_in || !z.avail_out));
    if (used) *used = c.size() - z.avail_in;
    inflateEnd(&z);
    return r == Z_STREAM_END;
}
// contents of all characters: compressible, periodic, incompressible
inline std::string content(size_t n, int flavour) {
    std::string s(n, 0); uint32_t r = 12345 + flavour;
    for (size_t i = 0; i < n; ++i) {
        if (flavour == 0) s[i] = (char)('a' + i / 1000 % 26);
        else if (flavour == 1) s[i] = (char)(i * i / 7 % 13 + "lorem ipsum dolor"[i % 17]);
        else { r = r * 1664525 + 1013904223; s[i] = (char)(r >> 24); }
    }
    return s;
}
} // namespace comp
#endif

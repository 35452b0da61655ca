// C23: the helpers for text, numbers and times compute what they say, for every input.
#include "mc.h"
#include <strigi/textutils.h>
extern "C++" {
#include <dostime.h>
}
using namespace mc;
using namespace Strigi;

// the characters allowed in XML 1.0, encoded as RFC 3629 says.
// returns the offset of the first bad character or -1; missing > 0 if it is an incomplete good one at the end
static int reference(const unsigned char* s, int n, int& missing, int& badEnd) {
    missing = 0; badEnd = 0;
    for (int i = 0; i < n;) {
        unsigned char c = s[i];
        int k = c < 0x80 ? 0 : c >= 0xc2 && c <= 0xdf ? 1 : c >= 0xe0 && c <= 0xef ? 2 : c >= 0xf0 && c <= 0xf4 ? 3 : -1;
        badEnd = i;
        if (k < 0) return i;
        if (k == 0) { if (c < 0x20 && c != 9 && c != 10 && c != 13) return i; ++i; continue; }
        uint32_t v = c & (0x3f >> k);
        for (int j = 1; j <= k; ++j) {
            badEnd = i + j;
            if (i + j >= n) { missing = k - j + 1; badEnd = n - 1; return i; }
            if ((s[i + j] & 0xc0) != 0x80) return i;
            v = v << 6 | (s[i + j] & 0x3f);
        }
        if (v < (k == 1 ? 0x80u : k == 2 ? 0x800u : 0x10000u) || v > 0x10ffff || (v >= 0xd800 && v <= 0xdfff) || v == 0xfffe || v == 0xffff) return i;
        i += k + 1;
    }
    return -1;
}
static void one(X& x, const unsigned char* s, int n) {
    int missing, badEnd, bad = reference(s, n, missing, badEnd);
    const char* p = (const char*)s;
    bool ok = checkUtf8(p, n);
    if (ok != (bad < 0)) x.fail("validity", "checkUtf8('%s') is %d, should be %d", printable(p, n).c_str(), ok, bad < 0);
    char nb = 77; const char* r = checkUtf8(p, n, nb);
    if (bad < 0) { if (r != 0 || nb != 0) x.fail("valid-position", "checkUtf8('%s') reports an error at %ld, nb %d", printable(p, n).c_str(), (long)(r - p), nb); }
    else if (missing) {
        // an incomplete character at the end: its start and what is missing (unless what is there is already impossible)
        if (!(r == p + bad && nb == missing) && !(r && nb == 0 && r >= p + bad && r <= p + badEnd))
            x.fail("incomplete", "checkUtf8('%s') gives position %ld, nb %d; the incomplete character starts at %d and misses %d", printable(p, n).c_str(), (long)(r - p), nb, bad, missing);
        if (r != p + bad && n - bad == 1) x.fail("incomplete", "checkUtf8('%s') gives position %ld for the incomplete character at %d", printable(p, n).c_str(), (long)(r - p), bad);
    } else if (!(r && nb == 0 && r >= p + bad && r <= p + badEnd))
        x.fail("bad-position", "checkUtf8('%s') gives position %ld, nb %d; the bad character is at %d to %d", printable(p, n).c_str(), (long)(r - p), nb, bad, badEnd);
}
static void newlines(X& x, const unsigned char* s, int n) {
    char b[16], w[16]; memcpy(b, s, n); b[n] = 0; int len = (int)strlen(b); memcpy(w, b, len + 1);
    int missing, badEnd, bad = reference((unsigned char*)b, len, missing, badEnd);
    char* h = new char[len + 1]; memcpy(h, b, len + 1);
    convertNewLines(h);
    bool good = true;
    for (int i = 0; i <= len; ++i) {
        bool nl = b[i] == '\n' || b[i] == '\r';
        if (bad < 0 || i < bad) good &= h[i] == (nl ? ' ' : b[i]);
        else good &= h[i] == b[i] || (nl && h[i] == ' ');
    }
    std::string got(h, len + 1); delete [] h;
    if (!good) x.fail("newlines", "convertNewLines('%s') gives '%s'", printable(b, len).c_str(), printable(got.data(), len).c_str());
}

int main(int argc, char** argv) {
    Explorer e("C23");
    bool th = Explorer::thorough();
    // all strings of up to three bytes; longer ones start with each byte
    e.add("utf8-short", 256, [](X& x, int t) {
        unsigned char s[3]; s[0] = (unsigned char)t;
        if (t == 0) one(x, s, 0);
        one(x, s, 1);
        for (int a = 0; a < 256; ++a) { s[1] = a; one(x, s, 2); for (int b = 0; b < 256; ++b) { s[2] = b; one(x, s, 3); } }
        x.op(); x.state(t);
    }, false);
    e.add("utf8-four", 0x75 * 4, [th](X& x, int t) {
        // four and five bytes: leads of long characters, every second byte, all classes of the others
        static const unsigned char lead[] = { 0xf0, 0xf1, 0xf3, 0xf4, 0xf5, 0xef, 0xed, 0xe0, 0xc2, 'a' };
        static const unsigned char cls[] = { 0, 9, 'a', 0x7f, 0x80, 0x81, 0x8f, 0x90, 0x9f, 0xa0, 0xbd, 0xbe, 0xbf, 0xc0, 0xc2, 0xe0, 0xf4, 0xff };
        unsigned char s[5];
        for (int i = t; i < 10 * 256; i += 0x75 * 4) {
            s[0] = lead[i / 256]; s[1] = i % 256;
            for (int a = 0; a < 256; ++a) for (int b = 0; b < (th ? 256 : 18); ++b) {
                s[2] = a; s[3] = th ? b : cls[b]; one(x, s, 4);
                for (int c = 0; c < 18; ++c) { s[4] = cls[c]; one(x, s, 5); }
            }
        }
        x.op(); x.state(1000 + t);
    }, false);
    e.add("utf8-string", 8, [](X& x, int t) {
        static const char* s[] = { "", "abc", "a\xc3\xa9", "a\xc3", "\xff", "a\xe2\x82", "\xe2\x82\xac", "x\x01" }; int missing, badEnd;
        std::string v(s[t]); int bad = reference((const unsigned char*)v.data(), (int)v.size(), missing, badEnd); char nb = 9;
        x.check(checkUtf8(v) == (bad < 0), "string", "checkUtf8(string) of '%s'", s[t]);
        const char* r = checkUtf8(v, nb);
        x.check(nb == missing && (bad < 0 ? r == 0 : r != 0), "string", "checkUtf8(string, nb) of '%s'", s[t]);
        x.state(2000 + t);
    });
    e.add("newlines", 16, [](X& x, int t) {
        static const unsigned char cls[] = { 'a', '\n', '\r', 0x80, 0x8a, 0x8d, 0xc2, 0xe2, 0xf0, 0xff, 1, ' ' };
        unsigned char s[8]; int n = 12;
        uint64_t total = 1; for (int i = 0; i < 6; ++i) total *= n;
        for (uint64_t i = t; i < total; i += 16) { uint64_t v = i; for (int k = 0; k < 6; ++k) { s[k] = cls[v % n]; v /= n; } newlines(x, s, i % 3 == 0 ? 6 : i % 3 == 1 ? 5 : 4); }
        for (int i = t * 16; i < t * 16 + 16; ++i) for (int a = 0; a < 256; ++a) { s[0] = i; s[1] = a; s[2] = '\n'; newlines(x, s, 3); s[2] = '\r'; s[3] = 'x'; newlines(x, s, 4); }
        x.op(); x.state(3000 + t);
    }, false);
    // numbers: every value of every byte, on every background, aligned and not
    e.add("numbers", 256, [](X& x, int v) {
        static const unsigned char bg[] = { 0, 0xff, 0x80, 0x7f, 0x12 };
        for (int k = 0; k < 8; ++k) for (int g = 0; g < 5; ++g) for (int al = 0; al < 2; ++al) {
            unsigned char buf[16]; memset(buf, bg[g], 16); if (g == 4) for (int i = 0; i < 16; ++i) buf[i] = (unsigned char)(i * 0x1d + 3);
            unsigned char* p = buf + al; p[k] = (unsigned char)v;
            uint64_t le = 0, be = 0; for (int i = 0; i < 8; ++i) { le |= (uint64_t)p[i] << (8 * i); be = be << 8 | p[i]; }
            uint64_t b64 = be, l64 = le; uint32_t l32 = (uint32_t)le, b32 = (uint32_t)(be >> 32); uint16_t l16 = (uint16_t)le, b16 = (uint16_t)(be >> 48);
            const char* c = (const char*)p;
            bool ok = readLittleEndianInt16(c) == (int16_t)l16 && readLittleEndianUInt16(c) == l16 && readLittleEndianInt32(c) == (int32_t)l32 && readLittleEndianUInt32(c) == l32
                && readLittleEndianInt64(c) == (int64_t)l64 && readLittleEndianUInt64(c) == l64 && readBigEndianInt16(c) == (int16_t)b16 && readBigEndianUInt16(c) == b16
                && readBigEndianInt32(c) == (int32_t)b32 && readBigEndianUInt32(c) == b32 && readBigEndianInt64(c) == (int64_t)b64 && readBigEndianUInt64(c) == b64;
            x.check(ok, "numbers", "a number is read wrongly from %s", printable(p, 8).c_str());
            ok = readLittleEndianInt16(p) == (int16_t)l16 && readLittleEndianUInt16(p) == l16 && readLittleEndianInt32(p) == (int32_t)l32 && readLittleEndianUInt32(p) == l32
                && readLittleEndianInt64(p) == (int64_t)l64 && readLittleEndianUInt64(p) == l64 && readBigEndianInt16(p) == (int16_t)b16 && readBigEndianUInt16(p) == b16
                && readBigEndianInt32(p) == (int32_t)b32 && readBigEndianUInt32(p) == b32 && readBigEndianInt64(p) == (int64_t)b64 && readBigEndianUInt64(p) == b64;
            x.check(ok, "numbers-unsigned", "a number is read wrongly from unsigned bytes %s", printable(p, 8).c_str());
        }
        x.op(); x.state(4000 + v);
    });
    // every time of day on some days, every day at some times
    e.add("dostime", 128, [](X& x, int y) {
        auto t1 = [&](int mo, int d, int h, int mi, int s2) {
            unsigned long dt = (unsigned long)y << 25 | mo << 21 | d << 16 | h << 11 | mi << 5 | s2;
            struct tm t; memset(&t, 0, sizeof t); t.tm_year = y + 80; t.tm_mon = mo - 1; t.tm_mday = d; t.tm_hour = h; t.tm_min = mi; t.tm_sec = s2 * 2;
            time_t want = timegm(&t), got = dos2unixtime(dt);
            if (got != want) x.fail("dostime", "%d-%02d-%02d %02d:%02d:%02d is read as %ld instead of %ld", 1980 + y, mo, d, h, mi, s2 * 2, (long)got, (long)want);
        };
        for (int mo = 1; mo <= 12; ++mo) for (int d = 1; d <= 28; ++d) { t1(mo, d, 0, 0, 0); t1(mo, d, 23, 59, 29); }
        if (y % 16 == 3) { for (int h = 0; h < 24; ++h) for (int mi = 0; mi < 60; ++mi) for (int s = 0; s < 30; ++s) t1(y % 12 + 1, y % 28 + 1, h, mi, s); }
        else for (int h = 0; h < 24; ++h) for (int mi = 0; mi < 60; mi += 7) t1(1, 31, h, mi, h);
        x.op(); x.state(5000 + y);
    });
    return e.main(argc, argv);
}

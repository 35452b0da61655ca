// C08: base64 text is decoded exactly.
#include "streams.h"
#include <base64inputstream.h>
using namespace mc;
using namespace Strigi;

static const char* abc = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static std::string encode(const std::string& d, const std::string& sep = "", int every = 4, bool pad = true) {
    std::string r; int col = 0;
    auto put = [&](char c) { if (col && every && col % every == 0) r += sep; r += c; ++col; };
    for (size_t i = 0; i < d.size(); i += 3) {
        unsigned a = (unsigned char)d[i], b = i + 1 < d.size() ? (unsigned char)d[i + 1] : 0, c = i + 2 < d.size() ? (unsigned char)d[i + 2] : 0;
        unsigned v = a << 16 | b << 8 | c;
        put(abc[v >> 18]); put(abc[v >> 12 & 63]);
        if (i + 1 < d.size()) put(abc[v >> 6 & 63]); else if (pad) put('=');
        if (i + 2 < d.size()) put(abc[v & 63]); else if (pad) put('=');
    }
    return r;
}
static int val(unsigned char c) { if (!c) return -1; const char* p = strchr(abc, c); return p ? (int)(p - abc) : -1; }
// what the text means: complete groups, a padded group; lo: without, hi: with what an unpadded last group may give
static void reference(const std::string& t, std::string& lo, std::string& hi) {
    std::vector<int> g; lo.clear();
    bool pad = false;
    for (unsigned char c : t) {
        if (c == '=') { pad = true; break; }
        int v = val(c); if (v < 0) continue;
        g.push_back(v);
        if (g.size() == 4) {
            int w = g[0] << 18 | g[1] << 12 | g[2] << 6 | g[3];
            lo += (char)(w >> 16); lo += (char)(w >> 8); lo += (char)w; g.clear();
        }
    }
    hi = lo;
    if (g.size() >= 2) hi += (char)(g[0] << 2 | g[1] >> 4);
    if (g.size() == 3) hi += (char)(g[1] << 4 | g[2] >> 2);
    if (pad) lo = hi;
}
static std::string nth(const char* letters, int nl, uint64_t i) {
    int len = 0; uint64_t n = 1; while (i >= n) { i -= n; n *= nl; ++len; }
    std::string s; for (int k = 0; k < len; ++k) { s += letters[i % nl]; i /= nl; }
    return s;
}
static uint64_t count(int nl, int len) { uint64_t n = 0, p = 1; for (int i = 0; i <= len; ++i) { n += p; p *= nl; } return n; }

int main(int argc, char** argv) {
    Explorer e("C08");
    bool th = Explorer::thorough();
    std::vector<Policy> pol = policies(true), few = policiesFew();
    std::vector<Op> small = opsSmall();
    int np = (int)pol.size(), ns = (int)small.size();
    static std::vector<std::string> plain, text;
    for (int n = 0; n <= 10; ++n) for (int v = 0; v < 4; ++v) {
        std::string d; for (int i = 0; i < n; ++i) d += (char)(0xff - i * 37 + v);
        if (n > 6 && v) continue;
        plain.push_back(d); text.push_back(encode(d, v == 0 ? "" : v == 1 ? "\r\n" : v == 2 ? "\n " : "*\xc3", v == 1 ? 4 : v == 2 ? 3 : 1));
    }
    int nt = (int)text.size();
    e.add("operations", nt * np * ns, [=](X& x, int t) {
        const std::string& s = text[t % nt]; const std::string& d = plain[t % nt]; const Policy& p = pol[t / nt % np];
        x.note("text '%s' source %s", printable(s.data(), s.size()).c_str(), p.str().c_str());
        Src src(&x, s.data(), s.size(), p);
        Base64InputStream b(&src);
        Contract<char> c(x, &b, d.data(), d.size(), false);
        c.apply(small[t / nt / np]);
        c.run(small, (th ? 3 : 2) - (p.chunk == CHUNK_CHOOSE));
        c.drain(2, 3);
    });
    // every text over a small alphabet, in one piece and byte by byte
    const char* letters = "AQ/=\n\xff"; int nl = 6; int L = th ? 8 : 7;
    uint64_t total = count(nl, L); int block = 512;
    e.add("all-texts", (int)((total + block - 1) / block), [=](X& x, int t) {
        static const int reads[][2] = { { 1, 0 }, { 1, 1 }, { 2, 2 }, { 100, 0 } };
        for (uint64_t i = (uint64_t)t * block; i < std::min(total, (uint64_t)(t + 1) * block); ++i) {
            std::string s = nth(letters, nl, i), lo, hi, out; reference(s, lo, hi);
            for (int r = 0; r < 4; ++r) for (int ch = 0; ch < 2; ++ch) {
                Src src(&x, s.data(), s.size(), Policy(ch ? CHUNK_MIN : CHUNK_ALL, false, i & 1, false));
                Base64InputStream b(&src);
                bool ok = slurp(x, &b, out, reads[r][0], reads[r][1]);
                x.check(ok && b.size() == (int64_t)out.size(), "status", "text '%s' ends with status %s size %ld after %lu bytes", printable(s.data(), s.size()).c_str(), stName(b.status()), (long)b.size(), out.size());
                x.check(out.size() >= lo.size() && out.size() <= hi.size() && hi.compare(0, out.size(), out) == 0, "content", "text '%s' gives '%s', expected '%s'",
                    printable(s.data(), s.size()).c_str(), printable(out.data(), out.size()).c_str(), printable(lo.data(), lo.size()).c_str());
            }
            x.state(i);
        }
    }, false);
    // every byte value in every place of a group
    e.add("all-bytes", 256, [=](X& x, int t) {
        for (int v = 0; v < 256; ++v) for (int k = 0; k < 3; ++k) {
            std::string d; d += (char)t; d += (char)v; d += (char)(t ^ v * 7); d.resize(k + 1);
            std::string out, s = encode(d);
            Src src(&x, s.data(), s.size(), Policy(CHUNK_ALL, true, true, true));
            Base64InputStream b(&src);
            x.check(slurp(x, &b, out) && out == d, "content", "the encoding of '%s' gives '%s'", printable(d.data(), d.size()).c_str(), printable(out.data(), out.size()).c_str());
            out = Base64InputStream::decode(s.data(), s.size());
            x.check(out == d, "decode", "decode of the encoding of '%s' gives '%s'", printable(d.data(), d.size()).c_str(), printable(out.data(), out.size()).c_str());
            x.state(t * 1000 + v * 3 + k);
        }
        // foreign characters are ignored wherever they stand
        if (val(t) < 0 && t != '=') for (int at = 0; at <= 8; ++at) {
            std::string s = "QUJDRA=="; s.insert(at, 1, (char)t);
            std::string out;
            Src src(&x, s.data(), s.size(), Policy(CHUNK_MIN, false, false, false));
            Base64InputStream b(&src);
            x.check(slurp(x, &b, out) && out == "ABCD", "foreign", "character %02x at %d makes '%s'", t, at, printable(out.data(), out.size()).c_str());
        }
    }, false);
    // decode(): the exact bytes, or nothing when the text is not canonical
    uint64_t dt = count(7, th ? 8 : 7); const char* dl = "AQ/=\n\x80z";
    e.add("decode", (int)((dt + 4095) / 4096), [=](X& x, int t) {
        for (uint64_t i = (uint64_t)t * 4096; i < std::min(dt, (uint64_t)(t + 1) * 4096); ++i) {
            std::string s = nth(dl, 7, i); std::vector<char> exact(s.begin(), s.end());
            char* heap = new char[s.size()]; memcpy(heap, s.data(), s.size());
            std::string out = Base64InputStream::decode(heap, s.size());
            delete [] heap;
            std::string want, lo; bool good = s.size() % 4 == 0;
            size_t q = s.size(); while (q > 0 && s[q - 1] == '=') --q;
            if (s.size() - q > 2) good = false;
            for (size_t k = 0; k < q; ++k) if (val((unsigned char)s[k]) < 0) good = false;
            if (good) reference(s, lo, want);
            x.check(out == want, "decode", "decode of '%s' gives '%s', expected '%s'", printable(s.data(), s.size()).c_str(), printable(out.data(), out.size()).c_str(), printable(want.data(), want.size()).c_str());
            x.op();
        }
        x.state(t);
    }, false);
    // long texts across buffer boundaries
    int sizes[] = { 190, 191, 192, 1000, 5000 };
    e.add("long", 5 * (int)few.size() * 4, [=](X& x, int t) {
        std::string d; for (int i = 0; i < sizes[t % 5]; ++i) d += (char)(i * i >> 3);
        std::string s = encode(d, "\r\n", 76);
        static const int reads[][2] = { { 1, 0 }, { 5, 7 }, { 64, 64 }, { 1000, 0 } };
        Src src(&x, s.data(), s.size(), few[t / 5 % few.size()]);
        Base64InputStream b(&src);
        Contract<char> c(x, &b, d.data(), d.size(), false);
        const int* r = reads[t / 5 / few.size()];
        const int* r2 = reads[x.choose(4, "second kind of read")];
        c.read(r2[0], r2[1]); c.skip(x.choose(3, "skip") * 63); c.drain(r[0], r[1]);
    });
    // failing input
    e.add("io-error", nt * 4, [=](X& x, int t) {
        const std::string& s = text[t % nt]; const std::string& d = plain[t % nt];
        Policy p = few[t / nt]; p.errorAt = x.choose((int)s.size() + 1, "error position");
        if (s.find('=') != std::string::npos && p.errorAt > (int64_t)s.find('=')) return;
        Src src(&x, s.data(), s.size(), p);
        Base64InputStream b(&src);
        Contract<char> c(x, &b, d.data(), d.size(), false, true);
        c.run(small, 1); c.drain(1, 2);
        x.check(c.ended && b.status() == Error, "error-lost", "an I/O error at %ld of '%s' is not reported", (long)p.errorAt, printable(s.data(), s.size()).c_str());
    });
    return e.main(argc, argv);
}

// C09: character set conversion gives the text, the whole text, or an error.
#include "streams.h"
#include <strigi/inputstreamreader.h>
#include <strigi/encodinginputstream.h>
#include <iconv.h>
using namespace mc;
using namespace Strigi;

// the reference: one call of iconv on everything, and the final one
static bool whole(const char* from, const char* to, const std::string& in, std::string& out) {
    iconv_t c = iconv_open(to, from); if (c == (iconv_t)-1) abort();
    std::vector<char> buf(in.size() * 8 + 256); char* ip = (char*)in.data(); size_t il = in.size(); char* op = buf.data(); size_t ol = buf.size();
    bool ok = iconv(c, &ip, &il, &op, &ol) != (size_t)-1 && iconv(c, 0, 0, &op, &ol) != (size_t)-1;
    out.assign(buf.data(), op - buf.data());
    iconv_close(c);
    return ok;
}
static std::wstring asWide(const std::string& s) { std::wstring w(s.size() / sizeof(wchar_t), 0); memcpy(&w[0], s.data(), w.size() * sizeof(wchar_t)); return w; }
// an independent reference for UTF-8
static bool utf8(const std::string& s, std::wstring& out) {
    out.clear();
    for (size_t i = 0; i < s.size();) {
        unsigned char c = s[i]; int n = c < 0x80 ? 0 : c >= 0xc2 && c < 0xe0 ? 1 : c >= 0xe0 && c < 0xf0 ? 2 : c >= 0xf0 && c < 0xf5 ? 3 : -1;
        if (n < 0) return false;
        uint32_t v = n == 0 ? c : c & (0x3f >> n);
        if (i + n >= s.size() + 0) { if (i + n > s.size() - 1) return false; }
        for (int k = 1; k <= n; ++k) { unsigned char d = s[i + k]; if ((d & 0xc0) != 0x80) return false; v = v << 6 | (d & 0x3f); }
        if ((n == 2 && v < 0x800) || (n == 3 && (v < 0x10000 || v > 0x10ffff)) || (v >= 0xd800 && v < 0xe000)) return false;
        out += (wchar_t)v; i += n + 1;
    }
    return true;
}
struct Text { const char* enc; std::string bytes; };
static std::vector<Text> texts;
static void text(const char* enc, const std::string& utf) {
    Text t; t.enc = enc;
    if (!whole("UTF-8", enc, utf, t.bytes)) { fprintf(stderr, "no %s\n", enc); abort(); }
    texts.push_back(t);
}
static std::string nth(const unsigned char* letters, int nl, uint64_t i) {
    int len = 0; uint64_t n = 1; while (i >= n) { i -= n; n *= nl; ++len; }
    std::string s; for (int k = 0; k < len; ++k) { s += (char)letters[i % nl]; i /= nl; }
    return s;
}
static uint64_t count(int nl, int len) { uint64_t n = 0, p = 1; for (int i = 0; i <= len; ++i) { n += p; p *= nl; } return n; }

// drives a decoder over bytes: the reference's text, or (if it rejects them) an error after a prefix of it
template <class T, class S>
static void drive(X& x, S& s, const std::basic_string<T>& want, bool valid, const std::vector<Op>& ops, int depth, int dr) {
    static const int reads[][2] = { { 1, 0 }, { 1, 1 }, { 2, 2 }, { 5, 0 } };
    Contract<T> c(x, &s, want.data(), want.size(), false, !valid);
    c.run(ops, depth);
    if (valid) { c.drain(reads[dr][0], reads[dr][1]); return; }
    // the text is damaged: the stream must end in an error, and show nothing but the good part
    const T* p; int32_t n;
    while (!c.ended) {
        n = s.read(p, reads[dr][0], reads[dr][1]);
        if (n <= 0) { x.check(n != 0 && s.status() == Error && s.error()[0], "damage-accepted", "damaged text ends with %d status %s", n, stName(s.status())); break; }
        x.check(c.pos + n <= c.N && !memcmp(p, want.data() + c.pos, n * sizeof(T)), "content", "damaged text gives '%s' at %ld, its good part is '%s'", show(p, n).c_str(), (long)c.pos, show(want.data(), want.size()).c_str());
        c.pos += n;
    }
}

int main(int argc, char** argv) {
    Explorer e("C09");
    bool th = Explorer::thorough();
    std::string greek = "a\xce\xb1\xce\xb2z", mixed = "x\xe2\x82\xac\xf0\x9f\x98\x80y\xc3\xa9", japan = "a\xe6\x97\xa5\xe6\x9c\xac" "b\xe8\xaa\x9e", hebrew = "\xd7\xa9\xd7\x9c\xd7\x95\xd7\x9d \xd7\x99\xd7\x99";
    const char* plainEnc[] = { "UTF-8", "UTF-16LE", "UTF-16BE", "UTF-16", "UTF-32BE", "UTF-7", "UCS-4LE" };
    for (const char* n : plainEnc) { text(n, ""); text(n, mixed); text(n, greek); }
    text("ISO-8859-1", "caf\xc3\xa9 \xc3\xbc"); text("ISO-8859-7", greek); text("SHIFT_JIS", japan); text("EUC-JP", japan); text("ISO-2022-JP", japan); text("GB18030", mixed); text("BIG5", "a\xe6\x97\xa5\xe6\x9c\xac");
    text("CP1255", hebrew); text("CP1258", "Vi\xc3\xaa\xcc\xa3t a"); text("CP1252", "caf\xc3\xa9");
    // codes that stand for two characters
    text("BIG5-HKSCS", "\xc3\x8a\xcc\x84" "a\xc3\xaa\xcc\x8c"); text("EUC-JISX0213", "\xe3\x81\x8b\xe3\x82\x9a" "a\xe3\x82\xbb\xe3\x82\x9a"); text("SHIFT_JISX0213", "b\xe3\x81\x8b\xe3\x82\x9a\xc3\xa6\xcc\x80"); text("TCVN", "Vi\xe1\xbb\x87t");
    std::vector<Policy> pol = policies(true), few = policiesFew();
    int np = (int)pol.size(), nt = (int)texts.size();
    std::vector<Op> small = opsSmall(); int ns = (int)small.size();
    static const char* outs[] = { 0, "UTF-8", "UTF-16LE", "UTF-16", "UTF-7", "ISO-2022-JP-2" };

    e.add("reader", nt * np * ns, [=](X& x, int t) {
        const Text& te = texts[t % nt]; const Policy& p = pol[t / nt % np];
        x.site("reader:%s", te.enc);
        std::string w; bool ok = whole(te.enc, "WCHAR_T", te.bytes, w);
        std::wstring want = asWide(w);
        x.note("'%s' in %s, source %s", printable(te.bytes.data(), te.bytes.size()).c_str(), te.enc, p.str().c_str());
        Src src(&x, te.bytes.data(), te.bytes.size(), p);
        InputStreamReader r(&src, te.enc);
        Contract<wchar_t> c(x, &r, want.data(), want.size(), false);
        c.apply(small[t / nt / np]);
        c.run(small, p.chunk == CHUNK_CHOOSE ? 0 : th ? 2 : 1);
        c.drain(1, 2);
        (void)ok;
    });
    e.add("converter", nt * np * 6, [=](X& x, int t) {
        const Text& te = texts[t % nt]; const Policy& p = pol[t / nt % np]; const char* to = outs[t / nt / np];
        x.site("converter:%s:%s", te.enc, to ? to : "default");
        std::string want; bool ok = whole(te.enc, to ? to : "UTF-8", te.bytes, want);
        x.note("'%s' from %s to %s, source %s", printable(te.bytes.data(), te.bytes.size()).c_str(), te.enc, to ? to : "default", p.str().c_str());
        Src src(&x, te.bytes.data(), te.bytes.size(), p);
        EncodingInputStream r(&src, te.enc, to);
        drive<char>(x, r, want, ok, small, p.chunk == CHUNK_CHOOSE ? 0 : th ? 2 : 1, x.choose(4, "read"));
    });
    // every byte string over critical bytes; the size of the first pieces varies
    static const unsigned char crit[] = { 'a', 0x80, 0xbf, 0xc2, 0xe0, 0xed, 0xf0, 0xf4, 0xe2, 0xff };
    int L = th ? 6 : 5; uint64_t total = count(10, L); int block = 64;
    e.add("all-utf8", (int)((total + block - 1) / block), [=](X& x, int t) {
        std::vector<Op> none;
        for (uint64_t i = (uint64_t)t * block; i < std::min(total, (uint64_t)(t + 1) * block); ++i) {
            std::string s = nth(crit, 10, i), viaIconv; std::wstring want;
            bool valid = utf8(s, want);
            // iconv of glibc accepts some values above 0x10ffff when they arrive in pieces: not judged here
            bool quirk = false; for (size_t k = 0; k + 1 < s.size(); ++k) quirk |= (unsigned char)s[k] == 0xf4 && (unsigned char)s[k + 1] >= 0x90;
            if (quirk) continue;
            for (int ch = 0; ch < 4; ++ch) {
                Src src(&x, s.data(), s.size(), Policy(ch & 1 ? CHUNK_MIN : CHUNK_ALL, false, i & 1, false));
                InputStreamReader r(&src);
                drive<wchar_t>(x, r, want, valid, none, 0, ch & 2 ? 3 : 0);
            }
            for (int ch = 0; ch < 2; ++ch) {
                std::string want8; whole("UTF-8", "UTF-16LE", s, want8);
                Src src(&x, s.data(), s.size(), Policy(ch ? CHUNK_MIN : CHUNK_ALL, false, i & 1, false));
                EncodingInputStream r(&src, "UTF-8", "UTF-16LE");
                drive<char>(x, r, want8, valid, none, 0, i % 4);
            }
            x.state(i); x.obs(valid);
        }
    }, false);
    // every unit of a two byte encoding
    e.add("all-utf16", 256, [=](X& x, int t) {
        for (int v = 0; v < 256; ++v) {
            std::string s; s += (char)v; s += (char)t; s += 'x'; s += '\0';
            bool sur = t >= 0xd8 && t <= 0xdf; std::wstring want; if (!sur) { want += (wchar_t)(t << 8 | v); want += L'x'; }
            Src src(&x, s.data(), s.size(), Policy(CHUNK_MIN, false, false, false));
            InputStreamReader r(&src, "UTF-16LE");
            std::vector<Op> none;
            drive<wchar_t>(x, r, want, !sur, none, 0, v % 4);
        }
        x.state(t);
    }, false);
    // texts longer than the internal buffers: a multibyte character at every offset around them
    e.add("long", 2 * 40 * (int)few.size(), [=](X& x, int t) {
        bool reader = t % 2; int off = 230 + t / 2 % 40; const Policy& p = few[t / 80];
        static const char* encs[] = { "UTF-8", "UTF-16LE", "SHIFT_JIS", "UTF-7" };
        const char* enc = encs[x.choose(4, "encoding")];
        std::string u(off, 'q'); u += japan; u += std::string(30, 'r'); u += japan; u += std::string(500 + off, 's');
        std::string in; whole("UTF-8", enc, u, in);
        x.site("long:%s:%s", reader ? "reader" : "converter", enc);
        x.note("offset %d, %lu bytes in %s, source %s", off, in.size(), enc, p.str().c_str());
        Src src(&x, in.data(), in.size(), p);
        std::vector<Op> ops; ops.push_back(R(1, 0)); ops.push_back(R(off, off)); ops.push_back(R(off + 1, 0)); ops.push_back(K(off)); ops.push_back(R(1, 1));
        if (reader) {
            InputStreamReader r(&src, enc); std::string w; whole(enc, "WCHAR_T", in, w); std::wstring want = asWide(w);
            drive<wchar_t>(x, r, want, true, ops, 1, x.choose(4, "read"));
        } else {
            EncodingInputStream r(&src, enc, x.choose(2, "to") ? "UTF-16BE" : "UTF-8"); std::string want = "";
            whole(enc, r.status() == Error ? "UTF-8" : (x.s->choice[x.pos - 1] ? "UTF-16BE" : "UTF-8"), in, want);
            drive<char>(x, r, want, true, ops, 1, x.choose(4, "read"));
        }
    });
    // one byte is changed
    e.add("changed", nt * 3, [=](X& x, int t) {
        const Text& te = texts[t % nt]; static const unsigned char by[] = { 0xff, 0x80, 0x1b }; std::string in = te.bytes;
        if (in.empty()) return;
        x.site("changed:%s", te.enc); int at = x.choose((int)in.size(), "place"); in[at] = (char)by[t / nt];
        const Policy& p = few[x.choose((int)few.size(), "source")]; int k = x.choose(4, "read"); std::string w; std::vector<Op> none;
        x.note("'%s' in %s, byte %d is %02x, source %s", printable(te.bytes.data(), te.bytes.size()).c_str(), te.enc, at, by[t / nt], p.str().c_str());
        bool ok = whole(te.enc, "WCHAR_T", in, w); std::wstring want = asWide(w);
        Src src(&x, in.data(), in.size(), p); InputStreamReader r(&src, te.enc);
        drive<wchar_t>(x, r, want, ok, none, 0, k);
        ok = whole(te.enc, "UTF-8", in, w);
        Src src2(&x, in.data(), in.size(), p); EncodingInputStream r2(&src2, te.enc, "UTF-8");
        drive<char>(x, r2, w, ok, none, 0, k);
    });
    // truncated in the middle of a character; failing input; unknown encodings
    e.add("truncated", nt * 4, [=](X& x, int t) {
        const Text& te = texts[t % nt]; const Policy& p0 = few[t / nt];
        x.site("truncated:%s", te.enc);
        int at = x.choose((int)te.bytes.size() + 1, "length"); bool io = x.choose(2, "io error");
        Policy p = p0; if (io) p.errorAt = at;
        std::string in = te.bytes.substr(0, at), w; bool ok = whole(te.enc, "WCHAR_T", in, w) && !io; std::wstring want = asWide(w);
        Src src(&x, te.bytes.data(), io ? te.bytes.size() : at, p);
        InputStreamReader r(&src, te.enc);
        std::vector<Op> none; int k = x.choose(4, "read");
        drive<wchar_t>(x, r, want, ok, none, 0, k);
        Src src2(&x, te.bytes.data(), io ? te.bytes.size() : at, p);
        EncodingInputStream r2(&src2, te.enc, "UTF-16BE"); std::string w2; bool ok2 = whole(te.enc, "UTF-16BE", in, w2) && !io;
        drive<char>(x, r2, w2, ok2, none, 0, k);
    });
    e.add("unknown", 6, [=](X& x, int t) {
        x.site("unknown");
        const char* bad[] = { "no-such-charset", "", "UTF-8" }; const char* p; const wchar_t* w;
        Src src(&x, "abc", 3, few[x.choose((int)few.size(), "source")]);
        if (t < 3) {
            EncodingInputStream r(&src, t == 2 ? 0 : "UTF-8", t == 2 ? 0 : bad[t]);
            EncodingInputStream r3(&src, t == 0 ? bad[0] : 0);
            if (t != 1) x.check(r.status() == Error && r.error()[0] && r.read(p, 1, 0) == -2 && r3.read(p, 1, 0) == -2, "unknown-accepted", "conversion to or from an unknown encoding is not an error");
        } else {
            InputStreamReader r(&src, t == 3 ? bad[0] : "x-unknown");
            x.check(r.status() == Error && r.error()[0] && r.read(w, 1, 0) == -2, "unknown-accepted", "decoding from an unknown encoding is not an error");
        }
        x.state(t);
    });
    return e.main(argc, argv);
}

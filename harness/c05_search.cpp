// C05: string search finds the first occurrence, and only that.
#include "streams.h"
#include <strigi/kmpsearcher.h>
using namespace mc;
using namespace Strigi;

static std::string word(int n, int len, int k) { std::string s; for (int i = 0; i < len; ++i) { s += (char)('a' + n % k); n /= k; } return s; }
static int ipow(int k, int n) { int r = 1; while (n--) r *= k; return r; }

static void compare(X& x, const KmpSearcher& s, const std::string& needle, const std::string& hay) {
    // the haystack ends exactly at the end of a heap block
    char* h = new char[hay.size() ? hay.size() : 1]; std::unique_ptr<char[]> own(h);
    memcpy(h, hay.data(), hay.size());
    const char* r = s.search(h, (int32_t)hay.size());
    size_t e = hay.find(needle);
    x.op();
    if (e == std::string::npos) x.check(r == 0, "false-match", "'%s' in '%s' is reported at %ld", printable(needle.data(), needle.size()).c_str(), printable(hay.data(), hay.size()).c_str(), (long)(r - h));
    else x.check(r == h + e, "missed", "'%s' in '%s' is at %lu, search says %ld", printable(needle.data(), needle.size()).c_str(), printable(hay.data(), hay.size()).c_str(), (unsigned long)e, r ? (long)(r - h) : -1L);
    x.obs(e);
}
static void sweep(X& x, const KmpSearcher& s, const std::string& needle, int k, int maxlen) {
    for (int len = 0; len <= maxlen; ++len) {
        int c = ipow(k, len);
        for (int i = 0; i < c; ++i) compare(x, s, needle, word(i, len, k));
        x.state(mix(hashBytes(needle.data(), needle.size()), len));
    }
}

int main(int argc, char** argv) {
    Explorer e("C05");
    bool th = Explorer::thorough();
    int n2 = th ? 8 : 7, h2 = th ? 16 : 13, n3 = th ? 5 : 4, h3 = th ? 9 : 8;
    int c2 = ipow(2, n2 + 1) - 2, c3 = 0; for (int i = 1; i <= n3; ++i) c3 += ipow(3, i);
    auto needle = [](int i, int k) { int len = 1; while (i >= ipow(k, len)) { i -= ipow(k, len); ++len; } return word(i, len, k); };
    e.add("two-letters", c2, [=](X& x, int t) {
        std::string n = needle(t, 2); x.site("two-letters");
        x.note("needle '%s', all haystacks over {a,b} up to %d", n.c_str(), h2);
        KmpSearcher s(n);
        x.check(s.queryLength() == (int)n.size() && s.query() == n, "query", "query() or queryLength() wrong");
        sweep(x, s, n, 2, h2);
    });
    e.add("three-letters", c3, [=](X& x, int t) {
        std::string n = needle(t, 3); x.site("three-letters");
        x.note("needle '%s', all haystacks over {a,b,c} up to %d", n.c_str(), h3);
        KmpSearcher s(n); sweep(x, s, n, 3, h3);
    });
    // the searcher is given a second query: nothing of the first one may remain
    int r = 62;   // needles up to length 5
    e.add("requery", r * r, [=](X& x, int t) {
        std::string a = needle(t % r, 2), b = needle(t / r, 2); x.site("requery");
        x.note("needle '%s' then '%s'", a.c_str(), b.c_str());
        KmpSearcher s; s.setQuery(a); compare(x, s, a, "abba" + a); s.setQuery(b);
        sweep(x, s, b, 2, 8);
        s.setQuery(a); sweep(x, s, a, 2, 6);
    });
    // all byte values
    e.add("bytes", 256, [=](X& x, int t) {
        x.site("bytes");
        char c = (char)t, d = (char)(t + 1), f = (char)(t + 128);
        std::string al; al += c; al += d; al += f;
        for (int nl = 1; nl <= 3; ++nl) for (int i = 0; i < ipow(3, nl); ++i) {
            std::string n = word(i, nl, 3); for (char& q : n) q = al[q - 'a'];
            KmpSearcher s(n);
            for (int hl = 0; hl <= 5; ++hl) for (int j = 0; j < ipow(3, hl); ++j) {
                std::string h = word(j, hl, 3); for (char& q : h) q = al[q - 'a'];
                compare(x, s, n, h);
            }
        }
        x.state(t);
    });
    // long periodic needles
    e.add("long", 40, [=](X& x, int t) {
        x.site("long");
        for (int per = 1; per <= 4; ++per) for (int brk = 0; brk <= t + 1; ++brk) {
            std::string n; for (int i = 0; i < t + 1; ++i) n += (char)('a' + i % per);
            if (brk <= t) n[brk] = 'z';
            KmpSearcher s(n);
            for (int pre = 0; pre < 12; ++pre) for (int cut = 0; cut < 3; ++cut) {
                std::string h; for (int i = 0; i < pre; ++i) h += (char)('a' + i % per);
                h += n; h.resize(h.size() - std::min<size_t>(cut, h.size()));
                compare(x, s, n, h);
                compare(x, s, n, h + h);
            }
        }
        x.state(t);
    });
    e.add("unset", 2, [=](X& x, int t) {
        x.site("unset");
        KmpSearcher s;
        if (t == 0) x.check(s.search("abc", 3) == 0, "unset", "a searcher without a query finds something");
        else { s.setQuery(""); const char* h = "abc"; const char* r = s.search(h, 3); x.check(r == 0 || r == h, "empty", "the empty query is found at %ld", (long)(r - h)); }
    });
    return e.main(argc, argv);
}

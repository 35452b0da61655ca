// C04: a string terminated sub stream is exactly what precedes the first terminator.
#include "streams.h"
#include <strigi/stringterminatedsubstream.h>
using namespace mc;
using namespace Strigi;

static std::string word(int n, int len, const char* alpha) {
    int k = (int)strlen(alpha);
    std::string s; for (int i = 0; i < len; ++i) { s += alpha[n % k]; n /= k; }
    return s;
}
static int count(int k, int maxlen) { int c = 0, p = 1; for (int i = 0; i <= maxlen; ++i) { c += p; p *= k; } return c; }
static std::string nth(int i, const char* alpha) {
    int k = (int)strlen(alpha), p = 1, len = 0;
    while (i >= p) { i -= p; p *= k; ++len; }
    return word(i, len, alpha);
}

static void one(X& x, const Policy& p, const std::string& before, const std::string& d, const std::string& term, const std::vector<Op>& ops, int depth, int fin) {
    std::string all = before + d;
    size_t q = d.find(term);
    bool found = q != std::string::npos;
    std::string want = found ? d.substr(0, q) : d;
    Src parent(&x, all.data(), all.size(), p);
    if (!before.empty()) parent.skip(before.size());
    x.note("content '%s' terminator '%s' parent %s", d.c_str(), term.c_str(), p.str().c_str());
    StringTerminatedSubStream s(&parent, term);
    x.check(s.offset() == (int64_t)before.size(), "offset", "offset() is %ld", (long)s.offset());
    Contract<char> c(x, &s, want.data(), want.size(), false);
    c.run(ops, depth);
    static const Op fins[3] = { R(1, 0), R(1, 2), R(2, 3) };
    c.drain(fins[fin].a, fins[fin].b);
    if (!c.ended) {
        int64_t e = (int64_t)(before.size() + (found ? q + term.size() : d.size()));
        x.check(parent.position() == e, "parent-position", "after the end the parent is at %ld, expected %ld", (long)parent.position(), (long)e);
    }
}

int main(int argc, char** argv) {
    Explorer e("C04");
    bool th = Explorer::thorough();
    std::vector<Policy> pol;
    pol.push_back(Policy(CHUNK_ALL, true, true, true)); pol.push_back(Policy(CHUNK_MIN, false, false, false));
    pol.push_back(Policy(3, false, true, false)); pol.push_back(Policy(CHUNK_ALL, false, false, false)); pol.push_back(Policy(CHUNK_CHOOSE, true, false, true));
    int np = (int)pol.size();
    const char* terms[] = { "a", "ab", "aa", "aba", "bab", "aab" };
    std::vector<Op> ops;
    ops.push_back(R(1, 0)); ops.push_back(R(1, 1)); ops.push_back(R(1, 2)); ops.push_back(R(2, 2)); ops.push_back(R(3, 0)); ops.push_back(R(100, 0));
    ops.push_back(R(2, 5)); ops.push_back(K(1)); ops.push_back(K(3)); ops.push_back(Z(T_ZERO)); ops.push_back(Z(T_SEGSTART)); ops.push_back(Z(T_SEGMID)); ops.push_back(Z(T_POSP1)); ops.push_back(Z(T_END)); ops.push_back(Z(T_BEYOND)); ops.push_back(Z(T_POS));
    int c8 = count(2, th ? 10 : 8), c6 = count(2, th ? 8 : 6);
    // all contents, every way to read them with one kind of read
    e.add("all-contents", c8 * 6, [=](X& x, int t) {
        std::string d = nth(t % c8, "ab"); std::string term = terms[t / c8];
        const Policy& p = pol[x.choose(np, "policy")];
        int before = x.choose(2, "offset") * 2;
        int fin = x.choose(3, "reads");
        x.site("all-contents");
        one(x, p, std::string("ab", before), d, term, ops, 0, fin);
    });
    // operation sequences
    e.add("operations", c6 * 6, [=](X& x, int t) {
        std::string d = nth(t % c6, "ab"); std::string term = terms[t / c6];
        const Policy& p = pol[x.choose(np, "policy")];
        x.site("operations");
        bool off = x.choose(2, "offset");
        one(x, p, off ? "babab" : "b", d, term, ops, off ? 2 : th ? 4 : 3, 1);
    });
    // longer data around the end of the terminator and sizes beyond small buffers
    e.add("long", 40 * np, [=](X& x, int t) {
        int n = 1000 + t / np; const Policy& p = pol[t % np];
        if (p.chunk == CHUNK_CHOOSE) return;
        std::string d(n, 'x'); bool has = x.choose(2, "terminated"); if (has) d += "\n$$$$\nrest";
        int fin = x.choose(3, "reads");
        static const Op big[] = { R(1, 0), R(1024, 0), R(1024, 1024), R(1005, 1010), R(10, 17) };
        std::vector<Op> o(big, big + 5);
        x.site("long");
        one(x, p, "", d, "\n$$$$\n", o, 1, fin);
    });
    // the parent fails
    e.add("parent-fails", np * 8, [=](X& x, int t) {
        Policy p = pol[t % np]; int at = t / np;
        std::string d = "bbbbbbbbabb";
        p.errorAt = at;
        x.site("parent-fails");
        Src parent(&x, d.data(), d.size(), p);
        StringTerminatedSubStream s(&parent, "ab");
        Contract<char> c(x, &s, d.data(), 8, false, true);
        c.run(ops, th ? 3 : 2);
        for (int i = 0; i < 30 && !c.ended; ++i) c.read(1, 2);
        x.check(c.ended && s.status() == Error, "error-lost", "I/O error of the parent at %d: ends with status %s at %ld", at, stName(s.status()), (long)s.position());
    });
    return e.main(argc, argv);
}

// C01: the contract of buffered streams, for every way in which the underlying resource
// may hand out its data.
#include "streams.h"
#include <skippingbufferedstream.h>
using namespace mc;
using namespace Strigi;

template <class T>
struct Content { static void make(std::vector<T>& d, int n) { for (int i = 0; i < n; ++i) d.push_back((T)('A' + i % 57)); } };

struct Fill { int chunk; bool preset; int minbuf; int errorAt; int setsize; bool endWithData; };

// a user's stream on top of BufferedStream<T> or SkippingBufferedStream<T>
template <class Base, class T>
class Mine : public Base {
public:
    X* x; std::vector<T> d; size_t at; Fill f; bool calledAfterEnd; bool ended;
    Mine(X* x_, const std::vector<T>& dd, const Fill& ff) : x(x_), d(dd), at(0), f(ff), calledAfterEnd(false), ended(false) {
        if (f.preset) this->m_size = (int64_t)d.size();
        if (f.setsize >= 0) this->m_size = f.setsize;
        if (f.minbuf) this->setMinBufSize(f.minbuf);
    }
    int32_t fillBuffer(T* start, int32_t space) {
        if (space <= 0) x->fail("no-space", "fillBuffer called with space %d", space);
        if (ended) x->fail("fill-after-end", "fillBuffer called again after it reported the end");
        memset(start, 0x55, space * sizeof(T));           // everything in [start, start+space) is mine to write
        if (f.errorAt >= 0 && (int)at >= f.errorAt) {
            this->m_status = Error; this->m_error = "injected"; ended = true; return -1;
        }
        size_t lim = f.errorAt >= 0 ? (size_t)f.errorAt : d.size();
        size_t n = std::min((size_t)space, lim - at);
        if (n == 0) { ended = true; return -1; }
        if (f.chunk == CHUNK_CHOOSE) {
            size_t opt[3]; int k = 0;
            opt[k++] = n; if (n > 1) opt[k++] = 1; if (n > 2) opt[k++] = n / 2;
            n = opt[x->choose(k, "fill")];
        } else if (f.chunk > 0) n = std::min(n, (size_t)f.chunk);
        memcpy(start, d.data() + at, n * sizeof(T));
        at += n;
        return (int32_t)n;
    }
    void again(const std::vector<T>& dd) { d = dd; at = 0; ended = false; this->resetBuffer(); if (f.preset) this->m_size = (int64_t)d.size(); }
};
template <class T> struct Adv : public Mine<SkippingBufferedStream<T>, T> {
    Adv(X* x_, const std::vector<T>& dd, const Fill& ff) : Mine<SkippingBufferedStream<T>, T>(x_, dd, ff) {}
    int64_t advanceInput(int64_t k) {
        if (k <= 0) this->x->fail("advance", "advanceInput(%ld)", (long)k);
        size_t n = std::min((size_t)k, this->d.size() - this->at);
        this->at += n;
        return (int64_t)n;
    }
};

static std::vector<Fill> fills() {
    std::vector<Fill> v;
    int ch[] = { 0, 1, 3, CHUNK_CHOOSE };
    for (int c = 0; c < 4; ++c) for (int p = 0; p < 2; ++p) for (int m = 0; m < 3; ++m) {
        Fill f = { ch[c], p != 0, m == 0 ? 0 : m == 1 ? 2 : 16, -1, -1, false };
        v.push_back(f);
    }
    return v;
}

template <class M, class T> static void contract(X& x, const Fill& f, int n, const std::vector<Op>& ops, int depth) {
    std::vector<T> d; Content<T>::make(d, n);
    M s(&x, d, f);
    x.note("content %d items, fill chunk %d, size %s, min buffer %d", n, f.chunk, f.preset ? "known" : "unknown", f.minbuf);
    Contract<T> c(x, &s, d.data(), n, false);
    c.run(ops, depth);
    c.drain(1, 0);
}

template <class M, class T> static void add(Explorer& e, const char* name, std::vector<Op> ops, int depth, std::vector<int> sizes) {
    std::vector<Fill> fs = fills();
    int nf = (int)fs.size(), ns = (int)sizes.size(), no = (int)ops.size();
    std::vector<Op> o = ops;
    e.add(name, nf * ns * no, [=](X& x, int t) {
        const Fill& f = fs[t % nf]; int n = sizes[(t / nf) % ns]; int first = t / nf / ns;
        std::vector<T> d; Content<T>::make(d, n);
        x.site("%s", name);
        M s(&x, d, f);
        x.note("content %d items, fill chunk %d, size %s, min buffer %d", n, f.chunk, f.preset ? "known" : "unknown", f.minbuf);
        Contract<T> c(x, &s, d.data(), n, false);
        c.apply(o[first]);
        c.run(o, depth - 1);
        c.drain(2, 3);
    });
}

int main(int argc, char** argv) {
    Explorer e("C01");
    bool th = Explorer::thorough();
    typedef Mine<BufferedStream<char>, char> B;
    typedef Mine<BufferedStream<wchar_t>, wchar_t> BW;
    typedef Mine<SkippingBufferedStream<char>, char> S;
    std::vector<int> few; few.push_back(0); few.push_back(1); few.push_back(5); few.push_back(9);
    add<B, char>(e, "buffered", opsFull(), th ? 4 : 3, few);
    add<B, char>(e, "buffered-deep", opsSmall(), th ? 6 : 4, std::vector<int>(1, 7));
    add<BW, wchar_t>(e, "buffered-wide", opsSmall(), th ? 4 : 3, few);
    add<S, char>(e, "skipping", opsFull(), th ? 4 : 3, few);
    add<Adv<char>, char>(e, "skipping-advance", opsFull(), th ? 4 : 3, few);
    // the resource fails at some point: data before may be delivered, but the end is never reported
    {
        std::vector<Op> ops = opsSmall();
        e.add("fill-error", 4 * 3 * 8, [=](X& x, int t) {
            int chunks[] = { 0, 1, 3, CHUNK_CHOOSE };
            Fill f = { chunks[t % 4], false, 0, (t / 4) % 3 * 2, -1, false };
            f.errorAt = (t / 12);
            f.preset = (t / 4) % 3 == 1; f.minbuf = (t / 4) % 3 == 2 ? 8 : 0;
            std::vector<char> d; Content<char>::make(d, 8);
            x.site("fill-error");
            B s(&x, d, f);
            Contract<char> c(x, &s, d.data(), 8, false, true);
            c.run(ops, th ? 4 : 3);
            c.drain(1, 2);
            x.check(c.ended && s.status() == Error, "error-lost", "the failure of the resource at %d was not reported", f.errorAt);
            const char* p;
            x.check(s.read(p, 1, 1) == -2, "error-sticky", "read after an error is not -2");
        });
    }
    // the resource holds more than the size that was announced: an error, never silence
    e.add("longer-than-size", 4 * 8, [=](X& x, int t) {
        int chunks[] = { 0, 1, 3, CHUNK_CHOOSE };
        Fill f = { chunks[t % 4], false, 0, -1, t / 4 % 8 + 1, false };
        std::vector<char> d; Content<char>::make(d, 9);
        x.site("longer-than-size");
        B s(&x, d, f);
        const char* p; int64_t total = 0; int guard = 0;
        for (;;) {
            static const int mins[] = { 1, 2, 3, 9, 20 }; int mn = guard ? mins[x.choose(3, "min") * 2] : mins[x.choose(5, "min")], mx = guard ? x.choose(2, "max") * 4 : x.choose(3, "max") * 2;
            x.op();
            int32_t n = s.read(p, mn, mx);
            if (n < 0) break;
            x.check(memcmp(p, d.data() + total, n) == 0, "content", "wrong content");
            total += n;
            x.state(mix(total, s.status()));
            x.check(total <= f.setsize, "beyond-size", "%ld items were delivered although the size is %d", (long)total, f.setsize);
            x.check(s.status() != Eof || total == 9, "eof", "Eof after %ld of 9 items", (long)total);
            if (++guard > 6) x.prune();
        }
        x.check(s.status() == Error, "not-an-error", "the stream ends with status %s at %ld although it holds more than its size %d", stName(s.status()), (long)total, f.setsize);
    });
    // resetBuffer(): the object is used for a second content
    {
        std::vector<Op> ops = opsSmall();
        e.add("reuse", 12 * 3, [=](X& x, int t) {
            std::vector<Fill> fs = fills();
            const Fill& f = fs[t % 12];
            std::vector<char> d; Content<char>::make(d, 5);
            std::vector<char> d2; for (int i = 0; i < (t / 12) * 4; ++i) d2.push_back('0' + i);
            x.site("reuse");
            B s(&x, d, f);
            { Contract<char> c(x, &s, d.data(), 5, false); c.run(ops, 2); if (x.choose(2, "to the end")) c.drain(1, 0); }
            s.again(d2);
            Contract<char> c(x, &s, d2.data(), (int)d2.size(), false);
            c.run(ops, th ? 3 : 2);
            c.drain(1, 0);
        });
    }
    return e.main(argc, argv);
}

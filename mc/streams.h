// streams.h - an adversarial model input stream, and a checker for the documented
// contract of StreamBase<T>.
#ifndef MC_STREAMS_H
#define MC_STREAMS_H
#include "mc.h"
#include <strigi/streambase.h>
#include <strigi/stringstream.h>
#include <strigi/bufferedstream.h>
#include <memory>

namespace mc {
using Strigi::InputStream;
using Strigi::StreamBase;
using Strigi::StreamStatus;

enum { CHUNK_ALL = 0, CHUNK_MIN = -1, CHUNK_CHOOSE = -2 };

// How the model stream uses the freedom that the contract of StreamBase leaves it.
struct Policy {
    int chunk;          // how much read() gives: CHUNK_ALL, CHUNK_MIN, k>0: up to the next multiple of k, CHUNK_CHOOSE: decided by the explorer
    bool sizeKnown;     // size() known from the start
    bool eager;         // status becomes Eof together with the last data (or only on the next call)
    bool seek;          // reset() works everywhere, or only inside the last segment read
    int64_t errorAt;    // -1, or the position where an I/O error happens
    Policy(int c = CHUNK_ALL, bool sk = true, bool e = true, bool s = true, int64_t er = -1)
        : chunk(c), sizeKnown(sk), eager(e), seek(s), errorAt(er) {}
    std::string str() const {
        char b[120]; snprintf(b, 120, "chunk=%d size=%s eof=%s reset=%s errorAt=%ld", chunk, sizeKnown ? "known" : "unknown",
            eager ? "eager" : "lazy", seek ? "anywhere" : "segment", (long)errorAt);
        return b;
    }
};

// Reads hand out exactly sized heap blocks that are freed as soon as the contract says
// that the pointer is invalid, so that reading outside or too late is caught by ASan.
template <class T>
class SrcT : public StreamBase<T> {
public:
    X* x; std::vector<T> d; Policy p;
    T* seg; int64_t segStart, segLen;
    bool* gone; int64_t highWater;
    std::vector<int64_t> cuts;      // reads never give more than needed across one of these positions
    SrcT(X* x_, const T* data, size_t n, const Policy& pol, bool* g = 0)
            : x(x_), d(data, data + n), p(pol), seg(0), segStart(0), segLen(0), gone(g), highWater(0) {
        if (p.sizeKnown) this->m_size = (int64_t)n;
        if (gone) *gone = false;
    }
    ~SrcT() { drop(); if (gone) *gone = true; }
    void drop() { delete [] seg; seg = 0; segLen = 0; segStart = this->m_position; }
    int64_t N() const { return (int64_t)d.size(); }
    int32_t bad(const char* why) {
        this->m_status = Strigi::Error; this->m_error = why; return -2;
    }
    void atEnd() { this->m_status = Strigi::Eof; this->m_size = N(); }
    int32_t read(const T*& start, int32_t min, int32_t max) {
        drop();
        if (this->m_status == Strigi::Error) return -2;
        int64_t left = N() - this->m_position;
        if (p.errorAt >= 0 && p.errorAt <= N()) {
            int64_t ok = p.errorAt - this->m_position;
            if (ok <= 0 || min > ok) return bad("injected I/O error");
            left = ok;
        } else if (left == 0) { atEnd(); return -1; }
        int64_t high = (max < 1 || max < min) ? left : std::min<int64_t>(max, left);
        int64_t low = std::min<int64_t>(std::max(min, 1), high);
        for (size_t i = 0; i < cuts.size(); ++i)
            if (cuts[i] > this->m_position && this->m_position + high > cuts[i] && this->m_position + low <= cuts[i]) high = cuts[i] - this->m_position;
        int64_t n;
        if (p.chunk == CHUNK_ALL) n = high;
        else if (p.chunk == CHUNK_MIN) n = low;
        else if (p.chunk == CHUNK_CHOOSE) {
            int64_t opt[3]; int k = 0; opt[k++] = low;
            if (high > low) opt[k++] = high;
            if (high > low + 1) opt[k++] = low + 1;
            n = opt[x->choose(k, "source read size")];
        } else {
            n = low;
            int64_t r = (this->m_position + n) % p.chunk;
            if (r) n += p.chunk - r;
            if (n > high) n = high;
        }
        seg = new T[n]; memcpy(seg, d.data() + this->m_position, n * sizeof(T));
        segStart = this->m_position; segLen = n;
        start = seg;
        this->m_position += n;
        highWater = std::max(highWater, this->m_position);
        if (this->m_position == N() && !(p.errorAt >= 0 && p.errorAt <= N()) && (p.eager || n < min)) atEnd();
        return (int32_t)n;
    }
    int64_t skip(int64_t k) {
        if (k == 0) return 0;
        drop();
        if (this->m_status == Strigi::Error) return -2;
        if (k < 0) return 0;
        int64_t left = N() - this->m_position;
        if (p.errorAt >= 0 && p.errorAt <= N()) {
            if (k > p.errorAt - this->m_position) return bad("injected I/O error");
        } else if (left == 0) { atEnd(); return p.eager ? -1 : 0; }
        int64_t n = std::min(k, left);
        this->m_position += n;
        segStart = this->m_position;
        highWater = std::max(highWater, this->m_position);
        if (this->m_position == N() && !(p.errorAt >= 0 && p.errorAt <= N()) && (p.eager || n < k)) atEnd();
        return n;
    }
    int64_t reset(int64_t q) {
        if (this->m_status == Strigi::Error) return -2;
        bool inSeg = q >= segStart && q <= segStart + segLen;
        if (!inSeg) {
            if (!p.seek) return this->m_position;
            drop();
            if (q < 0) q = 0;
            if (q > N()) q = N();
        }
        this->m_position = q;
        if (!inSeg) segStart = q;
        this->m_status = Strigi::Ok;
        if (q == N() && p.eager) atEnd();
        return q;
    }
};
typedef SrcT<char> Src;

inline const char* stName(StreamStatus s) { return s == Strigi::Ok ? "Ok" : s == Strigi::Eof ? "Eof" : "Error"; }

template <class T> std::string show(const T* p, size_t n) {
    std::string r; char b[24];
    if (sizeof(T) == 1) return printable(p, n, 40);
    for (size_t i = 0; i < n && i < 30; ++i) { snprintf(b, 24, "%s%lx", i ? " " : "", (unsigned long)p[i]); r += b; }
    return r;
}

struct Op { char kind; int64_t a, b; };
inline Op R(int64_t mn, int64_t mx) { Op o = { 'r', mn, mx }; return o; }
inline Op K(int64_t n) { Op o = { 's', n, 0 }; return o; }
// reset targets, relative to what the caller knows
enum { T_ZERO, T_POS, T_SEGSTART, T_SEGMID, T_SEGEND, T_POSM1, T_POSP1, T_END, T_BEYOND, T_ONE, T_ENDM1 };
inline Op Z(int64_t where) { Op o = { 'z', where, 0 }; return o; }

// Drives a stream and checks every answer against the documented contract and the
// expected content D.
template <class T>
class Contract {
public:
    X& x; StreamBase<T>* s; const T* D; int64_t N;
    bool seekable;      // reset() reaches every position
    bool mayFail;       // a clean Error is acceptable
    bool ended;         // an error happened: nothing more is promised
    int64_t pos, segStart, segLen; const T* ptr;
    int64_t knownSize;  // N, or -1 if the size must not be predicted
    bool statusOk;      // after reset the status must be Ok
    Contract(X& x_, StreamBase<T>* s_, const T* d, int64_t n, bool seek, bool fail = false)
        : x(x_), s(s_), D(d), N(n), seekable(seek), mayFail(fail), ended(false), pos(0), segStart(-1), segLen(0), ptr(0), knownSize(n) {
        common("construct");
    }
    void common(const char* op) {
        if (s->status() == Strigi::Error) {
            x.check(mayFail, "unexpected-error", "%s: stream reports Error (%s)", op, s->error());
            x.check(s->error() && s->error()[0], "error-without-message", "%s: Error status without an error message", op);
            ended = true; return;
        }
        x.check(s->position() == pos, "position", "%s: position() is %ld, should be %ld", op, (long)s->position(), (long)pos);
        x.check(s->size() == -1 || s->size() == N, "size", "%s: size() is %ld, the stream has %ld", op, (long)s->size(), (long)N);
        if (s->status() == Strigi::Eof) {
            x.check(pos == N, "eof-early", "%s: status Eof at position %ld of %ld", op, (long)pos, (long)N);
            x.check(s->size() == N, "eof-size", "%s: status Eof but size() is %ld instead of %ld", op, (long)s->size(), (long)N);
        }
        x.state(mix(mix(pos, s->status()), mix(s->size(), mix(N, segLen * 64 + segStart))));
    }
    void read(int64_t mn, int64_t mx) {
        if (ended) return;
        x.op();
        const T* p = (const T*)(uintptr_t)1;
        int32_t n = s->read(p, (int32_t)mn, (int32_t)mx);
        x.note("read(%ld,%ld) = %d at %ld -> pos %ld status %s size %ld", (long)mn, (long)mx, n, (long)pos, (long)s->position(), stName(s->status()), (long)s->size());
        x.obs(n);
        if (n < -1) {
            x.check(s->status() == Strigi::Error, "error-return", "read returned %d but status is %s", n, stName(s->status()));
            common("read"); ended = true; return;
        }
        if (s->status() == Strigi::Error) { x.check(n == -2, "error-return", "status Error but read returned %d", n); }
        if (pos == N) {
            x.check(n == -1, "end-return", "read(%ld,%ld) at the end (%ld) returned %d instead of -1", (long)mn, (long)mx, (long)N, n);
            x.check(s->status() == Strigi::Eof, "end-status", "read at the end leaves status %s", stName(s->status()));
            ptr = 0; segLen = 0; segStart = pos;
            common("read"); return;
        }
        x.check(n != -1, "premature-end", "read(%ld,%ld) at %ld of %ld returned -1", (long)mn, (long)mx, (long)pos, (long)N);
        x.check(n != 0, "zero-read", "read(%ld,%ld) at %ld of %ld returned 0", (long)mn, (long)mx, (long)pos, (long)N);
        x.check(mx < mn || mx <= 0 || n <= mx, "more-than-max", "read(%ld,%ld) returned %d", (long)mn, (long)mx, n);
        x.check(pos + n <= N, "past-end", "read(%ld,%ld) at %ld returned %d, only %ld left", (long)mn, (long)mx, (long)pos, n, (long)(N - pos));
        x.check(n >= mn || pos + n == N, "less-than-min", "read(%ld,%ld) at %ld of %ld returned only %d", (long)mn, (long)mx, (long)pos, (long)N, n);
        if (memcmp(p, D + pos, n * sizeof(T)))
            x.fail("content", "read(%ld,%ld) at %ld returned '%s', expected '%s'", (long)mn, (long)mx, (long)pos, show(p, n).c_str(), show(D + pos, n).c_str());
        x.obs(hashBytes(p, n * sizeof(T)));
        segStart = pos; segLen = n; ptr = p;
        pos += n;
        if (n < mn)
            x.check(s->status() == Strigi::Eof, "short-read-status", "read(%ld,%ld) returned %d at the end but status is %s", (long)mn, (long)mx, n, stName(s->status()));
        common("read");
    }
    void skip(int64_t k) {
        if (ended) return;
        x.op();
        int64_t r = s->skip(k);
        x.note("skip(%ld) = %ld at %ld -> pos %ld status %s size %ld", (long)k, (long)r, (long)pos, (long)s->position(), stName(s->status()), (long)s->size());
        x.obs(r);
        if (s->status() == Strigi::Error || r < -1) {
            x.check(s->status() == Strigi::Error, "error-return", "skip returned %ld but status is %s", (long)r, stName(s->status()));
            common("skip"); ended = true; return;
        }
        ptr = 0; segLen = 0;
        int64_t left = N - pos, e = std::min(k, left);
        if (e == 0) x.check(r == 0 || (r == -1 && left == 0), "skip-return", "skip(%ld) at %ld of %ld returned %ld", (long)k, (long)pos, (long)N, (long)r);
        else x.check(r == e, "skip-return", "skip(%ld) at %ld of %ld returned %ld instead of %ld", (long)k, (long)pos, (long)N, (long)r, (long)e);
        pos += e;
        segStart = pos;
        if (k > left) x.check(s->status() == Strigi::Eof, "skip-status", "skip(%ld) hit the end after %ld items but the status is %s", (long)k, (long)left, stName(s->status()));
        common("skip");
    }
    int64_t target(int where) const {
        switch (where) {
        case T_ZERO: return 0;
        case T_ONE: return 1;
        case T_POS: return pos;
        case T_SEGSTART: return segStart >= 0 ? segStart : 0;
        case T_SEGMID: return (segStart >= 0 ? segStart : 0) + (segLen + 1) / 2;
        case T_SEGEND: return (segStart >= 0 ? segStart : 0) + segLen;
        case T_POSM1: return pos > 0 ? pos - 1 : 0;
        case T_POSP1: return pos + 1;
        case T_ENDM1: return N > 0 ? N - 1 : 0;
        case T_END: return N;
        default: return N + 2;
        }
    }
    void resetTo(int64_t q) {
        if (ended) return;
        x.op();
        bool inSeg = (ptr && q >= segStart && q <= segStart + segLen) || q == pos;
        int64_t r = s->reset(q);
        x.note("reset(%ld) = %ld at %ld -> pos %ld status %s size %ld", (long)q, (long)r, (long)pos, (long)s->position(), stName(s->status()), (long)s->size());
        x.obs(r);
        if (inSeg) {
            x.check(r == q, "reset-in-segment", "reset(%ld) inside the last segment [%ld,%ld] returned %ld (%s)", (long)q, (long)segStart, (long)(segStart + segLen), (long)r, s->error());
        }
        if (s->status() == Strigi::Error || r < 0) {
            x.check(s->status() == Strigi::Error, "error-return", "reset returned %ld but status is %s", (long)r, stName(s->status()));
            // going back to a place that is no longer available may fail, but not silently
            if (!seekable && !inSeg) { ended = true; return; }
            common("reset"); ended = true; return;
        }
        if (seekable) x.check(r == std::max<int64_t>(0, std::min(q, N)), "reset-return", "reset(%ld) of a seekable stream of %ld returned %ld", (long)q, (long)N, (long)r);
        x.check(r >= 0 && r <= N, "reset-range", "reset(%ld) returned %ld, the stream has %ld", (long)q, (long)r, (long)N);
        pos = r;
        if (pos < N) x.check(s->status() == Strigi::Ok, "reset-status", "reset(%ld) to %ld of %ld leaves status %s", (long)q, (long)r, (long)N, stName(s->status()));
        if (inSeg && ptr) {
            if (memcmp(ptr, D + segStart, segLen * sizeof(T)))
                x.fail("reset-invalidates-pointer", "after reset(%ld) the pointer of the last read shows '%s', expected '%s'", (long)q, show(ptr, segLen).c_str(), show(D + segStart, segLen).c_str());
        } else { ptr = 0; segLen = 0; segStart = pos; }
        common("reset");
    }
    void apply(const Op& o) {
        if (o.kind == 'r') read(o.a, o.b);
        else if (o.kind == 's') skip(o.a);
        else resetTo(target((int)o.a));
    }
    void run(const std::vector<Op>& ops, int depth) {
        for (int i = 0; i < depth && !ended; ++i) {
            const Op& o = ops[x.choose((int)ops.size(), "operation")];
            apply(o);
        }
    }
    // read the rest with one kind of read
    void drain(int64_t mn, int64_t mx) {
        int guard = 0;
        while (!ended) {
            bool end = pos == N;
            read(mn, mx);
            if (end) break;
            if (++guard > N + 1000) x.fail("drain", "stream does not end");
        }
    }
};

// the standard alphabet of operations
inline std::vector<Op> opsSmall() {
    std::vector<Op> v;
    v.push_back(R(1, 0)); v.push_back(R(1, 1)); v.push_back(R(2, 2)); v.push_back(R(1, 3));
    v.push_back(K(1)); v.push_back(K(2)); v.push_back(Z(T_ZERO)); v.push_back(Z(T_SEGSTART));
    v.push_back(Z(T_SEGMID)); v.push_back(K(100)); v.push_back(R(3, 0)); v.push_back(R(100, 0));
    return v;
}
inline std::vector<Op> opsFull() {
    std::vector<Op> v = opsSmall();
    v.push_back(R(2, 4)); v.push_back(R(4, 5)); v.push_back(R(3, 2)); v.push_back(R(100, 100));
    v.push_back(K(0)); v.push_back(K(3)); v.push_back(Z(T_POSM1)); v.push_back(Z(T_POSP1));
    v.push_back(Z(T_END)); v.push_back(Z(T_BEYOND)); v.push_back(Z(T_SEGEND)); v.push_back(Z(T_ONE));
    return v;
}
// every combination of the freedoms of a source
inline std::vector<Policy> policies(bool withChoose = false) {
    std::vector<Policy> v;
    int ch[] = { CHUNK_ALL, CHUNK_MIN, 3 };
    for (int c = 0; c < 3; ++c) for (int sk = 1; sk >= 0; --sk) for (int e = 1; e >= 0; --e) for (int s = 1; s >= 0; --s)
        v.push_back(Policy(ch[c], sk, e, s));
    if (withChoose) v.push_back(Policy(CHUNK_CHOOSE, true, true, true));
    return v;
}
// a smaller set that still shows each freedom
inline std::vector<Policy> policiesFew() {
    std::vector<Policy> v;
    v.push_back(Policy(CHUNK_ALL, true, true, true));
    v.push_back(Policy(CHUNK_MIN, false, false, false));
    v.push_back(Policy(7, false, true, false));
    v.push_back(Policy(CHUNK_ALL, false, false, true));
    v.push_back(Policy(512, true, false, false));
    return v;
}

// read a whole stream; returns false if it ended with an error
template <class T>
bool slurp(X& x, StreamBase<T>* s, std::basic_string<T>& out, int32_t mn = 1, int32_t mx = 0, size_t limit = 64u << 20) {
    const T* p; int32_t n;
    out.clear();
    while ((n = s->read(p, mn, mx)) > 0) {
        x.op();
        out.append(p, n);
        if (out.size() > limit) x.fail("endless", "stream yields more than %lu items", (unsigned long)limit);
    }
    if (n == 0) x.fail("zero-read", "read returned 0 (status %s)", stName(s->status()));
    return s->status() != Strigi::Error && n == -1;
}
} // namespace mc
#endif

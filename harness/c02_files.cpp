// C02: streams over files and memory show exactly the bytes of the file or the memory.
#include "streams.h"
#include <strigi/fileinputstream.h>
#include <skippingfileinputstream2.h>
#include <skippingfileinputstream.h>
#include <mmapfileinputstream.h>
using namespace mc;
using namespace Strigi;

static std::string dir;
static std::string contentOf(int n) {
    std::string s(n, 0);
    for (int i = 0; i < n; ++i) s[i] = (char)((i * 7 + i / 251 * 3 + 65) & 0xff);
    return s;
}
static std::string fileFor(int n) {
    char b[40]; snprintf(b, 40, "/f%d", n);
    return dir + b;
}
static void put(const std::string& path, const std::string& c) {
    FILE* f = fopen(path.c_str(), "wb"); if (!f) { perror(path.c_str()); exit(2); }
    fwrite(c.data(), 1, c.size(), f); fclose(f);
}
enum { BUF, BUF1, BUF3, MMAPPED, UNBUF, AUTO, SKIP2, SKIP2_3, CFILE, SKIPCLS, MMAPCLS, KINDS };
static const char* kindName[] = { "buffered", "buffered-1", "buffered-3", "mmap", "unbuffered", "automatic", "skipping2", "skipping2-3", "cfile", "skipping", "mmapclass" };
static InputStream* make(int kind, const std::string& p) {
    switch (kind) {
    case BUF: return FileInputStream::open(p.c_str(), FileInputStream::Buffered);
    case BUF1: return new FileInputStream(p.c_str(), 1);
    case BUF3: return FileInputStream::open(p.c_str(), FileInputStream::Buffered, 3);
    case MMAPPED: return FileInputStream::open(p.c_str(), FileInputStream::MMap);
    case UNBUF: return FileInputStream::open(p.c_str(), FileInputStream::Unbuffered);
    case AUTO: return FileInputStream::open(p.c_str());
    case SKIP2: return new SkippingFileInputStream2(p.c_str());
    case SKIP2_3: return new SkippingFileInputStream2(p.c_str(), 3);
    case CFILE: return new FileInputStream(fopen(p.c_str(), "rb"), p.c_str(), 4);
    case SKIPCLS: return new SkippingFileInputStream(p.c_str());
    default: return new MMapFileInputStream(p.c_str());
    }
}
static bool seekableKind(int k) { return k == MMAPPED || k == UNBUF || k == AUTO || k == SKIPCLS || k == MMAPCLS; }

template <class T>
static void memoryBody(X& x, int t, const std::vector<Op>& ops, int depth) {
    int n = t % 7; int how = t / 7 % 3; int first = t / 21;
    std::vector<T> d(n + 1);
    for (int i = 0; i < n; ++i) d[i] = (T)(i == 1 ? -1 : i == 2 ? 0x80 : i == 4 ? 0x1a : 'a' + i);     // any item but zero may be part of a text
    d[n] = 0;
    // memory of the exact size, so that reading outside is noticed
    std::unique_ptr<T[]> exact(new T[how == 1 ? n + 1 : (n ? n : 1)]);
    memcpy(exact.get(), d.data(), (how == 1 ? n + 1 : n) * sizeof(T));
    if (how == 0 && n > 2) { d[1] = 0; exact[1] = 0; }           // an explicit length makes zero an ordinary item
    StringStream<T>* s;
    if (how == 0) s = new StringStream<T>(exact.get(), n, true);
    else if (how == 1) s = new StringStream<T>(exact.get());
    else s = new StringStream<T>(exact.get(), n, false);
    std::unique_ptr<StringStream<T> > own(s);
    if (how != 2) exact.reset();                                // the copy does not depend on the original
    x.check(s->size() == n, "size", "a memory stream of %d items has size %ld", n, (long)s->size());
    Contract<T> c(x, s, d.data(), n, true);
    c.apply(ops[first]);
    c.run(ops, depth - 1);
    c.drain(2, 3);
}

struct Cookie { std::string c; size_t at; int errorAt; int chunk; };
static ssize_t ckRead(void* p, char* buf, size_t n) {
    Cookie* c = (Cookie*)p;
    if (c->errorAt >= 0 && (int)c->at >= c->errorAt) { errno = EIO; return -1; }
    size_t lim = c->errorAt >= 0 ? std::min<size_t>(c->errorAt, c->c.size()) : c->c.size();
    n = std::min(n, lim - std::min(lim, c->at));
    if (c->chunk > 0) n = std::min<size_t>(n, c->chunk);
    memcpy(buf, c->c.data() + c->at, n);
    c->at += n;
    return n;
}
static int ckSeek(void* p, off64_t* o, int w) {
    Cookie* c = (Cookie*)p;
    int64_t q = w == SEEK_SET ? *o : w == SEEK_CUR ? (int64_t)c->at + *o : (int64_t)c->c.size() + *o;
    if (q < 0) return -1;
    c->at = q; *o = q; return 0;
}

int main(int argc, char** argv) {
    Explorer e("C02");
    bool th = Explorer::thorough();
    const char* o = getenv("VERIF_OUT"); dir = std::string(o ? o : "/tmp") + "/files";
    mkdir(dir.c_str(), 0755);
    int sizes[] = { 0, 1, 2, 5, 9 };
    std::vector<Op> full = opsFull(), small = opsSmall();
    int nfull = (int)full.size(), nsmall = (int)small.size();
    for (int n : sizes) put(fileFor(n), contentOf(n));
    int big[] = { 1023, 1024, 1025, 2048, 2049, 4096, 1048575, 1048576, 1048577, 2097153 };
    for (int n : big) put(fileFor(n), contentOf(n));
    mkdir((dir + "/adir").c_str(), 0755);

    e.add("memory", 21 * nfull, [=](X& x, int t) { x.site("memory"); memoryBody<char>(x, t, full, th ? 5 : 4); });
    e.add("memory-wide", 21 * nfull, [=](X& x, int t) { x.site("memory-wide"); memoryBody<wchar_t>(x, t, full, th ? 4 : 3); });

    e.add("files", KINDS * 5 * nfull, [=](X& x, int t) {
        int kind = t % KINDS; int n = sizes[t / KINDS % 5]; int first = t / KINDS / 5;
        std::string d = contentOf(n);
        x.site("file:%s", kindName[kind]);
        std::unique_ptr<InputStream> s(make(kind, fileFor(n)));
        x.note("file of %d bytes, %s", n, kindName[kind]);
        x.check(s->status() != Error, "open", "opening an existing file of %d bytes fails: %s", n, s->error());
        x.check(s->size() == n, "size-known", "a file of %d bytes has size() %ld", n, (long)s->size());
        Contract<char> c(x, s.get(), d.data(), n, seekableKind(kind));
        c.apply(full[first]);
        c.run(full, th ? 3 : 2);
        c.drain(2, 3);
    });
    // larger files, around the sizes of the internal buffers
    {
        std::vector<Op> ops;
        ops.push_back(R(1, 0)); ops.push_back(R(1023, 1023)); ops.push_back(R(1, 1024)); ops.push_back(R(1025, 0));
        ops.push_back(R(2047, 2048)); ops.push_back(K(1)); ops.push_back(K(1024)); ops.push_back(K(4000));
        ops.push_back(Z(T_ZERO)); ops.push_back(Z(T_SEGSTART)); ops.push_back(Z(T_SEGMID)); ops.push_back(Z(T_ENDM1)); ops.push_back(Z(T_END));
        int no = (int)ops.size();
        e.add("files-1k", KINDS * 6 * no, [=](X& x, int t) {
            int kind = t % KINDS; int n = big[t / KINDS % 6]; int first = t / KINDS / 6;
            static std::map<int, std::string> cache; std::string& d = cache[n]; if (d.empty()) d = contentOf(n);
            x.site("file-1k:%s", kindName[kind]);
            std::unique_ptr<InputStream> s(make(kind, fileFor(n)));
            Contract<char> c(x, s.get(), d.data(), n, seekableKind(kind));
            c.apply(ops[first]);
            c.run(ops, th ? 3 : 2);
            c.drain(1, 0);
        });
        std::vector<Op> om;
        om.push_back(R(1, 0)); om.push_back(R(1048576, 1048576)); om.push_back(R(1048577, 0)); om.push_back(R(1, 1)); om.push_back(K(1048576));
        om.push_back(Z(T_ZERO)); om.push_back(Z(T_SEGSTART)); om.push_back(Z(T_ENDM1));
        int nm = (int)om.size();
        e.add("files-1M", KINDS * 4 * nm, [=](X& x, int t) {
            int kind = t % KINDS; int n = big[6 + t / KINDS % 4]; int first = t / KINDS / 4;
            if (kind == BUF1 || kind == BUF3 || kind == SKIP2_3 || kind == CFILE) return;
            static std::map<int, std::string> cache; std::string& d = cache[n]; if (d.empty()) d = contentOf(n);
            x.site("file-1M:%s", kindName[kind]);
            std::unique_ptr<InputStream> s(make(kind, fileFor(n)));
            Contract<char> c(x, s.get(), d.data(), n, seekableKind(kind));
            c.apply(om[first]);
            c.run(om, th ? 2 : 1);
            c.drain(65536, 0);
        }, false);
    }
    // what cannot be opened or read is an error, not an empty file
    e.add("unreadable", KINDS * 3, [=](X& x, int t) {
        int kind = t % KINDS, what = t / KINDS;
        if (kind == CFILE) return;
        x.site("unreadable:%s", kindName[kind]);
        std::string p = what == 0 ? dir + "/missing" : what == 1 ? dir + "/adir" : dir + "/f1/below";
        std::unique_ptr<InputStream> s(make(kind, p));
        int ops = 2;
        const char* q; bool sawError = s->status() == Error;
        if (what != 1) x.check(sawError, "missing", "%s: opening a missing file has status %s", p.c_str(), stName(s->status()));
        for (int i = 0; i < ops; ++i) {
            int k = x.choose(3, "operation");
            x.op();
            if (k == 0) {
                int32_t n = s->read(q, 1, 0);
                x.check(n == -2, "read", "%s: read returns %d", p.c_str(), n);
            } else if (k == 1) {
                int64_t n = s->skip(1);
                // moving inside a directory may seem to work, reading from it may not
                if (what != 1) x.check(n <= 0, "skip", "%s: skip returns %ld", p.c_str(), (long)n);
                if (what != 1) x.check(s->status() == Error, "sticky", "%s: after skip the status is %s", p.c_str(), stName(s->status()));
            } else {
                s->reset(0);
                if (what != 1) x.check(s->status() == Error, "sticky", "%s: after reset the status is %s", p.c_str(), stName(s->status()));
            }
        }
        int32_t n = s->read(q, 1, 0);
        x.check(n == -2 && s->status() == Error, "read", "%s: read returns %d, status %s", p.c_str(), n, stName(s->status()));
        x.check(s->error()[0] != 0, "message", "%s: no error message", p.c_str());
    });
    e.add("nofile", 3, [=](X& x, int t) {
        x.site("nofile");
        std::unique_ptr<InputStream> s(t == 0 ? (InputStream*)new FileInputStream((const char*)0) : t == 1 ? (InputStream*)new SkippingFileInputStream2((const char*)0) : FileInputStream::open(0));
        const char* q;
        x.check(s->status() == Error && s->read(q, 1, 0) == -2 && s->error()[0], "null", "a null file name is not an error");
    });
    // a FILE* that cannot be positioned (pipe, socket) or announces size 0 (like /proc)
    e.add("streamfile", 3 * 4 * nsmall, [=](X& x, int t) {
        int how = t % 3, n = t / 3 % 4 * 2; int first = t / 12;
        x.site("streamfile:%d", how);
        std::string d = contentOf(n);
        Cookie ck = { d, 0, -1, how == 2 ? 1 : 0 };
        cookie_io_functions_t io = { ckRead, 0, how == 1 ? ckSeek : 0, 0 };
        FILE* f = fopencookie(&ck, "rb", io);
        std::unique_ptr<InputStream> s(x.choose(2, "class") ? (InputStream*)new SkippingFileInputStream2(f, "cookie", 3) : (InputStream*)new FileInputStream(f, "cookie", 3));
        x.note("%s, %d bytes", how == 1 ? "seekable" : "not seekable", n);
        if (how != 1) {
            std::vector<Op> rd; for (size_t i = 0; i < small.size(); ++i) if (small[i].kind != 's') rd.push_back(small[i]);
            (void)rd;
        }
        Contract<char> c(x, s.get(), d.data(), n, false);
        c.apply(small[first]);
        c.run(small, th ? 3 : 2);
        c.drain(1, 2);
    });
    // reading fails in the middle of a file
    e.add("io-error", 2 * 2 * 6, [=](X& x, int t) {
        int cls = t % 2, seek = t / 2 % 2, at = t / 4;
        x.site("io-error");
        std::string d = contentOf(8);
        Cookie ck = { d, 0, at, 0 };
        cookie_io_functions_t io = { ckRead, 0, seek ? ckSeek : 0, 0 };
        FILE* f = fopencookie(&ck, "rb", io);
        std::unique_ptr<InputStream> s(cls ? (InputStream*)new SkippingFileInputStream2(f, "cookie", 3) : (InputStream*)new FileInputStream(f, "cookie", 3));
        std::vector<Op> ops;
        ops.push_back(R(1, 1)); ops.push_back(R(2, 4)); ops.push_back(R(1, 0)); if (!cls) ops.push_back(K(2)); ops.push_back(Z(T_SEGSTART));
        Contract<char> c(x, s.get(), d.data(), 8, false, true);
        c.run(ops, th ? 4 : 3);
        for (int i = 0; i < 10 && !c.ended; ++i) c.read(1, 2);
        x.check(c.ended && s->status() == Error, "error-lost", "a read error at byte %d was not reported", at);
    });
    // files in /proc announce size 0 but have content
    e.add("proc", 4 * nsmall, [=](X& x, int t) {
        int kind = t % 4 == 0 ? BUF : t % 4 == 1 ? UNBUF : t % 4 == 2 ? SKIP2 : BUF3; int first = t / 4;
        std::string d; { std::ifstream in("/proc/version"); std::getline(in, d, '\0'); }
        x.site("proc:%s", kindName[kind]);
        std::unique_ptr<InputStream> s(make(kind, "/proc/version"));
        Contract<char> c(x, s.get(), d.data(), d.size(), seekableKind(kind));
        c.apply(small[first]);
        c.run(small, 1);
        c.drain(1, 0);
    });
    return e.main(argc, argv);
}

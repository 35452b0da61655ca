// C27: requests with the largest and the smallest values get correct answers from every stream.
#include "cases.h"
#include <strigi/fileinputstream.h>
#include <strigi/inputstreamreader.h>
#include "mmapfileinputstream.h"
#include "skippingfileinputstream.h"
#include "skippingfileinputstream2.h"
using namespace mc;
using namespace Strigi;

struct Kind { const char* name; std::string bytes, content; std::function<InputStream*(InputStream*, std::vector<std::unique_ptr<InputStream> >&)> make; bool parent, seek, neg; };
static std::vector<Kind> kinds;
typedef std::vector<std::unique_ptr<InputStream> >& V;
static void kind(const char* n, const std::string& b, const std::string& c, std::function<InputStream*(InputStream*, V)> m, bool parent = true, bool seek = false, bool neg = false) { Kind k = { n, b, c, m, parent, seek, neg }; kinds.push_back(k); }
enum { I32 = 0x7fffffff }; static const int64_t I64 = 0x7fffffffffffffffLL;
static std::string scratch;

int main(int argc, char** argv) {
    Explorer e("C27"); bool th = Explorer::thorough();
    std::vector<Policy> few = policiesFew(); int nf = (int)few.size();
    static const std::string text = comp::content(300, 1), longer = comp::content(5000, 2);
    for (int k = 1; k < NW; ++k) { Wrap w = wrappers[k].wrap; const std::string& t = !strcmp(wrappers[k].name, "lzma") ? longer : text; kind(wrappers[k].name, wrappers[k].encode(t), t, [w](InputStream* i, V v) -> InputStream* { return w(i); }); }
    kind("raw deflate", comp::compress(comp::RAW, text), text, [](InputStream* i, V) -> InputStream* { return new GZipInputStream(i, GZipInputStream::ZIPFORMAT); });
    kind("part of known size", text, text.substr(0, 200), [](InputStream* i, V) -> InputStream* { return new SubInputStream(i, 200); });
    kind("part of a part", text, text.substr(0, 100), [](InputStream* i, V v) -> InputStream* { v.emplace_back(new SubInputStream(i, 200)); return new SubInputStream(v.back().get(), 100); });
    kind("terminated", text + "END" + text, text, [](InputStream* i, V) -> InputStream* { return new StringTerminatedSubStream(i, "END"); });
    kind("rest", "head" + text, text, [](InputStream* i, V) -> InputStream* { i->skip(4); return new SubInputStream(i, -1); });
    kind("later part", "head" + text, text.substr(0, 200), [](InputStream* i, V) -> InputStream* { i->skip(4); return new SubInputStream(i, 200); });
    kind("later terminated", "head" + text + "END" + text, text, [](InputStream* i, V) -> InputStream* { i->skip(4); return new StringTerminatedSubStream(i, "END"); });
    kind("not terminated", "head" + text, text, [](InputStream* i, V) -> InputStream* { i->skip(4); return new StringTerminatedSubStream(i, "END"); });
    kind("later gzip", "head" + comp::compress(comp::GZIP, text), text, [](InputStream* i, V) -> InputStream* { i->skip(4); return new GZipInputStream(i); });
    kind("part of gzip", comp::compress(comp::GZIP, text), text.substr(0, 200), [](InputStream* i, V v) -> InputStream* { v.emplace_back(new GZipInputStream(i)); return new SubInputStream(v.back().get(), 200); });
    kind("rest of gzip", comp::compress(comp::GZIP, "head" + text), text, [](InputStream* i, V v) -> InputStream* { v.emplace_back(new GZipInputStream(i)); v.back()->skip(4); return new SubInputStream(v.back().get(), -1); });
    kind("terminated gzip", comp::compress(comp::GZIP, "head" + text + "END"), text, [](InputStream* i, V v) -> InputStream* { v.emplace_back(new GZipInputStream(i)); v.back()->skip(4); return new StringTerminatedSubStream(v.back().get(), "END"); });
    kind("empty gzip", comp::compress(comp::GZIP, ""), "", [](InputStream* i, V) -> InputStream* { return new GZipInputStream(i); });
    kind("memory", text, text, [](InputStream*, V) -> InputStream* { return new StringInputStream(text.data(), text.size(), false); }, false, true, true);
    kind("copied memory", text, text, [](InputStream*, V) -> InputStream* { return new StringInputStream(text.data(), text.size(), true); }, false, true, true);
    const char* vo = getenv("VERIF_OUT"); scratch = std::string(vo ? vo : "/tmp") + "/extremes"; mkdir(scratch.c_str(), 0755); { std::ofstream f((scratch + "/f").c_str(), std::ios::binary); f << text; }
    kind("file", text, text, [](InputStream*, V) -> InputStream* { return new FileInputStream((scratch + "/f").c_str()); }, false, false);
    kind("mapped file", text, text, [](InputStream*, V) -> InputStream* { return new MMapFileInputStream((scratch + "/f").c_str()); }, false, true, true);
    kind("skipping file", text, text, [](InputStream*, V) -> InputStream* { return new SkippingFileInputStream((scratch + "/f").c_str()); }, false, true, true);
    kind("skipping file 2", text, text, [](InputStream*, V) -> InputStream* { return new SkippingFileInputStream2((scratch + "/f").c_str()); }, false, false);
    static const Op ops[] = { R(I32, 0), R(I32, I32), R(1, I32), R(I32 - 1, I32), R(1, -1), R(1, -1 - (int64_t)I32), R(5, 1), K(I64), K(I32), K((int64_t)I32 + 1), K(1LL << 32), K(0), K(5), R(7, 7), Z(T_ZERO), Z(T_SEGSTART), Z(T_BEYOND) };
    const int NO = sizeof ops / sizeof *ops, D = th ? 4 : 3;
    int nk = (int)kinds.size();
    e.add("streams", nk * nf, [=](X& x, int t) {
        const Kind& k = kinds[t / nf]; if (!k.parent && t % nf) return; Policy p = few[t % nf]; x.site("%s", k.name); x.note("%s, source %s", k.name, p.str().c_str());
        Src src(&x, k.bytes.data(), k.bytes.size(), p); std::vector<std::unique_ptr<InputStream> > between; std::unique_ptr<InputStream> s(k.make(&src, between));
        { Contract<char> c(x, s.get(), k.content.data(), k.content.size(), k.seek); for (int d = 0; d < D && !c.ended; ++d) { int o = x.choose(NO + (k.neg ? 3 : 1), "operation"); if (o >= NO) { c.resetTo(o == NO ? I64 : o == NO + 1 ? -1 : -I64 - 1); continue; } c.apply(ops[o]); } if (!c.ended) c.drain(1, I32); }
        s.reset(); while (!between.empty()) between.pop_back();
    });
    return e.main(argc, argv);
}

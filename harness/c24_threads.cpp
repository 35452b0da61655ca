// C24: what is done in one thread does not disturb what is done in another one.
#include "conc.h"
#include "cases.h"
#include <strigi/stringstream.h>
#include <strigi/fileinputstream.h>
#include <strigi/archivereader.h>
#include "mmapfileinputstream.h"
#include "gzipcompressstream.h"
#include <strigi/textutils.h>
#include <strigi/kmpsearcher.h>
#include <strigi/inputstreamreader.h>
#include <strigi/substreamproviderprovider.h>
using namespace mc;
using namespace Strigi;

typedef std::function<void(std::string&)> Work;
struct Scene { std::string name; Work work; std::string alone, statics; };
static std::vector<Scene> scenes;
static void add(const std::string& name, Work w) { Scene s; s.name = name; s.work = w; scenes.push_back(s); }
static void all(InputStream* s, std::string& out, int32_t mn = 1, int32_t mx = 0) { const char* c; int32_t n; while ((n = s->read(c, mn, mx)) > 0) out.append(c, n); out += stName(s->status()); out += s->error(); }
static void list(SubStreamProvider* p, std::string& out, int depth) {
    while (InputStream* s = p->nextEntry()) {
        const EntryInfo& i = p->entryInfo(); char b[80]; snprintf(b, sizeof b, " %ld %d %ld:", (long)i.size, (int)i.type, (long)i.mtime); out += i.filename + b;
        for (auto& q : i.properties) out += q.first + "=" + q.second + ";";
        if (depth) { SubStreamProviderProvider pp; SubStreamProvider* q = pp.subStreamProvider(s); if (q) { list(q, out, depth - 1); delete q; } }
        all(s, out);
    }
    out += stName(p->status()); out += p->error();
}
static std::string scratch;

int main(int argc, char** argv) {
    Explorer e("C24");
    bool th = Explorer::thorough();
    static const std::string text = "Zm9vYmFy", d20 = comp::content(20, 2);
    add("base64", [](std::string& o) { StringInputStream i(text.data(), text.size(), false); Base64InputStream b(&i); all(&b, o); });
    add("base64 function", [](std::string& o) { o = Base64InputStream::decode(text.data(), text.size()); });
    for (int k = 1; k < NW; ++k) { if (!strcmp(wrappers[k].name, "base64")) continue; static std::vector<std::string> packed(NW); packed[k] = wrappers[k].encode(comp::content(!strncmp(wrappers[k].name, "lzma", 4) ? 5000 : 300, 1));
        add(wrappers[k].name, [k](std::string& o) { StringInputStream i(packed[k].data(), packed[k].size(), false); std::unique_ptr<InputStream> s(wrappers[k].wrap(&i)); all(s.get(), o); }); }
    add("compress", [](std::string& o) { StringInputStream i(d20.data(), d20.size(), false); GZipCompressInputStream s(&i); all(&s, o); });
    add("terminated", [](std::string& o) { StringInputStream i("some text END more", 18, false); StringTerminatedSubStream s(&i, "END"); all(&s, o); });
    add("reader", [](std::string& o) { static const char u[] = "t\xc3\xa4xt \xe2\x82\xac"; StringInputStream i(u, sizeof u - 1, false); InputStreamReader r(&i, "UTF-8"); const wchar_t* w; int32_t n; while ((n = r.read(w, 1, 0)) > 0) for (int j = 0; j < n; ++j) o += std::to_string((long)w[j]) + ","; });
    add("search", [](std::string& o) { KmpSearcher k("abab"); const char* h = "abaabbabab"; o = std::to_string(k.search(h, 10) - h); });
    add("utf8", [](std::string& o) { char n = 0; const char* t = "a\xc3\xa4\xff"; const char* p = checkUtf8(t, 4, n); o = std::to_string(p - t) + " " + std::to_string(n); });
    add("file", [](std::string& o) { FileInputStream f((scratch + "/file").c_str()); all(&f, o); });
    add("mmap", [](std::string& o) { MMapFileInputStream f((scratch + "/file").c_str()); all(&f, o); });
    add("no file", [](std::string& o) { FileInputStream f((scratch + "/none").c_str()); all(&f, o); });
    buildCases(false);
    for (size_t i = 0; i < cases.size(); ++i) { if (cases[i].wrap || (cases[i].mail && cases[i].inner >= 0)) continue; add(cases[i].what, [i](std::string& o) { StringInputStream s(cases[i].bytes.data(), cases[i].bytes.size(), false); std::unique_ptr<SubStreamProvider> p(cases[i].f(&s)); list(p.get(), o, 3); }); }
    add("recognise", [](std::string& o) { StringInputStream s(cases[0].bytes.data(), cases[0].bytes.size(), false); SubStreamProviderProvider pp; std::unique_ptr<SubStreamProvider> p(pp.subStreamProvider(&s)); if (p.get()) list(p.get(), o, 1); });
    add("archive reader", [](std::string& o) { ArchiveReader r; FileStreamOpener f; r.addStreamOpener(&f); std::string u = scratch + "/archive.zip/in"; EntryInfo i; o += std::to_string(r.stat(u, i)); ArchiveReader::DirLister d = r.dirEntries(u); while (d.nextEntry(i)) o += i.filename + ";"; InputStream* s = r.openStream(u + "/a"); if (s) { all(s, o); r.closeStream(s); } });
    const char* vo = getenv("VERIF_OUT"); scratch = std::string(vo ? vo : "/tmp") + "/threads"; mkdir(scratch.c_str(), 0755);
    auto put = [](const std::string& n, const std::string& d) { std::ofstream f((scratch + n).c_str(), std::ios::binary); f << d; };
    put("/file", comp::content(3000, 1)); for (auto& c : cases) if (c.what == "tar in deflated zip") put("/archive.zip", c.bytes);
    // what each gives alone, and which static data it writes
    { static Slot slot; X x; x.s = &slot; x.states = 0;
      for (auto& s : scenes) { conc::arena(); memset(conc::A().seen, 0, conc::A().nglob); conc::isolated(x, [&](conc::Result* r) { std::string* o = new std::string; conc::run(x, 1, [&]() { s.work(*o); }, nullptr, true); r->len = std::min(o->size(), sizeof r->out); memcpy(r->out, o->data(), r->len); });
        s.statics.assign((char*)conc::A().seen, conc::A().nglob); s.alone.assign(conc::shared()->out, conc::shared()->len); if (getenv("MC_SHOW")) printf("%-30s %6lu accesses, result of %lu\n", s.name.c_str(), (unsigned long)conc::shared()->accesses, s.alone.size()); } }
    int n = (int)scenes.size();
    e.add("pairs", n * n, [=](X& x, int t) {
        int a = t / n, b = t % n; if (b < a) return; x.site("%s, %s", scenes[a].name.c_str(), scenes[b].name.c_str()); int first = 1 + x.choose(2, "first thread"); conc::conflicts(scenes[a].statics, scenes[b].statics);
        conc::isolated(x, [&](conc::Result* r) {
            std::string* o1 = new std::string; std::string* o2 = new std::string;
            conc::run(x, first, [&]() { scenes[a].work(*o1); }, [&]() { scenes[b].work(*o2); }, false);
            for (int k = 0; k < 2; ++k) { const Scene& s = scenes[k ? b : a]; std::string& o = k ? *o2 : *o1; if (o.size() > sizeof r->out) o.resize(sizeof r->out); x.check(o == s.alone, "result", "'%s' gives a different result than alone: %lu bytes instead of %lu", s.name.c_str(), o.size(), s.alone.size()); }
            x.obs(conc::R().points);
        });
        x.state(mix(mix(t, first), conc::shared()->points)); x.state(mix(t, conc::shared()->accesses));
    }, false, th ? 2 : 1);
    return e.main(argc, argv);
}

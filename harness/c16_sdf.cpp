// C16: the records of an SD file are listed exactly.
#include "archive.h"
#include <strigi/sdfinputstream.h>
using namespace mc;
using namespace Strigi;

struct Arc { std::string bytes, what; Ents ents; };
static std::string mol(const std::string& name, const char* nl, size_t atoms, const std::string& rest = "") {
    std::string s = name + nl + "  ChemPy            3D" + nl + nl + " 36 39  0  0  1  0  0  0  0  0999 V2000" + nl;
    for (size_t i = 0; i < atoms; ++i) s += "   52.5122   32.1815   21.0164 O   0  0  0  0  0  0  0  0  0  0  0  0" + std::string(nl);
    return s + "M  END" + nl + rest;
}
static Ents ents(const std::vector<std::string>& m) { Ents r; for (size_t i = 0; i < m.size(); ++i) { char n[30]; snprintf(n, 30, "Molecule%lu", i + 1); r.push_back(Ent(n, m[i], 0)); } return r; }

int main(int argc, char** argv) {
    Explorer e("C16");
    bool th = Explorer::thorough();
    std::vector<Policy> pol = policies(), few = policiesFew();
    int np = (int)pol.size(), nf = (int)few.size();
    static std::vector<Arc> arcs;
    static const char* nls[] = { "\n", "\r\n", "\r" };
    for (int k = 0; k < 3; ++k) {
        const char* nl = nls[k]; std::string D = std::string("$$$$") + nl, N = nl;
        auto arc = [&](const char* what, const std::vector<std::string>& m, const std::string& tail = "") { Arc a; a.what = std::string(what) + (k == 0 ? "" : k == 1 ? " (CRLF)" : " (CR)"); for (auto& s : m) a.bytes += s + D; a.bytes += tail; a.ents = ents(m); arcs.push_back(a); };
        arc("one", { mol("one", nl, 1) });
        arc("three", { mol("one", nl, 1), mol("two", nl, 0), mol("three", nl, 3) });
        arc("no names", { mol("", nl, 1), mol("", nl, 2), mol("", nl, 1) });
        arc("blank lines", { mol("a", nl, 1, "> <ID>" + N + "7" + N + N), mol("b", nl, 1, N + N), mol("c", nl, 1) }, N + N + " " + N);
        arc("dollars", { mol("$$$", nl, 1, "$ $$ $$$" + N), mol("$", nl, 1, "$$$" + N) });
        arc("long", { mol("long", nl, 20), mol("longer", nl, 60), mol("after", nl, 1) });
        arc("mol", { mol("x", nl, 3) }); arcs.back().bytes = arcs.back().ents[0].data; arcs.back().ents.clear();
        arc("large mol", { mol("x", nl, 60) }); arcs.back().bytes = arcs.back().ents[0].data; arcs.back().ents.clear();
        arc("no line end after the last", { mol("one", nl, 1), mol("two", nl, 1) }); arcs.back().bytes.resize(arcs.back().bytes.size() - strlen(nl));
    }
    int na = (int)arcs.size();
    e.add("listing", na * np, [=](X& x, int t) {
        const Arc& a = arcs[t % na]; const Policy& p = pol[t / na];
        x.site("%s", a.what.c_str()); x.note("%s, source %s", a.what.c_str(), p.str().c_str());
        Src src(&x, a.bytes.data(), a.bytes.size(), p);
        x.check(SdfInputStream::checkHeader(a.bytes.data(), (int)a.bytes.size()), "not-recognised", "the file is not recognised");
        SdfInputStream z(&src);
        for (const Ent& n : a.ents) x.check(n.type == EntryInfo::File, "type", "type");
        walk(x, &z, a.ents, a.ents.size() < 3 || th ? USES : 5);
    });
    // every size of a record: the delimiter anywhere relative to all buffers
    std::vector<int> sizes; for (int i = 0; i < 1100; ++i) sizes.push_back(i); for (int b : { 2048, 3072, 4096, 8192, 65536, 262144, 524288 }) for (int i = -6; i <= 6; ++i) sizes.push_back(b + i);
    int nz = (int)sizes.size();
    e.add("sizes", nz, [=](X& x, int t) {
        x.site("sizes");
        std::string first = mol("a", "\n", 0), pad(sizes[t], 'p'); first += pad;
        std::vector<std::string> m; m.push_back(first); m.push_back(mol("second", "\n", 1)); std::string b; for (auto& s : m) b += s + "$$$$\n";
        Src src(&x, b.data(), b.size(), few[x.choose(nf, "source")]);
        SdfInputStream z(&src); int u = x.choose(USES, "use");
        walk(x, &z, ents(m), 1, [=](int i) { return i ? 1 : u; });
    });
    // all short contents over $, newline and a letter between two records
    e.add("contents", 3 * 3 * 3 * 3 * 3 * 3, [=](X& x, int t) {
        x.site("contents"); std::string mid; int v = t; for (int i = 0; i < 6; ++i) { mid += "$\na"[v % 3]; v /= 3; }
        std::string first = mol("a", "\n", 0) + mid, b = first + "\n$$$$\n" + mol("b", "\n", 0) + "$$$$\n";
        // what is meant: the text up to the first delimiter
        std::vector<std::string> m; size_t at = 0; std::string rest = b; bool ok = true;
        while (ok) { size_t q = rest.find("$$$$", 0); if (q == std::string::npos) break; m.push_back(rest.substr(0, q)); at = q + 4; if (at < rest.size() && rest[at] == '\n') ++at; rest = rest.substr(at); }
        Src src(&x, b.data(), b.size(), few[x.choose(nf, "source")]);
        SdfInputStream z(&src);
        walk(x, &z, ents(m), 3);
    });
    // the recognition of the header: the fourth line has the label, lines are not longer than 80
    e.add("header", 4 * 84, [=](X& x, int t) {
        x.site("header"); int line = t % 4, len = t / 4; const char* nl = nls[x.choose(3, "line end")]; int label = x.choose(6, "line of the label");
        std::string s; for (int i = 0; i < 6; ++i) { std::string l = i == label ? "x V2000" : "some text"; if (i == line) { l.resize(std::max<size_t>(len, i == label ? 5 : 0), ' '); if (i == label) l.replace(l.size() - 5, 5, "V2000"); } s += l + nl; }
        size_t ll = line == label ? std::max(len, 5) : len;
        bool expect = label == 3 && (line > 3 || ll <= 80);
        int n = x.choose(2, "cut") ? (int)s.size() : 0; if (!n) n = std::min<int>((int)s.size(), 9 + x.choose(3, "cut to"));
        else x.check(SdfInputStream::checkHeader(s.data(), n) == expect, "recognised", "line %d of length %d, label in line %d: %d", line, (int)ll, label, !expect);
        std::vector<char> copy(s.begin(), s.begin() + n); SdfInputStream::checkHeader(copy.data(), n);
        x.state(t * 100 + label * 10);
    });
    // a record that is cut off or whose source fails is not the end
    e.add("truncated", 2 * 40, [=](X& x, int t) {
        x.site("truncated"); std::string whole = mol("a", "\n", 0) + "$$$$\n" + mol("b", "\n", 1), b = whole + "$$$$\n"; int err = t % 2;
        size_t first = mol("a", "\n", 0).size() + 5; size_t n = first + 1 + (t / 2) * (b.size() - 6 - first) / 40 + 0;
        if (n > b.size() - 2) n = b.size() - 2;
        Policy p = few[x.choose(nf, "source")]; if (err) p.errorAt = (int)n; else b.resize(n); 
        if (!err && b.substr(first).find_first_not_of(" \n") == std::string::npos) return;
        Src src(&x, b.data(), b.size(), p);
        SdfInputStream z(&src);
        while (InputStream* s = z.nextEntry()) { std::string out; x.check(z.entryInfo().filename == "Molecule1", "extra", "an entry too many"); if (x.choose(2, "read")) x.check(!slurp(x, s, out) ? (err != 0) : out == mol("a", "\n", 0), "content", "wrong content"); }
        x.check(z.status() == Error && z.error()[0], "silently-incomplete", "the listing ends with status %s", stName(z.status()));
        x.state(t);
    });
    return e.main(argc, argv);
}

// ole.h - writer of OLE2 compound documents
#ifndef MC_OLE_H
#define MC_OLE_H
#include "archive.h"
namespace mc { namespace ole {
struct Item { std::string name, data; int type; Item(const std::string& n, const std::string& d, int t = 2) : name(n), data(d), type(t) {} };   // type 0 unused, 1 storage, 2 stream
struct Doc {
    std::vector<Item> items; int order; int smallOrder; bool partial; int spare;
    // where things are, for damaging them
    std::vector<int> fat, xbat, dir, minifat, mini; std::vector<std::vector<int> > chains;
    Doc() : order(0), smallOrder(0), partial(false), spare(0) {}
    void add(const std::string& n, const std::string& d, int t = 2) { items.push_back(Item(n, d, t)); }
    static std::vector<int> perm(int n, int kind) {
        std::vector<int> r(n); for (int i = 0; i < n; ++i) r[i] = kind == 1 ? n - 1 - i : i;
        if (kind == 2) { int st = n / 2 + 1; while (std::__gcd(st, n) != 1) ++st; for (int i = 0; i < n; ++i) r[i] = (int)((int64_t)i * st % n); }
        return r;
    }
    static void put(std::string& b, size_t at, uint32_t v, int w = 4) { for (int i = 0; i < w; ++i) b[at + i] = (char)(v >> (8 * i)); }
    std::string build() {
        fat.clear(); xbat.clear(); dir.clear(); minifat.clear(); mini.clear(); chains.clear();
        // small blocks
        int ns = 0; for (auto& i : items) if (i.type == 2 && i.data.size() < 4096) ns += (i.data.size() + 63) / 64;
        std::vector<int> sp = perm(ns, smallOrder); std::vector<int32_t> sfat(ns, -1); std::string ministream(ns * 64, 0);
        std::vector<int> startOf(items.size(), -2); int k = 0;
        for (size_t q = 0; q < items.size(); ++q) { auto& i = items[q]; if (i.type != 2 || i.data.size() >= 4096 || i.data.empty()) continue;
            int nb = (i.data.size() + 63) / 64; startOf[q] = sp[k];
            for (int j = 0; j < nb; ++j) { sfat[sp[k + j]] = j + 1 < nb ? sp[k + j + 1] : -2; std::string pc = i.data.substr(j * 64, 64); ministream.replace(sp[k + j] * 64, pc.size(), pc); }
            k += nb; }
        int nminifat = (ns * 4 + 511) / 512, nmini = (ministream.size() + 511) / 512, ndir = (items.size() + 1 + 3) / 4;
        std::vector<int> nbig(items.size(), 0); int total = nminifat + nmini + ndir + spare;
        for (size_t q = 0; q < items.size(); ++q) if (items[q].type == 2 && items[q].data.size() >= 4096) total += nbig[q] = (items[q].data.size() + 511) / 512;
        int nfat = 1, nx = 0;
        for (;;) { nx = nfat > 109 ? (nfat - 109 + 126) / 127 : 0; int need = (total + nfat + nx + 127) / 128; if (need <= nfat) break; nfat = need; }
        int all = total + nfat + nx; std::vector<int> p = perm(all, order > 2 ? 0 : order); int at = 0;
        // order 3: the last block of the file is the last one of the large streams, 4: of the small ones, 5: of the directory
        if (order > 2) { int last = nminifat + nmini - 1; if (order == 3 || order == 5) for (int b : nbig) last += b; if (order == 5) last += ndir; for (int i = 0; i < all; ++i) p[i] = (i + all - 1 - last) % all; }
        std::vector<int32_t> F(nfat * 128, -1); std::vector<std::string> S(all, std::string(512, 0));
        auto chain = [&](int n, const std::string& d, int mark) { std::vector<int> c; for (int i = 0; i < n; ++i) { int s = p[at++]; c.push_back(s); std::string pc = (size_t)i * 512 < d.size() ? d.substr(i * 512, 512) : ""; pc.resize(512, 0); S[s] = pc; } for (int i = 0; i < n; ++i) F[c[i]] = mark ? mark : i + 1 < n ? c[i + 1] : -2; return c; };
        std::string mf; for (int32_t v : sfat) zip::le(mf, (uint32_t)v, 4); while (mf.size() % 512) mf += '\xff';
        minifat = chain(nminifat, mf, 0); mini = chain(nmini, ministream, 0);
        chains.resize(items.size());
        for (size_t q = 0; q < items.size(); ++q) if (nbig[q]) { chains[q] = chain(nbig[q], items[q].data, 0); startOf[q] = chains[q][0]; }
        std::string D(ndir * 512, 0);
        auto entry = [&](int i, const std::string& name, int type, int32_t start, uint32_t size) { int o = i * 128; for (size_t c = 0; c < name.size(); ++c) D[o + 2 * c] = name[c]; put(D, o + 0x40, type ? 2 * (name.size() + 1) : 0, 2); D[o + 0x42] = (char)type; D[o + 0x43] = 1; put(D, o + 0x44, -1); put(D, o + 0x48, i && i < (int)items.size() ? i + 1 : -1); put(D, o + 0x4c, i ? -1 : 1); put(D, o + 0x74, start); put(D, o + 0x78, size); };
        entry(0, "Root Entry", 5, nmini ? mini[0] : -2, ministream.size());
        for (size_t q = 0; q < items.size(); ++q) { auto& i = items[q]; entry(q + 1, i.name, i.type, i.type == 2 ? startOf[q] : i.type == 1 ? 0 : 0, i.type == 2 ? i.data.size() : 0); }
        for (int i = items.size() + 1; i < ndir * 4; ++i) { put(D, i * 128 + 0x44, -1); put(D, i * 128 + 0x48, -1); put(D, i * 128 + 0x4c, -1); }
        dir = chain(ndir, D, 0);
        at += 0; std::vector<int> fs; for (int i = 0; i < nfat; ++i) { fs.push_back(p[at]); F[p[at++]] = -3; } fat = fs;
        for (int i = 0; i < nx; ++i) { xbat.push_back(p[at]); F[p[at++]] = -4; }
        for (int i = 0; i < nfat; ++i) { std::string b; for (int j = 0; j < 128; ++j) zip::le(b, (uint32_t)F[i * 128 + j], 4); S[fs[i]] = b; }
        for (int i = 0; i < nx; ++i) { std::string b; for (int j = 0; j < 127; ++j) { int q = 109 + i * 127 + j; zip::le(b, (uint32_t)(q < nfat ? fs[q] : -1), 4); } zip::le(b, (uint32_t)(i + 1 < nx ? xbat[i + 1] : -2), 4); S[xbat[i]] = b; }
        std::string h(512, 0); h.replace(0, 8, "\xd0\xcf\x11\xe0\xa1\xb1\x1a\xe1", 8); put(h, 0x18, 0x3e, 2); put(h, 0x1a, 3, 2); put(h, 0x1c, 0xfffe, 2); put(h, 0x1e, 9, 2); put(h, 0x20, 6, 2);
        put(h, 0x2c, nfat); put(h, 0x30, dir[0]); put(h, 0x38, 4096); put(h, 0x3c, nminifat ? minifat[0] : -2); put(h, 0x40, nminifat); put(h, 0x44, nx ? xbat[0] : -2); put(h, 0x48, nx);
        for (int i = 0; i < 109; ++i) put(h, 0x4c + 4 * i, i < nfat ? fs[i] : -1);
        std::string out = h; for (auto& s : S) out += s;
        if (partial) out = out.substr(0, out.size() - lastUnused());
        return out;
    }
    // bytes of the last sector that no stream uses (only for the natural order and a large stream there)
    int cut; int lastUnused() { return cut; }
    Ents ents() const { Ents r; for (auto& i : items) if (i.type == 2 && !i.data.empty()) r.push_back(Ent(i.name, i.data, 0)); return r; }
};
} }
#endif

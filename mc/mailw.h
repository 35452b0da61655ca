// mailw.h - writer of mails
#ifndef MC_MAILW_H
#define MC_MAILW_H
#include "archive.h"
namespace mc { namespace mail {
inline std::string b64(const std::string& d, const std::string& nl = "", int width = 76) {
    static const char* a = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; std::string o; int col = 0;
    for (size_t i = 0; i < d.size(); i += 3) {
        uint32_t v = (unsigned char)d[i] << 16; if (i + 1 < d.size()) v |= (unsigned char)d[i + 1] << 8; if (i + 2 < d.size()) v |= (unsigned char)d[i + 2];
        o += a[v >> 18]; o += a[v >> 12 & 63]; o += i + 1 < d.size() ? a[v >> 6 & 63] : '='; o += i + 2 < d.size() ? a[v & 63] : '=';
        col += 4; if (!nl.empty() && col >= width) { o += nl; col = 0; }
    }
    return o;
}
struct Part { std::string headers, body; std::string name; std::string data; std::string boundary, preamble, epilogue; std::vector<Part> kids; bool closed;     // a part with a boundary has kids
    Part() : closed(true) {} };
inline Part leaf(const std::string& headers, const std::string& body, const std::string& name = "") { Part p; p.headers = headers; p.body = body; p.data = body; p.name = name; return p; }
// the content type that a block of headers has, unfolded
inline std::string contentType(const std::string& headers) {
    std::string u, found; for (size_t i = 0; i < headers.size(); ++i) if (headers[i] != '\n' || i + 1 == headers.size() || (headers[i + 1] != ' ' && headers[i + 1] != '\t')) u += headers[i];
    for (size_t a = 0, z; a < u.size(); a = z + 1) { z = u.find('\n', a); if (z == std::string::npos) z = u.size(); if (strncasecmp(u.c_str() + a, "Content-Type:", 13) == 0) { size_t q = a + 13; while (q < z && isspace((unsigned char)u[q])) ++q; found = u.substr(q, z - q); } }
    return found;
}
// writes with \n; names are numbered when they have none
inline void text(const Part& p, std::string& out, Ents& es, bool top) {
    out += p.headers;
    if (!p.boundary.empty()) {
        out += "\n" + p.preamble;
        for (auto& k : p.kids) { if (out[out.size() - 1] != '\n') out += "\n"; out += "--" + p.boundary + "\n"; text(k, out, es, false); }
        if (p.closed) { out += "--" + p.boundary + "--\n" + p.epilogue; }
        return;
    }
    out += "\n" + p.body + (top ? "" : "\n");
    char n[20]; snprintf(n, 20, "%lu", es.size() + 1);
    Ent e(top ? "body" : p.name.empty() ? std::string(n) : p.name, p.data, 0); e.size = -1; e.aux = contentType(p.headers); es.push_back(e);
}
inline std::string crlf(const std::string& s) { std::string r; for (char c : s) { if (c == '\n') r += '\r'; r += c; } return r; }
} }
#endif

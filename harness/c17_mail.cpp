// C17: the parts of a mail are listed exactly, its headers are decoded.
#include "mailw.h"
#include <strigi/mailinputstream.h>
using namespace mc;
using namespace Strigi;
using mail::Part; using mail::leaf;

struct Arc { std::string bytes, what; Ents ents; };
static std::vector<Arc> arcs;
static void arc(const char* what, const Part& p) {
    for (int k = 0; k < 2; ++k) {
        Arc a; a.what = std::string(what) + (k ? " (CRLF)" : ""); mail::text(p, a.bytes, a.ents, true);
        if (k) { a.bytes = mail::crlf(a.bytes); for (auto& e : a.ents) if (e.data.compare(0, 5, "\001b64:")) e.data = mail::crlf(e.data); }
        for (auto& e : a.ents) { bool enc = e.data.compare(0, 5, "\001b64:") == 0; if (enc) e.data = e.data.substr(5); else if (!p.boundary.empty()) e.data += k ? "\r\n" : "\n"; }
        arcs.push_back(a);
    }
}
static Part multi(const std::string& b, const std::vector<Part>& kids, const std::string& pre = "This is a multi-part message.\n\n", const std::string& epi = "", bool top = true, const char* form = "\"%s\"") {
    Part p; char q[400]; snprintf(q, 400, form, b.c_str());
    p.headers = std::string(top ? "From: a@b.c\nSubject: parts\n" : "") + "Content-Type: multipart/mixed;\n\tboundary=" + q + "\n"; p.boundary = b; p.kids = kids; p.preamble = pre; p.epilogue = epi; return p;
}
static Part b64leaf(const std::string& headers, const std::string& d, const std::string& name = "") { Part p = leaf(headers + "Content-Transfer-Encoding: base64\n", mail::b64(d, "\n"), name); p.data = "\001b64:" + d; return p; }
static const std::string CT = "Content-Type: text/plain; charset=\"us-ascii\"\n";
static void content(X& x, MailInputStream& m, const Ents& es, int uses, std::function<int(int)> useOf = std::function<int(int)>()) {
    for (size_t i = 0; i < es.size(); ++i) {
        x.op();
        InputStream* s = m.nextEntry();
        if (!s) x.fail("missing", "part %lu is missing: status %s '%s'", i, stName(m.status()), m.error());
        x.check(m.currentEntry() == s, "current", "currentEntry() is not the part that was returned");
        checkInfo(x, &m, es[i], i);
        x.check(m.contentType() == es[i].aux, "content-type", "part %lu has the content type '%s', should be '%s'", i, printable(m.contentType().data(), m.contentType().size(), 200).c_str(), printable(es[i].aux.data(), es[i].aux.size(), 200).c_str());
        int u = useOf ? useOf((int)i) : x.choose(uses, "use of the part");
        useEntry(x, s, es[i].data, u);
        x.obs(u); x.state(mix(mix(i, u), hashBytes(es[i].data.data(), es[i].data.size())));
    }
    for (int k = 0; k < 2; ++k) { x.check(!m.nextEntry(), "extra", "an extra part after the last"); x.check(m.status() == Eof, "end", "status %s after the last part: '%s'", stName(m.status()), m.error()); }
}

int main(int argc, char** argv) {
    Explorer e("C17");
    bool th = Explorer::thorough();
    std::vector<Policy> pol = policies(), few = policiesFew();
    int np = (int)pol.size(), nf = (int)few.size();
    arc("single body", leaf("From: me@x\nSubject: hi\n", "hello\nworld\n"));
    arc("body that starts with space", leaf("From: me@x\n", "  indented: yes\n more\nend"));
    arc("body that starts with empty lines", leaf("From: me@x\n", "\n\n\nend\n"));
    arc("body of one letter", leaf("From: me@x\n", "e"));
    arc("two parts", multi("XX", { leaf(CT, "first\n"), leaf(CT, "second\nlast line") }));
    arc("no part headers", multi("XX", { leaf("", "plain: text\nmore"), leaf("", "  indented\n"), leaf("", "") }));
    arc("empty parts", multi("XX", { leaf(CT, ""), leaf(CT, ""), b64leaf("", ""), leaf(CT, "\n\n") }));
    arc("spaces first", multi("XX", { leaf(CT, " one\n two"), leaf(CT, "\tthree: 3\nfour"), leaf(CT, "\n five") }));
    arc("names", multi("b-1", { leaf("Content-Disposition: attachment; filename=\"a.txt\"\n", "A", "a.txt"), leaf("Content-Type: image/gif;\n name=\"b c.gif\"\n", "B", "b c.gif"), leaf("Content-Type: image/gif; name=d.gif\nContent-Disposition: inline;\n filename=e.gif; size=4\n", "D", "e.gif"), leaf(CT, "no name") }));
    arc("difficult names", multi("b", { leaf("Content-Disposition: attachment; filename=\"semi;colon.txt\"\n", "1", "semi;colon.txt"), leaf("Content-Disposition: attachment; filename=\"quote\\\"d.txt\"; x=y\n", "2", "quote\"d.txt"), leaf("Content-Type: a/b; charset=\"x; name=no\"; name = \"yes\" \n", "3", "yes"), leaf("Content-Disposition: attachment; FileName=UPPER \n", "4", "UPPER"), leaf("Content-Type: a/name=x; other=\"y\"\n", "5"), leaf("Content-Disposition: x;filename=\"\"\n", "6"), leaf("Content-Disposition: attachment; filename=x\n", "7", "x") }));
    arc("names after difficult attributes", multi("b", { leaf("Content-Disposition: attachment; x=\"\\\"; filename=no\"; filename=yes\n", "1", "yes"), leaf("Content-Disposition: attachment; x=\"a\\\\\"; filename=\"also \\\\ yes\"\n", "2", "also \\ yes"), leaf("Content-Disposition: attachment; filename=a:b,c/d=e\n", "3", "a:b,c/d=e"), leaf("Content-Disposition: attachment; filenames=no; xfilename=no; filename =\t yes ; filename=no\n", "4", "yes"), leaf("Content-Type: a/b; name=\"folded\n name\"\n", "5", "folded name"), leaf("Content-Disposition: inline\nContent-Type: a/b;name=\"~!#%&\"\n", "6", "~!#%&") }));
    arc("base64", multi("----=_Part", { b64leaf("Content-Disposition: attachment; filename=\"x.bin\"\n", comp::content(200, 2), "x.bin"), b64leaf("", "a"), b64leaf("", comp::content(57, 2)), leaf(CT, "text") }));
    arc("nested", multi("outer", { leaf(CT, "first"), multi("inner", { leaf(CT, "in one"), b64leaf("", "in two") }, "", "\n", false), leaf(CT, "last") }));
    arc("nested first, deep", multi("o", { multi("m1", { multi("i", { leaf(CT, "deep") }, "", "\n", false), leaf(CT, "middle") }, "x\n", "\n", false), multi("n", { leaf(CT, "2") }, "", "", false) }, "", "\n the end\n"));
    arc("unquoted boundary", multi("abc_123", { leaf(CT, "1"), leaf(CT, "2") }, "pre", "epi\n", true, "%s"));
    arc("boundary with a semicolon", multi("a;b=c:d", { leaf(CT, "1"), leaf(CT, "2") }));
    arc("boundary before other attributes", multi("zz", { leaf(CT, "1"), leaf(CT, "2") }, "", "", true, "\"%s\";\n type=\"multipart/alternative\""));
    arc("nearly boundaries", multi("BOUND", { leaf(CT, "--BOUN\n--BOUN D\n-BOUND\n--\n---\n--BOUN"), leaf(CT, "-- \n--bound--\n"), leaf(CT, "--B--BO--BOU--BOUN\n-") }, "--BOUNDx\n--BOUND-x\n--BOUNDx-\n-xBOUND\n--BOUND--x\n", "--BOUND-x\n"));
    arc("long boundary", multi(std::string(70, '='), { leaf(CT, std::string(300, '=')), leaf(CT, "--" + std::string(69, '=') + "\nx") }));
    arc("text around", multi("QQ", { leaf(CT, "1") }, " indented preamble\nname: x\n--Q\n--QQQ\n\n\n", "\n epilogue\n--QQ\n" + CT + "\nnot a part\n"));
    { Part p = multi("XX", { leaf(CT, "one"), leaf(CT, "two") }); p.closed = false; arc("not closed", p); }
    { Part p = multi("XX", { leaf(CT, comp::content(3000, 1)), leaf(CT, comp::content(2000, 1)) }); for (auto& k : p.kids) { for (char& c : k.body) if (c == '-' || !isprint((unsigned char)c)) c = '\n'; k.data = k.body; } arc("larger parts", p); }
    { Part u = leaf("CONTENT-TRANSFER-ENCODING:BASE64\ncontent-type:  text/x-y;\n\tcharset=\n us-ascii\n", mail::b64("upper", "\n")), f = leaf("Content-Type: a/b\nContent-Transfer-Encoding:\n base64\nX-Last: 1\n", mail::b64("folded", "\n")), q = leaf("Content-Transfer-Encoding: quoted-printable\nContent-Type: text/html\n", "a=3Db=\nc"), n = leaf("Content-Transfer-Encoding: 7bit\nX-Other: base64\n", "YWJj"); u.data = "\001b64:upper"; f.data = "\001b64:folded";
      arc("encodings and types", multi("XX", { u, f, q, n, leaf("", "YWJj"), b64leaf(CT, "again") })); }
    int na = (int)arcs.size();
    e.add("listing", na * np, [=](X& x, int t) {
        const Arc& a = arcs[t % na]; const Policy& p = pol[t / na];
        x.site("%s", a.what.c_str()); x.note("%s, source %s", a.what.c_str(), p.str().c_str());
        Src src(&x, a.bytes.data(), a.bytes.size(), p);
        x.check(MailInputStream::checkHeader(a.bytes.data(), (int)a.bytes.size()), "not-recognised", "the mail is not recognised");
        MailInputStream m(&src);
        { std::string b; for (char c : a.bytes) if (c != '\r') b += c; std::string own = mail::contentType(b.substr(0, b.find("\n\n") + 1)); x.check(m.contentType() == own, "content-type", "the mail has the content type '%s', should be '%s'", printable(m.contentType().data(), m.contentType().size(), 200).c_str(), printable(own.data(), own.size(), 200).c_str()); }
        content(x, m, a.ents, a.ents.size() < 4 || th ? USES : 3);
    });
    // every length of a part: its end anywhere
    std::vector<int> sizes; for (int i = 0; i < 600; ++i) sizes.push_back(i); for (int b : { 1024, 4096, 65536, 262144, 1048576 }) for (int i = -9; i <= 9; ++i) sizes.push_back(b + i);
    int nz = (int)sizes.size();
    e.add("sizes", nz * 2, [=](X& x, int t) {
        x.site("sizes"); std::string body; int n = sizes[t % nz]; bool enc = t / nz; for (int i = 0; i < n; ++i) body += i % 70 == 69 ? '\n' : (char)('a' + i % 23);
        if (enc && n > 100000) return;
        std::string d = comp::content(n, 2);
        Part p = multi("XX", { enc ? b64leaf("", d) : leaf(CT, body), leaf(CT, "second") });
        std::string b; Ents es; mail::text(p, b, es, true); for (auto& en : es) { if (!en.data.compare(0, 5, "\001b64:")) en.data = en.data.substr(5); else en.data += "\n"; }
        const Policy& q = few[x.choose(nf, "source")]; int u = x.choose(USES, "use");
        Src src(&x, b.data(), b.size(), q); MailInputStream m(&src);
        content(x, m, es, 1, [=](int i) { return i ? 1 : u; });
    });
    // all short bodies over critical characters
    static const char* pieces[] = { "--b", "-", "\n", " ", "x:", "b" };
    e.add("bodies", 6 * 6 * 6 * 6, [=](X& x, int t) {
        x.site("bodies"); std::string body; int v = t; int multipart = x.choose(2, "multipart"); for (int i = 0; i < 4; ++i) { body += pieces[v % 6]; v /= 6; }
        if (multipart && body.find("--b") != std::string::npos) return; 
        if (body.find("--b") == 0 && multipart) return;
        Part p = multipart ? multi("b", { leaf(CT, body), leaf("", body), leaf(CT, "end") }) : leaf("From: x@y\n", body);
        std::string b; Ents es; mail::text(p, b, es, true); if (multipart) for (auto& en : es) en.data += "\n";
        // a body that begins with the boundary when the part has no content of its own is not generated
        bool cr = x.choose(2, "CRLF"); if (cr) { b = mail::crlf(b); for (auto& en : es) en.data = mail::crlf(en.data); }
        if (multipart) for (auto& en : es) { if (en.data.find("--b") != std::string::npos) return; }
        Src src(&x, b.data(), b.size(), few[x.choose(nf, "source")]); MailInputStream m(&src);
        content(x, m, es, 2);
    });
    // very long lines, in the header, before the parts, in a part and behind them: either right or an error
    static const int longs[] = { 998, 4095, 4096, 32767, 65535, 65536, 262143, 262144, 524288, 1048574, 1048575, 1048576, 1048577, 1500000 };
    e.add("long-lines", 14 * 5, [=](X& x, int t) {
        x.site("long-lines"); int n = longs[t % 14], where = t / 14; std::string line; bool spaced = x.choose(2, "folded"); for (int i = 0; i < n; ++i) line += i % 100 == 70 && spaced ? '\n' : i % 100 == 71 && spaced ? ' ' : (char)('a' + i % 26);
        const Policy& q = few[x.choose(nf, "source")]; if (q.chunk != CHUNK_ALL && n > (q.chunk == 512 ? 66000 : 5000)) return;      // a line is read again from its start when the source gives more of it
        Part p; std::string flat; for (char c : line) if (c != '\n') flat += c;
        if (where == 0) p = leaf("From: x\nSubject: " + line + "\nTo: y\n", "the body"); else if (where == 1) p = multi("XX", { leaf("X-Long: " + line + "\n" + CT, "one"), leaf(CT, "two") });
        else if (where == 2) p = multi("XX", { leaf(CT, "one"), leaf(CT, "two") }, line + "\n"); else if (where == 3) p = multi("XX", { leaf(CT, line), leaf(CT, "two") }); else p = multi("XX", { leaf(CT, "one"), leaf(CT, "two") }, "", line);
        std::string b; Ents es; mail::text(p, b, es, true); if (where) for (auto& en : es) en.data += "\n";
        Src src(&x, b.data(), b.size(), q); MailInputStream m(&src);
        if (m.status() == Error) { x.state(t); x.check(m.error()[0] && n > 262144 && !m.nextEntry(), "refused", "a line of %d bytes (%d): '%s'", n, where, m.error()); return; }
        if (where == 0) x.check(m.subject() == flat && m.to() == "y", "header", "a header of %d bytes has become one of %lu", n, m.subject().size());
        for (size_t i = 0; i < es.size(); ++i) {
            InputStream* s = m.nextEntry(); x.state(t * 4 + i);
            if (!s) { x.check(m.status() == Error && m.error()[0] && n > 262144 && where < 3, "missing", "part %lu is missing with a line of %d bytes (%d): status %s", i, n, where, stName(m.status())); return; }
            checkInfo(x, &m, es[i], i); useEntry(x, s, es[i].data, i ? 1 : 2 * x.choose(2, "skip part") + 1);
        }
        x.check(!m.nextEntry() && (m.status() == Eof || (n > 262144 && where == 4)), "end", "status %s after the last part", stName(m.status()));
    });
    // headers
    struct H { const char* raw; const char* val; };
    static const H hs[] = {
        { "plain", "plain" }, { "x", "x" }, { "two words", "two words" }, { "folded\n line", "folded line" }, { "folded\n\tline\n  twice", "folded\tline  twice" },
        { "=?utf-8?B?w6kgw7w=?=", "\xc3\xa9 \xc3\xbc" }, { "=?UTF-8?b?w6k=?= tail", "\xc3\xa9 tail" }, { "head =?utf-8?q?=C3=A9_x?=", "head \xc3\xa9 x" }, { "=?iso-8859-1?Q?=E9=fc?=", "\xc3\xa9\xc3\xbc" },
        { "=?koi8-r?B?8M/E?=", "\xd0\x9f\xd0\xbe\xd0\xb4" }, { "=?utf-8?Q?one?= =?utf-8?Q?two?=", "onetwo" }, { "=?utf-8?Q?one?=\n =?utf-8?B?dHdv?=", "onetwo" }, { "=?utf-8?Q?one?= and =?utf-8?Q?two?=", "one and two" },
        { "=?utf-8?X?keep?=", "=?utf-8?X?keep?=" }, { "=?utf-8?Q?open", "=?utf-8?Q?open" }, { "=?utf-8?Q?open?", "=?utf-8?Q?open?" }, { "a =? b ?= c", "a =? b ?= c" }, { "=?none-such?Q?abc?=", "abc" },
        { "=?iso-2022-jp?B?GyRCRnxLXBsoQg==?= =?iso-2022-jp?B?GyRCOGwbKEI=?=", "\xe6\x97\xa5\xe6\x9c\xac\xe8\xaa\x9e" }, { "(=?utf-8?Q?a?=)", "(a)" }, { "1=2?3", "1=2?3" }, { "=?utf-8?Q?=3D=3F_=5F?=", "=? _" }, { "100% =41 a_b", "100% =41 a_b" },
    };
    static const char* names[] = { "Subject", "From", "To", "Cc", "Bcc", "Message-ID", "In-Reply-To", "References" };
    e.add("headers", 8 * 23, [=](X& x, int t) {
        const H& h = hs[t % 23]; int which = t / 23; x.site("headers");
        std::string nm = names[which]; int style = x.choose(3, "case"); for (char& c : nm) c = style == 1 ? toupper(c) : style == 2 ? tolower(c) : c;
        int sp = x.choose(3, "space"); bool cr = x.choose(2, "CRLF"), before = x.choose(2, "another header before");
        std::string b = std::string(before ? "Received: by x\n  subject: no\nX-To: no\n" : "") + nm + ":" + (sp == 0 ? "" : sp == 1 ? " " : "\t ") + h.raw + "\nDate: today\n\nbody\n";
        if (cr) b = mail::crlf(b);
        Src src(&x, b.data(), b.size(), few[x.choose(nf, "source")]); MailInputStream m(&src);
        const std::string* got[] = { &m.subject(), &m.from(), &m.to(), &m.cc(), &m.bcc(), &m.messageid(), &m.inreplyto(), &m.references() };
        for (int i = 0; i < 8; ++i) { std::string want = i == which ? h.val : ""; x.check(*got[i] == want, "header", "%s is '%s', should be '%s'", names[i], printable(got[i]->data(), got[i]->size()).c_str(), printable(want.data(), want.size()).c_str()); }
        x.state(t);
    });
    return e.main(argc, argv);
}

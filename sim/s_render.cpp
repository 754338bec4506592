// Renderings: a value is the same text whichever way it is read, in whatever pieces, in whatever
// order several readers of it take turns; a document written as XML is the same document (scenario "render").
#include "xb.hpp"
#include <ostream>
#include <sstream>
#include <streambuf>
#include <deque>
#include <unistd.h>
#include <math.h>

extern "C" { void *sim_malloc(size_t); void sim_free(void *); }

using namespace sim;
using namespace pklib_xml;

namespace {

//---------------------------------------------------------------- independent rendering of values
std::string civil(int64_t days) { // date of a day number since 1970-01-01
    int64_t z = days + 719468, era = (z >= 0 ? z : z - 146096) / 146097;
    unsigned doe = (unsigned)(z - era * 146097), yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    int64_t y = (int64_t)yoe + era * 400;
    unsigned doy = doe - (365 * yoe + yoe / 4 - yoe / 100), mp = (5 * doy + 2) / 153, d = doy - (153 * mp + 2) / 5 + 1, m = mp < 10 ? mp + 3 : mp - 9;
    return fmt("%04d-%02u-%02u", (int)(y + (m <= 2)), m, d);
}
int64_t floordiv(int64_t a, int64_t b) { return a >= 0 ? a / b : -((-a + b - 1) / b); }
std::string hexl(const std::string &v) { std::string o; for (unsigned char c : v) o += "0123456789abcdef"[c >> 4], o += "0123456789abcdef"[c & 15]; return o; }
template <class T> T as(const std::string &v) { T x; memcpy(&x, v.data(), sizeof(T)); return x; }
std::string fixed(int32_t v, int dec) {
    std::string s = std::to_string(v < 0 ? -(int64_t)v : (int64_t)v);
    while ((int)s.size() <= dec) s.insert(0, 1, '0');
    return std::string(v < 0 ? "-" : "") + s.substr(0, s.size() - dec) + "." + s.substr(s.size() - dec);
}
std::string render(int type, const std::string &v) {
    switch (type) {
        case XBT_NULL: return "";
        case XBT_STRING: case XBT_BLOB_STRING: return v;
        case XBT_BLOB: {
            static const char B[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
            std::string o;
            for (size_t i = 0; i < v.size(); i += 3) {
                size_t n = v.size() - i < 3 ? v.size() - i : 3;
                uint32_t x = (uint32_t)(uint8_t)v[i] << 16 | (n > 1 ? (uint32_t)(uint8_t)v[i + 1] << 8 : 0) | (n > 2 ? (uint8_t)v[i + 2] : 0);
                o += B[x >> 18]; o += B[x >> 12 & 63]; o += n > 1 ? B[x >> 6 & 63] : '='; o += n > 2 ? B[x & 63] : '=';
            }
            return o;
        }
        case XBT_HEX: { std::string o; for (size_t i = 0; i < v.size(); i += 16) o += hexl(v.substr(i, 16)) + "\n"; return o; }
        case XBT_SHA1: return hexl(v);
        case XBT_GUID: { std::string h = hexl(v); return h.substr(0, 8) + "-" + h.substr(8, 4) + "-" + h.substr(12, 4) + "-" + h.substr(16, 4) + "-" + h.substr(20); }
        case XBT_INT32: return std::to_string(as<int32_t>(v));
        case XBT_UINT32: return std::to_string(as<uint32_t>(v));
        case XBT_INT64: return std::to_string(as<int64_t>(v));
        case XBT_UINT64: return std::to_string(as<uint64_t>(v));
        case XBT_FLOAT: { char b[400]; snprintf(b, sizeof b, "%f", as<float>(v)); return b; }
        case XBT_DOUBLE: { char b[400]; snprintf(b, sizeof b, "%.17g", as<double>(v)); return b; }
        case XBT_INT32_DECI: return fixed(as<int32_t>(v), 1);
        case XBT_INT32_CENTI: return fixed(as<int32_t>(v), 2);
        case XBT_INT32_MILI: return fixed(as<int32_t>(v), 3);
        case XBT_INT32_MICRO: return fixed(as<int32_t>(v), 6);
        case XBT_INT32_NANO: return fixed(as<int32_t>(v), 9);
        case XBT_IPv4: { uint32_t x = as<uint32_t>(v); return fmt("%u.%u.%u.%u", x >> 24, x >> 16 & 255, x >> 8 & 255, x & 255); }
        case XBT_UNIX_DATE: return civil(as<int32_t>(v));
        case XBT_UNIX_TIME: { int64_t t = as<uint32_t>(v); return civil(t / 86400) + fmt(" %02d:%02d:%02d", (int)(t % 86400 / 3600), (int)(t % 3600 / 60), (int)(t % 60)); }
        case XBT_UNIX_TIME64_MSEC: {
            int64_t t = as<int64_t>(v), d = floordiv(t, 86400000), m = t - d * 86400000;
            return civil(d) + fmt(" %02d:%02d:%02d.%03d", (int)(m / 3600000), (int)(m / 60000 % 60), (int)(m / 1000 % 60), (int)(m % 1000));
        }
    }
    harness_error("render of type %d", type);
}

const int TYPES[] = {XBT_NULL, XBT_STRING, XBT_BLOB, XBT_INT32, XBT_INT64, XBT_FLOAT, XBT_DOUBLE, XBT_HEX, XBT_GUID, XBT_SHA1, XBT_UNIX_TIME, XBT_IPv4, XBT_UINT64, XBT_UNIX_TIME64_MSEC, XBT_UINT32, XBT_UNIX_DATE, XBT_INT32_DECI, XBT_INT32_CENTI, XBT_INT32_MILI, XBT_INT32_MICRO, XBT_INT32_NANO, XBT_BLOB_STRING};
enum { NT = sizeof(TYPES) / sizeof(*TYPES) };
bool ring_type(int t) { return t != XBT_NULL && t != XBT_STRING && t != XBT_BLOB && t != XBT_HEX && t != XBT_BLOB_STRING; }
template <class T> std::string bytes(T x) { return std::string((const char *)&x, sizeof(T)); }
std::string rich_text(Rng &r, int n) {
    static const char *W[] = {"&", "<", ">", "\"", "'", "]]>", "\xc5\xa1\xc4\x8d", "\t", " ", "&amp;", "&lt;", "</", "=", "<!--"};
    std::string s;
    bool dense = r.chance(30);
    while ((int)s.size() < n) { if (r.chance(dense ? 80 : 5)) s += W[r.below(14)]; else s += (char)(33 + r.below(94)); }
    s.resize(n);
    while (!s.empty() && (s.back() & 0x80)) s.pop_back(); // no cut character
    if (!s.empty()) { if (s[0] == ' ' || s[0] == '\t') s[0] = 'x'; if (s.back() == ' ' || s.back() == '\t') s.back() = 'y'; }
    return s;
}
std::string make_value(Rng &r, int type, int size) {
    auto len = [&] { return (int)(r.chance(60) ? r.below(40) : r.chance(50) ? (r.chance(50) ? 4096 : 8192) - 12 + r.below(24) : r.below((uint32_t)size + 1)); };
    switch (type) {
        case XBT_NULL: return "";
        case XBT_STRING: case XBT_BLOB_STRING: return rich_text(r, len());
        case XBT_BLOB: case XBT_HEX: return rnd_bytes(r.next(), len());
        case XBT_GUID: return rnd_bytes(r.next(), 16);
        case XBT_SHA1: return rnd_bytes(r.next(), 20);
        case XBT_INT64: case XBT_UINT64: { static const int64_t E[] = {0, -1, INT64_MIN, INT64_MAX, 1}; return bytes(r.chance(30) ? E[r.below(5)] : (int64_t)r.next() >> r.below(64)); }
        case XBT_DOUBLE: { double d = r.chance(50) ? (double)(int64_t)r.next() / 1024 : as<double>(rnd_bytes(r.next(), 8)); return bytes(isnan(d) ? 0.5 : d); }
        case XBT_FLOAT: { float d = r.chance(50) ? (float)(int32_t)r.next() / 1024 : as<float>(rnd_bytes(r.next(), 4)); return bytes(isnan(d) ? 0.5f : d); }
        case XBT_UNIX_DATE: return bytes((int32_t)(r.chance(50) ? r.range(-719162, 2932896) : r.range(-150000, 60000)));
        case XBT_UNIX_TIME64_MSEC: return bytes(r.chance(50) ? r.range(-62135596800000ll, 253402300799999ll) : r.range(-100000000, 2000000000000ll));
        default: { static const int32_t E[] = {0, -1, INT32_MIN, INT32_MAX, 1, -5, 100}; return bytes(r.chance(30) ? E[r.below(7)] : (int32_t)r.next() >> r.below(32)); }
    }
}

//---------------------------------------------------------------- XML text, parsed independently
struct Mini {
    const std::string &s;
    size_t i = 0;
    std::string err;
    void bad(const char *w) { if (err.empty()) err = fmt("%s at byte %zu: ...%s", w, i, s.substr(i > 20 ? i - 20 : 0, 60).c_str()); }
    void ws() { while (i < s.size() && isspace((unsigned char)s[i])) i++; }
    bool eat(const char *t) { size_t n = strlen(t); if (s.compare(i, n, t) == 0) { i += n; return true; } return false; }
    std::string name() { size_t b = i; while (i < s.size() && (isalnum((unsigned char)s[i]) || strchr("_-.:", s[i]))) i++; if (b == i) bad("name expected"); return s.substr(b, i - b); }
    void entity(std::string &o) {
        if (eat("&lt;")) o += '<'; else if (eat("&gt;")) o += '>'; else if (eat("&amp;")) o += '&'; else if (eat("&quot;")) o += '"'; else if (eat("&apos;")) o += '\'';
        else { bad("bare &"); i++; }
    }
    void elem(XN &x, int deep) {
        if (deep > 400) { bad("too deep"); return; }
        if (!eat("<")) { bad("element expected"); return; }
        x.name = name();
        for (;;) {
            size_t b = i;
            ws();
            if (!err.empty()) return;
            if (eat("/>")) return;
            if (eat(">")) break;
            if (b == i) { bad("space expected"); return; }
            XA a; a.name = name();
            if (!eat("=\"")) { bad("=\" expected"); return; }
            while (i < s.size() && s[i] != '"') { if (s[i] == '&') entity(a.v); else if (s[i] == '<') { bad("bare < in attribute"); return; } else a.v += s[i++]; }
            if (!eat("\"")) { bad("open attribute"); return; }
            x.attrs.push_back(a);
        }
        for (;;) {
            if (!err.empty()) return;
            if (i >= s.size()) { bad("open element"); return; }
            if (eat("</")) { if (name() != x.name) bad("other end tag"); if (!eat(">")) bad("> expected"); return; }
            if (s[i] == '<') { x.ch.emplace_back(); elem(x.ch.back(), deep + 1); }
            else if (s[i] == '&') entity(x.v);
            else x.v += s[i++];
        }
    }
};
std::string trim(const std::string &s) { size_t b = 0, e = s.size(); while (b < e && isspace((unsigned char)s[b])) b++; while (e > b && isspace((unsigned char)s[e - 1])) e--; return s.substr(b, e - b); }
std::string shrt(const std::string &s) { return s.size() > 80 ? s.substr(0, 80) + fmt("..(%zu)", s.size()) : s; }
std::string cmp_xml(const XN &want, const XN &got, const std::string &path) {
    std::string p = path + "/" + want.name;
    if (want.name != got.name) return p + ": name is " + shrt(got.name);
    if (want.attrs.size() != got.attrs.size()) return p + fmt(": %zu attributes instead of %zu", got.attrs.size(), want.attrs.size());
    for (size_t i = 0; i < want.attrs.size(); i++) {
        if (want.attrs[i].name != got.attrs[i].name) return p + fmt(": attribute %zu is named %s instead of %s", i, shrt(got.attrs[i].name).c_str(), want.attrs[i].name.c_str());
        std::string w = render(want.attrs[i].type, want.attrs[i].v);
        if (w != got.attrs[i].v) return p + "@" + want.attrs[i].name + ": \"" + shrt(got.attrs[i].v) + "\" instead of \"" + shrt(w) + "\"";
    }
    std::string w = render(want.type, want.v);
    if (want.ch.empty() ? w != got.v : trim(w) != trim(got.v)) return p + ": value \"" + shrt(got.v) + "\" instead of \"" + shrt(w) + "\"";
    if (want.ch.size() != got.ch.size()) return p + fmt(": %zu children instead of %zu", got.ch.size(), want.ch.size());
    for (size_t i = 0; i < want.ch.size(); i++) { std::string e = cmp_xml(want.ch[i], got.ch[i], p); if (!e.empty()) return e; }
    return "";
}
std::string cmp_src(const XN &want, const XN &got, const std::string &path) { // texts of a source
    std::string p = path + "/" + want.name;
    if (want.name != got.name) return p + ": name is " + shrt(got.name);
    if (want.attrs.size() != got.attrs.size()) return p + fmt(": %zu attributes instead of %zu", got.attrs.size(), want.attrs.size());
    for (size_t i = 0; i < want.attrs.size(); i++) {
        if (want.attrs[i].name != got.attrs[i].name) return p + fmt(": attribute %zu is named %s instead of %s", i, shrt(got.attrs[i].name).c_str(), want.attrs[i].name.c_str());
        if (want.attrs[i].v != got.attrs[i].v) return p + "@" + want.attrs[i].name + ": \"" + shrt(got.attrs[i].v) + "\" instead of \"" + shrt(want.attrs[i].v) + "\"";
    }
    if (trim(want.v) != trim(got.v)) return p + ": value \"" + shrt(got.v) + "\" instead of \"" + shrt(want.v) + "\"";
    if (want.ch.size() != got.ch.size()) return p + fmt(": %zu children instead of %zu", got.ch.size(), want.ch.size());
    for (size_t i = 0; i < want.ch.size(); i++) { std::string e = cmp_src(want.ch[i], got.ch[i], p); if (!e.empty()) return e; }
    return "";
}
struct Sink : std::streambuf { // takes `limit` bytes and fails then
    std::string got;
    int64_t limit;
    explicit Sink(int64_t l) : limit(l) {}
    int overflow(int c) override { if (limit >= 0 && (int64_t)got.size() >= limit) return EOF; if (c != EOF) got += (char)c; return c == EOF ? 0 : c; }
    std::streamsize xsputn(const char *p, std::streamsize n) override {
        std::streamsize k = limit >= 0 ? std::min<std::streamsize>(n, limit - (std::streamsize)got.size()) : n;
        got.append(p, (size_t)k);
        return k;
    }
};

//---------------------------------------------------------------- the document
struct Val { int type; const std::string *v; std::string text; // and where it is
    BW_element *E = nullptr; XML_Item *X = nullptr; XML_Param_Description *P = nullptr; std::string where; };

struct Doc {
    const Plan &p;
    XN tree;
    std::vector<Val> vals;
    int tag[NT], attr[NT];
    Doc(const Plan &p) : p(p) {}
    static std::string raw(int type, const std::string &v, int room = 0) {
        if (type == XBT_STRING) return v + std::string(1, '\0');
        if (type == XBT_BLOB || type == XBT_HEX) return bytes((int32_t)v.size()) + v;
        if (type == XBT_BLOB_STRING) { int n = ((int)v.size() + 1 + 15) / 16 * 16 + room; return bytes((int32_t)n) + v + std::string(n - v.size(), '\0'); }
        return v;
    }
    static XML_Binary_Data_Ref ref(int type, std::string &b) {
        XML_Binary_Data_Ref r;
        r.type = (XML_Binary_Type)type; r.data = &b[0]; r.size = (int)b.size();
        bool h = type == XBT_BLOB || type == XBT_HEX || type == XBT_BLOB_STRING;
        r.content = r.data + (h ? 4 : 0); r.content_size = r.size - (h ? 4 : 0);
        return r;
    }
    BW_element *node(BW_plugin &W, Rng &r, int &n, int size, int deep, XN &x) {
        n--;
        bool res = deep > 0 && r.chance(5);
        int t = deep == 0 ? 0 : (int)r.below(NT);
        BW_element *E;
        if (res) { x.name = "transaction"; x.type = XBT_NULL; E = W.tag(XTNR_TRANSACTION); }
        else {
            x.name = fmt("t%d", TYPES[t]); x.type = TYPES[t]; x.v = make_value(r, x.type, size);
            if (x.type == XBT_NULL) E = W.tag(tag[t]);
            else { std::string b = raw(x.type, x.v); XML_Binary_Data_Ref d = ref(x.type, b); E = W.tagData(tag[t], d); }
        }
        if (!E) setup_failed("tag of type %d", x.type);
        if (res) {
            if (r.chance(60)) { int64_t au = (int64_t)r.next(); if (!E->attrInt64(XPNR_AUTHOR, au)) setup_failed("author"); XA a; a.name = "author"; a.type = XBT_INT64; a.v = bytes(au); x.attrs.push_back(a); }
            if (r.chance(60)) { std::string ms = make_value(r, XBT_UNIX_TIME64_MSEC, 8); if (!E->attrTime64(XPNR_TIME_MS, as<int64_t>(ms))) setup_failed("time_ms"); XA a; a.name = "time_ms"; a.type = XBT_UNIX_TIME64_MSEC; a.v = ms; x.attrs.push_back(a); }
        }
        int na = r.chance(45) ? 0 : r.below(5);
        for (int i = 0; i < na; i++) {
            int k = r.below(NT);
            XA a; a.name = fmt("a%d", TYPES[k]); a.type = TYPES[k]; a.v = make_value(r, a.type, size);
            std::string b = raw(a.type, a.v); XML_Binary_Data_Ref d = ref(a.type, b);
            BW_element *q = a.type == XBT_NULL ? E->attrNull(attr[k]) : E->attrData((int16_t)attr[k], d);
            if (!q) setup_failed("attribute of type %d", a.type);
            x.attrs.push_back(a);
        }
        if (n > 0 && deep < 9 && (deep == 0 || r.chance(35))) {
            int k = deep == 0 ? n : 1 + r.below(5);
            while (k-- > 0 && n > 0) { x.ch.emplace_back(); XN y; BW_element *C = node(W, r, n, size, deep + 1, y); x.ch.back() = y; E->add(C); }
        }
        return E;
    }
    bool registered(BW_plugin &W) {
        for (int i = 0; i < NT; i++) {
            tag[i] = W.registerTag(fmt("t%d", TYPES[i]).c_str(), (XML_Binary_Type)TYPES[i]);
            attr[i] = W.registerParam(fmt("a%d", TYPES[i]).c_str(), (XML_Binary_Type)TYPES[i]);
        }
        return W.allRegistered();
    }
    void build(BW_plugin &W) {
        Rng r((uint64_t)p.c("doc"));
        int n = (int)p.c("n", 10);
        if (!registered(W)) setup_failed("dictionary");
        BW_element *E = node(W, r, n, (int)p.c("size", 100), 0, tree);
        W.setRoot(E);
    }
    void list_w(BW_plugin &W, BW_element *E, const XN &x) {
        vals.push_back({x.type, &x.v, render(x.type, x.v)}); vals.back().E = E; vals.back().where = "live " + x.name;
        if (!x.attrs.empty()) {
            BW_element *A = E->BWE(E->first_attribute);
            for (auto &a : x.attrs) { vals.push_back({a.type, &a.v, render(a.type, a.v)}); vals.back().E = A; vals.back().where = "live " + x.name + "@" + a.name; A = A->BWE(A->next); }
        }
        if (!x.ch.empty()) {
            BW_element *C = E->BWE(E->first_child);
            for (auto &c : x.ch) { list_w(W, C, c); C = C->BWE(C->next); }
        }
    }
    void list_x(XB_reader &R, XML_Item *X, const XN &x) {
        if (X->paramcount != (int)x.attrs.size() || X->childcount != (int)x.ch.size()) fail("render:shape", "<%s> has %d attributes and %d children instead of %zu and %zu", x.name.c_str(), X->paramcount, X->childcount, x.attrs.size(), x.ch.size());
        vals.push_back({x.type, &x.v, render(x.type, x.v)}); vals.back().X = X; vals.back().where = "stored " + x.name;
        for (size_t i = 0; i < x.attrs.size(); i++) { auto &a = x.attrs[i]; vals.push_back({a.type, &a.v, render(a.type, a.v)}); vals.back().X = X; vals.back().P = X->getParamByIndex((int)i); vals.back().where = "stored " + x.name + "@" + a.name; }
        for (size_t i = 0; i < x.ch.size(); i++) list_x(R, X->getChildByIndex((int)i), x.ch[i]);
    }
};

//---------------------------------------------------------------- several readers of values taking turns
struct Hold { const char *p; std::string want, where; };
struct Cur { int v = -1; int off = 0; std::string got; int mode = 0, pieces = 0; bool over = false; };
struct Params { std::vector<std::pair<std::string, std::string>> a; };
void on_param(const char *n, const char *v, void *, void *u) { ((Params *)u)->a.push_back({n ? n : "", v ? v : ""}); }

struct Player {
    Doc &D;
    BW_plugin &W;
    XB_reader &R;
    std::deque<Hold> ring;   // results that stay for the next 63 of their kind
    Hold big{nullptr, "", ""};
    std::vector<Hold> direct; // results that point to the document
    std::vector<Cur> curs;
    std::vector<Params> dummy;
    Player(Doc &D, BW_plugin &W, XB_reader &R) : D(D), W(W), R(R) {}

    void check(const Hold &h, const char *when) {
        if (strlen(h.p) != h.want.size() || h.want != h.p) fail("render:changed-later", "%s: text \"%s\" is \"%s\" %s", h.where.c_str(), shrt(h.want).c_str(), shrt(h.p).c_str(), when);
    }
    void check_all(const char *when) { for (auto &h : ring) check(h, when); for (auto &h : direct) check(h, when); if (big.p) check(big, when); }
    void whole(const Val &v, int how) {
        if (v.E && how % 3 == 1 && !(v.E->flags & BIN_WRITE_ELEMENT_FLAG)) how = 0;
        const char *s;
        if (v.E) s = how % 2 ? W.getNodeValue(v.E) : XBT_ToString((XML_Binary_Type)v.type, v.E->BWD());
        else if (v.P) { if (how % 2) { XML_Binary_Data_Ref d = v.P->getData(v.X); s = XBT_ToString(d.type, d.data); } else s = v.P->getString(v.X); }
        else if (how % 2) { XML_Binary_Data_Ref d = v.X->getData(); s = XBT_ToString(d.type, d.data); }
        else s = v.X->getString();
        if (ring_type(v.type)) { if (ring.size() >= MAX_REETRANT_BUFFERS) ring.pop_front(); }
        if (v.type == XBT_BLOB || v.type == XBT_HEX) if (!v.text.empty()) big.p = nullptr;
        if (!s) { if (!v.text.empty()) fail("render:no-text", "%s: no text, should be \"%s\"", v.where.c_str(), shrt(v.text).c_str()); return; }
        if (v.text != s) fail("render:text", "%s: text is \"%s\" and should be \"%s\"", v.where.c_str(), shrt(s).c_str(), shrt(v.text).c_str());
        Hold h{s, v.text, v.where};
        if (ring_type(v.type)) ring.push_back(h);
        else if (v.type == XBT_BLOB || v.type == XBT_HEX) { if (!v.text.empty()) big = h; }
        else { if (direct.size() > 40) direct.erase(direct.begin()); direct.push_back(h); }
        count("render.whole");
    }
    int chunk(const Val &v, int mode, int &off, char *dst, int n) {
        if (v.E) return XBT_ToStringChunk((XML_Binary_Type)v.type, v.E->BWD(), off, dst, n);
        if (v.P) return v.P->getStringChunk(v.X, off, dst, n);
        (void)mode;
        return v.X->getStringChunk(off, dst, n);
    }
    void step(Cur &c, int n) {
        Val &v = D.vals[c.v];
        char *dst = (char *)sim_malloc(n);
        if (!dst) setup_failed("buffer");
        memset(dst, 0x5a, n);
        int off0 = c.off;
        int k = chunk(v, c.mode, c.off, dst, n);
        if (n <= 256) { // MIN_OUT_BUFFER_SIZE
            if (k != -1 || c.off != off0) fail("render:small-buffer", "%s: a buffer of %d bytes gave %d", v.where.c_str(), n, k);
            sim_free(dst);
            return;
        }
        if (k < 0 || k >= n) fail("render:chunk-size", "%s: a piece has %d bytes in a buffer of %d", v.where.c_str(), k, n);
        if (k > 0 && (int)strnlen(dst, n) != k) fail("render:chunk-end", "%s: a piece of %d bytes has its end at %zu (buffer %d)", v.where.c_str(), k, strnlen(dst, n), n);
        if (k == 0) { c.over = true; if (c.got != v.text) fail("render:pieces", "%s: pieces make \"%s\" and should \"%s\"", v.where.c_str(), shrt(c.got).c_str(), shrt(v.text).c_str()); count("render.cursor_done"); }
        else {
            if (c.over) fail("render:after-end", "%s: a piece after the end", v.where.c_str());
            c.got.append(dst, k);
            if (++c.pieces > 100000) fail("render:endless", "%s: pieces do not end", v.where.c_str());
            if (v.text.compare(0, c.got.size(), c.got)) fail("render:piece", "%s: pieces make \"%s\" and should begin \"%s\"", v.where.c_str(), shrt(c.got.size() > 60 ? "..." + c.got.substr(c.got.size() - 60) : c.got).c_str(), shrt(v.text).c_str());
        }
        sim_free(dst);
    }
    void stream(const Val &v, bool xml) {
        std::ostringstream os;
        const char *data;
        XML_Binary_Data_Ref d;
        if (v.E) data = v.E->BWD();
        else { d = v.P ? v.P->getData(v.X) : v.X->getData(); data = d.data; }
        if (v.type == XBT_NULL) data = nullptr;
        if (xml) XBT_ToXMLStream((XML_Binary_Type)v.type, data, os); else XBT_ToStringStream((XML_Binary_Type)v.type, data, os);
        std::string want = v.text;
        if (xml) { want.clear(); for (char ch : v.text) { if (ch == '<') want += "&lt;"; else if (ch == '>') want += "&gt;"; else if (ch == '&') want += "&amp;"; else if (ch == '"') want += "&quot;"; else want += ch; } }
        if (os.str() != want) { // another correct escaping is as good
            std::string t = "<v>" + os.str() + "</v>"; Mini m{t}; XN x; m.elem(x, 0);
            if (!xml || !m.err.empty() || x.v != v.text) fail("render:stream", "%s: written as \"%s\" and should be \"%s\"", v.where.c_str(), shrt(os.str()).c_str(), shrt(want).c_str());
        }
        count(xml ? "render.xml_stream" : "render.stream");
    }
    void mix_(uint64_t seed, int steps) {
        Rng r(seed);
        if (D.vals.empty()) return;
        std::vector<int> favourite;
        for (int i = 0; i < 4; i++) favourite.push_back(r.below((uint32_t)D.vals.size()));
        for (int i = 0; i < steps; i++) {
            int v = r.chance(40) ? favourite[r.below(4)] : (int)r.below((uint32_t)D.vals.size());
            int k = r.below(100);
            if (k < 15 && curs.size() < 8) { Cur c; c.v = v; curs.push_back(c); }
            else if (k < 55 && !curs.empty()) {
                int ci = r.below((uint32_t)curs.size());
                int n = r.chance(5) ? 1 + r.below(256) : 257 + (r.chance(70) ? r.below(20) : r.chance(50) ? r.below(500) : r.below(5000));
                step(curs[ci], n);
                if (curs[ci].over && r.chance(70)) curs.erase(curs.begin() + ci);
            }
            else if (k < 85) whole(D.vals[v], r.below(6));
            else if (k < 93) stream(D.vals[v], r.chance(50));
            else if (k < 96) check_all("after other calls");
            else if (k < 98) { big.p = nullptr; XBT_Free(); }
            else params(r);
            state(mix(mix(7, D.vals[v].type), (uint64_t)k / 10 * 16 + curs.size()));
        }
        check_all("at the end");
        for (auto &c : curs) while (!c.over) step(c, 257 + r.below(300));
        curs.clear();
        event(seed, ring.size(), direct.size());
    }
    void params(Rng &r) { // text of all attributes of an element at once
        for (int t = 0; t < 20; t++) {
            size_t i = r.below((uint32_t)D.vals.size());
            Val &v = D.vals[i];
            if (!v.E || !(v.E->flags & BIN_WRITE_ELEMENT_FLAG)) continue;
            Params P;
            big.p = nullptr; ring.clear();
            W.ForAllParams(on_param, v.E, &P);
            size_t n = 0;
            while (i + 1 + n < D.vals.size() && D.vals[i + 1 + n].E && !(D.vals[i + 1 + n].E->flags & BIN_WRITE_ELEMENT_FLAG)) n++;
            if (n != P.a.size()) fail("render:params", "%s: %zu attributes instead of %zu", v.where.c_str(), P.a.size(), n);
            for (size_t k = 0; k < n; k++) if (P.a[k].second != D.vals[i + 1 + k].text) fail("render:params", "%s: text is \"%s\" and should be \"%s\"", D.vals[i + 1 + k].where.c_str(), shrt(P.a[k].second).c_str(), shrt(D.vals[i + 1 + k].text).c_str());
            count("render.params");
            return;
        }
    }
    void document(bool live, int64_t limit) {
        Sink full(-1);
        { std::ostream os(&full); if (live) os << W; else os << R; if (!os) fail("render:stream-state", "writing the %s document broke the stream", live ? "live" : "stored"); }
        big.p = nullptr; ring.clear();
        XN got;
        Mini m{full.got};
        m.ws(); m.elem(got, 0); m.ws();
        if (m.err.empty() && m.i != full.got.size()) m.bad("text after the root");
        if (!m.err.empty()) fail("render:not-xml", "the %s document is not written as XML: %s", live ? "live" : "stored", m.err.c_str());
        std::string e = cmp_xml(D.tree, got, "");
        if (!e.empty()) fail("render:document", "the %s document written as XML: %s", live ? "live" : "stored", e.c_str());
        count("render.document");
        if (limit >= 0 && limit < (int64_t)full.got.size()) {
            Sink s(limit);
            std::ostream os(&s);
            if (live) os << W; else os << R;
            if (os) fail("render:full-sink", "a stream that takes %lld of %zu bytes looks good", (long long)limit, full.got.size());
            if (s.got != full.got.substr(0, (size_t)limit)) fail("render:full-sink", "%lld bytes were taken and they are not the first ones", (long long)limit);
            count("fault.full_sink");
        }
    }
};

bool nameless(const XN &x) { if (x.name.empty()) return true; for (auto &c : x.ch) if (nameless(c)) return true; return false; }
// a source document written as XML
void source(const Op &o) {
    SrcCfg c{o.arg(0) & 1 ? SRC_JSON : SRC_XML, (uint64_t)o.arg(1), (o.arg(0) & 2) != 0, (o.arg(0) & 4) != 0};
    XN x;
    std::string t = make_text(c, (uint64_t)o.arg(2), (int)o.arg(3), (int)o.arg(4), x);
    if (nameless(x)) return; // items of an array called "s" have an empty name, it cannot be written
    const char *name = c.kind == SRC_JSON ? "s.json" : "s.xml";
    put_file(name, t);
    if (const char *dd = getenv("SIM_DUMP")) spew(dd, t);
    xml_io_hook();
    Bin_src_plugin *S;
    if (c.kind == SRC_JSON) S = new Bin_json_plugin(name, nullptr); else S = new Bin_xml_plugin(name, nullptr);
    if (!S->Initialize()) fail("render:source-refused", "a valid source is not opened");
    int64_t limit = o.arg(5, -1);
    for (int k = 0; k < 2; k++) {
        Sink full(-1);
        { std::ostream os(&full); os << *S; if (!os) fail("render:stream-state", "writing the source document broke the stream"); }
        XN got;
        Mini m{full.got};
        m.ws(); m.elem(got, 0); m.ws();
        if (m.err.empty() && m.i != full.got.size()) m.bad("text after the root");
        if (!m.err.empty()) fail("render:not-xml", "the source document is not written as XML: %s", m.err.c_str());
        std::string e = cmp_src(x, got, "");
        if (!e.empty()) fail("render:document", "the source document written as XML: %s", e.c_str());
        if (k == 0 && limit >= 0 && limit < (int64_t)full.got.size()) {
            Sink s(limit);
            std::ostream os(&s);
            os << *S;
            if (os) fail("render:full-sink", "a stream that takes %lld of %zu bytes looks good", (long long)limit, full.got.size());
            if (s.got != full.got.substr(0, (size_t)limit)) fail("render:full-sink", "%lld bytes were taken and they are not the first ones", (long long)limit);
            count("fault.full_sink");
        }
    }
    delete S;
    count("render.source");
}

void run_render(const Plan &p) {
    heap_fill = (int)p.c("fill", 256); heap_fill_seed = p.seed + 1;
    short_io = p.c("short", 0); io_seed = short_io ? 77 : 0;
    file_mtime = 1500000000;
    ProcResult r = run_process([&] {
        Doc D(p);
        BW_plugin W("doc.xbw", nullptr, 0x1000000, 0);
        if (!W.Initialize()) setup_failed("document");
        D.build(W);
        if (!Bin_xml_packer::Convert(&W, "doc.xb")) setup_failed("conversion");
        char n[16]; strcpy(n, "doc.xb");
        XB_reader R(n);
        if (!R.Initialize()) setup_failed("reader");
        D.list_w(W, W.BWE(W.getPool()->root), D.tree);
        D.list_x(R, R.getRoot(), D.tree);
        Player P(D, W, R);
        for (auto &o : p.ops) {
            op_begin(&o);
            if (o.name == "mix") P.mix_((uint64_t)o.arg(0), (int)o.arg(1));
            else if (o.name == "xml") P.document(o.arg(0) & 1, o.arg(1, -1));
            else if (o.name == "src") source(o);
            op_end();
        }
        R.Finalize();
        XBT_Free();
    }, 400ull * 1000 * 1000);
    expect_clean(r, "render");
}
Plan gen_render(Rng &r, int tier) {
    Plan p;
    p.cfg["doc"] = (int64_t)r.below(1 << 28);
    p.cfg["n"] = r.chance(60) ? 1 + r.below(20) : 1 + r.below(tier ? 400 : 120);
    p.cfg["size"] = r.chance(70) ? r.below(300) : r.below(30000);
    p.cfg["fill"] = r.chance(60) ? 256 : (int64_t)r.below(256);
    p.cfg["short"] = r.chance(30) ? 1 + r.below(5000) : 0;
    int n = 2 + r.below(tier ? 12 : 6);
    for (int i = 0; i < n; i++) {
        Op o;
        if (r.chance(8)) { o.name = "src"; o.a = {(int64_t)r.below(8), (int64_t)r.below(1 << 20), (int64_t)r.below(1 << 28), (int64_t)(1 + r.below(60)), (int64_t)r.below(300), r.chance(30) ? (int64_t)r.below(3000) : -1}; }
        else if (r.chance(60)) { o.name = "mix"; o.a = {(int64_t)r.below(1 << 28), (int64_t)(10 + r.below(r.chance(50) ? 60 : 400))}; }
        else { o.name = "xml"; o.a = {(int64_t)r.below(2), r.chance(40) ? (int64_t)r.below(r.chance(50) ? 200 : 20000) : -1}; }
        p.ops.push_back(o);
    }
    return p;
}
RegScenario sc1("render", gen_render, run_render);

} // namespace

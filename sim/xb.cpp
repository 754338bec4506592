#include "xb.hpp"
#include <map>
#include <math.h>
#include <libxml/parser.h>
#include <libxml/xmlIO.h>
#include <libxml/xmlmemory.h>
#include <fcntl.h>
#include <unistd.h>
#include <stdlib.h>
#include <malloc.h>
#include <ctype.h>

extern "C" { int sim_open(const char *, int, ...); ssize_t sim_read(int, void *, size_t); int sim_close(int); }

namespace sim {

//---------------------------------------------------------------- libxml2 behind the seams
static int io_match(const char *) { return 1; }
static void *io_open(const char *n) { int fd = sim_open(n, O_RDONLY); return fd < 0 ? nullptr : (void *)(intptr_t)(fd + 1); }
static int io_read(void *c, char *b, int n) { // libxml2 reads its files by fread, which continues after a short read
    int got = 0;
    while (got < n) { int k = (int)sim_read((int)(intptr_t)c - 1, b + got, n - got); if (k < 0) return -1; if (k == 0) break; got += k; }
    return got;
}
static int io_close(void *c) { return sim_close((int)(intptr_t)c - 1); }
static void io_quiet(void *, const char *, ...) {}
void xml_io_hook() {
    xmlCleanupInputCallbacks();
    xmlRegisterInputCallbacks(io_match, io_open, io_read, io_close);
    xmlSetGenericErrorFunc(nullptr, io_quiet);
}
static int64_t xlive = 0;
static void xfree(void *p) { if (p) { xlive--; free(p); } }
static void *xmal(size_t n) { void *p = malloc(n); if (p) xlive++; return p; }
static void *xreal(void *p, size_t n) { if (!p) return xmal(n); return realloc(p, n); }
static char *xdup(const char *s) { size_t n = strlen(s) + 1; char *p = (char *)xmal(n); if (p) memcpy(p, s, n); return p; }
void xml_heap_hook() { xmlMemSetup(xfree, xmal, xreal, xdup); }
int64_t xml_heap_live() { return xlive; }

bool put_file(const char *name, const std::string &data) { spew(name, data); return true; }

//---------------------------------------------------------------- values in text form
enum { K_TEXT, K_INT32, K_INT64, K_UINT32, K_UINT64, K_LONGINT, K_GUID, K_SHA1, K_TIME, K_DATE, K_IPV4, K_DEC1, K_DEC2, K_DEC3, K_DEC6, K_DEC9, K_TIME64, K_HEX, K_FLOAT, K_ODD, K_COUNT };
static std::string digits(Rng &r, int n) { std::string s; for (int i = 0; i < n; i++) s += (char)('0' + r.below(10)); return s; }
static std::string hexs(Rng &r, int n) { std::string s = "a"; while ((int)s.size() < n) s += "0123456789abcdef"[r.below(16)]; return s; }
static std::string date(Rng &r, int from = 1970, int to = 2105) {
    static const int D[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
    int y = r.chance(20) ? (r.chance(50) ? from : to) - (r.chance(50) ? 0 : 0) : from + (int)r.below(to - from + 1);
    if (r.chance(20)) { static const int Y[] = {2000, 2024, 2100, 1972, 1999, 2001, 2004}; y = Y[r.below(7)]; }
    bool leap = (y % 4 == 0 && y % 100 != 0) || y % 400 == 0;
    int m = r.chance(30) ? (r.chance(50) ? 2 : 12) : 1 + (int)r.below(12), last = D[m - 1] + (m == 2 && leap);
    int d = r.chance(25) ? last : r.chance(10) ? 1 : 1 + (int)r.below(last);
    return fmt("%04d-%02d-%02d", y, m, d);
}
static std::string clk(Rng &r) { return fmt("%02d:%02d:%02d", r.below(24), r.below(60), r.below(60)); }
// text that must come back as it is (type XT_TEXT) or in a recognisable way
static std::string text_value(Rng &r, int kind, int size, int &type) {
    type = XT_TEXT;
    switch (kind) {
        case K_TEXT: {
            static const char *W[] = {"quiz", "&", "<x>", "\"", "'", "z z", "]]>", "\xc5\xa1\xc4\x8d", "gnu;", "/", "=", "1", "-", ":", "ghi"};
            std::string s(1, (char)('g' + r.below(20)));
            while ((int)s.size() < size) { if (r.chance(30)) s += W[r.below(15)]; else for (int k = 0; k < 8; k++) s += (char)('g' + r.below(20)); }
            return s;
        }
        case K_INT32: { static const char *E[] = {"0", "-1", "2147483647", "-2147483648", "1"}; if (r.chance(15)) return E[r.below(5)]; int32_t v = (int32_t)r.next() >> r.below(31); return fmt("%d", v); }
        case K_INT64: { static const char *E[] = {"9223372036854775807", "-9223372036854775808", "-2147483649", "4294967296", "1000000000000000000", "-1000000000000000000"}; if (r.chance(15)) return E[r.below(6)]; int64_t v = (int64_t)r.next() >> r.below(30); if (v >= -2147483648ll && v <= 4294967295ll) v += 5000000000ll * (v < 0 ? -1 : 1); return fmt("%lld", (long long)v); }
        case K_UINT32: return fmt("%u", 2147483648u + (uint32_t)r.below(2147483647u));
        case K_UINT64: return fmt("9%s", digits(r, 18).c_str()) >= std::string("9223372036854775808") ? "93" + digits(r, 17) : "9223372036854775808";
        case K_LONGINT: return "1" + digits(r, 19 + r.below(10));
        case K_GUID: { std::string h = hexs(r, 32); return h.substr(0, 8) + "-" + h.substr(8, 4) + "-" + h.substr(12, 4) + "-" + h.substr(16, 4) + "-" + h.substr(20); }
        case K_SHA1: return hexs(r, 40);
        case K_TIME: return date(r) + " " + clk(r);
        case K_DATE: return r.chance(50) ? date(r) : date(r, 1, 9999);
        case K_IPV4: return fmt("%d.%d.%d.%d", r.below(256), r.below(256), r.below(256), 100 + r.below(156));
        case K_DEC1: case K_DEC2: case K_DEC3: case K_DEC6: case K_DEC9: {
            int d = kind == K_DEC1 ? 1 : kind == K_DEC2 ? 2 : kind == K_DEC3 ? 3 : kind == K_DEC6 ? 6 : 9;
            int64_t p = 1;
            for (int i = 0; i < d; i++) p *= 10;
            int64_t v = r.below(2147483647u) >> r.below(30);
            return fmt("%s%lld.%0*lld", v && r.chance(35) ? "-" : "", (long long)(v / p), d, (long long)(v % p));
        }
        case K_TIME64: return date(r) + " " + clk(r) + fmt(".%03d", r.below(1000));
        case K_HEX: { type = XT_HEXTEXT; int n = 2 * (1 + r.below((uint32_t)(size / 2 + 1))); if (n == 40) n = 42; std::string h = hexs(r, n); return h; }
        case K_FLOAT: type = XT_LOOSE; return r.chance(20) ? fmt("%s%s%dE%d", r.chance(30) ? "-" : "", r.chance(30) ? "0." : "", 1 + r.below(9999), 30 + r.below(15)) : fmt("%dE%d", 1 + r.below(9), r.below(20));
        default: {
            type = XT_LOOSE;
            static const char *E[] = {"9999-99-99", "2021-13-45 25:61:61", "1.5E40", "abc", "0x12", "12 34", "1.2.3.4444", "999.999.999.999", "abc def", "1-2", "- 1", "2021-06-15T22:41:40.123Z", "99999-9-99", "0.0000000001", "0x", "1E", "00", "-0", "0xa", "1.", ".5", "99999999999.5"};
            if (r.chance(25)) return E[r.below(sizeof(E) / sizeof(*E))];
            int t; // a good value of some type with something wrong in it
            std::string v = text_value(r, K_INT32 + (int)r.below(K_ODD - K_INT32), 16, t);
            for (int n = 1 + (int)r.below(2); n > 0; n--) {
                static const char C[] = "--..::  0019EefxTZ+";
                size_t at = r.below((uint32_t)v.size() + 1);
                char c = C[r.below(sizeof(C) - 1)];
                switch (r.below(4)) {
                    case 0: v.insert(at, 1, c); break;
                    case 1: if (at < v.size()) v.erase(at, 1); break;
                    case 2: if (at < v.size()) v[at] = c; break;
                    default: { size_t b = r.below((uint32_t)v.size() + 1); if (at < v.size() && b < v.size()) std::swap(v[at], v[b]); }
                }
                if (v.empty()) v = "0";
            }
            while (!v.empty() && v[0] == ' ') v.erase(0, 1);
            return v.empty() ? "-" : v;
        }
    }
}
static std::string xesc(const std::string &s, bool attr) {
    std::string o;
    for (char c : s) { if (c == '&') o += "&amp;"; else if (c == '<') o += "&lt;"; else if (c == '>') o += "&gt;"; else if (c == '"' && attr) o += "&quot;"; else o += c; }
    return o;
}

struct TextGen {
    const SrcCfg &c;
    Rng r;
    int left, size;
    std::vector<std::string> names, attrs;
    std::vector<int> ok = {K_TEXT, K_INT32, K_INT64, K_GUID, K_SHA1, K_TIME, K_DATE, K_IPV4, K_DEC1, K_DEC2, K_DEC3, K_DEC6, K_DEC9, K_TIME64};
    bool wide; // one parent of very many children
    bool fat = false; // very many attributes
    int deepest = 30, dive = 35;
    TextGen(const SrcCfg &c, uint64_t seed, int n, int size) : c(c), r(seed), left(n), size(size), wide(n >= 20000) {
        Rng d(c.dict_seed);
        if (!wide && r.chance(3)) { deepest = 30 + r.below(200); dive = 95; } // a long chain

        static const char *SPECIAL[] = {"transaction", "NULL", "payload", "reference", "id", "name", "meta_root", "count"};
        int nn = 2 + d.below(wide && d.chance(50) ? 6000 : d.chance(10) ? 400 : 20);
        if (!d.chance(30)) { ok.push_back(K_UINT32); ok.push_back(K_UINT64); ok.push_back(K_LONGINT); ok.push_back(K_HEX); ok.push_back(K_ODD); ok.push_back(K_FLOAT); }
        if (d.chance(12)) ok = {K_TEXT}; // nothing but texts
        for (int i = 0; i < nn; i++) { names.push_back(name(d, SPECIAL, i)); }
        int na = 1 + d.below(d.chance(10) ? 200 : 12);
        fat = na > 50 && left < 400 && r.chance(60);
        if (fat) { left += 30; dive = 70; }
        for (int i = 0; i < na; i++) { std::string s; do { s = name(d, SPECIAL, i); bool dup = false; for (auto &x : attrs) dup |= x == s; if (!dup && s != "xmlns") break; } while (1); attrs.push_back(s); }
    }
    std::string name(Rng &d, const char **SPECIAL, int) {
        if (d.chance(8)) return SPECIAL[d.below(8)];
        if (c.kind == SRC_JSON && d.chance(30)) { static const char *E[] = {"items", "rows", "PersonList", "List", "aList", "xs", "s", "class"}; return E[d.below(8)]; }
        std::string s;
        int n = d.chance(4) ? 100 + d.below(300) : 1 + d.below(7);
        for (int i = 0; i < n; i++) s += (char)('a' + d.below(26));
        return s;
    }
    int vsize() { return !wide && r.chance(4) ? r.edge(5000) : r.chance(80) ? r.below(20) : r.chance(50) ? r.below(200) : r.below((uint32_t)size + 1); }
    // every name has values of one kind (a name that mixes them is stored as the joined type)
    int kind_of(const std::string &name) { return c.mixed && r.chance(25) ? (int)r.below(K_COUNT) : ok[hash_str(name.c_str()) % ok.size()]; }
    std::string value(const std::string &name, int size, int &type) {
        std::string v = text_value(r, kind_of(name), size, type);
        if (c.mixed) type = XT_LOOSE;
        return v;
    }

    //------------------------------------------------ XML
    std::string last; XN last_x; // a subtree to repeat
    int extras = -1;       // comments, processing instructions, CDATA sections, references in texts
    bool entity = false;   // the document declares &ent;
    static constexpr const char *ENT = "entity text";
    void noise(std::string &o) {
        static const char *N[] = {"<!-- z -->", "<?pi q?>", "<!---->", "<?q?>", "<!-- <a>&b; -->", "<![CDATA[]]>"};
        o += N[r.below(6)];
    }
    void noise_out(std::string &o) { o += r.chance(50) ? "<!-- z -->\n" : "<?pi q?>"; }
    // v as the text of an element
    void xtext(std::string &o, const std::string &v) {
        if (!r.chance(extras)) { o += xesc(v, false); return; }
        if (r.chance(20)) noise(o);
        for (size_t i = 0; i < v.size();) {
            size_t k = i + 1 + r.below((uint32_t)(r.chance(30) ? 3 : v.size()));
            if (k > v.size()) k = v.size();
            while (k < v.size() && ((uint8_t)v[k] & 0xc0) == 0x80) k++;
            std::string s = v.substr(i, k - i);
            uint32_t how = r.below(5);
            if (how < 2 && s.find("]]>") == std::string::npos) o += "<![CDATA[" + s + "]]>";
            else if (how == 2 && (uint8_t)s[0] < 0x80) { o += fmt(r.chance(50) ? "&#%d;" : "&#x%x;", s[0]); k = i + 1; }
            else o += xesc(s, false);
            if (r.chance(40)) noise(o);
            i = k;
        }
    }
    void xattr(std::string &o, const std::string &v) {
        if (!r.chance(extras)) { o += xesc(v, true); return; }
        for (char ch : v) if ((uint8_t)ch < 0x80 && ch != ' ' && r.chance(20)) o += fmt(r.chance(50) ? "&#%d;" : "&#x%x;", ch); else o += xesc(std::string(1, ch), true);
    }
    // a plain text can end with the entity
    bool with_entity(const std::string &name) { return entity && !c.mixed && kind_of(name) == K_TEXT && r.chance(15); }
    void xml(std::string &out, XN &x, int deep, bool root) {
        left--;
        int ni = r.below((uint32_t)names.size());
        x.name = names[ni];
        if (extras < 0) extras = r.chance(40) ? 25 : 0;
        bool prefix = c.ns == 2 && (root || r.chance(50));
        std::string tag = (prefix ? "p:" : "") + x.name;
        out += "<" + tag;
        if (root && c.ns) out += c.ns == 2 ? " xmlns:p=\"urn:x-y\"" : " xmlns=\"urn:x-y\"";
        if (c.ns == 1 || prefix) { XA a; a.name = "xmlns"; a.v = "urn:x-y"; x.attrs.push_back(a); }
        std::vector<int> used;
        int na = fat ? r.below(2 * (uint32_t)attrs.size()) : r.chance(50) ? 0 : r.below(4) + (r.chance(3) ? 20 : 0);
        for (int i = 0; i < na; i++) {
            int ai = r.below((uint32_t)attrs.size());
            bool dup = false;
            for (int u : used) dup |= u == ai;
            if (dup) continue;
            used.push_back(ai);
            XA a; a.name = attrs[ai];
            if (r.chance(8)) a.v = "", a.type = XBT_NULL;
            else a.v = value("@" + a.name, vsize(), a.type);
            out += (c.ns == 2 && r.chance(20) ? " p:" : " ") + a.name + "=\"";
            xattr(out, a.v);
            if (!a.v.empty() && with_entity("@" + a.name)) { out += "&ent;"; a.v += ENT; if (r.chance(50)) { out += "g"; a.v += "g"; } }
            out += "\"";
            x.attrs.push_back(a);
        }
        bool valued = !r.chance(30), kids = deep < (wide ? 1 : deepest) && left > 0 && (root || r.chance(dive));
        if (r.chance(25) && !root) valued = kids = false;
        if (!valued && !kids) {
            x.type = XBT_NULL;
            if (r.chance(50)) { out += "/>"; return; }
            out += ">";
            if (r.chance(extras)) noise(out);
            out += "</" + tag + ">";
            return;
        }
        out += ">";
        x.type = XBT_NULL;
        if (valued) { x.v = value(x.name, vsize(), x.type); if (r.chance(15)) out += " \n\t"; xtext(out, x.v); if (with_entity(x.name)) { out += "&ent;"; x.v += ENT; if (r.chance(50)) { out += "g"; x.v += "g"; } } }
        else if (r.chance(extras)) noise(out);
        if (kids) {
            bool pretty = !valued && r.chance(50);
            int k = wide ? left : 1 + r.below(dive > 90 ? 2 : r.chance(20) ? 60 : 6);
            for (int i = 0; i < k && (left > 0 || i == 0); i++) {
                if (pretty) out += "\n  ";
                if (!valued && i && r.chance(extras)) noise(out);
                if (!last.empty() && r.chance(20) && left > last_x.total()) { out += last; x.ch.push_back(last_x); left -= last_x.total(); continue; }
                if (r.chance(15)) { int m = 1 + r.below(20); std::string e = names[r.below((uint32_t)names.size())]; for (int j = 0; j < m && left > 0; j++) { XN t; t.name = e; t.type = XBT_NULL; if (c.ns == 1) { XA a; a.name = "xmlns"; a.v = "urn:x-y"; t.attrs.push_back(a); } out += "<" + e + "/>"; x.ch.push_back(t); left--; } continue; }
                XN y; std::string s;
                xml(s, y, deep + 1, false);
                out += s;
                x.ch.push_back(y);
                if (r.chance(20)) { last = s; last_x = y; }
                if (valued && r.chance(10)) out += "<!-- z -->";
            }
            if (pretty) out += "\n";
        }
        out += "</" + tag + ">";
    }

    //------------------------------------------------ JSON
    static std::string item_name(const std::string &key) {
        if (!key.empty() && key.back() == 's') return key.substr(0, key.size() - 1);
        if (key.size() > 4 && key.substr(key.size() - 4) == "List") return key.substr(0, key.size() - 4);
        return key + "Item";
    }
    void ws(std::string &o) { if (r.chance(20)) o += r.chance(50) ? " " : "\n\t"; }
    // value of x; key = name used for the items of an array
    void json(std::string &out, XN &x, const std::string &key, int deep, bool root) {
        left--;
        int k = r.below(100);
        if (root) k = 60 + r.below(40);
        if (!wide && !root && deep < deepest && dive > 90 && left > 0 && k < 55) k = 60 + r.below(40);
        if (deep > (wide ? 0 : deepest > 30 ? deepest : 25) || left <= 0) k = r.below(55);
        if (k < 55) {
            std::string v = value(x.name, vsize(), x.type);
            std::string s;
            for (char ch : v) if (ch != '"' && ch != '\\') s += ch;
            if (r.chance(8)) { x.v = ""; x.type = XBT_NULL; out += "\"\""; return; }
            bool num = !s.empty(); for (char ch : s) num &= isdigit((unsigned char)ch) || ch == '-' || ch == '.';
            if (s.empty()) s = "q";
            x.v = s;
            if (num && s[0] != '.' && r.chance(60)) out += s;
            else if (r.chance(6)) { static const char *P[] = {"true", "null"}; x.v = P[r.below(2)]; x.type = XT_TEXT; out += x.v; }
            else out += "\"" + s + "\"";
        } else if (k < 80) {
            x.type = XBT_NULL;
            out += "{";
            int n = wide ? left : dive > 90 ? 1 + r.below(2) : r.chance(10) ? 0 : 1 + r.below(r.chance(15) ? 60 : 6);
            for (int i = 0; i < n && (left > 0 || i == 0); i++) {
                if (i) out += ",";
                ws(out);
                XN y;
                int ni = r.below((uint32_t)names.size());
                y.name = names[ni];
                if (r.chance(1)) y.name = "";
                out += "\"" + y.name + "\"";
                ws(out); out += ":"; ws(out);
                json(out, y, y.name, deep + 1, false);
                ws(out);
                x.ch.push_back(y);
            }
            out += "}";
        } else {
            x.type = XBT_NULL;
            out += "[";
            int n = wide ? left : dive > 90 ? 1 + r.below(2) : r.chance(10) ? 0 : 1 + r.below(r.chance(15) ? 200 : 8);
            bool tiny = r.chance(30);
            std::string tv; int tt = XT_TEXT;
            for (int i = 0; i < n && (left > 0 || i == 0); i++) {
                if (i) out += ",";
                XN y;
                y.name = key == "\x01root" ? "NULL" : key == "\x01nested" ? "__ARRAY_ITEM_NAME__" : item_name(key);
                if (tiny) {
                    if (tv.empty()) { for (char ch : value(y.name, 3, tt)) if (ch != '"' && ch != '\\') tv += ch; }
                    y.v = tv; y.type = tt; out += "\"" + tv + "\""; left--;
                }
                else json(out, y, "\x01nested", deep + 1, false);
                x.ch.push_back(y);
            }
            out += "]";
        }
    }
};

std::string make_text(const SrcCfg &c, uint64_t seed, int n, int size, XN &x) {
    TextGen g(c, seed, n, size);
    std::string out;
    x = XN();
    if (c.kind == SRC_XML) {
        if (g.r.chance(60)) out += "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n";
        if (g.r.chance(20)) g.noise_out(out);
        if (g.r.chance(25)) { g.entity = g.r.chance(70); out += "<!DOCTYPE a"; if (g.entity) out += std::string(" [<!ENTITY ent \"") + g.ENT + "\"><!ENTITY other \"<b/>\">]"; out += ">\n"; }
        g.xml(out, x, 0, true);
        if (g.r.chance(20)) g.noise_out(out);
        if (g.r.chance(50)) out += "\n";
    } else {
        x.name = "NULL";
        g.json(out, x, "\x01root", 0, true);
        if (g.r.chance(50)) out += "\n";
    }
    return out;
}

//---------------------------------------------------------------- live source documents
BW_element *build_record(BW_plugin &W, const Dict &d, Rng &r, int &n, int size, int deep, XN &x) {
    n--;
    int tag = r.chance(40) ? (int)T_ITEM : (int)(1 + r.below(T_COUNT - 1));
    bool reserved = r.chance(4);
    auto vs = [&]() { return (int)(r.chance(4) && size > 0 ? r.edge(size > 300 ? 5000 : 300) : r.chance(75) ? r.below(24) : r.chance(60) ? r.below(300) : r.below((uint32_t)size + 1)); };
    x = XN();
    x.name = TAGS[tag].name; x.type = TAGS[tag].type; x.v = value_bytes(TAGS[tag].type, r.next(), vs());
    BW_element *E;
    if (reserved) { x.name = "transaction"; x.type = XBT_NULL; x.v = ""; E = W.tag(XTNR_TRANSACTION); }
    else E = make_tag(W, d, tag, x.v);
    if (!E) return nullptr;
    if (reserved) { // built-in names: negative numbers, which are in no dictionary
        static const struct { int id, type; const char *name; } R[] = {{XPNR_AUTHOR, XBT_INT64, "author"}, {XPNR_TIME_MS, XBT_UNIX_TIME64_MSEC, "time_ms"}, {XPNR_NAME, XBT_STRING, "name"},
            {XPNR_HASH, XBT_SHA1, "hash"}, {XPNR_MODIFIED, XBT_UNIX_TIME, "modified"}, {XPNR_COUNT, XBT_INT32, "count"}, {XPNR_ID, XBT_INT32, "id"}};
        for (int k = 1 + r.below(3); k > 0; k--) {
            auto &b = R[r.below(sizeof R / sizeof *R)];
            XA a; a.name = b.name; a.type = (XML_Binary_Type)b.type; a.v = value_bytes((XML_Binary_Type)b.type, r.next(), vs());
            int64_t q = 0; memcpy(&q, a.v.data(), a.v.size() < 8 ? a.v.size() : 8);
            BW_element *e = b.type == XBT_INT64 ? E->attrInt64((int16_t)b.id, q) : b.type == XBT_UNIX_TIME64_MSEC ? E->attrTime64((int16_t)b.id, q) : b.type == XBT_STRING ? E->attrStr((int16_t)b.id, a.v.c_str()) :
                b.type == XBT_SHA1 ? E->attrSHA1((int16_t)b.id, a.v.data()) : b.type == XBT_UNIX_TIME ? E->attrTime((int16_t)b.id, (time_t)(uint32_t)q) : E->attrInt32((int16_t)b.id, (int32_t)q);
            if (e != E) return nullptr;
            x.attrs.push_back(a);
        }
    }
    int na = r.chance(50) ? 0 : r.below(4) + (r.chance(4) ? 14 : 0);
    for (int i = 0; i < na; i++) {
        int k = r.below(A_COUNT);
        XA a; a.name = ATTRS[k].name; a.type = ATTRS[k].type; a.v = value_bytes(ATTRS[k].type, r.next(), vs());
        if (r.chance(3)) { a.type = XBT_NULL; a.v.clear(); if (!make_null_attr(E, d, k)) return nullptr; }
        else if (!make_attr(E, d, k, a.v)) return nullptr;
        x.attrs.push_back(a);
    }
    if (deep < 12 && n > 0 && r.chance(deep == 0 ? 70 : 40)) {
        int k = 1 + r.below(r.chance(20) ? 30 : 5);
        uint64_t rep = r.next();
        for (int i = 0; i < k && n > 0; i++) {
            XN y;
            BW_element *C;
            if (r.chance(20)) { Rng rr(rep); int m = n < 6 ? n : 6, m0 = m; C = build_record(W, d, rr, m, size < 100 ? size : 100, deep + 9, y); n -= m0 - m; } // the same subtree again
            else C = build_record(W, d, r, n, size, deep + 1, y);
            if (!C) return nullptr;
            E->add(C);
            x.ch.push_back(y);
        }
    }
    return E;
}
XN build_live(BW_plugin &W, const Dict &d, uint64_t seed, int n, int size, bool tail) {
    Rng r(seed);
    XN x;
    x.name = TAGS[T_ROOT].name; x.type = XBT_NULL;
    BW_element *E = W.tag(d.tag_id[T_ROOT]);
    if (!E) setup_failed("source root");
    if (r.chance(50)) { uint32_t v = (uint32_t)r.next(); if (!E->attrUInt32(d.attr_id[A_U32], v)) setup_failed("source attr"); XA a; a.name = ATTRS[A_U32].name; a.type = ATTRS[A_U32].type; a.v = std::string((char *)&v, 4); x.attrs.push_back(a); }
    while (--n > 0) {
        XN y;
        BW_element *C = build_record(W, d, r, n, size, 1, y);
        if (!C) setup_failed("source record");
        E->add(C);
        x.ch.push_back(y);
        n++;
    }
    if (tail) E->add(W.tag(XTNR_ET_TECERA));
    W.setRoot(E);
    return x;
}

void put_xn(std::string &o, const XN &x) {
    auto s = [&](const std::string &v) { uint32_t n = (uint32_t)v.size(); o.append((char *)&n, 4); o += v; };
    auto i = [&](int v) { o.append((char *)&v, 4); };
    s(x.name); i(x.type); s(x.v); i((int)x.attrs.size());
    for (auto &a : x.attrs) { s(a.name); i(a.type); s(a.v); }
    i((int)x.ch.size());
    for (auto &c : x.ch) put_xn(o, c);
}
XN get_xn(const char *&p) {
    auto i = [&] { int v; memcpy(&v, p, 4); p += 4; return v; };
    auto s = [&] { int n = i(); std::string v(p, n); p += n; return v; };
    XN x; x.name = s(); x.type = i(); x.v = s();
    for (int n = i(); n > 0; n--) { XA a; a.name = s(); a.type = i(); a.v = s(); x.attrs.push_back(a); }
    for (int n = i(); n > 0; n--) x.ch.push_back(get_xn(p));
    return x;
}


//---------------------------------------------------------------- comparison
static std::string data_value(const XML_Binary_Data_Ref &D, const char *b, const char *e, std::string &out) {
    if (D.type == XBT_NULL || (!D.data && D.size <= 0)) { out.clear(); return ""; }
    if (!D.data || D.size < 0 || D.data < b || D.data + D.size > e) return fmt("value of type %d points outside the file", D.type);
    switch (D.type) {
        case XBT_STRING: out.assign(D.data, strnlen(D.data, D.size)); if ((int)out.size() != D.size - 1) return "text is not terminated"; return "";
        case XBT_BLOB: case XBT_HEX: { int32_t n; memcpy(&n, D.data, 4); if (n != D.size - 4) return "size of a binary value is wrong"; out.assign(D.data + 4, n); return ""; }
        case XBT_BLOB_STRING: { int32_t n; memcpy(&n, D.data, 4); if (n != D.size - 4) return "size of a reserved text is wrong"; out.assign(D.data + 4, strnlen(D.data + 4, n)); if ((int)out.size() >= n) return "reserved text is not terminated"; return ""; }
        default: out.assign(D.data, D.size); return "";
    }
}
static std::string shorts(const std::string &s) { return s.size() > 60 ? s.substr(0, 60) + fmt("..(%zu)", s.size()) : s; }
static std::string squeeze(const char *s) { std::string o; for (; *s; s++) if (!isspace((unsigned char)*s)) o += (char)tolower(*s); return o; }

static bool number(const std::string &s, long double &x) {
    size_t i = 0, n = 0;
    if (s[0] == '-' || s[0] == '+') i++;
    while (isdigit((unsigned char)s[i])) i++, n++;
    if (s[i] == '.') { i++; while (isdigit((unsigned char)s[i])) i++, n++; }
    if (!n) return false;
    if (s[i] == 'E' || s[i] == 'e') { i++; if (s[i] == '-' || s[i] == '+') i++; if (!isdigit((unsigned char)s[i])) return false; while (isdigit((unsigned char)s[i])) i++; }
    if (i != s.size()) return false;
    x = strtold(s.c_str(), nullptr);
    return true;
}
// the library may write a typed value in its own format, but it must be the same value
static bool same_meaning(const std::string &v, const std::string &g) {
    if (v == g) return true;
    std::string h = squeeze(v.c_str());
    if (!h.empty() && h.find_first_not_of("0123456789abcdef") == std::string::npos && squeeze(g.c_str()) == h) return true;
    long double a, b;
    if (number(v, a)) return number(g, b) && fabsl(a - b) <= 1e-6L + 1e-6L * fabsl(a);
    if (v.size() == 36 && v[8] == '-' && v[13] == '-' && v[18] == '-' && v[23] == '-') return h == g;
    if (v.find('.') != std::string::npos && v.find_first_not_of("0123456789.") == std::string::npos) {
        unsigned x[4], y[4]; char c;
        if (sscanf(v.c_str(), "%u.%u.%u.%u%c", x, x + 1, x + 2, x + 3, &c) == 4 && sscanf(g.c_str(), "%u.%u.%u.%u%c", y, y + 1, y + 2, y + 3, &c) == 4) return !memcmp(x, y, sizeof(x));
    }
    if (v.size() == 24 && v[10] == 'T' && v[23] == 'Z') { std::string t = v.substr(0, 23); t[10] = ' '; return t == g; }
    return false;
}

static std::string match_text(const char *got, int type, const std::string &v) {
    std::string g = got ? got : "";
    if (type == XT_LOOSE) return g.empty() ? "value \"" + shorts(v) + "\" is lost" : same_meaning(v, g) ? "" : "value \"" + shorts(v) + "\" became another one \"" + shorts(g) + "\"";
    if (type == XT_HEXTEXT) return squeeze(g.c_str()) == v ? "" : "value \"" + shorts(v) + "\" became \"" + shorts(g) + "\"";
    if (g != v) return "value \"" + shorts(v) + "\" became \"" + shorts(g) + "\"";
    return "";
}

// walks over all children visit the same elements as indexing
struct Walk {
    std::vector<std::pair<XML_Item *, int>> want, got;
    bool bad_root = false;
    std::vector<XML_Item *> path;
    void pre(XML_Item *X, int deep) { if (want.size() > 20000 || deep > 400) return; for (int i = 0; i < X->childcount; i++) { XML_Item *C = X->getChildByIndex(i); want.push_back({C, deep}); pre(C, deep + 1); } }
    void post(XML_Item *X, int deep) { if (want.size() > 20000 || deep > 400) return; for (int i = 0; i < X->childcount; i++) { XML_Item *C = X->getChildByIndex(i); post(C, deep + 1); want.push_back({C, deep}); } }
    static void on(XML_Item *X, void *u, int deep) { ((Walk *)u)->got.push_back({X, deep}); }
    static void on_a(XML_Item *X, void *u, int deep, XML_Item **root) {
        Walk *w = (Walk *)u;
        w->got.push_back({X, deep});
        bool ok = false; // root[deep] is the parent
        if (deep < XML_MAX_DEEP) { XML_Item *P = root[deep]; for (int i = 0; P && i < P->childcount && !ok; i++) ok = P->getChildByIndex(i) == X; if (!ok) w->bad_root = true; }
    }
    static std::string check(XML_Item *X) {
        for (int k = 0; k < 3; k++) {
            Walk w;
            if (k) w.post(X, 0); else w.pre(X, 0);
            if (w.want.size() > 20000) return "";
            std::vector<XML_Item *> root(XML_MAX_DEEP + 4);
            if (k == 0) X->ForAllChildrenRecursively(on, &w, 0); else if (k == 1) X->ForAllChildrenRecursively_PostOrder(on, &w, 0); else X->ForAllChildrenRecursively_PostOrderA(on_a, &w, 0, root.data());
            if (w.got != w.want) return fmt("walk %d over the tree visits other elements (%zu instead of %zu)", k, w.got.size(), w.want.size());
            if (w.bad_root) return "the walk gives wrong parents";
            for (int i = 0; i < 4; i++) if (root[XML_MAX_DEEP + i]) return "the walk writes behind the array of parents";
        }
        return "";
    }
};
static bool plain_int(const std::string &s) { size_t i = !s.empty() && s[0] == '-'; if (s.size() - i < 1 || s.size() - i > 9) return false; for (; i < s.size(); i++) if (!isdigit((unsigned char)s[i])) return false; return true; }

struct Matcher {
    XB_reader &R;
    const char *b, *e;
    int budget = 400000;
    const std::vector<XN> *tail;

    std::string node(XML_Item *X, const XN &x, const std::string &path, int deep) {
        if ((char *)X < b || (char *)(X + 1) > e || X->length < (int)sizeof(XML_Item) || (char *)X + X->length > e) return path + ": outside the file";
        if (--budget < 0 || deep > 300) return path + ": endless";
        const char *nm = R.getNodeName(X->name);
        if (!nm || x.name != nm) return path + ": name <" + shorts(nm ? nm : "(null)") + "> instead of <" + shorts(x.name) + ">";
        std::string p = path + "/" + shorts(x.name);
        if (X->name >= 0 && R.getNodeID(nm) != X->name) return p + ": looking the name up gives another id";
        if (X->paramcount != (int)x.attrs.size()) return p + fmt(": %d attributes instead of %zu", X->paramcount, x.attrs.size());
        for (int i = 0; i < X->paramcount; i++) {
            XML_Param_Description *P = X->getParamByIndex(i);
            const XA &a = x.attrs[i];
            std::string q = p + "@" + shorts(a.name);
            const char *pn = R.getParamName(P->name);
            if (!pn || a.name != pn) return q + ": attribute name is " + shorts(pn ? pn : "(null)");
            if (P->name >= 0 && R.getParamID(pn) != P->name) return q + ": looking the name up gives another id";
            { int k = 0; while (X->getParamByIndex(k)->name != P->name) k++; if (X->getParamByName((XML_Param_Names)P->name) != X->getParamByIndex(k)) return q + ": not found by its name"; }
            XML_Binary_Data_Ref D = P->getData(X);
            std::string got, bad = data_value(D, b, e, got);
            if (!bad.empty()) return q + ": " + bad;
            if (a.type < 0 || a.type == XBT_NULL) { std::string m = match_text(P->getString(X), a.type == XBT_NULL ? XT_TEXT : a.type, a.v); if (!m.empty()) return q + ": " + m; }
            if (D.type == XBT_STRING && plain_int(a.v) && D.content) { // numbers may be stored as texts
                int32_t n = atoi(a.v.c_str());
                const int32_t *v = P->getIntPtr(X);
                if (P->getInt(X) != n || !v || *v != n) return q + ": getInt of text gives another number";
                const int64_t *w = P->getInt64Ptr(X);
                if (!w || *w != n) return q + ": getInt64Ptr of text gives another number";
            }
            if (a.type >= 0) {
                if (D.type != a.type) return q + fmt(": type %d instead of %d", D.type, a.type);
                if (got != a.v) return q + fmt(": value of type %d is %s instead of %s", a.type, shorts(hex(got)).c_str(), shorts(hex(a.v)).c_str());
                if (a.type == XBT_INT32) { const int32_t *v = P->getIntPtr(X); if (!v || memcmp(v, a.v.data(), 4) || P->getInt(X) != *v) return q + ": getInt gives another number"; }
                if (a.type == XBT_INT64) { const int64_t *v = P->getInt64Ptr(X); if (!v || memcmp(v, a.v.data(), 8)) return q + ": getInt64Ptr gives another number"; }
            }
        }
        if (X->getParamByIndex(-1) || X->getParamByIndex(X->paramcount)) return p + ": an attribute outside the list is returned";
        if (X->getChildByIndex(-1) || X->getChildByIndex(X->childcount)) return p + ": a child outside the list is returned";
        {
            XML_Binary_Data_Ref D = X->getData();
            std::string got, bad = data_value(D, b, e, got);
            if (!bad.empty()) return p + ": " + bad;
            if (D.type == XBT_STRING && D.content > (const char *)R.doc && D.content < b + R.size && R.getString(R.getRelPtr(D.content)) != D.content) return p + ": a relative pointer leads elsewhere";
            if (x.type < 0 || x.type == XBT_NULL) { std::string m = match_text(X->getString(), x.type == XBT_NULL ? XT_TEXT : x.type, x.v); if (!m.empty()) return p + ": " + m; }
            if (D.type == XBT_STRING && plain_int(x.v) && D.content) {
                int32_t n = atoi(x.v.c_str());
                const int32_t *v = X->getIntPtr();
                if (X->getInt() != n || !v || *v != n) return p + ": getInt of text gives another number";
                const int64_t *w = X->getInt64Ptr();
                if (!w || *w != n) return p + ": getInt64Ptr of text gives another number";
            }
            if (x.type >= 0) {
                if (D.type != x.type) return p + fmt(": type %d instead of %d", D.type, x.type);
                if (got != x.v) return p + fmt(": value of type %d is %s (%zu bytes) instead of %s (%zu bytes)", x.type, shorts(hex(got)).c_str(), got.size(), shorts(hex(x.v)).c_str(), x.v.size());
                if (x.type == XBT_INT32) { const int32_t *v = X->getIntPtr(); if (!v || memcmp(v, x.v.data(), 4) || X->getInt() != *v) return p + ": getInt gives another number"; }
                if (x.type == XBT_INT64) { const int64_t *v = X->getInt64Ptr(); if (!v || memcmp(v, x.v.data(), 8)) return p + ": getInt64Ptr gives another number"; }
                if (x.type == XBT_BLOB || x.type == XBT_STRING) { int32_t n = -1; const void *q = X->getBinary(&n); if (!q || n != (int)x.v.size() || memcmp(q, x.v.data(), n)) return p + ": getBinary gives other bytes"; }
            }
        }
        bool tailed = tail && deep == 0;
        if (!tailed && X->childcount != (int)x.ch.size()) return p + fmt(": %d children instead of %zu", X->childcount, x.ch.size());
        if (tailed && X->childcount != (int)x.ch.size() + 1) return p + fmt(": %d children instead of %zu and the tail", X->childcount, x.ch.size());
        int idx = 0;
        for (size_t i = 0; i < x.ch.size(); i++) {
            XML_Item *C = X->getChildByIndex((int)i), *N = X->getNextChild(R, idx);
            if (!C || C != N) return p + fmt(": child %zu is another one by index than by iteration", i);
            if (i < 8) { XML_Item *F = X->getChildByIndex(0); for (int k = 1; F && F->name != C->name; k++) F = X->getChildByIndex(k); if (X->getChildByName((XML_Tag_Names)C->name) != F) return p + fmt(": child %zu is not found by its name", i); }
            std::string m = node(C, x.ch[i], p, deep + 1);
            if (!m.empty()) return m;
        }
        if (tailed) {
            size_t k = 0;
            XML_Item *N;
            while ((N = X->getNextChild(R, idx)) != nullptr) {
                if (k >= tail->size()) return p + fmt(": more appended records than the %zu expected", tail->size());
                std::string m = node(N, (*tail)[k], p + fmt("+%zu", k), deep + 1);
                if (!m.empty()) return m;
                k++;
            }
            if (k != tail->size()) return p + fmt(": %zu appended records instead of %zu", k, tail->size());
        } else if (X->getNextChild(R, idx)) return p + ": more children than counted";
        return "";
    }
};
// every name of a dictionary is found under its id, any other name is not found
static std::string lookups(XB_reader &R, bool params) {
    std::map<std::string, int> ids;
    auto name = [&](int i) { return params ? R.getParamName((tag_name_id_t)i) : R.getNodeName((tag_name_id_t)i); };
    auto id = [&](const std::string &n) { return (int)(params ? R.getParamID(n.c_str()) : R.getNodeID(n.c_str())); };
    for (int i = 0; i < 400; i++) {
        const char *n = name(i);
        if (!n) return fmt("the name %d is missing", i);
        if (!strcmp(n, "__out_of_range__")) break;
        ids[n] = i;
    }
    if (ids.size() >= 400) return "";
    std::vector<std::string> probes = {"", "~~~", "!"};
    for (auto &x : ids) { probes.push_back(x.first); probes.push_back(x.first + "0"); if (!x.first.empty()) probes.push_back(x.first.substr(0, x.first.size() - 1)); }
    for (auto &q : probes) {
        auto it = ids.find(q);
        int w = it == ids.end() ? -1 : it->second;
        if (id(q) != w) return fmt("%s \"%s\" has id %d, when looked up %d", params ? "attribute" : "name", shorts(q).c_str(), w, id(q));
    }
    return "";
}
std::string match_xb(XB_reader &R, const XN &x, const std::vector<XN> *tail) {
    XML_Item *X = R.getRoot();
    if (!X) return "no root element";
    for (int i = 0; i < 2; i++) { std::string m = lookups(R, i); if (!m.empty()) return m; }
    Matcher m{R, (const char *)R.doc, (const char *)R.doc + R.size, 400000, tail};
    std::string e = m.node(X, x, "", 0);
    if (!e.empty() || m.budget < 380000) return e;
    return Walk::check(X);
}

static std::string walk_node(XB_reader &R, XML_Item *X, const char *b, const char *e, int deep, int &budget, int max_deep) {
    if ((char *)X < b || (char *)(X + 1) > e || X->length < (int)sizeof(XML_Item) || (char *)X + X->length > e) return "an element outside the file";
    if (--budget < 0 || deep > max_deep) return "an endless tree";
    if (!R.getNodeName(X->name)) return "an element without name";
    std::string v;
    for (int i = 0; i < X->paramcount; i++) {
        XML_Param_Description *P = X->getParamByIndex(i);
        if (P->name >= 0 && !R.getParamName(P->name)) return "an attribute without name";
        std::string m = data_value(P->getData(X), b, e, v);
        if (!m.empty()) return m;
        P->getString(X); P->getInt(X); P->getIntPtr(X); P->getInt64Ptr(X);
        char buf[300]; for (int at = 0, g = 0; g < 100 && P->getStringChunk(X, at, buf, sizeof(buf)) > 0; g++);
    }
    std::string m = data_value(X->getData(), b, e, v);
    if (!m.empty()) return m;
    X->getString(); X->getInt(); X->getIntPtr(); X->getInt64Ptr();
    { int32_t size = 0; const char *d = (const char *)X->getBinary(&size); if (d && (size < 0 || d < b || d + size > e)) return "a binary value outside the file"; }
    { char buf[300]; for (int at = 0, g = 0; g < 100 && X->getStringChunk(at, buf, sizeof(buf)) > 0; g++); }
    int idx = 0;
    while (XML_Item *C = X->getNextChild(R, idx)) { m = walk_node(R, C, b, e, deep + 1, budget, max_deep); if (!m.empty()) return m; }
    return "";
}
std::string walk_xb(XB_reader &R, int max_deep) {
    XML_Item *X = R.getRoot();
    if (!X) return "no root element";
    int budget = 400000;
    return walk_node(R, X, (const char *)R.doc, (const char *)R.doc + R.size, 0, budget, max_deep);
}

//---------------------------------------------------------------- live documents made by conversion
struct PA { std::string name; int type; std::string text; };
static void par(const char *n, int, XML_Binary_Type t, const char *v, void *, void *u) {
    PA a; a.name = n ? n : "(null)"; a.type = t;
    const char *s = v && t != XBT_NULL ? XBT_ToString(t, v) : nullptr;
    a.text = s ? s : "";
    ((std::vector<PA> *)u)->push_back(a);
}
static void kid(void *e, void *u) { ((std::vector<void *> *)u)->push_back(e); }
// text of a value given by its bytes
static std::string typed_text(int type, const std::string &v) {
    if (type == XBT_NULL) return "";
    if (type == XBT_STRING || type == XBT_BLOB_STRING) return v.c_str();
    std::string b = v;
    if (type == XBT_BLOB || type == XBT_HEX) { int32_t n = (int32_t)v.size(); b.insert(0, (const char *)&n, 4); }
    b.append(16, '\0');
    std::vector<int64_t> al((b.size() + 7) / 8);
    memcpy(al.data(), b.data(), b.size());
    const char *s = XBT_ToString((XML_Binary_Type)type, (const char *)al.data());
    return s ? s : "";
}
static std::string bw_node(BW_plugin &W, BW_element *E, const XN &x, const std::string &path, int deep, int &budget) {
    if (--budget < 0 || deep > 300) return path + ": endless";
    const char *nm = W.getNodeName(E);
    if (!nm || x.name != nm) return path + ": name <" + shorts(nm ? nm : "(null)") + "> instead of <" + shorts(x.name) + ">";
    std::string p = path + "/" + shorts(x.name);
    std::vector<PA> pa;
    W.ForAllBinParams(par, E, &pa);
    if (pa.size() != x.attrs.size()) return p + fmt(": %zu attributes instead of %zu", pa.size(), x.attrs.size());
    for (size_t i = 0; i < pa.size(); i++) {
        if (pa[i].name != x.attrs[i].name) return p + "@" + shorts(x.attrs[i].name) + ": attribute name is " + shorts(pa[i].name);
        bool typed = x.attrs[i].type > XBT_NULL; // a live document made from another one
        std::string want = typed ? typed_text(x.attrs[i].type, x.attrs[i].v) : x.attrs[i].v;
        std::string m = match_text(pa[i].text.c_str(), x.attrs[i].type == XBT_NULL || (typed && want.empty()) ? XT_TEXT : typed ? XT_LOOSE : x.attrs[i].type, want);
        if (!m.empty()) return p + "@" + shorts(x.attrs[i].name) + ": " + m;
    }
    XML_Binary_Type t = XBT_UNKNOWN; int size = 0;
    const char *v = W.getNodeBinValue(E, t, size);
    const char *s = v && t != XBT_NULL ? XBT_ToString(t, v) : nullptr;
    if (x.type > XBT_NULL && (t != x.type || typed_text(x.type, x.v) != (s ? s : ""))) return p + fmt(": value of type %d is %s instead of %s (type %d)", t, s ? shorts(s).c_str() : "(null)", shorts(typed_text(x.type, x.v)).c_str(), x.type);
    std::string m = x.type > XBT_NULL ? "" : match_text(s, x.type == XBT_NULL ? XT_TEXT : x.type, x.v);
    if (!m.empty()) return p + ": " + m;
    std::vector<void *> ks;
    W.ForAllChildren(kid, E, &ks);
    if (ks.size() != x.ch.size()) return p + fmt(": %zu children instead of %zu", ks.size(), x.ch.size());
    for (size_t i = 0; i < ks.size(); i++) { m = bw_node(W, (BW_element *)ks[i], x.ch[i], p, deep + 1, budget); if (!m.empty()) return m; }
    return "";
}
std::string match_xbw(BW_plugin &W, const XN &x) {
    BW_element *E = (BW_element *)W.getRoot();
    if (!E) return "no root element";
    int budget = 400000;
    return bw_node(W, E, x, "", 0, budget);
}

} // namespace sim

#include "bw.hpp"
#include <sys/mman.h>

namespace sim {

const SymDef TAGS[] = {
    {"root", XBT_NULL}, {"item", XBT_NULL}, {"text", XBT_STRING}, {"bigtext", XBT_BLOB_STRING}, {"count", XBT_INT32}, {"total", XBT_INT64}, {"ratio", XBT_FLOAT},
    {"data", XBT_BLOB}, {"hex", XBT_HEX}, {"guid", XBT_GUID}, {"hash", XBT_SHA1}, {"time", XBT_UNIX_TIME}, {"stamp", XBT_UNIX_TIME64_MSEC}, {"price", XBT_INT32_DECI},
    {"address", XBT_IPv4}, {"node", XBT_NULL}};
const SymDef ATTRS[] = {
    {"id", XBT_INT32}, {"name", XBT_STRING}, {"adata", XBT_BLOB}, {"ahex", XBT_HEX}, {"mask", XBT_UINT32}, {"big", XBT_INT64}, {"ubig", XBT_UINT64}, {"afloat", XBT_FLOAT},
    {"adouble", XBT_DOUBLE}, {"aguid", XBT_GUID}, {"ahash", XBT_SHA1}, {"atime", XBT_UNIX_TIME}, {"astamp", XBT_UNIX_TIME64_MSEC}, {"flag", XBT_NULL}};
const int NTAGS = T_COUNT, NATTRS = A_COUNT;

Node *at(Tree &t, const Path &p) {
    if (!t.has) return nullptr;
    Node *n = &t.root;
    for (int i : p) { if (i < 0 || i >= (int)n->ch.size()) return nullptr; n = &n->ch[i]; }
    return n;
}
static bool nth(const Node &n, int &k, Path &p) {
    if (k-- == 0) return true;
    for (size_t i = 0; i < n.ch.size(); i++) {
        p.push_back((int)i);
        if (nth(n.ch[i], k, p)) return true;
        p.pop_back();
    }
    return false;
}
bool nth_node(const Tree &t, int k, Path &p) { p.clear(); return t.has && nth(t.root, k, p); }
int count_nodes(const Tree &t) { return t.has ? t.root.total() : 0; }

static void put_int(std::string &s, int32_t v) { s.append((const char *)&v, 4); }
static void put_str(std::string &s, const std::string &v) { put_int(s, (int)v.size()); s += v; }
void put(std::string &s, const Node &n) {
    put_int(s, n.tag); put_int(s, n.type); put_str(s, n.v);
    put_int(s, (int)n.attrs.size());
    for (auto &a : n.attrs) { put_int(s, a.id); put_int(s, a.type); put_str(s, a.v); }
    put_int(s, (int)n.ch.size());
    for (auto &c : n.ch) put(s, c);
}
std::string ser(const Tree &t) { std::string s; put_int(s, t.has); if (t.has) put(s, t.root); return s; }
static int32_t get_int(const char *&p) { int32_t v; memcpy(&v, p, 4); p += 4; return v; }
static std::string get_str(const char *&p) { int n = get_int(p); std::string s(p, n); p += n; return s; }
static Node get_node(const char *&p) {
    Node n;
    n.tag = get_int(p); n.type = get_int(p); n.v = get_str(p);
    int na = get_int(p);
    for (int i = 0; i < na; i++) { Attr a; a.id = get_int(p); a.type = get_int(p); a.v = get_str(p); n.attrs.push_back(a); }
    int nc = get_int(p);
    for (int i = 0; i < nc; i++) n.ch.push_back(get_node(p));
    return n;
}
Tree deser(const char *p, size_t) { Tree t; t.has = get_int(p); if (t.has) t.root = get_node(p); return t; }
uint64_t tree_hash(const Tree &t) { return hash_str(ser(t)); }

static std::string show_v(int type, const std::string &v) {
    std::string r = v.size() > 24 ? v.substr(0, 24) : v;
    if (type == XBT_STRING || type == XBT_BLOB_STRING) return "'" + r + (v.size() > 24 ? fmt("..%zu", v.size()) : "") + "'";
    return hex(r) + (v.size() > 24 ? fmt("..%zu", v.size()) : "");
}
std::string show(const Node &n, int deep) {
    std::string s(deep, ' ');
    s += fmt("<%d:%d %s", n.tag, n.type, show_v(n.type, n.v).c_str());
    for (auto &a : n.attrs) s += fmt(" @%d:%d=%s", a.id, a.type, show_v(a.type, a.v).c_str());
    s += ">\n";
    for (auto &c : n.ch) s += show(c, deep + 1);
    return s;
}
std::string show(const Tree &t) { return t.has ? show(t.root) : "(no root)\n"; }

static bool diff(const Node &a, const Node &b, std::string path, std::string &out) {
    if (a == b) return false;
    if (a.tag != b.tag || a.type != b.type || a.v != b.v) {
        out = fmt("at %s: <%d:%d %s> instead of <%d:%d %s>", path.c_str(), a.tag, a.type, show_v(a.type, a.v).c_str(), b.tag, b.type, show_v(b.type, b.v).c_str());
        return true;
    }
    if (!(a.attrs == b.attrs)) {
        out = fmt("at %s <%d>: %zu attributes instead of %zu or a different one", path.c_str(), a.tag, a.attrs.size(), b.attrs.size());
        for (size_t i = 0; i < a.attrs.size() && i < b.attrs.size(); i++)
            if (!(a.attrs[i] == b.attrs[i])) {
                out += fmt(": #%zu @%d:%d=%s instead of @%d:%d=%s", i, a.attrs[i].id, a.attrs[i].type, show_v(a.attrs[i].type, a.attrs[i].v).c_str(), b.attrs[i].id, b.attrs[i].type, show_v(b.attrs[i].type, b.attrs[i].v).c_str());
                break;
            }
        return true;
    }
    for (size_t i = 0; i < a.ch.size() && i < b.ch.size(); i++)
        if (diff(a.ch[i], b.ch[i], path + "/" + std::to_string(i), out)) return true;
    out = fmt("at %s <%d>: %zu children instead of %zu", path.c_str(), a.tag, a.ch.size(), b.ch.size());
    return true;
}
std::string first_diff(const Tree &a, const Tree &b) {
    if (a.has != b.has) return a.has ? "has a root, none expected" : "has no root, one expected";
    std::string s = "equal";
    if (a.has) diff(a.root, b.root, "", s);
    return s;
}

std::string rnd_bytes(uint64_t seed, int n) { Rng r(seed); std::string s; while ((int)s.size() < n) { uint64_t v = r.next(); s.append((const char *)&v, 8); } s.resize(n); return s; }
std::string rnd_text(uint64_t seed, int n) {
    Rng r(seed);
    std::string s = fmt("%llx", (unsigned long long)(seed & 0xffffff));
    if ((int)s.size() > n) s.resize(n);
    while ((int)s.size() < n) s += (char)('a' + r.below(26));
    return s;
}
std::string value_bytes(XML_Binary_Type t, uint64_t seed, int size) {
    switch (t) {
        case XBT_NULL: return "";
        case XBT_STRING: case XBT_BLOB_STRING: return rnd_text(seed, size);
        case XBT_BLOB: case XBT_HEX: return seed % 11 == 0 ? std::string((size_t)size, 0) : rnd_bytes(seed, size);
        case XBT_FLOAT: { float f = (float)(int)(seed & 0xfffff) / 16; return std::string((const char *)&f, 4); }
        case XBT_DOUBLE: { double f = (double)(int)(seed & 0xfffffff) / 16; return std::string((const char *)&f, 8); }
        case XBT_GUID: return rnd_bytes(seed, 16);
        case XBT_SHA1: return rnd_bytes(seed, 20);
        case XBT_UNIX_TIME64_MSEC: { int64_t v = 1500000000000ll + (int64_t)(seed & 0xfffffffff); return std::string((const char *)&v, 8); }
        case XBT_UNIX_TIME: if (seed % 5 == 0) { // first and last days of months and years
            static const uint32_t E[] = {0, 951782400 /* 2000-02-29 */, 951868800, 68169600, 68256000, 4107542400u /* 2100-03-01 */, 4107456000u, 1709164800, 946684800, 978220800, 4102444800u, 1735603200, 31449600};
            uint32_t v = E[seed / 5 % 13] + (seed / 65 % 3 ? (seed / 65 % 3 == 1 ? 86399u : (uint32_t)(seed >> 20) % 86400u) : 0);
            return std::string((const char *)&v, 4);
        }
        return rnd_bytes(seed, 4);
        case XBT_INT64: case XBT_UINT64: if (seed % 7 == 0) { static const int64_t E[] = {0, -1, INT64_MIN, INT64_MAX, 1, INT32_MIN, 4294967295ll}; return std::string((const char *)&E[seed / 7 % 7], 8); }
        return rnd_bytes(seed, 8);
        case XBT_INT32: case XBT_UINT32: if (seed % 7 == 0) { static const int32_t E[] = {0, -1, INT32_MIN, INT32_MAX, 1, 255, 65536}; return std::string((const char *)&E[seed / 7 % 7], 4); }
        return rnd_bytes(seed, 4);
        default: return rnd_bytes(seed, 4);
    }
}

//---------------------------------------------------------------- observation
static std::string read_value(BW_element *E, const char *where) {
    XML_Binary_Data_Ref r = E->getData();
    if (r.content_size < 0 || r.content_size > (1 << 26)) fail(fmt("%s:bad-value-size", where).c_str(), "value of element +%d has size %d", E->offset, r.content_size);
    if (E->value_type == XBT_STRING || E->value_type == XBT_BLOB_STRING) {
        const char *s = E->getStr();
        if (!s) fail(fmt("%s:no-text", where).c_str(), "text of element +%d is not available", E->offset);
        return s;
    }
    return std::string(r.content ? r.content : "", r.content_size);
}
// typed pointers to the value: given for the right type only, and to the value
static void check_accessors(BW_element *E, int decl, const std::string &v, bool wrong, const char *where) {
    auto chk = [&](const char *what, bool fits, void *p, size_t size) {
        if (!fits && p) fail(fmt("%s:accessor", where).c_str(), "%s gives a value of +%d, which has type %d (registered %d)", what, E->offset, E->value_type, decl);
        if (fits && (!p || v.size() != size || memcmp(p, v.data(), size))) fail(fmt("%s:accessor", where).c_str(), "%s does not give the value of +%d of type %d (registered %d)", what, E->offset, E->value_type, decl);
    };
    int vt = E->value_type;
    wrong |= vt == XBT_NULL;
    bool f;
    // an element may have no value (path of a merge), or a value stored before its name was registered with a larger type
    const bool v4 = XBT_IS_4(vt), v8 = vt == XBT_INT64 || vt == XBT_UINT64 || vt == XBT_UNIX_TIME64_MSEC || vt == XBT_DOUBLE;
    if (v4 != (v.size() == 4 && v4) || v8 != (v.size() == 8 && v8)) fail(fmt("%s:accessor", where).c_str(), "the value of +%d of type %d has %zu bytes", E->offset, vt, v.size());
    if ((f = XBT_IS_4(decl) && v4) || wrong) chk("getInt32", f, E->getInt32(), sizeof(*E->getInt32()));
    if ((f = (decl == XBT_INT64 && v8) || vt == XBT_INT64 || vt == XBT_UNIX_TIME64_MSEC) || wrong) chk("getInt64", f, E->getInt64(), sizeof(*E->getInt64()));
    if ((f = decl == XBT_UINT64 && v8) || wrong) chk("getUInt64", f, E->getUInt64(), sizeof(*E->getUInt64()));
    if ((f = decl == XBT_FLOAT && v4) || wrong) chk("getFloat", f, E->getFloat(), sizeof(*E->getFloat()));
    if ((f = decl == XBT_GUID && vt == XBT_GUID) || wrong) chk("getGUID", f, E->getGUID(), sizeof(*E->getGUID()));
    if ((f = decl == XBT_UNIX_TIME && v4) || wrong) chk("getTime", f, E->getTime(), sizeof(*E->getTime()));
    if ((f = vt == XBT_STRING || vt == XBT_BLOB_STRING) || wrong) { const char *p = E->getStr(); if (f ? !p || v != p : p != nullptr) fail(fmt("%s:accessor", where).c_str(), "getStr of +%d of type %d", E->offset, vt); }
}
static void cb_rec(void *e, void *u, int deep);
struct CbCount { int n; std::vector<int> ids; };
static void cb_child(void *e, void *u) { CbCount *c = (CbCount *)u; if (++c->n > 100000) fail("observe:endless-children", "ForAllChildren does not end"); c->ids.push_back(((BW_element *)e)->offset); }
static void cb_param(const char *, int id, XML_Binary_Type, const char *v, void *, void *u) { CbCount *c = (CbCount *)u; if (++c->n > 100000) fail("observe:endless-attributes", "ForAllBinParams does not end"); c->ids.push_back(id); (void)v; }

struct RecWalk { std::vector<std::pair<int, int>> seen; };
static void cb_rec(void *e, void *u, int deep) { RecWalk *w = (RecWalk *)u; if (w->seen.size() > 100000) fail("observe:endless-children", "ForAllChildrenRecursively does not end"); w->seen.push_back({((BW_element *)e)->identification, deep}); }
static void pre_order(const Node &n, const Dict &d, int deep, RecWalk &w) { for (auto &c : n.ch) { w.seen.push_back({c.tag >= 0 && c.tag < 64 ? d.tag_id[c.tag] : c.tag, deep}); pre_order(c, d, deep + 1, w); } }

Node observe_node(BW_plugin &W, const Dict &d, BW_element *E, const char *where, int deep, int &budget, const ObserveOpts &o) {
    if (deep > 200 || --budget < 0) fail(fmt("%s:endless-tree", where).c_str(), "the tree is endless (depth %d)", deep);
    Node n;
    n.tag = d.tag_of(E->identification);
    n.type = E->value_type;
    if (!(E->flags & BIN_WRITE_ELEMENT_FLAG)) fail(fmt("%s:not-a-tag", where).c_str(), "child +%d is not an element", E->offset);
    n.v = read_value(E, where);
    const bool known = o.callbacks && n.tag >= 0 && n.tag < NTAGS;
    if (known) {
        check_accessors(E, TAGS[n.tag].type, n.v, E->offset % 7 == 0, where);
        const char *name = E->getName();
        if (!name || strcmp(name, TAGS[n.tag].name)) fail(fmt("%s:name", where).c_str(), "element <%s> has name %s", TAGS[n.tag].name, name ? name : "(null)");
    }
    std::vector<int> ids;
    if (E->first_attribute) {
        BW_element *A = E->BWE(E->first_attribute);
        for (;;) {
            if (--budget < 0) fail(fmt("%s:endless-attributes", where).c_str(), "the attribute list of +%d is endless", E->offset);
            Attr a;
            a.id = d.attr_of(A->identification);
            a.type = A->value_type;
            a.v = read_value(A, where);
            n.attrs.push_back(a);
            if (known && a.id >= 0 && a.id < NATTRS) {
                check_accessors(A, ATTRS[a.id].type, a.v, E->offset % 7 == 0, where);
                const char *name = A->getName();
                if (!name || strcmp(name, ATTRS[a.id].name)) fail(fmt("%s:name", where).c_str(), "attribute %s has name %s", ATTRS[a.id].name, name ? name : "(null)");
            }
            ids.push_back(A->identification);
            if (A->next == E->first_attribute) break;
            A = A->BWE(A->next);
        }
    }
    if (o.callbacks) {
        CbCount c = {0, {}};
        W.ForAllBinParams(cb_param, E, &c);
        if (c.ids != ids) fail(fmt("%s:attribute-iteration", where).c_str(), "attribute callbacks of +%d show %zu attributes, the list has %zu", E->offset, c.ids.size(), ids.size());
        for (size_t i = 0; i < ids.size(); i++) {
            BW_element *f = E->findAttr(ids[i]), *g = E->attrGet(ids[i]);
            if (!f || f != g) fail(fmt("%s:attribute-lookup", where).c_str(), "attribute %d of +%d is not found", ids[i], E->offset);
            size_t first = 0;
            while (ids[first] != ids[i]) first++;
            if (first == i && known && n.attrs[i].id >= 0 && n.attrs[i].id < NATTRS && XBT_IS_4(ATTRS[n.attrs[i].id].type) && n.attrs[i].type != XBT_NULL) {
                int32_t *p = E->findAttrInt32(ids[i]);
                if (!p || memcmp(p, n.attrs[i].v.data(), 4)) fail(fmt("%s:attribute-lookup", where).c_str(), "findAttrInt32 %d of +%d", ids[i], E->offset);
            }
            if (read_value(f, where) != n.attrs[first].v) fail(fmt("%s:attribute-lookup", where).c_str(), "lookup of attribute %d of +%d gives another value", ids[i], E->offset);
        }
    }
    std::vector<int> fw;
    BW_offset_t idx = 0;
    for (BW_element *c = E->NextChild(idx); c; c = E->NextChild(idx)) {
        fw.push_back(c->offset);
        n.ch.push_back(observe_node(W, d, c, where, deep + 1, budget, o));
    }
    if (o.backward) {
        std::vector<int> bw;
        idx = 0;
        for (BW_element *c = E->PrevChild(idx); c; c = E->PrevChild(idx)) { bw.push_back(c->offset); if (bw.size() > fw.size() + 2) break; }
        bool ok = bw.size() == fw.size();
        for (size_t i = 0; ok && i < fw.size(); i++) ok = fw[i] == bw[bw.size() - 1 - i];
        if (!ok) fail(fmt("%s:backward-order", where).c_str(), "children of +%d read backwards (%zu) differ from forwards (%zu)", E->offset, bw.size(), fw.size());
    }
    if (o.callbacks) {
        CbCount c = {0, {}};
        W.ForAllChildren(cb_child, E, &c);
        if (c.ids != fw) fail(fmt("%s:child-iteration", where).c_str(), "child callbacks of +%d show %zu children, the list has %zu", E->offset, c.ids.size(), fw.size());
        std::map<int, int> firsts;
        for (size_t i = 0; i < n.ch.size(); i++) {
            int id = n.ch[i].tag;
            if (firsts.count(id)) continue;
            firsts[id] = 1;
            if (id < 0) continue;
            BW_element *f = E->findChildByTag(d.tag_id[id]), *g = E->tagGet(d.tag_id[id]);
            if (!f || f != g || f->offset != fw[i]) fail(fmt("%s:child-lookup", where).c_str(), "lookup of child <%d> of +%d gives +%d instead of +%d", id, E->offset, f ? f->offset : 0, fw[i]);
            if (id >= NTAGS) continue;
            if (XBT_IS_4(TAGS[id].type) && n.ch[i].type != XBT_NULL) { int32_t *p = E->tagGetInt32(d.tag_id[id]); if (!p || n.ch[i].v.size() != 4 || memcmp(p, n.ch[i].v.data(), 4)) fail(fmt("%s:child-lookup", where).c_str(), "tagGetInt32 <%d> of +%d", id, E->offset); }
            if (n.ch[i].type == XBT_STRING || n.ch[i].type == XBT_BLOB_STRING) { const char *p = E->tagGetStr(d.tag_id[id]); if (!p || n.ch[i].v != p) fail(fmt("%s:child-lookup", where).c_str(), "tagGetStr <%d> of +%d", id, E->offset); }
        }
        // names which are not there
        for (int i = 0; i < 3; i++) {
            int id = (E->offset / 8 + i * 5) % NTAGS;
            if (d.tag_id[id] < 0 || firsts.count(id)) continue;
            if (E->findChildByTag(d.tag_id[id]) || E->tagGet(d.tag_id[id]) || E->tagGetStr(d.tag_id[id]) || (XBT_IS_4(TAGS[id].type) && E->tagGetInt32(d.tag_id[id]))) fail(fmt("%s:child-lookup", where).c_str(), "lookup of child <%d> of +%d, which is not there, gives something", id, E->offset);
        }
        for (int i = 0; i < 3; i++) {
            int id = (E->offset / 8 + i * 5) % NATTRS;
            if (d.attr_id[id] < 0) continue;
            bool there = false;
            for (auto &a : n.attrs) there |= a.id == id;
            if (!there && (E->findAttr(d.attr_id[id]) || E->attrGet(d.attr_id[id]) || E->findAttrInt32(d.attr_id[id]))) fail(fmt("%s:attribute-lookup", where).c_str(), "lookup of attribute %d of +%d, which is not there, gives something", id, E->offset);
        }
        // lookup by name and attribute: the first child with the name and an attribute of that value
        int looks = 0;
        for (size_t i = 0; i < n.ch.size() && looks < 12; i++) for (size_t k = 0; k < n.ch[i].attrs.size() && looks < 12; k++) {
            const Attr &a = n.ch[i].attrs[k];
            int tag = n.ch[i].tag;
            if (tag < 0 || tag >= NTAGS || a.id < 0 || a.id >= NATTRS || a.type == XBT_NULL) continue;
            if ((E->offset / 4 + i * 3 + k) % 3 == 0) continue;
            looks++;
            std::string v = a.v;
            bool other = (E->offset / 4 + i + k) % 4 == 0 && !v.empty(); // a value which may not be there
            if (other) v[v.size() / 2] ^= 1;
            int want = 0;
            for (size_t j = 0; j < n.ch.size() && !want; j++) if (n.ch[j].tag == tag) for (auto &b : n.ch[j].attrs) if (b.id == a.id && b.v == v) want = fw[j];
            BW_element *f = E->findChildByParam(d.tag_id[tag], d.attr_id[a.id], (XML_Binary_Type)a.type, v.c_str(), (int)v.size());
            if ((f ? f->offset : 0) != want) fail(fmt("%s:lookup-by-attribute", where).c_str(), "child <%d> of +%d with attribute %d (type %d) of %zu bytes: +%d instead of +%d", tag, E->offset, a.id, a.type, v.size(), f ? f->offset : 0, want);
        }
    }
    return n;
}
Tree observe(BW_plugin &W, const Dict &d, const char *where, ObserveOpts o) {
    Tree t;
    BW_element *R = (BW_element *)W.getRoot();
    if (!R) return t;
    t.has = true;
    int budget = 200000;
    t.root = observe_node(W, d, R, where, 0, budget, o);
    if (o.callbacks) {
        RecWalk got, want;
        W.ForAllChildrenRecursively(cb_rec, R, &got, 0);
        want.seen.push_back({t.root.tag >= 0 && t.root.tag < 64 ? d.tag_id[t.root.tag] : t.root.tag, 0}); pre_order(t.root, d, 1, want);
        bool known = true;
        for (auto &x : want.seen) known &= x.first > -900;
        if (known && got.seen != want.seen) fail(fmt("%s:recursive-walk", where).c_str(), "ForAllChildrenRecursively shows %zu elements instead of %zu, or others", got.seen.size(), want.seen.size());
    }
    return t;
}
BW_element *find(BW_plugin &W, const Path &p, const char *where) {
    BW_element *E = (BW_element *)W.getRoot();
    if (!E) fail(fmt("%s:lost-root", where).c_str(), "the document has no root");
    for (int k : p) {
        BW_offset_t idx = 0;
        BW_element *c = E->NextChild(idx);
        for (int i = 0; i < k && c; i++) c = E->NextChild(idx);
        if (!c) fail(fmt("%s:lost-child", where).c_str(), "child %d of +%d does not exist", k, E->offset);
        E = c;
    }
    return E;
}

//---------------------------------------------------------------- creation
template <class T> static T as(const std::string &v) { T x; memset(&x, 0, sizeof(x)); memcpy(&x, v.data(), v.size() < sizeof(x) ? v.size() : sizeof(x)); return x; }

// text of a value which has exactly one meaning (false: none)
bool text_form(int type, const std::string &v, std::string &t) {
    auto hex = [&](size_t n) { t.clear(); for (size_t i = 0; i < v.size() && i < n; i++) t += fmt(v.size() & 1 ? "%02X" : "%02x", (unsigned char)v[i]); };
    switch (type) {
        case XBT_INT32: t = fmt("%d", as<int32_t>(v)); return true;
        case XBT_INT64: t = fmt("%lld", (long long)as<int64_t>(v)); return true;
        case XBT_UINT64: t = fmt("%llu", (unsigned long long)as<uint64_t>(v)); return true;
        case XBT_HEX: hex(v.size()); return true;
        case XBT_SHA1: hex(20); return v.size() == 20;
        case XBT_GUID: hex(16); if (v.size() != 16) return false; for (int k : {20, 16, 12, 8}) t.insert(k, "-"); return true;
        case XBT_UNIX_TIME: {
            time_t q = (time_t)as<uint32_t>(v);
            struct tm b;
            gmtime_r(&q, &b);
            t = fmt("%04d-%02d-%02d %02d:%02d:%02d", b.tm_year + 1900, b.tm_mon + 1, b.tm_mday, b.tm_hour, b.tm_min, b.tm_sec);
            return true;
        }
        default: return false;
    }
}
struct TextRef { // reference to a text, which must not be changed by the call
    std::string t;
    XML_Binary_Data_Ref r;
    explicit TextRef(const std::string &text) : t(text) { memset(&r, 0, sizeof(r)); r.type = XBT_STRING; r.data = r.content = (char *)t.c_str(); r.size = r.content_size = (int)t.size() + 1; }
    void check(const char *fn) { if (r.data != t.c_str() || r.size != (int)t.size() + 1 || r.type != XBT_STRING) fail("data-changed", "%s changed the data it was given", fn); }
};
BW_element *make_tag(BW_plugin &W, const Dict &d, int tag, const std::string &v) {
    int id = d.tag_id[tag];
    Exact x(v, TAGS[tag].type);
    std::string text;
    if ((hash_str(v) & 12) == 0 && text_form(TAGS[tag].type, v, text)) {
        if (hash_str(v) & 16 && !text.empty()) { // value given as text
            int size = TAGS[tag].type == XBT_HEX ? 4 + (int)v.size() : (int)v.size();
            if (!W.makeSpace(0x4000 + size)) return nullptr;
            return W.getPool()->tagAny(id, TAGS[tag].type, text.c_str(), size);
        }
        TextRef q(text);
        BW_element *E = W.tagData(id, q.r);
        q.check("tagData");
        return E;
    }
    switch (TAGS[tag].type) {
        case XBT_NULL: return W.tag(id);
        case XBT_STRING: case XBT_BLOB_STRING: return W.tagStr(id, x.p);
        case XBT_BLOB: return W.tagBLOB(id, v.find_first_not_of('\0') == std::string::npos ? nullptr : x.p, (int)v.size());
        case XBT_HEX: return W.tagHEX(id, v.find_first_not_of('\0') == std::string::npos ? nullptr : x.p, (int)v.size());
        case XBT_INT64: return W.tagInt64(id, as<int64_t>(v));
        case XBT_FLOAT: return W.tagFloat(id, as<float>(v));
        case XBT_GUID: { return W.tagGUID(id, (GUID_t *)x.p); }
        case XBT_SHA1: return W.tagSHA1(id, (const uint8_t *)x.p);
        case XBT_UNIX_TIME: return W.tagTime(id, as<uint32_t>(v));
        case XBT_UNIX_TIME64_MSEC: return W.tagTime64(id, as<int64_t>(v));
        default: return W.tagInt32(id, as<int32_t>(v));
    }
}
bool make_null_attr(BW_element *E, const Dict &d, int attr) { // attribute without value, of a name with any type
    XML_Binary_Data_Ref r;
    memset((void *)&r, 0, sizeof(r));
    r.type = XBT_NULL;
    return E->attrData(d.attr_id[attr], r) == E;
}
bool make_attr(BW_element *E, const Dict &d, int attr, const std::string &v) {
    int id = d.attr_id[attr];
    Exact x(v, ATTRS[attr].type);
    BW_element *r = nullptr;
    if (ATTRS[attr].type == XBT_STRING && (hash_str(v) & 31) == 9) { // no text adds nothing
        BW_offset_t first = E->first_attribute, used = E->getPool()->allocator;
        if (E->attrStr(id, nullptr) != E || E->first_attribute != first || E->getPool()->allocator != used) fail("attr-return", "adding no text did something");
    }
    unsigned how = (unsigned)(hash_str(v) & 3); // which of the equivalent calls
    bool zeros = v.find_first_not_of('\0') == std::string::npos;
    std::string text;
    if ((hash_str(v) & 12) == 0 && text_form(ATTRS[attr].type, v, text)) {
        TextRef q(text);
        r = E->attrData(id, q.r);
        q.check("attrData");
    }
    else switch (ATTRS[attr].type) {
        case XBT_NULL: r = E->attrNull(id); break;
        case XBT_STRING:
            if (how == 0) { // a part of a longer text, which ends with its block of memory
                std::string t = how & 1 ? v + "tail" : v;
                char *b = (char *)sim_new_a(v.size() ? v.size() : 1);
                memcpy(b, v.data(), v.size());
                r = E->attrStr2(id, b, b + v.size());
                sim_delete_a(b);
            } else if (how == 1) { std::string t = v + "tail"; r = E->attrStr2(id, t.data(), t.data() + v.size()); }
            else r = E->attrStr(id, x.p);
            break;
        case XBT_BLOB: r = E->attrBLOB(id, zeros ? nullptr : x.p, (int)v.size()); break;
        case XBT_HEX: r = E->attrHEX(id, zeros ? nullptr : x.p, (int)v.size()); break;
        case XBT_INT32: {
            BW_element *dst = nullptr;
            r = how ? E->attrInt32(id, as<int32_t>(v)) : E->attrInt32(id, as<int32_t>(v), &dst);
            if (r && !how && (!dst || dst->identification != id || dst->getPool() != E->getPool())) fail("attr-return", "attrInt32 does not give the new attribute");
            break;
        }
        case XBT_UINT32: r = E->attrUInt32(id, as<uint32_t>(v)); break;
        case XBT_INT64: r = E->attrInt64(id, as<int64_t>(v)); break;
        case XBT_UINT64: r = E->attrUInt64(id, as<uint64_t>(v)); break;
        case XBT_FLOAT: r = E->attrFloat(id, as<float>(v)); break;
        case XBT_DOUBLE: r = E->attrDouble(id, as<double>(v)); break;
        case XBT_GUID: r = E->attrGUID(id, x.p); break;
        case XBT_SHA1: r = E->attrSHA1(id, x.p); break;
        case XBT_UNIX_TIME: r = E->attrTime(id, as<uint32_t>(v)); break;
        case XBT_UNIX_TIME64_MSEC: r = E->attrTime64(id, as<int64_t>(v)); break;
        default: harness_error("attr type");
    }
    if (r && r != E) fail("attr-return", "adding an attribute returned another element");
    return r != nullptr;
}

bool register_all(BW_plugin &W, Dict &d, int ntags, int nattrs, Dict *known, const char *where) {
    for (int i = 0; i < ntags; i++) {
        int id = W.registerTag(TAGS[i].name, TAGS[i].type);
        if (id < 0) return false;
        if (known && known->tag_id[i] >= 0 && known->tag_id[i] != id) fail(fmt("%s:tag-id-moved", where).c_str(), "tag %s had id %d and has id %d now", TAGS[i].name, known->tag_id[i], id);
        d.tag_id[i] = id;
    }
    for (int i = 0; i < nattrs; i++) {
        int id = W.registerParam(ATTRS[i].name, ATTRS[i].type);
        if (id < 0) return false;
        if (known && known->attr_id[i] >= 0 && known->attr_id[i] != id) fail(fmt("%s:attr-id-moved", where).c_str(), "attribute %s had id %d and has id %d now", ATTRS[i].name, known->attr_id[i], id);
        d.attr_id[i] = id;
    }
    d.ntags = ntags; d.nattrs = nattrs;
    if (!W.allRegistered()) return false;
    for (int i = 0; i < ntags; i++) {
        const char *n = W.getPool()->getTagName(d.tag_id[i]);
        int t = W.getPool()->getTagType(d.tag_id[i]);
        if (!n || strcmp(n, TAGS[i].name) || t != TAGS[i].type) fail(fmt("%s:tag-table", where).c_str(), "tag id %d is %s/%d and should be %s/%d", d.tag_id[i], n ? n : "(null)", t, TAGS[i].name, TAGS[i].type);
        for (int k = 0; k < i; k++) if (d.tag_id[k] == d.tag_id[i]) fail(fmt("%s:tag-id-shared", where).c_str(), "tags %s and %s share id %d", TAGS[k].name, TAGS[i].name, d.tag_id[i]);
    }
    for (int i = 0; i < nattrs; i++) {
        const char *n = W.getPool()->getAttrName(d.attr_id[i]);
        int t = W.getPool()->getAttrType(d.attr_id[i]);
        if (!n || strcmp(n, ATTRS[i].name) || t != ATTRS[i].type) fail(fmt("%s:attr-table", where).c_str(), "attribute id %d is %s/%d and should be %s/%d", d.attr_id[i], n ? n : "(null)", t, ATTRS[i].name, ATTRS[i].type);
        for (int k = 0; k < i; k++) if (d.attr_id[k] == d.attr_id[i]) fail(fmt("%s:attr-id-shared", where).c_str(), "attributes %s and %s share id %d", ATTRS[k].name, ATTRS[i].name, d.attr_id[i]);
    }
    return true;
}

DocShared *doc_shared() {
    DocShared *s = (DocShared *)mmap(nullptr, sizeof(DocShared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (s == MAP_FAILED) harness_error("mmap");
    for (int i = 0; i < 64; i++) s->tag_id[i] = s->attr_id[i] = -1;
    return s;
}

} // namespace sim

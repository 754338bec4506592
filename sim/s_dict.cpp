// Scenario "dict": names registered by name in any order over many sessions, crashes while registering,
// dictionaries with fixed identifiers that later sessions verify, type changes, clearing.
#include "bw.hpp"
#include <binary_xml/bin_xml.h>
#include <binary_xml/bin_xml_creator.h>
#include <unistd.h>
#include <errno.h>
#include <sys/mman.h>

using namespace sim;

namespace {

enum { MAXN = 400 };
struct Sym { char name[48]; int ntypes; int types[6]; };
struct Side { int n; Sym s[MAXN]; int pend; Sym p; int imp; }; // pend: an interrupted registration of p may have been done (3: any part of import imp)
struct Elem { int tag, attr, value; };
struct Dis { // survives the simulated processes
    Side side[2];
    int op_index;
    int nel, root_tag, el_pending; Elem el[200];
    int registered; // explicit: the first session registered everything
};
Dis *D;

bool long_names;
std::string name_of(int side, int64_t k) {
    // families of names that are prefixes of each other, short and long ones
    uint64_t h = mix(k / 3 + 7, side + 11);
    Rng r(h);
    int base = long_names ? 30 + r.below(12) : 1 + r.below(r.chance(85) ? 9 : 36);
    std::string s;
    for (int i = 0; i < base; i++) s += (char)('a' + r.below(i == 0 ? 3 : 26));
    for (int i = 0; i < k % 3; i++) s += (char)('a' + (k / 3 + i) % 26);
    return s;
}
const int TYPES[] = {XBT_NULL, XBT_INT32, XBT_STRING, XBT_INT64, XBT_FLOAT, XBT_BLOB, XBT_VARIANT, XBT_UNIX_TIME, XBT_DOUBLE, XBT_INT32_DECI, XBT_HEX, XBT_GUID};
const int NTYPES = sizeof(TYPES) / sizeof(TYPES[0]);
const char *SIDE[] = {"tag", "attribute"};

struct Exec {
    const Plan &p;
    BW_plugin *W = nullptr;
    bool expl, done = false;
    Exec(const Plan &p) : p(p) { expl = p.c("explicit"); long_names = p.c("long"); }

    int find(int side, const char *n) { for (int i = 0; i < D->side[side].n; i++) if (!strcmp(D->side[side].s[i].name, n)) return i; return -1; }
    static void add_type(Sym &s, int t) { for (int i = 0; i < s.ntypes; i++) if (s.types[i] == t) return; if (s.ntypes < 6) s.types[s.ntypes++] = t; }
    bool roomy(int need) {
        BW_pool *P = W->getPool();
        int names = 0;
        for (int s = 0; s < 2; s++) for (int i = 0; i < D->side[s].n; i++) names += 8 + (int)strlen(D->side[s].s[i].name) + 4;
        return (int64_t)P->allocator + names + need + 2 * 0x4000 + 4096 <= (int64_t)P->mmap_size;
    }
    int call(int side, const char *n, int t) { return side ? (int)W->registerParam(n, (XML_Binary_Type)t) : (int)W->registerTag(n, (XML_Binary_Type)t); }

    void reg(int side, const char *n, int t) {
        Side &S = D->side[side];
        if (side == 1 && W->getPool()->tags.max_id < 0) return; // tags come first
        int known = find(side, n);
        if (known < 0 && S.n >= MAXN - 2) return;
        bool room = roomy(200);
        Sym prev_p = S.p;
        int prev_pend = S.pend;
        if (!(prev_pend && prev_pend != 0)) { memset(&S.p, 0, sizeof(S.p)); snprintf(S.p.name, sizeof(S.p.name), "%s", n); S.p.ntypes = 1; S.p.types[0] = t; S.pend = known < 0 ? 1 : 2; }
        else if (known < 0) { /* two uncertain names are too many to follow: settle first */ settle(side); S.p = Sym(); snprintf(S.p.name, sizeof(S.p.name), "%s", n); S.p.ntypes = 1; S.p.types[0] = t; S.pend = 1; prev_pend = 0; known = find(side, n); if (known >= 0) S.pend = 2; }
        else { S.p = Sym(); snprintf(S.p.name, sizeof(S.p.name), "%s", n); S.p.ntypes = 1; S.p.types[0] = t; settle(side); S.pend = 2; prev_pend = 0; }
        done = false;
        int id = call(side, n, t);
        S.pend = 0;
        if (id < 0) {
            if (known >= 0) fail("dict:lost-name", "registered %s %s is not found again", SIDE[side], n);
            if (room && !any_fault_fired()) fail("dict:refused", "%s %s cannot be registered without any fault", SIDE[side], n);
            count("dict.no_space");
            return;
        }
        event(0xD1C7, side, id);
        if (known >= 0) {
            if (id != known) fail("dict:id-moved", "%s %s has identifier %d and had %d", SIDE[side], n, id, known);
            Sym &s = S.s[known];
            Sym o = s; s.ntypes = 0;
            for (int i = 0; i < o.ntypes; i++) add_type(s, o.types[i] == t ? t : XBT_JoinTypes((XML_Binary_Type)t, (XML_Binary_Type)o.types[i]));
            return;
        }
        if (id != S.n) fail("dict:id", "new %s %s got identifier %d, expected %d", SIDE[side], n, id, S.n);
        Sym &s = S.s[S.n++];
        memset(&s, 0, sizeof(s));
        snprintf(s.name, sizeof(s.name), "%s", n);
        add_type(s, t);
        if (t & 1) peek(id % 5 == 0);
    }
    // what cannot be a name or a type is refused and changes nothing
    void refuse(const Op &o) {
        int side = o.arg(0) & 1;
        Side &S = D->side[side];
        if (S.pend) return;
        BW_pool *P = W->getPool();
        BW_symbol_table_16B &T = side ? P->params : P->tags;
        if (side == 1 && P->tags.max_id < 0 && P->tags.names_offset) return; // (the first element was interrupted)
        if (side == 1 && P->tags.max_id < 0) { // elements come first
            int got = call(1, "early", XBT_INT32);
            if (got >= 0 || T.max_id >= 0) fail("dict:early-param", "an attribute is registered before any element");
            count("dict.early_param_refused");
            return;
        }
        int before = T.max_id;
        BW_offset_t alloc = P->allocator;
        static const int BAD[] = {-1, XBT_LAST, XBT_LAST + 1, 127, -128};
        int t = BAD[(size_t)o.arg(2) % 5];
        char n[48];
        bool known = S.n && (o.arg(3) & 1);
        snprintf(n, sizeof(n), "%s", known ? S.s[(size_t)o.arg(1) % S.n].name : "never");
        int got;
        switch (o.arg(4) % 4) {
            case 0: case 1: got = call(side, n, t); break;
            case 2: got = side ? (int)W->registerParam(nullptr, XBT_INT32) : (int)W->registerTag(nullptr, XBT_INT32); break;
            default: if (!S.n) return; got = (side ? W->alterAttr((int16_t)(o.arg(1) % S.n), (XML_Binary_Type)t) : W->alterTag((int16_t)(o.arg(1) % S.n), (XML_Binary_Type)t)) ? 0 : -1; break;
        }
        if (got >= 0) fail("dict:nonsense-accepted", "%s %s of type %d (way %d) is accepted as %d", SIDE[side], n, t, (int)(o.arg(4) % 4), got);
        if (T.max_id != before || P->allocator != alloc) fail("dict:nonsense-changed", "a refused registration changed the dictionary");
        count("dict.nonsense_refused");
        peek(true);
    }
    // all names of a binary file are registered at once
    struct Imp { std::string n; int t; };
    static std::vector<Imp> names_of(int k, int side) {
        std::vector<Imp> v;
        char n[32];
        snprintf(n, sizeof(n), "imp%d.xb", k);
        XB_reader R(n);
        if (!R.Initialize()) fail("dict:import-open", "%s cannot be opened", n);
        auto &T = side ? R.param_symbols : R.tag_symbols;
        for (int i = 0; i < T.count; i++) v.push_back({T.getSymbol(i), (int)T.getType(i)});
        return v;
    }
    static void join(Sym &s, int t) { Sym o = s; s.ntypes = 0; for (int i = 0; i < o.ntypes; i++) add_type(s, o.types[i] == t ? t : XBT_JoinTypes((XML_Binary_Type)t, (XML_Binary_Type)o.types[i])); }
    void import(const Op &o) {
        int side = o.arg(0) & 1, k = (int)((uint64_t)o.arg(1) % 3);
        if (side == 1 && W->getPool()->tags.max_id < 0) return;
        Side &S = D->side[side];
        settle(side);
        done = false;
        if (k == 2) { if (side) W->importParams(nullptr); else W->importTags(nullptr); count("dict.import_nothing"); return; }
        std::vector<Imp> v = names_of(k, side);
        if (S.n + (int)v.size() > MAXN - 2) return;
        char n[32];
        snprintf(n, sizeof(n), "imp%d.xb", k);
        XB_reader R(n);
        if (!R.Initialize()) fail("dict:import-open", "%s cannot be opened", n);
        bool room = roomy(200 + 60 * (int)v.size());
        S.imp = k; S.pend = 3;
        if (side) W->importParams(&R); else W->importTags(&R);
        BW_symbol_table_16B &T = side ? W->getPool()->params : W->getPool()->tags;
        if (room) {
            for (auto &q : v) {
                int known = find(side, q.n.c_str());
                if (known >= 0) { join(S.s[known], q.t); continue; }
                Sym &y = S.s[S.n++];
                memset(&y, 0, sizeof(y));
                snprintf(y.name, sizeof(y.name), "%s", q.n.c_str());
                add_type(y, q.t);
            }
            S.pend = 0;
            if (!v.empty() && T.max_id + 1 != S.n) fail("dict:import-count", "%d %ss after an import, expected %d", T.max_id + 1, SIDE[side], S.n);
            if (!v.empty()) peek(true);
        } else settle(side);
        count("dict.import");
    }
    // names and types are known before the dictionary is complete too
    void peek(bool all) {
        BW_pool *P = W->getPool();
        for (int side = 0; side < 2; side++) {
            Side &S = D->side[side];
            if (S.pend) continue;
            BW_symbol_table_16B &T = side ? P->params : P->tags;
            if (T.max_id + 1 != S.n) continue; // (content of a table of an older session is not counted yet)
            for (int i = all ? 0 : S.n > 2 ? S.n - 2 : 0; i < S.n; i++) {
                const char *x = T.getName(P, i);
                XML_Binary_Type_Stored *ts = T.getType(P, i);
                int t = ts ? *ts : -1;
                if (!x || strcmp(x, S.s[i].name)) fail("dict:early-name", "%s %d is %s before the dictionary is complete, expected %s", SIDE[side], i, x ? x : "(null)", S.s[i].name);
                bool ok = false;
                for (int k = 0; k < S.s[i].ntypes; k++) ok = ok || S.s[i].types[k] == t;
                if (!ok) fail("dict:early-type", "type of %s %d %s is %d before the dictionary is complete, expected %d", SIDE[side], i, x, t, S.s[i].types[0]);
            }
        }
        count("dict.early_look");
    }
    // an interrupted registration was done or not: ask the document (names are registered at their end)
    void settle(int side) {
        Side &S = D->side[side];
        if (!S.pend) return;
        BW_symbol_table_16B &T = side ? W->getPool()->params : W->getPool()->tags;
        if (S.pend == 3) { // any number of names of an import
            int n = T.max_id + 1, n0 = S.n;
            for (auto &q : names_of(S.imp, side)) {
                int known = find(side, q.n.c_str());
                if (known >= 0) { if (known < n0) { Sym o = S.s[known]; for (int i = 0; i < o.ntypes; i++) add_type(S.s[known], XBT_JoinTypes((XML_Binary_Type)q.t, (XML_Binary_Type)o.types[i])); } continue; }
                if (S.n == n) continue;
                Sym &y = S.s[S.n++];
                memset(&y, 0, sizeof(y));
                snprintf(y.name, sizeof(y.name), "%s", q.n.c_str());
                add_type(y, q.t);
            }
            if (S.n != n && n > 0) fail("dict:count", "after an interrupted import there are %d %ss, expected %d to %d", n, SIDE[side], n0, S.n);
            count("dict.interrupted_import");
        } else if (S.pend == 2) { // a type change of a known name
            int k = find(side, S.p.name);
            if (k >= 0) { Sym o = S.s[k]; for (int i = 0; i < o.ntypes; i++) add_type(S.s[k], XBT_JoinTypes((XML_Binary_Type)S.p.types[0], (XML_Binary_Type)o.types[i])); }
        } else {
            int n = T.max_id + 1;
            if (n != S.n && n != S.n + 1) fail("dict:count", "after an interrupted registration there are %d %ss, expected %d or %d", n, SIDE[side], S.n, S.n + 1);
            if (n == S.n + 1) { S.s[S.n++] = S.p; count("dict.interrupted_done"); } else count("dict.interrupted_undone");
        }
        S.pend = 0;
    }
    bool seal() { // allRegistered + everything is there
        bool room = roomy(0x4000);
        if (!W->allRegistered()) {
            if (room && !any_fault_fired()) fail("dict:not-registered", "the dictionary is not accepted");
            return false;
        }
        done = true;
        check();
        return true;
    }
    // names and types of the library are known in every document
    void reserved() {
        static const struct { int id; const char *tag; int tt; const char *attr; int at; } R[] = { // XBT_UNKNOWN: not said
            {-1, "NULL", XBT_UNKNOWN, "NULL", XBT_NULL}, {-2, "meta_root", XBT_NULL, "name", XBT_STRING}, {-3, "tag_symbols", XBT_BLOB, "hash", XBT_SHA1}, {-4, "param_symbols", XBT_BLOB, "modified", XBT_UNIX_TIME},
            {-5, "hash_index", XBT_UNKNOWN, "count", XBT_INT32}, {-6, "payload", XBT_NULL, "version", XBT_INT32}, {-7, "reference", XBT_UNKNOWN, "type_count", XBT_INT32}, {-8, "processed", XBT_UNKNOWN, "id", XBT_INT32},
            {-9, "et-tecera", XBT_NULL, "author", XBT_INT64}, {-10, "transaction", XBT_UNKNOWN, "time_ms", XBT_UNIX_TIME64_MSEC}};
        BW_pool *P = W->getPool();
        for (auto &q : R) {
            const char *t = P->getTagName((int16_t)q.id), *a = P->getAttrName((int16_t)q.id);
            if (!t || strcmp(t, q.tag) || !a || strcmp(a, q.attr)) fail("dict:built-in", "built-in names %d are %s and %s, expected %s and %s", q.id, t ? t : "(null)", a ? a : "(null)", q.tag, q.attr);
            int at = P->getAttrType((int16_t)q.id);
            if (at != q.at) fail("dict:built-in", "type of the built-in attribute %s is %d, expected %d", q.attr, at, q.at);
            if (q.tt == XBT_UNKNOWN) continue;
            int tt = P->getTagType((int16_t)q.id);
            if (tt != q.tt) fail("dict:built-in", "type of the built-in element %s is %d, expected %d", q.tag, tt, q.tt);
        }
    }
    void check() {
        BW_pool *P = W->getPool();
        for (int side = 0; side < 2; side++) {
            Side &S = D->side[side];
            int n = W->getSymbolCount(side ? SYMBOL_TABLE_PARAMS : SYMBOL_TABLE_NODES);
            if (n != S.n) fail("dict:count", "%d %ss, expected %d", n, SIDE[side], S.n);
            for (int i = 0; i < n; i++) {
                const char *x = side ? P->getAttrName(i) : P->getTagName(i);
                int t = side ? P->getAttrType(i) : P->getTagType(i);
                if (!x || strcmp(x, S.s[i].name)) fail("dict:name", "%s %d is %s, expected %s", SIDE[side], i, x ? x : "(null)", S.s[i].name);
                bool ok = false;
                for (int k = 0; k < S.s[i].ntypes; k++) ok = ok || S.s[i].types[k] == t;
                if (!ok) fail("dict:type", "type of %s %d %s is %d, expected %d", SIDE[side], i, x, t, S.s[i].types[0]);
                S.s[i].ntypes = 1; S.s[i].types[0] = t; // settled
                XML_Binary_Type t2;
                const char *y = W->getSymbol(side ? SYMBOL_TABLE_PARAMS : SYMBOL_TABLE_NODES, i, t2);
                if (!y || strcmp(x, y) || t2 != t) fail("dict:symbol", "%s %d is %s/%d in the symbol list and %s/%d in the table", SIDE[side], i, y ? y : "(null)", t2, x, t);
            }
            state(mix(hash_bytes(S.s, sizeof(Sym) * S.n), side));
        }
        if (D->side[0].n && D->side[1].n) reserved(); // (tables without names cannot be asked)
        content();
    }
    void content() {
        BW_element *R = (BW_element *)W->getRoot();
        if (!R) { if (D->nel || D->root_tag >= 0) fail("dict:content", "the content is lost"); return; }
        if (D->root_tag < 0) { if (D->el_pending) { D->root_tag = R->identification; } else fail("dict:content", "content in an empty document"); }
        if (!R->getName() || R->identification != D->root_tag || strcmp(R->getName(), D->side[0].s[D->root_tag].name)) fail("dict:content", "root is %s", R->getName() ? R->getName() : "(null)");
        BW_offset_t idx = 0;
        int i = 0;
        for (BW_element *E = R->NextChild(idx); E; E = R->NextChild(idx), i++) {
            if (i == D->nel && D->el_pending) { D->nel++; }
            if (i >= D->nel) fail("dict:content", "more than %d elements", D->nel);
            Elem &e = D->el[i];
            const char *n = E->getName();
            if (E->identification != e.tag || !n || strcmp(n, D->side[0].s[e.tag].name)) fail("dict:content", "element %d is %s, expected %s", i, n ? n : "(null)", D->side[0].s[e.tag].name);
            if (e.attr >= 0) {
                BW_element *A = E->findAttr(e.attr);
                XML_Binary_Data_Ref dr = A ? A->getData() : XML_Binary_Data_Ref();
                if (!A || dr.content_size != 4 || memcmp(dr.content, &e.value, 4) || !A->getName() || strcmp(A->getName(), D->side[1].s[e.attr].name)) fail("dict:content", "attribute %s of element %d is lost", D->side[1].s[e.attr].name, i);
            }
        }
        if (i != D->nel) fail("dict:content", "%d elements, expected %d", i, D->nel);
        D->el_pending = 0;
    }
    void add(const Op &o) {
        if (!done || !D->side[0].n || D->nel >= 190) return;
        int tag = (int)((uint64_t)o.arg(0) % D->side[0].n);
        Side &A = D->side[1];
        int attr = -1;
        for (int i = 0; i < A.n; i++) { int k = (int)((o.arg(1) + i) % A.n); if (W->getPool()->getAttrType(k) == XBT_INT32) { attr = k; break; } }
        BW_element *R = (BW_element *)W->getRoot();
        bool room = roomy(200);
        if (!R) {
            BW_element *E = W->tag(tag);
            if (!E) { if (room && !any_fault_fired()) fail("dict:tag", "an element cannot be created"); return; }
            D->el_pending = 1;
            W->setRoot(E);
            D->root_tag = tag; D->el_pending = 0;
            return;
        }
        BW_element *E = W->tag(tag);
        if (!E) { if (room && !any_fault_fired()) fail("dict:tag", "an element cannot be created"); return; }
        Elem e = {tag, attr, (int)o.arg(2)};
        if (attr >= 0 && !E->attrInt32(attr, e.value)) { if (room && !any_fault_fired()) fail("dict:attr", "attribute %s cannot be set", A.s[attr].name); return; }
        D->el[D->nel] = e;
        D->el_pending = 1;
        R->add(E);
        D->nel++;
        D->el_pending = 0;
    }
    void alter(const Op &o) {
        if (expl) return;
        if (!done) return;
        int side = o.arg(0) & 1, t = TYPES[(size_t)o.arg(2) % NTYPES];
        Side &S = D->side[side];
        if (!S.n) return;
        int k = (int)((uint64_t)o.arg(1) % S.n);
        int cur = S.s[k].types[0];
        for (int i = 0; i < D->nel; i++) if (side == 1 && D->el[i].attr == k) return; // keeps the meaning of stored values
        S.pend = 0;
        add_type(S.s[k], t);
        bool ok = side ? W->alterAttr(k, (XML_Binary_Type)t) : W->alterTag(k, (XML_Binary_Type)t);
        bool should = XBT_ConvertableType((XML_Binary_Type)cur, (XML_Binary_Type)t) == XBT_CONVERTABLE;
        if (ok != should) fail("dict:alter", "changing type of %s from %d to %d %s", S.s[k].name, cur, t, ok ? "is accepted" : "is refused");
        S.s[k].ntypes = 1; S.s[k].types[0] = ok ? t : cur;
        check();
    }
    void clear() {
        if (!done) return;
        if (!W->Clear()) { if (!any_fault_fired() && roomy(0x4000)) fail("dict:clear", "Clear() failed"); done = false; return; }
        D->nel = 0; D->root_tag = -1;
        if (W->getRoot()) fail("dict:clear-root", "content is left after Clear()");
        count("op.clear");
        check();
    }
    // ---------------------------------------------------------------- fixed identifiers
    struct Want { std::string n; int t; };
    std::vector<Want> want(int side) {
        std::vector<Want> v;
        std::map<std::string, int> seen;
        for (auto &o : p.ops) if (o.name == (side ? "eparam" : "etag") && v.size() < 300) { std::string n = name_of(side, o.arg(0)); if (seen[n]++) n += fmt("_%zu", v.size()); v.push_back({n, TYPES[(size_t)o.arg(1) % NTYPES]}); }
        return v;
    }
    void explicit_register() {
        bool room = true;
        int sz[2];
        for (int side = 0; side < 2; side++) {
            std::vector<Want> v = want(side);
            sz[side] = (int)v.size();
            for (size_t i = 0; i < v.size(); i++) {
                bool ok = side ? W->registerAttr((int16_t)i, v[i].n.c_str(), (XML_Binary_Type)v[i].t) : W->registerTag((int16_t)i, v[i].n.c_str(), (XML_Binary_Type)v[i].t);
                if (!ok && room && !any_fault_fired() && (int64_t)W->getPool()->allocator + 0xA000 < (int64_t)W->getPool()->mmap_size) fail("dict:explicit-refused", "%s %d %s cannot be registered", SIDE[side], (int)i, v[i].n.c_str());
                if (!ok) { D->registered = -1; return; }
                if (i % 3 == 0) for (size_t k = 0; k <= i; k += 1 + i / 4) {
                    BW_pool *P = W->getPool();
                    BW_symbol_table_16B &T = side ? P->params : P->tags;
                    const char *x = T.getName(P, (int)k);
                    XML_Binary_Type_Stored *ts = T.getType(P, (int)k);
                    int t = ts ? *ts : -1;
                    if (!x || v[k].n != x || t != v[k].t) fail("dict:early-name", "%s %d is %s/%d before the dictionary is complete, expected %s/%d", SIDE[side], (int)k, x ? x : "(null)", t, v[k].n.c_str(), v[k].t);
                }
            }
        }
        if (!W->allRegistered()) { if ((int64_t)W->getPool()->allocator + 0xA000 < (int64_t)W->getPool()->mmap_size) fail("dict:explicit", "the dictionary is not accepted"); D->registered = -1; return; }
        for (int side = 0; side < 2; side++) {
            std::vector<Want> v = want(side);
            D->side[side].n = (int)v.size();
            for (size_t i = 0; i < v.size(); i++) { Sym &s = D->side[side].s[i]; memset(&s, 0, sizeof(s)); snprintf(s.name, sizeof(s.name), "%s", v[i].n.c_str()); s.ntypes = 1; s.types[0] = v[i].t; }
        }
        D->registered = 1;
        done = true;
        check();
    }
    // a session that expects the dictionary: a correct one is accepted, a wrong one is refused
    void explicit_verify(const Op &o) {
        int wrong = (int)(o.arg(1) % 5); // 0..1 correct, 2 name, 3 type, 4 unknown identifier
        int side = o.arg(2) & 1;
        int nbad = 0;
        for (int sd = 0; sd < 2; sd++) {
            std::vector<Want> v = want(sd);
            if (wrong == 4 && sd == side) { v.push_back({"unknown", XBT_INT32}); }
            if (v.empty()) continue;
            size_t at = (size_t)o.arg(3) % v.size();
            if (wrong == 2 && sd == side) { size_t at2 = at; if (o.arg(4) & 1) v[at2].n += "x"; else v[at2].n = v[at2].n.substr(0, v[at2].n.size() - 1); nbad++; }
            if (wrong == 3 && sd == side) { v[at].t = v[at].t == XBT_INT32 ? XBT_STRING : XBT_INT32; nbad++; }
            if (wrong == 4 && sd == side) nbad++;
            for (size_t i = 0; i < v.size(); i++) {
                if (wrong == 1 && (o.arg(4) >> (i % 20) & 1)) continue; // a part of the dictionary is enough
                bool bad = sd == side && ((wrong == 2 && i == at) || (wrong == 3 && i == at) || (wrong == 4 && i + 1 == v.size()));
                bool ok = sd ? W->registerAttr((int16_t)i, v[i].n.c_str(), (XML_Binary_Type)v[i].t) : W->registerTag((int16_t)i, v[i].n.c_str(), (XML_Binary_Type)v[i].t);
                if (ok == bad) fail(bad ? "dict:wrong-accepted" : "dict:right-refused", "%s %d %s/%d is %s by the existing document", SIDE[sd], (int)i, v[i].n.c_str(), v[i].t, ok ? "accepted" : "refused");
            }
        }
        bool room = roomy(0x4000);
        bool ok = W->allRegistered();
        if (nbad && ok) fail("dict:mismatch-accepted", "a document with another dictionary is accepted");
        if (!nbad && !ok && room) fail("dict:match-refused", "the document is refused with its own dictionary");
        count(nbad ? "dict.mismatch" : "dict.match");
        if (room) { done = true; check(); }
    }

    // ---------------------------------------------------------------- sessions
    bool open(const Op *o) {
        static const Op none{};
        op_begin(o ? o : &none);
        if (!W) W = new BW_plugin("doc", nullptr, (int)p.c("maxpool", 0x100000), 0);
        bool ok = W->Initialize();
        bool ff = any_fault_fired();
        op_end();
        if (!ok && ff) { delete W; W = new BW_plugin("doc", nullptr, (int)p.c("maxpool", 0x100000), 0); ok = W->Initialize(); }
        if (!ok) fail("dict:open-refused", "the document cannot be opened");
        done = false;
        op_begin(&none);
        if (expl) {
            if (D->registered == 0) { // crash while the fixed dictionary was registered (or the first session)
                if (W->getPool()->tags.max_id < 0 && W->getPool()->params.max_id < 0) { op_end(); op_begin(o ? o : &none); explicit_register(); op_end(); return D->registered == 1; }
                // an incomplete dictionary: never accepted as complete unless it is
                explicit_after_crash();
                op_end();
                return D->registered == 1;
            }
            if (D->registered < 0) { op_end(); return false; }
            Op v; v.a = {0, 0, 0, 0, 0};
            explicit_verify(o && o->a.size() > 2 ? *o : v);
            if (o && o->a.size() > 2 && o->arg(1) % 5 >= 2) { // refused: open again properly
                close(o->arg(4) & 2);
                if (!W) W = new BW_plugin("doc", nullptr, (int)p.c("maxpool", 0x100000), 0);
                if (!W->Initialize()) fail("dict:open-refused", "the document cannot be opened");
                explicit_verify(v);
            }
        } else { settle(0); settle(1); if (o && o->arg(1) & 1) seal(); }
        op_end();
        return true;
    }
    void explicit_after_crash() {
        int good = 0, all = 0;
        for (int sd = 0; sd < 2; sd++) {
            std::vector<Want> v = want(sd);
            for (size_t i = 0; i < v.size(); i++, all++) good += sd ? W->registerAttr((int16_t)i, v[i].n.c_str(), (XML_Binary_Type)v[i].t) : W->registerTag((int16_t)i, v[i].n.c_str(), (XML_Binary_Type)v[i].t);
        }
        bool ok = W->allRegistered();
        if (!ok) { D->registered = -1; count("dict.interrupted_refused"); return; }
        for (int side = 0; side < 2; side++) {
            std::vector<Want> v = want(side);
            D->side[side].n = (int)v.size();
            for (size_t i = 0; i < v.size(); i++) { Sym &s = D->side[side].s[i]; memset(&s, 0, sizeof(s)); snprintf(s.name, sizeof(s.name), "%s", v[i].n.c_str()); s.ntypes = 1; s.types[0] = v[i].t; }
        }
        D->registered = 1;
        done = true;
        check();
    }
    void close(bool keep = false) {
        if (keep) W->Finalize(); // the same object is used for the next session
        else { delete W; W = nullptr; }
        if (open_fds() || open_maps() || bad_closes()) fail("close-leak", "after closing: %s", resources().c_str());
    }
    void process(int i, bool ex) {
        map_layout = (int)(p.seed % 3);
        heap_fill_seed = p.seed;
        const Op *op = ex ? &p.ops[i] : nullptr;
        if (ex) D->op_index = ++i;
        bool opened = open(op);
        for (; i < (int)p.ops.size(); i++) {
            const Op &o = p.ops[i];
            D->op_index = i + 1;
            if (o.name == "open") {
                if (o.arg(0) & 1) { D->op_index = i; break; }
                close(o.arg(4) & 4);
                opened = open(&o);
                continue;
            }
            if (!opened) continue;
            snprintf(shm->note, sizeof(shm->note), "op %d %s", i, o.name.c_str());
            op_begin(&o);
            if (o.name == "tag" && !expl) reg(0, name_of(0, o.arg(0)).c_str(), TYPES[(size_t)o.arg(1) % NTYPES]);
            else if (o.name == "param" && !expl) reg(1, name_of(1, o.arg(0)).c_str(), TYPES[(size_t)o.arg(1) % NTYPES]);
            else if (o.name == "again" && !expl) { int sd = o.arg(0) & 1; if (D->side[sd].n) { Sym &s = D->side[sd].s[(size_t)o.arg(1) % D->side[sd].n]; char n[48]; snprintf(n, sizeof(n), "%s", s.name); reg(sd, n, s.types[0]); } }
            else if (o.name == "import" && !expl) import(o);
            else if (o.name == "refuse") refuse(o);
            else if (o.name == "seal") seal();
            else if (o.name == "add") add(o);
            else if (o.name == "alter") alter(o);
            else if (o.name == "clear") clear();
            op_end();
        }
        static const Op none{};
        op_begin(&none);
        if (opened && i >= (int)p.ops.size()) { settle(0); settle(1); seal(); }
        op_end();
        close();
    }
};

void run_dict(const Plan &p) {
    D = (Dis *)mmap(nullptr, sizeof(Dis), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    D->root_tag = -1;
    bool imports = false;
    for (auto &o : p.ops) imports |= o.name == "import";
    for (int k = 0; imports && k < 2; k++) {
        ProcResult r = run_process([&] {
            long_names = p.c("long");
            Rng q(p.seed ^ (0x1999 + k));
            int sp = (int)p.c("names", 12);
            BW_plugin W(k ? "impsrc1" : "impsrc0", nullptr, 0x400000, 0);
            if (!W.Initialize()) setup_failed("import source");
            int nt = 1 + q.below(q.chance(80) ? 12 : 120), na = q.chance(20) ? 0 : q.below(q.chance(80) ? 12 : 120);
            for (int i = 0; i < nt; i++) if (W.registerTag(name_of(0, q.below(sp)).c_str(), (XML_Binary_Type)TYPES[q.below(NTYPES)]) < 0) setup_failed("import source");
            for (int i = 0; i < na; i++) if (W.registerParam(name_of(1, q.below(sp)).c_str(), (XML_Binary_Type)TYPES[q.below(NTYPES)]) < 0) setup_failed("import source");
            if (!W.allRegistered()) setup_failed("import source");
            W.setRoot(W.tag(0));
            char n[32];
            snprintf(n, sizeof(n), "imp%d.xb", k);
            Bin_xml_creator C(&W, n);
            if (!C.DoAll()) setup_failed("import source");
        });
        expect_clean(r, "import source");
    }
    int guard = 0;
    while (++guard < 200) {
        int i = D->op_index;
        bool ex = i < (int)p.ops.size() && p.ops[i].name == "open";
        ProcResult r = run_process([&] { Exec e(p); e.process(i, ex); });
        expect_clean(r, "dictionary", true);
        if (r.kind == EX_CRASH) { state(mix(0xC5, mix(D->op_index, D->side[0].n * 512 + D->side[1].n))); continue; }
        if (D->op_index >= (int)p.ops.size()) break;
        if (D->op_index == i && !ex) setup_failed("no progress at op %d", i);
    }
    if (guard >= 200) setup_failed("run does not end");
    D->op_index = (int)p.ops.size();
    ProcResult r = run_process([&] { Exec e(p); e.process((int)p.ops.size(), false); });
    expect_clean(r, "final-open");
}

// flavour 1: sessions that die while they register names; 2: contents come and go, names are added between
Plan gen_flavour(Rng &r, int tier, int flavour) {
    Plan p;
    static const std::vector<int64_t> POOLS = {0x10000, 0x20000, 0x100000, 0x400000};
    p.cfg["maxpool"] = r.pick(POOLS);
    bool expl = !flavour && r.chance(30);
    p.cfg["long"] = r.chance(25);
    p.cfg["explicit"] = expl;
    bool imports = r.chance(40);
    int space = r.chance(60) ? 12 : r.chance(70) ? 80 : 900; // how many different names
    p.cfg["names"] = space;
    bool many = r.chance(12);
    int n = many ? 60 + r.below(tier ? 600 : 400) : 4 + r.below(tier ? 60 : 36);
    int ntypes = r.chance(50) ? 3 : NTYPES;
    bool crash = flavour == 1 || (!flavour && r.chance(50));
    if (expl) {
        int nt = 1 + r.below(many ? 280 : 20), na = r.below(many ? 280 : 20);
        Op o; o.name = "open"; o.a = {1, 0};
        if (crash) o.f.push_back({"crash", (int64_t)r.below(r.chance(60) ? 400 : 6000), 0});
        p.ops.push_back(o);
        for (int i = 0; i < nt; i++) { Op q; q.name = "etag"; q.a = {(int64_t)r.below(space), (int64_t)r.below(ntypes)}; p.ops.push_back(q); }
        for (int i = 0; i < na; i++) { Op q; q.name = "eparam"; q.a = {(int64_t)r.below(space), (int64_t)r.below(ntypes)}; p.ops.push_back(q); }
        n = 4 + r.below(20);
    }
    for (int i = 0; i < n; i++) {
        Op o;
        int k = r.below(100);
        if (flavour == 2 && i > 2 && r.chance(60)) k = r.chance(35) ? 90 : r.chance(20) ? 70 : 80;
        if (k < 34) { o.name = "tag"; o.a = {(int64_t)r.below(space), (int64_t)r.below(ntypes)}; }
        else if (k < 60) { o.name = "param"; o.a = {(int64_t)r.below(space), (int64_t)r.below(ntypes)}; }
        else if (k < 63 && imports && !expl) { o.name = "import"; o.a = {(int64_t)r.below(2), (int64_t)r.below(3)}; }
        else if (k < 64) { o.name = "refuse"; o.a = {(int64_t)r.below(2), (int64_t)r.below(400), (int64_t)r.below(5), (int64_t)r.below(2), (int64_t)r.below(4)}; }
        else if (k < 66) { o.name = "again"; o.a = {(int64_t)r.below(2), (int64_t)r.below(400)}; }
        else if (k < 74) o.name = "seal";
        else if (k < 86) { o.name = "add"; o.a = {(int64_t)r.below(400), (int64_t)r.below(400), (int64_t)r.below(1 << 30)}; }
        else if (k < 89) { o.name = "alter"; o.a = {(int64_t)r.below(2), (int64_t)r.below(400), (int64_t)r.below(NTYPES)}; }
        else if (k < 91) o.name = "clear";
        else { o.name = "open"; o.a = {(int64_t)r.below(2), (int64_t)r.below(5), (int64_t)r.below(2), (int64_t)r.below(1000), (int64_t)r.below(1 << 20)}; }
        if (flavour && o.name == "alter") o.name = "seal";
        if (crash && (o.name == "tag" || o.name == "param" || o.name == "import" || o.name == "seal" || (o.name == "open" && r.chance(20)) || o.name == "add" || (flavour == 1 && o.name == "open")) && r.chance(flavour ? 25 : 12))
            o.f.push_back({"crash", (int64_t)r.below(r.chance(70) ? 40 : 600), 0});
        else if (o.name == "open" && r.chance(10)) { static const std::vector<std::string> K = {"open", "fstat", "mmap", "ftruncate"}; o.f.push_back({r.pick(K), (int64_t)r.below(2), EIO}); }
        p.ops.push_back(o);
    }
    return p;
}
Plan gen_dict(Rng &r, int tier) { return gen_flavour(r, tier, 0); }
Plan gen_dict_crash(Rng &r, int tier) { return gen_flavour(r, tier, 1); }
Plan gen_dict_clear(Rng &r, int tier) { return gen_flavour(r, tier, 2); }
RegScenario s1("dict", gen_dict, run_dict);
RegScenario s2("dictcrash", gen_dict_crash, run_dict);
RegScenario s3("dictclear", gen_dict_clear, run_dict);

} // namespace

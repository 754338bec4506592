// Merging elements of binary files into a live document (CopyPath, CopyPathOnly, CopyAll), by keys.
#include "bw.hpp"
#include <binary_xml/bin_xml.h>
#include <binary_xml/bin_xml_packer.h>
#include <unistd.h>
#include <errno.h>

using namespace sim;
using namespace pklib_xml;

namespace {

enum { SLOTS = 3 };
const int KEYS[] = {A_ID, A_NAME, A_U32, A_GUID, A_I64, A_BLOB}; // candidates for keys

struct KeyReader : XB_reader {
    uint64_t mask = 0; // by attribute of the model
    KeyReader(char *n, uint64_t m) : XB_reader(n), mask(m) {}
    bool ParamIsKey(int name) const override {
        if (name < 0) return false;
        const char *s = getParamName((tag_name_id_t)name);
        for (int i = 0; s && i < NATTRS; i++) if (!strcmp(s, ATTRS[i].name)) return mask >> i & 1;
        return false;
    }
};

struct Merge {
    const Plan &p;
    DocShared *ds;
    uint64_t keys = 0;
    int max_pool;
    bool wrap, typed = false, nulls = false;
    Tree src[SLOTS];
    bool made[SLOTS] = {};
    Merge(const Plan &p) : p(p), ds(doc_shared()), max_pool((int)p.c("pool", 0x400000)), wrap(p.c("wrap")) {
        for (size_t i = 0; i < sizeof(KEYS) / sizeof(*KEYS); i++) if (p.c("keys") >> i & 1) keys |= 1ull << KEYS[i];
        save(ds->before, ds->len_before, model);
    }
    bool is_key(int a) const { return a >= 0 && (keys >> a & 1); }
    static std::string xb_name(int s) { return s < 0 ? "types.xb" : fmt("m%d.xb", s); }

    //------------------------------------------------ sources
    Node gen(Rng &r, int &left, int deep, int size, uint64_t &rootkeys) {
        Node n;
        left--;
        n.tag = deep == 0 ? (int)T_ROOT : r.chance(55) ? (int)T_ITEM : r.chance(30) ? (int)T_NODE : (int)(1 + r.below(T_COUNT - 1));
        n.type = TAGS[n.tag].type;
        n.v = value_bytes(TAGS[n.tag].type, r.next(), (int)(r.chance(size > 4000 ? 40 : 85) ? r.below(24) : r.below((uint32_t)size + 1)));
        std::vector<int> ids;
        for (int i = 0; i < A_COUNT; i++) if (is_key(i) && deep == 0 ? i != A_U32 : r.chance(is_key(i) ? 75 : 12)) ids.push_back(i);
        for (size_t i = ids.size(); i > 1; i--) std::swap(ids[i - 1], ids[r.below((uint32_t)i)]);
        for (int i : ids) {
            Attr a; a.id = i; a.type = ATTRS[i].type;
            uint64_t s = is_key(i) ? 77 + (deep == 0 ? rootkeys % 2 : r.below(3)) : r.next();
            a.v = value_bytes(ATTRS[i].type, s, is_key(i) ? (int)(s % 7) * (i == A_NAME || i == A_BLOB) : (int)r.below(r.chance(90) ? 20 : (uint32_t)size + 1));
            if (nulls && r.chance(25)) { a.type = XBT_NULL; a.v.clear(); }
            n.attrs.push_back(a);
        }
        if (deep < 5 && left > 0 && (deep == 0 || r.chance(60))) {
            int k = 1 + r.below(deep == 0 ? 12 : 4);
            for (int i = 0; i < k && left > 0; i++) n.ch.push_back(gen(r, left, deep + 1, size, rootkeys));
        }
        return n;
    }
    Tree tree_of(const Op &o) {
        Rng r((uint64_t)o.arg(1));
        int left = (int)o.arg(2, 10);
        uint64_t rk = o.arg(4) ? 1 : 0;
        nulls = o.arg(6);
        Tree t; t.has = true;
        t.root = gen(r, left, 0, (int)o.arg(3), rk);
        return t;
    }
    // names whose values are kept as texts in the source, as in files made of XML; the live document keeps their real types
    struct Texts { uint64_t tags = 0, attrs = 0; };
    BW_element *build(BW_plugin &W, const Dict &d, const Node &n, const Texts &x) {
        std::string t;
        BW_element *E = x.tags >> n.tag & 1 && text_form(n.type, n.v, t) ? W.tagStr(d.tag_id[n.tag], t.c_str()) : make_tag(W, d, n.tag, n.v);
        if (!E) setup_failed("source element");
        for (auto &a : n.attrs) {
            if (a.type == XBT_NULL && ATTRS[a.id].type != XBT_NULL) { if (!make_null_attr(E, d, a.id)) setup_failed("source attribute without value"); continue; }
            if (x.attrs >> a.id & 1 && text_form(a.type, a.v, t) ? !E->attrStr(d.attr_id[a.id], t.c_str()) : !make_attr(E, d, a.id, a.v)) setup_failed("source attribute");
        }
        for (auto &c : n.ch) E->add(build(W, d, c, x));
        return E;
    }
    static Texts texts_of(const Node &n, Texts can) {
        std::string t;
        if (!text_form(n.type, n.v, t)) can.tags &= ~(1ull << n.tag);
        for (auto &a : n.attrs) if ((a.type != XBT_NULL || ATTRS[a.id].type == XBT_NULL) && !text_form(a.type, a.v, t)) can.attrs &= ~(1ull << a.id);
        for (auto &c : n.ch) can = texts_of(c, can);
        return can;
    }
    static void register_texts(BW_plugin &W, Dict &d, const Texts &x) {
        for (int i = 0; i < T_COUNT; i++) d.tag_id[i] = W.registerTag(TAGS[i].name, x.tags >> i & 1 ? XBT_STRING : TAGS[i].type);
        for (int i = 0; i < A_COUNT; i++) d.attr_id[i] = W.registerParam(ATTRS[i].name, x.attrs >> i & 1 ? XBT_STRING : ATTRS[i].type);
        d.ntags = T_COUNT; d.nattrs = A_COUNT;
        if (!W.allRegistered()) setup_failed("source dictionary");
    }
    void make_types() {
        ProcResult r = run_process([&] {
            BW_plugin W("m", nullptr, 0x800000, 0);
            Dict d;
            if (!W.Initialize() || !register_all(W, d, T_COUNT, A_COUNT, nullptr, "types")) setup_failed("types document");
            W.setRoot(W.tag(d.tag_id[T_ROOT]));
            if (!Bin_xml_packer::Convert(&W, "types.xb")) setup_failed("types conversion");
        });
        expect_clean(r, "types");
    }
    void make_src(const Op &o) {
        int s = (int)((uint64_t)o.arg(0) % SLOTS);
        src[s] = tree_of(o);
        ProcResult r = run_process([&] {
            ::unlink("m.xbw");
            BW_plugin W("m", nullptr, 0x800000, 0);
            Dict d;
            if (!W.Initialize()) setup_failed("source document");
            Texts x;
            if (o.arg(5)) {
                uint64_t m = (uint64_t)o.arg(5) * 0x9E3779B97F4A7C15ull;
                x.tags = o.arg(5) == 1 ? ~0ull : m >> 8; x.attrs = o.arg(5) == 1 ? ~0ull : m >> 20;
                x = texts_of(src[s].root, x);
                register_texts(W, d, x);
                count("merge.text_source");
            } else if (!register_all(W, d, T_COUNT, A_COUNT, nullptr, "source")) setup_failed("source document");
            W.setRoot(build(W, d, src[s].root, x));
            ::unlink(xb_name(s).c_str());
            if (!Bin_xml_packer::Convert(&W, xb_name(s).c_str())) setup_failed("source conversion");
        });
        expect_clean(r, "source");
        made[s] = true;
    }

    //------------------------------------------------ model
    bool equal_keys(const Node &d, const Node &s) const {
        if (d.tag != s.tag) return false;
        auto covers = [&](const Node &a, const Node &b) {
            for (auto &x : a.attrs) {
                if (!is_key(x.id)) continue;
                bool ok = false;
                for (auto &y : b.attrs) if (y.id == x.id) { ok = y.v == x.v && (y.type == x.type || (y.v.empty() && (y.type == XBT_STRING || x.type == XBT_STRING))); break; } // no value is the same as an empty text
                if (!ok) return false;
            }
            return true;
        };
        return covers(d, s) && covers(s, d);
    }
    Node only_keys(const Node &s) const {
        Node n; n.tag = s.tag; n.type = XBT_NULL;
        for (auto &a : s.attrs) if (is_key(a.id)) n.attrs.push_back(a);
        return n;
    }
    Node created(const Node &s, bool last, bool whole) const { return last && whole ? s : only_keys(s); }
    // false = refused, nothing changes
    bool model_path(Tree &t, const Node &root, const std::vector<int> &way, bool whole, Path &result) {
        result.clear();
        Node *d;
        const Node *s = &root;
        bool fresh = false;
        if (!t.has) { t.has = true; t.root = created(root, way.empty(), whole); d = &t.root; fresh = true; }
        else {
            d = &t.root;
            if (d->tag == -1000 + XTNR_TRANSACTION) {
                if (d->ch.empty()) { d->ch.push_back(created(root, way.empty(), whole)); fresh = true; }
                d = &d->ch[0]; result.push_back(0);
            }
            if (!fresh && !equal_keys(*d, *s)) return false;
        }
        for (size_t i = 0; i < way.size(); i++) {
            s = &s->ch[way[i]];
            size_t k = 0;
            while (k < d->ch.size() && !equal_keys(d->ch[k], *s)) k++;
            if (k == d->ch.size()) d->ch.push_back(created(*s, i + 1 == way.size(), whole));
            result.push_back((int)k);
            d = &d->ch[k];
        }
        return true;
    }

    //------------------------------------------------ target
    struct Target {
        Merge &M;
        BW_plugin *W = nullptr;
        Dict d;
        std::map<int, KeyReader *> readers;
        std::map<int, std::string> names;
        Target(Merge &M) : M(M) {}
        ~Target() { close(); for (auto &r : readers) { r.second->Finalize(); delete r.second; } }
        void close() { delete W; W = nullptr; }
        KeyReader *reader(int s) {
            if (readers.count(s)) return readers[s];
            char *n = strdup(xb_name(s).c_str());
            KeyReader *R = new KeyReader(n, M.keys);
            if (!R->Initialize()) fail("merge:refused", "the source file cannot be opened");
            return readers[s] = R;
        }
        static void learn(BW_plugin &W, Dict &d) {
            for (int i = 0; i < T_COUNT; i++) { d.tag_id[i] = W.getPool()->tags.getByName(W.getPool(), TAGS[i].name, nullptr, nullptr); if (d.tag_id[i] < 0) fail("merge:import", "tag %s was not imported", TAGS[i].name); }
            for (int i = 0; i < A_COUNT; i++) { d.attr_id[i] = W.getPool()->params.getByName(W.getPool(), ATTRS[i].name, nullptr, nullptr); if (d.attr_id[i] < 0) fail("merge:import", "attribute %s was not imported", ATTRS[i].name); }
            d.ntags = T_COUNT; d.nattrs = A_COUNT;
        }
        void open(int s) {
            if (W) return;
            W = new BW_plugin("t", nullptr, M.max_pool, 0);
            if (!W->Initialize()) fail("merge:open", "the document cannot be opened");
            KeyReader *R = reader(s);
            KeyReader *K = M.typed ? reader(-1) : R;
            W->importTags(K); W->importParams(K);
            if (!W->allRegistered()) fail("merge:import", "the dictionary of a binary file cannot be imported");
            learn(*W, d);
            for (int i = 0; i < T_COUNT; i++) if (R->getNodeID(TAGS[i].name) != d.tag_id[i]) fail("merge:import", "tag %s has id %d in the document and %d in the file", TAGS[i].name, d.tag_id[i], R->getNodeID(TAGS[i].name));
            for (int i = 0; i < A_COUNT; i++) if (R->getParamID(ATTRS[i].name) != d.attr_id[i]) fail("merge:import", "attribute %s has id %d in the document and %d in the file", ATTRS[i].name, d.attr_id[i], R->getParamID(ATTRS[i].name));
            if (M.wrap && !W->getPool()->root) {
                BW_element *T = W->tag(XTNR_TRANSACTION);
                if (!T) setup_failed("wrap");
                W->setRoot(T);
                M.set_tree([&](Tree &t) { t.has = true; t.root = Node(); t.root.tag = -1000 + XTNR_TRANSACTION; t.root.type = XBT_NULL; });
            }
        }
    };
    Tree model;
    void set_tree(const std::function<void(Tree &)> &f) { f(model); save(ds->before, ds->len_before, model); ds->pending = 0; }
    static void save(char *buf, uint32_t &len, const Tree &t) {
        std::string s = ser(t);
        if (s.size() > sizeof(((DocShared *)0)->before)) harness_error("model too large");
        memcpy(buf, s.data(), s.size()); len = (uint32_t)s.size();
    }
    void check(BW_plugin &W, const Dict &d, const Tree &want, const char *what) {
        Tree got = observe(W, d, "merge");
        if (!(got == want)) fail("merge:content", "%s: %s", what, first_diff(want, got).c_str());
    }
    void path_op(Target &T, const Op &o, size_t at) {
        int s = (int)((uint64_t)o.arg(0) % SLOTS);
        if (!made[s]) return;
        T.open(s);
        KeyReader *R = T.reader(s);
        Rng r((uint64_t)o.arg(1));
        bool whole = o.arg(2);
        std::vector<int> way;
        std::vector<XML_Item *> items;
        const Node *n = &src[s].root;
        XML_Item *X = R->getRoot();
        if (!X || X->childcount != (int)n->ch.size()) fail("merge:source", "the source file shows another root");
        XML_Item *root = X;
        int deep = r.chance(30) ? r.below(6) : 1 + r.below(2);
        while (deep-- > 0 && !n->ch.empty()) {
            int k = r.below((uint32_t)n->ch.size());
            way.push_back(k); n = &n->ch[k];
            X = X->getChildByIndex(k); items.push_back(X);
            if (!X || X->childcount != (int)n->ch.size()) fail("merge:source", "the source file shows another tree");
        }
        Tree after = model;
        Path where;
        bool possible = model_path(after, src[s].root, way, whole, where);
        if (!possible) after = model;
        save(ds->after, ds->len_after, after);
        int need = 0x10000 + 2 * (int)ser(after).size() - (int)ser(model).size();
        int room = max_pool - (int)T.W->getPool()->allocator;
        std::vector<XML_Item *> a = items;
        a.resize(8, nullptr);
        BW_element *E = nullptr;
        bool any = false;
        ds->pending = 1;
        snprintf(shm->note, sizeof(shm->note), "op %d path", (int)at);
        auto work = [&] {
            op_begin(&o);
            disk_free = o.arg(3, -1);
            E = whole ? T.W->CopyPath(*R, root, a[0], a[1], a[2], a[3], a[4], a[5], nullptr) : T.W->CopyPathOnly(*R, root, a[0], a[1], a[2], a[3], a[4], a[5], nullptr);
            any = any_fault_fired();
            op_end();
            disk_free = -1;
        };
        if (o.arg(4)) { // others read meanwhile
            bool end = false;
            Tree before = model;
            std::vector<Task> tasks;
            tasks.push_back([&] { work(); end = true; });
            for (int k = 0; k < (int)o.arg(4); k++) tasks.push_back([&] {
                bool seen = false;
                for (int l = 0; l < 60; l++) {
                    bool last = end;
                    ObserveOpts oo; oo.backward = oo.callbacks = false;
                    BW_plugin V("t", nullptr, max_pool, 0);
                    if (!V.Initialize()) fail("merge:reader", "the document cannot be opened while another process merges");
                    Dict d; Target::learn(V, d);
                    for (int m = 0; m < 3; m++) {
                        bool was = end;
                        Tree got = observe(V, d, "merge", oo);
                        bool isb = got == before, isa = got == after;
                        if (!isb && !isa) fail("merge:partial", "a reader sees a part of what is merged: %s", first_diff(after, got).c_str());
                        if (isa && !isb) seen = true;
                        if (seen && !isa) fail("merge:undone", "what was merged is not there any more");
                        if (was && E && !isa) fail("merge:late", "what was merged is not there");
                        count("merge.looks");
                    }
                    if (last) break;
                }
            });
            run_tasks(tasks, p.seed ^ (uint64_t)o.arg(1), 1 + (int)(o.arg(1) % 23));
        } else work();
        ds->pending = 0;
        if (E) {
            if (!possible) fail("merge:root", "an element was merged below a root that is not the same");
            if (find(*T.W, where, "merge") != E) fail("merge:result", "the element returned is not the one merged");
            if (after == model) count("merge.known"); else count(whole ? "merge.copied" : "merge.copied_keys");
            model = after; save(ds->before, ds->len_before, model);
        } else {
            if (possible && !any && room > need) fail("merge:refused", "elements cannot be merged (room %d, needed %d)", room, need);
            count(possible ? "merge.failed" : "merge.other_root");
        }
        check(*T.W, T.d, model, E ? "after merging" : "after merging failed");
        state(mix(tree_hash(model), whole));
        event(0xB3, E != nullptr, tree_hash(model));
    }
    void all_op(Target &T, const Op &o, size_t at) {
        int s = (int)((uint64_t)o.arg(0) % SLOTS);
        if (!made[s]) return;
        T.open(s);
        KeyReader *R = T.reader(s);
        Rng r((uint64_t)o.arg(1));
        const Node *n = &src[s].root;
        XML_Item *X = R->getRoot();
        int deep = model.has ? 1 + r.below(4) : 0;
        while (deep-- > 0 && !n->ch.empty()) { int k = r.below((uint32_t)n->ch.size()); n = &n->ch[k]; X = X->getChildByIndex(k); }
        if (model.has && n == &src[s].root) return;
        int room = max_pool - (int)T.W->getPool()->allocator;
        std::string bytes; put(bytes, *n);
        snprintf(shm->note, sizeof(shm->note), "op %d all", (int)at);
        XML_Binary_Data_Ref data = X->getData();
        op_begin(&o);
        disk_free = o.arg(3, -1);
        BW_element *E = T.W->tagData(X->name, data), *C = E ? T.W->CopyAll(E, *R, X) : nullptr;
        bool any = any_fault_fired();
        op_end();
        disk_free = -1;
        if (!C) {
            if (!any && room > 0x10000 + 2 * (int)bytes.size()) fail("merge:refused", "a tree cannot be copied (room %d)", room);
            count("merge.failed");
        } else {
            if (C != E) fail("merge:result", "copying returned another element");
            if (!model.has) { T.W->setRoot(E); model.has = true; model.root = *n; }
            else { ((BW_element *)T.W->getRoot())->add(E); model.root.ch.push_back(*n); }
            save(ds->before, ds->len_before, model);
            count("merge.trees");
        }
        check(*T.W, T.d, model, "after copying a tree");
        state(mix(tree_hash(model), 2));
        event(0xB4, C != nullptr, tree_hash(model));
    }
    void session(size_t &at) {
        size_t end = at;
        bool crash = false;
        while (end < p.ops.size() && p.ops[end].name != "restart" && p.ops[end].name != "src") { for (auto &f : p.ops[end].f) crash |= f.kind == "crash"; end++; }
        ds->op_index = (int)at;
        ProcResult r = run_process([&] {
            {
                Target T(*this);
                model = deser(ds->before, ds->len_before);
                for (size_t i = at; i < end; i++) {
                    ds->op_index = (int)i;
                    const Op &o = p.ops[i];
                    if (o.name == "path") path_op(T, o, i);
                    else if (o.name == "all") all_op(T, o, i);
                    else if (o.name == "reopen") { T.close(); for (int s = 0; s < SLOTS; s++) if (made[s]) { T.open(s); check(*T.W, T.d, model, "after opening again"); break; } }
                }
            }
            if (open_fds() || open_maps() || bad_closes()) fail("merge:leak", "after the session: %s", resources().c_str());
        });
        expect_clean(r, "session", crash);
        at = r.kind == EX_CRASH ? (size_t)ds->op_index + 1 : end < p.ops.size() && p.ops[end].name == "src" ? end : end + 1;
        if (r.kind == EX_CRASH) count("merge.crashed");
        // what the next process finds
        ProcResult q = run_process([&] {
            model = deser(ds->before, ds->len_before);
            int s = 0; while (s < SLOTS && !made[s]) s++;
            if (s == SLOTS || access("t.xbw", 0)) return;
            Target T(*this);
            T.open(s);
            Tree got = observe(*T.W, T.d, "merge");
            if (got == model) { ds->pending = 0; return; }
            Tree after;
            if (ds->pending) after = deser(ds->after, ds->len_after);
            if (!ds->pending || !(got == after)) fail(ds->pending ? "merge:torn" : "merge:lost", "after %s: %s", ds->pending ? "a crash while merging" : "the session", first_diff(ds->pending ? after : model, got).c_str());
            save(ds->before, ds->len_before, after); ds->pending = 0;
            count("merge.crash_done");
        });
        expect_clean(q, "next process");
    }
};

void run_merge(const Plan &p) {
    Merge m(p);
    for (auto &o : p.ops) m.typed |= o.name == "src" && o.arg(5);
    if (m.typed) m.make_types();
    for (size_t at = 0; at < p.ops.size();) {
        if (p.ops[at].name == "src") { m.make_src(p.ops[at]); at++; continue; }
        // a session ends before the next source
        m.session(at);
    }
}

Plan gen_merge(Rng &r, int tier) {
    Plan p;
    p.cfg["keys"] = r.chance(15) ? 0 : 1 + r.below(63);
    if (r.chance(50)) p.cfg["keys"] = 1;
    p.cfg["wrap"] = r.chance(25);
    p.cfg["pool"] = r.chance(75) ? 0x800000 : r.chance(50) ? 0x20000 + r.below(0x10) * 0x1000 : 0x12000;
    bool big = r.chance(p.cfg["pool"] < 0x40000 ? 80 : 30);
    auto src = [&](int s) {
        Op o; o.name = "src"; o.a = {s, (int64_t)r.below(1 << 24), 1 + (int64_t)r.below(r.chance(70) ? 12 : 60), (int64_t)r.below(big ? 9000 : r.chance(85) ? 60 : 4000), r.chance(10), r.chance(70) ? 0 : r.chance(50) ? 1 : (int64_t)r.below(1 << 24), r.chance(20)};
        p.ops.push_back(o);
    };
    int ns = 1 + r.below(SLOTS);
    for (int i = 0; i < ns; i++) src(i);
    bool tight = p.cfg["pool"] < 0x40000;
    int n = 2 + r.below(tier || tight ? 40 : 20);
    Op prev;
    for (int i = 0; i < n; i++) {
        Op o;
        int k = r.below(100);
        if (k < (tight ? 50 : 75)) {
            o.name = "path"; o.a = {(int64_t)r.below((uint32_t)ns), (int64_t)r.below(1 << 20), r.chance(65), -1, 0};
            if (!prev.name.empty() && r.chance(20)) o.a[0] = prev.a[0], o.a[1] = prev.a[1];
            if (r.chance(15)) o.a[4] = 1 + r.below(2);
            else if (r.chance(big ? 30 : 10)) o.a[3] = r.chance(50) ? 0 : r.below(0x8000);
            else if (r.chance(15)) { o.f.push_back({"crash", (int64_t)r.below(r.chance(50) ? 40 : 400), 0}); }
            prev = o;
        } else if (k < 85) { o.name = "all"; o.a = {(int64_t)r.below((uint32_t)ns), (int64_t)r.below(1 << 20), 0, -1}; if (r.chance(15)) o.a[3] = r.below(0x5000); }
        else if (k < 91) o.name = "reopen";
        else if (k < 96) { src((int)r.below((uint32_t)ns)); continue; }
        else o.name = "restart";
        p.ops.push_back(o);
    }
    return p;
}
RegScenario sc1("merge", gen_merge, run_merge);

} // namespace

// Scenario "readers": one writer appends to a live document while readers with mappings of their own walk it.
// Every access to the shared mapping is a scheduling point; the writer may die in the middle of a step.
#include "bw.hpp"
#include <limits.h>

using namespace sim;

namespace {

const uint64_t NEVER = ~0ull;
struct Link { int off; uint64_t start, end; };        // end: the call that made it visible has returned
struct Val { std::string v; uint64_t start, end; };
struct Rec { int tag = 0, type = 0; std::vector<Val> vals; std::vector<Link> ch, attrs; };
struct World {
    std::map<int, Rec> recs;                           // by offset; attributes too
    int root = 0; uint64_t root_start = NEVER, root_end = NEVER;
    int order_guard = 0;
};
static World *G;
static Dict dict;

static const Rec &look(int off) { static const Rec none; auto i = G->recs.find(off); return i == G->recs.end() ? none : i->second; }
uint64_t now() { return logical_time(); }

struct Writer {
    const Plan &p;
    BW_plugin *W;
    std::vector<int> linked; // offsets of elements in the document, in order of linking

    int rec_new(BW_element *E, int tag, int type, const std::string &v) {
        Rec r; r.tag = tag; r.type = type; r.vals.push_back({v, 0, 0});
        G->recs[E->offset] = r;
        return E->offset;
    }
    BW_element *el(int off) { return W->BWE(off); }
    template <class F> void link_many(std::vector<Link> &list, const std::vector<int> &offs, F fn) {
        size_t first = list.size();
        uint64_t t = now();
        for (int o : offs) list.push_back({o, t, NEVER});
        fn();
        uint64_t e = now();
        for (size_t i = first; i < first + offs.size(); i++) list[i].end = e;
    }
    bool attr(int off, int a, const std::string &v, bool shown) {
        // the attribute element is created and linked inside one call: its offset is known afterwards
        Rec &r = G->recs[off];
        size_t k = r.attrs.size();
        uint64_t t = now();
        r.attrs.push_back({-1, t, NEVER});
        Rec ar; ar.tag = a; ar.type = ATTRS[a].type; ar.vals.push_back({v, 0, 0});
        G->recs[-off * 64 - (int)k - 1] = ar; // looked up by (element, index)
        bool ok = make_attr(el(off), dict, a, v);
        if (!ok) { r.attrs.pop_back(); return false; }
        r.attrs[k].end = shown ? now() : 0;
        if (!shown) r.attrs[k].start = 0;
        return true;
    }
    void op(const Op &o) {
        uint64_t seed = (uint64_t)o.arg(2) * 2654435761u + 17;
        int size = (int)o.arg(3);
        if (size < 0) size = 0;
        if (o.name == "w.root" || (linked.empty() && o.name == "w.add")) {
            if (G->root) return;
            BW_element *E = W->tag(dict.tag_id[T_ROOT]);
            if (!E) return;
            int off = rec_new(E, T_ROOT, XBT_NULL, "");
            G->root = off; G->root_start = now();
            W->setRoot(E);
            G->root_end = now();
            linked.push_back(off);
            return;
        }
        if (linked.empty()) return;
        if (o.name == "w.add") {
            int parent = linked[(size_t)o.arg(0) % linked.size()], tag = (int)((uint64_t)o.arg(1) % T_COUNT);
            if (tag == T_ROOT) tag = T_ITEM;
            std::string v = value_bytes(TAGS[tag].type, seed, size);
            BW_element *E = make_tag(*W, dict, tag, v);
            if (!E) { count("op.failed"); return; }
            int off = rec_new(E, tag, TAGS[tag].type, v);
            int na = (int)((uint64_t)o.arg(4) % 5);
            bool after = o.arg(5) & 1;
            for (int i = 0; i < na && !after; i++) { int a = (int)(((seed >> 3) + i * 5) % A_COUNT); attr(off, a, value_bytes(ATTRS[a].type, seed + i, (int)((seed >> (8 + i)) % 40)), false); }
            link_many(G->recs[parent].ch, {off}, [&] { el(parent)->add(E); });
            linked.push_back(off);
            for (int i = 0; i < na && after; i++) { int a = (int)(((seed >> 3) + i * 5) % A_COUNT); attr(off, a, value_bytes(ATTRS[a].type, seed + i, (int)((seed >> (8 + i)) % 40)), true); }
        } else if (o.name == "w.ring") {
            int parent = linked[(size_t)o.arg(0) % linked.size()], cnt = 2 + (int)(o.arg(1) & 3);
            BW_element *first = nullptr;
            std::vector<int> offs;
            for (int i = 0; i < cnt; i++) {
                int tag = (int)((seed >> (4 * i)) & 15);
                if (tag == T_ROOT) tag = T_ITEM;
                std::string v = value_bytes(TAGS[tag].type, seed + i, size % 40);
                BW_element *E = make_tag(*W, dict, tag, v);
                if (!E) break;
                offs.push_back(rec_new(E, tag, TAGS[tag].type, v));
                if (first) first->join(E); else first = E;
            }
            if (!first) return;
            link_many(G->recs[parent].ch, offs, [&] { el(parent)->add(first); });
            for (int x : offs) linked.push_back(x);
        } else if (o.name == "w.attr") {
            int off = linked[(size_t)o.arg(0) % linked.size()], a = (int)((uint64_t)o.arg(1) % A_COUNT);
            if (G->recs[off].attrs.size() > 10) return;
            attr(off, a, value_bytes(ATTRS[a].type, seed, size), true);
        } else if (o.name == "w.put") { // overwrite a number in place
            std::vector<int> c;
            for (int off : linked) { int ty = G->recs[off].type; if (ty == XBT_INT32 || ty == XBT_INT64 || ty == XBT_FLOAT) c.push_back(off); }
            if (c.empty()) return;
            int off = c[(size_t)o.arg(0) % c.size()];
            Rec &r = G->recs[off];
            std::string v = value_bytes((XML_Binary_Type)r.type, seed, 0);
            BW_element *E = el(off);
            void *dst = r.type == XBT_INT32 ? (void *)E->getInt32() : r.type == XBT_INT64 ? (void *)E->getInt64() : (void *)E->getFloat();
            if (!dst) fail("put:no-pointer", "the value of +%d is not accessible", off);
            r.vals.push_back({v, now(), NEVER});
            sched_point(true);
            memcpy(dst, v.data(), v.size());
            sched_point(true);
            r.vals.back().end = now();
        } else if (o.name == "w.set") { // find-or-create / overwrite through the parent
            int parent = linked[(size_t)o.arg(0) % linked.size()];
            int tag = o.arg(1) & 1 ? T_I32 : T_I64;
            std::string v = value_bytes(TAGS[tag].type, seed, 0);
            Rec &pr = G->recs[parent];
            int found = 0;
            for (auto &l : pr.ch) if (G->recs[l.off].tag == tag) { found = l.off; break; }
            int32_t i32; int64_t i64 = 0;
            memcpy(&i32, v.data(), 4);
            if (v.size() >= 8) memcpy(&i64, v.data(), 8);
            if (found) {
                G->recs[found].vals.push_back({v, now(), NEVER});
                BW_element *r = tag == T_I32 ? el(parent)->tagSetInt32(dict.tag_id[tag], i32) : el(parent)->tagSetInt64(dict.tag_id[tag], i64);
                if (!r || r->offset != found) fail("set:moved", "setting the number of +%d made another element", found);
                G->recs[found].vals.back().end = now();
            } else {
                // the new element gets its offset inside the call
                pr.ch.push_back({-1, now(), NEVER});
                size_t k = pr.ch.size() - 1;
                Rec nr; nr.tag = tag; nr.type = TAGS[tag].type; nr.vals.push_back({v, 0, 0});
                G->recs[-1000000000 - parent] = nr; // pending child of parent
                BW_element *r = tag == T_I32 ? el(parent)->tagSetInt32(dict.tag_id[tag], i32) : el(parent)->tagSetInt64(dict.tag_id[tag], i64);
                Rec &pr2 = G->recs[parent];
                if (!r) { pr2.ch.pop_back(); return; }
                G->recs[r->offset] = nr;
                pr2.ch[k].off = r->offset;
                pr2.ch[k].end = now();
                linked.push_back(r->offset);
            }
        }
    }
};

struct Reader {
    const Plan &p;
    int no;
    BW_plugin *R = nullptr;
    std::vector<int> known; // offsets met so far
    uint64_t walks = 0;

    [[noreturn]] void bad(const char *cls, const std::string &what) { fail(fmt("readers:%s", cls).c_str(), "reader %d: %s", no, what.c_str()); }

    void check_value(const Rec &r, const std::string &v, uint64_t t0, uint64_t t1, int off) {
        // some stored value was current at some moment between t0 and t1
        for (size_t i = 0; i < r.vals.size(); i++) {
            uint64_t from = r.vals[i].start, to = i + 1 < r.vals.size() ? r.vals[i + 1].end : NEVER;
            if (from <= t1 && to >= t0 && r.vals[i].v == v) return;
        }
        bad("value", fmt("value of +%d is %s, which was not stored at the time (last stored %s)", off, hex(v).substr(0, 64).c_str(), hex(r.vals.back().v).substr(0, 64).c_str()));
    }
    static std::string raw(BW_element *E, Reader *me) {
        XML_Binary_Data_Ref d = E->getData();
        if (d.content_size < 0 || d.content_size > (1 << 24)) me->bad("value-size", fmt("value of +%d has size %d", E->offset, d.content_size));
        if (E->value_type == XBT_STRING || E->value_type == XBT_BLOB_STRING) {
            const char *s = E->getStr();
            if (!s) me->bad("no-text", fmt("text of +%d is not available", E->offset));
            std::string r;
            for (; *s; s++) { r += *s; if (r.size() > (1 << 20)) me->bad("endless-text", fmt("text of +%d does not end", E->offset)); }
            return r;
        }
        return std::string(d.content ? d.content : "", d.content_size);
    }
    // how many entries of a list may be visible in [t0,t1]
    void check_seq(const std::vector<Link> &list, const std::vector<int> &seen, bool reversed, uint64_t t0, uint64_t t1, const char *what, int parent) {
        size_t lo = 0, hi = 0;
        while (lo < list.size() && list[lo].end <= t0) lo++;
        while (hi < list.size() && list[hi].start <= t1) hi++;
        size_t n = seen.size();
        if (n < lo || n > hi) bad("lost", fmt("%s of +%d: %zu entries seen, between %zu and %zu were there", what, parent, n, lo, hi));
        for (size_t i = 0; i < n; i++) {
            int off = reversed ? seen[n - 1 - i] : seen[i];
            if (list[i].off != off && list[i].off != -1) bad("order", fmt("%s of +%d: entry %zu is +%d instead of +%d", what, parent, i, off, list[i].off));
        }
        // entries linked by one call appear together
        if (n > 0 && n < list.size() && list[n - 1].start == list[n].start && list[n - 1].end == list[n].end && list[n].start != 0) bad("partial", fmt("%s of +%d: only a part of the entries linked together is seen", what, parent));
    }
    const Rec &rec(int off, int parent) {
        auto i = G->recs.find(off);
        if (i != G->recs.end()) return i->second;
        i = G->recs.find(-1000000000 - parent);
        if (i != G->recs.end()) return i->second;
        bad("foreign", fmt("+%d was never created", off));
    }
    void visit_self(BW_element *E, int parent) {
        const Rec &r = rec(E->offset, parent);
        uint64_t t0 = now();
        int id = E->identification, type = E->value_type;
        if (!(E->flags & BIN_WRITE_ELEMENT_FLAG)) bad("not-a-tag", fmt("+%d is not an element", E->offset));
        if (dict.tag_of(id) != r.tag || type != r.type) bad("identity", fmt("+%d is <%d:%d> instead of <%d:%d>", E->offset, dict.tag_of(id), type, r.tag, r.type));
        std::string v = raw(E, this);
        check_value(r, v, t0, now(), E->offset);
    }
    void attrs(BW_element *E, bool cb) {
        int off = E->offset;
        uint64_t t0 = now();
        struct Ctx { std::vector<std::pair<int, std::string>> a; std::vector<int> types; Reader *me; BW_plugin *R; } c;
        c.me = this; c.R = R;
        std::vector<int> seen;
        if (cb) {
            R->ForAllBinParams([](const char *name, int id, XML_Binary_Type ty, const char *v, void *, void *u) {
                Ctx *c = (Ctx *)u;
                if (c->a.size() > 5000) c->me->bad("endless-attributes", "attribute callbacks do not end");
                int a = dict.attr_of(id);
                if (a < 0 || strcmp(name ? name : "", ATTRS[a].name)) c->me->bad("attribute-name", fmt("attribute %d is called %s", id, name ? name : "(null)"));
                BW_element *A = (BW_element *)(v - sizeof(BW_element));
                c->a.push_back({a, raw(A, c->me)});
                c->types.push_back(ty);
            }, E, &c);
        } else {
            int first = E->first_attribute;
            if (first) for (BW_element *A = E->BWE(first);;) {
                if (c.a.size() > 5000) bad("endless-attributes", "the attribute ring does not end");
                c.a.push_back({dict.attr_of(A->identification), raw(A, this)});
                c.types.push_back(A->value_type);
                int nx = A->next;
                if (nx == first) break;
                A = E->BWE(nx);
            }
        }
        uint64_t t1 = now();
        const std::vector<Link> &list = look(off).attrs;
        size_t lo = 0, hi = 0;
        while (lo < list.size() && list[lo].end <= t0) lo++;
        while (hi < list.size() && list[hi].start <= t1) hi++;
        if (c.a.size() < lo || c.a.size() > hi) bad("attributes-lost", fmt("+%d: %zu attributes seen, between %zu and %zu were there", off, c.a.size(), lo, hi));
        for (size_t i = 0; i < c.a.size(); i++) {
            const Rec &r = look(-off * 64 - (int)i - 1);
            if (r.vals.empty()) bad("attribute", fmt("+%d: attribute %zu was never set", off, i));
            if (c.a[i].first != r.tag || c.types[i] != r.type || c.a[i].second != r.vals[0].v) bad("attribute", fmt("+%d: attribute %zu is %d:%d=%s instead of %d:%d=%s", off, i, c.a[i].first, c.types[i], hex(c.a[i].second).substr(0, 40).c_str(), r.tag, r.type, hex(r.vals[0].v).substr(0, 40).c_str()));
        }
    }
    std::vector<int> children(BW_element *E, int how) {
        int off = E->offset;
        std::vector<int> seen;
        uint64_t t0 = now();
        if (how == 1) {
            BW_offset_t idx = 0;
            for (BW_element *c = E->PrevChild(idx); c; c = E->PrevChild(idx)) { seen.push_back(c->offset); if (seen.size() > 20000) bad("endless", fmt("children of +%d do not end backwards", off)); }
        } else if (how == 2) {
            struct Ctx { std::vector<int> *s; Reader *me; } c = {&seen, this};
            R->ForAllChildren([](void *e, void *u) { Ctx *c = (Ctx *)u; c->s->push_back(((BW_element *)e)->offset); if (c->s->size() > 20000) c->me->bad("endless", "child callbacks do not end"); }, E, &c);
        } else {
            BW_offset_t idx = 0;
            for (BW_element *c = E->NextChild(idx); c; c = E->NextChild(idx)) { seen.push_back(c->offset); if (seen.size() > 20000) bad("endless", fmt("children of +%d do not end", off)); }
        }
        uint64_t t1 = now();
        check_seq(look(off).ch, seen, how == 1, t0, t1, how == 1 ? "children (backwards)" : "children", off);
        event(0x5EE, seen.size(), off);
        return seen;
    }
    void lookup(BW_element *E, int tag, int how) {
        int off = E->offset;
        uint64_t t0 = now();
        BW_element *f = how & 1 ? E->findChildByTag(dict.tag_id[tag]) : E->tagGet(dict.tag_id[tag]);
        uint64_t t1 = now();
        const std::vector<Link> &list = look(off).ch;
        for (auto &l : list) {
            int o = l.off;
            const Rec &r = o == -1 ? look(-1000000000 - off) : look(o);
            if (r.tag != tag) continue;
            if (f) { if (o != -1 && f->offset != o) bad("lookup", fmt("lookup of <%s> in +%d gives +%d instead of +%d", TAGS[tag].name, off, f->offset, o)); if (l.start > t1) bad("lookup", "lookup gives an element of the future"); }
            else if (l.end <= t0) bad("lookup", fmt("lookup of <%s> in +%d does not give +%d", TAGS[tag].name, off, o));
            return;
        }
        if (f) bad("lookup", fmt("lookup of <%s> in +%d gives +%d, there is none", TAGS[tag].name, off, f->offset));
    }
    BW_element *root() {
        uint64_t t0 = now();
        BW_element *E = (BW_element *)R->getRoot();
        uint64_t t1 = now();
        if (!E) { if (G->root_end <= t0) bad("root", "the root is lost"); return nullptr; }
        if (E->offset != G->root || G->root_start > t1) bad("root", fmt("root is +%d", E->offset));
        return E;
    }
    void full(BW_element *E, int parent, int depth, int how) {
        if (depth > 300) bad("endless", "the tree is endless");
        visit_self(E, parent);
        attrs(E, how & 1);
        for (int o : children(E, how % 3)) { known.push_back(o); full(R->BWE(o), E->offset, depth + 1, how); }
    }
    void op(const Op &o) {
        if (!R) return;
        BW_element *E = root();
        if (!E) return;
        walks++;
        if (o.name == "r.walk") { known.clear(); full(E, 0, 0, (int)o.arg(1)); return; }
        if (!known.empty() && o.arg(2) % 4) E = R->BWE(known[(size_t)o.arg(2) % known.size()]);
        if (o.name == "r.list") { for (int x : children(E, (int)((uint64_t)o.arg(1) % 3))) if (known.size() < 4000) known.push_back(x); }
        else if (o.name == "r.find") lookup(E, (int)((uint64_t)o.arg(1) % T_COUNT), (int)o.arg(3));
        else if (o.name == "r.attrs") { attrs(E, o.arg(1) & 1); }
        else if (o.name == "r.self") {
            int off = E->offset;
            if (G->recs.count(off)) visit_self(E, 0);
        }
    }
};

void run_readers(const Plan &p) {
    ProcResult r = run_process([&] {
        map_layout = (int)(p.seed % 3);
        G = new World;
        static const Op none{};
        int maxp = (int)p.c("maxpool", 0x200000);
        int nr = (int)p.c("readers", 2);
        if (nr < 1) nr = 1;
        if (nr > 4) nr = 4;
        BW_plugin *W = new BW_plugin("doc", nullptr, maxp, 0);
        if (!W->Initialize() || !register_all(*W, dict, NTAGS, NATTRS, nullptr, "readers")) fail("open-refused", "a new document cannot be made");
        std::vector<Task> tasks;
        std::vector<Reader *> readers;
        Writer *wr = new Writer{p, W, {}};
        auto open_reader = [&](Reader *rd) {
            rd->R = new BW_plugin("doc", nullptr, maxp, 0);
            if (!rd->R->Initialize()) fail("readers:open", "reader %d cannot open the document", rd->no);
        };
        tasks.push_back([&] { for (auto &o : p.ops) if (o.name[0] == 'w') { snprintf(shm->note, sizeof(shm->note), "writer %s", o.name.c_str()); op_begin(&o); wr->op(o); op_end(); event(0x77, hash_str(o.name)); } });
        for (int k = 0; k < nr; k++) {
            Reader *rd = new Reader{p, k};
            readers.push_back(rd);
            if (!(p.c("late") >> k & 1)) open_reader(rd);
            tasks.push_back([&, rd, k] {
                if (!rd->R) open_reader(rd);
                int n = 0;
                for (auto &o : p.ops) if (o.name[0] == 'r' && o.arg(0) % nr == k) { rd->op(o); n++; }
                event(0x4EAD, k, rd->walks);
            });
        }
        run_tasks(tasks, p.seed ^ 0xABCDEF, (int)p.c("rate", 10));
        count("task.switches", switches);
        count("reader.walks", readers[0]->walks);
        op_begin(&none);
        // no interleaving any more: the last walk must see everything
        for (auto *rd : readers) if (rd->R) for (int how = 0; how < 3; how++) { Op o; o.name = "r.walk"; o.a = {0, how}; rd->op(o); }
        for (auto &x : G->recs) state(mix(x.first, x.second.ch.size() * 64 + x.second.attrs.size()));
        state(shm->hash);
        for (auto *rd : readers) delete rd->R;
        delete W;
        if (open_fds() || open_maps() || bad_closes()) fail("close-leak", "after closing: %s", resources().c_str());
    });
    expect_clean(r, "readers");
}

Plan gen_readers(Rng &r, int tier) {
    Plan p;
    p.cfg["maxpool"] = r.chance(50) ? 0x40000 : 0x200000;
    p.cfg["readers"] = 1 + r.below(3);
    p.cfg["late"] = r.below(8);
    static const std::vector<int64_t> RATE = {1, 2, 3, 5, 8, 20, 60, 200};
    p.cfg["rate"] = r.pick(RATE);
    int n = 3 + r.below(tier ? 26 : 16);
    bool flat = r.chance(40), crash = r.chance(35);
    int at = r.below(n);
    for (int i = 0; i < n; i++) {
        Op o;
        int k = r.below(100);
        o.a = {flat ? (int64_t)r.below(3) : (int64_t)r.below(1000), (int64_t)r.below(64), (int64_t)r.below(1 << 24), r.chance(85) ? (int64_t)r.below(40) : (int64_t)r.below(6000), (int64_t)r.below(5), (int64_t)r.below(2)};
        o.name = i == 0 ? "w.root" : k < 50 ? "w.add" : k < 66 ? "w.attr" : k < 80 ? "w.put" : k < 90 ? "w.ring" : "w.set";
        if (crash && i == at) o.f.push_back({"crash", (int64_t)r.below(r.chance(70) ? 40 : 300), 0});
        p.ops.push_back(o);
    }
    int m = (int)p.cfg["readers"] * (2 + r.below(tier ? 16 : 10));
    for (int i = 0; i < m; i++) {
        Op o;
        int k = r.below(100);
        o.name = k < 40 ? "r.walk" : k < 65 ? "r.list" : k < 80 ? "r.find" : k < 92 ? "r.attrs" : "r.self";
        o.a = {(int64_t)r.below((uint32_t)p.cfg["readers"]), (int64_t)r.below(64), (int64_t)r.below(1000), (int64_t)r.below(2)};
        p.ops.push_back(o);
    }
    return p;
}
RegScenario s1("readers", gen_readers, run_readers);

} // namespace

// Scenario "many": one process works with many live documents at once (different dictionaries, sizes,
// addresses), opens and closes them in any order, some openings fail; every document keeps its own content.
#include <sys/stat.h>
#include "bw.hpp"
#include <unistd.h>
#include <errno.h>
#include <sys/mman.h>

using namespace sim;

namespace {

enum { ND = 32 };
struct Doc {
    BW_plugin *W = nullptr, *R = nullptr, *K = nullptr; // writer, possibly a second object that only reads, and a closed object kept for the next opening
    Dict d;
    Tree model;
    bool open = false;
    int ids_fixed = 0;
};

struct Exec {
    const Plan &p;
    std::vector<Doc> docs;
    Exec(const Plan &p) : p(p), docs(ND), dirs(p.c("dirs")) { if (dirs) for (const char *n : {"v1.2", "v1.d", "v1.d/x.y"}) ::mkdir(n, 0755); }

    bool dirs; // some of the documents are in directories
    std::string file(int k) const { return !dirs || k % 3 == 0 ? fmt("d%d", k) : k % 3 == 1 ? fmt("v1.2/d%d", k) : fmt("./v1.d/x.y/d%d", k); }
    int maxpool(int k) { static const int S[] = {0x10000, 0x18000, 0x40000, 0x100000, 0x400000}; uint64_t h = mix(p.seed, k * 7 + 1); return S[h % 5] + (h & 0x100 ? (int)(h >> 20) % 4096 : 0); }
    bool roomy(Doc &D, int64_t need) { BW_pool *P = D.W->getPool(); return (int64_t)P->allocator + need + 2 * 0x4000 + 8192 <= (int64_t)P->mmap_size; }
    bool numbered(int k) { return (mix(p.seed, k + 500) >> 20) % 3 == 0; }
    // every document registers its names in an order of its own
    bool dictionary(int k, Doc &D) {
        Rng r(mix(p.seed, k + 1000));
        std::vector<int> t, a;
        for (int i = 0; i < NTAGS; i++) t.insert(t.begin() + r.below((uint32_t)t.size() + 1), i);
        for (int i = 0; i < NATTRS; i++) a.insert(a.begin() + r.below((uint32_t)a.size() + 1), i);
        if (numbered(k)) { // by number
            bool known = D.ids_fixed, ok = true;
            for (int i = 0; i < NTAGS && ok; i++) { ok = D.W->registerTag((int16_t)i, TAGS[t[i]].name, TAGS[t[i]].type); if (ok) D.d.tag_id[t[i]] = i; }
            for (int i = 0; i < NATTRS && ok; i++) { ok = D.W->registerAttr((int16_t)i, ATTRS[a[i]].name, ATTRS[a[i]].type); if (ok) D.d.attr_id[a[i]] = i; }
            if (!ok || !D.W->allRegistered()) { if (!any_fault_fired()) fail("many:dictionary-refused", "document %d: its %s dictionary is refused", k, known ? "own" : "new"); return false; }
            D.ids_fixed = 1;
            return true;
        }
        for (int i : t) { int id = D.W->registerTag(TAGS[i].name, TAGS[i].type); if (id < 0) return false; if (D.ids_fixed && D.d.tag_id[i] != id) fail("many:id-moved", "document %d: tag %s has id %d and had %d", k, TAGS[i].name, id, D.d.tag_id[i]); D.d.tag_id[i] = id; }
        for (int i : a) { int id = D.W->registerParam(ATTRS[i].name, ATTRS[i].type); if (id < 0) return false; if (D.ids_fixed && D.d.attr_id[i] != id) fail("many:id-moved", "document %d: attribute %s has id %d and had %d", k, ATTRS[i].name, id, D.d.attr_id[i]); D.d.attr_id[i] = id; }
        if (!D.W->allRegistered()) return false;
        D.ids_fixed = 1;
        return true;
    }
    void check(int k, const char *where) {
        Doc &D = docs[k];
        for (BW_plugin *W : {D.W, D.R}) {
            if (!W) continue;
            Tree o = observe(*W, D.d, where);
            if (!(o == D.model)) fail(fmt("%s:state", where).c_str(), "document %d differs from its model: %s\nobserved:\n%s", k, first_diff(o, D.model).c_str(), show(o).substr(0, 800).c_str());
            for (int i = 0; i < NTAGS; i++) { const char *n = W->getPool()->getTagName(D.d.tag_id[i]); if (!n || strcmp(n, TAGS[i].name)) fail(fmt("%s:dictionary", where).c_str(), "document %d: tag %s is %s", k, TAGS[i].name, n ? n : "(null)"); }
            for (int i = 0; i < NATTRS; i++) { const char *n = W->getPool()->getAttrName(D.d.attr_id[i]); if (!n || strcmp(n, ATTRS[i].name)) fail(fmt("%s:dictionary", where).c_str(), "document %d: attribute %s is %s", k, ATTRS[i].name, n ? n : "(null)"); }
        }
    }
    void check_all(const char *where) { for (int k = 0; k < ND; k++) if (docs[k].W && docs[k].open) check(k, where); }
    int objects() { int n = 0; for (auto &D : docs) n += (D.W != nullptr) + (D.R != nullptr) + (D.K != nullptr); return n; }

    void run_op(const Op &o) {
        int k = (int)((uint64_t)o.arg(0) % ND);
        Doc &D = docs[k];
        uint64_t seed = (uint64_t)o.arg(2) * 2654435761u + 17;
        int size = (int)(o.arg(3) < 0 ? 0 : o.arg(3));
        if (o.name == "peek") { // opened and closed again before its dictionary was verified to the end; the object is kept
            if (D.W || D.K || !D.ids_fixed || objects() >= ND) return;
            D.K = new BW_plugin(file(k).c_str(), nullptr, maxpool(k), 0);
            if (!D.K->Initialize()) { if (!any_fault_fired()) fail("many:open-refused", "document %d cannot be opened (%s)", k, resources().c_str()); delete D.K; D.K = nullptr; return; }
            Rng r(seed);
            for (int i = r.below(NTAGS); i < NTAGS; i++) {
                if (numbered(k) ? !D.K->registerTag((int16_t)D.d.tag_id[i], TAGS[i].name, TAGS[i].type) : D.K->registerTag(TAGS[i].name, TAGS[i].type) != D.d.tag_id[i]) fail("many:id-moved", "document %d: tag %s has not the id %d", k, TAGS[i].name, D.d.tag_id[i]);
                if (numbered(k) && o.arg(5) % 4 == 0 && D.K->registerTag((int16_t)D.d.tag_id[i], "nowhere", TAGS[i].type)) fail("many:unknown-name", "document %d accepts a name it does not have", k);
            }
            D.K->Finalize();
            check_all("peek");
            return;
        }
        if (o.name == "open") {
            if (D.W) return;
            for (int i = 0; i < ND && !D.W; i++) { // a closed object is opened again, also for another document
                Doc &Q = docs[(k + i) % ND];
                if (!Q.K || (i && o.arg(5) % 3)) continue;
                D.W = Q.K; Q.K = nullptr;
                if (i) D.W->setFilename(file(k).c_str(), ".xbw");
            }
            if (!D.W && objects() >= ND) return;
            // the size asked for at the first opening counts, a later session may ask for another one
            if (!D.W) D.W = new BW_plugin(file(k).c_str(), nullptr, !D.ids_fixed || o.arg(4) % 4 ? maxpool(k) : maxpool((int)(o.arg(5) % ND)), 0);
            D.open = false;
            int tries = 0;
            while (!D.W->Initialize() || !dictionary(k, D)) {
                if (!any_fault_fired()) fail("many:open-refused", "document %d cannot be opened (%s)", k, resources().c_str());
                count("open.failed_by_fault");
                check_all("failed-open");
                if (numbered(k) && !D.ids_fixed) { delete D.W; D.W = nullptr; unlink((file(k) + ".xbw").c_str()); D.model = Tree(); return; } // half of a new dictionary
                if (o.arg(1) & 1) { delete D.W; D.W = nullptr; return; } // given up
                op_end();
                static const Op none{};
                op_begin(&none);
                if (++tries > 2) setup_failed("open");
            }
            D.open = true;
            check(k, "open");
            return;
        }
        if (o.name == "reader") {
            if (!D.W || D.R || objects() >= ND) return;
            D.R = new BW_plugin(file(k).c_str(), nullptr, maxpool(k), 0);
            if (!D.R->Initialize()) { if (!any_fault_fired()) fail("many:open-refused", "document %d cannot be opened a second time", k); delete D.R; D.R = nullptr; check_all("failed-open"); }
            return;
        }
        if (!D.W) return;
        if (o.name == "close") {
            if (o.arg(1) & 1) { delete D.W; D.W = nullptr; }
            else { D.W->Finalize(); if (o.arg(4) % 3 || D.K) delete D.W; else D.K = D.W; D.W = nullptr; }
            if (D.R) { delete D.R; D.R = nullptr; }
            check_all("close");
            return;
        }
        if (o.name == "check") { check(k, "check"); return; }
        if (o.name == "clear") {
            if (!D.W->Clear()) { if (roomy(D, 0x4000) && !any_fault_fired()) fail("many:clear", "document %d cannot be cleared", k); return; }
            D.model = Tree();
            return;
        }
        Path path;
        if (!D.model.has) {
            bool room = roomy(D, 100);
            BW_element *E = D.W->tag(D.d.tag_id[T_ROOT]);
            if (!E) { if (room && !any_fault_fired()) fail("refused:tag", "document %d: creation of the root failed", k); return; }
            D.W->setRoot(E);
            D.model.has = true; D.model.root = Node(); D.model.root.tag = T_ROOT; D.model.root.type = XBT_NULL;
        }
        int n = count_nodes(D.model);
        if (!nth_node(D.model, (int)((uint64_t)o.arg(1) % n), path) || path.size() > 40) return;
        BW_element *P = find(*D.W, path, "many");
        Node *mp = at(D.model, path);
        if (o.name == "add") {
            Node x; x.tag = 1 + (int)(seed >> 7) % (T_COUNT - 1); if (x.tag < 1) x.tag = 1; x.type = TAGS[x.tag].type; x.v = value_bytes((XML_Binary_Type)x.type, seed, size);
            bool room = roomy(D, 64 + 2 * size);
            BW_element *E = make_tag(*D.W, D.d, x.tag, x.v);
            if (!E) { if (room && !any_fault_fired()) fail("refused:tag", "document %d: creation of a <%s> failed", k, TAGS[x.tag].name); return; }
            P->add(E);
            mp->ch.push_back(x);
        } else if (o.name == "attr") {
            Attr a; a.id = (int)((seed >> 5) % NATTRS); a.type = ATTRS[a.id].type; a.v = value_bytes((XML_Binary_Type)a.type, seed, size);
            bool room = roomy(D, 64 + size);
            if (!make_attr(P, D.d, a.id, a.v)) { if (room && !any_fault_fired()) fail("refused:attr", "document %d: attribute %s failed", k, ATTRS[a.id].name); return; }
            mp->attrs.push_back(a);
        } else if (o.name == "remove") {
            if (path.empty()) return;
            Path pp(path.begin(), path.end() - 1);
            find(*D.W, pp, "many")->remove(P);
            Node *q = at(D.model, pp);
            q->ch.erase(q->ch.begin() + path.back());
        } else if (o.name == "copy") { // attributes and value of an element of another document
            int j = (int)((uint64_t)o.arg(4) % ND);
            Doc &S = docs[j];
            if (!S.W || !S.model.has) return;
            Path sp;
            if (!nth_node(S.model, (int)((uint64_t)o.arg(5) % count_nodes(S.model)), sp)) return;
            BW_element *X = find(*S.W, sp, "many");
            Node src = *at(S.model, sp);
            if (src.type != TAGS[src.tag].type) return;
            XML_Binary_Data_Ref ref = X->getData();
            bool room = roomy(D, 64 + 2 * src.v.size());
            BW_element *E = src.type == XBT_NULL ? D.W->tag(D.d.tag_id[src.tag]) : D.W->tagData(D.d.tag_id[src.tag], ref);
            if (!E) { if (room && !any_fault_fired()) fail("refused:tag", "document %d: copy of a <%s> from document %d failed", k, TAGS[src.tag].name, j); return; }
            Node x; x.tag = src.tag; x.type = src.type; x.v = src.v;
            for (auto &a : src.attrs) {
                BW_element *A = X->attrGet(S.d.attr_id[a.id]);
                if (!A) fail("many:copy", "attribute is lost");
                size_t first = 0; while (src.attrs[first].id != a.id) first++;
                XML_Binary_Data_Ref ar = A->getData();
                bool room2 = roomy(D, 64 + a.v.size());
                if (a.type == XBT_NULL) { if (!E->attrNull(D.d.attr_id[a.id])) { if (room2 && !any_fault_fired()) fail("refused:attr", "copy of an attribute failed"); continue; } }
                else if (!E->attrData(D.d.attr_id[a.id], ar)) { if (room2 && !any_fault_fired()) fail("refused:attr", "document %d: copy of attribute %s from document %d failed", k, ATTRS[a.id].name, j); continue; }
                Attr na = a; na.v = src.attrs[first].v;
                x.attrs.push_back(na);
            }
            P->add(E);
            mp->ch.push_back(x);
            check(j, "copy-source");
        }
        check(k, "edit");
    }
    void final() {
        check_all("final");
        for (int k = 0; k < ND; k++) { int i = (int)((k * 7 + p.seed) % ND); delete docs[i].W; docs[i].W = nullptr; delete docs[i].R; docs[i].R = nullptr; delete docs[i].K; docs[i].K = nullptr; check_all("close"); }
        if (open_fds() || open_maps() || bad_closes()) fail("close-leak", "after closing: %s", resources().c_str());
    }
};

struct Saved { uint32_t len; char data[4 << 20]; };

void run_many(const Plan &p) {
    Saved *S = (Saved *)mmap(nullptr, sizeof(Saved), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    ProcResult r = run_process([&] {
        map_layout = (int)p.c("layout") % 3;
        Exec e(p);
        for (size_t i = 0; i < p.ops.size(); i++) {
            snprintf(shm->note, sizeof(shm->note), "op %d %s", (int)i, p.ops[i].name.c_str());
            op_begin(&p.ops[i]);
            e.run_op(p.ops[i]);
            op_end();
            state(mix(hash_str(p.ops[i].name), tree_hash(e.docs[(uint64_t)p.ops[i].arg(0) % ND].model)));
        }
        e.final();
        std::string s;
        for (int k = 0; k < ND; k++) { std::string t = ser(e.docs[k].model); uint32_t n = e.docs[k].ids_fixed ? (uint32_t)t.size() : 0; s.append((char *)&n, 4); s.append(t.data(), n); s.append((char *)&e.docs[k].d, sizeof(Dict)); }
        if (s.size() > sizeof(S->data)) harness_error("models too big");
        memcpy(S->data, s.data(), s.size()); S->len = (uint32_t)s.size();
    });
    expect_clean(r, "documents");
    // another process opens all of them at once
    r = run_process([&] {
        map_layout = 1 + (int)p.c("layout") % 2;
        Exec e(p);
        const char *q = S->data;
        for (int k = 0; k < ND; k++) {
            uint32_t n; memcpy(&n, q, 4); q += 4;
            Doc &D = e.docs[k];
            if (n) D.model = deser(q, n);
            q += n;
            memcpy((void *)&D.d, q, sizeof(Dict)); q += sizeof(Dict);
            if (!n) continue;
            D.ids_fixed = 1;
            D.W = new BW_plugin(e.file(k).c_str(), nullptr, e.maxpool(k), 0);
            if (!D.W->Initialize() || (!e.dictionary(k, D) && e.roomy(D, 0x4000))) fail("many:open-refused", "document %d cannot be opened again", k);
            D.open = true;
        }
        e.final();
    });
    expect_clean(r, "documents-reopened");
}

Plan gen_many(Rng &r, int tier) {
    Plan p;
    p.cfg["layout"] = r.below(3);
    if (r.chance(25)) p.cfg["dirs"] = 1;
    int nd = r.chance(40) ? 2 + r.below(3) : r.chance(60) ? 3 + r.below(8) : ND;
    int n = 10 + r.below(tier ? 120 : 60);
    bool heavy = r.chance(35); // attributes grow the documents: their space is found through the registry of open documents
    for (int i = 0; i < n; i++) {
        Op o;
        int k = r.below(100);
        if (heavy && i > 3 && r.chance(50)) k = 70;
        o.name = k < 20 ? "open" : k < 22 ? "peek" : k < 30 ? "close" : k < 34 ? "reader" : k < 62 ? "add" : k < 78 ? "attr" : k < 82 ? "remove" : k < 94 ? "copy" : k < 96 ? "clear" : "check";
        if (i < 3) o.name = "open";
        o.a = {(int64_t)r.below(nd), (int64_t)r.below(1000), (int64_t)r.below(1 << 24), (int64_t)(r.chance(5) ? r.edge(9000) : heavy && k == 70 ? r.below(r.chance(80) ? 9000 : 40000) : r.chance(80) ? r.below(60) : r.below(6000)), (int64_t)r.below(nd), (int64_t)r.below(1000)};
        if ((o.name == "open" || o.name == "reader") && r.chance(15)) { static const std::vector<std::string> K = {"open", "fstat", "mmap", "ftruncate"}; o.f.push_back({r.pick(K), (int64_t)r.below(2), r.chance(50) ? EMFILE : EIO}); }
        else if ((o.name == "add" || o.name == "attr" || o.name == "copy") && r.chance(6)) o.f.push_back({"ftruncate", 0, ENOSPC});
        p.ops.push_back(o);
    }
    return p;
}
RegScenario s1("many", gen_many, run_many);

} // namespace

// Scenario family "doc": one live document edited through the API by a sequence of simulated
// processes, checked against an ordered-tree model; crashes, failing system calls, full disk, full pool.
#include "bw.hpp"
#include <unistd.h>
#include <errno.h>

using namespace sim;

namespace {

enum { M_VERIFY = 1, M_CLEAR = 2, M_FAULTS = 4 };

struct Exec {
    const Plan &p;
    DocShared *ds;
    BW_plugin *W = nullptr;
    Dict d;
    Tree model;
    int ntags, nattrs;
    bool faulty;
    const Op *cur = nullptr;
    int64_t base_used = -1;

    Exec(const Plan &p, DocShared *ds) : p(p), ds(ds) {
        ntags = (int)p.c("ntags", NTAGS);
        nattrs = (int)p.c("nattrs", NATTRS);
        if (ntags < 1) ntags = 1;
        if (ntags > NTAGS) ntags = NTAGS;
        if (nattrs < 0) nattrs = 0;
        if (nattrs > NATTRS) nattrs = NATTRS;
        faulty = p.c("faults") != 0;
    }

    void save_model() {
        std::string s = ser(model);
        if (s.size() > sizeof(ds->before)) harness_error("model too big");
        memcpy(ds->before, s.data(), s.size());
        ds->len_before = (uint32_t)s.size();
        ds->pending = 0;
    }
    // enough room for `need` more bytes under every reservation the API documents?
    bool roomy(int64_t need) {
        BW_pool *P = W->getPool();
        return (int64_t)P->allocator + need + 2 * 0x4000 + 8192 <= (int64_t)P->mmap_size;
    }
    void save_after(const Tree &after) {
        std::string s = ser(after);
        if (s.size() > sizeof(ds->after)) harness_error("model too big");
        memcpy(ds->after, s.data(), s.size());
        ds->len_after = (uint32_t)s.size();
    }
    bool step(const Tree &after, int loose, const Path &parent, int idx, int lo, int hi, int64_t need, const char *what, const std::function<bool()> &fn) {
        save_after(after);
        ds->loose = loose;
        ds->loose_path_len = (int)parent.size();
        for (size_t i = 0; i < parent.size() && i < 64; i++) ds->loose_path[i] = parent[i];
        ds->extra[0] = idx; ds->extra[1] = lo; ds->extra[2] = hi;
        ds->pending = 1;
        crash_rearm();
        bool room = roomy(need);
        bool ok = fn();
        if (!ok && room && !any_fault_fired()) fail(fmt("refused:%s", what).c_str(), "%s failed without any fault and with enough space (%s)", what, shm->note);
        if (!ok) count(room ? "op.failed_by_fault" : "op.failed_pool_full");
        if (ok) model = after;
        save_model();
        event_s(fmt("%s %d", what, ok));
        return ok;
    }

    // ------------------------------------------------------------ after a crash
    // a text rewritten in place (old a, new b) may be torn: byte by byte old or new; once the old terminator is overwritten and the new
    // one is not yet stored, whatever earlier and longer text left behind it inside the capacity of the element shows up too
    static bool mixture(const std::string &x, const std::string &a, const std::string &b) {
        for (size_t i = 0; i < x.size() && i < a.size(); i++)
            if (!(a[i] == x[i] || (i < b.size() && b[i] == x[i]))) return false;
        return true;
    }
    static bool equal_except(const Node &o, const Node &m, const int *path, int n, int idx, int lo, int hi, const Node *tnew) {
        if (!o.same_self(m)) return false;
        if (n > 0) {
            if (o.ch.size() != m.ch.size()) return false;
            for (size_t i = 0; i < o.ch.size(); i++) {
                if ((int)i == path[0]) { if (!equal_except(o.ch[i], m.ch[i], path + 1, n - 1, idx, lo, hi, tnew)) return false; }
                else if (o.ch[i] != m.ch[i]) return false;
            }
            return true;
        }
        if (idx < 0 || idx >= (int)m.ch.size()) return false;
        const Node &told = m.ch[idx];
        std::vector<const Node *> rest;
        for (size_t i = 0; i < m.ch.size(); i++) if ((int)i != idx) rest.push_back(&m.ch[i]);
        size_t r = 0;
        int extras = 0;
        for (auto &c : o.ch) {
            if (r < rest.size() && c == *rest[r]) { r++; continue; }
            const Node &nw = tnew ? *tnew : told;
            bool tag_ok = c.tag == told.tag || c.tag == nw.tag;
            bool val_ok = c.v == told.v || c.v == nw.v || mixture(c.v, told.v, nw.v);
            bool attrs_ok = c.attrs == told.attrs || c.attrs == nw.attrs || c.attrs.empty();
            bool ch_ok = c.ch == told.ch || c.ch == nw.ch || c.ch.empty();
            if (!tag_ok || !val_ok || !attrs_ok || !ch_ok) return false;
            extras++;
        }
        return r == rest.size() && extras >= lo && extras <= hi;
    }
    // what a crash may leave: the state before, the state after, or (in-place and multi-step edits) only the touched element differs
    bool allowed(const Tree &obs, std::string &why) {
        Tree before = deser(ds->before, ds->len_before);
        if (obs == before) { count(ds->pending ? "crash.old_state" : "reopen.same"); return true; }
        if (!ds->pending) { why = first_diff(obs, before); return false; }
        Tree after = deser(ds->after, ds->len_after);
        if (obs == after) { count("crash.new_state"); return true; }
        why = "neither the state before (" + first_diff(obs, before) + ") nor after (" + first_diff(obs, after) + ")";
        if (ds->loose == L_ATOMIC) return false;
        if (!obs.has || !before.has) return false;
        Path pp(ds->loose_path, ds->loose_path + ds->loose_path_len);
        Node *pa = at(after, pp);
        int idx = ds->extra[0];
        Node *pb = at(before, pp);
        std::vector<const Node *> touched{nullptr}; // the touched element in the new state: same index, or the last one
        if (pa && pb && pa->ch.size() == pb->ch.size() && idx < (int)pa->ch.size()) touched = {&pa->ch[idx], &pa->ch.back()};
        for (const Node *n : touched) if (equal_except(obs.root, before.root, pp.data(), (int)pp.size(), idx, ds->extra[1], ds->extra[2], n)) { count("crash.touched_only"); return true; }
        return false;
    }

    // ------------------------------------------------------------ open
    // returns false when the document could not be opened (only after an injected fault)
    bool open_doc(const Op *op, bool first) {
        static const Op none{};
        const Op *o = op ? op : &none;
        for (int attempt = 0; attempt < 2; attempt++) {
            snprintf(shm->note, sizeof(shm->note), "open");
            bool fresh_object = !W;
            int64_t maxp = first && ds->op_index == 0 ? p.c("maxpool", 0x100000) : p.c("maxpool2", p.c("maxpool", 0x100000));
            if (attempt == 0) op_begin(o); else op_begin(&none);
            const bool renew = o->arg(2) && attempt == 0; // everything old is to be forgotten
            if (fresh_object) {
                if (p.seed % 5 == 1) { W = new BW_plugin("doc", nullptr, 0x7000, o->arg(2) ? 0 : BIN_WRITE_CFG_ALWAYS_CREATE_NEW); if (!W->setMaxPoolSize((int)maxp)) fail("open-size", "the maximum size cannot be set before opening"); }
                else W = new BW_plugin("doc", nullptr, (int)maxp, o->arg(2) && p.seed % 5 == 2 ? BIN_WRITE_CFG_ALWAYS_CREATE_NEW : 0);
            }
            W->setFlags(renew ? BIN_WRITE_CFG_ALWAYS_CREATE_NEW : 0);
            if (renew) { save_after(Tree()); ds->loose = L_ATOMIC; ds->pending = 1; }
            bool ok = W->Initialize();
            if (ok && renew) {
                if (W->getRoot()) fail("renew-root", "a document created new has a root");
                if (!any_fault_fired() && W->getPool()->mmap_size != (uint32_t)maxp) fail("renew-size", "a document created new has maximum size %u and %lld was asked for", W->getPool()->mmap_size, (long long)maxp);
                if (W->setMaxPoolSize(0x7000)) fail("open-size", "the maximum size of an open document was changed");
                model = Tree(); save_model();
                count("open.renewed");
            }
            Dict nd, known;
            if (ok) {
                memcpy(known.tag_id, ds->tag_id, sizeof(ds->tag_id));
                memcpy(known.attr_id, ds->attr_id, sizeof(ds->attr_id));
                ok = register_all(*W, nd, ntags, nattrs, &known, "open");
            }
            bool ff = any_fault_fired();
            op_end();
            if (ok) {
                d = nd;
                memcpy(ds->tag_id, nd.tag_id, sizeof(ds->tag_id));
                memcpy(ds->attr_id, nd.attr_id, sizeof(ds->attr_id));
                break;
            }
            if (!ff) {
                bool room = W->getPool() && W->isInitialized() ? roomy(0x4000) : true;
                if (W->getPool() && W->isInitialized() && W->getPool()->tags.index && W->getPool()->params.index) { // nothing is missing in the dictionary
                    room = true;
                    for (int i = 0; i < ntags; i++) room &= known.tag_id[i] >= 0;
                    for (int i = 0; i < nattrs; i++) room &= known.attr_id[i] >= 0;
                    if (!room) room = roomy(0x4000);
                }
                if (room) fail("open-refused", "the document cannot be opened (%s), attempt %d", resources().c_str(), attempt);
                // a document filled to the last bytes: reading must still work
                count("open.pool_full");
                return false;
            }
            count("open.failed_by_fault");
            event(0x0BEF, attempt);
            if (o->arg(1) & 1) { delete W; W = nullptr; if (open_fds() || open_maps() || bad_closes()) fail("open-leak", "after a failed open: %s", resources().c_str()); }
            disk_free = -1;
        }
            Tree obs = observe(*W, d, "open");
        std::string why;
        if (!allowed(obs, why)) fail(ds->pending ? "crash-state" : "reopen-state", "after %s the document is %s\nobserved:\n%s", ds->pending ? "a crash" : "reopening", why.c_str(), show(obs).c_str());
        model = obs;
        save_model();
        return true;
    }
    void close_doc() {
        if (!W) return;
        delete W; // finalizes
        W = nullptr;
        if (open_fds() || open_maps() || bad_closes()) fail("close-leak", "after closing: %s", resources().c_str());
    }
    void verify(const char *where) {
        Tree obs = observe(*W, d, where);
        if (!(obs == model)) fail(fmt("%s:state", where).c_str(), "the document differs from the model: %s\nobserved:\n%sexpected:\n%s", first_diff(obs, model).c_str(), show(obs).substr(0, 900).c_str(), show(model).substr(0, 900).c_str());
    }

    // ------------------------------------------------------------ operations
    std::string val(int tag, uint64_t seed, int size) { return value_bytes(TAGS[tag].type, seed, size); }
    std::string aval(int a, uint64_t seed, int size) { return value_bytes(ATTRS[a].type, seed, size); }
    int tagno(int64_t v) { int t = (int)(v % ntags); return t < 0 ? -t : t; }
    bool pick(int64_t k, Path &path) { int n = count_nodes(model); if (!n) return false; return nth_node(model, (int)((k % n + n) % n), path); }

    void run_op(const Op &o) {
        cur = &o;
        uint64_t seed = (uint64_t)o.arg(2) * 2654435761u + 17;
        int size = (int)o.arg(3);
        if (size < 0) size = 0;
        Path path;
        if (o.name == "root" || (!model.has && o.name == "add")) {
            if (model.has) return;
            Tree a; a.has = true; a.root.tag = T_ROOT; a.root.type = XBT_NULL;
            BW_element *E = nullptr;
            bool room = roomy(64);
            E = W->tag(d.tag_id[T_ROOT]);
            if (!E) { if (room && !any_fault_fired()) fail("refused:tag", "creation of the root failed without any fault"); return; }
            step(a, L_ATOMIC, {}, 0, 0, 0, 0, "setRoot", [&] { W->setRoot(E); return true; });
        }
        else if (o.name == "add") {
            if (!pick(o.arg(0), path) || path.size() > 40) return;
            int tag = tagno(o.arg(1));
            if (tag == T_ROOT) tag = T_ITEM % ntags;
            Node n; n.tag = tag; n.type = TAGS[tag].type; n.v = val(tag, seed, size);
            int na = (int)o.arg(4) % 6;
            bool after = o.arg(5) & 1;
            const bool none = (seed & 0x1f000) == 0 && n.type != XBT_NULL; // made without value
            if (none) { n.type = XBT_NULL; n.v.clear(); }
            BW_element *P = find(*W, path, "add");
            bool room = roomy(24 + n.v.size() * 2 + 64);
            BW_element *E = none ? W->tag(d.tag_id[tag]) : make_tag(*W, d, tag, n.v);
            if (!E) { if (room && !any_fault_fired()) fail("refused:tag", "creation of a <%s> with %d bytes failed without any fault", TAGS[tag].name, (int)n.v.size()); count("op.failed"); return; }
            auto add_attrs = [&](bool linked) {
                Path np = path;
                if (linked) np.push_back((int)at(model, path)->ch.size() - 1);
                for (int i = 0; i < na && nattrs; i++) {
                    Attr a; a.id = (int)(((seed >> 3) + i * 5) % (uint64_t)nattrs); a.type = ATTRS[a.id].type; a.v = aval(a.id, seed + i, (int)((seed >> (8 + i)) % 60));
                    if (linked) {
                        Tree t = model; at(t, np)->attrs.push_back(a);
                        step(t, L_ATOMIC, {}, 0, 0, 0, 24 + a.v.size() + 64, "attr", [&] { return make_attr(E, d, a.id, a.v); });
                    } else {
                        bool r = roomy(24 + a.v.size() + 64);
                        if (make_attr(E, d, a.id, a.v)) n.attrs.push_back(a);
                        else if (r && !any_fault_fired()) fail("refused:attr", "attribute %s failed without any fault", ATTRS[a.id].name);
                    }
                }
            };
            if (!after) add_attrs(false);
            Tree t = model; at(t, path)->ch.push_back(n);
            step(t, L_ATOMIC, {}, 0, 0, 0, 0, "add", [&] { return P->add(E) == P; });
            if (after) add_attrs(true);
        }
        else if (o.name == "ring") { // several elements joined first and linked by one join
            if (!pick(o.arg(0), path) || path.size() > 40) return;
            int cnt = 1 + (int)(o.arg(1) & 3);
            BW_element *P = find(*W, path, "ring"), *first = nullptr;
            Tree t = model;
            for (int i = 0; i < cnt; i++) {
                int tag = tagno((int64_t)(seed >> (4 * i)) & 15);
                if (tag == T_ROOT) tag = 1 % ntags;
                Node n; n.tag = tag; n.type = TAGS[tag].type; n.v = val(tag, seed + i, size % 50);
                bool room = roomy(24 + n.v.size() * 2 + 64);
                BW_element *E = make_tag(*W, d, tag, n.v);
                if (!E) { if (room && !any_fault_fired()) fail("refused:tag", "creation of a <%s> failed without any fault", TAGS[tag].name); return; }
                if (first) first->join(E); else first = E;
                at(t, path)->ch.push_back(n);
            }
            step(t, L_ATOMIC, {}, 0, 0, 0, 0, "ring", [&] { return P->add(first) == P; });
        }
        else if (o.name == "attr") {
            if (!pick(o.arg(0), path) || !nattrs) return;
            Attr a; a.id = (int)(o.arg(1) % nattrs); a.type = ATTRS[a.id].type; a.v = aval(a.id, seed, size);
            const bool novalue = seed % 23 == 5; // attribute without value, as copied of a file
            if (novalue) { a.type = XBT_NULL; a.v.clear(); }
            BW_element *E = find(*W, path, "attr");
            if (at(model, path)->attrs.size() > 12) return;
            Tree t = model; at(t, path)->attrs.push_back(a);
            step(t, L_ATOMIC, {}, 0, 0, 0, 24 + a.v.size() + 64, "attr", [&] { return novalue ? make_null_attr(E, d, a.id) : make_attr(E, d, a.id, a.v); });
        }
        else if (o.name == "set") {
            if (!pick(o.arg(0), path) || path.size() > 40) return;
            static const int KIND[] = {T_I32, T_I64, T_TEXT, T_TIME, T_SHA, T_DECI};
            int tag = KIND[(size_t)o.arg(1) % 6];
            if (tag >= ntags) return;
            if (seed & 0x300) { // mostly where there is such an element
                std::vector<Path> c;
                int n = count_nodes(model);
                for (int i = 0; i < n; i++) { Path q; nth_node(model, i, q); if (q.size() > 40) continue; for (auto &ch : at(model, q)->ch) if (ch.tag == tag) { c.push_back(q); break; } }
                if (!c.empty()) path = c[(size_t)o.arg(0) % c.size()];
            }
            std::string v = val(tag, seed, size);
            BW_element *P = find(*W, path, "set");
            Node *mp = at(model, path);
            int idx = -1;
            for (size_t i = 0; i < mp->ch.size(); i++) if (mp->ch[i].tag == tag) { idx = (int)i; break; }
            Tree t = model;
            int mp_type = idx < 0 ? 0 : mp->ch[idx].type;
            if (idx < 0) { Node n; n.tag = tag; n.type = TAGS[tag].type; n.v = v; at(t, path)->ch.push_back(n); }
            else { Node &n = at(t, path)->ch[idx]; n.v = v; if (tag != T_TIME) n.type = TAGS[tag].type; }
            bool exact = idx < 0;
            bool none = (tag == T_TEXT && v.empty()) || (tag == T_SHA && (seed & 96) == 0); // no text, no digest
            if (tag == T_SHA && none) { v.assign(20, 0); at(t, path)->ch[idx < 0 ? at(t, path)->ch.size() - 1 : idx].v = v; }
            if (tag == T_SHA && idx >= 0 && mp_type != XBT_SHA1) { // no place for the digest: refused
                if (P->tagSetSHA1(d.tag_id[tag], (const uint8_t *)v.data()) != nullptr) fail("set:accepted", "a digest was stored into an element of type %d", mp_type);
                verify("set");
                return;
            }
            if (tag == T_TIME && idx >= 0 && !XBT_IS_4(mp_type)) at(t, path)->ch[idx].type = XBT_UNIX_TIME;
            step(t, exact ? L_ATOMIC : L_CHILD, path, idx, 1, 2, 24 + v.size() + 64, "set", [&] {
                BW_element *r = nullptr;
                int id = d.tag_id[tag];
                int32_t i32 = 0; int64_t i64 = 0;
                if (v.size() >= 4) memcpy(&i32, v.data(), 4);
                if (v.size() >= 8) memcpy(&i64, v.data(), 8);
                switch (tag) {
                    case T_I32: case T_DECI: r = P->tagSetInt32(id, i32); break;
                    case T_I64: r = P->tagSetInt64(id, i64); break;
                    case T_TEXT: { Exact x(v, XBT_STRING); r = P->tagSetString(id, none ? nullptr : x.p); break; }
                    case T_TIME: r = P->tagSetTime(id, (uint32_t)i32); break;
                    case T_SHA: { Exact x(v, XBT_SHA1); r = P->tagSetSHA1(id, none ? nullptr : (const uint8_t *)x.p); break; }
                }
                if (r && r != P->tagGet(id)) fail("set-return", "tagSet of <%s> returned an element that is not in the document", TAGS[tag].name);
                return r != nullptr;
            });
            if (idx >= 0 && (tag == T_I32 || tag == T_DECI) && mp_type != TAGS[tag].type) { // a retyped number: both the old and the declared type are fine
                Path q = path; q.push_back(idx);
                int ty = find(*W, q, "set")->value_type;
                if (ty == mp_type || ty == TAGS[tag].type) { at(model, q)->type = ty; save_model(); }
            }
        }
        else if (o.name == "setstr") {
            // the a0-th text element
            std::vector<Path> c;
            int n = count_nodes(model);
            for (int i = 1; i < n; i++) { Path q; nth_node(model, i, q); int ty = at(model, q)->type; if (ty == XBT_STRING || ty == XBT_BLOB_STRING) c.push_back(q); }
            if (c.empty()) return;
            path = c[(size_t)o.arg(0) % c.size()];
            Path pp(path.begin(), path.end() - 1);
            int idx = path.back();
            std::string v = rnd_text(seed, size);
            BW_element *P = find(*W, pp, "setstr"), *E = find(*W, path, "setstr");
            Tree t = model;
            Node moved = *at(t, path);
            if (moved.v == v) return;
            moved.v = v;
            Tree in_place = model; *at(in_place, path) = moved;
            Node *tp = at(t, pp);
            tp->ch.erase(tp->ch.begin() + idx); tp->ch.push_back(moved);
            // a longer text may move the element behind its siblings: which of the two happened is read back
            bool moves = false;
            step(in_place, L_CHILD, pp, idx, 0, 2, 24 + v.size() * 2 + 64, "setStr", [&] {
                { Exact x(v, XBT_STRING); E->setStr(W, P, v.empty() && (seed & 1) ? nullptr : x.p); }
                Tree obs = observe(*W, d, "setstr");
                if (obs == in_place) return true;
                if (obs == t) { moves = true; return true; }
                if (obs == model) return false;
                fail("setstr:state", "after setting a text: %s\nobserved:\n%s", first_diff(obs, in_place).c_str(), show(obs).c_str());
            });
            if (moves) { model = t; save_model(); count("text.moved"); }
        }
        else if (o.name == "put") { // direct store into a fixed size value
            std::vector<Path> c;
            int n = count_nodes(model);
            for (int i = 0; i < n; i++) { Path q; nth_node(model, i, q); int ty = at(model, q)->type; if (ty == XBT_INT32 || ty == XBT_INT64 || ty == XBT_FLOAT) c.push_back(q); }
            if (c.empty()) return;
            path = c[(size_t)o.arg(0) % c.size()];
            Node *m = at(model, path);
            if (TAGS[m->tag].type != m->type) return; // retyped
            std::string v = value_bytes((XML_Binary_Type)m->type, seed, 0);
            BW_element *E = find(*W, path, "put");
            void *dst = m->type == XBT_INT32 ? (void *)E->getInt32() : m->type == XBT_INT64 ? (void *)E->getInt64() : (void *)E->getFloat();
            if (!dst) fail("put:no-pointer", "the value of a <%s> is not accessible", TAGS[m->tag].name);
            if (memcmp(dst, m->v.data(), m->v.size())) fail("put:value", "the value read through the pointer differs");
            Tree t = model; at(t, path)->v = v;
            step(t, L_ATOMIC, {}, 0, 0, 0, 0, "put", [&] { memcpy(dst, v.data(), v.size()); return true; });
        }
        else if (o.name == "remove") {
            if (!pick(o.arg(0), path) || path.empty()) return;
            Path pp(path.begin(), path.end() - 1);
            BW_element *P = find(*W, pp, "remove"), *E = find(*W, path, "remove");
            Tree t = model; Node *mp = at(t, pp); mp->ch.erase(mp->ch.begin() + path.back());
            step(t, L_CHILD, pp, path.back(), 0, 1, 0, "remove", [&] { return P->remove(E) == P; });
        }
        else if (o.name == "replace") {
            if (!pick(o.arg(0), path) || path.empty()) return;
            Path pp(path.begin(), path.end() - 1);
            int tag = tagno(o.arg(1));
            if (tag == T_ROOT) tag = 1 % ntags;
            Node n; n.tag = tag; n.type = TAGS[tag].type; n.v = val(tag, seed, size);
            BW_element *P = find(*W, pp, "replace"), *E = find(*W, path, "replace");
            bool room = roomy(24 + n.v.size() * 2 + 64);
            BW_element *N = make_tag(*W, d, tag, n.v);
            if (!N) { if (room && !any_fault_fired()) fail("refused:tag", "creation of a <%s> failed without any fault", TAGS[tag].name); return; }
            Tree t = model; *at(t, path) = n;
            step(t, L_CHILD, pp, path.back(), 1, 2, 0, "replace", [&] { return P->replace(E, N) == P; });
        }
        else if (o.name == "retype") {
            std::vector<Path> c;
            int n = count_nodes(model);
            for (int i = 0; i < n; i++) { Path q; nth_node(model, i, q); if (at(model, q)->type != XBT_NULL || i % 5 == 0) c.push_back(q); }
            if (c.empty()) return;
            path = c[(size_t)o.arg(0) % c.size()];
            static const int T4[] = {XBT_INT32, XBT_UINT32, XBT_INT32_CENTI, XBT_UNIX_TIME, XBT_FLOAT, XBT_INT64, XBT_UINT64, XBT_UNIX_TIME64_MSEC, XBT_DOUBLE, XBT_BLOB, XBT_HEX, XBT_STRING, XBT_NULL, XBT_GUID};
            int ty = T4[(size_t)o.arg(1) % 14], was = at(model, path)->type;
            if (was == XBT_BLOB_STRING) return;
            BW_element *E = find(*W, path, "retype");
            Tree t = model;
            bool var = was == XBT_BLOB || was == XBT_HEX, tvar = ty == XBT_BLOB || ty == XBT_HEX;
            if (was == ty || (XBT_IS_4(ty) && XBT_IS_4(was)) || (XBT_IS_8(ty) && XBT_IS_8(was)) || (var && tvar)) {
                at(t, path)->type = ty;
                step(t, L_ATOMIC, {}, 0, 0, 0, 0, "retype", [&] { return E->retype((XML_Binary_Type)ty) == E; });
            } else {
                if (E->retype((XML_Binary_Type)ty) != nullptr) fail("retype:accepted", "a value of type %d was retyped to %d", was, ty);
                if (E->value_type != was) fail("retype:accepted", "a refused change of type %d to %d was made", was, ty);
            }
        }
        else if (o.name == "findtag") { // find or create
            if (!pick(o.arg(0), path) || path.size() > 40) return;
            int tag = seed & 1 ? tagno(o.arg(1)) : o.arg(1) & 1 ? T_ITEM : T_NODE; 
            if (tag >= ntags || tag == T_ROOT) return;
            BW_element *P = find(*W, path, "findtag");
            Node *mp = at(model, path);
            int idx = -1;
            for (size_t i = 0; i < mp->ch.size(); i++) if (mp->ch[i].tag == tag) { idx = (int)i; break; }
            Tree t = model;
            if (idx < 0 && TAGS[tag].type != XBT_NULL) {
                if (!(seed & 2)) { // only an element without value can be created this way
                    if (P->tag(d.tag_id[tag])) fail("findtag:accepted", "find-or-create of typed <%s> gives an element", TAGS[tag].name);
                    verify("findtag");
                    return;
                }
                bool room = roomy(64); // but it can be made by the document
                BW_element *E = W->tag(d.tag_id[tag]);
                if (!E) { if (room && !any_fault_fired()) fail("refused:tag", "creation of a <%s> without value failed without any fault", TAGS[tag].name); return; }
                Node n; n.tag = tag; n.type = XBT_NULL; at(t, path)->ch.push_back(n);
                step(t, L_ATOMIC, {}, 0, 0, 0, 0, "add", [&] { return P->add(E) == P; });
                return;
            }
            if (idx < 0) { Node n; n.tag = tag; n.type = XBT_NULL; at(t, path)->ch.push_back(n); }
            step(t, L_ATOMIC, {}, 0, 0, 0, 64, "findtag", [&] {
                BW_element *r = P->tag(d.tag_id[tag]);
                if (r && r != P->tagGet(d.tag_id[tag])) fail("findtag-return", "find-or-create returned an element that is not in the document");
                return r != nullptr;
            });
        }
        else if (o.name == "wrong") { // requests with a wrong type are refused and change nothing
            if (!pick(o.arg(0), path) || nattrs < 5 || ntags < 8) return;
            BW_element *E = find(*W, path, "wrong");
            BW_element *r = nullptr;
            // sizes of values which cannot be taken one for another
            auto kind = [](int t) { return XBT_IS_4(t) ? 4 : XBT_IS_8(t) ? 8 : t == XBT_BLOB_STRING ? (int)XBT_STRING + 100 : t + 100; };
            int what = (int)((uint64_t)o.arg(1) % 34), tried = -1;
            static const int AT[] = {XBT_NULL, XBT_STRING, XBT_STRING, XBT_BLOB, XBT_HEX, XBT_INT32, XBT_UINT32, XBT_INT64, XBT_UINT64, XBT_FLOAT, XBT_DOUBLE, XBT_GUID, XBT_SHA1, XBT_UNIX_TIME, XBT_UNIX_TIME64_MSEC};
            static const int TT[] = {XBT_STRING, XBT_BLOB, XBT_HEX, XBT_INT32, XBT_INT64, XBT_FLOAT, XBT_GUID, XBT_SHA1, XBT_UNIX_TIME, XBT_UNIX_TIME64_MSEC};
            static const int ST[] = {XBT_INT32, XBT_INT64, XBT_STRING, XBT_UNIX_TIME, XBT_SHA1};
            std::string bytes = rnd_bytes(seed, 32);
            Exact x(bytes, XBT_SHA1);
            Exact tx("text", XBT_STRING);
            if (what < 15) {
                int a = (int)((seed >> 5) % (uint64_t)nattrs), id = d.attr_id[a];
                if (kind(AT[what]) == kind(ATTRS[a].type)) return;
                switch (what) {
                    case 0: r = E->attrNull(id); break;
                    case 1: r = E->attrStr(id, tx.p); break;
                    case 2: r = E->attrStr2(id, tx.p, tx.p + 4); break;
                    case 3: r = E->attrBLOB(id, x.p, 20); break;
                    case 4: r = E->attrHEX(id, x.p, 20); break;
                    case 5: r = E->attrInt32(id, 7); break;
                    case 6: r = E->attrUInt32(id, 7); break;
                    case 7: r = E->attrInt64(id, 7); break;
                    case 8: r = E->attrUInt64(id, 7); break;
                    case 9: r = E->attrFloat(id, 7); break;
                    case 10: r = E->attrDouble(id, 7); break;
                    case 11: r = E->attrGUID(id, x.p); break;
                    case 12: r = E->attrSHA1(id, x.p); break;
                    case 13: r = E->attrTime(id, 7); break;
                    default: r = E->attrTime64(id, 7);
                }
                tried = ATTRS[a].type;
            } else if (what < 25) {
                int tag = (int)((seed >> 5) % (uint64_t)ntags), id = d.tag_id[tag];
                if (kind(TT[what - 15]) == kind(TAGS[tag].type)) return;
                switch (what - 15) {
                    case 0: r = W->tagStr(id, tx.p); break;
                    case 1: r = W->tagBLOB(id, x.p, 20); break;
                    case 2: r = W->tagHEX(id, x.p, 20); break;
                    case 3: r = W->tagInt32(id, 7); break;
                    case 4: r = W->tagInt64(id, 7); break;
                    case 5: r = W->tagFloat(id, 7); break;
                    case 6: r = W->tagGUID(id, (GUID_t *)x.p); break;
                    case 7: r = W->tagSHA1(id, (const uint8_t *)x.p); break;
                    case 8: r = W->tagTime(id, 7); break;
                    default: r = W->tagTime64(id, 7);
                }
                tried = TAGS[tag].type;
            } else if (what < 30) {
                int tag = (int)((seed >> 5) % (uint64_t)ntags), id = d.tag_id[tag];
                if (kind(ST[what - 25]) == kind(TAGS[tag].type)) return;
                bool there = false;
                for (auto &c : at(model, path)->ch) if (c.tag == tag) { there = c.type != TAGS[tag].type; break; }
                if (there) return; // retyped, or without value: it may fit
                switch (what - 25) {
                    case 0: r = E->tagSetInt32(id, 7); break;
                    case 1: r = E->tagSetInt64(id, 7); break;
                    case 2: r = E->tagSetString(id, tx.p); break;
                    case 3: r = E->tagSetTime(id, 7); break;
                    default: r = E->tagSetSHA1(id, (const uint8_t *)x.p);
                }
                tried = TAGS[tag].type;
            } else {
                switch (what - 30) {
                    case 0: r = W->tagInt32(d.tag_id[T_TEXT], 5); break;
                    case 1: r = E->attrStr(d.attr_id[A_ID], tx.p); break;
                    case 2: if (at(model, path)->attrs.empty() || at(model, path)->attrs[0].id != A_ID) { for (auto &q : at(model, path)->attrs) if (q.id == A_NAME) return; r = E->attrGet(d.attr_id[A_NAME]); } break;
                    default: r = E->attrInt32(d.attr_id[A_NAME], 1);
                }
            }
            if (r) fail("wrong-type-accepted", "a value of a wrong type was stored (case %d, type %d)", what, tried);
            count("op.wrong");
            verify("wrong");
        }
        else if (o.name == "loose") { // elements that are never linked into the document; needs no root
            int cnt = 1 + (int)((uint64_t)o.arg(4) % 12);
            BW_element *first = nullptr;
            for (int i = 0; i < cnt; i++) {
                int tag = tagno(o.arg(1) + i);
                std::string v = val(tag, seed + i, size);
                bool room = roomy(24 + v.size() * 2 + 64);
                BW_element *E = make_tag(*W, d, tag, v);
                if (!E) { if (room && !any_fault_fired()) fail("refused:tag", "creation of a <%s> with %d bytes failed without any fault", TAGS[tag].name, (int)v.size()); count("op.failed"); return; }
                if (!first) first = E;
                else if (seed & 8) first->join(E);
                else if (seed & 16) first->add(E);
            }
            count("op.loose");
        }
        else if (o.name == "clear") {
            // not crash protected: the model is empty afterwards, dictionary stays
            Tree t;
            bool ok = W->Clear();
            if (!ok) {
                if (!any_fault_fired() && roomy(0x4000)) fail("clear-failed", "Clear() failed without any fault");
                model = t; save_model(); return;
            }
            model = t; save_model();
            count("op.clear");
            if (W->getRoot()) fail("clear-root", "a root is left after Clear()");
            int64_t used = W->getPool()->allocator;
            if (base_used >= 0 && used > base_used && p.c("steady")) fail("clear-space", "used space after Clear() grows: %lld, was %lld", (long long)used, (long long)base_used);
            base_used = used;
            for (int i = 0; i < ntags; i++) { const char *n = W->getPool()->getTagName(d.tag_id[i]); if (!n || strcmp(n, TAGS[i].name) || W->getPool()->getTagType(d.tag_id[i]) != TAGS[i].type) fail("clear-dictionary", "tag %s is %s after Clear()", TAGS[i].name, n ? n : "(null)"); }
            for (int i = 0; i < nattrs; i++) { const char *n = W->getPool()->getAttrName(d.attr_id[i]); if (!n || strcmp(n, ATTRS[i].name) || W->getPool()->getAttrType(d.attr_id[i]) != ATTRS[i].type) fail("clear-dictionary", "attribute %s is %s after Clear()", ATTRS[i].name, n ? n : "(null)"); }
            event(0xC1EA, used);
        }
        else if (o.name == "check") verify("check");
        else if (o.name == "disk") { disk_free = o.arg(0); }
        state(mix(tree_hash(model), hash_str(o.name)));
    }

    // one simulated process: from op `i` until the next process boundary
    void process(int i, bool explicit_open) {
        const Op *op = explicit_open ? &p.ops[i] : nullptr;
        if (explicit_open) { ds->op_index = ++i; }
        map_layout = (int)(p.seed % 3);
        heap_fill_seed = p.seed;
        bool opened = open_doc(op, true);
        for (; i < (int)p.ops.size(); i++) {
            const Op &o = p.ops[i];
            ds->op_index = i + 1;
            if (o.name == "open") {
                if (o.arg(0) & 1) { ds->op_index = i; break; } // a new process
                close_doc();                                   // the same process opens again
                opened = open_doc(&o, false);
                continue;
            }
            if (!opened) continue;
            snprintf(shm->note, sizeof(shm->note), "op %d %s", i, o.name.c_str());
            op_begin(&o);
            run_op(o);
            op_end();
            if (p.c("verify") || any_fault_fired()) verify("edit");
            ds->op_index = i + 1;
        }
        disk_free = -1;
        if (opened) { verify("final"); if (p.c("verify") && faulty) { op_end(); } }
        close_doc();
    }
};

void run_doc(const Plan &p) {
    DocShared *ds = doc_shared();
    { Tree t; std::string s = ser(t); memcpy(ds->before, s.data(), s.size()); ds->len_before = (uint32_t)s.size(); }
    int guard = 0;
    int done = -1;
    while (++guard < 200) {
        int i = ds->op_index;
        bool ex = i < (int)p.ops.size() && p.ops[i].name == "open";
        ProcResult r = run_process([&] { Exec e(p, ds); e.process(i, ex); });
        expect_clean(r, "document", true);
        if (r.kind == EX_CRASH) { state(mix(0xC4, mix(ds->op_index, mix(ds->pending, ds->loose)))); continue; }
        if (ds->op_index >= (int)p.ops.size()) { done = 1; break; }
        if (ds->op_index == i && !ex) setup_failed("no progress at op %d", i);
    }
    if (done != 1) setup_failed("run does not end");
    // a last, undisturbed process must find everything
    ds->op_index = (int)p.ops.size();
    ProcResult r = run_process([&] { Exec e(p, ds); e.process((int)p.ops.size(), false); });
    expect_clean(r, "final-open");
}

//---------------------------------------------------------------- generators
int pick_size(Rng &r) { if (r.chance(6)) return r.edge(9000); if (r.below(400) == 0) return r.below(80000); int k = r.below(10); return k < 5 ? r.below(24) : k < 8 ? r.below(120) : k < 9 ? r.below(900) : r.below(5000); }

Op gen_edit(Rng &r, int flavour) {
    Op o;
    int k = r.below(100);
    auto fill = [&](const char *n, int a1) { o.name = n; o.a = {(int64_t)r.below(1000), a1, (int64_t)r.below(1 << 24), (int64_t)pick_size(r), (int64_t)r.below(6), (int64_t)r.below(2)}; };
    if (flavour == 1) { // appends only
        if (k < 65) fill("add", r.below(T_COUNT)); else if (k < 85) fill("attr", r.below(A_COUNT)); else if (k < 92) fill("put", 0); else fill("ring", r.below(4));
        return o;
    }
    if (k < 30) fill("add", r.below(T_COUNT));
    else if (k < 42) fill("attr", r.below(A_COUNT));
    else if (k < 54) fill("set", r.below(6));
    else if (k < 61) fill("setstr", 0);
    else if (k < 66) fill("put", 0);
    else if (k < 76) fill("remove", 0);
    else if (k < 84) fill("replace", r.below(T_COUNT));
    else if (k < 88) fill("retype", r.below(14));
    else if (k < 93) fill("findtag", r.below(T_COUNT));
    else if (k < 96) fill("ring", r.below(4));
    else if (k < 98) fill("loose", r.below(T_COUNT));
    else fill("wrong", r.below(34));
    return o;
}
int64_t crash_nth(Rng &r) { int k = r.below(10); return k < 5 ? r.below(30) : k < 8 ? r.below(110) : k < 9 ? r.below(500) : r.below(2500); }

// arg 1: the point counts from the linking step of the operation instead of from its beginning
Fault gen_crash_fault(Rng &r) { if (r.chance(50)) return {"crash", (int64_t)r.below(r.chance(80) ? 14 : 120), 1}; return {"crash", crash_nth(r), 0}; }

// maximum size: any number of bytes; later sessions may ask for another one (the stored one counts)
void set_pool(Rng &r, Plan &p, int64_t size) {
    if (r.chance(35)) size += r.below(4096);
    p.cfg["maxpool"] = size;
    if (r.chance(20)) p.cfg["maxpool2"] = r.chance(50) ? size * 2 : size > 0x10000 ? size / 2 + r.below(5000) : size + 8192;
}
Plan gen_crash(Rng &r, int tier) {
    Plan p;
    int flavour = r.below(3);
    set_pool(r, p, r.chance(50) ? 0x40000 : 0x200000);
    p.cfg["ntags"] = r.chance(70) ? NTAGS : 3 + r.below(NTAGS - 2);
    p.cfg["nattrs"] = r.chance(70) ? NATTRS : 1 + r.below(NATTRS);
    int n = 2 + r.below(tier ? 40 : 22);
    int crashes = 0, want = 1 + r.below(3);
    if (r.chance(25)) { Op o; o.name = "open"; o.a = {1, 0}; o.f.push_back({"crash", (int64_t)r.below(900), 0}); p.ops.push_back(o); crashes++; }
    for (int i = 0; i < n; i++) {
        Op o = i == 0 ? Op{"root"} : gen_edit(r, flavour);
        if (r.chance(5)) { o = Op(); o.name = "open"; o.a = {(int64_t)r.below(2), 0, r.chance(10)}; if (r.chance(40)) o.f.push_back({"crash", (int64_t)r.below(120), 0}); }
        else if (crashes < want && r.chance(100 * want / n + 4)) { o.f.push_back(gen_crash_fault(r)); crashes++; }
        p.ops.push_back(o);
        if (i && r.chance(3)) { // the file grows step by step, the writer dies around that and the next one repeats the step
            int steps = 3 + r.below(8), what = r.below(3);
            for (int k = 0; k < steps; k++) {
                Op g; g.name = what == 0 || (what == 2 && k % 2) ? "attr" : "add";
                g.a = {(int64_t)r.below(1000), (int64_t)r.below(g.name == "attr" ? A_COUNT : T_COUNT), (int64_t)r.below(1 << 24), (int64_t)(500 + r.below(r.chance(70) ? 6000 : 20000)), 0, 0};
                if (r.chance(60)) g.a[1] = g.name == "attr" ? A_NAME : T_TEXT;
                Op again = g;
                if (r.chance(50)) g.f.push_back({"crash", (int64_t)r.below(r.chance(80) ? 6 : 40), 2});
                p.ops.push_back(g);
                if (!g.f.empty()) p.ops.push_back(again);
            }
        }
    }
    return p;
}
Plan gen_edit_plan(Rng &r, int tier) {
    Plan p;
    set_pool(r, p, 0x400000);
    p.cfg["ntags"] = r.chance(80) ? NTAGS : 3 + r.below(NTAGS - 2);
    p.cfg["nattrs"] = r.chance(80) ? NATTRS : 1 + r.below(NATTRS);
    p.cfg["verify"] = 1;
    int n = 5 + r.below(tier ? 80 : 45);
    for (int i = 0; i < n; i++) {
        Op o = i == 0 ? Op{"root"} : gen_edit(r, r.chance(10));
        if (r.chance(6)) { o = Op(); o.name = "open"; o.a = {(int64_t)r.below(2), 0, r.chance(12)}; }
        p.ops.push_back(o);
    }
    return p;
}
Plan gen_space(Rng &r, int tier) {
    Plan p;
    static const std::vector<int64_t> POOLS = {0x8000, 0xA000, 0xC000, 0x10000, 0x20000, 0x100000};
    set_pool(r, p, r.pick(POOLS));
    p.cfg["ntags"] = NTAGS; p.cfg["nattrs"] = NATTRS;
    p.cfg["faults"] = 1;
    int n = 6 + r.below(tier ? 70 : 40);
    bool faults = r.chance(80);
    for (int i = 0; i < n; i++) {
        Op o = i == 0 ? Op{"root"} : gen_edit(r, r.chance(50));
        if (i && r.chance(30)) o.a[3] = r.below(9000);
        if (r.chance(7)) {
            o = Op(); o.name = "open"; o.a = {(int64_t)r.below(2), (int64_t)r.below(2), r.chance(10)};
            if (faults && r.chance(60)) {
                static const std::vector<std::string> K = {"open", "fstat", "mmap", "ftruncate", "close", "munmap"};
                o.f.push_back({r.pick(K), (int64_t)r.below(3), (int64_t)(r.chance(50) ? ENOSPC : EIO)});
            }
        } else if (faults && r.chance(8)) { o = Op(); o.name = "disk"; o.a = {r.chance(60) ? (int64_t)r.below(9000) : -1}; }
        else if (faults && i && r.chance(25)) o.f.push_back({"ftruncate", (int64_t)r.below(3), (int64_t)(r.chance(50) ? ENOSPC : EIO)});
        p.ops.push_back(o);
    }
    return p;
}
Plan gen_clear(Rng &r, int tier) {
    Plan p;
    set_pool(r, p, r.chance(50) ? 0x20000 : 0x100000);
    p.cfg["ntags"] = r.chance(60) ? NTAGS : 3 + r.below(NTAGS - 2);
    p.cfg["nattrs"] = r.chance(60) ? NATTRS : r.below(NATTRS);
    int cycles = 2 + r.below(tier ? 20 : 7);
    std::vector<Op> body;
    int n = 1 + r.below(14);
    body.push_back(Op{"root"});
    for (int i = 0; i < n; i++) body.push_back(gen_edit(r, r.chance(50)));
    bool same = r.chance(60);
    if (r.chance(25)) { // cycles in which the document may never get a root
        body.clear();
        for (int i = 0; i < n; i++) {
            Op o; o.name = "loose"; o.a = {(int64_t)r.below(1000), (int64_t)r.below(T_COUNT), (int64_t)r.below(1 << 24), (int64_t)pick_size(r), (int64_t)r.below(24), 0};
            body.push_back(o);
        }
        if (r.chance(30)) body.push_back(Op{"root"});
        same = true;
    }
    p.cfg["steady"] = 1;
    for (int c = 0; c < cycles; c++) {
        if (same) for (auto &o : body) p.ops.push_back(o);
        else { p.ops.push_back(Op{"root"}); for (int i = 0; i < n; i++) p.ops.push_back(gen_edit(r, 0)); }
        p.ops.push_back(Op{"check"});
        if (r.chance(15)) { Op o; o.name = "open"; o.a = {(int64_t)r.below(2), 0}; p.ops.push_back(o); }
        p.ops.push_back(Op{"clear"});
        if (r.chance(15)) { Op o; o.name = "open"; o.a = {(int64_t)r.below(2), 0}; p.ops.push_back(o); }
    }
    p.ops.push_back(Op{"root"}); p.ops.push_back(Op{"check"});
    return p;
}

RegScenario s1("crash", gen_crash, run_doc);
RegScenario s2("edit", gen_edit_plan, run_doc);
RegScenario s3("space", gen_space, run_doc);
RegScenario s4("clear", gen_clear, run_doc);

} // namespace

// Records written from a live document to the end of its binary file.
#include "xb.hpp"
#include <sys/mman.h>
#include <unistd.h>
#include <errno.h>

using namespace sim;
using namespace pklib_xml;

namespace {

const char *DST = "x.xb";
enum { CAP = 6 << 20 };
struct AS {            // shared with the session process, survives its death
    int base;          // 0 nothing usable is known, 1 base is stored, 2 base is being stored
    int done, flying;  // records known to be stored, records being stored
    int session_ok;
    int late;          // name "late" is in the dictionary
    uint32_t base_len, len; // serialized base, serialized records
    char buf[2 * CAP];
};

struct App {
    const Plan &p;
    AS *as;
    int max_pool;
    App(const Plan &p) : p(p) {
        as = (AS *)mmap(nullptr, sizeof(AS), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        max_pool = 0x1000000;
        file_mtime = 1600000000;
    }
    XN base() { const char *q = as->buf; return get_xn(q); }
    std::vector<XN> records(int n) {
        std::vector<XN> v; const char *q = as->buf + CAP;
        for (int i = 0; i < n; i++) v.push_back(get_xn(q));
        return v;
    }
    static int tail_count(XB_reader &R, int base_children) {
        XML_Item *X = R.getRoot();
        if (!X) return -1;
        int idx = 0, n = 0;
        while (X->getNextChild(R, idx)) if (++n > 1000000) fail("append:endless", "the list of children does not end");
        return n - base_children;
    }
    // what a reader that is already open shows: between lo and hi records
    int look(XB_reader &R, int lo, int hi, const char *what) {
        XN b = base();
        int n = tail_count(R, (int)b.ch.size());
        if (n < lo) fail("append:lost", "%s: %d records are stored, the reader shows %d", what, lo, n);
        if (n > hi) fail("append:extra", "%s: only %d records were written, the reader shows %d", what, hi, n);
        std::vector<XN> t = records(n);
        std::string m = match_xb(R, b, &t);
        if (!m.empty()) fail("append:content", "%s (%d records): %s", what, n, m.c_str());
        return n;
    }
    int fresh_look(int lo, int hi, bool may_refuse, const char *what) {
        int f = open_fds(), mp = open_maps(), n = -1;
        {
            char name[32]; strcpy(name, DST);
            XB_reader R(name);
            if (R.Initialize()) n = look(R, lo, hi, what);
            else if (!may_refuse) fail("append:refused", "%s: the file cannot be opened", what);
            R.Finalize();
        }
        if (!in_tasks() && (open_fds() != f || open_maps() != mp || bad_closes())) fail("append:leak", "reading left %s", resources().c_str());
        count("append.looks");
        return n;
    }
    void session(size_t &at);
};

struct Sess {
    App &A; AS *as;
    BW_plugin *W = nullptr;
    Dict d;
    Bin_xml_creator *C = nullptr;
    std::vector<std::pair<XB_reader *, int>> readers;
    bool ready = false;     // the creator has stored the base
    int late_id = -1;       // registered in this session
    bool late_known = false; // ... and in the file
    std::vector<BW_element *> written;
    Sess(App &A) : A(A), as(A.as) {}
    void close_readers() { for (auto &r : readers) { r.first->Finalize(); delete r.first; } readers.clear(); }
    bool open_w() {
        if (W) return true;
        W = new BW_plugin("s", nullptr, A.max_pool, 0);
        if (!W->Initialize() || !register_all(*W, d, T_COUNT, A_COUNT, nullptr, "source")) setup_failed("live document");
        return true;
    }
    // size of the shared serialized records
    void store_base(const XN &x) { std::string s; put_xn(s, x); if (s.size() > CAP) harness_error("base too large"); memcpy(as->buf, s.data(), s.size()); as->base_len = (uint32_t)s.size(); }
    bool store_record(const XN &x) { std::string s; put_xn(s, x); if (as->len + s.size() > CAP) return false; memcpy(as->buf + CAP + as->len, s.data(), s.size()); as->len += (uint32_t)s.size(); return true; }

    void op_base(const Op &o, size_t i) {
        open_w();
        close_readers();
        if ((!o.arg(6) || W->getPool()->root || (int)W->getPool()->allocator > 0x400000) && !W->Clear()) fail("append:clear", "clearing failed"); // the dictionary may lie behind older elements
        delete C; C = nullptr;
        XN x = build_live(*W, d, (uint64_t)o.arg(0), (int)o.arg(1), (int)o.arg(2), true);
        as->base = 2; as->done = as->flying = 0; as->len = 0; late_known = as->late; ::unlink(DST);
        store_base(x);
        if (o.arg(3)) C = new Bin_xml_packer(W, DST); else C = new Bin_xml_creator(W, DST);
        snprintf(shm->note, sizeof(shm->note), "op %d base", (int)i);
        short_io = o.arg(4); io_seed = o.arg(0);
        op_begin(&o);
        disk_free = o.arg(5, -1);
        bool r = C->DoAll();
        bool any = any_fault_fired();
        op_end();
        short_io = 0; disk_free = -1;
        if (!r && !any) fail("append:base-refused", "the document cannot be converted");
        as->base = r ? 1 : 2; ready = r;
        count(r ? "append.base" : "append.base_failed");
        A.fresh_look(0, 0, !r, "after converting");
    }
    void op_write(const Op &o, size_t i) {
        open_w();
        if (!C) { // a creator that has not converted anything
            C = new Bin_xml_creator(W, DST);
        }
        int k = 1 + (int)((uint64_t)o.arg(1) % 12);
        Rng r((uint64_t)o.arg(0));
        BW_element *ring = nullptr;
        std::vector<BW_element *> els;
        uint32_t len0 = as->len;
        bool unknown = false;
        for (int j = 0; j < k; j++) {
            XN x; int n = 1 + (int)(r.chance(60) ? 0 : r.below(1 + (uint32_t)o.arg(2)));
            if ((int)W->getPool()->allocator > A.max_pool - 0x200000) break;
            BW_element *E = build_record(*W, d, r, n, (int)o.arg(3), 0, x);
            if (!E) setup_failed("record");
            if (late_id >= 0 && o.arg(6) && j == k / 2 && n < 1000) { BW_element *L = W->tagInt32((tag_name_id_t)late_id, 7); if (!L) setup_failed("late"); E->add(L); unknown = !late_known; XN y; y.name = "late"; y.type = XBT_INT32; int32_t v = 7; y.v = std::string((char *)&v, 4); x.ch.push_back(y); }
            if (!store_record(x)) { as->len = len0; return; }
            els.push_back(E);
            ring = ring ? ring->join(E) : E;
        }
        if (els.empty()) return;
        k = (int)els.size();
        as->flying = k;
        snprintf(shm->note, sizeof(shm->note), "op %d write", (int)i);
        bool res = false, any = false, full = false;
        int before = as->done;
        auto flagged = [&] { int n = 0; while (n < k && (els[n]->flags & BIN_WRITTEN)) n++; return n; };
        auto write = [&] {
            short_io = o.arg(4); io_seed = o.arg(0);
            op_begin(&o);
            disk_free = o.arg(5, -1);
            res = W->Write(ring);
            any = any_fault_fired(); full = fault_fired("disk_full") || fault_fired("write");
            op_end();
            short_io = 0; disk_free = -1;
        };
        if (o.arg(7) && ready) { // somebody reads meanwhile
            bool end = false;
            std::vector<Task> t;
            t.push_back([&] { write(); end = true; });
            t.push_back([&] {
                for (int l = 0; l < 400; l++) {
                    bool last = end;
                    int lo = before + flagged();
                    A.fresh_look(lo, before + k, false, "while records are being written");
                    if (last) break;
                }
            });
            run_tasks(t, A.p.seed ^ (uint64_t)o.arg(0), 1 + (int)(o.arg(0) % 7));
            count("append.followed");
        } else write();
        (void)full;
        int n = flagged();
        for (int j = n; j < k; j++) if (els[j]->flags & BIN_WRITTEN) fail("append:flags", "record %d is marked as written, record %d is not", j, n);
        as->done = before + n; as->flying = 0;
        if (res && n != k) fail("append:flags", "all %d records are written, %d are marked", k, n);
        if (!res && n == k) fail("append:flags", "writing failed but all records are marked as written");
        if (!res && ready && !any && !(unknown)) fail("append:refused-write", "records cannot be written");
        if (res && !ready) fail("append:unready", "records were written to a file this creator has not made");
        if (res && unknown && ready) { // the name is not in the file
            fail("append:unknown-name", "a record with a name that is not in the file was written");
        }
        count(res ? "append.written" : "append.write_failed", 1); count("append.records", n);
        // forget what was not stored
        { const char *q = as->buf + CAP; for (int j = 0; j < as->done; j++) get_xn(q); as->len = (uint32_t)(q - (as->buf + CAP)); }
        if (as->base == 1) A.fresh_look(as->done, as->done, false, res ? "after writing records" : "after a failed write of records");
        for (auto &rd : readers) A.look(*rd.first, rd.second, rd.second, "a reader opened before");
        written = els;
        state(mix(mix(res, (uint64_t)n), as->done));
        event(0xA9, res, n);
    }
    void op(const Op &o, size_t i) {
        if (o.name == "base") op_base(o, i);
        else if (o.name == "write") op_write(o, i);
        else if (o.name == "clear") { open_w(); if (!W->Clear()) fail("append:clear", "clearing failed"); count("append.clear"); }
        else if (o.name == "late") { // a name registered after the file was made
            open_w();
            if (late_id < 0) { as->late = 1; late_id = W->registerTag("late", XBT_INT32); if (late_id < 0 || !W->allRegistered()) fail("append:late", "a name cannot be registered"); count("append.late"); }
        }
        else if (o.name == "open" && as->base == 1) {
            char name[32]; strcpy(name, DST);
            XB_reader *R = new XB_reader(name);
            if (!R->Initialize()) fail("append:refused", "the file cannot be opened");
            readers.push_back({R, as->done});
        }
        else if (o.name == "close" && !readers.empty()) { auto r = readers[(size_t)o.arg(0) % readers.size()]; r.first->Finalize(); delete r.first; readers.erase(readers.begin() + (long)((size_t)o.arg(0) % readers.size())); }
        for (auto &rd : readers) A.look(*rd.first, rd.second, rd.second, "a reader opened before");
    }
};

void App::session(size_t &at) {
    size_t end = at;
    bool crash = false;
    while (end < p.ops.size() && p.ops[end].name != "restart") { for (auto &f : p.ops[end].f) crash |= f.kind == "crash"; end++; }
    as->session_ok = -1;
    int *pos = &as->session_ok;
    ProcResult r = run_process([&] {
        Sess S(*this);
        for (size_t i = at; i < end; i++) { *pos = (int)i; S.op(p.ops[i], i); }
        S.close_readers();
        delete S.C;
        delete S.W;
        if (open_fds() || open_maps() || bad_closes()) fail("append:leak", "after the session: %s", resources().c_str());
    });
    expect_clean(r, "session", crash);
    if (r.kind == EX_CRASH) { end = (size_t)*pos + 1; count("append.crashed"); }
    else end++;
    at = end;
    ProcResult q = run_process([&] {
        if (as->base == 0) return;
        int n = fresh_look(as->done, as->done + as->flying, as->base == 2, "in a new process");
        if (as->base == 2 && n >= 0) as->base = 1;
        if (n >= 0) as->done = n;
        as->flying = 0;
    });
    expect_clean(q, "reader");
    { const char *s = as->buf + CAP; for (int j = 0; j < as->done; j++) get_xn(s); as->len = (uint32_t)(s - (as->buf + CAP)); }
    state(mix(r.kind, as->done));
}

void run_append(const Plan &p) {
    App a(p);
    for (size_t at = 0; at < p.ops.size();) a.session(at);
}

Plan gen_append(Rng &r, int tier) {
    Plan p;
    p.cfg["late"] = 0;
    int n = 3 + r.below(tier ? 30 : 16);
    auto io = [&](Op &o, int pct) { // partial transfers and faults
        if (r.chance(25)) o.a[4] = 1 + r.below(r.chance(50) ? 40 : 3000);
        if (!r.chance((uint32_t)pct)) return;
        int k = r.below(100);
        if (k < 30) o.a[5] = r.chance(60) ? r.below(300) : r.below(6000);
        else if (k < 60) o.f.push_back({"crash", (int64_t)(r.chance(60) ? r.below(10) : r.below(80)), 0});
        else {
            static const std::vector<std::string> K = {"open", "creat", "fstat", "write", "write", "write", "close"};
            std::string kind = r.pick(K);
            int64_t arg = kind == "write" ? (r.chance(50) ? (int64_t)r.below(200) : r.chance(30) ? -EINTR : -ENOSPC) : r.chance(50) ? EIO : EMFILE;
            o.f.push_back({kind, (int64_t)r.below(r.chance(60) ? 2 : 8), arg});
        }
    };
    bool base = false;
    for (int i = 0; i < n; i++) {
        Op o;
        int k = r.below(100);
        if ((!base && !r.chance(20)) || k < 8) {
            o.name = "base"; o.a = {(int64_t)r.below(1 << 24), 1 + (int64_t)r.below(r.chance(70) ? 6 : 60), (int64_t)r.below(r.chance(80) ? 60 : 3000), r.chance(40), 0, -1, r.chance(50)};
            io(o, 25); base = true;
        } else if (k < 60) {
            o.name = "write"; o.a = {(int64_t)r.below(1 << 24), (int64_t)r.below(12), r.chance(70) ? (int64_t)r.below(8) : (int64_t)r.below(80), (int64_t)(r.chance(80) ? r.below(60) : r.chance(30) ? r.edge(70000) : r.below(5000)), 0, -1, r.chance(50), r.chance(25)};
            io(o, 40);
            if (o.a[7]) { o.a[5] = -1; o.f.clear(); }
        } else if (k < 78) o.name = "clear";
        else if (k < 84) o.name = "open";
        else if (k < 88) { o.name = "close"; o.a = {(int64_t)r.below(8)}; }
        else if (k < 94) o.name = "late";
        else { o.name = "restart"; base = false; }
        p.ops.push_back(o);
    }
    return p;
}
RegScenario sc1("append", gen_append, run_append);

} // namespace

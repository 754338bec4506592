// Many conversions and openings in one process: what they take they give back (convres),
// and what they produce depends on the source only (convdet).
#include "xb.hpp"
#include <sstream>
#include <unistd.h>
#include <errno.h>
#include <sys/mman.h>

using namespace sim;
using namespace pklib_xml;

namespace {

enum { V_VALID, V_CUT, V_MISSING, V_EMPTY, V_MANGLED };
enum { A_PACK, A_PLAIN, A_OBJ, A_GETXB, A_AUTO, A_XBW, A_DIRECT, A_OPEN, A_RENDER, A_COPY, A_COUNT_ };
const char *ANAME[] = {"pack", "plain", "object", "getxb", "auto", "xbw", "direct", "open", "render", "copy"};

struct Slot { int kind = -1, variant = V_MISSING; int version = 0; uint64_t seed = 0; };
std::string src_of(int s, int kind) { return fmt("s%d.%s", s, kind == SRC_BW ? "xbw" : kind == SRC_XML ? "xml" : "json"); }

struct Rep {
    const Plan &p;
    bool det;
    Slot slots[3];
    int version = 0;
    std::map<std::string, std::string> made; // what was done -> bytes of the result
    Rep(const Plan &p, bool det) : p(p), det(det) { file_mtime = 1500000000; }

    void src(const Op &o) {
        int s = (int)((uint64_t)o.arg(0) % 3);
        Slot &S = slots[s];
        if (S.kind >= 0) ::unlink(src_of(s, S.kind).c_str());
        S.kind = (int)((uint64_t)o.arg(1) % 3); S.variant = (int)((uint64_t)o.arg(5) % 5); S.version = ++version; S.seed = (uint64_t)o.arg(2);
        std::string name = src_of(s, S.kind);
        ::unlink(name.c_str());
        if (S.kind == SRC_BW) {
            S.variant = V_VALID;
            ProcResult r = run_process([&] {
                BW_plugin W(name.c_str(), nullptr, 0x400000, 0);
                Dict d;
                if (!W.Initialize() || !register_all(W, d, T_COUNT, A_COUNT, nullptr, "source")) setup_failed("source document");
                build_live(W, d, S.seed, (int)o.arg(3), (int)o.arg(4), true);
            });
            expect_clean(r, "source");
            return;
        }
        if (S.variant == V_MISSING) return;
        XN x;
        SrcCfg cfg{S.kind, (uint64_t)o.arg(2) % 97, o.arg(2) % 5 == 0, o.arg(2) % 11 == 0};
        std::string t = make_text(cfg, S.seed, (int)o.arg(3), (int)o.arg(4), x);
        Rng r(S.seed ^ 0x99);
        if (S.variant == V_CUT) t.resize(r.below((uint32_t)t.size() + 1));
        else if (S.variant == V_EMPTY) t.clear();
        else if (S.variant == V_MANGLED) for (int i = 0; i < 3; i++) { size_t at = r.below((uint32_t)t.size() + 1); if (r.chance(50)) t.insert(at, 1, "{}[]\",:<>/&"[r.below(11)]); else if (at < t.size()) t.erase(at, 1); }
        put_file(name.c_str(), t);
    }
    // result: 0 failed, 1 done; out = bytes of what was made
    int act(int s, int api, std::string &out) {
        Slot &S = slots[s];
        std::string name = src_of(s, S.kind);
        std::string dst = fmt("d%d%s.xb", s, ANAME[api]);
        bool ok = false;
        if (api == A_COPY) { // the converted tree into a live document
            char dn[64]; strcpy(dn, fmt("d%dpack.xb", s).c_str());
            XB_reader R(dn);
            if (!R.Initialize()) { R.Finalize(); return 0; }
            dst = fmt("d%dcopy.xbw", s);
            ::unlink(dst.c_str());
            {
                BW_plugin T(dst.c_str(), nullptr, 0x800000, 0);
                if (T.Initialize()) {
                    T.importTags(&R); T.importParams(&R);
                    XML_Item *X = R.getRoot();
                    if (T.allRegistered() && X) {
                        XML_Binary_Data_Ref ref = X->getData(); BW_element *E = T.tagData(X->name, ref);
                        if (E) { T.setRoot(E); ok = T.CopyAll(E, R, X) == E; }
                    }
                }
            }
            R.Finalize();
            if (ok && det) { op_end(); out = slurp(dst.c_str()); }
            return ok;
        }
        if (S.kind == SRC_BW) {
            BW_plugin W(name.c_str(), nullptr, 0x400000, 0);
            if (!W.Initialize()) return 0;
            if (api == A_RENDER) { std::ostringstream os; if (W.getRoot()) os << W; out = os.str(); return 1; }
            if (api == A_OPEN) { walk_live(W); return 1; }
            if (api == A_PACK) ok = Bin_xml_packer::Convert(&W, dst.c_str());
            else if (api == A_OBJ) ok = Bin_xml_packer::Convert(name.c_str(), dst.c_str());
            else { Bin_xml_creator C(&W, dst.c_str()); ok = C.DoAll(); }
        } else {
            char n[64], res[64]; strcpy(n, name.c_str());
            switch (api) {
                case A_PACK: ok = Bin_xml_packer::Convert(n, dst.c_str()); break;
                case A_PLAIN: ok = Bin_xml_creator::Convert(n, dst.c_str()); break;
                case A_OBJ: { Bin_xml_packer P(n, dst.c_str()); ok = P.DoAll(); break; }
                case A_GETXB: if (S.kind == SRC_JSON) { // sources of other kinds are refused with a reason
                        for (const char *w : {(const char *)n, "s.txt", "noext", "s.xb", "x.d/none"}) {
                            const char *e = nullptr;
                            if (Bin_xml_packer::GetXB(w, res, &e) || !e || !*e) fail("rep:wrong-kind", "GetXB of %s %s", w, e ? "succeeds" : "gives no reason");
                        }
                        if (Bin_xml_packer::Convert("s.txt", "wrong.xb") || Bin_xml_creator::Convert("noext", "wrong.xb")) fail("rep:wrong-kind", "a source of unknown kind is converted");
                        if (real_size("wrong.xb") >= 0) fail("rep:wrong-kind", "a refused conversion left a file");
                        return 0;
                    }
                    if (S.kind == SRC_XML) { const char *e = nullptr; ok = Bin_xml_packer::GetXB(n, res, &e); dst = fmt("s%d.xb", s); } break;
                case A_AUTO: { // the name is known at once or later
                    bool later = p.c("fin") && (s & 1);
                    XB_reader R(later ? nullptr : n);
                    if (later && !R.setFilename(n)) fail("rep:name", "a reader without a name does not take one");
                    char no[] = "no.xb";
                    if (R.setFilename(no)) fail("rep:name", "the name of a reader was replaced");
                    ok = R.Initialize(); if (ok) { std::string m = walk_xb(R); if (!m.empty() && S.variant == V_VALID) fail("rep:content", "%s", m.c_str()); } if (p.c("fin")) R.Finalize(); dst = fmt("s%d.xb", s); break; }
                case A_XBW: if (S.kind == SRC_XML) { dst = fmt("d%dx.xbw", s); Bin_xml_creator C(n, dst.c_str(), XBTARGET_XBW); ok = C.DoAll(); } break;
                case A_DIRECT: case A_OPEN: { // the source plugins themselves
                    Bin_src_plugin *P = S.kind == SRC_XML ? (Bin_src_plugin *)new Bin_xml_plugin(api == A_OPEN ? "none.xml" : n, nullptr) : (Bin_src_plugin *)new Bin_json_plugin(api == A_OPEN ? "none.json" : n, nullptr);
                    if (api == A_OPEN) P->setFilenameFmt("s%d%s", s, strrchr(n, '.'));
                    ok = P->Initialize();
                    if (ok) P->getRoot();
                    delete P;
                    dst.clear();
                    break;
                }
                case A_RENDER: { dst = fmt("d%dpack.xb", s); char dn[64]; strcpy(dn, dst.c_str()); XB_reader R(dn); ok = R.Initialize(); std::ostringstream os; if (ok) os << R; out = os.str(); R.Finalize(); return ok; }
                default: break;
            }
        }
        if (ok && !dst.empty() && det) { op_end(); out = slurp(dst.c_str()); }
        return ok;
    }
    static void walk_live(BW_plugin &W) {
        BW_element *R = W.BWE(W.getPool()->root);
        int budget = 200000;
        std::function<void(BW_element *)> w = [&](BW_element *E) {
            if (--budget < 0) fail("rep:content", "endless document");
            BW_offset_t at = 0; int guard = 0;
            while (BW_element *C = E->NextChild(at)) { if (++guard > 100000) break; w(C); }
        };
        if (R) w(R);
    }
    void conv(const Op &o, size_t index) {
        int s = (int)((uint64_t)o.arg(0) % 3), api = (int)((uint64_t)o.arg(1) % A_COUNT_);
        Slot &S = slots[s];
        if (S.kind < 0) return;
        bool faults = !o.f.empty() || o.arg(4, -1) >= 0;
        int times = det ? 1 : 3;
        int64_t heap[4] = {}, xheap[4] = {};
        for (int k = 0; k < times; k++) {
            heap_fill_seed = (uint64_t)o.arg(2) + 1 + (uint64_t)k * 7;
            map_layout = (int)((uint64_t)o.arg(2) % 3);
            clock_ns = 1700000000000000000ll + o.arg(2) * 86400000000007ll;
            short_io = o.arg(3); io_seed = o.arg(2);
            snprintf(shm->note, sizeof(shm->note), "op %d %s kind %d", (int)index, ANAME[api], S.kind);
            std::string out;
            op_begin(&o);
            disk_free = o.arg(4, -1);
            int r = act(s, api, out);
            bool any = any_fault_fired();
            op_end();
            disk_free = -1; short_io = 0;
            XBT_Free();
            count(r ? "rep.done" : any ? "rep.failed_by_fault" : "rep.refused");
            if (!det) {
                if (open_fds() || open_maps() || open_files() || open_dirs() || bad_closes()) fail("res:held", "%s of %s source (%s) left %s", ANAME[api], S.kind == SRC_BW ? "live" : S.kind == SRC_XML ? "xml" : "json", r ? "done" : "failed", resources().c_str());
                heap[k] = heap_live(); xheap[k] = xml_heap_live();
                if (k == 2 && heap[2] != heap[1]) fail("res:heap", "each %s of %s source (%s) keeps %lld memory blocks", ANAME[api], S.kind == SRC_BW ? "live" : S.kind == SRC_XML ? "xml" : "json", r ? "done" : "failed", (long long)(heap[2] - heap[1]));
                if (k == 2 && xheap[2] != xheap[1]) fail("res:xml-heap", "each %s (%s) keeps %lld blocks of libxml2", ANAME[api], r ? "done" : "failed", (long long)(xheap[2] - xheap[1]));
            } else if (!any) {
                if (S.variant == V_VALID && !r && supported(S.kind, api)) fail("det:refused", "%s of a valid source failed", ANAME[api]);
                if (r) {
                    std::string key = fmt("%d %d %d", s, S.version, api);
                    if (api == A_COPY || (api == A_RENDER && S.kind != SRC_BW)) key = fmt("%d %llx", api, (unsigned long long)hash_str(slurp(fmt("d%dpack.xb", s).c_str()))); // their source is the file converted before
                    auto it = made.find(key);
                    if (it == made.end()) made[key] = out;
                    else if (it->second != out) {
                        size_t at = 0; while (at < out.size() && at < it->second.size() && out[at] == it->second[at]) at++;
                        fail("det:bytes", "%s of an unchanged source gives another result (%zu/%zu bytes, first difference at %zu)", ANAME[api], it->second.size(), out.size(), at);
                    } else count("det.compared");
                }
            }
            event(0x4E9, (uint64_t)r, hash_str(out));
            state(mix(mix((uint64_t)api * 8 + S.kind, S.variant * 4 + r), any));
        }
        (void)faults;
    }
    static bool supported(int kind, int api) {
        if (api == A_RENDER || api == A_COPY) return false; // depends on what was made before
        return kind == SRC_XML || (kind == SRC_JSON && api != A_GETXB && api != A_XBW && api != A_COPY) || kind == SRC_BW;
    }
};

void run_rep(const Plan &p, bool det) {
    ProcResult r = run_process([&] {
        xml_io_hook();
        xml_heap_hook();
        Rep R(p, det);
        for (size_t i = 0; i < p.ops.size(); i++) {
            const Op &o = p.ops[i];
            if (o.name == "src") R.src(o);
            else if (o.name == "conv") R.conv(o, i);
        }
    });
    expect_clean(r, "process");
}
void run_res(const Plan &p) { run_rep(p, false); }
void run_det(const Plan &p) { run_rep(p, true); }

Plan gen_rep(Rng &r, int tier, bool det) {
    Plan p;
    p.cfg["fin"] = r.chance(50);
    int n = 4 + r.below(tier ? 24 : 14);
    for (int i = 0; i < n; i++) {
        Op o;
        if (i < 2 || r.chance(det ? 10 : 20)) {
            o.name = "src";
            o.a = {(int64_t)r.below(3), (int64_t)r.below(3), (int64_t)r.below(1 << 24), 1 + (int64_t)r.below(r.chance(80) ? 20 : 200), (int64_t)r.below(r.chance(80) ? 60 : 4000), r.chance(det ? 85 : 60) ? V_VALID : (int64_t)r.below(5)};
        } else {
            o.name = "conv";
            o.a = {(int64_t)r.below(i < 6 ? 2 : 3), (int64_t)r.below(A_COUNT_), (int64_t)r.below(100), r.chance(15) ? (int64_t)(1 + r.below(3000)) : 0, -1};
            if (r.chance(det ? 25 : 50)) {
                int k = r.below(100);
                if (k < 25) o.a[4] = r.below(r.chance(50) ? 400 : 20000);
                else {
                    static const std::vector<std::string> K = {"open", "creat", "fopen", "fstat", "stat", "read", "write", "write", "close", "mmap", "mmap", "ftruncate"};
                    std::string kind = r.pick(K);
                    int64_t arg = kind == "write" || kind == "read" ? (r.chance(40) ? (int64_t)r.below(200) : -EIO) : r.chance(50) ? EIO : ENOMEM;
                    o.f.push_back({kind, (int64_t)r.below(r.chance(70) ? 2 : 5), arg});
                }
            }
        }
        p.ops.push_back(o);
        if (det && o.name == "conv" && r.chance(60)) { Op q = o; q.f.clear(); q.a[4] = -1; q.a[2] = r.below(100); q.a[3] = 0; p.ops.push_back(q); }
    }
    return p;
}
Plan gen_res(Rng &r, int tier) { return gen_rep(r, tier, false); }
Plan gen_det(Rng &r, int tier) { return gen_rep(r, tier, true); }
RegScenario sc1("convres", gen_res, run_res);
RegScenario sc2("convdet", gen_det, run_det);

} // namespace

// Conversion of XML, JSON and live documents into .xb (and of XML into .xbw):
//   conv     histories of source versions and conversions with faults, torn writes and crashes; what a reader of the result shows
//   convres  the same in one process: descriptors, mappings, heap after each conversion or open, successful or failed
//   convdet  the same source converts to the same bytes whatever the history, heap content or address layout
#include "xb.hpp"
#include <unistd.h>
#include <errno.h>
#include <signal.h>
#include <sys/mman.h>
#include <sstream>

using namespace sim;

namespace {

enum { V_VALID, V_CUT, V_MISSING, V_EMPTY, V_MANGLED };
enum { API_PACK, API_PLAIN, API_OBJ, API_GETXB, API_AUTO, API_XBW, API_COUNT };
const char *DST[] = {"out.xb", "plain.xb", "obj.xb", "src.xb", "src.xb", "tree.xbw"};

struct CS { int ret, touched, any, seen; };

struct Conv {
    const Plan &p;
    SrcCfg cfg;
    CS *cs;
    std::vector<XN> versions;   // every valid source version so far
    bool meta = false;          // conversion without a fault: the origin is known
    int object = 0;             // 1: the source is opened by the caller
    int current = -1;           // index of the version in the source file
    int variant = V_MISSING;
    int dst[8];                 // version in each destination: -1 nothing readable, -2 something readable but unknown
    Conv(const Plan &p) : p(p) {
        cfg.kind = (int)p.c("kind"); cfg.dict_seed = (uint64_t)p.c("dict"); cfg.mixed = p.c("mixed"); cfg.ns = p.c("ns");
        file_mtime = p.c("mtime", 1600000000);
        if (p.cfg.count("dots")) { dots = "x.d/"; ::mkdir("x.d", 0755); }
        for (int64_t i = p.c("dots"); i > 0; i--) dots += "./";
        cs = (CS *)mmap(nullptr, sizeof(CS), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        for (auto &d : dst) d = -1;
    }
    std::string dots;           // a long way to the source
    std::string from() const { return dots + src(); }
    std::string file_of(int api) const { return slot(api) == API_GETXB ? dots + DST[api] : DST[api]; }
    const char *src() const { return cfg.kind == SRC_BW ? "src.xbw" : cfg.kind == SRC_XML ? p.c("ext") == 1 ? "src.xsd" : p.c("ext") == 2 ? "src.wsdl" : "src.xml" : "src.json"; }
    // destinations share a file when the source name is used
    int slot(int api) const { return api == API_AUTO ? API_GETXB : api; }
    int api_of(const Op &o) const {
        int a = (int)((uint64_t)o.arg(0) % API_COUNT);
        if (cfg.kind == SRC_BW) return a == API_AUTO ? API_OBJ : a;
        if (cfg.kind == SRC_JSON && (a == API_GETXB || a == API_XBW)) return a == API_XBW ? API_PACK : API_AUTO;
        return a;
    }

    void open_src(BW_plugin &W, Dict &d) {
        if (!W.Initialize()) return;
        register_all(W, d, T_COUNT, A_COUNT, nullptr, "source");
    }
    void new_source(const Op &o) {
        uint64_t seed = (uint64_t)o.arg(0);
        int n = (int)o.arg(1), size = (int)o.arg(2);
        variant = (int)o.arg(3);
        ::unlink(from().c_str());
        if (variant == V_MISSING) return;
        XN x;
        if (cfg.kind == SRC_BW) {
            if (variant != V_VALID) variant = V_VALID;
            ProcResult r = run_process([&] {
                BW_plugin W((dots + "src").c_str(), nullptr, p.cfg.count("wide") ? 0x2000000 : 0x400000, 0);
                Dict d;
                if (!W.Initialize() || !register_all(W, d, T_COUNT, A_COUNT, nullptr, "source")) setup_failed("source document");
                XN y = build_live(W, d, seed, n, size);
                std::string s; put_xn(s, y); spew("expect", s);
            });
            expect_clean(r, "source");
            std::string s = slurp("expect");
            const char *q = s.data();
            x = get_xn(q);
        } else {
            std::string t = make_text(cfg, seed, n, size, x);
            Rng r(seed ^ 0x77);
            size_t tail = t.size(); // comments and instructions behind the root do not belong to the document
            while (cfg.kind == SRC_XML && tail) {
                if (isspace((unsigned char)t[tail - 1])) tail--;
                else if (tail >= 3 && t.compare(tail - 3, 3, "-->") == 0) tail = t.rfind("<!--", tail);
                else if (t.compare(tail - 2, 2, "?>") == 0) tail = t.rfind("<?", tail);
                else break;
            }
            if (variant == V_CUT) { t.resize(tail); size_t last = t.find_last_of(cfg.kind == SRC_XML ? ">" : t.find_last_of("]}") != std::string::npos ? "]}" : "\""); if (last == std::string::npos) last = 0; t.resize(last == 0 ? 0 : r.below((uint32_t)last)); if (t.empty()) variant = V_EMPTY; }
            else if (variant == V_EMPTY) t.clear();
            else if (variant == V_MANGLED) {
                int m = 1 + r.below(4);
                for (int i = 0; i < m; i++) {
                    size_t at = r.below((uint32_t)t.size() + 1);
                    switch (r.below(5)) {
                        case 0: if (at < t.size()) t[at] = (char)r.below(256); break;
                        case 1: if (at < t.size()) t.erase(at, 1 + r.below(4)); break;
                        case 2: t.insert(at, 1, "{}[]\",:<>/&= \\0"[r.below(15)]); break;
                        case 3: { size_t b = r.below((uint32_t)t.size() + 1); t.insert(at, t.substr(b, 1 + r.below(30))); break; }
                        default: { static const char *S[] = {"{", "}", "[[", "\"\"", "<a>", "</a>", "<![CDATA[x]]>", "<!--", "\"\\u12\"", "{\"a\":", ",,", "]", "0x", "--", "\"a\" \"b\"", "&ent;", "&other;", "&none;", "<?p?>", "p:"}; t.insert(at, S[r.below(20)]); }
                    }
                }
            }
            if (const char *dd = getenv("SIM_DUMP")) spew(dd, t);
            put_file(from().c_str(), t);
        }
        if (variant == V_VALID) { versions.push_back(x); current = (int)versions.size() - 1; count(fmt("src.%s", cfg.kind == SRC_BW ? "live" : cfg.kind == SRC_XML ? "xml" : "json").c_str()); }
        else { current = -1; static const char *N[] = {"", "cut", "missing", "empty", "mangled"}; count(fmt("src.%s", N[variant]).c_str()); }
        event_s(fmt("src %d %d", variant, x.total()));
    }
    bool convert(int api, const char *text_dst = nullptr) {
        std::string dn = text_dst ? text_dst : file_of(api);
        const char *d = dn.c_str();
        if (cfg.kind == SRC_BW) {
            if (api == API_OBJ) return Bin_xml_packer::Convert(from().c_str(), d);
            BW_plugin W((dots + "src").c_str(), nullptr, p.cfg.count("wide") ? 0x2000000 : 0x400000, 0);
            Dict dd;
            open_src(W, dd);
            if (api == API_PACK) return Bin_xml_packer::Convert(&W, d);
            if (api == API_GETXB) { Bin_xml_creator C(&W); return C.DoAll(); } // the name of the source
            if (api == API_XBW) { Bin_xml_creator C(&W, d, XBTARGET_XBW); return C.DoAll(); }
            Bin_xml_creator C(&W, d);
            return C.DoAll();
        }
        xml_io_hook();
        switch (api) {
            case API_PACK: return Bin_xml_packer::Convert(from().c_str(), d);
            case API_PLAIN: return Bin_xml_creator::Convert(from().c_str(), d);
            case API_OBJ: {
                if (text_dst || !object) { Bin_xml_packer P(from().c_str(), d); return P.DoAll(); }
                Bin_src_plugin *S = cfg.kind == SRC_XML ? (Bin_src_plugin *)new Bin_xml_plugin(from().c_str(), nullptr) : new Bin_json_plugin(from().c_str(), nullptr);
                bool ok = S->Initialize() && Bin_xml_packer::Convert(S, d);
                delete S;
                return ok;
            }
            case API_GETXB: { char name[PATH_MAX]; const char *err = nullptr; bool r = Bin_xml_packer::GetXB(from().c_str(), name, &err); if (r && dots + "src.xb" != name) fail("conv:name", "the result is called %s", name); if (!r && !err) fail("conv:no-message", "failed without a message"); return r; }
            case API_AUTO: {
                char name[PATH_MAX]; strcpy(name, from().c_str());
                XB_reader R(name);
                bool r = R.Initialize();
                if (r && variant == V_VALID) { std::string m = match_xb(R, versions[current]); if (!m.empty()) fail("conv:content", "the document opened by converting differs: %s", m.c_str()); }
                R.Finalize();
                return r;
            }
            default: { Bin_xml_creator C(from().c_str(), "tree.xbw", XBTARGET_XBW); return C.DoAll(); }
        }
    }
    static bool source_faults_only() {
        for (const char *k : {"creat", "write", "crash", "disk_full", "ftruncate", "mmap", "close"}) if (fault_fired(k)) return false;
        return true;
    }
    // which version does a reader of the destination see now
    void probe(int api, const std::vector<int> &allowed, bool none_ok, bool any_ok, const char *what) {
        int s = slot(api);
        std::string at = file_of(s);
        const char *name = at.c_str();
        cs->seen = -1;
        ProcResult r = run_process([&] {
            std::string why;
            if (s == API_XBW) {
                if (real_size(name) < 0) return;
                BW_plugin W(name, nullptr, 0x1000000, 0);
                if (!W.Initialize()) return;
                if (!W.getRoot()) return;
                for (int v : allowed) { if (v < 0) continue; why = match_xbw(W, versions[v]); if (why.empty()) { cs->seen = v; return; } }
                if (any_ok) { cs->seen = -2; return; }
                if (none_ok) { cs->seen = -1; return; } // a live document being filled by a process that died may be incomplete
            } else {
                char n[PATH_MAX]; strcpy(n, name);
                XB_reader R(n);
                if (!R.Initialize()) { R.Finalize(); if (open_fds() || open_maps() || bad_closes()) fail("xb-open:leak", "after a refused open: %s", resources().c_str()); return; }
                for (int v : allowed) { if (v < 0) continue; why = match_xb(R, versions[v]); if (why.empty()) { cs->seen = v; break; } }
                if (cs->seen >= 0 && meta) { // where the document comes from
                    XML_Param_Description *N = R.doc->getParamByName(XPNR_NAME), *M = R.doc->getParamByName(XPNR_MODIFIED);
                    const char *of = N && N->type == XBT_STRING ? N->getString(R.doc) : nullptr;
                    const char *base = of ? strrchr(of, '/') : nullptr;
                    if (!of || strcmp(base ? base + 1 : of, src())) fail("conv:origin", "%s says it was made from %s instead of %s", name, of ? of : "(null)", src());
                    if (!M || M->type != XBT_UNIX_TIME || (uint32_t)M->data != (uint32_t)file_mtime) fail("conv:origin", "%s says its source was modified at %lld instead of %lld", name, M ? (long long)M->data : -1, (long long)file_mtime);
                }
                if (cs->seen < 0 && any_ok) { why = walk_xb(R); if (why.empty()) cs->seen = -2; }
                R.Finalize();
                if (open_fds() || open_maps() || bad_closes()) fail("xb-open:leak", "after closing: %s", resources().c_str());
                if (cs->seen != -1) return;
            }
            fail("conv:content", "%s: %s shows something else than the source had: %s", what, name, why.c_str());
        });
        expect_clean(r, "reader");
        if (cs->seen == -1 && !none_ok) fail("conv:lost", "%s: %s is missing or refused", what, name);
        dst[s] = cs->seen;
        event(0xC0DE, s, (uint64_t)cs->seen);
    }
    void conv(const Op &o, size_t index) {
        int api = api_of(o), s = slot(api);
        object = o.arg(4) & 1;
        cs->ret = -1; cs->touched = cs->any = 0;
        ProcResult r = run_process([&] {
            heap_fill_seed = (uint64_t)o.arg(1) + 1;
            short_io = o.arg(2); io_seed = o.arg(4);
            snprintf(shm->note, sizeof(shm->note), "op %d api %d", (int)index, api);
            op_begin(&o);
            disk_free = o.arg(3, -1);
            bool ok = convert(api);
            cs->ret = ok; cs->any = any_fault_fired(); cs->touched = !source_faults_only();
            op_end();
        });
        bool crash = false;
        for (auto &f : o.f) crash |= f.kind == "crash";
        expect_clean(r, "conversion", crash);
        bool crashed = r.kind == EX_CRASH;
        std::vector<int> ok{};
        const char *what;
        if (crashed) {
            count("conv.crashed");
            if (current >= 0) ok.push_back(current);
            ok.push_back(dst[s]);
            probe(api, ok, true, dst[s] == -2 || variant == V_MANGLED, what = "after a crash of the converter");
        } else if (cs->ret) {
            if (variant == V_CUT || variant == V_MISSING || variant == V_EMPTY) fail("conv:accepted", "a %s source was reported as converted", variant == V_CUT ? "cut" : variant == V_MISSING ? "missing" : "empty");
            count("conv.done");
            if (cs->any) count("conv.done_in_spite_of_fault");
            if (current >= 0) ok.push_back(current);
            meta = !cs->any;
            probe(api, ok, false, variant == V_MANGLED, what = "after a successful conversion");
            meta = false;
        } else {
            if (variant == V_VALID && !cs->any) fail("conv:refused", "a valid source is not converted (api %d)", api);
            count(cs->any ? "conv.failed_by_fault" : "conv.source_refused");
            if (current >= 0) ok.push_back(current);
            ok.push_back(dst[s]);
            bool touched = cs->touched || (variant == V_MANGLED);
            probe(api, ok, touched || dst[s] == -1, dst[s] == -2 || variant == V_MANGLED, what = "after a failed conversion");
        }
        state(mix(mix(hash_str(what), (uint64_t)api * 8 + variant), current >= 0 ? versions[current].total() : 0));
        for (int k = 0; k < API_COUNT; k++) if (k != s && dst[k] != -1 && slot(k) == k) { // the other files stay as they are
            std::vector<int> same{dst[k]};
            probe(k, same, false, dst[k] == -2, "another conversion was made");
        }
    }
};

void run_conv(const Plan &p) {
    if (p.cfg.count("wide")) op_budget = 3000000000ull;
    Conv c(p);
    for (size_t i = 0; i < p.ops.size(); i++) {
        const Op &o = p.ops[i];
        if (o.name == "src") c.new_source(o);
        else if (o.name == "conv") c.conv(o, i);
    }
}

void gen_cfg(Rng &r, Plan &p) {
    if (r.chance(2)) p.cfg["dots"] = r.below(1900);
    p.cfg["kind"] = r.chance(40) ? SRC_XML : r.chance(50) ? SRC_JSON : SRC_BW;
    p.cfg["dict"] = r.below(1 << 24);
    p.cfg["mixed"] = r.chance(20);
    p.cfg["ns"] = r.chance(14) ? 1 + r.below(2) : 0;
    if (r.chance(12)) p.cfg["ext"] = 1 + r.below(2);
    p.cfg["mtime"] = r.chance(90) ? 1000000000 + r.below(900000000) : 0;
}
Op gen_src(Rng &r, int tier, bool bad) {
    Op o; o.name = "src";
    int n = r.chance(60) ? 1 + r.below(20) : r.chance(85) ? 1 + r.below(150) : 1 + r.below(tier ? 1500 : 500);
    int size = r.chance(70) ? r.below(60) : r.chance(70) ? r.below(2000) : r.below(20000);
    int v = V_VALID;
    if (bad && r.chance(30)) v = 1 + r.below(4);
    o.a = {(int64_t)r.below(1 << 24), n, size, v};
    return o;
}
Op gen_convop(Rng &r, bool faults) {
    Op o; o.name = "conv";
    o.a = {(int64_t)r.below(API_COUNT), (int64_t)r.below(1000), r.chance(20) ? (int64_t)(1 + r.below(r.chance(50) ? 64 : 4000)) : 0, -1, (int64_t)r.below(1000)};
    if (faults && r.chance(55)) {
        int k = r.below(100);
        if (k < 25) o.a[3] = r.chance(50) ? r.below(400) : r.below(20000);
        else if (k < 45) o.f.push_back({"crash", (int64_t)(r.chance(50) ? r.below(8) : r.chance(50) ? r.below(60) : r.below(3000)), 0});
        else {
            static const std::vector<std::string> K = {"open", "creat", "fopen", "fstat", "stat", "read", "write", "write", "close", "mmap", "ftruncate"};
            std::string kind = r.pick(K);
            int64_t arg = r.chance(60) ? -EIO : -EINTR;
            if (kind == "write") arg = r.chance(50) ? (int64_t)r.below(r.chance(50) ? 16 : 3000) : r.chance(50) ? -ENOSPC : -EIO;
            else if (kind == "read") arg = r.chance(50) ? (int64_t)r.below(64) : -EIO;
            else arg = r.chance(50) ? EMFILE : EIO;
            o.f.push_back({kind, (int64_t)r.below(r.chance(70) ? 2 : 5), arg});
        }
    }
    return o;
}
Plan gen_conv(Rng &r, int tier) {
    Plan p;
    gen_cfg(r, p);
    int n = 2 + r.below(tier ? 14 : 8);
    bool wide = r.below(500) == 0; // more children and names than 15 or 16 bits can count
    if (wide) {
        p.cfg["wide"] = 1;
        p.ops.push_back(gen_src(r, tier, false));
        p.ops[0].a[1] = (r.chance(30) ? 66000 : 33000) + r.below(300); p.ops[0].a[2] = 4;
        n = 3;
    }
    for (int i = wide; i < n; i++) p.ops.push_back(i == 0 || r.chance(30) ? gen_src(r, tier, i > 0) : gen_convop(r, true));
    p.ops.push_back(gen_convop(r, false));
    return p;
}
RegScenario sc1("conv", gen_conv, run_conv);

} // namespace

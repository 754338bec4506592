// Stored binary files damaged by the disk they lie on: cut, with lost, misplaced or overwritten blocks, flipped bits,
// wrong fields. What a reader does with them.
#include "xb.hpp"
#include <unistd.h>
#include <sys/mman.h>
#include <streambuf>
#include <ostream>
#include <map>

using namespace sim;
using namespace pklib_xml;

namespace {

const char *GOOD = "good.xb", *BAD = "d.xb";
struct Hole : std::streambuf {
    int64_t n = 0;
    int overflow(int c) override { n++; return c == EOF ? 0 : c; }
    std::streamsize xsputn(const char *, std::streamsize k) override { n += k; return k; }
};

// the layout of the file, read by nothing of the library
struct Node { int64_t at; int pc, cc, len; int64_t value; };
struct Bytes {
    const std::string &s;
    explicit Bytes(const std::string &s) : s(s) {}
    bool in(int64_t at, int64_t n) const { return at >= 0 && n >= 0 && at + n <= (int64_t)s.size(); }
    int32_t i32(int64_t at) const { int32_t v; memcpy(&v, s.data() + at, 4); return v; }
    int16_t i16(int64_t at) const { int16_t v; memcpy(&v, s.data() + at, 2); return v; }
    bool node(int64_t at, Node &n) const {
        if (at < 0 || !in(at, 12)) return false;
        n.at = at; n.pc = i16(at + 2); n.cc = i32(at + 4); n.len = i32(at + 8);
        if (n.pc < 0 || n.cc < 0 || n.len < 0) return false;
        n.value = at + 12 + 8ll * n.pc + 4ll * n.cc;
        return in(at, n.value - at + 1);
    }
    int64_t child(const Node &n, int i) const { return n.at + i32(n.at + 12 + 8 * n.pc + 4 * i); }
    // nodes the tree under at has when every link is followed, huge = more than limit or endless
    int64_t size(int64_t at, std::map<int64_t, int64_t> &memo, int64_t limit, int deep) const {
        auto it = memo.find(at);
        if (it != memo.end()) return it->second < 0 ? 0 : it->second; // on the way to itself: endless, the reader has to see it
        if (deep > 20000) return limit + 1;
        Node n;
        if (!node(at, n)) return memo[at] = 1;
        memo[at] = -1;
        int64_t t = 1;
        for (int i = 0; i < n.cc && t <= limit; i++) t += size(child(n, i), memo, limit, deep + 1);
        return memo[at] = t;
    }
    void all(int64_t at, std::vector<Node> &out, size_t max) const {
        Node n;
        if (out.size() >= max || !node(at, n)) return;
        for (auto &o : out) if (o.at == at) return;
        out.push_back(n);
        for (int i = 0; i < n.cc; i++) all(child(n, i), out, max);
    }
};

struct Damage {
    const Plan &p;
    std::string good, bad;
    XN base; std::vector<XN> tail;
    std::vector<Node> nodes;
    std::vector<int64_t> ends; // of the appended records
    int64_t doc_len = 0;
    // what is known about the damage
    int64_t cut = -1;          // nothing else than cut to this length
    bool zeros = false, other = false;
    Damage(const Plan &p) : p(p) { file_mtime = 1600000000; }

    void make() {
        uint64_t seed = (uint64_t)p.c("doc");
        int n = (int)p.c("n", 5), size = (int)p.c("size", 50), kind = (int)p.c("kind"), app = (int)p.c("append");
        bool plain = p.c("plain");
        if (kind == SRC_BW) {
            ProcResult r = run_process([&] {
                BW_plugin W("src", nullptr, 0x1000000, 0);
                Dict d;
                if (!W.Initialize() || !register_all(W, d, T_COUNT, A_COUNT, nullptr, "source")) setup_failed("source document");
                XN x = build_live(W, d, seed, n, size, app > 0);
                Bin_xml_creator *C = plain ? new Bin_xml_creator(&W, GOOD) : new Bin_xml_packer(&W, GOOD);
                if (!C->DoAll()) setup_failed("conversion");
                std::string s; put_xn(s, x);
                Rng r(seed + 5);
                BW_element *ring = nullptr;
                std::string t;
                for (int i = 0; i < app; i++) {
                    XN y; int k = 1 + (int)r.below(4);
                    BW_element *E = build_record(W, d, r, k, size, 0, y);
                    if (!E) setup_failed("record");
                    ring = ring ? ring->join(E) : E;
                    put_xn(t, y);
                }
                if (ring && !W.Write(ring)) setup_failed("appending");
                spew("base", s); spew("tail", t);
            });
            expect_clean(r, "source");
            std::string s = slurp("base"), t = slurp("tail");
            const char *q = s.data(); base = get_xn(q);
            q = t.data();
            for (int i = 0; i < app; i++) tail.push_back(get_xn(q));
        } else {
            SrcCfg c{kind, (uint64_t)p.c("dict"), p.c("mixed") != 0, 0};
            const char *src = kind == SRC_XML ? "s.xml" : "s.json";
            put_file(src, make_text(c, seed, n, size, base));
            ProcResult r = run_process([&] {
                xml_io_hook();
                if (!(plain ? Bin_xml_creator::Convert(src, GOOD) : Bin_xml_packer::Convert(src, GOOD))) setup_failed("conversion");
            });
            expect_clean(r, "source");
        }
        good = bad = slurp(GOOD);
        Bytes B(good);
        doc_len = B.i32(8);
        if (tail.empty()) B.all(0, nodes, 4000);
        else {
            B.all(0, nodes, 2000);
            for (int64_t at = (doc_len + 3) & ~3ll; ; ) { Node n; if (!B.node(at, n) || n.len <= 0 || !B.in(at, n.len)) break; B.all(at, nodes, 4000); ends.push_back(at + n.len); at = (at + n.len + 3) & ~3ll; }
            if (ends.size() != tail.size()) setup_failed("layout of appended records");
        }
        if (nodes.size() < 4) setup_failed("layout");
    }
    void put(size_t at, const void *v, size_t n) { for (size_t i = 0; i < n && at + i < bad.size(); i++) bad[at + i] = ((const char *)v)[i]; }
    void block(int64_t pos, size_t &at, size_t &n, bool big) { size_t bs = big ? 4096 : 512; at = (size_t)pos % (bad.size() + 1) / bs * bs; n = std::min(bs, bad.size() - at); }
    int32_t number(int64_t v, int32_t old) {
        Rng r((uint64_t)v);
        static const int32_t E[] = {0, 1, -1, 2, 4, -4, 8, 12, -12, 0x7fffffff, (int32_t)0x80000000, 0x7ffffffc, 0x40000000, 0x7fff, 0x8000, 0xffff, 1024, 0x10000, -0x8000000};
        switch (r.below(6)) {
            case 0: return old + (int32_t)r.below(9) - 4;
            case 1: return old * 2;
            case 2: return (int32_t)r.next();
            case 3: return (int32_t)bad.size() + (int32_t)r.below(33) - 16;
            default: return E[r.below(sizeof(E) / sizeof(*E))];
        }
    }
    void hit(const Op &o) {
        int kind = (int)o.arg(0); int64_t pos = o.arg(1), v = o.arg(2);
        static const char *N[] = {"cut", "bit_flip", "word", "zero_block", "misplaced_block", "garbage_block", "byte", "lost_tail", "zeros_behind", "garbage_behind", "field", "field", "field", "link", "swap"};
        if (bad.empty()) return;
        Bytes G(good);
        bool was = cut >= 0 || zeros || other;
        switch (kind) {
            case 0: bad.resize((size_t)pos % bad.size()); if (!was) cut = (int64_t)bad.size(); else other = true; break;
            case 7: { size_t bs = v & 1 ? 4096 : 512, nb = bad.size() / bs; bad.resize(nb ? (size_t)pos % nb * bs + (v & 2 ? 0 : bs) : bad.size() / 2); if (!was) cut = (int64_t)bad.size(); else other = true; break; }
            case 8: bad.append(1 + (size_t)pos % 5000, '\0'); if (!was) zeros = true; else other = true; break;
            default: other = true;
                switch (kind) {
                    case 1: bad[(size_t)pos % bad.size()] ^= (char)(1 << (v & 7)); break;
                    case 2: { size_t at = (size_t)pos % bad.size() & ~3ull; if (at + 4 <= bad.size()) { int32_t w = number(v, Bytes(bad).i32((int64_t)at)); put(at, &w, 4); } break; }
                    case 3: { size_t at, n; block(pos, at, n, v & 1); bad.replace(at, n, n, '\0'); break; }
                    case 4: { size_t at, n, from, m; block(pos, at, n, v & 1); block(v >> 1, from, m, v & 1); put(at, bad.substr(from, m).data(), std::min(n, m)); break; }
                    case 5: { size_t at, n; block(pos, at, n, v & 1); Rng r((uint64_t)v); for (size_t i = 0; i < n; i++) bad[at + i] = (char)r.next(); break; }
                    case 6: bad[(size_t)pos % bad.size()] = (char)v; break;
                    case 9: { Rng r((uint64_t)v); size_t n = 1 + (size_t)pos % 300; for (size_t i = 0; i < n; i++) bad += (char)(r.chance(50) ? r.below(4) : r.next()); break; }
                    case 13: { // a link leads to another element
                        const Node *n = nullptr;
                        for (size_t i = 0; i < nodes.size(); i++) { const Node &x = nodes[((size_t)pos + i) % nodes.size()]; if (x.cc) { n = &x; break; } }
                        if (!n) break;
                        const Node &to = nodes[(size_t)(v >> 8) % nodes.size()];
                        int32_t w = (int32_t)(to.at - n->at);
                        put((size_t)(n->at + 12 + 8 * n->pc + 4 * ((v & 255) % n->cc)), &w, 4);
                        break;
                    }
                    case 14: { const Node &a = nodes[(size_t)pos % nodes.size()], &b = nodes[(size_t)v % nodes.size()]; std::string t = bad; put((size_t)a.at, t.data() + std::min((size_t)b.at, t.size()), b.at < (int64_t)t.size() ? std::min((size_t)std::min(a.len, b.len), t.size() - (size_t)b.at) : 0); break; }
                    default: { // a field of an element
                        const Node &n = nodes[kind == 12 ? (size_t)pos % std::min<size_t>(nodes.size(), 6) : (size_t)pos % nodes.size()];
                        Rng r((uint64_t)v);
                        int f = (int)r.below(n.pc ? 9 : 6);
                        if (f == 3 && !n.cc) f = 4;
                        size_t at; int w = 4;
                        switch (f) {
                            case 0: at = (size_t)n.at; w = 2; break;
                            case 1: at = (size_t)n.at + 2; w = 2; break;
                            case 2: at = (size_t)n.at + 4; break;
                            case 3: at = (size_t)n.at + 12 + 8 * n.pc + 4 * r.below((uint32_t)n.cc); break;
                            case 4: at = (size_t)n.value; w = 1; break;
                            case 5: at = r.chance(50) ? (size_t)n.at + 8 : ((size_t)n.value + 4) & ~3ull; break;
                            case 6: at = (size_t)n.at + 12 + 8 * r.below((uint32_t)n.pc); w = 2; break;
                            case 7: at = (size_t)n.at + 12 + 8 * r.below((uint32_t)n.pc) + 2; w = 1; break;
                            default: at = (size_t)n.at + 12 + 8 * r.below((uint32_t)n.pc) + 4; break;
                        }
                        if (at + 4 > bad.size()) break;
                        int32_t old = w == 1 ? bad[at] : w == 2 ? Bytes(bad).i16((int64_t)at) : Bytes(bad).i32((int64_t)at);
                        int32_t nv = w == 1 ? (int32_t)r.below(r.chance(70) ? 27 : 256) : number((int64_t)r.next(), old);
                        put(at, &nv, (size_t)w);
                    }
                }
        }
        count(fmt("fault.%s", N[kind]).c_str());
    }

    //---------------------------------------------------------------- everything a reader offers
    static void on_item(XML_Item *X, void *u, int) { (*(int64_t *)u)++; (void)X->name; }
    static void on_item_a(XML_Item *X, void *u, int, XML_Item **) { (*(int64_t *)u)++; (void)X->name; }
    void look() {
        spew(BAD, bad);
        {
            Bytes B(bad);
            Node n;
            if (B.node(0, n)) {
                std::map<int64_t, int64_t> memo;
                int64_t t = B.size(0, memo, 60000, 0);
                for (int64_t at = ((int64_t)n.len + 3) & ~3ll; B.node(at, n) && n.len > 0 && t <= 60000; at = (at + n.len + 3) & ~3ll) t += B.size(at, memo, 60000, 0);
                if (t > 60000) { count("damage.huge"); return; }
            }
        }
        bool only = !other;
        int whole = 0;
        for (int64_t e : ends) whole += cut < 0 || e <= cut;
        int *seen = (int *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        ProcResult r = run_process([&] {
            int f = open_fds(), mp = open_maps();
            {
                char name[32]; strcpy(name, BAD);
                XB_reader R(name);
                bool ok = R.Initialize();
                *seen = ok ? 1 : 2;
                if (ok && cut >= 0 && only && cut < doc_len) fail("damage:cut-accepted", "%lld bytes of the document of %lld bytes are left and it is opened", (long long)cut, (long long)doc_len);
                if (!ok && only && (cut < 0 || cut >= doc_len)) fail("damage:refused", "a whole document is refused");
                if (ok) {
                    if (only) {
                        std::vector<XN> t(tail.begin(), tail.begin() + whole);
                        std::string m = match_xb(R, base, tail.empty() ? nullptr : &t);
                        if (!m.empty()) fail("damage:content", "%d of %zu appended records are whole: %s", whole, tail.size(), m.c_str());
                    }
                    XML_Item *X = R.getRoot();
                    if (X) {
                        std::string m = walk_xb(R, 30000);
                        if (!m.empty()) fail("damage:walk", "an opened document shows %s", m.c_str());
                        int64_t a = 0, b = 0, c = 0;
                        X->ForAllChildrenRecursively(on_item, &a, 0);
                        X->ForAllChildrenRecursively_PostOrder(on_item, &b, 0);
                        XML_Item *way[XML_MAX_DEEP];
                        X->ForAllChildrenRecursively_PostOrderA(on_item_a, &c, 0, way);
                        if (a != b || a != c) fail("damage:walk", "walks of an opened document show %lld, %lld and %lld elements", (long long)a, (long long)b, (long long)c);
                    }
                    Hole h; std::ostream os(&h);
                    os << R;
                    for (int i = -12; i < 40; i++) { const char *t = R.getNodeName((tag_name_id_t)i), *a = R.getParamName((param_name_id_t)i); if (!t || !a) fail("damage:walk", "an opened document has no name for %d", i); R.getNodeID(t); R.getParamID(a); R.tag_symbols.getType((tag_name_id_t)i); }
                    R.getString(0u); R.getString((uint32_t)bad.size());
                }
                R.Finalize();
            }
            XBT_Free();
            if (open_fds() != f || open_maps() != mp || bad_closes()) fail("damage:leak", "reading left %s", resources().c_str());
        }, 200ull * 1000 * 1000);
        if (r.kind == EX_HANG) fail("damage:endless", "reading a damaged document does not end");
        expect_clean(r, "reading a damaged document");
        count(*seen == 1 ? only && cut < 0 && !zeros ? "damage.intact" : "damage.opened" : "damage.refused");
        state(mix(hash_str(bad), (uint64_t)*seen));
        event(0xDA, *seen, (int64_t)bad.size());
        munmap(seen, 4096);
    }
    void run() {
        make();
        for (auto &o : p.ops) {
            if (o.name == "hit") hit(o);
            else if (o.name == "look") look();
            else if (o.name == "restore") { bad = good; cut = -1; zeros = other = false; }
        }
    }
};
void run_damage(const Plan &p) {
    heap_fill = (int)p.c("fill", 256); heap_fill_seed = p.seed + 1;
    Damage D(p);
    D.run();
}
Plan gen_damage(Rng &r, int tier) {
    Plan p;
    p.cfg["kind"] = r.chance(50) ? SRC_BW : 1 + r.below(2);
    p.cfg["doc"] = (int64_t)r.below(1 << 28);
    p.cfg["dict"] = (int64_t)r.below(1 << 20);
    p.cfg["mixed"] = r.chance(25);
    p.cfg["plain"] = r.chance(40);
    p.cfg["append"] = r.chance(50) ? 1 + r.below(8) : 0;
    p.cfg["n"] = r.chance(70) ? 1 + r.below(20) : 1 + r.below(tier ? 400 : 150);
    p.cfg["size"] = r.chance(70) ? r.below(60) : r.below(3000);
    p.cfg["fill"] = r.chance(60) ? 256 : (int64_t)r.below(256);
    int rounds = 6 + r.below(tier ? 60 : 20);
    for (int i = 0; i < rounds; i++) {
        if (i) { Op o; o.name = "restore"; p.ops.push_back(o); }
        int n = r.chance(8) ? 0 : r.chance(65) ? 1 : 1 + r.below(4);
        for (int k = 0; k < n; k++) { Op o; o.name = "hit"; o.a = {(int64_t)r.below(15), (int64_t)r.below(1u << 30), (int64_t)r.below(1u << 30)}; if (r.chance(25)) o.a[1] %= 400; p.ops.push_back(o); }
        Op o; o.name = "look"; p.ops.push_back(o);
    }
    return p;
}
RegScenario sc1("damage", gen_damage, run_damage);

} // namespace

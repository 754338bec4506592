// JSON tokens do not depend on how the text arrives or how the token array grows (scenario "json").
// The "network" delivers the text in pieces cut by the seed, the token array is given in steps.
#include "core.hpp"
#include <string.h>
#include <algorithm>
#include <binary_xml/jsmn/jsmn.h>

extern "C" { void *sim_malloc(size_t); void sim_free(void *); }

using namespace sim;

namespace {

struct Tok { int type, start, end, size, parent; bool operator==(const Tok &o) const { return type == o.type && start == o.start && end == o.end && size == o.size && parent == o.parent; } };
struct Gen { // text and its tokens, made together
    Rng r;
    int left, wsp;
    std::string s;
    std::vector<Tok> t;
    std::vector<std::pair<int, int>> prim; // primitives: no cut inside or at their end
    Gen(uint64_t seed, int n, int wsp) : r(seed), left(n), wsp(wsp) {}
    void ws() { while (r.chance(wsp)) s += " \t\r\n"[r.below(4)]; }
    int str(int parent, int size) {
        int i = (int)t.size();
        s += '"';
        t.push_back({JSMN_STRING, (int)s.size(), 0, size, parent});
        int n = r.chance(70) ? r.below(8) : r.chance(10) ? r.edge(600) : r.below(60);
        for (int k = 0; k < n; k++) {
            if (r.chance(6)) { s += "\\u"; for (int q = 0; q < 4; q++) s += "0123456789abcdefABCDEF"[r.below(22)]; }
            else if (r.chance(6)) s += (char)(128 + r.below(128));
            else if (r.chance(20)) {
                static const char *E[] = {"\\\"", "\\\\", "\\/", "\\b", "\\f", "\\n", "\\r", "\\t", "\\u0041", "\\uABcd", "\\u00e9", "\xc5\xa1", "{", "}", "[", "]", ",", ":"};
                s += E[r.below(18)];
            } else { char c = (char)(32 + r.below(95)); if (c == '"' || c == '\\') c = 'q'; s += c; }
        }
        t[i].end = (int)s.size();
        s += '"';
        return i;
    }
    void value(int parent, int deep) {
        left--;
        ws();
        int k = r.below(100);
        if (left > 0 && deep < 40 && k < (deep == 0 ? 85 : 45)) {
            bool obj = r.chance(55);
            int i = (int)t.size();
            t.push_back({obj ? JSMN_OBJECT : JSMN_ARRAY, (int)s.size(), 0, 0, parent});
            s += obj ? '{' : '[';
            int n = r.chance(15) ? 0 : 1 + r.below(r.chance(20) ? 30 : 5);
            int done = 0;
            for (; done < n && (left > 0 || done == 0); done++) {
                if (done) { s += ','; }
                ws();
                if (obj) { int key = str(i, 1); ws(); s += ':'; value(key, deep + 1); }
                else value(i, deep + 1);
                ws();
            }
            if (!done) ws();
            t[i].size = done;
            s += obj ? '}' : ']';
            t[i].end = (int)s.size();
        } else if (k < 75) str(parent, 0);
        else {
            static const char *P[] = {"true", "false", "null", "0", "-1", "3.25", "1e10", "-0.5E-3", "12345678901234567890"};
            int b = (int)s.size();
            s += P[r.below(9)];
            t.push_back({JSMN_PRIMITIVE, b, (int)s.size(), 0, parent});
            prim.push_back({b, (int)s.size()});
        }
    }
};

struct Feed { int ret; std::vector<Tok> t; };
std::string show(const std::vector<Tok> &t, size_t i) { if (i >= t.size()) return "(none)"; return fmt("#%zu type %d %d..%d size %d parent %d", i, t[i].type, t[i].start, t[i].end, t[i].size, t[i].parent); }
std::string diff(const std::vector<Tok> &a, const std::vector<Tok> &b) {
    for (size_t i = 0; i < a.size() || i < b.size(); i++) if (i >= a.size() || i >= b.size() || !(a[i] == b[i])) return show(a, i) + " instead of " + show(b, i);
    return "";
}
// text in an exact block so that a read behind it is seen
struct Text { char *p; size_t n; Text(const std::string &s) : p((char *)sim_malloc(s.size() ? s.size() : 1)), n(s.size()) { if (!p) harness_error("text"); memcpy(p, s.data(), n); } ~Text() { sim_free(p); } };

Feed feed(const std::string &s, const std::vector<int> &cuts, Rng *grow, int limit) {
    jsmn_parser P;
    jsmn_init(&P);
    jsmntok_t *arr = nullptr;
    unsigned cap = 0;
    Feed f;
    f.ret = 0;
    for (size_t c = 0; c < cuts.size(); c++) {
        Text T(s.substr(0, cuts[c]));
        for (int tries = 0;; tries++) {
            if (tries > limit * 2 + 10) fail("json:endless", "parsing does not end");
            if (!arr) { cap = grow ? grow->below(4) : (unsigned)limit; arr = (jsmntok_t *)sim_malloc((cap ? cap : 1) * sizeof(jsmntok_t)); memset((void *)arr, 0x5a, (cap ? cap : 1) * sizeof(jsmntok_t)); }
            unsigned pos0 = P.pos;
            f.ret = jsmn_parse(&P, T.p, T.n, arr, cap);
            if (P.pos > T.n && f.ret >= 0) fail("json:position", "position %u is behind the text of %zu bytes", P.pos, T.n);
            if (P.toknext > cap) fail("json:overrun", "%u tokens in an array of %u", P.toknext, cap);
            if (f.ret == JSMN_ERROR_NOMEM) {
                if (P.toknext != cap) fail("json:early-nomem", "no more tokens reported with %u of %u used", P.toknext, cap);
                count("fault.token_array_full");
                unsigned more = cap + 1 + (grow ? grow->below(grow->chance(50) ? 2 : 20) : 0);
                jsmntok_t *a2 = (jsmntok_t *)sim_malloc(more * sizeof(jsmntok_t));
                memset((void *)a2, 0x5a, more * sizeof(jsmntok_t));
                memcpy(a2, arr, cap * sizeof(jsmntok_t));
                sim_free(arr);
                arr = a2; cap = more;
                continue;
            }
            (void)pos0;
            break;
        }
        if (f.ret == JSMN_ERROR_INVAL) break;
        if (c + 1 < cuts.size()) count("fault.text_cut");
    }
    if (f.ret >= 0 || f.ret == JSMN_ERROR_PART) for (unsigned i = 0; i < P.toknext; i++) f.t.push_back({arr[i].type, arr[i].start, arr[i].end, arr[i].size, arr[i].parent});
    sim_free(arr);
    return f;
}

// makes the text wrong in one place, the verdict is known
int spoil(const Gen &g, Rng &r, std::string &s) {
    std::vector<int> box, str;
    for (size_t i = 0; i < g.t.size(); i++) (g.t[i].type == JSMN_STRING ? str : box).push_back((int)i);
    box.erase(std::remove_if(box.begin(), box.end(), [&](int i) { return g.t[i].type == JSMN_PRIMITIVE; }), box.end());
    switch (r.below(6)) {
        case 0: { // a bracket closed by the other one
            if (box.empty()) return 0;
            char &c = s[g.t[box[r.below((uint32_t)box.size())]].end - 1];
            c = c == '}' ? ']' : '}';
            return JSMN_ERROR_INVAL;
        }
        case 1: { // cut off
            if (g.t[0].type == JSMN_PRIMITIVE || g.t[0].type == JSMN_STRING) return 0;
            s.resize(g.t[0].start + 1 + r.below(g.t[0].end - g.t[0].start - 1));
            return JSMN_ERROR_PART;
        }
        case 2: s += r.chance(50) ? '}' : ']'; return JSMN_ERROR_INVAL; // closed more times than opened
        case 3: { // unknown escape
            if (str.empty()) return 0;
            char c; do c = (char)(1 + r.below(255)); while (strchr("\"/\\bfrntu", c));
            s.insert(g.t[str[r.below((uint32_t)str.size())]].start, std::string("\\") + c);
            return JSMN_ERROR_INVAL;
        }
        case 4: { // not a hexadecimal digit
            if (str.empty()) return 0;
            std::string e = "\\u";
            for (int n = r.below(4); n > 0; n--) e += "0123456789abcdefABCDEF"[r.below(22)];
            char c; do c = (char)(r.chance(50) ? "@G`g/:"[r.below(6)] : 1 + r.below(255)); while (isxdigit((unsigned char)c));
            s.insert(g.t[str[r.below((uint32_t)str.size())]].start, e + c);
            return JSMN_ERROR_INVAL;
        }
        default: { // a character which is in no number nor name
            if (g.prim.empty()) return 0;
            auto &q = g.prim[r.below((uint32_t)g.prim.size())];
            char c; do c = (char)(r.chance(30) ? 127 : r.chance(30) ? 31 : 1 + r.below(255)); while ((c >= 32 && c < 127) || c == '\t' || c == '\r' || c == '\n');
            s.insert(q.first + 1 + r.below(q.second - q.first), 1, c);
            return JSMN_ERROR_INVAL;
        }
    }
}
void run_json(const Plan &p) {
    heap_fill = 256; heap_fill_seed = p.seed;
    ProcResult res = run_process([&] {
        for (auto &o : p.ops) {
            op_begin(&o);
            Gen g((uint64_t)o.arg(0), (int)o.arg(1), (int)o.arg(2));
            g.value(-1, 0);
            g.ws();
            Rng r((uint64_t)o.arg(3));
            int damage = (int)o.arg(4), verdict = 0;
            std::string s = g.s;
            bool valid = damage == 0;
            if (damage == 5) { damage = 0; verdict = spoil(g, r, s); valid = verdict == 0; }
            for (int i = 0; i < damage; i++) {
                size_t at = r.below((uint32_t)s.size() + 1);
                switch (r.below(4)) {
                    case 0: s.insert(at, 1, "{}[]\",:\\ux 1"[r.below(12)]); break;
                    case 1: if (at < s.size()) s.erase(at, 1); break;
                    case 2: if (at < s.size()) s[at] = "{}[]\",:\\ux 1"[r.below(12)]; break;
                    default: if (r.chance(40)) s.resize(at); else if (at < s.size()) s[at] = (char)(1 + r.below(255));
                }
            }
            int n = (int)s.size();
            std::vector<int> whole{n};
            Feed one = feed(s, whole, nullptr, n + 1);
            if (verdict) {
                if (one.ret != verdict) fail("json:wrong-accepted", "a text which is %s gives %d", verdict == JSMN_ERROR_PART ? "incomplete" : "wrong", one.ret);
                count(verdict == JSMN_ERROR_PART ? "json.cut_off" : "json.wrong");
            }
            else if (valid) {
                if (one.ret != (int)g.t.size()) fail("json:count", "%zu tokens are in the text and %d were reported", g.t.size(), one.ret);
                std::string d = diff(one.t, g.t);
                if (!d.empty()) fail("json:tokens", "%s", d.c_str());
                jsmn_parser P; jsmn_init(&P);
                Text T(s);
                int c = jsmn_parse(&P, T.p, T.n, nullptr, 0);
                if (c != one.ret) fail("json:counting", "counting gives %d and parsing %d tokens", c, one.ret);
                count("json.valid");
                // exactly as many tokens as counted are enough
                Feed ex = feed(s, whole, nullptr, c);
                if (ex.ret != one.ret || !diff(ex.t, one.t).empty()) fail("json:counted-array", "an array of the counted size gives %d: %s", ex.ret, diff(ex.t, one.t).c_str());
            } else { count(one.ret >= 0 ? "json.damaged_accepted" : one.ret == JSMN_ERROR_PART ? "json.damaged_part" : "json.damaged_refused"); }
            for (int k = 0; k < 3; k++) {
                Rng q((uint64_t)o.arg(3) + k * 77 + 1);
                std::vector<int> cuts;
                if (k != 0) {
                    int m = q.below(q.chance(50) ? 4 : 40);
                    for (int i = 0; i < m; i++) {
                        int at = (int)q.below((uint32_t)n + 1);
                        if (valid) { bool bad = false; for (auto &b : g.prim) if (at > b.first && at <= b.second) bad = true; if (bad) continue; }
                        else if (at > 0 && !strchr(" \t\r\n,]}", s[at - 1])) continue; // never inside something without quotes
                        cuts.push_back(at);
                    }
                    std::sort(cuts.begin(), cuts.end());
                }
                cuts.push_back(n);
                Feed f = feed(s, cuts, k == 1 ? nullptr : &q, n + 1);
                bool same = f.ret == one.ret;
                // after resuming, the number reported must be of all tokens
                if (!same) fail("json:verdict", "%s%s gives %d and in one piece %d", cuts.size() > 1 ? "in pieces" : "", k != 1 ? " with a growing array" : "", f.ret, one.ret);
                std::string d = diff(f.t, one.t);
                if (!d.empty()) fail("json:fed-tokens", "%s%s: %s", cuts.size() > 1 ? "in pieces" : "", k != 1 ? " with a growing array" : "", d.c_str());
                event(k, f.ret, cuts.size());
            }
            state(mix(mix(3, one.ret < 0 ? -one.ret : 0), mix(n / 64, one.t.size() / 16)));
            op_end();
        }
    });
    expect_clean(res, "json");
}
Plan gen_json(Rng &r, int tier) {
    Plan p;
    int n = 3 + r.below(tier ? 20 : 8);
    for (int i = 0; i < n; i++) {
        Op o; o.name = "text";
        o.a = {(int64_t)r.below(1 << 28), r.chance(70) ? 1 + (int64_t)r.below(15) : 1 + (int64_t)r.below(150), r.chance(50) ? 0 : (int64_t)r.below(50), (int64_t)r.below(1 << 28), r.chance(55) ? 0 : (int64_t)std::min(1 + r.below(7), 5u)};
        p.ops.push_back(o);
    }
    return p;
}
RegScenario sc1("json", gen_json, run_json);

} // namespace

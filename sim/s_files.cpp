// File helpers under faults: files, directories, shared mappings and digests (scenario "files").
// Model: what is stored under each name; every answer must be the whole truth or a reported failure.
#include "bw.hpp"
#include <binary_xml/utils.h>
#include <binary_xml/files.h>
#include <binary_xml/missings.h>
#include <unistd.h>
#include <errno.h>
#include <string.h>
#include <set>
#include <sys/stat.h>

extern "C" void sim_delete_a(void *);

using namespace sim;

namespace {

//---------------------------------------------------------------- independent SHA-1 (FIPS 180)
std::string ref_sha1(const std::string &m) {
    uint32_t h[5] = {0x67452301u, 0xEFCDAB89u, 0x98BADCFEu, 0x10325476u, 0xC3D2E1F0u};
    std::string s = m;
    s.push_back((char)0x80);
    while (s.size() % 64 != 56) s.push_back(0);
    uint64_t bits = (uint64_t)m.size() * 8;
    for (int i = 7; i >= 0; i--) s.push_back((char)(bits >> (8 * i)));
    auto rol = [](uint32_t x, int n) { return (x << n) | (x >> (32 - n)); };
    for (size_t b = 0; b < s.size(); b += 64) {
        uint32_t w[80];
        for (int i = 0; i < 16; i++) w[i] = (uint32_t)(uint8_t)s[b + 4 * i] << 24 | (uint32_t)(uint8_t)s[b + 4 * i + 1] << 16 | (uint32_t)(uint8_t)s[b + 4 * i + 2] << 8 | (uint8_t)s[b + 4 * i + 3];
        for (int i = 16; i < 80; i++) w[i] = rol(w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16], 1);
        uint32_t a = h[0], c1 = h[1], c = h[2], d = h[3], e = h[4];
        for (int i = 0; i < 80; i++) {
            uint32_t f, k;
            if (i < 20) { f = (c1 & c) | (~c1 & d); k = 0x5A827999; }
            else if (i < 40) { f = c1 ^ c ^ d; k = 0x6ED9EBA1; }
            else if (i < 60) { f = (c1 & c) | (c1 & d) | (c & d); k = 0x8F1BBCDC; }
            else { f = c1 ^ c ^ d; k = 0xCA62C1D6; }
            uint32_t t = rol(a, 5) + f + e + k + w[i];
            e = d; d = c; c = rol(c1, 30); c1 = a; a = t;
        }
        h[0] += a; h[1] += c1; h[2] += c; h[3] += d; h[4] += e;
    }
    std::string r;
    for (int i = 0; i < 5; i++) for (int k = 3; k >= 0; k--) r.push_back((char)(h[i] >> (8 * k)));
    return r;
}
std::string data_of(uint64_t seed, int64_t len, bool text) {
    Rng r(seed);
    std::string s((size_t)len, 0);
    for (auto &c : s) c = text ? (char)(32 + r.below(95)) : (char)r.below(256);
    return s;
}

const std::string LONG_NAME = "d0/" + std::string(255, 'n');
const char *NAMES[] = {"f0", "f1", "f2", "d0/f0", "d0/f1", "d0/s.x/f0", "d1.y/f0", "d1.y/s/t/f0", // the usual ones
    "..k", "d0/..k", "d0/.h", "d0/...", "d1.y/...x", "d0/a b\tc", "d1.y/\xC5\x99\xC3\xAD\xC5\xA1", "d0/-", "d0/~", "d0/%s%n", LONG_NAME.c_str(), "d1.y/..d/f0"};
enum { N_USUAL = 8, N_NAMES = 20 };
const char *DIRS[] = {"d0", "d0/s.x", "d1.y", "d1.y/s", "d1.y/s/t", "d2/a/b/c", "d1.y/..d", ".e"};
enum { N_DIRS = 8 };

struct Files {
    const Plan &p;
    std::map<std::string, std::string> files;
    std::set<std::string> dirs;
    int64_t heap0 = 0;
    size_t index = 0;
    Files(const Plan &p) : p(p) {}

    static std::string parent(const std::string &n) { size_t k = n.rfind('/'); return k == std::string::npos ? "" : n.substr(0, k); }
    bool has_dir(const std::string &d) { return d.empty() || dirs.count(d); }
    void resources_zero(const char *what, bool ok) {
        if (open_fds() || open_maps() || open_files() || open_dirs() || bad_closes()) fail("files:held", "%s (%s) left %s", what, ok ? "done" : "failed", resources().c_str());
        if (heap_live() != heap0) fail("files:heap", "%s (%s) keeps %lld memory blocks", what, ok ? "done" : "failed", (long long)(heap_live() - heap0));
    }
    // result must be success unless something failed; `can` = the model says it can be done
    void verdict(const char *what, const std::string &n, bool ok, bool can, bool any) {
        if (ok && !can) fail("files:phantom", "%s(%s) reports success, but there is no such thing", what, n.c_str());
        if (!ok && can && !any) fail("files:refused", "%s(%s) failed although nothing failed", what, n.c_str());
        count(ok ? "files.done" : any ? "files.failed_by_fault" : "files.refused");
    }
    void mkdirs(const std::string &path, bool ok) { // model after a call for `path` (its last part is not created)
        for (size_t k = 1; k < path.size(); k++) if (path[k] == '/') {
            std::string d = path.substr(0, k);
            struct stat st;
            bool is = ::stat(d.c_str(), &st) == 0 && S_ISDIR(st.st_mode);
            if (ok && !is) fail("files:directory", "force_directory(%s) reports success, %s is not a directory", path.c_str(), d.c_str());
            if (is) dirs.insert(d); else break;
        }
    }
    bool can_mkdirs(const std::string &path) {
        for (size_t k = 1; k < path.size(); k++) if (path[k] == '/' && files.count(path.substr(0, k))) return false;
        return true;
    }

    void step(const Op &o) {
        const std::string n = NAMES[(uint64_t)o.arg(0) % N_NAMES];
        const bool there = files.count(n) != 0;
        const int64_t len = o.arg(2);
        const char *what = o.name.c_str();
        bool ok = false, any = false;
        if (o.name == "put") {
            if (!has_dir(parent(n)) || dirs.count(n)) return;
            files[n] = data_of(o.arg(1), len, false);
            spew(n.c_str(), files[n]);
            return;
        }
        if (o.name == "del") { if (there) { ::unlink(n.c_str()); files.erase(n); } return; }
        if (o.name == "block") { // a file where a directory would be
            std::string d = DIRS[(uint64_t)o.arg(0) % N_DIRS];
            if (!has_dir(parent(d)) || dirs.count(d)) return;
            files[d] = "x"; spew(d.c_str(), "x");
            return;
        }
        if (o.name == "unblock") { std::string d = DIRS[(uint64_t)o.arg(0) % N_DIRS]; if (files.count(d)) { ::unlink(d.c_str()); files.erase(d); } return; }
        auto begin = [&] { op_begin(&o); disk_free = o.arg(6, -1); };
        auto end = [&] { any = any_fault_fired() || short_io > 0; op_end(); disk_free = -1; };
        if (o.name == "write") {
            std::string want = data_of(o.arg(1), len, true);
            int style = (int)((uint64_t)o.arg(3) % 3);
            std::string exp = style == 0 ? want : style == 1 ? std::to_string((int)o.arg(1)) + ":" + want + "\n" : "<" + want + ">\n";
            bool can = has_dir(parent(n)) && !dirs.count(n);
            auto body = [&] {
                begin();
                if (style == 0) ok = WriteToFile(n.c_str(), "%s", want.c_str());
                else if (style == 1) ok = WriteToFile(n.c_str(), "%d:%s\n", (int)o.arg(1), want.c_str());
                else ok = WriteToFile(n.c_str(), "<%s>\n", want.c_str());
                bool open_failed = fault_fired("fopen");
                end();
                resources_zero("WriteToFile", ok);
                verdict("WriteToFile", n, ok, can, any);
                bool there2; std::string now = slurp(n.c_str(), &there2);
                if (ok && now != exp) fail("files:content", "WriteToFile(%s) reports success, the file has %zu bytes instead of %zu", n.c_str(), now.size(), exp.size());
                if (!ok && open_failed && (there2 != there || (there && now != files[n]))) fail("files:content", "WriteToFile(%s) could not open the file and changed it", n.c_str());
                if (!ok && !open_failed && there2 && exp.compare(0, now.size(), now) != 0) fail("files:content", "WriteToFile(%s) failed and left something else than a part", n.c_str());
            };
            run_maybe_crash(o, body, "WriteToFile");
            bool there2; std::string now = slurp(n.c_str(), &there2);
            if (there2) files[n] = now; else files.erase(n);
        } else if (o.name == "read") {
            begin();
            int size = -12345;
            char *d = ReadFile(n.c_str(), o.arg(3) & 1, o.arg(3) & 2 ? nullptr : &size);
            end();
            bool can = there && !files[n].empty();
            ok = d != nullptr;
            verdict("ReadFile", n, ok, can, any);
            if (d) {
                const std::string &c = files[n];
                if (!(o.arg(3) & 2) && size != (int)c.size()) fail("files:content", "ReadFile(%s): size %d instead of %zu", n.c_str(), size, c.size());
                if (memcmp(d, c.data(), c.size()) != 0) fail("files:content", "ReadFile(%s) gives other content", n.c_str());
                if (d[c.size()] != 0) fail("files:content", "ReadFile(%s): content is not terminated", n.c_str());
                sim_delete_a(d);
            } else if (there && files[n].empty() && !any && !(o.arg(3) & 2) && size != 0) fail("files:content", "ReadFile(%s) of empty file: size %d", n.c_str(), size);
            resources_zero("ReadFile", ok);
        } else if (o.name == "get") {
            std::string b((size_t)len, '#');
            begin();
            int rd = file_get_contents(n.c_str(), &b[0], (int)len);
            end();
            ok = rd >= 0;
            verdict("file_get_contents", n, ok, there, any);
            if (ok) {
                std::string exp = files[n].substr(0, (size_t)len);
                size_t l = exp.size();
                exp.resize((size_t)len, 0);
                if (rd != (int)l) fail("files:content", "file_get_contents(%s,%d) gives %d bytes of %zu and does not fail", n.c_str(), (int)len, rd, files[n].size());
                if (b != exp) fail("files:content", "file_get_contents(%s,%d) gives other content", n.c_str(), (int)len);
            }
            resources_zero("file_get_contents", ok);
        } else if (o.name == "sha") {
            unsigned char h[20]; memset(h, 0x55, 20);
            begin();
            ok = file_getsha1(n.c_str(), h);
            end();
            verdict("file_getsha1", n, ok, there, any);
            if (ok && std::string((char *)h, 20) != ref_sha1(files[n])) fail("files:digest", "file_getsha1(%s) reports success with a wrong digest (%zu bytes)", n.c_str(), files[n].size());
            resources_zero("file_getsha1", ok);
        } else if (o.name == "mem") { // digest of data that comes in pieces
            std::string m = data_of(o.arg(1), len, false), ref = ref_sha1(m);
            unsigned char h[20];
            SHA1((const unsigned char *)m.data(), m.size(), h);
            if (std::string((char *)h, 20) != ref) fail("files:digest", "SHA1 of %zu bytes is wrong", m.size());
            Rng r(o.arg(3));
            blk_SHA_CTX c; memset(&c, 0xCC, sizeof(c));
            blk_SHA1_Init(&c);
            size_t at = 0; std::string pieces;
            int mode = r.below(3);
            while (at < m.size()) {
                size_t k = mode == 0 ? r.below(8) : mode == 1 ? r.below(200) : 56 + r.below(16);
                if (k > m.size() - at) k = m.size() - at;
                std::string piece = m.substr(at, k); // moved each time
                blk_SHA1_Update(&c, piece.data(), k);
                piece.assign(piece.size(), 'z');
                at += k;
            }
            blk_SHA1_Final(h, &c);
            if (std::string((char *)h, 20) != ref) fail("files:digest", "SHA1 of %zu bytes in pieces is wrong", m.size());
            count("files.digest");
        } else if (o.name == "info") {
            file_mtime = 1000000000 + o.arg(1);
            std::string q = o.arg(3) % 4 == 0 ? DIRS[(uint64_t)o.arg(0) % N_DIRS] : n;
            bool isdir = dirs.count(q), isfile = files.count(q), e = isdir || isfile;
            int64_t size = isfile ? (int64_t)files[q].size() : -1;
            int f = (int)((uint64_t)o.arg(2) % 4);
            begin();
            int64_t v = f == 0 ? (int64_t)FileGetSize(q.c_str()) : f == 1 ? (int64_t)file_getsize(q.c_str()) : f == 2 ? (int64_t)file_gettime(q.c_str()) : (int64_t)file_exists(q.c_str());
            end();
            static const char *F[] = {"FileGetSize", "file_getsize", "file_gettime", "file_exists"};
            ok = f == 3 ? v == 1 : v >= 0;
            bool can = f == 0 ? isfile : e;
            verdict(F[f], q, ok, can, any);
            if (ok && f < 2 && isfile && v != size) fail("files:content", "%s(%s) gives %lld instead of %lld", F[f], q.c_str(), (long long)v, (long long)size);
            if (ok && f == 2 && v != file_mtime) fail("files:content", "file_gettime(%s) gives %lld instead of %lld", q.c_str(), (long long)v, (long long)file_mtime);
            resources_zero(F[f], ok);
        } else if (o.name == "share") {
            bool rw = o.arg(3) & 1, must = o.arg(3) & 2, keep_fd = o.arg(3) & 4;
            int64_t pool = 1 + (uint64_t)o.arg(4) % 20000;
            int fd = -77;
            begin();
            char *m = rw ? ShareFileRW(n.c_str(), must, keep_fd ? &fd : nullptr, (int)pool) : ShareFileRO(n.c_str(), keep_fd ? &fd : nullptr, (int)pool);
            bool any1 = any_fault_fired();
            ok = m != nullptr;
            bool can = there || (rw && !must && has_dir(parent(n)) && !dirs.count(n));
            verdict("ShareFile", n, ok, can, any1);
            if (!ok) { end(); resources_zero("ShareFile", false); }
            else {
                if (keep_fd && (fd < 0 || open_fds() != 1)) fail("files:share", "ShareFile(%s) gives no descriptor", n.c_str());
                if (!keep_fd && open_fds() != 0) fail("files:held", "ShareFile(%s) keeps a descriptor nobody knows", n.c_str());
                std::string c = there ? files[n] : "";
                size_t vis = c.size() < (size_t)pool ? c.size() : (size_t)pool;
                if (memcmp(m, c.data(), vis) != 0) fail("files:content", "ShareFile(%s) shows other content", n.c_str());
                if (rw) { Rng r(o.arg(1)); for (int i = 0; vis && i < 3; i++) { size_t at = r.below((uint32_t)vis); c[at] = m[at] = (char)r.below(256); } }
                else { bool rdonly = true; (void)rdonly; }
                files[n] = c;
                if (slurp(n.c_str()) != c) fail("files:content", "a store into ShareFile(%s) is not in the file", n.c_str());
                CloseSharedFile(m, (int)pool, keep_fd ? fd : -1, n.c_str());
                end();
                resources_zero("CloseSharedFile", true);
            }
            bool t2; std::string now = slurp(n.c_str(), &t2);
            if (t2) files[n] = now; // an empty file may have been created
            else if (there) fail("files:content", "ShareFile(%s) removed the file", n.c_str());
        } else if (o.name == "scan") {
            std::string d = (uint64_t)o.arg(0) % 9 == 8 ? "." : DIRS[(uint64_t)o.arg(0) % N_DIRS];
            struct Ctx { std::map<std::string, int> seen; int left; int err; bool nested; int depth; bool held; bool sub_failed = false; int sub = 0; } x{};
            x.left = (int)o.arg(2) - 1; x.err = (int)o.arg(3); x.nested = o.arg(4) & 1;
            static const on_file_event cb = [](const char *dir, const char *file, void *u, uint8_t type) -> bool {
                Ctx &x = *(Ctx *)u;
                if (x.depth == 0) { x.seen[file]++; if (type != DT_DIR && type != DT_REG && type != DT_UNKNOWN) fail("files:scan", "scan_dir: type %d of %s", type, file); }
                else x.sub++;
                if (x.nested && type == DT_DIR && x.depth == 0) {
                    x.depth++;
                    if (!scan_dir((std::string(dir) + "/" + file).c_str(), u, cb)) x.sub_failed = true;
                    x.depth--;
                }
                errno = x.err; // something else went wrong meanwhile, it is not of the scan
                if (x.depth == 0 && x.left == 0) return false;
                if (x.depth == 0) x.left--;
                return true;
            };
            begin();
            ok = scan_dir(d.c_str(), &x, cb);
            end();
            bool can = d == "." || dirs.count(d);
            std::set<std::string> exp;
            std::string pre = d == "." ? "" : d + "/";
            auto add = [&](const std::string &q) { if (q.size() > pre.size() && q.compare(0, pre.size(), pre) == 0 && q.find('/', pre.size()) == std::string::npos) exp.insert(q.substr(pre.size())); };
            for (auto &f : files) add(f.first);
            for (auto &q : dirs) add(q);
            for (auto &s : x.seen) {
                if (s.second != 1) fail("files:scan", "scan_dir(%s) reports %s %d times", d.c_str(), s.first.c_str(), s.second);
                if (!exp.count(s.first)) fail("files:scan", "scan_dir(%s) reports %s, there is no such file", d.c_str(), s.first.c_str());
            }
            bool stopped = o.arg(2) > 0 && x.seen.size() == (size_t)o.arg(2);
            if (ok && !stopped && x.seen.size() != exp.size()) fail("files:scan", "scan_dir(%s) reports success with %zu of %zu files", d.c_str(), x.seen.size(), exp.size());
            verdict("scan_dir", d, ok, can, any);
            if (x.sub_failed && !any) fail("files:refused", "nested scan_dir failed although nothing failed");
            resources_zero("scan_dir", ok);
        } else if (o.name == "mkdirs") {
            std::string path = (o.arg(3) & 1) ? n : std::string(DIRS[(uint64_t)o.arg(0) % N_DIRS]) + "/";
            bool can = can_mkdirs(path);
            auto body = [&] {
                begin();
                ok = force_directory(path.c_str(), 0755);
                end();
                verdict("force_directory", path, ok, can, any);
                mkdirs(path, ok);
                resources_zero("force_directory", ok);
            };
            run_maybe_crash(o, body, "force_directory");
            mkdirs(path, false);
        } else if (o.name == "mkdirs2") { // several processes make overlapping directories
            std::vector<std::string> paths;
            int k = 2 + (int)((uint64_t)o.arg(2) % 2);
            for (int i = 0; i < k; i++) paths.push_back(std::string(DIRS[(uint64_t)(o.arg(0) + (o.arg(1) >> (4 * i))) % N_DIRS]) + "/");
            std::vector<int> res(k, -1);
            std::vector<Task> t;
            for (int i = 0; i < k; i++) t.push_back([&, i] { res[i] = force_directory(paths[i].c_str(), 0755); });
            run_tasks(t, (uint64_t)o.arg(1), 2);
            for (int i = 0; i < k; i++) {
                verdict("force_directory (several)", paths[i], res[i] == 1, can_mkdirs(paths[i]), false);
                mkdirs(paths[i], res[i] == 1);
            }
            ok = true;
        }
        event(0xF11E, ok, any);
        state(mix(hash_str(o.name), mix(ok * 2 + any, files.size() * 16 + dirs.size())));
        (void)what;
    }
    void run_maybe_crash(const Op &o, const std::function<void()> &body, const char *where) {
        bool crash = false;
        for (auto &f : o.f) if (f.kind == "crash") crash = true;
        if (!crash) { body(); return; }
        expect_clean(run_process(body), where, true);
    }
    void run() {
        heap0 = heap_live();
        for (index = 0; index < p.ops.size(); index++) {
            const Op &o = p.ops[index];
            snprintf(shm->note, sizeof(shm->note), "op %d %s", (int)index, o.name.c_str());
            short_io = o.arg(5); io_seed = o.arg(1) | 1;
            heap_fill_seed = o.arg(1);
            step(o);
            short_io = 0;
            // the rest of the files is untouched
            for (auto &f : files) { bool there; if (slurp(f.first.c_str(), &there) != f.second || !there) fail("files:damage", "%s changed %s", o.name.c_str(), f.first.c_str()); }
            event(0xF12E, index, files.size());
        }
    }
};

void run_files(const Plan &p) {
    ProcResult r = run_process([&] { Files f(p); f.run(); });
    expect_clean(r, "process");
}

Plan gen_files(Rng &r, int tier) {
    Plan p;
    int n = 4 + r.below(tier ? 60 : 30);
    static const std::vector<std::string> OPS = {"put", "put", "put", "del", "block", "unblock", "write", "write", "write", "read", "read", "read", "get", "get", "sha", "sha", "sha", "mem", "info", "info", "share", "share", "scan", "scan", "scan", "mkdirs", "mkdirs", "mkdirs", "mkdirs2"};
    static const std::vector<int64_t> SZ = {0, 1, 55, 56, 63, 64, 65, 119, 4095, 4096, 4097, 8191, 8192, 12288, 20000};
    for (int i = 0; i < n; i++) {
        Op o;
        o.name = i < 2 ? "mkdirs" : i < 5 ? "put" : r.pick(OPS);
        int64_t len = r.chance(50) ? SZ[r.below((uint32_t)SZ.size())] : r.chance(70) ? (int64_t)r.below(300) : (int64_t)r.below(30000);
        if (r.chance(8)) len = r.edge(200000);
        if (r.chance(2)) len = 60000 + r.below(100000);
        o.a = {(int64_t)(r.chance(65) ? r.below(N_USUAL) : r.below(720)), (int64_t)r.below(1 << 24), len, (int64_t)r.below(64), (int64_t)r.below(30000), r.chance(20) ? (int64_t)(1 + r.below(5000)) : 0, -1};
        if (o.name == "scan") { o.a[2] = r.chance(40) ? r.below(4) : 0; o.a[3] = r.chance(50) ? 0 : r.chance(50) ? EIO : ENOENT; }
        if (o.name == "info") o.a[2] = r.below(4);
        std::vector<std::string> K;
        if (o.name == "write") K = {"fopen", "vfprintf", "fclose", "write", "write", "crash", "full"};
        else if (o.name == "read") K = {"open", "fstat", "read", "read", "close"};
        else if (o.name == "get" || o.name == "sha") K = {"open", "read", "read", "read", "close"};
        else if (o.name == "info") K = {"stat"};
        else if (o.name == "share") K = {"open", "mmap", "close", "munmap"};
        else if (o.name == "scan") K = {"opendir", "readdir", "readdir", "closedir"};
        else if (o.name == "mkdirs") K = {"mkdir", "mkdir_race", "crash"};
        if (!K.empty() && r.chance(40)) {
            std::string k = r.pick(K);
            if (k == "full") o.a[6] = r.chance(30) ? 0 : (int64_t)r.below((uint32_t)len + 1);
            else {
                int64_t nth = r.chance(60) ? 0 : (int64_t)r.below(k == "crash" ? 12 : 5);
                int64_t arg = k == "read" || k == "write" ? (r.chance(50) ? (int64_t)r.below(5000) : r.chance(50) ? -EIO : -EINTR) : k == "crash" ? 0 : r.chance(50) ? EIO : r.chance(50) ? ENOSPC : EACCES;
                o.f.push_back({k, nth, arg});
            }
        }
        p.ops.push_back(o);
    }
    return p;
}
RegScenario sc("files", gen_files, run_files);

} // namespace

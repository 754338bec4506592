// Driver: batches of seeded runs, exact replay, minimisation, determinism self test.
#include "core.hpp"
#include <sys/resource.h>
#include <sys/personality.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
#include <errno.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <dirent.h>
#include <unordered_set>
#include <algorithm>

using namespace sim;
namespace sim { void seams_new_process(uint64_t); }

static std::string scratch;

static void wipe(const std::string &dir, bool self) {
    DIR *d = opendir(dir.c_str());
    if (!d) return;
    while (struct dirent *e = readdir(d)) {
        std::string n = e->d_name;
        if (n == "." || n == "..") continue;
        std::string p = dir + "/" + n;
        struct stat st;
        if (lstat(p.c_str(), &st) < 0) continue;
        if (S_ISDIR(st.st_mode)) wipe(p, true); else unlink(p.c_str());
    }
    closedir(d);
    if (self) rmdir(dir.c_str());
}
static void make_scratch() {
    const char *base = access("/dev/shm", W_OK) == 0 ? "/dev/shm" : "/tmp";
    std::string t = std::string(base) + "/bxsim.XXXXXX";
    std::vector<char> b(t.begin(), t.end());
    b.push_back(0);
    if (!mkdtemp(b.data())) { perror("mkdtemp"); exit(2); }
    scratch = b.data();
    mkdir((scratch + "/w").c_str(), 0755);
}
static void drop_scratch() {
    if (scratch.empty()) return;
    if (chdir("/") < 0) { }
    wipe(scratch, true);
    scratch.clear();
}

static const Scenario *find(const std::string &n) {
    for (auto &s : scenarios()) if (n == s.name) return &s;
    return nullptr;
}

static void reset_shm() {
    size_t head = offsetof(Shm, states);
    memset(shm, 0, head);
    shm->dump_len = 0;
    shm->hash = 0x51D;
}

// one simulated run = one forked process in an empty scratch directory
static void exec_plan(const Plan &p) {
    const Scenario *s = find(p.scenario);
    if (!s) { fprintf(stderr, "unknown scenario %s\n", p.scenario.c_str()); exit(2); }
    reset_shm();
    wipe(scratch + "/w", false);
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
        setpgid(0, 0);
        if (chdir((scratch + "/w").c_str()) < 0) _exit(86);
        if (!getenv("SIM_VERBOSE")) { int n = open("/dev/null", O_RDWR); dup2(n, 1); if (!getenv("SIM_TRACE")) dup2(n, 2); close(n); }
        struct rlimit mem = {4ull << 30, 4ull << 30}; // an endless loop must not take the machine's memory
        setrlimit(RLIMIT_DATA, &mem);
        seams_new_process(2000ull * 1000 * 1000);
        s->run(p);
        _exit(0);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) { }
    kill(-pid, SIGKILL);
    if (shm->status == ST_OK) {
        if (WIFSIGNALED(st)) { shm->status = ST_ERROR; snprintf(shm->cls, sizeof(shm->cls), "harness-signal"); snprintf(shm->msg, sizeof(shm->msg), "run process died by signal %d", WTERMSIG(st)); }
        else if (WEXITSTATUS(st) != 0) { shm->status = ST_ERROR; snprintf(shm->cls, sizeof(shm->cls), "harness-exit"); snprintf(shm->msg, sizeof(shm->msg), "run process exited %d (%s)", WEXITSTATUS(st), shm->note); }
    }
    shm->hash = mix(shm->hash, shm->status);
}

static uint64_t plan_seed(uint64_t seed, const std::string &scen, uint64_t i) { return mix(mix(hash_str(scen), seed), i); }

static Plan gen(const Scenario *s, uint64_t seed, uint64_t i, int tier) {
    uint64_t ps = plan_seed(seed, s->name, i);
    Rng r(ps);
    Plan p = s->gen(r, tier);
    p.scenario = s->name;
    p.seed = ps;
    return p;
}
static std::string jesc(const std::string &s) {
    std::string r;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c == '\n') r += "\\n";
        else if (c < 32 || c > 126) r += fmt("\\u%04x", c);
        else r += c;
    }
    return r;
}
static std::string comment(const std::string &msg) {
    std::string out;
    size_t i = 0;
    while (i < msg.size()) { size_t e = msg.find('\n', i); if (e == std::string::npos) e = msg.size(); out += "# " + msg.substr(i, e - i) + "\n"; i = e + 1; }
    return out;
}
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

//---------------------------------------------------------------- minimise
static int attempts;
static double min_deadline;
static bool still(const Plan &p, const std::string &cls) {
    if (attempts <= 0 || now() > min_deadline) return false;
    attempts--;
    exec_plan(p);
    return shm->status == ST_VIOLATION && cls == shm->cls;
}
static Plan minimise(Plan p, const std::string &cls) {
    attempts = 1500;
    min_deadline = now() + 60;
    for (bool changed = true; changed;) {
        changed = false;
        for (size_t chunk = std::max<size_t>(1, p.ops.size() / 2); chunk >= 1; chunk /= 2) {
            for (size_t i = 0; i < p.ops.size();) {
                Plan q = p;
                q.ops.erase(q.ops.begin() + i, q.ops.begin() + std::min(i + chunk, q.ops.size()));
                if (still(q, cls)) { p = q; changed = true; } else i += chunk;
            }
            if (chunk == 1) break;
        }
        for (size_t i = 0; i < p.ops.size(); i++)
            for (size_t k = 0; k < p.ops[i].f.size();) {
                Plan q = p;
                q.ops[i].f.erase(q.ops[i].f.begin() + k);
                if (still(q, cls)) { p = q; changed = true; } else k++;
            }
    }
    for (int round = 0; round < 2; round++)
        for (size_t i = 0; i < p.ops.size(); i++) {
            for (size_t k = 0; k < p.ops[i].a.size(); k++) {
                for (int tries = 0; tries < 12; tries++) {
                    int64_t v = p.ops[i].a[k];
                    if (v == 0) break;
                    bool ok = false;
                    for (int64_t c : {(int64_t)0, v / 2, v - (v > 0 ? 1 : -1)}) {
                        if (c == v) continue;
                        Plan q = p; q.ops[i].a[k] = c;
                        if (still(q, cls)) { p = q; ok = true; break; }
                    }
                    if (!ok) break;
                }
            }
            for (size_t k = 0; k < p.ops[i].f.size(); k++)
                for (int tries = 0; tries < 20; tries++) {
                    int64_t v = p.ops[i].f[k].nth;
                    if (v <= 0) break;
                    bool ok = false;
                    for (int64_t c : {(int64_t)0, v / 2, v - 1}) {
                        Plan q = p; q.ops[i].f[k].nth = c;
                        if (still(q, cls)) { p = q; ok = true; break; }
                    }
                    if (!ok) break;
                }
            for (size_t len = p.ops[i].s.size(); len > 0;) {
                len /= 2;
                Plan q = p; q.ops[i].s = p.ops[i].s.substr(0, len);
                if (!still(q, cls)) break;
                p = q;
            }
        }
    return p;
}

static int usage() { fprintf(stderr, "usage: simrun list | batch SCEN:COUNT[,..] SEED TIER WORKER WORKERS OUTDIR MAXSEC | replay FILE | min FILE OUT | gen SCEN SEED I TIER | selftest SCEN SEED COUNT\n"); return 2; }

int main(int argc, char **argv) {
    // the same addresses in every execution, as far as this machine allows it
    if (!getenv("SIM_FIXED")) {
        setenv("SIM_FIXED", "1", 1);
        int old = personality(0xffffffff);
        if (old != -1 && !(old & ADDR_NO_RANDOMIZE) && personality(old | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
    }

    if (argc < 2) return usage();
    std::string cmd = argv[1];
    setenv("TZ", "UTC", 1);
    shm = (Shm *)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (cmd == "list") { for (auto &s : scenarios()) puts(s.name); return 0; }
    if (cmd == "gen" && argc >= 6) {
        const Scenario *s = find(argv[2]);
        if (!s) return usage();
        fputs(gen(s, strtoull(argv[3], 0, 10), strtoull(argv[4], 0, 10), atoi(argv[5])).text().c_str(), stdout);
        return 0;
    }
    make_scratch();
    int rc = 2;
    if (cmd == "replay" && argc >= 3) {
        Plan p;
        bool ok;
        std::string t = slurp(argv[2], &ok);
        if (!ok || !Plan::parse(t, p)) { fprintf(stderr, "cannot read %s\n", argv[2]); drop_scratch(); return 2; }
        exec_plan(p);
        printf("{\"status\":%d,\"cls\":\"%s\",\"hash\":\"%016llx\",\"events\":%llu,\"steps\":%llu,\"msg\":\"%s\"}\n", shm->status, jesc(shm->cls).c_str(),
               (unsigned long long)shm->hash, (unsigned long long)shm->events, (unsigned long long)shm->steps, jesc(shm->msg).c_str());
        rc = 0;
    }
    else if (cmd == "min" && argc >= 4) {
        Plan p;
        bool ok;
        std::string t = slurp(argv[2], &ok);
        if (!ok || !Plan::parse(t, p)) { drop_scratch(); return 2; }
        exec_plan(p);
        if (shm->status == ST_VIOLATION) {
            std::string cls = shm->cls;
            p = minimise(p, cls);
            exec_plan(p);
            std::string out = p.text() + "# violation " + shm->cls + "\n# hash " + fmt("%016llx", (unsigned long long)shm->hash) + "\n";
            out += comment(shm->msg);
            spew(argv[3], out);
            rc = 0;
        } else rc = 3;
    }
    else if (cmd == "selftest" && argc >= 5) {
        const Scenario *s = find(argv[2]);
        uint64_t seed = strtoull(argv[3], 0, 10), n = strtoull(argv[4], 0, 10), h = 0;
        rc = 0;
        for (uint64_t i = 0; s && i < n; i++) {
            exec_plan(gen(s, seed, i, 0));
            h = mix(h, shm->hash);
            printf("%llu %016llx %d %s\n", (unsigned long long)i, (unsigned long long)shm->hash, shm->status, shm->cls);
        }
        printf("total %016llx\n", (unsigned long long)h);
    }
    else if (cmd == "batch" && argc >= 9) {
        std::string list = argv[2];
        uint64_t seed = strtoull(argv[3], 0, 10);
        int tier = atoi(argv[4]);
        uint64_t w = strtoull(argv[5], 0, 10), W = strtoull(argv[6], 0, 10);
        std::string out = argv[7];
        double maxsec = atof(argv[8]), t0 = now();
        std::map<std::string, uint64_t> counters, runs, probes;
        std::unordered_set<uint64_t> states, hashes;
        std::map<std::string, int> classes;
        uint64_t max_op = 0, steps = 0, events = 0, sim_ns = 0, total = 0, nontrivial = 0;
        int nviol = 0, nerr = 0, max_bad = getenv("SIM_STOP") ? atoi(getenv("SIM_STOP")) : 12;
        bool cut = false;
        std::vector<std::string> samples;
        size_t i0 = 0;
        rc = 0;
        while (i0 < list.size() && !cut) {
            size_t e = list.find(',', i0);
            if (e == std::string::npos) e = list.size();
            std::string item = list.substr(i0, e - i0);
            i0 = e + 1;
            size_t c = item.find(':');
            std::string name = item.substr(0, c);
            uint64_t n = strtoull(item.c_str() + c + 1, 0, 10);
            const Scenario *s = find(name);
            if (!s) { fprintf(stderr, "unknown scenario %s\n", name.c_str()); rc = 2; break; }
            for (uint64_t i = w; i < n; i += W) {
                if (now() - t0 > maxsec) { cut = true; break; }
                Plan p = gen(s, seed, i, tier);
                exec_plan(p);
                total++;
                runs[name]++;
                if (shm->max_op_steps > max_op) max_op = shm->max_op_steps;
                steps += shm->steps; events += shm->events; sim_ns += shm->sim_ns;
                bool faulted = false;
                for (int k = 0; k < MAX_COUNTERS && shm->counters[k].name[0]; k++) {
                    counters[shm->counters[k].name] += shm->counters[k].n;
                    probes[shm->counters[k].name]++;
                    faulted = true;
                }
                bool fresh = hashes.insert(shm->hash).second;
                if (fresh && faulted) nontrivial++;
                for (uint32_t k = 0; k < shm->nstates; k++) if (states.size() < 4000000) states.insert(shm->states[k]);
                if (samples.size() < 2 && faulted && i > 2 * W) samples.push_back(p.text());
                if (shm->status != ST_OK) {
                    std::string cls = shm->cls;
                    if (shm->status == ST_ERROR) nerr++; else nviol++;
                    if (classes[cls]++ < 1) {
                        std::string f = out + "/" + (shm->status == ST_ERROR ? "err" : "viol") + fmt(".%llu.%d", (unsigned long long)w, (int)classes.size());
                        spew(f.c_str(), p.text() + "# violation " + cls + "\n# index " + std::to_string(i) + "\n" + comment(shm->msg));
                    }
                    if (nviol + nerr >= max_bad) { cut = true; break; }
                }
            }
        }
        std::string j = "{";
        j += fmt("\"total\":%llu,\"steps\":%llu,\"events\":%llu,\"sim_ns\":%llu,\"distinct\":%zu,\"nontrivial\":%llu,\"nviol\":%d,\"nerr\":%d,\"cut\":%d,\"wall\":%.2f,\"max_op_steps\":%llu,", (unsigned long long)total,
                 (unsigned long long)steps, (unsigned long long)events, (unsigned long long)sim_ns, hashes.size(), (unsigned long long)nontrivial, nviol, nerr, (int)cut, now() - t0, (unsigned long long)max_op);
        j += "\"runs\":{";
        bool first = true;
        for (auto &r : runs) { j += fmt("%s\"%s\":%llu", first ? "" : ",", jesc(r.first).c_str(), (unsigned long long)r.second); first = false; }
        j += "},\"counters\":{";
        first = true;
        for (auto &r : counters) { j += fmt("%s\"%s\":%llu", first ? "" : ",", jesc(r.first).c_str(), (unsigned long long)r.second); first = false; }
        j += "},\"samples\":[";
        first = true;
        for (auto &s : samples) { j += (first ? "\"" : ",\"") + jesc(s) + "\""; first = false; }
        j += "]}";
        spew(fmt("%s/w%llu.json", out.c_str(), (unsigned long long)w).c_str(), j);
        std::string b;
        for (auto h : states) b.append((const char *)&h, 8);
        spew(fmt("%s/w%llu.states", out.c_str(), (unsigned long long)w).c_str(), b);
        b.clear();
        for (auto h : hashes) b.append((const char *)&h, 8);
        spew(fmt("%s/w%llu.hashes", out.c_str(), (unsigned long long)w).c_str(), b);
    }
    else rc = usage();
    drop_scratch();
    return rc;
}

#include "core.hpp"
#include <ucontext.h>
#include <sys/mman.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <signal.h>
#include <errno.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <sys/resource.h>

namespace sim {

static Shm boot_shm; // used while static constructors run
Shm *shm = &boot_shm;

uint64_t hash_bytes(const void *p, size_t n, uint64_t h) {
    const unsigned char *c = (const unsigned char *)p;
    for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 0x100000001b3ull; }
    return h ^ (h >> 29);
}

std::string fmt(const char *f, ...) {
    char b[4000];
    va_list ap; va_start(ap, f);
    vsnprintf(b, sizeof(b), f, ap);
    va_end(ap);
    return b;
}
std::string hex(const std::string &s) {
    static const char *H = "0123456789abcdef";
    std::string r;
    for (unsigned char c : s) { r += H[c >> 4]; r += H[c & 15]; }
    return r;
}
std::string unhex(const std::string &s) {
    std::string r;
    for (size_t i = 0; i + 1 < s.size(); i += 2) r += (char)strtol(s.substr(i, 2).c_str(), nullptr, 16);
    return r;
}

//---------------------------------------------------------------- plan text
// scenario NAME / seed N / cfg K V / op NAME [ints] "hex" / f KIND NTH ARG (belongs to the op above)
static std::string esc(const std::string &s) {
    bool plain = true;
    for (unsigned char c : s) if (c < 33 || c > 126 || c == '"' || c == '%') plain = false;
    return plain ? "\"" + s + "\"" : "%" + hex(s);
}
std::string Plan::text() const {
    std::string r = "scenario " + scenario + "\nseed " + std::to_string(seed) + "\n";
    for (auto &c : cfg) r += "cfg " + c.first + " " + std::to_string(c.second) + "\n";
    for (auto &o : ops) {
        r += "op " + o.name;
        for (auto v : o.a) r += " " + std::to_string(v);
        if (!o.s.empty()) r += " " + esc(o.s);
        r += "\n";
        for (auto &f : o.f) r += "f " + f.kind + " " + std::to_string(f.nth) + " " + std::to_string(f.arg) + "\n";
    }
    return r;
}
bool Plan::parse(const std::string &text, Plan &out) {
    out = Plan();
    size_t i = 0;
    while (i < text.size()) {
        size_t e = text.find('\n', i);
        if (e == std::string::npos) e = text.size();
        std::string line = text.substr(i, e - i);
        i = e + 1;
        if (line.empty() || line[0] == '#') continue;
        std::vector<std::string> w;
        size_t p = 0;
        while (p < line.size()) {
            size_t q = line.find(' ', p);
            if (q == std::string::npos) q = line.size();
            if (q > p) w.push_back(line.substr(p, q - p));
            p = q + 1;
        }
        if (w.empty()) continue;
        if (w[0] == "scenario" && w.size() > 1) out.scenario = w[1];
        else if (w[0] == "seed" && w.size() > 1) out.seed = strtoull(w[1].c_str(), nullptr, 10);
        else if (w[0] == "cfg" && w.size() > 2) out.cfg[w[1]] = strtoll(w[2].c_str(), nullptr, 10);
        else if (w[0] == "op" && w.size() > 1) {
            Op o; o.name = w[1];
            for (size_t k = 2; k < w.size(); k++) {
                if (w[k][0] == '"') o.s = w[k].substr(1, w[k].size() - 2);
                else if (w[k][0] == '%') o.s = unhex(w[k].substr(1));
                else o.a.push_back(strtoll(w[k].c_str(), nullptr, 10));
            }
            out.ops.push_back(o);
        }
        else if (w[0] == "f" && w.size() > 3 && !out.ops.empty())
            out.ops.back().f.push_back({w[1], strtoll(w[2].c_str(), nullptr, 10), strtoll(w[3].c_str(), nullptr, 10)});
        else return false;
    }
    return !out.scenario.empty();
}

//---------------------------------------------------------------- results
void count(const char *name, uint64_t n) {
    for (int i = 0; i < MAX_COUNTERS; i++) {
        if (!shm->counters[i].name[0]) snprintf(shm->counters[i].name, sizeof(shm->counters[i].name), "%s", name);
        if (!strncmp(shm->counters[i].name, name, sizeof(shm->counters[i].name) - 1)) { shm->counters[i].n += n; return; }
    }
}
void state(uint64_t h) { if (shm->nstates < MAX_STATES) shm->states[shm->nstates++] = h; }
static const bool TRACE = getenv("SIM_TRACE") != nullptr;
void event(uint64_t a, uint64_t b, uint64_t c) {
    if (TRACE) fprintf(stderr, "ev %llu: %llx %llx %llx\n", (unsigned long long)shm->events, (unsigned long long)a, (unsigned long long)b, (unsigned long long)c);
    shm->hash = mix(mix(mix(shm->hash, a), b), c);
    shm->events++;
}
void event_s(const std::string &s) {
    if (TRACE) fprintf(stderr, "ev %llu: %s\n", (unsigned long long)shm->events, s.c_str());
    shm->hash = mix(shm->hash, hash_str(s)); shm->events++; }

enum { X_CRASH = 81, X_ASSERT, X_HANG, X_VIOLATION, X_HEAP, X_ERROR, X_EXIT };

[[noreturn]] void fail(const char *cls, const char *f, ...) {
    if (shm->status == ST_OK) {
        shm->status = ST_VIOLATION;
        snprintf(shm->cls, sizeof(shm->cls), "%s", cls);
        va_list ap; va_start(ap, f);
        vsnprintf(shm->msg, sizeof(shm->msg), f, ap);
        va_end(ap);
        event_s(shm->cls);
    }
    _exit(X_VIOLATION);
}
[[noreturn]] void harness_error(const char *f, ...) {
    if (shm->status == ST_OK) {
        shm->status = ST_ERROR;
        snprintf(shm->cls, sizeof(shm->cls), "harness-error");
        va_list ap; va_start(ap, f);
        vsnprintf(shm->msg, sizeof(shm->msg), f, ap);
        va_end(ap);
    }
    _exit(X_ERROR);
}

[[noreturn]] void setup_failed(const char *f, ...) {
    char b[400];
    va_list ap; va_start(ap, f);
    vsnprintf(b, sizeof(b), f, ap);
    va_end(ap);
    fail("refused", "the code under test refused a legal call: %s", b);
}

const char *exit_name(Exit e) {
    static const char *N[] = {"ok", "crash", "assert", "hang", "violation", "signal", "heap", "error", "exit"};
    return N[e];
}

void seams_new_process(uint64_t budget);

static void on_prof(int) { _exit(X_HANG); }

// The body runs on a stack of its own: same address, same content in every execution of the same plan
static const std::function<void()> *stack_body;
__attribute__((no_stack_protector)) static void stack_main() {
    asm volatile("movq %0, %%fs:0x28" : : "r"(0x5ca7c0de11223300ull)); // the guard of local arrays is the same in every execution
    (*stack_body)(); op_end(); _exit(0); }
[[noreturn]] static void on_fixed_stack(const std::function<void()> &body) {
    enum : size_t { SIZE = 8 << 20 };
    static ucontext_t from, to;
    static uint64_t depth = 0; // a process may start another one
    void *s = ::mmap((void *)(0x5a0000000000ull + (depth++ << 24)), SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (s == MAP_FAILED) harness_error("stack");
    stack_body = &body;
    getcontext(&to);
    to.uc_stack.ss_sp = s;
    to.uc_stack.ss_size = SIZE;
    to.uc_link = nullptr;
    makecontext(&to, stack_main, 0);
    swapcontext(&from, &to);
    _exit(0);
}

uint64_t op_budget = 250ull * 1000 * 1000;
ProcResult run_process(const std::function<void()> &body, uint64_t budget) {
    if (!budget) budget = op_budget;
    pid_t pid = fork();
    if (pid < 0) harness_error("fork failed: %d", errno);
    if (pid == 0) {
        signal(SIGPROF, on_prof);
        struct itimerval it = {{0, 0}, {(time_t)(25 + budget / 40000000), 0}}; // CPU-time backup, the step budget decides normally
        setitimer(ITIMER_PROF, &it, nullptr);
        seams_new_process(budget);
        on_fixed_stack(body);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) { }
    ProcResult r = {EX_OK, 0};
    if (WIFSIGNALED(st)) { r.kind = EX_SIGNAL; r.code = WTERMSIG(st); }
    else switch (WEXITSTATUS(st)) {
        case 0: break;
        case X_CRASH: r.kind = EX_CRASH; break;
        case X_ASSERT: r.kind = EX_ASSERT; break;
        case X_HANG: r.kind = EX_HANG; break;
        case X_VIOLATION: _exit(X_VIOLATION);
        case X_ERROR: _exit(X_ERROR);
        default: r.kind = EX_EXIT; r.code = WEXITSTATUS(st);
    }
    event(0xE0, r.kind, r.kind == EX_EXIT ? r.code : 0);
    return r;
}

void expect_clean(const ProcResult &r, const char *where, bool crash_ok, bool assert_ok) {
    if (r.kind == EX_OK) return;
    if (r.kind == EX_CRASH && crash_ok) return;
    if (r.kind == EX_ASSERT && assert_ok) return;
    if (r.kind == EX_CRASH) harness_error("%s: unexpected injected crash", where);
    fail(fmt("%s:%s", where, exit_name(r.kind)).c_str(), "%s: the process ended by %s %d (%s)", where, exit_name(r.kind), r.code, shm->note);
}

//---------------------------------------------------------------- registry
static std::vector<Scenario> &reg() { static std::vector<Scenario> v; return v; }
const std::vector<Scenario> &scenarios() { return reg(); }
void reg_scenario(const Scenario &s) { reg().push_back(s); }

std::string slurp(const char *name, bool *ok) {
    std::string r;
    int fd = ::open(name, O_RDONLY);
    if (ok) *ok = fd >= 0;
    if (fd < 0) return r;
    char b[65536];
    for (;;) { ssize_t n = ::read(fd, b, sizeof(b)); if (n <= 0) break; r.append(b, n); }
    ::close(fd);
    return r;
}
void spew(const char *name, const std::string &data) {
    int fd = ::open(name, O_CREAT | O_TRUNC | O_WRONLY, 0644);
    if (fd < 0) harness_error("cannot write %s", name);
    size_t i = 0;
    while (i < data.size()) { ssize_t n = ::write(fd, data.data() + i, data.size() - i); if (n <= 0) harness_error("cannot write %s", name); i += n; }
    ::close(fd);
}
int64_t real_size(const char *name) {
    struct stat st;
    if (::stat(name, &st) < 0) return -1;
    return st.st_size;
}

} // namespace sim

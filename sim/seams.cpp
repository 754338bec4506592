// The seams: every libc call and every memory access of the library under test arrives here.
// The library objects are compiled with -fsanitize=thread instrumentation (calls to __tsan_*, which
// are implemented below instead of by the sanitizer runtime) and their libc references are renamed
// to sim_* with objcopy.  The harness and libxml2 are not redirected.
#include "core.hpp"
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <strings.h>
#include <unistd.h>
#include <errno.h>
#include <fcntl.h>
#include <dirent.h>
#include <time.h>
#include <malloc.h>
#include <ucontext.h>
#include <sys/stat.h>
#include <sys/mman.h>
#include <set>
#include <new>

namespace sim {

enum { X_CRASH = 81, X_ASSERT, X_HANG, X_VIOLATION, X_HEAP, X_ERROR, X_EXIT };

//================================================================ per-process state
int64_t disk_free = -1;
bool disk_eio = false;
int64_t clock_ns = 1700000000ll * 1000000000ll;
int64_t clock_mono_ns = 5000ll * 1000000000ll;
int clock_fail = 0;
int64_t clock_tick_ns = 1000;
uint64_t rand_state = 1;
int heap_fill = 256;
uint64_t heap_fill_seed = 1;
int64_t file_mtime = 1600000000;
int64_t short_io = 0;
int64_t io_seed = 0;
int map_layout = 0;
bool heap_check = true;
int64_t crash_at = -1;
int64_t crash_points = 0;

static uint64_t step_budget = 250000000;
static uint64_t steps_left = 250000000;
static std::set<int> *fds, *wfds;
static std::map<int, int64_t> *news; // files made by creat(): bytes written
static std::set<void *> *files, *dirs;
static int n_bad_close = 0;
static int64_t n_heap_live = 0;
static uint64_t io_rng = 1;

//================================================================ faults
static const Op *cur_op = nullptr;
static std::map<std::string, int> *kind_count;
static std::set<std::string> *fired;

static void do_crash();

// What lies below the stack pointer is filled with seeded bytes before every operation: a variable the code under test does not
// initialise has a value which the seed decides (and which differs from run to run), instead of a lucky zero.
static uint64_t poison_rng = 1;
__attribute__((noinline)) void stack_poison() {
    enum { DEPTH = 48 * 1024 };
    volatile uint64_t *b = (volatile uint64_t *)__builtin_alloca(DEPTH);
    poison_rng += heap_fill_seed * 2 + 1;
    uint64_t x = poison_rng * 0x9E3779B97F4A7C15ull | 1;
    for (int i = 0; i < DEPTH / 8; i++) { x += 0x9E3779B97F4A7C15ull; b[i] = x ^ x >> 29; }
}
void steps_used() { if (step_budget - steps_left > shm->max_op_steps) shm->max_op_steps = step_budget - steps_left; }
void op_begin(const Op *op) {
    stack_poison();
    steps_used();
    steps_left = step_budget; // every operation ends within the bound
    cur_op = op;
    if (!kind_count) { kind_count = new std::map<std::string, int>; fired = new std::set<std::string>; }
    kind_count->clear();
    fired->clear();
    crash_points = 0;
    crash_at = -1;
    for (auto &f : op->f) if (f.kind == "crash" && f.arg == 0) crash_at = f.nth;
}
void crash_rearm() {
    if (!cur_op) return;
    for (auto &f : cur_op->f) if (f.kind == "crash" && f.arg == 1) { crash_at = f.nth; crash_points = 0; }
}
void op_end() { steps_used(); cur_op = nullptr; crash_at = -1; }
const Fault *fault_hit(const char *kind) {
    if (!cur_op || cur_op->f.empty()) return nullptr;
    int n = (*kind_count)[kind]++;
    for (auto &f : cur_op->f)
        if (f.kind == kind && f.nth == n) {
            count((std::string("fault.") + kind).c_str());
            fired->insert(kind);
            event(0xFA, hash_str(kind), f.arg);
            return &f;
        }
    return nullptr;
}
bool fault_fired(const char *kind) { return fired && fired->count(kind); }
bool any_fault_fired() { return fired && !fired->empty(); }

void step_budget_set(uint64_t n) { steps_left = n; }

//================================================================ tasks
struct TaskCtx { ucontext_t ctx; Task fn; bool done = false, dead = false; void *stack = nullptr; const Op *op = nullptr; int64_t crash_at = -1, crash_points = 0; };
static std::vector<TaskCtx> *tasks;
static int cur_task = -1;
static ucontext_t main_ctx;
static Rng *sched_rng;
static int sched_rate = 10;
static int64_t sched_left = 0;
uint64_t switches = 0;
static uint64_t ltime = 0;
bool in_tasks() { return cur_task >= 0; }
int current_task() { return cur_task; }
uint64_t logical_time() { return ltime; }

static int pick_task() {
    int live[64], n = 0;
    for (size_t i = 0; i < tasks->size(); i++) if (!(*tasks)[i].done && !(*tasks)[i].dead) live[n++] = (int)i;
    if (!n) return -1;
    return live[sched_rng->below(n)];
}
static void new_slice() {
    // swarm style: mostly slices around `rate`, sometimes much longer (lets other tasks finish whole operations)
    int r = sched_rate;
    if (sched_rng->chance(8)) r *= 50;
    sched_left = 1 + sched_rng->below(2 * r);
}
static void switch_to(int next) {
    int prev = cur_task;
    if (next == prev) return;
    switches++;
    shm->hash = mix(shm->hash, 0x5717C4ull + ((uint64_t)next << 32) + ltime);
    if (prev >= 0) { TaskCtx &t = (*tasks)[prev]; t.op = cur_op; t.crash_at = crash_at; t.crash_points = crash_points; }
    cur_task = next;
    if (next >= 0) { TaskCtx &t = (*tasks)[next]; cur_op = t.op; crash_at = t.crash_at; crash_points = t.crash_points; }
    ucontext_t *from = prev >= 0 ? &(*tasks)[prev].ctx : &main_ctx;
    ucontext_t *to = next >= 0 ? &(*tasks)[next].ctx : &main_ctx;
    { int e = errno; swapcontext(from, to); errno = e; } // every process has its own errno
}
static void task_main(int i) {
    (*tasks)[i].fn();
    (*tasks)[i].done = true;
    int n = pick_task();
    new_slice();
    switch_to(n);
    abort();
}
static inline void maybe_switch() {
    ltime++;
    if (--sched_left <= 0) { new_slice(); switch_to(pick_task()); }
}
void run_tasks(std::vector<Task> list, uint64_t seed, int rate) {
    sched_rng = new Rng(seed);
    sched_rate = rate < 1 ? 1 : rate;
    tasks = new std::vector<TaskCtx>(list.size());
    enum { STACK = 512 * 1024 };
    for (size_t i = 0; i < list.size(); i++) {
        TaskCtx &t = (*tasks)[i];
        t.fn = list[i];
        t.stack = ::mmap(nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        { uint64_t x = seed * 0x9E3779B97F4A7C15ull + i; uint64_t *b = (uint64_t *)((char *)t.stack + STACK - 32 * 1024); for (int k = 0; k < 4096; k++) { x += 0x9E3779B97F4A7C15ull; b[k] = x ^ x >> 29; } }
        getcontext(&t.ctx);
        t.ctx.uc_stack.ss_sp = t.stack;
        t.ctx.uc_stack.ss_size = STACK;
        t.ctx.uc_link = nullptr;
        makecontext(&t.ctx, (void (*)())task_main, 1, (int)i);
    }
    new_slice();
    int n = pick_task();
    if (n >= 0) switch_to(n);
    cur_task = -1;
    for (auto &t : *tasks) ::munmap(t.stack, STACK);
    delete tasks; tasks = nullptr;
    delete sched_rng; sched_rng = nullptr;
}

static void do_crash() {
    count("fault.crash");
    event(0xC4A54, crash_points);
    if (cur_task >= 0) { // the process of this task dies, the others go on
        (*tasks)[cur_task].dead = true;
        crash_at = -1;
        int n = pick_task();
        new_slice();
        switch_to(n);
        abort();
    }
    _exit(X_CRASH);
}

//================================================================ mapped pools
static const uintptr_t MAP_BASE = 0x300000000000ull, MAP_TOP = 0x302000000000ull, MAP_SPACING = 0x80000000ull;
struct MapRec { uintptr_t base; size_t len; };
static std::vector<MapRec> *maps;
bool in_pool(const void *p) { return (uintptr_t)p >= MAP_BASE && (uintptr_t)p < MAP_TOP; }

static inline void hang_check() {
    shm->steps++;
    if (--steps_left == 0) _exit(X_HANG);
}
static inline void pool_point(bool write) {
    if (cur_task >= 0) maybe_switch();
    if (write && crash_at >= 0 && crash_points++ == crash_at) do_crash();
}
void sched_point(bool crash_point) { hang_check(); pool_point(crash_point); }

//================================================================ heap arena with shadow
static const uintptr_t AR = 0x200000000000ull;
static const size_t AR_SIZE = 1ull << 30;
static const uintptr_t SH = 0x210000000000ull;
static uintptr_t ar_next;
static std::map<uintptr_t, size_t> *blocks;
static bool arena_ready = false;
static inline bool in_arena(uintptr_t p) { return p - AR < AR_SIZE; }
static inline uint8_t *shadow(uintptr_t p) { return (uint8_t *)(SH + ((p - AR) >> 3)); }

static void arena_init() {
    void *a = ::mmap((void *)AR, AR_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    void *s = ::mmap((void *)SH, AR_SIZE / 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (a == MAP_FAILED || s == MAP_FAILED) { fprintf(stderr, "arena mmap failed\n"); _exit(X_ERROR); }
    ar_next = AR + 4096;
    blocks = new std::map<uintptr_t, size_t>;
    arena_ready = true;
}
static void bad_access(uintptr_t p, size_t n, bool write) {
    if (!heap_check) return;
    auto i = blocks->upper_bound(p);
    std::string where = "outside any block";
    if (i != blocks->begin()) { --i; where = fmt("%lld bytes into a block of %zu bytes%s", (long long)(p - i->first), i->second, *shadow(i->first) == 0xfe ? " (freed)" : ""); }
    fail(write ? "heap-write" : "heap-read", "out of bounds heap %s of %zu bytes, %s (%s)", write ? "write" : "read", n, where.c_str(), shm->note);
}
static inline void heap_access(uintptr_t p, size_t n, bool write) {
    if (!n) return;
    uintptr_t e = p + n;
    if (n >= 64) { // whole live words, the common case of large ranges
        static uint8_t eight[4096];
        if (!eight[0]) memset(eight, 8, sizeof eight);
        uint8_t *a = shadow(p), *z = shadow(e & ~7ull);
        for (; a < z; a += 4096) if (memcmp(a, eight, z - a < 4096 ? z - a : 4096)) break;
        if (a >= z) p = e & ~7ull;
        if (p == e) return;
    }
    for (uintptr_t g = p & ~7ull; g < e; g += 8) {
        uint8_t s = *shadow(g);
        if (s == 8) continue;
        size_t need = e - g < 8 ? e - g : 8;
        if (s == 0 || s == 0xfe || s < need) { bad_access(p, n, write); return; }
    }
}
static void *ar_alloc(size_t n) {
    if (!arena_ready) arena_init();
    uintptr_t p = (ar_next + 15) & ~15ull;
    if (n > AR_SIZE || p + n + 64 > AR + AR_SIZE) return nullptr;
    ar_next = p + n + 32; // redzone
    (*blocks)[p] = n;
    size_t full = n >> 3;
    memset(shadow(p), 8, full);
    if (n & 7) *shadow(p + full * 8) = n & 7;
    if (n == 0) *shadow(p) = 0;
    if (heap_fill >= 0 && heap_fill < 256) memset((void *)p, heap_fill, n);
    else if (heap_fill == 256) {
        uint64_t x = heap_fill_seed * 0x9E3779B97F4A7C15ull + (p - AR);
        for (size_t i = 0; i < n; i += 8) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; memcpy((char *)p + i, &x, n - i < 8 ? n - i : 8); }
    }
    n_heap_live++;
    return (void *)p;
}
static void ar_free(void *q) {
    uintptr_t p = (uintptr_t)q;
    auto i = blocks->find(p);
    if (i == blocks->end() || (i->second && *shadow(p) == 0xfe)) {
        if (heap_check) fail("heap-free", "free of a pointer that is not a live block (%s)", shm->note);
        return;
    }
    size_t g = (i->second + 7) >> 3;
    if (g == 0) g = 1;
    memset(shadow(p), 0xfe, g);
    memset(q, 0xDD, i->second);
    n_heap_live--;
}

static inline void acc(const void *a, size_t n, bool write) {
    uintptr_t p = (uintptr_t)a;
    hang_check();
    if (p >= MAP_BASE && p < MAP_TOP) pool_point(write);
    else if (in_arena(p)) heap_access(p, n, write);
}
// range access by a library routine (memcpy...): bounds only
static inline void range(const void *a, size_t n, bool write) {
    uintptr_t p = (uintptr_t)a;
    if (in_arena(p)) heap_access(p, n, write);
}

//================================================================ resources
int open_fds() { return fds ? (int)fds->size() : 0; }
int open_maps() { return maps ? (int)maps->size() : 0; }
int open_files() { return files ? (int)files->size() : 0; }
int open_dirs() { return dirs ? (int)dirs->size() : 0; }
int64_t heap_live() { return n_heap_live; }
int bad_closes() { return n_bad_close; }
std::string resources() {
    return fmt("fds=%d maps=%d files=%d dirs=%d heap=%lld bad_closes=%d", open_fds(), open_maps(), open_files(), open_dirs(), (long long)n_heap_live, n_bad_close);
}
void reset_resources() {
    if (!fds) { fds = new std::set<int>; wfds = new std::set<int>; news = new std::map<int, int64_t>; files = new std::set<void *>; dirs = new std::set<void *>; maps = new std::vector<MapRec>; }
    fds->clear(); wfds->clear(); news->clear(); files->clear(); dirs->clear(); n_bad_close = 0; n_heap_live = 0;
}
void seams_new_process(uint64_t budget) {
    step_budget = budget; steps_left = budget;
    if (!arena_ready) arena_init();
    if (!fds) reset_resources();
    io_rng = io_seed * 77 + 5;
    poison_rng = 1;
}
static uint64_t io_next() { io_rng ^= io_rng << 13; io_rng ^= io_rng >> 7; io_rng ^= io_rng << 17; return io_rng; }

// containment: the library may only touch relative names inside the scratch directory
static bool contained(const char *name, bool write) {
    if (!name) return true;
    std::string s = name;
    for (size_t k = 0; (k = s.find("..", k)) != std::string::npos; k++) // no path component ".."
        if ((k == 0 || s[k - 1] == '/') && (k + 2 == s.size() || s[k + 2] == '/')) return false;
    if (!s.empty() && s[0] == '/' && write) return false;
    return true;
}
static void file_point() { hang_check(); pool_point(true); }

} // namespace sim

using namespace sim;

//================================================================ global operator new/delete
// Harness allocations come from malloc; library allocations (redirected to sim_new) from the arena.
static void del(void *p) {
    if (!p) return;
    if (in_arena((uintptr_t)p)) ar_free(p); else free(p);
}
void *operator new(size_t n) { void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void *operator new[](size_t n) { void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void *p) noexcept { del(p); }
void operator delete[](void *p) noexcept { del(p); }
void operator delete(void *p, size_t) noexcept { del(p); }
void operator delete[](void *p, size_t) noexcept { del(p); }

extern "C" {

//================================================================ instrumentation callbacks
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define RW(n) \
    void __tsan_read##n(void *a) { acc(a, n, false); } \
    void __tsan_write##n(void *a) { acc(a, n, true); } \
    void __tsan_unaligned_read##n(void *a) { acc(a, n, false); } \
    void __tsan_unaligned_write##n(void *a) { acc(a, n, true); } \
    void __tsan_volatile_read##n(void *a) { acc(a, n, false); } \
    void __tsan_volatile_write##n(void *a) { acc(a, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, size_t n) { acc(a, n, false); }
void __tsan_write_range(void *a, size_t n) { acc(a, n, true); }
void __tsan_vptr_update(void **a, void *) { acc(a, 8, true); }
void __tsan_vptr_read(void **a) { acc(a, 8, false); }
#define AT(bits, T) \
    T __tsan_atomic##bits##_load(const volatile T *a, int) { acc((void *)a, sizeof(T), false); return *a; } \
    void __tsan_atomic##bits##_store(volatile T *a, T v, int) { acc((void *)a, sizeof(T), true); *a = v; } \
    T __tsan_atomic##bits##_exchange(volatile T *a, T v, int) { acc((void *)a, sizeof(T), true); T o = *a; *a = v; return o; } \
    T __tsan_atomic##bits##_fetch_add(volatile T *a, T v, int) { acc((void *)a, sizeof(T), true); T o = *a; *a = o + v; return o; } \
    T __tsan_atomic##bits##_fetch_sub(volatile T *a, T v, int) { acc((void *)a, sizeof(T), true); T o = *a; *a = o - v; return o; } \
    T __tsan_atomic##bits##_fetch_and(volatile T *a, T v, int) { acc((void *)a, sizeof(T), true); T o = *a; *a = o & v; return o; } \
    T __tsan_atomic##bits##_fetch_or(volatile T *a, T v, int) { acc((void *)a, sizeof(T), true); T o = *a; *a = o | v; return o; } \
    T __tsan_atomic##bits##_fetch_xor(volatile T *a, T v, int) { acc((void *)a, sizeof(T), true); T o = *a; *a = o ^ v; return o; } \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) { acc((void *)a, sizeof(T), true); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *c, T v, int x, int y) { return __tsan_atomic##bits##_compare_exchange_strong(a, c, v, x, y); } \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T c, T v, int, int) { acc((void *)a, sizeof(T), true); T o = *a; if (o == c) *a = v; return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

//================================================================ memory routines
// A copy onto (or from) a shared pool is not atomic: it goes in 8-byte steps with scheduling/crash points between.
static void pool_copy(void *d, const void *s, size_t n) {
    size_t i = 0;
    bool dp = in_pool(d), sp = in_pool(s);
    while (i < n) {
        size_t k = n - i < 8 ? n - i : 8;
        char t[8];
        hang_check();
        if (sp) pool_point(false);
        memcpy(t, (const char *)s + i, k);
        if (dp) pool_point(true);
        memcpy((char *)d + i, t, k);
        i += k;
    }
}
void *sim_memcpy(void *d, const void *s, size_t n) {
    if (n > (1ull << 31)) fail("bad-length", "memory copy of %zu bytes (%s)", n, shm->note);
    hang_check();
    range(s, n, false); range(d, n, true);
    if (in_pool(d) || in_pool(s)) pool_copy(d, s, n);
    else memmove(d, s, n);
    return d;
}
void *sim_memmove(void *d, const void *s, size_t n) {
    if (n > (1ull << 31)) fail("bad-length", "memory move of %zu bytes (%s)", n, shm->note);
    hang_check();
    range(s, n, false); range(d, n, true);
    if (in_pool(d)) {
        std::string t((const char *)s, n);
        pool_copy(d, t.data(), n);
    } else memmove(d, s, n);
    return d;
}
void *sim_memset(void *d, int c, size_t n) {
    if (n > (1ull << 31)) fail("bad-length", "memory set of %zu bytes (%s)", n, shm->note);
    hang_check();
    range(d, n, true);
    if (in_pool(d)) {
        size_t i = 0;
        while (i < n) { size_t k = n - i < 64 ? n - i : 64; hang_check(); pool_point(true); memset((char *)d + i, c, k); i += k; }
    } else memset(d, c, n);
    return d;
}
int sim_memcmp(const void *a, const void *b, size_t n) {
    hang_check();
    if (in_pool(a) || in_pool(b)) pool_point(false);
    // only bytes up to the first difference are certainly read
    const unsigned char *x = (const unsigned char *)a, *y = (const unsigned char *)b;
    for (size_t i = 0; i < n; i++) {
        range(x + i, 1, false); range(y + i, 1, false);
        if (x[i] != y[i]) return x[i] < y[i] ? -1 : 1;
    }
    return 0;
}
void *sim_memchr(const void *a, int c, size_t n) {
    hang_check();
    if (in_pool(a)) pool_point(false);
    const unsigned char *x = (const unsigned char *)a;
    for (size_t i = 0; i < n; i++) { range(x + i, 1, false); if (x[i] == (unsigned char)c) return (void *)(x + i); }
    return nullptr;
}
static inline void sread(const char *p) {
    if (in_arena((uintptr_t)p)) heap_access((uintptr_t)p, 1, false);
    else if (in_pool(p) && ((uintptr_t)p & 7) == 0) { hang_check(); pool_point(false); }
}
size_t sim_strlen(const char *s) {
    hang_check();
    if (in_pool(s)) pool_point(false);
    const char *p = s;
    for (;; p++) { sread(p); if (!*p) break; }
    return p - s;
}
size_t sim_strnlen(const char *s, size_t m) {
    size_t i = 0;
    for (; i < m; i++) { sread(s + i); if (!s[i]) break; }
    return i;
}
int sim_strncmp(const char *a, const char *b, size_t n) {
    hang_check();
    if (in_pool(a) || in_pool(b)) pool_point(false);
    for (size_t i = 0; i < n; i++) {
        sread(a + i); sread(b + i);
        unsigned char x = a[i], y = b[i];
        if (x != y) return x < y ? -1 : 1;
        if (!x) return 0;
    }
    return 0;
}
int sim_strcmp(const char *a, const char *b) { return sim_strncmp(a, b, (size_t)1 << 30); }
int sim_strcasecmp(const char *a, const char *b) { size_t x = sim_strlen(a), y = sim_strlen(b); (void)x; (void)y; return strcasecmp(a, b); }
int sim_strncasecmp(const char *a, const char *b, size_t n) { sim_strnlen(a, n); sim_strnlen(b, n); return strncasecmp(a, b, n); }
char *sim_strcpy(char *d, const char *s) { size_t n = sim_strlen(s); sim_memcpy(d, s, n + 1); return d; }
char *sim_stpcpy(char *d, const char *s) { size_t n = sim_strlen(s); sim_memcpy(d, s, n + 1); return d + n; }
char *sim_strncpy(char *d, const char *s, size_t n) {
    size_t k = sim_strnlen(s, n);
    sim_memcpy(d, s, k);
    if (k < n) sim_memset(d + k, 0, n - k);
    return d;
}
char *sim_strcat(char *d, const char *s) { size_t n = sim_strlen(d); sim_strcpy(d + n, s); return d; }
char *sim_strncat(char *d, const char *s, size_t m) { size_t n = sim_strlen(d), k = sim_strnlen(s, m); sim_memcpy(d + n, s, k); sim_memset(d + n + k, 0, 1); return d; }
char *sim_strchr(const char *s, int c) { for (;; s++) { sread(s); if (*s == (char)c) return (char *)s; if (!*s) return nullptr; } }
char *sim_strrchr(const char *s, int c) { const char *r = nullptr; for (;; s++) { sread(s); if (*s == (char)c) r = s; if (!*s) return (char *)r; } }
char *sim_strstr(const char *a, const char *b) { sim_strlen(a); sim_strlen(b); return (char *)strstr(a, b); }
static char *heap_strdup(const char *s, size_t n) { char *d = (char *)ar_alloc(n + 1); if (!d) return nullptr; sim_memcpy(d, s, n); d[n] = 0; return d; }
char *sim_strdup(const char *s) { return heap_strdup(s, sim_strlen(s)); }
char *sim_strndup(const char *s, size_t m) { return heap_strdup(s, sim_strnlen(s, m)); }

void *sim_malloc(size_t n) {
    hang_check();
    if (fault_hit("malloc")) { errno = ENOMEM; return nullptr; }
    if (n >> 40) { errno = ENOMEM; return nullptr; }
    void *p = ar_alloc(n);
    if (!p) errno = ENOMEM;
    return p;
}
void *sim_calloc(size_t a, size_t b) { void *p = sim_malloc(a * b); if (p) memset(p, 0, a * b); return p; }
void sim_free(void *p) { hang_check(); del(p); }
void *sim_realloc(void *p, size_t n) {
    if (!p) return sim_malloc(n);
    if (!in_arena((uintptr_t)p)) return realloc(p, n);
    auto i = blocks->find((uintptr_t)p);
    if (i == blocks->end()) { if (heap_check) fail("heap-free", "realloc of a pointer that is not a block (%s)", shm->note); return nullptr; }
    size_t old = i->second;
    void *q = sim_malloc(n);
    if (!q) return nullptr;
    memcpy(q, p, old < n ? old : n);
    ar_free(p);
    return q;
}
void *sim_new(size_t n) {
    hang_check();
    void *p = ar_alloc(n);
    if (!p) throw std::bad_alloc();
    return p;
}
void sim_delete(void *p) { hang_check(); del(p); }
void sim_delete_n(void *p, size_t) { hang_check(); del(p); }

//================================================================ formatted output
static void out_check(char *d, size_t size, int n) {
    if (n < 0 || !d) return;
    size_t w = (size_t)n + 1;
    if (w > size) w = size;
    range(d, w, true);
    if (in_pool(d)) pool_point(true);
}
int sim_vsnprintf(char *d, size_t size, const char *f, va_list ap) {
    hang_check();
    int n = vsnprintf(d, size, f, ap);
    out_check(d, size, n);
    return n;
}
int sim_snprintf(char *d, size_t size, const char *f, ...) {
    va_list ap; va_start(ap, f);
    int n = sim_vsnprintf(d, size, f, ap);
    va_end(ap);
    return n;
}
int sim_vsprintf(char *d, const char *f, va_list ap) { return sim_vsnprintf(d, (size_t)1 << 30, f, ap); }
int sim_sprintf(char *d, const char *f, ...) {
    va_list ap; va_start(ap, f);
    int n = sim_vsnprintf(d, (size_t)1 << 30, f, ap);
    va_end(ap);
    return n;
}

//================================================================ process end
void sim___assert_fail(const char *e, const char *file, unsigned line, const char *fn) {
    const char *b = strrchr(file, '/');
    snprintf(shm->note, sizeof(shm->note), "assert(%s) in %s (%s)", e, fn, b ? b + 1 : file);
    (void)line;
    _exit(X_ASSERT);
}
void sim__exit(int code) { snprintf(shm->note, sizeof(shm->note), "_exit(%d)", code); _exit(X_EXIT); }
void sim_exit(int code) { snprintf(shm->note, sizeof(shm->note), "exit(%d)", code); _exit(X_EXIT); }
void sim___stack_chk_fail() { fail("stack-write", "a write behind the end of a local array (%s)", shm->note); _exit(X_ASSERT); }
void sim_abort() { snprintf(shm->note, sizeof(shm->note), "abort()"); _exit(X_ASSERT); }

//================================================================ files
static bool wanted(const char *kind, int &err) {
    const Fault *f = fault_hit(kind);
    if (!f) return false;
    err = f->arg > 0 ? (int)f->arg : EIO;
    errno = err;
    return true;
}
static int track(int fd, int flags) {
    if (fd >= 0) { fds->insert(fd); if ((flags & O_ACCMODE) != O_RDONLY) wfds->insert(fd); }
    return fd;
}
static int do_open(const char *name, int flags, mode_t mode, const char *kind) {
    int e;
    file_point();
    if (wanted(kind, e)) return -1;
    bool w = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC));
    if (!contained(name, w)) { errno = EACCES; return -1; }
    int fd = track(open(name, flags, mode), flags);
    int err = errno;
    event(0x0F, fd >= 0, flags);
    if (fd >= 0) file_point();
    errno = err;
    return fd;
}
int sim_open(const char *name, int flags, ...) {
    mode_t mode = 0;
    if (flags & O_CREAT) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }
    return do_open(name, flags, mode, "open");
}
int sim_creat(const char *name, mode_t mode) { int fd = do_open(name, O_CREAT | O_WRONLY | O_TRUNC, mode, "creat"); if (fd >= 0) { int err = errno; (*news)[fd] = 0; errno = err; } return fd; }
// a failing close of a file just written: the end of the data did not reach the disk (network file systems, quotas)
static void lose_tail(int fd, int64_t n) {
    if (n <= 0 || !(mix(0xC105E, (uint64_t)n) & 3)) return;
    if (ftruncate(fd, n - 1 - (int64_t)(mix(0x10E7A11, (uint64_t)n) % (uint64_t)n))) return;
    count("fault.close_lost");
    event(0xC11, n);
}
int sim_close(int fd) {
    int e;
    file_point();
    if (!fds->count(fd)) { n_bad_close++; event(0xC10, 1); errno = EBADF; return -1; }
    fds->erase(fd); wfds->erase(fd);
    int64_t n = news->count(fd) ? (*news)[fd] : 0;
    news->erase(fd);
    bool failing = wanted("close", e);
    if (failing) lose_tail(fd, n);
    int r = close(fd); // the descriptor is gone even when close reports an error
    if (failing) { errno = e; return -1; }
    return r;
}
static int64_t io_limit(int64_t n) {
    if (short_io > 0 && n > 1) {
        int64_t m = io_seed ? 1 + (int64_t)(io_next() % (uint64_t)short_io) : short_io;
        if (m < n) { count("fault.short_io"); return m; }
    }
    return n;
}
static ssize_t full_write(int fd, const void *b, size_t n) { return write(fd, b, n); }
ssize_t sim_write(int fd, const void *b, size_t n) {
    if (fd != 1 && fd != 2) range(b, n, false);
    if (fd == 1 || fd == 2) return n;
    file_point();
    if (const Fault *f = fault_hit("write")) {
        if (f->arg < 0) { errno = (int)-f->arg; return -1; }
        size_t m = n ? (size_t)(f->arg % (int64_t)(n + 1)) : 0;
        ssize_t r = full_write(fd, b, m);
        event(0x3F, r);
        return r;
    }
    if (disk_eio) { errno = EIO; count("fault.disk_eio"); return -1; }
    if (disk_free >= 0 && (int64_t)n > disk_free) {
        count("fault.disk_full");
        if (fired) fired->insert("disk_full");
        if (disk_free == 0) { errno = ENOSPC; return -1; }
        n = (size_t)disk_free;
    }
    n = io_limit(n);
    if (crash_at >= 0 && crash_points == crash_at && n > 1) { // die in the middle of the write
        int64_t part = (int64_t)(mix(crash_at, n) % n);
        full_write(fd, b, part);
        count("fault.torn_write");
        crash_points++;
        do_crash();
    }
    if (crash_at >= 0) crash_points++;
    ssize_t r = full_write(fd, b, n);
    if (r > 0 && disk_free >= 0) disk_free -= r;
    if (r > 0 && news->count(fd)) (*news)[fd] += r;
    event(0x3A, r);
    file_point();
    return r;
}
ssize_t sim_pwrite(int fd, const void *b, size_t n, off_t o) {
    range(b, n, false);
    file_point();
    if (const Fault *f = fault_hit("write")) {
        if (f->arg < 0) { errno = (int)-f->arg; return -1; }
        return pwrite(fd, b, n ? (size_t)(f->arg % (int64_t)(n + 1)) : 0, o);
    }
    if (disk_eio) { errno = EIO; return -1; }
    n = io_limit(n);
    ssize_t r = pwrite(fd, b, n, o);
    file_point();
    return r;
}
ssize_t sim_read(int fd, void *b, size_t n) {
    if ((int64_t)n < 0) { errno = EINVAL; return -1; }
    file_point();
    if (const Fault *f = fault_hit("read")) {
        if (f->arg < 0) { errno = (int)-f->arg; return -1; }
        if (n > 0) { size_t m = 1 + (size_t)(f->arg % (int64_t)n); n = m; }
    }
    n = io_limit(n);
    ssize_t r = read(fd, b, n);
    if (r > 0) range(b, r, true);
    event(0x4A, r);
    return r;
}
ssize_t sim_pread(int fd, void *b, size_t n, off_t o) {
    file_point();
    if (const Fault *f = fault_hit("read")) {
        if (f->arg < 0) { errno = (int)-f->arg; return -1; }
        if (n > 0) n = 1 + (size_t)(f->arg % (int64_t)n);
    }
    n = io_limit(n);
    ssize_t r = pread(fd, b, n, o);
    if (r > 0) range(b, r, true);
    return r;
}
int sim_ftruncate(int fd, off_t size) {
    int e;
    file_point();
    if (wanted("ftruncate", e)) return -1;
    if (disk_eio) { errno = EIO; return -1; }
    struct stat st;
    if (fstat(fd, &st) == 0 && disk_free >= 0) {
        int64_t grow = size - st.st_size;
        if (grow > disk_free) { errno = ENOSPC; count("fault.disk_full"); if (fired) fired->insert("disk_full"); event(0x7F, grow); return -1; }
        disk_free -= grow;
    }
    int r = ftruncate(fd, size);
    event(0x7A, size, r);
    if (r == 0 && cur_op && crash_at < 0) for (auto &f : cur_op->f) if (f.kind == "crash" && f.arg == 2) { crash_at = f.nth; crash_points = 0; } // dies soon after growing
    file_point();
    return r;
}
int sim_fstat(int fd, struct stat *st) {
    int e;
    file_point();
    if (wanted("fstat", e)) return -1;
    int r = fstat(fd, st);
    if (r == 0) { st->st_mtim.tv_sec = file_mtime; st->st_mtim.tv_nsec = 0; st->st_atim = st->st_ctim = st->st_mtim; }
    return r;
}
int sim_stat(const char *name, struct stat *st) {
    int e;
    file_point();
    if (wanted("stat", e)) return -1;
    if (!contained(name, false)) { errno = EACCES; return -1; }
    int r = stat(name, st);
    if (r == 0) { st->st_mtim.tv_sec = file_mtime; st->st_mtim.tv_nsec = 0; st->st_atim = st->st_ctim = st->st_mtim; }
    return r;
}
int sim_lstat(const char *name, struct stat *st) {
    int e;
    file_point();
    if (wanted("stat", e)) return -1;
    int r = lstat(name, st);
    if (r == 0) { st->st_mtim.tv_sec = file_mtime; st->st_mtim.tv_nsec = 0; st->st_atim = st->st_ctim = st->st_mtim; }
    return r;
}
off_t sim_lseek(int fd, off_t o, int w) { file_point(); return lseek(fd, o, w); }
int sim_fsync(int fd) { (void)fd; file_point(); return 0; }
int sim_fdatasync(int fd) { (void)fd; file_point(); return 0; }
int sim_msync(void *, size_t, int) { file_point(); return 0; }
int sim_access(const char *n, int m) { int e; file_point(); if (wanted("stat", e)) return -1; return access(n, m); }
int sim_unlink(const char *n) { int e; file_point(); if (wanted("unlink", e)) return -1; if (!contained(n, true)) { errno = EACCES; return -1; } int r = unlink(n); file_point(); return r; }
int sim_remove(const char *n) { return sim_unlink(n); }
int sim_rename(const char *a, const char *b) { int e; file_point(); if (wanted("rename", e)) return -1; if (!contained(a, true) || !contained(b, true)) { errno = EACCES; return -1; } int r = rename(a, b); file_point(); return r; }
int sim_mkdir(const char *name, mode_t mode) {
    int e;
    file_point();
    if (const Fault *f = fault_hit("mkdir_race")) { // another process creates the same directory first
        (void)f;
        if (contained(name, true)) mkdir(name, mode);
    }
    if (wanted("mkdir", e)) return -1;
    if (!contained(name, true)) { errno = EACCES; return -1; }
    int r = mkdir(name, mode);
    file_point();
    return r;
}
int sim_rmdir(const char *name) { file_point(); if (!contained(name, true)) { errno = EACCES; return -1; } return rmdir(name); }

void *sim_mmap(void *addr, size_t len, int prot, int flags, int fd, off_t off) {
    int e;
    file_point();
    if (wanted("mmap", e)) return MAP_FAILED;
    if (addr != nullptr || (flags & MAP_ANONYMOUS)) { // not a file mapping of ours
        return mmap(addr, len, prot, flags, fd, off);
    }
    size_t al = (len + 4095) & ~4095ull;
    if (al == 0) { errno = EINVAL; return MAP_FAILED; }
    uintptr_t at = 0;
    auto overlaps = [&](uintptr_t b) {
        for (auto &m : *maps) { uintptr_t ml = (m.len + 4095) & ~4095ull; if (b < m.base + ml && m.base < b + al) return true; }
        return false;
    };
    if (map_layout == 1) {
        at = MAP_BASE;
        bool again = true;
        while (again) { again = false; for (auto &m : *maps) { uintptr_t ml = (m.len + 4095) & ~4095ull; if (at < m.base + ml && m.base < at + al) { at = m.base + ml; again = true; } } }
    } else if (map_layout == 2) {
        at = MAP_TOP - al;
        bool again = true;
        while (again) { again = false; for (auto &m : *maps) { uintptr_t ml = (m.len + 4095) & ~4095ull; if (at < m.base + ml && m.base < at + al) { at = m.base - al; again = true; } } }
    } else {
        at = MAP_BASE;
        while (overlaps(at)) at += MAP_SPACING;
    }
    void *p = mmap((void *)at, len, prot, flags | MAP_FIXED_NOREPLACE, fd, off);
    if (p == MAP_FAILED) { event(0x88, errno); return p; }
    maps->push_back({(uintptr_t)p, len});
    event(0x8A, len, prot);
    return p;
}
int sim_munmap(void *p, size_t len) {
    int e;
    file_point();
    bool report_failure = wanted("munmap", e); // like close(): an error is reported, the mapping is gone
    if (!in_pool(p)) { if (p == MAP_FAILED || p == nullptr) { n_bad_close++; errno = EINVAL; return -1; } return munmap(p, len); }
    for (size_t i = 0; i < maps->size(); i++)
        if ((*maps)[i].base == (uintptr_t)p) {
            if (((len + 4095) & ~4095ull) != (((*maps)[i].len + 4095) & ~4095ull)) { n_bad_close++; event(0xC12, len); }
            munmap(p, (*maps)[i].len);
            maps->erase(maps->begin() + i);
            if (report_failure) { errno = e; return -1; }
            return 0;
        }
    n_bad_close++; event(0xC11, 1);
    errno = EINVAL;
    return -1;
}

//---------------------------------------------------------------- stdio
FILE *sim_fopen(const char *name, const char *mode) {
    int e;
    file_point();
    if (wanted("fopen", e)) return nullptr;
    bool w = strpbrk(mode, "wa+") != nullptr;
    if (!contained(name, w)) { errno = EACCES; return nullptr; }
    // a stream of the library writes and reads through the seams, so that disks fill up and writes fail under it
    bool app = strchr(mode, 'a') != nullptr, plus = strchr(mode, '+') != nullptr;
    int flags = mode[0] == 'r' ? (plus ? O_RDWR : O_RDONLY) : (plus ? O_RDWR : O_WRONLY) | O_CREAT | (app ? O_APPEND : O_TRUNC);
    int fd = open(name, flags, 0666);
    if (fd < 0) return nullptr;
    static const cookie_io_functions_t io = {
        [](void *c, char *b, size_t n) -> ssize_t { return sim_read((int)(intptr_t)c - 1, b, n); },
        [](void *c, const char *b, size_t n) -> ssize_t {
            size_t done = 0;
            while (done < n) { ssize_t r = sim_write((int)(intptr_t)c - 1, b + done, n - done); if (r <= 0) break; done += r; }
            return done;
        },
        [](void *c, off64_t *o, int w) -> int { off_t r = lseek((int)(intptr_t)c - 1, *o, w); if (r < 0) return -1; *o = r; return 0; },
        [](void *c) -> int { return close((int)(intptr_t)c - 1); }};
    FILE *f = fopencookie((void *)(intptr_t)(fd + 1), mode, io);
    if (!f) { close(fd); return nullptr; }
    files->insert(f);
    return f;
}
int sim_fclose(FILE *f) {
    int e;
    file_point();
    if (!files->count(f)) { n_bad_close++; errno = EBADF; return EOF; }
    files->erase(f);
    if (wanted("fclose", e)) {
        if ((fcntl(fileno(f), F_GETFL) & O_ACCMODE) != O_RDONLY && fflush(f) == 0) lose_tail(fileno(f), ftell(f));
        fclose(f);
        errno = e;
        return EOF;
    }
    return fclose(f);
}
int sim_vfprintf(FILE *f, const char *fm, va_list ap) {
    int e;
    if (f == stderr || f == stdout) return 0;
    file_point();
    if (wanted("vfprintf", e)) return -1;
    return vfprintf(f, fm, ap);
}
int sim_fprintf(FILE *f, const char *fm, ...) {
    va_list ap; va_start(ap, fm);
    int r = sim_vfprintf(f, fm, ap);
    va_end(ap);
    return r;
}
int sim_printf(const char *, ...) { return 0; }
int sim_vprintf(const char *, va_list) { return 0; }
int sim_puts(const char *) { return 0; }
int sim_putchar(int c) { return c; }
int sim_fputs(const char *s, FILE *f) { int e; if (f == stderr || f == stdout) return 0; file_point(); if (wanted("vfprintf", e)) return EOF; return fputs(s, f); }
int sim_fputc(int c, FILE *f) { int e; if (f == stderr || f == stdout) return c; file_point(); if (wanted("vfprintf", e)) return EOF; return fputc(c, f); }
size_t sim_fwrite(const void *p, size_t a, size_t b, FILE *f) { int e; if (f == stderr || f == stdout) return b; range(p, a * b, false); file_point(); if (wanted("vfprintf", e)) return 0; return fwrite(p, a, b, f); }
size_t sim_fread(void *p, size_t a, size_t b, FILE *f) { int e; file_point(); if (wanted("read", e)) return 0; size_t r = fread(p, a, b, f); range(p, a * r, true); return r; }
int sim_fflush(FILE *f) { int e; if (!f || f == stderr || f == stdout) return 0; file_point(); if (wanted("fflush", e)) return EOF; return fflush(f); }

//---------------------------------------------------------------- directories
DIR *sim_opendir(const char *name) {
    int e;
    file_point();
    if (wanted("opendir", e)) return nullptr;
    if (!contained(name, false)) { errno = EACCES; return nullptr; }
    DIR *d = opendir(name);
    if (d) dirs->insert(d);
    return d;
}
struct dirent *sim_readdir(DIR *d) {
    int e;
    file_point();
    if (wanted("readdir", e)) return nullptr;
    return readdir(d);
}
int sim_closedir(DIR *d) {
    int e;
    file_point();
    if (!dirs->count(d)) { n_bad_close++; errno = EBADF; return -1; }
    dirs->erase(d);
    int r = closedir(d);
    if (wanted("closedir", e)) return -1;
    return r;
}

//================================================================ clock and randomness
static void tick() { clock_ns += clock_tick_ns; clock_mono_ns += clock_tick_ns; shm->sim_ns += clock_tick_ns; }
int sim_clock_gettime(clockid_t id, struct timespec *ts) {
    hang_check();
    int e = 0;
    tick();
    if (wanted("clock", e)) { errno = EINVAL; return -1; }
    if (clock_fail) { errno = clock_fail; count("fault.clock_fail"); return -1; }
    int64_t v = id == CLOCK_REALTIME ? clock_ns : clock_mono_ns;
    int64_t s = v / 1000000000, n = v % 1000000000;
    if (n < 0) { n += 1000000000; s--; }
    ts->tv_sec = s; ts->tv_nsec = n;
    return 0;
}
int sim_gettimeofday(struct timeval *tv, void *) { struct timespec t; if (sim_clock_gettime(CLOCK_REALTIME, &t) < 0) return -1; tv->tv_sec = t.tv_sec; tv->tv_usec = t.tv_nsec / 1000; return 0; }
time_t sim_time(time_t *t) {
    tick();
    int64_t s = clock_ns / 1000000000;
    if (clock_ns % 1000000000 < 0) s--;
    if (t) *t = s;
    return s;
}
static uint32_t rnd31() { rand_state = rand_state * 6364136223846793005ull + 1442695040888963407ull; return (uint32_t)(rand_state >> 33); }
long sim_random(void) { return rnd31(); }
int sim_rand(void) { return rnd31(); }
void sim_srandom(unsigned s) { rand_state = s; }
void sim_srand(unsigned s) { rand_state = s; }
int sim_getpid(void) { return 4242; }
int sim_usleep(unsigned us) { clock_ns += us * 1000ll; clock_mono_ns += us * 1000ll; return 0; }

//================================================================ aliases
#define ALIAS(ret, name, target, args) ret name args __attribute__((alias(#target)));
ALIAS(int, sim_open64, sim_open, (const char *, int, ...))
ALIAS(int, sim_creat64, sim_creat, (const char *, mode_t))
ALIAS(ssize_t, sim_pwrite64, sim_pwrite, (int, const void *, size_t, off_t))
ALIAS(ssize_t, sim_pread64, sim_pread, (int, void *, size_t, off_t))
ALIAS(int, sim_ftruncate64, sim_ftruncate, (int, off_t))
ALIAS(int, sim_fstat64, sim_fstat, (int, struct stat *))
ALIAS(int, sim_stat64, sim_stat, (const char *, struct stat *))
ALIAS(int, sim_lstat64, sim_lstat, (const char *, struct stat *))
ALIAS(off_t, sim_lseek64, sim_lseek, (int, off_t, int))
ALIAS(void *, sim_mmap64, sim_mmap, (void *, size_t, int, int, int, off_t))
ALIAS(FILE *, sim_fopen64, sim_fopen, (const char *, const char *))
ALIAS(struct dirent *, sim_readdir64, sim_readdir, (DIR *))
ALIAS(void *, sim_new_a, sim_new, (size_t))
ALIAS(void, sim_delete_a, sim_delete, (void *))
ALIAS(void, sim_delete_an, sim_delete_n, (void *, size_t))

} // extern "C"

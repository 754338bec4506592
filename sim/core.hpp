// Deterministic simulation core for binary_xml.
// One PRNG decides every operation, delay, interleaving and fault of a run; a run is a pure
// function of (plan text, library code).  Nothing here reads a real clock or real randomness.
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <string>
#include <vector>
#include <map>
#include <functional>

namespace sim {

//---------------------------------------------------------------- PRNG
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
    uint64_t next() { // splitmix64
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint32_t below(uint32_t n) { return n ? (uint32_t)((next() >> 11) % n) : 0; }
    int64_t range(int64_t a, int64_t b) { return a + (int64_t)((next() >> 1) % (uint64_t)(b - a + 1)); }
    int edge(int max) { int v = (1 << below(18)) + (int)below(5) - 2; return v < 0 ? 0 : v > max ? max : v; } // lengths around powers of 2
    bool chance(int pct) { return (int)below(100) < pct; }
    template <class T> const T &pick(const std::vector<T> &v) { return v[below((uint32_t)v.size())]; }
};
inline uint64_t mix(uint64_t h, uint64_t v) {
    h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull;
    return h ^ (h >> 33);
}
uint64_t hash_bytes(const void *p, size_t n, uint64_t h = 0xcbf29ce484222325ull);
inline uint64_t hash_str(const std::string &s, uint64_t h = 0xcbf29ce484222325ull) { return hash_bytes(s.data(), s.size(), h); }

//---------------------------------------------------------------- plan = the replay file
struct Fault { std::string kind; int64_t nth = 0; int64_t arg = 0; };
struct Op {
    std::string name;
    std::vector<int64_t> a;
    std::string s;
    std::vector<Fault> f;
    int64_t arg(size_t i, int64_t d = 0) const { return i < a.size() ? a[i] : d; }
};
struct Plan {
    std::string scenario;
    uint64_t seed = 0;
    std::map<std::string, int64_t> cfg;
    std::vector<Op> ops;
    int64_t c(const char *k, int64_t d = 0) const { auto i = cfg.find(k); return i == cfg.end() ? d : i->second; }
    std::string text() const;
    static bool parse(const std::string &text, Plan &out);
};

//---------------------------------------------------------------- per-run shared state
enum { ST_OK = 0, ST_VIOLATION = 1, ST_ERROR = 2 };
struct Counter { char name[48]; uint64_t n; };
enum { MAX_COUNTERS = 160, MAX_STATES = 2048, DUMP_SIZE = 1 << 20 };
struct Shm {
    int status;
    char cls[96];          // violation class (stable text, used for minimisation and known findings)
    char msg[3000];        // details
    uint64_t hash;         // event-log hash
    uint64_t events;       // events logged
    uint64_t max_op_steps; // the most of one operation
    uint64_t steps;        // instrumented accesses executed
    uint64_t sim_ns;       // simulated time covered
    char note[512];
    int64_t progress[32];
    Counter counters[MAX_COUNTERS];
    uint32_t nstates;
    uint64_t states[MAX_STATES];
    uint32_t dump_len;
    char dump[DUMP_SIZE];
};
extern Shm *shm;

void count(const char *name, uint64_t n = 1); // fault fired / rare-condition probe
void state(uint64_t h);                       // distinct state reached
void event(uint64_t a, uint64_t b = 0, uint64_t c = 0); // extend the event-log hash
void event_s(const std::string &s);

[[noreturn]] void fail(const char *cls, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void harness_error(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
// a legal call of the code under test was refused though nothing disturbed it
[[noreturn]] void setup_failed(const char *fmt, ...) __attribute__((format(printf, 1, 2)));

//---------------------------------------------------------------- simulated processes
enum Exit { EX_OK, EX_CRASH, EX_ASSERT, EX_HANG, EX_VIOLATION, EX_SIGNAL, EX_HEAP, EX_ERROR, EX_EXIT };
struct ProcResult { Exit kind; int code; };
// run body in a forked process (its memory is lost at exit, files stay)
extern uint64_t op_budget; // steps an operation may take (reset for every run)
ProcResult run_process(const std::function<void()> &body, uint64_t step_budget = 0);
const char *exit_name(Exit e);
// standard treatment of a process that should have ended normally or by the injected crash
void expect_clean(const ProcResult &r, const char *where, bool crash_allowed = false, bool assert_allowed = false);

//---------------------------------------------------------------- fault injection (see seams.cpp)
void op_begin(const Op *op); // activate the faults of this op
void op_end();
const Fault *fault_hit(const char *kind); // counts one occurrence of the kind inside the current op
bool fault_fired(const char *kind);       // did a fault of this kind fire since op_begin
bool any_fault_fired();
void sched_point(bool crash_point);       // explicit point (file operations)

extern int64_t disk_free;       // simulated free disk space, -1 = plenty
extern bool disk_eio;           // every write fails
extern int64_t clock_ns;        // simulated CLOCK_REALTIME
extern int64_t clock_mono_ns;   // simulated CLOCK_MONOTONIC
extern int     clock_fail;      // errno for clock_gettime, 0 = works
extern int64_t clock_tick_ns;   // advance per call
extern uint64_t rand_state;     // simulated random()
extern int heap_fill;           // 0..255 constant fill, 256 = pseudo random, -1 = no fill
extern uint64_t heap_fill_seed;
void stack_poison();            // also done by op_begin
extern int64_t file_mtime;      // st_mtime shown to the library
extern int64_t short_io;        // >0: each read/write moves at most this many bytes
extern int64_t io_seed;         // !=0: vary read chunk size pseudo randomly up to short_io

int open_fds();                 // descriptors the library holds
int open_maps();                // mappings the library holds
int open_files();               // FILE* the library holds
int open_dirs();
int64_t heap_live();            // heap blocks the library holds
int bad_closes();               // close()/munmap() of something not held
void reset_resources();
std::string resources();
extern int map_layout;          // 0 spaced, 1 adjacent bottom-up, 2 adjacent top-down
extern bool heap_check;         // report heap bound violations
bool in_pool(const void *p);

// crash points
extern int64_t crash_at;        // crash when counter reaches this
extern int64_t crash_points;    // counter since op_begin
void crash_rearm();             // start of the decisive step: crash faults with arg 1 count from here

// map the pool of a document: accesses to it are scheduling/crash points
// (done automatically for every MAP_SHARED mapping the library makes)

//---------------------------------------------------------------- cooperative tasks
typedef std::function<void()> Task;
// run tasks to completion; at every access to shared mapped memory and every file operation the
// seeded scheduler may switch. `rate` = average accesses between switches.
void run_tasks(std::vector<Task> tasks, uint64_t seed, int rate);
bool in_tasks();
extern uint64_t switches;
int current_task();
uint64_t logical_time();        // number of scheduling points so far

void step_budget_set(uint64_t n);

//---------------------------------------------------------------- scenario registry
struct Scenario {
    const char *name;
    Plan (*gen)(Rng &rng, int tier);
    void (*run)(const Plan &plan); // runs in its own process with cwd = empty scratch dir
};
const std::vector<Scenario> &scenarios();
void reg_scenario(const Scenario &s);
struct RegScenario { RegScenario(const char *n, Plan (*g)(Rng &, int), void (*r)(const Plan &)) { reg_scenario({n, g, r}); } };

std::string hex(const std::string &s);
std::string unhex(const std::string &s);
std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
std::string slurp(const char *name, bool *ok = nullptr);
void spew(const char *name, const std::string &data);
int64_t real_size(const char *name);

} // namespace sim

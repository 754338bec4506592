// Time stamps and generated identifiers under simulated clocks: steps back, failures, restarts of
// processes that all begin with the same state of random() (scenario "ids").
#include "core.hpp"
#include <binary_xml/utils.h>
#include <sys/mman.h>
#include <errno.h>
#include <set>

using namespace sim;

namespace {

enum { MAXID = 1 << 16 };
struct Ids { int n; int64_t v[MAXID]; };

void run_ids(const Plan &p) {
    Ids *S = (Ids *)mmap(nullptr, sizeof(Ids), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (S == MAP_FAILED) harness_error("mmap");
    std::set<int64_t> seen;
    std::set<int64_t> bases; // start times used (as the library can see them)
    clock_ns = p.c("real", 1700000000ll) * 1000000000ll;
    int64_t mono0 = p.c("mono", 5) * 1000000000ll;
    int64_t boot = 0;
    for (size_t i = 0; i < p.ops.size(); i++) {
        const Op &o = p.ops[i];
        // the machine goes on between the processes
        clock_ns += o.arg(0); boot += 1 + (uint64_t)o.arg(1) % 1000000000000ull;
        clock_mono_ns = mono0 + boot;
        clock_tick_ns = p.c("tick", 50);
        // no clock_gettime in this process, or only sometimes: the first identifier may depend on seconds only
        bool broken = o.arg(3) != 0;
        for (auto &f : o.f) if (f.kind == "clock") broken = true;
        if (broken) { // only seconds are left to tell processes apart
            int64_t sec = clock_ns / 1000000000;
            while (!bases.insert(sec).second) sec++;
            clock_ns = sec * 1000000000 + 500000000;
        }
        S->n = 0;
        ProcResult r = run_process([&] {
            op_begin(&o);
            clock_fail = o.arg(3) ? EINVAL : 0;
            Rng q((uint64_t)o.arg(4));
            int n = (int)o.arg(5);
            for (int k = 0; k < n; k++) {
                int w = k ? q.below(100) : q.below(90);
                if (w < 45) S->v[S->n++] = genI64();
                else if (w < 90) S->v[S->n++] = (int64_t)genU64();
                else if (w < 95) { // the clock is set, also back
                    clock_ns += q.range(-4000000000000ll, 4000000000000ll);
                    if (q.chance(5)) clock_ns = q.range(-100000000000ll, 100000000000ll);
                    count("fault.clock_jump");
                } else {
                    int64_t a = clock_ns;
                    int64_t t = GetCurrentTime64();
                    int64_t b = clock_ns;
                    auto ms = [](int64_t x) { return x >= 0 ? x / 1000000 : -((-x + 999999) / 1000000); };
                    int64_t lo = ms(a), hi = ms(b);
                    if (any_fault_fired() || broken) { lo -= 1000; if (hi < lo) hi = lo; } // whole seconds only
                    if (t < lo || t > hi) fail("ids:time", "time is %lld ms and the clock is %lld..%lld", (long long)t, (long long)lo, (long long)hi);
                    count("ids.time");
                }
            }
            op_end();
        });
        expect_clean(r, "ids");
        std::set<int64_t> mine;
        for (int k = 0; k < S->n; k++) {
            if (!seen.insert(S->v[k]).second) fail("ids:repeated", "identifier %016llx of process %zu (number %d) was given out before", (unsigned long long)S->v[k], i, k);
        }
        count("ids.made", S->n);
        count("ids.process");
        if (broken) count("fault.clock_fail_process");
        event(i, S->n);
        state(mix(mix(5, broken), S->n / 8));
    }
}
Plan gen_ids(Rng &r, int tier) {
    Plan p;
    p.cfg["real"] = r.chance(90) ? 1000000000 + (int64_t)r.below(3000000000u) : (int64_t)r.below(1000);
    p.cfg["mono"] = r.chance(30) ? 0 : (int64_t)r.below(r.chance(50) ? 10 : 100000000);
    p.cfg["tick"] = (int64_t)r.below(3000);
    int n = 2 + r.below(tier ? 20 : 8);
    for (int i = 0; i < n; i++) {
        Op o; o.name = "proc";
        int64_t gap = r.chance(40) ? (int64_t)r.below(1000) : r.chance(50) ? (int64_t)r.below(1000000000) : (int64_t)r.below(1000000000) * 1000;
        o.a = {r.chance(80) ? gap : r.range(-1000000000000ll, 1000000000000ll), gap, 0, r.chance(15), (int64_t)r.below(1 << 28), (int64_t)(1 + r.below(r.chance(70) ? 30 : 600))};
        if (r.chance(15)) o.f.push_back({"clock", (int64_t)r.below(10), 0});
        p.ops.push_back(o);
    }
    return p;
}
RegScenario sc1("ids", gen_ids, run_ids);

} // namespace

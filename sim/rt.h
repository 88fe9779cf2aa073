// Deterministic simulator runtime: public interface used by the harness.
//
// The runtime implements the __tsan_* entry points that `clang -fsanitize=thread` code generation calls, so every
// atomic operation and memory access of the code under test (the real headers of /repo) passes through it.  All
// simulated threads are fibers inside one OS thread; one seed decides every interleaving and every fault.
#pragma once
#include <cstddef>
#include <cstdint>

#define RT_MAX_FIBERS 16

enum RtDecisionKind : uint32_t {
    DK_SWITCH = 1,   // preempt at this step, run fiber `val`
    DK_WEAKFAIL = 2, // weak compare-exchange fails spuriously
    DK_SPURWAKE = 3, // futex wait returns spuriously (fiber `val`)
    DK_STALL = 4,    // current fiber is frozen for `val` steps
    DK_CLOCK = 5,    // simulated clock jumps forward by `val` microseconds
    DK_WAKEPICK = 6, // which waiter a wake-one picks
    DK_CHOOSE = 7,   // who runs next when the current fiber cannot continue
    DK_YIELDSTAY = 8, // fiber keeps running through a yield
};

struct RtDecision {
    uint64_t step;
    uint32_t kind;
    uint32_t val;
};

enum RtStatus { RT_DONE = 0, RT_VIOLATION = 1 };

struct RtCfg {
    uint64_t seed = 1;
    bool script = false; // replay decisions instead of drawing them
    const RtDecision *decisions = nullptr;
    size_t n_decisions = 0;
    uint64_t chaos_steps = 30000;  // after this many steps no faults, fair scheduling
    uint64_t fair_steps = 2000000; // progress bound in the fair phase
    // swarm configuration (derived from the seed by the driver, stored in the replay file)
    uint32_t mode = 0;         // 0 random walk, 1 PCT, 2 bursts
    uint32_t p_switch = 256;   // /1024 chance of a preemption at an atomic operation (mode 0/2)
    uint32_t pct_depth = 3;    // mode 1: number of priority change points
    uint32_t pct_len = 1000;   // mode 1: expected run length
    uint32_t plain_log2 = 0;   // preempt at plain accesses on average every 2^k accesses (0: off)
    uint32_t p_weak = 0;       // /1024 spurious weak-CAS failure
    uint32_t p_spur = 0;       // /1024 spurious futex wakeup per scheduling point with waiters
    uint32_t p_stall = 0;      // /65536 stall of the running fiber per scheduling point
    uint32_t p_clock = 0;      // /65536 clock jump per scheduling point
    // 1, 2: preemptions concentrate on the starts and ends of transactions (rt_hot); mode 1 counts the change points in
    // synchronisation operations (1) or in all accesses (2) made there
    uint32_t focus = 0;
    bool race_fatal = true;    // stop at a data race
    bool detect_races = true;
};

struct RtStats {
    uint64_t steps, atomics, plain, switches, preempts, futex_waits, futex_wakes, yields;
    uint64_t f_weak, f_spur, f_stall, f_clock, f_alloc, f_throw, f_abort, f_freeze;
    uint64_t blocked_waits; // times a fiber really blocked in a futex/mutex
    uint64_t sim_ns;
    uint64_t order_hash; // hash of the order of synchronisation operations (address class, op, fiber)
    uint64_t run_hash;   // hash of everything observable
    uint64_t races;
    uint64_t allocs, frees;
};

extern "C" {
void rt_init(void);     // once, at process start
void rt_snapshot(void); // once, before the first run: remember .data/.bss
// Runs `main_fn(arg)` as fiber 0 until all fibers finish or a violation is reported.
int rt_run(const RtCfg *cfg, void (*main_fn)(void *), void *arg);
int rt_spawn(void (*fn)(void *), void *arg); // from within a run; returns the fiber id
int rt_self(void);
int rt_active(void);
uint64_t rt_step(void);
uint64_t rt_clock_ns(void);
uint64_t rt_os_thread_id(int fiber);
// Block the calling fiber (in harness mode) until pred(arg) is true.
void rt_wait(int (*pred)(void *), void *arg);
void rt_yield(void); // scheduling point from harness code
int rt_fiber_blocked(int fiber);
void rt_hb_release(uint64_t key); // publish to whoever acquires the (small) key
void rt_hb_acquire(uint64_t key);
void rt_hb_join(int fiber); // happens-before edge from a finished fiber
// Switch instrumentation of the calling fiber on (code under test) or off (harness). Returns the old value.
int rt_sut(int on);
void rt_hot(int on); // the calling fiber is starting or ending a transaction
// Report a violation; does not return.
[[noreturn]] void rt_violation(const char *cls, const char *msg);
const char *rt_violation_class(void);
const char *rt_violation_msg(void);
void rt_note_violation(const char *cls, const char *msg); // remember, do not stop (first one wins)
int rt_has_note(void);
const RtDecision *rt_decisions(size_t *n);
RtStats *rt_stats(void);
void rt_arm_alloc_fail(int nth); // nth SUT allocation of this fiber (1-based) fails; 0 disarms
int rt_alloc_fail_pending(void); // armed and not yet fired
int rt_alloc_fail_fired(void);
int rt_weak_fail(void); // weak CAS: should it fail spuriously?
void rt_hash(uint64_t v); // mix an observable value into the run hash
int rt_in_fair_phase(void);
// Heap of the code under test
typedef void (*rt_block_fn)(void *arg, void *ptr, size_t size, uint64_t pc, int fiber);
void rt_live_blocks(rt_block_fn fn, void *arg);
typedef void (*rt_root_fn)(void *arg, const void *p, size_t n);
void rt_roots(rt_root_fn fn, void *arg); // static objects and the running fiber's thread-locals
size_t rt_live_count(void);
void *rt_harness_mark(void);
int rt_in_sut_heap(const void *p);
const char *rt_describe_addr(const void *p);
}

struct RtSut {
    int old;
    RtSut() : old(rt_sut(1)) {}
    ~RtSut() {
        rt_sut(old);
    }
};
struct RtHarness {
    int old;
    RtHarness() : old(rt_sut(0)) {}
    ~RtHarness() {
        rt_sut(old);
    }
};

// Deterministic simulator runtime (see rt.h).  Compiled WITHOUT instrumentation and without C++ standard library
// templates, so that no template instantiation is shared with the instrumented code under test.
#include "rt.h"

#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <exception>
#include <limits.h>
#include <link.h>
#include <linux/futex.h>
#include <new>
#include <pthread.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <time.h>
#include <typeinfo>
#include <ucontext.h>
#include <unistd.h>

typedef uint8_t u8;
typedef uint32_t u32;
typedef uint64_t u64;

#define likely(x) __builtin_expect(!!(x), 1)
#define unlikely(x) __builtin_expect(!!(x), 0)
#define NOINL __attribute__((noinline))

// ---------------------------------------------------------------------------------------------------------------------
// Layout

static const u64 HEAP_BASE = 0x100000000000ull; // heap of the code under test
static const u64 HEAP_SIZE = 512ull << 20;
static const u64 HARN_BASE = 0x110000000000ull; // heap of the harness during a run
static const u64 HARN_SIZE = 1024ull << 20;
static const u64 SHAD_BASE = 0x120000000000ull;
static const u64 DSHAD_BASE = 0x140000000000ull;
static const u64 RT_BASE = 0x150000000000ull;

static const size_t STACK_SIZE = 512 << 10;
static const size_t MAX_TLS = 16384;
static const size_t MAX_DECISIONS = 1 << 20;
static const size_t MAX_BLOCKS = 1 << 21;
static const size_t SYNC_SLOTS = 1 << 16;

struct Slot {
    u32 clk, pc;
    u8 tid, mask, flags, pad;
    u32 step;
};
enum { SF_WRITE = 1, SF_ATOMIC = 2, SF_FREE = 4 };
enum { ST_NONE = 0, ST_ALLOC = 1, ST_FREED = 2 };
#define NSLOTS 7
struct Shadow {
    u32 gen;
    u8 n, state, valid, rr;
    u32 pad[2];
    Slot s[NSLOTS];
};
static_assert(sizeof(Shadow) == 128, "");

struct VC {
    u32 c[RT_MAX_FIBERS];
};
struct SyncVar {
    u64 addr;
    u32 gen;
    u32 pad;
    VC vc;
};

struct BlockHdr { // precedes every block of the SUT heap
    u64 magic;
    u64 size;
    u64 pc;
    u32 fiber;
    u32 freed;
};
static const u64 BLOCK_MAGIC = 0x5ec0b10c5ec0b10cull;

enum FState { FS_FREE = 0, FS_READY, FS_FUTEX, FS_SLEEP, FS_PRED, FS_MUTEX, FS_COND, FS_DONE };

struct Fiber {
    void *sp;
    char *stack;
    int state;
    int sut;
    int id;
    u64 stall_until;
    u64 wait_addr;
    u64 wake_ns;
    int timed;
    int wait_result;
    int (*pred)(void *);
    void *pred_arg;
    void (*fn)(void *);
    void *arg;
    VC vc, acq_fence, rel_fence;
    u64 prio;
    bool hot;
    u64 eh[2];
    int alloc_fail_n, alloc_fail_fired;
    struct {
        void (*fn)(void *);
        void *obj;
    } tls_dtors[64];
    int n_tls_dtors;
    int saved_errno;
    u64 spin;
    alignas(64) char tls[MAX_TLS];
};

struct MutexEnt {
    u64 addr;
    u32 gen;
    int owner; // fiber+1, 0 free
    int count;
    int readers;
};

struct RT {
    Fiber fib[RT_MAX_FIBERS];
    Fiber *cur;
    int nfib;
    void *main_sp;
    RtCfg cfg;
    RtStats st;
    u64 rng;
    u32 gen;
    u64 step, next_event;
    u64 chaos_end, fair_limit, fair_next;
    u64 clock_ns;
    u64 heap_top, harn_top;
    u64 harn_free[64];
    void **blocks;
    size_t n_blocks;
    RtDecision *dec;
    size_t n_dec;
    size_t script_i;
    u64 pct_points[64];
    u64 hot_count, hot_base;
    u32 n_pct;
    u64 pct_low;
    u64 burst_until;
    int burst_on;
    int status;
    char cls[64];
    char msg[4096];
    int noted;
    char note_cls[64];
    char note_msg[4096];
    SyncVar *sync;
    MutexEnt mtx[4096];
    VC final_vc[RT_MAX_FIBERS];
    char main_tls[MAX_TLS];
    u64 main_eh[2];
    char desc[512];
    int n_pred;
    int reported_races;
};

static RT *R;
static int g_active; // inside rt_run
static char *g_tls_addr;
static size_t g_tls_memsz, g_tls_filesz;
static const char *g_tls_img;
static u64 g_data_lo, g_data_hi;
static char *g_snap;
static size_t g_snap_len;
static u64 *g_eh; // __cxa_eh_globals of the OS thread

extern "C" char __data_start, _end, __bss_start;
extern "C" char __libc_single_threaded;

static inline u64 rnd() {
    u64 z = (R->rng += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
static inline u64 mix(u64 h, u64 v) {
    h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull;
    return h ^ (h >> 32);
}

[[noreturn]] static void die(const char *m) {
    fprintf(stderr, "rt: fatal: %s\n", m);
    _exit(70);
}

static void *map_fixed(u64 addr, size_t len) {
    void *p = mmap((void *)addr, len, PROT_READ | PROT_WRITE,
        MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p != (void *)addr) die("mmap");
    return p;
}

// ---------------------------------------------------------------------------------------------------------------------
// Context switch

extern "C" void rt_swtch(void **save, void *to);
asm(R"(
.text
.globl rt_swtch
.type rt_swtch,@function
rt_swtch:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    movq %rsp, (%rdi)
    movq %rsi, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
.size rt_swtch,.-rt_swtch
)");

static void to_main() {
    Fiber *f = R->cur;
    memcpy(f->tls, g_tls_addr, g_tls_memsz);
    memcpy(g_tls_addr, R->main_tls, g_tls_memsz);
    g_eh[0] = R->main_eh[0];
    g_eh[1] = R->main_eh[1];
    rt_swtch(&f->sp, R->main_sp);
}

static void set_next_event();
static inline void hot_flush() {
    if (R->cur->hot) R->hot_count += R->step - R->hot_base;
    R->hot_base = R->step;
}
static void switch_to(Fiber *t) {
    Fiber *f = R->cur;
    if (f == t) return;
    R->st.switches++;
    f->saved_errno = errno;
    memcpy(f->tls, g_tls_addr, g_tls_memsz);
    memcpy(g_tls_addr, t->tls, g_tls_memsz);
    f->eh[0] = g_eh[0];
    f->eh[1] = g_eh[1];
    g_eh[0] = t->eh[0];
    g_eh[1] = t->eh[1];
    if (R->cfg.focus == 2) hot_flush();
    R->cur = t;
    if (R->cfg.focus == 2) set_next_event();
    rt_swtch(&f->sp, t->sp);
    errno = R->cur->saved_errno;
}

// ---------------------------------------------------------------------------------------------------------------------
// Violations

extern "C" [[noreturn]] void rt_violation(const char *cls, const char *msg) {
    if (!g_active) {
        fprintf(stderr, "rt: violation outside a run: %s: %s\n", cls, msg);
        _exit(71);
    }
    if (R->status != RT_VIOLATION) {
        R->status = RT_VIOLATION;
        snprintf(R->cls, sizeof R->cls, "%s", cls);
        snprintf(R->msg, sizeof R->msg, "%s", msg);
    }
    to_main();
    die("resumed after violation");
}
extern "C" void rt_note_violation(const char *cls, const char *msg) {
    if (!R->noted) {
        R->noted = 1;
        snprintf(R->note_cls, sizeof R->note_cls, "%s", cls);
        snprintf(R->note_msg, sizeof R->note_msg, "%s", msg);
    }
}
extern "C" int rt_has_note(void) {
    return R->noted;
}
extern "C" const char *rt_violation_class(void) {
    return R->cls;
}
extern "C" const char *rt_violation_msg(void) {
    return R->msg;
}

// ---------------------------------------------------------------------------------------------------------------------
// Decisions

static void log_dec(u32 kind, u32 val) {
    if (R->n_dec < MAX_DECISIONS) R->dec[R->n_dec++] = RtDecision{R->step, kind, val};
}
static bool script_take(u32 kind, u32 *val) {
    const RtDecision *d = R->cfg.decisions;
    size_t n = R->cfg.n_decisions;
    while (R->script_i < n && d[R->script_i].step < R->step)
        R->script_i++;
    for (size_t i = R->script_i; i < n && d[i].step == R->step; i++) {
        if (d[i].kind == kind) {
            *val = d[i].val;
            return true;
        }
    }
    return false;
}
static void set_next_event() {
    if (R->step >= R->chaos_end) {
        R->next_event = R->fair_next;
        return;
    }
    u64 ne = R->chaos_end;
    if (R->cfg.script) {
        const RtDecision *d = R->cfg.decisions;
        size_t n = R->cfg.n_decisions, i = R->script_i;
        while (i < n && d[i].step <= R->step)
            i++;
        if (i < n && d[i].step < ne) ne = d[i].step;
    } else if (R->cfg.plain_log2) {
        u64 k = R->step + 1 + rnd() % (2ull << R->cfg.plain_log2);
        if (k < ne) ne = k;
    }
    if (R->cfg.focus == 2 && g_active && R->n_pct && R->cur->hot) {
        u64 now = R->hot_count + (R->step - R->hot_base), first = ~0ull;
        for (u32 i = 0; i < R->n_pct; i++)
            if (R->pct_points[i] && R->pct_points[i] < first) first = R->pct_points[i];
        if (first != ~0ull) {
            u64 k = first > now ? R->step + (first - now) : R->step + 1;
            if (k < ne) ne = k;
        }
    }
    R->next_event = ne;
}

static bool runnable(Fiber *f) {
    switch (f->state) {
    case FS_READY:
        return f->stall_until <= R->step;
    case FS_PRED: {
        int sut = R->cur->sut; // predicates are harness code
        R->cur->sut = 0;
        bool r = f->pred(f->pred_arg) != 0;
        R->cur->sut = sut;
        return r;
    }
    case FS_SLEEP:
        return f->wake_ns <= R->clock_ns;
    case FS_FUTEX:
    case FS_COND:
        if (f->timed && f->wake_ns <= R->clock_ns) return true;
        return false;
    }
    return false;
}

static void make_ready(Fiber *f) {
    if (f->state == FS_FUTEX || f->state == FS_COND) f->wait_result = ETIMEDOUT;
    if (f->state == FS_PRED) R->n_pred--;
    f->state = FS_READY;
    f->stall_until = 0;
}

static void describe_blocked(char *buf, size_t n) {
    size_t o = 0;
    static const char *names[] = {"free", "ready", "futex", "sleep", "wait", "mutex", "cond", "done"};
    for (int i = 0; i < R->nfib && o + 64 < n; i++) {
        Fiber *f = &R->fib[i];
        o += snprintf(buf + o, n - o, "fiber %d: %s%s", i, names[f->state], f->sut ? " (in Tecs)" : "");
        if (f->state == FS_FUTEX) {
            o += snprintf(buf + o, n - o, " on %s=%u", rt_describe_addr((void *)f->wait_addr), *(u32 *)f->wait_addr);
        }
        o += snprintf(buf + o, n - o, "; ");
    }
}

static int collect(Fiber **out, Fiber *except) {
    int n = 0;
    for (int i = 0; i < R->nfib; i++) {
        Fiber *f = &R->fib[i];
        if (f != except && f->state != FS_DONE && f->state != FS_FREE && runnable(f)) out[n++] = f;
    }
    return n;
}

// Pick somebody to run because the current fiber can not continue (or yields: `self_ok`).
static Fiber *pick_next(bool self_ok) {
    Fiber *c[RT_MAX_FIBERS];
    Fiber *cur = R->cur;
    int n;
    while (true) {
        n = collect(c, cur);
        if (n) break;
        if (self_ok && cur->state == FS_READY) return cur;
        if (!self_ok && cur->state != FS_DONE && runnable(cur)) return cur;
        // nobody: release the earliest stalled fiber, then the earliest sleeper
        Fiber *best = nullptr;
        for (int i = 0; i < R->nfib; i++) {
            Fiber *f = &R->fib[i];
            if (f->state == FS_READY && f->stall_until > R->step && (!best || f->stall_until < best->stall_until))
                best = f;
        }
        if (best) {
            best->stall_until = 0;
            if (best == cur) return cur;
            continue;
        }
        for (int i = 0; i < R->nfib; i++) {
            Fiber *f = &R->fib[i];
            bool timed = f->state == FS_SLEEP || ((f->state == FS_FUTEX || f->state == FS_COND) && f->timed);
            if (timed && (!best || f->wake_ns < best->wake_ns)) best = f;
        }
        if (best) {
            R->clock_ns = best->wake_ns;
            if (best == cur) return cur;
            continue;
        }
        char buf[1500];
        describe_blocked(buf, sizeof buf);
        rt_violation("DEADLOCK", buf);
    }
    // default: next in cyclic order
    int base = cur->id;
    Fiber *def = nullptr;
    for (int k = 1; k <= R->nfib && !def; k++) {
        int id = (base + k) % R->nfib;
        for (int i = 0; i < n; i++)
            if (c[i]->id == id) def = c[i];
    }
    Fiber *pick = def;
    if (R->step < R->chaos_end) {
        if (R->cfg.script) {
            u32 v;
            if (script_take(DK_CHOOSE, &v)) {
                for (int i = 0; i < n; i++)
                    if ((u32)c[i]->id == v) pick = c[i];
            }
        } else {
            if (R->cfg.mode == 1) {
                pick = c[0];
                for (int i = 1; i < n; i++)
                    if (c[i]->prio > pick->prio) pick = c[i];
            } else {
                pick = c[rnd() % n];
            }
            if (pick != def) log_dec(DK_CHOOSE, pick->id);
        }
    } else {
        u64 h = mix(R->step, 77);
        pick = c[h % n];
    }
    return pick;
}

static void fair_tick() {
    if (R->step > R->fair_limit) {
        char buf[1500];
        size_t o = snprintf(buf, sizeof buf, "no progress within %llu fair steps: ",
            (unsigned long long)(R->fair_limit - R->chaos_end));
        describe_blocked(buf + o, sizeof buf - o);
        rt_violation("LIVELOCK", buf);
    }
    if (R->step >= R->fair_next) {
        u64 h = mix(R->step, 1234567);
        R->fair_next = R->step + 20 + h % 97;
        R->next_event = R->fair_next;
        Fiber *c[RT_MAX_FIBERS];
        int n = collect(c, nullptr);
        if (n) {
            Fiber *t = c[(h >> 20) % n];
            if (t != R->cur) {
                make_ready(t);
                switch_to(t);
            }
        }
    }
}

static void do_switch(Fiber *t) {
    if (t == R->cur) return;
    R->st.preempts++;
    if (t->state != FS_READY) make_ready(t);
    t->stall_until = 0;
    switch_to(t);
}

// spurious futex wakeup of fiber t
static void spur_wake(Fiber *t) {
    R->st.f_spur++;
    t->state = FS_READY;
    t->stall_until = 0;
    t->wait_result = EINTR;
}

static void stall_cur(u64 len) {
    R->st.f_stall++;
    R->cur->stall_until = R->step + len;
    Fiber *t = pick_next(true);
    if (t != R->cur) {
        if (t->state != FS_READY) make_ready(t);
        switch_to(t);
    } else {
        R->cur->stall_until = 0;
    }
}

static NOINL void decide(bool atomic_point) {
    if (R->step >= R->chaos_end) {
        if (R->fair_next == 0) R->fair_next = R->step;
        fair_tick();
        set_next_event();
        return;
    }
    if (R->cfg.script) {
        u32 v;
        if (script_take(DK_CLOCK, &v)) {
            R->clock_ns += (u64)v * 1000;
            R->st.f_clock++;
        }
        if (script_take(DK_SPURWAKE, &v) && v < (u32)R->nfib && R->fib[v].state == FS_FUTEX) spur_wake(&R->fib[v]);
        u32 sw;
        bool have_sw = script_take(DK_SWITCH, &sw);
        bool have_st = script_take(DK_STALL, &v);
        set_next_event();
        if (have_st) {
            stall_cur(v);
        } else if (have_sw && sw < (u32)R->nfib) {
            Fiber *t = &R->fib[sw];
            if (t != R->cur && t->state != FS_DONE && t->state != FS_FREE && (t->state == FS_READY || runnable(t)))
                do_switch(t);
        }
        return;
    }
    const RtCfg &c = R->cfg;
    if (c.p_clock && rnd() % 65536 < c.p_clock) {
        u32 us = (u32)(1u << (rnd() % 31));
        R->clock_ns += (u64)us * 1000;
        R->st.f_clock++;
        log_dec(DK_CLOCK, us);
    }
    if (c.p_spur) {
        if (rnd() % 1024 < c.p_spur) {
            Fiber *w[RT_MAX_FIBERS];
            int n = 0;
            for (int i = 0; i < R->nfib; i++)
                if (R->fib[i].state == FS_FUTEX) w[n++] = &R->fib[i];
            if (n) {
                Fiber *t = w[rnd() % n];
                log_dec(DK_SPURWAKE, t->id);
                spur_wake(t);
            }
        }
    }
    if (c.p_stall && rnd() % 65536 < c.p_stall) {
        u32 len = (u32)(64u << (rnd() % 6));
        log_dec(DK_STALL, len);
        stall_cur(len);
        set_next_event();
        return;
    }
    Fiber *t = R->cur;
    if (c.mode == 1) {
        bool change = false;
        u64 now = R->step;
        if (c.focus == 1) {
            now = t->hot && atomic_point ? ++R->hot_count : 0;
        } else if (c.focus == 2) {
            now = t->hot ? R->hot_count + (R->step - R->hot_base) : 0;
        }
        for (u32 i = 0; i < R->n_pct; i++) {
            if (R->pct_points[i] && now >= R->pct_points[i]) {
                R->pct_points[i] = 0;
                R->cur->prio = --R->pct_low;
                change = true;
            }
        }
        if (change || atomic_point) {
            Fiber *l[RT_MAX_FIBERS];
            int n = collect(l, nullptr);
            for (int i = 0; i < n; i++)
                if (l[i]->prio > t->prio) t = l[i];
        }
    } else {
        u32 p = c.p_switch;
        if (c.mode == 2) {
            if (R->step >= R->burst_until) {
                R->burst_on = !R->burst_on;
                R->burst_until = R->step + 1 + rnd() % (R->burst_on ? 150 : 1500);
            }
            p = R->burst_on ? 512 : 8;
        }
        if (c.focus) p = t->hot ? p * 4 : p / 8;
        if (!atomic_point || rnd() % 1024 < p) {
            Fiber *l[RT_MAX_FIBERS];
            int n = collect(l, R->cur);
            if (n) t = l[rnd() % n];
        }
    }
    set_next_event();
    if (t != R->cur) {
        log_dec(DK_SWITCH, t->id);
        do_switch(t);
    }
}

static inline void step_plain() {
    R->step++;
    R->st.plain++;
    if (unlikely(R->step >= R->next_event)) decide(false);
}

static inline void step_atomic(u64 addr, u32 op) {
    R->step++;
    R->st.atomics++;
    R->clock_ns += 7;
    decide(true);
    u64 k = addr * 31 + op * 8 + R->cur->id;
    R->st.order_hash = mix(R->st.order_hash, k);
    R->st.run_hash = mix(R->st.run_hash, k ^ (R->step << 20));
}

// Give up the processor because of a yield-like operation.
static void yield_now() {
    R->step++;
    R->st.yields++;
    R->clock_ns += 50;
    R->st.run_hash = mix(R->st.run_hash, R->step * 16 + R->cur->id);
    if (R->step >= R->chaos_end) {
        if (R->step > R->fair_limit) {
            R->fair_next = R->step;
            fair_tick();
        }
        Fiber *t = pick_next(true);
        if (t != R->cur) {
            if (t->state != FS_READY) make_ready(t);
            switch_to(t);
        }
        return;
    }
    if (!R->cfg.script && R->cfg.mode == 1) R->cur->prio = --R->pct_low;
    if (!R->cfg.script && R->cfg.mode != 1 && rnd() % 4 == 0) { // a yield that does not give up the processor
        log_dec(DK_YIELDSTAY, 0);
        return;
    }
    u32 v;
    if (R->cfg.script && script_take(DK_YIELDSTAY, &v)) return;
    Fiber *t = pick_next(true);
    if (t != R->cur) {
        if (t->state != FS_READY) make_ready(t);
        switch_to(t);
    }
}

// Block the current fiber (its state is already set to a blocked one).
static void block_now() {
    R->step++;
    R->st.blocked_waits++;
    if (R->step > R->fair_limit) {
        R->fair_next = R->step;
        fair_tick();
    }
    Fiber *t = pick_next(false);
    if (t->state != FS_READY) make_ready(t);
    t->stall_until = 0;
    if (t != R->cur) switch_to(t);
}

// ---------------------------------------------------------------------------------------------------------------------
// Happens-before and shadow memory

static inline void vc_join(VC &a, const VC &b) {
    for (int i = 0; i < RT_MAX_FIBERS; i++)
        if (b.c[i] > a.c[i]) a.c[i] = b.c[i];
}
static SyncVar *sync_var(u64 addr, bool create) {
    u64 h = (addr * 0x9e3779b97f4a7c15ull) >> 48;
    for (u32 k = 0; k < SYNC_SLOTS; k++) {
        SyncVar *s = &R->sync[(h + k) & (SYNC_SLOTS - 1)];
        if (s->gen != R->gen) {
            if (!create) return nullptr;
            s->gen = R->gen;
            s->addr = addr;
            memset(&s->vc, 0, sizeof s->vc);
            return s;
        }
        if (s->addr == addr) return s;
    }
    die("sync table full");
}
static void acquire_from(u64 addr) {
    if (SyncVar *s = sync_var(addr, false)) vc_join(R->cur->vc, s->vc);
}
static void release_to(u64 addr, bool reset) {
    SyncVar *s = sync_var(addr, true);
    if (reset) s->vc = R->cur->vc;
    else
        vc_join(s->vc, R->cur->vc);
    R->cur->vc.c[R->cur->id]++;
}

static inline Shadow *shadow_of(u64 a) {
    if (a - HEAP_BASE < HEAP_SIZE) return (Shadow *)SHAD_BASE + ((a - HEAP_BASE) >> 3);
    if (a - g_data_lo < g_data_hi - g_data_lo) return (Shadow *)DSHAD_BASE + ((a - g_data_lo) >> 3);
    return nullptr;
}

static BlockHdr *find_block(u64 a) {
    // blocks are in address order
    size_t lo = 0, hi = R->n_blocks;
    while (lo < hi) {
        size_t m = (lo + hi) / 2;
        if ((u64)R->blocks[m] <= a) lo = m + 1;
        else
            hi = m;
    }
    if (!lo) return nullptr;
    return (BlockHdr *)R->blocks[lo - 1];
}

extern "C" const char *rt_describe_addr(const void *p) {
    u64 a = (u64)p;
    if (a - HEAP_BASE < HEAP_SIZE) {
        BlockHdr *b = find_block(a);
        if (b) {
            snprintf(R->desc, sizeof R->desc, "heap[block of %llu bytes from pc 0x%llx, offset %lld%s]",
                (unsigned long long)b->size, (unsigned long long)b->pc, (long long)(a - (u64)(b + 1)),
                b->freed ? ", freed" : "");
        } else {
            snprintf(R->desc, sizeof R->desc, "heap[unallocated]");
        }
    } else if (a >= g_data_lo && a < g_data_hi) {
        snprintf(R->desc, sizeof R->desc, "global[0x%llx]", (unsigned long long)a);
    } else {
        snprintf(R->desc, sizeof R->desc, "address[0x%llx]", (unsigned long long)a);
    }
    return R->desc;
}

static NOINL void report_race(u64 addr, Slot *old, u32 pc, u8 flags) {
    R->st.races++;
    if (R->reported_races++ && !R->cfg.race_fatal) return;
    char buf[1024];
    snprintf(buf, sizeof buf, "data race on %s: %s%s by fiber %d at pc 0x%x is unordered with earlier %s%s by fiber %d at pc 0x%x",
        rt_describe_addr((void *)addr), flags & SF_ATOMIC ? "atomic " : "",
        flags & SF_FREE ? "free" : flags & SF_WRITE ? "write" : "read", R->cur->id, pc,
        old->flags & SF_ATOMIC ? "atomic " : "", old->flags & SF_FREE ? "free" : old->flags & SF_WRITE ? "write" : "read",
        old->tid, old->pc);
    if (R->cfg.race_fatal) rt_violation("RACE", buf);
    rt_note_violation("RACE", buf);
}

static NOINL void bad_access(u64 addr, u32 pc, u8 flags, const char *what) {
    char buf[1024];
    snprintf(buf, sizeof buf, "%s: %s of %s by fiber %d at pc 0x%x", what,
        flags & SF_FREE ? "free" : flags & SF_WRITE ? "write" : "read", rt_describe_addr((void *)addr), R->cur->id, pc);
    rt_violation("HEAP", buf);
}

static void shadow_access(Shadow *sh, u64 gaddr, u8 mask, u8 flags, u32 pc) {
    if (!R->cfg.detect_races) return;
    if (sh->gen != R->gen) { // data segment: first touch in this run
        sh->gen = R->gen;
        sh->n = 0;
        sh->rr = 0;
        sh->state = ST_NONE;
    }
    Fiber *f = R->cur;
    const u32 *vc = f->vc.c;
    if (sh->n && sh->s[0].tid == f->id && sh->s[0].clk == vc[f->id] && sh->s[0].mask == mask && sh->s[0].flags == flags)
        return; // the same access again, nothing released in between
    int place = -1;
    for (int i = 0; i < sh->n; i++) {
        Slot &s = sh->s[i];
        bool hb = vc[s.tid] >= s.clk;
        if (!hb && (s.mask & mask) && ((s.flags | flags) & SF_WRITE) && !((s.flags & flags) & SF_ATOMIC)) {
            report_race(gaddr, &s, pc, flags);
        }
        if (hb && (s.mask & ~mask) == 0) {
            bool w_ok = (flags & SF_WRITE) || !(s.flags & SF_WRITE);
            bool a_ok = !(flags & SF_ATOMIC) || (s.flags & SF_ATOMIC);
            if (w_ok && a_ok) {
                if (place < 0) place = i;
                else { // drop a second subsumed slot
                    sh->s[i] = sh->s[sh->n - 1];
                    sh->n--;
                    i--;
                }
            }
        }
    }
    if (place < 0) {
        if (sh->n < NSLOTS) place = sh->n++;
        else
            place = (sh->rr++) % NSLOTS;
    }
    Slot &s = sh->s[place];
    s.clk = vc[f->id];
    s.pc = pc;
    s.tid = f->id;
    s.mask = mask;
    s.flags = flags;
    s.step = (u32)R->step;
}

static inline void access(u64 a, size_t n, u8 flags, u32 pc) {
    // [a, a+n) within or across granules
    while (n) {
        u64 g = a & ~7ull;
        size_t off = a - g;
        size_t k = 8 - off;
        if (k > n) k = n;
        Shadow *sh = shadow_of(g);
        if (!sh) return;
        if (g - HEAP_BASE < HEAP_SIZE) {
            if (unlikely(sh->gen != R->gen || sh->state != ST_ALLOC || off + k > sh->valid)) {
                if (sh->gen == R->gen && sh->state == ST_FREED) bad_access(a, pc, flags, "use after free");
                bad_access(a, pc, flags, "out of bounds access");
            }
        }
        shadow_access(sh, g, (u8)(((1u << k) - 1) << off), flags, pc);
        a += k;
        n -= k;
    }
}

#define ACTIVE() (g_active && R->cur->sut)
#define PC() ((u32)(u64)__builtin_return_address(0))

static inline void plain_access(const void *p, size_t n, u8 flags, u32 pc) {
    u64 a = (u64)p;
    if (a - HEAP_BASE < HEAP_SIZE || a - g_data_lo < g_data_hi - g_data_lo) {
        step_plain();
        access(a, n, flags, pc);
    } else if (unlikely(a < 4096)) {
        char buf[200];
        snprintf(buf, sizeof buf, "null dereference: %s of address 0x%llx by fiber %d at pc 0x%x",
            flags & SF_WRITE ? "write" : "read", (unsigned long long)a, R->cur->id, pc);
        rt_violation("CRASH", buf);
    }
}

extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define RW(N)                                                                                                          \
    void __tsan_read##N(void *p) {                                                                                     \
        if (ACTIVE()) plain_access(p, N, 0, PC());                                                                     \
    }                                                                                                                  \
    void __tsan_write##N(void *p) {                                                                                    \
        if (ACTIVE()) plain_access(p, N, SF_WRITE, PC());                                                              \
    }                                                                                                                  \
    void __tsan_unaligned_read##N(void *p) {                                                                           \
        if (ACTIVE()) plain_access(p, N, 0, PC());                                                                     \
    }                                                                                                                  \
    void __tsan_unaligned_write##N(void *p) {                                                                          \
        if (ACTIVE()) plain_access(p, N, SF_WRITE, PC());                                                              \
    }                                                                                                                  \
    void __tsan_read_write##N(void *p) {                                                                               \
        if (ACTIVE()) plain_access(p, N, SF_WRITE, PC());                                                              \
    }                                                                                                                  \
    void __tsan_unaligned_read_write##N(void *p) {                                                                     \
        if (ACTIVE()) plain_access(p, N, SF_WRITE, PC());                                                              \
    }                                                                                                                  \
    void __tsan_volatile_read##N(void *p) {                                                                            \
        if (ACTIVE()) plain_access(p, N, 0, PC());                                                                     \
    }                                                                                                                  \
    void __tsan_volatile_write##N(void *p) {                                                                           \
        if (ACTIVE()) plain_access(p, N, SF_WRITE, PC());                                                              \
    }
RW(1)
RW(2)
RW(4)
RW(8)
RW(16)
void __tsan_read_range(void *p, size_t n) {
    if (ACTIVE() && n) plain_access(p, n, 0, PC());
}
void __tsan_write_range(void *p, size_t n) {
    if (ACTIVE() && n) plain_access(p, n, SF_WRITE, PC());
}
void __tsan_vptr_update(void **p, void *) {
    if (ACTIVE()) plain_access(p, 8, SF_WRITE, PC());
}
void __tsan_vptr_read(void **p) {
    if (ACTIVE()) plain_access(p, 8, 0, PC());
}
// Ranges are touched piecewise, so that a preemption can happen in the middle of a bulk copy.
static void range_rw(char *d, const char *s, size_t n, u32 pc, bool backwards) {
    const size_t CH = 64;
    if (!backwards) {
        for (size_t o = 0; o < n; o += CH) {
            size_t k = n - o < CH ? n - o : CH;
            plain_access(s + o, k, 0, pc);
            plain_access(d + o, k, SF_WRITE, pc);
            memmove(d + o, s + o, k);
        }
    } else {
        size_t o = n;
        while (o) {
            size_t k = o < CH ? o : CH;
            o -= k;
            plain_access(s + o, k, 0, pc);
            plain_access(d + o, k, SF_WRITE, pc);
            memmove(d + o, s + o, k);
        }
    }
}
void *__tsan_memcpy(void *d, const void *s, size_t n) {
    if (ACTIVE() && n) {
        range_rw((char *)d, (const char *)s, n, PC(), false);
        return d;
    }
    return memcpy(d, s, n);
}
void *__tsan_memmove(void *d, const void *s, size_t n) {
    if (ACTIVE() && n) {
        range_rw((char *)d, (const char *)s, n, PC(), (char *)d > (const char *)s);
        return d;
    }
    return memmove(d, s, n);
}
void *__tsan_memset(void *d, int v, size_t n) {
    if (ACTIVE() && n) plain_access(d, n, SF_WRITE, PC());
    return memset(d, v, n);
}

// --- atomics
}

enum { MO_RELAXED, MO_CONSUME, MO_ACQUIRE, MO_RELEASE, MO_ACQ_REL, MO_SEQ_CST };
static inline bool is_acq(int mo) {
    return mo == MO_CONSUME || mo == MO_ACQUIRE || mo == MO_ACQ_REL || mo == MO_SEQ_CST;
}
static inline bool is_rel(int mo) {
    return mo == MO_RELEASE || mo == MO_ACQ_REL || mo == MO_SEQ_CST;
}
static void hb_load(u64 a, int mo) {
    SyncVar *s = sync_var(a, false);
    if (!s) return;
    if (is_acq(mo)) vc_join(R->cur->vc, s->vc);
    else
        vc_join(R->cur->acq_fence, s->vc);
}
static void hb_store(u64 a, int mo) {
    SyncVar *s = sync_var(a, true);
    if (is_rel(mo)) {
        s->vc = R->cur->vc;
        R->cur->vc.c[R->cur->id]++;
    } else {
        s->vc = R->cur->rel_fence;
    }
}
static void hb_rmw(u64 a, int mo) {
    SyncVar *s = sync_var(a, true);
    if (is_acq(mo)) vc_join(R->cur->vc, s->vc);
    else
        vc_join(R->cur->acq_fence, s->vc);
    if (is_rel(mo)) {
        vc_join(s->vc, R->cur->vc);
        R->cur->vc.c[R->cur->id]++;
    } else {
        vc_join(s->vc, R->cur->rel_fence);
    }
}
static inline void atomic_pre(const volatile void *p, size_t n, u32 op, u8 flags, u32 pc) {
    step_atomic((u64)p, op);
    if ((u64)p < 4096) plain_access((const void *)p, n, flags, pc);
    u64 a = (u64)p;
    if (a - HEAP_BASE < HEAP_SIZE || a - g_data_lo < g_data_hi - g_data_lo) access(a, n, flags | SF_ATOMIC, pc);
}

extern "C" {
#define ATOMICS(B, T)                                                                                                  \
    T __tsan_atomic##B##_load(const volatile T *p, int mo) {                                                           \
        if (!ACTIVE()) return *p;                                                                                      \
        atomic_pre(p, sizeof(T), 1, 0, PC());                                                                          \
        hb_load((u64)p, mo);                                                                                           \
        T v = *p;                                                                                                      \
        R->st.run_hash = mix(R->st.run_hash, (u64)v);                                                                  \
        return v;                                                                                                      \
    }                                                                                                                  \
    void __tsan_atomic##B##_store(volatile T *p, T v, int mo) {                                                        \
        if (!ACTIVE()) {                                                                                               \
            *p = v;                                                                                                    \
            return;                                                                                                    \
        }                                                                                                              \
        atomic_pre(p, sizeof(T), 2, SF_WRITE, PC());                                                                   \
        hb_store((u64)p, mo);                                                                                          \
        *p = v;                                                                                                        \
    }                                                                                                                  \
    T __tsan_atomic##B##_exchange(volatile T *p, T v, int mo) {                                                        \
        if (ACTIVE()) {                                                                                                \
            atomic_pre(p, sizeof(T), 3, SF_WRITE, PC());                                                               \
            hb_rmw((u64)p, mo);                                                                                        \
        }                                                                                                              \
        T o = *p;                                                                                                      \
        *p = v;                                                                                                        \
        return o;                                                                                                      \
    }                                                                                                                  \
    T __tsan_atomic##B##_fetch_add(volatile T *p, T v, int mo) {                                                       \
        if (ACTIVE()) {                                                                                                \
            atomic_pre(p, sizeof(T), 4, SF_WRITE, PC());                                                               \
            hb_rmw((u64)p, mo);                                                                                        \
        }                                                                                                              \
        T o = *p;                                                                                                      \
        *p = (T)(o + v);                                                                                               \
        return o;                                                                                                      \
    }                                                                                                                  \
    T __tsan_atomic##B##_fetch_sub(volatile T *p, T v, int mo) {                                                       \
        if (ACTIVE()) {                                                                                                \
            atomic_pre(p, sizeof(T), 5, SF_WRITE, PC());                                                               \
            hb_rmw((u64)p, mo);                                                                                        \
        }                                                                                                              \
        T o = *p;                                                                                                      \
        *p = (T)(o - v);                                                                                               \
        return o;                                                                                                      \
    }                                                                                                                  \
    T __tsan_atomic##B##_fetch_and(volatile T *p, T v, int mo) {                                                       \
        if (ACTIVE()) {                                                                                                \
            atomic_pre(p, sizeof(T), 6, SF_WRITE, PC());                                                               \
            hb_rmw((u64)p, mo);                                                                                        \
        }                                                                                                              \
        T o = *p;                                                                                                      \
        *p = (T)(o & v);                                                                                               \
        return o;                                                                                                      \
    }                                                                                                                  \
    T __tsan_atomic##B##_fetch_or(volatile T *p, T v, int mo) {                                                        \
        if (ACTIVE()) {                                                                                                \
            atomic_pre(p, sizeof(T), 7, SF_WRITE, PC());                                                               \
            hb_rmw((u64)p, mo);                                                                                        \
        }                                                                                                              \
        T o = *p;                                                                                                      \
        *p = (T)(o | v);                                                                                               \
        return o;                                                                                                      \
    }                                                                                                                  \
    T __tsan_atomic##B##_fetch_xor(volatile T *p, T v, int mo) {                                                       \
        if (ACTIVE()) {                                                                                                \
            atomic_pre(p, sizeof(T), 8, SF_WRITE, PC());                                                               \
            hb_rmw((u64)p, mo);                                                                                        \
        }                                                                                                              \
        T o = *p;                                                                                                      \
        *p = (T)(o ^ v);                                                                                               \
        return o;                                                                                                      \
    }                                                                                                                  \
    T __tsan_atomic##B##_fetch_nand(volatile T *p, T v, int mo) {                                                      \
        if (ACTIVE()) {                                                                                                \
            atomic_pre(p, sizeof(T), 9, SF_WRITE, PC());                                                               \
            hb_rmw((u64)p, mo);                                                                                        \
        }                                                                                                              \
        T o = *p;                                                                                                      \
        *p = (T) ~(o & v);                                                                                             \
        return o;                                                                                                      \
    }                                                                                                                  \
    T __tsan_atomic##B##_compare_exchange_val(volatile T *p, T c, T v, int mo, int fmo) {                              \
        bool act = ACTIVE();                                                                                           \
        if (act) step_atomic((u64)p, 10);                                                                              \
        bool ok = *p == c;                                                                                             \
        if (act) {                                                                                                     \
            u64 a = (u64)p;                                                                                            \
            if (a < 4096) plain_access((const void *)p, sizeof(T), SF_WRITE, PC());                                    \
            if (a - HEAP_BASE < HEAP_SIZE || a - g_data_lo < g_data_hi - g_data_lo)                                    \
                access(a, sizeof(T), (ok ? SF_WRITE : 0) | SF_ATOMIC, PC());                                           \
            if (ok) hb_rmw(a, mo);                                                                                     \
            else                                                                                                       \
                hb_load(a, fmo);                                                                                       \
            R->st.run_hash = mix(R->st.run_hash, (u64)*p + ok);                                                        \
        }                                                                                                              \
        T o = *p;                                                                                                      \
        if (ok) *p = v;                                                                                                \
        return o;                                                                                                      \
    }                                                                                                                  \
    int __tsan_atomic##B##_compare_exchange_strong(volatile T *p, T *c, T v, int mo, int fmo) {                        \
        T exp = *c;                                                                                                    \
        T o = __tsan_atomic##B##_compare_exchange_val(p, exp, v, mo, fmo);                                             \
        if (o == exp) return 1;                                                                                        \
        *c = o;                                                                                                        \
        return 0;                                                                                                      \
    }                                                                                                                  \
    int __tsan_atomic##B##_compare_exchange_weak(volatile T *p, T *c, T v, int mo, int fmo) {                          \
        return __tsan_atomic##B##_compare_exchange_strong(p, c, v, mo, fmo);                                           \
    }
ATOMICS(8, u8)
ATOMICS(16, uint16_t)
ATOMICS(32, u32)
ATOMICS(64, u64)

void __tsan_atomic_thread_fence(int mo) {
    if (!ACTIVE()) return;
    step_atomic(0, 11);
    if (is_acq(mo)) vc_join(R->cur->vc, R->cur->acq_fence);
    if (is_rel(mo)) {
        R->cur->rel_fence = R->cur->vc;
        R->cur->vc.c[R->cur->id]++;
    }
}
void __tsan_atomic_signal_fence(int) {}

int rt_weak_fail(void) {
    if (!ACTIVE() || R->step >= R->chaos_end) return 0;
    if (R->cfg.script) {
        u32 v;
        if (script_take(DK_WEAKFAIL, &v)) {
            R->st.f_weak++;
            return 1;
        }
        return 0;
    }
    if (R->cfg.p_weak && rnd() % 1024 < R->cfg.p_weak) {
        log_dec(DK_WEAKFAIL, 0);
        R->st.f_weak++;
        return 1;
    }
    return 0;
}

// ---------------------------------------------------------------------------------------------------------------------
// Operating system seams

static long raw_syscall(long n, long a, long b, long c, long d, long e, long f) {
    long ret;
    register long r10 asm("r10") = d;
    register long r8 asm("r8") = e;
    register long r9 asm("r9") = f;
    asm volatile("syscall"
                 : "=a"(ret)
                 : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                 : "rcx", "r11", "memory");
    return ret;
}

static long sim_futex(u32 *uaddr, int op, u32 val, const timespec *ts) {
    int cmd = op & FUTEX_CMD_MASK;
    if (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET) {
        R->st.futex_waits++;
        step_atomic((u64)uaddr, 12);
        if (*uaddr != val) {
            errno = EAGAIN;
            return -1;
        }
        Fiber *f = R->cur;
        f->state = FS_FUTEX;
        f->wait_addr = (u64)uaddr;
        f->wait_result = 0;
        f->timed = ts != nullptr;
        if (ts) {
            u64 ns = (u64)ts->tv_sec * 1000000000ull + ts->tv_nsec;
            f->wake_ns = cmd == FUTEX_WAIT ? R->clock_ns + ns : ns;
        }
        block_now();
        f->timed = 0;
        if (f->wait_result) {
            errno = f->wait_result;
            return -1;
        }
        return 0;
    }
    if (cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET) {
        R->st.futex_wakes++;
        step_atomic((u64)uaddr, 13);
        Fiber *w[RT_MAX_FIBERS];
        int n = 0, woken = 0;
        for (int i = 0; i < R->nfib; i++)
            if (R->fib[i].state == FS_FUTEX && R->fib[i].wait_addr == (u64)uaddr) w[n++] = &R->fib[i];
        while (n && woken < (int)val) {
            int k = 0;
            if ((int)val - woken < n && n > 1) {
                if (R->cfg.script || R->step >= R->chaos_end) {
                    u32 v = 0;
                    if (R->cfg.script && R->step < R->chaos_end && script_take(DK_WAKEPICK, &v)) k = v % n;
                } else {
                    k = rnd() % n;
                    if (k) log_dec(DK_WAKEPICK, k);
                }
            }
            w[k]->state = FS_READY;
            w[k]->wait_result = 0;
            w[k] = w[--n];
            woken++;
        }
        return woken;
    }
    rt_violation("HARNESS", "unsupported futex operation");
}

long syscall(long n, ...) {
    va_list ap;
    va_start(ap, n);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long),
         f = va_arg(ap, long);
    va_end(ap);
    if (n == SYS_futex && g_active) return sim_futex((u32 *)a, (int)b, (u32)c, (const timespec *)d);
    long r = raw_syscall(n, a, b, c, d, e, f);
    if (r < 0 && r > -4096) {
        errno = (int)-r;
        return -1;
    }
    return r;
}

int sched_yield(void) {
    if (g_active && R->cur->sut) yield_now();
    return 0;
}
static void sim_sleep(u64 until) {
    R->step++;
    Fiber *f = R->cur;
    f->state = FS_SLEEP;
    f->wake_ns = until;
    block_now();
}
int nanosleep(const timespec *ts, timespec *) {
    if (g_active) {
        sim_sleep(R->clock_ns + (u64)ts->tv_sec * 1000000000ull + ts->tv_nsec);
        return 0;
    }
    return (int)raw_syscall(SYS_nanosleep, (long)ts, 0, 0, 0, 0, 0);
}
int clock_nanosleep(clockid_t, int flags, const timespec *ts, timespec *) {
    if (g_active) {
        u64 ns = (u64)ts->tv_sec * 1000000000ull + ts->tv_nsec;
        sim_sleep(flags & TIMER_ABSTIME ? ns : R->clock_ns + ns);
        return 0;
    }
    return (int)raw_syscall(SYS_nanosleep, (long)ts, 0, 0, 0, 0, 0);
}
int usleep(useconds_t us) {
    if (g_active) {
        sim_sleep(R->clock_ns + us * 1000ull);
        return 0;
    }
    timespec ts{(time_t)(us / 1000000), (long)(us % 1000000) * 1000};
    return (int)raw_syscall(SYS_nanosleep, (long)&ts, 0, 0, 0, 0, 0);
}
int clock_gettime(clockid_t id, timespec *ts) noexcept {
    if (g_active) {
        R->clock_ns += 13;
        ts->tv_sec = R->clock_ns / 1000000000ull;
        ts->tv_nsec = R->clock_ns % 1000000000ull;
        return 0;
    }
    long r = raw_syscall(SYS_clock_gettime, id, (long)ts, 0, 0, 0, 0);
    if (r < 0) {
        errno = (int)-r;
        return -1;
    }
    return 0;
}
// std::chrono::_V2::steady_clock::now() / system_clock::now()
int64_t _ZNSt6chrono3_V212steady_clock3nowEv() {
    timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return (int64_t)ts.tv_sec * 1000000000ll + ts.tv_nsec;
}
int64_t _ZNSt6chrono3_V212system_clock3nowEv() {
    timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    return (int64_t)ts.tv_sec * 1000000000ll + ts.tv_nsec;
}
uint64_t rt_os_thread_id(int fiber) {
    return 0x7ead00000000ull + (u64)(fiber + 1) * 0x1000;
}
pthread_t pthread_self(void) noexcept {
    if (g_active) return (pthread_t)rt_os_thread_id(R->cur->id);
    return (pthread_t)0x7ead00000000ull;
}
pid_t gettid(void) noexcept {
    if (g_active) return 1000 + R->cur->id;
    return (pid_t)raw_syscall(SYS_gettid, 0, 0, 0, 0, 0, 0);
}
int sched_getcpu(void) noexcept {
    return 0;
}

static MutexEnt *mtx_of(void *m) {
    u64 addr = (u64)m;
    u64 h = (addr * 0x9e3779b97f4a7c15ull) >> 52;
    for (u32 k = 0; k < 4096; k++) {
        MutexEnt *e = &R->mtx[(h + k) & 4095];
        if (e->gen != R->gen) {
            e->gen = R->gen;
            e->addr = addr;
            e->owner = e->count = e->readers = 0;
            return e;
        }
        if (e->addr == addr) return e;
    }
    die("mutex table full");
}
static void wake_mutex(u64 addr) {
    for (int i = 0; i < R->nfib; i++)
        if (R->fib[i].state == FS_MUTEX && R->fib[i].wait_addr == addr) R->fib[i].state = FS_READY;
}
static void wait_mutex(u64 addr) {
    R->cur->state = FS_MUTEX;
    R->cur->wait_addr = addr;
    block_now();
}
static void lock_mutex(pthread_mutex_t *m, bool recursive) {
    MutexEnt *e = mtx_of(m);
    if (recursive && e->owner == R->cur->id + 1) {
        e->count++;
        return;
    }
    while (e->owner)
        wait_mutex((u64)m);
    e->owner = R->cur->id + 1;
    e->count = 1;
    acquire_from((u64)m);
}
static void unlock_mutex(pthread_mutex_t *m) {
    MutexEnt *e = mtx_of(m);
    if (e->owner == R->cur->id + 1 && --e->count == 0) {
        release_to((u64)m, false);
        e->owner = 0;
        wake_mutex((u64)m);
    }
}
static bool is_recursive(pthread_mutex_t *m) {
    return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP;
}
int pthread_mutex_lock(pthread_mutex_t *m) noexcept {
    if (!g_active) return 0;
    step_atomic((u64)m, 14);
    lock_mutex(m, is_recursive(m));
    return 0;
}
int pthread_mutex_trylock(pthread_mutex_t *m) noexcept {
    if (!g_active) return 0;
    step_atomic((u64)m, 15);
    MutexEnt *e = mtx_of(m);
    if (e->owner && !(is_recursive(m) && e->owner == R->cur->id + 1)) return EBUSY;
    lock_mutex(m, is_recursive(m));
    return 0;
}
int pthread_mutex_unlock(pthread_mutex_t *m) noexcept {
    if (!g_active) return 0;
    unlock_mutex(m);
    step_atomic((u64)m, 16);
    return 0;
}
static int cond_wait(pthread_cond_t *c, pthread_mutex_t *m, bool timed, u64 deadline) {
    step_atomic((u64)c, 17);
    Fiber *f = R->cur;
    unlock_mutex(m);
    f->state = FS_COND;
    f->wait_addr = (u64)c;
    f->timed = timed;
    f->wake_ns = deadline;
    f->wait_result = 0;
    block_now();
    f->timed = 0;
    int r = f->wait_result;
    lock_mutex(m, is_recursive(m));
    return r == ETIMEDOUT ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
    if (!g_active) return 0;
    return cond_wait(c, m, false, 0);
}
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const timespec *ts) {
    if (!g_active) return 0;
    return cond_wait(c, m, true, (u64)ts->tv_sec * 1000000000ull + ts->tv_nsec);
}
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t, const timespec *ts) {
    return pthread_cond_timedwait(c, m, ts);
}
static void cond_wake(pthread_cond_t *c, int n) {
    step_atomic((u64)c, 18);
    for (int i = 0; i < R->nfib && n; i++)
        if (R->fib[i].state == FS_COND && R->fib[i].wait_addr == (u64)c) {
            R->fib[i].state = FS_READY;
            R->fib[i].wait_result = 0;
            n--;
        }
}
int pthread_cond_signal(pthread_cond_t *c) noexcept {
    if (g_active) cond_wake(c, 1);
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t *c) noexcept {
    if (g_active) cond_wake(c, INT_MAX);
    return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t *m) noexcept {
    if (!g_active) return 0;
    step_atomic((u64)m, 19);
    MutexEnt *e = mtx_of(m);
    while (e->owner)
        wait_mutex((u64)m);
    e->readers++;
    acquire_from((u64)m);
    return 0;
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t *m) noexcept {
    if (!g_active) return 0;
    step_atomic((u64)m, 20);
    MutexEnt *e = mtx_of(m);
    if (e->owner) return EBUSY;
    e->readers++;
    acquire_from((u64)m);
    return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t *m) noexcept {
    if (!g_active) return 0;
    step_atomic((u64)m, 21);
    MutexEnt *e = mtx_of(m);
    while (e->owner || e->readers)
        wait_mutex((u64)m);
    e->owner = R->cur->id + 1;
    acquire_from((u64)m);
    return 0;
}
int pthread_rwlock_trywrlock(pthread_rwlock_t *m) noexcept {
    if (!g_active) return 0;
    step_atomic((u64)m, 22);
    MutexEnt *e = mtx_of(m);
    if (e->owner || e->readers) return EBUSY;
    e->owner = R->cur->id + 1;
    acquire_from((u64)m);
    return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t *m) noexcept {
    if (!g_active) return 0;
    MutexEnt *e = mtx_of(m);
    release_to((u64)m, false);
    if (e->owner == R->cur->id + 1) e->owner = 0;
    else if (e->readers)
        e->readers--;
    wake_mutex((u64)m);
    step_atomic((u64)m, 23);
    return 0;
}
int pthread_once(pthread_once_t *once, void (*fn)(void)) {
    if (*(volatile int *)once == 2) {
        if (g_active) acquire_from((u64)once);
        return 0;
    }
    while (g_active && *(volatile int *)once == 1)
        yield_now();
    if (*(volatile int *)once == 2) return 0;
    *(volatile int *)once = 1;
    fn();
    *(volatile int *)once = 2;
    if (g_active) release_to((u64)once, false);
    return 0;
}

// function-local statics
static int guard_free(void *g) {
    return ((volatile u8 *)g)[1] == 0;
}
int sim_guard_acquire(u64 *g) asm("__cxa_guard_acquire");
void sim_guard_release(u64 *g) asm("__cxa_guard_release");
void sim_guard_abort(u64 *g) asm("__cxa_guard_abort");
int sim_guard_acquire(u64 *g) {
    volatile u8 *b = (volatile u8 *)g;
    if (b[0]) {
        if (g_active) acquire_from((u64)g);
        return 0;
    }
    if (g_active && b[1]) {
        rt_wait(guard_free, (void *)g);
        if (b[0]) {
            acquire_from((u64)g);
            return 0;
        }
    }
    b[1] = 1;
    return 1;
}
void sim_guard_release(u64 *g) {
    volatile u8 *b = (volatile u8 *)g;
    b[0] = 1;
    b[1] = 0;
    if (g_active) release_to((u64)g, false);
}
void sim_guard_abort(u64 *g) {
    volatile u8 *b = (volatile u8 *)g;
    b[1] = 0;
}
int __cxa_thread_atexit(void (*fn)(void *), void *obj, void *) {
    if (!g_active) return 0;
    Fiber *f = R->cur;
    if (f->n_tls_dtors < 64) {
        f->tls_dtors[f->n_tls_dtors].fn = fn;
        f->tls_dtors[f->n_tls_dtors++].obj = obj;
    }
    return 0;
}
} // extern "C"

// ---------------------------------------------------------------------------------------------------------------------
// Heap

static NOINL void *sut_alloc(size_t size, size_t align, u64 pc) {
    Fiber *f = R->cur;
    if (f->alloc_fail_n && --f->alloc_fail_n == 0) {
        f->alloc_fail_fired = 1;
        R->st.f_alloc++;
        throw std::bad_alloc();
    }
    R->st.allocs++;
    if (align < 16) align = 16;
    u64 user = R->heap_top + sizeof(BlockHdr) + 16;
    user = (user + align - 1) & ~(u64)(align - 1);
    u64 end = user + size + 24;
    if (size > HEAP_SIZE || end > HEAP_BASE + HEAP_SIZE) {
        char buf[200];
        snprintf(buf, sizeof buf, "allocation of %llu bytes exceeds the simulated heap", (unsigned long long)size);
        if (size > (64ull << 20)) throw std::bad_alloc();
        rt_violation("HEAPLIMIT", buf);
    }
    BlockHdr *h = (BlockHdr *)user - 1;
    h->magic = BLOCK_MAGIC;
    h->size = size;
    h->pc = pc;
    h->fiber = f->id;
    h->freed = 0;
    if (R->n_blocks >= MAX_BLOCKS) rt_violation("HEAPLIMIT", "too many heap blocks");
    R->blocks[R->n_blocks++] = h;
    memset((void *)user, 0xCB, size);
    Shadow *sh = (Shadow *)SHAD_BASE + ((user - HEAP_BASE) >> 3);
    size_t g = (size + 7) / 8;
    for (size_t i = 0; i < g; i++) {
        sh[i].gen = R->gen;
        sh[i].n = 0;
        sh[i].rr = 0;
        sh[i].state = ST_ALLOC;
        sh[i].valid = 8;
    }
    if (size & 7) sh[g - 1].valid = size & 7;
    R->heap_top = (end + 7) & ~7ull;
    R->st.run_hash = mix(R->st.run_hash, size ^ (R->step << 8));
    return (void *)user;
}

static NOINL void sut_free(void *p, u32 pc) {
    u64 a = (u64)p;
    BlockHdr *h = (BlockHdr *)a - 1;
    BlockHdr *b = find_block(a);
    if (b != h || h->magic != BLOCK_MAGIC) bad_access(a, pc, SF_FREE, "free of a pointer that was not allocated");
    if (h->freed) bad_access(a, pc, SF_FREE, "double free");
    R->st.frees++;
    size_t g = (h->size + 7) / 8;
    Shadow *sh = (Shadow *)SHAD_BASE + ((a - HEAP_BASE) >> 3);
    bool ins = R->cur->sut;
    for (size_t i = 0; i < g; i++) {
        if (ins) shadow_access(&sh[i], a + i * 8, 0xff, SF_WRITE | SF_FREE, pc);
        sh[i].state = ST_FREED;
    }
    h->freed = 1;
    memset(p, 0xDD, h->size);
}

static void *harn_alloc(size_t size, size_t align) {
    if (align <= 16 && size <= 1024) {
        int cls = (int)((size + 15) / 16);
        if (cls == 0) cls = 1;
        if (cls < 64 && R->harn_free[cls]) {
            void *p = (void *)R->harn_free[cls];
            R->harn_free[cls] = *(u64 *)p;
            ((u64 *)p)[-1] = size;
            return p;
        }
        size = (size_t)cls * 16;
    }
    u64 user = (R->harn_top + 16 + align - 1) & ~(u64)(align - 1);
    user = (user + 15) & ~15ull;
    if (user + size > HARN_BASE + HARN_SIZE) die("harness heap exhausted");
    ((u64 *)user)[-1] = size;
    R->harn_top = user + size;
    return (void *)user;
}
static void harn_free(void *p) {
    u64 size = ((u64 *)p)[-1];
    if (size <= 1008) {
        int cls = (int)((size + 15) / 16);
        if (cls == 0) cls = 1;
        *(u64 *)p = R->harn_free[cls];
        R->harn_free[cls] = (u64)p;
    }
}

static inline void *do_new(size_t n, size_t align, u64 pc) {
    if (g_active) {
        if (R->cur->sut) return sut_alloc(n, align, pc);
        return harn_alloc(n, align);
    }
    void *p = align > 16 ? aligned_alloc(align, (n + align - 1) / align * align) : malloc(n ? n : 1);
    if (!p) die("out of memory");
    return p;
}
static inline void do_delete(void *p, u32 pc) {
    if (!p) return;
    u64 a = (u64)p;
    if (a - HEAP_BASE < HEAP_SIZE) {
        if (g_active) sut_free(p, pc);
        return;
    }
    if (a - HARN_BASE < HARN_SIZE) {
        if (g_active) harn_free(p);
        return;
    }
    free(p);
}
void *operator new(size_t n) {
    return do_new(n, 16, PC());
}
void *operator new[](size_t n) {
    return do_new(n, 16, PC());
}
void *operator new(size_t n, std::align_val_t a) {
    return do_new(n, (size_t)a, PC());
}
void *operator new[](size_t n, std::align_val_t a) {
    return do_new(n, (size_t)a, PC());
}
void *operator new(size_t n, const std::nothrow_t &) noexcept {
    try {
        return do_new(n, 16, PC());
    } catch (...) {
        return nullptr;
    }
}
void *operator new[](size_t n, const std::nothrow_t &) noexcept {
    try {
        return do_new(n, 16, PC());
    } catch (...) {
        return nullptr;
    }
}
void operator delete(void *p) noexcept {
    do_delete(p, PC());
}
void operator delete[](void *p) noexcept {
    do_delete(p, PC());
}
void operator delete(void *p, size_t) noexcept {
    do_delete(p, PC());
}
void operator delete[](void *p, size_t) noexcept {
    do_delete(p, PC());
}
void operator delete(void *p, std::align_val_t) noexcept {
    do_delete(p, PC());
}
void operator delete[](void *p, std::align_val_t) noexcept {
    do_delete(p, PC());
}
void operator delete(void *p, size_t, std::align_val_t) noexcept {
    do_delete(p, PC());
}
void operator delete[](void *p, size_t, std::align_val_t) noexcept {
    do_delete(p, PC());
}
void operator delete(void *p, const std::nothrow_t &) noexcept {
    do_delete(p, PC());
}

extern "C" {
void rt_live_blocks(rt_block_fn fn, void *arg) {
    for (size_t i = 0; i < R->n_blocks; i++) {
        BlockHdr *h = (BlockHdr *)R->blocks[i];
        if (!h->freed) fn(arg, h + 1, h->size, h->pc, h->fiber);
    }
}
void rt_roots(rt_root_fn fn, void *arg) {
    fn(arg, &__data_start, (u64)&_end - (u64)&__data_start);
    fn(arg, g_tls_addr, g_tls_memsz);
}
size_t rt_live_count(void) {
    size_t n = 0;
    for (size_t i = 0; i < R->n_blocks; i++)
        if (!((BlockHdr *)R->blocks[i])->freed) n++;
    return n;
}
int rt_in_sut_heap(const void *p) {
    return (u64)p - HEAP_BASE < HEAP_SIZE;
}
void rt_arm_alloc_fail(int nth) {
    R->cur->alloc_fail_n = nth;
    R->cur->alloc_fail_fired = 0;
}
int rt_alloc_fail_pending(void) {
    return R->cur->alloc_fail_n != 0;
}
int rt_alloc_fail_fired(void) {
    return R->cur->alloc_fail_fired;
}
}

// ---------------------------------------------------------------------------------------------------------------------
// Fibers and runs

extern "C" void rt_fiber_entry() {
    Fiber *f = R->cur;
    errno = 0;
    try {
        f->fn(f->arg);
    } catch (std::exception &e) {
        char buf[600];
        snprintf(buf, sizeof buf, "unexpected exception escaped: %s: %s", typeid(e).name(), e.what());
        rt_violation("EXCEPTION", buf);
    } catch (...) {
        rt_violation("EXCEPTION", "unexpected exception of unknown type escaped");
    }
    for (int i = f->n_tls_dtors; i-- > 0;) {
        f->sut = 1;
        f->tls_dtors[i].fn(f->tls_dtors[i].obj);
    }
    f->sut = 0;
    R->final_vc[f->id] = f->vc;
    f->state = FS_DONE;
    if (f->id == 0) {
        R->status = RT_DONE;
        to_main();
    }
    R->step++;
    Fiber *t = pick_next(false);
    if (t->state != FS_READY) make_ready(t);
    switch_to(t);
    die("finished fiber resumed");
}

static Fiber *new_fiber(void (*fn)(void *), void *arg) {
    if (R->nfib >= RT_MAX_FIBERS) die("too many fibers");
    Fiber *f = &R->fib[R->nfib];
    char *stack = f->stack;
    memset(f, 0, offsetof(Fiber, tls));
    f->stack = stack;
    if (!f->stack) {
        char *m = (char *)map_fixed(RT_BASE + (4ull << 36) + (u64)R->nfib * (STACK_SIZE + (1 << 20)), STACK_SIZE + 8192);
        mprotect(m, 4096, PROT_NONE);
        f->stack = m + 4096;
    }
    f->id = R->nfib++;
    f->fn = fn;
    f->arg = arg;
    memset(f->tls, 0, g_tls_memsz);
    memcpy(f->tls, g_tls_img, g_tls_filesz);
    u64 *sp = (u64 *)(f->stack + STACK_SIZE - 64);
    sp = (u64 *)((u64)sp & ~15ull);
    *--sp = 0; // fake return address of rt_fiber_entry: aligned like after a call
    *--sp = (u64)rt_fiber_entry;
    for (int i = 0; i < 6; i++)
        *--sp = 0;
    f->sp = sp;
    f->state = FS_READY;
    f->hot = false;
    f->prio = 1000000 + (R->cfg.script ? 0 : rnd() % 1000000);
    f->vc.c[f->id] = 1;
    return f;
}

static int phdr_cb(dl_phdr_info *info, size_t, void *) {
    for (int i = 0; i < info->dlpi_phnum; i++) {
        if (info->dlpi_phdr[i].p_type == PT_TLS) {
            g_tls_memsz = info->dlpi_phdr[i].p_memsz;
            g_tls_filesz = info->dlpi_phdr[i].p_filesz;
            g_tls_img = (const char *)(info->dlpi_addr + info->dlpi_phdr[i].p_vaddr);
            g_tls_addr = (char *)info->dlpi_tls_data;
        }
    }
    return 1; // only the main executable
}

static void on_signal(int sig, siginfo_t *si, void *uc) {
    u64 pc = ((ucontext_t *)uc)->uc_mcontext.gregs[REG_RIP];
    char buf[300];
    snprintf(buf, sizeof buf, "signal %d (%s) at pc 0x%llx, address %p", sig, strsignal(sig), (unsigned long long)pc,
        si->si_addr);
    if (!g_active) {
        fprintf(stderr, "rt: crash outside a run: %s\n", buf);
        _exit(72);
    }
    rt_violation(sig == SIGALRM ? "TIMEOUT" : "CRASH", buf);
}

static void on_terminate() {
    char buf[600];
    snprintf(buf, sizeof buf, "std::terminate called");
    if (auto p = std::current_exception()) {
        try {
            std::rethrow_exception(p);
        } catch (std::exception &e) {
            snprintf(buf, sizeof buf, "std::terminate called after throwing %s: %s", typeid(e).name(), e.what());
        } catch (...) {
        }
    }
    if (!g_active) {
        fprintf(stderr, "rt: %s\n", buf);
        _exit(73);
    }
    rt_violation("TERMINATE", buf);
}

extern "C" {
void rt_init(void) {
    R = (RT *)map_fixed(RT_BASE, sizeof(RT));
    map_fixed(HEAP_BASE, HEAP_SIZE);
    map_fixed(HARN_BASE, HARN_SIZE);
    map_fixed(SHAD_BASE, HEAP_SIZE / 8 * sizeof(Shadow));
    g_data_lo = (u64)&__data_start & ~7ull;
    g_data_hi = ((u64)&_end + 7) & ~7ull;
    map_fixed(DSHAD_BASE, (g_data_hi - g_data_lo) / 8 * sizeof(Shadow));
    R->blocks = (void **)map_fixed(RT_BASE + (1ull << 36), MAX_BLOCKS * sizeof(void *));
    R->dec = (RtDecision *)map_fixed(RT_BASE + (2ull << 36), MAX_DECISIONS * sizeof(RtDecision));
    R->sync = (SyncVar *)map_fixed(RT_BASE + (3ull << 36), SYNC_SLOTS * sizeof(SyncVar));
    dl_iterate_phdr(phdr_cb, nullptr);
    if (g_tls_memsz > MAX_TLS) die("TLS block too large");
    g_eh = (u64 *)abi::__cxa_get_globals();
    __libc_single_threaded = 0;
    char *alt = (char *)mmap(nullptr, 65536, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    stack_t ss{alt, 0, 65536};
    sigaltstack(&ss, nullptr);
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = on_signal;
    sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
    int sigs[] = {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGALRM};
    for (int s : sigs)
        sigaction(s, &sa, nullptr);
    std::set_terminate(on_terminate);
}
void rt_snapshot(void) {
    g_snap_len = (u64)&_end - (u64)&__data_start;
    g_snap = (char *)mmap(nullptr, g_snap_len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    memcpy(g_snap, &__data_start, g_snap_len);
}

int rt_run(const RtCfg *cfg, void (*main_fn)(void *), void *arg) {
    memcpy(&__data_start, g_snap, g_snap_len); // globals of the code under test start every run fresh
    R->cfg = *cfg;
    R->gen++;
    R->nfib = 0;
    R->rng = cfg->seed * 0x2545f4914f6cdd1dull + 0x1234567;
    memset(&R->st, 0, sizeof R->st);
    R->step = 0;
    R->fair_next = 0;
    R->chaos_end = cfg->chaos_steps;
    R->fair_limit = cfg->chaos_steps + cfg->fair_steps;
    R->clock_ns = 1000000000000ull;
    R->heap_top = HEAP_BASE + 64;
    R->harn_top = HARN_BASE + 64;
    memset(R->harn_free, 0, sizeof R->harn_free);
    R->n_blocks = 0;
    R->n_dec = 0;
    R->script_i = 0;
    R->status = RT_DONE;
    R->cls[0] = R->msg[0] = 0;
    R->noted = 0;
    R->n_pred = 0;
    R->reported_races = 0;
    R->n_pct = 0;
    R->pct_low = 1000;
    R->hot_count = R->hot_base = 0;
    R->burst_on = 0;
    R->burst_until = 0;
    if (!cfg->script && cfg->mode == 1) {
        R->n_pct = cfg->pct_depth < 64 ? cfg->pct_depth : 64;
        for (u32 i = 0; i < R->n_pct; i++)
            R->pct_points[i] = 1 + rnd() % (cfg->pct_len ? cfg->pct_len : 1);
    }
    set_next_event();
    memcpy(R->main_tls, g_tls_addr, g_tls_memsz);
    R->main_eh[0] = g_eh[0];
    R->main_eh[1] = g_eh[1];
    Fiber *f = new_fiber(main_fn, arg);
    R->cur = f;
    memcpy(g_tls_addr, f->tls, g_tls_memsz);
    g_eh[0] = g_eh[1] = 0;
    g_active = 1;
    rt_swtch(&R->main_sp, f->sp);
    g_active = 0;
    R->st.steps = R->step;
    R->st.sim_ns = R->clock_ns - 1000000000000ull;
    R->st.run_hash = mix(R->st.run_hash, R->step);
    if (R->status == RT_DONE && R->noted) {
        R->status = RT_VIOLATION;
        memcpy(R->cls, R->note_cls, sizeof R->cls);
        memcpy(R->msg, R->note_msg, sizeof R->msg);
    }
    // give back memory of unusually large runs
    if (R->heap_top - HEAP_BASE > (24ull << 20)) {
        madvise((void *)HEAP_BASE, HEAP_SIZE, MADV_DONTNEED);
        madvise((void *)SHAD_BASE, HEAP_SIZE / 8 * sizeof(Shadow), MADV_DONTNEED);
    }
    if (R->harn_top - HARN_BASE > (64ull << 20)) madvise((void *)HARN_BASE, HARN_SIZE, MADV_DONTNEED);
    return R->status;
}

int rt_spawn(void (*fn)(void *), void *arg) {
    Fiber *f = new_fiber(fn, arg);
    vc_join(f->vc, R->cur->vc);
    R->cur->vc.c[R->cur->id]++;
    return f->id;
}
int rt_fiber_blocked(int fiber) {
    int s = R->fib[fiber].state;
    return s == FS_FUTEX || s == FS_MUTEX || s == FS_COND;
}
void rt_hb_release(u64 key) {
    release_to(key, false);
}
void rt_hb_acquire(u64 key) {
    acquire_from(key);
}
void rt_hb_join(int fiber) {
    vc_join(R->cur->vc, R->final_vc[fiber]);
}
int rt_self(void) {
    return R->cur->id;
}
int rt_active(void) {
    return g_active;
}
uint64_t rt_step(void) {
    return R->step;
}
uint64_t rt_clock_ns(void) {
    return R->clock_ns;
}
void rt_wait(int (*pred)(void *), void *arg) {
    Fiber *f = R->cur;
    if (pred(arg)) return;
    while (!pred(arg)) {
        f->state = FS_PRED;
        R->n_pred++;
        f->pred = pred;
        f->pred_arg = arg;
        block_now();
    }
}
void rt_yield(void) {
    yield_now();
}
void rt_hot(int on) {
    if (R->cfg.focus == 2) hot_flush();
    R->cur->hot = on != 0;
    if (R->cfg.focus == 2) set_next_event();
}
int rt_sut(int on) {
    int o = R->cur->sut;
    R->cur->sut = on;
    return o;
}
const RtDecision *rt_decisions(size_t *n) {
    *n = R->n_dec;
    return R->dec;
}
RtStats *rt_stats(void) {
    return &R->st;
}
void rt_hash(uint64_t v) {
    R->st.run_hash = mix(R->st.run_hash, v);
}
int rt_in_fair_phase(void) {
    return R->step >= R->chaos_end;
}
}

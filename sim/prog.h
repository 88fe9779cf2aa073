// Client programs: what the simulated threads do.  A program is plain data (text-serialisable), generated from a seed
// and a profile; the schedule and the faults are decided separately by the runtime.
#pragma once
#include <cstdint>
#include <string>
#include <vector>

#define OPS(X)                                                                                                         \
    X(NOP)                                                                                                             \
    X(NEW)                                                                                                             \
    X(EXISTS)                                                                                                          \
    X(HAS)                                                                                                             \
    X(GET)                                                                                                             \
    X(GETM)                                                                                                            \
    X(PREV)                                                                                                            \
    X(SET)                                                                                                             \
    X(UNSET)                                                                                                           \
    X(DESTROY)                                                                                                         \
    X(LIST)                                                                                                            \
    X(LISTGET)                                                                                                         \
    X(UNSETREF)                                                                                                        \
    X(DESTROYREF)                                                                                                      \
    X(LOOP)                                                                                                            \
    X(VIEW)                                                                                                            \
    X(VCHECK)                                                                                                          \
    X(VRANGE)                                                                                                          \
    X(GGET)                                                                                                            \
    X(GGETM)                                                                                                           \
    X(GPREV)                                                                                                           \
    X(GSET)                                                                                                            \
    X(GUNSET)                                                                                                          \
    X(GHAS)                                                                                                            \
    X(WATCH)                                                                                                           \
    X(POLL)                                                                                                            \
    X(STOP)                                                                                                            \
    X(NEST)                                                                                                            \
    X(NESTW)                                                                                                           \
    X(JUGGLE)                                                                                                          \
    X(WORLD)                                                                                                           \
    X(DEEP)                                                                                                            \
    X(DYN)                                                                                                             \
    X(WAITT)                                                                                                           \
    X(WAITF)                                                                                                           \
    X(RELAY)                                                                                                           \
    X(FAULT)                                                                                                           \
    X(COPY)                                                                                                            \
    X(THROW)                                                                                                           \
    X(YIELD)                                                                                                           \
    X(RMW)                                                                                                             \
    X(FULL)                                                                                                            \
    X(TRACESTART)                                                                                                      \
    X(POKE)

enum OpCode : uint8_t {
#define X(n) OP_##n,
    OPS(X)
#undef X
        OP_COUNT
};
extern const char *opNames[OP_COUNT];

struct Op {
    uint8_t code = 0, via = 0;
    int16_t a = 0, b = 0, c = 0;
};

// Transactions of a thread are repeated by `repeat` (>1: until the other threads have finished, at most that often).
struct TxnProg {
    int16_t perm = 0, world = 0, fault = 0, repeat = 1;
    std::vector<Op> ops;
};
struct Program {
    int nworlds = 1;
    int flags = 0; // PF_*
    std::vector<TxnProg> setup;
    std::vector<std::vector<TxnProg>> threads;
};
enum { PF_DESTROY_ALL = 1, PF_TRACE = 2, PF_NO_FINAL = 4, PF_TRACE2 = 8, PF_SETTLE = 16, PF_WRAP = 32, PF_LATEID = 64, PF_TRACEMID = 128 };

std::string programText(const Program &p);
bool parseProgram(const std::string &text, Program &out);
size_t programOps(const Program &p);

struct RtCfg;
bool knownProfile(const std::string &name);
// Everything below is a pure function of (profile, seed).
void generate(const std::string &profile, uint64_t seed, Program &p, RtCfg &cfg);

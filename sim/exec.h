// Executes client programs against the real code.  Everything here runs in "harness mode" except inside RtSut scopes.
#pragma once
#include "model.h"
#include "prog.h"

#include <memory>
#include <optional>
#include <stdexcept>

struct UserExc {};

[[noreturn]] void harnessBug(const char *what);

// An observer of any kind (0 entities, 1 A, 2 B, 3 C, 4 G, 5 H)
struct IObs {
    int kind = 0;
    ObsModel *m = nullptr;
    virtual ~IObs() {}
    virtual void destroy() = 0; // SUT
    virtual bool alive() = 0;   // SUT
};
template<typename E>
struct ObsImpl : IObs {
    std::optional<Tecs::Observer<World, E>> o;
    void destroy() override {
        o.reset();
    }
    bool alive() override {
        return (bool)*o;
    }
};
template<int K>
struct EvT;
template<>
struct EvT<0> {
    using type = Tecs::EntityEvent;
};
template<>
struct EvT<1> {
    using type = Tecs::ComponentEvent<CA>;
};
template<>
struct EvT<2> {
    using type = Tecs::ComponentEvent<CB>;
};
template<>
struct EvT<3> {
    using type = Tecs::ComponentEvent<CC>;
};
template<>
struct EvT<4> {
    using type = Tecs::ComponentEvent<CG>;
};
template<>
struct EvT<5> {
    using type = Tecs::ComponentEvent<CH>;
};

// A lock of any static type.  All virtual functions are called in SUT mode.
struct ILock {
    unsigned rd = 0, wr = 0; // what the harness may do with it
    bool ar = false;
    bool prev = false; // a read-only derived lock: shows the previous state
    virtual ~ILock() {}
    virtual void drop() = 0;
    virtual void dropByException() = 0; // leaves the scope holding the lock by an exception
    virtual ILock *copy() = 0;
    virtual ILock *copyBase() = 0; // Lock<World>
    virtual ILock *ro() = 0;
    virtual size_t txid() = 0;
    virtual long useCount() = 0;
    virtual bool has(Tecs::Entity e, unsigned mask, bool prev) = 0; // mask 0: exists
    virtual uint64_t get(Tecs::Entity e, int c, bool prev) = 0;
    virtual void *getm(Tecs::Entity e, int c, uint64_t &v) = 0;
    virtual uint64_t set(Tecs::Entity e, int c, uint64_t v, int style, void *val) = 0;
    virtual void unset(const Tecs::Entity &e, unsigned mask) = 0;
    virtual void destroy(Tecs::Entity &e) = 0;
    virtual void destroyC(const Tecs::Entity &e) = 0;
    virtual Tecs::Entity newEntity() = 0;
    virtual Tecs::EntityView list(int kind, bool prev) = 0;
    virtual bool ghas(unsigned mask, bool prev) = 0;
    virtual uint64_t gget(int c, bool prev) = 0;
    virtual void *ggetm(int c, uint64_t &v) = 0;
    virtual uint64_t gset(int c, uint64_t v, int style, void *val) = 0;
    virtual void gunset(unsigned mask) = 0;
    virtual IObs *watch(int kind) = 0;
    virtual bool poll(IObs *o, Ev &e) = 0;
    virtual void stop(IObs *o, bool throughCopy) = 0;
    virtual ILock *dyn(int request, int statics) = 0; // null: denied
};

// parts of the permission table live in separately compiled units
typedef ILock *(*StartFn)(int ps, World &w);
typedef ILock *(*SubFn)(int how, ILock *main);
struct LockOps {
    StartFn start;
    SubFn sub;
};
LockOps lockOps(int ps);

void *newValue(int c, uint64_t v); // harness mode
void deleteValue(int c, void *p);
void setRef(int c, void *ref, uint64_t v); // SUT
int statSize();

struct Held {
    bool part = false; // a sub-range of the list
    Tecs::EntityView view;
    int kind;
    bool prev;
    bool live; // list of the transaction's own (modifiable) state
    std::vector<Handle> expect;
};

struct TxnCtx {
    Txn *t = nullptr;
    ILock *main = nullptr, *roLock = nullptr, *sub = nullptr, *dyn = nullptr;
    std::vector<ILock *> copies;
    std::vector<Held *> held;
    std::vector<TxnCtx *> deferred; // inner transactions on other instances that end after this one
    int endStyle = 0;
};

struct ThreadCtx {
    int tid = 0; // index into Program::threads, -1: main
    int fiber = 0;
    std::vector<IObs *> obs;
    int active = 0;
    bool worldActive[8] = {};
    int faultN = 0, faultKind = 0;
    bool frozen = false, done = false, starting = false;
    uint64_t starts = 0, attempts = 0;
    uint64_t attemptStep = 0;
};

struct Exec {
    Model model;
    Program prog;
    std::vector<World *> worlds;
    std::deque<std::vector<Handle>> handles; // per world, every handle ever returned
    std::vector<ThreadCtx *> threads;
    ThreadCtx *mainCtx = nullptr;
    bool uncheckedMode = false;
    unsigned worldsPending = 0;
    uint64_t opsDone = 0;
    uint64_t opCount[OP_COUNT] = {};
    uint64_t txnCount[NPS] = {};

    void runAll(); // body of fiber 0
    void runTxn(ThreadCtx &tc, const TxnProg &p);
    TxnCtx *begin(ThreadCtx &tc, int ps, int world, int fault);
    void end(ThreadCtx &tc, TxnCtx &x, int how);
    void op(ThreadCtx &tc, TxnCtx &x, const Op &o);
    void full(ThreadCtx &tc, TxnCtx &x);
    void observerAlive(ThreadCtx &tc, IObs *i);
    void drainObservers(ThreadCtx &tc, TxnCtx &x, bool all);
    void nestProbe(ThreadCtx &tc, int world, int ps);
    void juggle(ThreadCtx &tc, TxnCtx &x, const Op &o);
    World &at(int world); // with what its creator did visible
    void newWorld(ThreadCtx &tc, TxnCtx &x, const Op &o);
    void nestw(ThreadCtx &tc, TxnCtx &x, const Op &o);

    Handle pick(int world, int a);
    ILock *lockFor(TxnCtx &x, int via, bool &prev);
    int doGet(ThreadCtx &tc, TxnCtx &x, ILock *l, Handle h, int c, bool prevOp);
    void doSet(ThreadCtx &tc, TxnCtx &x, ILock *l, Handle h, int c, int style);
    void doUnset(ThreadCtx &tc, TxnCtx &x, ILock *l, Handle h, unsigned mask, const Tecs::Entity *ref);
    void doDestroy(ThreadCtx &tc, TxnCtx &x, ILock *l, Handle h, const Tecs::Entity *ref, int style);
    Handle doNew(ThreadCtx &tc, TxnCtx &x, ILock *l);
    void doList(ThreadCtx &tc, TxnCtx &x, ILock *l, int kind, bool prevOp, int style, bool gets);
    void checkHeld(ThreadCtx &tc, TxnCtx &x, Held &h, int style);
    void noteRemoved(TxnCtx &x, int kind, Handle h);
    bool lists(TxnCtx &x, ILock *l, int kind) const;
    template<typename F>
    int sut(ThreadCtx &tc, F &&f);
    struct Tracing {
        bool on = false;
        uint64_t clock = 0, call = 0, ret = 0; // when it was started: simulated time, history times
    };
    std::vector<Tracing> tracing; // per world
    void traceStart();
    void traceStop();
};
#ifdef TECS_ENABLE_PERFORMANCE_TRACING
void checkTrace(Exec &ex, int world, Tecs::PerformanceTrace &tr, const Exec::Tracing &from);
#endif

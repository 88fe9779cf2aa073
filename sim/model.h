// Reference model and oracle.  Runs inside the simulation but outside the code under test ("harness mode").
#pragma once
#include "comps.h"

#include <array>
#include <deque>
#include <map>
#include <set>
#include <string>
#include <vector>

typedef uint64_t Handle; // generation << 32 | index
inline Handle toH(const Tecs::Entity &e) {
    return ((uint64_t)e.generation << 32) | e.index;
}
inline Tecs::Entity fromH(Handle h) {
    return Tecs::Entity((TECS_ENTITY_INDEX_TYPE)(h & 0xffffffff), (TECS_ENTITY_GENERATION_TYPE)(h >> 32));
}
inline uint32_t hIdx(Handle h) {
    return (uint32_t)h;
}
inline uint32_t hGen(Handle h) {
    return (uint32_t)(h >> 32);
}

enum Exc { EX_NONE = 0, EX_RT, EX_ALLOC, EX_THROW, EX_OTHER };

struct EntInfo {
    uint32_t gen = 0;
    uint8_t alive = 0, bits = 0;
};
struct MState {
    std::vector<EntInfo> e;
    uint8_t g = 0;
    bool valid(Handle h) const {
        uint32_t i = hIdx(h);
        return i < e.size() && e[i].alive && e[i].gen == hGen(h);
    }
    bool has(Handle h, unsigned mask) const {
        return valid(h) && (e[hIdx(h)].bits & mask) == mask;
    }
};
typedef std::vector<uint64_t> CState;
inline uint64_t cat(const CState &c, uint32_t i) {
    return i < c.size() ? c[i] : 0;
}
struct Ev {
    int type; // 1 added 2 removed
    Handle h;
    uint64_t stamp;
    bool operator==(const Ev &o) const {
        return type == o.type && h == o.h && stamp == o.stamp;
    }
};
struct VerM {
    MState *s;
    int txn;
    std::vector<Ev> ev[6];
};
struct VerC {
    CState *s;
    int txn;
};
typedef std::array<int16_t, 6> Vers;

static const uint64_t T_INF = ~0ull;

struct Txn {
    int id, tid, world, ps;
    unsigned rd, wr;
    bool ar;
    uint64_t bcall = 0, bret = 0, ecall = 0, eret = 0;
    uint64_t endClock = 0; // simulated time at which it had ended
    uint64_t txid = 0;
    bool idKnown = false;
    std::vector<Vers> cand, beginCand;
    MState wm;
    CState wc[NCOMP];
    bool mDirty = false, cDirty[NCOMP] = {};
    bool ownM = false; // something was added or removed in this transaction
    bool ownC[NCOMP] = {};
    unsigned removed = 0, added = 0;
    std::set<Handle> removedFrom[4]; // handles removed from list kind (0 all, 1.. component) in this transaction
    std::set<uint32_t> touched;
    int16_t newver[6] = {-1, -1, -1, -1, -1, -1};
    uint64_t cpLow = 0, cpHigh = T_INF;
    bool unchecked = false; // too many candidates
    bool holds(int x) const { // any lock on component x
        return x == cM ? true : ((rd >> x) & 1);
    }
    bool writes(int x) const {
        return x == cM ? ar : ((wr >> x) & 1);
    }
    bool active() const {
        return bret && !ecall;
    }
};

struct ObsModel {
    int world, kind;
    int pos; // last M version fully consumed
    std::vector<Ev> rem; // remaining events of version `pos`
    std::vector<Ev> consumed;
    bool stopped = false; // nothing more is expected of it
    bool ended = false;   // Stop was called
};

struct WorldModel {
    std::vector<VerM> m;
    std::vector<VerC> c[NCOMP];
    std::set<Handle> used;
    uint32_t instanceId = 0;
    uint32_t cap = 0;
    bool growFault = false;
};

struct Model {
    uint64_t now = 1;
    std::vector<Txn *> txns;
    std::deque<WorldModel> w;
    std::set<uint32_t> instanceIds;
    bool wrapped = false; // more instances than identities: they repeat
    struct IdNote {
        uint64_t id, call, ret;
    };
    std::vector<IdNote> ids; // the ids seen so far, with the time of the start they belong to
    uint64_t stampCtr = 0;
    bool verbose = false;
    bool unchecked = false;  // code under test built without its own checks
    struct {
        uint64_t obs, multiCand, maxCand, uncheckedTxns, commits, mcommits, events, polls, emptyPolls, newEnts, reused, growths,
            errors, faultsHit, dynGranted, dynDenied, nestRejected, viewChecks, overlapWaits, dirtyWindow, txns, traces, traceEvents,
            traceOverflows, midTraces;
    } probe{};

    uint64_t stamp(Txn *t) {
        return ((uint64_t)(t->id + 1) << 24) | (++stampCtr & 0xffffff);
    }

    void instance(uint32_t id); // of an instance that is new
    void addWorld(uint32_t instanceId);
    Txn *beginCall(int tid, int world, int ps);
    void beginReturn(Txn *t, uint64_t txid, bool idLater);
    void noteId(Txn *t, uint64_t txid);
    void checkId(uint64_t txid, uint64_t call, uint64_t ret);
    void beginFailed(Txn *t);
    void endCall(Txn *t);
    void endReturn(Txn *t);

    // observations; prev: "previous" view
    void obsExists(Txn *t, bool prev, Handle h, bool r);
    void obsHas(Txn *t, bool prev, Handle h, unsigned mask, bool r);
    void obsGet(Txn *t, bool prev, Handle h, int comp, int exc, uint64_t v, const char *op);
    // mutable access (Get non-const / Set); addsIfMissing: lock type may add
    void obsGetM(Txn *t, Handle h, int comp, bool adds, int exc, uint64_t v, const char *op);
    void doWrite(Txn *t, Handle h, int comp, uint64_t v);
    void obsSet(Txn *t, Handle h, int comp, bool adds, int exc, uint64_t v, uint64_t readBack);
    void obsUnset(Txn *t, Handle h, unsigned mask, int exc);
    void obsDestroy(Txn *t, Handle h, int exc);
    void obsNew(Txn *t, int exc, Handle h);
    void obsList(Txn *t, bool prev, int kind, const std::vector<Handle> &elems, unsigned nulls, const char *op);
    void obsGHas(Txn *t, bool prev, unsigned gmask, bool r);
    void obsGGet(Txn *t, bool prev, int comp, int exc, uint64_t v, const char *op);
    void obsGGetM(Txn *t, int comp, bool adds, int exc, uint64_t v);
    void doGWrite(Txn *t, int comp, uint64_t v);
    void obsGSet(Txn *t, int comp, bool adds, int exc, uint64_t v, uint64_t readBack);
    void obsGUnset(Txn *t, unsigned gmask);
    ObsModel *watch(Txn *t, int kind);
    void stop(Txn *t, ObsModel *o);
    void obsPoll(Txn *t, ObsModel *o, bool r, const Ev &e);

    // is the operation certainly valid / invalid in every candidate state?
    bool certainlyValid(Txn *t, bool prev, Handle h, unsigned mask);
    bool certainlyGlobal(Txn *t, bool prev, unsigned gmask);
    // list kind: currently a member (only meaningful for AddRemove transactions)
    bool memberNow(Txn *t, int kind, Handle h);

    void finish(); // whole-history checks
    void retained(bool quiescentDestroyed);
    std::set<uint64_t> failedValues; // given to operations that failed

    [[noreturn]] void fail(const char *op, const char *why, const std::string &detail);
    void trace(const char *fmt, ...) __attribute__((format(printf, 2, 3)));

private:
    template<typename F>
    void narrow(Txn *t, bool prev, unsigned q, const char *op, const std::string &detail, F pred);
    template<typename F>
    const char *classify(Txn *t, bool prev, unsigned q, F &pred);
    bool includes(const Vers &v, const Txn *w) const;
    const MState &viewM(const Txn *t, const Vers &v, bool prev) const;
    const CState &viewC(const Txn *t, const Vers &v, bool prev, int x) const;
    void setOwn(Txn *t, int x);
    void checkOverlap(Txn *w);
    void filterIncluding(Txn *r, Txn *w, const char *op, const char *why);
    void upd(Txn *t);
};

std::string hs(Handle h);
std::string vs(uint64_t stamp);

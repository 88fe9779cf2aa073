#include "exec.h"

#include <algorithm>
#include <cstdio>
#include <cstdlib>

#ifdef TECS_HEADER_ONLY // no detection of nested transactions, no transaction ids
    #define LIMIT 1000
#else
    #define LIMIT (TECS_MAX_ACTIVE_TRANSACTIONS_PER_THREAD)
#endif

void harnessBug(const char *what) {
    rt_sut(0);
    rt_violation("HARNESS", what);
}

// ---- fault injection into component copies -------------------------------------------------------------------------
static struct {
    int n, fired;
    char pad[56];
} copyFault[RT_MAX_FIBERS];

void maybe_throw_copy() {
    if (!rt_active()) return;
    RtHarness h;
    auto &f = copyFault[rt_self()];
    if (f.n > 0 && h.old && --f.n == 0) {
        f.fired = 1;
        rt_stats()->f_throw++;
        rt_sut(h.old);
        throw CopyThrow();
    }
}

// ---- permission tables ---------------------------------------------------------------------------------------------
#define P_(I) {PS<I>::rd, PS<I>::wr, PS<I>::ar}
const PermInfo permTable[NPS] = {P_(0), P_(1), P_(2), P_(3), P_(4), P_(5), P_(6), P_(7), P_(8), P_(9), P_(10), P_(11), P_(12),
    P_(13), P_(14), P_(15), P_(16), P_(17), P_(18), P_(19), P_(20), P_(21), P_(22), P_(23), P_(24), P_(25)};
#define D_(I) {DR<I>::rd, DR<I>::wr, DR<I>::ar}
const PermInfo dynTable[NDYN] = {D_(0), D_(1), D_(2), D_(3), D_(4), D_(5), D_(6), D_(7), D_(8), D_(9), D_(10), D_(11)};
const char *permName(int ps) {
    static const char *n[NPS] = {"none", "Read<A>", "Read<B>", "Read<A,B>", "ReadAll", "Write<A>", "Write<B>", "Write<A,B>",
        "Read<A>,Write<B>", "Read<B>,Write<A>", "Read<G>,Write<A>", "Write<G>", "Write<G,H>", "Read<A>,Write<G>", "Write<C>",
        "Read<G,H>", "Read<C>,Write<B>", "WriteAll", "AddRemove", "ReadAll,Write<A>", "Write<A>,AddRemove",
        "Read<A,G>,Write<B,H>", "Read<C>", "Write<A>,Read<C>", "AddRemove,ReadAll", "AddRemove,WriteAll"};
    return n[ps];
}

extern "C" {
LockOps lockOpsPart0(int);
LockOps lockOpsPart1(int);
LockOps lockOpsPart2(int);
LockOps lockOpsPart3(int);
LockOps lockOpsPart4(int);
LockOps lockOpsPart5(int);
LockOps lockOpsPart6(int);
LockOps lockOpsPart7(int);
}
LockOps lockOps(int ps) {
    switch (ps % NPARTS) {
    case 0: return lockOpsPart0(ps);
    case 1: return lockOpsPart1(ps);
    case 2: return lockOpsPart2(ps);
    case 3: return lockOpsPart3(ps);
#ifndef SIM_FEW
    case 4: return lockOpsPart4(ps);
    case 5: return lockOpsPart5(ps);
    case 6: return lockOpsPart6(ps);
    case 7: return lockOpsPart7(ps);
#endif
    }
    return LockOps{nullptr, nullptr};
}

// ---- component values ----------------------------------------------------------------------------------------------
template<typename F>
static auto comp(int c, F f) {
    switch (c) {
    case cA: return f((CA *)nullptr);
    case cB: return f((CB *)nullptr);
    case cC: return f((CC *)nullptr);
    case cG: return f((CG *)nullptr);
    default: return f((CH *)nullptr);
    }
}
void *newValue(int c, uint64_t v) {
    return comp(c, [&](auto *tag) -> void * {
        return new std::remove_pointer_t<decltype(tag)>(v);
    });
}
void deleteValue(int c, void *p) {
    comp(c, [&](auto *tag) {
        delete (decltype(tag))p;
    });
}
void setRef(int c, void *ref, uint64_t v) {
    comp(c, [&](auto *tag) {
        ((decltype(tag))ref)->set(v);
    });
}

// ---- calling the code under test -----------------------------------------------------------------------------------
enum { EX_FAULTED = 100 };

template<typename F>
int Exec::sut(ThreadCtx &tc, F &&f) {
    int exc = EX_NONE;
    bool armed = tc.faultN > 0;
    auto &cf = copyFault[rt_self()];
    cf.fired = 0;
    if (armed) {
        if (tc.faultKind == 0) rt_arm_alloc_fail(tc.faultN);
        else
            cf.n = tc.faultN;
    }
    {
        RtSut s;
        try {
            f();
        } catch (const CopyThrow &) {
            exc = EX_THROW;
        } catch (const std::bad_alloc &) {
            exc = EX_ALLOC;
        } catch (const std::runtime_error &) {
            exc = EX_RT;
        } catch (...) {
            exc = EX_OTHER;
        }
    }
    if (armed) {
        bool fired = tc.faultKind == 0 ? rt_alloc_fail_fired() : cf.fired;
        rt_arm_alloc_fail(0);
        cf.n = 0;
        tc.faultN = 0;
        if (fired && (exc == EX_ALLOC || exc == EX_THROW)) {
            model.probe.faultsHit++;
            model.trace("  ... the injected %s failed the operation", tc.faultKind ? "copy failure" : "allocation failure");
            return EX_FAULTED;
        }
        if (fired) model.trace("  ... the injected failure was absorbed");
    }
    return exc;
}

// ---- transactions --------------------------------------------------------------------------------------------------
TxnCtx *Exec::begin(ThreadCtx &tc, int ps, int world, int fault) {
    Txn *t = model.beginCall(tc.tid, world, ps);
    tc.faultN = fault;
    tc.faultKind = 0;
    tc.starting = true;
    tc.attempts++;
    tc.attemptStep = rt_step();
    ILock *l = nullptr;
    uint64_t id = 0;
    // some transactions are only asked for their id later, in whatever order
    bool late = (prog.flags & PF_LATEID) && ((t->id * 5 + tc.attempts) & 3);
    LockOps lo = lockOps(ps);
    if (!lo.start) harnessBug("permission set not compiled in");
    rt_hot(tc.tid >= 0);
    int exc = sut(tc, [&] {
        l = lo.start(ps, at(world));
        if (!late) id = l->txid();
    });
    rt_hot(0);
    tc.starting = false;
    if (exc == EX_FAULTED) {
        model.beginFailed(t);
        return nullptr;
    }
    if (exc) model.fail("START", "EXC", "starting a transaction failed with an unexpected exception");
    model.beginReturn(t, id, late);
    tc.starts++;
    tc.active++;
    tc.worldActive[world] = true;
    txnCount[ps]++;
    TxnCtx *x = new TxnCtx();
    x->t = t;
    x->main = l;
    return x;
}

void Exec::end(ThreadCtx &tc, TxnCtx &x, int how) {
    tc.faultN = 0;
    for (Held *h : x.held)
        checkHeld(tc, x, *h, 0);
    std::vector<ILock *> order;
    if (how == 1) order.push_back(x.main);
    if (x.dyn) order.push_back(x.dyn);
    if (x.sub) order.push_back(x.sub);
    if (x.roLock) order.push_back(x.roLock);
    for (ILock *c : x.copies)
        order.push_back(c);
    if (how != 1) order.push_back(x.main);
    for (size_t i = 0; i + 1 < order.size(); i++) {
        long n = 0;
        sut(tc, [&] {
            n = order[i]->useCount();
        });
        if (n != (long)(order.size() - i))
            model.fail("COMMIT", "USECOUNT", "UseCount() is " + std::to_string(n) + " with " + std::to_string(order.size() - i) + " locks alive");
        sut(tc, [&] {
            order[i]->drop();
        });
        if (i == 0 && order.size() > 1) {
            // the transaction is still running: look at it once more through a remaining handle
            ILock *o = order.back();
            rt_yield();
            Handle h = pick(x.t->world, (int)(x.t->id & 7));
            bool r = false;
            sut(tc, [&] {
                r = o->has(fromH(h), 0, false);
            });
            model.obsExists(x.t, o->prev, h, r);
        }
    }
    ILock *last = order.back();
    uint64_t id = 0;
    sut(tc, [&] {
        id = last->txid();
    });
    model.noteId(x.t, id);
    model.endCall(x.t);
    rt_hot(tc.tid >= 0);
    {
        RtSut s;
        if (how == 2) {
            try {
                last->dropByException();
            } catch (const UserExc &) {
            }
        } else {
            last->drop();
        }
    }
    rt_hot(0);
    model.endReturn(x.t);
    tc.active--;
    tc.worldActive[x.t->world] = false;
    for (ILock *l : order)
        delete l;
    for (Held *h : x.held)
        delete h;
    for (TxnCtx *d : x.deferred) {
        nestProbe(tc, d->t->world, 0);
        full(tc, *d);
        end(tc, *d, 0);
        delete d;
    }
    x.deferred.clear();
}

void Exec::runTxn(ThreadCtx &tc, const TxnProg &p) {
    int how = 0;
    TxnCtx *x = begin(tc, p.perm, (int)((size_t)p.world % worlds.size()), p.fault);
    if (!x) return;
    for (const Op &o : p.ops) {
        if (o.code == OP_THROW) {
            how = o.a ? 1 : 2;
            continue;
        }
        op(tc, *x, o);
    }
    end(tc, *x, how);
    delete x;
}

// ---- operations ----------------------------------------------------------------------------------------------------
Handle Exec::pick(int world, int a) {
    auto &v = handles[world];
    uint64_t id = model.w[world].instanceId & 0xff;
    Handle last = v.empty() ? ((id << 24 | 1) << 32) : v.back();
    if (a >= 0) {
        if (v.empty()) return 0;
        size_t n = v.size();
        if (a < 64) return v[n - 1 - (size_t)a % std::min<size_t>(n, 8)];
        return v[(size_t)(a - 64) % n];
    }
    switch (a) {
    case -1: return 0;
    case -2: return last + (1ull << 32);               // a generation not yet handed out
    case -3: return ((id << 24 | 1) << 32) | 0x7ffffff0u; // far outside the storage
    case -4: {                                          // the same slot in another instance
        for (size_t o = 0; o < worlds.size(); o++)
            if ((int)o != world && !handles[o].empty()) return handles[o].back();
        return (last & 0x00ffffffffffffffull) | ((id + 1) << 56);
    }
    case -5: return (last & 0xffffffff00000000ull) | model.w[world].cap; // just outside the storage
    case -6: return last & 0x00ffffffffffffffull;                        // no instance identity
    case -7: return last & 0xffffffffull;                                // generation zero
    default: return v.empty() ? 0 : v.front();
    }
}

ILock *Exec::lockFor(TxnCtx &x, int via, bool &prev) {
    ILock *l = x.main;
    ThreadCtx dummy;
    if (via == 1) {
        if (!x.roLock) {
            RtSut s;
            x.roLock = x.main->ro();
        }
        l = x.roLock;
    } else if (via == 2) {
        if (!x.sub) {
            LockOps lo = lockOps(x.t->ps);
            RtSut s;
            x.sub = lo.sub(x.t->id, x.main);
        }
        l = x.sub;
    } else if (via == 3 && x.dyn) {
        l = x.dyn;
    } else if (via == 5 && !x.copies.empty()) {
        l = x.copies.back();
    }
    prev = l->prev;
    return l;
}

bool Exec::lists(TxnCtx &, ILock *, int) const {
    return true; // membership lists need no component permission
}

int Exec::doGet(ThreadCtx &tc, TxnCtx &x, ILock *l, Handle h, int c, bool prevOp) {
    bool prev = prevOp || l->prev;
    if (!((l->rd >> c) & 1)) return 1;
    if (uncheckedMode && !model.certainlyValid(x.t, prev, h, 1u << c)) return 1;
    uint64_t v = 0;
    int exc = sut(tc, [&] {
        v = l->get(fromH(h), c, prevOp);
    });
    if (exc == EX_FAULTED) return 1;
    model.obsGet(x.t, prev, h, c, exc, exc ? 0 : v, prevOp ? "PREV" : "GET");
    return 0;
}

void Exec::doSet(ThreadCtx &tc, TxnCtx &x, ILock *l, Handle h, int c, int style) {
    if (!((l->wr >> c) & 1)) return;
    if (uncheckedMode && !model.certainlyValid(x.t, false, h, l->ar ? 0 : 1u << c)) return;
    uint64_t v = model.stamp(x.t), back = 0;
    void *val = newValue(c, v);
    int exc = sut(tc, [&] {
        back = l->set(fromH(h), c, v, style, val);
    });
    deleteValue(c, val);
    if (exc == EX_FAULTED) {
        model.failedValues.insert(v); // may stay in the unused slot
        return;
    }
    model.obsSet(x.t, h, c, l->ar, exc, v, back);
}

void Exec::noteRemoved(TxnCtx &x, int kind, Handle h) {
    for (Held *v : x.held)
        if (v->live && v->kind == kind)
            for (auto &e : v->expect)
                if (e == h) e = 0;
}

void Exec::doUnset(ThreadCtx &tc, TxnCtx &x, ILock *l, Handle h, unsigned mask, const Tecs::Entity *ref) {
    if (!l->ar || !mask) return;
    if (uncheckedMode && !model.certainlyValid(x.t, false, h, 0)) return;
    unsigned had = 0;
    for (int c = 0; c < 3; c++)
        if ((mask >> c & 1) && x.t->wm.has(h, 1u << c)) had |= 1u << c;
    if (mask & (mask - 1)) tc.faultN = 0; // a failure in the middle may leave the first component removed
    int exc = sut(tc, [&] {
        if (ref) l->unset(*ref, mask);
        else
            l->unset(fromH(h), mask);
    });
    if (exc == EX_FAULTED) return;
    model.obsUnset(x.t, h, mask, exc);
    if (exc) return;
    for (int c = 0; c < 3; c++)
        if (had >> c & 1) noteRemoved(x, 1 + c, h);
}

void Exec::doDestroy(ThreadCtx &tc, TxnCtx &x, ILock *l, Handle h, const Tecs::Entity *ref, int style) {
    if (!l->ar) return;
    if (uncheckedMode && !model.certainlyValid(x.t, false, h, 0)) return;
    unsigned had = 0;
    for (int c = 0; c < 3; c++)
        if (x.t->wm.has(h, 1u << c)) had |= 1u << c;
    Tecs::Entity e = fromH(h);
    tc.faultN = 0; // as above
    int exc = sut(tc, [&] {
        if (ref) l->destroyC(*ref);
        else if (style)
            l->destroyC(e);
        else
            l->destroy(e);
    });
    if (exc == EX_FAULTED) return;
    model.obsDestroy(x.t, h, exc);
    if (!ref && !style && h && (toH(e) != 0) == !exc) model.fail("DESTROY", "HANDLE", "the handle variable of a destroyed entity was not reset (or that of a rejected one was)");
    if (exc) return;
    for (int c = 0; c < 3; c++)
        if (had >> c & 1) noteRemoved(x, 1 + c, h);
    noteRemoved(x, 0, h);
}

Handle Exec::doNew(ThreadCtx &tc, TxnCtx &x, ILock *l) {
    if (!l->ar) return 0;
    Handle h = 0;
    int exc = sut(tc, [&] {
        h = toH(l->newEntity());
    });
    if (exc == EX_FAULTED) {
        model.w[x.t->world].growFault = true;
        return 0;
    }
    model.obsNew(x.t, exc, h);
    handles[x.t->world].push_back(h);
    return h;
}

// Walks a (sub-)range in one of several ways that do not depend on where in its list it starts.  SUT mode.
static int walkPiece(const Tecs::EntityView &v, int style, std::vector<Handle> &out) {
    const size_t n = v.size();
    std::vector<Handle> got;
    const size_t guard = n + 4;
    auto put = [&](const Tecs::Entity &e) {
        Handle h = toH(e);
        RtHarness g;
        got.push_back(h);
        return got.size() <= guard;
    };
    bool reversed = false;
    if (v.empty() != (n == 0)) return 2;
    switch (style) {
    case 0:
        for (auto &e : v)
            if (!put(e)) return 1;
        break;
    case 1:
        for (auto it = v.begin(); it != v.end();) {
            auto was = it++;
            if (was + 1 != it || !(was == it - 1)) return 2;
            if (!put(Tecs::Entity(was->index, was->generation))) return 1;
        }
        break;
    case 2:
        for (auto it = v.rbegin(); it != v.rend(); ++it)
            if (!put(*it)) return 1;
        reversed = true;
        break;
    case 3: {
        auto it = v.rbegin();
        for (; it != v.rend(); it++)
            if (!put(Tecs::Entity(it->index, it->generation))) return 1;
        if (it.base() != v.begin()) return 2;
        reversed = true;
        break;
    }
    case 4: {
        auto it = v.begin();
        for (size_t i = 0; i < n; i++)
            put(*(it + (std::ptrdiff_t)i));
        if ((it + (std::ptrdiff_t)n) != v.end()) return 2;
        break;
    }
    case 5: {
        auto it = v.end();
        for (size_t i = n; i-- > 0;) {
            if (i % 3 == 0) {
                auto was = it--;
                if (was != it + 1) return 2;
            } else if (i % 3 == 1)
                it += -1;
            else
                it -= 1;
            put(*it);
        }
        if (!(it == v.begin()) || it != v.begin()) return 2;
        reversed = true;
        break;
    }
    case 6: {
        auto it = v.begin();
        for (size_t i = 0; i < n; i++)
            put(it[(std::ptrdiff_t)i]);
        if (n && (v.end() - (std::ptrdiff_t)n) != it) return 2;
        break;
    }
    default: {
        auto it = v.end();
        for (size_t i = 0; i < n; i++)
            put(*(it - (std::ptrdiff_t)(n - i)));
        auto r = v.rbegin();
        if (n && toH(r[(std::ptrdiff_t)(n - 1)]) != toH(*v.begin())) return 2;
        if (r + (std::ptrdiff_t)n != v.rend()) return 2;
        break;
    }
    }
    RtHarness g;
    if (reversed) std::reverse(got.begin(), got.end());
    out.insert(out.end(), got.begin(), got.end());
    return 0;
}

// Walks a view in one of several ways; from 8 on in three sub-ranges.  SUT mode.
static int walk(const Tecs::EntityView &v, int style, std::vector<Handle> &out) {
    size_t n = v.size(), guard = n + 4;
    if (style >= 8) {
        size_t x = (size_t)style >> 3;
        size_t k1 = x % (n + 1), k2 = k1 + x / (n + 1) % (n - k1 + 1);
        auto a = x & 1 ? v.subview(0, k1) : v.subview(0, k2).subview(0, k1);
        auto b = x & 2 ? v.subview(k1, k2 - k1) : v.subview(k1).subview(0, k2 - k1);
        auto c = x & 4 ? v.subview(k2) : v.subview(k1).subview(k2 - k1, n);
        if (a.size() != k1 || b.size() != k2 - k1 || c.size() != n - k2) return 2;
        int r = walkPiece(a, style & 7, out);
        if (!r) r = walkPiece(b, (style + 2) & 7, out);
        if (!r) r = walkPiece(c, (style + 5) & 7, out);
        return r;
    }
    auto put = [&](const Tecs::Entity &e) {
        Handle h = toH(e);
        RtHarness g;
        out.push_back(h);
    };
    switch (style) {
    case 0:
        for (auto &e : v) {
            put(e);
            if (out.size() > guard) return 1;
        }
        break;
    case 1:
        for (size_t i = 0; i < n; i++)
            put(v[i]);
        break;
    case 2: {
        auto it = v.rbegin();
        auto e = v.rend();
        for (; it != e; ++it) {
            put(*it);
            if (out.size() > guard) return 1;
        }
        RtHarness g;
        std::reverse(out.begin(), out.end());
        break;
    }
    case 3: {
        size_t k = n / 2;
        auto a = v.subview(0, k), b = v.subview(k);
        if (a.size() + b.size() != n || a.size() != k) return 2;
        for (auto it = a.begin(); it != a.end(); it++) {
            put(*it);
            if (out.size() > guard) return 1;
        }
        for (auto &e : b) {
            put(e);
            if (out.size() > guard) return 1;
        }
        break;
    }
    case 4: {
        auto it = v.begin();
        for (size_t i = 0; i < n; i++)
            put(*(it + (std::ptrdiff_t)i));
        if ((it + (std::ptrdiff_t)n) != v.end()) return 2;
        break;
    }
    case 5: {
        auto it = v.end();
        for (size_t i = n; i-- > 0;) {
            if (i & 1) {
                --it;
            } else {
                it -= 1;
            }
            Tecs::Entity e(it->index, it->generation);
            put(e);
        }
        if (!(it == v.begin())) return 2;
        RtHarness g;
        std::reverse(out.begin(), out.end());
        break;
    }
    case 6: {
        auto it = v.begin();
        for (size_t i = 0; i < n; i++)
            put(it[(std::ptrdiff_t)i]);
        if (n) {
            it += (std::ptrdiff_t)(n - 1);
            if (toH(*it) != toH(v[n - 1])) return 2;
            auto b = it - (std::ptrdiff_t)(n - 1);
            if (b != v.begin()) return 2;
        }
        break;
    }
    default: { // nested sub-views of one element
        for (size_t i = 0; i < n; i++) {
            auto s = v.subview(i).subview(0, 1);
            if (s.size() != 1 || s.empty()) return 2;
            put(*s.begin());
        }
        if (!v.subview(n).empty()) return 2;
        break;
    }
    }
    return 0;
}

static const char *walkErr(int r) {
    return r == 1 ? "iteration does not end" : "sizes or positions of iterators and sub-ranges disagree";
}

void Exec::doList(ThreadCtx &tc, TxnCtx &x, ILock *l, int kind, bool prevOp, int style, bool gets) {
    bool prev = prevOp || l->prev;
    std::vector<Handle> out;
    int bad = 0;
    size_t n = 0;
    bool empty = false;
    int exc = sut(tc, [&] {
        auto v = l->list(kind, prevOp);
        n = v.size();
        empty = v.empty();
        bad = walk(v, style, out);
    });
    if (exc == EX_FAULTED) return;
    if (exc) model.fail("LIST", "EXC", "walking a list (style " + std::to_string(style) + ") raised an exception");
    if (bad) model.fail("LIST", "WALK", std::string("style ") + std::to_string(style) + ": " + walkErr(bad));
    if (n != out.size() || empty != (n == 0))
        model.fail("LIST", "WALK", "a list of size " + std::to_string(n) + " gave " + std::to_string(out.size()) + " elements (style " +
                                       std::to_string(style) + ")");
    std::vector<Handle> el;
    unsigned nulls = 0;
    for (auto h : out) {
        if (h == 0) nulls++;
        else
            el.push_back(h);
    }
    model.obsList(x.t, prev, kind, el, nulls, "LIST");
    if (gets && kind)
        for (auto h : el)
            doGet(tc, x, l, h, kind - 1, prevOp);
    else if (gets)
        for (auto h : el) {
            bool r = false;
            sut(tc, [&] {
                r = l->has(fromH(h), 0, prevOp);
            });
            model.obsExists(x.t, prev, h, r);
        }
}

void Exec::checkHeld(ThreadCtx &tc, TxnCtx &x, Held &h, int style) {
    std::vector<Handle> out;
    int bad = 0;
    model.probe.viewChecks++;
    int exc = sut(tc, [&] {
        bad = h.part && style < 8 ? walkPiece(h.view, style, out) : walk(h.view, style, out);
    });
    if (exc == EX_FAULTED) return;
    if (exc || bad) model.fail("VIEW", "WALK", "walking a held list (style " + std::to_string(style) + ") failed");
    if (out.size() != h.expect.size())
        model.fail("VIEW", "SIZE", "a held list changed its length from " + std::to_string(h.expect.size()) + " to " + std::to_string(out.size()));
    for (size_t i = 0; i < out.size(); i++)
        if (out[i] != h.expect[i])
            model.fail("VIEW", h.expect[i] ? "MOVED" : "NOTNULL",
                "T" + std::to_string(x.t->id + 1) + " element " + std::to_string(i) + " of a held list (kind " + std::to_string(h.kind) + ") is " +
                    hs(out[i]) + ", expected " + hs(h.expect[i]));
}

void Exec::full(ThreadCtx &tc, TxnCtx &x) {
    ILock *l = x.main;
    int st = x.t->id;
    for (int k = 0; k < 4; k++) {
        doList(tc, x, l, k, false, (st + k) % 8, true);
        doList(tc, x, l, k, true, st % 3 ? (st * 7 + k * 11) % 256 : (st + k + 3) % 8, false);
    }
    for (int c = 3; c < 5; c++) {
        bool r = false;
        sut(tc, [&] {
            r = l->ghas(1u << c, false);
        });
        model.obsGHas(x.t, l->prev, 1u << c, r);
        if (!((l->rd >> c) & 1) || (uncheckedMode && !model.certainlyGlobal(x.t, l->prev, 1u << c))) continue;
        uint64_t v = 0;
        int exc = sut(tc, [&] {
            v = l->gget(c, false);
        });
        if (exc != EX_FAULTED) model.obsGGet(x.t, l->prev, c, exc, exc ? 0 : v, "GGET");
    }
    auto hv = handles[x.t->world];
    size_t from = hv.size() > 24 ? hv.size() - 24 : 0;
    for (size_t i = from; i < hv.size(); i++) {
        bool r = false;
        sut(tc, [&] {
            r = l->has(fromH(hv[i]), 0, false);
        });
        model.obsExists(x.t, l->prev, hv[i], r);
        for (int c = 0; c < 3; c++) {
            sut(tc, [&] {
                r = l->has(fromH(hv[i]), 1u << c, false);
            });
            model.obsHas(x.t, l->prev, hv[i], 1u << c, r);
            if (r) doGet(tc, x, l, hv[i], c, false);
        }
    }
}

// An observer says whether it is registered (asked by the thread that owns it).
void Exec::observerAlive(ThreadCtx &tc, IObs *i) {
    bool r = false;
    tc.faultN = 0;
    sut(tc, [&] {
        r = i->alive();
    });
    if (r == i->m->ended) model.fail("EVENT", "ALIVE", r ? "a stopped observer claims to be registered" : "a registered observer claims not to be");
}
void Exec::drainObservers(ThreadCtx &tc, TxnCtx &x, bool all) {
    for (ThreadCtx *o : threads)
        if (all || o == &tc)
            for (IObs *i : o->obs) {
                if (!i || i->m->world != x.t->world) continue;
                for (int guard = 0; guard < 4000; guard++) {
                    Ev e{};
                    bool r = false;
                    int exc = sut(tc, [&] {
                        r = x.main->poll(i, e);
                    });
                    if (exc == EX_FAULTED) continue;
                    if (exc) model.fail("EVENT", "EXC", "Poll raised an exception");
                    model.obsPoll(x.t, i->m, r, e);
                    if (!r) break;
                }
            }
}

struct WaitDone {
    Exec *ex;
    ThreadCtx *self;
    int mask;
    bool frozenOk;
    std::vector<uint64_t> attempts, starts;
};
static int waitDone(void *a) {
    auto *w = (WaitDone *)a;
    for (size_t i = 0; i < w->ex->threads.size(); i++) {
        ThreadCtx *t = w->ex->threads[i];
        if (!(w->mask >> i & 1) || t == w->self) continue;
        if (!t->done && !(w->frozenOk && t->frozen)) return 0;
    }
    return 1;
}
static bool primaryDone(Exec *ex) {
    for (size_t i = 0; i < ex->threads.size() && i < ex->prog.threads.size(); i++) {
        bool sec = false;
        for (auto &t : ex->prog.threads[i])
            sec |= t.repeat > 1;
        if (!sec && !ex->threads[i]->done) return false;
    }
    return true;
}
extern "C" int rt_fiber_blocked(int fiber);
static int waitRelay(void *a) {
    auto *w = (WaitDone *)a;
    if (primaryDone(w->ex)) return 1;
    bool others = false;
    for (size_t i = 0; i < w->ex->threads.size(); i++) {
        ThreadCtx *t = w->ex->threads[i];
        if (!(w->mask >> i & 1) || t == w->self || t->done) continue;
        others = true;
        if (t->starts != w->starts[i]) return 1;
        if (t->starting && t->attempts != w->attempts[i] + 0 && (rt_fiber_blocked(t->fiber) || rt_step() > t->attemptStep + 600)) return 1;
        if (t->starting && (rt_fiber_blocked(t->fiber) || rt_step() > t->attemptStep + 600)) return 1;
    }
    return !others;
}

// A start on an instance the thread already has a transaction on must be rejected.
void Exec::nestProbe(ThreadCtx &tc, int world, int ps) {
#ifdef TECS_HEADER_ONLY
    return;
#endif
    LockOps lo = lockOps(ps);
    if (!lo.start) return;
    ILock *l = nullptr;
    int exc = sut(tc, [&] {
        l = lo.start(ps, at(world));
    });
    if (exc == EX_FAULTED) return;
    if (!exc) model.fail("NEST", "ACCEPTED", "a nested transaction on the same instance was accepted");
    if (exc != EX_RT) model.fail("NEST", "EXC", "a nested transaction was rejected with a wrong exception");
    model.probe.nestRejected++;
    model.trace("thread %d: nested start of %s on world %d rejected", tc.tid, permName(ps), world);
}
// Transactions of one thread on several instances that start and end in any order (only while no other thread runs, as
// they could deadlock with each other otherwise).
void Exec::juggle(ThreadCtx &tc, TxnCtx &x, const Op &o) {
    if (tc.tid >= 0 || worlds.size() < 2) return;
    std::vector<TxnCtx *> open(worlds.size());
    unsigned r = (unsigned)(uint16_t)o.a * 2654435761u + 12345u;
    auto rnd = [&](unsigned n) {
        r = r * 1103515245u + 12345u;
        return (r >> 12) % n;
    };
    auto endOne = [&](size_t w) {
        op(tc, *open[w], Op{OP_EXISTS, 0, (int16_t)rnd(12), 1, 0});
        end(tc, *open[w], rnd(4) == 0 ? 2 : 0);
        delete open[w];
        open[w] = nullptr;
    };
    for (int i = 0; i < 6 + o.b; i++) {
        size_t w = rnd((unsigned)worlds.size());
        int ps = (int)rnd(NPS);
        if (!lockOps(ps).start) ps = 0;
        if ((int)w == x.t->world) {
            nestProbe(tc, (int)w, ps);
        } else if (open[w]) {
            unsigned k = rnd(4);
            if (k == 0)
                nestProbe(tc, (int)w, ps);
            else if (k == 1)
                full(tc, *open[w]);
            else
                endOne(w);
        } else if (tc.active < LIMIT) {
            open[w] = begin(tc, ps, (int)w, 0);
            if (open[w]) {
                op(tc, *open[w], Op{OP_NEW, 0, 0, 0, 0});
                op(tc, *open[w], Op{OP_RMW, 0, (int16_t)rnd(12), (int16_t)rnd(3), 0});
            }
        } else {
            ILock *l = nullptr;
            int exc = sut(tc, [&] {
                l = lockOps(0).start(0, at((int)w));
            });
            if (exc != EX_FAULTED) {
                if (!exc) model.fail("NEST", "LIMIT", "more simultaneous transactions than the configured limit were accepted");
                if (exc != EX_RT) model.fail("NEST", "EXC", "exceeding the limit raised a wrong exception");
                model.probe.nestRejected++;
            }
        }
        // whoever is active must still be known to be
        size_t v = rnd((unsigned)worlds.size());
        if (open[v]) nestProbe(tc, (int)v, 0);
    }
    while (true) {
        std::vector<size_t> left;
        for (size_t w = 0; w < worlds.size(); w++)
            if (open[w]) left.push_back(w);
        if (left.empty()) break;
        endOne(left[rnd((unsigned)left.size())]);
        for (size_t w = 0; w < worlds.size(); w++)
            if (open[w]) nestProbe(tc, (int)w, 0);
    }
}
World &Exec::at(int world) {
    RtHarness h;
    if (world >= prog.nworlds) rt_hb_acquire(0x1000 + ((uint64_t)world + 1) * 16);
    return *worlds[(size_t)world];
}

// Another instance appears while everybody is running: one that stays, or one this thread has for itself.
void Exec::newWorld(ThreadCtx &tc, TxnCtx &x, const Op &o) {
    bool keep = (o.a & 1) && worlds.size() + worldsPending < 6;
    if (keep) worldsPending++;
    World *w = nullptr;
    uint32_t id = 0;
    tc.faultN = 0;
    int exc = sut(tc, [&] {
        w = new World();
        id = w->GetInstanceId();
    });
    if (exc) model.fail("WORLD", "EXC", "creating an instance raised an exception");
    if (keep) {
        worldsPending--;
        worlds.push_back(w);
        handles.emplace_back();
        model.addWorld(id);
        rt_hb_release(0x1000 + worlds.size() * 16);
        model.trace("T%d created world %zu (identity %u)", x.t->id + 1, worlds.size() - 1, id);
        return;
    }
    model.instance(id);
    model.trace("T%d created a private instance (identity %u)", x.t->id + 1, id);
    int n = tc.active < LIMIT ? 1 + (o.b & 3) : 0;
    Handle first = 0;
    IObs *seen = nullptr, *idle = nullptr; // one that is read, one with events still to come
    int watched = -1;
    Handle last = 0;
    for (int i = 0; i < n; i++) {
        uint64_t txid = 0, call = ++model.now, got = 0, v = model.stamp(x.t);
        ILock *l = nullptr;
        exc = sut(tc, [&] {
            l = lockOps(18).start(18, *w);
            txid = l->txid();
        });
        if (exc) model.fail("START", "EXC", "starting a transaction on an instance nobody else uses raised an exception");
        tc.active++;
        model.checkId(txid, call, ++model.now);
        Handle h = 0;
        bool has = false, foreign = false, was = false;
        int polled = 0, wrong = 0;
        size_t count = 0;
        Handle f = pick(x.t->world, o.b & 7);
        void *val = newValue(0, v);
        exc = sut(tc, [&] {
            if (first) was = l->has(fromH(first), 1, false);
            h = toH(l->newEntity());
            l->set(fromH(h), 0, v, 0, val);
            got = l->get(fromH(h), 0, false);
            has = l->has(fromH(h), 1, false);
            foreign = f && l->has(fromH(f), 0, false);
            count = l->list(1, false).size();
            if (seen) {
                Ev e;
                while (polled < 3 && l->poll(seen, e)) {
                    polled++;
                    RtHarness hm;
                    wrong += e.type != 1 || e.h != last;
                }
            } else if (o.a & 2) {
                seen = l->watch(0);
                idle = l->watch(2);
                RtHarness hm;
                watched = i;
            }
        });
        if (watched >= 0 && (polled != (i > watched) || wrong))
            model.fail("EVENT", "PRIVATE", std::to_string(polled) + " events of an instance nobody else uses, expected " + std::to_string(i > watched));
        last = h;
        deleteValue(0, val);
        if (exc) model.fail("WORLD", "EXC", "a transaction on an instance nobody else uses failed");
        if (Tecs::IdentifierFromGeneration((TECS_ENTITY_GENERATION_TYPE)hGen(h)) != id)
            model.fail("NEW", "INSTANCE", hs(h) + " does not carry the identity of its instance " + std::to_string(id));
        if (!has || got != v || count != (size_t)i + 1 || (first && !was))
            model.fail("WORLD", "PRIVATE", "an instance nobody else uses does not show what was written to it");
        if (foreign && !model.wrapped) model.fail("EXISTS", "WRONG", hs(f) + " of another instance exists");
        if (!first) first = h;
        sut(tc, [&] {
            l->drop();
        });
        tc.active--;
        delete l;
        op(tc, x, Op{OP_EXISTS, 0, (int16_t)(o.b & 7), 1, 0});
    }
    {
        RtSut s;
        delete w;
    }
    if (seen) { // observers that outlive their instance
        bool some = false;
        exc = sut(tc, [&] {
            Ev e;
            some = seen->alive() || idle->alive() || x.main->poll(idle, e) || x.main->poll(seen, e);
            seen->destroy();
            idle->destroy();
        });
        if (exc || some) model.fail("EVENT", "ALIVE", "an observer of an instance that is gone still gives something");
        delete seen;
        delete idle;
    }
}
void Exec::nestw(ThreadCtx &tc, TxnCtx &x, const Op &o) {
    // an inner transaction on the next instance (always in this order, as any multi-lock program must)
    int world = x.t->world + 1;
    if (world >= (int)worlds.size() || tc.worldActive[world] || tc.active >= LIMIT) return;
    int ps = o.a % NPS;
    if (!lockOps(ps).start) return;
    TxnCtx *in = begin(tc, ps, world, 0);
    if (!in) return;
    unsigned r = (unsigned)(uint16_t)o.c;
    for (int i = 0; i < 3; i++) {
        Op q;
        static const uint8_t codes[] = {OP_NEW, OP_SET, OP_GET, OP_LIST, OP_DESTROY, OP_EXISTS, OP_GSET, OP_GGET, OP_RMW, OP_NEST};
        r = r * 1103515245u + 12345u;
        q.code = codes[(r >> 8) % 10];
        r = r * 1103515245u + 12345u;
        q.a = (int16_t)((r >> 8) % 40) - 4;
        q.b = (int16_t)((r >> 16) % 3);
        if (q.code == OP_GSET || q.code == OP_GGET) q.a = 3 + ((r >> 8) & 1);
        if (q.code == OP_NEST) q.a = (r >> 8) % NPS;
        op(tc, *in, q);
    }
    // the inner one may outlive the outer one if ending the outer one can not block
    if ((o.b & 1) && !x.t->wr && !x.t->ar && x.deferred.empty()) {
        x.deferred.push_back(in);
    } else {
        end(tc, *in, o.b & 2 ? 2 : 0);
        delete in;
    }
}

void Exec::op(ThreadCtx &tc, TxnCtx &x, const Op &o) {
    Txn *t = x.t;
    bool lprev = false;
    opsDone++;
    opCount[o.code]++;
    switch (o.code) {
    case OP_NOP: break;
    case OP_YIELD: rt_yield(); break;
    case OP_TRACESTART: traceStart(); break;
    case OP_NEW: doNew(tc, x, lockFor(x, o.via, lprev)->ar ? lockFor(x, o.via, lprev) : x.main); break;
    case OP_EXISTS:
    case OP_HAS: {
        ILock *l = lockFor(x, o.via, lprev);
        Handle h = pick(t->world, o.a);
        unsigned mask = o.code == OP_HAS ? (unsigned)o.b & 7 : 0;
        bool r = false;
        int exc = sut(tc, [&] {
            r = l->has(fromH(h), mask, o.c & 1);
        });
        if (exc == EX_FAULTED) break;
        if (exc) model.fail(mask ? "HAS" : "EXISTS", "EXC", "query raised an exception");
        bool pv = l->prev || (o.c & 1);
        if (mask) model.obsHas(t, pv, h, mask, r);
        else
            model.obsExists(t, pv, h, r);
        break;
    }
    case OP_GET: doGet(tc, x, lockFor(x, o.via, lprev), pick(t->world, o.a), o.b % 3, false); break;
    case OP_PREV: doGet(tc, x, lockFor(x, o.via, lprev), pick(t->world, o.a), o.b % 3, true); break;
    case OP_GETM:
    case OP_RMW: {
        ILock *l = lockFor(x, o.via, lprev);
        int c = o.b % 3;
        if (!((l->wr >> c) & 1)) {
            doGet(tc, x, l, pick(t->world, o.a), c, false);
            break;
        }
        Handle h = pick(t->world, o.a);
        if (uncheckedMode && !model.certainlyValid(t, false, h, l->ar ? 0 : 1u << c)) break;
        uint64_t v = 0;
        void *ref = nullptr;
        int exc = sut(tc, [&] {
            ref = l->getm(fromH(h), c, v);
        });
        if (exc == EX_FAULTED) break;
        model.obsGetM(t, h, c, l->ar, exc, exc ? 0 : v, "GETM");
        if (exc) break;
        if (o.code == OP_RMW || (o.c & 1)) {
            if (o.c & 2) rt_yield();
            uint64_t nv = model.stamp(t);
            tc.faultN = 0;
            sut(tc, [&] {
                setRef(c, ref, nv);
            });
            model.doWrite(t, h, c, nv);
            model.trace("T%d wrote %s through the reference", t->id + 1, vs(nv).c_str());
        }
        break;
    }
    case OP_SET: {
        ILock *l = lockFor(x, o.via, lprev);
        doSet(tc, x, l, pick(t->world, o.a), o.b % 3, o.c % 3);
        break;
    }
    case OP_UNSET: doUnset(tc, x, x.main, pick(t->world, o.a), (unsigned)o.b & 7, nullptr); break;
    case OP_DESTROY: doDestroy(tc, x, x.main, pick(t->world, o.a), nullptr, o.b & 1); break;
    case OP_LIST: doList(tc, x, lockFor(x, o.via, lprev), o.a & 3, o.c & 1, o.b & 1023, false); break;
    case OP_LISTGET: doList(tc, x, lockFor(x, o.via, lprev), o.a & 3, o.c & 1, o.b & 1023, true); break;
    case OP_FULL: full(tc, x); break;
    case OP_VIEW: {
        if (x.held.size() >= 4) break;
        ILock *l = lockFor(x, o.via, lprev);
        Held *h = new Held();
        h->kind = o.a & 3;
        h->prev = o.c & 1;
        h->live = t->ar && !h->prev && !l->prev;
        int exc = sut(tc, [&] {
            h->view = l->list(h->kind, h->prev);
            walk(h->view, 0, h->expect);
        });
        if (exc) {
            delete h;
            if (exc != EX_FAULTED) model.fail("VIEW", "EXC", "listing raised an exception");
            break;
        }
        std::vector<Handle> el;
        unsigned nulls = 0;
        for (auto e : h->expect) {
            if (e) el.push_back(e);
            else
                nulls++;
        }
        model.obsList(t, h->prev || l->prev, h->kind, el, nulls, "LIST");
        if (o.b & 8) { // keep only a part of it
            size_t n = h->expect.size(), from = (size_t)(o.b >> 4) % (n + 1), cnt = (size_t)(o.b >> 6) % (n - from + 1);
            exc = sut(tc, [&] {
                auto sub = h->view.subview(from, cnt);
                h->view = sub;
                h->part = true;
            });
            if (exc == EX_FAULTED) {
                delete h;
                break;
            }
            if (exc) model.fail("VIEW", "EXC", "taking a part of a list raised an exception");
            h->expect = std::vector<Handle>(h->expect.begin() + (long)from, h->expect.begin() + (long)(from + cnt));
        }
        x.held.push_back(h);
        break;
    }
    case OP_VCHECK:
        for (Held *h : x.held)
            checkHeld(tc, x, *h, o.a & 1023);
        break;
    case OP_UNSETREF:
    case OP_DESTROYREF: {
        // act through a reference into a list
        if (!t->ar) break;
        ILock *l = x.main;
        int kind = o.a & 3;
        Tecs::EntityView v;
        size_t n = 0;
        sut(tc, [&] {
            v = l->list(kind, false);
            n = v.size();
        });
        if (!n) break;
        size_t i = (size_t)o.b % n;
        const Tecs::Entity *ref = nullptr;
        Handle h = 0;
        sut(tc, [&] {
            ref = &v[i];
            h = toH(*ref);
        });
        if (o.code == OP_UNSETREF) doUnset(tc, x, l, h, (unsigned)o.c & 7, ref);
        else
            doDestroy(tc, x, l, h, ref, 1);
        break;
    }
    case OP_LOOP: {
        // modify entities while walking the list that contains them
        if (!t->ar) break;
        ILock *l = x.main;
        Held *h = new Held();
        h->kind = o.a & 3;
        h->prev = false;
        h->live = true;
        sut(tc, [&] {
            h->view = l->list(h->kind, false);
            walk(h->view, 0, h->expect);
        });
        x.held.push_back(h);
        unsigned r = (unsigned)(uint16_t)o.c * 2654435761u + 1;
        size_t i = 0;
        bool rev = o.b & 1;
        size_t n = h->expect.size();
        std::optional<Tecs::EntityView::iterator> it;
        if (n > 24) n = 24;
        sut(tc, [&] {
            it.emplace(rev ? h->view.begin() + (std::ptrdiff_t)n : h->view.begin());
        });
        for (i = 0; i < n; i++) {
            size_t pos = rev ? n - 1 - i : i;
            const Tecs::Entity *ref = nullptr;
            Handle e = 0;
            int exc = sut(tc, [&] {
                if (rev) --*it;
                ref = &**it;
                e = toH(*ref);
                if (!rev) ++*it;
            });
            if (exc && exc != EX_FAULTED) model.fail("VIEW", "EXC", "walking a list while modifying it raised an exception");
            if (e != h->expect[pos])
                model.fail("VIEW", h->expect[pos] ? "MOVED" : "NOTNULL",
                    "element " + std::to_string(pos) + " is " + hs(e) + " while walking, expected " + hs(h->expect[pos]));
            r = r * 1103515245u + 12345u;
            if (!e) continue;
            switch ((r >> 16) % 9) {
            case 0: doUnset(tc, x, l, e, (r >> 8) & 7, ref); break;
            case 1: doDestroy(tc, x, l, e, ref, 1); break;
            case 2: doSet(tc, x, l, e, (r >> 8) % 3, 0); break;
            case 3: doNew(tc, x, l); break;
            case 4: doUnset(tc, x, l, pick(t->world, (int)((r >> 8) & 7)), (r >> 12) & 7, nullptr); break;
            case 5: doDestroy(tc, x, l, pick(t->world, (int)((r >> 8) & 7)), nullptr, 1); break;
            case 6:
                if (h->kind) doUnset(tc, x, l, e, 1u << (h->kind - 1), ref);
                break;
            default: break;
            }
        }
        checkHeld(tc, x, *h, (o.c >> 2) & 1023);
        if (x.held.size() > 4) {
            x.held.pop_back();
            delete h;
        }
        break;
    }
    case OP_VRANGE: {
        if (uncheckedMode) break;
        ILock *l = lockFor(x, o.via, lprev);
        int what = o.b % 13;
        size_t arg = (size_t)(o.c & 0x1f);
        bool threw = false, expected = true;
        std::string d;
        int exc = sut(tc, [&] {
            auto v = l->list(o.a & 3, false);
            size_t n = v.size();
            Handle got = 0;
            try {
                switch (what) {
                case 0: got = toH(v[n + arg]); break;
                case 1: v.subview(n + 1 + arg); break;
                case 2: got = toH(*v.end()); break;
                case 3: got = toH(v.begin()[(std::ptrdiff_t)(n + arg)]); break;
                case 4: got = toH(*(v.begin() - 1)); break;
                case 5: got = v.end()->index; break;
                case 6: Tecs::EntityView().subview(0); break;
                case 7: got = toH(v[(size_t)-1 - arg]); break;
                case 8: { // a count beyond the end is clipped
                    expected = false;
                    auto s = v.subview(n / 2, arg + n);
                    if (s.size() != n - n / 2) got = 1;
                    else
                        got = 0;
                    if (got) throw 1;
                    break;
                }
                case 9: { // outside a sub-range, although inside the list
                    if (n < 3) {
                        expected = false;
                        break;
                    }
                    auto s = v.subview(0, n - 1);
                    got = toH(arg & 1 ? s[n - 1] : *s.end());
                    break;
                }
                case 10:
                case 11:
                case 12: { // before a sub-range, although inside the list
                    if (n < 3) {
                        expected = false;
                        break;
                    }
                    auto s = v.subview(1 + arg % (n - 1), 1);
                    if (what == 10) got = toH(*(s.begin() - 1));
                    else if (what == 11)
                        got = toH(*s.rend());
                    else
                        got = toH(s.begin()[-1]);
                    break;
                }
                }
            } catch (const std::runtime_error &) {
                threw = true;
            } catch (int) {
                threw = true;
            }
            (void)got;
        });
        if (exc == EX_FAULTED) break;
        if (exc) model.fail("VIEW", "EXC", "range check " + std::to_string(what) + " raised a wrong exception");
        if (threw != expected)
            model.fail("VIEW", "RANGE", "range check " + std::to_string(what) + (expected ? " was not reported" : " failed"));
        if (threw) model.probe.errors++;
        break;
    }
    case OP_GHAS: {
        ILock *l = lockFor(x, o.via, lprev);
        unsigned m = o.b % 3 == 0 ? bG : o.b % 3 == 1 ? bH : (bG | bH);
        bool r = false;
        sut(tc, [&] {
            r = l->ghas(m, o.c & 1);
        });
        model.obsGHas(t, l->prev || (o.c & 1), m, r);
        break;
    }
    case OP_GGET:
    case OP_GPREV: {
        ILock *l = lockFor(x, o.via, lprev);
        int c = 3 + (o.a & 1);
        bool p = o.code == OP_GPREV;
        if (!((l->rd >> c) & 1)) break;
        if (uncheckedMode && !model.certainlyGlobal(t, p || l->prev, 1u << c)) break;
        uint64_t v = 0;
        int exc = sut(tc, [&] {
            v = l->gget(c, p);
        });
        if (exc == EX_FAULTED) break;
        model.obsGGet(t, p || l->prev, c, exc, exc ? 0 : v, p ? "GPREV" : "GGET");
        break;
    }
    case OP_GGETM: {
        ILock *l = lockFor(x, o.via, lprev);
        int c = 3 + (o.a & 1);
        if (!((l->wr >> c) & 1)) break;
        if (uncheckedMode && !l->ar && !model.certainlyGlobal(t, false, 1u << c)) break;
        uint64_t v = 0;
        void *ref = nullptr;
        int exc = sut(tc, [&] {
            ref = l->ggetm(c, v);
        });
        if (exc == EX_FAULTED) break;
        model.obsGGetM(t, c, l->ar, exc, exc ? 0 : v);
        if (exc) break;
        if (o.c & 1) {
            uint64_t nv = model.stamp(t);
            tc.faultN = 0;
            sut(tc, [&] {
                setRef(c, ref, nv);
            });
            model.doGWrite(t, c, nv);
        }
        break;
    }
    case OP_POKE: { // a transaction that may add and remove changes nothing but a value
        int c = o.b % 5;
        if (!t->ar || !t->writes(c)) break;
        Op q = o;
        if (c < 3) {
            auto &hv = handles[(size_t)t->world];
            std::vector<size_t> have;
            for (size_t i = 0; i < hv.size() && i < 30000; i++)
                if (t->wm.has(hv[i], 1u << c)) have.push_back(i);
            if (have.empty()) break;
            q.code = o.c & 1 ? OP_RMW : OP_SET;
            q.via = 0;
            q.a = (int16_t)(64 + have[(size_t)(uint16_t)o.a % have.size()]);
            q.b = (int16_t)c;
        } else {
            if (!model.certainlyGlobal(t, false, 1u << c)) break;
            q.code = OP_GSET;
            q.via = 0;
            q.a = (int16_t)(c - 3);
        }
        op(tc, x, q);
        break;
    }
    case OP_GSET: {
        ILock *l = lockFor(x, o.via, lprev);
        int c = 3 + (o.a & 1);
        if (!((l->wr >> c) & 1)) break;
        if (uncheckedMode && !l->ar && !model.certainlyGlobal(t, false, 1u << c)) break;
        uint64_t v = model.stamp(t), back = 0;
        void *val = newValue(c, v);
        int exc = sut(tc, [&] {
            back = l->gset(c, v, o.c % 3, val);
        });
        deleteValue(c, val);
        if (exc == EX_FAULTED) {
            model.failedValues.insert(v);
            break;
        }
        model.obsGSet(t, c, l->ar, exc, v, back);
        break;
    }
    case OP_GUNSET: {
        if (!t->ar) break;
        unsigned m = o.b % 3 == 0 ? bG : o.b % 3 == 1 ? bH : (bG | bH);
        if (m & (m - 1)) tc.faultN = 0; // see doUnset
        int exc = sut(tc, [&] {
            x.main->gunset(m);
        });
        if (exc == EX_FAULTED) break;
        if (exc) model.fail("GUNSET", "EXC", "removing a global raised an exception");
        model.obsGUnset(t, m);
        break;
    }
    case OP_WATCH: {
        if (!t->ar || tc.obs.size() >= 8) break;
        IObs *i = nullptr;
        int exc = sut(tc, [&] {
            i = x.main->watch(o.a % 6);
        });
        if (exc == EX_FAULTED) break;
        if (exc) model.fail("EVENT", "EXC", "Watch raised an exception");
        i->m = model.watch(t, o.a % 6);
        tc.obs.push_back(i);
        observerAlive(tc, i);
        break;
    }
    case OP_POLL: {
        // a: which observer (or all), b: how many events at most
        ILock *l = lockFor(x, o.via, lprev);
        for (size_t k = 0; k < tc.obs.size(); k++) {
            IObs *i = tc.obs[k];
            if (o.a >= 0 && (size_t)o.a % tc.obs.size() != k) continue;
            if (i->m->world != t->world) continue;
            int extra = o.c & 1;
            for (int n = 0; n < (o.b <= 0 ? 200 : o.b); n++) {
                Ev e{};
                bool r = false;
                int exc = sut(tc, [&] {
                    r = l->poll(i, e);
                });
                if (exc == EX_FAULTED) continue;
                if (exc) model.fail("EVENT", "EXC", "Poll raised an exception");
                model.obsPoll(t, i->m, r, e);
                if (!r && extra-- <= 0) break;
            }
            observerAlive(tc, i);
        }
        break;
    }
    case OP_STOP: {
        if (!t->ar || tc.obs.empty()) break;
        IObs *i = tc.obs[(size_t)(uint16_t)o.a % tc.obs.size()];
        if (i->m->world != t->world) break;
        int exc = sut(tc, [&] {
            x.main->stop(i, o.b & 1);
        });
        if (exc == EX_FAULTED) break;
        if (exc) model.fail("EVENT", "EXC", "Stop raised an exception");
        model.stop(t, i->m);
        observerAlive(tc, i);
        break;
    }
    case OP_NEST: nestProbe(tc, t->world, (int)(uint16_t)o.a % NPS); break;
    case OP_JUGGLE: juggle(tc, x, o); break;
    case OP_NESTW: nestw(tc, x, o); break;
    case OP_WORLD: newWorld(tc, x, o); break;
    case OP_DEEP: {
        std::vector<TxnCtx *> in;
        for (int w = t->world + 1; w < (int)worlds.size(); w++) {
            if (tc.worldActive[w]) continue;
            if (tc.active < LIMIT) {
                TxnCtx *i = begin(tc, o.a & 1 ? 0 : 4, w, 0);
                if (i) in.push_back(i);
            } else {
                ILock *l = nullptr;
                LockOps lo = lockOps(0);
                int exc = sut(tc, [&] {
                    l = lo.start(0, at((int)w));
                });
                if (exc == EX_FAULTED) break;
                if (!exc) model.fail("NEST", "LIMIT", "more simultaneous transactions than the configured limit were accepted");
                if (exc != EX_RT) model.fail("NEST", "EXC", "exceeding the limit raised a wrong exception");
                model.probe.nestRejected++;
                model.trace("thread %d: start beyond the limit rejected", tc.tid);
            }
        }
        if (o.b & 1) std::reverse(in.begin(), in.end()); // they only read: any order of ending is fine
        while (!in.empty()) {
            full(tc, *in.back());
            end(tc, *in.back(), 0);
            delete in.back();
            in.pop_back();
            for (TxnCtx *i : in)
                nestProbe(tc, i->t->world, 0);
        }
        break;
    }
    case OP_DYN: {
        ILock *l = lockFor(x, o.via == 1 ? 1 : 0, lprev);
        int r = (int)(uint16_t)o.a % NDYN_ENABLED;
        const PermInfo &q = dynTable[r];
        ILock *d = nullptr;
        int exc = sut(tc, [&] {
            d = l->dyn(r, o.b & 3);
        });
        if (exc == EX_FAULTED) break;
        if (exc) model.fail("DYN", "EXC", "TryLock raised an exception");
        model.trace("T%d TryLock request %d via %d -> %s", t->id + 1, r, o.via, d ? "granted" : "denied");
        rt_hash(r * 2 + (d != nullptr));
        bool within = l->prev ? ((q.rd & ~t->rd) == 0 && !q.wr && !q.ar)
                              : ((q.rd & ~t->rd) == 0 && (q.wr & ~t->wr) == 0 && (!q.ar || t->ar));
        bool carried = (q.rd & ~l->rd) == 0 && (q.wr & ~l->wr) == 0 && (!q.ar || l->ar);
        if (d && !within) {
            model.fail("DYN", q.ar && !t->ar ? "ADDREMOVE" : "ESCALATE",
                std::string("a dynamic lock of a ") + permName(t->ps) + " transaction granted permissions the transaction does not have (request " +
                    std::to_string(r) + ")");
        }
        if (!d && carried)
            model.fail("DYN", "DENIED", std::string("a dynamic lock of a ") + permName(t->ps) + " transaction denied permissions it carries (request " +
                                            std::to_string(r) + ")");
        if (!d) {
            model.probe.dynDenied++;
            break;
        }
        model.probe.dynGranted++;
        if (x.dyn) {
            sut(tc, [&] {
                x.dyn->drop();
            });
            delete x.dyn;
        }
        x.dyn = d;
        break;
    }
    case OP_COPY: {
        if (x.copies.size() >= 3) break;
        ILock *l = nullptr, *s = lockFor(x, o.via, lprev);
        uint64_t id = 0;
        sut(tc, [&] {
            l = o.a & 1 ? s->copy() : s->copyBase();
            id = l->txid();
        });
        model.noteId(t, id);
        x.copies.push_back(l);
        break;
    }
    case OP_FAULT:
        tc.faultN = 1 + (o.a & 15);
        tc.faultKind = o.b & 1;
        break;
    case OP_WAITT:
    case OP_WAITF: {
        WaitDone w{this, &tc, o.a, o.code == OP_WAITF, {}, {}};
        if (o.code == OP_WAITT) {
            tc.frozen = true;
            rt_stats()->f_freeze++;
        }
        rt_wait(waitDone, &w);
        tc.frozen = false;
        break;
    }
    case OP_RELAY: {
        WaitDone w{this, &tc, o.a, false, {}, {}};
        for (ThreadCtx *c : threads) {
            w.attempts.push_back(c->attempts);
            w.starts.push_back(c->starts);
        }
        rt_wait(waitRelay, &w);
        break;
    }
    default: harnessBug("unknown operation");
    }
}

// ---- whole runs ----------------------------------------------------------------------------------------------------
struct SpawnArg {
    Exec *ex;
    ThreadCtx *tc;
};
static void threadMain(void *a) {
    auto *s = (SpawnArg *)a;
    rt_sut(0);
    Exec *ex = s->ex;
    ThreadCtx &tc = *s->tc;
    auto &txns = ex->prog.threads[tc.tid];
    bool secondary = false;
    int rounds = 1;
    for (auto &t : txns) {
        secondary |= t.repeat > 1;
        if (t.repeat > rounds) rounds = t.repeat;
    }
    for (int r = 0; r < rounds; r++) {
        for (auto &t : txns) {
            if (secondary && primaryDone(ex)) break;
            // operations before the first transaction: waits
            ex->runTxn(tc, t);
        }
        if (secondary && primaryDone(ex)) break;
    }
    tc.done = true;
}
static int allDone(void *a) {
    auto *ex = (Exec *)a;
    for (auto *t : ex->threads)
        if (t->tid >= 0 && !t->done) return 0;
    return 1;
}

// Blocks that static objects or the thread-locals of a running thread still refer to (directly or through other blocks) are caches, not leaks.
struct Leaks {
    struct Block {
        uint64_t p, size, pc;
        bool seen;
    };
    std::vector<Block> blocks;
    std::vector<size_t> todo;
    void scan(const void *p, size_t n) {
        uint64_t v;
        for (uint64_t a = ((uint64_t)p + 7) & ~7ull; a + 8 <= (uint64_t)p + n; a += 8) {
            memcpy(&v, (const void *)a, 8);
            if (!rt_in_sut_heap((const void *)v)) continue;
            auto it = std::upper_bound(blocks.begin(), blocks.end(), v, [](uint64_t x, const Block &b) { return x < b.p; });
            if (it == blocks.begin()) continue;
            --it;
            if (v > it->p + it->size || it->seen) continue;
            it->seen = true;
            todo.push_back((size_t)(it - blocks.begin()));
        }
    }
};
static void leakCb(void *arg, void *ptr, size_t size, uint64_t pc, int fiber) {
    (void)fiber;
    ((Leaks *)arg)->blocks.push_back({(uint64_t)ptr, size, pc, false});
}
static void rootCb(void *arg, const void *p, size_t n) {
    ((Leaks *)arg)->scan(p, n);
}

void Exec::traceStart() {
#ifdef TECS_ENABLE_PERFORMANCE_TRACING
    if (!(prog.flags & PF_TRACE)) return;
    tracing.resize(worlds.size());
    for (size_t w = 0; w < (size_t)prog.nworlds; w++) {
        Tracing &tr = tracing[w];
        bool refused = false;
        if (!tr.on) {
            tr.clock = rt_clock_ns();
            tr.call = ++model.now;
        }
        {
            RtSut s;
            try {
                worlds[w]->StartTrace();
            } catch (const std::runtime_error &) {
                refused = true;
            }
        }
        if (refused != tr.on)
            model.fail("TRACE", "START", refused ? "a trace could not be started although none was running" : "a trace was started while one was running");
        if (!tr.on) {
            tr.on = true;
            tr.ret = ++model.now;
        }
        model.trace("trace of world %zu %s", w, refused ? "already running" : "started");
    }
#endif
}
void Exec::traceStop() {
#ifdef TECS_ENABLE_PERFORMANCE_TRACING
    if (!(prog.flags & PF_TRACE)) return;
    tracing.resize(worlds.size());
    for (size_t w = 0; w < (size_t)prog.nworlds; w++) {
        std::optional<Tecs::PerformanceTrace> tr;
        for (int again = 0; again < 2; again++) { // stopping a second time must be refused
            bool refused = false;
            {
                RtSut s;
                try {
                    if (again)
                        worlds[w]->StopTrace();
                    else
                        tr.emplace(worlds[w]->StopTrace());
                } catch (const std::runtime_error &) {
                    refused = true;
                }
            }
            if (refused != !tracing[w].on)
                model.fail("TRACE", "STOP", refused ? "a running trace could not be stopped" : "a trace was stopped although none was running");
            if (tr) checkTrace(*this, (int)w, *tr, tracing[w]);
            tracing[w].on = false;
            RtSut s;
            tr.reset();
        }
    }
#endif
}

void Exec::runAll() {
    rt_sut(0);
#ifdef TECS_UNCHECKED_MODE
    uncheckedMode = true;
    model.unchecked = true;
#endif
    mainCtx = new ThreadCtx();
    mainCtx->tid = -1;
    handles.resize((size_t)prog.nworlds);
    for (int i = 0; i < prog.nworlds; i++) {
        World *w = nullptr;
#if defined(TECS_ENABLE_PERFORMANCE_TRACING) || defined(SIM_WIDE)
        const bool wrap = false; // instances with trace buffers or many component types take too many steps to create
#else
        const bool wrap = prog.flags & PF_WRAP;
#endif
        if (i == 1 && wrap) { // until the identities have wrapped around
            model.wrapped = true;
            for (int k = 0; k < 255; k++) {
                RtSut s;
                delete new World();
            }
        }
        uint32_t id = 0;
        {
            RtSut s;
            w = new World();
            id = w->GetInstanceId();
        }
        worlds.push_back(w);
        model.addWorld(id);
    }
    if (!(prog.flags & PF_TRACEMID)) traceStart();
    for (auto &t : prog.setup)
        runTxn(*mainCtx, t);
    if ((prog.flags & PF_TRACE2) && !(prog.flags & PF_TRACEMID)) { // a second trace starts from nothing
        traceStop();
        traceStart();
    }
    std::vector<SpawnArg> args;
    args.reserve(prog.threads.size());
    for (size_t i = 0; i < prog.threads.size(); i++) {
        ThreadCtx *tc = new ThreadCtx();
        tc->tid = (int)i;
        threads.push_back(tc);
    }
    for (size_t i = 0; i < prog.threads.size(); i++) {
        args.push_back(SpawnArg{this, threads[i]});
        threads[i]->fiber = rt_spawn(threadMain, &args.back());
    }
    rt_wait(allDone, this);
    for (auto *t : threads)
        rt_hb_join(t->fiber);
    threads.push_back(mainCtx);
    if (!(prog.flags & PF_NO_FINAL)) {
        for (int w = 0; w < (int)worlds.size(); w++) {
            TxnCtx *x = begin(*mainCtx, 4, w, 0);
            full(*mainCtx, *x);
            drainObservers(*mainCtx, *x, true);
            end(*mainCtx, *x, 0);
            delete x;
        }
    }
    // Show what the copies that are not read hold: writers that change nothing exchange them.
    if (prog.flags & PF_SETTLE) {
        for (int w = 0; w < (int)worlds.size(); w++) {
            for (int round = 0; round < 2; round++) {
                TxnCtx *x = begin(*mainCtx, round ? 18 : 17, w, 0);
                if (round) full(*mainCtx, *x);
                auto &hv = handles[w];
                for (int c = 0; c < 3 && hv.size() < 30000; c++)
                    for (size_t i = hv.size(); i-- > 0;)
                        if (x->t->wm.has(hv[i], 1u << c)) {
                            Op o;
                            o.code = OP_GETM;
                            o.a = (int16_t)(64 + i);
                            o.b = (int16_t)c;
                            op(*mainCtx, *x, o);
                            break;
                        }
                for (int g = 0; g < 2; g++) {
                    Op o;
                    o.code = OP_GGETM;
                    o.a = (int16_t)g;
                    if (model.certainlyGlobal(x->t, false, 1u << (3 + g))) op(*mainCtx, *x, o);
                }
                if (round) doNew(*mainCtx, *x, x->main);
                end(*mainCtx, *x, 0);
                delete x;
                x = begin(*mainCtx, 4, w, 0);
                full(*mainCtx, *x);
                end(*mainCtx, *x, 0);
                delete x;
            }
        }
    }
    model.finish();
    model.retained(false);
    if (prog.flags & PF_DESTROY_ALL) {
        for (int w = 0; w < (int)worlds.size(); w++) {
            TxnCtx *x = begin(*mainCtx, 18, w, 0);
            auto hv = handles[w];
            for (auto h : hv)
                if (x->t->wm.valid(h)) doDestroy(*mainCtx, *x, x->main, h, nullptr, 1);
            Op o;
            o.code = OP_GUNSET;
            o.b = 2;
            op(*mainCtx, *x, o);
            end(*mainCtx, *x, 0);
            delete x;
            x = begin(*mainCtx, 4, w, 0);
            full(*mainCtx, *x);
            drainObservers(*mainCtx, *x, true);
            end(*mainCtx, *x, 0);
            delete x;
        }
        model.retained(true);
    }
    traceStop();
    for (auto *t : threads)
        for (IObs *o : t->obs) {
            RtSut s;
            o->destroy();
        }
    for (World *w : worlds) {
        RtSut s;
        delete w;
    }
    if (rt_live_count()) {
        Leaks l;
        rt_live_blocks(leakCb, &l);
        std::sort(l.blocks.begin(), l.blocks.end(), [](const Leaks::Block &x, const Leaks::Block &y) { return x.p < y.p; });
        rt_roots(rootCb, &l);
        while (!l.todo.empty()) {
            size_t i = l.todo.back();
            l.todo.pop_back();
            l.scan((const void *)l.blocks[i].p, l.blocks[i].size);
        }
        std::string d;
        for (auto &k : l.blocks) {
            if (k.seen || d.size() > 400) continue;
            char b[100];
            snprintf(b, sizeof b, " %zu bytes at %p allocated at pc 0x%llx;", (size_t)k.size, (void *)k.p, (unsigned long long)k.pc);
            d += b;
        }
        if (!d.empty()) model.fail("WORLD", "LEAK", "blocks still allocated after every instance was destroyed:" + d);
    }
}

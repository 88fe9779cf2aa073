#include "model.h"

#include <algorithm>
#include <cstdarg>
#include <cstdio>

#ifndef TECS_ENTITY_ALLOCATION_BATCH_SIZE
    #define TECS_ENTITY_ALLOCATION_BATCH_SIZE 1000
#endif

struct VW {
    const MState *m;
    const CState *c[NCOMP];
};

static const char *cname(int x) {
    static const char *n[] = {"A", "B", "C", "G", "H", "M"};
    return n[x];
}

std::string hs(Handle h) {
    char b[64];
    snprintf(b, sizeof b, "ent(ecs %u gen %u idx %u)", hGen(h) >> 24, hGen(h) & 0xffffff, hIdx(h));
    return b;
}
std::string vs(uint64_t s) {
    char b[64];
    if (s == STAMP_TORN) return "torn value";
    if (s >> 48) snprintf(b, sizeof b, "garbage 0x%llx", (unsigned long long)s);
    else
        snprintf(b, sizeof b, "v%llu.%llu", (unsigned long long)(s >> 24), (unsigned long long)(s & 0xffffff));
    return b;
}
static std::string ms(unsigned mask) {
    std::string r;
    for (int i = 0; i < NCOMP; i++)
        if (mask >> i & 1) r += cname(i);
    return r;
}

void Model::trace(const char *fmt, ...) {
    if (!verbose) return;
    va_list ap;
    va_start(ap, fmt);
    fprintf(stdout, "  [%8llu] ", (unsigned long long)rt_step());
    vfprintf(stdout, fmt, ap);
    fputc('\n', stdout);
    va_end(ap);
}

void Model::fail(const char *op, const char *why, const std::string &detail) {
    std::string cls = std::string(op) + ":" + why;
    std::string d = detail;
    // history: the transactions of this run
    d += " | history:";
    size_t from = txns.size() > 12 ? txns.size() - 12 : 0;
    for (size_t i = from; i < txns.size(); i++) {
        Txn *t = txns[i];
        char b[200];
        snprintf(b, sizeof b, " T%d(thread %d, world %d, %s)[%llu,%llu,%llu,%llu]", t->id + 1, t->tid, t->world,
            permName(t->ps), (unsigned long long)t->bcall, (unsigned long long)t->bret, (unsigned long long)t->ecall,
            (unsigned long long)t->eret);
        d += b;
    }
    trace("VIOLATION %s %s", cls.c_str(), d.c_str());
    rt_violation(cls.c_str(), d.c_str());
}

void Model::instance(uint32_t id) {
    if (!instanceIds.insert(id).second && !wrapped) fail("WORLD", "ID", "two instances got the identity " + std::to_string(id));
}
void Model::addWorld(uint32_t instanceId) {
    WorldModel wm;
    wm.instanceId = instanceId;
    instance(instanceId);
    wm.m.push_back(VerM{new MState(), -1, {}});
    for (int x = 0; x < NCOMP; x++)
        wm.c[x].push_back(VerC{new CState(), -1});
    w.push_back(std::move(wm));
}

Txn *Model::beginCall(int tid, int world, int ps) {
    Txn *t = new Txn();
    t->id = (int)txns.size();
    t->tid = tid;
    t->world = world;
    t->ps = ps;
    t->rd = permTable[ps].rd;
    t->wr = permTable[ps].wr;
    t->ar = permTable[ps].ar;
    t->bcall = ++now;
    txns.push_back(t);
    trace("T%d thread %d start %s on world %d", t->id + 1, tid, permName(ps), world);
    return t;
}

bool Model::includes(const Vers &v, const Txn *w) const {
    for (int x = 0; x < 6; x++)
        if (w->newver[x] >= 0) return v[x] >= w->newver[x];
    return true;
}

void Model::upd(Txn *t) {
    if (t->unchecked) return;
    for (Txn *w : txns) {
        if (w->world != t->world || w == t || !w->ecall || w->cpHigh <= t->bret) continue;
        bool any = false;
        for (int x = 0; x < 6; x++)
            any |= w->newver[x] >= 0;
        if (!any) continue;
        bool all = true;
        for (auto &v : t->cand)
            if (!includes(v, w)) {
                all = false;
                break;
            }
        if (all) w->cpHigh = t->bret;
    }
}

void Model::checkId(uint64_t txid, uint64_t call, uint64_t ret) {
#ifdef TECS_HEADER_ONLY
    return;
#endif
    for (IdNote &n : ids) {
        if (n.id == txid) fail("TXID", "DUP", "transaction id " + std::to_string(txid) + " was used twice");
        if ((n.ret < call && n.id > txid) || (ret < n.call && txid > n.id))
            fail("TXID", "ORDER", "transaction ids " + std::to_string(n.id) + " and " + std::to_string(txid) +
                                      " contradict the order in which the transactions were started");
    }
    ids.push_back(IdNote{txid, call, ret});
}
void Model::noteId(Txn *t, uint64_t txid) {
    if (!t->idKnown) {
        t->idKnown = true;
        t->txid = txid;
        trace("T%d has id %llu", t->id + 1, (unsigned long long)txid);
        checkId(txid, t->bcall, t->bret);
    } else if (txid != t->txid) {
        fail("TXID", "CHANGED", "lock handles of one transaction report ids " + std::to_string(t->txid) + " and " + std::to_string(txid));
    }
}

void Model::beginReturn(Txn *t, uint64_t txid, bool idLater) {
    t->bret = ++now;
    probe.txns++;
    trace("T%d started", t->id + 1);
    if (!idLater) noteId(t, txid);
    WorldModel &wm = w[t->world];
    // mutual exclusion
    for (Txn *u : txns) {
        if (u == t || u->world != t->world || !u->active()) continue;
        if ((u->wr & t->wr) || (u->ar && t->ar))
            fail("EXCL", "TWOWRITERS",
                "T" + std::to_string(t->id + 1) + " (" + permName(t->ps) + ") and T" + std::to_string(u->id + 1) + " (" +
                    permName(u->ps) + ") hold conflicting write permissions");
    }
    // candidate snapshots
    Vers base;
    base.fill(0);
    std::vector<Txn *> opt, must;
    for (Txn *u : txns) {
        if (u == t || u->world != t->world || !u->ecall) continue;
        bool any = false;
        for (int x = 0; x < 6; x++)
            any |= u->newver[x] >= 0;
        if (!any) continue;
        if (u->cpHigh < t->bcall) must.push_back(u);
        else
            opt.push_back(u);
    }
    bool again = true;
    while (again) {
        again = false;
        for (size_t i = 0; i < opt.size(); i++) {
            bool pred = false;
            for (Txn *m : must)
                for (int x = 0; x < 6; x++)
                    if (m->newver[x] >= 0 && opt[i]->newver[x] >= 0 && opt[i]->newver[x] < m->newver[x]) pred = true;
            if (pred) {
                must.push_back(opt[i]);
                opt.erase(opt.begin() + i);
                again = true;
                break;
            }
        }
    }
    for (Txn *m : must)
        for (int x = 0; x < 6; x++)
            if (m->newver[x] > base[x]) base[x] = m->newver[x];
    std::sort(opt.begin(), opt.end(), [](Txn *a, Txn *b) {
        return a->ecall < b->ecall;
    });
    // closed subsets of the commits in flight
    std::vector<std::pair<Vers, uint32_t>> sets{{base, 0u}};
    size_t no = opt.size();
    if (no > 30) t->unchecked = true;
    for (size_t i = 0; i < no && !t->unchecked; i++) {
        uint32_t need = 0;
        for (size_t j = 0; j < i; j++) {
            bool pred = opt[j]->cpHigh < opt[i]->ecall;
            for (int x = 0; x < 6; x++)
                if (opt[i]->newver[x] >= 0 && opt[j]->newver[x] >= 0 && opt[j]->newver[x] < opt[i]->newver[x]) pred = true;
            if (pred) need |= 1u << j;
        }
        size_t n = sets.size();
        for (size_t k = 0; k < n; k++) {
            if ((sets[k].second & need) != need) continue;
            Vers v = sets[k].first;
            for (int x = 0; x < 6; x++)
                if (opt[i]->newver[x] > v[x]) v[x] = opt[i]->newver[x];
            sets.push_back({v, sets[k].second | 1u << i});
        }
        if (sets.size() > 3000) t->unchecked = true;
    }
    if (t->unchecked) probe.uncheckedTxns++;
    Vers last;
    for (int x = 0; x < NCOMP; x++)
        last[x] = (int16_t)(wm.c[x].size() - 1);
    last[cM] = (int16_t)(wm.m.size() - 1);
    for (auto &s : sets) {
        bool ok = true;
        for (int x = 0; x < 6; x++)
            if (t->writes(x) && s.first[x] != last[x]) ok = false;
        if (ok) t->cand.push_back(s.first);
    }
    t->beginCand = t->cand;
    if (t->cand.empty() && !t->unchecked) fail("MODEL", "NOCAND", "no candidate snapshot (harness error)");
    if (t->cand.size() > 1) probe.multiCand++;
    if (t->cand.size() > probe.maxCand) probe.maxCand = t->cand.size();
    if (t->ar) t->wm = *wm.m.back().s;
    for (int x = 0; x < NCOMP; x++)
        if (t->writes(x)) t->wc[x] = *wm.c[x].back().s;
    upd(t);
}

void Model::beginFailed(Txn *t) {
    trace("T%d start failed", t->id + 1);
    t->bret = t->ecall = t->eret = 0;
    t->world = -1;
    ++now;
}

void Model::setOwn(Txn *t, int x) {
    if (x == cM) t->mDirty = t->ownM = true;
    else
        t->cDirty[x] = t->ownC[x] = true;
}

static bool sameM(const MState &a, const MState &b) {
    if (a.g != b.g) return false;
    size_t n = std::max(a.e.size(), b.e.size());
    static const EntInfo none;
    for (size_t i = 0; i < n; i++) {
        const EntInfo &x = i < a.e.size() ? a.e[i] : none;
        const EntInfo &y = i < b.e.size() ? b.e[i] : none;
        if (x.alive != y.alive) return false;
        if (x.alive && (x.gen != y.gen || x.bits != y.bits)) return false;
    }
    return true;
}

void Model::endCall(Txn *t) {
    t->ecall = ++now;
    WorldModel &wm = w[t->world];
    bool any = false;
    if (t->ar && t->mDirty) {
        MState &old = *wm.m.back().s;
        bool same = sameM(old, t->wm);
        // Generations of slots used and freed inside the transaction matter for later handles, not for readers.
        if (same) {
            old = t->wm;
        } else {
            any = true;
            VerM v{new MState(t->wm), t->id, {}};
            size_t n = std::max(old.e.size(), t->wm.e.size());
            static const EntInfo none;
            for (size_t i = 0; i < n; i++) {
                const EntInfo &o = i < old.e.size() ? old.e[i] : none;
                const EntInfo &nw = i < t->wm.e.size() ? t->wm.e[i] : none;
                Handle oh = ((uint64_t)o.gen << 32) | i, nh = ((uint64_t)nw.gen << 32) | i;
                if (o.alive != nw.alive || (o.alive && o.gen != nw.gen)) {
                    if (o.alive) v.ev[0].push_back(Ev{2, oh, 0});
                    if (nw.alive) v.ev[0].push_back(Ev{1, nh, 0});
                }
                for (int x = 0; x < 3; x++) {
                    bool oe = o.alive && (o.bits >> x & 1), ne = nw.alive && (nw.bits >> x & 1);
                    if (oe != ne || (oe && o.gen != nw.gen)) {
                        if (oe) v.ev[1 + x].push_back(Ev{2, oh, cat(*wm.c[x].back().s, (uint32_t)i)});
                        if (ne) v.ev[1 + x].push_back(Ev{1, nh, cat(t->wc[x], (uint32_t)i)});
                    }
                }
            }
            for (int g = 3; g < 5; g++) {
                bool oe = old.g >> g & 1, ne = t->wm.g >> g & 1;
                if (oe && !ne) v.ev[1 + g].push_back(Ev{2, 0, cat(*wm.c[g].back().s, 0)});
                if (ne && !oe) v.ev[1 + g].push_back(Ev{1, 0, cat(t->wc[g], 0)});
            }
            for (auto &e : v.ev)
                probe.events += e.size();
            t->newver[cM] = (int16_t)wm.m.size();
            wm.m.push_back(std::move(v));
            probe.mcommits++;
        }
    }
    for (int x = 0; x < NCOMP; x++) {
        if (t->cDirty[x]) {
            any = true;
            t->newver[x] = (int16_t)wm.c[x].size();
            wm.c[x].push_back(VerC{new CState(t->wc[x]), t->id});
        }
    }
    if (any) probe.commits++;
    trace("T%d release%s", t->id + 1, any ? " (commits)" : "");
}

void Model::filterIncluding(Txn *r, Txn *u, const char *op, const char *why) {
    if (r->unchecked) return;
    std::vector<Vers> n;
    for (auto &v : r->cand)
        if (includes(v, u)) n.push_back(v);
    if (n.empty())
        fail(op, why,
            "commit of T" + std::to_string(u->id + 1) + " completed while T" + std::to_string(r->id + 1) + " (" +
                permName(r->ps) + ") was still using the state before it");
    if (n.size() != r->cand.size()) {
        r->cand = n;
        probe.overlapWaits++;
        upd(r);
    }
}

void Model::checkOverlap(Txn *u) {
    bool any = false;
    for (int x = 0; x < 6; x++)
        any |= u->newver[x] >= 0;
    if (!any) return;
    for (Txn *r : txns) {
        if (r == u || r->world != u->world || !r->active()) continue;
        bool shares = false;
        for (int x = 0; x < 6; x++)
            if (u->newver[x] >= 0 && r->holds(x)) shares = true;
        if (shares) filterIncluding(r, u, "COMMIT", "OVERLAP");
    }
}

void Model::endReturn(Txn *t) {
    t->eret = ++now;
    t->endClock = rt_clock_ns();
    if (t->cpHigh > t->eret) t->cpHigh = t->eret;
    trace("T%d ended", t->id + 1);
    checkOverlap(t);
}

const MState &Model::viewM(const Txn *t, const Vers &v, bool prev) const {
    if (!prev && t->ar) return t->wm;
    return *w[t->world].m[v[cM]].s;
}
const CState &Model::viewC(const Txn *t, const Vers &v, bool prev, int x) const {
    if (!prev && t->writes(x)) return t->wc[x];
    return *w[t->world].c[x][v[x]].s;
}

template<typename F>
const char *Model::classify(Txn *t, bool prev, unsigned q, F &pred) {
    WorldModel &wm = w[t->world];
    auto full = [&](const Vers &v) {
        VW vw;
        vw.m = &viewM(t, v, prev);
        for (int x = 0; x < NCOMP; x++)
            vw.c[x] = &viewC(t, v, prev, x);
        return vw;
    };
    for (auto &v : t->beginCand)
        if (pred(full(v))) return "NONREPEAT";
    // which versions of each involved component were possible on their own?
    int xs[6], nx = 0;
    for (int x = 0; x < 6; x++)
        if ((q >> x & 1) && !(!prev && t->writes(x))) xs[nx++] = x;
    bool atomic = false, stale = false, future = false;
    VW base = full(t->cand[0]);
    if (nx >= 1 && nx <= 2) {
        int n0 = xs[0] == cM ? (int)wm.m.size() : (int)wm.c[xs[0]].size();
        int n1 = nx == 2 ? (xs[1] == cM ? (int)wm.m.size() : (int)wm.c[xs[1]].size()) : 1;
        for (int i = 0; i < n0; i++)
            for (int j = 0; j < n1; j++) {
                VW vw = base;
                int idx[2] = {i, j};
                bool in = true, older = false;
                for (int k = 0; k < nx; k++) {
                    if (xs[k] == cM) vw.m = wm.m[idx[k]].s;
                    else
                        vw.c[xs[k]] = wm.c[xs[k]][idx[k]].s;
                    bool loc = false;
                    int mn = 1 << 20;
                    for (auto &v : t->beginCand) {
                        if (v[xs[k]] == idx[k]) loc = true;
                        if (v[xs[k]] < mn) mn = v[xs[k]];
                    }
                    if (!loc) in = false;
                    if (idx[k] < mn) older = true;
                }
                if (!pred(vw)) continue;
                if (in) atomic = true;
                else if (older)
                    stale = true;
                else
                    future = true;
            }
    }
    if (atomic) return "ATOMIC";
    for (Txn *u : txns) {
        if (u == t || u->world != t->world || !u->active()) continue;
        for (int k = 1; k < 4; k++) {
            VW vw = base;
            if ((k & 1) && u->ar) vw.m = &u->wm;
            if (k & 2)
                for (int x = 0; x < NCOMP; x++)
                    if (u->writes(x) && !(!prev && t->writes(x))) vw.c[x] = &u->wc[x];
            if (pred(vw)) return "DIRTY";
        }
    }
    if (future) return "FUTURE";
    if (stale) return "STALE";
    // visible in this transaction's own modified state, or in the state before it?
    if (t->ar || t->wr) {
        VW vw = full(t->cand[0]);
        if (prev) {
            if (t->ar) vw.m = &t->wm;
            for (int x = 0; x < NCOMP; x++)
                if (t->writes(x)) vw.c[x] = &t->wc[x];
            if (pred(vw)) return "PREVLEAK";
        } else {
            for (int k = 1; k < 4; k++) {
                VW o = vw;
                if (k & 1) o.m = wm.m[t->cand[0][cM]].s;
                if (k & 2)
                    for (int x = 0; x < NCOMP; x++)
                        o.c[x] = wm.c[x][t->cand[0][x]].s;
                if (pred(o)) return "OWNLOST";
            }
        }
    }
    bool own = false;
    for (int x = 0; x < 6; x++)
        if ((q >> x & 1) && !prev && (x == cM ? t->ownM : t->ownC[x])) own = true;
    return own ? "OWN" : "WRONG";
}

template<typename F>
void Model::narrow(Txn *t, bool prev, unsigned q, const char *op, const std::string &detail, F pred) {
    probe.obs++;
    if (t->unchecked) return;
    size_t n = t->cand.size();
    size_t o = 0;
    static thread_local std::vector<Vers> keep;
    std::vector<Vers> next;
    for (size_t i = 0; i < n; i++) {
        VW vw;
        vw.m = &viewM(t, t->cand[i], prev);
        for (int x = 0; x < NCOMP; x++)
            vw.c[x] = &viewC(t, t->cand[i], prev, x);
        if (pred(vw)) {
            o++;
            next.push_back(t->cand[i]);
        }
    }
    if (o == 0) {
        const char *why = classify(t, prev, q, pred);
        fail(op, why, "T" + std::to_string(t->id + 1) + " (" + permName(t->ps) + ", thread " + std::to_string(t->tid) + ") " +
                          (prev ? "previous view: " : "") + detail);
    }
    if (o != n) {
        t->cand.swap(next);
        upd(t);
    }
}

static const char *excName(int e) {
    static const char *n[] = {"no exception", "runtime_error", "bad_alloc", "injected copy failure", "other exception"};
    return n[e];
}

void Model::obsExists(Txn *t, bool prev, Handle h, bool r) {
    if (verbose) trace("T%d %s %s -> %d", t->id + 1, prev ? "Existed" : "Exists", hs(h).c_str(), r);
    rt_hash(h * 2 + r);
    narrow(t, prev, 1u << cM, "EXISTS", hs(h) + (r ? " reported as existing" : " reported as not existing"), [&](const VW &v) {
        return v.m->valid(h) == r;
    });
}
void Model::obsHas(Txn *t, bool prev, Handle h, unsigned mask, bool r) {
    if (verbose) trace("T%d %s<%s> %s -> %d", t->id + 1, prev ? "Had" : "Has", ms(mask).c_str(), hs(h).c_str(), r);
    rt_hash(h * 2 + r);
    narrow(t, prev, 1u << cM, "HAS", hs(h) + " has " + ms(mask) + " reported as " + (r ? "true" : "false"), [&](const VW &v) {
        return v.m->has(h, mask) == r;
    });
}
void Model::obsGet(Txn *t, bool prev, Handle h, int comp, int exc, uint64_t val, const char *op) {
    if (verbose)
        trace("T%d %s<%s> %s -> %s %s", t->id + 1, op, cname(comp), hs(h).c_str(), exc ? excName(exc) : "", vs(val).c_str());
    rt_hash(h + val * 3 + exc);
    if (exc > EX_RT) fail(op, "EXC", std::string("unexpected exception: ") + excName(exc));
    if (exc) probe.errors++;
    std::string d = hs(h) + " component " + cname(comp) + " gave " + (exc ? excName(exc) : vs(val).c_str());
    if (!exc && val == STAMP_TORN) fail(op, "TORN", "T" + std::to_string(t->id + 1) + " " + d);
    narrow(t, prev, 1u << cM | 1u << comp, op, d, [&](const VW &v) {
        bool has = v.m->has(h, 1u << comp);
        if (exc) return !has;
        return has && cat(*v.c[comp], hIdx(h)) == val;
    });
}

bool Model::certainlyValid(Txn *t, bool prev, Handle h, unsigned mask) {
    if (t->cand.empty()) return false;
    for (auto &v : t->cand)
        if (!viewM(t, v, prev).has(h, mask)) return false;
    return true;
}
bool Model::certainlyGlobal(Txn *t, bool prev, unsigned g) {
    if (t->cand.empty()) return false;
    for (auto &v : t->cand)
        if ((viewM(t, v, prev).g & g) != g) return false;
    return true;
}
bool Model::memberNow(Txn *t, int kind, Handle h) {
    if (t->cand.empty()) return false;
    const MState &m = viewM(t, t->cand[0], false);
    return m.has(h, kind ? 1u << (kind - 1) : 0);
}

void Model::doWrite(Txn *t, Handle h, int comp, uint64_t val) {
    CState &c = t->wc[comp];
    if (c.size() <= hIdx(h)) c.resize(hIdx(h) + 1);
    c[hIdx(h)] = val;
    setOwn(t, comp);
}

void Model::obsGetM(Txn *t, Handle h, int comp, bool adds, int exc, uint64_t val, const char *op) {
    if (verbose)
        trace("T%d %s<%s> %s -> %s %s", t->id + 1, op, cname(comp), hs(h).c_str(), exc ? excName(exc) : "", vs(val).c_str());
    rt_hash(h + val * 3 + exc);
    if (exc > EX_RT) fail(op, "EXC", std::string("unexpected exception: ") + excName(exc));
    if (exc) probe.errors++;
    std::string d = hs(h) + " component " + cname(comp) + " gave " + (exc ? excName(exc) : vs(val).c_str());
    if (!exc && val == STAMP_TORN) fail(op, "TORN", "T" + std::to_string(t->id + 1) + " " + d);
    narrow(t, false, 1u << cM | 1u << comp, op, d, [&](const VW &v) {
        if (exc) return adds ? !v.m->valid(h) : !v.m->has(h, 1u << comp);
        if (v.m->has(h, 1u << comp)) return cat(*v.c[comp], hIdx(h)) == val;
        return adds && v.m->valid(h) && val == 0;
    });
    if (!exc && adds && !t->wm.has(h, 1u << comp)) {
        t->wm.e[hIdx(h)].bits |= 1u << comp;
        setOwn(t, cM);
        doWrite(t, h, comp, 0);
        t->added++;
    }
}
void Model::obsSet(Txn *t, Handle h, int comp, bool adds, int exc, uint64_t val, uint64_t readBack) {
    if (verbose) trace("T%d Set<%s> %s = %s -> %s", t->id + 1, cname(comp), hs(h).c_str(), vs(val).c_str(), excName(exc));
    rt_hash(h + exc);
    if (exc > EX_RT) fail("SET", "EXC", std::string("unexpected exception: ") + excName(exc));
    if (exc) probe.errors++;
    std::string d = "Set<" + std::string(cname(comp)) + "> on " + hs(h) + (exc ? " was rejected" : " succeeded");
    narrow(t, false, 1u << cM, "SET", d, [&](const VW &v) {
        bool ok = adds ? v.m->valid(h) : v.m->has(h, 1u << comp);
        return ok == !exc;
    });
    if (exc) return;
    if (readBack != val) fail("SET", "OWN", d + " but the returned reference holds " + vs(readBack));
    if (adds && !t->wm.has(h, 1u << comp)) {
        t->wm.e[hIdx(h)].bits |= 1u << comp;
        setOwn(t, cM);
        t->added++;
    }
    doWrite(t, h, comp, val);
}
void Model::obsUnset(Txn *t, Handle h, unsigned mask, int exc) {
    if (verbose) trace("T%d Unset<%s> %s -> %s", t->id + 1, ms(mask).c_str(), hs(h).c_str(), excName(exc));
    rt_hash(h + exc);
    if (exc > EX_RT) fail("UNSET", "EXC", std::string("unexpected exception: ") + excName(exc));
    if (exc) probe.errors++;
    narrow(t, false, 1u << cM, "UNSET", "Unset on " + hs(h) + (exc ? " was rejected" : " succeeded"), [&](const VW &v) {
        return v.m->valid(h) == !exc;
    });
    if (exc) return;
    EntInfo &e = t->wm.e[hIdx(h)];
    for (int x = 0; x < 3; x++)
        if ((mask >> x & 1) && (e.bits >> x & 1)) {
            e.bits &= ~(1u << x);
            setOwn(t, cM);
            t->removedFrom[1 + x].insert(h);
            t->removed++;
        }
}
void Model::obsDestroy(Txn *t, Handle h, int exc) {
    if (verbose) trace("T%d Destroy %s -> %s", t->id + 1, hs(h).c_str(), excName(exc));
    rt_hash(h + exc);
    if (exc > EX_RT) fail("DESTROY", "EXC", std::string("unexpected exception: ") + excName(exc));
    if (exc) probe.errors++;
    narrow(t, false, 1u << cM, "DESTROY", "Destroy of " + hs(h) + (exc ? " was rejected" : " succeeded"), [&](const VW &v) {
        return v.m->valid(h) == !exc;
    });
    if (exc) return;
    EntInfo &e = t->wm.e[hIdx(h)];
    for (int x = 0; x < 3; x++)
        if (e.bits >> x & 1) t->removedFrom[1 + x].insert(h);
    t->removedFrom[0].insert(h);
    t->removed++;
    e.bits = 0;
    e.alive = 0;
    setOwn(t, cM);
}
void Model::obsNew(Txn *t, int exc, Handle h) {
    if (verbose) trace("T%d NewEntity -> %s %s", t->id + 1, excName(exc), hs(h).c_str());
    rt_hash(h + exc);
    WorldModel &wm = w[t->world];
    if (exc) fail("NEW", "EXC", std::string("unexpected exception: ") + excName(exc));
    probe.newEnts++;
    uint32_t i = hIdx(h);
    MState &m = t->wm;
    if (h == 0 || hGen(h) == 0) fail("NEW", "NULL", "NewEntity returned a null handle");
    if ((uint8_t)(hGen(h) >> 24) != (uint8_t)wm.instanceId)
        fail("NEW", "INSTANCE", hs(h) + " does not carry the identity of its instance " + std::to_string(wm.instanceId));
    if (i < m.e.size() && m.e[i].alive) fail("NEW", "ALIVE", hs(h) + " was returned although its slot is in use");
    if (!wm.used.insert(h).second) fail("NEW", "REUSED", hs(h) + " was returned a second time");
    if (i >= wm.cap) {
        // storage grew: only allowed when no free slot was left
        const MState &base = *wm.m.back().s;
        if (!wm.growFault) {
            for (uint32_t k = 0; k < wm.cap; k++) {
                bool baseAlive = k < base.e.size() && base.e[k].alive;
                if (!baseAlive && !t->touched.count(k))
                    fail("NEW", "NOTREUSED", hs(h) + " was allocated in new storage although slot " + std::to_string(k) + " is free");
            }
        }
        while (i >= wm.cap)
            wm.cap += TECS_ENTITY_ALLOCATION_BATCH_SIZE;
        probe.growths++;
    } else if (i < m.e.size() && m.e[i].gen) {
        probe.reused++;
    }
    t->touched.insert(i);
    if (m.e.size() <= i) m.e.resize(i + 1);
    m.e[i].gen = hGen(h);
    m.e[i].alive = 1;
    m.e[i].bits = 0;
    setOwn(t, cM);
    t->added++;
}
void Model::obsList(Txn *t, bool prev, int kind, const std::vector<Handle> &elems, unsigned nulls, const char *op) {
    if (verbose) {
        std::string s;
        for (auto h : elems)
            s += " " + hs(h);
        trace("T%d %s %s(%s) -> %zu entities, %u null:%s", t->id + 1, op, prev ? "previous entities" : "entities",
            kind ? cname(kind - 1) : "all", elems.size(), nulls, s.c_str());
    }
    std::vector<Handle> got(elems);
    std::sort(got.begin(), got.end(), [](Handle a, Handle b) {
        return hIdx(a) != hIdx(b) ? hIdx(a) < hIdx(b) : a < b;
    });
    for (auto h : got)
        rt_hash(h);
    std::string d = std::string("list of ") + (kind ? cname(kind - 1) : "all") + " entities has " + std::to_string(got.size()) + ":";
    for (auto h : got)
        d += " " + hs(h);
    for (size_t i = 1; i < got.size(); i++)
        if (got[i] == got[i - 1]) fail(op, "DUPLICATE", "T" + std::to_string(t->id + 1) + " " + d);
    unsigned nullsOk = (t->ar && !prev) ? t->removed * 4 : 0;
    if (nulls > nullsOk) fail(op, "NULLS", "T" + std::to_string(t->id + 1) + " " + d + " and " + std::to_string(nulls) + " null entries");
    unsigned mask = kind ? 1u << (kind - 1) : 0;
    narrow(t, prev, 1u << cM, op, d, [&](const VW &v) {
        size_t k = 0;
        for (uint32_t i = 0; i < v.m->e.size(); i++) {
            const EntInfo &e = v.m->e[i];
            if (!e.alive || (e.bits & mask) != mask) continue;
            Handle h = ((uint64_t)e.gen << 32) | i;
            if (k >= got.size() || got[k] != h) return false;
            k++;
        }
        return k == got.size();
    });
}

void Model::obsGHas(Txn *t, bool prev, unsigned mask, bool r) {
    if (verbose) trace("T%d global %s<%s> -> %d", t->id + 1, prev ? "Had" : "Has", ms(mask).c_str(), r);
    rt_hash(mask * 2 + r);
    narrow(t, prev, 1u << cM, "GHAS", "global " + ms(mask) + " reported as " + (r ? "present" : "absent"), [&](const VW &v) {
        return ((v.m->g & mask) == mask) == r;
    });
}
void Model::obsGGet(Txn *t, bool prev, int comp, int exc, uint64_t val, const char *op) {
    if (verbose) trace("T%d %s<%s> -> %s %s", t->id + 1, op, cname(comp), excName(exc), vs(val).c_str());
    rt_hash(val * 3 + exc);
    if (exc > EX_RT) fail(op, "EXC", std::string("unexpected exception: ") + excName(exc));
    if (exc) probe.errors++;
    std::string d = std::string("global ") + cname(comp) + " gave " + (exc ? excName(exc) : vs(val).c_str());
    if (!exc && val == STAMP_TORN) fail(op, "TORN", "T" + std::to_string(t->id + 1) + " " + d);
    narrow(t, prev, 1u << cM | 1u << comp, op, d, [&](const VW &v) {
        bool has = v.m->g >> comp & 1;
        if (exc) return !has;
        return has && cat(*v.c[comp], 0) == val;
    });
}
void Model::doGWrite(Txn *t, int comp, uint64_t val) {
    doWrite(t, 0, comp, val);
}
void Model::obsGGetM(Txn *t, int comp, bool adds, int exc, uint64_t val) {
    if (verbose) trace("T%d global Get<%s>(mutable) -> %s %s", t->id + 1, cname(comp), excName(exc), vs(val).c_str());
    rt_hash(val * 3 + exc);
    if (exc > EX_RT) fail("GGETM", "EXC", std::string("unexpected exception: ") + excName(exc));
    if (exc) probe.errors++;
    std::string d = std::string("global ") + cname(comp) + " gave " + (exc ? excName(exc) : vs(val).c_str());
    if (!exc && val == STAMP_TORN) fail("GGETM", "TORN", "T" + std::to_string(t->id + 1) + " " + d);
    narrow(t, false, 1u << cM | 1u << comp, "GGETM", d, [&](const VW &v) {
        bool has = v.m->g >> comp & 1;
        if (exc) return !adds && !has;
        if (has) return cat(*v.c[comp], 0) == val;
        return adds && val == 0;
    });
    if (!exc && adds && !(t->wm.g >> comp & 1)) {
        t->wm.g |= 1u << comp;
        setOwn(t, cM);
        doGWrite(t, comp, 0);
    }
}
void Model::obsGSet(Txn *t, int comp, bool adds, int exc, uint64_t val, uint64_t readBack) {
    if (verbose) trace("T%d global Set<%s> = %s -> %s", t->id + 1, cname(comp), vs(val).c_str(), excName(exc));
    rt_hash(exc);
    if (exc > EX_RT) fail("GSET", "EXC", std::string("unexpected exception: ") + excName(exc));
    if (exc) probe.errors++;
    narrow(t, false, 1u << cM, "GSET", std::string("Set of global ") + cname(comp) + (exc ? " was rejected" : " succeeded"),
        [&](const VW &v) {
            bool ok = adds || (v.m->g >> comp & 1);
            return ok == !exc;
        });
    if (exc) return;
    if (readBack != val) fail("GSET", "OWN", std::string("returned reference holds ") + vs(readBack));
    if (adds && !(t->wm.g >> comp & 1)) {
        t->wm.g |= 1u << comp;
        setOwn(t, cM);
    }
    doGWrite(t, comp, val);
}
void Model::obsGUnset(Txn *t, unsigned mask) {
    trace("T%d global Unset<%s>", t->id + 1, ms(mask).c_str());
    for (int g = 3; g < 5; g++)
        if ((mask >> g & 1) && (t->wm.g >> g & 1)) {
            t->wm.g &= ~(1u << g);
            setOwn(t, cM);
            t->removed++;
        }
}

ObsModel *Model::watch(Txn *t, int kind) {
    trace("T%d Watch kind %d", t->id + 1, kind);
    ObsModel *o = new ObsModel();
    o->world = t->world;
    o->kind = kind;
    o->pos = (int)w[t->world].m.size() - 1;
    return o;
}
void Model::stop(Txn *t, ObsModel *o) {
    trace("T%d Stop observer of kind %d", t->id + 1, o->kind);
    o->stopped = o->ended = true;
    o->rem.clear();
}
static std::string evs(const Ev &e) {
    return std::string(e.type == 1 ? "ADDED " : e.type == 2 ? "REMOVED " : "INVALID ") + hs(e.h) + " " + vs(e.stamp);
}
void Model::obsPoll(Txn *t, ObsModel *o, bool r, const Ev &e) {
    static const char *kn[] = {"entity", "A", "B", "C", "G", "H"};
    probe.polls++;
    if (!r) probe.emptyPolls++;
    if (verbose) trace("T%d Poll<%s> -> %s", t->id + 1, kn[o->kind], r ? evs(e).c_str() : "nothing");
    rt_hash(r ? e.h * 3 + e.stamp + e.type : 5);
    WorldModel &wm = w[t->world];
    if (t->unchecked) { // can not know which commits are visible: resynchronise by giving up on this observer
        o->stopped = true;
        o->pos = 1 << 20;
        return;
    }
    if (o->pos >= (1 << 20)) return;
    std::string d = "T" + std::to_string(t->id + 1) + " (" + permName(t->ps) + ") polling " + kn[o->kind] + " events got " +
                    (r ? evs(e) : "nothing");
    if (o->stopped) {
        if (r) fail("EVENT", "STOPPED", d + " from a stopped observer");
        return;
    }
    if (r && e.stamp == STAMP_TORN) fail("EVENT", "TORN", d);
    // first group with unconsumed events
    int g = -1;
    if (!o->rem.empty()) g = o->pos;
    else
        for (int v = o->pos + 1; v < (int)wm.m.size(); v++)
            if (!wm.m[v].ev[o->kind].empty()) {
                g = v;
                break;
            }
    const std::vector<Ev> *grp = g < 0 ? nullptr : (!o->rem.empty() ? &o->rem : &wm.m[g].ev[o->kind]);
    std::vector<Vers> next;
    if (r) {
        bool inFirst = grp && std::find(grp->begin(), grp->end(), e) != grp->end();
        for (auto &v : t->cand)
            if (inFirst && g <= v[cM]) next.push_back(v);
        if (next.empty()) {
            if (inFirst) {
                bool began = false;
                for (auto &v : t->beginCand)
                    began |= g <= v[cM];
                fail("EVENT", began ? "CUTOFF" : "FUTURE", d + " of a commit after the transaction's start");
            }
            for (auto &c : o->consumed)
                if (c == e) fail("EVENT", "DUP", d + " which it had already received");
            for (int v = g + 1; g >= 0 && v < (int)wm.m.size(); v++) {
                auto &l = wm.m[v].ev[o->kind];
                if (std::find(l.begin(), l.end(), e) != l.end()) fail("EVENT", "ORDER", d + " before " + evs((*grp)[0]));
            }
            for (int v = 0; v < (int)wm.m.size(); v++) {
                auto &l = wm.m[v].ev[o->kind];
                if (std::find(l.begin(), l.end(), e) != l.end()) fail("EVENT", "OLD", d + " of a commit before it was registered");
            }
            if (t->ar) {
                bool own = t->wm.valid(e.h) != wm.m.back().s->valid(e.h) || t->mDirty;
                if (own && e.type) fail("EVENT", "OWN", d + (grp ? " instead of " + evs((*grp)[0]) : " (nothing expected)"));
            }
            fail("EVENT", "WRONG", d + (grp ? " instead of " + evs((*grp)[0]) : " (nothing expected)"));
        }
        if (o->rem.empty()) {
            o->rem = *grp;
            o->pos = g;
        }
        o->rem.erase(std::find(o->rem.begin(), o->rem.end(), e));
        o->consumed.push_back(e);
    } else {
        for (auto &v : t->cand)
            if (g < 0 || g > v[cM]) next.push_back(v);
        if (next.empty()) fail("EVENT", "WITHHELD", d + " although " + evs((*grp)[0]) + " is due");
    }
    if (next.size() != t->cand.size()) {
        t->cand.swap(next);
        upd(t);
    }
}

void Model::finish() {
    // one instant per commit must explain what everybody saw
    for (Txn *u : txns) {
        if (u->world < 0 || !u->eret) continue;
        bool any = false;
        for (int x = 0; x < 6; x++)
            any |= u->newver[x] >= 0;
        if (!any) continue;
        uint64_t low = u->ecall, high = u->eret;
        Txn *lowBy = nullptr, *highBy = nullptr;
        for (Txn *r : txns) {
            if (r == u || r->world != u->world || !r->bret || r->unchecked) continue;
            bool all = true, none = true;
            for (auto &v : r->cand) {
                if (includes(v, u)) none = false;
                else
                    all = false;
            }
            if (all && r->bret < high) {
                high = r->bret;
                highBy = r;
            }
            if (none) {
                uint64_t l = r->bcall;
                if (u->ecall > r->bret && !r->ecall) l = r->bcall;
                for (int x = 0; x < 6; x++)
                    if (u->newver[x] >= 0 && r->holds(x) && r->ecall) l = std::max(l, r->ecall);
                if (l > low) {
                    low = l;
                    lowBy = r;
                }
            }
        }
        if (low > high) {
            fail("COMMIT", "INTERVAL",
                "commit of T" + std::to_string(u->id + 1) + " was seen by " +
                    (highBy ? "T" + std::to_string(highBy->id + 1) : std::string("its own end")) + " but not by " +
                    (lowBy ? "T" + std::to_string(lowBy->id + 1) : std::string("?")) + ", which is later or overlaps");
        }
    }
}

struct RetCtx {
    std::set<uint64_t> *ok;
    uint64_t bad;
    const void *where;
};
static void retCb(void *arg, void *ptr, size_t size, uint64_t, int) {
    RetCtx *c = (RetCtx *)arg;
    if (size != sizeof(Payload) || c->bad) return;
    Payload *p = (Payload *)ptr;
    if (p->magic != PAYLOAD_MAGIC + 2 && p->magic != PAYLOAD_MAGIC + 5) return;
    if (!c->ok->count(p->stamp)) {
        c->bad = p->stamp ? p->stamp : 1;
        c->where = ptr;
    }
}

void Model::retained(bool destroyed) {
    std::set<uint64_t> ok = failedValues;
    if (!destroyed) {
        for (auto &wm : w) {
            MState &m = *wm.m.back().s;
            for (uint32_t i = 0; i < m.e.size(); i++)
                if (m.e[i].alive && (m.e[i].bits & bB)) ok.insert(cat(*wm.c[cB].back().s, i));
            if (m.g & bH) ok.insert(cat(*wm.c[cH].back().s, 0));
            // undelivered events may hold any committed value
            for (auto &v : wm.m) {
                for (auto &e : v.ev[1 + cB])
                    ok.insert(e.stamp);
                for (auto &e : v.ev[1 + cH])
                    ok.insert(e.stamp);
            }
        }
    }
    RetCtx c{&ok, 0, nullptr};
    rt_live_blocks(retCb, &c);
    if (c.bad)
        fail("RETAIN", destroyed ? "LEAK" : "STALE",
            std::string("a copy of removed or overwritten value ") + vs(c.bad) + " is still alive in " + rt_describe_addr(c.where));
}

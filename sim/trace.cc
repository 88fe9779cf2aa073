// Oracle for recorded performance traces: compares the recorded events with the history the executor observed.
#include "exec.h"

#ifdef TECS_ENABLE_PERFORMANCE_TRACING
    #include <algorithm>
    #include <map>
    #include <sstream>

using Tecs::TraceEvent;
typedef TraceEvent::Type TT;

namespace {
struct Want { // what one transaction must leave behind in one stream
    bool write, mustCommit, mayCommit;
    int id;
};
struct Stream {
    std::string name;
    std::vector<TraceEvent> ev;
    bool complete = true; // nothing was left out for want of space
    std::map<uint64_t, std::vector<Want>> want; // per OS thread id, in program order
};
struct Checker {
    Exec &ex;
    int world;
    std::map<uint64_t, std::string> threads;

    [[noreturn]] void bad(const char *why, const std::string &d) {
        ex.model.fail("TRACE", why, d);
    }
    static std::string evs(const TraceEvent &e) {
        static const char *n[] = {"Invalid", "TransactionStart", "TransactionEnd", "ReadLockWait", "ReadLock", "ReadUnlock",
            "WriteLockWait", "WriteLock", "CommitLockWait", "CommitLock", "CommitUnlock", "WriteUnlock"};
        size_t k = (size_t)e.type;
        return k < 12 ? n[k] : "type " + std::to_string(k);
    }
    static uint64_t tid(const TraceEvent &e) {
        uint64_t v = 0;
        static_assert(sizeof(e.thread) == 8, "");
        memcpy(&v, &e.thread, 8);
        return v;
    }
    static int64_t ns(const TraceEvent &e) {
        return std::chrono::duration_cast<std::chrono::nanoseconds>(e.time.time_since_epoch()).count();
    }

    void common(Stream &s, int64_t lo, int64_t hi, bool txn) {
        if (s.ev.size() > TECS_PERFORMANCE_TRACING_MAX_EVENTS) bad("CAPACITY", s.name + ": more events than the capacity");
        std::map<uint64_t, int64_t> last;
        for (size_t i = 0; i < s.ev.size(); i++) {
            auto &e = s.ev[i];
            std::string at = s.name + " event " + std::to_string(i) + " (" + evs(e) + ")";
            if (e.type == TT::Invalid || (size_t)e.type > (size_t)TT::WriteUnlock) bad("INVALID", at + " was never recorded");
            bool isTxn = e.type == TT::TransactionStart || e.type == TT::TransactionEnd;
            if (isTxn != txn) bad("STREAM", at + " is in the wrong stream");
            if (!threads.count(tid(e))) bad("THREAD", at + " names a thread that does not exist");
            int64_t t = ns(e);
            if (t < lo || t > hi) bad("TIME", at + " has a time outside the trace: " + std::to_string(t));
            auto it = last.find(tid(e));
            if (it != last.end() && t < it->second) bad("TIME", at + ": time went backwards within " + threads[tid(e)]);
            last[tid(e)] = t;
        }
    }

    void transactions(Stream &s) {
        const bool complete = s.complete;
        std::map<uint64_t, size_t> n;
        size_t expect = 0;
        for (auto &w : s.want)
            expect += 2 * w.second.size();
        for (size_t i = 0; i < s.ev.size(); i++) {
            auto &e = s.ev[i];
            size_t k = n[tid(e)]++;
            TT want = k % 2 ? TT::TransactionEnd : TT::TransactionStart;
            if (e.type != want || k >= 2 * s.want[tid(e)].size())
                bad("ORDER", s.name + " event " + std::to_string(i) + " of " + threads[tid(e)] + " is " + evs(e) + ", not matching its transactions");
        }
        if (complete && s.ev.size() != expect)
            bad("LOST", s.name + ": " + std::to_string(s.ev.size()) + " events for " + std::to_string(expect / 2) + " transactions");
        if (!complete && expect < s.ev.size()) bad("EXTRA", s.name + ": more events than happened");
    }

    // [Wait] Lock Unlock units of one thread
    void perThread(Stream &s, uint64_t th, const std::vector<TraceEvent> &ev, const std::vector<Want> &want, bool complete) {
        struct Unit {
            bool write = false, commit = false;
        };
        std::vector<Unit> units;
        size_t i = 0;
        auto fail = [&](const char *why, const std::string &d) {
            bad(why, s.name + ", " + threads[th] + ": " + d);
        };
        auto more = [&]() {
            return i < ev.size();
        };
        bool open = false; // last unit incomplete (capacity exhausted)
        while (more()) {
            Unit u;
            open = true;
            bool wait = false, waitW = false;
            if (ev[i].type == TT::ReadLockWait || ev[i].type == TT::WriteLockWait) {
                wait = true;
                waitW = ev[i].type == TT::WriteLockWait;
                i++;
                if (!more()) break;
            }
            if (ev[i].type == TT::ReadLock && !(wait && waitW)) {
                i++;
                if (more()) {
                    if (ev[i].type != TT::ReadUnlock) fail("ORDER", "ReadLock is followed by " + evs(ev[i]));
                    i++;
                    open = false;
                }
            } else if (ev[i].type == TT::WriteLock && !(wait && !waitW)) {
                u.write = true;
                i++;
                if (more() && (ev[i].type == TT::CommitLockWait || ev[i].type == TT::CommitLock)) {
                    if (ev[i].type == TT::CommitLockWait) {
                        i++;
                        if (more() && ev[i].type != TT::CommitLock) fail("ORDER", "CommitLockWait is followed by " + evs(ev[i]));
                    }
                    if (more()) {
                        i++; // CommitLock
                        u.commit = true;
                        if (more()) {
                            if (ev[i].type != TT::CommitUnlock) fail("ORDER", "CommitLock is followed by " + evs(ev[i]));
                            i++;
                        }
                    }
                }
                if (more()) {
                    if (ev[i].type != TT::WriteUnlock) fail("ORDER", "a write lock is followed by " + evs(ev[i]));
                    i++;
                    open = false;
                }
            } else {
                fail("ORDER", (wait ? "a wait is followed by " : "unexpected ") + evs(ev[i]));
            }
            units.push_back(u);
        }
        if (complete && open) fail("LOST", "the last lock is never unlocked");
        if (!complete) {
            // a prefix: can not contain more committed changes than happened
            size_t c = 0, m = 0;
            for (auto &u : units)
                c += u.commit;
            for (auto &w : want)
                m += w.mayCommit;
            if (c > m) fail("EXTRA", "more commits than happened");
            return;
        }
        // match units with transactions: each transaction has any number of rolled back units, then its final one
        std::vector<char> reach(units.size() + 1, 0), nxt;
        reach[0] = 1;
        for (auto &w : want) {
            nxt.assign(units.size() + 1, 0);
            for (size_t p = 0; p < units.size(); p++) {
                if (!reach[p]) continue;
                for (size_t q = p; q < units.size() && units[q].write == w.write; q++) {
                    if ((!w.mustCommit || units[q].commit) && (w.mayCommit || !units[q].commit)) nxt[q + 1] = 1;
                    if (units[q].commit) break; // a commit ends the transaction
                }
            }
            reach.swap(nxt);
        }
        if (!reach[units.size()]) {
            std::string d = std::to_string(units.size()) + " recorded locks (";
            for (auto &u : units)
                d += u.commit ? 'C' : u.write ? 'W' : 'R';
            d += ") do not match " + std::to_string(want.size()) + " transactions (";
            for (auto &w : want)
                d += w.mustCommit ? 'C' : w.write ? (w.mayCommit ? 'w' : 'W') : 'R';
            fail(units.size() < want.size() ? "LOST" : "MISMATCH", d + ")");
        }
    }

    void locks(Stream &s) {
        const bool complete = s.complete;
        std::map<uint64_t, std::vector<TraceEvent>> per;
        for (auto &e : s.ev)
            per[tid(e)].push_back(e);
        for (auto &p : per) {
            if (!s.want.count(p.first)) bad("EXTRA", s.name + ": events of " + threads[p.first] + " that never locked it");
        }
        for (auto &w : s.want)
            perThread(s, w.first, per[w.first], w.second, complete);
        // recorded order across threads
        uint64_t writer = 0, committing = 0;
        int readers = 0;
        for (size_t i = 0; i < s.ev.size(); i++) {
            auto &e = s.ev[i];
            std::string at = s.name + " event " + std::to_string(i) + " (" + evs(e) + " of " + threads[tid(e)] + ")";
            switch (e.type) {
            case TT::ReadLock:
                if (committing) bad("RULES", at + ": read lock during a commit");
                readers++;
                break;
            case TT::ReadUnlock: readers--; break;
            case TT::WriteLock:
                if (writer) bad("RULES", at + ": second write lock");
                writer = tid(e);
                break;
            case TT::WriteUnlock:
                if (writer != tid(e)) bad("RULES", at + ": unlocked by another thread");
                writer = committing = 0;
                break;
            case TT::CommitLock:
                if (readers) bad("RULES", at + ": commit while " + std::to_string(readers) + " read locks are held");
                if (writer != tid(e)) bad("RULES", at + ": commit without write lock");
                committing = tid(e);
                break;
            case TT::CommitUnlock: committing = 0; break;
            default: break;
            }
        }
    }

    void csv(Tecs::PerformanceTrace &tr, std::vector<Stream *> &all) {
        std::string text;
        {
            RtSut s;
            std::ostringstream out;
            tr.SetThreadName("named", s_first(all));
            tr.SaveToCSV(out);
            std::string t = out.str();
            RtHarness h;
            text = std::string(t.data(), t.size());
        }
        std::vector<std::vector<std::string>> rows;
        size_t p = 0;
        while (p < text.size()) {
            size_t e = text.find('\n', p);
            if (e == std::string::npos) e = text.size();
            std::vector<std::string> cells;
            size_t c = p;
            while (true) {
                size_t k = text.find(',', c);
                if (k == std::string::npos || k > e) k = e;
                cells.push_back(text.substr(c, k - c));
                if (k >= e) break;
                c = k + 1;
            }
            rows.push_back(cells);
            p = e + 1;
        }
        if (rows.empty()) bad("CSV", "the exported trace is empty");
        uint64_t named = s_first_raw(all);
        for (size_t s = 0; s < all.size(); s++)
            for (size_t i = 0; i < all[s]->ev.size(); i++) {
                auto &e = all[s]->ev[i];
                auto cell = [&](size_t k) {
                    return i + 1 < rows.size() && s * 3 + k < rows[i + 1].size() ? rows[i + 1][s * 3 + k] : std::string("(missing)");
                };
                std::string who = tid(e) == named ? "named" : std::to_string(tid(e));
                if (cell(0) != evs(e) || cell(1) != who || cell(2) != std::to_string(ns(e)))
                    bad("CSV", all[s]->name + " row " + std::to_string(i) + " is " + cell(0) + "," + cell(1) + "," + cell(2) + ", expected " + evs(e) + "," + who + "," + std::to_string(ns(e)));
            }
        size_t most = 0;
        for (auto *s : all)
            most = std::max(most, s->ev.size());
        for (size_t r = most + 1; r < rows.size(); r++)
            for (auto &c : rows[r])
                if (!c.empty()) bad("CSV", "extra data after the last event");
    }
    static std::thread::id s_first(std::vector<Stream *> &all) {
        return all[0]->ev.empty() ? std::thread::id() : all[0]->ev[0].thread;
    }
    static uint64_t s_first_raw(std::vector<Stream *> &all) {
        return all[0]->ev.empty() ? 0 : tid(all[0]->ev[0]);
    }
};
} // namespace

void checkTrace(Exec &ex, int world, Tecs::PerformanceTrace &tr, const Exec::Tracing &from) {
    Checker c{ex, world, {}};
    bool failedStart = false;
    c.threads[rt_os_thread_id(0)] = "the main thread";
    for (auto *t : ex.threads)
        if (t->tid >= 0) c.threads[rt_os_thread_id(t->fiber)] = "thread " + std::to_string(t->tid);

    Stream txns{"transactions", {}, true, {}};
    std::map<uint64_t, int64_t> skip; // the transactions of a thread that were running when the trace started have ended
    Stream st[6];
    static const int order[5] = {cG, cA, cB, cH, cC}; // declaration order of the components
    auto copy = [&](Stream &s, const nonstd::span<TraceEvent> &src) {
        for (size_t i = 0; i < src.size(); i++)
            s.ev.push_back(src[i]);
    };
    copy(txns, tr.transactionEvents);
    st[0].name = "entity table";
    copy(st[0], tr.metadataEvents);
    if (tr.componentEvents.size() != 5 || tr.componentNames.size() != 5)
        ex.model.fail("TRACE", "STREAM", "wrong number of component streams");
    for (int i = 0; i < 5; i++) {
        st[1 + i].name = std::string("component ") + "ABCGH"[order[i]];
        copy(st[1 + i], tr.componentEvents[i]);
        static const char *names[5] = {"G", "A", "B", "H", nullptr};
        if (names[i] && tr.componentNames[i] != names[i]) ex.model.fail("TRACE", "STREAM", "component stream " + std::to_string(i) + " is called " + std::string(tr.componentNames[i].c_str()));
    }
    for (Txn *t : ex.model.txns) {
        if (t->world != world || (t->eret && t->eret < from.call)) continue;
        if (!t->bret) {
            failedStart = true;
            continue;
        }
        uint64_t th = rt_os_thread_id(t->tid < 0 ? 0 : ex.threads[(size_t)t->tid]->fiber);
        if (t->bcall < from.ret) {
            skip[th] = std::max(skip[th], (int64_t)t->endClock);
            continue;
        }
        txns.want[th].push_back(Want{});
        st[0].want[th].push_back(Want{t->ar, t->ar && t->mDirty, t->ar, t->id});
        for (int i = 0; i < 5; i++) {
            int x = order[i];
            bool w = t->wr >> x & 1, r = t->rd >> x & 1;
            if (w || r) st[1 + i].want[th].push_back(Want{w, w && t->cDirty[x], w, t->id});
        }
    }
    int64_t lo = (int64_t)from.clock, hi = (int64_t)rt_clock_ns();
    c.common(txns, lo, hi, true);
    for (auto &s : st)
        c.common(s, lo, hi, false);
    std::vector<Stream *> all = {&txns};
    for (auto &s : st)
        all.push_back(&s);
    c.csv(tr, all);
    ex.model.probe.traces++;
    ex.model.probe.midTraces += !skip.empty();
    for (auto *s : all) {
        ex.model.probe.traceEvents += s->ev.size();
        if (s->ev.size() >= TECS_PERFORMANCE_TRACING_MAX_EVENTS) ex.model.probe.traceOverflows++;
    }
    if (failedStart) return;
    for (auto *s : all) {
        s->complete = s->ev.size() < TECS_PERFORMANCE_TRACING_MAX_EVENTS;
        s->ev.erase(std::remove_if(s->ev.begin(), s->ev.end(), [&](const TraceEvent &e) {
                        auto it = skip.find(Checker::tid(e));
                        return it != skip.end() && Checker::ns(e) <= it->second;
                    }), s->ev.end());
    }
    c.transactions(txns);
    for (auto &s : st)
        c.locks(s);
}
#endif

// Driver: runs seeds, replays files, minimises failures.  Nothing here may live in static storage: the runtime resets
// .data and .bss before every run.
#include "exec.h"

#include <algorithm>
#include <chrono>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <sstream>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <sys/syscall.h>
#include <unistd.h>

#ifndef SIM_FLAVOR
    #define SIM_FLAVOR "default"
#endif

namespace {
struct Arg {
    const Program *prog;
    bool verbose;
    Exec *ex;
};
void body(void *a) {
    Arg *g = (Arg *)a;
    rt_sut(0);
    Exec *ex = new Exec();
    g->ex = ex;
    ex->prog = *g->prog;
    ex->model.verbose = g->verbose;
    ex->runAll();
}
struct Result {
    int status;
    std::string cls, msg;
    uint64_t hash;
};

Result runOne(const Program &p, const RtCfg &cfg, bool verbose, Exec **ex = nullptr) {
    Arg a{&p, verbose, nullptr};
    struct itimerval it {};
    it.it_value.tv_sec = 120;
    setitimer(ITIMER_REAL, &it, nullptr);
    Result r;
    r.status = rt_run(&cfg, body, &a);
    it.it_value.tv_sec = 0;
    setitimer(ITIMER_REAL, &it, nullptr);
    if (r.status) {
        r.cls = rt_violation_class();
        r.msg = rt_violation_msg();
    }
    r.hash = rt_stats()->run_hash;
    if (ex) *ex = a.ex;
    return r;
}

std::string jsonStr(const std::string &s) {
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') {
            o += '\\';
            o += (char)c;
        } else if (c == '\n') {
            o += "\\n";
        } else if (c < 32 || c > 126) {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", c);
            o += b;
        } else {
            o += (char)c;
        }
    }
    return o + "\"";
}

double nowS() {
    struct timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return ts.tv_sec + ts.tv_nsec * 1e-9;
}

struct Replay {
    std::string profile, cls, msg, origin;
    uint64_t seed = 0, hash = 0;
    RtCfg cfg;
    Program prog;
    std::vector<RtDecision> dec;
};
const char *kindNames[] = {"?", "switch", "weakfail", "spurwake", "stall", "clock", "wakepick", "choose", "yieldstay"};

void writeReplay(const std::string &path, const Replay &r) {
    FILE *f = fopen(path.c_str(), "w");
    if (!f) {
        perror(path.c_str());
        exit(2);
    }
    fprintf(f, "tecs-sim-replay 1\nflavor %s\nprofile %s\nseed %llu\nclass %s\n", SIM_FLAVOR, r.profile.c_str(), (unsigned long long)r.seed, r.cls.c_str());
    std::string m = r.msg;
    std::replace(m.begin(), m.end(), '\n', ' ');
    fprintf(f, "message %s\norigin %s\nhash %016llx\n", m.c_str(), r.origin.c_str(), (unsigned long long)r.hash);
    const RtCfg &c = r.cfg;
    fprintf(f, "cfg seed=%llu chaos=%llu fair=%llu mode=%u p_switch=%u pct_depth=%u pct_len=%u plain=%u weak=%u spur=%u stall=%u clock=%u race=%d detect=%d script=%d\n",
        (unsigned long long)c.seed, (unsigned long long)c.chaos_steps, (unsigned long long)c.fair_steps, c.mode, c.p_switch, c.pct_depth, c.pct_len, c.plain_log2,
        c.p_weak, c.p_spur, c.p_stall, c.p_clock, c.race_fatal, c.detect_races, c.script);
    fputs(programText(r.prog).c_str(), f);
    fprintf(f, "decisions %zu\n", r.dec.size());
    for (auto &d : r.dec)
        fprintf(f, "%llu %s %u\n", (unsigned long long)d.step, kindNames[d.kind], d.val);
    fprintf(f, "end\n");
    fclose(f);
}
bool readReplay(const std::string &path, Replay &r) {
    std::ifstream in(path);
    std::string line, prog;
    bool dec = false, ended = false;
    while (std::getline(in, line)) {
        unsigned long long a, b, c;
        char name[64];
        unsigned v;
        if (dec) {
            if (line == "end") {
                ended = true;
                break;
            }
            if (sscanf(line.c_str(), "%llu %63s %u", &a, name, &v) == 3)
                for (uint32_t k = 1; k <= 8; k++)
                    if (!strcmp(name, kindNames[k])) r.dec.push_back(RtDecision{a, k, v});
            continue;
        }
        auto val = [&](const char *k) {
            return line.substr(strlen(k) + 1);
        };
        if (!line.compare(0, 8, "profile ")) r.profile = val("profile");
        else if (!line.compare(0, 6, "class "))
            r.cls = val("class");
        else if (!line.compare(0, 8, "message "))
            r.msg = val("message");
        else if (!line.compare(0, 7, "origin "))
            r.origin = val("origin");
        else if (sscanf(line.c_str(), "seed %llu", &a) == 1)
            r.seed = a;
        else if (sscanf(line.c_str(), "hash %llx", &a) == 1)
            r.hash = a;
        else if (!line.compare(0, 4, "cfg ")) {
            RtCfg &q = r.cfg;
            int x, y, z;
            if (sscanf(line.c_str(), "cfg seed=%llu chaos=%llu fair=%llu mode=%u p_switch=%u pct_depth=%u pct_len=%u plain=%u weak=%u spur=%u stall=%u clock=%u race=%d detect=%d script=%d",
                    &a, &b, &c, &q.mode, &q.p_switch, &q.pct_depth, &q.pct_len, &q.plain_log2, &q.p_weak, &q.p_spur, &q.p_stall, &q.p_clock, &x, &y, &z) != 15)
                return false;
            q.seed = a;
            q.chaos_steps = b;
            q.fair_steps = c;
            q.race_fatal = x;
            q.detect_races = y;
            q.script = z;
        } else if (!line.compare(0, 10, "decisions ")) {
            dec = true;
        } else {
            prog += line + "\n";
        }
    }
    if (!ended || !parseProgram(prog, r.prog)) return false;
    return true;
}
void link(Replay &r) {
    if (r.cfg.script) {
        r.cfg.decisions = r.dec.data();
        r.cfg.n_decisions = r.dec.size();
    }
}

void limits() {
    struct rlimit rl {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
}

// Run in a child process; returns false if it died.
struct Shared {
    int status;
    uint64_t hash;
    char cls[64], msg[1000];
    size_t n_dec;
    RtDecision dec[200000];
};
bool runChild(Shared *sh, const Program &p, const RtCfg &cfg) {
    sh->status = -1;
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0) {
        Result r = runOne(p, cfg, false);
        sh->hash = r.hash;
        snprintf(sh->cls, sizeof sh->cls, "%s", r.cls.c_str());
        snprintf(sh->msg, sizeof sh->msg, "%s", r.msg.c_str());
        size_t n;
        const RtDecision *d = rt_decisions(&n);
        sh->n_dec = n > 200000 ? 200001 : n;
        memcpy(sh->dec, d, std::min<size_t>(n, 200000) * sizeof *d);
        sh->status = r.status;
        _exit(0);
    }
    int st;
    waitpid(pid, &st, 0);
    return sh->status >= 0;
}

// Which attempts count as the same failure.
bool same(const std::string &a, const std::string &b) {
    return a == b;
}

struct Minimiser {
    Replay best;
    Shared *sh;
    double deadline;
    uint64_t attempts = 0, retry = 0;

    bool attempt(const Program &p, RtCfg cfg, const std::vector<RtDecision> *dec) {
        attempts++;
        if (dec) {
            cfg.script = true;
            cfg.decisions = dec->data();
            cfg.n_decisions = dec->size();
        } else {
            cfg.script = false;
            cfg.decisions = nullptr;
            cfg.n_decisions = 0;
        }
        if (!runChild(sh, p, cfg)) return false;
        if (sh->status != RT_VIOLATION || !same(sh->cls, best.cls) || sh->n_dec > 200000) return false;
        best.prog = p;
        best.hash = sh->hash;
        best.msg = sh->msg;
        // the decisions that were really taken, without those that had no effect
        if (dec) best.dec = *dec;
        else
            best.dec.assign(sh->dec, sh->dec + sh->n_dec);
        while (!best.dec.empty() && best.dec.back().step > 1ull << 40)
            best.dec.pop_back();
        best.cfg = cfg;
        best.cfg.script = true;
        best.cfg.decisions = nullptr;
        best.cfg.n_decisions = 0;
        return true;
    }
    bool timeUp() {
        return nowS() > deadline;
    }
    // a smaller program: the old schedule, then none, then fresh ones
    bool tryProgram(const Program &p, int fresh) {
        if (timeUp()) return false;
        RtCfg cfg = best.cfg;
        std::vector<RtDecision> d = best.dec, none;
        if (attempt(p, cfg, &d)) return true;
        if (!d.empty() && attempt(p, cfg, &none)) return true;
        for (int i = 0; i < fresh && !timeUp(); i++) {
            RtCfg c = cfg;
            c.script = false;
            c.seed = cfg.seed + 7919 * ++retry;
            if (attempt(p, c, nullptr)) return true;
        }
        return false;
    }
    void program(int fresh) {
        bool again = true;
        while (again && !timeUp()) {
            again = false;
            for (size_t i = best.prog.threads.size(); i-- > 0;) {
                if (best.prog.threads[i].empty()) continue;
                Program p = best.prog;
                p.threads[i].clear();
                again |= tryProgram(p, fresh);
            }
            for (size_t i = 0; i < best.prog.threads.size(); i++)
                for (size_t k = best.prog.threads[i].size(); k-- > 0;) {
                    if (best.prog.threads[i].size() <= k) continue;
                    Program p = best.prog;
                    p.threads[i].erase(p.threads[i].begin() + (long)k);
                    again |= tryProgram(p, fresh);
                }
            for (size_t k = best.prog.setup.size(); k-- > 0;) {
                Program p = best.prog;
                p.setup.erase(p.setup.begin() + (long)k);
                again |= tryProgram(p, fresh);
            }
            for (size_t i = 0; i <= best.prog.threads.size(); i++) {
                auto list = [&](Program &p) -> std::vector<TxnProg> & {
                    return i < p.threads.size() ? p.threads[i] : p.setup;
                };
                for (size_t k = list(best.prog).size(); k-- > 0;) {
                    size_t n = list(best.prog)[k].ops.size();
                    for (size_t len = n; len >= 1; len /= 2)
                        for (size_t a = 0; a + len <= list(best.prog)[k].ops.size();) {
                            if (timeUp()) return;
                            Program p = best.prog;
                            auto &v = list(p)[k].ops;
                            v.erase(v.begin() + (long)a, v.begin() + (long)(a + len));
                            if (tryProgram(p, fresh)) again = true;
                            else
                                a += len;
                        }
                }
            }
            if (best.prog.flags) {
                for (int b = 1; b <= 64; b *= 2)
                    if (best.prog.flags & b) {
                        Program p = best.prog;
                        p.flags &= ~b;
                        tryProgram(p, 0);
                    }
            }
        }
    }
    void schedule() {
        std::vector<RtDecision> none;
        if (best.dec.empty()) return;
        if (attempt(best.prog, best.cfg, &none)) return;
        size_t chunk = std::max<size_t>(1, best.dec.size() / 2);
        while (!timeUp()) {
            bool any = false;
            for (size_t a = 0; a < best.dec.size() && !timeUp();) {
                std::vector<RtDecision> d = best.dec;
                size_t e = std::min(d.size(), a + chunk);
                d.erase(d.begin() + (long)a, d.begin() + (long)e);
                if (attempt(best.prog, best.cfg, &d)) any = true;
                else
                    a += chunk;
            }
            if (chunk == 1) {
                if (!any) break;
            } else {
                chunk = std::max<size_t>(1, chunk / 2);
            }
        }
    }
};

const char *opt(int argc, char **argv, const char *name, const char *def) {
    for (int i = 2; i + 1 < argc; i++)
        if (!strcmp(argv[i], name)) return argv[i + 1];
    return def;
}

int cmdRun(int argc, char **argv) {
    std::string profile = opt(argc, argv, "--profile", "mix");
    uint64_t start = strtoull(opt(argc, argv, "--start", "1"), nullptr, 10);
    uint64_t stride = strtoull(opt(argc, argv, "--stride", "1"), nullptr, 10);
    uint64_t count = strtoull(opt(argc, argv, "--count", "1000"), nullptr, 10);
    double limit = atof(opt(argc, argv, "--time", "1e9"));
    bool raceFatal = atoi(opt(argc, argv, "--races", "0"));
    bool hashes = atoi(opt(argc, argv, "--hashes", "0"));
    std::string orders = opt(argc, argv, "--orders", "");
    int maxViol = atoi(opt(argc, argv, "--max-violations", "40"));
    std::string progress = opt(argc, argv, "--progress", "");
    if (!knownProfile(profile)) {
        fprintf(stderr, "unknown profile %s\n", profile.c_str());
        return 2;
    }
    double t0 = nowS(), last = t0;
    uint64_t runs = 0, viol = 0, shown = 0, txns = 0, opsTotal = 0, fairRuns = 0, fairMax = 0, progMax = 0, blockedRuns = 0;
    RtStats sum{};
    uint64_t ops[OP_COUNT] = {}, tx[NPS] = {};
    decltype(Model::probe) pr{};
    std::vector<uint64_t> orderSet;
    std::map<std::string, int> perClass;
    FILE *pf = progress.empty() ? nullptr : fopen(progress.c_str(), "w");
    for (uint64_t i = 0; i < count; i++) {
        double now = nowS();
        if (now - t0 > limit) break;
        uint64_t seed = start + i * stride;
        if (pf) {
            rewind(pf);
            fprintf(pf, "%-20llu\n", (unsigned long long)seed);
            fflush(pf);
        }
        Program p;
        RtCfg cfg;
        generate(profile, seed, p, cfg);
        cfg.race_fatal = cfg.detect_races = raceFatal;
        Exec *ex = nullptr;
        Result r = runOne(p, cfg, false, &ex);
        runs++;
        RtStats *s = rt_stats();
        if (hashes) printf("{\"t\":\"h\",\"seed\":%llu,\"hash\":\"%016llx\"}\n", (unsigned long long)seed, (unsigned long long)r.hash);
        {
            uint64_t *a = (uint64_t *)&sum, *b = (uint64_t *)s;
            for (size_t k = 0; k < sizeof(RtStats) / 8; k++)
                a[k] += b[k];
        }
        if (s->blocked_waits) blockedRuns++;
        if (s->steps > cfg.chaos_steps) {
            fairRuns++;
            fairMax = std::max(fairMax, s->steps - cfg.chaos_steps);
        }
        progMax = std::max<uint64_t>(progMax, programOps(p));
        orderSet.push_back(s->order_hash);
        if (ex) {
            for (int k = 0; k < OP_COUNT; k++) {
                ops[k] += ex->opCount[k];
            }
            for (int k = 0; k < NPS; k++) {
                tx[k] += ex->txnCount[k];
                txns += ex->txnCount[k];
            }
            opsTotal += ex->opsDone;
            uint64_t *a = (uint64_t *)&pr, *b = (uint64_t *)&ex->model.probe;
            for (size_t k = 0; k < sizeof(pr) / 8; k++)
                a[k] += b[k];
        }
        if (r.status) {
            viol++;
            int &n = perClass[r.cls];
            if (n++ < 3 && shown < 60) {
                shown++;
                printf("{\"t\":\"v\",\"seed\":%llu,\"class\":%s,\"hash\":\"%016llx\",\"msg\":%s}\n", (unsigned long long)seed, jsonStr(r.cls).c_str(),
                    (unsigned long long)r.hash, jsonStr(r.msg).c_str());
                fflush(stdout);
            }
            if ((int)viol >= maxViol && !hashes) break;
        }
        if (now - last > 5) last = now;
    }
    std::string pc = "{";
    for (auto &k : perClass)
        pc += (pc.size() > 1 ? "," : "") + jsonStr(k.first) + ":" + std::to_string(k.second);
    pc += "}";
    if (!orders.empty()) {
        std::sort(orderSet.begin(), orderSet.end());
        orderSet.erase(std::unique(orderSet.begin(), orderSet.end()), orderSet.end());
        FILE *f = fopen(orders.c_str(), "wb");
        if (f) {
            fwrite(orderSet.data(), 8, orderSet.size(), f);
            fclose(f);
        }
    }
    std::string o = "{";
    for (int k = 0; k < OP_COUNT; k++)
        if (ops[k]) o += std::string(o.size() > 1 ? "," : "") + "\"" + opNames[k] + "\":" + std::to_string(ops[k]);
    o += "}";
    std::string tp = "{";
    for (int k = 0; k < NPS; k++)
        if (tx[k]) tp += std::string(tp.size() > 1 ? "," : "") + jsonStr(permName(k)) + ":" + std::to_string(tx[k]);
    tp += "}";
    printf("{\"t\":\"s\",\"profile\":%s,\"flavor\":%s,\"runs\":%llu,\"violations\":%llu,\"classes\":%s,\"wall\":%.3f,"
           "\"steps\":%llu,\"atomics\":%llu,\"plain\":%llu,\"switches\":%llu,\"preempts\":%llu,\"futex_waits\":%llu,\"futex_wakes\":%llu,\"yields\":%llu,"
           "\"blocked_waits\":%llu,\"blocked_runs\":%llu,\"sim_ns\":%llu,\"races\":%llu,\"allocs\":%llu,\"frees\":%llu,"
           "\"fault_weak_cas\":%llu,\"fault_spurious_wake\":%llu,\"fault_stall\":%llu,\"fault_clock_jump\":%llu,\"fault_alloc\":%llu,\"fault_copy_throw\":%llu,\"fault_freeze\":%llu,"
           "\"fair_runs\":%llu,\"fair_max\":%llu,\"prog_max\":%llu,\"txns\":%llu,\"ops\":%llu,\"op_counts\":%s,\"txn_counts\":%s,",
        jsonStr(profile).c_str(), jsonStr(SIM_FLAVOR).c_str(), (unsigned long long)runs, (unsigned long long)viol, pc.c_str(), nowS() - t0,
        (unsigned long long)sum.steps, (unsigned long long)sum.atomics, (unsigned long long)sum.plain, (unsigned long long)sum.switches,
        (unsigned long long)sum.preempts, (unsigned long long)sum.futex_waits, (unsigned long long)sum.futex_wakes, (unsigned long long)sum.yields,
        (unsigned long long)sum.blocked_waits, (unsigned long long)blockedRuns, (unsigned long long)sum.sim_ns, (unsigned long long)sum.races,
        (unsigned long long)sum.allocs, (unsigned long long)sum.frees, (unsigned long long)sum.f_weak, (unsigned long long)sum.f_spur,
        (unsigned long long)sum.f_stall, (unsigned long long)sum.f_clock, (unsigned long long)sum.f_alloc, (unsigned long long)sum.f_throw,
        (unsigned long long)sum.f_freeze, (unsigned long long)fairRuns, (unsigned long long)fairMax, (unsigned long long)progMax,
        (unsigned long long)txns, (unsigned long long)opsTotal, o.c_str(), tp.c_str());
#define PR(x) (unsigned long long)pr.x
    printf("\"probe\":{\"observations\":%llu,\"multi_candidate\":%llu,\"unchecked_txns\":%llu,\"commits\":%llu,\"structural_commits\":%llu,\"events\":%llu,"
           "\"polls\":%llu,\"empty_polls\":%llu,\"new_entities\":%llu,\"reused_slots\":%llu,\"growths\":%llu,\"rejected_ops\":%llu,\"faults_hit\":%llu,"
           "\"dyn_granted\":%llu,\"dyn_denied\":%llu,\"nest_rejected\":%llu,\"view_checks\":%llu,\"traces\":%llu,\"trace_events\":%llu,\"trace_overflows\":%llu,\"mid_traces\":%llu}}\n",
        PR(obs), PR(multiCand), PR(uncheckedTxns), PR(commits), PR(mcommits), PR(events), PR(polls), PR(emptyPolls), PR(newEnts), PR(reused), PR(growths),
        PR(errors), PR(faultsHit), PR(dynGranted), PR(dynDenied), PR(nestRejected), PR(viewChecks), PR(traces), PR(traceEvents), PR(traceOverflows), PR(midTraces));
    if (pf) fclose(pf);
    return viol ? 1 : 0;
}

int cmdReplay(int argc, char **argv) {
    Replay r;
    if (argc < 3 || !readReplay(argv[2], r)) {
        fprintf(stderr, "cannot read the replay file\n");
        return 2;
    }
    bool verbose = argc > 3 && !strcmp(argv[3], "-v");
    link(r);
    if (verbose) printf("%s", programText(r.prog).c_str());
    Result q = runOne(r.prog, r.cfg, verbose);
    printf("{\"t\":\"r\",\"status\":%d,\"class\":%s,\"hash\":\"%016llx\",\"expected_class\":%s,\"expected_hash\":\"%016llx\",\"msg\":%s}\n", q.status,
        jsonStr(q.cls).c_str(), (unsigned long long)q.hash, jsonStr(r.cls).c_str(), (unsigned long long)r.hash, jsonStr(q.msg).c_str());
    return q.status && q.cls == r.cls && q.hash == r.hash ? 1 : q.status ? 3 : 0;
}

int cmdOne(int argc, char **argv) { // one generated seed -> full replay file
    std::string profile = opt(argc, argv, "--profile", "mix");
    uint64_t seed = strtoull(opt(argc, argv, "--seed", "1"), nullptr, 10);
    std::string out = opt(argc, argv, "--out", "");
    bool verbose = atoi(opt(argc, argv, "--verbose", "0"));
    Replay r;
    generate(profile, seed, r.prog, r.cfg);
    r.cfg.race_fatal = r.cfg.detect_races = atoi(opt(argc, argv, "--races", "0"));
    r.profile = profile;
    r.seed = seed;
    if (verbose) printf("%s", programText(r.prog).c_str());
    Result q = runOne(r.prog, r.cfg, verbose);
    r.cls = q.cls;
    r.msg = q.msg;
    r.hash = q.hash;
    size_t n;
    const RtDecision *d = rt_decisions(&n);
    r.dec.assign(d, d + n);
    r.cfg.script = true;
    r.origin = "generated";
    if (!out.empty()) writeReplay(out, r);
    printf("{\"t\":\"r\",\"status\":%d,\"class\":%s,\"hash\":\"%016llx\",\"steps\":%llu,\"decisions\":%zu,\"msg\":%s}\n", q.status, jsonStr(q.cls).c_str(),
        (unsigned long long)q.hash, (unsigned long long)rt_stats()->steps, n, jsonStr(q.msg).c_str());
    return q.status ? 1 : 0;
}

int cmdMin(int argc, char **argv) {
    Minimiser m;
    if (!readReplay(opt(argc, argv, "--in", ""), m.best)) return 2;
    double limit = atof(opt(argc, argv, "--time", "30"));
    m.deadline = nowS() + limit;
    m.sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    size_t d0 = m.best.dec.size(), o0 = programOps(m.best.prog);
    std::vector<RtDecision> d = m.best.dec;
    if (!m.attempt(m.best.prog, m.best.cfg, &d)) {
        printf("{\"t\":\"m\",\"ok\":0}\n");
        return 2;
    }
    double end = m.deadline;
    m.deadline = nowS() + limit * 0.6;
    m.program(3);
    m.deadline = nowS() + (end - nowS()) * 0.7;
    m.schedule();
    m.deadline = end;
    m.program(0);
    m.schedule();
    // exactly what a replay will produce
    d = m.best.dec;
    if (!m.attempt(m.best.prog, m.best.cfg, &d)) {
        printf("{\"t\":\"m\",\"ok\":0}\n");
        return 2;
    }
    char b[100];
    snprintf(b, sizeof b, "minimised from %zu operations and %zu decisions", o0, d0);
    m.best.origin = b;
    writeReplay(opt(argc, argv, "--out", "/dev/null"), m.best);
    printf("{\"t\":\"m\",\"ok\":1,\"ops0\":%zu,\"ops\":%zu,\"dec0\":%zu,\"dec\":%zu,\"attempts\":%llu,\"msg\":%s}\n", o0, programOps(m.best.prog), d0,
        m.best.dec.size(), (unsigned long long)m.attempts, jsonStr(m.best.msg).c_str());
    return 0;
}
} // namespace

int main(int argc, char **argv) {
    limits();
    rt_init();
    rt_snapshot();
    std::string c = argc > 1 ? argv[1] : "";
    if (c == "run") return cmdRun(argc, argv);
    if (c == "replay") return cmdReplay(argc, argv);
    if (c == "one") return cmdOne(argc, argv);
    if (c == "min") return cmdMin(argc, argv);
    if (c == "flavor") {
        puts(SIM_FLAVOR);
        return 0;
    }
    fprintf(stderr, "usage: sim run|replay|one|min|flavor ...\n");
    return 2;
}

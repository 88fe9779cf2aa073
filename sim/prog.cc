// Program generation, printing and parsing.
#include "prog.h"
#include "comps.h"
#include "rt.h"

#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <sstream>

const char *opNames[OP_COUNT] = {
#define X(n) #n,
    OPS(X)
#undef X
};

std::string programText(const Program &p) {
    std::string s;
    char b[200];
    snprintf(b, sizeof b, "program %d %d %zu\n", p.nworlds, p.flags, p.threads.size());
    s += b;
    auto txn = [&](const char *tag, const TxnProg &t) {
        snprintf(b, sizeof b, "%s perm=%d world=%d fault=%d repeat=%d # %s\n", tag, t.perm, t.world, t.fault, t.repeat, permName(t.perm));
        s += b;
        for (auto &o : t.ops) {
            snprintf(b, sizeof b, "  op %s %d %d %d %d\n", opNames[o.code], o.via, o.a, o.b, o.c);
            s += b;
        }
    };
    for (auto &t : p.setup)
        txn("setup", t);
    for (size_t i = 0; i < p.threads.size(); i++)
        for (auto &t : p.threads[i]) {
            char tag[32];
            snprintf(tag, sizeof tag, "thread %zu", i);
            txn(tag, t);
        }
    return s;
}

bool parseProgram(const std::string &text, Program &out) {
    out = Program();
    TxnProg *cur = nullptr;
    std::istringstream in(text);
    std::string line;
    while (std::getline(in, line)) {
        int a, b, c, d, th;
        unsigned n;
        char name[64];
        if (sscanf(line.c_str(), "program %d %d %u", &a, &b, &n) == 3) {
            out.nworlds = a;
            out.flags = b;
            out.threads.resize(n);
        } else if (sscanf(line.c_str(), "setup perm=%d world=%d fault=%d repeat=%d", &a, &b, &c, &d) == 4) {
            out.setup.push_back(TxnProg{(int16_t)a, (int16_t)b, (int16_t)c, (int16_t)d, {}});
            cur = &out.setup.back();
        } else if (sscanf(line.c_str(), "thread %d perm=%d world=%d fault=%d repeat=%d", &th, &a, &b, &c, &d) == 5) {
            if (th < 0 || th >= (int)out.threads.size()) return false;
            out.threads[th].push_back(TxnProg{(int16_t)a, (int16_t)b, (int16_t)c, (int16_t)d, {}});
            cur = &out.threads[th].back();
        } else if (sscanf(line.c_str(), " op %63s %d %d %d %d", name, &a, &b, &c, &d) == 5) {
            int k = -1;
            for (int i = 0; i < OP_COUNT; i++)
                if (!strcmp(opNames[i], name)) k = i;
            if (k < 0 || !cur) return false;
            cur->ops.push_back(Op{(uint8_t)k, (uint8_t)a, (int16_t)b, (int16_t)c, (int16_t)d});
        }
    }
    return true;
}

size_t programOps(const Program &p) {
    size_t n = 0;
    for (auto &t : p.setup)
        n += 1 + t.ops.size();
    for (auto &th : p.threads)
        for (auto &t : th)
            n += 1 + t.ops.size();
    return n;
}

// ---------------------------------------------------------------------------------------------------------------------
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t x) : s(x * 0x9e3779b97f4a7c15ull + 0x1234567890abcdefull) {
        for (int i = 0; i < 4; i++)
            next();
    }
    uint64_t next() {
        s ^= s << 13;
        s ^= s >> 7;
        s ^= s << 17;
        return s * 0x2545f4914f6cdd1dull;
    }
    uint32_t below(uint32_t n) {
        return n ? (uint32_t)((next() >> 32) % n) : 0;
    }
    bool chance(uint32_t pct) {
        return below(100) < pct;
    }
    int range(int a, int b) {
        return a + (int)below((uint32_t)(b - a + 1));
    }
};

struct Prof {
    int w[OP_COUNT] = {};
    int ps[NPS] = {};
    int thrMin = 2, thrMax = 4;
    int txnMin = 1, txnMax = 5;
    int opMin = 1, opMax = 7;
    int worlds = 1;
    int pBad = 8;      // chance of a handle that can not be valid
    int pVia = 30;     // chance of going through a derived lock
    int pFault = 0;    // chance of a fault before an operation
    int pStartFault = 0;
    int pThrow = 6;
    int pDestroyAll = 40;
    int pTrace = 0;
    int setupEnts = 6;
    int pSparse = 8;   // chance of a setup with many entities and few components
    int pSettle = 60;
    int pHammer = 0;   // chance of a run of many short transactions
    int pDuel = 0;     // chance of a small run: one thread changes, the others look at everything
    int ptrdiffs = 0;
    int kinds = 0; // restrict components
};

static bool psEnabled(int ps);

static void psSet(Prof &f, std::initializer_list<int> l, int v) {
    for (int i : l)
        f.ps[i] = v;
}

static Prof base() {
    Prof f;
    for (int i = 0; i < NPS; i++)
        f.ps[i] = 2;
    f.ps[4] = 5;
    f.ps[17] = 5;
    f.ps[18] = 14;
    psSet(f, {20, 24, 25}, 5);
    int *w = f.w;
    w[OP_NEW] = 8;
    w[OP_EXISTS] = 4;
    w[OP_HAS] = 4;
    w[OP_GET] = 8;
    w[OP_GETM] = 4;
    w[OP_PREV] = 3;
    w[OP_SET] = 12;
    w[OP_UNSET] = 5;
    w[OP_DESTROY] = 5;
    w[OP_LIST] = 4;
    w[OP_LISTGET] = 4;
    w[OP_UNSETREF] = 1;
    w[OP_DESTROYREF] = 1;
    w[OP_LOOP] = 1;
    w[OP_VIEW] = 1;
    w[OP_VCHECK] = 1;
    w[OP_VRANGE] = 1;
    w[OP_GGET] = 3;
    w[OP_GGETM] = 1;
    w[OP_GPREV] = 1;
    w[OP_GSET] = 3;
    w[OP_GUNSET] = 1;
    w[OP_GHAS] = 2;
    w[OP_WATCH] = 1;
    w[OP_POLL] = 1;
    w[OP_STOP] = 1;
    w[OP_NEST] = 1;
    w[OP_DYN] = 1;
    w[OP_COPY] = 1;
    w[OP_YIELD] = 4;
    w[OP_RMW] = 5;
    w[OP_FULL] = 1;
    return f;
}

static void clearW(Prof &f) {
    for (int i = 0; i < OP_COUNT; i++)
        f.w[i] = 0;
}

static bool makeProf(const std::string &n, Prof &f, Rng &r) {
    f = base();
    int *w = f.w;
    if (n == "mix") {
        f.worlds = r.chance(10) ? 2 : 1;
        if (f.worlds > 1) w[OP_NESTW] = 2;
        w[OP_WORLD] = r.chance(15);
        return true;
    }
    if (n == "C01") {
        f.pDuel = 35;
        w[OP_FULL] = 5;
        w[OP_LISTGET] = 8;
        w[OP_GET] = 14;
        w[OP_YIELD] = 8;
        w[OP_WATCH] = w[OP_POLL] = w[OP_STOP] = w[OP_NEST] = w[OP_VRANGE] = 0;
        f.ps[4] = 12;
        psSet(f, {0, 1, 2, 3, 15, 19, 22}, 4);
        return true;
    }
    if (n == "C02") {
        f.pDuel = 50;
        w[OP_FULL] = 8;
        w[OP_LISTGET] = 8;
        w[OP_WATCH] = w[OP_POLL] = w[OP_STOP] = w[OP_NEST] = w[OP_VRANGE] = w[OP_LOOP] = 0;
        f.ps[4] = 16;
        f.ps[17] = 10;
        f.ps[18] = 18;
        psSet(f, {0, 3, 15, 7, 12, 21, 19}, 4);
        f.opMin = 2;
        f.opMax = 8;
        return true;
    }
    if (n == "C03") {
        clearW(f);
        w[OP_RMW] = 20;
        w[OP_SET] = 6;
        w[OP_GETM] = 4;
        w[OP_GSET] = 3;
        w[OP_GGETM] = 4;
        w[OP_GET] = 4;
        w[OP_NEW] = 3;
        w[OP_UNSET] = w[OP_DESTROY] = 1;
        w[OP_YIELD] = 4;
        w[OP_FULL] = 1;
        f.opMax = 4;
        f.txnMin = 2;
        f.txnMax = 8;
        psSet(f, {0, 1, 2, 3, 15, 22}, 1);
        psSet(f, {5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 16, 17, 19, 21, 23}, 5);
        f.setupEnts = 3;
        f.pSparse = 25;
        f.pSettle = 90;
        f.pBad = 2;
        return true;
    }
    if (n == "C04") {
        f.pDuel = 10;
        f.pVia = 60;
        w[OP_PREV] = 10;
        w[OP_GPREV] = 5;
        w[OP_DYN] = 5;
        w[OP_VIEW] = 3;
        w[OP_VCHECK] = 3;
        w[OP_FULL] = 3;
        f.opMin = 4;
        f.opMax = 14;
        f.txnMax = 3;
        psSet(f, {18, 20, 24, 25}, 12);
        return true;
    }
    if (n == "C05") {
        w[OP_COPY] = 10;
        w[OP_FULL] = 3;
        f.pThrow = 45;
        f.opMin = 2;
        f.txnMax = 4;
        f.ps[4] = 10;
        return true;
    }
    if (n == "C06") {
        f.worlds = r.chance(15) ? 2 : 1;
        if (f.worlds > 1) w[OP_NESTW] = 2;
        w[OP_POLL] = 5;
        w[OP_WATCH] = 3;
        w[OP_LOOP] = 2;
        w[OP_VIEW] = w[OP_VCHECK] = 3;
        f.thrMax = 5;
        f.pTrace = 100;
        return true;
    }
    if (n == "C07") {
        clearW(f);
        w[OP_GET] = 3;
        w[OP_RMW] = 6;
        w[OP_SET] = 6;
        w[OP_NEW] = 3;
        w[OP_DESTROY] = 1;
        w[OP_GSET] = 3;
        w[OP_GGET] = 1;
        w[OP_YIELD] = 3;
        f.opMin = 0;
        f.opMax = 2;
        f.thrMin = 2;
        f.thrMax = 6;
        f.txnMin = 2;
        f.txnMax = 8;
        f.setupEnts = 3;
        for (int i = 0; i < NPS; i++)
            f.ps[i] = 4;
        f.pHammer = 30;
        return true;
    }
    if (n == "C10") {
        w[OP_NEW] = 30;
        w[OP_DESTROY] = 20;
        w[OP_EXISTS] = 15;
        w[OP_DESTROYREF] = 4;
        w[OP_LOOP] = 2;
        f.pBad = 30;
        f.worlds = r.chance(40) ? 2 : 1;
        w[OP_WORLD] = 2;
        f.opMin = 2;
        f.opMax = 12;
        f.txnMax = 6;
        psSet(f, {18, 20, 24, 25}, 14);
        return true;
    }
    if (n == "C11") {
        f.pDuel = 20;
        w[OP_LIST] = 20;
        w[OP_LISTGET] = 12;
        w[OP_HAS] = 10;
        w[OP_EXISTS] = 6;
        w[OP_VRANGE] = 5;
        w[OP_FULL] = 5;
        w[OP_UNSET] = w[OP_DESTROY] = 9;
        f.pVia = 40;
        f.opMin = 3;
        f.opMax = 12;
        psSet(f, {18, 20, 24, 25}, 12);
        return true;
    }
    if (n == "C12") {
        w[OP_VIEW] = 12;
        w[OP_VCHECK] = 14;
        w[OP_LOOP] = 12;
        w[OP_UNSETREF] = 12;
        w[OP_DESTROYREF] = 10;
        w[OP_UNSET] = w[OP_DESTROY] = 8;
        w[OP_NEW] = 10;
        f.opMin = 4;
        f.opMax = 14;
        f.thrMin = 1;
        f.thrMax = 3;
        f.txnMax = 4;
        f.pDestroyAll = 20;
        psSet(f, {18, 20, 24, 25}, 20);
        f.setupEnts = 9;
        return true;
    }
    if (n == "C13" || n == "C14") {
        f.pDuel = 40;
        w[OP_WATCH] = 8;
        w[OP_POLL] = n == "C14" ? 24 : 12;
        w[OP_STOP] = 2;
        w[OP_NEST] = w[OP_VRANGE] = 0;
        w[OP_GSET] = 5;
        w[OP_GUNSET] = 5;
        w[OP_UNSET] = w[OP_DESTROY] = 8;
        f.txnMin = 2;
        f.txnMax = 6;
        psSet(f, {18, 20, 24, 25}, n == "C13" ? 14 : 8);
        return true;
    }
    if (n == "C15") {
        f.pBad = 45;
        w[OP_VRANGE] = 10;
        w[OP_NEST] = 8;
        w[OP_GGET] = w[OP_GGETM] = w[OP_GPREV] = 5;
        w[OP_PREV] = 6;
        w[OP_UNSET] = w[OP_DESTROY] = 7;
        f.pVia = 40;
        f.opMin = 3;
        f.opMax = 10;
        f.setupEnts = 4;
        return true;
    }
    if (n == "C16") {
        f.pFault = 45;
        f.pStartFault = 25;
        f.pThrow = 20;
        w[OP_NEW] = 16;
        w[OP_SET] = 18;
        w[OP_GETM] = 8;
        w[OP_GSET] = 8;
        w[OP_GGETM] = 6;
        w[OP_UNSET] = 8;
        w[OP_GUNSET] = 3;
        w[OP_FULL] = 3;
        w[OP_WATCH] = 3;
        w[OP_POLL] = 3;
        f.opMin = 3;
        f.opMax = 10;
        f.thrMin = 1;
        f.thrMax = 3;
        psSet(f, {18, 20, 24, 25}, 14);
        return true;
    }
    if (n == "C17") {
        f.worlds = r.range(1, 5);
        w[OP_NEST] = 15;
        w[OP_NESTW] = 12;
        w[OP_DEEP] = 10;
        f.pStartFault = 15;
        f.pThrow = 25;
        f.opMax = 5;
        f.setupEnts = 3;
        return true;
    }
    if (n == "C18") {
        w[OP_DYN] = 30;
        f.pVia = 60;
        f.opMin = 3;
        f.opMax = 10;
        f.thrMin = 1;
        f.thrMax = 3;
        f.pThrow = 30;
        psSet(f, {3, 4, 7, 8, 9, 10, 12, 17, 18, 19, 20, 21, 24, 25}, 8);
        return true;
    }
    if (n == "C19") {
        f.pDuel = 40;
        clearW(f);
        w[OP_GGET] = 12;
        w[OP_GGETM] = 10;
        w[OP_GPREV] = 6;
        w[OP_GSET] = 12;
        w[OP_GUNSET] = 8;
        w[OP_GHAS] = 10;
        w[OP_WATCH] = 3;
        w[OP_POLL] = 6;
        w[OP_NEW] = 1;
        w[OP_SET] = 2;
        w[OP_DYN] = 1;
        w[OP_YIELD] = 5;
        w[OP_COPY] = 1;
        f.pVia = 35;
        psSet(f, {10, 11, 12, 13, 15, 17, 21}, 6);
        psSet(f, {18, 20, 24, 25}, 10);
        psSet(f, {0, 1, 2, 3, 5, 6, 7, 8, 9, 14, 16, 22, 23}, 1);
        f.setupEnts = 2;
        f.txnMin = 2;
        return true;
    }
    if (n == "C20") {
        f.pTrace = 100;
        f.opMax = 3;
        f.txnMax = 6;
        w[OP_NEST] = 3;
        w[OP_FULL] = 0;
        f.worlds = r.chance(20) ? 2 : 1;
        if (f.worlds > 1) w[OP_NESTW] = 3;
        for (int i = 0; i < NPS; i++)
            f.ps[i] = 4;
        return true;
    }
    if (n == "C21") {
        w[OP_UNSET] = w[OP_DESTROY] = 10;
        w[OP_GUNSET] = 5;
        w[OP_WATCH] = 3;
        w[OP_POLL] = 3;
        w[OP_LOOP] = 3;
        f.pDestroyAll = 100;
        f.pFault = r.chance(30) ? 15 : 0;
        f.pStartFault = r.chance(30) ? 10 : 0;
        psSet(f, {18, 20, 24, 25}, 14);
        psSet(f, {6, 12, 14, 16, 17}, 6);
        return true;
    }
    if (n == "C22") {
        clearW(f);
        w[OP_NEST] = 6;
        w[OP_COPY] = 10;
        w[OP_GET] = 4;
        w[OP_RMW] = 4;
        w[OP_YIELD] = 3;
        w[OP_NESTW] = 6;
        w[OP_DEEP] = 4;
        w[OP_DYN] = 2;
        f.worlds = r.range(1, 4);
        w[OP_WORLD] = 3;
        f.pStartFault = 15;
        f.opMin = 0;
        f.opMax = 2;
        f.txnMin = 3;
        f.txnMax = 10;
        f.thrMax = 6;
        f.setupEnts = 2;
        return true;
    }
    if (n == "C23") {
        f.worlds = r.range(2, 4);
        w[OP_NESTW] = 8;
        w[OP_WORLD] = 5;
        w[OP_EXISTS] = 8;
        w[OP_WATCH] = w[OP_POLL] = 4;
        f.pBad = 30;
        f.txnMax = 6;
        return true;
    }
    if (n == "C08" || n == "C09") return true;
    return false;
}

bool knownProfile(const std::string &n) {
    Prof f;
    Rng r(1);
    return makeProf(n, f, r);
}

static bool psEnabled(int ps) {
    (void)ps;
    return PS_ENABLED(ps);
}

static int pickPs(Rng &r, const Prof &f) {
    int total = 0;
    for (int i = 0; i < NPS; i++)
        if (psEnabled(i)) total += f.ps[i];
    int k = (int)r.below((uint32_t)total);
    for (int i = 0; i < NPS; i++) {
        if (!psEnabled(i)) continue;
        k -= f.ps[i];
        if (k < 0) return i;
    }
    return 18;
}

static int handleArg(Rng &r, const Prof &f) {
    if (r.chance((uint32_t)f.pBad)) return -(int)(1 + r.below(7));
    if (r.chance(75)) return (int)r.below(12);
    return 64 + (int)r.below(64);
}
static int viaArg(Rng &r, const Prof &f) {
    if (!r.chance((uint32_t)f.pVia)) return 0;
    static const int v[] = {1, 1, 2, 2, 3, 3, 5};
    return v[r.below(7)];
}

static Op genOp(Rng &r, const Prof &f, const PermInfo &pi) {
    int total = 0;
    for (int i = 0; i < OP_COUNT; i++)
        total += f.w[i];
    for (int attempt = 0; attempt < 50; attempt++) {
        int k = (int)r.below((uint32_t)total);
        int c = 0;
        for (; c < OP_COUNT; c++) {
            k -= f.w[c];
            if (k < 0) break;
        }
        Op o;
        o.code = (uint8_t)c;
        auto compFrom = [&](unsigned mask) {
            int n = 0, s[3];
            for (int i = 0; i < 3; i++)
                if (mask >> i & 1) s[n++] = i;
            return n ? s[r.below((uint32_t)n)] : -1;
        };
        switch (c) {
        case OP_NEW:
            if (!pi.ar) continue;
            break;
        case OP_EXISTS:
        case OP_HAS:
            o.via = (uint8_t)viaArg(r, f);
            o.a = (int16_t)handleArg(r, f);
            o.b = (int16_t)(1 + r.below(7));
            o.c = (int16_t)r.chance(25);
            break;
        case OP_GET:
        case OP_PREV: {
            int x = compFrom(pi.rd & 7);
            if (x < 0) continue;
            o.via = (uint8_t)viaArg(r, f);
            o.a = (int16_t)handleArg(r, f);
            o.b = (int16_t)x;
            break;
        }
        case OP_GETM:
        case OP_SET:
        case OP_RMW: {
            int x = compFrom(pi.wr & 7);
            if (x < 0) continue;
            o.via = (uint8_t)(r.chance(70) ? 0 : viaArg(r, f));
            o.a = (int16_t)handleArg(r, f);
            o.b = (int16_t)x;
            o.c = (int16_t)r.below(6);
            break;
        }
        case OP_UNSET:
            if (!pi.ar) continue;
            o.a = (int16_t)handleArg(r, f);
            o.b = (int16_t)(1 + r.below(7));
            break;
        case OP_DESTROY:
            if (!pi.ar) continue;
            o.a = (int16_t)handleArg(r, f);
            o.b = (int16_t)r.below(2);
            break;
        case OP_UNSETREF:
            if (!pi.ar) continue;
            o.a = (int16_t)r.below(4);
            o.b = (int16_t)r.below(32);
            o.c = (int16_t)(1 + r.below(7));
            break;
        case OP_DESTROYREF:
            if (!pi.ar) continue;
            o.a = (int16_t)r.below(4);
            o.b = (int16_t)r.below(32);
            break;
        case OP_LOOP:
            if (!pi.ar) continue;
            o.a = (int16_t)r.below(4);
            o.b = (int16_t)r.below(2);
            o.c = (int16_t)r.below(30000);
            break;
        case OP_LIST:
        case OP_LISTGET:
        case OP_VIEW:
            o.via = (uint8_t)viaArg(r, f);
            o.a = (int16_t)r.below(4);
            o.b = (int16_t)(r.chance(50) ? r.below(8) : r.below(1024));
            o.c = (int16_t)r.chance(25);
            break;
        case OP_VCHECK: o.a = (int16_t)(r.chance(50) ? r.below(8) : r.below(1024)); break;
        case OP_VRANGE:
            o.via = (uint8_t)viaArg(r, f);
            o.a = (int16_t)r.below(4);
            o.b = (int16_t)r.below(13);
            o.c = (int16_t)r.below(8);
            break;
        case OP_GGET:
        case OP_GPREV:
            if (!(pi.rd & (bG | bH))) continue;
            o.via = (uint8_t)viaArg(r, f);
            o.a = (int16_t)((pi.rd & bG) && (!(pi.rd & bH) || r.chance(50)) ? 0 : 1);
            break;
        case OP_GGETM:
        case OP_GSET:
            if (!(pi.wr & (bG | bH))) continue;
            o.via = (uint8_t)(r.chance(70) ? 0 : viaArg(r, f));
            o.a = (int16_t)((pi.wr & bG) && (!(pi.wr & bH) || r.chance(50)) ? 0 : 1);
            o.c = (int16_t)r.below(3);
            break;
        case OP_GUNSET:
            if (!pi.ar) continue;
            o.b = (int16_t)r.below(3);
            break;
        case OP_GHAS:
            o.via = (uint8_t)viaArg(r, f);
            o.b = (int16_t)r.below(3);
            o.c = (int16_t)r.chance(25);
            break;
        case OP_WATCH:
            if (!pi.ar) continue;
            o.a = (int16_t)r.below(6);
            break;
        case OP_POLL:
            o.via = (uint8_t)viaArg(r, f);
            o.a = (int16_t)(r.chance(50) ? -1 : (int)r.below(8));
            o.b = (int16_t)(r.chance(50) ? 0 : (int)r.below(4));
            o.c = (int16_t)r.below(2);
            break;
        case OP_STOP:
            if (!pi.ar) continue;
            o.a = (int16_t)r.below(8);
            o.b = (int16_t)r.below(2);
            break;
        case OP_NEST: o.a = (int16_t)pickPs(r, f); break;
        case OP_WORLD:
            o.a = (int16_t)r.below(4);
            o.b = (int16_t)r.below(8);
            break;
        case OP_NESTW:
            o.a = (int16_t)pickPs(r, f);
            o.b = (int16_t)r.below(4);
            o.c = (int16_t)r.below(30000);
            break;
        case OP_DEEP:
            o.a = (int16_t)r.below(2);
            o.b = (int16_t)r.below(2);
            break;
        case OP_DYN:
            o.via = (uint8_t)r.chance(25);
            o.a = (int16_t)r.below(NDYN_ENABLED);
            o.b = (int16_t)r.below(4);
            break;
        case OP_COPY:
            o.via = (uint8_t)viaArg(r, f);
            o.a = (int16_t)r.below(2);
            break;
        default: break;
        }
        return o;
    }
    Op o;
    o.code = OP_YIELD;
    return o;
}

static TxnProg genTxn(Rng &r, const Prof &f, int ps, int world) {
    TxnProg t;
    t.perm = (int16_t)ps;
    t.world = (int16_t)world;
    if (f.pStartFault && r.chance((uint32_t)f.pStartFault)) t.fault = (int16_t)(1 + r.below(14));
    int n = r.range(f.opMin, f.opMax);
    for (int i = 0; i < n; i++) {
        Op o = genOp(r, f, permTable[ps]);
        if (f.pFault && r.chance((uint32_t)f.pFault)) {
            Op q;
            q.code = OP_FAULT;
            q.a = (int16_t)(r.chance(60) ? 0 : r.below(12));
            q.b = (int16_t)r.chance(30);
            t.ops.push_back(q);
        }
        t.ops.push_back(o);
    }
    if (r.chance((uint32_t)f.pThrow)) {
        Op o;
        o.code = OP_THROW;
        o.a = (int16_t)r.below(2);
        t.ops.push_back(o);
    }
    return t;
}

static Op mk(int code, int a = 0, int b = 0, int c = 0, int via = 0) {
    Op o;
    o.code = (uint8_t)code;
    o.via = (uint8_t)via;
    o.a = (int16_t)a;
    o.b = (int16_t)b;
    o.c = (int16_t)c;
    return o;
}

static void genSetup(Rng &r, const Prof &f, Program &p) {
    for (int w = 0; w < p.nworlds; w++) {
        TxnProg t;
        t.perm = 18;
        t.world = (int16_t)w;
        int n = (int)r.below((uint32_t)(f.setupEnts + 1));
        uint32_t dens[3] = {55, 55, 55};
        if (r.chance((uint32_t)f.pSparse)) { // many entities, few of them with a component
            n = r.range(8, 30);
            static const uint32_t d[] = {4, 8, 14, 25, 80};
            for (auto &x : dens)
                x = d[r.below(5)];
        }
        for (int i = 0; i < n; i++) {
            t.ops.push_back(mk(OP_NEW));
            for (int c = 0; c < 3; c++)
                if (r.chance(dens[c])) t.ops.push_back(mk(OP_SET, 0, c, (int)r.below(3)));
        }
        for (int g = 0; g < 2; g++)
            if (r.chance(50)) t.ops.push_back(mk(OP_GSET, g));
        if (n || r.chance(50)) p.setup.push_back(t);
        if (n > 2 && r.chance(40)) {
            TxnProg d;
            d.perm = 18;
            d.world = (int16_t)w;
            int k = (int)r.below(3) + 1;
            for (int i = 0; i < k; i++)
                d.ops.push_back(mk(OP_DESTROY, (int)r.below((uint32_t)n), 1));
            if (r.chance(50)) d.ops.push_back(mk(OP_NEW));
            p.setup.push_back(d);
        }
    }
}

static void swarm(Rng &r, RtCfg &c, size_t ops, size_t txns) {
    uint32_t k = r.below(10);
    c.mode = k < 5 ? 0 : k < 8 ? 1 : 2;
    static const uint32_t ps[] = {16, 64, 128, 256, 512, 900};
    c.p_switch = ps[r.below(6)];
    c.pct_depth = 1 + r.below(12);
    c.pct_len = 200 + r.below(1 + (uint32_t)ops * 60);
    static const uint32_t pf[] = {0, 0, 0, 0, 1, 1, 1, 2, 2, 2};
    c.focus = pf[r.below(10)];
    if (c.focus) c.pct_len = c.focus == 1 ? 30 + r.below(1 + (uint32_t)txns * 60) : 200 + r.below(1 + (uint32_t)txns * 400);
    c.plain_log2 = r.chance(55) ? 0 : 3 + r.below(7);
    static const uint32_t pw[] = {0, 0, 20, 120, 400};
    c.p_weak = pw[r.below(5)];
    static const uint32_t psu[] = {0, 0, 5, 40, 150};
    c.p_spur = psu[r.below(5)];
    static const uint32_t pst[] = {0, 0, 30, 200, 1000};
    c.p_stall = pst[r.below(5)];
    static const uint32_t pcl[] = {0, 0, 50, 500};
    c.p_clock = pcl[r.below(4)];
    c.chaos_steps = r.chance(70) ? 40000 : 2000 + r.below(20000);
    c.fair_steps = 1500000;
}

// -- C08: writers frozen in the middle of their changes; everybody who does not conflict must get through -------------
static void genFreeze(Rng &r, Program &p, Prof &f) {
    p.nworlds = r.chance(15) ? 2 : 1;
    genSetup(r, f, p);
    int nf = r.range(1, 2), nr = r.range(1, 3);
    p.threads.resize((size_t)(nf + nr));
    unsigned fw = 0, fro = 0;
    bool far = false;
    int rmask = 0;
    for (int i = nf; i < nf + nr; i++)
        rmask |= 1 << i;
    for (int i = 0; i < nf; i++) {
        int ps = 0;
        for (int k = 0; k < 60; k++) {
            ps = pickPs(r, f);
            const PermInfo &pi = permTable[ps];
            if ((pi.wr & fw) || (pi.ar && far)) continue;
            if (i == 0 && !pi.wr && !pi.ar && r.chance(60)) continue;
            break;
        }
        const PermInfo &pi = permTable[ps];
        if ((pi.wr & fw) || (pi.ar && far)) ps = 0;
        const PermInfo &q = permTable[ps];
        fw |= q.wr;
        fro |= q.rd & ~q.wr;
        far |= q.ar;
        Prof g = f;
        TxnProg t;
        t.perm = (int16_t)ps;
        int n = r.range(0, 5);
        for (int k = 0; k < n; k++)
            t.ops.push_back(genOp(r, g, q));
        t.ops.push_back(mk(OP_WAITT, rmask));
        if (r.chance(50)) t.ops.push_back(mk(OP_FULL));
        p.threads[(size_t)i].push_back(t);
    }
    // the others: at most `wr & ~fw`, and no commit that must wait for a frozen reader
    int fmask = (1 << nf) - 1;
    for (int i = nf; i < nf + nr; i++) {
        int nt = r.range(1, 4);
        bool gate = r.chance(70);
        for (int k = 0; k < nt; k++) {
            int ps = 0, world = 0;
            bool other = p.nworlds > 1 && r.chance(60);
            bool noop = false;
            const bool structural = !far && !fw && r.chance(20);
            for (int a = 0; a < 80; a++) {
                ps = pickPs(r, f);
                const PermInfo &q = permTable[ps];
                if (other) break; // anything goes on another instance
                if (structural && !q.ar && a < 40) continue;
                if ((q.wr & fw) || (q.ar && far)) continue;
                noop = q.ar || (q.wr & fro);
                break;
            }
            const PermInfo &q = permTable[ps];
            if (!other && ((q.wr & fw) || (q.ar && far))) {
                ps = 4;
                noop = false;
            }
            if (other) {
                world = 1;
                noop = false;
            }
            TxnProg t;
            t.perm = (int16_t)ps;
            t.world = (int16_t)world;
            int n = r.range(1, 4);
            const PermInfo &pi = permTable[ps];
            const bool values = noop && pi.ar && (31u & ~fro) && r.chance(60); // changes values, but not what there is
            for (int j = 0; j < n; j++) {
                if (values && (j == 0 || r.chance(40))) {
                    int c = (int)r.below(5);
                    while (fro >> c & 1)
                        c = (c + 1) % 5;
                    t.ops.push_back(mk(OP_POKE, (int)r.below(20), c, (int)r.below(4)));
                    continue;
                }
                PermInfo lim = pi;
                if (noop) { // write permission on something a frozen reader looks at: must not touch it
                    lim.wr &= ~fro;
                    lim.ar = false;
                    if (pi.ar) lim.wr = 0;
                }
                Op o = genOp(r, f, lim);
                if (noop && pi.ar && (o.code == OP_DYN || o.code == OP_NEST)) o = mk(OP_YIELD);
                if (noop && (o.code == OP_SET || o.code == OP_RMW || o.code == OP_GETM || o.code == OP_GSET || o.code == OP_GGETM) && pi.ar)
                    o = mk(OP_YIELD);
                t.ops.push_back(o);
            }
            if (k == 0 && gate) {
                TxnProg w;
                w.perm = 0;
                w.world = 0;
                // waits inside a transaction without any component permission until the writers are frozen
                w.ops.push_back(mk(OP_WAITF, fmask));
                p.threads[(size_t)i].push_back(w);
            }
            p.threads[(size_t)i].push_back(t);
        }
    }
}

// -- C08: a commit that waits for a reader; what its transaction did not touch must be available meanwhile ---------------
static bool genStuck(Rng &r, Program &p, Prof &f) {
    static const unsigned all = 7 | bG | bH;
    int pw = -1, pr = -1;
    unsigned touch = 0;
    for (int a = 0; a < 300 && pr < 0; a++) {
        int w = pickPs(r, f), q = pickPs(r, f);
        const PermInfo &wi = permTable[w], &ri = permTable[q];
        unsigned wr = wi.wr & all;
        if (wi.ar || ri.ar || ri.wr || !(wr & ri.rd) || !(wr & (wr - 1))) continue; // at least two may be written
        unsigned t = wr & r.below(all + 1);
        if (!(t & ri.rd) || t == wr) continue;
        pw = w;
        pr = q;
        touch = t;
    }
    if (pr < 0) return false;
    std::vector<int> others;
    const PermInfo &wi = permTable[pw], &ri = permTable[pr];
    for (int i = 0; i < NPS; i++) {
        const PermInfo &q = permTable[i];
        if (!psEnabled(i) || q.ar || ((q.rd | q.wr) & touch) || (q.wr & (ri.rd | (wi.rd & ~wi.wr)))) continue;
        others.push_back(i);
        if (q.wr & wi.wr)
            for (int k = 0; k < 3; k++)
                others.push_back(i);
    }
    if (others.empty()) return false;
    p.nworlds = 1;
    genSetup(r, f, p);
    int nr = r.range(1, 3), mask = 0;
    p.threads.resize((size_t)(2 + nr));
    for (int i = 2; i < 2 + nr; i++)
        mask |= 1 << i;
    {
        TxnProg t;
        t.perm = (int16_t)pr;
        t.ops.push_back(mk(OP_WAITT, mask));
        t.ops.push_back(mk(OP_FULL));
        p.threads[0].push_back(t);
    }
    {
        TxnProg w; // starts when the reader has started
        w.perm = (int16_t)pw;
        if (r.chance(80)) w.ops.push_back(mk(OP_WAITF, 1));
        PermInfo lim = wi;
        lim.wr = touch;
        int n = r.range(2, 5);
        for (int k = 0; k < n; k++) {
            Op o = genOp(r, f, lim);
            if (o.code == OP_DYN || o.code == OP_NEST) o = mk(OP_YIELD);
            w.ops.push_back(o);
        }
        if (touch & (bG | bH)) w.ops.push_back(mk(OP_GSET, touch & bG ? 0 : 1));
        for (int c = 0; c < 3; c++)
            if (touch >> c & 1) w.ops.push_back(mk(OP_SET, (int)r.below(4), c));
        p.threads[1].push_back(w);
    }
    for (int i = 2; i < 2 + nr; i++) {
        int nt = r.range(1, 4);
        for (int k = 0; k < nt; k++) {
            TxnProg t;
            t.perm = (int16_t)others[r.below((uint32_t)others.size())];
            int n = r.range(1, 4);
            for (int j = 0; j < n; j++)
                t.ops.push_back(genOp(r, f, permTable[t.perm]));
            if (k == 0 && r.chance(80)) {
                TxnProg w;
                w.perm = 0;
                w.ops.push_back(mk(OP_WAITF, 1));
                int d = r.range(0, 6);
                for (int j = 0; j < d; j++)
                    w.ops.push_back(mk(OP_YIELD));
                p.threads[(size_t)i].push_back(w);
            }
            p.threads[(size_t)i].push_back(t);
        }
    }
    return true;
}

// -- C07: very many short transactions of few kinds: windows of a few instructions between two commits -----------------
static void genHammer(Rng &r, Prof &f, Program &p) {
    p.nworlds = 1;
    f.setupEnts = std::min(f.setupEnts, 2);
    f.pSparse = 0;
    genSetup(r, f, p);
    int kinds[3], comp = (int)r.below(9);
    const bool meta = comp >= 5; // the list of entities rather than a component
    unsigned bit = comp < 3 ? 1u << comp : comp == 3 ? (unsigned)bG : comp == 4 ? (unsigned)bH : 0;
    for (int k = 0; k < 3; k++)
        for (int a = 0; a < 200; a++) { // 0, 1: may change the component, 2: looks at it
            kinds[k] = pickPs(r, f);
            const PermInfo &q = permTable[kinds[k]];
            if (meta) {
                if (q.ar == (k < 2)) break;
            } else if (k < 2 ? (q.wr & bit) || (q.ar && r.chance(30)) : (q.rd & bit) && !q.wr && !q.ar) break;
        }
    int nw = r.range(1, 3), nr = r.chance(70) ? 1 : 2;
    p.threads.resize((size_t)(nw + nr));
    int per = r.range(8, 40) / nw + 2;
    for (int i = 0; i < nw + nr; i++) {
        int n = i < nw ? per : r.range(per / 2, per);
        for (int k = 0; k < n; k++) {
            TxnProg t;
            t.perm = (int16_t)kinds[i >= nw ? 2 : r.chance(70) ? 0 : 1];
            if (i < nw && meta && r.chance(90)) {
                t.ops.push_back(r.chance(60) ? mk(OP_NEW) : r.chance(50) ? mk(OP_DESTROY, (int)r.below(8)) : mk(OP_UNSET, (int)r.below(8), 7));
            } else if (i < nw && permTable[t.perm].wr & bit && r.chance(90)) {
                if (comp < 3) t.ops.push_back(mk(OP_SET, 0, comp));
                else t.ops.push_back(mk(OP_GSET, comp - 3));
            }
            p.threads[(size_t)i].push_back(t);
        }
    }
}

// -- one thread changes things, the others look at everything ---------------------------------------------------------
static void genDuel(Rng &r, Prof &f, Program &p) {
    p.nworlds = 1;
    f.setupEnts = std::min(f.setupEnts, 4);
    f.pSparse = 0;
    genSetup(r, f, p);
    int nr = r.range(1, 2);
    bool watch = f.w[OP_POLL] > 2;
    p.threads.resize((size_t)(1 + nr));
    Prof g = f;
    g.opMin = 1;
    g.opMax = 4;
    g.w[OP_GSET] *= 3;
    g.w[OP_GUNSET] *= 3;
    g.w[OP_FULL] = g.w[OP_LISTGET] = 0;
    int nw = r.range(1, 3);
    for (int k = 0; k < nw; k++) {
        int ps = 18;
        for (int a = 0; a < 30; a++) {
            ps = pickPs(r, g);
            if (permTable[ps].ar || (permTable[ps].wr && r.chance(30))) break;
        }
        p.threads[0].push_back(genTxn(r, g, ps, 0));
    }
    static const int readers[] = {0, 0, 0, 1, 2, 22, 15, 3, 13, 4, 4, 4, 19, 18};
    for (int i = 1; i <= nr; i++) {
        if (watch && r.chance(70)) {
            TxnProg t;
            t.perm = 18;
            int n = r.range(1, 4);
            for (int k = 0; k < n; k++)
                t.ops.push_back(mk(OP_WATCH, (int)r.below(6)));
            p.threads[(size_t)i].push_back(t);
        }
        int nt = r.range(1, 3);
        for (int k = 0; k < nt; k++) {
            TxnProg t;
            t.perm = (int16_t)readers[r.below(14)];
            if (!psEnabled(t.perm)) t.perm = r.chance(50) ? 0 : 4;
            int n = r.range(1, 3);
            for (int j = 0; j < n; j++) {
                switch (r.below(5)) {
                case 0: t.ops.push_back(mk(OP_GHAS, 0, (int)r.below(3))); break;
                case 1: t.ops.push_back(mk(OP_LIST, (int)r.below(4), (int)r.below(8))); break;
                case 2:
                    if (watch) {
                        t.ops.push_back(mk(OP_POLL, -1, (int)r.below(3), (int)r.below(2)));
                        break;
                    }
                // fall through
                default: t.ops.push_back(mk(OP_FULL));
                }
            }
            if (r.chance(40)) t.ops.push_back(mk(OP_FULL));
            p.threads[(size_t)i].push_back(t);
        }
    }
}

// -- C09: readers hand over to each other so that somebody is always reading ------------------------------------------
static void genRelay(Rng &r, Program &p, Prof &f) {
    p.nworlds = 1;
    genSetup(r, f, p);
    int nr = r.range(2, 3), nw = r.range(1, 2);
    p.threads.resize((size_t)(nr + nw));
    int mask = (1 << nr) - 1;
    static const int readers[] = {4, 3, 1, 0, 15, 4, 4, 2, 22};
    int common = readers[r.below(9)];
    for (int i = 0; i < nr; i++) {
        TxnProg t;
        t.perm = (int16_t)(r.chance(75) ? common : readers[r.below(9)]);
        if (!psEnabled(t.perm)) t.perm = 4;
        t.repeat = 20000;
        t.ops.push_back(mk(OP_RELAY, mask));
        if (r.chance(30)) t.ops.push_back(mk(OP_LIST, (int)r.below(4), 0));
        p.threads[(size_t)i].push_back(t);
    }
    f.opMin = 1;
    f.opMax = 4;
    for (int i = nr; i < nr + nw; i++) {
        int nt = r.range(1, 3);
        for (int k = 0; k < nt; k++) {
            int ps = 18;
            for (int a = 0; a < 30; a++) {
                ps = pickPs(r, f);
                if (permTable[ps].wr || permTable[ps].ar) break;
            }
            p.threads[(size_t)i].push_back(genTxn(r, f, ps, 0));
        }
    }
}

void generate(const std::string &profile, uint64_t seed, Program &p, RtCfg &cfg) {
    Rng r(seed * 0x100000001b3ull + std::hash<std::string>()(profile));
    p = Program();
    Prof f;
    bool duel = false, hammer = false;
    makeProf(profile, f, r);
    if (f.pTrace) p.flags |= PF_TRACE | (r.chance(50) ? PF_TRACE2 : 0);
    if (profile == "C08") {
        f.w[OP_WATCH] = f.w[OP_POLL] = f.w[OP_STOP] = 0;
        f.w[OP_LOOP] = f.w[OP_NESTW] = 0;
        f.pThrow = 0;
        if (!r.chance(35) || !genStuck(r, p, f)) genFreeze(r, p, f);
    } else if (profile == "C09") {
        f.w[OP_NEST] = 0;
        genRelay(r, p, f);
    } else if (r.chance((uint32_t)f.pHammer)) {
        hammer = true;
        genHammer(r, f, p);
    } else if (r.chance((uint32_t)f.pDuel)) {
        duel = true;
        genDuel(r, f, p);
    } else {
        p.nworlds = f.worlds;
        genSetup(r, f, p);
        int nt = r.range(f.thrMin, f.thrMax);
        p.threads.resize((size_t)nt);
        // swarm: a random part of the operations is left out of this run
        Prof g = f;
        if (r.chance(60))
            for (int i = 0; i < OP_COUNT; i++)
                if (g.w[i] && r.chance(25)) g.w[i] = 0;
        int tot = 0;
        for (int i = 0; i < OP_COUNT; i++)
            tot += g.w[i];
        if (!tot) g = f;
        if (r.chance(40)) { // few permission sets: more contention
            int keep[3] = {pickPs(r, f), pickPs(r, f), pickPs(r, f)};
            for (int i = 0; i < NPS; i++)
                if (i != keep[0] && i != keep[1] && i != keep[2]) g.ps[i] = 0;
        }
        for (int i = 0; i < nt; i++) {
            int n = r.range(f.txnMin, f.txnMax);
            for (int k = 0; k < n; k++) {
                int world = (int)r.below((uint32_t)(p.nworlds + (f.w[OP_WORLD] > 1 ? 1 : 0)));
                p.threads[(size_t)i].push_back(genTxn(r, g, pickPs(r, g), world));
            }
        }
    }
    if (profile == "C20" && r.chance(35)) { // tracing starts while transactions are running
        p.flags = (p.flags & ~PF_TRACE2) | PF_TRACEMID;
        auto &th = p.threads[r.below((uint32_t)p.threads.size())];
        for (int n = r.range(1, 3); n-- > 0;) {
            auto &ops = th[r.below((uint32_t)th.size())].ops;
            ops.insert(ops.begin() + r.below((uint32_t)ops.size() + 1), mk(OP_TRACESTART));
        }
    }
    if (p.nworlds > 1 && r.chance(f.w[OP_NESTW] ? 60 : 10)) {
        TxnProg t;
        t.perm = (int16_t)pickPs(r, f);
        t.world = (int16_t)r.below((uint32_t)p.nworlds);
        t.ops.push_back(mk(OP_JUGGLE, (int)r.below(30000), (int)r.below(12)));
        p.setup.push_back(t);
    }
    if (p.nworlds > 1 && f.w[OP_NESTW] > 2 && r.chance(2)) p.flags |= PF_WRAP;
    if (r.chance(30)) p.flags |= PF_LATEID;
    if (r.chance((uint32_t)f.pSettle) && !f.pTrace) p.flags |= PF_SETTLE;
    if (r.chance((uint32_t)f.pDestroyAll)) p.flags |= PF_DESTROY_ALL;
    cfg = RtCfg();
    cfg.seed = seed;
    size_t ops = programOps(p);
    size_t txns = 0;
    for (auto &t : p.threads)
        txns += t.size();
    swarm(r, cfg, ops, txns);
    if (hammer) {
        cfg.mode = 0;
        static const uint32_t ps[] = {10, 40, 64, 100, 250};
        cfg.p_switch = ps[r.below(5)];
        cfg.focus = 0;
        cfg.plain_log2 = 0;
        cfg.p_spur = 0;
        static const uint32_t pst[] = {0, 1000, 1000, 2000};
        cfg.p_stall = pst[r.below(4)];
        cfg.chaos_steps = 40000;
    }
    if (duel) {
        p.flags &= ~PF_SETTLE;
        if (r.chance(80)) {
            cfg.mode = 1;
            cfg.pct_depth = 1 + r.below(4);
            cfg.focus = 1 + r.below(2);
            cfg.pct_len = cfg.focus == 1 ? 30 + r.below(1 + (uint32_t)txns * 70) : 200 + r.below(1 + (uint32_t)txns * 400);
        }
    }
    if (profile == "C09") {
        cfg.chaos_steps = 1000 + r.below(15000);
        cfg.fair_steps = 400000;
    }
#ifdef SIM_WIDE
    cfg.fair_steps *= 8;
#endif
#if TECS_ENTITY_ALLOCATION_BATCH_SIZE >= 100
    cfg.fair_steps *= 40; // every commit walks over the whole table
#endif
    if (profile == "C06" && r.chance(70)) cfg.plain_log2 = 2 + r.below(6);
}

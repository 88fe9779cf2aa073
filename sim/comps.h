// Component types, ECS type and permission sets used by the simulated clients.
#pragma once
#include "rt.h"

#include <Tecs.hh>
#include <cstdint>
#include <cstring>
#include <utility>

static const uint64_t STAMP_TORN = 0xfffffffffffffff0ull; // value inconsistent with itself

// Trivially copyable, several words: a torn copy is visible.
template<int Tag>
struct Triv {
    uint64_t s = 0, ns = ~0ull, k = 0;
    Triv() = default;
    explicit Triv(uint64_t v) : s(v), ns(~v), k(v * 0x9e3779b97f4a7c15ull) {}
    uint64_t get() const {
        uint64_t a = s, b = ns, c = k;
        if (b != ~a || c != a * 0x9e3779b97f4a7c15ull) return STAMP_TORN;
        return a;
    }
    void set(uint64_t v) {
        s = v;
        ns = ~v;
        k = v * 0x9e3779b97f4a7c15ull;
    }
};

struct Payload {
    uint64_t magic, stamp, nstamp;
};
static const uint64_t PAYLOAD_MAGIC = 0xc0ffee00b10bull;

// Owns heap memory: lifetime errors are visible to the simulated heap, live values can be enumerated.
template<int Tag>
struct Heap {
    Payload *p = nullptr;
    Heap() = default;
    explicit Heap(uint64_t v) {
        if (v) p = new Payload{PAYLOAD_MAGIC + Tag, v, ~v};
    }
    Heap(const Heap &o) {
        if (o.p) p = new Payload(*o.p);
    }
    Heap(Heap &&o) noexcept : p(o.p) {
        o.p = nullptr;
    }
    Heap &operator=(const Heap &o) {
        if (this != &o) {
            Payload *n = o.p ? new Payload(*o.p) : nullptr;
            delete p;
            p = n;
        }
        return *this;
    }
    Heap &operator=(Heap &&o) noexcept {
        std::swap(p, o.p);
        return *this;
    }
    ~Heap() {
        delete p;
        p = nullptr;
    }
    uint64_t get() const {
        if (!p) return 0;
        uint64_t a = p->stamp;
        if (p->magic != PAYLOAD_MAGIC + Tag || p->nstamp != ~a) return STAMP_TORN;
        return a;
    }
    void set(uint64_t v) {
        if (p) {
            p->stamp = v;
            p->nstamp = ~v;
        } else {
            p = new Payload{PAYLOAD_MAGIC + Tag, v, ~v};
        }
    }
};

// Copying may throw (when armed by the fault injector); never moved.
struct CopyThrow : std::exception {
    const char *what() const noexcept override {
        return "injected copy failure";
    }
};
void maybe_throw_copy();
struct Thrower {
    uint64_t s = 0, ns = ~0ull;
    Thrower() = default;
    explicit Thrower(uint64_t v) : s(v), ns(~v) {}
    Thrower(const Thrower &o) {
        maybe_throw_copy();
        s = o.s;
        ns = o.ns;
    }
    Thrower &operator=(const Thrower &o) {
        maybe_throw_copy();
        s = o.s;
        ns = o.ns;
        return *this;
    }
    ~Thrower() {
        s = 0xdeadull; // not a consistent value
        ns = 0xdeadull;
    }
    uint64_t get() const {
        uint64_t a = s;
        if (ns != ~a) return STAMP_TORN;
        return a;
    }
    void set(uint64_t v) {
        s = v;
        ns = ~v;
    }
};

using CA = Triv<1>;
using CB = Heap<2>;
using CC = Thrower;
using CG = Triv<4>;
using CH = Heap<5>;
TECS_GLOBAL_COMPONENT(CG);
TECS_GLOBAL_COMPONENT(CH);
TECS_NAME_COMPONENT(CA, "A");
TECS_NAME_COMPONENT(CB, "B");
TECS_NAME_COMPONENT(CG, "G");
TECS_NAME_COMPONENT(CH, "H");

#ifdef SIM_WIDE
// Many component types nobody uses in between: SIM_WIDE of them, spread over four gaps.
template<int>
struct Filler {
    uint8_t x = 0;
};
template<typename... T>
struct Types {};
template<int From, typename I>
struct Fillers;
template<int From, int... I>
struct Fillers<From, std::integer_sequence<int, I...>> {
    using type = Types<Filler<From + I>...>;
};
template<int From, int N>
using FillersT = typename Fillers<From, std::make_integer_sequence<int, N>>::type;
template<typename... L>
struct Cat;
template<typename... A, typename... B, typename... R>
struct Cat<Types<A...>, Types<B...>, R...> : Cat<Types<A..., B...>, R...> {};
template<typename... A>
struct Cat<Types<A...>> {
    using type = Tecs::ECS<A...>;
};
    #define SIM_GAP (SIM_WIDE / 4)
using World = Cat<Types<CG>, FillersT<0, SIM_GAP>, Types<CA>, FillersT<SIM_GAP, SIM_GAP>, Types<CB>, FillersT<2 * SIM_GAP, SIM_GAP>, Types<CH>,
    FillersT<3 * SIM_GAP, SIM_WIDE - 3 * SIM_GAP>, Types<CC>>::type;
#else
using World = Tecs::ECS<CG, CA, CB, CH, CC>;
#endif

// Component numbering of the harness
enum { cA = 0, cB = 1, cC = 2, cG = 3, cH = 4, NCOMP = 5, cM = 5 };
template<int X>
struct CompT;
template<>
struct CompT<0> {
    using type = CA;
};
template<>
struct CompT<1> {
    using type = CB;
};
template<>
struct CompT<2> {
    using type = CC;
};
template<>
struct CompT<3> {
    using type = CG;
};
template<>
struct CompT<4> {
    using type = CH;
};

enum : unsigned {
    bA = 1,
    bB = 2,
    bC = 4,
    bG = 8,
    bH = 16,
    bAll = 31,
};

#define NPS 26
#ifdef SIM_FEW
    #define NPARTS 4
    #define PS_ENABLED(i) (0x690ffull >> (i)&1) // 0-7, 12, 15, 17, 18
    #define NDYN_ENABLED 7
#else
    #define NPARTS 8
    #define PS_ENABLED(i) true
    #define NDYN_ENABLED NDYN
#endif

template<int I>
struct PS;
#define PSDEF(I, RD, WR, AR, SUBRD, SUBWR, SUBT, ...)                                                                  \
    template<>                                                                                                         \
    struct PS<I> {                                                                                                     \
        using L = Tecs::Lock<World, ##__VA_ARGS__>;                                                                    \
        static constexpr unsigned rd = (RD) | (WR), wr = (WR);                                                         \
        static constexpr bool ar = AR;                                                                                 \
        using Sub = SUBT;                                                                                              \
        static constexpr unsigned subrd = (SUBRD) | (SUBWR), subwr = (SUBWR);                                          \
        static L start(World &w) {                                                                                     \
            return w.StartTransaction<__VA_ARGS__>();                                                                  \
        }                                                                                                              \
        static auto roSub(const L &l) {                                                                                \
            return l.ReadOnlySubset();                                                                                 \
        }                                                                                                              \
    };

template<typename... P>
using LK = Tecs::Lock<World, P...>;
using Tecs::AddRemove;
using Tecs::Read;
using Tecs::ReadAll;
using Tecs::Write;
using Tecs::WriteAll;

using L_none = LK<>;
using L_rA = LK<Read<CA>>;
using L_wA = LK<Write<CA>>;
using L_wAB = LK<Write<CA, CB>>;
using L_rAB = LK<Read<CA, CB>>;
using L_wC = LK<Write<CC>>;
using L_rG_wH = LK<Read<CG>, Write<CH>>;

//     id  read       write        AR     sub: read, write, type    permissions
PSDEF(0, 0, 0, false, 0, 0, L_none)
PSDEF(1, bA, 0, false, 0, 0, L_none, Read<CA>)
PSDEF(2, bB, 0, false, 0, 0, L_none, Read<CB>)
PSDEF(3, bA | bB, 0, false, bA, 0, L_rA, Read<CA, CB>)
PSDEF(4, bAll, 0, false, bA | bB, 0, L_rAB, ReadAll)
PSDEF(5, 0, bA, false, bA, 0, L_rA, Write<CA>)
PSDEF(6, 0, bB, false, 0, 0, L_none, Write<CB>)
PSDEF(7, 0, bA | bB, false, 0, bA, L_wA, Write<CA, CB>)
PSDEF(8, bA, bB, false, bA | bB, 0, L_rAB, Read<CA>, Write<CB>)
PSDEF(9, bB, bA, false, 0, bA, L_wA, Read<CB>, Write<CA>)
PSDEF(10, bG, bA, false, bA, 0, L_rA, Read<CG>, Write<CA>)
PSDEF(11, 0, bG, false, 0, 0, L_none, Write<CG>)
PSDEF(12, 0, bG | bH, false, bG, bH, L_rG_wH, Write<CG, CH>)
PSDEF(13, bA, bG, false, bA, 0, L_rA, Read<CA>, Write<CG>)
PSDEF(14, 0, bC, false, 0, 0, L_none, Write<CC>)
PSDEF(15, bG | bH, 0, false, 0, 0, L_none, Read<CG, CH>)
PSDEF(16, bC, bB, false, 0, 0, L_none, Read<CC>, Write<CB>)
PSDEF(17, 0, bAll, false, 0, bA | bB, L_wAB, WriteAll)
PSDEF(18, bAll, bAll, true, 0, bA | bB, L_wAB, AddRemove)
PSDEF(19, bAll, bA, false, 0, bA, L_wA, ReadAll, Write<CA>)
PSDEF(20, bAll, bAll, true, bA | bB, 0, L_rAB, Write<CA>, AddRemove)
PSDEF(21, bA | bG, bB | bH, false, bG, bH, L_rG_wH, Read<CA, CG>, Write<CB, CH>)
PSDEF(22, bC, 0, false, 0, 0, L_none, Read<CC>)
PSDEF(23, bC, bA, false, 0, bA, L_wA, Write<CA>, Read<CC>)
PSDEF(24, bAll, bAll, true, bC, bC, L_wC, AddRemove, ReadAll)
PSDEF(25, bAll, bAll, true, bG, bH, L_rG_wH, AddRemove, WriteAll)

// Requests made of dynamic locks
#define NDYN 12
template<int I>
struct DR;
#define DRDEF(I, RD, WR, AR, ...)                                                                                      \
    template<>                                                                                                         \
    struct DR<I> {                                                                                                     \
        using L = Tecs::Lock<World, ##__VA_ARGS__>;                                                                    \
        static constexpr unsigned rd = (RD) | (WR), wr = (WR);                                                         \
        static constexpr bool ar = AR;                                                                                 \
        template<typename D>                                                                                           \
        static std::optional<L> tryLock(const D &d) {                                                                  \
            return d.template TryLock<__VA_ARGS__>();                                                                  \
        }                                                                                                              \
    };
DRDEF(0, 0, 0, false)
DRDEF(1, bA, 0, false, Read<CA>)
DRDEF(2, 0, bA, false, Write<CA>)
DRDEF(3, 0, bB, false, Write<CB>)
DRDEF(4, bAll, 0, false, ReadAll)
DRDEF(5, 0, bAll, false, WriteAll)
DRDEF(6, bAll, bAll, true, AddRemove)
DRDEF(7, 0, bG, false, Write<CG>)
DRDEF(8, bH, 0, false, Read<CH>)
DRDEF(9, bG, bA, false, Write<CA>, Read<CG>)
DRDEF(10, bA | bB, bH, false, Read<CA, CB>, Write<CH>)
DRDEF(11, bC, 0, false, Read<CC>)

struct PermInfo {
    unsigned rd, wr;
    bool ar;
};
extern const PermInfo permTable[NPS];
extern const PermInfo dynTable[NDYN];
const char *permName(int ps);

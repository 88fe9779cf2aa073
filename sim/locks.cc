// Instantiates the code under test for the lock types of one part of the permission table (-DPART=k).
#include "exec.h"

#ifndef PART
    #define PART 0
#endif

template<typename T>
struct LockImpl;

template<typename L>
ILock *wrap(const L &l, unsigned rd, unsigned wr, bool ar, bool prev); // instantiated once, see below

template<typename F>
static inline auto comp(int c, F f) {
    switch (c) {
    case cA: return f((CA *)nullptr);
    case cB: return f((CB *)nullptr);
    case cC: return f((CC *)nullptr);
    case cG: return f((CG *)nullptr);
    default: return f((CH *)nullptr);
    }
}

// Full choice of dynamic locks only from the lock types transactions start with.
template<typename L>
struct DynSource : std::false_type {};
#define DSRC(I)                                                                                                        \
    template<>                                                                                                         \
    struct DynSource<PS<I>::L> : std::true_type {};
DSRC(3)
DSRC(4)
DSRC(7)
DSRC(8)
DSRC(9)
DSRC(10)
DSRC(12)
DSRC(17)
DSRC(18)
DSRC(19)
DSRC(20)
DSRC(21)
DSRC(24)
DSRC(25)

template<typename L>
struct DynMaker {
    template<typename D>
    static ILock *request(const D &d, int r, bool prev) {
#define REQ(I)                                                                                                         \
    case I: {                                                                                                          \
        auto o = DR<I>::tryLock(d);                                                                                    \
        if (!o) return nullptr;                                                                                        \
        return wrap(*o, DR<I>::rd, DR<I>::wr, DR<I>::ar, prev);                                                        \
    }
        switch (r) {
            REQ(0)
            REQ(1)
            REQ(2)
            REQ(3)
            REQ(4)
            REQ(5)
            REQ(6)
#ifndef SIM_FEW
            REQ(7)
            REQ(8)
            REQ(9)
            REQ(10)
            REQ(11)
#endif
        }
#undef REQ
        return nullptr;
    }
    template<typename... P>
    static ILock *same(const Tecs::Lock<World, P...> &l, int r, bool prev) {
        Tecs::DynamicLock<World, P...> d(l);
        return request(d, r, prev);
    }
};

template<typename L>
struct LockImpl final : ILock {
    std::optional<L> l;

    void drop() override {
        l.reset();
    }
    void dropByException() override {
        L local = *l;
        l.reset();
        throw UserExc();
    }
    ILock *copy() override {
        return wrap(*l, rd, wr, ar, prev);
    }
    ILock *copyBase() override {
        Tecs::Lock<World> b = *l;
        return wrap(b, 0, 0, false, prev);
    }
    ILock *ro() override {
        auto r = l->ReadOnlySubset();
        return wrap(r, rd, 0, false, true);
    }
    size_t txid() override {
#ifdef TECS_HEADER_ONLY
        return 0;
#else
        return l->GetTransactionId();
#endif
    }
    long useCount() override {
        return l->UseCount();
    }
    bool has(Tecs::Entity e, unsigned mask, bool p) override {
        const L &k = *l;
        switch (mask) {
        case 0: return p ? e.Existed(k) : e.Exists(k);
        case bA: return p ? e.template Had<CA>(k) : e.template Has<CA>(k);
        case bB: return p ? e.template Had<CB>(k) : e.template Has<CB>(k);
        case bC: return p ? e.template Had<CC>(k) : e.template Has<CC>(k);
        case bA | bB: return p ? e.template Had<CA, CB>(k) : e.template Has<CA, CB>(k);
        case bA | bC: return p ? e.template Had<CC, CA>(k) : e.template Has<CC, CA>(k);
        case bB | bC: return p ? e.template Had<CB, CC>(k) : e.template Has<CB, CC>(k);
        default: return p ? e.template Had<CA, CB, CC>(k) : e.template Has<CA, CB, CC>(k);
        }
    }
    uint64_t get(Tecs::Entity e, int c, bool p) override {
        const L &k = *l;
        return comp(c, [&](auto *tag) -> uint64_t {
            using T = std::remove_pointer_t<decltype(tag)>;
            if constexpr (Tecs::is_read_allowed<T, L>() && !Tecs::is_global_component<T>()) {
                if (p) return e.template GetPrevious<T>(k).get();
                if constexpr (Tecs::is_write_allowed<T, L>()) return e.template Get<const T>(k).get();
                else
                    return e.template Get<T>(k).get();
            } else {
                harnessBug("get not permitted");
            }
        });
    }
    void *getm(Tecs::Entity e, int c, uint64_t &v) override {
        const L &k = *l;
        return comp(c, [&](auto *tag) -> void * {
            using T = std::remove_pointer_t<decltype(tag)>;
            if constexpr (Tecs::is_write_allowed<T, L>() && !Tecs::is_global_component<T>()) {
                T &r = e.template Get<T>(k);
                v = r.get();
                return &r;
            } else {
                harnessBug("getm not permitted");
            }
        });
    }
    uint64_t set(Tecs::Entity e, int c, uint64_t v, int style, void *val) override {
        const L &k = *l;
        return comp(c, [&](auto *tag) -> uint64_t {
            using T = std::remove_pointer_t<decltype(tag)>;
            if constexpr (Tecs::is_write_allowed<T, L>() && !Tecs::is_global_component<T>()) {
                switch (style) {
                case 0: return e.template Set<T>(k, *(T *)val).get();
                case 1: return e.template Set<T>(k, v).get();
                default: return e.template Set<T>(k, T(v)).get();
                }
            } else {
                harnessBug("set not permitted");
            }
        });
    }
    void unset(const Tecs::Entity &e, unsigned mask) override {
        if constexpr (Tecs::is_add_remove_allowed<L>()) {
            const L &k = *l;
            switch (mask) {
            case bA: return e.template Unset<CA>(k);
            case bB: return e.template Unset<CB>(k);
            case bC: return e.template Unset<CC>(k);
            case bA | bB: return e.template Unset<CA, CB>(k);
            case bA | bC: return e.template Unset<CC, CA>(k);
            case bB | bC: return e.template Unset<CB, CC>(k);
            default: return e.template Unset<CA, CB, CC>(k);
            }
        } else {
            harnessBug("unset not permitted");
        }
    }
    void destroy(Tecs::Entity &e) override {
        if constexpr (Tecs::is_add_remove_allowed<L>()) e.Destroy(*l);
        else
            harnessBug("destroy not permitted");
    }
    void destroyC(const Tecs::Entity &e) override {
        if constexpr (Tecs::is_add_remove_allowed<L>()) e.Destroy(*l);
        else
            harnessBug("destroy not permitted");
    }
    Tecs::Entity newEntity() override {
        if constexpr (Tecs::is_add_remove_allowed<L>()) return l->NewEntity();
        else
            harnessBug("new not permitted");
    }
    Tecs::EntityView list(int kind, bool p) override {
        switch (kind) {
        case 0: return p ? l->PreviousEntities() : l->Entities();
        case 1: return p ? l->template PreviousEntitiesWith<CA>() : l->template EntitiesWith<CA>();
        case 2: return p ? l->template PreviousEntitiesWith<CB>() : l->template EntitiesWith<CB>();
        default: return p ? l->template PreviousEntitiesWith<CC>() : l->template EntitiesWith<CC>();
        }
    }
    bool ghas(unsigned mask, bool p) override {
        switch (mask) {
        case bG: return p ? l->template Had<CG>() : l->template Has<CG>();
        case bH: return p ? l->template Had<CH>() : l->template Has<CH>();
        default: return p ? l->template Had<CG, CH>() : l->template Has<CG, CH>();
        }
    }
    template<typename F>
    static auto gcomp(int c, F f) {
        return c == cG ? f((CG *)nullptr) : f((CH *)nullptr);
    }
    uint64_t gget(int c, bool p) override {
        return gcomp(c, [&](auto *tag) -> uint64_t {
            using T = std::remove_pointer_t<decltype(tag)>;
            if constexpr (Tecs::is_read_allowed<T, L>()) {
                if (p) return l->template GetPrevious<T>().get();
                if constexpr (Tecs::is_write_allowed<T, L>()) return l->template Get<const T>().get();
                else
                    return l->template Get<T>().get();
            } else {
                harnessBug("gget not permitted");
            }
        });
    }
    void *ggetm(int c, uint64_t &v) override {
        return gcomp(c, [&](auto *tag) -> void * {
            using T = std::remove_pointer_t<decltype(tag)>;
            if constexpr (Tecs::is_write_allowed<T, L>()) {
                T &r = l->template Get<T>();
                v = r.get();
                return &r;
            } else {
                harnessBug("ggetm not permitted");
            }
        });
    }
    uint64_t gset(int c, uint64_t v, int style, void *val) override {
        return gcomp(c, [&](auto *tag) -> uint64_t {
            using T = std::remove_pointer_t<decltype(tag)>;
            if constexpr (Tecs::is_write_allowed<T, L>()) {
                if (style == 0) return l->template Set<T>(*(T *)val).get();
                if (style == 1) return l->template Set<T>(v).get();
                return l->template Set<T>(T(v)).get();
            } else {
                harnessBug("gset not permitted");
            }
        });
    }
    void gunset(unsigned mask) override {
        if constexpr (Tecs::is_add_remove_allowed<L>()) {
            switch (mask) {
            case bG: return l->template Unset<CG>();
            case bH: return l->template Unset<CH>();
            default: return l->template Unset<CG, CH>();
            }
        } else {
            harnessBug("gunset not permitted");
        }
    }
    template<int K>
    IObs *watchK() {
        using E = typename EvT<K>::type;
        auto o = l->template Watch<E>();
        ObsImpl<E> *r;
        {
            RtHarness h;
            r = new ObsImpl<E>();
            r->kind = K;
        }
        r->o.emplace(o);
        return r;
    }
    IObs *watch(int kind) override {
        if constexpr (Tecs::is_add_remove_allowed<L>()) {
            switch (kind) {
            case 0: return watchK<0>();
            case 1: return watchK<1>();
            case 2: return watchK<2>();
            case 3: return watchK<3>();
            case 4: return watchK<4>();
            default: return watchK<5>();
            }
        } else {
            harnessBug("watch not permitted");
        }
    }
    template<int K>
    bool pollK(IObs *o, Ev &e) {
        using E = typename EvT<K>::type;
        auto *i = static_cast<ObsImpl<E> *>(o);
        E ev;
        if (!i->o->Poll(*l, ev)) return false;
        e.type = (int)ev.type;
        e.h = toH(ev.entity);
        if constexpr (K == 0) e.stamp = 0;
        else
            e.stamp = ev.component.get();
        return true;
    }
    bool poll(IObs *o, Ev &e) override {
        switch (o->kind) {
        case 0: return pollK<0>(o, e);
        case 1: return pollK<1>(o, e);
        case 2: return pollK<2>(o, e);
        case 3: return pollK<3>(o, e);
        case 4: return pollK<4>(o, e);
        default: return pollK<5>(o, e);
        }
    }
    template<int K>
    void stopK(IObs *o, bool throughCopy) {
        using E = typename EvT<K>::type;
        if constexpr (Tecs::is_add_remove_allowed<L>()) {
            auto &ob = *static_cast<ObsImpl<E> *>(o)->o;
            if (throughCopy) {
                auto c = ob;
                l->StopWatching(c);
            } else {
                ob.Stop(*l);
            }
        }
    }
    void stop(IObs *o, bool throughCopy) override {
        switch (o->kind) {
        case 0: return stopK<0>(o, throughCopy);
        case 1: return stopK<1>(o, throughCopy);
        case 2: return stopK<2>(o, throughCopy);
        case 3: return stopK<3>(o, throughCopy);
        case 4: return stopK<4>(o, throughCopy);
        default: return stopK<5>(o, throughCopy);
        }
    }
    ILock *dyn(int r, int statics) override {
        const L &k = *l;
        if constexpr (DynSource<L>::value) {
            if (statics == 1) return DynMaker<L>::same(k, r, prev);
            if constexpr (Tecs::is_add_remove_allowed<L>()) {
                if (statics == 2) {
                    Tecs::DynamicLock<World, WriteAll> d(k);
                    return DynMaker<L>::request(d, r, prev);
                }
            }
        }
        Tecs::DynamicLock<World> d(k);
        return DynMaker<L>::request(d, r, prev);
    }
};

template<typename L>
ILock *wrap(const L &l, unsigned rd, unsigned wr, bool ar, bool prev) {
    LockImpl<L> *p;
    {
        RtHarness h;
        p = new LockImpl<L>();
        p->rd = rd;
        p->wr = wr;
        p->ar = ar;
        p->prev = prev;
    }
    p->l.emplace(l);
    return p;
}

#define WRAP(...) template ILock *wrap<__VA_ARGS__>(const __VA_ARGS__ &, unsigned, unsigned, bool, bool);
#ifdef SIM_FEW // a smaller table, quicker to compile
    #if PART == 0
WRAP(Tecs::Lock<World, AddRemove>)
WRAP(Tecs::Lock<World, ReadAll>)
WRAP(Tecs::Lock<World, Read<CG, CA, CB, CH, CC>>)
WRAP(Tecs::Lock<World, Read<CB>>)
    #endif
    #if PART == 1
WRAP(Tecs::Lock<World, WriteAll>)
WRAP(Tecs::Lock<World, Read<CG>, Write<CH>>)
WRAP(Tecs::Lock<World, Read<CA, CB>>)
WRAP(Tecs::Lock<World, Read<>>)
    #endif
    #if PART == 2
WRAP(Tecs::Lock<World, Write<CA, CB>>)
WRAP(Tecs::Lock<World, Write<CB>>)
WRAP(Tecs::Lock<World, Read<CG, CH>>)
WRAP(Tecs::Lock<World>)
    #endif
    #if PART == 3
WRAP(Tecs::Lock<World, Write<CG, CH>>)
WRAP(Tecs::Lock<World, Write<CA>>)
WRAP(Tecs::Lock<World, Read<CA>>)
    #endif
#else
    #if PART == 0
WRAP(Tecs::Lock<World>)
WRAP(Tecs::Lock<World, Write<CB>>)
WRAP(Tecs::Lock<World, Write<CG, CH>>)
WRAP(Tecs::Lock<World, AddRemove>)
WRAP(Tecs::Lock<World, AddRemove, WriteAll>)
WRAP(Tecs::DynamicLock<World, Read<CA>>)
    #endif
    #if PART == 1
WRAP(Tecs::Lock<World, Read<>>)
WRAP(Tecs::Lock<World, Write<CA, CB>>)
WRAP(Tecs::Lock<World, Read<CG, CH>>)
WRAP(Tecs::Lock<World, ReadAll, Write<CA>>)
WRAP(Tecs::Lock<World, Read<CG>, Write<CH>>)
    #endif
    #if PART == 2
WRAP(Tecs::Lock<World, Read<CA>>)
WRAP(Tecs::DynamicLock<World, Read<CA, CB>>)
WRAP(Tecs::Lock<World, Read<CA>, Write<CB>>)
WRAP(Tecs::Lock<World, Read<CA>, Write<CG>>)
WRAP(Tecs::Lock<World, Write<CA>, AddRemove>)
WRAP(Tecs::Lock<World, Read<CH>>)
    #endif
    #if PART == 3
WRAP(Tecs::Lock<World, Read<CB>>)
WRAP(Tecs::Lock<World, Read<CB>, Write<CA>>)
WRAP(Tecs::Lock<World, Write<CC>>)
WRAP(Tecs::Lock<World, Read<CA, CG>, Write<CB, CH>>)
WRAP(Tecs::Lock<World, Write<CA>, Read<CG>>)
    #endif
    #if PART == 4
WRAP(Tecs::Lock<World, Read<CA, CB>>)
WRAP(Tecs::Lock<World, Read<CG>, Write<CA>>)
WRAP(Tecs::Lock<World, Read<CC>>)
WRAP(Tecs::Lock<World, Read<CG, CA, CB, CH>>)
WRAP(Tecs::Lock<World, Read<CA, CB>, Write<CH>>)
    #endif
    #if PART == 5
WRAP(Tecs::Lock<World, ReadAll>)
WRAP(Tecs::Lock<World, Read<CG, CA>>)
WRAP(Tecs::Lock<World, Read<CC>, Write<CB>>)
WRAP(Tecs::Lock<World, Write<CA>, Read<CC>>)
WRAP(Tecs::Lock<World, Read<CA, CB, CH>>)
    #endif
    #if PART == 6
WRAP(Tecs::Lock<World, Read<CG, CA, CB, CH, CC>>)
WRAP(Tecs::Lock<World, Write<CG>>)
WRAP(Tecs::Lock<World, Read<CB, CC>>)
WRAP(Tecs::Lock<World, Read<CA, CC>>)
WRAP(Tecs::DynamicLock<World, Write<CA>>)
    #endif
    #if PART == 7
WRAP(Tecs::Lock<World, Write<CA>>)
WRAP(Tecs::DynamicLock<World, Read<CG>, Write<CH>>)
WRAP(Tecs::Lock<World, Read<CG>>)
WRAP(Tecs::Lock<World, WriteAll>)
WRAP(Tecs::Lock<World, AddRemove, ReadAll>)
    #endif
#endif

template<int I>
static ILock *startPS(int, World &w) {
    auto l = PS<I>::start(w);
    return wrap(l, PS<I>::rd, PS<I>::wr, PS<I>::ar, false);
}
// The ways of deriving a narrower lock
template<typename T>
struct Derive;
template<typename... P>
struct Derive<Tecs::Lock<World, P...>> {
    using S = Tecs::Lock<World, P...>;
    template<typename L>
    static S subset(const L &l) {
        return l.template Subset<P...>();
    }
    static S pass(S s) {
        return s;
    }
    using D = Tecs::DynamicLock<World, P...>;
};
template<typename D>
struct DynWrapped : std::false_type {};
#ifndef SIM_FEW
template<>
struct DynWrapped<Tecs::DynamicLock<World, Read<CA>>> : std::true_type {};
template<>
struct DynWrapped<Tecs::DynamicLock<World, Read<CA, CB>>> : std::true_type {};
template<>
struct DynWrapped<Tecs::DynamicLock<World, Write<CA>>> : std::true_type {};
template<>
struct DynWrapped<Tecs::DynamicLock<World, Read<CG>, Write<CH>>> : std::true_type {};
#endif
template<int I>
static ILock *subPS(int how, ILock *m) {
    auto *i = static_cast<LockImpl<typename PS<I>::L> *>(m);
    using S = typename PS<I>::Sub;
    using D = typename Derive<S>::D;
    auto give = [&](const auto &s) {
        return wrap(s, PS<I>::subrd, PS<I>::subwr, false, false);
    };
    switch (how & 7) {
    case 1:
    case 2: return give(Derive<S>::subset(*i->l));
    case 3: return give(Derive<S>::pass(*i->l));
    case 5:
    case 6:
        if constexpr (DynWrapped<D>::value) {
            D d(*i->l);
            return give(d);
        }
        [[fallthrough]];
    default: {
        S s = *i->l;
        return give(s);
    }
    }
}

#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
extern "C" LockOps CAT(lockOpsPart, PART)(int ps) {
    LockOps o{nullptr, nullptr};
    switch (ps) {
#define ENTRY(I)                                                                                                       \
    case I:                                                                                                            \
        if constexpr (I % NPARTS == PART && PS_ENABLED(I)) {                                                                            \
            o.start = startPS<I>;                                                                                      \
            o.sub = subPS<I>;                                                                                          \
        }                                                                                                              \
        break;
        ENTRY(0)
        ENTRY(1)
        ENTRY(2)
        ENTRY(3)
        ENTRY(4)
        ENTRY(5)
        ENTRY(6)
        ENTRY(7)
        ENTRY(8)
        ENTRY(9)
        ENTRY(10)
        ENTRY(11)
        ENTRY(12)
        ENTRY(13)
        ENTRY(14)
        ENTRY(15)
        ENTRY(16)
        ENTRY(17)
        ENTRY(18)
        ENTRY(19)
        ENTRY(20)
        ENTRY(21)
        ENTRY(22)
        ENTRY(23)
        ENTRY(24)
        ENTRY(25)
    }
    return o;
}

// data_mutex: histories over a mock mutex with failing tries and throwing locks, and real threads (P24)
#include "lin.hpp"
#include "fwd.hpp"
#include <itlib/data_mutex.hpp>
#include <memory>
#include <mutex>
#if __cplusplus >= 201703L
#include <shared_mutex>
#endif
#include <type_traits>

using namespace vt;

namespace
{
struct LockError { int n; };

// a reader-writer mutex for one thread: what would block throws instead, tries may fail at will
struct Mock
{
    bool ex = false;
    int sh = 0;
    bool fail_next = false;   // next try refuses, next lock throws
    long ops = 0;
    Mock() { current() = this; }
    static Mock*& current() { static Mock* m; return m; } // the last one constructed
    bool can(bool shared) { ++ops; bool f = fail_next; fail_next = false; return !f && !ex && (shared || !sh); }
    void lock() { if (!can(false)) throw LockError{1}; ex = true; }
    bool try_lock() { if (!can(false)) return false; ex = true; return true; }
    void unlock() { ++ops; REQM(ex, "unlock() of a mutex which is not locked exclusively (shared: " << sh << ")"); ex = false; }
    void lock_shared() { if (!can(true)) throw LockError{2}; ++sh; }
    bool try_lock_shared() { if (!can(true)) return false; ++sh; return true; }
    void unlock_shared() { ++ops; REQM(sh > 0, "unlock_shared() of a mutex which is not locked shared (exclusive: " << ex << ")"); --sh; }
    Mock(const Mock&) = delete;
};
// only the exclusive operations, and tries
struct Plain
{
    Mock m;
    void lock() { m.lock(); }
    bool try_lock() { return m.try_lock(); }
    void unlock() { m.unlock(); }
};
// only lock and unlock
struct Bare
{
    Mock m;
    void lock() { m.lock(); }
    void unlock() { m.unlock(); }
};

struct Data
{
    Tracked v;
    Mock* guard;
    explicit Data(int x) : v(x), guard(Mock::current()) {}
    Data(int a, int b) : v(a, b), guard(Mock::current()) {}
    Data(const Tracked& t, std::unique_ptr<int> p) : v(t), guard(Mock::current()) { v.v += *p; }
    int get() const { REQM(guard->ex || guard->sh, "data is reachable without a lock"); return v.get(); }
    void set(int x) { REQM(guard->ex, "data can be modified without an exclusive lock"); v.check(); v.v = x; }
};

enum Kind { uniq, try_uniq, cuniq, try_cuniq, shared, try_shared, kinds };
const char* const kname[] = {"unique_lock()", "try_unique_lock()", "unique_lock() const", "try_unique_lock() const", "shared_lock()", "try_shared_lock()"};
constexpr bool is_try(Kind k) { return k % 2; }
constexpr bool is_shared(Kind k) { return k >= shared; }
constexpr bool is_mut(Kind k) { return k <= try_uniq; }

template <typename DM> struct Acc
{
    virtual ~Acc() = default;
    virtual Acc* move() = 0;
    virtual const Data* arrow() = 0;
    virtual const Data* carrow() const = 0;
    virtual const Data* star() = 0;
    virtual const Data* cstar() const = 0;
    virtual bool boolean() const = 0;
    virtual void write(int x) = 0;
};
template <typename L, bool Try> struct Bool { static bool of(const L&) { return true; } };
template <typename L> struct Bool<L, true> { static bool of(const L& l) { return static_cast<bool>(l); } };
template <typename D> void put(D&, int, std::false_type) { FAIL("cannot"); }
template <typename D> void put(D& d, int x, std::true_type) { d.set(x); }

template <typename DM, typename L, Kind K> struct AccT final : Acc<DM>
{
    L l;
    template <typename F> AccT(F f, int) : l(f()) {}
    AccT(L&& o) : l(std::move(o)) {}
    Acc<DM>* move() override { return new AccT(std::move(l)); }
    const Data* arrow() override { return l.operator->(); }
    const Data* carrow() const override { return l.operator->(); }
    const Data* star() override { return &*l; }
    const Data* cstar() const override { return &*l; }
    bool boolean() const override { return Bool<L, is_try(K)>::of(l); }
    void write(int x) override { put(*l, x, std::integral_constant<bool, is_mut(K)>()); }

    // what the accessors allow
    static_assert(std::is_same<decltype(*std::declval<L&>()), typename std::conditional<is_mut(K), Data&, const Data&>::type>::value, "access");
    static_assert(std::is_same<decltype(std::declval<L&>().operator->()), typename std::conditional<is_mut(K), Data*, const Data*>::type>::value, "access");
    static_assert(std::is_same<decltype(*std::declval<const L&>()), const Data&>::value, "access");
    static_assert(std::is_same<decltype(std::declval<const L&>().operator->()), const Data*>::value, "access");
    static_assert(!std::is_copy_constructible<L>::value && !std::is_copy_assignable<L>::value, "a lock is not copyable");
    static_assert(std::is_move_constructible<L>::value, "a lock is movable");
    static_assert(is_try(K) == std::is_constructible<bool, L>::value, "try locks convert to bool");
    static_assert(!std::is_convertible<L, bool>::value, "only explicitly");
};

template <typename DM, Kind K, typename F> Acc<DM>* mk(F f) { return new AccT<DM, decltype(f()), K>(f, 0); }

struct Full
{
    using DM = itlib::data_mutex<Data, Mock>;
    static Mock& mock(Mock& m) { return m; }
    static bool has(Kind) { return true; }
    static Acc<DM>* lock(DM& d, Kind k)
    {
        const DM& c = d;
        switch (k)
        {
        case uniq: return mk<DM, uniq>([&] { return d.unique_lock(); });
        case try_uniq: return mk<DM, try_uniq>([&] { return d.try_unique_lock(); });
        case cuniq: return mk<DM, cuniq>([&] { return c.unique_lock(); });
        case try_cuniq: return mk<DM, try_cuniq>([&] { return c.try_unique_lock(); });
        case shared: return mk<DM, shared>([&] { return c.shared_lock(); });
        default: return mk<DM, try_shared>([&] { return c.try_shared_lock(); });
        }
    }
    // the lock types' own constructors, shared locks of non-const objects
    static Acc<DM>* lock2(DM& d, Kind k)
    {
        switch (k)
        {
        case uniq: return mk<DM, uniq>([&] { return typename DM::unique_lock_t(d); });
        case try_uniq: return mk<DM, try_uniq>([&] { return typename DM::try_unique_lock_t(d); });
        case cuniq: return mk<DM, cuniq>([&] { return typename DM::const_unique_lock_t(d); });
        case try_cuniq: return mk<DM, try_cuniq>([&] { return typename DM::try_const_unique_lock_t(d); });
        case shared: return mk<DM, shared>([&] { return d.shared_lock(); });
        default: return mk<DM, try_shared>([&] { return d.try_shared_lock(); });
        }
    }
};
struct ExOnly
{
    using DM = itlib::data_mutex<Data, Plain>;
    static bool has(Kind k) { return !is_shared(k); }
    static Acc<DM>* lock(DM& d, Kind k)
    {
        const DM& c = d;
        switch (k)
        {
        case uniq: return mk<DM, uniq>([&] { return d.unique_lock(); });
        case try_uniq: return mk<DM, try_uniq>([&] { return d.try_unique_lock(); });
        case cuniq: return mk<DM, cuniq>([&] { return c.unique_lock(); });
        default: return mk<DM, try_cuniq>([&] { return c.try_unique_lock(); });
        }
    }
    static Acc<DM>* lock2(DM& d, Kind k) { return lock(d, k); }
};
struct BareOnly
{
    using DM = itlib::data_mutex<Data, Bare>;
    static bool has(Kind k) { return k == uniq || k == cuniq; }
    static Acc<DM>* lock(DM& d, Kind k)
    {
        const DM& c = d;
        return k == uniq ? mk<DM, uniq>([&] { return d.unique_lock(); }) : mk<DM, cuniq>([&] { return c.unique_lock(); });
    }
    static Acc<DM>* lock2(DM& d, Kind k) { return lock(d, k); }
};

template <typename C> void history(pbt::Source& s)
{
    using DM = typename C::DM;
    tstats() = TrackStats();
    {
        enum { objs = 2, slots = 6 };
        std::unique_ptr<DM> dm[objs];
        Mock* mock[objs];
        int val[objs];
        bool ex[objs] = {};
        int sh[objs] = {};
        for (int i = 0; i < objs; ++i)
        {
            int x = int(s.raw(99)), y = int(s.raw(99));
            switch (s.raw(2))
            {
            case 0: dm[i].reset(new DM(x)); val[i] = x; break;
            case 1: dm[i].reset(new DM(x, y)); val[i] = x * 1000 + y; break;
            default: { Tracked t(x); dm[i].reset(new DM(t, std::unique_ptr<int>(new int(y)))); val[i] = x + y; REQ(t.get() == x); }
            }
            mock[i] = Mock::current();
            REQM(mock[i]->ops == 0, "the mutex was used while constructing");
        }
        struct Slot { std::unique_ptr<Acc<DM>> a; int obj; Kind k; bool owns; } slot[slots] = {};
        auto held = [&](int at) {
            for (int i = 0; i < objs; ++i)
                REQM(mock[i]->ex == ex[i] && mock[i]->sh == sh[i], "mutex " << i << " is locked (exclusive " << mock[i]->ex << ", shared " << mock[i]->sh << "), expected (" << ex[i] << ", " << sh[i] << ") " << at);
        };
        auto look = [&](Slot& sl) {
            bool b = sl.a->boolean();
            if (is_try(sl.k)) REQM(b == sl.owns, kname[sl.k] << " accessor says " << b << ", owns the lock: " << sl.owns);
            const Data* p = sl.a->arrow();
            REQ(p == sl.a->carrow());
            if (!sl.owns) { REQM(!p, kname[sl.k] << " accessor without a lock gives access"); return; }
            REQM(p && p == sl.a->star() && p == sl.a->cstar(), "accessor's operators differ");
            REQM(p->guard == mock[sl.obj], "accessor of another object");
            REQM(p->get() == val[sl.obj], "data is " << p->get() << ", expected " << val[sl.obj]);
        };
        auto drop = [&](Slot& sl) {
            if (!sl.a) return;
            sl.a.reset();
            if (sl.owns) { if (is_shared(sl.k)) --sh[sl.obj]; else ex[sl.obj] = false; }
            sl.owns = false;
        };
        size_t n = s.small(60);
        for (size_t i = 0; i < n; ++i)
        {
            int a = int(s.raw(slots - 1));
            Slot& sl = slot[a];
            static const unsigned weights[] = {5, 2, 2, 2};
            switch (s.weighted(weights))
            {
            case 0: // lock
            {
                int o = int(s.raw(objs - 1));
                Kind k = Kind(s.raw(kinds - 1));
                while (!C::has(k)) k = Kind((k + 1) % kinds);
                bool fault = s.chance(1, 6), second = s.chance(1, 3);
                TR("slot" << a << " = dm" << o << "." << kname[k] << (fault ? " (fails)" : ""));
                drop(sl);
                held(1);
                bool ok = !fault && !ex[o] && (is_shared(k) || !sh[o]);
                long ops = mock[o]->ops, other = mock[1 - o]->ops;
                mock[o]->fail_next = fault;
                bool thrown = false;
                try { sl.a.reset(second ? C::lock2(*dm[o], k) : C::lock(*dm[o], k)); }
                catch (LockError& e) { thrown = true; REQ(e.n == 1 + is_shared(k)); }
                REQM(mock[o]->ops != ops && mock[1 - o]->ops == other, "the mutex was used " << mock[o]->ops - ops << " times, the other " << mock[1 - o]->ops - other);
                REQM(thrown == (!ok && !is_try(k)), kname[k] << (thrown ? " threw" : " did not throw"));
                sl.obj = o; sl.k = k; sl.owns = ok;
                if (ok) { if (is_shared(k)) ++sh[o]; else ex[o] = true; }
                else s.nontrivial();
                break;
            }
            case 1: // release
                TR("drop slot" << a);
                drop(sl);
                break;
            case 2: // move
            {
                int b = int(s.raw(slots - 1));
                if (!sl.a || a == b) break;
                bool later = s.coin(); // the source dies later
                TR("slot" << b << " = move(slot" << a << ")" << (later ? "" : ", source destroyed"));
                drop(slot[b]);
                held(2);
                slot[b].a.reset(sl.a->move());
                slot[b].obj = sl.obj; slot[b].k = sl.k; slot[b].owns = sl.owns;
                sl.owns = false;
                s.nontrivial();
                if (!later) drop(sl);
                break;
            }
            default: // write
                if (sl.a && sl.owns && is_mut(sl.k))
                {
                    int x = int(s.raw(999));
                    TR("write " << x << " through slot" << a);
                    sl.a->write(x);
                    val[sl.obj] = x;
                }
            }
            held(3);
            for (auto& x : slot) if (x.a) look(x);
        }
        for (auto& x : slot) drop(x);
        held(4);
        REQ(tstats().live == objs);
        for (auto& d : dm) d.reset();
    }
    REQM(tstats().live == 0, tstats().live << " data objects not destroyed");
}

// real threads and mutexes
struct Pair { long a = 0, b = 0; };

template <typename M> struct Shared
{
    using DM = itlib::data_mutex<Pair, M>;
    static void read(const DM& d, bool tr)
    {
        if (tr) { auto l = d.try_unique_lock(); if (l) REQM(l->a == -l->b, "half of a modification is visible: " << l->a << ", " << l->b); }
        else { auto l = d.unique_lock(); REQM(l->a == -l->b, "half of a modification is visible: " << l->a << ", " << l->b); }
    }
};
#if __cplusplus >= 201703L
template <> struct Shared<std::shared_mutex>
{
    using DM = itlib::data_mutex<Pair, std::shared_mutex>;
    static void read(const DM& d, bool tr)
    {
        if (tr) { auto l = d.try_shared_lock(); if (l) REQM(l->a == -l->b, "half of a modification is visible: " << l->a << ", " << l->b); }
        else { auto l = d.shared_lock(); REQM(l->a == -l->b, "half of a modification is visible: " << l->a << ", " << l->b); }
    }
};
#endif
template <typename M> void threads(pbt::Source& s)
{
    const int n = 2 + int(s.raw(3));
    const int rounds = 20 + int(s.raw(300));
    const uint64_t seed = s.raw(1 << 20);
    TR(n << " threads, " << rounds << " rounds, seed " << seed);
    typename Shared<M>::DM d;
    std::atomic<long> done{0};
    run_threads(n, [&](int t) {
        uint64_t r = pbt::mix64(seed + uint64_t(t));
        long mine = 0;
        for (int i = 0; i < rounds; ++i)
        {
            r = pbt::mix64(r);
            switch (r % 4)
            {
            case 0: { auto l = d.unique_lock(); ++l->a; if (r & 64) std::this_thread::yield(); --l->b; ++mine; break; }
            case 1: { auto l = d.try_unique_lock(); if (l) { auto k = std::move(l); REQ(!l); ++(*k).a; if (r & 64) std::this_thread::yield(); --(*k).b; ++mine; } break; }
            case 2: Shared<M>::read(d, false); break;
            default: Shared<M>::read(d, true); break;
            }
        }
        done.fetch_add(mine, std::memory_order_relaxed);
    });
    auto l = d.try_unique_lock();
    REQM(bool(l), "still locked at the end");
    REQM(l->a == done.load() && l->b == -l->a, "modifications were lost: " << l->a << ", " << l->b << " after " << done.load());
    s.nontrivial();
}

#if !VT_ONLY_THREADS
PBT_REG(full, history<Full>, 100000);
PBT_REG(exclusive, history<ExOnly>, 40000);
PBT_REG(bare, history<BareOnly>, 15000);
#endif
PBT_REG(threads_mutex, threads<std::mutex>, 3000, pbt::F_THREADS | pbt::F_NOLEAK);
#if __cplusplus >= 201703L
PBT_REG(threads_shared, threads<std::shared_mutex>, 3000, pbt::F_THREADS | pbt::F_NOLEAK);
#endif
}

// arguments of the constructor arrive as they were given
#if __cplusplus >= 201703L
namespace
{
void forwarding_run(pbt::Source& s)
{
    using fwd::Probe;
    s.nontrivial();
    const int v = s.range<int>(1, 9), w = s.range<int>(1, 9);
    fwd::give2(s, v, w, [&](auto&& a, auto&& b, char k, char l) {
        TR("constructed of '" << k << l << "'");
        itlib::data_mutex<Probe, std::mutex> two(FW(a), FW(b));
        fwd::same(*two.unique_lock(), v, w, k, l);
    });
    fwd::give(s, v, [&](auto&& a, char k) {
        itlib::data_mutex<Probe, std::mutex> one(FW(a));
        fwd::same(*one.unique_lock(), v, k);
    });
}
}
PBT_REG(forwarding, forwarding_run, 5000);
#endif

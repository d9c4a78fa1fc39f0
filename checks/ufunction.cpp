// ufunction: which callable runs, how often callables are copied and destroyed (P19)
#include "common.hpp"
#include <initializer_list>
#include <itlib/ufunction.hpp>
#include <functional>
#include <memory>

using namespace vt;

namespace
{
struct Stats { long live = 0, copies = 0; };
Stats& st() { static Stats x; return x; }

// what calls report
struct Log { int id = 0; long calls = 0; };
Log& lg() { static Log l; return l; }

template <size_t Pad, bool CanCopy>
struct Callable
{
    int id;
    int counter = 0;
    bool gone = false;
    Tracked t;
    char pad[Pad];
    explicit Callable(int i) : id(i), t(i) { ++st().live; }
    Callable(Callable&& o) noexcept : id(o.id), counter(o.counter), t(std::move(o.t)) { o.gone = true; ++st().live; }
    Callable& operator=(Callable&& o) noexcept { id = o.id; counter = o.counter; gone = o.gone; t = std::move(o.t); o.gone = true; return *this; }
    Callable(typename std::conditional<CanCopy, const Callable&, int*>::type o) : t(0) { copy(o); ++st().live; ++st().copies; }
    Callable(std::initializer_list<Callable>) : id(-1), t(-1) { gone = true; ++st().live; } // what braces would prefer to moving
    ~Callable() { --st().live; }
    void copy(const Callable& o) { id = o.id; counter = o.counter; t = o.t; }
    void copy(int*) {}

    int operator()(int a) { run(); return id * 1000 + a + 100000 * counter++; }
    std::unique_ptr<int> operator()(std::unique_ptr<int> p) { run(); *p += id; return p; }
    int& operator()(int& r, Tracked&& v, const Tracked& c, Tracked by_value)
    {
        run();
        Tracked taken(std::move(v));
        r = id + taken.get() + c.get() + by_value.get();
        return r;
    }
    void run()
    {
        if (gone) FAIL("a moved-from callable was called");
        if (t.get() != id) FAIL("callable with wrong contents called");
        lg().id = id;
        ++lg().calls;
    }
};
using Small = Callable<1, true>;
using Large = Callable<300, true>;
using SmallU = Callable<1, false>;
using LargeU = Callable<100, false>;

template <int I> int fun_i(int a) { lg().id = -I; ++lg().calls; return -I * 1000 + a; }
template <int I> std::unique_ptr<int> fun_p(std::unique_ptr<int> p) { lg().id = -I; ++lg().calls; *p += -I; return p; }
template <int I> int& fun_r(int& r, Tracked&& v, const Tracked& c, Tracked b) { lg().id = -I; ++lg().calls; Tracked x(std::move(v)); r = -I + x.get() + c.get() + b.get(); return r; }

struct Thrower { int id; int operator()(int) { throw id; } std::unique_ptr<int> operator()(std::unique_ptr<int>) { throw id; } int& operator()(int&, Tracked&&, const Tracked&, Tracked) { throw id; } };

struct M { int kind = 0; int id = 0; int counter = 0; }; // kind 0: empty

template <typename F> struct Sig;
template <> struct Sig<int(int)>
{
    using P = int (*)(int);
    static P fn(int i) { return i == 1 ? fun_i<1> : fun_i<2>; }
    static void call(pbt::Source& s, itlib::ufunction<int(int)>& f, M& m, bool via_const)
    {
        int a = s.range<int>(0, 900);
        int r = via_const ? static_cast<const itlib::ufunction<int(int)>&>(f)(a) : f(a);
        int want = m.kind >= 7 ? m.id * 1000 + a : m.id * 1000 + a + 100000 * m.counter++;
        REQM(r == want, "call returned " << r << ", expected " << want);
    }
};
template <> struct Sig<std::unique_ptr<int>(std::unique_ptr<int>)>
{
    using F = std::unique_ptr<int>(std::unique_ptr<int>);
    using P = F*;
    static P fn(int i) { return i == 1 ? fun_p<1> : fun_p<2>; }
    static void call(pbt::Source& s, itlib::ufunction<F>& f, M& m, bool via_const)
    {
        int a = s.range<int>(0, 900);
        std::unique_ptr<int> p(new int(a));
        int* raw = p.get();
        auto r = via_const ? static_cast<const itlib::ufunction<F>&>(f)(std::move(p)) : f(std::move(p));
        REQM(r.get() == raw && *r == a + m.id, "call returned something else than its argument plus " << m.id);
    }
};
template <> struct Sig<int&(int&, Tracked&&, const Tracked&, Tracked)>
{
    using F = int&(int&, Tracked&&, const Tracked&, Tracked);
    using P = F*;
    static P fn(int i) { return i == 1 ? fun_r<1> : fun_r<2>; }
    static void call(pbt::Source& s, itlib::ufunction<F>& f, M& m, bool via_const)
    {
        int out = 0;
        Tracked a(s.range<int>(0, 100)), b(s.range<int>(0, 100)), c(s.range<int>(0, 100));
        int av = a.get(), bv = b.get(), cv = c.get();
        long copies = tstats().copies;
        int& r = via_const ? static_cast<const itlib::ufunction<F>&>(f)(out, std::move(a), b, c) : f(out, std::move(a), b, c);
        REQM(&r == &out, "reference argument or result was not forwarded");
        REQM(out == m.id + av + bv + cv, "call computed " << out);
        REQM(a.v == moved_value, "rvalue argument was not forwarded as such");
        REQM(b.get() == bv && c.get() == cv, "arguments passed as lvalues were changed");
        REQM(tstats().copies == copies + 1, "arguments copied " << (tstats().copies - copies) << " times, once expected (the one passed by value)");
    }
};

template <typename F>
struct Machine
{
    using U = itlib::ufunction<F>;
    enum { slots = 4 };
    pbt::Source& s;
    std::unique_ptr<U> f[slots];
    M m[slots];
    int next = 1;
    explicit Machine(pbt::Source& src) : s(src) { for (auto& x : f) x.reset(new U); }

    // store a callable of some kind, by construction or assignment
    template <typename C>
    void store_obj(size_t i, bool construct)
    {
        C c(m[i].id);
        long copies = st().copies;
        if (construct) f[i].reset(new U(std::move(c)));
        else { U& r = (*f[i] = std::move(c)); REQ(&r == f[i].get()); }
        REQM(st().copies == copies, "storing an rvalue copied it " << (st().copies - copies) << " times");
        REQM(c.gone, "storing an rvalue did not move it");
    }
    template <typename C>
    void store_copy(size_t i, bool construct)
    {
        C c(m[i].id);
        long copies = st().copies;
        if (construct) f[i].reset(new U(c));
        else *f[i] = c;
        REQM(st().copies == copies + 1, "storing an lvalue copied it " << (st().copies - copies) << " times");
        REQM(!c.gone && c.t.get() == m[i].id, "storing an lvalue changed it");
    }

    void store(size_t i)
    {
        bool construct = s.coin();
        int kind = 1 + int(s.raw(9));
        m[i] = M();
        m[i].kind = kind;
        m[i].id = next++;
        TR("f" << i << (construct ? " = new with" : " =") << " callable kind " << kind << ", id " << m[i].id);
        switch (kind)
        {
        case 1: store_obj<Small>(i, construct); break;
        case 2: store_obj<Large>(i, construct); break;
        case 3: store_obj<SmallU>(i, construct); break;
        case 4: store_obj<LargeU>(i, construct); break;
        case 5: store_copy<Small>(i, construct); break;
        case 6: store_copy<Large>(i, construct); break;
        case 7: case 8:
        {
            int w = kind - 6;
            m[i].id = -w;
            auto p = Sig<F>::fn(w);
            if (construct) f[i].reset(new U(p)); else { U& r = (*f[i] = p); REQ(&r == f[i].get()); }
            break;
        }
        case 9: // null function pointer: empty
        {
            typename Sig<F>::P p = nullptr;
            if (construct) f[i].reset(new U(p)); else *f[i] = p;
            m[i] = M();
            break;
        }
        default:
        {
            Thrower t{m[i].id};
            if (construct) f[i].reset(new U(t)); else *f[i] = t;
            break;
        }
        }
    }

    void check_all()
    {
        long holders = 0;
        for (size_t i = 0; i < slots; ++i)
        {
            const U& c = *f[i];
            REQM(bool(c) == (m[i].kind != 0), "f" << i << " is " << (c ? "not empty" : "empty"));
            if (m[i].kind >= 1 && m[i].kind <= 6) ++holders;
        }
        REQM(st().live == holders, "there are " << st().live << " callables alive, " << holders << " are stored");
        REQ(tstats().live == holders);
    }

    void run()
    {
        size_t nops = s.small(40);
        for (size_t k = 0; k < nops; ++k)
        {
            size_t i = s.raw(slots - 1), j = s.raw(slots - 1);
            long copies = st().copies;
            bool storing = false;
            switch (s.raw(9))
            {
            case 0: case 1: store(i); storing = true; break;
            case 2: // move assignment; a moved-from std::function is unspecified: it is reassigned
                TR("f" << i << " = move(f" << j << ")");
                if (i != j) { U& r = (*f[i] = std::move(*f[j])); REQ(&r == f[i].get()); m[i] = m[j]; settle(j); s.nontrivial(); }
                break;
            case 3:
                TR("f" << i << " = new from move(f" << j << ")");
                if (i != j) { f[i].reset(new U(std::move(*f[j]))); m[i] = m[j]; settle(j); s.nontrivial(); }
                break;
            case 4: // swap by moves
                if (i != j) { TR("swap f" << i << ", f" << j); std::swap(*f[i], *f[j]); std::swap(m[i], m[j]); s.nontrivial(); }
                break;
            case 5: TR("f" << i << " = nullptr"); if (s.coin()) { U& r = (*f[i] = nullptr); REQ(&r == f[i].get()); } else f[i].reset(new U(nullptr)); m[i] = M(); break;
            case 6: TR("f" << i << " = {}"); if (s.coin()) *f[i] = U(); else f[i].reset(new U); m[i] = M(); break;
            default: call(i); break;
            }
            if (!storing) REQM(st().copies == copies, "a stored callable was copied");
            check_all();
        }
        for (size_t i = 0; i < slots; ++i) { call(i); check_all(); }
        for (auto& x : f) x.reset();
        REQM(st().live == 0, "callables leaked");
    }

    void settle(size_t j)
    {
        if (s.coin()) { *f[j] = nullptr; }
        else f[j].reset(new U);
        m[j] = M();
    }

    void call(size_t i)
    {
        TR("call f" << i << " kind " << m[i].kind);
        long calls = lg().calls;
        if (m[i].kind == 0 || m[i].kind == 10)
        {
            bool threw = false;
            try { M x; Sig<F>::call(s, *f[i], x, false); }
            catch (std::bad_function_call&) { threw = m[i].kind == 0; }
            catch (int t) { threw = m[i].kind == 10 && t == m[i].id; }
            REQM(threw, "call of " << (m[i].kind ? "a throwing function did not throw what it throws" : "an empty function did not throw bad_function_call"));
            return;
        }
        Sig<F>::call(s, *f[i], m[i], s.coin());
        REQM(lg().calls == calls + 1 && lg().id == m[i].id, "called " << (lg().calls - calls) << " times, last was " << lg().id << ", expected " << m[i].id);
        s.nontrivial();
    }
};

template <typename F> void run(pbt::Source& s)
{
    st() = Stats();
    lg() = Log();
    { Machine<F> m(s); m.run(); }
}

template <typename F> struct Traits
{
    using U = itlib::ufunction<F>;
    static_assert(!std::is_copy_constructible<U>::value && !std::is_copy_assignable<U>::value, "a ufunction is not copyable");
    static_assert(std::is_nothrow_move_constructible<U>::value && std::is_nothrow_move_assignable<U>::value, "a ufunction moves without exceptions");
    static_assert(!std::is_convertible<U, bool>::value && std::is_constructible<bool, U>::value, "explicit operator bool");
};
template struct Traits<int(int)>;

// recursive, replacing and lambda use
void lambdas(pbt::Source& s)
{
    int n = s.range<int>(0, 20), hits = 0;
    std::shared_ptr<int> sp = std::make_shared<int>(3);
    std::unique_ptr<int> up(new int(n));
    itlib::ufunction<int(int)> f;
    f = [&](int x) { ++hits; return x <= 0 ? 0 : x + f(x - 1); };
    REQ(f(n) == n * (n + 1) / 2 && hits == n + 1);
#if __cplusplus >= 201402L
    f = [up = std::move(up), sp](int x) mutable { *up += x; return *up; };
    REQ(sp.use_count() == 2);
    REQ(f(1) == n + 1 && f(2) == n + 3);
#else
    f = [sp](int x) { return x + *sp; };
    REQ(sp.use_count() == 2 && f(4) == 7);
#endif
    itlib::ufunction<int(int)> g(std::move(f));
    REQ(sp.use_count() == 2 && g);
    f = [](int x) { return -x; };
    REQ(f(n) == -n);
    std::vector<itlib::ufunction<int(int)>> v;
    for (int i = 0; i < n; ++i) v.push_back([sp, i](int x) { return x * i; });
    REQ(sp.use_count() == 2 + n);
    for (int i = 0; i < n; ++i) REQ(v[size_t(i)](7) == 7 * i);
    v.erase(v.begin(), v.begin() + n / 2);
    REQ(sp.use_count() == 2 + n - n / 2);
    g = nullptr;
    v.clear();
    REQ(sp.use_count() == 1);
    itlib::ufunction<void(int&)> h = [](int& r) { r += 5; return 77; };
    int q = n;
    h(q);
    REQ(q == n + 5);
    s.nontrivial();
}

PBT_REG(ints, run<int(int)>, 100000);
PBT_REG(uptrs, (run<std::unique_ptr<int>(std::unique_ptr<int>)>), 60000);
PBT_REG(refs, (run<int&(int&, Tracked&&, const Tracked&, Tracked)>), 60000);
PBT_REG(lambda, lambdas, 20000);
}

// expected: state machine, contents and lifetimes (P10)
#include "common.hpp"
#include "fwd.hpp"
#include <itlib/expected.hpp>
#include <type_traits>

using namespace vt;

namespace
{
using Err = TrackedT<16>;

template <typename T> struct Val
{
    static int get(const T& t) { return Elem<T>::get(t); }
    static constexpr bool copyable = std::is_copy_constructible<T>::value;
};

template <typename T, typename E>
struct Machine
{
    using X = itlib::expected<T, E>;
    static constexpr bool is_void = std::is_void<T>::value;
    static constexpr bool is_ref = std::is_reference<T>::value;
    static constexpr bool is_val = !is_void && !is_ref;
    static constexpr bool e_void = std::is_void<E>::value;
    using V = typename std::conditional<is_void, int, typename std::remove_reference<T>::type>::type;
    using D = typename std::conditional<e_void, int, E>::type;
    static constexpr bool copyable_x = e_void && (!is_val || std::is_copy_constructible<V>::value);
    static constexpr bool throwing = std::is_same<V, ThrowT>::value;

    struct M
    {
        bool has = true;
        int v = 0;          // value, or index of the object referred to, or error
        bool moved = false; // content was moved away
    };
    enum { slots = 3, pool = 4 };

    pbt::Source& s;
    std::unique_ptr<X> sut[slots];
    M mod[slots];
    std::vector<std::unique_ptr<V>> objs; // referred to / lvalue sources
    int objv[pool];

    explicit Machine(pbt::Source& src) : s(src)
    {
        for (int i = 0; i < pool; ++i)
        {
            objv[i] = 500 + i;
            objs.emplace_back(new V(Elem<V>::make(objv[i])));
        }
    }

    int num() { return s.range<int>(0, 99); }

    static bool moved_visible(const V&) { return false; }

    void check(size_t i)
    {
        X& x = *sut[i];
        const X& c = x;
        const M& m = mod[i];
        REQM(c.has_value() == m.has, "object " << i << " has_value() is " << c.has_value());
        REQM(c.has_error() == !m.has, "has_error() is " << c.has_error());
        REQM(bool(c) == m.has, "operator bool is " << bool(c));
        if (m.has)
        {
            if constexpr (is_ref)
            {
                REQM(&c.value() == objs[m.v].get() && &x.value() == objs[m.v].get(), "refers to another object");
                REQ(&*c == objs[m.v].get() && c.operator->() == objs[m.v].get());
            }
            else if constexpr (is_val)
            {
                REQ(&x.value() == &c.value() && &*x == &*c && &*x == &x.value() && x.operator->() == &*x && c.operator->() == &*c);
                if (!m.moved) REQ_EQ(Elem<V>::get(c.value()), m.v);
            }
        }
        else if constexpr (!e_void)
        {
            REQ(&x.error() == &c.error());
            if (!m.moved) REQ_EQ(Elem<D>::get(c.error()), m.v);
        }
    }

    void check_pool()
    {
        for (int i = 0; i < pool; ++i) REQM(Elem<V>::get(*objs[i]) == objv[i], "an object passed as an lvalue was modified");
    }

    // what a new expected is made of; f receives an rvalue expected
    template <typename F>
    void produce(M& m, F f)
    {
        const bool val = !s.chance(1, 2);
        m = M();
        m.has = val;
        if (val)
        {
            if constexpr (is_void)
            {
                TR("  value (void)");
                f(X());
            }
            else if constexpr (is_ref)
            {
                m.v = int(s.raw(pool - 1));
                TR("  reference to object " << m.v);
                f(X(*objs[m.v]));
            }
            else
            {
                switch (s.raw(2))
                {
                case 0:
                    m.v = num();
                    TR("  value " << m.v);
                    f(X(Elem<V>::make(m.v)));
                    break;
                case 1:
                    TR("  default value");
                    if constexpr (std::is_arithmetic<V>::value) { m.v = 0; f(X()); }
                    else { m.v = 0; f(X()); }
                    break;
                default:
                    if constexpr (Val<V>::copyable)
                    {
                        int k = int(s.raw(pool - 1));
                        m.v = objv[k];
                        TR("  copy of object " << k);
                        f(X(V(*objs[k])));
                    }
                    else
                    {
                        m.v = num();
                        TR("  value " << m.v);
                        V tmp = Elem<V>::make(m.v);
                        f(X(std::move(tmp)));
                    }
                    break;
                }
            }
        }
        else
        {
            if constexpr (e_void)
            {
                TR("  unexpected()");
                f(X(itlib::unexpected()));
            }
            else
            {
                switch (s.raw(3))
                {
                case 0:
                    TR("  unexpected()");
                    m.v = Elem<D>::get(D());
                    f(X(itlib::unexpected()));
                    break;
                case 1:
                    m.v = num();
                    TR("  unexpected(" << m.v << ")");
                    f(X(itlib::unexpected(Elem<D>::make(m.v))));
                    break;
                case 2:
                    if constexpr (Val<D>::copyable)
                    {
                        m.v = num();
                        TR("  unexpected(lvalue " << m.v << ")");
                        D lv = Elem<D>::make(m.v);
                        f(X(itlib::unexpected(lv)));
                        REQM(Elem<D>::get(lv) == m.v, "unexpected(lvalue) moved from the caller's object");
                        s.label("unexpected(lvalue)");
                        break;
                    }
                    // fallthrough
                default:
                    m.v = num();
                    TR("  unexpected(const/named rvalue " << m.v << ")");
                    if constexpr (Val<D>::copyable)
                    {
                        const D cv = Elem<D>::make(m.v);
                        f(X(itlib::unexpected(cv)));
                        REQ(Elem<D>::get(cv) == m.v);
                    }
                    else
                    {
                        D lv = Elem<D>::make(m.v);
                        f(X(itlib::unexpected(std::move(lv))));
                    }
                    break;
                }
            }
        }
    }

    void step(size_t op)
    {
        size_t i = s.raw(slots - 1);
        size_t j = s.raw(slots - 1);
        X& x = *sut[i];
        M& m = mod[i];
        switch (op)
        {
        case 0: // new object
        {
            TR("x" << i << " = new");
            M nm;
            produce(nm, [&](X&& e) { sut[i].reset(new X(std::move(e))); });
            m = nm;
            break;
        }
        case 1: // assign a fresh value or error
        {
            TR("x" << i << " (" << (m.has ? "value" : "error") << ") = ");
            M nm;
            bool before = m.has;
            produce(nm, [&](X&& e) { X& r = (x = std::move(e)); REQ(&r == &x); });
            m = nm;
            s.label(before ? (m.has ? "assign value <- value" : "assign value <- error") : (m.has ? "assign error <- value" : "assign error <- error"));
            s.nontrivial();
            break;
        }
        case 2: // move assign
        {
            if (i == j) break;
            TR("x" << j << " = move(x" << i << ")");
            X& r = (*sut[j] = std::move(x));
            REQ(&r == sut[j].get());
            if (mod[j].has != m.has) s.label("move assign switches the state");
            mod[j] = m;
            moved(i);
            s.nontrivial();
            check(j);
            break;
        }
        case 3: // move construct
        {
            if (i == j) break;
            TR("x" << j << " = new from move(x" << i << ")");
            std::unique_ptr<X> n(new X(std::move(x)));
            sut[j] = std::move(n);
            mod[j] = m;
            moved(i);
            s.nontrivial();
            check(j);
            break;
        }
        case 4: // write through the accessors
        {
            if (m.has)
            {
                if constexpr (is_val)
                {
                    m.v = num();
                    m.moved = false;
                    TR("x" << i << " value written: " << m.v);
                    switch (s.raw(2))
                    {
                    case 0: x.value() = Elem<V>::make(m.v); break;
                    case 1: *x = Elem<V>::make(m.v); break;
                    default: *x.operator->() = Elem<V>::make(m.v); break;
                    }
                }
                else if constexpr (is_ref)
                {
                    objv[m.v] = num();
                    TR("x" << i << " writes " << objv[m.v] << " to object " << m.v);
                    if (s.coin()) x.value() = Elem<V>::make(objv[m.v]);
                    else *x = Elem<V>::make(objv[m.v]);
                }
            }
            else if constexpr (!e_void)
            {
                m.v = num();
                m.moved = false;
                TR("x" << i << " error written: " << m.v);
                x.error() = Elem<D>::make(m.v);
            }
            break;
        }
        case 5: // take the content out
        {
            if (m.has)
            {
                if constexpr (is_val)
                {
                    TR("x" << i << " value taken");
                    V t = s.coin() ? std::move(x).value() : *std::move(x);
                    if (!m.moved) REQ_EQ(Elem<V>::get(t), m.v);
                    m.moved = true;
                }
            }
            else if constexpr (!e_void)
            {
                TR("x" << i << " error taken");
                D t = std::move(x).error();
                if (!m.moved) REQ_EQ(Elem<D>::get(t), m.v);
                m.moved = true;
            }
            break;
        }
        case 6: // value_or
            if constexpr (is_val)
            {
                int k = int(s.raw(pool - 1));
                const X& c = x;
                TR("x" << i << ".value_or(object " << k << ")");
                if constexpr (Val<V>::copyable)
                {
                    if (s.coin())
                    {
                        V r = c.value_or(*objs[k]);
                        if (!m.has) REQ_EQ(Elem<V>::get(r), objv[k]);
                        else if (!m.moved) REQ_EQ(Elem<V>::get(r), m.v);
                        check(i);
                    }
                    else
                    {
                        V r = c.value_or(Elem<V>::make(77));
                        if (!m.has) REQ_EQ(Elem<V>::get(r), 77);
                        else if (!m.moved) REQ_EQ(Elem<V>::get(r), m.v);
                    }
                }
                if (s.coin())
                {
                    TR("  rvalue value_or");
                    V r = std::move(x).value_or(Elem<V>::make(78));
                    if (!m.has) REQ_EQ(Elem<V>::get(r), 78);
                    else { if (!m.moved) REQ_EQ(Elem<V>::get(r), m.v); m.moved = true; }
                }
            }
            else if constexpr (is_ref)
            {
                int k = int(s.raw(pool - 1));
                TR("x" << i << ".value_or(object " << k << ")");
                V& r = x.value_or(*objs[k]);
                REQ(&r == (m.has ? objs[m.v].get() : objs[k].get()));
            }
            break;
        case 7: // copies
            if constexpr (copyable_x)
            {
                if constexpr (throwing)
                {
                    if (s.chance(1, 3) && m.has)
                    {
                        TR("x" << j << " = x" << i << ", the copy throws");
                        if (i == j) break;
                        bool threw = false;
                        ThrowT::armed() = 1;
                        try
                        {
                            if (s.coin()) *sut[j] = static_cast<const X&>(x);
                            else { X tmp(static_cast<const X&>(x)); }
                        }
                        catch (ThrowT::boom&) { threw = true; }
                        ThrowT::armed() = 0;
                        REQ(threw);
                        s.label("throwing copy");
                        check(i);
                        // whatever state the destination is in now, it must be usable
                        mod[j].has = sut[j]->has_value();
                        mod[j].moved = true;
                        check(j);
                        s.nontrivial();
                        break;
                    }
                }
                if (s.coin())
                {
                    TR("x" << j << " = x" << i << " (copy)");
                    X& r = (*sut[j] = static_cast<const X&>(x));
                    REQ(&r == sut[j].get());
                    mod[j] = m;
                }
                else
                {
                    TR("x" << j << " = new copy of x" << i);
                    std::unique_ptr<X> n(new X(static_cast<const X&>(x)));
                    M nm = m;
                    sut[j] = std::move(n);
                    mod[j] = nm;
                }
                s.nontrivial();
                check(j);
            }
            break;
        case 8: // clear
            if constexpr (e_void)
            {
                TR("x" << i << ".clear()");
                x.clear();
                m.has = false;
            }
            break;
        case 9: // emplace
            if constexpr (e_void)
            {
                if constexpr (is_void) { TR("x" << i << ".emplace()"); x.emplace(); m = M(); }
                else if constexpr (is_ref)
                {
                    m = M();
                    m.v = int(s.raw(pool - 1));
                    TR("x" << i << ".emplace(object " << m.v << ")");
                    x.emplace(*objs[m.v]);
                }
                else
                {
                    m = M();
                    if constexpr (throwing)
                    {
                        if (s.chance(1, 3))
                        {
                            TR("x" << i << ".emplace(throws)");
                            ThrowT::armed() = 1;
                            bool threw = false;
                            try { x.emplace(5); }
                            catch (ThrowT::boom&) { threw = true; }
                            ThrowT::armed() = 0;
                            REQ(threw);
                            REQM(!x.has_value(), "emplace threw, but there is a value");
                            m.has = false;
                            s.label("throwing emplace");
                            s.nontrivial();
                            break;
                        }
                    }
                    m.v = num();
                    TR("x" << i << ".emplace(" << m.v << ")");
                    if constexpr (std::is_constructible<V, int, int>::value && !std::is_same<V, std::string>::value)
                    {
                        if (s.coin()) { x.emplace(m.v, 7); m.v = m.v * 1000 + 7; }
                        else x.emplace(m.v);
                    }
                    else x.emplace(Elem<V>::make(m.v));
                    s.nontrivial();
                }
            }
            break;
        }
        check(i);
        check_pool();
    }

    void moved(size_t i)
    {
        // the source keeps its state; its content is whatever a moved-from object is
        M& m = mod[i];
        REQM(sut[i]->has_value() == m.has, "moving from an expected changed its state");
        if (!(m.has && is_ref)) m.moved = true;
    }

    void run()
    {
        const unsigned base[] = {4, 8, 6, 4, 4, 3, 4, 6, 3, 6};
        pbt::Swarm<10> sw(s, base);
        for (size_t i = 0; i < slots; ++i)
        {
            TR("x" << i << " = new");
            produce(mod[i], [&](X&& e) { sut[i].reset(new X(std::move(e))); });
            check(i);
        }
        size_t steps = 1 + s.small(40);
        for (size_t i = 0; i < steps && !(i > 3 && s.out_of_data()); ++i) step(sw.next(s));
        for (size_t i = 0; i < slots; ++i) { check(i); sut[i].reset(); }
        objs.clear();
    }
};

template <typename T, typename E>
void drive(pbt::Source& s)
{
    arena_reset();
    ThrowT::armed() = 0;
    {
        Machine<T, E> m(s);
        m.run();
    }
    REQM(live() == 0, live() << " values or errors are alive after their expecteds are gone");
}

// errors of convertible types, returned through functions
itlib::expected<std::string, std::string> fun(int k, std::string arg)
{
    switch (k)
    {
    case 0: return arg;
    case 1: return itlib::unexpected(arg);
    case 2: return itlib::unexpected("literal");
    case 3: return itlib::unexpected();
    default: return {};
    }
}
void functions(pbt::Source& s)
{
    int k = int(s.raw(4));
    std::string arg = Elem<std::string>::make(s.range<int>(1, 99));
    auto r = fun(k, arg);
    TR("fun(" << k << ", " << arg << ")");
    REQ_EQ(r.has_value(), k == 0 || k == 4);
    if (k == 0) REQ_EQ(*r, arg);
    if (k == 1) REQ_EQ(r.error(), arg);
    if (k == 2) REQ_EQ(r.error(), std::string("literal"));
    if (k == 3) REQ_EQ(r.error(), std::string());
    if (k == 4) REQ_EQ(r.value(), std::string());
    REQ_EQ(r.value_or("other"), (k == 0 ? arg : k == 4 ? std::string() : std::string("other")));
    itlib::expected<void, std::string> v = itlib::unexpected(std::move(arg));
    REQ(!v);
    v = fun(4, "").has_value() ? itlib::expected<void, std::string>() : itlib::expected<void, std::string>(itlib::unexpected());
    REQ(v.has_value());
    s.nontrivial();
}
}

PBT_REG(tracked_tracked, (drive<Tracked, Err>), 30000);
PBT_REG(moveonly_string, (drive<MoveOnly, std::string>), 20000);
PBT_REG(string_int, (drive<std::string, int>), 15000);
PBT_REG(int_uptr, (drive<int, std::unique_ptr<int>>), 15000);
PBT_REG(err_big_moveonly, (drive<int, MoveOnly>), 15000);
PBT_REG(ref_tracked, (drive<Tracked&, Err>), 30000);
PBT_REG(ref_string, (drive<int&, std::string>), 15000);
PBT_REG(ref_uptr, (drive<Tracked&, std::unique_ptr<int>>), 15000);
PBT_REG(void_tracked, (drive<void, Err>), 30000);
PBT_REG(void_uptr, (drive<void, std::unique_ptr<int>>), 15000);
PBT_REG(opt_throw, (drive<ThrowT, void>), 30000);
PBT_REG(opt_string, (drive<std::string, void>), 15000);
PBT_REG(opt_moveonly, (drive<MoveOnly, void>), 15000);
PBT_REG(opt_ref, (drive<Tracked&, void>), 15000);
PBT_REG(opt_void, (drive<void, void>), 10000);
PBT_REG(through_functions, functions, 5000);

// arguments arrive as they were given
namespace
{
template <typename X>
void value_or_kinds(pbt::Source& s, bool has)
{
    fwd::give(s, 7, [&](auto&& a, char k) {
        const long made = fwd::Probe::made();
        X x{fwd::Probe(fwd::Arg{3})};
        if (!has) x = X(itlib::unexpected());
        const bool rv = s.coin();
        TR((rv ? "rvalue" : "const") << (has ? " with a value" : " with no value") << ": value_or '" << k << "'");
        const X& c = x;
        fwd::Probe p = rv ? std::move(x).value_or(FW(a)) : c.value_or(FW(a));
        if (has) fwd::same(p, 3, 'r');
        else fwd::same(p, 7, k);
        REQ_EQ(fwd::Probe::made() - made, 2 - has);
    });
}
void forwarding_run(pbt::Source& s)
{
    using fwd::Probe;
    s.nontrivial();
    itlib::expected<Probe, void> x;
    size_t n = 1 + s.small(8);
    for (size_t i = 0; i < n; ++i)
    {
        const bool has = s.coin();
        const int v = s.range<int>(1, 9), w = s.range<int>(1, 9);
        switch (s.raw(4))
        {
        case 0: value_or_kinds<itlib::expected<Probe, void>>(s, has); break;
        case 1: value_or_kinds<itlib::expected<Probe, int>>(s, has); break;
        case 2:
            fwd::give(s, v, [&](auto&& a, char k) { TR("emplace '" << k << "'"); x.emplace(FW(a)); fwd::same(x.value(), v, k); });
            break;
        case 3:
            fwd::give2(s, v, w, [&](auto&& a, auto&& b, char k, char l) { TR("emplace '" << k << l << "'"); x.emplace(FW(a), FW(b)); fwd::same(x.value(), v, w, k, l); });
            break;
        default:
            if (has)
            {
                // an error made of another type, given as an lvalue or an rvalue
                fwd::Arg a{v};
                const bool r = s.coin();
                TR("error from an " << (r ? "rvalue" : "lvalue"));
                itlib::expected<int, Probe> e = r ? itlib::expected<int, Probe>(itlib::unexpected(std::move(a))) : itlib::expected<int, Probe>(itlib::unexpected(a));
                fwd::same(e.error(), v, r ? 'r' : 'l');
                const fwd::Arg c{w};
                itlib::expected<void, Probe> f = itlib::unexpected(c);
                fwd::same(f.error(), w, 'c');
                itlib::expected<int&, Probe> g = itlib::unexpected(fwd::Arg{v});
                fwd::same(g.error(), v, 'r');
            }
            else x.clear();
        }
    }
}
}
PBT_REG(forwarding, forwarding_run, 10000);

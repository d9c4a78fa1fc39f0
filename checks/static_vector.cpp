// P03 (sequence equivalence) and P04 (capacity overflow) of itlib::static_vector
#include <iterator>
#include <stdexcept>
#include <utility>
#include <initializer_list>
#include <itlib/static_vector.hpp>
#include "common.hpp"
#include "fwd.hpp"

using namespace vt;

#ifndef VT_OVERFLOW
#   define VT_OVERFLOW 0
#endif

namespace
{

template <typename E, size_t N, bool Copyable = true>
struct StV
{
    using vec = itlib::static_vector<E, N>;
    using L = Elem<E>;
    static constexpr size_t nslots = 3;

    pbt::Source& s;
    std::unique_ptr<vec> sut[nslots];
    std::vector<int> mod[nslots];

    explicit StV(pbt::Source& src) : s(src)
    {
        for (auto& v : sut) v.reset(new vec);
    }

    void verify()
    {
        size_t total = 0;
        for (size_t i = 0; i < nslots; ++i)
        {
            const vec& c = *sut[i];
            vec& v = *sut[i];
            auto& m = mod[i];
            REQM(c.size() == m.size(), "slot " << i << " size " << c.size() << " expected " << m.size());
            REQ(c.size() <= N && vec::capacity() == N && vec::max_size() == N);
            REQ(c.empty() == m.empty());
            REQ(size_t(c.end() - c.begin()) == m.size() && size_t(v.end() - v.begin()) == m.size() && size_t(c.cend() - c.cbegin()) == m.size());
            auto b = reinterpret_cast<const char*>(&c), d = reinterpret_cast<const char*>(c.data());
            REQM(d >= b && d + N * sizeof(E) <= b + sizeof(vec), "data is not inside of the object");
            REQ(c.data() == v.data() && c.data() == c.begin());
            for (size_t k = 0; k < m.size(); ++k)
            {
                int got = L::get(c[k]);
                REQM(got == m[k], "slot " << i << " element " << k << " is " << got << " expected " << m[k]);
                REQ(&c.at(k) == c.data() + k && &v[k] == v.data() + k && &v.at(k) == v.data() + k);
            }
            if (!m.empty())
            {
                REQ(&c.front() == c.data() && &v.front() == v.data());
                REQ(&c.back() == c.data() + (m.size() - 1) && &v.back() == v.data() + (m.size() - 1));
                REQ(&*c.rbegin() == &c.back() && &*v.rbegin() == &v.back() && &*c.crbegin() == &c.back());
                REQ(&*(c.rend() - 1) == &c.front() && &*(v.rend() - 1) == &v.front() && &*(c.crend() - 1) == &c.front());
            }
            REQ(size_t(c.rend() - c.rbegin()) == m.size());
            total += m.size();
        }
        if (L::tracked) REQM(live() == long(total), "live elements " << live() << " expected " << total);
    }

    size_t pos(size_t i, bool incl_end)
    {
        size_t n = mod[i].size();
        return size_t(s.raw(incl_end ? n : n - 1));
    }
    int val() { return s.range<int>(0, 99); }

    // number of elements to add: mostly what fits, otherwise anything
    size_t count(size_t n, bool huge)
    {
        const size_t room = N - n;
        if (VT_OVERFLOW && s.chance(1, 2))
        {
            if (huge)
            {
                switch (s.raw(4))
                {
                case 0: return ~size_t(0);
                case 1: return ~size_t(0) - n + size_t(s.raw(2)); // wraps around size() + count
                case 2: return (~size_t(0)) / 2 + size_t(s.raw(3));
                case 3: return size_t(1) << s.raw(63);
                }
            }
            return room + size_t(s.raw(3));
        }
        return s.chance(1, 10) ? room + 1 : size_t(s.raw(room));
    }

    // runs f; it must throw out_of_range iff `overflow`
    template <typename F>
    bool guarded(bool overflow, const char* what, F f)
    {
        bool threw = false;
        try { f(); }
        catch (std::out_of_range&) { threw = true; }
        REQM(threw == overflow, what << (overflow ? ": no std::out_of_range although the capacity is exceeded" : ": std::out_of_range although the elements fit"));
        if (threw) { s.label(what); s.nontrivial(); }
        return !threw;
    }
    // after a failed assign the contents are unspecified but must be valid
    void resync(size_t i)
    {
        REQ(sut[i]->size() <= N);
        mod[i] = values<E>(*sut[i]);
    }

    void two_args(size_t, size_t, bool, std::false_type) {}
    void two_args(size_t i, size_t at, bool back, std::true_type)
    {
        vec& v = *sut[i];
        auto& m = mod[i];
        const size_t n = m.size();
        int x = val(), y = val();
        TR("v" << i << (back ? ".emplace_back(" : ".emplace(begin+") << (back ? "" : std::to_string(at) + ", ") << x << ", " << y << ") at size " << n);
        if (guarded(n + 1 > N, "emplace of two arguments", [&] {
            if (back) { E& r = v.emplace_back(x, y); REQ(&r == &v.back()); }
            else { auto it = v.emplace(v.cbegin() + at, x, y); REQ(it == v.begin() + at); }
        })) { m.insert(m.begin() + at, x * 1000 + y); s.nontrivial(); }
    }

    // the length of a range far longer than the capacity
    std::ptrdiff_t huge_length()
    {
        switch (s.raw(3))
        {
        case 0: return PTRDIFF_MAX - std::ptrdiff_t(s.raw(3));
        case 1: return (std::ptrdiff_t(1) << (8 + s.raw(54))) + std::ptrdiff_t(s.raw(N));
        case 2: return (std::ptrdiff_t(1 + s.raw(7)) << 32) + std::ptrdiff_t(s.raw(N));
        default: return (std::ptrdiff_t(3) << (8 + s.raw(52))) - std::ptrdiff_t(s.raw(N));
        }
    }

    void step(size_t op);
    void copy_step(size_t op, std::true_type);
    void copy_step(size_t, std::false_type) {}

    void run()
    {
        static const unsigned base[] = {8, 8, 8, 6, 3, 6, 6, 6, 3, 3, 3, 4, 3, 3, 2, 3, /*copy*/ 8, 6, 6, 6, 4, 5, 4, 4, 3, 3, 3, 4, 5, 3};
        constexpr size_t nops = sizeof(base) / sizeof(*base);
        unsigned w[nops];
        for (size_t i = 0; i < nops; ++i) w[i] = (i < 16 || Copyable) ? base[i] : 0;
        pbt::Swarm<nops> sw(s, w);
        size_t steps = 1 + size_t(s.raw(60));
        for (size_t k = 0; k < steps && !s.out_of_data(); ++k)
        {
            step(sw.next(s));
            verify();
        }
        for (auto& v : sut) v.reset();
        if (L::tracked) REQM(live() == 0, "elements outlive their vector");
    }
};

template <typename E, size_t N, bool C>
void StV<E, N, C>::step(size_t op)
{
    size_t i = size_t(s.raw(nslots - 1));
    vec& v = *sut[i];
    auto& m = mod[i];
    const size_t n = m.size();
    if (op >= 16) { copy_step(op, std::integral_constant<bool, C>()); return; }
    switch (op)
    {
    case 0:
    {
        int x = val(); TR("v" << i << ".push_back(E(" << x << ")) at size " << n);
        E e = L::make(x);
        if (guarded(n + 1 > N, "push_back&&", [&] { v.push_back(std::move(e)); })) m.push_back(x);
        else REQM(L::get(e) == x, "a rejected push_back consumed its argument");
        break;
    }
    case 1:
    {
        if (from_two<E>::value && s.chance(1, 3)) { two_args(i, n, true, from_two<E>()); break; }
        int x = val(); TR("v" << i << ".emplace_back(" << x << ") at size " << n);
        if (guarded(n + 1 > N, "emplace_back", [&] { E& r = v.emplace_back(L::make(x)); REQ(&r == &v.back()); })) m.push_back(x);
        break;
    }
    case 2:
    {
        size_t at = pos(i, true); int x = val();
        TR("v" << i << ".insert(begin+" << at << ", E(" << x << ")) at size " << n);
        E e = L::make(x);
        if (guarded(n + 1 > N, "insert&&", [&] { auto it = v.insert(v.cbegin() + at, std::move(e)); REQM(it == v.begin() + at, "insert returned a wrong iterator"); })) m.insert(m.begin() + at, x);
        else REQM(L::get(e) == x, "a rejected insert consumed its argument");
        if (at < n && n < N) s.nontrivial();
        break;
    }
    case 3:
    {
        if (from_two<E>::value && s.chance(1, 3)) { two_args(i, pos(i, true), false, from_two<E>()); break; }
        size_t at = pos(i, true); int x = val();
        TR("v" << i << ".emplace(begin+" << at << ", " << x << ") at size " << n);
        if (guarded(n + 1 > N, "emplace", [&] { auto it = v.emplace(v.begin() + at, L::make(x)); REQ(it == v.begin() + at); })) m.insert(m.begin() + at, x);
        break;
    }
    case 4: if (n) { TR("v" << i << ".pop_back()"); v.pop_back(); m.pop_back(); } break;
    case 5:
        if (n)
        {
            size_t at = pos(i, false);
            TR("v" << i << ".erase(begin+" << at << ")");
            auto it = v.erase(v.cbegin() + at);
            m.erase(m.begin() + at);
            REQM(it == v.begin() + at, "erase returned a wrong iterator");
            s.nontrivial();
        }
        break;
    case 6:
    {
        size_t a = pos(i, true), b = pos(i, true);
        if (a > b) std::swap(a, b);
        TR("v" << i << ".erase(begin+" << a << ", begin+" << b << ")");
        auto it = v.erase(v.cbegin() + a, v.cbegin() + b);
        m.erase(m.begin() + a, m.begin() + b);
        REQM(it == v.begin() + a, "erase returned a wrong iterator");
        if (a == b) s.label("empty erase");
        s.nontrivial();
        break;
    }
    case 7: // resize
    {
        bool shrink = s.coin();
        size_t k = shrink ? size_t(s.raw(n)) : n + count(n, false);
        if (VT_OVERFLOW && s.chance(1, 4)) k = count(n, true);
        TR("v" << i << ".resize(" << k << ") at size " << n);
        if (guarded(k > N, "resize", [&] { v.resize(k); })) m.resize(k);
        break;
    }
    case 8: { TR("v" << i << ".clear()"); v.clear(); m.clear(); break; }
    case 9: // move construct
    {
        size_t j = size_t(s.raw(nslots - 1));
        if (j == i) break;
        TR("v" << j << " = new vec(std::move(v" << i << "))");
        sut[j].reset();
        sut[j].reset(new vec(std::move(v)));
        REQM(v.empty(), "moved-from vector is not empty");
        mod[j] = m;
        m.clear();
        break;
    }
    case 10: // move assign
    {
        size_t j = size_t(s.raw(nslots - 1));
        if (j == i) break;
        TR("v" << j << " = std::move(v" << i << ")");
        vec& r = (*sut[j] = std::move(v));
        REQ(&r == sut[j].get());
        REQM(v.empty(), "moved-from vector is not empty");
        mod[j] = m;
        m.clear();
        s.nontrivial();
        break;
    }
    case 11: // swap
    {
        size_t j = size_t(s.raw(nslots - 1));
        bool member = s.coin();
        if (i == j && !member) break;
        TR("swap(v" << i << ", v" << j << ")");
        if (member) sut[i]->swap(*sut[j]); else std::swap(*sut[i], *sut[j]);
        std::swap(mod[i], mod[j]);
        if (mod[i].size() != mod[j].size()) { s.nontrivial(); s.label("swap of different sizes"); }
        break;
    }
    case 12: // construct with a count
    {
        size_t k = count(0, true);
        TR("v" << i << " = new vec(" << k << ")");
        std::unique_ptr<vec> nv;
        if (guarded(k > N, "ctor(count)", [&] { nv.reset(new vec(k)); })) { sut[i] = std::move(nv); m.assign(k, 0); }
        break;
    }
    case 13: // fill completely, then one more
    {
        TR("fill v" << i);
        while (m.size() < N) { int x = val(); v.push_back(L::make(x)); m.push_back(x); }
        guarded(true, "push_back at capacity", [&] { v.emplace_back(L::make(1)); });
        break;
    }
    case 14: // pop_back from empty is out of range too
        if (n == 0)
        {
            TR("v" << i << ".pop_back() when empty");
            guarded(true, "pop_back of empty", [&] { v.pop_back(); });
        }
        break;
    case 15:
        if (n > 1)
        {
            size_t a = pos(i, false), b = pos(i, false);
            if (a == b) break;
            TR("std::swap(v" << i << "[" << a << "], [" << b << "])");
            std::swap(v[a], v[b]);
            std::swap(m[a], m[b]);
        }
        break;
    }
}

template <typename E, size_t N, bool C>
void StV<E, N, C>::copy_step(size_t op, std::true_type)
{
    size_t i = size_t(s.raw(nslots - 1));
    vec& v = *sut[i];
    auto& m = mod[i];
    const size_t n = m.size();
    switch (op)
    {
    case 16:
    {
        int x = val(); TR("v" << i << ".push_back(const E(" << x << ")&) at size " << n);
        const E e = L::make(x);
        if (guarded(n + 1 > N, "push_back", [&] { v.push_back(e); })) m.push_back(x);
        REQ(L::get(e) == x);
        break;
    }
    case 17:
    {
        size_t at = pos(i, true); int x = val();
        TR("v" << i << ".insert(begin+" << at << ", const E(" << x << ")&) at size " << n);
        const E e = L::make(x);
        if (guarded(n + 1 > N, "insert", [&] { auto it = v.insert(v.begin() + at, e); REQ(it == v.begin() + at); })) m.insert(m.begin() + at, x);
        REQ(L::get(e) == x);
        break;
    }
    case 18:
    {
        size_t at = pos(i, true), k = count(n, true); int x = val();
        TR("v" << i << ".insert(begin+" << at << ", " << k << ", E(" << x << ")) at size " << n);
        const E e = L::make(x);
        if (guarded(k > N - n, "insert(count)", [&] { auto it = v.insert(v.cbegin() + at, k, e); REQM(it == v.begin() + at, "insert returned a wrong iterator"); }))
            m.insert(m.begin() + at, k, x);
        if (k == 0) s.label("insert of nothing");
        s.nontrivial();
        break;
    }
    case 19:
    {
        if (VT_OVERFLOW && s.chance(1, 6))
        {
            size_t at = pos(i, true);
            auto len = huge_length();
            TR("v" << i << ".insert(begin+" << at << ", range of " << len << ") at size " << n);
            guarded(true, "insert(huge range)", [&] { v.insert(v.cbegin() + at, CountIt<E>{0}, CountIt<E>{len}); });
            break;
        }
        size_t at = pos(i, true), k = count(n, false);
        std::vector<int> xs;
        for (size_t q = 0; q < k; ++q) xs.push_back(val());
        TR("v" << i << ".insert(begin+" << at << ", range " << pbt::show(xs) << ") at size " << n);
        auto es = make_elems<E>(xs);
        if (guarded(k > N - n, "insert(range)", [&] {
            auto it = s.coin() ? v.insert(v.cbegin() + at, es.begin(), es.end()) : v.insert(v.cbegin() + at, (const E*)es.data(), (const E*)es.data() + es.size());
            REQM(it == v.begin() + at, "insert returned a wrong iterator");
        })) m.insert(m.begin() + at, xs.begin(), xs.end());
        for (size_t q = 0; q < es.size(); ++q) REQM(L::get(es[q]) == xs[q], "source range modified");
        s.nontrivial();
        break;
    }
    case 20:
    {
        size_t at = pos(i, true); int x = val(), y = val();
        TR("v" << i << ".insert(begin+" << at << ", il{" << x << "," << y << "}) at size " << n);
        if (guarded(n + 2 > N, "insert(il)", [&] { auto it = v.insert(v.cbegin() + at, {L::make(x), L::make(y)}); REQ(it == v.begin() + at); })) m.insert(m.begin() + at, {x, y});
        break;
    }
    case 21:
    {
        size_t k = s.coin() ? size_t(s.raw(n)) : n + count(n, false);
        if (VT_OVERFLOW && s.chance(1, 4)) k = count(n, true);
        int x = val();
        TR("v" << i << ".resize(" << k << ", E(" << x << ")) at size " << n);
        const E e = L::make(x);
        if (guarded(k > N, "resize(value)", [&] { v.resize(k, e); })) m.resize(k, x);
        s.nontrivial();
        break;
    }
    case 22:
    {
        size_t k = count(0, true); int x = val();
        TR("v" << i << ".assign(" << k << ", E(" << x << "))");
        const E e = L::make(x);
        if (guarded(k > N, "assign(count)", [&] { v.assign(k, e); })) m.assign(k, x); else resync(i);
        break;
    }
    case 23:
    {
        if (VT_OVERFLOW && s.chance(1, 6))
        {
            auto len = huge_length();
            TR("v" << i << ".assign(range of " << len << ") at size " << n);
            guarded(true, "assign(huge range)", [&] { v.assign(CountIt<E>{0}, CountIt<E>{len}); });
            resync(i);
            break;
        }
        size_t k = count(0, false);
        std::vector<int> xs;
        for (size_t q = 0; q < k; ++q) xs.push_back(val());
        TR("v" << i << ".assign(range " << pbt::show(xs) << ")");
        auto es = make_elems<E>(xs);
        if (guarded(k > N, "assign(range)", [&] { v.assign(es.begin(), es.end()); })) m = xs; else resync(i);
        break;
    }
    case 24:
    {
        int x = val(), y = val(), z = val();
        TR("v" << i << ".assign(il)");
        if (guarded(3 > N, "assign(il)", [&] { v.assign({L::make(x), L::make(y), L::make(z)}); })) m = {x, y, z}; else resync(i);
        break;
    }
    case 25: // copy construct
    {
        size_t j = size_t(s.raw(nslots - 1));
        if (j == i) break;
        TR("v" << j << " = new vec(v" << i << ")");
        const vec& cv = v;
        sut[j].reset();
        sut[j].reset(new vec(cv));
        mod[j] = m;
        s.nontrivial();
        break;
    }
    case 26: // copy assign, also to itself
    {
        size_t j = size_t(s.raw(nslots - 1));
        TR("v" << j << " = v" << i);
        const vec& cv = v;
        vec& r = (*sut[j] = cv);
        REQ(&r == sut[j].get());
        mod[j] = std::vector<int>(m);
        s.nontrivial();
        break;
    }
    case 27: // constructors, also from another capacity
    {
        if (VT_OVERFLOW && s.chance(1, 6))
        {
            auto len = huge_length();
            TR("new vec(range of " << len << ")");
            // on the heap: what is written past the end is seen
            guarded(true, "ctor(huge range)", [&] { std::unique_ptr<vec> x(new vec(CountIt<E>{0}, CountIt<E>{len})); });
            break;
        }
        auto kind = s.raw(4);
        size_t k = count(0, kind == 0);
        std::vector<int> xs;
        if (kind != 0) for (size_t q = 0; q < k; ++q) xs.push_back(val());
        std::unique_ptr<vec> nv;
        bool ok = false;
        if (kind == 0) { int x = val(); TR("v" << i << " = new vec(" << k << ", E(" << x << "))"); const E e = L::make(x); ok = guarded(k > N, "ctor(count, value)", [&] { nv.reset(new vec(k, e)); }); if (ok) xs.assign(k, x); }
        else if (kind == 1) { TR("v" << i << " = new vec(range " << pbt::show(xs) << ")"); auto es = make_elems<E>(xs); ok = guarded(k > N, "ctor(range)", [&] { nv.reset(new vec(es.begin(), es.end())); }); }
        else if (kind == 2)
        {
            TR("v" << i << " = new vec(static_vector of larger capacity " << pbt::show(xs) << ")");
            itlib::static_vector<E, N + 4> big;
            for (int x : xs) big.push_back(L::make(x));
            ok = guarded(k > N, "ctor(other capacity)", [&] { nv.reset(new vec(big)); });
            REQ(values<E>(big) == xs);
            if (ok) REQ(*nv == big && big == *nv && !(big != *nv));
        }
        else if (kind == 3)
        {
            TR("v" << i << " through a smaller capacity");
            xs.resize(std::min<size_t>(xs.size(), 1));
            itlib::static_vector<E, 1> sm;
            for (int x : xs) sm.push_back(L::make(x));
            nv.reset(new vec(sm));
            ok = true;
        }
        else { int x = val(), y = val(); TR("v" << i << " = new vec(il)"); xs = {x, y}; ok = guarded(2 > N, "ctor(il)", [&] { nv.reset(new vec({L::make(x), L::make(y)})); }); }
        if (ok) { sut[i] = std::move(nv); m = xs; }
        break;
    }
    case 28: // an element of the vector itself as the argument
        if (n)
        {
            size_t a = pos(i, false), at = pos(i, true);
            auto kind = s.raw(5);
            int x = m[a];
            size_t k = kind == 2 || kind == 3 ? count(n, false) : 1;
            TR("v" << i << " aliased insertion kind " << kind << " of [" << a << "] at " << at << " x" << k << " at size " << n);
            const bool over = k > N - n;
            switch (kind)
            {
            case 0: if (guarded(over, "aliased push_back", [&] { v.push_back(v[a]); })) m.push_back(x); break;
            case 1: if (guarded(over, "aliased insert", [&] { auto it = v.insert(v.cbegin() + at, v[a]); REQ(it == v.begin() + at); })) m.insert(m.begin() + at, x); break;
            case 2: if (guarded(over, "aliased insert(count)", [&] { auto it = v.insert(v.cbegin() + at, k, v[a]); REQ(it == v.begin() + at); })) m.insert(m.begin() + at, k, x); break;
            case 3: if (guarded(over, "aliased resize", [&] { v.resize(n + k, v[a]); })) m.resize(n + k, x); break;
            case 4: if (guarded(over, "aliased emplace_back", [&] { v.emplace_back(v[a]); })) m.push_back(x); break;
            case 5: if (guarded(over, "aliased emplace", [&] { auto it = v.emplace(v.cbegin() + at, v[a]); REQ(it == v.begin() + at); })) m.insert(m.begin() + at, x); break;
            }
            s.label("aliased argument");
            s.nontrivial();
        }
        break;
    case 29: // comparison
    {
        size_t j = size_t(s.raw(nslots - 1));
        TR("compare v" << i << ", v" << j);
        REQM((*sut[i] == *sut[j]) == (mod[i] == mod[j]), "operator== disagrees with std::vector");
        REQM((*sut[i] != *sut[j]) == (mod[i] != mod[j]), "operator!= disagrees with std::vector");
        itlib::static_vector<E, N + 2> o(v.begin(), v.end());
        REQ(o == v && v == o && !(o != v));
        if (n)
        {
            size_t a = pos(i, false);
            o[a] = L::make(m[a] + 1);
            REQ(!(o == v) && v != o);
            o[a] = L::make(m[a]);
            o.pop_back();
            REQ(!(o == v) && v != o);
        }
        break;
    }
    }
}

template <typename E, size_t N, bool C = true>
void drive(pbt::Source& s)
{
    arena_reset();
    {
        StV<E, N, C> t(s);
        t.run();
    }
    REQM(live() == 0, "live elements left");
}

} // namespace

#if VT_OVERFLOW
PBT_REG(o_int_4, (drive<int, 4>), 60000);
PBT_REG(o_tracked_1, (drive<Tracked, 1>), 60000);
PBT_REG(o_tracked_3, (drive<Tracked, 3>), 60000);
PBT_REG(o_string_5, (drive<std::string, 5>), 60000);
PBT_REG(o_moveonly_2, (drive<MoveOnly, 2, false>), 60000);
#else
PBT_REG(int_6, (drive<int, 6>), 60000);
PBT_REG(tracked_8, (drive<Tracked, 8>), 60000);
PBT_REG(tracked_17, (drive<Tracked, 17>), 60000);
PBT_REG(string_5, (drive<std::string, 5>), 60000);
#if __cplusplus >= 201703L
PBT_REG(overaligned_4, (drive<OverAligned, 4>), 60000);
#endif
PBT_REG(moveonly_7, (drive<MoveOnly, 7, false>), 60000);
PBT_REG(uptr_7, (drive<std::unique_ptr<int>, 7, false>), 60000);
#endif

// arguments of emplacements arrive as they were given
#if __cplusplus >= 201703L && !VT_OVERFLOW
namespace
{
void forwarding_run(pbt::Source& s)
{
    using fwd::Probe;
    itlib::static_vector<Probe, 12> c;
    std::vector<Probe> m;
    size_t n = 1 + s.small(10);
    s.nontrivial();
    for (size_t i = 0; i < n; ++i)
    {
        const int v = s.range<int>(1, 9), w = s.range<int>(1, 9);
        const size_t at = s.raw(m.size());
        const unsigned op = unsigned(s.raw(3));
        Probe e;
        const long made = Probe::made();
        fwd::give2(s, v, w, [&](auto&& x, auto&& y, char k, char l) {
            TR((op & 1 ? "emplace_back" : "emplace at ") << (op & 1 ? size_t() : at) << " '" << k << (op & 2 ? l : ' ') << "'");
            switch (op)
            {
            case 0: e = *c.emplace(c.begin() + at, FW(x)); fwd::same(e, v, k); break;
            case 1: c.emplace_back(FW(x)); e = c.back(); fwd::same(e, v, k); break;
            case 2: e = *c.emplace(c.cbegin() + at, FW(x), FW(y)); fwd::same(e, v, w, k, l); break;
            default: c.emplace_back(FW(x), FW(y)); e = c.back(); fwd::same(e, v, w, k, l); break;
            }
        });
        REQM(Probe::made() == made + 1, Probe::made() - made << " elements were made of the arguments");
        m.insert(op & 1 ? m.end() : m.begin() + at, e);
        REQ_EQ(c.size(), m.size());
        for (size_t j = 0; j < m.size(); ++j)
            REQM(c[j].v == m[j].v && c[j].w == m[j].w && c[j].a == m[j].a && c[j].b == m[j].b, "element " << j << " changed");
    }
}
}
PBT_REG(forwarding, forwarding_run, 10000);
#endif

// P01 (sequence equivalence) and P02 (storage guarantees) of itlib::small_vector
#include <iterator>
#include <stdexcept>
#include <itlib/small_vector.hpp>
#include "common.hpp"
#include "fwd.hpp"
#include <utility>

using namespace vt;

#ifndef VT_STORAGE
#   define VT_STORAGE 0
#endif

namespace
{

template <typename E, bool Copyable> struct CopyOps;

template <typename E, size_t N, size_t R, bool Copyable = true>
struct SV
{
    using A = Alloc<E>;
    using vec = itlib::small_vector<E, N, R, A>;
    using L = Elem<E>;
    static constexpr size_t nslots = 3;

    pbt::Source& s;
    std::unique_ptr<vec> sut[nslots];
    std::vector<int> mod[nslots];
    size_t limit; // sizes are kept around the interesting boundaries

    explicit SV(pbt::Source& src) : s(src)
    {
        limit = 3 * N + 8;
        for (size_t i = 0; i < nslots; ++i) sut[i].reset(new vec(A(int(i) + 1)));
    }

    static bool within(const vec& v, const void* p)
    {
        auto b = reinterpret_cast<const char*>(&v);
        return p >= b && p < b + sizeof(vec);
    }

    // full observation of one slot
    void verify_slot(size_t i)
    {
        const vec& c = *sut[i];
        vec& v = *sut[i];
        auto& m = mod[i];
        REQM(c.size() == m.size(), "slot " << i << " size " << c.size() << " expected " << m.size());
        REQ(c.empty() == m.empty());
        REQM(c.capacity() >= c.size(), "capacity below size");
        REQM(size_t(c.end() - c.begin()) == m.size() && size_t(v.end() - v.begin()) == m.size() && size_t(c.cend() - c.cbegin()) == m.size(), "iterator distance");
        REQ(c.data() == &*c.begin() || m.empty());
        for (size_t k = 0; k < m.size(); ++k)
        {
            int got = L::get(c[k]);
            REQM(got == m[k], "slot " << i << " element " << k << " is " << got << " expected " << m[k]);
            REQ(&c.at(k) == c.data() + k && &v[k] == v.data() + k && &v.at(k) == v.data() + k);
        }
        if (!m.empty())
        {
            REQ(&c.front() == c.data() && &v.front() == v.data());
            REQ(&c.back() == c.data() + (m.size() - 1) && &v.back() == v.data() + (m.size() - 1));
            REQ(&*c.rbegin() == &c.back() && &*v.rbegin() == &v.back() && &*c.crbegin() == &c.back());
            REQ(&*(c.rend() - 1) == &c.front() && &*(v.rend() - 1) == &v.front() && &*(c.crend() - 1) == &c.front());
        }
        REQ(size_t(c.rend() - c.rbegin()) == m.size());
        REQM(c.max_size() == c.get_allocator().max_size(), "max_size() is not the allocator's");
        // storage: the static buffer iff the vector says so
        REQM(c.is_static() == within(c, c.data()), "is_static() disagrees with where the data is");
        if (c.is_static()) REQM(c.capacity() == N, "static capacity reported as " << c.capacity());
        else
        {
            auto f = arena().blocks.find(c.data());
            REQM(f != arena().blocks.end(), "dynamic data is not a live block of the allocator");
            REQM(f->second.first == c.capacity(), "capacity() " << c.capacity() << " differs from the allocated " << f->second.first);
        }
    }

    void verify()
    {
        size_t total = 0, dyn = 0;
        for (size_t i = 0; i < nslots; ++i)
        {
            verify_slot(i);
            total += mod[i].size();
            dyn += !sut[i]->is_static();
        }
        if (L::tracked) REQM(live() == long(total), "live elements " << live() << " expected " << total);
        REQM(arena().blocks.size() == dyn, "allocated blocks " << arena().blocks.size() << " expected " << dyn);
        REQM(arena().constructed - arena().destroyed == long(total), "elements constructed through the allocator minus destroyed: "
            << arena().constructed - arena().destroyed << " expected " << total);
    }

    size_t pos(size_t i, bool incl_end) // an index
    {
        size_t n = mod[i].size();
        if (!incl_end) { return size_t(s.raw(n - 1)); }
        return size_t(s.raw(n));
    }

    int val() { return s.range<int>(0, 99); }

    // expectation about storage for operations which keep the standard's invalidation rules
    struct Pre { const E* data; size_t cap; size_t size; bool st; long allocs; };
    Pre pre(size_t i) { return {sut[i]->data(), sut[i]->capacity(), sut[i]->size(), sut[i]->is_static(), arena().allocations}; }
    void expect_grow(size_t i, const Pre& p, size_t newsize)
    {
        if (newsize <= p.cap)
        {
            REQM(sut[i]->data() == p.data, "elements were reallocated although the capacity sufficed");
            REQ(sut[i]->capacity() == p.cap);
            REQM(arena().allocations == p.allocs, "allocation although the capacity sufficed");
        }
        else
        {
            REQM(!sut[i]->is_static(), "claims to be static with more elements than the static capacity");
            s.label(p.st ? "static->dynamic" : "dynamic growth");
        }
    }
    // operations which reduce the size
    void expect_shrink(size_t i, const Pre& p, size_t newsize, bool must_revert)
    {
        REQM(arena().allocations == p.allocs, "a size-reducing operation allocated");
        if (p.st) { REQ(sut[i]->is_static()); return; }
        if (must_revert && R > 0 && newsize < R && newsize < p.size)
        {
            REQM(sut[i]->is_static(), "did not revert to the static buffer below RevertToStaticBelow");
            s.label("reverted by size");
        }
        else if (newsize >= R)
        {
            REQM(sut[i]->data() == p.data && sut[i]->capacity() == p.cap, "buffer changed by a reduction which does not go below RevertToStaticBelow");
        }
        else REQ(sut[i]->is_static() || sut[i]->data() == p.data);
    }

    bool two_args(size_t, size_t, bool, const Pre&, std::false_type) { return false; }
    bool two_args(size_t i, size_t at, bool back, const Pre& p, std::true_type)
    {
        if (!s.chance(1, 3)) return false;
        vec& v = *sut[i];
        auto& m = mod[i];
        int x = val(), y = val();
        TR("v" << i << (back ? ".emplace_back(" : ".emplace(begin+") << (back ? "" : std::to_string(at) + ", ") << x << ", " << y << ")");
        if (back) { E& r = v.emplace_back(x, y); REQ(&r == &v.back()); }
        else { auto it = v.emplace(v.cbegin() + at, x, y); REQ(it == v.begin() + at); }
        m.insert(m.begin() + at, x * 1000 + y);
        expect_grow(i, p, m.size());
        return true;
    }

    void step(size_t op);
    void copy_step(size_t op, std::true_type);
    void copy_step(size_t, std::false_type) {}

    void run()
    {
        static const unsigned base[] = {8, 8, 8, 6, 3, 6, 6, 6, 6, 4, 2, 3, 3, 3, 3, 3, 3, 2, 2, 2, /*copy*/ 8, 6, 6, 6, 4, 5, 4, 3, 3, 3, 3, 3, 5, 5, 3};
        constexpr size_t nops = sizeof(base) / sizeof(*base);
        unsigned w[nops];
        for (size_t i = 0; i < nops; ++i) w[i] = (i < 20 || Copyable) ? base[i] : 0;
        pbt::Swarm<nops> sw(s, w);
        size_t steps = 1 + size_t(s.raw(60));
        for (size_t k = 0; k < steps && !s.out_of_data(); ++k)
        {
            size_t op = sw.next(s);
            step(op);
            verify();
        }
        for (auto& v : sut) v.reset();
        if (L::tracked) REQM(live() == 0, "elements outlive their vector");
        REQM(arena().blocks.empty(), "memory outlives its vector");
    }
};

template <typename E, size_t N, size_t R, bool C>
void SV<E, N, R, C>::step(size_t op)
{
    size_t i = size_t(s.raw(nslots - 1));
    vec& v = *sut[i];
    auto& m = mod[i];
    const size_t n = m.size();
    if (op >= 20) { copy_step(op, std::integral_constant<bool, C>()); return; }
    // keep sizes around the boundaries
    if (n > limit && op < 4) op = 5;
    Pre p = pre(i);
    switch (op)
    {
    case 0: { int x = val(); TR("v" << i << ".push_back(E(" << x << "))"); v.push_back(L::make(x)); m.push_back(x); expect_grow(i, p, n + 1); if (n == N) s.nontrivial(); break; }
    case 1: if (two_args(i, n, true, p, from_two<E>())) break; { int x = val(); TR("v" << i << ".emplace_back(" << x << ")"); E& r = v.emplace_back(L::make(x)); m.push_back(x); REQ(&r == &v.back()); expect_grow(i, p, n + 1); break; }
    case 2:
    {
        size_t at = pos(i, true); int x = val();
        TR("v" << i << ".insert(begin+" << at << ", E(" << x << "))");
        auto it = v.insert(v.cbegin() + at, L::make(x));
        m.insert(m.begin() + at, x);
        REQM(it == v.begin() + at, "insert returned a wrong iterator");
        expect_grow(i, p, n + 1);
        if (at < n) { s.nontrivial(); s.label("insert in the middle"); }
        break;
    }
    case 3:
    {
        if (two_args(i, pos(i, true), false, p, from_two<E>())) break;
        size_t at = pos(i, true); int x = val();
        TR("v" << i << ".emplace(begin+" << at << ", " << x << ")");
        auto it = v.emplace(v.begin() + at, L::make(x));
        m.insert(m.begin() + at, x);
        REQ(it == v.begin() + at);
        expect_grow(i, p, n + 1);
        break;
    }
    case 4: if (n) { TR("v" << i << ".pop_back()"); v.pop_back(); m.pop_back(); expect_shrink(i, p, n - 1, true); } break;
    case 5:
        if (n)
        {
            size_t at = pos(i, false);
            TR("v" << i << ".erase(begin+" << at << ")");
            auto it = v.erase(v.cbegin() + at);
            m.erase(m.begin() + at);
            REQM(it == v.begin() + at, "erase returned a wrong iterator");
            expect_shrink(i, p, n - 1, true);
            s.nontrivial();
        }
        break;
    case 6:
    {
        size_t a = pos(i, true), b = pos(i, true);
        if (a > b) std::swap(a, b);
        TR("v" << i << ".erase(begin+" << a << ", begin+" << b << ")");
        auto it = v.erase(v.cbegin() + a, v.cbegin() + b);
        m.erase(m.begin() + a, m.begin() + b);
        REQM(it == v.begin() + a, "erase returned a wrong iterator");
        expect_shrink(i, p, m.size(), true);
        if (a == b) s.label("empty erase");
        s.nontrivial();
        break;
    }
    case 7: // many push_backs
    {
        size_t k = s.small(N + 3);
        TR("v" << i << ".emplace_back x" << k);
        for (size_t q = 0; q < k && m.size() <= limit; ++q) { int x = val(); v.push_back(L::make(x)); m.push_back(x); }
        break;
    }
    case 8: // resize
    {
        size_t k = s.coin() ? size_t(s.raw(limit)) : size_t(s.raw(n + 2));
        TR("v" << i << ".resize(" << k << ")");
        v.resize(k);
        m.resize(k);
        if (k > n) expect_grow(i, p, k); else expect_shrink(i, p, k, false);
        s.nontrivial();
        break;
    }
    case 9: { TR("v" << i << ".clear()"); v.clear(); m.clear(); expect_shrink(i, p, 0, true); break; }
    case 10:
    {
        size_t k = size_t(s.raw(limit * 2));
        TR("v" << i << ".reserve(" << k << ")");
        v.reserve(k);
        REQM(v.capacity() >= k, "reserve did not reserve");
        if (k <= p.cap) REQM(v.data() == p.data && v.capacity() == p.cap, "reserve within the capacity changed the buffer");
        else { s.label("reserve grows"); s.nontrivial(); }
        break;
    }
    case 11:
    {
        TR("v" << i << ".shrink_to_fit()");
        bool r = v.shrink_to_fit();
        REQM(r == (v.data() != p.data), "shrink_to_fit() returned " << r << " but the buffer " << (v.data() != p.data ? "changed" : "did not change"));
        if (n <= N) REQM(v.is_static(), "shrink_to_fit() did not revert to the static buffer although the elements fit");
        else REQM(v.capacity() == n, "shrink_to_fit() left capacity " << v.capacity() << " for " << n << " elements");
        s.label(r ? "shrink_to_fit did shrink" : "shrink_to_fit no-op");
        if (r) s.nontrivial();
        break;
    }
    case 12:
    {
        TR("v" << i << ".revert_to_static()");
        bool r = v.revert_to_static();
        REQM(r == v.is_static(), "revert_to_static() returned " << r << " but is_static() is " << v.is_static());
        REQM(r == (n <= N), "revert_to_static() returned " << r << " with " << n << " elements, static capacity " << N);
        if (!r) REQ(v.data() == p.data && v.capacity() == p.cap);
        if (r && !p.st) { s.label("revert_to_static did revert"); s.nontrivial(); }
        break;
    }
    case 13: // move construct over a slot
    {
        size_t j = size_t(s.raw(nslots - 1));
        if (j == i) break;
        TR("v" << j << " = new vec(std::move(v" << i << "))");
        sut[j].reset();
        long mv = tstats().moves;
        std::unique_ptr<vec> nv(new vec(std::move(v)));
        if (!p.st)
        {
            REQM(nv->data() == p.data && nv->capacity() == p.cap, "moving a dynamic vector did not take its buffer");
            REQM(tstats().moves == mv && arena().allocations == p.allocs, "moving a dynamic vector moved elements or allocated");
            s.label("move of a dynamic vector"); s.nontrivial();
        }
        else REQ(nv->is_static());
        REQM(v.empty(), "moved-from vector is not empty");
        REQM(nv->get_allocator().id != 0, "allocator lost by the move");
        mod[j] = m;
        m.clear();
        sut[j] = std::move(nv);
        break;
    }
    case 14: // move assign
    {
        size_t j = size_t(s.raw(nslots - 1));
        TR("v" << j << " = std::move(v" << i << ")");
        if (j == i)
        {
            vec& self = v;
            v = std::move(self);
            s.label("self move");
            break; // nothing changes
        }
        long mv = tstats().moves;
        int id = v.get_allocator().id;
        vec& r = (*sut[j] = std::move(v));
        REQ(&r == sut[j].get());
        if (!p.st)
        {
            REQM(sut[j]->data() == p.data && tstats().moves == mv && arena().allocations == p.allocs, "move-assigning a dynamic vector did not take its buffer");
            s.label("move of a dynamic vector"); s.nontrivial();
        }
        REQM(v.empty(), "moved-from vector is not empty");
        REQM(r.get_allocator().id == id, "allocator did not follow the buffer");
        mod[j] = m;
        m.clear();
        break;
    }
    case 15: // std::swap
    {
        size_t j = size_t(s.raw(nslots - 1));
        bool member = s.coin();
        TR((member ? "member swap(v" : "std::swap(v") << i << ", v" << j << ")");
        if (member)
        {
            Pre pj = pre(j);
            sut[i]->swap(*sut[j]); // also with itself
            if (!p.st) REQM(sut[j]->data() == p.data && sut[j]->capacity() == p.cap, "swapping a dynamic vector did not hand over its buffer");
            if (!pj.st) REQM(sut[i]->data() == pj.data && sut[i]->capacity() == pj.cap, "swapping a dynamic vector did not hand over its buffer");
        }
        else
        {
            if (i == j) break;
            std::swap(*sut[i], *sut[j]);
        }
        if (i == j) break;
        std::swap(mod[i], mod[j]);
        break;
    }
    case 16: // insert / erase with an iterator outside of the vector: std::out_of_range, nothing changes
    {
        bool ins = s.coin();
        bool threw = false;
        TR("v" << i << (ins ? ".insert" : ".erase") << " out of range");
        try
        {
            if (ins) v.emplace(v.cend() + 1, L::make(1));
            else if (s.coin()) v.erase(v.cend() + 1);
            else v.erase(v.cend(), v.cend() + 1);
        }
        catch (std::out_of_range&) { threw = true; }
        REQM(threw, "no std::out_of_range for an iterator outside of the vector");
        REQ(v.data() == p.data && v.capacity() == p.cap);
        s.label("out of range");
        break;
    }
    case 17: // construct with a count
    {
        size_t k = size_t(s.raw(limit));
        TR("v" << i << " = new vec(" << k << ")");
        int id = v.get_allocator().id;
        sut[i].reset();
        sut[i].reset(new vec(k, A(id)));
        m.assign(k, 0);
        REQ(sut[i]->is_static() == (k <= N));
        break;
    }
    case 18: // fill from the back, erase from the front: a queue
    {
        size_t k = s.small(2 * N + 2);
        TR("v" << i << " as a queue x" << k);
        for (size_t q = 0; q < k; ++q)
        {
            int x = val();
            v.emplace_back(L::make(x)); m.push_back(x);
            if (q & 1) { v.erase(v.begin()); m.erase(m.begin()); }
        }
        break;
    }
    case 19: // swap two elements / move an element out and back
        if (n > 1)
        {
            size_t a = pos(i, false), b = pos(i, false);
            if (a == b) break;
            TR("std::swap(v" << i << "[" << a << "], [" << b << "])");
            std::swap(v[a], v[b]);
            std::swap(m[a], m[b]);
        }
        break;
    }
}

template <typename E, size_t N, size_t R, bool C>
void SV<E, N, R, C>::copy_step(size_t op, std::true_type)
{
    size_t i = size_t(s.raw(nslots - 1));
    vec& v = *sut[i];
    auto& m = mod[i];
    const size_t n = m.size();
    if (n > limit && (op < 24 || op > 31)) return;
    Pre p = pre(i);
    switch (op)
    {
    case 20: { int x = val(); TR("v" << i << ".push_back(const E(" << x << ")&)"); const E e = L::make(x); v.push_back(e); REQ(L::get(e) == x); m.push_back(x); expect_grow(i, p, n + 1); break; }
    case 21:
    {
        size_t at = pos(i, true); int x = val();
        TR("v" << i << ".insert(begin+" << at << ", const E(" << x << ")&)");
        const E e = L::make(x);
        auto it = v.insert(v.begin() + at, e);
        REQ(L::get(e) == x);
        m.insert(m.begin() + at, x);
        REQ(it == v.begin() + at);
        expect_grow(i, p, n + 1);
        break;
    }
    case 22:
    {
        size_t at = pos(i, true), k = s.small(N + 4); int x = val();
        TR("v" << i << ".insert(begin+" << at << ", " << k << ", E(" << x << "))");
        const E e = L::make(x);
        auto it = v.insert(v.cbegin() + at, k, e);
        m.insert(m.begin() + at, k, x);
        REQM(it == v.begin() + at, "insert returned a wrong iterator");
        expect_grow(i, p, n + k);
        if (k == 0) s.label("insert of nothing");
        s.nontrivial();
        break;
    }
    case 23:
    {
        size_t at = pos(i, true);
        auto xs = gen_ints(s, N + 4);
        TR("v" << i << ".insert(begin+" << at << ", range " << pbt::show(xs) << ")");
        auto es = make_elems<E>(xs);
        auto it = s.coin() ? v.insert(v.cbegin() + at, es.begin(), es.end()) : v.insert(v.cbegin() + at, (const E*)es.data(), (const E*)es.data() + es.size());
        for (size_t k = 0; k < es.size(); ++k) REQM(L::get(es[k]) == xs[k], "source range modified");
        m.insert(m.begin() + at, xs.begin(), xs.end());
        REQM(it == v.begin() + at, "insert returned a wrong iterator");
        expect_grow(i, p, n + xs.size());
        if (xs.empty()) s.label("insert of nothing");
        s.nontrivial();
        break;
    }
    case 24:
    {
        size_t at = pos(i, true); int x = val(), y = val();
        TR("v" << i << ".insert(begin+" << at << ", il{" << x << "," << y << "})");
        auto it = v.insert(v.cbegin() + at, {L::make(x), L::make(y)});
        m.insert(m.begin() + at, {x, y});
        REQ(it == v.begin() + at);
        expect_grow(i, p, n + 2);
        break;
    }
    case 25:
    {
        size_t k = s.coin() ? size_t(s.raw(limit)) : size_t(s.raw(n + 2));
        int x = val();
        TR("v" << i << ".resize(" << k << ", E(" << x << "))");
        const E e = L::make(x);
        v.resize(k, e);
        m.resize(k, x);
        if (k > n) expect_grow(i, p, k); else expect_shrink(i, p, k, false);
        s.nontrivial();
        break;
    }
    case 26: { size_t k = size_t(s.raw(limit)); int x = val(); TR("v" << i << ".assign(" << k << ", E(" << x << "))"); const E e = L::make(x); v.assign(k, e); m.assign(k, x); break; }
    case 27:
    {
        auto xs = gen_ints(s, limit);
        TR("v" << i << ".assign(range " << pbt::show(xs) << ")");
        auto es = make_elems<E>(xs);
        v.assign(es.begin(), es.end());
        for (size_t k = 0; k < es.size(); ++k) REQM(L::get(es[k]) == xs[k], "source range modified");
        m = xs;
        break;
    }
    case 28: { int x = val(), y = val(), z = val(); TR("v" << i << ".assign(il)"); v.assign({L::make(x), L::make(y), L::make(z)}); m = {x, y, z}; break; }
    case 29: // copy construct
    {
        size_t j = size_t(s.raw(nslots - 1));
        if (j == i) break;
        bool with = s.coin();
        TR("v" << j << " = new vec(v" << i << (with ? ", alloc)" : ")"));
        sut[j].reset();
        const vec& cv = v;
        sut[j].reset(with ? new vec(cv, A(50)) : new vec(cv));
        mod[j] = m;
        REQ(sut[j]->get_allocator().id == (with ? 50 : v.get_allocator().id));
        REQ(sut[j]->data() != v.data() || m.empty());
        s.nontrivial();
        break;
    }
    case 30: // copy assign, also to itself
    {
        size_t j = size_t(s.raw(nslots - 1));
        TR("v" << j << " = v" << i);
        const vec& cv = v;
        vec& r = (*sut[j] = cv);
        REQ(&r == sut[j].get());
        mod[j] = std::vector<int>(m);
        if (i == j) s.label("self assignment");
        s.nontrivial();
        break;
    }
    case 31: // constructors
    {
        int id = v.get_allocator().id;
        auto kind = s.raw(2);
        sut[i].reset();
        if (kind == 0) { size_t k = size_t(s.raw(limit)); int x = val(); TR("v" << i << " = new vec(" << k << ", E(" << x << "))"); const E e = L::make(x); sut[i].reset(new vec(k, e, A(id))); m.assign(k, x); }
        else if (kind == 1) { auto xs = gen_ints(s, limit); TR("v" << i << " = new vec(range " << pbt::show(xs) << ")"); auto es = make_elems<E>(xs); sut[i].reset(new vec(es.begin(), es.end(), A(id))); m = xs; }
        else { int x = val(), y = val(); TR("v" << i << " = new vec(il)"); sut[i].reset(new vec({L::make(x), L::make(y)}, A(id))); m = {x, y}; }
        REQM(sut[i]->is_static() == (m.size() <= N), "a new vector is static iff its elements fit");
        break;
    }
    case 32: // an element of the vector itself as the argument
        if (n)
        {
            size_t a = pos(i, false), at = pos(i, true);
            auto kind = s.raw(6);
            int x = m[a];
            size_t k = kind == 2 || kind == 3 ? s.small(N + 2) : 1;
            TR("v" << i << " aliased insertion kind " << kind << " of [" << a << "] at " << at << " x" << k);
            switch (kind)
            {
            case 0: v.push_back(v[a]); m.push_back(x); break;
            case 1: { auto it = v.insert(v.cbegin() + at, v[a]); m.insert(m.begin() + at, x); REQ(it == v.begin() + at); break; }
            case 2: { auto it = v.insert(v.cbegin() + at, k, v[a]); m.insert(m.begin() + at, k, x); REQ(it == v.begin() + at); break; }
            case 3: v.resize(n + k, v[a]); m.resize(n + k, x); break;
            case 4: v.emplace_back(v[a]); m.push_back(x); break;
            case 5: { auto it = v.emplace(v.cbegin() + at, v[a]); m.insert(m.begin() + at, x); REQ(it == v.begin() + at); break; }
            case 6: { const vec& cv = v; v.push_back(cv.back()); m.push_back(m.back()); break; }
            }
            expect_grow(i, p, n + k);
            s.label("aliased argument");
            s.nontrivial();
        }
        break;
    case 33: // comparison
    {
        size_t j = size_t(s.raw(nslots - 1));
        TR("compare v" << i << ", v" << j);
        REQM((*sut[i] == *sut[j]) == (mod[i] == mod[j]), "operator== disagrees with std::vector");
        REQM((*sut[i] != *sut[j]) == (mod[i] != mod[j]), "operator!= disagrees with std::vector");
        // with another instantiation
        itlib::small_vector<E, N + 2, 0, A> o(v.begin(), v.end(), A(9));
        REQ(o == v && v == o && !(o != v));
        if (n)
        {
            size_t a = pos(i, false);
            o[a] = L::make(m[a] + 1);
            REQ(!(o == v) && v != o);
            o[a] = L::make(m[a]);
            o.pop_back();
            REQ(!(o == v) && v != o);
        }
        break;
    }
    case 34: // copy through iterators, both directions
    {
        std::vector<int> f, b;
        const vec& cv = v;
        for (auto it = cv.begin(); it != cv.end(); ++it) f.push_back(L::get(*it));
        for (auto it = cv.rbegin(); it != cv.rend(); ++it) b.push_back(L::get(*it));
        REQ(f == m);
        REQ(std::vector<int>(m.rbegin(), m.rend()) == b);
        break;
    }
    }
}

template <typename E, size_t N, size_t R, bool C = true>
void drive(pbt::Source& s)
{
    arena_reset();
    {
        SV<E, N, R, C> t(s);
        t.run();
    }
    REQM(live() == 0, "live elements left");
}

// default template arguments and std::allocator, with huge counts of pushes
template <typename E>
void defaults(pbt::Source& s)
{
    arena_reset();
    {
        itlib::small_vector<E> v;
        std::vector<int> m;
        REQ(v.is_static() && v.capacity() == 16 && v.empty());
        size_t n = s.small(300);
        for (size_t i = 0; i < n; ++i)
        {
            int x = s.range(0, 9);
            size_t at = s.chance(1, 4) ? size_t(s.raw(m.size())) : m.size();
            v.insert(v.begin() + at, Elem<E>::make(x));
            m.insert(m.begin() + at, x);
            REQ(v.is_static() == (m.size() <= 16));
        }
        TR("default small_vector, " << n << " random inserts");
        if (n > 16) s.nontrivial();
        REQ(values<E>(v) == m);
        REQ(v.max_size() >= v.size());
        // grown dynamic buffers are kept with the default RevertToStaticBelow
        auto d = v.data();
        bool st = v.is_static();
        while (!v.empty() && s.chance(3, 4))
        {
            size_t at = size_t(s.raw(m.size() - 1));
            v.erase(v.begin() + at);
            m.erase(m.begin() + at);
            REQ(values<E>(v) == m);
            REQM(v.data() == d && v.is_static() == st, "the default small_vector left its dynamic buffer");
        }
        v.clear();
        REQM(v.data() == d, "clear() left the dynamic buffer with RevertToStaticBelow == 0");
    }
    REQ(live() == 0);
}

} // namespace

#if VT_STORAGE == 1
PBT_REG(int_4_5, (drive<int, 4, 5>), 60000);
PBT_REG(tracked_2_3, (drive<Tracked, 2, 3>), 60000);
PBT_REG(tracked_4_4, (drive<Tracked, 4, 4>), 60000);
PBT_REG(tracked_1_2, (drive<Tracked, 1, 2>), 60000);
#elif VT_STORAGE == 2
PBT_REG(tracked_3_1, (drive<Tracked, 3, 1>), 60000);
PBT_REG(moveonly_3_2, (drive<MoveOnly, 3, 2, false>), 60000);
PBT_REG(string_5_3, (drive<std::string, 5, 3>), 60000);
PBT_REG(default_tracked, defaults<Tracked>, 20000);
#elif VT_STORAGE == 3
PBT_REG(int_4_0, (drive<int, 4, 0>), 60000);
PBT_REG(tracked_1_0, (drive<Tracked, 1, 0>), 60000);
PBT_REG(tracked_5_0, (drive<Tracked, 5, 0>), 60000);
PBT_REG(string_2_3, (drive<std::string, 2, 3>), 60000);
#else
PBT_REG(tracked_4_3, (drive<Tracked, 4, 3>), 60000);
PBT_REG(string_3_0, (drive<std::string, 3, 0>), 60000);
PBT_REG(moveonly_4_0, (drive<MoveOnly, 4, 0, false>), 60000);
#if __cplusplus >= 201703L
PBT_REG(overaligned_2_1, (drive<OverAligned, 2, 1>), 60000);
#endif
PBT_REG(default_string, defaults<std::string>, 20000);
#endif

// arguments of emplacements arrive as they were given
#if __cplusplus >= 201703L && !VT_STORAGE
namespace
{
void forwarding_run(pbt::Source& s)
{
    using fwd::Probe;
    itlib::small_vector<Probe, 3> c;
    std::vector<Probe> m;
    size_t n = 1 + s.small(10);
    s.nontrivial();
    for (size_t i = 0; i < n; ++i)
    {
        const int v = s.range<int>(1, 9), w = s.range<int>(1, 9);
        const size_t at = s.raw(m.size());
        const unsigned op = unsigned(s.raw(3));
        Probe e;
        const long made = Probe::made();
        fwd::give2(s, v, w, [&](auto&& x, auto&& y, char k, char l) {
            TR((op & 1 ? "emplace_back" : "emplace at ") << (op & 1 ? size_t() : at) << " '" << k << (op & 2 ? l : ' ') << "'");
            switch (op)
            {
            case 0: e = *c.emplace(c.begin() + at, FW(x)); fwd::same(e, v, k); break;
            case 1: c.emplace_back(FW(x)); e = c.back(); fwd::same(e, v, k); break;
            case 2: e = *c.emplace(c.cbegin() + at, FW(x), FW(y)); fwd::same(e, v, w, k, l); break;
            default: c.emplace_back(FW(x), FW(y)); e = c.back(); fwd::same(e, v, w, k, l); break;
            }
        });
        REQM(Probe::made() == made + 1, Probe::made() - made << " elements were made of the arguments");
        m.insert(op & 1 ? m.end() : m.begin() + at, e);
        REQ_EQ(c.size(), m.size());
        for (size_t j = 0; j < m.size(); ++j)
            REQM(c[j].v == m[j].v && c[j].w == m[j].w && c[j].a == m[j].a && c[j].b == m[j].b, "element " << j << " changed");
    }
}
}
PBT_REG(forwarding, forwarding_run, 10000);
#endif

// P05 (sequence equivalence) and P06 (allocator contract, iterator invalidation reports, recasts) of itlib::pod_vector
#include <initializer_list>
#include <utility>
#include <itlib/pod_vector.hpp>
#include "common.hpp"
#if defined(__SANITIZE_ADDRESS__)
#   include <sanitizer/asan_interface.h>
#   define VT_POISON(p, n) __asan_poison_memory_region(p, n)
#   define VT_UNPOISON(p, n) __asan_unpoison_memory_region(p, n)
#elif defined(__has_feature)
#   if __has_feature(address_sanitizer)
#       include <sanitizer/asan_interface.h>
#       define VT_POISON(p, n) __asan_poison_memory_region(p, n)
#       define VT_UNPOISON(p, n) __asan_unpoison_memory_region(p, n)
#   endif
#endif
#ifndef VT_POISON
#   define VT_POISON(p, n) (void)0
#   define VT_UNPOISON(p, n) (void)0
#endif

#ifndef VT_ALLOC
#   define VT_ALLOC 0
#endif

using namespace vt;

namespace
{

// --- an allocator which checks everything it is asked -----------------------------------------
struct Blk { size_t size; size_t phys; void* base; int id; };
struct Heap
{
    std::map<const void*, Blk> blocks;
    long mallocs = 0, reallocs = 0, expands = 0, expand_ok = 0;
    unsigned policy = 0;     // drives in-place decisions, set by the case
    size_t wasteful = 24;
    bool zero_fill = true;
};
Heap& heap() { static Heap h; return h; }

template <size_t Align, bool Expand>
struct ChkAlloc
{
    using size_type = size_t;
    int id;
    ChkAlloc(int i = 0) : id(i) {}

    static unsigned next() { auto& p = heap().policy; p = p * 1103515245u + 12345u; return (p >> 16) & 3; }

    static void* take(size_t size, int id)
    {
        // exactly Align-aligned, never more, so that over-aligned element types are really tested
        const size_t slack = next() * 16;
        const size_t phys = size + slack;
        char* base = static_cast<char*>(::malloc(phys + Align + 256));
        if (!base) FAIL("harness out of memory");
        auto a = reinterpret_cast<uintptr_t>(base);
        uintptr_t p = (a + 255) / 256 * 256 + Align;
        char* q = reinterpret_cast<char*>(p);
        memset(base, 0xCD, phys + Align + 256);
        VT_POISON(base, phys + Align + 256);
        VT_UNPOISON(q, size);
        heap().blocks[q] = Blk{size, phys, base, id};
        return q;
    }
    static void drop(std::map<const void*, Blk>::iterator f)
    {
        auto b = f->second;
        VT_UNPOISON(b.base, b.phys + Align + 256);
        heap().blocks.erase(f);
        ::free(b.base);
    }
    std::map<const void*, Blk>::iterator own(void* p, const char* what)
    {
        auto f = heap().blocks.find(p);
        if (f == heap().blocks.end()) FAIL(what << " of a block which malloc/realloc never returned, or which is freed");
        if (f->second.id != id) FAIL(what << " through allocator " << id << " of a block of allocator " << f->second.id);
        return f;
    }

    void* malloc(size_type size) { ++heap().mallocs; return take(size, id); }
    void free(void* p)
    {
        if (!p) return;
        drop(own(p, "free"));
    }
    size_type max_size() const { return ~size_type(0); }
    bool zero_fill_new() const { return heap().zero_fill; }
    static constexpr size_type alloc_align() { return Align; }
    static constexpr bool has_expand() { return Expand; }
    void* realloc(void* old, size_type n)
    {
        if (Expand) FAIL("realloc called although has_expand() is true");
        ++heap().reallocs;
        if (!old) return take(n, id);
        auto f = own(old, "realloc");
        if (n <= f->second.phys && next() != 0)
        {
            VT_UNPOISON(old, f->second.phys);
            if (n > f->second.size) memset(static_cast<char*>(old) + f->second.size, 0xCD, n - f->second.size);
            VT_POISON(static_cast<char*>(old) + n, f->second.phys - n);
            f->second.size = n;
            return old;
        }
        void* p = take(n, id);
        memcpy(p, old, n < f->second.size ? n : f->second.size);
        drop(heap().blocks.find(old));
        return p;
    }
    size_type realloc_wasteful_copy_size() const { return heap().wasteful; }
    bool expand(void* p, size_type n)
    {
        if (!Expand) FAIL("expand called although has_expand() is false");
        ++heap().expands;
        auto f = own(p, "expand");
        if (n > f->second.phys || next() == 0) return false;
        ++heap().expand_ok;
        VT_UNPOISON(p, f->second.phys);
        if (n > f->second.size) memset(static_cast<char*>(p) + f->second.size, 0xCD, n - f->second.size);
        VT_POISON(static_cast<char*>(p) + n, f->second.phys - n);
        f->second.size = n;
        return true;
    }
};

template <typename A> struct AKind { static constexpr bool checked = false, expands = false; static A make(int) { return A(); } static int id(const A&) { return 0; } };
template <size_t Al, bool X> struct AKind<ChkAlloc<Al, X>>
{
    static constexpr bool checked = true, expands = X;
    static ChkAlloc<Al, X> make(int i) { return ChkAlloc<Al, X>(i); }
    static int id(const ChkAlloc<Al, X>& a) { return a.id; }
};

struct P3 { uint8_t a, b, c; };
struct alignas(32) P32 { int v; int pad[7]; };
struct alignas(64) P64 { int v; int pad[15]; };
struct P12 { int32_t a; int16_t b; int16_t c; int32_t d; };

template <typename T> struct Pod { static T make(int i) { return T(i); } static int get(const T& t) { return int(t); } };
template <> struct Pod<P3> { static P3 make(int i) { return P3{uint8_t(i), uint8_t(i ? i + 1 : 0), uint8_t(i ? i + 2 : 0)}; } static int get(const P3& p) { if (p.b != uint8_t(p.a ? p.a + 1 : 0) || p.c != uint8_t(p.a ? p.a + 2 : 0)) return -1; return p.a; } };
template <> struct Pod<P32> { static P32 make(int i) { P32 p; memset(&p, i, sizeof p); p.v = i; return p; } static int get(const P32& p) { for (auto x : p.pad) if (x != p.v * 0x01010101) return -1; return p.v; } };
template <> struct Pod<P64> { static P64 make(int i) { P64 p; memset(&p, i, sizeof p); p.v = i; return p; } static int get(const P64& p) { for (auto x : p.pad) if (x != p.v * 0x01010101) return -1; return p.v; } };
template <> struct Pod<P12> { static P12 make(int i) { return P12{i, int16_t(i), int16_t(-i), i * 3}; } static int get(const P12& p) { if (p.b != int16_t(p.a) || p.c != int16_t(-p.a) || p.d != p.a * 3) return -1; return p.a; } };

template <typename T, typename A>
struct PV
{
    using vec = itlib::pod_vector<T, A>;
    using L = Pod<T>;
    using K = AKind<A>;
    static constexpr size_t nslots = 3;

    pbt::Source& s;
    std::unique_ptr<vec> sut[nslots];
    std::vector<int> mod[nslots];
    size_t limit;

    explicit PV(pbt::Source& src) : s(src)
    {
        limit = s.chance(1, 6) ? 600 : 40;
        if (K::checked)
        {
            heap().policy = unsigned(s.raw(255));
            heap().wasteful = s.pick({size_t(24), size_t(0), size_t(100), size_t(4096), ~size_t(0)});
        }
        for (size_t i = 0; i < nslots; ++i) sut[i].reset(new vec(K::make(int(i) + 1)));
    }

    void verify()
    {
        for (size_t i = 0; i < nslots; ++i)
        {
            const vec& c = *sut[i];
            vec& v = *sut[i];
            auto& m = mod[i];
            REQM(c.size() == m.size(), "slot " << i << " size " << c.size() << " expected " << m.size());
            REQ(c.empty() == m.empty());
            REQM(c.capacity() >= c.size(), "capacity below size");
            REQM(c.byte_size() == m.size() * sizeof(T), "byte_size");
            REQ(size_t(c.end() - c.begin()) == m.size() && size_t(v.end() - v.begin()) == m.size() && size_t(c.cend() - c.cbegin()) == m.size());
            REQ(c.data() == c.begin() && v.data() == v.begin() && c.data() == v.data());
            REQ(c.max_size() >= c.size());
            REQM(reinterpret_cast<uintptr_t>(c.data()) % alignof(T) == 0, "data is not aligned for its type");
            for (size_t k = 0; k < m.size(); ++k)
            {
                int got = L::get(c.data()[k]);
                REQM(got == m[k], "slot " << i << " element " << k << " is " << got << " expected " << m[k]);
            }
            if (!m.empty())
            {
                size_t k = m.size() - 1;
                REQ(&c[k] == c.data() + k && &v[k] == v.data() + k && &c.at(k) == c.data() + k && &v.at(k) == v.data() + k);
                REQ(&c.front() == c.data() && &v.front() == v.data());
                REQ(&c.back() == c.data() + k && &v.back() == v.data() + k);
                REQ(&*c.rbegin() == &c.back() && &*v.rbegin() == &v.back() && &*c.crbegin() == &c.back());
                REQ(&*(c.rend() - 1) == &c.front() && &*(v.rend() - 1) == &v.front() && &*(c.crend() - 1) == &c.front());
            }
            if (K::checked && c.capacity())
            {
                // the whole capacity must lie in one live block of this vector's allocator
                auto f = heap().blocks.upper_bound(c.data());
                REQM(f != heap().blocks.begin(), "the buffer is not in a live block");
                --f;
                auto b = static_cast<const char*>(f->first);
                auto d = reinterpret_cast<const char*>(c.data());
                REQM(d >= b && d + c.capacity() * sizeof(T) <= b + f->second.size, "capacity() " << c.capacity() << " exceeds the allocated block of " << f->second.size << " bytes");
                REQM(f->second.id == K::id(c.get_allocator()), "buffer belongs to another allocator");
            }
        }
        if (K::checked)
        {
            size_t with = 0;
            for (auto& v : sut) with += v->data() != nullptr;
            REQM(heap().blocks.size() == with, "live blocks " << heap().blocks.size() << " expected " << with);
        }
    }

    size_t pos(size_t i, bool incl_end) { size_t n = mod[i].size(); return size_t(s.raw(incl_end ? n : n - 1)); }
    int val() { return s.range<int>(0, 99); }

    // where the allocator can expand blocks, the elements stay where they are unless it was asked to and could not
    void stays(const T* d, const vec& v, long refused)
    {
        if (!K::expands || !d || !v.data() || v.data() == d) return;
        REQM(heap().expands - heap().expand_ok > refused, "the buffer moved and the allocator did not refuse to expand it");
        s.label("moved since expand was refused");
    }

    void step(size_t op);
    void run()
    {
        static const unsigned base[] = {8, 6, 8, 6, 6, 3, 6, 6, 5, 5, 3, 6, 5, 3, 3, 2, 3, 4, 4, 4, 3, 2, 3, 5, 3, 4};
        constexpr size_t nops = sizeof(base) / sizeof(*base);
        pbt::Swarm<nops> sw(s, base);
        size_t steps = 1 + size_t(s.raw(60));
        for (size_t k = 0; k < steps && !s.out_of_data(); ++k)
        {
            step(sw.next(s));
            verify();
        }
        for (auto& v : sut) v.reset();
        if (K::checked) REQM(heap().blocks.empty(), "memory outlives its vector");
    }
};

template <typename T, typename A>
void PV<T, A>::step(size_t op)
{
    size_t i = size_t(s.raw(nslots - 1));
    vec& v = *sut[i];
    auto& m = mod[i];
    const size_t n = m.size();
    if (n > limit && op < 5) op = 7;
    const T* d = v.data();
    const size_t cap = v.capacity();
    const long refused = heap().expands - heap().expand_ok;
    auto stable = [&](size_t newsize) {
        if (newsize <= cap) REQM(v.data() == d && v.capacity() == cap, "buffer changed although the capacity sufficed");
        else s.label("growth");
    };
    switch (op)
    {
    case 0: { int x = val(); TR("v" << i << ".push_back(" << x << ")"); T e = L::make(x); T& r = v.push_back(e); m.push_back(x); REQ(&r == &v.back()); stable(n + 1); break; }
    case 1: { int x = val(); TR("v" << i << ".emplace_back(" << x << ")"); if (s.coin()) v.emplace_back(L::make(x)); else v.emplace_back() = L::make(x); m.push_back(x); stable(n + 1); break; }
    case 2:
    {
        size_t at = pos(i, true); int x = val();
        TR("v" << i << (s.tracing ? ".insert/emplace(begin+" : "") << at << ", " << x << ")");
        T e = L::make(x);
        auto it = s.coin() ? v.emplace(v.cbegin() + at, e) : v.insert(v.cbegin() + at, e);
        m.insert(m.begin() + at, x);
        REQM(it == v.begin() + at, "insert returned a wrong iterator");
        stable(n + 1);
        if (at < n) { s.nontrivial(); s.label("insert in the middle"); }
        break;
    }
    case 3:
    {
        size_t at = pos(i, true), k = s.small(limit / 3); int x = val();
        TR("v" << i << ".insert(begin+" << at << ", " << k << ", " << x << ")");
        T e = L::make(x);
        auto it = v.insert(v.cbegin() + at, k, e);
        m.insert(m.begin() + at, k, x);
        REQM(it == v.begin() + at, "insert returned a wrong iterator");
        stable(n + k);
        s.nontrivial();
        break;
    }
    case 4:
    {
        size_t at = pos(i, true);
        auto xs = gen_ints(s, limit / 3);
        TR("v" << i << ".insert(begin+" << at << ", range " << pbt::show(xs) << ")");
        std::vector<T> es;
        for (int x : xs) es.push_back(L::make(x));
        typename vec::iterator it;
        auto kind = s.raw(2);
        if (kind == 0) it = v.insert(v.cbegin() + at, (const T*)es.data(), (const T*)es.data() + es.size());
        else if (kind == 1) it = v.insert(v.cbegin() + at, es.begin(), es.end());
        else
        {
            xs.resize(std::min<size_t>(xs.size(), 2)); xs.resize(2, 7);
            it = v.insert(v.cbegin() + at, {L::make(xs[0]), L::make(xs[1])});
        }
        m.insert(m.begin() + at, xs.begin(), xs.end());
        REQM(it == v.begin() + at, "insert returned a wrong iterator");
        stable(n + xs.size());
        s.nontrivial();
        break;
    }
    case 5: if (n) { TR("v" << i << ".pop_back()"); v.pop_back(); m.pop_back(); stable(0); } break;
    case 6:
        if (n)
        {
            size_t at = pos(i, false);
            TR("v" << i << ".erase(begin+" << at << ")");
            auto it = v.erase(v.cbegin() + at);
            m.erase(m.begin() + at);
            REQM(it == v.begin() + at, "erase returned a wrong iterator");
            stable(0);
            s.nontrivial();
        }
        break;
    case 7:
    {
        size_t a = pos(i, true), b = pos(i, true);
        if (a > b) std::swap(a, b);
        TR("v" << i << ".erase(begin+" << a << ", begin+" << b << ")");
        auto it = v.erase(v.cbegin() + a, v.cbegin() + b);
        m.erase(m.begin() + a, m.begin() + b);
        REQM(it == v.begin() + a, "erase returned a wrong iterator");
        stable(0);
        s.nontrivial();
        break;
    }
    case 8: // resize with zero fill
    {
        size_t k = s.coin() ? size_t(s.raw(limit)) : size_t(s.raw(n + 3));
        TR("v" << i << ".resize(" << k << ") at size " << n);
        bool r = v.resize(k);
        REQM(r == (v.data() != d), "resize() returned " << r << " but the data " << (v.data() != d ? "moved" : "did not move"));
        m.resize(k);
        stable(k);
        s.nontrivial();
        break;
    }
    case 9: // resize with a value
    {
        size_t k = s.coin() ? size_t(s.raw(limit)) : size_t(s.raw(n + 3));
        int x = val();
        TR("v" << i << ".resize(" << k << ", " << x << ") at size " << n);
        T e = L::make(x);
        bool r = v.resize(k, e);
        REQM(r == (v.data() != d), "resize() returned " << r << " but the data " << (v.data() != d ? "moved" : "did not move"));
        m.resize(k, x);
        stable(k);
        s.nontrivial();
        break;
    }
    case 10: { TR("v" << i << ".clear()"); v.clear(); m.clear(); stable(0); break; }
    case 11:
    {
        size_t k = size_t(s.raw(limit * 2));
        TR("v" << i << ".reserve(" << k << ") at size " << n << " capacity " << cap);
        bool r = v.reserve(k);
        REQM(r == (v.data() != d), "reserve() returned " << r << " but the data " << (v.data() != d ? "moved" : "did not move"));
        REQM(v.capacity() >= k, "reserve did not reserve");
        stable(k);
        s.label(k > cap ? (r ? "reserve moved" : "reserve in place") : "reserve no-op");
        if (k > cap) s.nontrivial();
        break;
    }
    case 12:
    {
        TR("v" << i << ".shrink_to_fit() at size " << n << " capacity " << cap);
        bool r = v.shrink_to_fit();
        REQM(r == (v.data() != d), "shrink_to_fit() returned " << r << " but the data " << (v.data() != d ? "moved" : "did not move"));
        REQM(v.capacity() == n, "shrink_to_fit() left capacity " << v.capacity() << " for " << n);
        s.label(r ? "shrink_to_fit moved" : "shrink_to_fit in place");
        if (cap != n) s.nontrivial();
        break;
    }
    case 13: case 14: // move construct / move assign
    {
        size_t j = size_t(s.raw(nslots - 1));
        if (j == i)
        {
            if (op == 13) break;
            TR("v" << i << " = std::move(v" << i << ")");
            vec& self = v;
            v = std::move(self); // nothing changes
            REQM(v.data() == d && v.capacity() == cap, "self move changed the buffer");
            break;
        }
        int id = K::id(v.get_allocator());
        TR("v" << j << (op == 13 ? " = new vec(std::move(v" : " = (std::move(v") << i << "))");
        if (op == 13) { sut[j].reset(); sut[j].reset(new vec(std::move(v))); }
        else { vec& r = (*sut[j] = std::move(v)); REQ(&r == sut[j].get()); }
        REQM(sut[j]->data() == d && sut[j]->capacity() == cap, "a move did not take the buffer");
        REQM(K::id(sut[j]->get_allocator()) == id, "the allocator did not follow the buffer");
        REQM(v.empty() && v.capacity() == 0, "moved-from vector is not empty");
        mod[j] = m;
        m.clear();
        break;
    }
    case 15:
    {
        size_t j = size_t(s.raw(nslots - 1));
        bool member = s.coin();
        if (!member && i == j) break;
        TR("swap(v" << i << ", v" << j << ")");
        const T* dj = sut[j]->data();
        if (member) sut[i]->swap(*sut[j]); else std::swap(*sut[i], *sut[j]);
        std::swap(mod[i], mod[j]);
        REQ(sut[i]->data() == dj && sut[j]->data() == d);
        break;
    }
    case 16: // constructors
    {
        int id = K::id(v.get_allocator());
        auto kind = s.raw(3);
        sut[i].reset();
        if (kind == 0) { size_t k = size_t(s.raw(limit)); TR("v" << i << " = new vec(" << k << ")"); sut[i].reset(new vec(k, K::make(id))); m.assign(k, 0); }
        else if (kind == 1) { size_t k = size_t(s.raw(limit)); int x = val(); TR("v" << i << " = new vec(" << k << ", " << x << ")"); T e = L::make(x); sut[i].reset(new vec(k, e, K::make(id))); m.assign(k, x); }
        else if (kind == 2) { auto xs = gen_ints(s, limit); TR("v" << i << " = new vec(range)"); std::vector<T> es; for (int x : xs) es.push_back(L::make(x)); sut[i].reset(new vec(es.begin(), es.end(), K::make(id))); m = xs; }
        else { int x = val(), y = val(); TR("v" << i << " = new vec(il)"); sut[i].reset(new vec({L::make(x), L::make(y)}, K::make(id))); m = {x, y}; }
        break;
    }
    case 17: // copy construct
    {
        size_t j = size_t(s.raw(nslots - 1));
        if (j == i) break;
        bool with = s.coin();
        TR("v" << j << " = new vec(v" << i << ")");
        const vec& cv = v;
        sut[j].reset();
        sut[j].reset(with ? new vec(cv, K::make(50)) : new vec(cv));
        mod[j] = m;
        REQ(K::id(sut[j]->get_allocator()) == (K::checked ? (with ? 50 : K::id(v.get_allocator())) : 0));
        REQ(n == 0 || sut[j]->data() != v.data());
        s.nontrivial();
        break;
    }
    case 18: // copy assign
    {
        size_t j = size_t(s.raw(nslots - 1));
        TR("v" << j << " = v" << i);
        const vec& cv = v;
        vec& r = (*sut[j] = cv);
        REQ(&r == sut[j].get());
        mod[j] = std::vector<int>(m);
        s.nontrivial();
        break;
    }
    case 19:
    {
        size_t k = size_t(s.raw(limit)); int x = val();
        TR("v" << i << ".assign(" << k << ", " << x << ")");
        T e = L::make(x);
        v.assign(k, e); m.assign(k, x);
        stable(k);
        break;
    }
    case 20:
    {
        auto xs = gen_ints(s, limit);
        TR("v" << i << ".assign(range " << pbt::show(xs) << ")");
        std::vector<T> es;
        for (int x : xs) es.push_back(L::make(x));
        if (s.coin()) v.assign(es.begin(), es.end());
        else v.assign((const T*)es.data(), (const T*)es.data() + es.size());
        m = xs;
        stable(xs.size());
        break;
    }
    case 21: { int x = val(), y = val(), z = val(); TR("v" << i << ".assign(il)"); v.assign({L::make(x), L::make(y), L::make(z)}); m = {x, y, z}; stable(3); break; }
    case 22:
    {
        size_t j = size_t(s.raw(nslots - 1));
        TR("compare v" << i << ", v" << j);
        REQM((*sut[i] == *sut[j]) == (mod[i] == mod[j]), "operator== disagrees with std::vector");
        REQM((*sut[i] != *sut[j]) == (mod[i] != mod[j]), "operator!= disagrees with std::vector");
        vec o(v);
        REQ(o == v && !(o != v));
        if (n)
        {
            size_t a = pos(i, false);
            o[a] = L::make(m[a] + 1);
            REQ(!(o == v) && v != o);
            o[a] = L::make(m[a]);
            o.pop_back();
            REQ(!(o == v) && v != o);
        }
        break;
    }
    case 23: // own elements as arguments
        if (n)
        {
            size_t a = pos(i, false), at = pos(i, true);
            auto kind = s.raw(5);
            int x = m[a];
            size_t k = kind == 2 || kind == 3 ? s.small(limit / 3) : 1;
            TR("v" << i << " aliased insertion kind " << kind << " of [" << a << "] at " << at << " x" << k << " at size " << n);
            switch (kind)
            {
            case 0: v.push_back(v[a]); m.push_back(x); break;
            case 1: { auto it = v.insert(v.cbegin() + at, v[a]); m.insert(m.begin() + at, x); REQ(it == v.begin() + at); break; }
            case 2: { auto it = v.insert(v.cbegin() + at, k, v[a]); m.insert(m.begin() + at, k, x); REQ(it == v.begin() + at); break; }
            case 3: v.resize(n + k, v[a]); m.resize(n + k, x); break;
            case 4: v.emplace_back(v[a]); m.push_back(x); break;
            case 5: v.emplace(v.cbegin() + at, v[a]); m.insert(m.begin() + at, x); break;
            }
            stable(n + k);
            s.label("aliased argument");
            s.nontrivial();
        }
        break;
    case 24: // queue
    {
        size_t k = s.small(limit);
        TR("v" << i << " as a queue x" << k);
        for (size_t q = 0; q < k; ++q)
        {
            int x = val();
            v.push_back(L::make(x)); m.push_back(x);
            if (q & 1) { v.erase(v.begin()); m.erase(m.begin()); }
        }
        break;
    }
    case 25: // fill up to the capacity: no reallocation on the way
    {
        if (cap > 3 * limit) break;
        TR("fill v" << i << " up to capacity " << cap);
        while (m.size() < cap)
        {
            int x = val();
            if (s.coin() || m.empty()) { v.push_back(L::make(x)); m.push_back(x); }
            else { size_t at = pos(i, true); v.insert(v.begin() + at, L::make(x)); m.insert(m.begin() + at, x); }
            if (s.out_of_data()) break;
        }
        stable(0);
        break;
    }
    }
    if (op <= 12) stays(d, v, refused);
}

template <typename T, typename A>
void drive(pbt::Source& s)
{
    heap().blocks.clear();
    PV<T, A> t(s);
    t.run();
}

// --- recasts -----------------------------------------------------------------------------------
template <typename V>
std::vector<uint8_t> bytes(const V& v)
{
    auto p = reinterpret_cast<const uint8_t*>(v.data());
    return p ? std::vector<uint8_t>(p, p + v.byte_size()) : std::vector<uint8_t>();
}

template <typename U, typename T, typename A>
void recast_pair(pbt::Source& s, const char* what)
{
    using VU = itlib::pod_vector<U, A>;
    using VT = itlib::pod_vector<T, A>;
    using K = AKind<A>;
    VU u(K::make(1));
    VT t(K::make(2));
    size_t n = s.small(40), k = s.small(20);
    size_t extra = s.small(20);
    u.reserve(n + extra);
    u.resize(n);
    for (size_t i = 0; i < u.byte_size(); ++i) reinterpret_cast<uint8_t*>(u.data())[i] = uint8_t(s.raw(255));
    t.resize(k);
    auto before = bytes(u);
    bool take = s.coin();
    TR(what << (take ? " recast_take_from " : " recast_copy_from ") << n << " elements of size " << sizeof(U) << " into size " << sizeof(T));
    const void* d = u.data();
    if (take)
    {
        t.recast_take_from(std::move(u));
        REQM(u.empty() && u.capacity() == 0, "recast_take_from left something in the source");
        if (A::alloc_align() >= alignof(T) && A::alloc_align() >= alignof(U)) REQM(t.data() == d, "recast_take_from did not take the buffer");
        s.label("recast take");
    }
    else
    {
        t.recast_copy_from(u);
        REQM(bytes(u) == before, "recast_copy_from changed its source");
        s.label("recast copy");
    }
    REQM(t.size() == before.size() / sizeof(T), "recast size " << t.size() << " of " << before.size() << " bytes");
    REQ(t.capacity() >= t.size());
    REQM(reinterpret_cast<uintptr_t>(t.data()) % alignof(T) == 0, "misaligned after a recast");
    auto want = before;
    want.resize(t.size() * sizeof(T));
    REQM(bytes(t) == want, "recast changed the bytes");
    // both remain fully usable
    size_t more = 1 + s.small(60);
    for (size_t i = 0; i < more; ++i)
    {
        T x;
        memset(&x, int(i), sizeof x);
        t.push_back(x);
        for (size_t b = 0; b < sizeof x; ++b) want.push_back(uint8_t(i));
    }
    REQM(bytes(t) == want, "push_back after a recast");
    if (s.coin()) { t.shrink_to_fit(); REQ(bytes(t) == want); }
    U y;
    memset(&y, 3, sizeof y);
    u.push_back(y);
    REQ(!u.empty());
    // and back
    if (s.coin())
    {
        u.recast_take_from(std::move(t));
        want.resize(want.size() / sizeof(U) * sizeof(U));
        REQ(bytes(u) == want);
        u.push_back(y);
    }
    if (n * sizeof(U) >= sizeof(T)) s.nontrivial();
}

template <typename A>
void recasts(pbt::Source& s)
{
    heap().blocks.clear();
    heap().policy = unsigned(s.raw(255));
    switch (s.raw(6))
    {
    case 0: recast_pair<unsigned char, char, A>(s, "uchar->char"); break;
    case 1: recast_pair<uint8_t, int32_t, A>(s, "u8->i32"); break;
    case 2: recast_pair<int32_t, uint8_t, A>(s, "i32->u8"); break;
    case 3: recast_pair<P12, int64_t, A>(s, "12 bytes->i64"); break;
    case 4: recast_pair<P3, uint16_t, A>(s, "3 bytes->u16"); break;
    case 5: recast_pair<int16_t, P3, A>(s, "i16->3 bytes"); break;
    case 6: recast_pair<double, P12, A>(s, "double->12 bytes"); break;
    }
    REQM(heap().blocks.empty(), "memory outlives its vector");
}
template <typename A>
void recasts_over(pbt::Source& s)
{
    heap().blocks.clear();
    heap().policy = unsigned(s.raw(255));
    switch (s.raw(2))
    {
    case 0: recast_pair<P32, P64, A>(s, "align 32->64"); break;
    case 1: recast_pair<P64, P32, A>(s, "align 64->32"); break;
    case 2: recast_pair<P32, P32, A>(s, "align 32->32"); break;
    }
    REQM(heap().blocks.empty(), "memory outlives its vector");
}

// new elements are zeroed exactly when the allocator asks for it
template <typename A>
void zero_fill(pbt::Source& s)
{
    heap().blocks.clear();
    heap().policy = unsigned(s.raw(255));
    heap().zero_fill = s.coin();
    {
        itlib::pod_vector<int, A> v(A(1));
        size_t n = s.small(40), k = n + 1 + s.small(40);
        TR("zero_fill_new " << heap().zero_fill << ": resize " << n << " then " << k);
        v.assign(n, 5);
        if (s.coin()) v.reserve(k);
        v.resize(k);
        REQ(v.size() == k);
        for (size_t i = 0; i < n; ++i) REQ(v[i] == 5);
        for (size_t i = n; i < k; ++i)
        {
            if (heap().zero_fill) REQM(v[i] == 0, "new element not zeroed");
        }
        s.nontrivial();
    }
    heap().zero_fill = true;
    REQ(heap().blocks.empty());
}

} // namespace

#if VT_ALLOC == 0
PBT_REG(u8, (drive<uint8_t, itlib::impl::pod_allocator>), 40000);
PBT_REG(i32, (drive<int, itlib::impl::pod_allocator>), 40000);
PBT_REG(p12, (drive<P12, itlib::impl::pod_allocator>), 40000);
PBT_REG(dbl, (drive<double, itlib::impl::pod_allocator>), 40000);
PBT_REG(i32_realloc, (drive<int, ChkAlloc<16, false>>), 40000);
PBT_REG(p3_expand, (drive<P3, ChkAlloc<16, true>>), 40000);
#elif VT_ALLOC == 1
PBT_REG(i32_r16, (drive<int, ChkAlloc<16, false>>), 40000);
PBT_REG(i32_e16, (drive<int, ChkAlloc<16, true>>), 40000);
PBT_REG(p32_r16, (drive<P32, ChkAlloc<16, false>>), 40000);
PBT_REG(p32_e16, (drive<P32, ChkAlloc<16, true>>), 40000);
#else
PBT_REG(i64_r4, (drive<int64_t, ChkAlloc<4, false>>), 40000);
PBT_REG(i64_e4, (drive<int64_t, ChkAlloc<4, true>>), 40000);
PBT_REG(p32_def, (drive<P32, itlib::impl::pod_allocator>), 30000);
PBT_REG(recast_r16, (recasts<ChkAlloc<16, false>>), 40000);
PBT_REG(recast_e16, (recasts<ChkAlloc<16, true>>), 40000);
PBT_REG(recast_def, recasts<itlib::impl::pod_allocator>, 40000);
PBT_REG(recast_over_r, (recasts_over<ChkAlloc<8, false>>), 40000);
PBT_REG(recast_over_e, (recasts_over<ChkAlloc<8, true>>), 40000);
PBT_REG(zero_fill_r, (zero_fill<ChkAlloc<16, false>>), 20000);
PBT_REG(zero_fill_e, (zero_fill<ChkAlloc<16, true>>), 20000);
#endif

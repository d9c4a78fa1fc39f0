// operations which fail: no memory, elements or comparators which throw, sizes which cannot be had (P34)
#include "common.hpp"

namespace vt
{
// every element constructor but the move, and the copy assignment, is a place where it may fail
struct FT : public Tracked
{
    FT() { fault_tick(); }
    FT(int x) : Tracked(x) { fault_tick(); }
    FT(const FT& o) : Tracked(o) { fault_tick(); }
    FT(FT&& o) noexcept : Tracked(std::move(o)) {}
    FT& operator=(const FT& o) { fault_tick(); Tracked::operator=(o); return *this; }
    FT& operator=(FT&& o) noexcept { Tracked::operator=(std::move(o)); return *this; }
};
template <> struct Elem<FT>
{
    static FT make(int i) { return FT(i); }
    static int get(const FT& t) { int v = t.get(); if (v == moved_value) FAIL("the value of an element is lost"); return v; }
    static constexpr bool tracked = true;
};
}

#include <itlib/small_vector.hpp>
#include <itlib/static_vector.hpp>
#include <itlib/pod_vector.hpp>
#include <itlib/flat_map.hpp>
#include <itlib/flat_set.hpp>
#include <itlib/dynamic_bitset.hpp>
#include <itlib/any.hpp>
#include <itlib/expected.hpp>
#include <itlib/make_ptr.hpp>
#include <itlib/mem_streambuf.hpp>
#if __cplusplus >= 202002L
#include <itlib/transparent_umap.hpp>
#include <string_view>
#endif
#include <algorithm>
#include <ostream>

// std::allocator may fail as well
void* operator new(size_t n)
{
    vt::fault_tick();
    if (n > (size_t(1) << 28)) throw std::bad_alloc();
    void* p = malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    return p;
}
void operator delete(void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }

using namespace vt;

namespace
{
// arms the n-th place from here; f must not have any but the library's
enum Outcome { done, failed };
template <typename F>
Outcome attempt(pbt::Source& s, unsigned n, F f)
{
    fault_lasts() = n && s.chance(1, 3);
    if (n) TR("  (place " << n << " to fail fails" << (fault_lasts() ? ", and everything after it" : "") << ")");
    fault() = int(n);
    try { f(); }
    catch (Fault&)
    {
        fault() = 0;
        TR("  failed");
        s.nontrivial();
        return failed;
    }
    fault() = 0;
    return done;
}
unsigned gen_fault(pbt::Source& s)
{
    if (s.chance(1, 4)) return 0;
    return unsigned(1 + s.small(20));
}
// must fail by itself
template <typename F>
void impossible(pbt::Source& s, F f)
{
    s.nontrivial();
    bool thrown = false;
    try { f(); }
    catch (std::exception&) { thrown = true; }
    REQM(thrown, "something impossible succeeded");
}
size_t impossible_size(pbt::Source& s)
{
    switch (s.raw(3))
    {
    case 0: return size_t(-1) - s.small(70);
    case 1: return (size_t(1) << 63) + s.small(70) - 35;
    case 2: return (size_t(1) << (58 + s.raw(4))) + s.small(70) - 35;
    default: return size_t(-1) / (1 + s.raw(20));
    }
}

struct kind_small {};
struct kind_static {};

template <typename V, typename Kind>
struct VecMachine
{
    using E = typename V::value_type;
    using M = std::vector<int>;
    enum { slots = 3 };
    pbt::Source& s;
    size_t maxn;
    std::unique_ptr<V> sut[slots];
    M mod[slots];
    static constexpr bool is_small = std::is_same<Kind, kind_small>::value;

    VecMachine(pbt::Source& src, size_t mx) : s(src), maxn(mx)
    {
        for (auto& v : sut) v.reset(new V());
    }

    static size_t blocks(const V& v, kind_small) { return v.is_static() ? 0 : 1; }
    static size_t blocks(const V&, kind_static) { return 0; }
    static bool uses_arena(kind_small) { return !std::is_same<typename V::allocator_type, std::allocator<E>>::value; }
    static bool uses_arena(kind_static) { return false; }

    void check_all()
    {
        size_t total = 0, blk = 0;
        for (size_t k = 0; k < slots; ++k)
        {
            const V& v = *sut[k];
            REQM(v.size() <= v.capacity(), "size " << v.size() << " above capacity " << v.capacity());
            REQM(v.size() == mod[k].size(), "vector " << k << ": size " << v.size() << ", should be " << mod[k].size());
            auto got = values<E>(v);
            REQM(got == mod[k], "vector " << k << ": " << pbt::show(got) << ", should be " << pbt::show(mod[k]));
            total += v.size();
            blk += blocks(v, Kind());
        }
        if (Elem<E>::tracked) REQM(live() == long(total), live() << " elements alive, the vectors have " << total);
        if (uses_arena(Kind())) REQM(arena().blocks.size() == blk, arena().blocks.size() << " blocks allocated, the vectors have " << blk);
    }

    // the vector after a failed operation, which is not claimed to change nothing
    void adopt_any(size_t k, const M& wanted)
    {
        const V& v = *sut[k];
        REQM(v.size() <= v.capacity(), "size " << v.size() << " above capacity " << v.capacity());
        auto got = values<E>(v);
        REQM(got.size() <= std::max(wanted.size(), mod[k].size()), "size " << got.size() << " after a failure");
        for (auto x : got)
        {
            if (std::find(wanted.begin(), wanted.end(), x) == wanted.end() && std::find(mod[k].begin(), mod[k].end(), x) == mod[k].end())
                FAIL("element " << x << " after a failed assignment is neither an old nor a new one: " << pbt::show(got));
        }
        mod[k] = got;
    }

    M gen(size_t room)
    {
        auto m = gen_ints(s, room);
        return m;
    }

    void construct(size_t k, unsigned f)
    {
        std::unique_ptr<V> nv;
        M want;
        Outcome o;
        switch (s.raw(4))
        {
        case 0:
        {
            size_t n = s.small(maxn);
            TR("v" << k << " = V(" << n << ")");
            want.assign(n, 0);
            o = attempt(s, f, [&] { nv.reset(new V(n)); });
            break;
        }
        case 1:
        {
            size_t n = s.small(maxn);
            int x = s.range<int>(0, 99);
            TR("v" << k << " = V(" << n << ", " << x << ")");
            E e = Elem<E>::make(x);
            want.assign(n, x);
            o = attempt(s, f, [&] { nv.reset(new V(n, e)); });
            break;
        }
        case 2:
        {
            want = gen(maxn);
            TR("v" << k << " = V(range " << pbt::show(want) << ")");
            auto es = make_elems<E>(want);
            o = attempt(s, f, [&] { nv.reset(new V(es.begin(), es.end())); });
            break;
        }
        case 3:
        {
            int a = s.range<int>(0, 99);
            TR("v" << k << " = V{" << a << ", 7, 8}");
            want = {a, 7, 8};
            E ea = Elem<E>::make(a), eb = Elem<E>::make(7), ec = Elem<E>::make(8);
            std::initializer_list<E> il = {ea, eb, ec};
            o = attempt(s, f, [&] { nv.reset(new V(il)); });
            break;
        }
        default:
        {
            size_t j = s.raw(slots - 1);
            TR("v" << k << " = V(v" << j << ")");
            want = mod[j];
            o = attempt(s, f, [&] { nv.reset(new V(*sut[j])); });
            break;
        }
        }
        if (o == done)
        {
            sut[k] = std::move(nv);
            mod[k] = want;
        }
    }

    void huge(size_t k, kind_static)
    {
        (void)k;
    }
    void huge(size_t k, kind_small)
    {
        V& v = *sut[k];
        size_t n = impossible_size(s);
        E e = Elem<E>::make(5);
        size_t at = s.raw(v.size());
        switch (s.raw(7))
        {
        case 0:
            TR("v" << k << ".reserve(" << n << ")");
            impossible(s, [&] { v.reserve(n); });
            break;
        case 1:
            TR("v" << k << ".resize(" << n << ")");
            impossible(s, [&] { v.resize(n); });
            break;
        case 2:
            TR("v" << k << ".resize(" << n << ", 5)");
            impossible(s, [&] { v.resize(n, e); });
            break;
        case 3:
            TR("v" << k << ".insert(" << at << ", " << n << ", 5)");
            impossible(s, [&] { v.insert(v.begin() + at, n, e); });
            break;
        case 4:
        {
            if (n > size_t(-1) / 2) n = size_t(-1) / 2 - n % 50;
            TR("v" << k << ".insert(" << at << ", range of " << n << ")");
            impossible(s, [&] { v.insert(v.begin() + at, CountIt<E>{0}, CountIt<E>{std::ptrdiff_t(n)}); });
            break;
        }
        case 5:
            TR("v" << k << ".assign(" << n << ", 5)");
            impossible(s, [&] { v.assign(n, e); });
            adopt_any(k, {});
            break;
        case 6:
            TR("V(" << n << ")");
            impossible(s, [&] { V x(n); });
            break;
        default:
            TR("V(" << n << ", 5)");
            impossible(s, [&] { V x(n, e); });
            break;
        }
    }

    void storage(size_t, kind_static) {}
    void storage(size_t k, kind_small)
    {
        V& v = *sut[k];
        auto f = gen_fault(s);
        switch (s.raw(2))
        {
        case 0:
        {
            size_t n = s.small(maxn * 2);
            TR("v" << k << ".reserve(" << n << ")");
            if (attempt(s, f, [&] { v.reserve(n); }) == done) REQ(v.capacity() >= n);
            break;
        }
        case 1:
        {
            TR("v" << k << ".shrink_to_fit()");
            attempt(s, f, [&] { v.shrink_to_fit(); });
            break;
        }
        default:
            TR("v" << k << ".revert_to_static()");
            attempt(s, f, [&] { v.revert_to_static(); });
            break;
        }
    }

    void step()
    {
        static const unsigned w[] = {6, 3, 3, 5, 4, 6, 6, 5, 4, 5, 5, 4, 4, 3, 5, 6, 3, 2, 1, 2, 2, 4, 3};
        const size_t k = s.raw(slots - 1);
        V& v = *sut[k];
        M& m = mod[k];
        const size_t room = m.size() >= maxn ? 0 : maxn - m.size();
        const size_t at = s.raw(m.size());
        auto op = s.weighted(w);
        if (room == 0 && op <= 7) op = 17;
        if (op <= 4)
        {
            const int x = s.range<int>(0, 99);
            const bool own = op != 1 && op != 2 && op != 3 && !m.empty() && s.chance(1, 4);
            const size_t i = own ? s.raw(m.size() - 1) : 0;
            const int val = own ? m[i] : x;
            E e = Elem<E>::make(x);
            auto f = gen_fault(s);
            M want = m;
            Outcome o;
            switch (op)
            {
            case 0:
                TR("v" << k << ".push_back(" << (own ? "own " : "") << val << ")");
                o = attempt(s, f, [&] { v.push_back(own ? v[i] : e); });
                want.push_back(val);
                break;
            case 1:
                TR("v" << k << ".push_back(move " << val << ")");
                o = attempt(s, f, [&] { v.push_back(std::move(e)); });
                want.push_back(val);
                break;
            case 2:
                TR("v" << k << ".emplace_back(" << val << ")");
                o = attempt(s, f, [&] { v.emplace_back(static_cast<const E&>(e)); });
                want.push_back(val);
                break;
            case 3:
                TR("v" << k << ".emplace(" << at << ", " << val << ")");
                o = attempt(s, f, [&] { v.emplace(v.begin() + at, static_cast<const E&>(e)); });
                want.insert(want.begin() + at, val);
                break;
            default:
                TR("v" << k << ".insert(" << at << ", " << (own ? "own " : "") << val << ")");
                o = attempt(s, f, [&] { v.insert(v.begin() + at, own ? v[i] : e); });
                want.insert(want.begin() + at, val);
                break;
            }
            if (o == done) m = want;
            return;
        }
        switch (op)
        {
        case 5:
        {
            size_t n = s.small(room);
            const int x = s.range<int>(0, 99);
            const bool own = !m.empty() && s.chance(1, 4);
            const size_t i = own ? s.raw(m.size() - 1) : 0;
            const int val = own ? m[i] : x;
            E e = Elem<E>::make(x);
            TR("v" << k << ".insert(" << at << ", " << n << ", " << (own ? "own " : "") << val << ")");
            if (attempt(s, gen_fault(s), [&] { v.insert(v.begin() + at, n, own ? v[i] : e); }) == done) m.insert(m.begin() + at, n, val);
            break;
        }
        case 6:
        {
            auto xs = gen(room);
            auto es = make_elems<E>(xs);
            TR("v" << k << ".insert(" << at << ", range " << pbt::show(xs) << ")");
            if (attempt(s, gen_fault(s), [&] { v.insert(v.begin() + at, es.begin(), es.end()); }) == done) m.insert(m.begin() + at, xs.begin(), xs.end());
            break;
        }
        case 7:
        {
            if (room < 3) break;
            int a = s.range<int>(0, 99);
            E ea = Elem<E>::make(a), eb = Elem<E>::make(7), ec = Elem<E>::make(8);
            std::initializer_list<E> il = {ea, eb, ec};
            TR("v" << k << ".insert(" << at << ", {" << a << ", 7, 8})");
            if (attempt(s, gen_fault(s), [&] { v.insert(v.begin() + at, il); }) == done)
            {
                int xs[] = {a, 7, 8};
                m.insert(m.begin() + at, xs, xs + 3);
            }
            break;
        }
        case 8: case 9:
        {
            size_t n = s.small(maxn);
            const int x = op == 8 ? 0 : s.range<int>(1, 99);
            E e = Elem<E>::make(x);
            M want = m;
            want.resize(n, x);
            if (op == 8) TR("v" << k << ".resize(" << n << ")"); else TR("v" << k << ".resize(" << n << ", " << x << ")");
            if (attempt(s, gen_fault(s), [&] { if (op == 8) v.resize(n); else v.resize(n, e); }) == done) m = want;
            else
            {
                // some of the new ones may be there
                REQM(n > m.size(), "a shrinking resize failed");
                REQM(v.size() >= m.size() && v.size() <= n, "size " << v.size() << " after a failed resize from " << m.size() << " to " << n);
                m = want;
                m.resize(v.size());
            }
            break;
        }
        case 10:
        {
            size_t n = s.small(maxn);
            const int x = s.range<int>(0, 99);
            E e = Elem<E>::make(x);
            M want(n, x);
            TR("v" << k << ".assign(" << n << ", " << x << ")");
            if (attempt(s, gen_fault(s), [&] { v.assign(n, e); }) == done) m = want; else adopt_any(k, want);
            break;
        }
        case 11:
        {
            auto want = gen(maxn);
            auto es = make_elems<E>(want);
            TR("v" << k << ".assign(range " << pbt::show(want) << ")");
            if (attempt(s, gen_fault(s), [&] { v.assign(es.begin(), es.end()); }) == done) m = want; else adopt_any(k, want);
            break;
        }
        case 12:
        {
            int a = s.range<int>(0, 99);
            E ea = Elem<E>::make(a), eb = Elem<E>::make(7), ec = Elem<E>::make(8);
            std::initializer_list<E> il = {ea, eb, ec};
            M want = {a, 7, 8};
            TR("v" << k << ".assign({" << a << ", 7, 8})");
            if (attempt(s, gen_fault(s), [&] { v.assign(il); }) == done) m = want; else adopt_any(k, want);
            break;
        }
        case 13: case 14:
        {
            size_t j = s.raw(slots - 1);
            auto want = mod[j];
            TR("v" << k << " = v" << j);
            if (attempt(s, gen_fault(s), [&] { v = *sut[j]; }) == done) m = want; else adopt_any(k, want);
            break;
        }
        case 15: construct(k, gen_fault(s)); break;
        case 16:
            if (m.empty()) break;
            TR("v" << k << ".erase(" << at % m.size() << ")");
            v.erase(v.begin() + at % m.size());
            m.erase(m.begin() + at % m.size());
            break;
        case 17:
            if (m.empty()) break;
            TR("v" << k << ".pop_back()");
            v.pop_back();
            m.pop_back();
            break;
        case 18: TR("v" << k << ".clear()"); v.clear(); m.clear(); break;
        case 19:
        {
            size_t j = s.raw(slots - 1);
            if (j == k) break;
            TR("v" << k << " = move(v" << j << ")");
            v = std::move(*sut[j]);
            m = mod[j];
            sut[j]->clear();
            mod[j].clear();
            break;
        }
        case 20:
        {
            size_t j = s.raw(slots - 1);
            if (j == k) break;
            TR("v" << k << ".swap(v" << j << ")");
            v.swap(*sut[j]);
            m.swap(mod[j]);
            break;
        }
        case 21: storage(k, Kind()); break;
        default:
            if (is_small && s.chance(1, 2)) huge(k, Kind());
            break;
        }
    }
};

template <typename V, typename Kind, size_t MaxN>
void vec_target(pbt::Source& s)
{
    arena_reset();
    {
        VecMachine<V, Kind> m(s, MaxN);
        size_t n = 1 + s.raw(30);
        for (size_t i = 0; i < n; ++i)
        {
            m.step();
            m.check_all();
        }
    }
    REQM(live() == 0, live() << " elements were never destroyed");
    REQM(arena().blocks.empty(), arena().blocks.size() << " blocks were never given back");
}

PBT_REG(small_ft_4, (vec_target<itlib::small_vector<FT, 4, 0, Alloc<FT>>, kind_small, 14>), 9000);
PBT_REG(small_ft_3_4, (vec_target<itlib::small_vector<FT, 3, 4, Alloc<FT>>, kind_small, 14>), 9000);
PBT_REG(small_ft_1_std, (vec_target<itlib::small_vector<FT, 1, 1>, kind_small, 9>), 5000);
PBT_REG(small_string_2, (vec_target<itlib::small_vector<std::string, 2>, kind_small, 9>), 5000);
PBT_REG(small_int_5, (vec_target<itlib::small_vector<int, 5, 3, Alloc<int>>, kind_small, 30>), 4000);
PBT_REG(static_ft_9, (vec_target<itlib::static_vector<FT, 9>, kind_static, 9>), 8000);
PBT_REG(static_string_6, (vec_target<itlib::static_vector<std::string, 6>, kind_static, 6>), 4000);

// ---------------------------------------------------------------------------------------------
// pod_vector over allocators which throw when out of memory
template <bool Expand, size_t Align>
struct PodAlloc
{
    using size_type = size_t;
    static std::map<void*, size_t>& blocks() { static std::map<void*, size_t> b; return b; }
    static void* malloc(size_type n)
    {
        fault_tick();
        void* p = nullptr;
        if (posix_memalign(&p, 16, n ? n : 1) != 0) throw std::bad_alloc();
        if (Align < 16) std::memset(p, 0xcd, n ? n : 1);
        note(p, n);
        return p;
    }
    static void note(void* p, size_t n)
    {
        auto keep = fault();
        fault() = 0; // the map's
        blocks()[p] = n;
        fault() = keep;
    }
    static void free(void* p)
    {
        if (!p) return;
        if (blocks().erase(p) != 1) FAIL("a block freed twice, or never allocated");
        ::free(p);
    }
    static size_type max_size() { return ~size_type(0); }
    static bool zero_fill_new() { return true; }
    static constexpr size_type alloc_align() { return Align; }
    static constexpr bool has_expand() { return Expand; }
    static bool expand(void*, size_t) { return false; }
    static size_type realloc_wasteful_copy_size() { return 24; }
    static void* realloc(void* old, size_type n)
    {
        if (!old) return malloc(n);
        fault_tick();
        auto f = blocks().find(old);
        if (f == blocks().end()) FAIL("realloc of a block which is not allocated");
        void* p = malloc_quiet(n);
        std::memcpy(p, old, std::min(n, f->second));
        free(old);
        return p;
    }
    static void* malloc_quiet(size_t n)
    {
        void* p = nullptr;
        if (posix_memalign(&p, 16, n ? n : 1) != 0) std::abort();
        note(p, n);
        return p;
    }
};

template <typename T, typename A>
void pod_target(pbt::Source& s)
{
    using V = itlib::pod_vector<T, A>;
    using M = std::vector<T>;
    A::blocks().clear();
    enum { slots = 2 };
    {
        V sut[slots];
        M mod[slots];
        size_t n = 1 + s.raw(30);
        for (size_t step = 0; step < n; ++step)
        {
            static const unsigned w[] = {5, 5, 5, 5, 4, 4, 4, 3, 3, 4, 4, 2, 3, 2};
            size_t k = s.raw(slots - 1);
            V& v = sut[k];
            M& m = mod[k];
            const size_t room = m.size() >= 40 ? 0 : 40 - m.size();
            const size_t at = s.raw(m.size());
            const T x = T(s.raw(200));
            M want = m;
            bool strong = true;
            auto f = gen_fault(s) % 4;
            Outcome o = done;
            switch (s.weighted(w))
            {
            case 0: TR("p" << k << ".push_back"); want.push_back(x); o = attempt(s, f, [&] { v.push_back(x); }); break;
            case 1: TR("p" << k << ".insert(" << at << ")"); want.insert(want.begin() + at, x); o = attempt(s, f, [&] { v.insert(v.begin() + at, x); }); break;
            case 2: { size_t c = s.small(room); TR("p" << k << ".insert(" << at << ", n=" << c << ")"); want.insert(want.begin() + at, c, x); o = attempt(s, f, [&] { v.insert(v.begin() + at, c, x); }); break; }
            case 3:
            {
                M es(s.small(room));
                for (auto& e : es) e = T(s.raw(200));
                TR("p" << k << ".insert(" << at << ", range " << es.size() << ")");
                want.insert(want.begin() + at, es.begin(), es.end());
                o = attempt(s, f, [&] { v.insert(v.begin() + at, es.begin(), es.end()); });
                break;
            }
            case 4: { size_t c = s.small(40); TR("p" << k << ".resize(" << c << ")"); want.resize(c); o = attempt(s, f, [&] { v.resize(c); }); break; }
            case 5: { size_t c = s.small(40); TR("p" << k << ".resize(" << c << ", x)"); want.resize(c, x); o = attempt(s, f, [&] { v.resize(c, x); }); break; }
            case 6: { size_t c = s.small(60); TR("p" << k << ".reserve(" << c << ")"); o = attempt(s, f, [&] { v.reserve(c); }); if (o == done) REQ(v.capacity() >= c); break; }
            case 7: TR("p" << k << ".shrink_to_fit()"); o = attempt(s, f, [&] { v.shrink_to_fit(); }); break;
            case 8: { size_t c = s.small(40); TR("p" << k << ".assign(" << c << ")"); want.assign(c, x); strong = false; o = attempt(s, f, [&] { v.assign(c, x); }); break; }
            case 9:
            {
                want.resize(s.small(40));
                for (auto& e : want) e = T(s.raw(200));
                TR("p" << k << ".assign(range " << want.size() << ")");
                strong = false;
                const M src = want;
                o = attempt(s, f, [&] { v.assign(src.begin(), src.end()); });
                break;
            }
            case 10: { size_t j = s.raw(slots - 1); TR("p" << k << " = p" << j); want = mod[j]; strong = false; o = attempt(s, f, [&] { v = sut[j]; }); break; }
            case 11: TR("p" << k << ".erase"); if (at < m.size()) { v.erase(v.begin() + at); want.erase(want.begin() + at); } break;
            case 12:
            {
                TR("p" << k << " = copy constructed");
                o = attempt(s, f, [&] { V c(sut[1 - k]); v.swap(c); });
                want = mod[1 - k];
                break;
            }
            default:
            {
                TR("p" << k << ".recast_copy_from(p" << 1 - k << ")");
                want = mod[1 - k];
                strong = false;
                o = attempt(s, f, [&] { v.recast_copy_from(sut[1 - k]); });
                break;
            }
            }
            if (o == done) m = want;
            else if (!strong)
            {
                REQ(v.size() <= std::max(m.size(), want.size()));
                for (auto e : v)
                {
                    if (std::find(m.begin(), m.end(), e) == m.end() && std::find(want.begin(), want.end(), e) == want.end()) FAIL("after a failed assignment: " << pbt::show(e));
                }
                m.assign(v.begin(), v.end());
            }
            size_t held = 0;
            for (size_t j = 0; j < slots; ++j)
            {
                REQ(sut[j].size() <= sut[j].capacity());
                M got(sut[j].begin(), sut[j].end());
                REQM(got == mod[j], "p" << j << ": " << pbt::show(got) << ", should be " << pbt::show(mod[j]));
                if (sut[j].data()) ++held;
            }
            REQM(A::blocks().size() == held, A::blocks().size() << " blocks allocated, the vectors have " << held);
        }
    }
    REQM(A::blocks().empty(), A::blocks().size() << " blocks were never given back");
}
PBT_REG(pod_realloc, (pod_target<uint32_t, PodAlloc<false, 16>>), 4000);
PBT_REG(pod_expand, (pod_target<uint16_t, PodAlloc<true, 16>>), 3000);
PBT_REG(pod_overaligned, (pod_target<uint64_t, PodAlloc<false, 4>>), 3000);

// ---------------------------------------------------------------------------------------------
// flat_map, flat_set: comparators fail as well
struct FCmp
{
    int mode = 0; // 0: less, 1: greater, 2: by last digit
    static int& last_mode() { static int m = 0; return m; }
    static int key(const FT& t) { return t.get(); }
    bool operator()(const FT& a, const FT& b) const
    {
        last_mode() = mode;
        fault_tick();
        return less(key(a), key(b));
    }
    bool less(int x, int y) const { return mode == 0 ? x < y : mode == 1 ? y < x : x % 10 < y % 10; }
};
template <typename Map> struct FlatOps;
template <typename C>
struct FlatOps<itlib::flat_map<FT, FT, FCmp, C>>
{
    using Map = itlib::flat_map<FT, FT, FCmp, C>;
    using P = std::pair<FT, FT>;
    static P make(int k, int v) { return P(FT(k), FT(v)); }
    static int key(const P& p) { return Elem<FT>::get(p.first); }
    static int val(const P& p) { return Elem<FT>::get(p.second); }
    static void index(Map& m, const FT& k) { m[k]; }
    static void emplace(Map& m, const FT& k, const FT& v) { m.emplace(k, v); }
    static constexpr bool map = true;
    static constexpr size_t per = 2;
};
template <typename C>
struct FlatOps<itlib::flat_set<FT, FCmp, C>>
{
    using Map = itlib::flat_set<FT, FCmp, C>;
    using P = FT;
    static P make(int k, int) { return FT(k); }
    static int key(const P& p) { return Elem<FT>::get(p); }
    static int val(const P&) { return 0; }
    static void index(Map&, const FT&) {}
    static void emplace(Map& m, const FT& k, const FT&) { m.emplace(k); }
    static constexpr bool map = false;
    static constexpr size_t per = 1;
};

template <typename Map>
void flat_target(pbt::Source& s)
{
    using O = FlatOps<Map>;
    using P = typename O::P;
    using M = std::vector<std::pair<int, int>>;
    arena_reset();
    {
        enum { slots = 2 };
        std::unique_ptr<Map> sut[slots];
        M mod[slots];
        int mode[slots];
        for (size_t i = 0; i < slots; ++i)
        {
            FCmp c;
            c.mode = mode[i] = int(s.raw(2));
            sut[i].reset(new Map(c));
        }
        auto contents = [&](const Map& m) {
            M r;
            for (auto& e : m) r.push_back({O::key(e), O::val(e)});
            return r;
        };
        // flat_map doesn't tell its comparator
        auto used_mode = [&](Map& m) {
            const bool none = m.size() == 0;
            if (none) m.insert(O::make(1, 1));
            m.count(FT(2));
            if (none) m.clear();
            return FCmp::last_mode();
        };
        auto sorted = [&](size_t k) {
            FCmp c;
            c.mode = used_mode(*sut[k]);
            M r = contents(*sut[k]);
            for (size_t i = 1; i < r.size(); ++i)
            {
                if (!c.less(r[i - 1].first, r[i].first)) FAIL("after a failure " << r[i - 1].first << " comes before " << r[i].first << " under comparator " << c.mode);
            }
            return r;
        };
        size_t n = 1 + s.raw(30);
        for (size_t step = 0; step < n; ++step)
        {
            static const unsigned w[] = {6, 5, 5, 4, 3, 3, 6, 5, 2, 2, 3, 1};
            size_t k = s.raw(slots - 1);
            Map& m = *sut[k];
            auto op = s.weighted(w);
            const size_t room = 12;
            if (op <= 3 && m.size() >= room) op = 4;
            const int key = s.range<int>(0, 39), val = s.range<int>(0, 99);
            const unsigned f = gen_fault(s);
            const FCmp cmp = [&] { FCmp c; c.mode = mode[k]; return c; }();
            auto equivalent = [&](int a, int b) { return !cmp.less(a, b) && !cmp.less(b, a); };
            auto add = [&](int x, int y) {
                for (auto& e : mod[k]) if (equivalent(e.first, x)) return;
                auto i = mod[k].begin();
                while (i != mod[k].end() && cmp.less(i->first, x)) ++i;
                mod[k].insert(i, {x, O::map ? y : 0});
            };
            auto remove = [&](int x) {
                for (auto i = mod[k].begin(); i != mod[k].end(); ++i) if (equivalent(i->first, x)) { mod[k].erase(i); return; }
            };
            switch (op)
            {
            case 0:
            {
                P p = O::make(key, val);
                TR("m" << k << ".insert(" << key << ", " << val << ")");
                if (attempt(s, f, [&] { m.insert(static_cast<const P&>(p)); }) == done) add(key, val);
                break;
            }
            case 1:
            {
                P p = O::make(key, val);
                TR("m" << k << ".insert(move " << key << ", " << val << ")");
                if (attempt(s, f, [&] { m.insert(std::move(p)); }) == done) add(key, val);
                break;
            }
            case 2:
            {
                FT a(key), b(val);
                TR("m" << k << ".emplace(" << key << ", " << val << ")");
                if (attempt(s, f, [&] { O::emplace(m, a, b); }) == done) add(key, val);
                break;
            }
            case 3:
            {
                if (!O::map) break;
                FT a(key);
                TR("m" << k << "[" << key << "]");
                if (attempt(s, f, [&] { O::index(m, a); }) == done) add(key, 0);
                break;
            }
            case 4:
            {
                FT a(key);
                TR("m" << k << ".erase(" << key << ")");
                if (attempt(s, f, [&] { m.erase(a); }) == done) remove(key);
                break;
            }
            case 5:
            {
                FT a(key);
                TR("m" << k << ".find(" << key << ")");
                bool found = false;
                if (attempt(s, f, [&] { found = m.find(a) != m.end(); m.lower_bound(a); m.count(a); }) == done)
                {
                    bool in = false;
                    for (auto& e : mod[k]) if (equivalent(e.first, key)) in = true;
                    REQ_EQ(found, in);
                }
                break;
            }
            case 6:
            {
                size_t j = s.raw(slots - 1);
                TR("m" << k << " = m" << j);
                if (attempt(s, f, [&] { m = *sut[j]; }) == done) { mod[k] = mod[j]; mode[k] = mode[j]; }
                else
                {
                    M got = sorted(k);
                    for (auto& e : got)
                    {
                        if (std::find(mod[k].begin(), mod[k].end(), e) == mod[k].end() && std::find(mod[j].begin(), mod[j].end(), e) == mod[j].end())
                            FAIL("after a failed assignment: " << e.first << ", " << e.second);
                    }
                    mod[k] = got;
                    mode[k] = used_mode(m);
                }
                break;
            }
            case 7:
            {
                auto ks = gen_ints(s, room, 0, 39);
                std::vector<P> ps;
                ps.reserve(ks.size());
                for (auto x : ks) ps.push_back(O::make(x, x));
                FCmp c;
                c.mode = int(s.raw(2));
                TR("m" << k << " = Map(range " << pbt::show(ks) << ", " << c.mode << ")");
                std::unique_ptr<Map> nm;
                if (attempt(s, f, [&] { nm.reset(new Map(ps.begin(), ps.end(), c)); }) == done)
                {
                    sut[k] = std::move(nm);
                    mode[k] = c.mode;
                    mod[k] = sorted(k); // which of the equivalent ones it keeps is P07's business
                }
                break;
            }
            case 8:
            {
                TR("m" << k << " = Map(m" << 1 - k << ")");
                std::unique_ptr<Map> nm;
                if (attempt(s, f, [&] { nm.reset(new Map(*sut[1 - k])); }) == done)
                {
                    sut[k] = std::move(nm);
                    mod[k] = mod[1 - k];
                    mode[k] = mode[1 - k];
                }
                break;
            }
            case 9:
            {
                TR("m" << k << ".swap(m" << 1 - k << ")");
                m.swap(*sut[1 - k]);
                std::swap(mod[0], mod[1]);
                std::swap(mode[0], mode[1]);
                break;
            }
            case 10:
            {
                if (m.size() == 0) break;
                size_t i = s.raw(m.size() - 1);
                TR("m" << k << ".erase(at " << i << ")");
                m.erase(m.begin() + i);
                mod[k].erase(mod[k].begin() + i);
                break;
            }
            default: TR("m" << k << ".clear()"); m.clear(); mod[k].clear(); break;
            }
            size_t total = 0;
            for (size_t i = 0; i < slots; ++i)
            {
                auto got = sorted(i);
                REQ_EQ(used_mode(*sut[i]), mode[i]);
                if (got != mod[i]) FAIL("m" << i << " has " << got.size() << " elements, should have " << mod[i].size() << ", or other ones");
                total += got.size() * O::per;
            }
            REQM(live() == long(total), live() << " elements alive, the maps have " << total);
        }
    }
    REQM(live() == 0, live() << " elements were never destroyed");
    REQM(arena().blocks.empty(), arena().blocks.size() << " blocks were never given back");
}
using PairFT = std::pair<FT, FT>;
PBT_REG(map_vector, (flat_target<itlib::flat_map<FT, FT, FCmp, std::vector<PairFT, Alloc<PairFT>>>>), 5000);
PBT_REG(map_small, (flat_target<itlib::flat_map<FT, FT, FCmp, itlib::small_vector<PairFT, 3, 0, Alloc<PairFT>>>>), 4000);
PBT_REG(map_static, (flat_target<itlib::flat_map<FT, FT, FCmp, itlib::static_vector<PairFT, 14>>>), 4000);
PBT_REG(set_vector, (flat_target<itlib::flat_set<FT, FCmp, std::vector<FT>>>), 5000);
PBT_REG(set_small, (flat_target<itlib::flat_set<FT, FCmp, itlib::small_vector<FT, 4, 2, Alloc<FT>>>>), 4000);
PBT_REG(set_static, (flat_target<itlib::flat_set<FT, FCmp, itlib::static_vector<FT, 14>>>), 4000);

// ---------------------------------------------------------------------------------------------
template <typename Buf>
void bits_target(pbt::Source& s)
{
    using B = itlib::dynamic_bitset<Buf>;
    using W = typename B::word_type;
    using M = std::vector<bool>;
    static constexpr size_t bpw = sizeof(W) * 8;
    arena_reset();
    {
        enum { slots = 2 };
        std::unique_ptr<B> sut[slots];
        for (auto& b : sut) b.reset(new B());
        M mod[slots];
        auto read = [&](const B& b) {
            REQM(size_t(b.word_size()) == b.size() / bpw + (b.size() % bpw != 0), b.word_size() << " words for " << b.size() << " bits");
            M r;
            for (size_t i = 0; i < b.size(); ++i) r.push_back(b.test(i));
            return r;
        };
        size_t n = 1 + s.raw(30);
        for (size_t step = 0; step < n; ++step)
        {
            static const unsigned w[] = {5, 5, 5, 3, 4, 4, 3, 3, 3};
            size_t k = s.raw(slots - 1);
            B& b = *sut[k];
            M& m = mod[k];
            const unsigned f = gen_fault(s) % 4;
            switch (s.weighted(w))
            {
            case 0:
            {
                size_t c = s.raw(bpw * 5);
                TR("b" << k << ".resize(" << c << ")");
                if (attempt(s, f, [&] { b.resize(c); }) == done) m.resize(c);
                break;
            }
            case 1:
                if (m.size() > bpw * 8) break;
                TR("b" << k << ".push_back(1)");
                if (attempt(s, f, [&] { b.push_back(true); }) == done) m.push_back(true);
                break;
            case 2:
            {
                if (m.size() > bpw * 8) break;
                TR("b" << k << ".append(b" << 1 - k << ")");
                if (attempt(s, f, [&] { b.append(*sut[1 - k]); }) == done) m.insert(m.end(), mod[1 - k].begin(), mod[1 - k].end());
                break;
            }
            case 3:
            {
                size_t c = s.raw(bpw * 12);
                TR("b" << k << ".reserve(" << c << ")");
                attempt(s, f, [&] { b.reserve(c); });
                break;
            }
            case 4:
            {
                TR("b" << k << " = b" << 1 - k);
                if (attempt(s, f, [&] { b = *sut[1 - k]; }) == done) m = mod[1 - k];
                else m = read(b);
                break;
            }
            case 5:
            {
                Buf buf;
                buf.resize(s.raw(4));
                for (auto& x : buf) x = W(s.raw(W(~W(0))));
                TR("b" << k << ".assign(" << buf.size() << " words)");
                if (attempt(s, f, [&] { b.assign(buf); }) == done)
                {
                    m.assign(buf.size() * bpw, false);
                    for (size_t i = 0; i < m.size(); ++i) m[i] = buf[i / bpw] >> (i % bpw) & 1;
                }
                else m = read(b);
                break;
            }
            case 6:
            {
                size_t c = s.raw(bpw * 4);
                TR("b" << k << " = B(" << c << ")");
                std::unique_ptr<B> nb;
                if (attempt(s, f, [&] { nb.reset(new B(c)); }) == done) { sut[k] = std::move(nb); m.assign(c, false); }
                break;
            }
            case 7:
            {
                for (size_t i = 0; i < m.size(); ++i)
                {
                    if (s.coin()) { b.flip(i); m[i] = !m[i]; }
                }
                TR("b" << k << " flipped");
                break;
            }
            default:
            {
                size_t c = size_t(-1) - s.small(200);
                TR("b" << k << ".resize/reserve(" << c << ")");
                if (s.coin()) impossible(s, [&] { b.reserve(c); });
                else impossible(s, [&] { b.resize(c); });
                break;
            }
            }
            for (size_t i = 0; i < slots; ++i)
            {
                auto got = read(*sut[i]);
                REQM(got == mod[i], "b" << i << " has " << got.size() << " bits, should have " << mod[i].size() << ", or other ones");
            }
        }
    }
    REQM(arena().blocks.empty(), arena().blocks.size() << " blocks were never given back");
}
PBT_REG(bits_vector8, (bits_target<std::vector<uint8_t, Alloc<uint8_t>>>), 3000);
PBT_REG(bits_vector64, (bits_target<std::vector<uint64_t, Alloc<uint64_t>>>), 2000);
PBT_REG(bits_small16, (bits_target<itlib::small_vector<uint16_t, 2, 0, Alloc<uint16_t>>>), 3000);
PBT_REG(bits_small32, (bits_target<itlib::small_vector<uint32_t, 1, 1, Alloc<uint32_t>>>), 2000);

// ---------------------------------------------------------------------------------------------
struct AnyAlloc
{
    void* allocate_bytes(size_t n, size_t a)
    {
        fault_tick();
        void* p = nullptr;
        if (posix_memalign(&p, a < sizeof(void*) ? sizeof(void*) : a, n) != 0) throw std::bad_alloc();
        ++arena().allocations;
        return p;
    }
    void deallocate_bytes(void* p, size_t, size_t) noexcept { ++arena().deallocations; free(p); }
};
struct Big : public FT
{
    using FT::FT;
    Big(int x) : FT(x) {}
    char room[200];
};

PBT_TARGET(any_values, 5000)
{
    using A = itlib::any<AnyAlloc>;
    arena_reset();
    {
        enum { slots = 3 };
        A sut[slots];
        int type[slots] = {}; // 0: empty, 1: FT, 2: Big
        int val[slots] = {};
        size_t n = 1 + s.raw(25);
        for (size_t step = 0; step < n; ++step)
        {
            size_t k = s.raw(slots - 1), j = s.raw(slots - 1);
            const int x = s.range<int>(0, 99);
            const unsigned f = gen_fault(s) % 5;
            A& a = sut[k];
            switch (s.raw(7))
            {
            case 0: { FT e(x); TR("a" << k << " = FT " << x); if (attempt(s, f, [&] { a = e; }) == done) { type[k] = 1; val[k] = x; } break; }
            case 1: { Big e(x); TR("a" << k << " = Big " << x); if (attempt(s, f, [&] { a = e; }) == done) { type[k] = 2; val[k] = x; } break; }
            case 2: { FT e(x); TR("a" << k << " = move FT " << x); if (attempt(s, f, [&] { a = std::move(e); }) == done) { type[k] = 1; val[k] = x; } break; }
            case 3:
            {
                TR("a" << k << ".emplace<FT>(" << x << ")");
                if (attempt(s, f, [&] { a.emplace<FT>(x); }) == done) { type[k] = 1; val[k] = x; }
                else if (!a.has_value()) type[k] = 0;
                break;
            }
            case 4:
            {
                TR("a" << k << ".emplace<Big>(" << x << ")");
                if (attempt(s, f, [&] { a.emplace<Big>(x); }) == done) { type[k] = 2; val[k] = x; }
                else if (!a.has_value()) type[k] = 0;
                break;
            }
            case 5: TR("a" << k << " = a" << j); if (attempt(s, f, [&] { a = sut[j]; }) == done) { type[k] = type[j]; val[k] = val[j]; } break;
            case 6:
            {
                TR("a" << k << " = A(a" << j << ")");
                if (attempt(s, f, [&] { A c(sut[j]); a = std::move(c); }) == done) { type[k] = type[j]; val[k] = val[j]; }
                break;
            }
            default:
            {
                FT e(x);
                TR("a" << k << " = A(FT " << x << ")");
                if (attempt(s, f, [&] { A c(e); a = std::move(c); }) == done) { type[k] = 1; val[k] = x; }
                break;
            }
            }
            long total = 0;
            for (size_t i = 0; i < slots; ++i)
            {
                REQ_EQ(sut[i].has_value(), type[i] != 0);
                auto p = itlib::any_cast<FT>(&sut[i]);
                auto q = itlib::any_cast<Big>(&sut[i]);
                REQ_EQ(p != nullptr, type[i] == 1);
                REQ_EQ(q != nullptr, type[i] == 2);
                if (p) REQ_EQ(Elem<FT>::get(*p), val[i]);
                if (q) REQ_EQ(Elem<FT>::get(*q), val[i]);
                total += type[i] != 0;
            }
            REQM(live() == total, live() << " values alive, should be " << total);
            REQM(arena().allocations - arena().deallocations == total, arena().allocations - arena().deallocations << " blocks, should be " << total);
        }
    }
    REQ_EQ(live(), 0l);
}

// ---------------------------------------------------------------------------------------------
PBT_TARGET(expected_values, 3000)
{
    using X = itlib::expected<FT, void>;
    arena_reset();
    {
        enum { slots = 3 };
        X sut[slots];
        bool has[slots];
        int val[slots];
        for (size_t i = 0; i < slots; ++i) { has[i] = true; val[i] = 0; }
        size_t n = 1 + s.raw(25);
        for (size_t step = 0; step < n; ++step)
        {
            size_t k = s.raw(slots - 1), j = s.raw(slots - 1);
            const int x = s.range<int>(0, 99);
            const unsigned f = gen_fault(s) % 5;
            X& e = sut[k];
            switch (s.raw(5))
            {
            case 0: TR("x" << k << " = x" << j); if (attempt(s, f, [&] { e = static_cast<const X&>(sut[j]); }) == done) { has[k] = has[j]; val[k] = val[j]; } break;
            case 1:
                TR("x" << k << ".emplace(" << x << ")");
                if (attempt(s, f, [&] { e.emplace(x); }) == done) { has[k] = true; val[k] = x; }
                else if (!e.has_value()) has[k] = false;
                break;
            case 2: TR("x" << k << ".clear()"); e.clear(); has[k] = false; break;
            case 3:
            {
                TR("x" << k << " = X(x" << j << ")");
                if (attempt(s, f, [&] { X c(static_cast<const X&>(sut[j])); e = std::move(c); }) == done) { has[k] = has[j]; val[k] = val[j]; }
                break;
            }
            case 4:
            {
                FT d(x);
                int got = 0;
                TR("x" << k << ".value_or(" << x << ")");
                if (attempt(s, f, [&] { got = Elem<FT>::get(e.value_or(d)); }) == done) REQ_EQ(got, has[k] ? val[k] : x);
                break;
            }
            default:
            {
                TR("value or error of " << x);
                FT d(x);
                attempt(s, f, [&] {
                    itlib::expected<FT, FT> a{FT(d)};
                    REQ_EQ(Elem<FT>::get(*a), x);
                    a = itlib::expected<FT, FT>(itlib::unexpected(d));
                    REQ_EQ(Elem<FT>::get(a.error()), x);
                    itlib::expected<void, FT> b{itlib::unexpected(FT(d))};
                    REQ_EQ(Elem<FT>::get(b.error()), x);
                });
                break;
            }
            }
            long total = 0;
            for (size_t i = 0; i < slots; ++i)
            {
                REQ_EQ(sut[i].has_value(), has[i]);
                if (has[i]) { REQ_EQ(Elem<FT>::get(*sut[i]), val[i]); ++total; }
            }
            REQM(live() == total, live() << " values alive, should be " << total);
        }
    }
    REQ_EQ(live(), 0l);
}

// ---------------------------------------------------------------------------------------------
PBT_TARGET(make_pointers, 1500)
{
    arena_reset();
    {
        const int x = s.range<int>(0, 99);
        FT e(x);
        const FT c(x + 1);
        std::unique_ptr<FT> u;
        std::unique_ptr<const FT> uc;
        std::shared_ptr<FT> sh;
        std::shared_ptr<const FT> sc;
        const unsigned f = 1 + s.raw(3);
        auto which = s.raw(4);
        TR("make " << which << " of " << x);
        Outcome o;
        int from = x;
        switch (which)
        {
        case 0: o = attempt(s, f, [&] { u = itlib::make_unique(e); }); break;
        case 1: o = attempt(s, f, [&] { u = itlib::make_unique(std::move(e)); }); break;
        case 2: o = attempt(s, f, [&] { uc = itlib::make_unique(c); }); from = x + 1; break;
        case 3: o = attempt(s, f, [&] { sh = itlib::make_shared(e); }); break;
        default: o = attempt(s, f, [&] { sc = itlib::make_shared(c); }); from = x + 1; break;
        }
        const FT* p = u ? u.get() : uc ? uc.get() : sh ? sh.get() : sc.get();
        REQ_EQ(p != nullptr, o == done);
        if (p) REQ_EQ(Elem<FT>::get(*p), from);
        if (o == failed) REQ_EQ(Elem<FT>::get(e), x);
        REQ_EQ(live(), p ? 3l : 2l);
    }
    REQ_EQ(live(), 0l);
}

// ---------------------------------------------------------------------------------------------
template <typename C>
void stream_target(pbt::Source& s)
{
    arena_reset();
    {
        itlib::mem_ostreambuf<C> buf(s.coin() ? s.small(40) : 0);
        std::ostream os(&buf);
        std::string mod;
        size_t pos = 0;
        auto put = [&](const std::string& t) {
            if (pos + t.size() > mod.size()) mod.resize(pos + t.size());
            mod.replace(pos, t.size(), t);
            pos += t.size();
        };
        size_t n = 1 + s.raw(30);
        for (size_t step = 0; step < n; ++step)
        {
            static const unsigned w[] = {6, 4, 4, 3, 3, 1, 2};
            const unsigned f = gen_fault(s) % 3;
            switch (s.weighted(w))
            {
            case 0: case 1:
            {
                std::string t;
                size_t len = s.small(60);
                for (size_t i = 0; i < len; ++i) t += char('a' + s.raw(25));
                TR("sputn(" << t.size() << ")");
                if (attempt(s, f, [&] { REQ_EQ(size_t(buf.sputn(t.data(), std::streamsize(t.size()))), t.size()); }) == done) put(t);
                break;
            }
            case 2:
            {
                char c = char('a' + s.raw(25));
                TR("sputc(" << c << ")");
                if (attempt(s, f, [&] { buf.sputc(c); }) == done) put(std::string(1, c));
                break;
            }
            case 3:
            {
                std::string t(s.small(40), 'w');
                TR("os.write(" << t.size() << ")");
                attempt(s, f, [&] { os.write(t.data(), std::streamsize(t.size())); });
                if (os) put(t);
                else { s.nontrivial(); TR("  failed"); os.clear(); }
                break;
            }
            case 4:
            {
                size_t p = s.raw(mod.size());
                TR("seekp(" << p << ")");
                os.seekp(std::streamoff(p));
                REQ(os.good());
                pos = p;
                break;
            }
            case 5:
            {
                TR("clear()");
                buf.clear();
                mod.clear();
                pos = 0;
                break;
            }
            default:
            {
                TR("get_container()");
                C c = buf.get_container();
                std::string got(c.begin(), c.end());
                REQM(got == mod, "container has " << got.size() << " chars, " << mod.size() << " were written, or others");
                mod.clear();
                pos = 0;
                break;
            }
            }
            REQ_EQ(size_t(buf.poff()), pos);
        }
        C c = buf.get_container();
        std::string got(c.begin(), c.end());
        REQM(got == mod, "container has " << got.size() << " chars, " << mod.size() << " were written, or others");
    }
    REQM(arena().blocks.empty(), arena().blocks.size() << " blocks were never given back");
}
PBT_REG(stream_vector, (stream_target<std::vector<char, Alloc<char>>>), 2500);
PBT_REG(stream_small, (stream_target<itlib::small_vector<char, 8, 0, Alloc<char>>>), 2500);
#if __cplusplus >= 201703L
PBT_REG(stream_string, (stream_target<std::string>), 2500);
#endif

// ---------------------------------------------------------------------------------------------
#if __cplusplus >= 202002L
struct UHash
{
    using is_transparent = void;
    size_t operator()(std::string_view v) const { return v.size() * 7 + (v.empty() ? 0 : size_t(v[0])); }
};
PBT_TARGET(umap_values, 3000)
{
    using U = itlib::transparent_umap<std::string, FT, UHash, std::equal_to<>>;
    arena_reset();
    {
        U m;
        std::map<std::string, int> mod;
        size_t n = 1 + s.raw(25);
        for (size_t step = 0; step < n; ++step)
        {
            std::string key(s.raw(3) * 9, char('a' + s.raw(3)));
            const int x = s.range<int>(0, 99);
            const unsigned f = gen_fault(s) % 6;
            std::string_view sv = key;
            switch (s.raw(4))
            {
            case 0: { FT e(x); TR("try_emplace(" << key << ", " << x << ")"); if (attempt(s, f, [&] { m.try_emplace(sv, e); }) == done) mod.emplace(key, x); break; }
            case 1: TR("m[" << key << "]"); if (attempt(s, f, [&] { m[sv]; }) == done) mod[key]; break;
            case 2: { FT e(x); TR("m[" << key << "] = " << x); const bool had = m.count(key) != 0; if (attempt(s, f, [&] { m[sv] = e; }) == done) mod[key] = x; else if (!had && m.count(key)) mod[key]; break; }
            case 3: { FT e(x); TR("try_emplace(hint, " << key << ", " << x << ")"); if (attempt(s, f, [&] { m.try_emplace(m.begin(), sv, e); }) == done) mod.emplace(key, x); break; }
            default: TR("erase(" << key << ")"); m.erase(key); mod.erase(key); break;
            }
            REQ_EQ(m.size(), mod.size());
            for (auto& e : mod)
            {
                auto i = m.find(e.first);
                REQ(i != m.end());
                REQ_EQ(Elem<FT>::get(i->second), e.second);
            }
            REQ_EQ(live(), long(mod.size()));
        }
    }
    REQ_EQ(live(), 0l);
}
#endif

} // namespace

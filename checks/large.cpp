// The containers with many more elements than histories of single operations reach: sizes around the powers of two where
// narrower counters wrap. VT_WHAT: 1 small_vector, 3 static_vector, 5 pod_vector, 6 pod_vector beyond 4 GB, 7 flat_map,
// 8 flat_set, 9 dynamic_bitset (and beyond 4 G bits)
#include "common.hpp"
#include "alias.hpp"
#if VT_WHAT == 1
#include <itlib/small_vector.hpp>
#elif VT_WHAT == 3
#include <itlib/static_vector.hpp>
#elif VT_WHAT == 5 || VT_WHAT == 6
#include <itlib/pod_vector.hpp>
#elif VT_WHAT == 7
#include <itlib/flat_map.hpp>
#include <itlib/small_vector.hpp>
#include <itlib/static_vector.hpp>
#elif VT_WHAT == 8
#include <itlib/flat_set.hpp>
#include <itlib/small_vector.hpp>
#include <itlib/static_vector.hpp>
#else
#include <itlib/dynamic_bitset.hpp>
#include <itlib/small_vector.hpp>
#include <itlib/pod_vector.hpp>
#endif
#include <algorithm>
#include <cstring>
#include <map>
#include <set>

using namespace vt;

namespace
{
// mostly next to a power of two
size_t number(pbt::Source& s, size_t max, unsigned first_bit = 5)
{
    size_t r;
    switch (s.raw(3))
    {
    case 0: r = s.small(30); break;
    case 1: r = max - std::min(max, size_t(s.small(30))); break;
    case 2:
    {
        unsigned bits = first_bit;
        while ((size_t(2) << bits) <= max) ++bits;
        r = (size_t(1) << (first_bit + s.raw(bits > first_bit ? bits - first_bit : 0))) + s.small(20) - 10;
        break;
    }
    default: r = s.range<size_t>(0, max); break;
    }
    return r > max ? max : r;
}
int mix(uint64_t seed, size_t i) { uint64_t x = seed * 0x9E3779B97F4A7C15ull + i * 0xBF58476D1CE4E5B9ull; x ^= x >> 29; x *= 0x94D049BB133111EBull; return int(x >> 40); }

#if VT_WHAT == 1 || VT_WHAT == 3 || VT_WHAT == 5
struct S3 { unsigned char a, b, c; friend bool operator==(const S3& x, const S3& y) { return x.a == y.a && x.b == y.b && x.c == y.c; } friend bool operator!=(const S3& x, const S3& y) { return !(x == y); } };
template <typename T> struct El { static T of(int x) { return T(x); } };
template <> struct El<S3> { static S3 of(int x) { S3 r = {(unsigned char)x, (unsigned char)(x >> 8), (unsigned char)(x >> 16)}; return r; } };

template <typename V, typename T, size_t Max>
struct Seq
{
    static std::vector<T> text(pbt::Source& s, size_t n)
    {
        const uint64_t seed = s.raw(1000);
        std::vector<T> r;
        r.reserve(n);
        for (size_t i = 0; i < n; ++i) r.push_back(El<T>::of(mix(seed, i)));
        return r;
    }
    static void same(const V& v, const std::vector<T>& m, const char* what)
    {
        REQM(v.size() == m.size(), what << ": size() is " << v.size() << ", not " << m.size());
        REQM(v.empty() == m.empty() && v.capacity() >= v.size(), what << ": capacity() is " << v.capacity());
        REQM(size_t(v.end() - v.begin()) == m.size() && size_t(v.rend() - v.rbegin()) == m.size(), what << ": iterators");
        const T* d = v.data();
        for (size_t i = 0; i < m.size(); ++i) if (!(d[i] == m[i])) FAIL(what << ": element " << i << " of " << m.size() << " is another");
        if (m.empty()) return;
        REQ(v.front() == m.front() && v.back() == m.back() && v[m.size() / 2] == m[m.size() / 2] && &v[m.size() - 1] == d + m.size() - 1);
    }
    static void run(pbt::Source& s)
    {
        std::unique_ptr<V> hv[2] = {std::unique_ptr<V>(new V), std::unique_ptr<V>(new V)};
        std::vector<T> m[2];
        size_t nops = 2 + s.small(8);
        for (size_t k = 0; k < nops; ++k)
        {
            size_t i = size_t(s.raw(1));
            V& v = *hv[i];
            auto& x = m[i];
            const size_t n = x.size(), room = Max - n;
            if (n > 200) s.nontrivial();
            switch (s.raw(12))
            {
            case 0: case 1:
            {
                auto t = text(s, number(s, room));
                size_t at = number(s, n);
                TR("v" << i << " (" << n << ") insert a range of " << t.size() << " at " << at);
                auto it = v.insert(v.begin() + ptrdiff_t(at), t.begin(), t.end());
                REQ(size_t(it - v.begin()) == at);
                x.insert(x.begin() + ptrdiff_t(at), t.begin(), t.end());
                break;
            }
            case 2:
            {
                size_t c = number(s, room), at = number(s, n);
                TR("v" << i << " (" << n << ") insert " << c << " copies at " << at);
                const T e = El<T>::of(int(s.raw(100000)));
                auto it = v.insert(v.begin() + ptrdiff_t(at), c, e);
                REQ(size_t(it - v.begin()) == at);
                x.insert(x.begin() + ptrdiff_t(at), c, e);
                break;
            }
            case 3: case 4:
            {
                size_t b = number(s, n), e = b + number(s, n - b);
                TR("v" << i << " (" << n << ") erase " << b << " to " << e);
                auto it = v.erase(v.begin() + ptrdiff_t(b), v.begin() + ptrdiff_t(e));
                REQ(size_t(it - v.begin()) == b);
                x.erase(x.begin() + ptrdiff_t(b), x.begin() + ptrdiff_t(e));
                break;
            }
            case 5:
            {
                size_t c = number(s, Max);
                TR("v" << i << " (" << n << ") resize " << c);
                const T e = El<T>::of(int(s.raw(100000)));
                v.resize(c, e); x.resize(c, e);
                break;
            }
            case 6:
            {
                size_t c = number(s, Max);
                TR("v" << i << " (" << n << ") assign " << c << " copies");
                const T e = El<T>::of(int(s.raw(100000)));
                v.assign(c, e); x.assign(c, e);
                break;
            }
            case 7: { auto t = text(s, number(s, Max)); TR("v" << i << " (" << n << ") assign a range of " << t.size()); v.assign(t.begin(), t.end()); x = t; break; }
            case 8:
            {
                size_t c = std::min(room, size_t(s.small(300)));
                TR("v" << i << " (" << n << ") push_back " << c << " times");
                for (size_t q = 0; q < c; ++q) { T e = El<T>::of(mix(n, q)); if (q & 1) v.push_back(e); else v.emplace_back(e); x.push_back(e); }
                break;
            }
            case 9:
            {
                TR("v" << i << " (" << n << ") single insertions and erasures");
                for (int q = 0; q < 3; ++q)
                {
                    if (x.size() < Max) { size_t at = number(s, x.size()); T e = El<T>::of(int(s.raw(100000))); auto it = v.insert(v.begin() + ptrdiff_t(at), e); REQ(size_t(it - v.begin()) == at); x.insert(x.begin() + ptrdiff_t(at), e); }
                    if (x.size() > 1 && s.coin()) { size_t at = number(s, x.size() - 1); auto it = v.erase(v.begin() + ptrdiff_t(at)); REQ(size_t(it - v.begin()) == at); x.erase(x.begin() + ptrdiff_t(at)); }
                }
                break;
            }
            case 10:
            {
                switch (s.raw(3))
                {
                case 0: TR("v" << 1 - i << " = v" << i); *hv[1 - i] = v; m[1 - i] = x; break;
                case 1: TR("v" << 1 - i << " = std::move(v" << i << ")"); *hv[1 - i] = std::move(v); m[1 - i] = x; hv[i].reset(new V); x.clear(); break;
                case 2: TR("swap"); v.swap(*hv[1 - i]); m[0].swap(m[1]); break;
                default: TR("v" << 1 - i << " = new vec(v" << i << ")"); { const V& c = v; hv[1 - i].reset(new V(c)); } m[1 - i] = x; break;
                }
                break;
            }
            case 11:
            {
                TR("compare v" << i << " (" << n << ") to v" << 1 - i);
                REQ((v == *hv[1 - i]) == (x == m[1 - i]) && (v != *hv[1 - i]) == (x != m[1 - i]));
                if (n)
                {
                    std::unique_ptr<V> c(new V(v));
                    REQ(*c == v && !(*c != v));
                    size_t at = number(s, n - 1);
                    (*c)[at] = El<T>::of(int(mix(1, at)) ^ 1);
                    const bool eq = (*c)[at] == x[at];
                    REQM((*c == v) == eq && (*c != v) == !eq, "a difference in element " << at << " of " << n << " is not seen");
                }
                break;
            }
            default:
#if VT_WHAT != 3
            {
                size_t c = number(s, Max * 2);
                if (s.coin()) { TR("v" << i << " (" << n << ") reserve " << c); v.reserve(c); REQM(v.capacity() >= c, "capacity() is " << v.capacity() << " after reserve(" << c << ")"); }
                else { TR("v" << i << " (" << n << ") shrink_to_fit"); v.shrink_to_fit(); }
            }
#else
                REQ(v.capacity() == Max && v.max_size() == Max);
                if (s.coin()) { TR("v" << i << " overflow from " << n); bool thrown = false; try { v.resize(Max + 1 + number(s, Max)); } catch (const std::exception&) { thrown = true; } REQM(thrown, "an overflow went unnoticed"); }
#endif
                break;
            }
            same(*hv[0], m[0], "v0");
            same(*hv[1], m[1], "v1");
        }
    }
};
template <typename V, size_t Max> void tracked(pbt::Source& s)
{
    tstats() = TrackStats();
    Seq<V, Tracked, Max>::run(s);
    REQM(tstats().live == 0, tstats().live << " elements not destroyed");
}
#endif

#if VT_WHAT == 1
PBT_REG(large_char, (Seq<itlib::small_vector<char, 16>, char, 140000>::run), 500);
PBT_REG(large_int, (Seq<itlib::small_vector<int, 300, 200>, int, 70000>::run), 500);
PBT_REG(large_s3, (Seq<itlib::small_vector<S3, 70000, 66000>, S3, 140000>::run), 300);
PBT_REG(large_tracked, (tracked<itlib::small_vector<Tracked, 260>, 67000>), 200);
#elif VT_WHAT == 3
PBT_REG(large_255, (Seq<itlib::static_vector<char, 255>, char, 255>::run), 2000);
PBT_REG(large_256, (Seq<itlib::static_vector<int, 256>, int, 256>::run), 2000);
PBT_REG(large_257, (tracked<itlib::static_vector<Tracked, 257>, 257>), 1500);
PBT_REG(large_65535, (Seq<itlib::static_vector<char, 65535>, char, 65535>::run), 500);
PBT_REG(large_65536, (Seq<itlib::static_vector<int, 65536>, int, 65536>::run), 500);
PBT_REG(large_140000, (Seq<itlib::static_vector<char, 140000>, char, 140000>::run), 400);
PBT_REG(large_tracked, (tracked<itlib::static_vector<Tracked, 67000>, 67000>), 200);
#elif VT_WHAT == 5
PBT_REG(large_char, (Seq<itlib::pod_vector<char>, char, 140000>::run), 800);
PBT_REG(large_short, (Seq<itlib::pod_vector<uint16_t>, uint16_t, 70000>::run), 800);
PBT_REG(large_s3, (Seq<itlib::pod_vector<S3>, S3, 140000>::run), 500);
PBT_REG(large_long, (Seq<itlib::pod_vector<long long>, long long, 70000>::run), 800);
#elif VT_WHAT == 6
// two blocks of 4.7 GB which show the same few megabytes; grows and shrinks where it is
struct Slots
{
    bool used[2] = {false, false};
    size_t size[2] = {0, 0};
};
Slots& slots() { static Slots x; return x; }
constexpr size_t slot_bytes = alias_bytes / 2;
struct HugeAlloc
{
    using size_type = size_t;
    static unsigned char* base(int i) { return alias_base() + size_t(i) * slot_bytes; }
    static int slot(const void* p)
    {
        for (int i = 0; i < 2; ++i) if (p == base(i) && slots().used[i]) return i;
        FAIL("not a block of this allocator");
        return 0;
    }
    void* malloc(size_type n)
    {
        if (n > slot_bytes) throw std::bad_alloc();
        for (int i = 0; i < 2; ++i) if (!slots().used[i]) { slots().used[i] = true; slots().size[i] = n; return base(i); }
        throw std::bad_alloc();
    }
    void free(void* p) { if (p) slots().used[slot(p)] = false; }
    size_type max_size() const { return slot_bytes; }
    bool zero_fill_new() const { return false; }
    static constexpr size_type alloc_align() { return 4096; }
    static constexpr bool has_expand() { return false; }
    void* realloc(void* p, size_type n) { if (!p) return malloc(n); if (n > slot_bytes) throw std::bad_alloc(); slots().size[slot(p)] = n; return p; }
    size_type realloc_wasteful_copy_size() const { return ~size_type(0); }
    bool expand(void*, size_type) { return false; }
};
template <size_t N> struct Wide { unsigned char b[N]; };

// sizes and the elements around the place last written
template <typename T>
void huge(pbt::Source& s)
{
    if (!alias_base()) return;
    slots() = Slots();
    using V = itlib::pod_vector<T, HugeAlloc>;
    constexpr size_t most = slot_bytes / sizeof(T) / 5 * 3; // it may grow by more than asked for
    {
        V v;
        size_t n = 0;
        auto size = [&](size_t max) {
            unsigned top = 0;
            while ((size_t(2) << top) <= max) ++top;
            return number(s, max, top > 4 ? top - 3 : 0);
        };
        auto mk = [&](int x) { T t; memset(&t, x & 127, sizeof t); return t; };
        auto is = [&](const T& t, int x) { T u = mk(x); return memcmp(&t, &u, sizeof t) == 0; };
        size_t nops = 2 + s.small(14);
        for (size_t k = 0; k < nops; ++k)
        {
            const T* d = v.data();
            const size_t cap = v.capacity();
            switch (s.raw(7))
            {
            case 0: case 1: { size_t c = s.chance(1, 3) && cap ? std::min(cap, most) : size(most); TR("resize " << n << " to " << c); v.resize(c); n = c; s.nontrivial(); break; }
            case 2: { size_t c = size(most); TR("reserve " << c); v.reserve(c); REQM(v.capacity() >= c, "capacity() is " << v.capacity() << " after reserve(" << c << ")"); s.nontrivial(); break; }
            case 3: { TR("shrink_to_fit at " << n); v.shrink_to_fit(); REQM(v.capacity() == n, "capacity() is " << v.capacity() << " after shrink_to_fit() with " << n); break; }
            case 4: if (n < most) { int x = int(s.raw(100)); TR("push_back at " << n); v.push_back(mk(x)); ++n; REQM(is(v.back(), x), "the element is not at the end"); s.nontrivial(); } break;
            case 5: // near the end
                if (n > 40 && n < most)
                {
                    size_t at = n - s.small(30);
                    int x = int(s.raw(100)), y = int(s.raw(100)), z = int(s.raw(100));
                    TR("insert and erase at " << at << " of " << n);
                    if (at < n) v[at] = mk(y);
                    v[at - 1] = mk(z);
                    auto it = v.insert(v.begin() + ptrdiff_t(at), mk(x));
                    REQM(size_t(it - v.begin()) == at && v.size() == n + 1, "insert at " << at << " of " << n << " returned " << (it - v.begin()));
                    REQM(is(v[at], x) && is(v[at - 1], z) && (at == n || is(v[at + 1], y)), "elements around the inserted one");
                    it = v.erase(v.begin() + ptrdiff_t(at));
                    REQM(size_t(it - v.begin()) == at && v.size() == n, "erase at " << at << " of " << n << " returned " << (it - v.begin()));
                    REQM(is(v[at - 1], z) && (at == n || is(v[at], y)), "elements around the erased one");
                    s.nontrivial();
                }
                break;
            case 6: { size_t c = n - size(n); TR("erase " << c << " to the end " << n); auto it = v.erase(v.begin() + ptrdiff_t(c), v.end()); n = c; REQ(it == v.end()); break; }
            default:
                switch (s.raw(2))
                {
                case 0: { TR("move"); V o(std::move(v)); REQ(v.size() == 0 && o.size() == n && o.data() == d); v = std::move(o); REQ(v.data() == d); break; }
                case 1: { TR("pop_back"); if (n) { v.pop_back(); --n; } break; }
                default:
                {
                    TR("as bytes and back, " << n);
                    itlib::pod_vector<unsigned char, HugeAlloc> b;
                    b.recast_take_from(std::move(v));
                    REQM(b.size() == n * sizeof(T) && b.byte_size() == n * sizeof(T), "recast to " << b.size() << " bytes");
                    size_t cut = b.size() ? s.small(sizeof(T) < 8 ? sizeof(T) : 8) : 0;
                    if (cut > b.size()) cut = 0;
                    b.resize(b.size() - cut);
                    v.recast_take_from(std::move(b));
                    n = (n * sizeof(T) - cut) / sizeof(T);
                    REQM(v.size() == n, "recast to " << v.size() << " elements");
                    break;
                }
                }
                break;
            }
            REQM(v.size() == n && v.empty() == !n, "size() is " << v.size() << ", not " << n);
            REQM(v.capacity() >= n, "capacity() " << v.capacity() << " is less than the size " << n);
            REQM(v.byte_size() == n * sizeof(T), "byte_size() is " << v.byte_size());
            REQM(size_t(v.end() - v.begin()) == n && size_t(v.rend() - v.rbegin()) == n, "iterators");
            if (v.data()) REQM(v.capacity() * sizeof(T) <= slots().size[HugeAlloc::slot(v.data())], "capacity() " << v.capacity() << " of a block of " << slots().size[HugeAlloc::slot(v.data())] << " bytes");
        }
    }
    REQM(!slots().used[0] && !slots().used[1], "memory outlives its vector");
}
PBT_REG(huge_bytes, huge<char>, 2500);
PBT_REG(huge_4, huge<Wide<4>>, 2500);
PBT_REG(huge_12, huge<Wide<12>>, 2500);
PBT_REG(huge_4096, huge<Wide<4096>>, 1500);
PBT_REG(huge_70000, huge<Wide<70000>>, 800);
#elif VT_WHAT == 7 || VT_WHAT == 8

#if VT_WHAT == 7
template <typename C> struct Kind
{
    using F = itlib::flat_map<int, int, std::less<int>, C>;
    using Elem = std::pair<int, int>;
    static Elem el(int k) { return Elem(k, k ^ 0x5555); }
    template <typename E> static int key(const E& e) { REQM(e.second == (e.first ^ 0x5555), "key " << e.first << " has the value of another"); return e.first; }
};
using Pair = std::pair<int, int>;
#else
template <typename C> struct Kind
{
    using F = itlib::flat_set<int, std::less<int>, C>;
    using Elem = int;
    static Elem el(int k) { return k; }
    static int key(int e) { return e; }
};
using Pair = int;
#endif
template <typename C, size_t Max>
void assoc(pbt::Source& s)
{
    using K = Kind<C>;
    using F = typename K::F;
    const uint64_t seed = s.raw(1000);
    const int range = s.coin() ? int(Max) * 2 : 0xffffff;
    const size_t n = number(s, Max);
    std::unique_ptr<F> f;
    std::set<int> m;
    {
        std::unique_ptr<C> c(new C);
        for (size_t i = 0; i < n; ++i) { int k = mix(seed, i) % range; c->push_back(K::el(k)); m.insert(k); }
        TR("from " << n << " elements, " << m.size() << " different");
        f.reset(new F(std::move(*c)));
    }
    if (n > 200) s.nontrivial();
    auto check = [&] {
        REQM(f->size() == m.size() && f->empty() == m.empty() && size_t(f->end() - f->begin()) == m.size(), "size() is " << f->size() << ", not " << m.size());
        auto i = f->begin();
        size_t at = 0;
        for (int k : m) { REQM(K::key(*i) == k, "element " << at << " of " << m.size() << " is " << K::key(*i) << ", not " << k); ++i; ++at; }
        auto r = f->rbegin();
        if (!m.empty()) REQ(K::key(*r) == *m.rbegin());
    };
    check();
    size_t nops = s.small(8);
    for (size_t k = 0; k < nops; ++k)
    {
        switch (s.raw(4))
        {
        case 0: // look up
            for (int q = 0; q < 40; ++q)
            {
                int x = q % 2 || !n ? int(s.raw(uint64_t(range))) : mix(seed, number(s, n - 1)) % range;
                auto it = f->find(x);
                auto lb = f->lower_bound(x);
                auto w = m.lower_bound(x);
                const bool there = w != m.end() && *w == x;
                REQM((it != f->end()) == there && f->count(x) == size_t(there), "find(" << x << ")");
                if (there) REQM(K::key(*it) == x, "find(" << x << ") is another");
                REQM((lb == f->end()) == (w == m.end()) && (lb == f->end() || K::key(*lb) == *w), "lower_bound(" << x << ")");
                auto ub = f->upper_bound(x);
                REQM(ub - lb == ptrdiff_t(there), "upper_bound(" << x << ")");
            }
            TR("look up");
            break;
        case 1:
        case 2:
            for (int q = 0; q < 6; ++q)
            {
                if (m.size() >= Max) break;
                int x = s.chance(1, 4) && n ? mix(seed, number(s, n - 1)) % range : int(s.raw(uint64_t(range)));
                TR("insert " << x << " into " << m.size());
                auto w = m.insert(x);
                auto r = f->insert(K::el(x));
                REQM(r.second == w.second && K::key(*r.first) == x, "insert(" << x << ") says " << r.second);
            }
            break;
        case 3:
            for (int q = 0; q < 6 && !m.empty(); ++q)
            {
                if (s.coin())
                {
                    int x = s.chance(1, 4) || !n ? int(s.raw(uint64_t(range))) : mix(seed, number(s, n - 1)) % range;
                    TR("erase " << x);
                    auto w = m.erase(x);
                    REQM(f->erase(x) == w, "erase(" << x << ")");
                }
                else
                {
                    size_t at = number(s, m.size() - 1);
                    TR("erase element " << at << " of " << m.size());
                    auto it = f->erase(f->begin() + ptrdiff_t(at));
                    REQ(size_t(it - f->begin()) == at);
                    m.erase(std::next(m.begin(), ptrdiff_t(at)));
                }
            }
            break;
        default:
        {
            TR("copy and compare");
            std::unique_ptr<F> g(new F(*f));
            REQ(*g == *f && !(*g != *f));
            if (!m.empty())
            {
                size_t at = number(s, m.size() - 1);
                auto keep = *(g->begin() + ptrdiff_t(at));
                g->erase(g->begin() + ptrdiff_t(at));
                REQM(!(*g == *f) && *g != *f, "a missing element " << at << " of " << m.size() << " is not seen");
                g->insert(keep);
                REQ(*g == *f);
            }
            g->swap(*f);
            break;
        }
        }
        check();
    }
}
PBT_REG(large, (assoc<std::vector<Pair>, 70000>), 150);
PBT_REG(large_small, (assoc<itlib::small_vector<Pair, 300>, 3000>), 400);
PBT_REG(large_static, (assoc<itlib::static_vector<Pair, 66000>, 66000>), 100);
#else // bits
// memory which is zero is neither written nor taken from the system
template <typename W>
struct SparseAlloc
{
    using value_type = W;
    SparseAlloc() {}
    template <typename U> SparseAlloc(const SparseAlloc<U>&) {}
    W* allocate(size_t n)
    {
        void* m = mmap(nullptr, n * sizeof(W), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (m == MAP_FAILED) throw std::bad_alloc();
        return static_cast<W*>(m);
    }
    void deallocate(W* p, size_t n) { munmap(p, n * sizeof(W)); }
    template <typename U, typename... A> void construct(U* p, A&&... a) { const U v(std::forward<A>(a)...); if (*p != v) *p = v; }
    friend bool operator==(const SparseAlloc&, const SparseAlloc&) { return true; }
    friend bool operator!=(const SparseAlloc&, const SparseAlloc&) { return false; }
};

template <typename Buf, size_t Max>
void bits(pbt::Source& s)
{
    using B = itlib::dynamic_bitset<Buf>;
    B b[2];
    std::vector<bool> m[2];
    auto fill = [&](size_t i) {
        const uint64_t seed = s.raw(1000);
        const unsigned style = unsigned(s.raw(3)); // random, none, all, all but one
        for (size_t k = 0; k < m[i].size(); ++k) { bool x = style == 0 ? mix(seed, k) & 1 : style >= 2; m[i][k] = x; b[i].set(k, x); }
        if (style == 3 && !m[i].empty()) { size_t at = number(s, m[i].size() - 1); m[i][at] = false; b[i].reset(at); }
    };
    auto check = [&](size_t i) {
        const B& c = b[i];
        const auto& x = m[i];
        REQM(c.size() == x.size() && c.byte_size() == (x.size() + 7) / 8 && size_t(c.end() - c.begin()) == x.size(), "size() is " << c.size() << ", not " << x.size());
        size_t ones = 0;
        for (size_t k = 0; k < x.size(); ++k) { if (c.test(k) != x[k]) FAIL("bit " << k << " of " << x.size() << " is " << c.test(k)); ones += x[k]; }
        if (x.empty()) return;
        REQM(c.any() == (ones > 0) && c.none() == (ones == 0) && c.all() == (ones == x.size()), ones << " of " << x.size() << " are true; any " << c.any() << " none " << c.none() << " all " << c.all());
    };
    size_t nops = 2 + s.small(8);
    for (size_t k = 0; k < nops; ++k)
    {
        size_t i = size_t(s.raw(1));
        const size_t n = m[i].size();
        if (n > 200) s.nontrivial();
        switch (s.raw(5))
        {
        case 0: case 1: { size_t c = number(s, Max); TR("b" << i << " (" << n << ") resize " << c); b[i].resize(c); m[i].resize(c); if (s.coin()) fill(i); break; }
        case 2:
            if (n)
            {
                TR("b" << i << " (" << n << ") set bits");
                for (int q = 0; q < 20; ++q) { size_t at = number(s, n - 1); bool x = s.coin(); if (s.coin()) b[i].set(at, x); else b[i][at] = x; m[i][at] = x; if (s.coin()) { b[i].flip(at); m[i][at] = !x; } }
            }
            break;
        case 3:
            if (n + m[1 - i].size() <= Max) { TR("b" << i << " (" << n << ") append " << m[1 - i].size()); b[i].append(b[1 - i]); m[i].insert(m[i].end(), m[1 - i].begin(), m[1 - i].end()); }
            break;
        case 4:
        {
            size_t from = number(s, n), len = number(s, std::min(n - from, m[1 - i].size())), src = number(s, m[1 - i].size() - len);
            TR("b" << i << " (" << n << ") copy " << len << " bits from " << src << " to " << from);
            b[i].copy(b[i].begin() + ptrdiff_t(from), b[i].begin() + ptrdiff_t(from + len), b[1 - i].begin() + ptrdiff_t(src));
            for (size_t q = 0; q < len; ++q) m[i][from + q] = m[1 - i][src + q];
            break;
        }
        default:
        {
            TR("b" << i << " (" << n << ") push_back");
            for (size_t q = s.small(80); q > 0; --q) if (m[i].size() < Max) { bool x = s.coin(); b[i].push_back(x); m[i].push_back(x); }
            break;
        }
        }
        check(0);
        check(1);
    }
}

// more than 2^32 bits, nearly all of them zero
template <typename W>
void huge_bits(pbt::Source& s)
{
    using Buf = std::vector<W, SparseAlloc<W>>;
    using B = itlib::dynamic_bitset<Buf>;
    B b, o;
    size_t n = (size_t(1) << 32) + 1 + number(s, 3000);
    std::set<size_t> m; // the ones
    TR("size " << n);
    b.resize(n);
    auto place = [&] { size_t r = s.chance(1, 3) ? n - 1 - s.small(300) : s.chance(1, 3) ? (size_t(1) << (31 + s.raw(1))) + s.small(300) - 150 : s.coin() ? s.small(300) : s.range<size_t>(0, n - 1); return r < n ? r : n - 1; };
    auto near = [&](size_t i) {
        for (size_t k = i < 70 ? 0 : i - 70; k < i + 70 && k < n; ++k) REQM(b.test(k) == (m.count(k) > 0), "bit " << k << " of " << n << " is " << b.test(k));
        size_t w = i % (size_t(1) << 32); // where a narrow index would have gone
        REQM(b.test(w) == (m.count(w) > 0), "bit " << w << " of " << n << " is " << b.test(w));
    };
    o.resize(200);
    std::vector<bool> om(200);
    for (size_t k = 0; k < 200; ++k) { om[k] = s.coin(); o.set(k, om[k]); }
    size_t nops = 12;
    for (size_t k = 0; k < nops; ++k)
    {
        size_t i = place();
        switch (s.raw(4))
        {
        case 0: { TR("set " << i); if (s.coin()) b.set(i); else b[i] = true; m.insert(i); near(i); break; }
        case 1: { TR("flip " << i); b.flip(i); if (!m.erase(i)) m.insert(i); near(i); break; }
        case 2: { TR("reset " << i); b.reset(i); m.erase(i); near(i); break; }
        case 3:
        {
            size_t len = s.small(150), src = s.small(200 - len);
            if (i + len > n) i = n - len;
            TR("copy " << len << " bits to " << i);
            b.copy(b.begin() + ptrdiff_t(i), b.begin() + ptrdiff_t(i + len), o.begin() + ptrdiff_t(src));
            for (size_t q = 0; q < len; ++q) { m.erase(i + q); if (om[src + q]) m.insert(i + q); }
            near(i); near(i + len - (len > 0));
            // and from there
            B c;
            c.resize(len + 3);
            c.copy(c.begin(), c.begin() + ptrdiff_t(len), b.begin() + ptrdiff_t(i));
            for (size_t q = 0; q < len; ++q) REQM(c.test(q) == om[src + q], "bit " << q << " copied from bit " << i + q);
            break;
        }
        default:
        {
            size_t old = n;
            if (s.coin()) { n = n - s.small(100); TR("resize to " << n); b.resize(n); m.erase(m.lower_bound(n), m.end()); }
            else { TR("append 200 bits"); b.append(o); for (size_t q = 0; q < 200; ++q) if (om[q]) m.insert(n + q); n += 200; k += 4; }
            near(std::min(old, n) - 1); near(n - 1);
            break;
        }
        }
        REQM(b.size() == n && b.byte_size() == (n + 7) / 8 && b.word_size() == (n + sizeof(W) * 8 - 1) / (sizeof(W) * 8) && size_t(b.end() - b.begin()) == n, "size() is " << b.size() << ", not " << n);
    }
    REQM(b.any() == !m.empty() && b.none() == m.empty(), "any() is " << b.any() << " with " << m.size() << " ones");
    for (size_t k : m) b.reset(k);
    REQM(b.none(), "not all ones were where they should be");
    s.nontrivial();
}
PBT_REG(large_8, (bits<std::vector<uint8_t>, 600000>), 60);
PBT_REG(large_32, (bits<std::vector<uint32_t>, 140000>), 60);
PBT_REG(large_64, (bits<itlib::small_vector<uint64_t, 4>, 140000>), 60);
PBT_REG(huge_64, huge_bits<uint64_t>, 6);
#endif
} // namespace

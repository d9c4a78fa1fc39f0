// what operations may cost: comparisons, element operations, allocations (P35)
// Bounds are a few times what the class of the operation (constant, logarithmic, amortised constant, linear in what
// is shifted) allows; generated sizes are large enough for the next worse class to exceed them.
#include "common.hpp"
#include <itlib/flat_map.hpp>
#include <itlib/flat_set.hpp>
#include <itlib/small_vector.hpp>
#include <itlib/static_vector.hpp>
#include <itlib/pod_vector.hpp>
#include <itlib/dynamic_bitset.hpp>
#include <itlib/mem_streambuf.hpp>
#include <itlib/any.hpp>
#include <itlib/ufunction.hpp>
#include <itlib/expected.hpp>
#include <itlib/qalgorithm.hpp>
#include <algorithm>

using namespace vt;

namespace
{
// counters
struct Counts { size_t made, copied, moved, destroyed, compared, hashed, allocated, bytes; };
Counts g;

struct El
{
    int v;
    El(int x = 0) : v(x) { ++g.made; }
    El(const El& o) : v(o.v) { ++g.copied; }
    El(El&& o) noexcept : v(o.v) { ++g.moved; }
    El& operator=(const El& o) { v = o.v; ++g.copied; return *this; }
    El& operator=(El&& o) noexcept { v = o.v; ++g.moved; return *this; }
    ~El() { ++g.destroyed; }
};
size_t ops() { return g.made + g.copied + g.moved + g.destroyed; }

template <typename T>
struct CA
{
    using value_type = T;
    CA() = default;
    template <typename U> CA(const CA<U>&) {}
    T* allocate(size_t n) { ++g.allocated; g.bytes += n * sizeof(T); return static_cast<T*>(::operator new(n * sizeof(T))); }
    void deallocate(T* p, size_t) { ::operator delete(p); }
    bool operator==(const CA&) const { return true; }
    bool operator!=(const CA&) const { return false; }
};

struct Less
{
    using is_transparent = void;
    bool operator()(const El& a, const El& b) const { ++g.compared; return a.v < b.v; }
    bool operator()(const El& a, int b) const { ++g.compared; return a.v < b; }
    bool operator()(int a, const El& b) const { ++g.compared; return a < b.v; }
};

size_t log2c(size_t n) { size_t r = 0; while ((size_t(1) << r) < n + 1) ++r; return r; }

void at_most(size_t got, size_t limit, const char* what, const char* op, size_t n)
{
    if (got > limit) FAIL(op << " with " << n << " elements took " << got << " " << what << ", at most " << limit << " are to be expected");
}

size_t big(pbt::Source& s, size_t max)
{
    switch (s.raw(3))
    {
    case 0: return s.range<size_t>(1, 40);
    case 1: return s.range<size_t>(41, 400 < max ? 400 : max);
    default: return s.range<size_t>(100, max);
    }
}

// ---- flat_map and flat_set: lookups are logarithmic, building is n log n, insertion and erasure shift what follows
template <typename K, typename V> int keyof(const std::pair<K, V>& p) { return p.first.v; }
inline int keyof(const El& e) { return e.v; }
template <typename F> struct Mk { static typename F::value_type of(int k) { return typename F::value_type(El(k), El(-k)); } static size_t width() { return 2; } };
template <typename C> struct Mk<itlib::flat_set<El, Less, C>> { static El of(int k) { return El(k); } static size_t width() { return 1; } };

template <typename C> struct Reserve { static void go(C& c, size_t n) { c.reserve(n); } };
template <typename T, size_t N> struct Reserve<itlib::static_vector<T, N>> { static void go(itlib::static_vector<T, N>&, size_t) {} };
template <typename K, typename V, typename C, typename T, size_t N> struct Reserve<itlib::flat_map<K, V, C, itlib::static_vector<T, N>>> { template <typename F> static void go(F&, size_t) {} };
template <typename K, typename C, typename T, size_t N> struct Reserve<itlib::flat_set<K, C, itlib::static_vector<T, N>>> { template <typename F> static void go(F&, size_t) {} };

template <typename F, size_t Max>
void flat(pbt::Source& s)
{
    size_t n = big(s, Max);
    int step = 2;
    std::vector<typename F::value_type> in;
    for (size_t i = 0; i < n; ++i) in.push_back(Mk<F>::of(int(i) * step + 1));
    uint64_t order = s.raw(3);
    if (order == 1) std::reverse(in.begin(), in.end());
    if (order >= 2) for (size_t i = n; i > 1; --i) std::swap(in[i - 1], in[pbt::mix64(i * 31 + order) % i]);
    static const char* const on[] = {"ascending", "descending", "shuffled", "shuffled"};
    TR(n << " keys, " << on[order]);
    const size_t lg = log2c(n), look = 2 * lg + 8;
    g = Counts();
    F f(in.begin(), in.end());
    at_most(g.compared, 8 * n * lg + 64, "comparisons", "construction", n);
    at_most(ops(), Mk<F>::width() * (16 * n * lg + 256), "element operations", "construction", n);
    REQ(f.size() == n);
    const F& c = f;
    size_t nops = 2 + s.small(14);
    for (size_t q = 0; q < nops; ++q)
    {
        int k = int(s.range<size_t>(0, 2 * n + 2));
        El ek(k);
        const bool has = k % 2 == 1 && size_t(k) < 2 * n;
        const bool heter = s.coin();
        unsigned op = unsigned(s.raw(9));
        TR("op " << op << (heter ? " (transparent)" : "") << " key " << k);
        g = Counts();
        switch (op)
        {
        case 0: { bool r = heter ? f.find(k) != f.end() : f.find(ek) != f.end(); REQ(r == has); at_most(g.compared, look, "comparisons", "find", n); break; }
        case 1: { bool r = heter ? c.find(k) != c.end() : c.find(ek) != c.end(); REQ(r == has); at_most(g.compared, look, "comparisons", "const find", n); break; }
        case 2: { size_t r = heter ? c.count(k) : c.count(ek); REQ(r == size_t(has)); at_most(g.compared, look, "comparisons", "count", n); break; }
        case 3: { auto r = heter ? f.lower_bound(k) : f.lower_bound(ek); REQ(size_t(r - f.begin()) == std::min(n, size_t(k) / 2)); at_most(g.compared, look, "comparisons", "lower_bound", n); break; }
        case 4: { auto r = heter ? c.upper_bound(k) : c.upper_bound(ek); REQ(size_t(r - c.begin()) == std::min(n, size_t(k + 1) / 2)); at_most(g.compared, look, "comparisons", "upper_bound", n); break; }
        case 5: { auto r = heter ? c.equal_range(k) : c.equal_range(ek); REQ(r.second - r.first == ptrdiff_t(has)); at_most(g.compared, 2 * look, "comparisons", "equal_range", n); break; }
        case 6: case 7:
        {
            // insert and take out again: only what follows is shifted
            size_t pos = std::min(n, size_t(k) / 2), behind = n - pos;
            auto v = Mk<F>::of(k);
            Reserve<F>::go(f, n + 1);
            g = Counts();
            auto r = op == 6 ? f.insert(std::move(v)) : f.emplace(std::move(v));
            REQ(r.second == !has && size_t(r.first - f.begin()) == pos);
            at_most(g.compared, look, "comparisons", "insert", n);
            at_most(ops(), Mk<F>::width() * (6 * (has ? 0 : behind) + 24), "element operations", "insert", n);
            if (!has)
            {
                g = Counts();
                if (s.coin()) { size_t e = heter ? f.erase(k) : f.erase(ek); REQ(e == 1); at_most(g.compared, look, "comparisons", "erase", n + 1); }
                else { f.erase(f.begin() + ptrdiff_t(pos)); at_most(g.compared, 0, "comparisons", "erase at a position", n + 1); }
                at_most(ops(), Mk<F>::width() * (6 * behind + 24), "element operations", "erase", n + 1);
            }
            break;
        }
        case 8:
        {
            if (has) break;
            size_t e = heter ? f.erase(k) : f.erase(ek);
            REQ(e == 0);
            at_most(g.compared, look, "comparisons", "erase of a missing key", n);
            at_most(ops(), 0, "element operations", "erase of a missing key", n);
            break;
        }
        default:
        {
            size_t e = 0;
            g = Counts();
            for (auto& x : c) e += keyof(x) > 0;
            REQ(e == n && g.compared == 0 && ops() == 0);
        }
        }
        if (n > 64) s.nontrivial();
    }
}
using PairEl = std::pair<El, El>;
using FM = itlib::flat_map<El, El, Less>;
using FMS = itlib::flat_map<El, El, Less, itlib::small_vector<PairEl, 4>>;
using FMT = itlib::flat_map<El, El, Less, itlib::static_vector<PairEl, 1001>>;
using FS = itlib::flat_set<El, Less>;
using FSS = itlib::flat_set<El, Less, itlib::small_vector<El, 4>>;
using FST = itlib::flat_set<El, Less, itlib::static_vector<El, 1001>>;

// flat_map::at and operator[]
void flat_access(pbt::Source& s)
{
    size_t n = big(s, 3000);
    FM m;
    std::vector<PairEl> in;
    for (size_t i = 0; i < n; ++i) in.emplace_back(El(int(i)), El(int(i) + 7));
    m = FM(in.begin(), in.end());
    const FM& c = m;
    const size_t look = 2 * log2c(n) + 8;
    for (size_t q = 0; q < 8; ++q)
    {
        int k = int(s.range<size_t>(0, n - 1));
        El ek(k);
        g = Counts();
        REQ(m.at(ek).v == k + 7);
        at_most(g.compared, look, "comparisons", "at", n);
        g = Counts();
        REQ(c.at(k).v == k + 7);
        at_most(g.compared, look, "comparisons", "const at", n);
        g = Counts();
        REQ(m[ek].v == k + 7);
        at_most(g.compared, look, "comparisons", "operator[]", n);
        at_most(ops(), 8, "element operations", "operator[] of a present key", n);
    }
    if (n > 64) s.nontrivial();
}

template <typename C> struct Cap { static size_t of(const C& c) { return c.capacity(); } };

// ---- vectors: amortised constant growth at the end, shifting only what follows elsewhere
template <typename V, bool Bounded>
void growing(pbt::Source& s)
{
    size_t n = Bounded ? s.range<size_t>(1, 1000) : big(s, 6000);
    unsigned how = unsigned(s.raw(5));
    static const char* const hn[] = {"push_back(copy)", "push_back(move)", "emplace_back", "insert(end)", "resize(size + 1)", "emplace(end)"};
    TR(hn[how] << " " << n << " times");
    g = Counts();
    V v;
    for (size_t i = 0; i < n; ++i)
    {
        switch (how)
        {
        case 0: { const El e(int(i + 0)); v.push_back(e); break; }
        case 1: v.push_back(El(int(i))); break;
        case 2: v.emplace_back(int(i)); break;
        case 3: { const El e(int(i + 0)); v.insert(v.end(), e); break; }
        case 4: v.resize(v.size() + 1); break;
        default: v.emplace(v.end(), int(i)); break;
        }
    }
    REQ(v.size() == n);
    at_most(ops(), 24 * n + 200, "element operations", hn[how], n);
    at_most(g.allocated, Bounded ? 0 : 4 * log2c(n) + 8, "allocations", hn[how], n);
    if (n > 200) s.nontrivial();

    // moving on: taking from the end is constant, the middle shifts what follows
    Reserve<V>::go(v, n + 200);
    for (size_t q = 0; q < 6; ++q)
    {
        size_t sz = v.size(), pos = s.range<size_t>(0, sz), cnt = s.small(20);
        if (Bounded && sz + cnt + 2 > 1100) cnt = 0;
        unsigned op = unsigned(s.raw(7));
        auto it = v.begin() + ptrdiff_t(pos);
        TR("op " << op << " at " << pos << " of " << sz << ", count " << cnt);
        size_t behind = sz - pos, moved = behind + 1;
        // small_vectors may return to the static buffer when they shrink
        const size_t cap = Bounded ? 1100 : Cap<V>::of(v), need = sz + std::max<size_t>(cnt, 1);
        const bool fits = (op < 1 || op > 4) || need <= cap;
        g = Counts();
        switch (op)
        {
        case 0: if (sz) v.pop_back(); moved = 0; break;
        case 1: v.insert(it, El(3)); break;
        case 2: v.emplace(it, 4); break;
        case 3: v.insert(it, cnt, El(5)); moved = behind + cnt; break;
        case 4: { El src[20]; v.insert(it, src, src + cnt); moved = behind + cnt; break; }
        case 5: if (pos < sz) v.erase(it); break;
        case 6: { size_t e = std::min(cnt, behind); v.erase(it, it + ptrdiff_t(e)); break; }
        default: { size_t to = sz - std::min(sz, cnt); v.resize(to); moved = sz - to; break; }
        }
        at_most(ops(), 6 * (moved + (fits ? 0 : sz)) + 64, "element operations", "a change in the middle", sz);
        at_most(g.allocated, fits ? 0 : 1, "allocations", "a change in the middle", sz);
    }
}
using SV = itlib::small_vector<El, 5, 0, CA<El>>;
using SV1 = itlib::small_vector<El, 1, 1, CA<El>>;
using SV40 = itlib::small_vector<El, 40, 10, CA<El>>;
using ST = itlib::static_vector<El, 1100>;

struct PodCA
{
    using size_type = size_t;
    static void* malloc(size_type n) { ++g.allocated; g.bytes += n; return std::malloc(n); }
    static void free(void* p) { std::free(p); }
    static constexpr size_type max_size() { return ~size_type(0); }
    static constexpr bool zero_fill_new() { return false; }
    static constexpr size_type alloc_align() { return alignof(max_align_t); }
    static constexpr bool has_expand() { return false; }
    static bool expand(void*, size_t) { return false; }
    static void* realloc(void* p, size_type n) { ++g.allocated; g.bytes += n; return std::realloc(p, n); }
    static constexpr size_type realloc_wasteful_copy_size() { return 512; }
};
struct PodCX : PodCA
{
    static constexpr bool has_expand() { return true; }
    static bool expand(void*, size_t) { return false; }
};

template <typename V>
void pod_growing(pbt::Source& s)
{
    size_t n = big(s, 20000);
    unsigned how = unsigned(s.raw(3));
    static const char* const hn[] = {"push_back", "emplace_back", "insert(end)", "resize(size + 1)"};
    TR(hn[how] << " " << n << " times");
    g = Counts();
    V v;
    for (size_t i = 0; i < n; ++i)
    {
        switch (how)
        {
        case 0: v.push_back(uint32_t(i)); break;
        case 1: v.emplace_back(uint32_t(i)); break;
        case 2: v.insert(v.end(), uint32_t(i)); break;
        default: v.resize(v.size() + 1, 3u); break;
        }
    }
    REQ(v.size() == n);
    at_most(g.allocated, 4 * log2c(n) + 8, "allocations", hn[how], n);
    at_most(g.bytes, 4 * 16 * n + 1024, "bytes requested", hn[how], n);
    if (n > 200) s.nontrivial();
}

template <typename B>
void bits_growing(pbt::Source& s)
{
    size_t n = big(s, 20000);
    unsigned how = unsigned(s.raw(2));
    static const char* const hn[] = {"push_back", "resize(size + 1)", "append of 3 bits"};
    TR(hn[how] << " " << n << " times");
    itlib::dynamic_bitset<B> b, o(3);
    g = Counts();
    for (size_t i = 0; i < n; ++i)
    {
        switch (how)
        {
        case 0: b.push_back(i & 1); break;
        case 1: b.resize(b.size() + 1); break;
        default: b.append(o); break;
        }
    }
    at_most(g.allocated, 4 * log2c(3 * n) + 8, "allocations", hn[how], n);
    at_most(g.bytes, 24 * n + 1024, "bytes requested", hn[how], n);
    if (n > 200) s.nontrivial();
}

template <typename C>
void stream_growing(pbt::Source& s)
{
    size_t n = big(s, 20000);
    unsigned how = unsigned(s.raw(2));
    static const char* const hn[] = {"sputc", "sputn of 7", "<< int"};
    size_t reserve = s.coin() ? 0 : s.small(100);
    TR(hn[how] << " " << n << " times, reserve " << reserve);
    g = Counts();
    itlib::mem_ostreambuf<C> b(reserve);
    std::basic_ostream<char> os(&b);
    for (size_t i = 0; i < n; ++i)
    {
        switch (how)
        {
        case 0: b.sputc('x'); break;
        case 1: b.sputn("abcdefg", 7); break;
        default: os << 12345; break;
        }
    }
    at_most(g.allocated, 4 * log2c(7 * n) + 8, "allocations", hn[how], n);
    at_most(g.bytes, 7 * 16 * n + 1024, "bytes requested", hn[how], n);
    g = Counts();
    auto c = b.get_container();
    REQ(c.size() == n * (how == 0 ? 1 : how == 1 ? 7 : 5));
    at_most(g.allocated, 2, "allocations", "get_container", n);
    if (n > 200) s.nontrivial();
}

// ---- giving whole objects away doesn't touch their elements
template <typename V> struct HMk { static El of(int i) { return El(i); } };
template <> struct HMk<FM> { static PairEl of(int i) { return PairEl(El(i), El(-i)); } };
template <typename V>
void handing_over(pbt::Source& s)
{
    size_t n = s.range<size_t>(50, 600);
    std::vector<typename V::value_type> in;
    for (size_t i = 0; i < n; ++i) in.push_back(HMk<V>::of(int(i)));
    V a(in.begin(), in.end()), b(in.begin(), in.begin() + 45);
    TR(n << " elements");
    for (size_t q = 0; q < 4; ++q)
    {
        unsigned op = unsigned(s.raw(2));
        TR(op);
        g = Counts();
        size_t sz = a.size(), limit = 0;
        switch (op)
        {
        case 0: { V t(std::move(a)); at_most(ops(), 0, "element operations", "move construction", sz); a = std::move(t); break; }
        case 1: a.swap(b); break;
        default: { limit = b.size(); b = std::move(a); a = V(in.begin(), in.end()); g = Counts(); limit = 0; break; }
        }
        at_most(ops(), limit, "element operations", "move or swap", sz);
        at_most(g.allocated, 0, "allocations", "move or swap", sz);
        s.nontrivial();
    }
}
void wrappers(pbt::Source& s)
{
    (void)s;
    s.nontrivial();
    struct Big { El e; char c[200]; };
    {
        itlib::any<> a;
        a.emplace<Big>();
        g = Counts();
        itlib::any<> b(std::move(a)), c;
        c = std::move(b);
        itlib::any<> d = std::move(c);
        at_most(ops(), 0, "element operations", "moving an any", 1);
        g = Counts();
        itlib::any<> e(d);
        at_most(ops(), 6, "element operations", "copying an any", 1);
        REQ(g.copied == 1);
    }
    {
        struct Fn { El e; char c[200]; int operator()() const { return e.v; } };
        Fn fn{El(5), {}};
        itlib::ufunction<int()> f(std::move(fn));
        g = Counts();
        itlib::ufunction<int()> h(std::move(f));
        f = std::move(h);
        REQ(f() == 5);
        at_most(ops(), 0, "element operations", "moving a ufunction around a large functor", 1);
    }
    {
        itlib::expected<El, El> x(El(4));
        g = Counts();
        itlib::expected<El, El> y(std::move(x));
        REQ(g.copied == 0);
        at_most(ops(), 6, "element operations", "moving an expected", 1);
        g = Counts();
        REQ(y.value().v == 4 && (*y).v == 4 && y->v == 4 && y.has_value());
        at_most(ops(), 0, "element operations", "looking into an expected", 1);
    }
}

// ---- algorithms are linear, views and slices don't touch elements
struct EqEl { int v; bool operator==(const EqEl& o) const { ++g.compared; return v == o.v; } };
void algorithms(pbt::Source& s)
{
    size_t n = big(s, 4000);
    std::vector<EqEl> c;
    for (size_t i = 0; i < n; ++i) c.push_back(EqEl{int(s.raw(3))});
    EqEl v{int(s.raw(3))};
    g = Counts();
    itlib::qfind(c, v); at_most(g.compared, n, "comparisons", "qfind", n);
    g = Counts();
    itlib::pfind(c, v); at_most(g.compared, n, "comparisons", "pfind", n);
    auto d = c;
    g = Counts();
    itlib::erase_first(d, v); at_most(g.compared, n, "comparisons", "erase_first", n);
    g = Counts();
    size_t dn = d.size();
    itlib::erase_all(d, v); at_most(g.compared, dn, "comparisons", "erase_all", dn);
    size_t calls = 0;
    auto pred = [&calls](const EqEl& e) { ++calls; return e.v == 1; };
    itlib::qfind_if(c, pred); at_most(calls, n, "predicate calls", "qfind_if", n);
    calls = 0; itlib::pfind_if(c, pred); at_most(calls, n, "predicate calls", "pfind_if", n);
    calls = 0; itlib::qall_of(c, pred); at_most(calls, n, "predicate calls", "qall_of", n);
    calls = 0; itlib::qany_of(c, pred); at_most(calls, n, "predicate calls", "qany_of", n);
    calls = 0; itlib::qnone_of(c, pred); at_most(calls, n, "predicate calls", "qnone_of", n);
    d = c;
    calls = 0; itlib::erase_first_if(d, pred); at_most(calls, n, "predicate calls", "erase_first_if", n);
    d = c;
    calls = 0; itlib::erase_all_if(d, pred); at_most(calls, n, "predicate calls", "erase_all_if", n);
    if (n > 64) s.nontrivial();
}

// ---- library objects as elements of containers are moved about, never copied
template <typename X> struct N { static X of(int k) { X x; for (int i = 0; i < k % 7 + 1; ++i) x.emplace_back(k); return x; } static int key(const X& x) { return x.front().v; } };
template <typename C> struct N<itlib::flat_map<El, El, Less, C>> { using X = itlib::flat_map<El, El, Less, C>; static X of(int k) { X x; for (int i = 0; i < k % 5 + 1; ++i) x.emplace(k + i, i); return x; } static int key(const X& x) { return x.begin()->first.v; } };
template <typename C> struct N<itlib::flat_set<El, Less, C>> { using X = itlib::flat_set<El, Less, C>; static X of(int k) { X x; for (int i = 0; i < k % 5 + 1; ++i) x.emplace(k + i); return x; } static int key(const X& x) { return x.begin()->v; } };
template <> struct N<itlib::any<>> { static itlib::any<> of(int k) { itlib::any<> a; a.emplace<El>(k); return a; } static int key(const itlib::any<>& a) { return itlib::any_cast<El>(&a)->v; } };
template <> struct N<itlib::expected<El, El>> { using X = itlib::expected<El, El>; static X of(int k) { if (k & 1) return X(El(k)); return X(itlib::unexpected(El(k))); } static int key(const X& x) { return x ? x->v : x.error().v; } };
template <> struct N<itlib::expected<El, void>> { using X = itlib::expected<El, void>; static X of(int k) { return X(El(k)); } static int key(const X& x) { return x->v; } };
template <> struct N<itlib::expected<void, El>> { using X = itlib::expected<void, El>; static X of(int k) { return X(itlib::unexpected(El(k))); } static int key(const X& x) { return x.error().v; } };
using SV2 = itlib::small_vector<El, 2>;
template <size_t K> struct N<itlib::small_vector<SV2, K>> { using X = itlib::small_vector<SV2, K>; static X of(int k) { X x; for (int i = 0; i < k % 4 + 1; ++i) x.emplace_back(N<SV2>::of(k + i)); return x; } static int key(const X& x) { return N<SV2>::key(x[0]); } };

template <typename Outer>
void nested(pbt::Source& s)
{
    using X = typename Outer::value_type;
    Outer v, w;
    std::vector<int> m;
    size_t nops = 1 + s.small(40);
    g = Counts();
    for (size_t q = 0; q < nops; ++q)
    {
        int k = int(s.raw(99));
        size_t pos = s.range<size_t>(0, m.size());
        unsigned op = unsigned(s.raw(9));
        TR("op " << op << " at " << pos << " of " << m.size() << " key " << k);
        auto less = [](const X& a, const X& b) { return N<X>::key(a) < N<X>::key(b); };
        switch (op)
        {
        case 0: case 1: case 2: v.push_back(N<X>::of(k)); m.push_back(k); break;
        case 3: v.insert(v.begin() + ptrdiff_t(pos), N<X>::of(k)); m.insert(m.begin() + ptrdiff_t(pos), k); break;
        case 4: v.emplace(v.begin() + ptrdiff_t(pos), N<X>::of(k)); m.insert(m.begin() + ptrdiff_t(pos), k); break;
        case 5: if (pos < m.size()) { v.erase(v.begin() + ptrdiff_t(pos)); m.erase(m.begin() + ptrdiff_t(pos)); } break;
        case 6: std::sort(v.begin(), v.end(), less); std::sort(m.begin(), m.end()); break;
        case 7: std::reverse(v.begin(), v.end()); std::reverse(m.begin(), m.end()); break;
        case 8: w = std::move(v); v = Outer(); v = std::move(w); break;
        default: v.reserve(v.capacity() + 3); if (s.coin()) v.shrink_to_fit(); break;
        }
        REQM(g.copied == 0, g.copied << " elements were copied");
        REQ(v.size() == m.size());
        for (size_t i = 0; i < m.size(); ++i) REQM(N<X>::key(v[i]) == m[i], "element " << i << " has key " << N<X>::key(v[i]) << ", expected " << m[i]);
        if (m.size() > 3) s.nontrivial();
    }
}
#define NESTED(id, ...) \
    PBT_REG(vector_of_##id, (nested<std::vector<__VA_ARGS__>>), 500); \
    PBT_REG(small_vector_of_##id, (nested<itlib::small_vector<__VA_ARGS__, 2>>), 500)
using SV3 = itlib::small_vector<El, 3>;
using ST7 = itlib::static_vector<El, 7>;
using XEE = itlib::expected<El, El>;
using XEV = itlib::expected<El, void>;
using XVE = itlib::expected<void, El>;
using FS4 = itlib::flat_set<El, Less, itlib::small_vector<El, 4>>;
using FM9 = itlib::flat_map<El, El, Less, itlib::static_vector<PairEl, 9>>;
using SVSV = itlib::small_vector<SV2, 2>;
NESTED(small, SV3);
NESTED(static, ST7);
NESTED(map, FM);
NESTED(map_static, FM9);
NESTED(set, FS);
NESTED(set_small, FS4);
NESTED(any, itlib::any<>);
NESTED(expected, XEE);
NESTED(expected_novalue, XVE);
NESTED(expected_noerror, XEV);
NESTED(small_small, SVSV);

PBT_REG(flat_map_vector, (flat<FM, 5000>), 1500);
PBT_REG(flat_map_small, (flat<FMS, 5000>), 700);
PBT_REG(flat_map_static, (flat<FMT, 1000>), 700);
PBT_REG(flat_set_vector, (flat<FS, 5000>), 1500);
PBT_REG(flat_set_small, (flat<FSS, 5000>), 700);
PBT_REG(flat_set_static, (flat<FST, 1000>), 700);
PBT_TARGET(flat_map_access, 1000) { flat_access(s); }
PBT_REG(small_growing, (growing<SV, false>), 1500);
PBT_REG(small1_growing, (growing<SV1, false>), 1500);
PBT_REG(small40_growing, (growing<SV40, false>), 1500);
PBT_REG(static_growing, (growing<ST, true>), 1500);
PBT_REG(pod_realloc, (pod_growing<itlib::pod_vector<uint32_t, PodCA>>), 1000);
PBT_REG(pod_expand, (pod_growing<itlib::pod_vector<uint32_t, PodCX>>), 1000);
PBT_REG(bits_vector, (bits_growing<std::vector<uint32_t, CA<uint32_t>>>), 1000);
PBT_REG(stream_vector, (stream_growing<std::vector<char, CA<char>>>), 1000);
PBT_REG(handing_small, handing_over<SV40>, 1000);
PBT_REG(handing_map, (handing_over<FM>), 300);
PBT_REG(handing_set, (handing_over<FS>), 300);
PBT_TARGET(wrapping, 50) { wrappers(s); }
PBT_TARGET(linear, 1000) { algorithms(s); }
}

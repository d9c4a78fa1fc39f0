// documented debug checks and error handling settings (P32)
// the macros the headers are configured with also decide what is expected here
#include <cassert>
#include <csetjmp>
#include "common.hpp"
#include <itlib/flat_map.hpp>
#include <itlib/memory_view.hpp>
#include <itlib/poly_span.hpp>
#include <itlib/small_vector.hpp>
#include <itlib/span.hpp>
#include <itlib/static_vector.hpp>
#include <itlib/stride_span.hpp>
#include <memory>
#include <stdexcept>
#include <vector>

using namespace vt;

// assertions come here
static jmp_buf g_jmp;
static volatile bool g_armed = false;
extern "C" void __assert_fail(const char* expr, const char* file, unsigned line, const char*) noexcept
{
    if (g_armed) { g_armed = false; longjmp(g_jmp, 1); }
    pbt::fail_impl(PBT_STR("assertion failed in valid use: " << expr << " at " << file << ":" << line));
}

namespace
{
#ifdef NDEBUG
const bool asserts_on = false;
#else
const bool asserts_on = true;
#endif
#ifdef VT_NO_BOUNDS
const bool bounds_on = false;
#else
const bool bounds_on = asserts_on;
#endif

enum Outcome { ok, asserted, thrown };
const char* const names[] = {"nothing", "an assertion", "std::out_of_range"};

template <typename F>
__attribute__((noinline)) Outcome run(F f)
{
    volatile Outcome o = ok;
    if (setjmp(g_jmp) == 0)
    {
        g_armed = true;
        try { f(); }
        catch (std::out_of_range&) { o = thrown; }
    }
    else o = asserted;
    g_armed = false;
    return o;
}
void expect(Outcome got, Outcome want, const std::string& what)
{
    if (got != want) FAIL(what << ": expected " << names[want] << ", got " << names[got]);
}

struct Wide { int v; char pad[20]; Wide() : v(0), pad() {} Wide(int x) : v(x), pad() {} operator int() const { return v; } };

// an index which is inside of [0, size) iff `inside`
size_t index(pbt::Source& s, size_t size, size_t cap, size_t elem, bool& inside)
{
    size_t i = 0;
    switch (s.raw(9))
    {
    case 0: case 1: case 2: i = size ? s.raw(size - 1) : 0; break;
    case 3: i = size; break;
    case 4: i = size + s.raw(3); break;
    case 5: i = cap; break;
    case 6: i = ~size_t(0) - s.raw(3); break;
    case 7: i = ~size_t(0) / elem + 1 + s.raw(size); break;  // the address wraps around to the beginning
    case 8: i = (size_t(1) << 32) + s.raw(size); break;
    default: i = s.raw(~uint64_t(0)) >> s.raw(63); break;
    }
    inside = i < size;
    return i;
}

// obj[i] and obj.at(i), of const and non-const objects; addr(i) is the address the element has
template <typename C, typename Addr>
void access(pbt::Source& s, const char* what, C& c, size_t size, size_t cap, size_t elem, Addr addr)
{
    const C& cc = c;
    for (size_t n = 1 + s.small(4); n; --n)
    {
        bool inside;
        const size_t i = index(s, size, cap, elem, inside);
        if (!inside && !bounds_on) continue; // not defined
        const auto how = s.raw(3);
        TR(what << " of " << size << ": " << (how < 2 ? "[" : "at ") << i << (how & 1 ? " const" : ""));
        const void* volatile p = nullptr;
        Outcome o = ok;
        switch (how)
        {
        case 0: o = run([&] { p = &c[i]; }); break;
        case 1: o = run([&] { p = &cc[i]; }); break;
        case 2: o = run([&] { p = &c.at(i); }); break;
        default: o = run([&] { p = &cc.at(i); }); break;
        }
        expect(o, inside ? ok : asserted, PBT_STR(what << " of " << size << ", element " << i));
        if (inside) REQ(p == addr(i));
        if (!inside || !bounds_on) s.nontrivial();
    }
}

//---------------------------------------------------------------------------------------------------------------------
template <typename T, size_t S, size_t R>
void small_access(pbt::Source& s)
{
    itlib::small_vector<T, S, R> v;
    const size_t n = s.small(20);
    if (s.coin()) v.reserve(s.small(30));
    for (size_t i = 0; i < n; ++i) v.push_back(T(int(i)));
    access(s, "small_vector", v, n, v.capacity(), sizeof(T), [&](size_t i) { return v.data() + i; });
    for (size_t i = 0; i < n; ++i) REQ(int(v[i]) == int(i));
}
template <typename T, size_t C>
void static_access(pbt::Source& s)
{
    itlib::static_vector<T, C> v;
    const size_t n = s.raw(C);
    for (size_t i = 0; i < n; ++i) v.push_back(T(int(i)));
    access(s, "static_vector", v, n, C, sizeof(T), [&](size_t i) { return v.data() + i; });
    for (size_t i = 0; i < n; ++i) REQ(int(v[i]) == int(i));
}

struct Base { virtual ~Base() = default; int b = 1; };
struct Other { virtual ~Other() = default; int o = 2; };
struct Derived : Other, Base { int d[3] = {}; };

void indexing(pbt::Source& s)
{
    switch (s.raw(9))
    {
    case 0: small_access<int, 3, 0>(s); break;
    case 1: small_access<Wide, 5, 2>(s); break;
    case 2: small_access<char, 1, 0>(s); break;
    case 3: static_access<int, 8>(s); break;
    case 4: static_access<Wide, 3>(s); break;
    case 5: // span
    {
        const size_t n = s.small(20);
        std::unique_ptr<int[]> m(new int[n + 1]);
        itlib::span<int> v(m.get(), n);
        if (s.coin()) access(s, "span", v, n, n, sizeof(int), [&](size_t i) { return m.get() + i; });
        else { itlib::span<const int> c(v); access(s, "span of const", c, n, n, sizeof(int), [&](size_t i) { return m.get() + i; }); }
        break;
    }
    case 6: // stride_span
    {
        const size_t n = s.small(12), stride = sizeof(int) * (1 + s.raw(4));
        std::unique_ptr<int[]> m(new int[n * stride / sizeof(int) + 1]);
        itlib::stride_span<int> v(reinterpret_cast<itlib::stride_span<int>::byte_t*>(m.get()), stride, n);
        access(s, "stride_span", v, n, n, stride, [&](size_t i) { return m.get() + i * stride / sizeof(int); });
        break;
    }
    case 7: // poly_span
    {
        const size_t n = s.small(12);
        std::vector<Derived> m(n + 1);
        itlib::poly_span<Base&> v(m.data(), n, [](Derived& d) -> Base& { return d; });
        access(s, "poly_span", v, n, n, sizeof(Derived), [&](size_t i) { return static_cast<const void*>(static_cast<Base*>(&m[i])); });
        break;
    }
    default: // memory_view
    {
        const size_t n = s.small(30);
        std::unique_ptr<uint8_t[]> m(new uint8_t[n + 1]);
        if (s.coin())
        {
            itlib::memory_view<uint8_t> v(m.get(), n);
            access(s, "memory_view", v, n, n, 1, [&](size_t i) { return m.get() + i; });
        }
        else
        {
            itlib::const_memory_view<uint8_t> v(m.get(), n);
            access(s, "const_memory_view", v, n, n, 1, [&](size_t i) { return m.get() + i; });
        }
        break;
    }
    }
}

//---------------------------------------------------------------------------------------------------------------------
// what reporting mode `mode` does with an error; false: not defined
bool reports(int mode, Outcome& o)
{
    switch (mode)
    {
    case 1: o = thrown; return true;
    case 2: o = asserted; return asserts_on;
    case 3: o = asserts_on ? asserted : thrown; return true;
    default: return false;
    }
}

template <typename V, typename T>
void check_same(const V& v, const std::vector<T>& m, const char* what)
{
    REQM(v.size() == m.size(), what << ": size " << v.size() << ", not " << m.size());
    for (size_t i = 0; i < m.size(); ++i) REQM(int(v.data()[i]) == int(m[i]), what << ": element " << i);
}

template <typename T, size_t C>
void overflow(pbt::Source& s)
{
    Outcome err = ok;
    const bool defined = reports(ITLIB_STATIC_VECTOR_ERROR_HANDLING, err);
    using V = itlib::static_vector<T, C>;
    V v;
    std::vector<T> m;
    const T x(77);
    if (!defined) s.nontrivial();
    for (size_t steps = 1 + s.small(12); steps; --steps)
    {
        const size_t room = C - m.size();
        size_t n;
        switch (s.raw(4)) { case 0: case 1: n = s.raw(room); break; case 2: n = room; break; case 3: n = room + 1 + s.raw(3); break; default: n = s.raw(~uint64_t(0)) >> s.raw(63); break; }
        const size_t op = s.raw(11);
        const size_t pos = s.raw(m.size());
        bool over = n > room;
        if (op <= 1 || op == 3 || op == 6) { n = 1; over = room == 0; }              // one element
        if (op == 4) over = n > C;                                                      // resize
        if (op == 7 || op == 8) over = n > C;                                           // assign, constructor
        if (op == 5 || op == 9 || op == 10) { if (n > 100) n = 100; over = n > (op == 9 || op == 10 ? C : room); } // ranges
        if (over && !defined) continue;
        TR("operation " << op << " with " << n << " at " << pos << ", " << m.size() << " of " << C << " in use");
        const std::vector<T> range(op == 5 || op == 9 || op == 10 ? n : 0, x);
        Outcome o = ok;
        switch (op)
        {
        case 0: o = run([&] { v.push_back(x); }); break;
        case 1: o = run([&] { v.emplace_back(77); }); break;
        case 2: o = run([&] { v.insert(v.begin() + pos, n, x); }); break;
        case 3: o = run([&] { v.insert(v.begin() + pos, x); }); break;
        case 4: o = run([&] { v.resize(n, x); }); break;
        case 5: o = run([&] { v.insert(v.begin() + pos, range.data(), range.data() + n); }); break;
        case 6: o = run([&] { v.emplace(v.begin() + pos, 77); }); break;
        case 7: o = run([&] { v.assign(n, x); }); break;
        case 8: o = run([&] { V c(n, x); check_same(c, std::vector<T>(n, x), "constructed"); }); break;
        case 9: o = run([&] { v.assign(range.data(), range.data() + n); }); break;
        case 10: o = run([&] { V c(range.data(), range.data() + n); check_same(c, range, "constructed"); }); break;
        default: o = run([&] { v.erase(v.begin(), v.begin() + pos); }); over = false; break;
        }
        expect(o, over ? err : ok, PBT_STR("operation " << op << " with " << n << " of a static_vector with " << m.size() << " of " << C));
        if (over)
        {
            s.nontrivial();
            if (o == asserted) return; // a program does not go on
            if (op == 7 || op == 9) m.assign(v.begin(), v.end()); // dropped the old contents
        }
        else switch (op)
        {
        case 0: case 1: m.push_back(x); break;
        case 2: case 3: case 5: case 6: m.insert(m.begin() + pos, n, x); break;
        case 4: m.resize(n, x); break;
        case 7: case 9: m.assign(n, x); break;
        case 8: case 10: break;
        default: m.erase(m.begin(), m.begin() + pos); break;
        }
        check_same(v, m, "static_vector");
    }
}
PBT_TARGET(overflowing, 20000)
{
    switch (s.raw(3))
    {
    case 0: overflow<int, 4>(s); break;
    case 1: overflow<Wide, 7>(s); break;
    case 2: overflow<char, 1>(s); break;
    default: overflow<int, 16>(s); break;
    }
}

template <typename T, size_t S, size_t R>
void outside(pbt::Source& s)
{
    Outcome err = ok;
    const bool defined = reports(ITLIB_SMALL_VECTOR_ERROR_HANDLING, err);
    itlib::small_vector<T, S, R> v;
    std::vector<T> m;
    if (!defined) s.nontrivial();
    const size_t n0 = s.small(12);
    for (size_t i = 0; i < n0; ++i) { v.push_back(T(int(i))); m.push_back(T(int(i))); }
    for (size_t steps = 1 + s.small(12); steps; --steps)
    {
        const size_t op = s.raw(6);
        long pos = long(s.raw(m.size()));
        bool out = false;
        const T x(77);
        size_t n = 1 + s.raw(3);
        if (s.coin()) { out = true; pos = s.coin() ? -1 - long(s.raw(3)) : long(m.size() + 1 + s.raw(3)); }
        const bool erasing = op == 4;
        if (erasing && !out && size_t(pos) == m.size()) out = true;              // erase(end())
        long last = pos;
        if (op == 5)                                                            // erase(first, last)
        {
            last = pos + long(s.raw(6)) - 1;
            out = pos < 0 || last > long(m.size()) || last < pos;
        }
        if (out && !defined) continue;
        TR("operation " << op << " at " << pos << ".." << last << " of " << m.size());
        Outcome o = ok;
        auto it = v.begin() + pos; // may be outside
        switch (op)
        {
        case 0: o = run([&] { v.insert(it, x); }); break;
        case 1: o = run([&] { v.emplace(it, 77); }); break;
        case 2: o = run([&] { v.insert(it, n, x); }); break;
        case 3: o = run([&] { v.insert(it, {x, x}); }); n = 2; break;
        case 4: o = run([&] { v.erase(it); }); break;
        case 5: o = run([&] { v.erase(it, v.begin() + last); }); break;
        default: out = false; o = run([&] { v.push_back(x); }); break;
        }
        expect(o, out ? err : ok, PBT_STR("operation " << op << " of a small_vector at " << pos << ".." << last << " of " << m.size()));
        if (out)
        {
            s.nontrivial();
            if (o == asserted) return;
        }
        else switch (op)
        {
        case 0: case 1: m.insert(m.begin() + pos, x); break;
        case 2: case 3: m.insert(m.begin() + pos, n, x); break;
        case 4: m.erase(m.begin() + pos); break;
        case 5: m.erase(m.begin() + pos, m.begin() + last); break;
        default: m.push_back(x); break;
        }
        check_same(v, m, "small_vector");
    }
}
PBT_TARGET(outside_of_vector, 20000)
{
    switch (s.raw(2))
    {
    case 0: outside<int, 4, 0>(s); break;
    case 1: outside<Wide, 3, 2>(s); break;
    default: outside<int, 1, 1>(s); break;
    }
}
PBT_REG(index_checks, indexing, 30000);

PBT_TARGET(flat_map_at, 8000)
{
    itlib::flat_map<int, int> m;
    const itlib::flat_map<int, int>& cm = m;
    std::vector<int> in(16, -1);
    for (size_t n = s.small(10); n; --n) { const int k = int(s.raw(15)); m[k] = in[k] = int(s.raw(100)); }
    for (size_t n = 1 + s.small(6); n; --n)
    {
        const int k = int(s.raw(15));
        volatile int r = -1;
        const bool c = s.coin();
        TR("at " << k << (c ? " const" : ""));
#if defined(ITLIB_FLAT_MAP_NO_THROW)
        if (in[k] < 0 && !asserts_on) continue;
        const Outcome want = in[k] < 0 ? asserted : ok;
#else
        const Outcome want = in[k] < 0 ? thrown : ok;
#endif
        const Outcome o = c ? run([&] { r = cm.at(k); }) : run([&] { r = m.at(k); });
        expect(o, want, PBT_STR("at(" << k << ")"));
        if (want == ok) REQ(r == in[k]); else s.nontrivial();
    }
}
}

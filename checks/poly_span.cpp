// poly_span: arrays of derived objects seen as something else (P14)
#include "walk.hpp"
#include "huge.hpp"
#include <itlib/poly_span.hpp>

using namespace vt;

namespace
{
struct B { int id = 0; virtual ~B() {} virtual int who() const = 0; };
struct Pad { char pad[24]; virtual ~Pad() {} };
struct D1 : B { int who() const override { return 1; } };
struct D2 : Pad, B { double x = 0; char y[9]; int who() const override { return 2; } };            // B is not at offset 0
struct D3 : virtual B { char z[3]; int who() const override { return 3; } };
struct D4 : Pad, virtual B { char z[100]; int who() const override { return 4; } };
struct alignas(64) D5 : B { int who() const override { return 5; } };
struct Plain { int id = 0; short v; char c[3]; };

// how elements are presented
struct AsRef { using type = B&; template <typename D> static B& conv(D& d) { return d; } static B* id(B& b) { return &b; } };
struct AsPtr { using type = B*; template <typename D> static B* conv(D& d) { return &d; } static B* id(B* b) { return b; } };
struct AsConstRef { using type = const B&; template <typename D> static const B& conv(D& d) { return d; } static const B* id(const B& b) { return &b; } };

size_t clampc(size_t c, size_t n) { return c > n ? n : c; }
size_t gen_cnt(pbt::Source& s, size_t n)
{
    switch (s.raw(6))
    {
    case 0: return n;
    case 1: return n + s.small(20);
    case 2: return size_t(-1) - s.small(20);
    case 3: return (size_t(1) << (50 + s.raw(13))) + s.raw(4);
    default: return s.range<size_t>(0, n);
    }
}

struct Mod { const void* arr = nullptr; size_t off = 0, n = 0, stride = 0; int kind = 0; };

template <typename As>
struct Polys
{
    using RT = typename As::type;
    using View = itlib::poly_span<RT>;
    struct Arrays
    {
        size_t n;
        std::vector<D1> a1; std::vector<D2> a2; std::vector<D3> a3; std::vector<D4> a4; D5* a5;
        std::vector<std::vector<const B*>> bases;
        explicit Arrays(size_t k) : n(k), a1(k), a2(k), a3(k), a4(k), bases(6)
        {
            void* p = nullptr;
            if (posix_memalign(&p, 64, sizeof(D5) * (k ? k : 1))) throw std::bad_alloc();
            a5 = static_cast<D5*>(p);
            for (size_t i = 0; i < k; ++i)
            {
                new (a5 + i) D5;
                bases[1].push_back(&a1[i]); bases[2].push_back(&a2[i]); bases[3].push_back(&a3[i]); bases[4].push_back(&a4[i]); bases[5].push_back(a5 + i);
                a1[i].id = a2[i].id = a3[i].id = a4[i].id = a5[i].id = int(i);
            }
        }
        ~Arrays() { for (size_t i = 0; i < n; ++i) a5[i].~D5(); free(a5); }
        const void* first(int k) const { switch (k) { case 1: return a1.data(); case 2: return a2.data(); case 3: return a3.data(); case 4: return a4.data(); default: return a5; } }
        size_t stride(int k) const { switch (k) { case 1: return sizeof(D1); case 2: return sizeof(D2); case 3: return sizeof(D3); case 4: return sizeof(D4); default: return sizeof(D5); } }
    };

    template <typename D>
    static View make(D* d, size_t n, pbt::Source& s)
    {
        switch (s.raw(1))
        {
        case 0: return View(d, n, As::template conv<D>);
        default: return View(d, n, [](D& x) -> RT { return As::template conv<D>(x); });
        }
    }

    static void inspect(View& v, const Mod& m, const Arrays& a, pbt::Source& s, bool deep)
    {
        const View& c = v;
        REQM(c.size() == m.n, "size() is " << c.size() << ", expected " << m.n);
        REQ(c.empty() == (m.n == 0));
        if (m.kind == 0) { REQ(!c && c.data() == nullptr && c.begin() == c.end() && v.begin() == v.end()); return; }
        REQ(c.stride() == m.stride);
        REQ(c.data() == static_cast<const unsigned char*>(m.arr) + m.off * m.stride);
        REQ(v.data() == c.data());
        REQ(bool(c) == (m.arr != nullptr));
        auto obj = [&](size_t i) { return a.bases[size_t(m.kind)][m.off + i]; };
        auto is = [&](RT r, size_t i) { const B* p = As::id(r); return p == obj(i) && p->who() == m.kind && p->id == int(m.off + i); };
        for (size_t i = 0; i < m.n; ++i)
        {
            REQM(is(v[i], i), "[" << i << "] is another object");
            REQ(is(c[i], i) && is(v.at(i), i) && is(c.at(i), i));
        }
        if (m.n) { REQ(is(v.front(), 0) && is(c.front(), 0)); REQM(is(v.back(), m.n - 1) && is(c.back(), m.n - 1), "back() is another object"); }
        if (!deep) return;
        ptrdiff_t n = ptrdiff_t(m.n);
        walk(s, "iterator", v.begin(), v.end(), n, [&](typename View::iterator i, ptrdiff_t k) { return is(*i, size_t(k)); });
        walk(s, "const_iterator", c.begin(), c.end(), n, [&](typename View::const_iterator i, ptrdiff_t k) { return is(*i, size_t(k)); });
        walk(s, "cbegin", v.cbegin(), v.cend(), n, [&](typename View::const_iterator i, ptrdiff_t k) { return is(*i, size_t(k)); });
        walk(s, "reverse_iterator", v.rbegin(), v.rend(), n, [&](typename View::reverse_iterator i, ptrdiff_t k) { return is(*i, size_t(n - 1 - k)); });
        walk(s, "const_reverse_iterator", c.rbegin(), c.rend(), n, [&](typename View::const_reverse_iterator i, ptrdiff_t k) { return is(*i, size_t(n - 1 - k)); });
    }

    static void run(pbt::Source& s)
    {
        enum { slots = 3 };
        Arrays a(s.small(20));
        TR("arrays of " << a.n);
        View v[slots];
        Mod m[slots];
        size_t nops = 1 + s.small(25);
        for (size_t k = 0; k < nops; ++k)
        {
            size_t i = s.raw(slots - 1), j = s.raw(slots - 1);
            switch (k == 0 ? 0 : s.raw(8))
            {
            case 0:
            {
                Mod r;
                r.kind = 1 + int(s.raw(4));
                r.arr = a.first(r.kind);
                r.stride = a.stride(r.kind);
                r.off = s.range<size_t>(0, a.n);
                r.n = s.coin() ? a.n - r.off : s.range<size_t>(0, a.n - r.off);
                if (s.chance(1, 5) && a.n) { r.off = s.range<size_t>(0, a.n - 1); r.n = 1; }
                TR("v" << i << " = D" << r.kind << "[" << r.off << "...], count " << r.n);
                switch (r.kind)
                {
                case 1: v[i] = make(a.a1.data() + r.off, r.n, s); break;
                case 2: v[i] = make(a.a2.data() + r.off, r.n, s); break;
                case 3: v[i] = make(a.a3.data() + r.off, r.n, s); break;
                case 4: v[i] = make(a.a4.data() + r.off, r.n, s); break;
                default: v[i] = make(a.a5 + r.off, r.n, s); break;
                }
                m[i] = r;
                break;
            }
            case 1: case 2:
            {
                size_t off = gen_cnt(s, m[j].n), cnt = gen_cnt(s, m[j].n);
                TR("v" << i << " = v" << j << ".subspan(" << off << ", " << cnt << ") of " << m[j].n);
                Mod r = m[j];
                size_t o = clampc(off, r.n);
                r.off += o; r.n = clampc(cnt, r.n - o);
                if (cnt >= m[j].n && s.coin()) v[i] = v[j].subspan(off); else v[i] = v[j].subspan(off, cnt);
                m[i] = r; s.nontrivial();
                break;
            }
            case 3:
            {
                size_t cnt = gen_cnt(s, m[j].n);
                TR("v" << i << " = v" << j << ".first(" << cnt << ")");
                Mod r = m[j]; r.n = clampc(cnt, r.n);
                v[i] = v[j].first(cnt); m[i] = r; s.nontrivial();
                break;
            }
            case 4:
            {
                size_t cnt = s.range<size_t>(0, m[j].n);
                TR("v" << i << " = v" << j << ".last(" << cnt << ")");
                Mod r = m[j]; r.off += r.n - cnt; r.n = cnt;
                v[i] = v[j].last(cnt); m[i] = r; s.nontrivial();
                break;
            }
            case 5:
            {
                size_t x = s.range<size_t>(0, m[i].n), z = s.range<size_t>(0, m[i].n - x);
                TR("v" << i << ".remove_prefix(" << x << "), .remove_suffix(" << z << ")");
                v[i].remove_prefix(x); v[i].remove_suffix(z); m[i].off += x; m[i].n -= x + z; s.nontrivial();
                break;
            }
            case 6: TR("v" << i << " = v" << j); v[i] = v[j]; m[i] = m[j]; break;
            case 7: { TR("v" << i << " = moved copy of v" << j); View t(v[j]); v[i] = std::move(t); m[i] = m[j]; break; }
            default: TR("v" << i << " = {}"); v[i] = View(); m[i] = Mod(); break;
            }
            bool deep = s.chance(1, 3) || k + 1 == nops;
            for (size_t q = 0; q < slots; ++q) inspect(v[q], m[q], a, s, deep && q == i);
        }
    }
};

// converters to values, members and from const arrays
int id_of(const Plain& p) { return p.id; }
void converters(pbt::Source& s)
{
    size_t n = s.small(20);
    std::vector<Plain> a(n);
    for (size_t i = 0; i < n; ++i) { a[i].id = int(s.raw(1000)); a[i].v = short(i); }
    const std::vector<Plain>& ca = a;
    itlib::poly_span<int> ids(ca.data(), n, id_of);
    itlib::poly_span<short&> vs(a.data(), n, [](Plain& p) -> short& { return p.v; });
    itlib::poly_span<const char*> cs(ca.data(), n, [](const Plain& p) -> const char* { return p.c; });
    REQ(ids.size() == n && vs.size() == n && cs.size() == n);
    for (size_t i = 0; i < n; ++i) { REQ(ids[i] == a[i].id && ids.at(i) == a[i].id); REQ(&vs[i] == &a[i].v); REQ(cs[i] == a[i].c); }
    size_t k = 0;
    for (int x : ids) { REQ(x == a[k].id); ++k; }
    REQ(k == n);
    size_t off = s.range<size_t>(0, n);
    for (auto it = vs.begin() + ptrdiff_t(off); it != vs.end(); ++it) *it = short(*it + 100);
    for (size_t i = 0; i < n; ++i) REQM(a[i].v == short(i + (i >= off ? 100 : 0)), "writing through the view changed another object");
    if (n > 1) s.nontrivial();
}

// views of arrays beyond 4 GB: the converter only takes the address
template <typename D>
void huge_polys(pbt::Source& s)
{
    D* b = reinterpret_cast<D*>(huge_base());
    size_t n = huge_number(s, (huge_bytes - 64) / sizeof(D));
    TR("view of " << n << " objects of " << sizeof(D) << " bytes");
    itlib::poly_span<void*> v(b, n, [](D& d) -> void* { return &d; });
    size_t off = 0, len = n;
    size_t nops = 1 + s.small(6);
    for (size_t k = 0; k < nops; ++k)
    {
        switch (s.raw(4))
        {
        case 0: case 1:
        {
            size_t o = huge_count(s, len), c = s.chance(1, 3) ? size_t(-1) : huge_count(s, len);
            TR("subspan(" << o << ", " << c << ") of " << len);
            v = v.subspan(o, c);
            o = clampc(o, len);
            off += o; len = clampc(c, len - o);
            break;
        }
        case 2: { size_t c = huge_count(s, len); TR("first(" << c << ") of " << len); v = v.first(c); len = clampc(c, len); break; }
        case 3: { size_t c = huge_number(s, len); TR("last(" << c << ") of " << len); v = v.last(c); off += len - c; len = c; break; }
        default:
        {
            size_t a = huge_number(s, len), z = huge_number(s, len - a);
            TR("remove_prefix(" << a << "), remove_suffix(" << z << ") of " << len);
            v.remove_prefix(a); v.remove_suffix(z);
            off += a; len -= a + z;
            break;
        }
        }
        const auto& c = v;
        auto addr = [&](size_t i) { return static_cast<void*>(b + off + i); };
        REQM(v.size() == len && v.stride() == sizeof(D) && v.data() == addr(0), "size() is " << v.size() << ", stride() is " << v.stride());
        REQ(v.end() - v.begin() == ptrdiff_t(len) && c.begin() - c.end() == -ptrdiff_t(len));
        if (!len) continue;
        REQ(v.front() == addr(0) && v.back() == addr(len - 1) && c.back() == addr(len - 1));
        size_t i = huge_number(s, len - 1), j = huge_number(s, len - 1);
        REQM(v[i] == addr(i) && c[i] == addr(i) && c.at(i) == addr(i), "[" << i << "] is at another address");
        auto x = v.begin() + ptrdiff_t(i), y = x + (ptrdiff_t(j) - ptrdiff_t(i));
        REQM(*x == addr(i) && *y == addr(j) && y - x == ptrdiff_t(j) - ptrdiff_t(i), "iterators at " << i << " and " << j);
        REQ((x < y) == (i < j) && (x > y) == (i > j) && (x == y) == (i == j));
        if (len * sizeof(D) > 0x7fffffff) s.nontrivial();
    }
}
struct Three { char c[3]; };

PBT_REG(huge_three, huge_polys<Three>, 10000);
PBT_REG(huge_int, huge_polys<int>, 10000);
PBT_REG(refs, Polys<AsRef>::run, 60000);
PBT_REG(ptrs, Polys<AsPtr>::run, 60000);
PBT_REG(crefs, Polys<AsConstRef>::run, 60000);
PBT_REG(conv, converters, 30000);
}

// span and memory_view: slices, conversions, byte views, writes (P12)
#include "huge.hpp"
#include <itlib/span.hpp>
#include <itlib/memory_view.hpp>
#include <array>
#include <cstring>
#include <limits>

using namespace vt;

namespace
{
struct Odd { unsigned char a, b, c; bool operator==(const Odd& o) const { return a == o.a && b == o.b && c == o.c; } };
template <typename T> struct V { static T make(int v) { return T(v); } };
template <> struct V<Odd> { static Odd make(int v) { Odd o; o.a = (unsigned char)v; o.b = (unsigned char)(v >> 3); o.c = (unsigned char)(v * 7); return o; } };
template <> struct V<std::string> { static std::string make(int v) { return Elem<std::string>::make(v); } };

// exactly-sized storage: one element further is a red zone
template <typename T>
struct Storage
{
    T* d;
    size_t n;
    std::vector<T> model;
    explicit Storage(size_t sz) : d(sz ? new T[sz] : nullptr), n(sz) { for (size_t i = 0; i < n; ++i) { d[i] = V<T>::make(int(i) + 1); model.push_back(d[i]); } }
    ~Storage() { delete[] d; }
    Storage(const Storage&) = delete;
    const T* data() const { return d; }
    T* data() { return d; }
    size_t size() const { return n; }
    using value_type = T;
    void check() { for (size_t i = 0; i < n; ++i) REQM(d[i] == model[i], "element " << i << " of the storage was changed by an operation which does not denote it"); }
};

size_t gen_off(pbt::Source& s, size_t n)
{
    switch (s.raw(9))
    {
    case 0: return n;
    case 1: return n + s.small(20);
    case 2: return size_t(-1) - s.small(20);
    case 3: return (size_t(1) << 63) - 4 + s.small(8);
    case 4: return (size_t(1) << (55 + s.raw(8))) - s.raw(4);
    case 5: return size_t(-1) / (1 + s.raw(15)) - s.raw(8) + s.raw(8); // off * sizeof(T) wraps around
    default: return s.range<size_t>(0, n);
    }
}

struct Mod { size_t off = 0, len = 0; bool null = true; bool cst = false; };

// full inspection of a view against the storage it must denote
template <typename View, typename T>
void inspect(View& v, const Mod& m, Storage<T>& st)
{
    const View& c = v;
    REQM(c.size() == m.len, "size() is " << c.size() << ", expected " << m.len);
    REQ(c.empty() == (m.len == 0));
    if (m.null) { REQ(c.data() == nullptr && !c); return; }
    REQM(c.data() == st.d + m.off, "view begins at element " << (c.data() - st.d) << ", expected " << m.off);
    REQ(bool(c) == (st.d != nullptr));
    REQ(c.begin() == c.data() && c.end() == c.data() + m.len && c.cbegin() == c.begin() && c.cend() == c.end());
    REQ(v.data() == c.data() && v.begin() == c.begin() && v.end() == c.end());
    size_t k = m.off;
    for (auto& x : c) { REQ(&x == st.d + k); ++k; }
    REQ(k == m.off + m.len);
    k = m.off + m.len;
    for (auto i = c.rbegin(); i != c.rend(); ++i) { --k; REQ(&*i == st.d + k); }
    REQ(k == m.off);
    k = m.off + m.len;
    for (auto i = c.crbegin(); i != c.crend(); ++i) { --k; REQ(&*i == st.d + k); }
    REQ(k == m.off);
    k = m.off + m.len;
    for (auto i = v.rbegin(); i != v.rend(); ++i) { --k; REQ(&*i == st.d + k); }
    REQ(k == m.off);
    for (size_t i = 0; i < m.len; ++i)
    {
        REQ(&c[i] == st.d + m.off + i && &c.at(i) == st.d + m.off + i);
        REQ(&v[i] == st.d + m.off + i && &v.at(i) == st.d + m.off + i);
        REQ(c[i] == st.model[m.off + i]);
    }
    if (m.len)
    {
        REQ(&c.front() == st.d + m.off && &c.back() == st.d + m.off + m.len - 1);
        REQ(&v.front() == st.d + m.off && &v.back() == st.d + m.off + m.len - 1);
    }
}

template <typename T>
void bytes(itlib::span<T> v, const Mod& m, pbt::Source& s)
{
    REQ(v.size_bytes() == m.len * sizeof(T));
    itlib::span<const uint8_t> b = v.as_bytes();
    REQM(static_cast<const void*>(b.data()) == static_cast<const void*>(v.data()) && b.size() == m.len * sizeof(T), "as_bytes has " << b.size() << " bytes for " << m.len << " elements of " << sizeof(T));
    auto w = v.as_writable_bytes();
    REQ(static_cast<const void*>(w.data()) == static_cast<const void*>(v.data()) && w.size() == m.len * sizeof(T));
    static_assert(std::is_same<decltype(w), itlib::span<typename std::conditional<std::is_const<T>::value, const uint8_t, uint8_t>::type>>::value, "constness of as_writable_bytes");
    if (m.len)
    {
        size_t off = gen_off(s, b.size()), cnt = gen_off(s, b.size());
        auto sub = b.subspan(off, cnt);
        size_t e = off > b.size() ? b.size() : off;
        size_t l = cnt > b.size() - e ? b.size() - e : cnt;
        REQ(sub.data() == b.data() + e && sub.size() == l);
    }
}

size_t clampc(size_t c, size_t n) { return c > n ? n : c; }

template <typename T, bool BYTES>
struct Spans
{
    static void write(itlib::span<T>& v, const Mod& m, Storage<T>& st, pbt::Source& s)
    {
        if (!m.len) return;
        size_t i = s.range<size_t>(0, m.len - 1);
        int val = s.range<int>(1, 120);
        unsigned how = unsigned(s.raw(5));
        TR("write " << val << " to [" << i << "] how " << how);
        switch (how)
        {
        case 0: v[i] = V<T>::make(val); break;
        case 1: v.at(i) = V<T>::make(val); break;
        case 2: *(v.begin() + i) = V<T>::make(val); break;
        case 3: i = 0; v.front() = V<T>::make(val); break;
        case 4: i = m.len - 1; v.back() = V<T>::make(val); break;
        default: *(v.rbegin() + (m.len - 1 - i)) = V<T>::make(val); break;
        }
        st.model[m.off + i] = V<T>::make(val);
    }

    static void run(pbt::Source& s)
    {
        enum { slots = 4 };
        Storage<T> st(s.small(40));
        itlib::span<T> v[slots];
        itlib::span<const T> cv[slots];
        Mod m[slots], cm[slots];
        size_t nops = s.small(40);
        for (size_t k = 0; k < nops; ++k)
        {
            size_t i = s.raw(slots - 1), j = s.raw(slots - 1);
            switch (s.raw(14))
            {
            case 0: // whole storage in several ways
            {
                unsigned how = unsigned(s.raw(6));
                TR("v" << i << " = whole storage of " << st.n << ", how " << how);
                m[i].off = 0; m[i].len = st.n; m[i].null = false;
                switch (how)
                {
                case 0: v[i] = itlib::span<T>(st.d, st.n); break;
                case 1: v[i] = itlib::span<T>(st.d, st.d + st.n); break;
                case 2: v[i] = itlib::span<T>(st); break;
                case 3: v[i] = itlib::make_span(st.d, st.n); break;
                case 4: v[i] = itlib::make_span(st.d, st.d + st.n); break;
                case 5: v[i] = itlib::make_span(st); break;
                default:
                {
                    size_t a = s.range<size_t>(0, st.n), b = s.range<size_t>(a, st.n);
                    v[i] = itlib::span<T>(st.d + a, st.d + b);
                    m[i].off = a; m[i].len = b - a;
                }
                }
                break;
            }
            case 1: case 2: case 3: // subspan
            {
                size_t off = gen_off(s, m[j].len), cnt = s.chance(1, 4) ? size_t(-1) : gen_off(s, m[j].len);
                TR("v" << i << " = v" << j << ".subspan(" << off << ", " << cnt << ") of " << m[j].len);
                Mod n = m[j];
                size_t o = clampc(off, n.len);
                n.off += o;
                n.len = clampc(cnt, n.len - o);
                if (cnt == size_t(-1) && s.coin()) v[i] = v[j].subspan(off); else v[i] = v[j].subspan(off, cnt);
                m[i] = n;
                s.nontrivial();
                break;
            }
            case 4:
            {
                size_t cnt = gen_off(s, m[j].len);
                TR("v" << i << " = v" << j << ".first(" << cnt << ")");
                Mod n = m[j];
                n.len = clampc(cnt, n.len);
                v[i] = v[j].first(cnt);
                m[i] = n;
                s.nontrivial();
                break;
            }
            case 5:
            {
                size_t cnt = gen_off(s, m[j].len);
                TR("v" << i << " = v" << j << ".last(" << cnt << ") of " << m[j].len);
                Mod n = m[j];
                size_t l = clampc(cnt, n.len);
                n.off += n.len - l;
                n.len = l;
                v[i] = v[j].last(cnt);
                m[i] = n;
                s.nontrivial();
                break;
            }
            case 6:
            {
                size_t n = s.range<size_t>(0, m[i].len);
                TR("v" << i << ".remove_prefix(" << n << ")");
                v[i].remove_prefix(n);
                m[i].off += n; m[i].len -= n;
                break;
            }
            case 7:
            {
                size_t n = s.range<size_t>(0, m[i].len);
                TR("v" << i << ".remove_suffix(" << n << ")");
                v[i].remove_suffix(n);
                m[i].len -= n;
                break;
            }
            case 8: TR("v" << i << " = v" << j); v[i] = v[j]; m[i] = m[j]; break;
            case 9: { TR("v" << i << " = copy of v" << j); itlib::span<T> c(v[j]); itlib::span<T> mv(std::move(c)); v[i] = std::move(mv); m[i] = m[j]; break; }
            case 10: TR("c" << i << " = v" << j); if (s.coin()) cv[i] = v[j]; else { itlib::span<const T> c(v[j]); cv[i] = c; } cm[i] = m[j]; break;
            case 11: // const slicing
            {
                unsigned how = unsigned(s.raw(4));
                size_t off = gen_off(s, cm[j].len), cnt = gen_off(s, cm[j].len);
                Mod n = cm[j];
                TR("c" << i << " = slice " << how << " of c" << j << " (" << off << ", " << cnt << ") of " << n.len);
                if (how == 0) { size_t o = clampc(off, n.len); n.off += o; n.len = clampc(cnt, n.len - o); cv[i] = cv[j].subspan(off, cnt); }
                else if (how == 1) { n.len = clampc(cnt, n.len); cv[i] = cv[j].first(cnt); }
                else if (how == 2) { size_t l = clampc(cnt, n.len); n.off += n.len - l; n.len = l; cv[i] = cv[j].last(cnt); }
                else if (how == 3) { n.off = 0; n.len = st.n; n.null = false; const Storage<T>& cs = st; cv[i] = itlib::make_span(cs); }
                else { n.off = 0; n.len = st.n; n.null = false; const Storage<T>& cs = st; if (s.coin()) cv[i] = itlib::span<const T>(cs); else cv[i] = itlib::span<const T>(st.d, st.n); }
                cm[i] = n;
                s.nontrivial();
                break;
            }
            case 12: TR("v" << i << " = {}"); v[i] = itlib::span<T>(); m[i] = Mod(); break;
            default: write(v[i], m[i], st, s); break;
            }
            if (st.d == nullptr) for (size_t q = 0; q < slots; ++q) { m[q].null = cm[q].null = true; m[q].off = m[q].len = cm[q].off = cm[q].len = 0; }
            st.check();
            for (size_t q = 0; q < slots; ++q) { inspect(v[q], m[q], st); inspect(cv[q], cm[q], st); }
            if (BYTES) { bytes(v[i], m[i], s); bytes(cv[i], cm[i], s); }
        }
    }
};

static_assert(!std::is_constructible<itlib::span<int>, itlib::span<const int>&>::value, "no way from const to non-const");
static_assert(!std::is_constructible<itlib::span<int>, const std::vector<int>&>::value, "no way from const to non-const");
static_assert(std::is_convertible<itlib::span<int>, itlib::span<const int>>::value, "const view of a mutable view");

// arrays, std::array, std::vector, strings: every conversion keeps data and size
template <typename T, size_t N>
void conversions_for(pbt::Source& s)
{
    T a[N];
    const T ca[N] = {};
    std::array<T, N> sa{};
    const std::array<T, N> csa{};
    size_t n = s.small(30);
    std::vector<T> v(n), roomy(n);
    v.reserve(n + s.raw(3)); // capacity is not size
    roomy.reserve(n + 1 + s.raw(3));
    const std::vector<T> cv(std::move(roomy));
    auto is = [](itlib::span<T> x, T* p, size_t sz) { return x.data() == p && x.size() == sz; };
    auto cis = [](itlib::span<const T> x, const T* p, size_t sz) { return x.data() == p && x.size() == sz; };
    REQ(is(a, a, N)); REQ(is(itlib::make_span(a), a, N)); REQ(is(itlib::span<T>(a), a, N));
    REQ(cis(a, a, N)); REQ(cis(ca, ca, N)); REQ(cis(itlib::make_span(ca), ca, N));
    REQ(is(sa, sa.data(), N)); REQ(cis(sa, sa.data(), N)); REQ(cis(csa, csa.data(), N)); REQ(cis(itlib::make_span(csa), csa.data(), N)); REQ(is(itlib::make_span(sa), sa.data(), N));
    REQ(is(v, v.data(), n)); REQ(cis(v, v.data(), n)); REQ(cis(cv, cv.data(), n)); REQ(is(itlib::make_span(v), v.data(), n)); REQ(cis(itlib::make_span(cv), cv.data(), n));
    itlib::span<const T> w;
    w = itlib::span<T>(v);
    REQ(w.data() == v.data() && w.size() == n);
    w = itlib::make_span(a);
    REQ(w.data() == a && w.size() == N);
#if __cplusplus >= 201703L
    itlib::span d1(a);
    itlib::span d2(v);
    itlib::span d3(cv);
    itlib::span d4(v.data(), n);
    itlib::span d5(v.data(), v.data() + n);
    itlib::span d6(sa);
    REQ(is(d1, a, N) && is(d2, v.data(), n) && cis(d3, cv.data(), n) && is(d4, v.data(), n) && is(d5, v.data(), n) && is(d6, sa.data(), N));
#endif
    if (n > 1) s.nontrivial();
    // memory views
    auto mv = itlib::make_memory_view(v);
    size_t off = s.range<size_t>(0, n);
    auto mo = itlib::make_memory_view(v, off);
    REQ(mv.data() == v.data() && mv.size() == n && mo.data() == v.data() + off && mo.size() == n - off);
    auto cmo = itlib::make_memory_view(cv, off);
    REQ(cmo.data() == cv.data() + off && cmo.size() == n - off);
    auto pv = itlib::make_memory_view(v.data(), n);
    REQ(pv.data() == v.data() && pv.size() == n && pv.get() == v.data());
    auto cpv = itlib::make_memory_view(cv.data(), n);
    REQ(cpv.data() == cv.data() && cpv.size() == n && cpv.get() == cv.data());
    auto av = itlib::make_memory_view(ca);
    REQ(av.data() == ca && av.size() == N);
}
void conversions(pbt::Source& s)
{
    switch (s.raw(5))
    {
    case 0: conversions_for<int, 1>(s); break;
    case 1: conversions_for<uint8_t, 7>(s); break;
    case 2: conversions_for<double, 3>(s); break;
    case 3: conversions_for<std::string, 5>(s); break;
    case 4: conversions_for<uint16_t, 33>(s); break;
    default: conversions_for<int*, 4>(s); break;
    }
}

template <typename T>
void mviews(pbt::Source& s)
{
    enum { slots = 4 };
    Storage<T> st(1 + s.small(40));
    itlib::memory_view<T> v[slots];
    itlib::const_memory_view<T> cv[slots];
    Mod m[slots], cm[slots];
    size_t nops = s.small(40);
    for (size_t k = 0; k < nops; ++k)
    {
        size_t i = s.raw(slots - 1), j = s.raw(slots - 1);
        switch (s.raw(12))
        {
        case 0: TR("v" << i << " = all"); if (s.coin()) v[i] = itlib::memory_view<T>(st.d, st.n); else v[i].reset(st.d, st.n); m[i].off = 0; m[i].len = st.n; m[i].null = false; break;
        case 1: TR("c" << i << " = all"); if (s.coin()) cv[i] = itlib::const_memory_view<T>(st.d, st.n); else cv[i].reset(st.d, st.n); cm[i].off = 0; cm[i].len = st.n; cm[i].null = false; break;
        case 2: case 3: case 4:
        {
            size_t off = gen_off(s, m[j].len), cnt = gen_off(s, m[j].len);
            TR("v" << i << " = v" << j << ".slice(" << off << ", " << cnt << ") of " << m[j].len);
            Mod n = m[j];
            size_t o = clampc(off, n.len); n.off += o; n.len = clampc(cnt, n.len - o);
            v[i] = v[j].slice(off, cnt);
            m[i] = n; s.nontrivial();
            break;
        }
        case 5: case 6:
        {
            size_t off = gen_off(s, cm[j].len), cnt = gen_off(s, cm[j].len);
            TR("c" << i << " = c" << j << ".slice(" << off << ", " << cnt << ") of " << cm[j].len);
            Mod n = cm[j];
            size_t o = clampc(off, n.len); n.off += o; n.len = clampc(cnt, n.len - o);
            cv[i] = cv[j].slice(off, cnt);
            cm[i] = n; s.nontrivial();
            break;
        }
        case 7:
        {
            size_t a = s.range<size_t>(0, m[i].len), b = s.range<size_t>(0, m[i].len - a);
            TR("v" << i << ".remove_prefix(" << a << "), remove_suffix(" << b << ")");
            v[i].remove_prefix(a); v[i].remove_suffix(b); m[i].off += a; m[i].len -= a + b; break;
        }
        case 8:
        {
            size_t a = s.range<size_t>(0, cm[i].len), b = s.range<size_t>(0, cm[i].len - a);
            TR("c" << i << ".remove_prefix(" << a << "), remove_suffix(" << b << ")");
            cv[i].remove_prefix(a); cv[i].remove_suffix(b); cm[i].off += a; cm[i].len -= a + b; break;
        }
        case 9: TR("c" << i << " = v" << j); cv[i] = itlib::const_memory_view<T>(v[j]); cm[i] = m[j]; break;
        case 10:
        {
            size_t l = s.range<size_t>(0, m[i].len);
            TR("v" << i << ".reset(" << l << ")");
            if (s.coin()) { v[i].reset(l); m[i].len = l; } else { v[i].reset(); m[i] = Mod(); }
            l = s.range<size_t>(0, cm[i].len);
            if (s.coin()) { cv[i].reset(l); cm[i].len = l; } else if (s.coin()) { cv[i].reset(); cm[i] = Mod(); }
            break;
        }
        case 11: TR("v" << i << " = v" << j); v[i] = v[j]; m[i] = m[j]; cv[i] = cv[j]; cm[i] = cm[j]; break;
        default:
            if (m[i].len)
            {
                size_t q = s.range<size_t>(0, m[i].len - 1);
                int val = s.range<int>(1, 120);
                TR("v" << i << "[" << q << "] = " << val);
                switch (s.raw(2)) { case 0: v[i][q] = V<T>::make(val); break; case 1: v[i].at(q) = V<T>::make(val); break; default: *(v[i].begin() + q) = V<T>::make(val); break; }
                st.model[m[i].off + q] = V<T>::make(val);
            }
            break;
        }
        st.check();
        for (size_t q = 0; q < slots; ++q) { inspect(v[q], m[q], st); inspect(cv[q], cm[q], st); }
    }
}

// views with more elements than 32 bits can count: positions and sizes only
template <typename V, typename T>
void at_huge(const V& v, T* b, size_t off, size_t len, pbt::Source& s)
{
    REQM(v.size() == len, "size() is " << v.size() << ", expected " << len);
    REQM(v.data() == b + off, "view begins at element " << (v.data() - b) << ", expected " << off);
    REQ(v.empty() == (len == 0) && v.end() == b + off + len && size_t(v.rend() - v.rbegin()) == len);
    if (!len) return;
    REQ(&v.front() == b + off && &v.back() == b + off + len - 1);
    size_t i = huge_number(s, len - 1);
    REQM(&v[i] == b + off + i && &v.at(i) == b + off + i, "[" << i << "] is at another address");
    REQ(&*(v.begin() + ptrdiff_t(i)) == b + off + i && &*(v.rbegin() + ptrdiff_t(len - 1 - i)) == b + off + i);
}
template <typename T>
void huge_views(pbt::Source& s)
{
    T* b = reinterpret_cast<T*>(huge_base());
    const size_t n = huge_number(s, huge_bytes / sizeof(T) - 8);
    TR("view of " << n << " elements of " << sizeof(T) << " bytes");
    itlib::span<T> v(b, n);
    itlib::memory_view<T> mv(b, n);
    itlib::const_memory_view<T> cmv(b, n);
    if (s.coin()) { mv.reset(); cmv.reset(); mv.reset(b, n); cmv.reset(b, n); }
    if (s.coin()) { v = itlib::span<T>(b, b + n); mv = itlib::make_memory_view(b, n); cmv = itlib::make_memory_view(static_cast<const T*>(b), n); }
    size_t off = 0, len = n;
    size_t nops = 1 + s.small(8);
    for (size_t k = 0; k < nops; ++k)
    {
        switch (s.raw(5))
        {
        case 5: { size_t c = huge_number(s, len); TR("reset(" << c << ") of " << len); mv.reset(c); cmv.reset(c); v = v.first(c); len = c; break; }
        case 0: case 1:
        {
            size_t o = huge_count(s, len), c = s.chance(1, 3) ? size_t(-1) : huge_count(s, len);
            TR("subspan(" << o << ", " << c << ") of " << len);
            if (c == size_t(-1) && s.coin()) { v = v.subspan(o); mv = mv.slice(o); cmv = cmv.slice(o); }
            else { v = v.subspan(o, c); mv = mv.slice(o, c); cmv = cmv.slice(o, c); }
            o = clampc(o, len);
            off += o; len = clampc(c, len - o);
            break;
        }
        case 2: { size_t c = huge_count(s, len); TR("first(" << c << ") of " << len); v = v.first(c); mv = mv.slice(0, c); cmv = cmv.slice(0, c); len = clampc(c, len); break; }
        case 3: { size_t c = huge_count(s, len); TR("last(" << c << ") of " << len); v = v.last(c); c = clampc(c, len); mv = mv.slice(len - c, c); cmv = cmv.slice(len - c); off += len - c; len = c; break; }
        default:
        {
            size_t a = huge_number(s, len), z = huge_number(s, len - a);
            TR("remove_prefix(" << a << "), remove_suffix(" << z << ") of " << len);
            v.remove_prefix(a); v.remove_suffix(z); mv.remove_prefix(a); mv.remove_suffix(z); cmv.remove_prefix(a); cmv.remove_suffix(z);
            off += a; len -= a + z;
            break;
        }
        }
        at_huge(v, b, off, len, s);
        at_huge(mv, b, off, len, s);
        at_huge(cmv, static_cast<const T*>(b), off, len, s);
        at_huge(itlib::span<const T>(v), static_cast<const T*>(b), off, len, s);
        REQ(v.size_bytes() == len * sizeof(T) && v.as_bytes().size() == len * sizeof(T) && v.as_writable_bytes().size() == len * sizeof(T));
        if (len > 0x7fffffff) s.nontrivial();
    }
}

PBT_REG(huge_u8, huge_views<uint8_t>, 10000);
PBT_REG(huge_int, huge_views<int>, 10000);
PBT_REG(huge_odd, huge_views<Odd>, 10000);
PBT_REG(span_u8, (Spans<uint8_t, true>::run), 60000);
PBT_REG(span_int, (Spans<int, true>::run), 60000);
PBT_REG(span_odd, (Spans<Odd, true>::run), 60000);
PBT_REG(span_double, (Spans<double, true>::run), 40000);
PBT_REG(span_string, (Spans<std::string, true>::run), 40000);
PBT_REG(mv_int, mviews<int>, 40000);
PBT_REG(mv_odd, mviews<Odd>, 40000);
PBT_REG(mv_string, mviews<std::string>, 20000);
PBT_REG(conv, conversions, 20000);
}

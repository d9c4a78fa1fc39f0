// stride_span: indexing, iteration, iterator arithmetic, slices, construction helpers (P13)
#include "walk.hpp"
#include "huge.hpp"
#include <itlib/stride_span.hpp>
#include <algorithm>
#include <cstring>

using namespace vt;

namespace
{
struct S12 { int a; unsigned char b; short c; bool operator==(const S12& o) const { return a == o.a && b == o.b && c == o.c; } };
template <typename T> struct V { static T make(int v) { return T(v); } };
template <> struct V<S12> { static S12 make(int v) { S12 x; memset(&x, 0, sizeof x); x.a = v * 1000003; x.b = (unsigned char)v; x.c = short(v * 77); return x; } };
template <> struct V<int*> { static int* make(int v) { static int pool[256]; return pool + v; } };

size_t clampc(size_t c, size_t n) { return c > n ? n : c; }
size_t gen_cnt(pbt::Source& s, size_t n)
{
    switch (s.raw(7))
    {
    case 0: return n;
    case 1: return n + s.small(20);
    case 2: return size_t(-1) - s.small(20);
    case 3: return (size_t(1) << (50 + s.raw(13))) + s.raw(4);
    case 4: return size_t(-1) / (1 + s.raw(40)) - s.raw(8) + s.raw(8);
    default: return s.range<size_t>(0, n);
    }
}

struct Mod { size_t off = 0, stride = 0, n = 0; bool null = true; };

template <typename T>
struct Strides
{
    struct Buf
    {
        unsigned char* d;
        size_t n;
        std::vector<unsigned char> model;
        explicit Buf(size_t sz) : d(new unsigned char[sz ? sz : 1]), n(sz) {}
        ~Buf() { delete[] d; }
        Buf(const Buf&) = delete;
    };

    // View = stride_span<T> or stride_span<const T>
    template <typename View>
    static void inspect(View& v, const Mod& m, const Buf& b, pbt::Source& s, bool deep)
    {
        const View& c = v;
        REQM(c.size() == m.n, "size() is " << c.size() << ", expected " << m.n);
        REQ(c.empty() == (m.n == 0));
        if (m.null) { REQ(!c && c.data() == nullptr); REQ(c.begin() == c.end() && c.cbegin() == c.cend() && v.begin() == v.end()); return; }
        REQ(bool(c));
        REQM(c.stride() == m.stride, "stride() is " << c.stride() << ", expected " << m.stride);
        REQM(c.data() == b.d + m.off, "data() is at byte " << (c.data() - b.d) << ", expected " << m.off);
        REQ(v.data() == b.d + m.off);
        auto addr = [&](size_t i) { return reinterpret_cast<const T*>(b.d + m.off + i * m.stride); };
        for (size_t i = 0; i < m.n; ++i)
        {
            REQM(&c[i] == addr(i), "[" << i << "] is at byte " << (reinterpret_cast<const unsigned char*>(&c[i]) - b.d));
            REQ(&c.at(i) == addr(i) && &v[i] == addr(i) && &v.at(i) == addr(i));
            REQ(memcmp(&c[i], b.model.data() + m.off + i * m.stride, sizeof(T)) == 0);
        }
        if (m.n) { REQ(&c.front() == addr(0) && &v.front() == addr(0) && &c.back() == addr(m.n - 1) && &v.back() == addr(m.n - 1)); }
        if (!deep) return;
        ptrdiff_t n = ptrdiff_t(m.n);
        walk(s, "iterator", v.begin(), v.end(), n, [&](typename View::iterator i, ptrdiff_t k) { return &*i == addr(size_t(k)) && i.ptr() == addr(size_t(k)) && i.operator->() == addr(size_t(k)); });
        walk(s, "const_iterator", c.begin(), c.end(), n, [&](typename View::const_iterator i, ptrdiff_t k) { return &*i == addr(size_t(k)) && i.ptr() == addr(size_t(k)); });
        walk(s, "cbegin", v.cbegin(), v.cend(), n, [&](typename View::const_iterator i, ptrdiff_t k) { return &*i == addr(size_t(k)); });
        walk(s, "reverse_iterator", v.rbegin(), v.rend(), n, [&](typename View::reverse_iterator i, ptrdiff_t k) { return &*i == addr(size_t(n - 1 - k)); });
        walk(s, "const_reverse_iterator", c.rbegin(), c.rend(), n, [&](typename View::const_reverse_iterator i, ptrdiff_t k) { return &*i == addr(size_t(n - 1 - k)); });
    }

    static void run(pbt::Source& s)
    {
        enum { slots = 3 };
        using View = itlib::stride_span<T>;
        using CView = itlib::stride_span<const T>;
        size_t unit = alignof(T);
        // geometry: exactly as many bytes as the last element needs
        size_t stride = unit * (s.chance(1, 3) ? sizeof(T) / unit : 1 + s.small(24));
        size_t n = s.small(20);
        size_t lead = unit * s.small(5);
        size_t bytes = lead + (n ? (n - 1) * stride + sizeof(T) : 0);
        Buf b(bytes);
        for (size_t i = 0; i < bytes; ++i) b.d[i] = (unsigned char)(pbt::mix64(i) >> 7);
        b.model.assign(b.d, b.d + bytes);
        TR("buffer of " << bytes << " bytes; element size " << sizeof(T) << ", stride " << stride << ", offset " << lead << ", count " << n);

        View v[slots];
        CView cv[slots];
        Mod m[slots], cm[slots];
        size_t nops = 1 + s.small(25);
        for (size_t k = 0; k < nops; ++k)
        {
            size_t i = s.raw(slots - 1), j = s.raw(slots - 1);
            switch (k == 0 ? 0 : s.raw(13))
            {
            case 0:
            {
                size_t mul = 1 + s.raw(2), skip = n ? s.range<size_t>(0, n - 1) : 0;
                size_t cnt = n ? (n - skip + mul - 1) / mul : 0;
                cnt = s.coin() ? cnt : s.range<size_t>(0, cnt);
                m[i].off = lead + skip * stride; m[i].stride = stride * mul; m[i].n = cnt; m[i].null = false;
                TR("v" << i << " = span at " << m[i].off << ", stride " << m[i].stride << ", count " << cnt);
                switch (s.raw(2))
                {
                case 0: v[i] = View(b.d + m[i].off, m[i].stride, cnt); break;
                case 1: v[i] = itlib::make_stride_span_from_buf<T>(b.d, m[i].off, m[i].stride, cnt); break;
                default: v[i] = itlib::make_stride_span_from_buf(reinterpret_cast<T*>(b.d + m[i].off), m[i].stride, cnt); break;
                }
                break;
            }
            case 1: case 2:
            {
                size_t off = gen_cnt(s, m[j].n), cnt = gen_cnt(s, m[j].n);
                TR("v" << i << " = v" << j << ".subspan(" << off << ", " << cnt << ") of " << m[j].n);
                Mod r = m[j];
                size_t o = clampc(off, r.n);
                r.off += o * r.stride; r.n = clampc(cnt, r.n - o);
                if (cnt >= m[j].n && s.coin()) v[i] = v[j].subspan(off); else v[i] = v[j].subspan(off, cnt);
                m[i] = r; s.nontrivial();
                break;
            }
            case 3:
            {
                size_t cnt = gen_cnt(s, m[j].n);
                TR("v" << i << " = v" << j << ".first(" << cnt << ")");
                Mod r = m[j]; r.n = clampc(cnt, r.n);
                v[i] = v[j].first(cnt); m[i] = r; s.nontrivial();
                break;
            }
            case 4:
            {
                size_t cnt = s.range<size_t>(0, m[j].n);
                TR("v" << i << " = v" << j << ".last(" << cnt << ")");
                Mod r = m[j]; r.off += (r.n - cnt) * r.stride; r.n = cnt;
                v[i] = v[j].last(cnt); m[i] = r; s.nontrivial();
                break;
            }
            case 5:
            {
                size_t a = s.range<size_t>(0, m[i].n), z = s.range<size_t>(0, m[i].n - a);
                TR("v" << i << ".remove_prefix(" << a << "), .remove_suffix(" << z << ")");
                v[i].remove_prefix(a); v[i].remove_suffix(z); m[i].off += a * m[i].stride; m[i].n -= a + z; s.nontrivial();
                break;
            }
            case 6: TR("v" << i << " = v" << j); v[i] = v[j]; m[i] = m[j]; break;
            case 7: TR("c" << i << " = v" << j); if (s.coin()) cv[i] = v[j]; else { CView c(v[j]); cv[i] = c; } cm[i] = m[j]; break;
            case 8:
            {
                size_t off = gen_cnt(s, cm[j].n), cnt = gen_cnt(s, cm[j].n);
                TR("c" << i << " = c" << j << ".subspan(" << off << ", " << cnt << ") of " << cm[j].n);
                Mod r = cm[j];
                size_t o = clampc(off, r.n);
                r.off += o * r.stride; r.n = clampc(cnt, r.n - o);
                cv[i] = cv[j].subspan(off, cnt); cm[i] = r; s.nontrivial();
                break;
            }
            case 9: { TR("c" << i << " = const member of v" << j); View t(std::move(v[j])); v[j] = std::move(t); const View& c = v[j]; cv[i] = CView(c); cm[i] = m[j]; break; }
            case 10: // sort through the view
                if (m[i].n && m[i].stride >= sizeof(T) && s.chance(1, 2))
                {
                    TR("reverse v" << i << " in place");
                    std::vector<T> e;
                    for (size_t q = 0; q < m[i].n; ++q) { T t; memcpy(&t, b.model.data() + m[i].off + q * m[i].stride, sizeof(T)); e.push_back(t); }
                    std::reverse(v[i].begin(), v[i].end());
                    for (size_t q = 0; q < m[i].n; ++q) memcpy(b.model.data() + m[i].off + q * m[i].stride, &e[m[i].n - 1 - q], sizeof(T));
                }
                break;
            default:
                if (m[i].n)
                {
                    size_t q = s.range<size_t>(0, m[i].n - 1);
                    T val = V<T>::make(s.range<int>(1, 120));
                    TR("write v" << i << "[" << q << "]");
                    switch (s.raw(5))
                    {
                    case 0: v[i][q] = val; break;
                    case 1: v[i].at(q) = val; break;
                    case 2: *(v[i].begin() + ptrdiff_t(q)) = val; break;
                    case 3: *(v[i].rbegin() + ptrdiff_t(m[i].n - 1 - q)) = val; break;
                    case 4: q = 0; v[i].front() = val; break;
                    default: q = m[i].n - 1; v[i].back() = val; break;
                    }
                    memcpy(b.model.data() + m[i].off + q * m[i].stride, &val, sizeof(T));
                }
                break;
            }
            REQM(!bytes || memcmp(b.d, b.model.data(), bytes) == 0, "bytes outside of the addressed elements changed");
            bool deep = s.chance(1, 3) || k + 1 == nops;
            for (size_t q = 0; q < slots; ++q) { inspect(v[q], m[q], b, s, deep && q == i); inspect(cv[q], cm[q], b, s, deep && q == i); }
        }
    }
};

// helpers over arrays and structures
struct Base0 { int b0; };
struct Base1 { short b1; char c1; };
struct Rec : Base0, Base1 { double d; char c; int i; char z[5]; };

template <typename T, typename F>
void same(itlib::stride_span<T> v, size_t n, size_t stride, F addr)
{
    REQM(v.size() == n, "view has " << v.size() << " elements, expected " << n);
    REQ(n == 0 || v.stride() == stride);
    for (size_t i = 0; i < n; ++i) REQM(&v[i] == addr(i), "element " << i << " of the view is another object");
    size_t k = 0;
    for (auto& x : v) { REQ(&x == addr(k)); ++k; }
    REQ(k == n);
}

void helpers(pbt::Source& s)
{
    size_t n = s.small(20);
    Rec* r = new Rec[n ? n : 1];
    const Rec* cr = r;
    same(itlib::make_stride_span_member_view(r, n, &Rec::d), n, sizeof(Rec), [&](size_t i) { return &r[i].d; });
    same(itlib::make_stride_span_member_view(r, n, &Rec::c), n, sizeof(Rec), [&](size_t i) { return &r[i].c; });
    same(itlib::make_stride_span_member_view(cr, n, &Rec::i), n, sizeof(Rec), [&](size_t i) { return &cr[i].i; });
    same(itlib::make_stride_span_base_view<Base0>(r, n), n, sizeof(Rec), [&](size_t i) { return static_cast<Base0*>(r + i); });
    same(itlib::make_stride_span_base_view<Base1>(r, n), n, sizeof(Rec), [&](size_t i) { return static_cast<Base1*>(r + i); });
    static_assert(std::is_same<decltype(itlib::make_stride_span_member_view(cr, n, &Rec::i)), itlib::stride_span<const int>>::value, "constness of member views");
    delete[] r;

    size_t len = s.small(40);
    std::unique_ptr<short[]> ar(new short[len ? len : 1]);
    size_t off = s.range<size_t>(0, len), step = 1 + s.small(len + 3);
    TR("array of " << len << ", offset " << off << ", step " << step);
    size_t cnt = 0;
    for (size_t i = off; i < len; i += step) ++cnt;
    same(itlib::make_stride_span_from_array(ar.get(), len, off, step), cnt, step * sizeof(short), [&](size_t i) { return ar.get() + off + i * step; });
    same(itlib::make_stride_span_from_array(ar.get(), len), len, sizeof(short), [&](size_t i) { return ar.get() + i; });
    const short* car = ar.get();
    same(itlib::make_stride_span_from_array(car, len, off, step), cnt, step * sizeof(short), [&](size_t i) { return car + off + i * step; });
    if (cnt > 1) s.nontrivial();
}

// strides, counts and distances beyond 32 bits: positions only
template <typename T>
void huge_strides(pbt::Source& s)
{
    unsigned char* b = huge_base();
    const size_t unit = alignof(T);
    size_t stride = unit * (1 + huge_number(s, huge_bytes / unit / 4));
    size_t n = huge_number(s, (huge_bytes - 64) / stride);
    TR("stride " << stride << ", count " << n);
    itlib::stride_span<T> v(b, stride, n);
    if (s.chance(1, 3))
    {
        // every step-th one of an array
        const size_t all = huge_number(s, huge_bytes / sizeof(T) - 64), from = huge_number(s, all), step = 1 + huge_number(s, huge_bytes / sizeof(T) / 4);
        TR("every " << step << "th of an array of " << all << ", from " << from);
        T* ar = reinterpret_cast<T*>(b);
        v = itlib::make_stride_span_from_array(ar, all, from, step);
        n = (all - from) / step + ((all - from) % step != 0);
        stride = step * sizeof(T);
        b = reinterpret_cast<unsigned char*>(ar + from);
        REQM(v.size() == n && v.stride() == stride && v.data() == b, "a span of " << v.size() << ", stride " << v.stride() << " from " << (v.data() - huge_base()));
    }
    size_t off = 0, len = n;
    size_t nops = 1 + s.small(6);
    for (size_t k = 0; k < nops; ++k)
    {
        switch (s.raw(4))
        {
        case 0: case 1:
        {
            size_t o = huge_count(s, len), c = s.chance(1, 3) ? size_t(-1) : huge_count(s, len);
            TR("subspan(" << o << ", " << c << ") of " << len);
            v = v.subspan(o, c);
            o = clampc(o, len);
            off += o; len = clampc(c, len - o);
            break;
        }
        case 2: { size_t c = huge_count(s, len); TR("first(" << c << ") of " << len); v = v.first(c); len = clampc(c, len); break; }
        case 3: { size_t c = huge_number(s, len); TR("last(" << c << ") of " << len); v = v.last(c); off += len - c; len = c; break; }
        default:
        {
            size_t a = huge_number(s, len), z = huge_number(s, len - a);
            TR("remove_prefix(" << a << "), remove_suffix(" << z << ") of " << len);
            v.remove_prefix(a); v.remove_suffix(z);
            off += a; len -= a + z;
            break;
        }
        }
        const itlib::stride_span<T>& c = v;
        itlib::stride_span<const T> cv(v);
        auto addr = [&](size_t i) { return reinterpret_cast<T*>(b + (off + i) * stride); };
        REQM(v.size() == len && v.stride() == stride, "size() is " << v.size() << ", stride() is " << v.stride());
        REQ(v.data() == b + off * stride && c.data() == v.data() && cv.data() == v.data() && cv.size() == len && cv.stride() == stride);
        REQ(v.end() - v.begin() == ptrdiff_t(len) && c.end() - c.begin() == ptrdiff_t(len) && cv.begin() - cv.end() == -ptrdiff_t(len));
        if (!len) continue;
        REQ(&v.front() == addr(0) && &v.back() == addr(len - 1) && &c.back() == addr(len - 1) && &cv.back() == addr(len - 1));
        size_t i = huge_number(s, len - 1), j = huge_number(s, len - 1);
        REQM(&v[i] == addr(i) && &c[i] == addr(i) && &cv.at(i) == addr(i), "[" << i << "] is at another address");
        auto x = v.begin() + ptrdiff_t(i), y = x + (ptrdiff_t(j) - ptrdiff_t(i)), z = x;
        z -= ptrdiff_t(i) - ptrdiff_t(j);
        auto w = x - (ptrdiff_t(i) - ptrdiff_t(j));
        auto u = x;
        u += ptrdiff_t(j) - ptrdiff_t(i);
        REQM(x.ptr() == addr(i) && y.ptr() == addr(j) && z == y && w == y && u == y, "iterators at " << i << " and " << j);
        REQM(y - x == ptrdiff_t(j) - ptrdiff_t(i), "difference of iterators at " << j << " and " << i << " is " << (y - x));
        REQ((x < y) == (i < j) && (x > y) == (i > j) && (x == y) == (i == j) && (x <= y) == (i <= j));
        auto r = v.rbegin() + ptrdiff_t(i);
        REQ(&*r == addr(len - 1 - i));
        if (len * stride > 0x7fffffff) s.nontrivial();
    }
}

// standard algorithms through the view's iterators, against the same algorithm over a vector
template <typename I, typename J, typename T>
ptrdiff_t algorithm(pbt::Source& s, unsigned which, I b, I e, J vb, J ve, const std::vector<T>& other)
{
    ptrdiff_t n = ve - vb, k = s.range<ptrdiff_t>(0, n);
    T x = T(s.range<int>(0, 9));
    auto odd = [](const T& t) { return (int(t) & 1) != 0; };
    switch (which)
    {
    case 0: std::sort(b, e); std::sort(vb, ve); break;
    case 1: std::stable_sort(b, e, [](const T& p, const T& q) { return int(p) / 3 < int(q) / 3; }); std::stable_sort(vb, ve, [](const T& p, const T& q) { return int(p) / 3 < int(q) / 3; }); break;
    case 2: std::reverse(b, e); std::reverse(vb, ve); break;
    case 3: REQ(std::rotate(b, b + k, e) - b == std::rotate(vb, vb + k, ve) - vb); break;
    case 4: std::stable_partition(b, e, odd); std::stable_partition(vb, ve, odd); break;
    case 5: { auto p = std::unique(b, e) - b; REQ(p == std::unique(vb, ve) - vb); return p; }
    case 6: { auto p = std::remove(b, e, x) - b; REQ(p == std::remove(vb, ve, x) - vb); return p; }
    case 7: std::make_heap(b, e); std::sort_heap(b, e); std::sort(vb, ve); break;
    case 8: std::next_permutation(b, e); std::next_permutation(vb, ve); break;
    case 9: std::sort(b, b + k); std::sort(b + k, e); std::inplace_merge(b, b + k, e); std::sort(vb, ve); break;
    case 10: REQ(std::find(b, e, x) - b == std::find(vb, ve, x) - vb && std::count(b, e, x) == std::count(vb, ve, x)); break;
    case 11: std::sort(b, e); std::sort(vb, ve); REQ(std::lower_bound(b, e, x) - b == std::lower_bound(vb, ve, x) - vb && std::upper_bound(b, e, x) - b == std::upper_bound(vb, ve, x) - vb); break;
    case 12: std::copy(b + k, e, b); std::copy(vb + k, ve, vb); break;
    case 13: std::copy_backward(b, b + k, e); std::copy_backward(vb, vb + k, ve); break;
    case 14: std::copy(other.begin(), other.begin() + k, b); std::copy(other.begin(), other.begin() + k, vb); break;
    case 15: { std::vector<T> c(b, e), d(vb, ve); REQ(c == d && std::equal(b, e, vb) && std::distance(b, e) == n && std::next(b, k) == std::prev(e, n - k)); break; }
    case 16: REQ(std::max_element(b, e) - b == std::max_element(vb, ve) - vb && std::is_sorted_until(b, e) - b == std::is_sorted_until(vb, ve) - vb && std::adjacent_find(b, e) - b == std::adjacent_find(vb, ve) - vb); break;
    case 17: REQ(std::search(b, e, b + k, e) - b == std::search(vb, ve, vb + k, ve) - vb && std::mismatch(b, e, other.begin()).first - b == std::mismatch(vb, ve, other.begin()).first - vb); break;
    case 18: std::fill_n(b, k, x); std::fill_n(vb, k, x); break;
    case 19: std::swap_ranges(b, b + k / 2, b + (n - k / 2)); std::swap_ranges(vb, vb + k / 2, vb + (n - k / 2)); break;
    default: std::nth_element(b, k == n ? e : b + k, e); if (k < n) { std::vector<T> t(vb, ve); std::sort(t.begin(), t.end()); REQ(t[size_t(k)] == *(b + k)); } std::sort(b, e); std::sort(vb, ve); break;
    }
    return n;
}

template <typename T>
void algorithms(pbt::Source& s)
{
    size_t n = s.small(40), lead = alignof(T) * s.small(3), stride = alignof(T) * (sizeof(T) / alignof(T) + s.small(5));
    size_t bytes = lead + (n ? (n - 1) * stride + sizeof(T) : 0);
    std::unique_ptr<unsigned char[]> buf(new unsigned char[bytes ? bytes : 1]);
    for (size_t i = 0; i < bytes; ++i) buf[i] = (unsigned char)(pbt::mix64(i) >> 9);
    std::vector<T> m, other;
    itlib::stride_span<T> v(buf.get() + lead, stride, n);
    for (size_t i = 0; i < n; ++i) { T x = T(s.range<int>(0, 9)); m.push_back(x); v[i] = x; other.push_back(T(s.range<int>(0, 9))); }
    std::vector<unsigned char> img(buf.get(), buf.get() + bytes);
    size_t nops = 1 + s.small(6);
    for (size_t q = 0; q < nops; ++q)
    {
        unsigned which = unsigned(s.raw(20));
        bool rev = s.chance(1, 4);
        TR("algorithm " << which << (rev ? " over reverse iterators" : "") << " on " << n << " elements with stride " << stride);
        ptrdiff_t kept; // remove and unique leave unspecified values behind the new end
        if (rev) kept = algorithm(s, which, v.rbegin(), v.rend(), m.rbegin(), m.rend(), other);
        else kept = algorithm(s, which, v.begin(), v.end(), m.begin(), m.end(), other);
        for (size_t i = size_t(kept); i < n; ++i) m[rev ? n - 1 - i : i] = v[rev ? n - 1 - i : i];
        for (size_t i = 0; i < n; ++i) memcpy(img.data() + lead + i * stride, &m[i], sizeof(T));
        for (size_t i = 0; i < n; ++i) REQM(v[i] == m[i], "element " << i << " is " << int(v[i]) << ", expected " << int(m[i]));
        REQM(!bytes || memcmp(img.data(), buf.get(), bytes) == 0, "bytes outside of the addressed elements changed");
        if (n > 2) s.nontrivial();
    }
}

PBT_REG(algorithms_i32, algorithms<int>, 15000);
PBT_REG(algorithms_u8, algorithms<unsigned char>, 10000);
PBT_REG(algorithms_f64, algorithms<double>, 10000);
PBT_REG(huge_u8, huge_strides<unsigned char>, 10000);
PBT_REG(huge_i32, huge_strides<int>, 10000);
PBT_REG(huge_s12, huge_strides<S12>, 10000);
PBT_REG(u8, Strides<unsigned char>::run, 30000);
PBT_REG(u16, Strides<unsigned short>::run, 30000);
PBT_REG(i32, Strides<int>::run, 40000);
PBT_REG(f64, Strides<double>::run, 30000);
PBT_REG(s12, Strides<S12>::run, 40000);
PBT_REG(ptr, Strides<int*>::run, 20000);
PBT_REG(views, helpers, 30000);
}

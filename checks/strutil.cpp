// strutil against byte-wise definitions (P27)
#include "common.hpp"
#include <itlib/strutil.hpp>
#include "huge.hpp"
#include "alias.hpp"
#include <array>
#include <deque>
#include <string>
#include <string_view>
#include <vector>

using namespace vt;
using sv = std::string_view;

namespace
{
// exact copies on the heap, so that reads out of bounds are seen
struct Exact
{
    std::unique_ptr<char[]> p;
    size_t n;
    explicit Exact(const std::string& s) : p(s.empty() ? nullptr : new char[s.size()]), n(s.size()) { if (n) std::memcpy(p.get(), s.data(), n); }
    sv view() const { return sv(p.get(), n); }
};

std::string esc(sv s)
{
    std::ostringstream o;
    o << '"';
    size_t i = 0;
    for (char c : s)
    {
        if (c >= 'a' && c <= 'z') o << c; else o << "\\x" << std::hex << unsigned((unsigned char)c) << std::dec << ' ';
        if (++i == 200) { o << "..."; break; }
    }
    o << '"';
    return o.str();
}

char gen_char(pbt::Source& s, uint64_t alpha)
{
    switch (alpha)
    {
    case 0: return 'a';
    case 1: return char('a' + s.raw(1));
    case 2: return s.coin() ? '\0' : 'a';
    case 3: return char(s.raw(255));
    default: { static const char odd[] = {'\0', '\x80', '\xff', '\x7f', 'a', ' '}; return odd[s.raw(5)]; }
    }
}
std::string gen(pbt::Source& s, size_t max, uint64_t alpha)
{
    std::string r(s.small(max), 'a');
    for (auto& c : r) c = gen_char(s, alpha);
    return r;
}

bool def_starts(const std::string& t, const std::string& p)
{
    if (p.size() > t.size()) return false;
    for (size_t i = 0; i < p.size(); ++i) if (t[i] != p[i]) return false;
    return true;
}
bool def_ends(const std::string& t, const std::string& p)
{
    if (p.size() > t.size()) return false;
    for (size_t i = 0; i < p.size(); ++i) if (t[t.size() - 1 - i] != p[p.size() - 1 - i]) return false;
    return true;
}

void patterns(pbt::Source& s)
{
    const uint64_t alpha = s.raw(4);
    std::string p = gen(s, 12, alpha), t;
    // the text is made of repetitions of the pattern, parts of it and other characters
    size_t parts = s.small(30);
    for (size_t i = 0; i < parts; ++i)
    {
        switch (s.raw(4))
        {
        case 0: t += gen_char(s, alpha); break;
        case 1: t += p.substr(0, size_t(s.raw(p.size()))); break;
        case 2: t += p.substr(size_t(s.raw(p.size()))); break;
        default: t += p;
        }
    }
    if (s.chance(1, 10)) { auto n = s.raw(3000); for (size_t i = 0; i < n && t.size() < 40000; ++i) t = s.coin() ? t + p : p + t; }
    if (s.chance(1, 10)) p = t;
    else if (s.chance(1, 10) && !p.empty()) p[size_t(s.raw(p.size() - 1))] ^= char(1 << s.raw(7)); // almost
    TR("text " << esc(t) << " pattern " << esc(p));
    Exact et(t), ep(p);
    const sv tv = et.view(), pv = ep.view();

    const bool st = def_starts(t, p), en = def_ends(t, p);
    REQM(itlib::starts_with(tv, pv) == st, "starts_with says " << !st);
    REQM(itlib::ends_with(tv, pv) == en, "ends_with says " << !en);
    // the empty pattern is a prefix of everything and there is nothing to strip
    size_t pre = 0, suf = 0;
    if (!p.empty())
    {
        while (def_starts(t.substr(pre * p.size()), p)) ++pre;
        std::string x = t;
        while (def_ends(x, p)) { ++suf; x.resize(x.size() - p.size()); }
    }
    sv rp = itlib::remove_prefix_all(tv, pv);
    REQM(rp.size() == t.size() - pre * p.size(), "remove_prefix_all left " << rp.size() << " characters of " << t.size() << "; there are " << pre << " repetitions");
    REQM(rp.data() == tv.data() + pre * p.size(), "remove_prefix_all: not a view of the end of the text");
    sv rs = itlib::remove_suffix_all(tv, pv);
    REQM(rs.size() == t.size() - suf * p.size(), "remove_suffix_all left " << rs.size() << " characters of " << t.size() << "; there are " << suf << " repetitions");
    REQM(rs.data() == tv.data(), "remove_suffix_all: not a view of the beginning of the text");
    if (pre) s.label("prefix stripped");
    if (suf) s.label("suffix stripped");
    if (st || en || (!p.empty() && t.find(p) != std::string::npos)) s.nontrivial();
    // from strings and literals
    REQ(itlib::starts_with(t, p) == st && itlib::ends_with(t, pv) == en);
    if (p.find('\0') == std::string::npos) REQ(itlib::starts_with(tv, p.c_str()) == st && itlib::ends_with(tv, p.c_str()) == en);
    // the pattern may be a part of the text itself
    if (!t.empty())
    {
        size_t at = size_t(s.raw(t.size())), len = size_t(s.raw(t.size() - at));
        sv part = tv.substr(at, len);
        std::string ps(part);
        TR("  part of the text " << at << ", " << len);
        REQM(itlib::starts_with(tv, part) == def_starts(t, ps), "starts_with of a part of the text");
        REQM(itlib::ends_with(tv, part) == def_ends(t, ps), "ends_with of a part of the text");
        Exact other(ps);
        REQM(itlib::remove_prefix_all(tv, part) == itlib::remove_prefix_all(tv, other.view()) && itlib::remove_suffix_all(tv, part) == itlib::remove_suffix_all(tv, other.view()), "stripping a part of the text");
    }
    REQ(std::string(tv) == t && std::string(pv) == p);
}

constexpr const char lit[] = "literal";
constexpr auto cv = itlib::make_string_view(lit + 1, lit + 4);
static_assert(cv.size() == 3 && cv[0] == 'i' && cv[2] == 'e', "in constant expressions");
static_assert(itlib::make_string_view(lit, lit).empty(), "in constant expressions");
constexpr std::array<char, 3> carr{{'x', 'y', 'z'}};
static_assert(itlib::make_string_view(carr.begin(), carr.end())[2] == 'z', "in constant expressions");

template <typename It> void one_view(It b, It e, const char* at, size_t n, const char* what)
{
    sv v = itlib::make_string_view(b, e);
    REQM(v.size() == n, what << ": view of " << v.size() << " characters, expected " << n);
    if (n) REQM(v.data() == at, what << ": not a view of the original characters");
}

// can't be dereferenced outside of its range
struct Checked
{
    using iterator_category = std::random_access_iterator_tag;
    using value_type = char;
    using difference_type = std::ptrdiff_t;
    using pointer = const char*;
    using reference = const char&;
    const char* p; const char* end;
    const char& operator*() const { REQM(p != end, "the end of a range was dereferenced"); return *p; }
    friend difference_type operator-(Checked a, Checked b) { return a.p - b.p; }
    friend bool operator==(Checked a, Checked b) { return a.p == b.p; }
    friend bool operator!=(Checked a, Checked b) { return a.p != b.p; }
};

void views(pbt::Source& s)
{
    std::string t = gen(s, 100, s.raw(4));
    size_t a = size_t(s.raw(t.size())), b = a + size_t(s.raw(t.size() - a));
    TR("text " << esc(t) << " from " << a << " to " << b);
    if (b > a) s.nontrivial();
    Exact et(t);
    std::vector<char> v(t.begin(), t.end());
    const std::vector<char> cvec(v);
    const std::string ct(t);
    const sv tv = et.view();
    const char* p = et.p.get();
    char* m = et.p.get();
    const size_t n = b - a;
    using D = std::ptrdiff_t;
    if (p)
    {
        one_view(p + a, p + b, p + a, n, "const char*");
        one_view(m + a, m + b, p + a, n, "char*");
        one_view(Checked{p + a, p + b}, Checked{p + b, p + b}, p + a, n, "checked iterator");
    }
    one_view(t.begin() + D(a), t.begin() + D(b), t.data() + a, n, "string::iterator");
    one_view(ct.begin() + D(a), ct.begin() + D(b), ct.data() + a, n, "string::const_iterator");
    one_view(v.begin() + D(a), v.begin() + D(b), v.data() + a, n, "vector::iterator");
    one_view(cvec.begin() + D(a), cvec.begin() + D(b), cvec.data() + a, n, "vector::const_iterator");
    one_view(tv.begin() + D(a), tv.begin() + D(b), tv.data() + a, n, "string_view::iterator");
    one_view(static_cast<const char*>(nullptr), static_cast<const char*>(nullptr), nullptr, 0, "null");
    one_view(static_cast<char*>(nullptr), static_cast<char*>(nullptr), nullptr, 0, "null");
    one_view(std::vector<char>().begin(), std::vector<char>::iterator(), nullptr, 0, "empty vector");
    REQ(itlib::make_string_view(t.begin() + D(a), t.begin() + D(b)) == sv(t).substr(a, n));
}

// ranges longer than 32 bits can tell
void huge_views(pbt::Source& s)
{
    char* b = reinterpret_cast<char*>(huge_base());
    const size_t n = huge_number(s, huge_bytes - 8), off = huge_number(s, huge_bytes - 8 - n);
    TR("view of " << n << " characters from " << off);
    const char* p = b + off;
    one_view(p, p + n, p, n, "const char*");
    one_view(b + off, b + off + n, p, n, "char*");
    one_view(Checked{p, p + n}, Checked{p + n, p + n}, p, n, "checked iterator");
    const sv v(b, huge_bytes);
    one_view(v.begin() + ptrdiff_t(off), v.begin() + ptrdiff_t(off + n), p, n, "string_view::iterator");
    // nothing can start or end with something longer, and that can be told without a look at it
    const sv shorter(p, n), longer(b, n + 1 + s.small(5));
    REQM(!itlib::starts_with(shorter, longer) && !itlib::ends_with(shorter, longer), "a text of " << n << " starts or ends with " << longer.size() << " characters");
    REQ(itlib::remove_prefix_all(shorter, longer).data() == p && itlib::remove_prefix_all(shorter, longer).size() == n);
    REQ(itlib::remove_suffix_all(shorter, longer).data() == p && itlib::remove_suffix_all(shorter, longer).size() == n);
    REQ(itlib::remove_suffix_all(shorter, sv()).size() == n && itlib::remove_prefix_all(shorter, sv()).size() == n);
    REQ(itlib::starts_with(shorter, sv()) && itlib::ends_with(shorter, sv(p, 0)));
    if (n >> 31) s.nontrivial();
}
// texts beyond 4 GB
void huge_texts(pbt::Source& s)
{
    char* b = reinterpret_cast<char*>(alias_base());
    if (!b) return;
    // the memory repeats, and no shorter repetition is in it
    std::memset(b, 'a', alias_period);
    b[s.range<size_t>(0, alias_period - 1)] = 'b';
    const size_t n = (size_t(1) << (31 + s.raw(1))) + s.small(3000) - (s.coin() ? 1500 : 0), off = s.small(alias_period - 1);
    const sv t(b + off, n);
    const bool at_end = s.coin();
    // far more of the pattern than fits 32 bits, in few steps
    const size_t len = alias_period * (s.coin() ? 1 : 1 + s.raw(400)), times = n / len, rest = n % len;
    const sv p = at_end ? t.substr(n - len) : t.substr(0, len);
    TR("text of " << n << " from " << off << ", " << times << " times a pattern of " << len << (at_end ? " at the end" : ""));
    const sv r = at_end ? itlib::remove_suffix_all(t, p) : itlib::remove_prefix_all(t, p);
    REQM(r.size() == rest, "left " << r.size() << " characters of " << n << ", expected " << rest);
    REQM(r.data() == (at_end ? t.data() : t.data() + times * len), "not the right part of the text");
    s.nontrivial();
    if (s.coin())
    {
        const sv most(b + off + alias_period, n - 1); // the same but for the last character
        TR("a pattern of " << most.size());
        REQM(itlib::starts_with(t, most), "starts_with a pattern of " << most.size());
        REQM(itlib::ends_with(t, most) == false || t.substr(1) == most, "ends_with a pattern of " << most.size());
    }
}

PBT_REG(huge_ranges, huge_views, 20000);
#if !VT_NO_HUGE
PBT_REG(huge_text, huge_texts, 2);
#endif
PBT_REG(stripping, patterns, 120000);
PBT_REG(ranges, views, 40000);
}

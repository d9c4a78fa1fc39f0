// rstream and redirect_rstream against the stream read directly (P17)
#define ITLIB_RSTREAM_OVERLOAD_RSHIFT 1
#include "common.hpp"
#include <itlib/rstream.hpp>
#include <itlib/mem_streambuf.hpp>
#include "alias.hpp"
#include <sstream>

using namespace vt;

namespace
{
template <typename C> std::basic_string<C> gen_text(pbt::Source& s)
{
    size_t n = s.small(120);
    std::basic_string<C> r;
    for (size_t i = 0; i < n; ++i) { unsigned c = unsigned(s.raw(12)); r += c < 6 ? C('0' + c) : c < 9 ? C(' ') : C('a' + c); }
    return r;
}

template <typename Stream>
struct R
{
    using C = typename Stream::char_type;
    using Str = std::basic_string<C>;
    using RS = itlib::basic_rstream<Stream>;
    using RR = itlib::basic_redirect_rstream<Stream>;
    using Ref = std::basic_istringstream<C>;

    // one read through both, results and states must agree
    static void one(pbt::Source& s, RS& a, Ref& b, bool blocks_only = false)
    {
        switch (blocks_only ? 0 : s.raw(5))
        {
        case 0: case 1:
        {
            size_t n = s.small(60);
            Str x(n, C('#')), y(n, C('#'));
            TR("  read " << n);
            RS& r = a.read(&x[0], std::streamsize(n));
            b.read(&y[0], std::streamsize(n));
            REQ(&r == &a);
            REQM(x == y, "read other data than from the stream itself");
            break;
        }
        case 2: { int x = -1, y = -1; TR("  >> int"); RS& r = (a >> x); b >> y; REQ(&r == &a); REQM(x == y, x << " vs " << y); break; }
        case 3: { Str x, y; TR("  >> string"); a >> x; b >> y; REQ(x == y); break; }
        case 4: { C x = C('#'), y = C('#'); TR("  >> char"); a >> x; b >> y; REQ(x == y); break; }
        default: { double x = 0, y = 0; TR("  >> double"); a >> x; b >> y; REQ(x == y); break; }
        }
        const RS& c = a;
        REQM(c.fail() == b.fail() && c.good() == b.good() && c.eof() == b.eof() && bool(c) == !b.fail(),
             "state: fail " << c.fail() << " good " << c.good() << " eof " << c.eof() << ", expected " << b.fail() << " " << b.good() << " " << b.eof());
    }

    // a redirect within a redirect within ...; the wrapped stream and position must survive
    static void redirect(pbt::Source& s, Stream& in, const Str& text, int depth)
    {
        auto st = in.rdstate();
        in.clear();
        auto before = in.tellg();
        in.clear(st);
        size_t pos = s.chance(1, 8) ? text.size() + 1 + s.small(5) : s.range<size_t>(0, text.size());
        TR("redirect to " << pos << " of " << text.size() << " at depth " << depth << ", stream at " << std::streamoff(before) << " state " << int(st));
        bool thrown = false;
        try
        {
            RR r(in, std::streampos(std::streamoff(pos)));
            Ref ref(text);
            ref.seekg(std::streamoff(pos));
            REQ(r.fail() == ref.fail());
            size_t n = s.small(6);
            for (size_t i = 0; i < n; ++i)
            {
                one(s, r, ref);
                if (depth < 3 && s.chance(1, 4)) { redirect(s, in, text, depth + 1); s.label("nested"); }
            }
            if (ref.fail()) s.label("failed inside a redirect");
            if (s.chance(1, 6)) { s.label("left by exception"); throw 7; }
        }
        catch (int) { thrown = true; }
        (void)thrown;
        auto now = in.rdstate();
        REQM(now == st, "stream state after the redirect is " << int(now) << ", it was " << int(st));
        in.clear();
        auto after = in.tellg();
        REQM(after == before, "position after the redirect is " << std::streamoff(after) << ", it was " << std::streamoff(before));
        in.clear(st);
        s.nontrivial();
    }

    static void body(pbt::Source& s, Stream& in, const Str& text)
    {
        Ref ref(text);
        TR("text of " << text.size());
        size_t n = s.small(20);
        for (size_t i = 0; i < n; ++i)
        {
            switch (s.raw(3))
            {
            case 0: case 1: { RS r(in); one(s, r, ref); if (s.coin()) one(s, r, ref); break; }
            case 2: redirect(s, in, text, 0); break;
            default: if (s.coin()) { TR("clear"); in.clear(); ref.clear(); } break;
            }
            REQ(in.rdstate() == ref.rdstate());
        }
        in.clear(); ref.clear();
        REQM(in.tellg() == ref.tellg(), "final position");
    }
};

void sstr(pbt::Source& s) { auto t = gen_text<char>(s); std::istringstream in(t); R<std::istringstream>::body(s, in, t); }
void istr(pbt::Source& s) { auto t = gen_text<char>(s); std::stringstream in(t); R<std::istream>::body(s, in, t); }
void wstr(pbt::Source& s) { auto t = gen_text<wchar_t>(s); std::wistringstream in(t); R<std::wistream>::body(s, in, t); }
void memb(pbt::Source& s) { auto t = gen_text<char>(s); itlib::mem_istreambuf<char> b(t.data(), t.size()); std::istream in(&b); R<std::istream>::body(s, in, t); }

// long texts, blocks of any length
template <typename C> void large(pbt::Source& s)
{
    using Str = std::basic_string<C>;
    using IS = std::basic_istream<C>;
    const size_t n = s.chance(1, 6) ? (size_t(1) << (10 + s.raw(12))) + s.small(40) - 20 : s.range<size_t>(0, 300000);
    Str t(n, C('a'));
    uint32_t x = uint32_t(s.raw(1000)) * 2654435761u + 1;
    for (auto& c : t) { x = x * 1664525u + 1013904223u; c = C('a' + (x >> 24) % 26); }
    TR("text of " << n);
    std::basic_istringstream<C> in(t), ref(t);
    auto len = [&]() -> size_t { return s.chance(1, 8) ? n + s.small(20) : s.coin() ? s.range<size_t>(0, n) : (size_t(1) << s.raw(20)) % (n + 2); };
    auto rd = [&](itlib::basic_rstream<IS>& a, IS& b) {
        const size_t k = len();
        Str u(k, C('#')), v(k, C('#'));
        TR("  read " << k);
        a.read(&u[0], std::streamsize(k));
        b.read(&v[0], std::streamsize(k));
        REQM(u == v, "a block of " << k << " read through the rstream differs");
        REQM(a.fail() == b.fail() && a.good() == b.good() && a.eof() == b.eof(), "state after a block of " << k);
        if (k > 1000) s.nontrivial();
    };
    const size_t ops = 1 + s.small(8);
    for (size_t i = 0; i < ops; ++i)
    {
        if (s.coin()) { itlib::basic_rstream<IS> a(in); rd(a, ref); }
        else
        {
            const auto at = std::streamoff(s.range<size_t>(0, n));
            TR("redirect to " << at);
            const auto st = in.rdstate();
            {
                itlib::basic_redirect_rstream<IS> a(in, std::streampos(at));
                std::basic_istringstream<C> q(t);
                q.seekg(at);
                rd(a, q);
                if (s.coin()) rd(a, q);
            }
            REQM(in.rdstate() == st, "state after a redirect");
        }
        REQ(in.rdstate() == ref.rdstate());
        if (s.coin()) { in.clear(); ref.clear(); }
        if (in.good()) REQM(in.tellg() == ref.tellg(), "position " << std::streamoff(in.tellg()) << ", expected " << std::streamoff(ref.tellg()));
    }
}
// beyond 4 GB
template <bool everything> void huge(pbt::Source& s)
{
    unsigned char* base = alias_base();
    if (!base) return;
    const size_t n = (size_t(1) << 32) + size_t(s.raw(3)) * (size_t(1) << 30) + s.small(5000);
    for (size_t i = 0; i < 5000; ++i) base[i] = (unsigned char)('a' + s.raw(20)), base[n % alias_period + i] = (unsigned char)('A' + s.raw(20));
    itlib::mem_istreambuf<char> buf(reinterpret_cast<const char*>(base), n);
    std::istream in(&buf);
    itlib::rstream outer(in);
    char c[50];
    outer.read(c, 50);
    REQ(!std::memcmp(c, base, 50));
    const size_t ops = 1 + s.small(6);
    for (size_t i = 0; i < ops; ++i)
    {
        size_t at = s.coin() ? n - s.small(3000) : (size_t(1) << (31 + s.raw(1))) + s.small(200) - 100;
        if (at > n) at = n - (at - n) % 100;
        TR("redirect to " << at << " of " << n);
        {
            itlib::redirect_rstream r(in, std::streampos(std::streamoff(at)));
            const size_t k = s.chance(1, 3) ? size_t(1) << 33 : 40; // more than there is
            char d[50] = {};
            if (n - at >= 40) { r.read(d, 40); REQM(r.good() && !std::memcmp(d, base + at, 40), "data beyond 4 GB"); }
            else
            {
                std::vector<char> e(5000);
                r.read(e.data(), std::streamsize(k < 5000 ? 5000 : k));
                REQM(r.fail() && r.eof() && size_t(in.gcount()) == n - at, "the end beyond 4 GB");
                REQ(!std::memcmp(e.data(), base + at, n - at));
            }
            if (s.coin())
            {
                itlib::redirect_rstream q(in, std::streampos(5));
                q.read(d, 3);
                REQ(q.good() && !std::memcmp(d, base + 5, 3));
            }
        }
        REQM(in.good() && in.tellg() == std::streampos(50 + std::streamoff(i) * 10), "position after a redirect beyond 4 GB");
        outer.read(c, 10);
        REQ(!std::memcmp(c, base + 50 + i * 10, 10));
        s.nontrivial();
    }
    if (everything)
    {
        in.seekg(0);
        TR("read everything");
        outer.read(reinterpret_cast<char*>(base + alias_bytes / 2), std::streamsize(n));
        REQM(outer.good() && size_t(in.gcount()) == n && in.tellg() == std::streampos(std::streamoff(n)), "a block of " << n << " characters");
    }
}

static_assert(std::is_same<itlib::rstream, itlib::basic_rstream<std::istream>>::value, "alias");
static_assert(std::is_same<itlib::redirect_rstream, itlib::basic_redirect_rstream<std::istream>>::value, "alias");

PBT_REG(istringstream, sstr, 40000);
PBT_REG(istream, istr, 40000);
PBT_REG(wide, wstr, 40000);
PBT_REG(membuf, memb, 40000);
PBT_REG(large_texts, large<char>, 200);
PBT_REG(large_wide, large<wchar_t>, 80);
PBT_REG(huge_buffer, huge<false>, 500);
#if !VT_NO_HUGE
PBT_REG(huge_read, huge<true>, 1);
#endif
}

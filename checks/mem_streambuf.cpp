// mem_ostreambuf (P15) and mem_istreambuf (P16, -DVT_IN=1)
#include "common.hpp"
#include "alias.hpp"
#include <itlib/mem_streambuf.hpp>
#include <itlib/small_vector.hpp>
#include <itlib/static_vector.hpp>
#include <itlib/pod_vector.hpp>
#include <istream>
#include <limits>
#include <ostream>
#include <sstream>

using namespace vt;

namespace
{
template <typename C> std::basic_string<C> gen_text(pbt::Source& s, size_t max)
{
    size_t n = s.small(max);
    std::basic_string<C> r;
    for (size_t i = 0; i < n; ++i)
    {
        unsigned c = unsigned(s.raw(30));
        r += c < 10 ? C('a' + c) : c < 16 ? C('0' + c - 10) : c == 16 ? C('\n') : c == 17 ? C(' ') : c == 18 ? C(0) : c == 19 ? C(0xff) : c == 20 ? C('-') : C('A' + c - 21);
    }
    return r;
}
template <typename C> std::string printable(const std::basic_string<C>& t)
{
    std::string r = "\"";
    for (C c : t) { unsigned u = unsigned(typename std::make_unsigned<typename std::conditional<std::is_same<C, wchar_t>::value, int, C>::type>::type(c)); if (u >= 32 && u < 127) r += char(u); else r += "\\" + std::to_string(u); }
    return r + "\"";
}

#if !VT_IN

template <typename Cont> struct Cap { static constexpr size_t value = size_t(-1); };
template <typename T, size_t N> struct Cap<itlib::static_vector<T, N>> { static constexpr size_t value = N; };

template <typename Cont>
struct Out
{
    using C = typename Cont::value_type;
    using Str = std::basic_string<C>;
    using Os = std::basic_ostream<C>;
    using Buf = itlib::mem_ostreambuf<Cont>;

    static void run(pbt::Source& s)
    {
        constexpr size_t cap = Cap<Cont>::value;
        size_t reserve = s.chance(1, 3) ? s.small(cap < 100 ? cap : 100) : 0;
        TR("mem_ostreambuf(" << reserve << ")");
        Buf buf(reserve);
        REQM(size_t(buf.peek_container().capacity()) >= reserve, "less is reserved");
        Os os(&buf);
        Str data;          // everything written
        size_t pos = 0;    // put position
        size_t seeks = 0;
        // what a write of t at pos does
        auto fits = [&](const Str& t) { return cap == size_t(-1) || pos + t.size() <= cap; };
        auto put = [&](const Str& t) { if (pos + t.size() > data.size()) data.resize(pos + t.size()); std::copy(t.begin(), t.end(), data.begin() + ptrdiff_t(pos)); pos += t.size(); };
        size_t nops = s.small(40);
        const unsigned base[] = {6, 6, 6, 5, 3, 3, 3, 2, 3, 1, 2, 1};
        pbt::Swarm<12> sw(s, base);
        for (size_t k = 0; k < nops; ++k)
        {
            size_t op = sw.next(s);
            switch (op)
            {
            case 0: // single characters
            {
                Str t = gen_text<C>(s, 12);
                TR("put " << printable(t));
                for (C c : t)
                {
                    Str one(1, c);
                    if (s.coin()) os.put(c);
                    else os << c;
                    if (fits(one)) { put(one); REQM(os.good(), "put failed"); }
                    else { REQM(!os.good(), "put beyond the capacity of the container did not fail"); os.clear(); s.label("full"); s.nontrivial(); }
                }
                break;
            }
            case 1: // blocks
            {
                Str t = gen_text<C>(s, 300);
                TR("write " << t.size() << " " << printable(t));
                os.write(t.data(), std::streamsize(t.size()));
                if (fits(t)) { put(t); REQM(os.good(), "write failed"); }
                else { REQM(!os.good(), "write beyond the capacity of the container did not fail"); os.clear(); s.label("full"); s.nontrivial(); }
                break;
            }
            case 2: // straight to the buffer
            {
                Str t = gen_text<C>(s, 60);
                TR("sputn " << t.size() << " " << printable(t));
                if (!fits(t)) break;
                std::streamsize r = buf.sputn(t.data(), std::streamsize(t.size()));
                REQ(r == std::streamsize(t.size()));
                put(t);
                C c = C('0' + s.raw(9));
                if (fits(Str(1, c))) { auto x = buf.sputc(c); REQ(x == std::char_traits<C>::to_int_type(c)); put(Str(1, c)); }
                break;
            }
            case 3: // formatted
            {
                std::basic_ostringstream<C> ref;
                int v = s.range<int>(-100000, 100000);
                unsigned how = unsigned(s.raw(3));
                if (how == 0) ref << v;
                else if (how == 1) ref << double(v) / 8;
                else if (how == 2) { ref.width(12); ref.fill(C('.')); ref << v; }
                else ref << C('x') << v << "lit" << std::endl;
                Str t = ref.str();
                TR("format " << printable(t));
                if (!fits(t)) break;
                if (how == 0) os << v;
                else if (how == 1) os << double(v) / 8;
                else if (how == 2) { os.width(12); os.fill(C('.')); os << v; os.fill(C(' ')); }
                else os << C('x') << v << "lit" << std::endl;
                REQ(os.good());
                put(t);
                break;
            }
            case 4: // seek to a position
            {
                size_t p = s.chance(1, 6) ? data.size() + 1 + s.small(100) : s.range<size_t>(0, data.size());
                TR("seekp(" << p << ") of " << data.size());
                os.seekp(typename Os::pos_type(std::streamoff(p)));
                seek_result(os, p <= data.size());
                if (p <= data.size()) pos = p;
                ++seeks; s.nontrivial();
                break;
            }
            case 5: case 6: // seek relatively
            {
                auto way = s.raw(2);
                std::streamoff from = way == 0 ? std::streamoff(pos) : way == 1 ? 0 : std::streamoff(data.size());
                std::streamoff target = s.chance(1, 6) ? (s.coin() ? -1 - std::streamoff(s.small(50)) : std::streamoff(data.size() + 1 + s.small(100))) : s.range<std::streamoff>(0, std::streamoff(data.size()));
                TR("seekp(" << (target - from) << ", " << (way == 0 ? "cur" : way == 1 ? "beg" : "end") << ") to " << target << " of " << data.size());
                os.seekp(target - from, way == 0 ? std::ios::cur : way == 1 ? std::ios::beg : std::ios::end);
                bool ok = target >= 0 && target <= std::streamoff(data.size());
                seek_result(os, ok);
                if (ok) pos = size_t(target);
                ++seeks; s.nontrivial();
                break;
            }
            case 7: os.seekp(0, std::ios::end); TR("seekp to the end"); REQ(os.good()); pos = data.size(); break;
            case 8: // take
            {
                TR("get_container, " << data.size() << " expected");
                Cont c = buf.get_container();
                compare(c, c.size(), data, "container taken");
                data.clear(); pos = 0;
                s.nontrivial();
                break;
            }
            case 9: TR("clear"); buf.clear(); data.clear(); pos = 0; s.nontrivial(); break;
            case 10: os.flush(); REQ(os.good()); break;
            default: { Str t = gen_text<C>(s, 1000); if (fits(t)) { TR("write " << t.size()); os.write(t.data(), std::streamsize(t.size())); put(t); REQ(os.good()); s.nontrivial(); } break; }
            }
            const Buf& cb = buf;
            REQM(cb.poff() == pos, "poff() is " << cb.poff() << ", expected " << pos);
            // asking is seeking for the buffer
            if (s.chance(1, 4)) REQM(std::streamoff(os.tellp()) == std::streamoff(pos), "tellp() is " << std::streamoff(os.tellp()) << ", expected " << pos);
            auto& pc = cb.peek_container();
            REQM(pc.size() >= data.size(), "peek_container has " << pc.size() << ", written are " << data.size());
            compare(pc, data.size(), data, "peeked container");
        }
        Cont c = buf.get_container();
        compare(c, c.size(), data, "container taken at the end");
        REQ(buf.poff() == 0);
        Cont e = buf.get_container();
        REQM(e.size() == 0, "a taken container was given again");
    }

    static void seek_result(Os& os, bool ok)
    {
        if (ok) REQM(!os.fail(), "seek within what is written failed");
        else { REQM(os.fail(), "seek outside of what is written succeeded"); os.clear(); }
    }

    template <typename K>
    static void compare(const K& c, size_t n, const Str& data, const char* what)
    {
        REQM(n == data.size(), what << " has " << n << " characters, " << data.size() << " were written");
        for (size_t i = 0; i < n; ++i) REQM(c.data()[i] == data[i], what << ": character " << i << " of " << n << " is " << int(c.data()[i]) << ", written was " << int(data[i]));
    }
};

// more data than 32 bit sizes can tell

// all of these show the same memory
template <typename C>
struct AliasBuf
{
    using value_type = C;
    static constexpr size_t limit = alias_bytes / 2 / sizeof(C); // what is written comes from the other half
    size_t sz = 0, cap = 0;
    C* data() { return reinterpret_cast<C*>(alias_base()); }
    const C* data() const { return reinterpret_cast<const C*>(alias_base()); }
    size_t size() const { return sz; }
    size_t capacity() const { return cap; }
    void reserve(size_t n)
    {
        if (n > limit) FAIL("asked for " << n << " elements");
        if (n > cap) cap = n;
    }
    void resize(size_t n)
    {
        if (n > cap) reserve(std::max(n, std::min(cap + cap / 4, limit)));
        sz = n;
    }
    void clear() { sz = 0; }
    void swap(AliasBuf& o) { std::swap(sz, o.sz); std::swap(cap, o.cap); }
};

template <typename C>
void out_huge(pbt::Source& s, bool fill)
{
    if (!alias_base()) return;
    using Tr = std::char_traits<C>;
    using Str = std::basic_string<C>;
    constexpr size_t most = AliasBuf<C>::limit - 5000;
    const C* mem = reinterpret_cast<const C*>(alias_base());
    size_t reserve = !fill || s.coin() ? (size_t(1) << (31 + s.raw(1))) / sizeof(C) + s.small(2000) - 1000 : 0;
    TR("mem_ostreambuf(" << reserve << ")");
    itlib::mem_ostreambuf<AliasBuf<C>> buf(reserve);
    REQM(buf.peek_container().cap >= reserve, "room for only " << buf.peek_container().cap << " is reserved");
    std::basic_ostream<C> os(&buf);
    size_t pos = 0, written = 0;
    auto check = [&] {
        REQM(os.good(), "stream state " << int(os.rdstate()));
        REQM(buf.poff() == pos, "poff() is " << buf.poff() << ", not " << pos);
        if (s.chance(1, 4)) REQM(std::streamoff(os.tellp()) == std::streamoff(pos), "tellp() is " << std::streamoff(os.tellp()) << ", not " << pos);
        REQM(buf.peek_container().size() >= written, "peek_container() has " << buf.peek_container().size() << " elements after " << written << " were written");
    };
    auto wrote = [&](size_t k) { pos += k; if (pos > written) written = pos; };
    auto put = [&](const Str& t) {
        os.write(t.data(), std::streamsize(t.size()));
        REQM(std::equal(t.begin(), t.end(), mem + pos), "the text is not where it was written");
        wrote(t.size());
    };
    put(gen_text<C>(s, 20));
    check();
    if (fill)
    {
        size_t n = (size_t(1) << (s.chance(1, 4) ? 31 : 32)) / sizeof(C) + s.small(3000) - 1000;
        if (n > most - 4000) n = most - 4000 - s.small(2000);
        TR("write " << n << " characters");
        os.write(mem + AliasBuf<C>::limit, std::streamsize(n));
        wrote(n);
        check();
    }
    size_t nops = fill ? 30 : s.small(20);
    for (size_t k = 0; k < nops && written < most - 100; ++k)
    {
        switch (s.raw(5))
        {
        case 0: case 1: { auto t = gen_text<C>(s, 40); TR("write " << t.size() << " at " << pos); put(t); s.nontrivial(); break; }
        case 2: { C c = C('a' + s.raw(20)); TR("put at " << pos); os.put(c); REQ(Tr::eq(mem[pos], c)); wrote(1); s.nontrivial(); break; }
        case 3: case 4:
        {
            std::streamoff t;
            switch (s.raw(3))
            {
            case 0: t = std::streamoff(written) - std::streamoff(s.small(100)); break;
            case 1: t = std::streamoff(s.small(100)); break;
            case 2: t = (std::streamoff(1) << (31 + s.raw(1))) + std::streamoff(s.small(100)) - 50; break;
            default: t = s.range<std::streamoff>(0, std::streamoff(written)); break;
            }
            auto way = s.raw(2);
            std::streamoff from = way == 0 ? std::streamoff(pos) : way == 1 ? 0 : std::streamoff(written);
            bool ok = t >= 0 && t <= std::streamoff(written);
            TR("seekp(" << t - from << ", " << (way == 0 ? "cur" : way == 1 ? "beg" : "end") << ") to " << t << " of " << written);
            if (way == 1 && s.coin()) os.seekp(typename std::basic_ostream<C>::pos_type(t));
            else os.seekp(t - from, way == 0 ? std::ios::cur : way == 1 ? std::ios::beg : std::ios::end);
            REQM(os.fail() == !ok, "seek " << (ok ? "failed" : "succeeded"));
            os.clear();
            if (ok) pos = size_t(t);
            s.nontrivial();
            break;
        }
        default: TR("flush"); os.flush(); break;
        }
        check();
    }
    auto c = buf.get_container();
    REQM(c.size() == written, "get_container() has " << c.size() << " elements after " << written << " were written");
    REQ(buf.poff() == 0 && os.tellp() == std::streampos(0));
}
template <typename C> void out_huge_fill(pbt::Source& s) { out_huge<C>(s, true); }
template <typename C> void out_huge_room(pbt::Source& s) { out_huge<C>(s, false); }

PBT_REG(vec, (Out<std::vector<char>>::run), 30000);
PBT_REG(str, (Out<std::string>::run), 30000);
PBT_REG(small0, (Out<itlib::small_vector<char, 16>>::run), 30000);
PBT_REG(small1, (Out<itlib::small_vector<char, 100, 50>>::run), 20000);
PBT_REG(stat, (Out<itlib::static_vector<char, 64>>::run), 20000);
PBT_REG(stat_big, (Out<itlib::static_vector<char, 4000>>::run), 10000);
PBT_REG(pod, (Out<itlib::pod_vector<char>>::run), 20000);
PBT_REG(wvec, (Out<std::vector<wchar_t>>::run), 20000);
PBT_REG(wstr, (Out<std::wstring>::run), 20000);
#if !VT_NO_HUGE
PBT_REG(huge, out_huge_fill<char>, 2);
#endif
#if !VT_NO_HUGE
PBT_REG(huge_wide, out_huge_fill<wchar_t>, 1);
#endif
PBT_REG(huge_room, out_huge_room<char>, 6000);
PBT_REG(huge_room_wide, out_huge_room<wchar_t>, 4000);

#else

template <typename C>
struct In
{
    using Str = std::basic_string<C>;
    using Is = std::basic_istream<C>;
    using Tr = std::char_traits<C>;

    static void same_state(Is& a, Is& r, const char* what)
    {
        REQM(a.rdstate() == r.rdstate(), what << ": stream state is " << int(a.rdstate()) << ", istringstream's is " << int(r.rdstate()));
    }

    static void run(pbt::Source& s)
    {
        size_t extra = s.small(5); // the buffer is in the middle of something larger half of the time
        Str text = gen_text<C>(s, 200);
        // exactly-sized copy, so that reads outside of it are visible
        size_t n = text.size();
        std::unique_ptr<C[]> d(new C[n]);
        std::copy(text.begin(), text.end(), d.get());
        TR("buffer " << printable(text));
        itlib::mem_istreambuf<C> buf(d.get(), n);
        if (s.chance(1, 4)) { itlib::mem_istreambuf<C>& b = buf; b.reset(d.get(), n); }
        std::basic_istringstream<C> ref(text);
        Is is(&buf);
        is.unsetf(std::ios::skipws); ref.unsetf(std::ios::skipws);
        if (extra & 1) { is.setf(std::ios::skipws); ref.setf(std::ios::skipws); }
        REQ(buf.size() == n && buf.goff() == 0);
        size_t nops = s.small(40);
        std::vector<C> b1, b2;
        for (size_t k = 0; k < nops; ++k)
        {
            switch (s.raw(15))
            {
            case 0: { TR("get"); auto x = is.get(), y = ref.get(); REQM(x == y, "get: " << int(x) << " vs " << int(y)); break; }
            case 1: { TR("peek"); auto x = is.peek(), y = ref.peek(); REQM(x == y, "peek: " << int(x) << " vs " << int(y)); break; }
            case 2: { TR("unget"); is.unget(); ref.unget(); s.nontrivial(); break; }
            case 3: { C c = s.coin() && buf.goff() ? text[buf.goff() - 1] : C('?'); TR("putback " << int(c)); is.putback(c); ref.putback(c); s.nontrivial(); break; }
            case 4: case 5: case 6: // block read
            {
                size_t left = n - buf.goff();
                // a buffer for everything, announced as larger than it has to be
                std::streamsize cnt;
                switch (s.raw(5))
                {
                case 0: cnt = std::streamsize(left); break;
                case 1: cnt = std::streamsize(left + 1 + s.small(100)); break;
                case 2: cnt = std::numeric_limits<std::streamsize>::max() - std::streamsize(s.small(10)); break;
                case 3: cnt = std::streamsize((uint64_t(1) << (55 + s.raw(7))) / sizeof(C) + s.small(200)); break;
                default: cnt = std::streamsize(s.range<size_t>(0, left)); break;
                }
                size_t room = size_t(cnt) < left ? size_t(cnt) : left;
                b1.assign(room, C('#')); b2.assign(room, C('#'));
                TR("read " << cnt << " of " << left);
                unsigned how = unsigned(s.raw(2));
                std::streamsize g1, g2;
                if (how == 0) { is.read(b1.data(), cnt); g1 = is.gcount(); ref.read(b2.data(), cnt); g2 = ref.gcount(); }
                else if (how == 1) { g1 = is.readsome(b1.data(), cnt); g2 = ref.readsome(b2.data(), cnt); }
                else { g1 = buf.sgetn(b1.data(), cnt); g2 = ref.rdbuf()->sgetn(b2.data(), cnt); }
                REQM(g1 == g2, "read " << g1 << " characters, istringstream read " << g2);
                REQM(b1 == b2, "read other characters");
                s.nontrivial();
                break;
            }
            case 7: // absolute seek
            {
                std::streamoff p = seek_target(s, n);
                TR("seekg(" << p << ") of " << n);
                is.seekg(typename Is::pos_type(p)); ref.seekg(typename Is::pos_type(p));
                s.nontrivial();
                break;
            }
            case 8: case 9: case 10: // relative seek
            {
                auto way = s.raw(2);
                std::streamoff from = way == 0 ? std::streamoff(buf.goff()) : way == 1 ? 0 : std::streamoff(n);
                std::streamoff t = seek_target(s, n);
                auto w = way == 0 ? std::ios::cur : way == 1 ? std::ios::beg : std::ios::end;
                TR("seekg(" << t - from << ", " << (way == 0 ? "cur" : way == 1 ? "beg" : "end") << ") to " << t << " of " << n);
                is.seekg(t - from, w); ref.seekg(t - from, w);
                s.nontrivial();
                break;
            }
            case 11: TR("clear"); is.clear(); ref.clear(); break;
            case 12: { Str x, y; C del = C("\n a0"[s.raw(3)]); TR("getline " << int(del)); std::getline(is, x, del); std::getline(ref, y, del); REQ(x == y); break; }
            case 13: { int x = -7, y = -7; TR(">> int"); is >> x; ref >> y; REQM(x == y, x << " vs " << y); break; }
            case 14: { Str x, y; TR(">> string"); is >> x; ref >> y; REQ(x == y); break; }
            default: { std::streamsize c = std::streamsize(s.small(40)); C del = C("\n a0"[s.raw(3)]); TR("ignore " << c); is.ignore(c, Tr::to_int_type(del)); ref.ignore(c, Tr::to_int_type(del)); REQ(is.gcount() == ref.gcount()); break; }
            }
            same_state(is, ref, "after the operation");
            if (is.fail() && s.coin()) { is.clear(); ref.clear(); }
            REQM(std::streamoff(ref.rdbuf()->pubseekoff(0, std::ios::cur, std::ios::in)) == std::streamoff(buf.goff()), "position is " << buf.goff() << ", istringstream's is " << std::streamoff(ref.rdbuf()->pubseekoff(0, std::ios::cur, std::ios::in)));
            if (!is.fail() && s.chance(1, 3)) { REQ(is.tellg() == ref.tellg()); same_state(is, ref, "after tellg"); }
            REQ(buf.size() == n);
            REQM(std::equal(text.begin(), text.end(), d.get()), "the buffer was modified");
        }
        if (extra > 2) { buf.reset(nullptr, 0); REQ(buf.size() == 0 && buf.goff() == 0 && buf.sgetc() == Tr::eof()); }
        if (extra == 4)
        {
            itlib::mem_istreambuf<C> e;
            REQ(e.size() == 0 && e.goff() == 0 && e.sgetc() == Tr::eof());
            buf.reset(d.get() + n / 2, n - n / 2);
            REQ(buf.goff() == 0 && buf.size() == n - n / 2);
            for (size_t i = n / 2; i < n; ++i) REQ(buf.sbumpc() == Tr::to_int_type(d[i]));
            REQ(buf.sbumpc() == Tr::eof());
        }
    }

    static std::streamoff seek_target(pbt::Source& s, size_t n)
    {
        switch (s.raw(7))
        {
        case 0: return -1 - std::streamoff(s.small(50));
        case 1: return std::streamoff(n + 1 + s.small(100));
        case 2: return std::streamoff(n);
        default: return s.range<std::streamoff>(0, std::streamoff(n));
        }
    }
};

// more data than 32 bit sizes can tell
template <typename C>
void in_huge(pbt::Source& s)
{
    if (!alias_base()) return;
    static bool filled = false;
    if (!filled)
    {
        filled = true;
        uint32_t x = 12345;
        for (size_t i = 0; i < alias_period; ++i) { x = x * 1664525u + 1013904223u; alias_base()[i] = (i & 3) < 2 ? (unsigned char)(x >> 24) : 0; }
    }
    using Tr = std::char_traits<C>;
    constexpr size_t most = alias_bytes / sizeof(C) - 4096;
    const size_t shift = s.small(100);
    const C* mem = reinterpret_cast<const C*>(alias_base()) + shift;
    const size_t bits = sizeof(C) == 1 ? 33 : 31; // the largest power of two which fits
    auto number = [&](size_t max) {
        size_t r;
        switch (s.raw(4))
        {
        case 0: r = s.small(40); break;
        case 1: r = max - s.small(40); break;
        case 2: r = (size_t(1) << (29 + s.raw(bits - 29))) + s.small(40) - 20; break;
        default: r = s.range<size_t>(0, max); break;
        }
        return r > max ? r > max + 100 ? max : max - r % 64 : r;
    };
    const size_t n = number(most);
    TR("a buffer of " << n);
    itlib::mem_istreambuf<C> buf(mem, n);
    std::basic_istream<C> is(&buf);
    size_t pos = 0;
    size_t nops = s.small(25);
    std::vector<C> b;
    for (size_t k = 0; k < nops; ++k)
    {
        const size_t left = n - pos;
        switch (s.raw(6))
        {
        case 0: { TR("get at " << pos); auto c = is.get(); if (left) { REQM(Tr::eq_int_type(c, Tr::to_int_type(mem[pos])), "a wrong character"); ++pos; } else REQ(Tr::eq_int_type(c, Tr::eof()) && is.eof()); break; }
        case 1: { TR("peek at " << pos); auto c = is.peek(); REQM(Tr::eq_int_type(c, left ? Tr::to_int_type(mem[pos]) : Tr::eof()), "a wrong character"); break; }
        case 2: if (pos) { TR("unget"); is.unget(); REQ(is.good()); --pos; } break;
        case 3: // read; the buffer is for everything which is left
        {
            size_t room = left > 300 ? s.small(300) : left;
            size_t cnt = room == left ? room + number(size_t(1) << (s.coin() ? 32 : 62)) : room;
            b.assign(room, C('#'));
            TR("read " << cnt << " of " << left);
            is.read(b.data(), std::streamsize(cnt));
            REQM(size_t(is.gcount()) == room && is.eof() == (cnt > left), "read " << is.gcount() << " of " << room);
            REQM(std::equal(b.begin(), b.end(), mem + pos), "read other characters");
            pos += room;
            s.nontrivial();
            break;
        }
        default:
        {
            std::streamoff t = s.chance(1, 8) ? (s.coin() ? -1 - std::streamoff(number(most)) : std::streamoff(n + 1 + number(most))) : std::streamoff(number(n));
            bool ok = t >= 0 && t <= std::streamoff(n);
            auto way = s.raw(2);
            std::streamoff from = way == 0 ? std::streamoff(pos) : way == 1 ? 0 : std::streamoff(n);
            TR("seekg(" << t - from << ", " << (way == 0 ? "cur" : way == 1 ? "beg" : "end") << ") to " << t << " of " << n);
            if (way == 1 && s.coin()) is.seekg(typename std::basic_istream<C>::pos_type(t));
            else is.seekg(t - from, way == 0 ? std::ios::cur : way == 1 ? std::ios::beg : std::ios::end);
            REQM(is.fail() == !ok, "seek " << (ok ? "failed" : "succeeded"));
            if (ok) pos = size_t(t);
            s.nontrivial();
            break;
        }
        }
        is.clear();
        REQM(buf.goff() == pos && buf.size() == n, "goff() is " << buf.goff() << " of " << buf.size() << ", not " << pos << " of " << n);
        if (s.chance(1, 3)) REQM(std::streamoff(is.tellg()) == std::streamoff(pos), "tellg() is " << std::streamoff(is.tellg()));
        REQM(std::streamsize(n - pos) <= 0 || buf.in_avail() == std::streamsize(n - pos), "in_avail() is " << buf.in_avail());
    }
}
// one read of gigabytes, over the buffer itself
void in_huge_read(pbt::Source& s)
{
    if (!alias_base()) return;
    const size_t n = std::min(alias_bytes / 2, (size_t(1) << (31 + s.raw(1))) + s.small(3000)), cnt = s.coin() ? n - s.small(1000) : n + s.small(1000);
    auto mem = reinterpret_cast<char*>(alias_base());
    itlib::mem_istreambuf<char> buf(mem, n);
    size_t skip = s.small(100), expect = std::min(cnt, n - skip);
    TR("read " << cnt << " of " << n << " after " << skip);
    buf.pubseekpos(std::streampos(std::streamoff(skip)));
    auto r = buf.sgetn(mem + n, std::streamsize(cnt));
    REQM(size_t(r) == expect, "read " << r);
    REQM(buf.goff() == skip + expect, "goff() is " << buf.goff());
    s.nontrivial();
}

PBT_REG(in_char, In<char>::run, 80000);
PBT_REG(in_wide, In<wchar_t>::run, 80000);
PBT_REG(huge, in_huge<char>, 8000);
PBT_REG(huge_wide, in_huge<wchar_t>, 5000);
#if !VT_NO_HUGE
PBT_REG(huge_read, in_huge_read, 3);
#endif

#endif
}

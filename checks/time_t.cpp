// time_t and strftime (P18)
#include "common.hpp"
#include <itlib/time_t.hpp>
#include <climits>
#include <ctime>

using namespace vt;
using T = itlib::time_t;

namespace
{
int64_t gen_sec(pbt::Source& s, int64_t lim)
{
    int64_t v;
    switch (s.raw(6))
    {
    case 0: v = int64_t(s.small(200000)); break;
    case 1: v = int64_t(s.raw(4102444800ull)); break;                // until 2100
    case 2: v = int64_t(s.raw(uint64_t(lim))); break;
    case 3: v = (int64_t(1) << (28 + s.raw(8))) - 5 + int64_t(s.raw(10)); break;
    case 4: v = int64_t(86400) * int64_t(s.raw(40000)) - 2 + int64_t(s.raw(4)); break;
    default: v = int64_t(s.raw(uint64_t(1) << (1 + s.raw(54)))); break;
    }
    if (v > lim) v %= lim;
    return s.chance(1, 3) ? -v : v;
}

template <typename D>
void with_duration(pbt::Source& s, const char* unit, int64_t n, D d, int64_t secs, int64_t t0)
{
    TR("t = " << t0 << ", " << n << " " << unit << " = " << secs << " s");
    const T t = T::from_seconds(t0);
    REQM((t + d).seconds_since_epoch() == t0 + secs, "t + d is " << (t + d).seconds_since_epoch());
    REQM((t - d).seconds_since_epoch() == t0 - secs, "t - d is " << (t - d).seconds_since_epoch());
    T a = t;
    T& r = (a += d);
    REQM(&r == &a && a.seconds_since_epoch() == t0 + secs, "t += d gives " << a.seconds_since_epoch());
    T& q = (a -= d);
    REQM(&q == &a && a == t, "t += d, t -= d gives " << a.seconds_since_epoch());
    a -= d;
    REQ(a.seconds_since_epoch() == t0 - secs);
    REQ((t + d) - t == std::chrono::seconds(secs));
    REQM((t - (t + d)).count() == -secs, "difference");
    REQ(t.seconds_since_epoch() == t0);
    if (secs) s.nontrivial();
}

void arithmetic(pbt::Source& s)
{
    using namespace std::chrono;
    const int64_t lim = int64_t(1) << 56;
    int64_t t0 = gen_sec(s, lim), t1 = s.chance(1, 4) ? t0 + int64_t(s.raw(4)) - 2 : gen_sec(s, lim);
    const T a = T::from_seconds(t0), b(static_cast<std::time_t>(t1));
    REQ(a.seconds_since_epoch() == t0 && b.seconds_since_epoch() == t1);
    REQ(std::time_t(a) == std::time_t(t0));
    REQ((a == b) == (t0 == t1) && (a != b) == (t0 != t1) && (a < b) == (t0 < t1) && (a <= b) == (t0 <= t1) && (a > b) == (t0 > t1) && (a >= b) == (t0 >= t1));
    REQ((a - b).count() == t0 - t1);
    static_assert(std::is_same<decltype(a - b), T::duration_type>::value, "difference of times");
    T c(a);
    REQ(c == a);
    c = b;
    REQ(c == b);
    REQ(a + (b - a) == b && b - (b - a) == a);
    REQ(T() == T::from_seconds(0));

    int64_t n = gen_sec(s, int64_t(1) << 40);
    switch (s.raw(16))
    {
    case 0: with_duration(s, "s", n, seconds(n), n, t0); break;
    case 1: n %= 1 << 24; with_duration(s, "min", n, minutes(n), n * 60, t0); break;
    case 2: n %= 1 << 20; with_duration(s, "h", n, hours(n), n * 3600, t0); break;
    case 3: with_duration(s, "ms", n * 1000, milliseconds(n * 1000), n, t0); break;
    case 4: n %= int64_t(1) << 33; with_duration(s, "us", n * 1000000, microseconds(n * 1000000), n, t0); break;
    case 5: n %= int64_t(1) << 32; with_duration(s, "ns", n * 1000000000, nanoseconds(n * 1000000000), n, t0); break;
    case 6: with_duration(s, "days", n % 100000, duration<int, std::ratio<86400>>(int(n % 100000)), (n % 100000) * 86400, t0); break;
    case 7: n %= 30000; with_duration(s, "short s", n, duration<short>(short(n)), n, t0); break;
    case 8: n %= int64_t(1) << 31; with_duration(s, "double s", n, duration<double>(double(n)), n, t0); break;
    case 9: n %= int64_t(1) << 31; with_duration(s, "odd s (7/3 units)", n * 3, duration<int64_t, std::ratio<7, 3>>(n * 3), n * 7, t0); break;
    case 11: { n = int64_t(uint32_t(n)); with_duration(s, "unsigned s", n, duration<uint32_t>(uint32_t(n)), n, t0); break; }
    case 12: { n = int64_t(uint64_t(n) >> 2) & ((int64_t(1) << 56) - 1); with_duration(s, "unsigned long s", n, duration<uint64_t>(uint64_t(n)), n, t0); break; }
    case 13: { n &= 255; with_duration(s, "byte min", n, duration<uint8_t, std::ratio<60>>(uint8_t(n)), n * 60, t0); break; }
    case 14: { n = int64_t(int32_t(uint32_t(n))); if (s.chance(1, 8)) n = INT32_MIN; with_duration(s, "int h", n, duration<int32_t, std::ratio<3600>>(int32_t(n)), n * 3600, t0); break; }
    case 15: { n &= 0xffff; with_duration(s, "unsigned short weeks", n, duration<uint16_t, std::ratio<604800>>(uint16_t(n)), n * 604800, t0); break; }
    case 10: with_duration(s, "ms (truncated)", n, milliseconds(n), n / 1000, t0); break; // as chrono's conversion to seconds does
    default: n %= int64_t(1) << 31; with_duration(s, "float min", n % 100000, duration<float, std::ratio<60>>(float(n % 100000)), n % 100000 * 60, t0); break;
    }
}

bool same_tm(const std::tm& a, const std::tm& b)
{
    return a.tm_sec == b.tm_sec && a.tm_min == b.tm_min && a.tm_hour == b.tm_hour && a.tm_mday == b.tm_mday && a.tm_mon == b.tm_mon
        && a.tm_year == b.tm_year && a.tm_wday == b.tm_wday && a.tm_yday == b.tm_yday && a.tm_isdst == b.tm_isdst && a.tm_gmtoff == b.tm_gmtoff;
}

// civil calendar from first principles (H. Hinnant's days_from_civil)
int64_t days_from_civil(int64_t y, unsigned m, unsigned d)
{
    y -= m <= 2;
    int64_t era = (y >= 0 ? y : y - 399) / 400;
    unsigned yoe = unsigned(y - era * 400), doy = (153 * (m > 2 ? m - 3 : m + 9) + 2) / 5 + d - 1, doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    return era * 146097 + int64_t(doe) - 719468;
}

const int64_t cal_lim = 60000000000000000ll; // tm_year is an int

void utc(pbt::Source& s)
{
    int64_t t0 = gen_sec(s, cal_lim);
    TR("t = " << t0);
    const T t = T::from_seconds(t0);
    std::tm m = t.gmtime();
    int64_t back = days_from_civil(int64_t(m.tm_year) + 1900, unsigned(m.tm_mon + 1), unsigned(m.tm_mday)) * 86400 + m.tm_hour * 3600 + m.tm_min * 60 + m.tm_sec;
    REQM(back == t0, "gmtime() denotes " << back);
    std::tm arg = m;
    REQM(T::from_gmtime(arg) == t, "from_gmtime(gmtime()) is " << T::from_gmtime(arg).seconds_since_epoch());
    REQM(same_tm(arg, m), "from_gmtime changed a normalized calendar time");
    // not normalized
    std::tm x = {};
    x.tm_year = s.range<int>(-500, 500); x.tm_mon = s.range<int>(-30, 40); x.tm_mday = s.range<int>(-400, 800);
    x.tm_hour = s.range<int>(-100, 100); x.tm_min = s.range<int>(-200, 200); x.tm_sec = s.range<int>(-5000, 5000);
    std::tm y = x;
    int64_t mon = x.tm_mon, yr = int64_t(x.tm_year) + 1900 + (mon >= 0 ? mon / 12 : (mon - 11) / 12);
    mon = ((mon % 12) + 12) % 12;
    int64_t want = (days_from_civil(yr, unsigned(mon + 1), 1) + x.tm_mday - 1) * 86400 + x.tm_hour * 3600 + x.tm_min * 60 + x.tm_sec;
    T n = T::from_gmtime(y);
    REQM(n.seconds_since_epoch() == want, "from_gmtime of a not normalized time is " << n.seconds_since_epoch() << ", expected " << want);
    REQM(same_tm(y, n.gmtime()), "the argument of from_gmtime was not normalized");
    s.nontrivial();
}

void local(pbt::Source& s)
{
    static const char* const zones[] = {"UTC0", "EET-2EEST,M3.5.0/3,M10.5.0/4", "EST5EDT,M3.2.0,M11.1.0", "XYZ-5:45", "NST3:30NDT,M3.2.0/0:01,M11.1.0/0:01", "AEST-10AEDT,M10.1.0,M4.1.0/3", "AAA12", "BBB-14"};
    const char* tz = zones[s.raw(7)];
    setenv("TZ", tz, 1);
    tzset();
    int64_t t0 = gen_sec(s, s.coin() ? 10000000000ll : cal_lim);
    if (s.chance(1, 3)) // near a change of the clock
    {
        int64_t y = 1971 + int64_t(s.raw(100));
        static const unsigned months[] = {3, 10, 11, 4};
        t0 = days_from_civil(y, months[s.raw(3)], 1 + unsigned(s.raw(29))) * 86400 + int64_t(s.raw(86400));
    }
    TR("t = " << t0 << " in " << tz);
    const T t = T::from_seconds(t0);
    std::tm m = t.localtime();
    std::time_t raw = std::time_t(t0);
    std::tm ref = {};
    localtime_r(&raw, &ref);
    REQM(same_tm(m, ref), "localtime() is not the C library's");
    int64_t wall = days_from_civil(int64_t(m.tm_year) + 1900, unsigned(m.tm_mon + 1), unsigned(m.tm_mday)) * 86400 + m.tm_hour * 3600 + m.tm_min * 60 + m.tm_sec;
    REQM(wall - m.tm_gmtoff == t0, "localtime() denotes " << wall - m.tm_gmtoff);
    std::tm arg = m;
    T back = T::from_localtime(arg);
    REQM(back == t, "from_localtime(localtime()) is " << back.seconds_since_epoch() << ", off by " << (back - t).count());
    REQM(same_tm(arg, m), "from_localtime changed a normalized calendar time");
    // not normalized, or with the clock to be found out
    std::tm x = m;
    x.tm_isdst = s.range<int>(-1, 1);
    if (s.coin() && std::abs(x.tm_year) < 1000000)
    {
        x.tm_year += s.range<int>(-50, 50); x.tm_mon += s.range<int>(-30, 30); x.tm_mday += s.range<int>(-400, 400);
        x.tm_hour += s.range<int>(-100, 100); x.tm_min += s.range<int>(-200, 200); x.tm_sec += s.range<int>(-5000, 5000);
    }
    std::tm y = x, z = x;
    const auto want = std::mktime(&y);
    T got = T::from_localtime(z);
    REQM(got.seconds_since_epoch() == want, "from_localtime with tm_isdst " << x.tm_isdst << " is " << got.seconds_since_epoch() << ", expected " << want);
    REQM(same_tm(y, z), "from_localtime did not normalize its argument");
    s.nontrivial();
}

void clock_now(pbt::Source& s)
{
    auto a = std::time(nullptr);
    T n = T::now();
    auto b = std::time(nullptr);
    REQM(n.seconds_since_epoch() >= a && n.seconds_since_epoch() <= b, "now()");
    (void)s;
}

void fmt(pbt::Source& s)
{
    std::tm m = T::from_seconds(gen_sec(s, s.coin() ? 10000000000ll : cal_lim)).gmtime();
    if (s.chance(1, 4)) { m.tm_zone = ""; s.label("empty zone name"); }
    static const char spec[] = "aAbBcCdDeFgGhHIjklmMnprRsStTuUVwWxXyYzZ%";
    std::string f;
    size_t parts = s.small(20);
    for (size_t i = 0; i < parts; ++i)
    {
        switch (s.raw(5))
        {
        case 0: f.append(1 + s.small(30), char('a' + s.raw(25))); break;
        case 1: { size_t target = (size_t(128) << s.raw(4)) - 4 + s.raw(8); if (f.size() < target) f.append(target - f.size(), '.'); break; }
        case 2: f += ' '; break;
        default: f += '%'; f += spec[s.raw(sizeof(spec) - 2)]; break;
        }
    }
    if (s.chance(1, 6)) { f = s.coin() ? "" : "%Z"; m.tm_zone = ""; }
    std::vector<char> big(100000);
    size_t n = std::strftime(big.data(), big.size(), f.c_str(), &m);
    TR("format \"" << f << "\": " << n << " characters expected");
    std::string r = itlib::strftime(f.c_str(), m);
    REQM(r == std::string(big.data(), n), "strftime gives " << r.size() << " characters \"" << r << "\", expected are " << n << " \"" << std::string(big.data(), n) << "\"");
    REQM(strlen(r.c_str()) == r.size(), "embedded zero");
    if (n == 0) s.label("empty result");
    if (n >= 127) s.label("longer than the initial buffer");
    if (n == 0 || n >= 127 || parts > 2) s.nontrivial();
}

PBT_REG(arith, arithmetic, 300000);
PBT_REG(gm, utc, 300000);
PBT_REG(loc, local, 200000, pbt::F_NOLEAK);
PBT_REG(now, clock_now, 20);
PBT_REG(format, fmt, 150000);
}

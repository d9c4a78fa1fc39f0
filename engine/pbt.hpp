// Small property-based-testing engine used by every check in /verif.
//
// A property is a *target*: a function that draws every random decision from a
// pbt::Source (a "choice sequence", as in Hypothesis).  The driver (driver.hpp)
// generates choice sequences from VERIF_SEED, runs targets in forked workers so
// that crashes, sanitizer reports and hangs are ordinary failures, and shrinks
// a failing choice sequence to a minimal one, which is the replay file.
// The same targets build as libFuzzer entry points (-DPBT_LIBFUZZER).
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ostream>
#include <sstream>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>

namespace pbt
{

inline uint64_t mix64(uint64_t x)
{
    x += 0x9e3779b97f4a7c15ull;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
}

// thrown-less failure: the driver installs a handler which never returns
[[noreturn]] void fail_impl(const std::string& msg);
[[noreturn]] void fail_at(const char* file, int line, const char* msg);
void label_impl(const char* lab);

// when set, draws and notes are mirrored there (shared memory), so that they survive a crash
struct Recorder
{
    uint64_t* choices; volatile uint64_t* count;
    char* trace; size_t trace_cap; size_t trace_len;
};
extern Recorder* g_recorder;

class Source
{
public:
    enum class Mode { random, replay, bytes };

    // random
    explicit Source(uint64_t seed) : m_mode(Mode::random), m_state(seed) { m_used.reserve(512); }
    // replay
    explicit Source(const std::vector<uint64_t>* choices) : m_mode(Mode::replay), m_in(choices) { m_used.reserve(512); }
    // bytes (coverage-guided)
    Source(const uint8_t* d, size_t n) : m_mode(Mode::bytes), m_data(d), m_size(n) { m_used.reserve(512); }

    // uniform integer in [0, max]; 0 is "simplest"
    uint64_t raw(uint64_t max)
    {
        uint64_t v = 0;
        if (m_used.size() < max_choices && max != 0)
        {
            switch (m_mode)
            {
            case Mode::random:
                m_state += 0x9e3779b97f4a7c15ull;
                v = mix64(m_state);
                if (max != ~uint64_t(0))
                {
                    v = uint64_t((static_cast<unsigned __int128>(v) * (static_cast<unsigned __int128>(max) + 1)) >> 64);
                }
                break;
            case Mode::replay:
                if (m_pos < m_in->size()) v = (*m_in)[m_pos++];
                if (v > max) v = max == ~uint64_t(0) ? v : v % (max + 1);
                break;
            case Mode::bytes:
            {
                int nb = max <= 0xff ? 1 : max <= 0xffff ? 2 : max <= 0xffffffffu ? 4 : 8;
                for (int i = 0; i < nb && m_pos < m_size; ++i) v |= uint64_t(m_data[m_pos++]) << (8 * i);
                if (v > max) v = v % (max + 1);
                break;
            }
            }
        }
        else if (m_mode == Mode::replay && m_pos < m_in->size() && max == 0)
        {
            ++m_pos; // keep positions aligned: every draw is one choice
        }
        if (m_used.size() < max_choices)
        {
            if (g_recorder) { g_recorder->choices[m_used.size()] = v; *g_recorder->count = m_used.size() + 1; }
            m_used.push_back(v);
        }
        m_hash = mix64(m_hash ^ (v + 0x51ed27f5ull));
        return v;
    }

    template <typename T>
    T range(T lo, T hi) // inclusive; simplest = lo
    {
        return T(lo + T(raw(uint64_t(hi) - uint64_t(lo))));
    }

    bool coin() { return raw(1) != 0; }

    // true with probability num/den, simplest = false
    bool chance(unsigned num, unsigned den) { return raw(den - 1) >= den - num; }

    // skewed towards small numbers but reaching max; simplest 0
    size_t small(size_t max)
    {
        const auto cls = raw(7);
        size_t m = cls < 3 ? 3 : cls < 6 ? 9 : max;
        if (m > max) m = max;
        return size_t(raw(m));
    }

    // index by weights
    template <size_t N>
    size_t weighted(const unsigned (&w)[N])
    {
        uint64_t sum = 0;
        for (auto x : w) sum += x;
        if (sum == 0) return 0;
        uint64_t r = raw(sum - 1);
        for (size_t i = 0; i < N; ++i)
        {
            if (r < w[i]) return i;
            r -= w[i];
        }
        return N - 1;
    }

    template <typename T>
    const T& pick(std::initializer_list<T> l) { return *(l.begin() + raw(l.size() - 1)); }

    bool out_of_data() const
    {
        return m_used.size() >= max_choices || (m_mode == Mode::bytes && m_pos >= m_size)
            || (m_mode == Mode::replay && m_pos >= m_in->size());
    }

    // classification
    void nontrivial() { m_nontrivial = true; }
    bool is_nontrivial() const { return m_nontrivial; }
    void label(const char* l) { label_impl(l); }

    // tracing
    bool tracing = false;
    void note(const std::string& s)
    {
        auto r = g_recorder;
        if (!r || r->trace_len + s.size() + 2 > r->trace_cap) return;
        std::memcpy(r->trace + r->trace_len, s.data(), s.size());
        r->trace_len += s.size();
        r->trace[r->trace_len++] = '\n';
        r->trace[r->trace_len] = 0;
    }

    uint64_t hash() const { return m_hash; }
    const std::vector<uint64_t>& used() const { return m_used; }

    static constexpr size_t max_choices = 60000;
private:
    Mode m_mode;
    uint64_t m_state = 0;
    const std::vector<uint64_t>* m_in = nullptr;
    const uint8_t* m_data = nullptr;
    size_t m_size = 0;
    size_t m_pos = 0;
    std::vector<uint64_t> m_used;
    uint64_t m_hash = 0x1234567;
    bool m_nontrivial = false;
};

// swarm-style operation weights: each history enables a random subset of operations
template <size_t N>
struct Swarm
{
    unsigned w[N];
    Swarm(Source& s, const unsigned (&base)[N])
    {
        const bool all = !s.chance(1, 2); // simplest: everything enabled
        unsigned sum = 0;
        for (size_t i = 0; i < N; ++i)
        {
            w[i] = base[i];
            if (!all)
            {
                auto k = s.raw(3);
                if (k == 1) w[i] = 0;
                else if (k == 2) w[i] = base[i] * 4;
            }
            sum += w[i];
        }
        if (sum == 0) for (size_t i = 0; i < N; ++i) w[i] = base[i];
    }
    size_t next(Source& s) { return s.weighted(w); }
};

using target_fn = void (*)(Source&);

struct Target
{
    const char* name;
    target_fn fn;
    uint64_t quick_cases;
    unsigned flags;
};

enum : unsigned
{
    F_NOLEAK = 1,   // no allocation balance check
    F_THREADS = 2,  // may block: wall-clock deadlock watchdog
};

std::vector<Target>& targets();

struct Reg
{
    Reg(const char* n, target_fn f, uint64_t q, unsigned fl = 0) { targets().push_back({n, f, q, fl}); }
};

} // namespace pbt

#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)

#define PBT_TARGET(name, quick, ...) \
    static void name(pbt::Source& s); \
    static const pbt::Reg PBT_CAT(reg_, name){#name, name, quick, ##__VA_ARGS__}; \
    static void name(pbt::Source& s)

// register an instantiation of a template function
#define PBT_REG(id, fn, quick, ...) static const pbt::Reg PBT_CAT(reg_, id)(#id, pbt::target_fn(fn), quick, ##__VA_ARGS__)

#define PBT_STR(expr) ([&]() -> std::string { std::ostringstream pbt_os; pbt_os << expr; return pbt_os.str(); }())

#define FAIL(expr) do { pbt::fail_impl(PBT_STR(__FILE__ << ":" << __LINE__ << ": " << expr)); } while (0)
#define REQ(cond) do { if (!(cond)) pbt::fail_at(__FILE__, __LINE__, "not satisfied: " #cond); } while (0)
#define REQM(cond, expr) do { if (!(cond)) FAIL("not satisfied: " #cond " -- " << expr); } while (0)
#define REQ_EQ(a, b) do { const auto& pbt_a = (a); const auto& pbt_b = (b); \
    if (!(pbt_a == pbt_b)) FAIL("expected equal: " #a " == " #b " (got " << pbt::show(pbt_a) << " vs " << pbt::show(pbt_b) << ")"); } while (0)
#define TR(expr) do { if (s.tracing) { s.note(PBT_STR(expr)); } } while (0)

namespace pbt
{
template <typename T, typename = decltype(std::declval<std::ostream&>() << std::declval<const T&>())>
std::string show_str(const T& t, int) { std::ostringstream o; o << t; return o.str(); }
template <typename T>
std::string show_str(const T&, long) { return "?"; }
template <typename T>
std::string show(const T& t) { return show_str(t, 0); }
inline std::string show(unsigned char c) { return std::to_string(int(c)); }
inline std::string show(signed char c) { return std::to_string(int(c)); }
inline std::string show(std::nullptr_t) { return "nullptr"; }
template <typename T>
std::string show(const std::vector<T>& v)
{
    std::string r = "{";
    for (size_t i = 0; i < v.size(); ++i) { if (i) r += ","; r += show(T(v[i])); }
    return r + "}";
}
}

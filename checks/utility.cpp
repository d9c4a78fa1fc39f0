// utility, type_traits, atomic counter, throw_ex (P29)
#include "lin.hpp"
#include <itlib/atomic.hpp>
#include <itlib/throw_ex.hpp>
#include <itlib/type_traits.hpp>
#include <itlib/utility.hpp>
#include <algorithm>
#include <array>
#include <cstddef>
#include <iomanip>
#include <limits>
#include <list>
#include <map>
#include <tuple>
#include <vector>

using namespace vt;

namespace
{
// ---------------------------------------------------------------------------------------- bit_cast
template <typename T> void fill(pbt::Source& s, T& t)
{
    unsigned char b[sizeof(T)];
    for (auto& x : b)
        switch (s.raw(3)) { case 0: x = 0; break; case 1: x = 0xff; break; default: x = (unsigned char)s.raw(255); }
    std::memcpy(static_cast<void*>(&t), b, sizeof b);
}
struct B4 { unsigned char c[4]; };
struct S8 { short a; char b; char c; int d; };
struct Big { unsigned char c[40]; };
struct BigD { double d[5]; };
enum class E64 : int64_t {};
enum class E32 : uint32_t { a, b };

template <typename Src, typename Dst> void cast(pbt::Source& s)
{
    Src a;
    fill(s, a);
    const Src& ca = a;
    unsigned char before[sizeof(Src)];
    std::memcpy(before, &a, sizeof a);
    auto d = itlib::bit_cast<Dst>(ca);
    static_assert(std::is_same<decltype(d), Dst>::value, "type");
    REQM(!std::memcmp(&d, before, sizeof d), "bit_cast changed the bits");
    auto back = itlib::bit_cast<Src>(d);
    REQM(!std::memcmp(&back, before, sizeof back), "bit_cast there and back changed the bits");
    REQM(!std::memcmp(&a, before, sizeof a), "bit_cast changed its argument");
    if (alignof(Src) < alignof(Dst)) // the source needs no more alignment than its type asks for
    {
        alignas(64) unsigned char room[sizeof(Src) + 64];
        Src* m = ::new (static_cast<void*>(room + alignof(Src))) Src(a);
        auto e = itlib::bit_cast<Dst>(*m);
        REQM(!std::memcmp(&e, before, sizeof e), "bit_cast changed the bits of a less aligned object");
    }
    // the result is a copy
    fill(s, a);
    REQM(!std::memcmp(&d, before, sizeof d), "the result of bit_cast refers to its argument");
}
void casts(pbt::Source& s)
{
    uint64_t k = s.raw(13);
    TR("types " << k);
    s.nontrivial();
    switch (k)
    {
    case 0: cast<float, uint32_t>(s); break;
    case 1: cast<double, uint64_t>(s); break;
    case 2: cast<int64_t, double>(s); break;
    case 3: cast<B4, float>(s); break;
    case 4: cast<S8, int64_t>(s); break;
    case 5: cast<Big, BigD>(s); break;
    case 6: cast<E64, double>(s); break;
    case 7: cast<E32, B4>(s); break;
    case 8: cast<void*, uintptr_t>(s); break;
    case 9: cast<std::array<short, 4>, S8>(s); break;
    case 10: cast<signed char, unsigned char>(s); break;
    case 11: cast<B4, B4>(s); break;
    case 12: cast<std::array<unsigned char, 16>, std::array<uint64_t, 2>>(s); break;
    default: cast<char32_t, int>(s); break;
    }
}

// ------------------------------------------------------------------------------- owner_from_member
struct Plain { char a; int b; short c[3]; double d; const int e; Plain() : a(), b(), c(), d(), e(3) {} };
struct Tr { Tracked x; std::string y; Tracked z; Tr() : x(1), y("y"), z(2) {} };
struct Vb { virtual ~Vb() = default; int pad = 0; int m = 1; };
struct Der : Tr, Vb { Plain inner; int last = 7; };
struct alignas(64) Al { char c; alignas(64) int m; };
struct Bytes { unsigned char big[100000]; char at; };

template <typename O, typename M, typename MO = O> void owner(pbt::Source& s, M MO::*ptr, const char* what)
{
    TR(what);
    // in an array, so that being off by one object is seen
    std::unique_ptr<O[]> arr(new O[3]());
    size_t i = size_t(s.raw(2));
    MO& o = arr[i];
    const MO* r = itlib::owner_from_member(o.*ptr, ptr);
    REQM(r == &o, what << ": owner of a member is off by " << (reinterpret_cast<const char*>(r) - reinterpret_cast<const char*>(&o)) << " bytes");
    const MO& co = o;
    REQM(itlib::owner_from_member(co.*ptr, ptr) == &o, what << ": owner of a const member");
    MO local;
    REQM(itlib::owner_from_member(local.*ptr, ptr) == &local, what << ": owner on the stack");
}
void owners(pbt::Source& s)
{
    s.nontrivial();
    switch (s.raw(12))
    {
    case 0: owner<Plain>(s, &Plain::a, "a"); break;
    case 1: owner<Plain>(s, &Plain::b, "b"); break;
    case 2: owner<Plain>(s, &Plain::c, "array"); break;
    case 3: owner<Plain>(s, &Plain::d, "d"); break;
    case 4: { Plain p[2]; size_t i = size_t(s.raw(1)); const int Plain::*m = &Plain::e; TR("const member"); auto r = itlib::owner_from_member<Plain, const int>(p[i].e, m); REQ(r == &p[i]); break; }
    case 5: owner<Tr>(s, &Tr::y, "string"); break;
    case 6: owner<Tr>(s, &Tr::z, "z"); break;
    case 7: owner<Vb>(s, &Vb::m, "of a polymorphic class"); break;
    case 8: owner<Der>(s, &Der::last, "of a derived class"); break;
    case 9: owner<Der>(s, &Der::inner, "object"); break;
    case 10: owner<Der, std::string, Tr>(s, &Der::y, "of a base class"); break;
    case 11: { std::unique_ptr<Bytes> b(new Bytes); TR("far away"); REQ(itlib::owner_from_member(b->at, &Bytes::at) == b.get()); break; }
    default:
    {
        Al a[2];
        size_t i = size_t(s.raw(1));
        TR("aligned");
        REQ(itlib::owner_from_member(a[i].m, &Al::m) == &a[i] && itlib::owner_from_member(a[i].c, &Al::c) == &a[i]);
    }
    }
    REQ(tstats().live == 0);
}

// -------------------------------------------------------------------------------------- force_move
struct Incomplete;
static_assert(std::is_same<decltype(itlib::make_nullptr<Incomplete>()), Incomplete*>::value, "type");
static_assert(std::is_same<decltype(itlib::force_move(std::declval<int&>())), int&&>::value, "type");
static_assert(std::is_same<decltype(itlib::force_move(std::declval<int>())), int&&>::value, "type");
static_assert(std::is_same<decltype(itlib::force_move(std::declval<volatile int&>())), volatile int&&>::value, "type");
static_assert(itlib::force_move(5) == 5, "in constant expressions");
void moves(pbt::Source& s)
{
    tstats() = TrackStats();
    {
        int x = int(s.raw(999));
        size_t n = s.small(20);
        TR("value " << x << ", " << n << " times");
        s.nontrivial();
        std::unique_ptr<Tracked> t(new Tracked(x));
        for (size_t i = 0; i < n; ++i)
        {
            Tracked& r = *t;
            Tracked&& rr = itlib::force_move(r);
            REQ(&rr == &r);
            REQ(r.get() == x);
            std::unique_ptr<Tracked> u(new Tracked(itlib::force_move(r)));
            REQM(u->get() == x && r.v == moved_value, "not moved");
            if (s.coin()) { Tracked v(0); v = itlib::force_move(*u); REQ(v.get() == x && u->v == moved_value); u.reset(new Tracked(itlib::force_move(itlib::force_move(v)))); REQ(v.v == moved_value); }
            t = itlib::force_move(u);
            REQ(!u);
        }
        REQM(tstats().copies == 0, tstats().copies << " copies were made");
        REQ(itlib::make_nullptr<Tracked>() == nullptr);
    }
    REQ(tstats().live == 0);
}

// -------------------------------------------------------------------------------------- type_traits
template <typename...> struct Tmpl {};
template <typename T> struct One {};
template <typename A, typename B = int> struct Two {};
using itlib::is_instantiation_of;
static_assert(is_instantiation_of<std::vector, std::vector<int>>::value, "");
static_assert(!is_instantiation_of<std::vector, std::list<int>>::value, "");
static_assert(!is_instantiation_of<std::vector, int>::value, "");
static_assert(is_instantiation_of<Tmpl, Tmpl<>>::value, "");
static_assert(is_instantiation_of<Tmpl, Tmpl<int, char, Tmpl<>>>::value, "");
static_assert(is_instantiation_of<One, One<One<int>>>::value, "");
static_assert(!is_instantiation_of<One, Two<int>>::value, "");
static_assert(is_instantiation_of<Two, Two<int>>::value, "");
static_assert(is_instantiation_of<std::map, std::map<int, int>>::value, "");
static_assert(std::is_same<itlib::type_identity<const int&>::type, const int&>::value, "");
static_assert(std::is_same<itlib::type_identity<void>::type, void>::value, "");
static_assert(std::is_same<itlib::type_identity<itlib::type_identity<int>>::type, itlib::type_identity<int>>::value, "");
#if __cplusplus >= 201703L
static_assert(itlib::is_instantiation_of_v<std::vector, std::vector<bool>> && !itlib::is_instantiation_of_v<std::vector, std::string>);
static_assert(std::is_same_v<itlib::type_identity_t<int[]>, int[]>);
static_assert(itlib::is_noop_convertible_v<int, unsigned> && !itlib::is_noop_convertible_v<int, float>);
#endif

// the conversions said to be no-ops keep all bytes of all values
enum Unscoped : int { ua, ub };
using Types = std::tuple<bool, char, signed char, unsigned char, short, unsigned short, int, unsigned, long, unsigned long, long long, unsigned long long, float, double, long double, char16_t, char32_t, wchar_t, int*, const char*, void*, E32, E64, Unscoped>;
constexpr size_t n_types = std::tuple_size<Types>::value;
// C-style casts are what "casting" does; those which aren't possible are no-ops for no one
template <typename A, typename B> auto can(int) -> decltype((B)std::declval<A>(), std::true_type());
template <typename A, typename B> std::false_type can(long);

template <typename A> void no_nan(pbt::Source&, A&, std::false_type) {}
template <typename A> void no_nan(pbt::Source& s, A& a, std::true_type) { a = A(double(int64_t(s.raw(~uint64_t(0)))) / 1000); }
template <typename A, typename B> void noop_bytes(pbt::Source&, std::false_type) {}
template <typename A, typename B> void noop_bytes(pbt::Source& s, std::true_type)
{
    A a;
    fill(s, a);
    if (std::is_same<A, bool>::value) { unsigned char c = (unsigned char)s.raw(1); std::memcpy(&a, &c, 1); }
    no_nan(s, a, std::is_floating_point<A>());
    B b = (B)a;
    size_t n = std::is_same<A, long double>::value ? 10 : sizeof a;
    REQM(!std::memcmp(&a, &b, n), "a conversion said to be a no-op changes the bytes");
}
struct Pair { size_t a, b; void (*f)(pbt::Source&); bool noop, same_class; };
template <typename A, typename B> Pair mk(size_t i, size_t j)
{
    constexpr bool v = itlib::is_noop_convertible<A, B>::value;
    static_assert(v == itlib::is_noop_convertible<const A, volatile B>::value, "qualifiers don't matter");
    static_assert(v == itlib::is_noop_convertible<volatile A, const volatile B>::value, "qualifiers don't matter");
    static_assert(v == itlib::is_noop_convertible<const volatile A, const B>::value, "qualifiers don't matter");
    static_assert(!itlib::is_noop_convertible<A, std::string>::value && !itlib::is_noop_convertible<S8, A>::value, "classes");
    struct R { static void f(pbt::Source& s) { noop_bytes<A, B>(s, std::integral_constant<bool, v && decltype(can<A, B>(0))::value>()); } };
    bool ints = std::is_integral<A>::value && std::is_integral<B>::value && !std::is_same<A, bool>::value && !std::is_same<B, bool>::value && sizeof(A) == sizeof(B);
    // a bool is a byte, but not every byte is a bool
    bool byte = std::is_same<A, bool>::value && std::is_integral<B>::value && sizeof(B) == sizeof(bool);
    return {i, j, R::f, v, ints || byte || std::is_same<A, B>::value};
}
template <size_t... I> struct Seq {};
template <size_t N, size_t... I> struct MkSeq : MkSeq<N - 1, N - 1, I...> {};
template <size_t... I> struct MkSeq<0, I...> { using type = Seq<I...>; };
template <size_t... I> std::vector<Pair> all_pairs(Seq<I...>)
{
    return {mk<typename std::tuple_element<I / n_types, Types>::type, typename std::tuple_element<I % n_types, Types>::type>(I / n_types, I % n_types)...};
}
void noops(pbt::Source& s)
{
    static const std::vector<Pair> pairs = all_pairs(MkSeq<n_types * n_types>::type());
    auto& p = pairs[size_t(s.raw(pairs.size() - 1))];
    TR("types " << p.a << " and " << p.b << (p.noop ? ", no-op" : ""));
    if (p.same_class) REQM(p.noop, "the types have the same representation and the conversion is not said to be a no-op");
    if (p.noop) { s.nontrivial(); p.f(s); }
}

// ------------------------------------------------------------------------------------------ counter
template <typename I> void counter(pbt::Source& s)
{
    using C = itlib::atomic_relaxed_counter<I>;
    using U = typename std::make_unsigned<I>::type;
    auto value = [&]() -> I {
        switch (s.raw(5))
        {
        case 0: return std::numeric_limits<I>::max();
        case 1: return std::numeric_limits<I>::min();
        case 2: return I(s.raw(3));
        case 3: return I(U(0) - U(s.raw(3)));
        case 4: return I(std::numeric_limits<I>::max() - I(s.raw(2)));
        default: return I(U(s.raw(~uint64_t(0))));
        }
    };
    auto str = [](I x) { return std::to_string(x); };
    I m[2] = {value(), value()};
    C c[2] = {C(m[0]), C(m[1])};
    TR("counters " << str(m[0]) << ", " << str(m[1]));
    size_t n = s.small(40);
    for (size_t i = 0; i < n; ++i)
    {
        size_t a = size_t(s.raw(1));
        I x = value(), got = 0, want = 0;
        uint64_t op = s.raw(11);
        static const char* const names[] = {"++c", "c++", "--c", "c--", "c += x", "c -= x", "c = x", "c.store(x)", "c = other", "copy", "load", "conversion"};
        TR(names[op] << ", c" << a << ", x = " << str(x));
        I& v = m[a];
        C& k = c[a];
        I old = v;
        switch (op)
        {
        case 0: got = ++k; v = I(U(U(v) + 1u)); want = v; break;
        case 1: got = k++; v = I(U(U(v) + 1u)); want = old; break;
        case 2: got = --k; v = I(U(U(v) - 1u)); want = v; break;
        case 3: got = k--; v = I(U(U(v) - 1u)); want = old; break;
        case 4: got = (k += x); v = I(U(U(v) + U(x))); want = v; break;
        case 5: got = (k -= x); v = I(U(U(v) - U(x))); want = v; break;
        case 6: got = (k = x); v = x; want = x; break;
        case 7: k.store(x); v = x; want = got; break;
        case 8: { C& r = (k = c[1 - a]); REQ(&r == &k); v = m[1 - a]; want = got; break; }
        case 9: { C d(k); ++d; got = d.load(); want = I(U(U(v) + 1u)); break; }
        case 10: { const C& ck = k; got = ck.load(); want = v; break; }
        default: { const C& ck = k; got = ck; want = v; break; }
        }
        if ((op < 6 && (old > 0) != (v > 0)) || op >= 8) s.nontrivial();
        REQM(got == want, names[op] << " gave " << str(got) << ", expected " << str(want));
        for (int j = 0; j < 2; ++j) REQM(c[j].load() == m[j], "counter " << j << " is " << str(c[j].load()) << ", expected " << str(m[j]) << " after " << names[op]);
    }
}

template <typename I> void counting(pbt::Source& s)
{
    using U = typename std::make_unsigned<I>::type;
    const int n = 2 + int(s.raw(6));
    const int rounds = 20 + int(s.raw(2000));
    const uint64_t seed = s.raw(1 << 20);
    const I start = s.coin() ? I(0) : I(std::numeric_limits<I>::max() - I(s.raw(100)));
    TR(n << " threads, " << rounds << " rounds, seed " << seed << ", start " << std::to_string(start));
    itlib::atomic_relaxed_counter<I> c(start);
    itlib::atomic_relaxed_counter<I> only_up(I(0));
    std::atomic<uint64_t> total{0};
    run_threads(n, [&](int t) {
        uint64_t r = pbt::mix64(seed + uint64_t(t)), mine = 0;
        I last = 0;
        for (int i = 0; i < rounds; ++i)
        {
            r = pbt::mix64(r);
            I x = I(U(r >> 40));
            switch (r % 7)
            {
            case 0: ++c; mine += 1; break;
            case 1: c++; mine += 1; break;
            case 2: --c; mine -= 1; break;
            case 3: c--; mine -= 1; break;
            case 4: c += x; mine += uint64_t(U(x)); break;
            case 5: c -= x; mine -= uint64_t(U(x)); break;
            default: (void)c.load(); break;
            }
            if (rounds * n <= 100) { I now = ++only_up; REQM(now > last, "a counter which only grows went from " << std::to_string(last) << " to " << std::to_string(now)); last = now; }
        }
        total.fetch_add(mine, std::memory_order_relaxed);
    });
    const I want = I(U(U(start) + U(total.load())));
    REQM(c.load() == want, "counter is " << std::to_string(c.load()) << " at the end, expected " << std::to_string(want) << ": operations were lost");
    if (rounds * n <= 100) REQ(only_up.load() == I(rounds * n));
    s.nontrivial();
}

// what concurrent operations return: each takes the counter from one value to another, so the values they found and the last one are the
// values they left and the first one
template <typename I> void tickets(pbt::Source& s)
{
    using U = typename std::make_unsigned<I>::type;
    const int n = 2 + int(s.raw(4));
    const int rounds = 50 + int(s.raw(1000));
    const uint64_t seed = s.raw(1 << 20);
    const unsigned ops = 1 + unsigned(s.raw(62)); // which operations take part
    const I start = I(U(s.raw(~uint64_t(0))));
    TR(n << " threads, " << rounds << " rounds, seed " << seed << ", operations " << ops << ", start " << std::to_string(start));
    itlib::atomic_relaxed_counter<I> c(start);
    std::vector<std::vector<I>> before, after;
    before.resize(size_t(n));
    after.resize(size_t(n));
    run_threads(n, [&](int t) {
        auto& b = before[size_t(t)];
        auto& a = after[size_t(t)];
        b.reserve(size_t(rounds));
        a.reserve(size_t(rounds));
        uint64_t r = pbt::mix64(seed + uint64_t(t));
        for (int i = 0; i < rounds; ++i)
        {
            unsigned op;
            do { r = pbt::mix64(r); op = unsigned(r % 6); } while (!(ops >> op & 1));
            const I x = I(U(r >> 40));
            I f, g;
            switch (op)
            {
            case 0: g = ++c; f = I(U(U(g) - 1u)); break;
            case 1: f = c++; g = I(U(U(f) + 1u)); break;
            case 2: g = --c; f = I(U(U(g) + 1u)); break;
            case 3: f = c--; g = I(U(U(f) - 1u)); break;
            case 4: g = (c += x); f = I(U(U(g) - U(x))); break;
            default: g = (c -= x); f = I(U(U(g) + U(x))); break;
            }
            b.push_back(f);
            a.push_back(g);
        }
    });
    std::vector<I> found(1, c.load()), left(1, start);
    for (auto& v : before) found.insert(found.end(), v.begin(), v.end());
    for (auto& v : after) left.insert(left.end(), v.begin(), v.end());
    std::sort(found.begin(), found.end());
    std::sort(left.begin(), left.end());
    for (size_t i = 0; i < found.size(); ++i)
        REQM(found[i] == left[i], "the returned values fit no order of the operations: " << (found[i] < left[i] ? std::to_string(found[i]) + " was found more often than left" : std::to_string(left[i]) + " was left more often than found"));
    s.nontrivial();
}

// ----------------------------------------------------------------------------------------- throw_ex
struct Custom { std::string text; explicit Custom(const std::string& t) : text(t) {} };
struct Moved { std::string text; explicit Moved(std::string&& t) : text(std::move(t)) {} };
struct DerivedEx : std::runtime_error { using std::runtime_error::runtime_error; };
struct Streamable { int v; friend std::ostream& operator<<(std::ostream& o, const Streamable& s) { return o << '<' << s.v << '>'; } };
struct NoCopy { int v; explicit NoCopy(int x) : v(x) {} NoCopy(const NoCopy&) = delete; friend std::ostream& operator<<(std::ostream& o, const NoCopy& s) { return o << s.v; } };

std::string text(const std::exception& e) { return e.what(); }
std::string text(const std::string& e) { return e; }
std::string text(const Custom& e) { return e.text; }
std::string text(const Moved& e) { return e.text; }

struct Piece { uint64_t kind; uint64_t x; std::string str; };
// the same pieces go to a stream and to the exception
template <typename O> void put(O& o, const Piece& p)
{
    switch (p.kind)
    {
    case 0: o << int(p.x); break;
    case 1: o << double(int64_t(p.x)) / 1024; break;
    case 2: o << p.str; break;
    case 3: o << p.str.c_str(); break;
    case 4: o << char(p.x); break;
    case 5: o << (p.x % 2 == 0); break;
    case 6: o << "literal"; break;
    case 7: o << p.x; break;
    case 8: o << std::setw(int(p.x % 20)); break;
    case 9: o << std::setprecision(int(p.x % 12)); break;
    case 10: o << std::setfill(char('0' + p.x % 60)); break;
    case 11: o << std::hex; break;
    case 12: o << std::boolalpha; break;
    case 13: o << reinterpret_cast<const void*>(uintptr_t(p.x)); break;
    case 14: o << Streamable{int(p.x)}; break;
    case 15: o << NoCopy(int(p.x)); break;
    case 16: o << ""; break;
    case 17: { char buf[20]; std::snprintf(buf, sizeof buf, "%u", unsigned(p.x)); o << buf; break; }
    case 18: o << std::showbase; break;
    default: o << float(p.x % 1000) << (signed char)(p.x % 90 + 33) << (unsigned char)(p.x % 90 + 33) << short(p.x); break;
    }
}
template <typename E> void thrown(pbt::Source& s, bool what_is_c_str)
{
    std::vector<Piece> ps(s.small(20));
    for (auto& p : ps)
    {
        p.kind = s.raw(19);
        p.x = s.coin() ? s.raw(100) : s.raw(~uint64_t(0));
        size_t n = s.small(400);
        for (size_t i = 0; i < n; ++i) p.str += char(s.coin() ? 'a' + s.raw(25) : s.raw(255));
        TR("piece of kind " << p.kind << ", value " << p.x << ", text of " << n);
    }
    if (ps.size() > 1) s.nontrivial();
    std::ostringstream ref;
    for (auto& p : ps) put(ref, p);
    std::string want = ref.str();
    if (what_is_c_str) want = want.c_str();
    int caught = 0;
    std::string got;
    try
    {
        switch (s.raw(2))
        {
        case 0: { itlib::throw_ex<E> t; for (auto& p : ps) put(t, p); break; } // at the end of the scope
        case 1: // a temporary
        {
            Piece none{16, 0, ""};
            ps.resize(3, none);
            std::ostringstream r2;
            r2 << ps[0].str << ps[1].x << "-" << ps[2].str;
            want = r2.str();
            if (what_is_c_str) want = want.c_str();
            itlib::throw_ex<E>() << ps[0].str << ps[1].x << "-" << ps[2].str;
            break;
        }
        default: want.clear(); itlib::throw_ex<E>{}; break;
        }
        FAIL("nothing was thrown");
    }
    catch (const E& e) { caught = typeid(e) == typeid(E) ? 1 : 2; got = text(e); }
    catch (...) { caught = 3; }
    REQM(caught == 1, "another type of exception was thrown");
    REQM(got == want, "text of the exception is \"" << got << "\", expected \"" << want << "\"");
}
// a destructor which uses exceptions while another is being handled or is in flight
struct AtEnd
{
    std::string& out;
    int n;
    ~AtEnd()
    {
        try { itlib::throw_ex<std::runtime_error>() << "inner " << n; }
        catch (std::runtime_error& e) { out += e.what(); }
    }
};
void nested(pbt::Source& s)
{
    std::string log, want;
    int n = int(s.raw(99));
    bool in_flight = s.coin(), in_handler = s.coin();
    TR("inner " << n << (in_flight ? ", while another exception is in flight" : "") << (in_handler ? ", then in a handler" : ""));
    s.nontrivial();
    try
    {
        AtEnd a{log, n};
        if (in_flight) itlib::throw_ex<std::logic_error>() << "outer " << n;
    }
    catch (std::logic_error& e)
    {
        REQ(in_flight);
        REQ(e.what() == "outer " + std::to_string(n));
        if (in_handler)
        {
            try { itlib::throw_ex<Custom>() << "again " << n; } catch (Custom& c) { log += c.text; want = "again " + std::to_string(n); }
        }
    }
    REQM(log == "inner " + std::to_string(n) + want, "log is \"" << log << "\"");
}

void throws(pbt::Source& s)
{
    switch (s.raw(5))
    {
    case 0: thrown<std::runtime_error>(s, true); break;
    case 1: thrown<std::logic_error>(s, true); break;
    case 2: thrown<Custom>(s, false); break;
    case 3: thrown<std::string>(s, false); break;
    case 4: thrown<Moved>(s, false); break;
    default: thrown<DerivedEx>(s, true); break;
    }
}

#if !VT_ONLY_THREADS
PBT_REG(bit_casts, casts, 30000);
PBT_REG(owner_of, owners, 15000);
PBT_REG(force_moves, moves, 5000);
PBT_REG(noop, noops, 20000);
PBT_REG(cnt_int, counter<int>, 15000);
PBT_REG(cnt_unsigned, counter<unsigned>, 10000);
PBT_REG(cnt_i64, counter<long long>, 15000);
PBT_REG(cnt_i8, counter<signed char>, 10000);
PBT_REG(cnt_u16, counter<unsigned short>, 10000);
PBT_REG(cnt_size, counter<size_t>, 10000);
PBT_REG(throw_nested, nested, 3000);
PBT_REG(throwing, throws, 30000);
#endif
PBT_REG(counting_int, counting<int>, 600, pbt::F_THREADS | pbt::F_NOLEAK);
PBT_REG(counting_u8, counting<unsigned char>, 600, pbt::F_THREADS | pbt::F_NOLEAK);
PBT_REG(counting_i64, counting<long long>, 600, pbt::F_THREADS | pbt::F_NOLEAK);
PBT_REG(tickets_int, tickets<int>, 400, pbt::F_THREADS | pbt::F_NOLEAK);
PBT_REG(tickets_u16, tickets<unsigned short>, 300, pbt::F_THREADS | pbt::F_NOLEAK);
PBT_REG(tickets_i64, tickets<long long>, 300, pbt::F_THREADS | pbt::F_NOLEAK);
}

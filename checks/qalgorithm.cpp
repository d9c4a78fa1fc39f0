// qalgorithm against direct definitions (P26)
#include "common.hpp"
#include <itlib/qalgorithm.hpp>
#include <array>
#include <deque>
#include <list>
#include <map>
#include <set>
#include <string>
#include <vector>

using namespace vt;

namespace
{
// equality with another type; order of arguments is element first
struct Key { int k; };
struct Item
{
    int k, tag;
    Item(int a = 0, int b = 0) : k(a), tag(b) {}
    friend bool operator==(const Item& a, const Item& b) { return a.k == b.k; } // tags tell equal elements apart
    friend bool operator==(const Item& a, const Key& b) { return a.k == b.k; }
};
int num(int x) { return x; }
int num(char x) { return x; }
int num(const Item& x) { return x.k; }
int num(const Tracked& x) { return x.get(); }
int num(const std::string& x) { return x.empty() ? 0 : x[0]; }
int tag_of(const Item& x) { return x.tag; }
template <typename T> int tag_of(const T& x) { return num(x); }

template <typename T> struct Make { static T of(int k, int) { return T(k); } };
template <> struct Make<Item> { static Item of(int k, int i) { return Item(k, i); } };
template <> struct Make<std::string> { static std::string of(int k, int) { return std::string(size_t(1 + k % 40), char('0' + k)); } };

using Ints = std::vector<std::pair<int, int>>; // number, tag
template <typename C> Ints snapshot(const C& c)
{
    Ints r;
    for (auto& x : c) r.push_back({num(x), tag_of(x)});
    return r;
}
std::string show(const Ints& v)
{
    std::ostringstream o;
    for (auto& x : v) o << ' ' << x.first << '/' << x.second;
    return o.str();
}

// predicates; kinds of callables
int g_calls;
struct Pred
{
    uint64_t mask; // accepted numbers, modulo 64
    template <typename T> bool operator()(const T& x) const { ++g_calls; return (mask >> (unsigned(num(x)) % 64)) & 1; }
};
long g_copies;
struct MutPred // one that can tell it was moved from
{
    uint64_t mask;
    bool alive = true;
    explicit MutPred(uint64_t m) : mask(m) {}
    MutPred(const MutPred& o) : mask(o.mask), alive(o.alive) { ++g_copies; }
    MutPred(MutPred&& o) noexcept : mask(o.mask), alive(o.alive) { o.alive = false; o.mask = ~o.mask; }
    MutPred& operator=(const MutPred&) = default;
    template <typename T> bool operator()(const T& x) { REQM(alive, "a moved-from predicate was called"); ++g_calls; return (mask >> (unsigned(num(x)) % 64)) & 1; }
};
uint64_t g_mask;
template <typename T> bool fpred(const T& x) { ++g_calls; return (g_mask >> (unsigned(num(x)) % 64)) & 1; }

template <typename C> bool is_one_of(const C& c, const typename C::value_type* p)
{
    for (auto& x : c) if (&x == p) return true;
    return false;
}

uint64_t gen_mask(pbt::Source& s, int range)
{
    switch (s.raw(3))
    {
    case 0: return 0;
    case 1: return ~uint64_t(0);
    case 2: return uint64_t(1) << s.raw(uint64_t(range));
    default: return s.raw(~uint64_t(0));
    }
}

// everything which doesn't change the container
template <typename C, typename V> void queries(pbt::Source& s, C& c, const Ints& m, V val, int k, uint64_t mask)
{
    using T = typename std::remove_const<C>::type::value_type;
    const size_t n = m.size();
    size_t want = 0, wantp = 0;
    while (want < n && m[want].first != k) ++want;
    auto in = [&](int x) { return ((mask >> (unsigned(x) % 64)) & 1) != 0; };
    while (wantp < n && !in(m[wantp].first)) ++wantp;
    size_t hits = 0;
    for (auto& x : m) hits += in(x.first);
    if (want > 0 || wantp > 0) s.nontrivial();

    auto pos = [&](decltype(c.begin()) it) { size_t i = 0; for (auto f = c.begin(); f != it; ++f) { REQM(i < n, "iterator is not one of the container"); ++i; } return i; };
    auto ppos = [&](const T* p) { size_t i = 0; for (auto& x : c) { if (&x == p) return i; ++i; } REQM(!p, "pointer is not to an element"); return n; };

    auto f = itlib::qfind(c, val);
    static_assert(std::is_same<decltype(f), decltype(c.begin())>::value, "iterator type");
    REQM(pos(f) == want, "qfind gave " << pos(f) << ", the first match is " << want);
    auto p = itlib::pfind(c, val);
    REQM(ppos(p) == want && (want < n) == (p != nullptr), "pfind gave element " << ppos(p) << ", the first match is " << want);

    static const char* const how[] = {"const functor", "functor", "lambda", "function", "lvalue functor"};
    size_t h = s.raw(4);
    TR("  predicate is a " << how[h]);
    g_mask = mask;
    g_calls = 0;
    auto fi = c.end();
    auto pi = p;
    bool all = false, any = false, none = false;
    const auto& cc = c;
#define EACH(PRED) fi = itlib::qfind_if(c, PRED); pi = itlib::pfind_if(c, PRED); all = itlib::qall_of(cc, PRED); any = itlib::qany_of(cc, PRED); none = itlib::qnone_of(cc, PRED);
    MutPred mp{mask};
    const Pred cp{mask};
    switch (h)
    {
    case 0: EACH((Pred{mask})) break;
    case 1:
    {
        // given away, so there's no reason to copy it more often than the algorithms do
        g_copies = 0;
        (void)std::find_if(c.begin(), c.end(), MutPred{mask}); (void)std::find_if(c.begin(), c.end(), MutPred{mask});
        (void)std::all_of(c.begin(), c.end(), MutPred{mask}); (void)std::any_of(c.begin(), c.end(), MutPred{mask}); (void)std::none_of(c.begin(), c.end(), MutPred{mask});
        const long copies = g_copies;
        g_copies = 0;
        EACH((MutPred{mask}))
        REQM(g_copies <= copies, "predicates given away were copied " << g_copies << " times, by the algorithms " << copies);
        break;
    }
    case 2: EACH([&](const T& x) { ++g_calls; return in(num(x)); }) break;
    case 3: EACH(fpred<T>) break;
    default: fi = itlib::qfind_if(c, mp); pi = itlib::pfind_if(c, cp); all = itlib::qall_of(c, cp); any = itlib::qany_of(c, mp); none = itlib::qnone_of(c, mp);
             REQM(mp.alive, "the caller's predicate was moved from");
             if (s.coin()) { all = itlib::qall_of(c, mp); pi = itlib::pfind_if(c, mp); REQM(mp.alive, "the caller's predicate was moved from"); }
    }
    REQM(pos(fi) == wantp, "qfind_if gave " << pos(fi) << ", the first match is " << wantp);
    REQM(ppos(pi) == wantp && (wantp < n) == (pi != nullptr), "pfind_if gave " << ppos(pi) << ", the first match is " << wantp);
    REQM(all == (hits == n) && any == (hits > 0) && none == (hits == 0), hits << " of " << n << " elements match; all: " << all << ", any: " << any << ", none: " << none);
    REQM(snapshot(c) == m, "a query changed the container");
}

template <typename C> C fill(const std::vector<int>& v, C* = nullptr)
{
    C c;
    int i = 0;
    for (int k : v) c.insert(c.end(), Make<typename C::value_type>::of(k, ++i));
    return c;
}

std::vector<int> gen(pbt::Source& s, size_t max, int range)
{
    std::vector<int> v(s.small(max));
    for (auto& x : v) x = int(s.raw(uint64_t(range)));
    return v;
}

struct FirstOnly
{
    template <typename C, typename V> static void go(C& c, uint64_t op, const V& v, uint64_t mask, size_t& got, uint64_t lv)
    {
        const Pred p{mask};
        MutPred mp{mask};
        switch (op)
        {
        case 0: { bool r = itlib::erase_first(c, v); got = r; break; }
        default: { bool r = lv == 1 ? itlib::erase_first_if(c, p) : lv == 2 ? itlib::erase_first_if(c, mp) : itlib::erase_first_if(c, MutPred{mask}); got = r; break; }
        }
        REQM(mp.alive, "the caller's predicate was moved from");
    }
};
struct All
{
    template <typename C, typename V> static void go(C& c, uint64_t op, const V& v, uint64_t mask, size_t& got, uint64_t lv)
    {
        const Pred p{mask};
        MutPred mp{mask};
        using T = typename C::value_type;
        if (op == 3 && lv == 0)
        {
            C d = c;
            g_copies = 0;
            auto e = std::remove_if(d.begin(), d.end(), MutPred{mask});
            const long copies = g_copies;
            (void)e;
            g_copies = 0;
            got = itlib::erase_all_if(c, MutPred{mask});
            REQM(g_copies <= copies, "a predicate given away was copied " << g_copies << " times, by the algorithm " << copies);
            return;
        }
        switch (op)
        {
        case 2: got = itlib::erase_all(c, v); break;
        case 3: got = lv == 1 ? itlib::erase_all_if(c, p) : lv == 2 ? itlib::erase_all_if(c, mp) : itlib::erase_all_if(c, [&](const T& x) { return p(x); }); break;
        default: FirstOnly::go(c, op, v, mask, got, lv);
        }
        REQM(mp.alive, "the caller's predicate was moved from");
    }
};

template <typename C, typename V, typename Eraser, typename MkV> void erasing(pbt::Source& s, MkV mkv)
{
    using T = typename C::value_type;
    const int range = s.coin() ? 3 : 12;
    C c = fill<C>(gen(s, 30, range));
    size_t n = 1 + s.small(5);
    for (size_t i = 0; i < n; ++i)
    {
        Ints m = snapshot(c);
        int k = int(s.raw(uint64_t(range)));
        uint64_t mask = gen_mask(s, range);
        TR("container of" << show(m) << "; value " << k << ", predicate " << std::hex << mask << std::dec);
        // what is sought is not always of the same type
        V val = mkv(k);
        queries(s, c, m, val, num(Make<T>::of(k, 0)), mask);
        const C& cc = c;
        queries(s, cc, m, val, num(Make<T>::of(k, 0)), mask);
        const int key = num(Make<T>::of(k, 0));
        auto in = [&](int x) { return ((mask >> (unsigned(x) % 64)) & 1) != 0; };
        Ints want;
        size_t erased = 0;
        uint64_t op = s.raw(std::is_same<Eraser, All>::value ? 3 : 1);
        static const char* const names[] = {"erase_first", "erase_first_if", "erase_all", "erase_all_if"};
        TR("  " << names[op]);
        for (auto& x : m)
        {
            bool hit = op % 2 ? in(x.first) : x.first == key;
            if (hit && (op >= 2 || !erased)) ++erased;
            else want.push_back(x);
        }
        if (erased) s.nontrivial();
        size_t got = 0;
        g_mask = mask;
        Eraser::go(c, op, val, mask, got, s.raw(3));
        REQM(got == erased, names[op] << " says " << got << ", erased should be " << erased);
        Ints now = snapshot(c);
        REQM(now == want, names[op] << " left" << show(now) << ", expected" << show(want));
    }
}

template <typename C> void ints(pbt::Source& s) { erasing<C, int, All>(s, [](int k) { return k; }); }
template <typename C> void ints1(pbt::Source& s) { erasing<C, int, FirstOnly>(s, [](int k) { return k; }); }
template <typename C> void longs(pbt::Source& s) { erasing<C, long long, All>(s, [](int k) { return (long long)k; }); }
template <typename C> void items(pbt::Source& s) { erasing<C, Key, All>(s, [](int k) { return Key{k}; }); }
template <typename C> void items1(pbt::Source& s) { erasing<C, Key, FirstOnly>(s, [](int k) { return Key{k}; }); }
template <typename C> void same_items(pbt::Source& s) { erasing<C, Item, All>(s, [](int k) { return Item(k, -1); }); }
template <typename C> void tracked(pbt::Source& s)
{
    tstats() = TrackStats();
    erasing<C, Tracked, All>(s, [](int k) { return Tracked(k); });
    REQM(tstats().live == 0, tstats().live << " elements not destroyed");
}
template <typename C> void strings(pbt::Source& s) { erasing<C, std::string, All>(s, [](int k) { return Make<std::string>::of(k, 0); }); }
void chars(pbt::Source& s) { erasing<std::string, char, All>(s, [](int k) { return char(k); }); }

// a view: its constness is not that of the elements
template <typename T> struct View
{
    using value_type = typename std::remove_const<T>::type;
    using pointer = T*; using const_pointer = const T*;
    using iterator = T*; using const_iterator = const T*;
    using size_type = size_t;
    T* p; size_t n;
    iterator begin() const { return p; }
    iterator end() const { return p + n; }
    size_t size() const { return n; }
};

// containers which can't be erased from
void fixed(pbt::Source& s)
{
    auto v = gen(s, 30, 8);
    int k = int(s.raw(8));
    uint64_t mask = gen_mask(s, 8);
    {
        std::vector<Item> d;
        int i = 0;
        for (int x : v) d.push_back(Item(x, ++i));
        Ints m = snapshot(d);
        TR("view of" << show(m) << "; value " << k << ", predicate " << std::hex << mask << std::dec);
        View<Item> sp{d.data(), d.size()};
        queries(s, sp, m, Key{k}, k, mask);
        const View<Item> csp = sp;
        auto p = itlib::pfind(csp, Key{k});
        auto q = itlib::pfind(sp, Key{k});
        REQM(p == q, "pfind in a const span differs");
        View<const Item> spc{d.data(), d.size()};
        const Item* r = itlib::pfind(spc, Key{k});
        REQM(r == q, "pfind in a span of const differs");
        REQ(itlib::pfind_if(spc, Pred{mask}) == itlib::pfind_if(sp, Pred{mask}));
    }
    {
        std::array<int, 7> a;
        for (size_t i = 0; i < 7; ++i) a[i] = i < v.size() ? v[i] : 1;
        queries(s, a, snapshot(a), k, k, mask);
        const auto& ca = a;
        queries(s, ca, snapshot(a), k, k, mask);
    }
}

// elements of ordered containers can't be modified
void set_like(pbt::Source& s)
{
    auto v = gen(s, 20, 8);
    std::multiset<int> c(v.begin(), v.end());
    size_t n = 1 + s.small(5);
    for (size_t step = 0; step < n; ++step)
    {
        int k = int(s.raw(8));
        uint64_t mask = gen_mask(s, 8);
        Ints m = snapshot(c);
        TR("multiset of" << show(m) << "; value " << k << ", predicate " << std::hex << mask << std::dec);
        const auto& cc = c;
        queries(s, cc, m, k, k, mask);
        auto f = itlib::qfind(c, k);
        REQ(f == std::find(c.begin(), c.end(), k));
        std::multiset<int> want = c;
        bool if_ = s.coin();
        auto w = want.begin();
        while (w != want.end() && !(if_ ? (mask >> unsigned(*w)) & 1 : *w == k)) ++w;
        bool found = w != want.end();
        if (found) want.erase(w);
        bool got = if_ ? itlib::erase_first_if(c, Pred{mask}) : itlib::erase_first(c, k);
        REQM(got == found && c == want, "erase_first" << (if_ ? "_if" : "") << " says " << got << ", left" << show(snapshot(c)) << ", expected" << show(snapshot(want)));
    }
}

// checks without a predicate
template <typename T> void truth(pbt::Source& s)
{
    const size_t n = s.small(40);
    std::vector<T> v;
    std::deque<T> d;
    size_t yes = 0;
    uint64_t bias = s.raw(2);
    for (size_t i = 0; i < n; ++i)
    {
        bool b = bias == 0 ? s.coin() : bias == 1 ? !s.chance(1, 12) : s.chance(1, 12);
        v.push_back(T(b ? 3 : 0));
        d.push_back(T(b ? 3 : 0));
        yes += b;
        TR((b ? "true" : "false"));
    }
    if (yes && yes < n) s.nontrivial();
    REQM(itlib::qall_of(v) == (yes == n) && itlib::qall_of(d) == (yes == n), "qall_of gave " << itlib::qall_of(v) << ", " << yes << " of " << n << " are true");
    REQM(itlib::qany_of(v) == (yes > 0) && itlib::qany_of(d) == (yes > 0), "qany_of gave " << itlib::qany_of(v) << ", " << yes << " of " << n << " are true");
    REQM(itlib::qnone_of(v) == (yes == 0) && itlib::qnone_of(d) == (yes == 0), "qnone_of gave " << itlib::qnone_of(v) << ", " << yes << " of " << n << " are true");
    if (n)
    {
        itlib::identity id;
        const T& x = v[n - 1];
        REQ(&id(x) == &x);
    }
}
struct Truthy { int v; explicit Truthy(int x) : v(x) {} explicit operator bool() const { return v != 0; } };

// a predicate which says the opposite when asked about an element again
struct Once
{
    uint64_t mask;
    std::vector<char>* asked; // by tag
    template <typename T> bool operator()(const T& x)
    {
        char& a = (*asked)[size_t(tag_of(x))];
        const bool r = (mask >> (unsigned(num(x)) % 64)) & 1;
        a = char(a + 1);
        return a == 1 ? r : !r;
    }
};
template <typename C> size_t All_(C& c, Once o) { return itlib::erase_all_if(c, o); }
inline size_t All_(std::list<Item>&, Once) { return 0; } // not possible
template <typename C> void once(pbt::Source& s)
{
    const int range = s.coin() ? 3 : 12;
    C c = fill<C>(gen(s, 30, range));
    const uint64_t mask = gen_mask(s, range);
    const Ints m = snapshot(c);
    TR("container of" << show(m) << ", predicate " << std::hex << mask << std::dec);
    auto in = [&](int x) { return ((mask >> (unsigned(x) % 64)) & 1) != 0; };
    size_t first = 0, hits = 0;
    while (first < m.size() && !in(m[first].first)) ++first;
    for (auto& x : m) hits += in(x.first);
    std::vector<char> asked;
    auto p = [&]() -> Once { asked.assign(m.size() + 2, 0); return Once{mask, &asked}; };
    auto tag = [&](size_t i) { return i < m.size() ? m[i].second : -1; };
    auto f = itlib::qfind_if(c, p());
    REQM((f == c.end() ? -1 : tag_of(*f)) == tag(first), "qfind_if with a predicate that changes its mind");
    auto q = itlib::pfind_if(c, p());
    REQM((q ? tag_of(*q) : -1) == tag(first), "pfind_if with a predicate that changes its mind");
    REQM(itlib::qall_of(c, p()) == (hits == m.size()) && itlib::qany_of(c, p()) == (hits > 0) && itlib::qnone_of(c, p()) == (hits == 0), "qall_of, qany_of or qnone_of with a predicate that changes its mind");
    if (hits && m.size() > 1) s.nontrivial();
    Once lv = p();
    Ints want;
    if (std::is_same<C, std::list<Item>>::value || s.coin())
    {
        REQM((s.coin() ? itlib::erase_first_if(c, p()) : itlib::erase_first_if(c, lv)) == (hits > 0), "erase_first_if with a predicate that changes its mind");
        for (size_t i = 0; i < m.size(); ++i) if (i != first) want.push_back(m[i]);
    }
    else
    {
        REQM(All_(c, s.coin() ? p() : lv) == hits, "erase_all_if with a predicate that changes its mind");
        for (auto& x : m) if (!in(x.first)) want.push_back(x);
    }
    const Ints now = snapshot(c);
    REQM(now == want, "left" << show(now) << ", expected" << show(want));
}

// many elements
template <typename C> void large(pbt::Source& s)
{
    using T = typename C::value_type;
    const size_t n = s.coin() ? (size_t(1) << (8 + s.raw(9))) + s.small(20) - 10 : s.range<size_t>(0, 140000);
    const int range = s.coin() ? 1 : 20;
    std::vector<int> m(n);
    uint32_t x = uint32_t(s.raw(1000)) * 2654435761u + 1;
    const bool same = s.chance(1, 3);
    for (auto& k : m) { x = x * 1664525u + 1013904223u; k = same ? 'a' : int('a' + (x >> 24) % uint32_t(range + 1)); }
    C c(m.begin(), m.end());
    size_t ops = 1 + s.small(4);
    TR(n << " elements of " << range + 1 << " kinds");
    for (size_t i = 0; i < ops; ++i)
    {
        int k = int('a' + s.raw(uint64_t(range)));
        if (s.chance(1, 3) && !m.empty()) { size_t at = s.coin() ? m.size() - 1 : s.range<size_t>(0, m.size() - 1); k = 'A' + int(i); m[at] = k; c[at] = T(k); }
        size_t want = 0, hits = 0;
        while (want < m.size() && m[want] != k) ++want;
        for (int e : m) hits += e == k;
        auto pr = [&](T e) { return e == T(k); };
        REQM(size_t(itlib::qfind(c, T(k)) - c.begin()) == want && size_t(itlib::qfind_if(c, pr) - c.begin()) == want, "finding element " << want << " of " << m.size());
        auto p = itlib::pfind(c, T(k));
        auto q = itlib::pfind_if(c, pr);
        REQM(p == q && (want < m.size() ? p == &c[want] : p == nullptr), "pfind of element " << want << " of " << m.size());
        REQM(itlib::qany_of(c, pr) == (hits > 0) && itlib::qnone_of(c, pr) == (hits == 0) && itlib::qall_of(c, pr) == (hits == m.size()), hits << " of " << m.size() << " elements match");
        if (want > 256 || hits > 256) s.nontrivial();
        size_t got, op = s.raw(3);
        TR("  op " << op << ": " << hits << " of " << m.size() << " match, the first is " << want);
        switch (op)
        {
        case 0: got = itlib::erase_first(c, T(k)); break;
        case 1: got = itlib::erase_first_if(c, pr); break;
        case 2: got = itlib::erase_all(c, T(k)); break;
        default: got = itlib::erase_all_if(c, pr); break;
        }
        if (op < 2) { if (hits) m.erase(m.begin() + ptrdiff_t(want)); hits = hits > 0; }
        else m.erase(std::remove(m.begin(), m.end(), k), m.end());
        REQM(got == hits, "told " << got << " were erased, it should be " << hits);
        REQM(c.size() == m.size() && std::equal(m.begin(), m.end(), c.begin(), [](int a, T b) { return T(a) == b; }), "the elements left");
    }
}
PBT_REG(changing, once<std::vector<Item>>, 8000);
PBT_REG(changing_deq, once<std::deque<Item>>, 4000);
PBT_REG(changing_lst, once<std::list<Item>>, 4000);
PBT_REG(large_vec, large<std::vector<int>>, 60);
PBT_REG(large_str, large<std::string>, 60);
PBT_REG(large_deq, large<std::deque<short>>, 40);
PBT_REG(vec, ints<std::vector<int>>, 15000);
PBT_REG(vec_item, items<std::vector<Item>>, 15000);
PBT_REG(vec_same, same_items<std::vector<Item>>, 8000);
PBT_REG(vec_tracked, tracked<std::vector<Tracked>>, 10000);
PBT_REG(vec_str, strings<std::vector<std::string>>, 8000);
PBT_REG(vec_ll, longs<std::vector<int>>, 6000);
PBT_REG(deq, items<std::deque<Item>>, 8000);
PBT_REG(str, chars, 6000);
PBT_REG(lst, items1<std::list<Item>>, 8000);
PBT_REG(sets, set_like, 10000);
PBT_REG(deq_tracked, tracked<std::deque<Tracked>>, 8000);
PBT_REG(fix, fixed, 20000);
PBT_REG(truth_int, truth<int>, 10000);
PBT_REG(truth_obj, truth<Truthy>, 10000);
}

// transparent_umap against a plain ordered model; key constructions are counted (P30)
#include "common.hpp"
#include "fwd.hpp"
#include <itlib/transparent_umap.hpp>
#include <functional>
#include <string>
#include <string_view>
#include <vector>

using namespace vt;
using sv = std::string_view;

namespace
{
long g_keys;      // keys constructed from something else than a key
long g_key_copies;
int g_throw_key;  // constructing a key throws when it reaches 0

struct KeyError {};
struct Key
{
    std::string s;
    Tracked t;
    void made() { ++g_keys; if (g_throw_key > 0 && --g_throw_key == 0) throw KeyError(); }
    Key() { made(); }
    explicit Key(sv v) : s(v), t(1) { made(); }
    Key(const char* v) : s(v), t(1) { made(); }
    Key(const Key& o) : s(o.s), t(o.t) { ++g_key_copies; if (g_throw_key > 0 && --g_throw_key == 0) throw KeyError(); }
    Key(Key&& o) : s(std::move(o.s)), t(std::move(o.t)) { o.s = "moved from"; }
    Key& operator=(const Key&) = default;
    friend bool operator==(const Key& a, const Key& b) { a.t.check(); b.t.check(); return a.s == b.s; }
    friend bool operator==(const Key& a, sv b) { a.t.check(); return a.s == b; }
    friend bool operator==(sv a, const Key& b) { b.t.check(); return a == b.s; }
    friend bool operator==(const Key& a, const char* b) { return a.s == b; }
    friend bool operator==(const char* a, const Key& b) { return a == b.s; }
};
sv text(const Key& k) { return k.s; }
sv text(sv k) { return k; }
sv text(const char* k) { return k; }
// comparable, but not a key
struct Probe { sv v; };
sv text(const Probe& p) { return p.v; }
bool operator==(const Key& a, const Probe& b) { return a.s == b.v; }
bool operator==(const Probe& a, const Key& b) { return b.s == a.v; }

size_t hash_of(sv v) { return v.empty() ? 0 : size_t((unsigned char)v[0]) % 3 + v.size(); } // collides a lot

struct TrHash
{
    using is_transparent = void;
    template <typename K> size_t operator()(const K& k) const { return hash_of(text(k)); }
};
struct PlainHash { size_t operator()(const Key& k) const { return hash_of(k.s); } };

// mapped values
struct ValError {};
struct Value // immovable, may throw when constructed
{
    Tracked a, b;
    static int throw_in;
    void made() { if (throw_in > 0 && --throw_in == 0) throw ValError(); }
    Value() : a(0), b(0) { made(); }
    explicit Value(int x) : a(x), b(0) { made(); }
    Value(int x, std::unique_ptr<int> y) : a(x), b(*y) { made(); }
    Value(const Value&) = delete;
    Value& operator=(const Value&) = delete;
    int num() const { return a.get() * 1000 + b.get(); }
    void set(int x) { a = Tracked(x); b = Tracked(0); }
};
int Value::throw_in;
struct Mov // can be copied and moved
{
    Tracked a, b;
    Mov() : a(0), b(0) {}
    explicit Mov(int x) : a(x), b(0) {}
    Mov(int x, std::unique_ptr<int> y) : a(x), b(*y) {}
    int num() const { return a.get() * 1000 + b.get(); }
    void set(int x) { a = Tracked(x); b = Tracked(0); }
};

const char* const literals[] = {"", "a", "b", "aa", "ab", "ba", "abc", "xyz", "a rather long key which is not stored in the string itself", "d", "g", "j"};
constexpr size_t n_lit = sizeof literals / sizeof *literals;

template <typename Map, bool Transparent, bool Movable> struct Machine
{
    pbt::Source& s;
    enum { maps = 2 };
    std::unique_ptr<Map> m[maps];
    std::map<std::string, int> model[maps];

    explicit Machine(pbt::Source& src) : s(src) { for (auto& x : m) x.reset(new Map()); }

    std::string gen()
    {
        if (s.chance(1, 10)) { std::string r(s.small(30), 'a'); for (auto& c : r) c = char('a' + s.raw(2)); return r; }
        return literals[s.raw(n_lit - 1)];
    }

    template <typename M> void check(M& c, const std::map<std::string, int>& e, int i)
    {
        REQM(c.size() == e.size() && c.empty() == e.empty(), "map " << i << " has " << c.size() << " elements, expected " << e.size());
        size_t n = 0;
        for (auto& kv : c)
        {
            auto f = e.find(kv.first.s);
            REQM(f != e.end(), "unexpected element " << kv.first.s);
            REQM(f->second == kv.second.num(), "value of " << kv.first.s << " is " << kv.second.num() << ", expected " << f->second);
            REQ(kv.first.t.get() == 1);
            ++n;
        }
        REQ(n == e.size());
    }

    // call f with the key in the chosen form; returns whether this may construct a key only when inserting
    template <typename F> void with_key(const std::string& k, uint64_t form, F f)
    {
        if constexpr (Transparent)
        {
            switch (form % 5)
            {
            case 0: { sv v(k); f(v); break; }              // lvalue view
            case 1: f(sv(k)); break;
            case 2: { const sv v(k); f(v); break; }
            case 3: f(k.c_str()); break;
            default: { const char* p = k.c_str(); f(p); }
            }
        }
    }
    static const char* form_name(uint64_t f) { static const char* const n[] = {"view lvalue", "view", "const view", "c string", "c string lvalue", "key", "key lvalue", "const key", "literal"}; return n[f]; }
    template <typename F> void any_key(const std::string& k, uint64_t form, F f)
    {
        switch (form)
        {
        case 5: f(Key(sv(k))); break;
        case 6: { Key x{sv(k)}; f(x); REQM(x.s == k, "an lvalue key was changed"); break; }
        case 7: { const Key x{sv(k)}; f(x); break; }
        case 8: if (k == "abc") f("abc"); else if (k == "") f(""); else if (k == "a") f("a"); else f(Key(sv(k))); break;
        default: if constexpr (Transparent) with_key(k, form, f); else f(k.c_str()); break;
        }
    }

    void step()
    {
        int a = int(s.raw(maps - 1));
        Map& c = *m[a];
        auto& e = model[a];
        std::string k = gen();
        const bool has = e.count(k) != 0;
        uint64_t form = s.raw(8);
        int x = int(s.raw(99)), y = int(s.raw(99));
        static const unsigned weights[] = {10, 3, 8, 5, 2, 4, 3, 3, 3, 3, 2, 2, 2};
        auto what = s.weighted(weights);
        // forms which are not keys do not construct one unless inserting
        const bool foreign = Transparent && (form < 5 || (form == 8 && (k == "abc" || k == "" || k == "a")));
        switch (what)
        {
        case 0: case 1: // try_emplace, with a hint
        {
            uint64_t nargs = s.raw(2);
            int want = nargs == 0 ? 0 : nargs == 1 ? x * 1000 : x * 1000 + y;
            bool hint = what == 1;
            bool fault = !has && s.chance(1, 6);
            bool key_fault = fault && foreign && s.coin();
            if (fault && !key_fault && !std::is_same_v<typename Map::mapped_type, Value>) fault = false;
            TR("m" << a << ".try_emplace(" << (hint ? "hint, " : "") << form_name(form) << " " << k << ", " << nargs << " arguments)" << (fault ? key_fault ? ", key throws" : ", value throws" : ""));
            if (hint && fault) s.label("hint and fault");
            auto up = std::unique_ptr<int>(new int(y));
            bool thrown = false;
            typename Map::const_iterator h = c.begin();
            if (s.coin()) h = c.end();
            any_key(k, form, [&](auto&& key) {
                using K = decltype(key);
                const long k0 = g_keys, c0 = g_key_copies;
                if (fault) (key_fault ? g_throw_key : Value::throw_in) = 1;
                std::pair<typename Map::iterator, bool> r{c.end(), !has};
                try
                {
                    if (!hint)
                    {
                        if (nargs == 0) r = c.try_emplace(std::forward<K>(key));
                        else if (nargs == 1) r = c.try_emplace(std::forward<K>(key), x);
                        else r = c.try_emplace(std::forward<K>(key), x, std::move(up));
                    }
                    else
                    {
                        if (nargs == 0) r.first = c.try_emplace(h, std::forward<K>(key));
                        else if (nargs == 1) r.first = c.try_emplace(h, std::forward<K>(key), x);
                        else r.first = c.try_emplace(h, std::forward<K>(key), x, std::move(up));
                    }
                }
                catch (KeyError&) { thrown = true; REQ(key_fault); }
                catch (ValError&) { thrown = true; REQ(fault && !key_fault); }
                REQM(thrown == fault, "an exception was lost");
                if (fault) { s.nontrivial(); return; }
                REQM(r.second == !has, "try_emplace says " << (r.second ? "inserted" : "present"));
                REQM(r.first != c.end() && r.first->first.s == k, "try_emplace gave another element");
                if (foreign)
                {
                    REQM(g_keys - k0 == !has, g_keys - k0 << " keys were constructed; the key was " << (has ? "present" : "absent"));
                    REQM(g_key_copies == c0, "keys were copied");
                    s.nontrivial();
                }
                if (has) REQM(g_key_copies == c0, "a present key was copied");
            });
            g_throw_key = 0;
            Value::throw_in = 0;
            if (has) { REQM(nargs < 2 || up, "arguments were moved from although the key is present"); }
            else if (!fault) e[k] = want;
            break;
        }
        case 2: // []
        {
            bool fault = !has && foreign && s.chance(1, 8);
            TR("m" << a << "[" << form_name(form) << " " << k << "] = " << x << (fault ? ", key throws" : ""));
            bool thrown = false;
            any_key(k, form, [&](auto&& key) {
                using K = decltype(key);
                const long k0 = g_keys;
                if (fault) g_throw_key = 1;
                try
                {
                    auto& v = c[std::forward<K>(key)];
                    REQM(v.num() == (has ? e[k] : 0), "value is " << v.num() << ", expected " << (has ? e[k] : 0));
                    v.set(x);
                }
                catch (KeyError&) { thrown = true; }
                if (foreign && !fault) { REQM(g_keys - k0 == !has, g_keys - k0 << " keys were constructed; the key was " << (has ? "present" : "absent")); s.nontrivial(); }
            });
            g_throw_key = 0;
            REQ(thrown == fault);
            if (!fault) e[k] = x * 1000;
            break;
        }
        case 3: // at
        {
            bool cst = s.coin();
            TR("m" << a << ".at(" << form_name(form) << " " << k << ")" << (cst ? " const" : ""));
            bool thrown = false;
            any_key(k, form, [&](auto&& key) {
                const long k0 = g_keys, c0 = g_key_copies;
                try
                {
                    const Map& cc = c;
                    static_assert(std::is_same_v<decltype(c.at(key)), typename Map::mapped_type&>);
                    static_assert(std::is_same_v<decltype(cc.at(key)), const typename Map::mapped_type&>);
                    auto& v = cst ? cc.at(key) : c.at(key);
                    REQM(v.num() == e[k], "at gave another value");
                    REQM(&v == &c.find(Key(sv(k)))->second, "at gave another object");
                    g_keys = k0; // the one above
                }
                catch (std::out_of_range&) { thrown = true; }
                if (foreign) { REQM(g_keys == k0 && g_key_copies == c0, "at constructed a key"); s.nontrivial(); }
            });
            REQM(thrown == !has, "at " << (thrown ? "threw" : "did not throw") << " out_of_range");
            break;
        }
        case 4: // at with something which is not a key
            if constexpr (Transparent)
            {
                TR("m" << a << ".at(probe " << k << ")");
                bool thrown = false;
                try { REQ(c.at(Probe{k}).num() == e[k]); } catch (std::out_of_range&) { thrown = true; }
                REQM(thrown == !has, "at " << (thrown ? "threw" : "did not throw") << " out_of_range");
                REQ((c.find(Probe{k}) != c.end()) == has && c.contains(Probe{k}) == has && c.count(Probe{k}) == has);
            }
            break;
        case 5: // erase
            TR("m" << a << ".erase(" << k << ")");
            if (s.coin()) REQ(c.erase(Key(sv(k))) == e.erase(k));
            else { auto f = c.find(Key(sv(k))); REQ((f != c.end()) == has); if (has) { c.erase(f); e.erase(k); } }
            break;
        case 6: // lookup
            TR("m" << a << ".find(" << form_name(form) << " " << k << ")");
            any_key(k, form, [&](auto&& key) {
                const long k0 = g_keys;
                auto f = c.find(key);
                REQM((f != c.end()) == has && c.count(key) == has && c.contains(key) == has, "lookup of a " << (has ? "present" : "missing") << " key");
                if (has) REQ(f->first.s == k);
                auto r = c.equal_range(key);
                REQ((r.first != r.second) == has);
                if (foreign) REQM(g_keys == k0, "lookup constructed a key");
            });
            break;
        case 7: // emplace
            TR("m" << a << ".emplace(" << k << ", " << x << ")");
            { auto r = c.emplace(std::piecewise_construct, std::forward_as_tuple(sv(k)), std::forward_as_tuple(x)); REQ(r.second == !has && r.first->first.s == k); e.emplace(k, x * 1000); }
            break;
        case 8: // move all
        {
            int b = 1 - a;
            switch (s.raw(Movable ? 4 : 2))
            {
            case 0: TR("swap"); c.swap(*m[b]); std::swap(model[a], model[b]); break;
            case 1: { TR("m" << b << " = move(m" << a << ")"); *m[b] = std::move(c); model[b] = e; c.clear(); e.clear(); break; }
            case 2: { TR("m" << b << " made by moving m" << a); m[b].reset(new Map(std::move(c))); model[b] = e; c.clear(); e.clear(); break; }
            case 3: if constexpr (Movable) { TR("m" << b << " = m" << a); *m[b] = c; model[b] = e; } break;
            default: if constexpr (Movable) { TR("m" << b << " made as a copy of m" << a); m[b].reset(new Map(c)); model[b] = e; } break;
            }
            s.nontrivial();
            break;
        }
        case 9: TR("m" << a << ".rehash"); if (s.coin()) c.rehash(s.raw(200)); else c.reserve(s.raw(100)); break;
        case 10: TR("m" << a << ".merge"); c.merge(*m[1 - a]); { std::map<std::string, int> rest; for (auto& kv : model[1 - a]) if (!e.insert(kv).second) rest.insert(kv); model[1 - a] = rest; } break;
        case 11: if (s.chance(1, 3)) { TR("m" << a << ".clear()"); c.clear(); e.clear(); } break;
        default:
            if constexpr (Movable)
            {
                TR("m" << a << " from a list / insert_or_assign " << k);
                if (s.coin())
                {
                    using V = typename Map::value_type;
                    std::initializer_list<V> l = {V(Key("a"), Mov(x)), V(Key("zz"), Mov(y)), V(Key("a"), Mov(y))};
                    if (s.coin()) c = Map(l); else c = l;
                    e = {{"a", x * 1000}, {"zz", y * 1000}};
                }
                else { auto r = c.insert_or_assign(Key(sv(k)), Mov(x)); REQ(r.second == !has); e[k] = x * 1000; }
            }
        }
        for (int i = 0; i < maps; ++i) check(*m[i], model[i], i);
        if constexpr (Movable) { /* comparison needs comparable values */ }
    }
};

template <typename Map, bool Transparent, bool Movable> void history(pbt::Source& s)
{
    tstats() = TrackStats();
    g_throw_key = 0;
    Value::throw_in = 0;
    {
        Machine<Map, Transparent, Movable> m(s);
        size_t n = s.small(50);
        for (size_t i = 0; i < n; ++i) m.step();
    }
    REQM(tstats().live == 0, tstats().live << " objects not destroyed");
}

template <typename V> using TrMap = itlib::transparent_umap<Key, V, TrHash, std::equal_to<>>;
template <typename V> using PlMap = itlib::transparent_umap<Key, V, PlainHash, std::equal_to<Key>>;
template <typename V> using HalfMap = itlib::transparent_umap<Key, V, TrHash, std::equal_to<Key>>; // not transparent

// what is offered
template <typename M, typename K> concept has_at = requires(M& m, const M& c, K k) { m.at(k); c.at(k); };
template <typename M, typename K> concept has_br = requires(M& m, K k) { m[k]; };
template <typename M, typename K> concept has_te = requires(M& m, K k) { m.try_emplace(k); };
static_assert(has_at<TrMap<Value>, sv> && has_br<TrMap<Value>, sv> && has_te<TrMap<Value>, sv>);
static_assert(has_at<TrMap<Value>, Probe> && !has_br<TrMap<Value>, Probe> && !has_te<TrMap<Value>, Probe>);
static_assert(!has_at<PlMap<Value>, sv> && !has_br<PlMap<Value>, sv> && !has_te<PlMap<Value>, sv>);
static_assert(!has_at<HalfMap<Value>, sv> && !has_br<HalfMap<Value>, sv> && !has_te<HalfMap<Value>, sv>);
static_assert(has_at<PlMap<Value>, const char*> && has_br<PlMap<Value>, const char*> && has_te<PlMap<Value>, const char*>);
static_assert(std::is_base_of_v<std::unordered_map<Key, Value, TrHash, std::equal_to<>>, TrMap<Value>>);

// ordinary keys and std types
void plain_types(pbt::Source& s)
{
    struct SvHash { using is_transparent = void; size_t operator()(sv v) const { return std::hash<sv>()(v); } };
    itlib::transparent_umap<std::string, std::vector<int>, SvHash, std::equal_to<>> m;
    itlib::transparent_umap<int, int> im;
    std::map<std::string, std::vector<int>> e;
    std::map<int, int> ie;
    size_t n = s.small(40);
    s.nontrivial();
    for (size_t i = 0; i < n; ++i)
    {
        std::string k = literals[s.raw(n_lit - 1)];
        int x = int(s.raw(9));
        TR(k << ", " << x);
        switch (s.raw(5))
        {
        case 0: m[sv(k)].push_back(x); e[k].push_back(x); break;
        case 1: m[k.c_str()].push_back(x); e[k].push_back(x); break;
        case 2: m["abc"].push_back(x); e["abc"].push_back(x); break;
        case 3: m[k].push_back(x); e[k].push_back(x); break;
        case 4: { auto r = m.try_emplace(sv(k), 3, x); auto q = e.try_emplace(k, size_t(3), x); REQ(r.second == q.second && r.first->second == q.first->second); break; }
        default: { std::vector<int> v(size_t(x), x); auto r = m.try_emplace(k.c_str(), v); auto q = e.try_emplace(k, v); REQ(r.second == q.second && r.first->second == q.first->second); break; }
        }
        im[x] += 1; ie[x] += 1;
        auto r = im.try_emplace(x + 1, 5); auto q = ie.try_emplace(x + 1, 5);
        REQ(r.second == q.second);
        bool t1 = false, t2 = false;
        int probe = int(s.raw(12));
        try { im.at(probe); } catch (std::out_of_range&) { t1 = true; }
        try { ie.at(probe); } catch (std::out_of_range&) { t2 = true; }
        REQ(t1 == t2);
        REQ(m.size() == e.size() && im.size() == ie.size());
        for (auto& kv : e) REQ(m.at(sv(kv.first)) == kv.second);
        for (auto& kv : ie) REQ(im.at(kv.first) == kv.second);
    }
    auto copy = m;
    REQ(copy == m);
    copy[sv("something else")];
    REQ(copy != m);
}

// keys made of lvalues and rvalues: an rvalue is used up exactly when something is inserted, an lvalue never
struct Text { std::string s; bool alive = true; Text(std::string t) : s(std::move(t)) {}
    Text(Text&& o) noexcept : s(o.s), alive(o.alive) { o.alive = false; } Text(const Text&) = default; Text& operator=(const Text&) = default; };
struct Ticket { std::unique_ptr<std::string> p; Ticket(std::string t) : p(new std::string(std::move(t))) {} Ticket(Ticket&&) = default; };
struct CatKey
{
    std::string s; char how;
    explicit CatKey(const Text& t) : s(t.s), how('c') {}
    explicit CatKey(Text&& t) : s(t.s), how('m') { REQ(t.alive); t.alive = false; }
    explicit CatKey(Ticket&& t) : s(*t.p), how('t') { t.p.reset(); }
    CatKey(const CatKey&) = delete;
};
struct CatEq
{
    using is_transparent = void;
    static const std::string& str(const CatKey& k) { return k.s; }
    static const std::string& str(const Text& k) { REQM(k.alive, "a key was used after it was moved from"); return k.s; }
    static const std::string& str(const Ticket& k) { REQM(k.p, "a key was used after it was moved from"); return *k.p; }
    template <typename A, typename B> bool operator()(const A& a, const B& b) const { return str(a) == str(b); }
    template <typename A> size_t operator()(const A& a) const { return hash_of(str(a)); }
};
struct CatVal { int n; std::unique_ptr<int> p; CatVal() : n(0) {} CatVal(int x, std::unique_ptr<int>&& q) : n(x), p(std::move(q)) {} };

void categories(pbt::Source& s)
{
    itlib::transparent_umap<CatKey, CatVal, CatEq, CatEq> m;
    std::map<std::string, std::pair<char, int>> e;
    size_t n = 1 + s.small(25);
    for (size_t i = 0; i < n; ++i)
    {
        std::string k = literals[s.raw(6)];
        int x = int(s.raw(9));
        auto f = e.find(k);
        const bool has = f != e.end();
        unsigned op = unsigned(s.raw(9));
        TR("op " << op << " key " << k << (has ? " (present)" : ""));
        Text t(k);
        const Text ct(k);
        Ticket u(k);
        std::unique_ptr<int> v(new int(x));
        char how = 'c';
        bool val = true, ins = !has;
        switch (op)
        {
        case 0: ins = m.try_emplace(t, x, std::move(v)).second; REQM(t.alive, "an lvalue key was moved from"); break;
        case 1: ins = m.try_emplace(ct, x, std::move(v)).second; break;
        case 2: ins = m.try_emplace(std::move(t), x, std::move(v)).second; how = 'm'; REQM(t.alive == has, (has ? "a key was used up with nothing inserted" : "an rvalue key was not moved")); break;
        case 3: ins = m.try_emplace(std::move(u), x, std::move(v)).second; how = 't'; REQM(!!u.p == has, "an rvalue key with nothing inserted"); break;
        case 4: m.try_emplace(m.begin(), t, x, std::move(v)); REQM(t.alive, "an lvalue key was moved from"); break;
        case 5: m.try_emplace(m.cend(), std::move(t), x, std::move(v)); how = 'm'; REQ(t.alive == has); break;
        case 6: m.try_emplace(m.begin(), std::move(u), x, std::move(v)); how = 't'; REQ(!!u.p == has); break;
        case 7: m[t]; val = false; REQM(t.alive, "an lvalue key was moved from"); break;
        case 8: m[std::move(t)]; val = false; how = 'm'; REQ(t.alive == has); break;
        default: m[std::move(u)]; val = false; how = 't'; REQ(!!u.p == has); break;
        }
        REQ(ins == !has);
        REQM(!v == (val && !has), "the value's argument was " << (v ? "not used" : "used up with nothing inserted"));
        if (!has) e[k] = {how, val ? x : 0};
        REQ(m.size() == e.size());
        for (auto& kv : m)
        {
            auto q = e.find(kv.first.s);
            REQ(q != e.end());
            REQM(q->second.first == kv.first.how, "the key " << kv.first.s << " was made in the way '" << kv.first.how << "', expected '" << q->second.first << "'");
            REQ(q->second.second == kv.second.n && (!kv.second.p || *kv.second.p == kv.second.n));
        }
        if (op > 1) s.nontrivial();
    }
}

// how the key and the value's arguments arrive, for every kind of argument
struct FwTr
{
    using is_transparent = void;
    template <typename A, typename B> bool operator()(const A& a, const B& b) const { return a.v == b.v; }
    template <typename A> size_t operator()(const A& a) const { return size_t(a.v % 3); }
};
void forwarding_run(pbt::Source& s)
{
    using namespace fwd;
    using Map = itlib::transparent_umap<fwd::Probe, fwd::Probe, FwTr, FwTr>;
    Map m;
    struct E { char k, a, b; int v, w; };
    std::map<int, E> e;
    const size_t n = 1 + s.small(12);
    for (size_t i = 0; i < n; ++i)
    {
        const int key = int(s.raw(7)), v = int(s.raw(99)), w = int(s.raw(99));
        const bool has = e.count(key) != 0;
        const long before = fwd::Probe::made();
        const unsigned op = unsigned(s.raw(6));
        TR("op " << op << " key " << key << (has ? " (present)" : ""));
        Map::iterator it = m.end();
        bool ins = !has;
        E x{'?', '0', '0', 0, 0};
        give(s, key, [&](auto&& k, char kk) {
            x.k = kk;
            switch (op)
            {
            case 0: { auto r = m.try_emplace(FW(k)); it = r.first; ins = r.second; break; }
            case 1: give(s, v, [&](auto&& a, char ka) { x.a = ka; x.v = v; auto r = m.try_emplace(FW(k), FW(a)); it = r.first; ins = r.second; }); break;
            case 2: give2(s, v, w, [&](auto&& a, auto&& b, char ka, char kb) { x.a = ka; x.b = kb; x.v = v; x.w = w; auto r = m.try_emplace(FW(k), FW(a), FW(b)); it = r.first; ins = r.second; }); break;
            case 3: it = m.try_emplace(m.cend(), FW(k)); break;
            case 4: give(s, v, [&](auto&& a, char ka) { x.a = ka; x.v = v; it = m.try_emplace(m.cbegin(), FW(k), FW(a)); }); break;
            case 5: give2(s, v, w, [&](auto&& a, auto&& b, char ka, char kb) { x.a = ka; x.b = kb; x.v = v; x.w = w; it = m.try_emplace(m.cbegin(), FW(k), FW(a), FW(b)); }); break;
            default: { auto& val = m[FW(k)]; it = m.find(fwd::Arg{key}); REQ(it != m.end() && &it->second == &val); break; }
            }
        });
        REQ(ins == !has);
        REQM(it != m.end() && it->first.v == key, "the wrong element");
        if (!has) e[key] = x;
        const E& q = e[key];
        REQM(it->first.a == q.k && it->first.b == '0', "a key passed as '" << q.k << "' arrived as '" << it->first.a << "'");
        fwd::same(it->second, q.v, q.w, q.a, q.b);
        const long made = fwd::Probe::made() - before, want = has ? 0 : 1 + (x.a != '0');
        REQM(made == want, made << " objects were made from arguments, expected " << want);
        REQ(m.size() == e.size());
        if (!has && x.a != '0') s.nontrivial();
    }
}

PBT_REG(forwarding, forwarding_run, 10000);
PBT_REG(categories_, categories, 10000);
PBT_REG(transparent, (history<TrMap<Value>, true, false>), 40000);
PBT_REG(transparent_copies, (history<TrMap<Mov>, true, true>), 30000);
PBT_REG(ordinary, (history<PlMap<Value>, false, false>), 15000);
PBT_REG(ordinary_copies, (history<PlMap<Mov>, false, true>), 10000);
PBT_REG(half, (history<HalfMap<Value>, false, false>), 6000);
PBT_REG(std_types, plain_types, 10000);
}

// flat_map (P07) / flat_set (P08) against std::map over the same comparator.
#include "common.hpp"
#include "fwd.hpp"
#include <itlib/flat_map.hpp>
#include <itlib/flat_set.hpp>
#include <itlib/static_vector.hpp>
#include <itlib/small_vector.hpp>
#include <map>
#include <functional>

using namespace vt;

#if !defined(VT_SET)
#define VT_SET 0
#endif
constexpr bool is_set = VT_SET;

namespace
{
// keys ------------------------------------------------------------------------------------------
// a "view" key which is only comparable, not convertible (heterogeneous lookup)
struct KView { int v; };

struct SKey : std::string // string key with order consistent with ints 0..9999
{
    SKey() = default;
    explicit SKey(int i) { char b[16]; snprintf(b, sizeof b, "%04d", i); assign(b); if (i & 1) append("-a-rather-long-tail-which-does-not-fit-inline"); }
};

template <typename K> struct KeyOf;
template <> struct KeyOf<int> { static int make(int i) { return i; } static int get(int k) { return k; } };
template <> struct KeyOf<Tracked> { static Tracked make(int i) { return Tracked(i); } static int get(const Tracked& k) { return k.get(); } };
template <> struct KeyOf<MoveOnly> { static MoveOnly make(int i) { return MoveOnly(i); } static int get(const MoveOnly& k) { return k.get(); } };
template <> struct KeyOf<SKey> { static SKey make(int i) { return SKey(i); } static int get(const SKey& k) { if (k.size() < 4) FAIL("a moved-from or invalid key in the container"); return atoi(k.substr(0, 4).c_str()); } };

inline int kv(int i) { return i; }
inline int kv(const Tracked& t) { return t.get(); }
inline int kv(const MoveOnly& t) { return t.get(); }
inline int kv(const SKey& t) { return KeyOf<SKey>::get(t); }
inline int kv(const KView& t) { return t.v; }

bool operator<(const KView& a, int b) { return a.v < b; }
bool operator<(int a, const KView& b) { return a < b.v; }
bool operator<(const KView& a, const Tracked& b) { return a.v < b.get(); }
bool operator<(const Tracked& a, const KView& b) { return a.get() < b.v; }
bool operator<(const KView& a, const MoveOnly& b) { return a.v < b.get(); }
bool operator<(const MoveOnly& a, const KView& b) { return a.get() < b.v; }
bool operator<(const KView& a, const SKey& b) { return a.v < kv(b); }
bool operator<(const SKey& a, const KView& b) { return kv(a) < b.v; }

// comparators -----------------------------------------------------------------------------------
// plain: whatever the default of the flat type is (less)
// stateful: direction and coarseness (equivalence classes of several keys) chosen at run time
struct Stateful
{
    int dir = 1;
    int div = 1;
    Stateful() = default;
    Stateful(int d, int v) : dir(d), div(v) {}
    template <typename A, typename B>
    bool operator()(const A& a, const B& b) const { return dir > 0 ? kv(a) / div < kv(b) / div : kv(b) / div < kv(a) / div; }
};
struct Greater
{
    template <typename A, typename B>
    bool operator()(const A& a, const B& b) const { return kv(b) < kv(a); }
};

struct ModelCmp
{
    int dir = 1, div = 1;
    bool operator()(int a, int b) const { return dir > 0 ? a / div < b / div : b / div < a / div; }
};
template <typename C> ModelCmp model_cmp(const C&) { return {}; }
ModelCmp model_cmp(const Greater&) { ModelCmp m; m.dir = -1; return m; }
ModelCmp model_cmp(const Stateful& s) { ModelCmp m; m.dir = s.dir; m.div = s.div; return m; }

using Model = std::map<int, int, ModelCmp>;

constexpr size_t static_cap = 12;
struct UseVector { template <typename T> using type = std::vector<T>; static constexpr size_t cap = ~size_t(0); };
struct UseStatic { template <typename T> using type = itlib::static_vector<T, static_cap>; static constexpr size_t cap = static_cap; };
struct UseSmall { template <typename T> using type = itlib::small_vector<T, 4, 3>; static constexpr size_t cap = ~size_t(0); };

using DefaultCmp = std::conditional<is_set, itlib::fsimpl::less, itlib::fmimpl::less>::type;

template <typename K, typename Cmp, typename Use>
struct Types
{
#if VT_SET
    using value = K;
    using type = itlib::flat_set<K, Cmp, typename Use::template type<K>>;
#else
    using value = std::pair<K, int>;
    using type = itlib::flat_map<K, int, Cmp, typename Use::template type<std::pair<K, int>>>;
#endif
};

template <typename K, typename Cmp, typename Use>
struct Machine
{
    using F = typename Types<K, Cmp, Use>::type;
    using V = typename F::value_type;
    using KO = KeyOf<K>;
    static constexpr size_t cap = Use::cap;
    static constexpr bool copyable = std::is_copy_constructible<K>::value;
    static constexpr bool stateful = std::is_same<Cmp, Stateful>::value;
    static constexpr bool is_static = cap != ~size_t(0);

    pbt::Source& s;
    std::vector<std::unique_ptr<F>> sut;
    std::vector<Model> mod;
    int range;

    explicit Machine(pbt::Source& src) : s(src) { range = src.pick({12, 4, 30, 99}); }

    static int key(const V& v)
    {
        if constexpr (is_set) return KO::get(v); else return KO::get(v.first);
    }
    static int mapped(const V& v)
    {
        if constexpr (is_set) return 0; else return v.second;
    }
    static V mk(int k, int m)
    {
        if constexpr (is_set) { (void)m; return KO::make(k); } else return V(KO::make(k), m);
    }
    Cmp gen_cmp()
    {
        if constexpr (stateful) return Stateful(s.coin() ? -1 : 1, s.pick({1, 2, 3}));
        else return Cmp();
    }
    int gk() { return s.range<int>(0, range); }
    int gm() { return is_set ? 0 : s.range<int>(1, 999); }

    // full agreement of contents
    void check(size_t i)
    {
        const F& f = *sut[i];
        const Model& m = mod[i];
        REQ_EQ(f.size(), m.size());
        REQ_EQ(f.empty(), m.empty());
        REQ(f.max_size() >= f.size());
        REQ(f.capacity() >= f.size());
        auto mi = m.begin();
        size_t n = 0;
        for (auto it = f.begin(); it != f.end(); ++it, ++mi, ++n)
        {
            REQM(mi != m.end(), "iteration goes beyond the model");
            if (key(*it) != mi->first || (!is_set && mapped(*it) != mi->second))
                FAIL("element " << n << " is (" << key(*it) << "," << mapped(*it) << "), expected (" << mi->first << "," << (is_set ? 0 : mi->second) << ")");
        }
        REQ_EQ(n, m.size());
        REQ(size_t(f.cend() - f.cbegin()) == n && f.cbegin() == f.begin() && f.container().size() == n);
        auto mr = m.rbegin();
        for (auto it = f.rbegin(); it != f.rend(); ++it, ++mr) REQ_EQ(key(*it), mr->first);
        F& g = *sut[i];
        REQ(g.end() - g.begin() == ptrdiff_t(n) && g.rend() - g.rbegin() == ptrdiff_t(n));
    }

    size_t ix(size_t i, Model::iterator it) { return size_t(std::distance(mod[i].begin(), it)); }

    template <typename Q>
    void lookups(size_t i, int k, const Q& q, const char* what)
    {
        F& f = *sut[i];
        const F& c = f;
        Model& m = mod[i];
        TR("f" << i << " lookups of " << k << " as " << what);
        const size_t lb = ix(i, m.lower_bound(k)), ub = ix(i, m.upper_bound(k));
        auto mf = m.find(k);
        const size_t fi = mf == m.end() ? m.size() : ix(i, mf);
        REQ_EQ(size_t(f.lower_bound(q) - f.begin()), lb);
        REQ_EQ(size_t(c.lower_bound(q) - c.begin()), lb);
        REQ_EQ(size_t(f.upper_bound(q) - f.begin()), ub);
        REQ_EQ(size_t(c.upper_bound(q) - c.begin()), ub);
        auto e = f.equal_range(q);
        REQ_EQ(size_t(e.first - f.begin()), lb);
        REQ_EQ(size_t(e.second - f.begin()), ub);
        auto ce = c.equal_range(q);
        REQ_EQ(size_t(ce.first - c.begin()), lb);
        REQ_EQ(size_t(ce.second - c.begin()), ub);
        REQ_EQ(size_t(f.find(q) - f.begin()), fi);
        REQ_EQ(size_t(c.find(q) - c.begin()), fi);
        REQ_EQ(size_t(c.count(q)), size_t(m.count(k)));
        if (m.size() > 2) s.nontrivial();
    }

    // result of an insertion
    template <typename Res>
    void inserted(size_t i, const Res& r, int k, int m, const char* what)
    {
        auto mr = mod[i].insert(std::make_pair(k, m));
        REQM(r.second == mr.second, what << ": reports " << r.second << " for inserting key " << k);
        REQM(size_t(r.first - sut[i]->begin()) == ix(i, mr.first), what << " returned an iterator to another element");
        if (!mr.second) s.label("insert of an existing key");
        else if (mr.first != --mod[i].end()) { s.nontrivial(); s.label("insert before others"); }
    }

    bool full(size_t i, int k)
    {
        if (!is_static || mod[i].size() < cap || mod[i].count(k)) return false;
        return true;
    }
    template <typename Fn>
    void must_overflow(Fn fn)
    {
        bool threw = false;
        try { fn(); }
        catch (std::out_of_range&) { threw = true; }
        REQM(threw, "inserting into a full static_vector-based container did not throw");
        s.label("static overflow");
    }

    // contents after construction from a sequence: which of several equivalent elements is kept is unspecified
    void constructed(std::unique_ptr<F> f, const Cmp& cmp, const std::vector<std::pair<int, int>>& in, size_t at)
    {
        Model m(model_cmp(cmp));
        Model any(model_cmp(cmp));
        for (auto& p : in) any.insert(p);
        REQM(f->size() == any.size(), "construction from " << in.size() << " elements with " << any.size() << " distinct keys gives " << f->size());
        auto mi = any.begin();
        for (auto it = f->begin(); it != f->end(); ++it, ++mi)
        {
            int k = key(*it), v = mapped(*it);
            bool found = false;
            for (auto& p : in) if (p.first == k && (is_set || p.second == v)) found = true;
            REQM(found, "construction invented the element (" << k << "," << v << ")");
            REQM(!model_cmp(cmp)(k, mi->first) && !model_cmp(cmp)(mi->first, k), "construction: key " << k << " where one equivalent to " << mi->first << " was expected");
            m.insert(m.end(), std::make_pair(k, v));
        }
        if (in.size() != any.size()) s.label("construction with duplicates");
        if (in.size() > 2) s.nontrivial();
        if (at < sut.size()) { sut[at] = std::move(f); replace_model(at, m); }
        else { sut.push_back(std::move(f)); mod.push_back(m); }
        check(at);
    }
    void replace_model(size_t i, const Model& m) { Model c(m); std::swap(mod[i], c); }

    std::vector<std::pair<int, int>> gen_pairs()
    {
        size_t n = s.small(is_static ? size_t(cap) : 40);
        std::vector<std::pair<int, int>> r;
        for (size_t i = 0; i < n; ++i) { int k = gk(); r.emplace_back(k, gm()); }
        return r;
    }

    void make_new(size_t at)
    {
        Cmp cmp = gen_cmp();
        auto in = gen_pairs();
        unsigned kind = unsigned(s.raw(5));
        TR("f" << at << " = new container of " << in.size() << " elements, kind " << kind << PBT_STR([&]{ std::string x; for (auto& p : in) x += " " + std::to_string(p.first) + ":" + std::to_string(p.second); return x; }()));
        std::unique_ptr<F> f;
        if (kind == 0)
        {
            f.reset(new F);
            cmp = Cmp();
            in.clear();
        }
        else if (kind == 1)
        {
            if constexpr (is_static) f.reset(new F(typename F::container_type(), cmp));
            else f.reset(new F(cmp));
            in.clear();
        }
        else if (kind == 2 || !copyable)
        {
            typename F::container_type c;
            for (auto& p : in) c.push_back(mk(p.first, p.second));
            f.reset(new F(std::move(c), cmp));
        }
        else if constexpr (copyable && !is_static)
        {
            std::vector<V> v;
            for (auto& p : in) v.push_back(mk(p.first, p.second));
            if (kind == 3) f.reset(new F(v.begin(), v.end(), cmp));
            else if (kind == 4)
            {
                if (stateful) f.reset(new F(v.begin(), v.end(), cmp, typename F::allocator_type()));
                else f.reset(new F(v.begin(), v.end()));
            }
            else
            {
                in.resize(std::min<size_t>(in.size(), 5));
                v.resize(in.size(), mk(0, 0));
                switch (in.size())
                {
                case 0: f.reset(new F(std::initializer_list<V>{}, cmp)); break;
                case 1: f.reset(new F({v[0]}, cmp)); break;
                case 2: f.reset(new F({v[0], v[1]}, cmp)); break;
                case 3: f.reset(new F({v[0], v[1], v[2]}, cmp)); break;
                case 4: f.reset(new F({v[0], v[1], v[2], v[3]}, cmp)); break;
                default: f.reset(new F({v[0], v[1], v[2], v[3], v[4]}, cmp)); break;
                }
            }
        }
        else
        {
            f.reset(new F(cmp_container(in), cmp));
        }
        constructed(std::move(f), cmp, in, at);
    }
    typename F::container_type cmp_container(const std::vector<std::pair<int, int>>& in)
    {
        typename F::container_type c;
        for (auto& p : in) c.push_back(mk(p.first, p.second));
        return c;
    }

    void step(size_t op)
    {
        const size_t i = s.raw(sut.size() - 1);
        F& f = *sut[i];
        Model& m = mod[i];
        switch (op)
        {
        case 0: // insert const&
            if constexpr (copyable)
            {
                int k = gk(), v = gm();
                TR("f" << i << ".insert(const (" << k << "," << v << ")&)");
                const V x = mk(k, v);
                if (full(i, k)) { must_overflow([&] { f.insert(x); }); break; }
                inserted(i, f.insert(x), k, v, "insert(const&)");
                REQ(key(x) == k);
                break;
            }
            // fallthrough
        case 1: // insert &&
        {
            int k = gk(), v = gm();
            TR("f" << i << ".insert((" << k << "," << v << ")&&)");
            if (full(i, k)) { must_overflow([&] { f.insert(mk(k, v)); }); break; }
            inserted(i, f.insert(mk(k, v)), k, v, "insert(&&)");
            break;
        }
        case 2: // insert of something else convertible / lvalue
        {
            int k = gk(), v = gm();
            TR("f" << i << ".insert(other (" << k << "," << v << "))");
            if constexpr (!is_set)
            {
                if (full(i, k)) { must_overflow([&] { f.insert(std::make_pair(KO::make(k), short(v))); }); break; }
                inserted(i, f.insert(std::make_pair(KO::make(k), short(v))), k, v, "insert(convertible)");
            }
            else if constexpr (copyable)
            {
                V x = mk(k, v);
                if (full(i, k)) { must_overflow([&] { f.insert(x); }); break; }
                inserted(i, f.insert(x), k, v, "insert(lvalue)");
                REQM(KO::get(x) == k, "insert moved from an lvalue");
            }
            break;
        }
        case 3: // emplace
        {
            int k = gk(), v = gm();
            TR("f" << i << ".emplace(" << k << "," << v << ")");
            if constexpr (is_set)
            {
                if (full(i, k)) { must_overflow([&] { f.emplace(k); }); break; }
                inserted(i, f.emplace(k), k, v, "emplace");
            }
            else
            {
                if (full(i, k)) { must_overflow([&] { f.emplace(KO::make(k), v); }); break; }
                inserted(i, f.emplace(KO::make(k), v), k, v, "emplace");
            }
            break;
        }
        case 4: // operator[]
            if constexpr (!is_set)
            {
                int k = gk(), v = gm();
                unsigned how = unsigned(s.raw(3));
                TR("f" << i << "[" << k << "] kind " << how << " = " << v);
                if (full(i, k)) { must_overflow([&] { f[KO::make(k)]; }); break; }
                bool had = m.count(k);
                if (how == 0)
                {
                    int& r = f[KO::make(k)];
                    REQM(r == (had ? m[k] : 0), "operator[] gives " << r << " for key " << k);
                    if (!had) m[k] = 0;
                }
                else if (how == 1) { f[KO::make(k)] = v; m[k] = v; }
                else if (how == 2)
                {
                    const K kk = KO::make(k);
                    if constexpr (copyable) { f[kk] = v; m[k] = v; REQ(KO::get(kk) == k); }
                }
                else
                {
                    if constexpr (copyable)
                    {
                        K kk = KO::make(k);
                        f[kk] += 1;
                        m[k] += 1;
                        REQM(KO::get(kk) == k, "operator[] moved from an lvalue key");
                    }
                }
                if (!had) s.nontrivial();
            }
            break;
        case 5: // at
            if constexpr (!is_set)
            {
                int k = gk();
                const K kk = KO::make(k);
                const F& c = f;
                TR("f" << i << ".at(" << k << ")");
                auto it = m.find(k);
                int got = -1, cgot = -1;
                bool t1 = false, t2 = false;
                try { got = f.at(kk); } catch (std::out_of_range&) { t1 = true; }
                try { cgot = c.at(kk); } catch (std::out_of_range&) { t2 = true; }
                REQM(t1 == (it == m.end()) && t2 == t1, "at(" << k << ") throws " << t1 << "/" << t2);
                if (!t1)
                {
                    REQ_EQ(got, it->second);
                    REQ_EQ(cgot, it->second);
                    f.at(kk) = it->second = gm();
                }
                else s.label("at throws");
            }
            break;
        case 6: { int k = s.range<int>(0, range + 2); K q = KO::make(k); lookups(i, k, q, "key"); break; }
        case 7: { int k = s.range<int>(0, range + 2); lookups(i, k, KView{k}, "view"); break; }
        case 8: // erase by key
        {
            int k = gk();
            TR("f" << i << ".erase(key " << k << ")");
            size_t r;
            if (s.coin()) r = f.erase(KO::make(k));
            else r = f.erase(KView{k});
            size_t e = m.erase(k);
            REQM(r == e, "erase(key) returned " << r << " instead of " << e);
            if (e) { s.nontrivial(); s.label("erase"); }
            break;
        }
        case 9: // erase by iterator
        {
            if (m.empty()) break;
            size_t at = s.raw(m.size() - 1);
            bool ci = s.coin();
            TR("f" << i << ".erase(" << (ci ? "const_" : "") << "iterator " << at << ")");
            auto mi = std::next(m.begin(), at);
            m.erase(mi);
            typename F::iterator r = ci ? f.erase(f.cbegin() + at) : f.erase(f.begin() + at);
            REQM(size_t(r - f.begin()) == at, "erase returned a wrong iterator");
            s.nontrivial();
            s.label("erase");
            break;
        }
        case 10: TR("f" << i << ".clear()"); f.clear(); m.clear(); REQ(f.begin() == f.end()); break;
        case 11: // swap
        {
            size_t j = s.raw(sut.size() - 1);
            TR("f" << i << ".swap(f" << j << ")");
            if (i == j) break;
            f.swap(*sut[j]);
            std::swap(mod[i], mod[j]);
            s.nontrivial();
            s.label("swap");
            check(j);
            break;
        }
        case 12: // copy
            if constexpr (copyable)
            {
                size_t j = s.raw(sut.size() - 1);
                if (s.coin())
                {
                    TR("f" << j << " = f" << i << " (copy)");
                    F& r = (*sut[j] = f);
                    REQ(&r == sut[j].get());
                    replace_model(j, Model(m));
                }
                else
                {
                    TR("f" << j << " = new copy of f" << i);
                    std::unique_ptr<F> c(new F(f));
                    Model mm(m);
                    sut[j] = std::move(c);
                    replace_model(j, mm);
                }
                check(j);
                REQ(*sut[j] == *sut[i] && !(*sut[j] != *sut[i]));
                s.nontrivial();
                s.label("copy");
            }
            break;
        case 13: // move
        {
            size_t j = s.raw(sut.size() - 1);
            if (i == j) break;
            if (s.coin())
            {
                TR("f" << j << " = move(f" << i << ")");
                *sut[j] = std::move(f);
                replace_model(j, m);
            }
            else
            {
                TR("f" << j << " = new from move(f" << i << ")");
                std::unique_ptr<F> c(new F(std::move(f)));
                sut[j] = std::move(c);
                replace_model(j, m);
            }
            check(j);
            f.clear(); // valid but unspecified before this
            m.clear();
            s.nontrivial();
            s.label("move");
            break;
        }
        case 14: make_new(i); break;
        case 15: // capacity
        {
            size_t n = s.small(is_static ? size_t(cap) : 40);
            TR("f" << i << ".reserve(" << n << ")");
            if constexpr (!is_static) f.reserve(n);
            REQ(is_static || f.capacity() >= n);
            break;
        }
        case 16: // comparison
        {
            size_t j = s.raw(sut.size() - 1);
            bool eq = m.size() == mod[j].size() && std::equal(m.begin(), m.end(), mod[j].begin(),
                [](const std::pair<const int, int>& a, const std::pair<const int, int>& b) { return a.first == b.first && (is_set || a.second == b.second); });
            TR("f" << i << " == f" << j << " -> " << eq);
            const F& a = f;
            const F& b = *sut[j];
            REQ_EQ(a == b, eq);
            REQ_EQ(a != b, !eq);
            break;
        }
        case 17: // write through iterators / the container
            if constexpr (!is_set)
            {
                if (m.empty()) break;
                size_t at = s.raw(m.size() - 1);
                int v = gm();
                TR("f" << i << " value at position " << at << " = " << v);
                std::next(m.begin(), at)->second = v;
                if (s.coin()) (f.begin() + at)->second = v;
                else (f.modify_container().begin() + at)->second = v;
            }
            else
            {
                auto& c = f.modify_container();
                REQ(&c == &f.container());
                if (!m.empty() && s.coin())
                {
                    TR("f" << i << ".modify_container().pop_back()");
                    c.pop_back();
                    m.erase(std::prev(m.end()));
                }
            }
            break;
        case 18: // insert an element again through its own content
            if constexpr (copyable)
            {
                if (m.empty()) break;
                size_t at = s.raw(m.size() - 1);
                auto mi = std::next(m.begin(), at);
                TR("f" << i << ".insert(its own element " << at << ")");
                auto r = f.insert(*(f.begin() + at));
                REQ(!r.second && size_t(r.first - f.begin()) == at);
                if constexpr (!is_set) { REQ_EQ(f[(f.begin() + at)->first], mi->second); }
                (void)mi;
            }
            break;
        }
        check(i);
    }

    void run()
    {
        const unsigned base[] = {6, 8, 3, 5, 6, 3, 4, 4, 6, 5, 1, 2, 3, 3, 3, 1, 2, 2, 2};
        pbt::Swarm<19> sw(s, base);
        size_t n = 1 + s.raw(2);
        for (size_t i = 0; i < n; ++i) make_new(i);
        size_t steps = 1 + s.small(60);
        for (size_t k = 0; k < steps && !(k > 3 && s.out_of_data()); ++k) step(sw.next(s));
        for (size_t i = 0; i < sut.size(); ++i)
        {
            check(i);
            for (int k = 0; k <= range + 1 && k < 40; ++k)
            {
                REQ_EQ(size_t(sut[i]->count(KView{k})), mod[i].count(k));
            }
        }
        sut.clear();
    }
};

template <typename K, typename Cmp, typename Use>
void drive(pbt::Source& s)
{
    arena_reset();
    {
        Machine<K, Cmp, Use> m(s);
        m.run();
    }
    REQM(live() == 0, live() << " elements are alive after the containers are gone");
}
} // namespace

PBT_REG(int_vec, (drive<int, DefaultCmp, UseVector>), 30000);
PBT_REG(tracked_vec, (drive<Tracked, DefaultCmp, UseVector>), 30000);
PBT_REG(tracked_stateful_vec, (drive<Tracked, Stateful, UseVector>), 40000);
PBT_REG(moveonly_vec, (drive<MoveOnly, DefaultCmp, UseVector>), 20000);
PBT_REG(string_vec, (drive<SKey, DefaultCmp, UseVector>), 20000);
PBT_REG(int_greater_static, (drive<int, Greater, UseStatic>), 20000);
PBT_REG(tracked_stateful_static, (drive<Tracked, Stateful, UseStatic>), 30000);
PBT_REG(tracked_stateful_small, (drive<Tracked, Stateful, UseSmall>), 30000);
PBT_REG(string_small, (drive<SKey, Stateful, UseSmall>), 20000);

// arguments arrive as they were given, and are not used when nothing is inserted
namespace
{
template <typename C>
void forwarding_run(pbt::Source& s)
{
    using fwd::Probe; using fwd::Arg;
    C c;
    std::map<int, Probe> m;
    size_t n = 1 + s.small(15);
    for (size_t i = 0; i < n; ++i)
    {
        const int v = s.range<int>(1, 12), w = s.range<int>(1, 9);
        const bool has = m.count(v) != 0;
        const unsigned op = unsigned(s.raw(3));
        const long made = Probe::made();
        long expect = !has;
        bool ins = !has;
        fwd::give2(s, v, w, [&](auto&& x, auto&& y, char k, char l) {
            TR("op " << op << " of " << v << ", " << w << " '" << k << l << "'" << (has ? " (present)" : ""));
            (void)l;
#if VT_SET
            (void)y;
            bool two = false;
            auto it = c.begin();
            switch (op)
            {
            case 0: case 1: { auto r = c.insert(FW(x)); it = r.first; ins = r.second; break; }
            case 2: { auto r = c.emplace(FW(x)); it = r.first; ins = r.second; expect = 1; break; }
            default: { two = true; auto r = c.emplace(FW(x), FW(y)); it = r.first; ins = r.second; expect = 1; break; }
            }
            REQ_EQ(it->v, v);
            if (!has) { if (two) fwd::same(*it, v, w, k, l); else fwd::same(*it, v, k); m[v] = *it; }
#else
            switch (op)
            {
            case 0: // all of the pair comes as the pair does
            {
                std::pair<Arg, Arg> p(x, y);
                if (k == 'r') { auto r = c.insert(std::move(p)); ins = r.second; if (ins) { fwd::same(r.first->first, v, 'r'); fwd::same(r.first->second, w, 'r'); } }
                else { k = 'c'; auto r = c.insert(p); ins = r.second; if (ins) { fwd::same(r.first->first, v, 'c'); fwd::same(r.first->second, w, 'c'); } }
                expect = 2 * !has;
                break;
            }
            case 1:
            {
                auto r = c.emplace(FW(x), FW(y));
                ins = r.second; expect = 2;
                if (ins) { fwd::same(r.first->first, v, k); fwd::same(r.first->second, w, l); }
                break;
            }
            default:
            {
                Probe& r = c[FW(x)];
                REQM(&r == &c.find(Arg{v})->second, "[] refers to another element");
                if (!has) REQ_EQ(r.v, 0);
                break;
            }
            }
            auto it = c.find(Arg{v});
            REQ(it != c.end());
            REQ_EQ(it->first.v, v);
            if (!has) { fwd::same(it->first, v, k); m[v] = it->first; }
#endif
        });
        REQ_EQ(ins, !has);
        REQM(Probe::made() == made + expect, Probe::made() - made << " objects were made of the arguments, not " << expect);
        REQ_EQ(c.size(), m.size());
        auto q = m.begin();
        for (auto& e : c)
        {
#if VT_SET
            const Probe& p = e;
#else
            const Probe& p = e.first;
#endif
            REQM(p.v == q->second.v && p.w == q->second.w && p.a == q->second.a && p.b == q->second.b, "the key " << q->second.v << " changed");
            ++q;
        }
        if (has) s.nontrivial();
    }
}
#if VT_SET
using FwVec = itlib::flat_set<fwd::Probe, fwd::Less>;
using FwStatic = itlib::flat_set<fwd::Probe, fwd::Less, itlib::static_vector<fwd::Probe, 15>>;
#else
using FwVec = itlib::flat_map<fwd::Probe, fwd::Probe, fwd::Less>;
using FwStatic = itlib::flat_map<fwd::Probe, fwd::Probe, fwd::Less, itlib::static_vector<std::pair<fwd::Probe, fwd::Probe>, 15>>;
#endif
}
PBT_REG(forwarding, forwarding_run<FwVec>, 10000);
PBT_REG(forwarding_static, forwarding_run<FwStatic>, 10000);

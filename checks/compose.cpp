// library types as elements, mapped values, keys, contents, values and errors of one another: trees of them, edited at any level (P36)
#include "common.hpp"
#include <itlib/any.hpp>
#include <itlib/dynamic_bitset.hpp>
#include <itlib/expected.hpp>
#include <itlib/flat_map.hpp>
#include <itlib/flat_set.hpp>
#include <itlib/mem_streambuf.hpp>
#include <itlib/memory_view.hpp>
#include <itlib/pod_vector.hpp>
#include <itlib/poly_span.hpp>
#include <itlib/qalgorithm.hpp>
#include <itlib/rstream.hpp>
#include <itlib/sentry.hpp>
#include <itlib/small_vector.hpp>
#include <itlib/span.hpp>
#include <itlib/static_vector.hpp>
#include <itlib/stride_span.hpp>
#include <itlib/ufunction.hpp>
#if __cplusplus >= 202002L
#include <itlib/generator.hpp>
#endif
#include <algorithm>
#include <istream>
#include <map>
#include <ostream>
#include <set>
#include <sstream>
#include <string>
#include <vector>

using namespace vt;

namespace
{
struct VBase { virtual ~VBase() = default; virtual int kind() const = 0; };
enum Kind { k_empty, k_leaf, k_small, k_static, k_map, k_smallmap, k_staticmap, k_exp, k_experr, k_pod, k_bits, k_set, k_fn, k_box, k_strs, k_nums, kinds };
const char tags[] = "_LSTMNQXYPBFUWZR";

struct V : VBase
{
    itlib::any<> a;
    V() = default;
    V(const V&) = default;
    V(V&&) = default;
    V& operator=(const V&) = default;
    V& operator=(V&&) = default;
    int kind() const override;
};

struct Lex
{
    using is_transparent = int;
    template <typename A, typename B> bool operator()(const A& a, const B& b) const { return std::lexicographical_compare(a.begin(), a.end(), b.begin(), b.end()); }
};
using SV = itlib::small_vector<V, 2, 1>;
using TV = itlib::static_vector<V, 5>;
using FM = itlib::flat_map<std::string, V>;
using FN = itlib::flat_map<itlib::small_vector<char, 4>, V, Lex, itlib::small_vector<std::pair<itlib::small_vector<char, 4>, V>, 2>>;
using FQ = itlib::flat_map<itlib::static_vector<char, 4>, V, Lex, itlib::static_vector<std::pair<itlib::static_vector<char, 4>, V>, 5>>;
using EX = itlib::expected<SV, Tracked>;
using EY = itlib::expected<Tracked, V>;
using PV = itlib::pod_vector<int>;
using DB = itlib::dynamic_bitset<itlib::small_vector<uint8_t, 3>>;
using FS = itlib::flat_set<itlib::static_vector<int, 4>, Lex, itlib::small_vector<itlib::static_vector<int, 4>, 2>>;
using FN_ = itlib::ufunction<std::string(std::string)>;
using SS = itlib::static_vector<itlib::small_vector<std::string, 2>, 4>; // rows of strings
using RT = itlib::small_vector<itlib::static_vector<Tracked, 3>, 2, 1>; // rows of leaves
struct Box { V v; };

int V::kind() const
{
    const auto& t = a.type();
    if (!a) return k_empty;
    if (t == typeid(Tracked)) return k_leaf;
    if (t == typeid(SV)) return k_small;
    if (t == typeid(TV)) return k_static;
    if (t == typeid(FM)) return k_map;
    if (t == typeid(FN)) return k_smallmap;
    if (t == typeid(FQ)) return k_staticmap;
    if (t == typeid(EX)) return k_exp;
    if (t == typeid(EY)) return k_experr;
    if (t == typeid(PV)) return k_pod;
    if (t == typeid(DB)) return k_bits;
    if (t == typeid(FS)) return k_set;
    if (t == typeid(FN_)) return k_fn;
    if (t == typeid(Box)) return k_box;
    if (t == typeid(SS)) return k_strs;
    if (t == typeid(RT)) return k_nums;
    FAIL("an any holds a " << t.name());
}
template <typename T> T& get(V& v) { T* p = itlib::any_cast<T>(&v.a); REQM(p, "any_cast to the type stored fails"); return *p; }
template <typename T> const T& get(const V& v) { const T* p = itlib::any_cast<T>(&v.a); REQM(p, "any_cast to the type stored fails"); return *p; }

// ---- the model
struct M
{
    int kind = k_empty;
    int leaf = 0;            // leaf; error of k_exp; value of k_experr
    bool ok = true;          // k_exp: has value; k_experr: has value
    std::vector<M> kids;     // elements, error of k_experr, content of k_box, captured by k_fn
    std::vector<std::string> keys;
    std::vector<int> ints;
    std::vector<bool> bits;
    std::set<std::vector<int>> set;
    std::vector<std::vector<std::string>> rows;
    std::vector<std::vector<int>> nums;
};
int size(const M& m) { int n = 1; for (auto& k : m.kids) n += size(k); return n; }
int depth(const M& m) { int n = 0; for (auto& k : m.kids) n = std::max(n, depth(k)); return n + 1; }
long leaves(const M& m)
{
    long n = m.kind == k_leaf || (m.kind == k_exp && !m.ok) || (m.kind == k_experr && m.ok);
    for (auto& k : m.kids) n += leaves(k);
    for (auto& k : m.nums) n += long(k.size());
    return n;
}
bool copyable(const M& m)
{
    if (m.kind == k_exp || m.kind == k_experr || m.kind == k_fn) return false;
    for (auto& k : m.kids) if (!copyable(k)) return false;
    return true;
}
bool is_map(int k) { return k == k_map || k == k_smallmap || k == k_staticmap; }

// ---- text of both, the same grammar
void text(std::ostream& o, const M& m)
{
    o << tags[m.kind];
    switch (m.kind)
    {
    case k_leaf: o << m.leaf << ' '; break;
    case k_exp: if (!m.ok) { o << '!' << m.leaf << ' '; break; } o << '='; // fallthrough
    case k_small: case k_static: o << m.kids.size() << ' '; for (auto& k : m.kids) text(o, k); break;
    case k_map: case k_smallmap: case k_staticmap: o << m.kids.size() << ' '; for (size_t i = 0; i < m.kids.size(); ++i) { o << m.keys[i] << ' '; text(o, m.kids[i]); } break;
    case k_experr: if (m.ok) { o << '=' << m.leaf << ' '; } else { o << '!'; text(o, m.kids[0]); } break;
    case k_pod: o << m.ints.size() << ' '; for (int x : m.ints) o << x << ' '; break;
    case k_bits: o << m.bits.size() << ' '; for (bool b : m.bits) o << b; o << ' '; break;
    case k_set: o << m.set.size() << ' '; for (auto& e : m.set) { o << e.size() << ' '; for (int x : e) o << x << ' '; } break;
    case k_fn: case k_box: text(o, m.kids[0]); break;
    case k_strs: o << m.rows.size() << ' '; for (auto& r : m.rows) { o << r.size() << ' '; for (auto& x : r) o << x << ' '; } break;
    case k_nums: o << m.nums.size() << ' '; for (auto& r : m.nums) { o << r.size() << ' '; for (auto& x : r) o << x << ' '; } break;
    }
}
std::string text(const M& m) { std::ostringstream o; text(o, m); return o.str(); }

template <typename C> std::string key_text(const C& c) { return std::string(c.begin(), c.end()); }
void text(std::ostream& o, const V& v);
template <typename C> void seq_text(std::ostream& o, const C& c)
{
    o << c.size() << ' ';
    size_t n = 0;
    // through one of the views
    switch (c.size() % 4)
    {
    case 0: for (auto& x : c) { text(o, x); ++n; } break;
    case 1: for (auto& x : itlib::make_span(c)) { text(o, x); ++n; } break;
    case 2:
    {
        itlib::stride_span<const V> sp = itlib::make_stride_span_from_array(c.data(), c.size());
        for (auto& x : sp) { text(o, x); ++n; }
        break;
    }
    default:
    {
        itlib::poly_span<const VBase&> ps(c.data(), c.size(), [](const V& v) -> const VBase& { return v; });
        for (auto i = ps.begin(); i != ps.end(); ++i) { text(o, static_cast<const V&>(*i)); ++n; }
    }
    }
    REQ(n == c.size());
}
template <typename C> void map_text(std::ostream& o, const C& c)
{
    o << c.size() << ' ';
    for (auto& e : c) { o << key_text(e.first) << ' '; text(o, e.second); }
}
void text(std::ostream& o, const V& v)
{
    const int k = v.kind();
    o << tags[k];
    switch (k)
    {
    case k_leaf: o << get<Tracked>(v).get() << ' '; break;
    case k_small: seq_text(o, get<SV>(v)); break;
    case k_static: seq_text(o, get<TV>(v)); break;
    case k_map: map_text(o, get<FM>(v)); break;
    case k_smallmap: map_text(o, get<FN>(v)); break;
    case k_staticmap: map_text(o, get<FQ>(v)); break;
    case k_exp: { auto& e = get<EX>(v); if (e) { o << '='; seq_text(o, *e); } else o << '!' << e.error().get() << ' '; break; }
    case k_experr: { auto& e = get<EY>(v); if (e.has_value()) o << '=' << e->get() << ' '; else { o << '!'; text(o, e.error()); } break; }
    case k_pod: { auto& p = get<PV>(v); o << p.size() << ' '; for (int x : p) o << x << ' '; break; }
    case k_bits: { auto& b = get<DB>(v); o << b.size() << ' '; for (size_t i = 0; i < b.size(); ++i) o << b[i]; o << ' '; break; }
    case k_set: { auto& b = get<FS>(v); o << b.size() << ' '; for (auto& e : b) { o << e.size() << ' '; for (int x : e) o << x << ' '; } break; }
    case k_fn: o << get<FN_>(v)(""); break;
    case k_box: text(o, get<Box>(v).v); break;
    case k_strs: { auto& b = get<SS>(v); o << b.size() << ' '; for (auto& r : b) { o << r.size() << ' '; for (auto& x : r) o << x << ' '; } break; }
    case k_nums: { auto& b = get<RT>(v); o << b.size() << ' '; for (auto& r : b) { o << r.size() << ' '; for (auto& x : r) o << x.get() << ' '; } break; }
    }
}
struct Shown { V v; std::string operator()(std::string pre) const { std::ostringstream o; text(o, v); return pre + o.str(); } }; // what a ufunction holds

// ---- reading it again
template <typename C> C read_key(std::istream& i) { std::string s; i >> s; return C(s.begin(), s.end()); }
V read(std::istream& i);
template <typename C> C read_seq(std::istream& i) { size_t n; i >> n; C c; for (size_t k = 0; k < n; ++k) c.push_back(read(i)); return c; }
template <typename C> C read_map(std::istream& i)
{
    size_t n; i >> n;
    C c;
    for (size_t k = 0; k < n; ++k) { auto key = read_key<typename C::key_type>(i); c[std::move(key)] = read(i); }
    return c;
}
V read(std::istream& i)
{
    V v;
    char t = 0;
    i >> t;
    size_t n = 0;
    switch (std::find(tags, tags + kinds, t) - tags)
    {
    case k_empty: break;
    case k_leaf: { int x; i >> x; v.a = Tracked(x); break; }
    case k_small: v.a = read_seq<SV>(i); break;
    case k_static: v.a = read_seq<TV>(i); break;
    case k_map: v.a = read_map<FM>(i); break;
    case k_smallmap: v.a = read_map<FN>(i); break;
    case k_staticmap: v.a = read_map<FQ>(i); break;
    case k_exp: { char c; i >> c; if (c == '=') v.a.emplace<EX>(read_seq<SV>(i)); else { int x; i >> x; v.a.emplace<EX>(itlib::unexpected(Tracked(x))); } break; }
    case k_experr: { char c; i >> c; if (c == '=') { int x; i >> x; v.a = EY(Tracked(x)); } else v.a = EY(itlib::unexpected(read(i))); break; }
    case k_pod: { i >> n; PV p; for (size_t k = 0; k < n; ++k) { int x; i >> x; p.push_back(x); } v.a = std::move(p); break; }
    case k_bits: { i >> n; i.get(); DB b; for (size_t k = 0; k < n; ++k) b.push_back(i.get() == '1'); v.a = std::move(b); break; }
    case k_set:
    {
        i >> n;
        FS b;
        for (size_t k = 0; k < n; ++k) { size_t l; i >> l; itlib::static_vector<int, 4> e; for (size_t j = 0; j < l; ++j) { int x; i >> x; e.push_back(x); } b.insert(std::move(e)); }
        v.a = std::move(b);
        break;
    }
    case k_fn: v.a = FN_(Shown{read(i)}); break;
    case k_box: v.a = Box{read(i)}; break;
    case k_strs:
    {
        i >> n;
        SS b;
        for (size_t k = 0; k < n; ++k) { size_t l; i >> l; b.emplace_back(); for (size_t j = 0; j < l; ++j) { std::string x; i >> x; b.back().push_back(x); } }
        v.a = std::move(b);
        break;
    }
    case k_nums:
    {
        i >> n;
        RT b;
        for (size_t k = 0; k < n; ++k) { size_t l; i >> l; b.emplace_back(); for (size_t j = 0; j < l; ++j) { int x; i >> x; b.back().emplace_back(x); } }
        v.a = std::move(b);
        break;
    }
    default: FAIL("read '" << t << "' (" << int(t) << ") instead of a kind, state " << i.rdstate());
    }
    return v;
}
template <typename Container> V through_streams(const V& v, const std::string& want, size_t reserve, size_t pre)
{
    Container data;
    {
        itlib::mem_ostreambuf<Container> buf(reserve);
        std::ostream o(&buf);
        o << std::string(pre, '#');
        text(o, v);
        REQ(o.good());
        data = buf.get_container();
    }
    REQM(std::string(data.begin(), data.end()) == std::string(pre, '#') + want, "the buffer holds \"" << std::string(data.begin(), data.end()) << "\", written was \"" << want << "\"");
    itlib::mem_istreambuf<char> buf(data.data(), data.size());
    std::istream in(&buf);
    V r;
    if (pre % 2)
    {
        in.seekg(std::streamoff(pre));
        r = read(in);
    }
    else // by turns with a redirected stream
    {
        itlib::redirect_rstream rs(in, std::streampos(std::streamoff(pre)));
        std::string all(want.size(), 0);
        rs.read(&all[0], std::streamsize(all.size()));
        REQM(all == want, "a redirected stream gives \"" << all << "\"");
        std::istringstream is(all);
        r = read(is);
    }
    return r;
}

// ---- nodes
struct Ref { V* v; M* m; std::vector<int> path; }; // path: root, child, child, ...
V& child(V& v, int k, size_t i)
{
    switch (k)
    {
    case k_small: return get<SV>(v)[i];
    case k_static: return get<TV>(v).at(i);
    case k_map: return (get<FM>(v).begin() + std::ptrdiff_t(i))->second;
    case k_smallmap: return (get<FN>(v).begin() + std::ptrdiff_t(i))->second;
    case k_staticmap: return (get<FQ>(v).begin() + std::ptrdiff_t(i))->second;
    case k_exp: return get<EX>(v).value()[i];
    case k_experr: return get<EY>(v).error();
    default: return get<Box>(v).v;
    }
}
enum { roots = 3, max_nodes = 60, max_depth = 7 };
struct Forest { V v[roots]; M m[roots]; };

Ref pick(pbt::Source& s, Forest& f, bool stop_at_parent = false)
{
    int r = int(s.raw(roots - 1));
    Ref x{&f.v[r], &f.m[r], {r}};
    while (!x.m->kids.empty() && x.m->kind != k_fn && s.chance(2, 3))
    {
        size_t i = s.range<size_t>(0, x.m->kids.size() - 1);
        x.v = &child(*x.v, x.m->kind, i);
        x.m = &x.m->kids[i];
        x.path.push_back(int(i));
    }
    (void)stop_at_parent;
    return x;
}
bool inside(const Ref& a, const Ref& b) // a is b or in b
{
    return a.path.size() >= b.path.size() && std::equal(b.path.begin(), b.path.end(), a.path.begin());
}
std::string name(const Ref& r) { std::string s = "n"; for (int i : r.path) s += "." + std::to_string(i); return s; }

// ---- new content
void fresh(pbt::Source& s, V& v, M& m)
{
    m = M();
    m.kind = int(s.raw(kinds - 1));
    switch (m.kind)
    {
    case k_empty: v.a.reset(); break;
    case k_leaf: m.leaf = int(s.raw(999)); if (s.coin()) v.a = Tracked(m.leaf); else v.a.emplace<Tracked>(m.leaf); break;
    case k_small: v.a.emplace<SV>(); break;
    case k_static: v.a = TV(); break;
    case k_map: v.a = FM(); break;
    case k_smallmap: v.a.emplace<FN>(); break;
    case k_staticmap: v.a = FQ(); break;
    case k_exp: m.ok = s.coin(); m.leaf = int(s.raw(999)); if (m.ok) v.a = EX(); else v.a = EX(itlib::unexpected(Tracked(m.leaf))); break;
    case k_experr:
        m.ok = s.coin(); m.leaf = int(s.raw(999));
        if (m.ok) v.a.emplace<EY>(Tracked(m.leaf));
        else { m.kids.resize(1); v.a.emplace<EY>(itlib::unexpected(V())); }
        break;
    case k_pod: v.a = PV(); break;
    case k_bits: v.a = DB(); break;
    case k_set: v.a = FS(); break;
    case k_fn: v.a = FN_(Shown{V()}); m.kids.resize(1); break;
    case k_box: v.a = Box{V()}; m.kids.resize(1); break;
    case k_strs: v.a.emplace<SS>(); break;
    case k_nums: v.a.emplace<RT>(); break;
    }
}

std::string gen_key(pbt::Source& s) { std::string k(1 + s.raw(2), 'a'); for (auto& c : k) c = char('a' + s.raw(2)); return k; }
template <typename K> typename std::enable_if<std::is_same<K, std::string>::value, K>::type mk_key(const std::string& x) { return x; }
template <typename K> typename std::enable_if<!std::is_same<K, std::string>::value, K>::type mk_key(const std::string& x) { return K(x.begin(), x.end()); }

// new content with what is in it
void build(pbt::Source& s, V& v, M& m, int levels, int& room);
template <typename C> void fill_seq(pbt::Source& s, C& c, M& m, int levels, int& room)
{
    for (size_t n = s.raw(4); n && room > 0; --n)
    {
        c.emplace_back();
        m.kids.emplace_back();
        build(s, c.back(), m.kids.back(), levels - 1, room);
    }
}
template <typename C> void fill_map(pbt::Source& s, C& c, M& m, int levels, int& room)
{
    for (size_t n = s.raw(4); n && room > 0; --n)
    {
        std::string k = gen_key(s);
        auto at = std::lower_bound(m.keys.begin(), m.keys.end(), k);
        if (at != m.keys.end() && *at == k) continue;
        M t;
        build(s, c[mk_key<typename C::key_type>(k)], t, levels - 1, room);
        m.kids.insert(m.kids.begin() + (at - m.keys.begin()), t);
        m.keys.insert(at, k);
    }
}
void build(pbt::Source& s, V& v, M& m, int levels, int& room)
{
    --room;
    if (levels <= 0) { m.kind = k_leaf; m.leaf = int(s.raw(999)); v.a = Tracked(m.leaf); return; }
    fresh(s, v, m);
    switch (m.kind)
    {
    case k_small: fill_seq(s, get<SV>(v), m, levels, room); break;
    case k_static: fill_seq(s, get<TV>(v), m, levels, room); break;
    case k_exp: if (m.ok) fill_seq(s, get<EX>(v).value(), m, levels, room); break;
    case k_experr: if (!m.ok) build(s, get<EY>(v).error(), m.kids[0], levels - 1, room); break;
    case k_map: fill_map(s, get<FM>(v), m, levels, room); break;
    case k_smallmap: fill_map(s, get<FN>(v), m, levels, room); break;
    case k_staticmap: fill_map(s, get<FQ>(v), m, levels, room); break;
    case k_box: build(s, get<Box>(v).v, m.kids[0], levels - 1, room); break;
    case k_fn: { V t; build(s, t, m.kids[0], levels - 1, room); v.a = FN_(Shown{std::move(t)}); break; }
    }
}

// a copy or what is moved out of a node; false: could not be copied
bool take(pbt::Source& s, Forest& f, const Ref* into, V& v, M& m, int room)
{
    if (s.chance(1, 3))
    {
        int left = std::min(room, 12);
        m = M();
        build(s, v, m, int(s.raw(3)), left);
        if (size(m) <= room) { TR("  of new " << text(m)); return true; }
        v = V();
        m = M();
    }
    Ref r = pick(s, f);
    const bool mv = s.coin() && !(into && inside(*into, r));
    if (size(*r.m) > room) { fresh(s, v, m); TR("  of a new node " << tags[m.kind]); return true; }
    TR("  of " << (mv ? "moved " : "copied ") << name(r) << " " << text(*r.m));
    if (mv)
    {
        // what it was inside keeps its place, now empty
        m = *r.m;
        *r.m = M();
        if (s.coin()) v = std::move(*r.v); else { V t(std::move(*r.v)); v = std::move(t); }
        REQM(!r.v->a.has_value(), "an any which was moved from has a value");
        return true;
    }
    bool thrown = false;
    try { if (s.coin()) v = *r.v; else { V t(*r.v); v = std::move(t); } } catch (std::bad_cast&) { thrown = true; }
    REQM(thrown == !copyable(*r.m), "copying a tree " << (thrown ? "threw" : "did not throw") << ", it " << (copyable(*r.m) ? "has no" : "has a") << " content which cannot be copied");
    if (thrown) { s.label("not copyable"); return false; }
    m = *r.m;
    return true;
}


template <typename C> void seq_op(pbt::Source& s, Forest& f, const Ref& r, C& c, size_t cap)
{
    auto& k = r.m->kids;
    const int room = max_nodes - size(f.m[r.path[0]]);
    const size_t n = k.size();
    const auto at = [&](size_t i) { return c.begin() + std::ptrdiff_t(i); };
    const auto mat = [&](size_t i) { return k.begin() + std::ptrdiff_t(i); };
    switch (s.raw(11))
    {
    case 0: case 1: case 2: // add
    {
        if (n == cap || room < 2 || r.path.size() > max_depth) return;
        size_t i = s.coin() ? n : s.range<size_t>(0, n);
        TR("insert into " << name(r) << " at " << i);
        V t; M m;
        if (!take(s, f, &r, t, m, room)) return;
        if (k.size() != n) return;
        if (i == n && s.coin()) { if (s.coin()) c.push_back(std::move(t)); else c.emplace_back(std::move(t)); }
        else { auto it = c.insert(at(i), std::move(t)); REQ(it == at(i)); }
        k.insert(mat(i), m);
        s.nontrivial();
        break;
    }
    case 3: // several copies
    {
        size_t cnt = s.raw(3);
        if (n + cnt > cap || r.path.size() > max_depth) return;
        size_t i = s.range<size_t>(0, n);
        V t; M m;
        TR("insert " << cnt << " into " << name(r) << " at " << i);
        if (!take(s, f, &r, t, m, room / 4) || !copyable(m) || k.size() != n) return;
        auto it = c.insert(at(i), cnt, t);
        REQ(it == at(i));
        k.insert(mat(i), cnt, m);
        s.nontrivial();
        break;
    }
    case 4: // an own element again
    {
        if (!n || n == cap || r.path.size() > max_depth) return;
        size_t i = s.range<size_t>(0, n), j = s.range<size_t>(0, n - 1);
        if (size(k[j]) > room) return;
        TR("insert element " << j << " of " << name(r) << " at " << i);
        bool thrown = false;
        try { if (i == n && s.coin()) c.push_back(c[j]); else c.insert(at(i), c[j]); } catch (std::bad_cast&) { thrown = true; }
        REQM(thrown == !copyable(k[j]), "copying an element " << (thrown ? "threw" : "did not throw"));
        if (!thrown) { M m = k[j]; k.insert(mat(i), m); }
        s.nontrivial();
        break;
    }
    case 5: // erase
    {
        size_t a = s.range<size_t>(0, n), b = s.range<size_t>(0, n);
        if (a > b) std::swap(a, b);
        TR("erase [" << a << ", " << b << ") from " << name(r));
        if (b == a + 1 && s.coin()) { auto it = c.erase(at(a)); REQ(it == at(a)); }
        else { auto it = c.erase(at(a), at(b)); REQ(it == at(a)); }
        k.erase(mat(a), mat(b));
        if (a != b) s.nontrivial();
        break;
    }
    case 6:
        if (!n) return;
        TR("pop_back of " << name(r));
        c.pop_back();
        k.pop_back();
        break;
    case 7:
    {
        size_t to = std::min(size_t(s.raw(5)), cap);
        if (r.path.size() > max_depth) return;
        TR("resize " << name(r) << " to " << to);
        c.resize(to);
        k.resize(to);
        s.nontrivial();
        break;
    }
    case 8: // order
        if (s.coin()) { TR("reverse " << name(r)); std::reverse(c.begin(), c.end()); std::reverse(k.begin(), k.end()); }
        else if (n)
        {
            size_t i = s.range<size_t>(0, n - 1);
            TR("rotate " << name(r) << " by " << i);
            std::rotate(c.begin(), at(i), c.end());
            std::rotate(k.begin(), mat(i), k.end());
        }
        s.nontrivial();
        break;
    case 9: // by kind
    {
        int kd = int(s.raw(kinds - 1));
        TR("erase all " << tags[kd] << " from " << name(r));
        auto num = itlib::erase_all_if(c, [&](const V& v) { return v.kind() == kd; });
        auto was = k.size();
        k.erase(std::remove_if(k.begin(), k.end(), [&](const M& m) { return m.kind == kd; }), k.end());
        REQ(num == was - k.size());
        break;
    }
    case 10:
    {
        int kd = int(s.raw(kinds - 1));
        auto it = itlib::qfind_if(c, [&](const V& v) { return v.kind() == kd; });
        auto mi = std::find_if(k.begin(), k.end(), [&](const M& m) { return m.kind == kd; });
        REQ(it - c.begin() == mi - k.begin());
        break;
    }
    default:
        TR("clear " << name(r));
        c.clear();
        k.clear();
        s.nontrivial();
    }
}
template <typename C> void map_op(pbt::Source& s, Forest& f, const Ref& r, C& c, size_t cap)
{
    using K = typename C::key_type;
    auto& k = r.m->kids;
    auto& keys = r.m->keys;
    const int room = max_nodes - size(f.m[r.path[0]]);
    const std::string ks = gen_key(s);
    const K key = mk_key<K>(ks);
    size_t at = size_t(std::lower_bound(keys.begin(), keys.end(), ks) - keys.begin());
    const bool has = at < keys.size() && keys[at] == ks;
    REQM((c.find(key) != c.end()) == has && c.count(key) == size_t(has), "key \"" << ks << "\" is " << (has ? "not " : "") << "found in " << name(r));
    if (has) REQ(c.find(key) - c.begin() == std::ptrdiff_t(at));
    switch (s.raw(5))
    {
    case 0: case 1: case 2:
    {
        if ((!has && k.size() == cap) || room < 2 || r.path.size() > max_depth) return;
        TR("put \"" << ks << "\" into " << name(r));
        V t; M m;
        if (!take(s, f, &r, t, m, room)) return;
        at = size_t(std::lower_bound(keys.begin(), keys.end(), ks) - keys.begin());
        if (s.coin())
        {
            auto p = s.coin() ? c.insert(std::make_pair(key, std::move(t))) : c.emplace(key, std::move(t));
            REQ(p.second == !has && p.first - c.begin() == std::ptrdiff_t(at));
            if (!has) { keys.insert(keys.begin() + std::ptrdiff_t(at), ks); k.insert(k.begin() + std::ptrdiff_t(at), m); }
        }
        else
        {
            c[key] = std::move(t);
            if (!has) { keys.insert(keys.begin() + std::ptrdiff_t(at), ks); k.insert(k.begin() + std::ptrdiff_t(at), m); }
            else k[at] = m;
        }
        s.nontrivial();
        break;
    }
    case 3:
        TR("erase \"" << ks << "\" from " << name(r));
        REQ(c.erase(key) == size_t(has));
        if (has) { k.erase(k.begin() + std::ptrdiff_t(at)); keys.erase(keys.begin() + std::ptrdiff_t(at)); s.nontrivial(); }
        break;
    case 4:
        if (k.empty()) return;
        at = s.range<size_t>(0, k.size() - 1);
        TR("erase element " << at << " of " << name(r));
        REQ(c.erase(c.begin() + std::ptrdiff_t(at)) - c.begin() == std::ptrdiff_t(at));
        k.erase(k.begin() + std::ptrdiff_t(at)); keys.erase(keys.begin() + std::ptrdiff_t(at));
        s.nontrivial();
        break;
    default:
        TR("clear " << name(r));
        c.clear();
        k.clear(); keys.clear();
    }
}

void small_op(pbt::Source& s, const Ref& r)
{
    M& m = *r.m;
    switch (m.kind)
    {
    case k_leaf: m.leaf = int(s.raw(999)); TR(name(r) << " is " << m.leaf); get<Tracked>(*r.v) = Tracked(m.leaf); break;
    case k_pod:
    {
        auto& p = get<PV>(*r.v);
        if (m.ints.size() > 12) { p.resize(3); m.ints.resize(3); }
        size_t i = s.range<size_t>(0, m.ints.size());
        int x = int(s.raw(999));
        TR("ints of " << name(r) << " at " << i);
        if (i < m.ints.size() && s.coin()) { p.erase(p.begin() + std::ptrdiff_t(i)); m.ints.erase(m.ints.begin() + std::ptrdiff_t(i)); }
        else { p.insert(p.begin() + std::ptrdiff_t(i), x); m.ints.insert(m.ints.begin() + std::ptrdiff_t(i), x); }
        break;
    }
    case k_bits:
    {
        auto& b = get<DB>(*r.v);
        TR("bits of " << name(r));
        if (m.bits.empty() || s.coin())
        {
            if (m.bits.size() > 40 || s.chance(1, 4)) { size_t n = s.raw(40); b.resize(n); m.bits.resize(n); }
            else { bool x = s.coin(); b.push_back(x); m.bits.push_back(x); }
        }
        else { size_t i = s.range<size_t>(0, m.bits.size() - 1); b.flip(i); m.bits[i] = !m.bits[i]; }
        break;
    }
    case k_set:
    {
        auto& b = get<FS>(*r.v);
        std::vector<int> e(s.raw(3));
        for (int& x : e) x = int(s.raw(2));
        itlib::static_vector<int, 4> se(e.begin(), e.end());
        TR("set " << name(r));
        if (s.coin() && m.set.size() < 9) { auto p = b.insert(se); REQ(p.second == m.set.insert(e).second && p.first->size() == e.size()); }
        else REQ(b.erase(se) == m.set.erase(e));
        REQ(b.count(e) == m.set.count(e));
        break;
    }
    case k_strs:
    {
        auto& b = get<SS>(*r.v);
        TR("rows " << name(r));
        if (m.rows.size() < 4 && (m.rows.empty() || s.coin()))
        {
            size_t i = s.range<size_t>(0, m.rows.size()), n = s.raw(3);
            std::string w = gen_key(s) + (s.coin() ? "_and_a_tail_which_makes_it_long" : "");
            b.emplace(b.begin() + std::ptrdiff_t(i), n, w);
            m.rows.insert(m.rows.begin() + std::ptrdiff_t(i), std::vector<std::string>(n, w));
        }
        else
        {
            size_t i = s.range<size_t>(0, m.rows.size() - 1), j = s.range<size_t>(0, m.rows.size() - 1);
            if (s.coin()) { b[i] = b[j]; m.rows[i] = std::vector<std::string>(m.rows[j]); }
            else { b.erase(b.begin() + std::ptrdiff_t(i)); m.rows.erase(m.rows.begin() + std::ptrdiff_t(i)); }
        }
        break;
    }
    case k_nums:
    {
        auto& b = get<RT>(*r.v);
        auto& k = m.nums;
        TR("numbers " << name(r));
        if (k.empty() || (k.size() < 5 && s.coin()))
        {
            size_t i = s.range<size_t>(0, k.size()), n = s.raw(3);
            int x = int(s.raw(99));
            b.insert(b.begin() + std::ptrdiff_t(i), itlib::static_vector<Tracked, 3>(n, Tracked(x)));
            k.insert(k.begin() + std::ptrdiff_t(i), std::vector<int>(n, x));
            break;
        }
        size_t i = s.range<size_t>(0, k.size() - 1), j = s.range<size_t>(0, k.size() - 1);
        switch (s.raw(5))
        {
        case 0: b[i] = b[j]; k[i] = std::vector<int>(k[j]); break;
        case 1: b.erase(b.begin() + std::ptrdiff_t(i)); k.erase(k.begin() + std::ptrdiff_t(i)); break;
        case 2: b[i].swap(b[j]); k[i].swap(k[j]); break;
        case 3: { int x = int(s.raw(99)); if (k[i].size() < 3) { b[i].emplace(b[i].begin(), x); k[i].insert(k[i].begin(), x); } break; }
        case 4: if (!k[i].empty()) { b[i].erase(b[i].begin()); k[i].erase(k[i].begin()); } break;
        default: if (i != j) { b[i] = std::move(b[j]); b[j].clear(); k[i] = std::move(k[j]); k[j].clear(); }
        }
        break;
    }
    default: return;
    }
    s.nontrivial();
}

#if __cplusplus >= 202002L
itlib::generator<const V&> walk(const V& v)
{
    co_yield v;
    const int k = v.kind();
    auto kids = [&](auto& c) -> itlib::generator<const V&> { for (auto& x : c) for (auto& y : walk(x)) co_yield y; };
    if (k == k_small) for (auto& x : kids(get<SV>(v))) co_yield x;
    if (k == k_static) for (auto& x : kids(get<TV>(v))) co_yield x;
    if (k == k_map) for (auto& e : get<FM>(v)) for (auto& x : walk(e.second)) co_yield x;
}
void walk(const M& m, std::string& t)
{
    t += tags[m.kind];
    if (m.kind == k_small || m.kind == k_static || m.kind == k_map) for (auto& x : m.kids) walk(x, t);
}
#endif

void trees(pbt::Source& s)
{
    tstats() = TrackStats();
    {
        Forest f;
        for (int i = 0; i < roots; ++i)
        {
            int left = 20;
            build(s, f.v[i], f.m[i], int(s.raw(4)), left);
            TR("n" << i << " = " << text(f.m[i]));
        }
        size_t n = s.small(50);
        for (size_t step = 0; step < n; ++step)
        {
            static const unsigned weights[] = {3, 12, 3, 2, 2, 2, 1};
            switch (s.weighted(weights))
            {
            case 0: // new content
            {
                Ref r = pick(s, f);
                if (r.path.size() > max_depth) break;
                int left = std::max(1, max_nodes / 2 - size(f.m[r.path[0]]));
                V t;
                M m;
                build(s, t, m, int(s.raw(4)), left);
                *r.v = std::move(t);
                *r.m = m;
                TR(name(r) << " = " << text(m));
                break;
            }
            case 1: // within a node
            {
                Ref r = pick(s, f);
                switch (r.m->kind)
                {
                case k_small: seq_op(s, f, r, get<SV>(*r.v), 100); break;
                case k_static: seq_op(s, f, r, get<TV>(*r.v), 5); break;
                case k_exp: if (r.m->ok) seq_op(s, f, r, get<EX>(*r.v).value(), 100); break;
                case k_map: map_op(s, f, r, get<FM>(*r.v), 100); break;
                case k_smallmap: map_op(s, f, r, get<FN>(*r.v), 100); break;
                case k_staticmap: map_op(s, f, r, get<FQ>(*r.v), 5); break;
                default: small_op(s, r);
                }
                break;
            }
            case 2: // one node to another
            {
                Ref r = pick(s, f);
                V t; M m;
                TR(name(r) << " is assigned the content");
                const int room = max_nodes - size(f.m[r.path[0]]);
                if (room < 2 || !take(s, f, &r, t, m, room)) break;
                if (depth(m) + int(r.path.size()) > max_depth + 2) break;
                *r.v = std::move(t);
                *r.m = m;
                s.nontrivial();
                break;
            }
            case 3: // directly, of disjoint nodes
            {
                Ref a = pick(s, f), b = pick(s, f);
                if (inside(a, b) || inside(b, a) || size(*b.m) + size(f.m[a.path[0]]) > max_nodes) break;
                TR(name(a) << " = " << name(b));
                bool thrown = false;
                try { *a.v = *b.v; } catch (std::bad_cast&) { thrown = true; }
                REQM(thrown == !copyable(*b.m), "copying a tree " << (thrown ? "threw" : "did not throw"));
                if (!thrown) *a.m = M(*b.m);
                s.nontrivial();
                break;
            }
            case 4: // swap
            {
                Ref a = pick(s, f), b = pick(s, f);
                if (inside(a, b) || inside(b, a)) break;
                TR("swap " << name(a) << " and " << name(b));
                if (a.m->kind == b.m->kind && s.coin())
                {
                    switch (a.m->kind)
                    {
                    case k_small: get<SV>(*a.v).swap(get<SV>(*b.v)); break;
                    case k_static: get<TV>(*a.v).swap(get<TV>(*b.v)); break;
                    case k_map: get<FM>(*a.v).swap(get<FM>(*b.v)); break;
                    case k_smallmap: get<FN>(*a.v).swap(get<FN>(*b.v)); break;
                    case k_staticmap: get<FQ>(*a.v).swap(get<FQ>(*b.v)); break;
                    case k_set: get<FS>(*a.v).swap(get<FS>(*b.v)); break;
                    case k_exp: std::swap(get<EX>(*a.v), get<EX>(*b.v)); break;
                    case k_experr: std::swap(get<EY>(*a.v), get<EY>(*b.v)); break;
                    case k_pod: get<PV>(*a.v).swap(get<PV>(*b.v)); break;
                    case k_bits: std::swap(get<DB>(*a.v), get<DB>(*b.v)); break;
                    case k_strs: get<SS>(*a.v).swap(get<SS>(*b.v)); break;
                    case k_nums: get<RT>(*a.v).swap(get<RT>(*b.v)); break;
                    case k_fn: std::swap(get<FN_>(*a.v), get<FN_>(*b.v)); break;
                    default: std::swap(*a.v, *b.v);
                    }
                    s.label("containers swapped");
                }
                else std::swap(*a.v, *b.v);
                std::swap(*a.m, *b.m);
                s.nontrivial();
                break;
            }
            case 5: // containers of the same kind
            {
                Ref a = pick(s, f), b = pick(s, f);
                if (inside(a, b) || inside(b, a) || a.m->kind != b.m->kind || size(*b.m) + size(f.m[a.path[0]]) > max_nodes) break;
                if (!copyable(*b.m)) break;
                TR("container " << name(a) << " = container " << name(b));
                switch (a.m->kind)
                {
                case k_small: if (s.coin()) get<SV>(*a.v) = get<SV>(*b.v); else get<SV>(*a.v).assign(get<SV>(*b.v).begin(), get<SV>(*b.v).end()); break;
                case k_static: if (s.coin()) get<TV>(*a.v) = get<TV>(*b.v); else get<TV>(*a.v).assign(get<TV>(*b.v).begin(), get<TV>(*b.v).end()); break;
                case k_map: get<FM>(*a.v) = get<FM>(*b.v); break;
                case k_smallmap: get<FN>(*a.v) = get<FN>(*b.v); break;
                case k_staticmap: get<FQ>(*a.v) = get<FQ>(*b.v); break;
                case k_pod: get<PV>(*a.v) = get<PV>(*b.v); break;
                case k_bits: get<DB>(*a.v) = get<DB>(*b.v); break;
                case k_set: get<FS>(*a.v) = get<FS>(*b.v); break;
                case k_strs: get<SS>(*a.v) = get<SS>(*b.v); break;
                case k_nums: get<RT>(*a.v) = get<RT>(*b.v); break;
                default: *a.v = *b.v;
                }
                *a.m = M(*b.m);
                s.nontrivial();
                s.label("containers assigned");
                break;
            }
            default: // written and read again
            {
                Ref r = pick(s, f);
                size_t reserve = s.coin() ? 0 : s.raw(200), pre = s.raw(20);
                TR("write " << name(r) << " (after " << pre << " characters, " << reserve << " reserved) and read it again");
                const std::string want = text(*r.m);
                V t;
                switch (s.raw(3))
                {
                case 0: t = through_streams<std::vector<char>>(*r.v, want, reserve, pre); break;
                case 1: t = through_streams<itlib::small_vector<char, 32>>(*r.v, want, reserve, pre); break;
                case 2: t = through_streams<itlib::pod_vector<char>>(*r.v, want, reserve, pre); break;
                default: t = through_streams<std::string>(*r.v, want, reserve, pre); break;
                }
                *r.v = std::move(t);
                s.nontrivial();
            }
            }
            long l = 0;
            for (int i = 0; i < roots; ++i)
            {
                const std::string want = text(f.m[i]);
                std::ostringstream o;
                text(o, f.v[i]);
                REQM(o.str() == want, "tree " << i << " is " << o.str() << "\nexpected " << want);
                l += leaves(f.m[i]);
            }
            REQM(tstats().live == l, tstats().live << " leaves are alive, the trees have " << l);
            if (depth(f.m[0]) > 3) s.label("deep");
        }
#if __cplusplus >= 202002L
        for (int i = 0; i < roots; ++i)
        {
            std::string got, want;
            for (auto& v : walk(f.v[i])) got += tags[v.kind()];
            walk(f.m[i], want);
            REQM(got == want, "walking tree " << i << " gives " << got << ", expected " << want);
        }
#endif
        std::vector<int> order;
        {
            itlib::small_vector<itlib::ufunction<void()>, 2> fns;
            for (int i = 0; i < roots; ++i) fns.push_back([&order, i] { order.push_back(i); });
            auto run = itlib::make_sentry([&] { for (auto& x : fns) x(); });
            REQ(order.empty());
        }
        REQ(order.size() == roots && order[roots - 1] == roots - 1);
    }
    REQM(tstats().live == 0, tstats().live << " leaves were not destroyed");
}
PBT_REG(trees_, trees, 60000);
}

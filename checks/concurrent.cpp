// no hidden shared state: concurrent use of different objects, and concurrent reading of one object (P33)
#include "common.hpp"
#include <itlib/any.hpp>
#include <itlib/dynamic_bitset.hpp>
#include <itlib/expected.hpp>
#include <itlib/flat_map.hpp>
#include <itlib/flat_set.hpp>
#include <itlib/make_ptr.hpp>
#include <itlib/mem_streambuf.hpp>
#include <itlib/pod_vector.hpp>
#include <itlib/poly_span.hpp>
#include <itlib/qalgorithm.hpp>
#include <itlib/rstream.hpp>
#include <itlib/sentry.hpp>
#include <itlib/shared_from.hpp>
#include <itlib/small_vector.hpp>
#include <itlib/span.hpp>
#include <itlib/static_vector.hpp>
#include <itlib/stride_span.hpp>
#include <itlib/throw_ex.hpp>
#include <itlib/time_t.hpp>
#include <itlib/ufunction.hpp>
#include <itlib/utility.hpp>
#if __cplusplus >= 201703L
#include <itlib/pmr_allocator.hpp>
#include <itlib/strutil.hpp>
#endif
#if __cplusplus >= 202002L
#include <itlib/generator.hpp>
#include <itlib/transparent_umap.hpp>
#endif
#include <atomic>
#include <istream>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <thread>
#include <vector>

using namespace vt;

#if defined(__SANITIZE_THREAD__)
// the C library locks what it does there in ways unknown to the sanitizer
extern "C" const char* __tsan_default_suppressions() { return "race:tzset_internal\nrace:__tz_convert\nrace:__mktime_internal\nrace:update_vars\n"; }
#endif

namespace
{
uint64_t h(uint64_t x, uint64_t y) { return pbt::mix64(x * 31 + y); }
uint64_t h(uint64_t x, const std::string& t) { for (char c : t) x = h(x, uint64_t((unsigned char)c)); return h(x, t.size()); }

struct Owned : itlib::enable_shared_from
{
    int part[4] = {1, 2, 3, 4};
    std::shared_ptr<const int> get(int i) const { return shared_from(part + i); }
    std::weak_ptr<const int> weak(int i) const { return weak_from(part + i); }
};
struct Shape { virtual ~Shape() {} virtual int n() const { return 1; } };
struct Square : Shape { int v; Square(int x = 0) : v(x) {} int n() const override { return v; } };

#if __cplusplus >= 202002L
itlib::generator<int> numbers(int n) { for (int i = 0; i < n; ++i) { if (i == 13) throw std::runtime_error("13"); co_yield i * n; } }
struct Hash { using is_transparent = int; size_t operator()(std::string_view v) const { return std::hash<std::string_view>{}(v); } };
#endif

struct State
{
    itlib::small_vector<std::string, 3> sv;
    itlib::static_vector<std::string, 8> st;
    itlib::pod_vector<int> pv;
    itlib::flat_map<int, std::string> fm;
    itlib::flat_set<int> fs;
    itlib::dynamic_bitset<std::vector<uint32_t>> bits;
    itlib::expected<std::string, int> ex{itlib::unexpected(3)};
    itlib::any<> an;
    itlib::mem_ostreambuf<std::vector<char>> ob;
    itlib::ufunction<int(int)> uf;
    std::shared_ptr<const Owned> owned = std::make_shared<Owned>();
    std::vector<Square> squares;
#if __cplusplus >= 202002L
    itlib::transparent_umap<std::string, int, Hash, std::equal_to<>> um;
#endif
};

std::string text(int a) { return std::string(size_t(a % 40), char('a' + a % 26)) + std::to_string(a); }

const int n_changes = 24;
// changes the state and returns something about what happened
uint64_t change(State& t, int op, int a, int b)
{
    switch (op)
    {
    case 0: t.sv.push_back(text(a)); if (t.sv.size() > 9) t.sv.erase(t.sv.begin() + a % 9); return h(t.sv.size(), t.sv.back());
    case 1: t.sv.insert(t.sv.begin() + long(size_t(a) % (t.sv.size() + 1)), text(b)); return h(1, t.sv.front());
    case 2: t.sv.resize(size_t(a % 6)); t.sv.shrink_to_fit(); return t.sv.capacity();
    case 3: try { t.st.push_back(text(a)); } catch (std::out_of_range&) { t.st.clear(); return 99; } return t.st.size();
    case 4: t.pv.push_back(a); if (t.pv.size() > 20) t.pv.resize(size_t(b % 20)); return t.pv.size();
    case 5: t.fm[a % 16] = text(b); return t.fm.size();
    case 6: return t.fm.erase(a % 16);
    case 7: return t.fs.insert(a % 32).second;
    case 8: t.bits.push_back(a & 1); if (t.bits.size() > 200) t.bits.resize(size_t(b)); return t.bits.size();
    case 9: if (a & 1) t.ex = text(b); else t.ex = itlib::unexpected(b); return t.ex.has_value();
    case 10: if (a & 1) t.an = text(b); else t.an = std::vector<int>(size_t(b % 50), a); return t.an.has_value();
    case 11: { auto c = t.an; t.an.reset(); t.an = std::move(c); return t.an.has_value(); }
    case 12: { std::ostream o(&t.ob); o << a << ' ' << text(b); return t.ob.poff(); }
    case 13: { auto d = t.ob.get_container(); return h(d.size(), std::string(d.begin(), d.end())); }
    case 14: if (a & 1) t.uf = [b](int x) { return x + b; }; else { auto p = itlib::make_unique(text(b)); t.uf = [](int x) { return x; }; std::string k = *p; t.uf = [k](int x) { return x + int(k.size()); }; } return t.uf(a);
    case 15: t.owned = std::make_shared<Owned>(); return t.owned->get(a % 4) != nullptr;
    case 16: t.squares.emplace_back(a); if (t.squares.size() > 6) t.squares.clear(); return t.squares.size();
    case 17: // throw_ex and sentry
    {
        uint64_t r = 0;
        try { auto at_exit = itlib::make_sentry([&] { r = h(r, uint64_t(a)); }); itlib::throw_ex<std::runtime_error>() << text(a) << '/' << b; }
        catch (std::runtime_error& e) { r = h(r, e.what()); }
        return r;
    }
    case 18: // time
    {
        auto tt = itlib::time_t::from_seconds(int64_t(a) * 1000003 - int64_t(b) * 2000000);
        auto g = tt.gmtime();
        auto l = tt.localtime();
        uint64_t r = h(h(1, itlib::strftime("%Y-%m-%d %H:%M:%S %j %U", g)), itlib::strftime("%c", l));
        r = h(r, uint64_t(itlib::time_t::from_gmtime(g) == tt));
        return h(r, uint64_t(itlib::time_t::from_localtime(l) == tt));
    }
    case 19: // streams
    {
        const std::string in = std::to_string(a) + " " + text(b) + " tail";
        itlib::mem_istreambuf<char> buf(in.data(), in.size());
        std::istream is(&buf);
        int x = 0; std::string w;
        is >> x >> w;
        char c[4] = {};
        { itlib::redirect_rstream r(is, 1); r.read(c, 3); }
        return h(h(uint64_t(x), w), std::string(c, 3)) + uint64_t(is.tellg());
    }
    case 20: // whole copies
    {
        State n;
        n.sv = t.sv; n.st = t.st; n.pv = t.pv; n.fm = t.fm; n.fs = t.fs; n.bits = t.bits; n.ex = std::move(t.ex); n.an = t.an;
        t.sv = std::move(n.sv); t.fm.swap(n.fm); t.pv.swap(n.pv); t.ex = std::move(n.ex); t.an = std::move(n.an);
        return h(t.sv.size(), t.fm.size());
    }
    case 21: return itlib::erase_all_if(t.pv, [a](int x) { return x % 3 == a % 3; });
#if __cplusplus >= 202002L
    case 22: { uint64_t r = 0; try { for (auto& x : numbers(a % 20)) r = h(r, uint64_t(x)); } catch (std::runtime_error& e) { r = h(r, e.what()); } return r; }
    case 23: t.um[std::string_view("key" + std::to_string(a % 10))] += b; return t.um.size();
#endif
    default: return 0;
    }
}

const int n_looks = 18;
// only const access
uint64_t look(const State& t, int op, int a)
{
    switch (op)
    {
    case 0: { uint64_t r = t.sv.capacity(); for (auto& x : t.sv) r = h(r, x); return r; }
    case 1: { auto c = t.sv; return h(c.size(), c.empty() ? std::string() : c.back()) + (c == t.sv); }
    case 2: { uint64_t r = 0; for (auto& x : t.st) r = h(r, x); auto c = t.st; return r + c.size(); }
    case 3: { uint64_t r = 0; for (auto x : t.pv) r = h(r, uint64_t(x)); auto c = t.pv; return r + (c == t.pv); }
    case 4: { auto f = t.fm.find(a % 16); return f == t.fm.end() ? 0 : h(1, f->second); }
    case 5: try { return h(1, t.fm.at(a % 16)); } catch (std::out_of_range&) { return 7; }
    case 6: return t.fs.count(a % 32) + t.fs.size() + size_t(t.fs.lower_bound(a % 32) - t.fs.begin());
    case 7: { uint64_t r = t.bits.any() + 2 * t.bits.none(); for (size_t i = 0; i < t.bits.size(); ++i) r = h(r, uint64_t(t.bits.test(i))); return r; }
    case 8: return t.ex ? h(1, *t.ex) : h(2, uint64_t(t.ex.error()));
    case 9: return h(3, t.ex.value_or(std::string("none")));
    case 10: { auto p = itlib::any_cast<std::string>(&t.an); return p ? h(1, *p) : 5; }
    case 11: { itlib::any<> c = t.an; auto p = itlib::any_cast<std::vector<int>>(&c); return p ? h(1, p->size()) : uint64_t(c.has_value()); }
    case 12: { auto p = t.owned->get(a % 4); auto w = t.owned->weak((a + 1) % 4); auto l = w.lock(); return h(uint64_t(*p), uint64_t(*l)); }
    case 13:
    {
        itlib::poly_span<const Shape&> v(t.squares.data(), t.squares.size(), [](const Square& q) -> const Shape& { return q; });
        uint64_t r = 0;
        for (size_t i = 0; i < v.size(); ++i) r = h(r, uint64_t(v[i].n()));
        return r;
    }
    case 14: { uint64_t r = 0; for (auto& x : itlib::span<const int>(t.pv.data(), t.pv.size()).subspan(size_t(a) % 4)) r = h(r, uint64_t(x)); return r; }
    case 15: return itlib::qany_of(t.pv, [a](int x) { return x == a; }) + 2 * itlib::qall_of(t.fs, [](int x) { return x > 3; });
#if __cplusplus >= 202002L
    case 16: { auto f = t.um.find(std::string_view("key1")); return f == t.um.end() ? 0 : uint64_t(f->second); }
    case 17: try { return uint64_t(t.um.at(std::string_view("key" + std::to_string(a % 10)))); } catch (std::out_of_range&) { return 7; }
#endif
    default: return 0;
    }
}

struct Step { int op, a, b; };
using Script = std::vector<Step>;

Script gen_script(pbt::Source& s, int ops)
{
    Script r(4 + s.raw(40));
    // few kinds of operations per script make collisions of the same kind likely
    int kinds[3];
    for (auto& k : kinds) k = int(s.raw(uint64_t(ops - 1)));
    const bool few = s.coin();
    for (auto& x : r) { x.op = few ? kinds[s.raw(2)] : int(s.raw(uint64_t(ops - 1))); x.a = int(s.raw(2000)); x.b = int(s.raw(500)); }
    return r;
}
uint64_t play(const Script& c)
{
    State t;
    uint64_t r = 0;
    for (auto& x : c) r = h(r, change(t, x.op, x.a, x.b));
    for (int i = 0; i < n_looks; ++i) r = h(r, look(t, i, 3));
    return r;
}

template <typename F>
void in_threads(size_t n, F f)
{
    std::atomic<size_t> ready{0};
    std::vector<std::thread> th;
    for (size_t i = 0; i < n; ++i) th.emplace_back([&, i] { ++ready; while (ready < n) /* spin */; f(i); });
    for (auto& t : th) t.join();
}
}

PBT_TARGET(different_objects, 700, pbt::F_THREADS | pbt::F_NOLEAK)
{
    const size_t n = 2 + s.raw(3);
    std::vector<Script> scripts;
    for (size_t i = 0; i < n; ++i) scripts.push_back(i && s.coin() ? scripts[0] : gen_script(s, n_changes));
    for (size_t i = 0; i < n; ++i) for (auto& x : scripts[i]) TR("thread " << i << ": " << x.op << " " << x.a << " " << x.b);
    std::vector<uint64_t> want, got(n);
    // a case must not warm up what a race would be about, so the answers are computed afterwards
    in_threads(n, [&](size_t i) { got[i] = play(scripts[i]); });
    for (auto& c : scripts) want.push_back(play(c));
    for (size_t i = 0; i < n; ++i) REQM(got[i] == want[i], "thread " << i << " working on its own objects got other results than alone");
    s.nontrivial();
}

PBT_TARGET(shared_const, 700, pbt::F_THREADS | pbt::F_NOLEAK)
{
    State t;
    for (auto& x : gen_script(s, n_changes)) { TR("prepare: " << x.op << " " << x.a << " " << x.b); change(t, x.op, x.a, x.b); }
    const size_t n = 2 + s.raw(3);
    std::vector<Script> scripts;
    for (size_t i = 0; i < n; ++i) scripts.push_back(i && s.coin() ? scripts[0] : gen_script(s, n_looks));
    for (size_t i = 0; i < n; ++i) for (auto& x : scripts[i]) TR("thread " << i << ": " << x.op << " " << x.a);
    auto read = [&](size_t i) { uint64_t r = 0; for (auto& x : scripts[i]) r = h(r, look(t, x.op, x.a)); return r; };
    std::vector<uint64_t> got(n);
    in_threads(n, [&](size_t i) { got[i] = read(i); });
    for (size_t i = 0; i < n; ++i) REQM(got[i] == read(i), "thread " << i << " reading shared objects got other results than alone");
    s.nontrivial();
}

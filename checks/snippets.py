"""What each header documents, as small functions using nothing but that header (and what must therefore come with it).
Every entry: (first C++ standard, expected result, body of an int function).  Bodies starting with '//+' name further headers needed."""
M = {"strutil": 17, "pmr_allocator": 17, "generator": 20, "transparent_umap": 20}  # first standard of a header, otherwise 11

S = {
"any": [
    (11, 12, "itlib::any<> a(5); itlib::any<> b; b = a; auto p = itlib::any_cast<int>(&b); return p ? *p + 7 : 0;"),
    (11, 1, "itlib::any<> a; a.emplace<short>(short(3)); auto b = std::move(a); return b.has_value() && itlib::any_cast<short>(b) == 3 && !itlib::any_cast<int>(&b);"),
],
"atomic": [
    (11, 7, "itlib::atomic_relaxed_counter<int> c(3); ++c; c += 3; auto d = c; return int(d);"),
    (11, 255, "itlib::atomic_relaxed_counter<unsigned char> c(0); --c; return int((unsigned char)(c));"),
],
"atomic_shared_ptr_storage": [
    (11, 43, "itlib::atomic_shared_ptr_storage<int> s(std::make_shared<int>(42)); auto p = s.load(); s.store(std::make_shared<int>(1)); return *p + *s.load();"),
    (11, 3, "itlib::atomic_shared_ptr_storage<int> s; auto e = s.exchange(std::make_shared<int>(3)); return e ? 0 : *s.load();"),
],
"data_mutex": [
    (11, 9, "struct M { void lock() {} void unlock() {} bool try_lock() { return true; } }; itlib::data_mutex<int, M> m(4); { auto l = m.unique_lock(); *l += 5; } return *m.unique_lock();"),
],
"dynamic_bitset": [
    (11, 3, "itlib::dynamic_bitset<> b(70); b.set(0); b.set(69); b.set(33); int n = 0; for (bool x : b) n += x; return n;"),
    (11, 1, "itlib::dynamic_bitset<> b(10, ~0u); itlib::dynamic_bitset<> c(b); c.reset(3); return b.all() && !c.all() && c.any() && !c.test(3);"),
    (11, 32, "const auto& k = itlib::dynamic_bitset<>::bits_per_word; return k;"),
],
"expected": [
    (11, 6, "itlib::expected<int, char> a = 5; itlib::expected<int, char> b = itlib::unexpected('x'); auto c = std::move(b); return *a + (c.has_value() ? 0 : c.error() == 'x');"),
    (11, 21, "int i = 20; itlib::expected<int&, void> r = i; ++*r; itlib::expected<void, int> e; itlib::expected<void, void> v = itlib::unexpected(); return e && !v ? i : 0;"),
],
"flat_map": [
    (11, 30, "itlib::flat_map<int, int> m; m[3] = 10; m.insert({1, 20}); m[2] = 5; m.erase(2); int s = 0; for (auto& e : m) s += e.second; return m.begin()->first == 1 ? s : 0;"),
    (11, 1, "const itlib::flat_map<int, int> m = {{1, 2}}; try { return m.at(7); } catch (std::out_of_range&) { return m.at(1) - 1; }", "ITLIB_FLAT_MAP_NO_THROW"),
],
"flat_set": [
    (11, 123, "itlib::flat_set<int> m{3, 1, 2, 3, 1}; int s = 0; for (auto e : m) s = s * 10 + e; return s;"),
    (11, 1, "itlib::flat_set<int> m; m.insert(4); return m.find(4) != m.end() && m.count(5) == 0 && m.erase(4) == 1 && m.empty();"),
],
"generator": [
    (20, 10, "struct G { static itlib::generator<int> g(int n) { for (int i = 0; i < n; ++i) co_yield i; } }; int s = 0; for (int i : G::g(5)) s += i; return s;"),
    (20, 2, "struct G { static itlib::generator<int&> g(int& n) { co_yield n; co_yield n; } }; int n = 0; auto g = G::g(n); while (auto v = g.next()) ++*v; return n;"),
],
"make_ptr": [
    (11, 11, "auto p = itlib::make_shared(5); auto q = itlib::make_unique(6); return *p + *q;"),
    (11, 8, "struct X { int a; int b; }; auto o = std::make_shared<X>(); o->b = 8; auto p = itlib::make_aliased(o, &o->b); o.reset(); return itlib::make_aliased(o, p.get()) ? 0 : *p;"),
],
"mem_streambuf": [
    (11, 46, "#istream;itlib::mem_istreambuf<char> b(\"46 7\", 2); std::istream in(&b); int i = 0; in >> i; return in.eof() ? i : -1;"),
],
"memory_view": [
    (11, 7, "int a[4] = {1, 2, 4, 8}; auto v = itlib::make_memory_view(a, 3); int s = 0; for (auto x : v) s += x; return s;"),
],
"mutex": [
    (11, 3, "itlib::strong_try_rec_mutex m; int n = 0; while (n < 3 && m.try_lock()) ++n; for (int i = 0; i < n; ++i) m.unlock(); return n;"),
],
"pmr_allocator": [
    (17, 5, "itlib::pmr_allocator<int> a; int* p = a.allocate(5); p[4] = 5; int r = p[4]; a.deallocate(p, 5); return r;"),
    (17, 77, "itlib::pmr_allocator<> a; auto p = a.new_object<long>(77); int r = int(*p); a.delete_object(p); return r;"),
],
"pod_vector": [
    (11, 15, "itlib::pod_vector<int> v; for (int i = 0; i < 6; ++i) v.push_back(i); int s = 0; for (auto x : v) s += x; return s;"),
    (11, 4, "itlib::pod_vector<short> v = {1, 2, 3}; v.insert(v.begin() + 1, 9); v.erase(v.begin()); v.resize(4); auto w = v; return v == w && w[0] == 9 ? int(w.size()) : 0;"),
],
"poly_span": [
    (11, 6, "int a[3] = {1, 2, 3}; struct G { static int g(int& i) { return i; } }; itlib::poly_span<int> s(a, 3, &G::g); int r = 0; for (int x : s) r += x; return r;"),
],
"qalgorithm": [
    (11, 1, "struct C { using iterator = int*; using const_iterator = const int*; using pointer = int*; using const_pointer = const int*; int d[3]; int* begin() { return d; } int* end() { return d + 3; } const int* begin() const { return d; } const int* end() const { return d + 3; } }; C c{{1, 2, 3}}; return itlib::pfind(c, 2) == c.d + 1 && itlib::qany_of(c, [](int i) { return i == 3; });"),
    (11, 5, "return itlib::identity{}(5);"),
],
"rstream": [
    (11, 12, "#sstream;std::istringstream in(\"7 12 3\"); char a = 0, i[2] = {}; { itlib::redirect_rstream r(in, 2); r.read(i, 2); } itlib::rstream r(in); r.read(&a, 1); return r && a == '7' ? 10 * (i[0] - '0') + (i[1] - '0') : 0;"),
],
"sentry": [
    (11, 3, "int i = 1; { auto s = itlib::make_sentry([&]() { i += 2; }); (void)s; } return i;"),
    (17, 4, "int i = 1; { itlib::sentry s([&] { i = 4; }); } return i;"),
],
"shared_from": [
    (11, 5, "struct X : public itlib::enable_shared_from { int v = 5; std::shared_ptr<X> me() { return shared_from(this); } }; auto p = std::make_shared<X>(); auto q = p->me(); p.reset(); return q.use_count() == 1 ? q->v : 0;"),
],
"small_vector": [
    (11, 45, "itlib::small_vector<int, 4> v; for (int i = 0; i < 10; ++i) v.push_back(i); int s = 0; for (auto x : v) s += x; return s;"),
    (11, 7, "itlib::small_vector<int, 3> v = {1, 2, 3}; v.insert(v.begin(), 7); auto w = std::move(v); w.pop_back(); return w.front();"),
    (11, 5, "itlib::small_vector<char, 5> v; const auto& c = v.static_capacity; const auto& r = v.revert_to_static_below; return int(c) + (r < 0);", ),
],
"span": [
    (11, 6, "int a[] = {1, 2, 3}; auto s = itlib::make_span(a); int r = 0; for (auto x : s) r += x; return r;"),
    (11, 2, "int a[] = {1, 2, 3}; itlib::span<const int> s = itlib::make_span(a, 3); auto t = s.subspan(1); return int(t.size()) * (t[0] == 2) * (t.as_bytes().size() == 2 * sizeof(int));"),
],
"static_vector": [
    (11, 6, "itlib::static_vector<int, 5> v = {1, 2}; v.push_back(3); v.insert(v.begin() + 1, 5); v.erase(v.begin() + 1); int s = 0; for (auto x : v) s += x; return s;"),
],
"stride_span": [
    (11, 4, "struct P { int a, b; } p[3] = {{1, 2}, {1, 1}, {5, 1}}; auto s = itlib::make_stride_span_from_buf(&p[0].b, sizeof(P), 3); int r = 0; for (auto& x : s) r += x; return r;"),
],
"strutil": [
    (17, 3, "std::string_view s = \"abcdef\"; auto t = itlib::remove_prefix_all(s, \"ab\"); return int(t.size()) - itlib::starts_with(t, \"c\") * itlib::ends_with(t, \"f\");"),
    (17, 2, "char c[] = \"xyz\"; return int(itlib::make_string_view(c, c + 2).size());"),
],
"tep_vector": [(11, 1, "return sizeof(itlib::tep_vector) > 0;")],
"throw_ex": [
    (11, 5, "struct E { E(std::string s) : n(int(s.length())) {} int n; }; try { itlib::throw_ex<E>() << \"abc\" << 42; } catch (E& e) { return e.n; } return 0;"),
],
"time_t": [
    (11, 70, "auto t = itlib::time_t::from_seconds(60); t += std::chrono::seconds(10); auto tm = t.gmtime(); return int(itlib::time_t::from_gmtime(tm).seconds_since_epoch());"),
    (11, 4, "return int(itlib::strftime(\"%Y\", itlib::time_t::from_seconds(0).gmtime()).length());"),
],
"transparent_umap": [
    (20, 9, "itlib::transparent_umap<int, int> m; m[1] = 9; return m.at(1);"),
],
"type_traits": [
    (11, 1, "return itlib::is_noop_convertible<unsigned, int>::value;"),
    (17, 1, "return itlib::is_noop_convertible_v<unsigned, int> && !itlib::is_noop_convertible_v<char, int>;"),
],
"ufunction": [
    (11, 6, "int k = 3; itlib::ufunction<int(int)> f = [k](int i) { return i + k; }; auto g = std::move(f); return f ? 0 : g(3);"),
],
"utility": [
    (11, 1, "return itlib::bit_cast<unsigned>(1) == 1u;"),
    (11, 5, "struct X { int a; int b; } x{5, 6}; return itlib::owner_from_member(x.b, &X::b)->a;"),
],
}

# combinations: (headers, first standard, expected, body)
C = [
    (["any", "pmr_allocator"], 17, 5, "itlib::any<itlib::pmr_allocator<>> a(5); auto b = std::move(a); return itlib::any_cast<int>(b);"),
    (["small_vector", "qalgorithm"], 11, 2, "itlib::small_vector<int, 3> v = {1, 2, 1, 3}; return itlib::erase_all(v, 1) == 2 && itlib::erase_first(v, 3) ? v[0] : 0;"),
    (["flat_map", "small_vector"], 11, 5, "itlib::flat_map<int, int, std::less<int>, itlib::small_vector<std::pair<int, int>, 2>> m; m[3] = 1; m[1] = 4; m[2] = 5; return m[2];"),
    (["flat_set", "static_vector"], 11, 1, "itlib::flat_set<int, std::less<int>, itlib::static_vector<int, 5>> m; m.insert(2); m.insert(1); m.insert(2); return *m.begin() * (m.size() == 2);"),
    (["span", "pod_vector"], 11, 6, "itlib::pod_vector<int> v = {1, 2, 3}; auto s = itlib::make_span(v); int r = 0; for (auto x : s) r += x; return r;"),
    (["mem_streambuf", "small_vector"], 11, 2, "#ostream;itlib::mem_ostreambuf<itlib::small_vector<char, 8>> b; std::ostream o(&b); o << 42; o.flush(); return int(b.get_container().size());"),
    (["mem_streambuf", "rstream"], 11, 42, "#istream;itlib::mem_istreambuf<char> b(\"42 \", 3); std::istream in(&b); itlib::rstream r(in); char c[2]; r.read(c, 2); return c[0] == '4' && c[1] == '2' ? 42 : 0;"),
    (["dynamic_bitset", "small_vector"], 11, 1, "itlib::dynamic_bitset<itlib::small_vector<uint32_t, 2>> b(100); b.set(99); return b.test(99) && !b.test(98);"),
    (["stride_span", "span"], 11, 3, "int a[] = {1, 0, 2, 0}; auto v = itlib::make_span(a); auto s = itlib::make_stride_span_from_array(v.data(), 4, 0, 2); return s[0] + s[1];"),
    (["expected", "ufunction"], 11, 8, "itlib::ufunction<itlib::expected<int, int>(int)> f = [](int i) -> itlib::expected<int, int> { if (i) return i; return itlib::unexpected(i); }; return *f(8);"),
    (["make_ptr", "shared_from", "sentry"], 11, 4, "struct X : public itlib::enable_shared_from { int v = 4; X() {} X(const X&) {} std::shared_ptr<X> me() { return shared_from(this); } }; X x; auto p = itlib::make_shared(x); int r = 0; { auto s = itlib::make_sentry([&] { r = p->me()->v; }); (void)s; } return r;"),
    (["data_mutex", "mutex"], 11, 6, "itlib::data_mutex<int, itlib::strong_try_rec_mutex> m(5); { auto l = m.try_unique_lock(); if (l) ++*l; } auto l = m.try_unique_lock(); return l ? *l : 0;"),
    (["poly_span", "static_vector"], 11, 5, "itlib::static_vector<int, 4> v = {2, 3}; struct G { static int g(int& i) { return i; } }; itlib::poly_span<int> s(v.data(), v.size(), &G::g); return s[0] + s[1];"),
    (["throw_ex", "strutil"], 17, 2, "struct E { std::string s; E(std::string x) : s(x) {} }; try { itlib::throw_ex<E>() << \"ab\"; } catch (E& e) { return int(itlib::make_string_view(e.s.begin(), e.s.end()).size()); } return 0;"),
    (["generator", "small_vector"], 20, 3, "struct G { static itlib::generator<itlib::small_vector<int, 2>> g() { co_yield {1, 2, 3}; } }; return int((*G::g().next()).size());"),
    (["any", "small_vector", "expected"], 11, 2, "itlib::small_vector<itlib::any<>, 1> v; v.emplace_back(1); v.emplace_back(itlib::expected<int, int>(2)); auto w = std::move(v); auto p = itlib::any_cast<itlib::expected<int, int>>(&w[1]); return p ? **p : 0;"),
    (["transparent_umap", "small_vector"], 20, 7, "itlib::transparent_umap<int, itlib::small_vector<int, 1>> m; m[1].push_back(7); return m.at(1).back();"),
    (["type_traits", "small_vector"], 17, 0, "return itlib::is_noop_convertible_v<itlib::small_vector<int, 1>, itlib::small_vector<int, 2>>;"),
    (["atomic", "atomic_shared_ptr_storage", "time_t"], 11, 2, "itlib::atomic_relaxed_counter<int> c(1); itlib::atomic_shared_ptr_storage<itlib::time_t> s(std::make_shared<itlib::time_t>()); ++c; return s.load()->seconds_since_epoch() == 0 ? int(c) : 0;"),
]

// generator: values, laziness, exceptions, frame lifetimes (P21)
#include "common.hpp"
#include <itlib/generator.hpp>
#include <optional>

using namespace vt;

namespace
{
struct Boom { int v; };
enum StepKind { yield_val, throw_it, return_it, delegate, idle };
struct Step { StepKind k; int v; std::vector<Step> sub; };
using Script = std::vector<Step>;

// what the coroutine bodies did
struct Trace { long executed = 0; long frames = 0; };
Trace& tr() { static Trace t; return t; }
struct Frame { Tracked t; Frame() : t(77) { ++tr().frames; } ~Frame() { if (t.get() != 77) FAIL("coroutine frame corrupted"); --tr().frames; } Frame(const Frame&) = delete; };

// storage referred to by generators of references
int& cell(int v) { static int c[1000]; return c[v % 1000]; }
Tracked*& tcells() { static Tracked* t = nullptr; return t; }

template <typename T> struct Y; // how a number is yielded and read back
template <> struct Y<int> { static int make(int v) { return v; } static int get(int& x) { return x; } static bool consumed(int&) { return true; } };
template <> struct Y<Tracked> { static Tracked make(int v) { return Tracked(v); } static int get(Tracked& x) { return x.get(); } };
template <> struct Y<std::string> { static std::string make(int v) { return Elem<std::string>::make(v); } static int get(std::string& x) { return Elem<std::string>::get(x); } };
template <> struct Y<std::unique_ptr<int>> { static std::unique_ptr<int> make(int v) { return std::make_unique<int>(v); } static int get(std::unique_ptr<int>& x) { return x ? *x : -1; } };
template <> struct Y<MoveOnly> { static MoveOnly make(int v) { return MoveOnly(v); } static int get(MoveOnly& x) { return x.get(); } };
template <> struct Y<int&> { static int& make(int v) { return cell(v); } static int get(int& x) { return int(&x - &cell(0)); } };
template <> struct Y<const Tracked&> { static const Tracked& make(int v) { return tcells()[v % 100]; } static int get(const Tracked& x) { return x.get(); } };

template <typename T>
itlib::generator<T> play(Script sc, Tracked param)
{
    Frame f;
    for (auto& st : sc)
    {
        if (param.get() != 5) FAIL("coroutine parameter lost");
        ++tr().executed;
        switch (st.k)
        {
        case yield_val: co_yield Y<T>::make(st.v); break;
        case throw_it: throw Boom{st.v};
        case return_it: co_return;
        case delegate:
        {
            auto g = play<T>(st.sub, Tracked(5));
            if (st.v & 1)
            {
                for (auto&& x : g)
                {
                    if constexpr (std::is_reference_v<T>) co_yield x;
                    else co_yield std::move(x);
                }
            }
            else
            {
                while (auto x = g.next())
                {
                    if constexpr (std::is_reference_v<T>) co_yield *x;
                    else co_yield std::move(*x);
                }
            }
            break;
        }
        default: break;
        }
    }
    ++tr().executed;
}

// the same, run by a model: events in order
struct Ev { enum K { value, error, end } k; int v; long executed; };

struct Model
{
    std::vector<Ev> ev;
    long executed = 0;
    // returns false when finished with an exception
    bool run(const Script& sc)
    {
        for (auto& st : sc)
        {
            ++executed;
            switch (st.k)
            {
            case yield_val: ev.push_back({Ev::value, st.v, executed}); break;
            case throw_it: ev.push_back({Ev::error, st.v, executed}); return false;
            case return_it: return true;
            case delegate: if (!run(st.sub)) return false; break;
            default: break;
            }
        }
        ++executed;
        return true;
    }
    explicit Model(const Script& sc) { if (run(sc)) ev.push_back({Ev::end, 0, executed}); }
};

int max_value = 100;
Script gen_script(pbt::Source& s, int depth)
{
    Script sc;
    size_t n = s.small(depth == 0 ? 14 : 5);
    for (size_t i = 0; i < n; ++i)
    {
        Step st;
        auto k = s.raw(15);
        st.k = k < 10 ? yield_val : k == 10 ? idle : k == 11 ? throw_it : k == 12 ? return_it : depth < 3 ? delegate : yield_val;
        st.v = int(s.raw(99));
        if (st.k == delegate) st.sub = gen_script(s, depth + 1);
        sc.push_back(st);
    }
    return sc;
}
std::string show(const Script& sc)
{
    std::string r = "[";
    for (auto& st : sc) r += st.k == yield_val ? " yield " + std::to_string(st.v) : st.k == throw_it ? " throw" : st.k == return_it ? " return" : st.k == idle ? " -" : " all of " + show(st.sub);
    return r + " ]";
}

template <typename T>
struct Machine
{
    using G = itlib::generator<T>;
    struct M { bool alive = false; std::vector<Ev> ev; size_t pos = 0; long executed = 0; bool finished = false; };
    enum { slots = 3 };
    pbt::Source& s;
    std::optional<G> g[slots];
    M m[slots];
    explicit Machine(pbt::Source& src) : s(src) {}

    static_assert(!std::is_copy_constructible_v<G> && std::is_nothrow_move_constructible_v<G> && std::is_nothrow_move_assignable_v<G>);
    static_assert(std::is_same_v<typename G::value_ret_t, std::conditional_t<std::is_reference_v<T>, T, T&>>);

    void create(size_t i)
    {
        Script sc = gen_script(s, 0);
        TR("g" << i << " = " << show(sc));
        Model mod(sc);
        long ex = tr().executed;
        auto ng = play<T>(sc, Tracked(5));
        REQM(tr().executed == ex, "the coroutine ran before a value was asked for");
        if (g[i] && s.coin()) *g[i] = std::move(ng);
        else { g[i].reset(); g[i].emplace(std::move(ng)); }
        m[i] = M();
        m[i].alive = true;
        m[i].ev = mod.ev;
    }

    // expects the event the model has next from a call which resumes; fetch gets the value
    template <typename F>
    void expect(size_t i, F call)
    {
        M& x = m[i];
        long ex = tr().executed;
        bool threw = false;
        int tv = 0;
        long before = x.pos ? x.ev[x.pos - 1].executed : 0;
        const Ev e = x.finished ? Ev{Ev::end, 0, before} : x.ev[x.pos];
        std::optional<int> got;
        try { got = call(); }
        catch (Boom& b) { threw = true; tv = b.v; }
        if (e.k == Ev::error) { REQM(threw && tv == e.v, "exception " << e.v << " expected" << (threw ? ", another came" : ", none came")); s.nontrivial(); }
        else
        {
            REQM(!threw, "unexpected exception");
            REQM(bool(got) == (e.k == Ev::value), (got ? "a value where the end was expected" : "the end where a value was expected"));
            if (got) REQM(*got == e.v, "value " << *got << ", expected " << e.v);
        }
        REQM(tr().executed - ex == e.executed - before, "the coroutine executed " << (tr().executed - ex) << " steps, expected " << (e.executed - before));
        if (!x.finished) { ++x.pos; if (e.k != Ev::value) x.finished = true; }
    }

    void step()
    {
        size_t i = s.raw(slots - 1), j = s.raw(slots - 1);
        size_t op = s.raw(9);
        if (op == 0 || !g[i]) { create(i); return; }
        switch (op)
        {
        case 1: case 2: case 3: // next
            if (!m[i].alive) break;
            TR("g" << i << ".next()");
            expect(i, [&]() -> std::optional<int> {
                auto v = g[i]->next();
                REQ(v.has_value() == bool(v));
                if (!v) return {};
                return Y<T>::get(*v);
            });
            break;
        case 4: case 5: // iterate for a while
        {
            if (!m[i].alive) break;
            size_t n = s.small(8);
            bool all = s.chance(1, 3);
            TR("iterate g" << i << (all ? " to the end" : "") << " for " << n);
            if (all)
            {
                try
                {
                    size_t pos = m[i].pos;
                    bool fin = m[i].finished;
                    for (auto&& v : *g[i])
                    {
                        REQM(!fin && m[i].ev[pos].k == Ev::value, "range-for goes on after the end");
                        REQM(Y<T>::get(v) == m[i].ev[pos].v, "range-for value " << Y<T>::get(v) << ", expected " << m[i].ev[pos].v);
                        m[i].pos = ++pos;
                    }
                    REQM(fin || m[i].ev[pos].k == Ev::end, "range-for ended early");
                }
                catch (Boom& b) { REQM(m[i].ev[m[i].pos].k == Ev::error && m[i].ev[m[i].pos].v == b.v, "unexpected exception"); }
                if (!m[i].finished) { m[i].finished = true; ++m[i].pos; }
                s.nontrivial();
                break;
            }
            typename G::pseudo_iterator it;
            auto val = [&]() -> std::optional<int> {
                bool end = it == g[i]->end();
                REQ((it != g[i]->end()) == !end && (g[i]->end() == it) == end && (g[i]->end() != it) == !end);
                if (end) return {};
                auto&& r = *it;
                auto&& r2 = *it;
                REQ(&r == &r2);
                return Y<T>::get(r);
            };
            expect(i, [&] { it = g[i]->begin(); return val(); });
            for (size_t k = 0; k < n && !m[i].finished; ++k)
                expect(i, [&] { auto& r = ++it; REQ(&r == &it); return val(); });
            s.nontrivial();
            break;
        }
        case 6: // move
        {
            TR("g" << i << " moved");
            G t(std::move(*g[i]));
            REQ(!*g[i]);
            REQ(bool(t) == m[i].alive);
            if (g[j] && i != j) { TR("  to g" << j); *g[j] = std::move(t); m[j] = m[i]; m[i] = M(); }
            else { *g[i] = std::move(t); }
            s.nontrivial();
            break;
        }
        case 7: TR("g" << i << ".reset()"); g[i]->reset(); m[i] = M(); s.nontrivial(); break;
        case 8: // self
        {
            TR("g" << i << " = move(g" << i << ")");
            G& r = *g[i];
            *g[i] = std::move(r);
            s.nontrivial();
            break;
        }
        default:
            if (i != j && g[j]) { TR("swap g" << i << ", g" << j); std::swap(*g[i], *g[j]); std::swap(m[i], m[j]); s.nontrivial(); }
            break;
        }
    }

    void run()
    {
        size_t n = s.small(50);
        for (size_t k = 0; k < n; ++k)
        {
            step();
            for (size_t i = 0; i < slots; ++i)
            {
                if (!g[i]) continue;
                const G& c = *g[i];
                REQM(bool(c) == m[i].alive, "g" << i << " is " << (c ? "not empty" : "empty"));
                if (m[i].alive) REQM(c.done() == m[i].finished, "g" << i << ".done() is " << c.done());
            }
        }
        for (auto& x : g) x.reset();
        REQM(tr().frames == 0, tr().frames << " coroutine frames left");
    }
};

template <typename T> void run(pbt::Source& s)
{
    tr() = Trace();
    std::vector<Tracked> cells;
    for (int i = 0; i < 100; ++i) cells.emplace_back(i);
    tcells() = cells.data();
    { Machine<T> m(s); m.run(); }
    REQM(tstats().live == 100, "values leaked");
    cells.clear();
}

// generators which own generators: assigning one from within itself, endless ones abandoned
struct Node { int v; std::vector<Node> kids; };
itlib::generator<int&> walk(Node& n)
{
    Frame f;
    co_yield n.v;
    for (auto& k : n.kids)
        for (auto& x : walk(k)) co_yield x;
}
itlib::generator<itlib::generator<int>*> nested(int v)
{
    Frame f;
    auto inner = [](int x) -> itlib::generator<int> { Frame fi; for (;;) co_yield x++; }(v);
    for (;;) co_yield &inner;
}
struct Chain { std::optional<itlib::generator<int>> rest; };
itlib::generator<int> link(int v, int depth, itlib::generator<int>** where)
{
    Frame f;
    std::optional<itlib::generator<int>> rest;
    if (depth) rest = link(v + 1, depth - 1, where + 1);
    *where = rest ? &*rest : nullptr;
    for (;;) co_yield v;
}
void trees(pbt::Source& s)
{
    tr() = Trace();
    {
        std::vector<int> expect;
        int budget = 40, id = 0;
        std::vector<Node*> order;
        Node root{0, {}};
        auto build = [&](auto&& self, Node& n, int depth) -> void {
            n.v = id++;
            size_t k = depth < 5 && budget > 0 ? s.small(4) : 0;
            n.kids.resize(k);
            for (auto& c : n.kids) { --budget; self(self, c, depth + 1); }
        };
        build(build, root, 0);
        auto collect = [&](auto&& self, Node& n) -> void { order.push_back(&n); for (auto& c : n.kids) self(self, c); };
        collect(collect, root);
        size_t stop = s.range<size_t>(0, order.size() + 1), k = 0;
        for (auto& x : walk(root))
        {
            if (k == stop) break;
            REQM(k < order.size() && &x == &order[k]->v, "tree walk, element " << k);
            ++k;
        }
        REQ(k == (stop < order.size() ? stop : order.size()));
        REQM(tr().frames == 0, "abandoned frames left: " << tr().frames);
        if (order.size() > 2) s.nontrivial();

        // a generator replaced with one which lives in its own frame
        int depth = s.range<int>(0, 5), v0 = s.range<int>(0, 100);
        itlib::generator<int>* inner[8] = {};
        itlib::generator<int> g = link(v0, depth, inner);
        for (int d = 0;; ++d)
        {
            auto x = g.next();
            REQM(x && *x == v0 + d, "chained generator");
            REQM(tr().frames == 1, tr().frames << " frames are alive");
            if (d == depth) { REQ(inner[d] == nullptr); break; }
            TR("g = move(generator in the frame of g)");
            itlib::generator<int>* in = inner[d];
            g = std::move(*in);
        }
    }
    {
        itlib::generator<itlib::generator<int>*> n = nested(7);
        itlib::generator<int>* p = *n.next();
        REQ(*p->next() == 7 && *p->next() == 8);
    }
    REQM(tr().frames == 0, "frames left: " << tr().frames);
}

PBT_REG(ints, run<int>, 40000);
PBT_REG(tracked, run<Tracked>, 40000);
PBT_REG(strings, run<std::string>, 20000);
PBT_REG(uptr, run<std::unique_ptr<int>>, 20000);
PBT_REG(moveonly, run<MoveOnly>, 40000);
PBT_REG(int_refs, run<int&>, 30000);
PBT_REG(const_refs, run<const Tracked&>, 30000);
PBT_REG(tree, trees, 20000);
}

// sentry: runs exactly once, at scope exit, in reverse order (P20)
#include "common.hpp"
#include <itlib/sentry.hpp>
#include <functional>
#include <memory>

using namespace vt;
using itlib::make_sentry;
using itlib::sentry;

namespace
{
std::vector<int>& lg() { static std::vector<int> l; return l; }

struct Fn  // copyable
{
    int id; Tracked t;
    explicit Fn(int i) : id(i), t(i) {}
    void operator()() { if (t.get() != id) FAIL("a sentry ran a moved-from function"); lg().push_back(id); }
};
struct ConstFn { int id; void operator()() const { lg().push_back(id); } };
struct MoveFn
{
    int id; MoveOnly t;
    explicit MoveFn(int i) : id(i), t(i) {}
    MoveFn(MoveFn&&) = default;
    void operator()() { if (t.get() != id) FAIL("a sentry ran a moved-from function"); lg().push_back(id); }
};
struct Pinned  // neither copyable nor movable: only usable as an lvalue
{
    int id; Tracked t;
    explicit Pinned(int i) : id(i), t(i) {}
    Pinned(const Pinned&) = delete;
    void operator()() { t.check(); lg().push_back(id); }
};
void free_fn() { lg().push_back(-1); }

struct Boom { int v; };

template <typename F>
sentry<F> factory(F&& f) { return make_sentry(std::forward<F>(f)); } // through another function

struct Machine
{
    pbt::Source& s;
    int next = 0;
    int budget = 30;
    std::vector<int> expect; // ids in the order in which they must run
    explicit Machine(pbt::Source& src) : s(src) {}

    // One scope: makes some sentries, does things within, leaves somehow. Returns normally or throws Boom.
    void scope(int depth)
    {
        if (budget <= 0) return;
        const size_t base = pend.size();
        size_t kind = s.raw(13);
        int id = ++next;
        --budget;
        TR(std::string(size_t(depth), ' ') << "scope with sentry " << id << " kind " << kind);
        switch (kind)
        {
        case 0: { auto x = make_sentry(Fn(id)); (void)x; inner(depth, id); break; }
        case 1: { auto x = make_sentry([id] { lg().push_back(id); }); (void)x; inner(depth, id); break; }
        case 2: { Fn f(id); auto x = make_sentry(f); (void)x; inner(depth, id); break; }              // refers to the lvalue
        case 3: { Pinned f(id); sentry<Pinned&> x(f); inner(depth, id); break; }
        case 4: { sentry<Fn> x{Fn(id)}; inner(depth, id); break; }
        case 5: { auto x = make_sentry(std::function<void()>(Fn(id))); (void)x; inner(depth, id); break; }
        case 6: { auto x = make_sentry(MoveFn(id)); (void)x; inner(depth, id); break; }
        case 7: { auto x = make_sentry(&free_fn); (void)x; inner(depth, -1); break; }
        case 8: { auto x = factory(Fn(id)); (void)x; inner(depth, id); break; }
        case 9: { const ConstFn f{id}; auto x = make_sentry(f); (void)x; inner(depth, id); break; }
        case 10: { std::unique_ptr<sentry<Fn>> x(new sentry<Fn>(Fn(id))); inner(depth, id); break; }
        case 11: // an own scope within the function: several in a row, in reverse order
        {
            int id2 = ++next, id3 = ++next;
            auto a = make_sentry(Fn(id)); auto b = make_sentry(MoveFn(id2)); auto c = make_sentry([id3] { lg().push_back(id3); });
            (void)a; (void)b; (void)c;
            pend.push_back(id); pend.push_back(id2);
            inner(depth, id3);
            break;
        }
        case 12:
        {
            MoveFn f(id);
            auto x = make_sentry(std::move(f)); (void)x;
            inner(depth, id);
            break;
        }
        default: moved(depth, id); break;
        }
        unwind(base); // the block was left normally: everything made in it has run
    }

#if __cplusplus < 201700L
    void moved(int depth, int id)
    {
        if (s.coin()) { auto a = make_sentry(Fn(id)); move_around(depth, id, a); }
        else { Pinned f(id); sentry<Pinned&> a(f); move_around(depth, id, a); }
    }
    // moves from the sentry which has the function and from ones which have not, in any order
    template <typename S>
    void move_around(int depth, int id, S& a)
    {
        std::vector<std::unique_ptr<S>> all;
        const size_t before = lg().size();
        all.emplace_back(new S(std::move(a)));
        size_t has = 0; // index of the one with the function
        for (size_t moves = 1 + s.small(5); moves; --moves)
        {
            size_t from = s.coin() ? has : size_t(s.raw(all.size() - 1));
            if (!all[from]) from = has;
            const bool other = s.chance(1, 6);
            TR("  move from " << (other ? std::string("the first") : std::to_string(from)) << ", the function is in " << has);
            all.emplace_back(new S(std::move(other ? a : *all[from])));
            if (!other && from == has) has = all.size() - 1;
            const size_t d = size_t(s.raw(all.size() - 1));
            if (d != has && s.coin()) all[d].reset(); // ones without a function die first
        }
        REQM(lg().size() == before, "a moved-from sentry ran its function");
        s.nontrivial();
        S last(std::move(*all[has]));
        if (s.coin()) all.clear();
        REQM(lg().size() == before, "a moved-from sentry ran its function");
        inner(depth, id);
    }
#else
    void moved(int depth, int id)
    {
        struct Holder { int a; sentry<Fn> sen; Holder(int i) : a(i), sen(Fn(i)) {} };
        Holder h(id);
        inner(depth, id);
    }
#endif

    std::vector<int> pend; // alive sentries, innermost last
    // what happens while the sentry is alive; pend tells what must run when
    void inner(int depth, int id)
    {
        pend.push_back(id);
        check_log();
        size_t n = depth < 6 ? s.small(3) : 0;
        for (size_t i = 0; i < n; ++i)
        {
            if (s.chance(1, 4))
            {
                size_t alive = pend.size();
                try { scope(depth + 1); }
                catch (Boom&) { s.label("exception"); s.nontrivial(); unwind(alive); }
            }
            else scope(depth + 1);
            check_log();
        }
        if (depth > 0 && s.chance(1, 8)) { TR(std::string(size_t(depth), ' ') << "throw"); throw Boom{id}; }
    }
    // sentries beyond n have to have run, innermost first
    void unwind(size_t n)
    {
        while (pend.size() > n) { expect.push_back(pend.back()); pend.pop_back(); }
        check_log();
    }
    void check_log()
    {
        REQM(lg() == expect, "functions run so far: " << pbt::show(lg()) << ", expected " << pbt::show(expect));
    }
};

int returning(pbt::Source& s, int how)
{
    auto a = make_sentry([] { lg().push_back(1); }); (void)a;
    for (int i = 0; i < 3; ++i)
    {
        auto b = make_sentry([i] { lg().push_back(10 + i); }); (void)b;
        if (how == 0 && i == 1) break;
        if (how == 1 && i == 1) return int(lg().size());
        if (how == 2 && i == 1) continue;
        if (how == 3 && i == 2) throw Boom{1};
        lg().push_back(100);
    }
    (void)s;
    return int(lg().size());
}

void exits(pbt::Source& s)
{
    lg().clear();
    int how = s.range<int>(0, 4);
    bool threw = false;
    int r = -1;
    try { r = returning(s, how); } catch (Boom&) { threw = true; }
    std::vector<int> want;
    switch (how)
    {
    case 0: want = {100, 10, 11, 1}; break;
    case 1: want = {100, 10, 11, 1}; break;
    case 2: want = {100, 10, 11, 100, 12, 1}; break;
    case 3: want = {100, 10, 100, 11, 12, 1}; break;
    default: want = {100, 10, 100, 11, 100, 12, 1}; break;
    }
    REQM(lg() == want, "exit " << how << ": " << pbt::show(lg()));
    REQ(threw == (how == 3));
    if (how == 1) REQ(r == 2); // the return value is computed before sentries run
    s.nontrivial();
}

void tree(pbt::Source& s)
{
    lg().clear();
    {
        Machine m(s);
        size_t n = 1 + s.small(4);
        for (size_t i = 0; i < n; ++i)
        {
            try { m.scope(0); }
            catch (Boom&) { m.unwind(0); }
            m.check_log();
        }
    }
}

PBT_REG(nesting, tree, 150000);
PBT_REG(exit_kinds, exits, 20000);
}

// enable_shared_from, make_shared/make_unique/make_aliased: ownership histories (P25)
#include "common.hpp"
#include <itlib/make_ptr.hpp>
#include <itlib/shared_from.hpp>
#include <map>
#include <memory>
#include <string>

using namespace vt;
using SP = std::shared_ptr<const void>;
using WP = std::weak_ptr<const void>;

namespace
{
struct World;
World* g_w;
void died(int id, bool ok);

struct Base0 { virtual ~Base0() = default; int b0 = 5; };

// an object with parts
struct Node : Base0, itlib::enable_shared_from
{
    int id;
    unsigned magic = 0xA11FE5ED;
    Tracked part;
    int arr[3];
    std::string text;
    SP held;
    explicit Node(int i) : id(i), part(i), arr{i, i + 1, i + 2}, text("node" + std::to_string(i)) {}
    Node(const Node&) = delete;
    ~Node() { bool ok = magic == 0xA11FE5ED; magic = 0xDEADDEAD; died(id, ok); }

    // the interface is protected
    using enable_shared_from::shared_from_this;
    using enable_shared_from::weak_from_this;
    using enable_shared_from::shared_from;
    using enable_shared_from::weak_from;
};
struct Derived : Node
{
    double extra = 1.5;
    using Node::Node;
};
struct Other { char pad[24]; virtual ~Other() = default; };
// enable_shared_from not at the beginning
struct Multi : Other, Derived
{
    explicit Multi(int i) : Derived(i) {}
};

enum { max_objs = 200, slots = 6, wslots = 4 };

struct World
{
    std::vector<Node*> obj;     // by id
    std::vector<bool> dead;
    std::vector<int> holds;     // object held by an object or -1
    struct S { SP p; int o = -1; const void* at = nullptr; } s[slots];
    struct W { WP p; int o = -1; const void* at = nullptr; } w[wslots];
};
void died(int id, bool ok)
{
    REQM(ok, "object " << id << " destroyed twice");
    REQM(!g_w->dead[size_t(id)], "object " << id << " destroyed twice");
    g_w->dead[size_t(id)] = true;
}

// what is an object's state after all the references we know of
void check(World& w)
{
    const int n = int(w.obj.size());
    std::vector<long> strong(size_t(n), 0);
    for (auto& x : w.s) if (x.o >= 0) ++strong[size_t(x.o)];
    for (int i = n - 1; i >= 0; --i)
        if (strong[size_t(i)] > 0 && w.holds[size_t(i)] >= 0) ++strong[size_t(w.holds[size_t(i)])];
    long live = 0;
    for (int i = 0; i < n; ++i)
    {
        bool alive = strong[size_t(i)] > 0;
        live += alive;
        REQM(w.dead[size_t(i)] == !alive, "object " << i << " has " << strong[size_t(i)] << " owners and is " << (w.dead[size_t(i)] ? "destroyed" : "not destroyed"));
        if (alive) { Node& o = *w.obj[size_t(i)]; REQ(o.magic == 0xA11FE5ED && o.id == i && o.part.get() == i && o.arr[2] == i + 2); }
    }
    REQ(tstats().live == live);
    for (int i = 0; i < slots; ++i)
    {
        auto& x = w.s[i];
        REQM(x.p.get() == x.at, "pointer " << i << " points to " << x.p.get() << ", expected " << x.at << " (of object " << x.o << ")");
        REQM(x.p.use_count() == (x.o >= 0 ? strong[size_t(x.o)] : 0), "use count of pointer " << i << " (object " << x.o << ") is " << x.p.use_count() << ", expected " << (x.o >= 0 ? strong[size_t(x.o)] : 0));
        for (int j = 0; j < i; ++j)
        {
            auto& y = w.s[j];
            bool same = !x.p.owner_before(y.p) && !y.p.owner_before(x.p);
            REQM(same == (x.o == y.o), "pointers " << i << " and " << j << (same ? " share" : " do not share") << " ownership, their objects are " << x.o << " and " << y.o);
        }
    }
    for (auto& x : w.w)
    {
        bool alive = x.o >= 0 && strong[size_t(x.o)] > 0;
        REQM(x.p.expired() == !alive, "weak pointer to object " << x.o << (alive ? " has" : " has not") << " expired");
        if (x.o >= 0) { REQ(x.p.use_count() == strong[size_t(x.o)]); }
        if (alive) REQM(x.p.lock().get() == x.at, "weak pointer locks to " << x.p.lock().get() << ", expected " << x.at);
    }
}

template <typename T> std::shared_ptr<T> null_of() { return std::shared_ptr<T>(); }

void owners(pbt::Source& s)
{
    tstats() = TrackStats();
    {
        World w;
        g_w = &w;
        size_t n = s.small(50);
        for (size_t step = 0; step < n && w.obj.size() < max_objs; ++step)
        {
            int a = int(s.raw(slots - 1)), b = int(s.raw(slots - 1)), c = int(s.raw(wslots - 1));
            auto& A = w.s[a];
            auto& B = w.s[b];
            auto& C = w.w[c];
            static const unsigned weights[] = {4, 8, 6, 4, 3, 3, 3};
            switch (s.weighted(weights))
            {
            case 0: // create
            {
                int id = int(w.obj.size());
                w.obj.push_back(nullptr);
                w.dead.push_back(false);
                w.holds.push_back(-1);
                uint64_t how = s.raw(7);
                TR("p" << a << " = new object " << id << ", made in way " << how);
                std::shared_ptr<Node> p;
                switch (how)
                {
                case 0: p = std::make_shared<Node>(id); break;
                case 1: p = std::shared_ptr<Node>(new Node(id)); break;
                case 2: p = std::make_shared<Derived>(id); break;
                case 3: p = std::make_shared<Multi>(id); break;
                case 4: p = std::unique_ptr<Node>(new Multi(id)); break;
                case 5: p = std::shared_ptr<Node>(new Derived(id), [](Node* x) { delete static_cast<Derived*>(x); }); break;
                case 6: p = std::shared_ptr<const Derived>(new Multi(id)) ? std::shared_ptr<Node>(std::unique_ptr<Derived>(new Derived(id))) : nullptr; break;
                default: p = std::allocate_shared<Derived>(std::allocator<Derived>(), id); break;
                }
                if (how == 6) { REQM(w.dead[size_t(id)], "a temporary object was not destroyed"); w.dead[size_t(id)] = false; }
                w.obj[size_t(id)] = p.get();
                A.p = p; A.o = id; A.at = p.get();
                break;
            }
            case 1: // a pointer from the object
            {
                if (B.o < 0) break;
                Node& o = *w.obj[size_t(B.o)];
                const Node& co = o;
                uint64_t what = s.raw(12);
                bool weak = s.coin();
                TR((weak ? "w" : "p") << (weak ? c : a) << " = " << (weak ? "weak" : "shared") << " pointer " << what << " from object " << B.o);
                SP p; WP q; const void* at = nullptr;
                switch (what)
                {
#define FROM(ptr, T) at = (ptr); if (weak) { std::weak_ptr<T> t = o.weak_from(ptr); q = t; } else { std::shared_ptr<T> t = o.shared_from(ptr); p = t; }
#define CFROM(ptr, T) at = (ptr); if (weak) { std::weak_ptr<T> t = co.weak_from(ptr); q = t; } else { std::shared_ptr<T> t = co.shared_from(ptr); p = t; }
                case 0: FROM(&o, Node) break;
                case 1: CFROM(&co, const Node) break;
                case 2: at = static_cast<itlib::enable_shared_from*>(&o); if (weak) { std::weak_ptr<void> t = o.weak_from_this(); q = t; } else { std::shared_ptr<void> t = o.shared_from_this(); p = t; } break;
                case 3: at = static_cast<itlib::enable_shared_from*>(&o); if (weak) { std::weak_ptr<const void> t = co.weak_from_this(); q = t; } else { std::shared_ptr<const void> t = co.shared_from_this(); p = t; } break;
                case 4: FROM(&o.part, Tracked) break;
                case 5: CFROM(&co.part, const Tracked) break;
                case 6: FROM(&o.arr[2], int) break;
                case 7: FROM(&o.text, std::string) break;
                case 8: FROM(static_cast<Base0*>(&o), Base0) break;
                case 9: if (auto d = dynamic_cast<Derived*>(&o)) { FROM(&d->extra, double) } else { FROM(&o.id, int) } break;
                case 10: if (auto d = dynamic_cast<Multi*>(&o)) { FROM(static_cast<Other*>(d), Other) } else { CFROM(&co.arr[1], const int) } break;
                case 11: FROM(o.arr + 3, int) break; // past the end
                default: FROM(static_cast<int*>(nullptr), int) break;
                }
                s.nontrivial();
                int o_ = B.o;
                if (weak) { C.p = q; C.o = o_; C.at = at; }
                else { A.p = p; A.o = o_; A.at = at; }
                break;
            }
            case 2: // drop
                TR("p" << a << ".reset()");
                A.o = -1; A.at = nullptr; A.p.reset();
                break;
            case 3: // copy or move
            {
                bool mv = s.coin();
                TR("p" << a << " = " << (mv ? "move " : "") << "p" << b);
                if (a == b) break;
                int o = B.o; const void* at = B.at;
                if (mv) { A.p = std::move(B.p); B.o = -1; B.at = nullptr; }
                else A.p = B.p;
                A.o = o; A.at = at;
                break;
            }
            case 4: // lock
            {
                TR("p" << a << " = w" << c << ".lock()");
                bool alive = C.o >= 0 && !w.dead[size_t(C.o)];
                SP p = C.p.lock();
                A.o = alive ? C.o : -1; A.at = alive ? C.at : nullptr;
                A.p = std::move(p);
                break;
            }
            case 5: // alias
            {
                static int unrelated[3];
                static const std::string label = "x";
                uint64_t what = s.raw(4);
                TR("p" << a << " = make_aliased(p" << b << ", " << what << ")");
                SP p; const void* at = nullptr;
                SP own = B.p;
                std::shared_ptr<const char> own2(B.p, "abc");
                if (B.o < 0) own2 = std::shared_ptr<const char>(std::shared_ptr<int>(), "abc"); // not null, but owns nothing
                switch (what)
                {
                case 0: { std::shared_ptr<int> t = itlib::make_aliased(own, &unrelated[1]); p = t; at = &unrelated[1]; break; }
                case 1: { std::shared_ptr<const std::string> t = itlib::make_aliased(own2, &label); p = t; at = &label; break; }
                case 2: { std::shared_ptr<int> t = itlib::make_aliased(own, static_cast<int*>(nullptr)); p = t; break; }
                case 3: { std::shared_ptr<void> t = itlib::make_aliased(own2, static_cast<void*>(unrelated)); p = t; at = unrelated; break; }
                default:
                    if (B.o >= 0) { std::shared_ptr<Tracked> t = itlib::make_aliased(own, &w.obj[size_t(B.o)]->part); p = t; at = &w.obj[size_t(B.o)]->part; }
                    else { p = itlib::make_aliased(own2, &unrelated[2]); at = &unrelated[2]; }
                }
                own.reset(); own2.reset();
                if (B.o < 0) { REQM(!p && p.use_count() == 0, "make_aliased from an owner of nothing is not empty"); at = nullptr; }
                s.nontrivial();
                int o = B.o;
                A.o = o; A.at = at;
                A.p = std::move(p);
                break;
            }
            default: // an object keeps another alive
            {
                if (A.o < 0 || B.o < 0 || A.o >= B.o) break;
                TR("object " << B.o << " holds p" << a << " (object " << A.o << ")");
                w.obj[size_t(B.o)]->held = A.p;
                w.holds[size_t(B.o)] = A.o;
            }
            }
            check(w);
        }
        for (auto& x : w.s) { x.o = -1; x.at = nullptr; x.p.reset(); check(w); }
    }
    REQM(tstats().live == 0, tstats().live << " objects not destroyed");
}

struct MoveOnlyT
{
    Tracked t;
    explicit MoveOnlyT(int x) : t(x) {}
    MoveOnlyT(MoveOnlyT&&) = default;
    MoveOnlyT(const MoveOnlyT&) = delete;
    int get() const { return t.get(); }
};
struct Throws
{
    int v;
    explicit Throws(int x) : v(x) {}
    Throws(const Throws& o) : v(o.v) { if (v % 2) throw v; }
    Throws(Throws&& o) : v(o.v) { if (v % 3 == 0) throw -v; o.v = 1; }
    int get() const { return v; }
};

struct Many
{
    int n, how; // 1: from a number, 2: copied, 3: moved, 4: from a list
    explicit Many(int x) : n(x), how(1) {}
    Many(const Many& o) : n(o.n), how(2) {}
    Many(Many&& o) noexcept : n(o.n), how(3) {}
    Many(std::initializer_list<Many> l) : n(int(l.size())), how(4) {}
    Many& operator=(const Many&) = default;
};
struct Greedy
{
    int n; bool other;
    Greedy(int a, int b) : n((a + b) / 2), other(false) {}
    Greedy(const Greedy&) = default;
    Greedy(Greedy&&) = default;
    template <typename T> Greedy(T&&) : n(0), other(true) {}
};

template <template <typename> class Ptr, typename Mk> void make_checks(pbt::Source& s, Mk)
{
    int x = int(s.raw(999));
    size_t kind = s.raw(8);
    TR("value " << x << " given in way " << kind);
    long live = tstats().live;
    s.nontrivial();
    switch (kind)
    {
    case 0: // lvalue
    {
        Tracked t(x);
        auto p = Mk::make(t);
        static_assert(std::is_same<decltype(p), Ptr<Tracked>>::value, "type");
        REQM(p->get() == x && t.get() == x && p.get() != &t, "copy is " << p->v << ", the original " << t.v << ", value was " << x);
        *p = Tracked(x + 1);
        REQ(t.get() == x && tstats().live == live + 2);
        break;
    }
    case 1: // const lvalue
    {
        const Tracked t(x);
        auto p = Mk::make(t);
        REQM(p->get() == x && t.get() == x, "copy is " << p->v << ", the original " << t.v << ", value was " << x);
        break;
    }
    case 2: // rvalue
    {
        Tracked t(x);
        long c = tstats().copies;
        auto p = Mk::make(std::move(t));
        static_assert(std::is_same<decltype(p), Ptr<Tracked>>::value, "type");
        REQM(p->get() == x, "moved value is " << p->v << ", expected " << x);
        REQM(t.v == moved_value && tstats().copies == c, "an rvalue was not moved from");
        break;
    }
    case 3:
    {
        MoveOnlyT t(x);
        auto p = Mk::make(std::move(t));
        static_assert(std::is_same<decltype(p), Ptr<MoveOnlyT>>::value, "type");
        REQ(p->get() == x && t.t.v == moved_value);
        auto q = Mk::make(MoveOnlyT(x + 1));
        REQ(q->get() == x + 1);
        break;
    }
    case 4:
    {
        std::string t(size_t(x % 60), char('a' + x % 26));
        const std::string orig = t;
        auto p = Mk::make(t);
        REQ(*p == orig && t == orig);
        auto q = Mk::make(std::move(t));
        REQ(*q == orig);
        auto r = Mk::make(std::unique_ptr<int>(new int(x)));
        static_assert(std::is_same<decltype(r), Ptr<std::unique_ptr<int>>>::value, "type");
        REQ(**r == x);
        auto pp = Mk::make(r->get()); // a pointer to a pointer
        static_assert(std::is_same<decltype(pp), Ptr<int*>>::value, "type");
        REQ(*pp == r->get());
        break;
    }
    case 5:
    {
        Throws t(x);
        bool thrown = false;
        try { auto p = Mk::make(t); REQ(p->get() == x && t.v == x); } catch (int v) { thrown = true; REQ(v == x); }
        REQM(thrown == (x % 2 == 1), "an exception of a copy " << (thrown ? "came from nowhere" : "was lost"));
        break;
    }
    case 6:
    {
        Throws t(x);
        bool thrown = false;
        try { auto p = Mk::make(std::move(t)); REQ(p->get() == x && t.v == 1); } catch (int v) { thrown = true; REQ(v == -x); }
        REQM(thrown == (x % 3 == 0), "an exception of a move " << (thrown ? "came from nowhere" : "was lost"));
        break;
    }
    case 7: // a type which can also be made from a list of itself, or from anything
    {
        const Many t(x);
        auto p = Mk::make(t);
        REQM(p->how == 2 && p->n == x, "not copied (made in way " << p->how << ")");
        auto q = Mk::make(Many(x));
        REQM(q->how == 3 && q->n == x, "not moved (made in way " << q->how << ")");
        Greedy g(x, x);
        auto u = Mk::make(std::move(g));
        REQM(u->n == x && !u->other, "not moved but converted");
        std::vector<Many> v(size_t(x % 3), t);
        auto w = Mk::make(v);
        REQ(w->size() == v.size() && v.size() == size_t(x % 3));
        auto z = Mk::make(std::move(v));
        REQ(z->size() == size_t(x % 3) && v.empty());
        break;
    }
    default:
    {
        Tracked t(x);
        auto p = Mk::make(t);
        auto q = Mk::make(*p);
        auto r = Mk::make(std::move(*q));
        REQ(p->get() == x && r->get() == x && q->v == moved_value && tstats().live == live + 4);
        auto pr = Mk::make(std::pair<int, Tracked>(x, x));
        REQ(pr->first == x && pr->second.get() == x);
    }
    }
}
template <typename T> using UP = std::unique_ptr<T>;
struct MkS { template <typename T> static auto make(T&& t) -> decltype(itlib::make_shared(std::forward<T>(t))) { auto p = itlib::make_shared(std::forward<T>(t)); REQ(p.use_count() == 1); return p; } };
struct MkU { template <typename T> static auto make(T&& t) -> decltype(itlib::make_unique(std::forward<T>(t))) { return itlib::make_unique(std::forward<T>(t)); } };

void make(pbt::Source& s)
{
    tstats() = TrackStats();
    size_t n = 1 + s.small(6);
    for (size_t i = 0; i < n; ++i)
    {
        if (s.coin()) { TR("make_shared"); make_checks<std::shared_ptr>(s, MkS()); }
        else { TR("make_unique"); make_checks<UP>(s, MkU()); }
        REQM(tstats().live == 0, tstats().live << " objects not destroyed");
    }
}

#if __cplusplus >= 201703L
// objects without an owner
void unowned(pbt::Source& s)
{
    tstats() = TrackStats();
    World w;
    g_w = &w;
    w.obj.assign(2, nullptr); w.dead.assign(2, false); w.holds.assign(2, -1);
    size_t n = 1 + s.small(6);
    s.nontrivial();
    {
        Derived o(0);
        std::unique_ptr<Multi> u(new Multi(1));
        for (size_t i = 0; i < n; ++i)
        {
            Node& x = s.coin() ? static_cast<Node&>(o) : *u;
            uint64_t k = s.raw(3);
            TR("way " << k << " from object " << x.id << " which is not owned by a shared_ptr");
            bool thrown = false;
            try
            {
                switch (k)
                {
                case 0: { auto p = x.shared_from(&x); REQM(!p, "a shared_ptr to an object not owned by one"); break; }
                case 1: { auto p = x.weak_from(&x.part); REQM(p.expired(), "not expired"); break; }
                case 2: { auto p = x.shared_from_this(); REQM(!p, "a shared_ptr to an object not owned by one"); break; }
                default: { auto p = x.weak_from_this(); REQM(p.expired(), "not expired"); break; }
                }
            }
            catch (std::bad_weak_ptr&) { thrown = true; }
            if (k % 2 == 0) REQM(thrown, "no bad_weak_ptr from an object which is not owned");
        }
        REQ(!w.dead[0] && !w.dead[1]);
    }
    REQ(w.dead[0] && w.dead[1]);
}
PBT_REG(unowned_objects, unowned, 10000);
#endif

// objects which are copied, assigned, owned again, or asked while they are being destroyed
struct Copyable : itlib::enable_shared_from
{
    Tracked v;
    bool ask = false; // in the destructor
    int* answer = nullptr;
    explicit Copyable(int x) : v(x) {}
    Copyable(const Copyable& o) : enable_shared_from(o), v(o.v) {}
    Copyable(Copyable&& o) : enable_shared_from(o), v(std::move(o.v)) {}
    Copyable& operator=(const Copyable& o) { enable_shared_from::operator=(o); v = o.v; return *this; }
    ~Copyable()
    {
        if (!ask) return;
        try { auto p = shared_from(&v); *answer = p ? 1 : 2; }
        catch (std::bad_weak_ptr&) { *answer = 3; }
    }
    using enable_shared_from::shared_from_this;
    using enable_shared_from::weak_from_this;
    using enable_shared_from::shared_from;
    using enable_shared_from::weak_from;
};

void copying(pbt::Source& s)
{
    tstats() = TrackStats();
    {
        enum { n = 4 };
        std::shared_ptr<Copyable> own[n];
        int val[n];
        int answer[n] = {};
        for (int i = 0; i < n; ++i)
        {
            val[i] = int(s.raw(99));
            own[i] = std::make_shared<Copyable>(val[i]);
        }
        auto look = [&](int i) {
            if (!own[i]) return;
            Copyable& o = *own[i];
            REQM(o.v.get() == val[i], "object " << i << " has the value " << o.v.v << ", expected " << val[i]);
            const long c = own[i].use_count();
            auto p = o.shared_from(&o.v);
            auto q = o.weak_from(&o);
            REQM(p.get() == &o.v && own[i].use_count() == c + 1, "a pointer from object " << i << " made its use count " << own[i].use_count() << ", it was " << c);
            for (int j = 0; j < n; ++j)
                if (own[j]) REQM((!p.owner_before(own[j]) && !own[j].owner_before(p)) == (i == j) && (!q.owner_before(own[j]) && !own[j].owner_before(q)) == (i == j),
                    "a pointer from object " << i << " shares the ownership of object " << j << ", or not its own");
        };
        size_t steps = s.small(20);
        for (size_t k = 0; k < steps; ++k)
        {
            int a = int(s.raw(n - 1)), b = int(s.raw(n - 1));
            switch (s.raw(5))
            {
            case 0: // a new object which is a copy
                if (!own[b] || a == b) break;
                TR("object " << a << " = new copy of " << b);
                own[a] = s.coin() ? std::make_shared<Copyable>(*own[b]) : std::shared_ptr<Copyable>(new Copyable(*own[b]));
                val[a] = val[b];
                s.nontrivial();
                break;
            case 1: // assign
                if (!own[a] || !own[b]) break;
                TR("*" << a << " = *" << b);
                *own[a] = *own[b];
                val[a] = val[b];
                s.nontrivial();
                break;
            case 2: // a copy nobody owns
            {
                if (!own[b]) break;
                TR("copy of " << b << " on the stack");
                const long c = own[b].use_count();
                Copyable x(*own[b]);
                REQM(own[b].use_count() == c, "copying changed the use count");
                bool thrown = false;
                try { auto p = x.shared_from(&x.v); (void)p; } catch (std::bad_weak_ptr&) { thrown = true; }
                REQM(thrown, "a copy which is not owned gives a pointer");
                if (s.coin()) { x = *own[b]; thrown = false; try { auto p = x.shared_from_this(); (void)p; } catch (std::bad_weak_ptr&) { thrown = true; } REQM(thrown, "a copy which is not owned gives a pointer"); }
                s.nontrivial();
                break;
            }
            case 3: // gone, while it asks for itself
            {
                if (!own[a]) break;
                TR("destroy object " << a << ", which asks for itself in the destructor");
                own[a]->ask = true;
                own[a]->answer = &answer[a];
                answer[a] = 0;
                own[a].reset();
                REQM(answer[a] == 3, "an object being destroyed gives " << (answer[a] == 1 ? "a pointer to itself" : "an empty pointer"));
                s.nontrivial();
                break;
            }
            case 4: // let go and own again
            {
                if (own[a]) break;
                TR("object " << a << " is owned twice, one after the other");
                val[a] = int(s.raw(99));
                Copyable* raw = new Copyable(val[a]);
                { std::shared_ptr<Copyable> first(raw, [](Copyable*) {}); auto p = raw->shared_from(raw); REQ(p.use_count() == 2); }
                own[a].reset(raw);
                s.nontrivial();
                break;
            }
            default: // values change
                if (!own[a]) break;
                val[a] = int(s.raw(99));
                own[a]->v = Tracked(val[a]);
            }
            for (int i = 0; i < n; ++i) look(i);
        }
    }
    REQM(tstats().live == 0, tstats().live << " objects not destroyed");
}
PBT_REG(copies, copying, 40000);
PBT_REG(ownership, owners, 250000);
PBT_REG(make_ptr, make, 100000);
}

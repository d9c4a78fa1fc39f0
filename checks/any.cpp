// any: type identity, contents, lifetimes, allocator contract (P11)
#include <vector>
#include "common.hpp"
#include "fwd.hpp"
#include <itlib/any.hpp>
#include <typeinfo>

using namespace vt;

namespace
{
struct ABlocks { std::map<void*, std::pair<std::pair<size_t, size_t>, int>> m; int fail = 0; };
ABlocks& ab() { static ABlocks b; return b; }

// like a polymorphic_allocator: an identity, copyable, not assignable
struct ByteAlloc
{
    int id = 0;
    ByteAlloc() = default;
    explicit ByteAlloc(int i) : id(i) {}
    ByteAlloc(const ByteAlloc&) = default;
    ByteAlloc& operator=(const ByteAlloc&) = delete;
    void* allocate_bytes(size_t n, size_t a)
    {
        if (ab().fail > 0 && --ab().fail == 0) throw std::bad_alloc();
        if (a == 0 || (a & (a - 1))) FAIL("allocate_bytes(" << n << ", " << a << ")");
        // no more alignment than asked for (users of the block are compiled with alignment checks)
        void* base = nullptr;
        const size_t big = a < 8 ? 16 : 2 * a;
        if (posix_memalign(&base, big, a + n) != 0) throw std::bad_alloc();
        void* p = static_cast<char*>(base) + a;
        ab().m[p] = {{n, a}, id};
        return p;
    }
    void deallocate_bytes(void* p, size_t n, size_t a) noexcept
    {
        auto f = ab().m.find(p);
        if (f == ab().m.end()) FAIL("deallocate_bytes of an unknown block, or twice");
        if (f->second.first != std::make_pair(n, a))
            FAIL("block of size " << f->second.first.first << " alignment " << f->second.first.second << " deallocated with size " << n << " alignment " << a);
        if (f->second.second != id) FAIL("block of allocator " << f->second.second << " deallocated through allocator " << id);
        ab().m.erase(f);
        free(static_cast<char*>(p) - a);
    }
    bool operator==(const ByteAlloc& o) const { return id == o.id; }
};
using DefAlloc = itlib::anyimpl::default_allocator;
template <typename A> struct AI { static A make(int) { return A(); } static int id(const A&) { return 0; } static constexpr bool ids = false; };
template <> struct AI<ByteAlloc> { static ByteAlloc make(int i) { return ByteAlloc(i); } static int id(const ByteAlloc& a) { return a.id; } static constexpr bool ids = true; };

struct Big { char pad[200]; int v; Big(int x = 0) : v(x) { memset(pad, x, sizeof pad); }
    bool ok() const { for (char c : pad) if (c != char(v)) return false; return true; } };
struct Huge { char pad[70000]; int v; Huge(int x = 0) : v(x) { pad[0] = pad[255] = pad[65535] = pad[69999] = char(x); }
    bool ok() const { return pad[0] == char(v) && pad[255] == char(v) && pad[65535] == char(v) && pad[69999] == char(v); } };
struct Empty {};
int fn1(int x) { return x + 1; }
int fn2(int x) { return x + 2; }

enum Kind { none, k_int, k_string, k_tracked, k_over, k_moveonly, k_throw, k_big, k_cstr, k_fn, k_empty, k_uptr, k_over128, k_char, k_huge, k_over512, kinds };
static const char* const kind_names[] = {"none", "int", "string", "Tracked", "OverAligned", "MoveOnly", "ThrowT", "Big", "const char*", "function pointer", "Empty", "unique_ptr", "aligned 128", "char", "70 KB", "aligned 512"};
using O128 = TrackedT<128>;
using O512 = TrackedT<512>;

template <Kind K> struct KT;
template <> struct KT<k_int> { using type = int; static int make(int v) { return v; } static bool is(const int& x, int v) { return x == v; } };
template <> struct KT<k_string> { using type = std::string; static std::string make(int v) { return Elem<std::string>::make(v); } static bool is(const std::string& x, int v) { return x == make(v); } };
template <> struct KT<k_tracked> { using type = Tracked; static Tracked make(int v) { return Tracked(v); } static bool is(const Tracked& x, int v) { return x.get() == v; } };
template <> struct KT<k_over> { using type = OverAligned; static OverAligned make(int v) { return OverAligned(v); } static bool is(const OverAligned& x, int v) { return Elem<OverAligned>::get(x) == v; } };
template <> struct KT<k_moveonly> { using type = MoveOnly; static MoveOnly make(int v) { return MoveOnly(v); } static bool is(const MoveOnly& x, int v) { return x.get() == v; } };
template <> struct KT<k_throw> { using type = ThrowT; static ThrowT make(int v) { return ThrowT(v); } static bool is(const ThrowT& x, int v) { return x.get() == v; } };
template <> struct KT<k_big> { using type = Big; static Big make(int v) { return Big(v); } static bool is(const Big& x, int v) { return x.v == v && x.ok(); } };
template <> struct KT<k_cstr> { using type = const char*; static const char* make(int v) { return v & 1 ? "abc" : "xyz"; } static bool is(const char* const& x, int v) { return x == make(v); } };
template <> struct KT<k_fn> { using type = int (*)(int); static type make(int v) { return v & 1 ? fn1 : fn2; } static bool is(const type& x, int v) { return x(10) == (v & 1 ? 11 : 12); } };
template <> struct KT<k_empty> { using type = Empty; static Empty make(int) { return Empty(); } static bool is(const Empty&, int) { return true; } };
template <> struct KT<k_uptr> { using type = std::unique_ptr<int>; static type make(int v) { return type(new int(v)); } static bool is(const type& x, int v) { return x && *x == v; } };
template <> struct KT<k_over128> { using type = O128; static O128 make(int v) { return O128(v); } static bool is(const O128& x, int v) { return Elem<O128>::get(x) == v; } };
template <> struct KT<k_char> { using type = char; static char make(int v) { return char(v); } static bool is(const char& x, int v) { return x == char(v); } };
template <> struct KT<k_huge> { using type = Huge; static Huge make(int v) { return Huge(v); } static bool is(const Huge& x, int v) { return x.v == v && x.ok(); } };
template <> struct KT<k_over512> { using type = O512; static O512 make(int v) { return O512(v); } static bool is(const O512& x, int v) { return Elem<O512>::get(x) == v; } };

template <typename F> void with_kind(Kind k, F f)
{
    switch (k)
    {
    case k_int: f(KT<k_int>()); break;
    case k_string: f(KT<k_string>()); break;
    case k_tracked: f(KT<k_tracked>()); break;
    case k_over: f(KT<k_over>()); break;
    case k_moveonly: f(KT<k_moveonly>()); break;
    case k_throw: f(KT<k_throw>()); break;
    case k_big: f(KT<k_big>()); break;
    case k_cstr: f(KT<k_cstr>()); break;
    case k_fn: f(KT<k_fn>()); break;
    case k_empty: f(KT<k_empty>()); break;
    case k_uptr: f(KT<k_uptr>()); break;
    case k_over128: f(KT<k_over128>()); break;
    case k_char: f(KT<k_char>()); break;
    case k_huge: f(KT<k_huge>()); break;
    case k_over512: f(KT<k_over512>()); break;
    default: break;
    }
}

struct M { Kind k = none; int v = 0; bool moved = false; };

template <typename A>
void check_any(itlib::any<A>& a, const M& m, const char* who)
{
    const itlib::any<A>& c = a;
    REQM(c.has_value() == (m.k != none), who << ": has_value() is " << c.has_value() << ", holds " << kind_names[m.k]);
    REQ(bool(c) == c.has_value());
    REQM((c.data() != nullptr) == (m.k != none), who << ": data()");
    REQ(c.data() == a.data());
    if (m.k == none) REQM(c.type() == typeid(void), who << ": type() of an empty any");
    for (int k = 1; k < kinds; ++k)
    {
        with_kind(Kind(k), [&](auto kt) {
            using KTT = decltype(kt);
            using T = typename KTT::type;
            const T* cp = itlib::any_cast<T>(&c);
            T* p = itlib::any_cast<T>(&a);
            REQM((p != nullptr) == (m.k == k), who << ": any_cast<" << kind_names[k] << "> " << (p ? "succeeds" : "fails") << ", holds " << kind_names[m.k]);
            REQ(cp == p);
            REQM((c.type() == typeid(T)) == (m.k == k), who << ": type()");
            if (p)
            {
                REQ(static_cast<void*>(p) == a.data() && a.template tdata<T>() == p && c.template tdata<T>() == p);
                REQM(reinterpret_cast<uintptr_t>(p) % alignof(T) == 0, who << ": misaligned value");
                if (!m.moved) REQM(KTT::is(*p, m.v), who << ": holds another value than " << m.v);
                REQ(&itlib::any_cast<T&>(a) == p && &itlib::any_cast<const T&>(c) == p);
            }
        });
    }
}

template <typename A>
struct Machine
{
    using X = itlib::any<A>;
    enum { slots = 3 };
    pbt::Source& s;
    std::unique_ptr<X> sut[slots];
    M mod[slots];
    int aid[slots];
    int next_id = 1;

    explicit Machine(pbt::Source& src) : s(src) {}

    void check(size_t i)
    {
        check_any(*sut[i], mod[i], "any");
        REQM(AI<A>::id(sut[i]->get_allocator()) == aid[i], "allocator " << AI<A>::id(sut[i]->get_allocator()) << ", expected " << aid[i]);
    }

    M gen()
    {
        M m;
        m.k = Kind(1 + s.raw(kinds - 2));
        m.v = s.range<int>(1, 99);
        return m;
    }

    // an operation which may throw left the any in some state: it must be the old value or none
    void after_throw(size_t i, const char* what)
    {
        TR("  threw: " << what);
        if (!sut[i]->has_value()) mod[i] = M();
        s.label(what);
        s.nontrivial();
    }

    void create(size_t i)
    {
        int id = AI<A>::ids ? s.range<int>(0, 3) : 0;
        M m = gen();
        unsigned how = unsigned(s.raw(6));
        TR("a" << i << " = new any, kind " << how << ", " << kind_names[m.k] << " " << m.v << ", allocator " << id);
        sut[i].reset();
        mod[i] = M();
        aid[i] = id;
        switch (how)
        {
        case 0: sut[i].reset(new X); aid[i] = 0; return;
        case 1: { const A a = AI<A>::make(id); sut[i].reset(new X(a)); return; } // an rvalue would be stored as the value
        case 2: sut[i].reset(new X(std::allocator_arg, AI<A>::make(id))); return;
        default: break;
        }
        with_kind(m.k, [&](auto kt) {
            using KTT = decltype(kt);
            using T = typename KTT::type;
            switch (how)
            {
            case 3: sut[i].reset(new X(KTT::make(m.v))); aid[i] = 0; break;
            case 4: sut[i].reset(new X(std::allocator_arg, AI<A>::make(id), KTT::make(m.v))); break;
            default:
                if constexpr (std::is_copy_constructible<T>::value)
                {
                    T lv = KTT::make(m.v);
                    if (how == 5) { sut[i].reset(new X(lv)); aid[i] = 0; }
                    else { const T& cl = lv; sut[i].reset(new X(std::allocator_arg, AI<A>::make(id), cl)); }
                    REQM(KTT::is(lv, m.v), "constructing an any from an lvalue changed it");
                    REQM(sut[i]->data() != static_cast<void*>(&lv), "an any made from an lvalue refers to the lvalue instead of holding a copy");
                    s.label("from lvalue");
                }
                else { sut[i].reset(new X(std::allocator_arg, AI<A>::make(id), KTT::make(m.v))); }
                break;
            }
        });
        mod[i] = m;
    }

    void step(size_t op)
    {
        size_t i = s.raw(slots - 1), j = s.raw(slots - 1);
        X& x = *sut[i];
        switch (op)
        {
        case 0: create(i); break;
        case 1: // assign a value
        {
            M m = gen();
            bool lval = s.coin();
            TR("a" << i << " = " << (lval ? "lvalue " : "") << kind_names[m.k] << " " << m.v);
            with_kind(m.k, [&](auto kt) {
                using KTT = decltype(kt);
                using T = typename KTT::type;
                if constexpr (std::is_copy_constructible<T>::value)
                {
                    if (lval)
                    {
                        T lv = KTT::make(m.v);
                        X& r = (x = lv);
                        REQ(&r == &x);
                        REQM(KTT::is(lv, m.v), "assigning an lvalue changed it");
                        REQM(x.data() != static_cast<void*>(&lv), "an any assigned from an lvalue refers to the lvalue");
                        return;
                    }
                }
                X& r = (x = KTT::make(m.v));
                REQ(&r == &x);
            });
            mod[i] = m;
            s.nontrivial();
            break;
        }
        case 2: // emplace
        {
            M m = gen();
            TR("a" << i << ".emplace " << kind_names[m.k] << " " << m.v);
            with_kind(m.k, [&](auto kt) {
                using KTT = decltype(kt);
                using T = typename KTT::type;
                T& r = x.template emplace<T>(KTT::make(m.v));
                REQM(static_cast<void*>(&r) == x.data(), "emplace returned a reference to something else");
            });
            if (s.coin())
            {
                m.k = k_tracked;
                m.v = 3007;
                Tracked& r = x.template emplace<Tracked>(3, 7);
                REQ(&r == x.data() && r.get() == 3007);
            }
            mod[i] = m;
            s.nontrivial();
            break;
        }
        case 3: // something throws
        {
            unsigned how = unsigned(s.raw(4));
            TR("a" << i << ": throwing operation " << how);
            bool threw = false;
            if (how == 0)
            {
                ThrowT::armed() = 1;
                try { x.template emplace<ThrowT>(5); } catch (ThrowT::boom&) { threw = true; }
                ThrowT::armed() = 0;
                REQ(threw);
                after_throw(i, "throwing emplace");
            }
            else if (how == 1)
            {
                ThrowT t(9);
                ThrowT::armed() = 1;
                try { x = t; } catch (ThrowT::boom&) { threw = true; }
                ThrowT::armed() = 0;
                REQ(threw);
                REQ(t.get() == 9);
                after_throw(i, "throwing value assignment");
            }
            else if (how == 2)
            {
                ThrowT t(9);
                X src(std::allocator_arg, AI<A>::make(7), t);
                ThrowT::armed() = 1;
                try { x = static_cast<const X&>(src); } catch (ThrowT::boom&) { threw = true; }
                ThrowT::armed() = 0;
                REQ(threw);
                M sm;
                sm.k = k_throw;
                sm.v = 9;
                check_any(src, sm, "source of a throwing copy");
                after_throw(i, "throwing copy");
            }
            else if (how == 3)
            {
                X src(std::allocator_arg, AI<A>::make(7), MoveOnly(3));
                try { x = static_cast<const X&>(src); } catch (std::bad_cast&) { threw = true; }
                REQM(threw, "copying a non-copyable value did not throw bad_cast");
                M sm;
                sm.k = k_moveonly;
                sm.v = 3;
                check_any(src, sm, "source of a bad copy");
                threw = false;
                try { X c(static_cast<const X&>(src)); } catch (std::bad_cast&) { threw = true; }
                REQM(threw, "copying a non-copyable value did not throw bad_cast");
                after_throw(i, "copy of a non-copyable");
            }
            else if (AI<A>::ids)
            {
                M m = gen();
                with_kind(m.k, [&](auto kt) {
                    using KTT = decltype(kt);
                    ab().fail = 1;
                    try
                    {
                        if (s.coin()) x = KTT::make(m.v);
                        else x.template emplace<typename KTT::type>(KTT::make(m.v));
                        threw = ab().fail != 0; // not reached unless no allocation was needed
                    }
                    catch (std::bad_alloc&) { threw = true; }
                    ab().fail = 0;
                });
                REQ(threw);
                after_throw(i, "allocation failure");
            }
            break;
        }
        case 4: // copy
        {
            bool copyable = mod[i].k != k_moveonly && mod[i].k != k_uptr;
            if (s.coin())
            {
                TR("a" << j << " = a" << i << " (copy)" << (i == j ? ", self" : ""));
                try
                {
                    X& r = (*sut[j] = static_cast<const X&>(x));
                    REQ(&r == sut[j].get());
                    if (i != j)
                    {
                        REQM(copyable, "copying a non-copyable value did not throw");
                        mod[j] = mod[i];
                    }
                }
                catch (std::bad_cast&)
                {
                    REQM(!copyable, "copying a copyable value threw bad_cast");
                    after_throw(j, "copy of a non-copyable");
                }
                if (i == j) s.label("self assignment");
            }
            else
            {
                int id = AI<A>::ids ? s.range<int>(0, 3) : 0;
                bool with = s.coin();
                TR("a" << j << " = new copy of a" << i << (with ? " with allocator " : " ") << id);
                std::unique_ptr<X> n;
                try
                {
                    if (with) n.reset(new X(static_cast<const X&>(x), AI<A>::make(id)));
                    else n.reset(new X(static_cast<const X&>(x)));
                    REQM(copyable || mod[i].k == none, "copying a non-copyable value did not throw");
                    M m = mod[i];
                    sut[j] = std::move(n);
                    mod[j] = m;
                    aid[j] = with ? id : 0;
                }
                catch (std::bad_cast&) { REQM(!copyable, "copying a copyable value threw bad_cast"); s.label("copy of a non-copyable"); }
            }
            s.nontrivial();
            check(j);
            if (i != j && mod[i].k != none && mod[j].k != none) REQM(sut[i]->data() != sut[j]->data(), "a copy shares its value");
            break;
        }
        case 5: // move
        {
            if (i == j) break;
            void* d = x.data();
            if (s.coin())
            {
                TR("a" << j << " = move(a" << i << ")");
                X& r = (*sut[j] = std::move(x));
                REQ(&r == sut[j].get());
            }
            else
            {
                TR("a" << j << " = new from move(a" << i << ")");
                std::unique_ptr<X> n(new X(std::move(x)));
                sut[j] = std::move(n);
                REQM(sut[j]->data() == d, "move construction did not take the value along");
            }
            aid[j] = AI<A>::id(sut[j]->get_allocator());
            mod[j] = mod[i];
            REQM(!x.has_value(), "moved-from any still has a value");
            mod[i] = M();
            s.nontrivial();
            check(j);
            break;
        }
        case 6: TR("a" << i << ".reset()"); x.reset(); mod[i] = M(); break;
        case 7: // write through a cast / take the value
        {
            if (mod[i].k == none) break;
            bool take = s.coin();
            M m = mod[i];
            m.v = s.range<int>(1, 99);
            TR("a" << i << (take ? " value taken" : " written through the cast ") << m.v);
            with_kind(m.k, [&](auto kt) {
                using KTT = decltype(kt);
                using T = typename KTT::type;
                if (take)
                {
                    T t = itlib::any_cast<T>(std::move(x));
                    if (!mod[i].moved) REQM(KTT::is(t, mod[i].v), "rvalue any_cast gives another value");
                    mod[i].moved = true;
                }
                else
                {
                    itlib::any_cast<T&>(x) = KTT::make(m.v);
                    mod[i] = m;
                    mod[i].moved = false;
                    if constexpr (std::is_copy_constructible<T>::value)
                    {
                        T t = itlib::any_cast<T>(x);
                        REQ(KTT::is(t, m.v));
                        const X& c = x;
                        T t2 = itlib::any_cast<T>(c);
                        REQ(KTT::is(t2, m.v));
                    }
                }
                bool threw = false;
                struct Other {};
                try { itlib::any_cast<Other>(x); } catch (std::bad_cast&) { threw = true; }
                REQ(threw);
                REQ(itlib::any_cast<Other>(&x) == nullptr);
                REQ(itlib::any_cast<Other>(static_cast<X*>(nullptr)) == nullptr && itlib::any_cast<Other>(static_cast<const X*>(nullptr)) == nullptr && itlib::any_cast<Other>(nullptr) == nullptr);
            });
            break;
        }
        case 8: // copies between allocators of different types
        {
            using Y = itlib::any<typename std::conditional<AI<A>::ids, DefAlloc, ByteAlloc>::type>;
            TR("a" << i << " copied to and from an any with another allocator type");
            Y y;
            try
            {
                if (s.coin()) { Y y2(static_cast<const X&>(x)); check_any(y2, mod[i], "cross copy"); y = std::move(y2); }
                else y.copy_from(x);
                REQM(mod[i].k != k_moveonly && mod[i].k != k_uptr, "copying a non-copyable value did not throw");
                check_any(y, mod[i], "cross copy");
                M m = mod[i];
                sut[j]->copy_from(y);
                mod[j] = m;
                check(j);
            }
            catch (std::bad_cast&) { REQ(mod[i].k == k_moveonly || mod[i].k == k_uptr); REQ(!y.has_value()); }
            s.nontrivial();
            break;
        }
        case 9: // the source lives inside the destination
        {
            unsigned how = unsigned(s.raw(2));
            M m = gen();
            TR("a" << i << " = its own content, kind " << how << ", " << kind_names[m.k] << " " << m.v);
            using Vec = std::vector<X>;
            with_kind(m.k, [&](auto kt) {
                using KTT = decltype(kt);
                using T = typename KTT::type;
                if constexpr (std::is_copy_constructible<T>::value)
                {
                    x.template emplace<Vec>();
                    Vec& v = itlib::any_cast<Vec&>(x);
                    v.reserve(2);
                    v.emplace_back(KTT::make(m.v));
                    v.emplace_back(Empty());
                    if (how == 0) x = static_cast<const X&>(v[0]);
                    else if (how == 1) x = std::move(v[0]);
                    else { T& t = itlib::any_cast<T&>(v[0]); x = t; }
                    mod[i] = m;
                    aid[i] = AI<A>::id(x.get_allocator());
                    s.label("own content");
                    s.nontrivial();
                }
            });
            break;
        }
        }
        check(i);
    }

    void run()
    {
        const unsigned base[] = {5, 5, 5, 4, 6, 6, 2, 4, 3, 2};
        pbt::Swarm<10> sw(s, base);
        for (size_t i = 0; i < slots; ++i) { create(i); check(i); }
        size_t steps = 1 + s.small(40);
        for (size_t i = 0; i < steps && !(i > 3 && s.out_of_data()); ++i) step(sw.next(s));
        for (size_t i = 0; i < slots; ++i) { check(i); sut[i].reset(); }
    }
};

template <typename A>
void drive(pbt::Source& s)
{
    arena_reset();
    ab().m.clear();
    ab().fail = 0;
    ThrowT::armed() = 0;
    {
        Machine<A> m(s);
        m.run();
    }
    REQM(ab().m.empty(), ab().m.size() << " blocks not returned to the allocator");
    REQM(live() == 0, live() << " values are alive after their anys are gone");
}
}

PBT_REG(default_alloc, drive<DefAlloc>, 40000);
PBT_REG(identified_alloc, drive<ByteAlloc>, 60000);

// arguments arrive as they were given
namespace
{
struct Cat // copied or moved from what
{
    int v; char how; bool alive = true;
    explicit Cat(int x) : v(x), how('0') {}
    Cat(const Cat& o) : v(o.v), how('c') { REQ(o.alive); }
    Cat(Cat&& o) noexcept : v(o.v), how('m'), alive(o.alive) { o.alive = false; }
};
void forwarding_run(pbt::Source& s)
{
    using fwd::Probe;
    itlib::any<> x;
    size_t n = 1 + s.small(10);
    s.nontrivial();
    for (size_t i = 0; i < n; ++i)
    {
        const int v = s.range<int>(1, 9), w = s.range<int>(1, 9);
        switch (s.raw(3))
        {
        case 0:
            fwd::give(s, v, [&](auto&& a, char k) { TR("emplace '" << k << "'"); Probe& p = x.template emplace<Probe>(FW(a)); fwd::same(p, v, k); REQ(&p == itlib::any_cast<Probe>(&x)); });
            break;
        case 1:
            fwd::give2(s, v, w, [&](auto&& a, auto&& b, char k, char l) { TR("emplace '" << k << l << "'"); Probe& p = x.template emplace<Probe>(FW(a), FW(b)); fwd::same(p, v, w, k, l); });
            break;
        default:
        {
            Cat c(v);
            const bool lv = s.coin();
            const unsigned way = unsigned(s.raw(2));
            TR((way == 0 ? "assigned" : "constructed") << " from an " << (lv ? "lvalue" : "rvalue"));
            switch (way)
            {
            case 0: if (lv) x = c; else x = std::move(c); break;
            case 1: if (lv) x = itlib::any<>(c); else x = itlib::any<>(std::move(c)); break;
            default: x = lv ? itlib::any<>(std::allocator_arg, {}, c) : itlib::any<>(std::allocator_arg, {}, std::move(c)); break;
            }
            Cat* p = itlib::any_cast<Cat>(&x);
            REQ(p && p->v == v && p->alive);
            REQM(p->how == (lv ? 'c' : 'm'), "the value was made in the way '" << p->how << "'");
            REQM(c.alive == lv, (lv ? "an lvalue was moved from" : "an rvalue was not moved"));
        }
        }
    }
}
}
PBT_REG(forwarding, forwarding_run, 10000);

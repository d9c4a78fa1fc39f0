// pmr_allocator over recording memory resources (P28)
#include "common.hpp"
#include "fwd.hpp"
#include <itlib/pmr_allocator.hpp>
#include <deque>
#include <list>
#include <map>
#include <memory_resource>
#include <new>
#include <scoped_allocator>
#include <string>
#include <unordered_map>
#include <vector>

using namespace vt;

namespace
{
// gives memory which is aligned as requested and not more, and wants it back the same way
struct Recorder final : std::pmr::memory_resource
{
    struct Block { size_t bytes, align; char* raw; };
    std::map<void*, Block> out;
    long allocs = 0, deallocs = 0;
    long fail_in = -1; // throw at that allocation
    size_t last_bytes = 0, last_align = 0;
    uintptr_t pretend = 0; // where blocks which are not to be touched begin
    void* do_allocate(size_t bytes, size_t align) override
    {
        REQM(align && !(align & (align - 1)), "allocation with alignment " << align);
        last_bytes = bytes;
        last_align = align;
        if (pretend && fail_in != 0 && bytes > 5000)
        {
            // there's no such memory, but nobody looks
            ++allocs;
            void* q = reinterpret_cast<void*>(pretend += size_t(1) << 20);
            out[q] = {bytes, align, nullptr};
            return q;
        }
        if (fail_in == 0 || bytes > (size_t(1) << 24)) { fail_in = -1; throw std::bad_alloc(); }
        if (fail_in > 0) --fail_in;
        ++allocs;
        char* raw = static_cast<char*>(::operator new(bytes + 2 * align + 1));
        uintptr_t p = (reinterpret_cast<uintptr_t>(raw) + 2 * align - 1) & ~(uintptr_t(align) * 2 - 1);
        p += align; // not aligned to twice the alignment
        if (p + bytes > reinterpret_cast<uintptr_t>(raw) + bytes + 2 * align + 1) p -= align;
        std::memset(reinterpret_cast<char*>(p), 0xA7, bytes);
        out[reinterpret_cast<void*>(p)] = {bytes, align, raw};
        return reinterpret_cast<void*>(p);
    }
    void do_deallocate(void* p, size_t bytes, size_t align) override
    {
        auto f = out.find(p);
        REQM(f != out.end(), "memory returned to a resource it did not come from, or twice");
        REQM(f->second.bytes == bytes && f->second.align == align, "memory of " << f->second.bytes << " bytes aligned to " << f->second.align << " returned as " << bytes << " bytes aligned to " << align);
        ++deallocs;
        if (f->second.raw) ::operator delete(f->second.raw);
        out.erase(f);
    }
    bool do_is_equal(const memory_resource& o) const noexcept override { return this == &o; }
    void expect_last(size_t bytes, size_t align) { REQM(last_bytes == bytes && last_align == align, "requested " << last_bytes << " bytes aligned to " << last_align << ", expected " << bytes << " aligned to " << align); }
    ~Recorder() { REQM(out.empty(), out.size() << " allocations were not returned"); }
};

// objects of different sizes and alignments, constructors throw when asked to
struct Throw { int n; };
template <size_t Size, size_t Align> struct alignas(Align) Obj
{
    Tracked t;
    unsigned char pad[Size];
    Obj() : Obj(1, 0) {}
    Obj(int x, int thr) : t(x)
    {
        REQM(reinterpret_cast<uintptr_t>(this) % Align == 0, "object at a misaligned address");
        std::memset(pad, x & 0xff, Size);
        if (thr) throw Throw{thr};
    }
    explicit Obj(std::unique_ptr<int> p) : Obj(*p, 0) {}
    Obj(const Obj&) = delete;
    int get() const { REQ(pad[Size - 1] == (unsigned char)(t.get() & 0xff)); return t.get(); }
    int val() const { return get(); }
};
struct Agg { int v; int val() const { return v; } explicit Agg(int x = 1, int = 0) : v(x) {} explicit Agg(std::unique_ptr<int> p) : v(*p) {} };
// an object which wants the allocator
struct Uses
{
    using allocator_type = std::pmr::polymorphic_allocator<char>;
    std::pmr::vector<int> v;
    allocator_type a;
    Uses(int x, int thr, allocator_type al) : v(al), a(al) { v.push_back(x); if (thr) throw Throw{thr}; }
    Uses(allocator_type al) : Uses(1, 0, al) {}
    Uses(std::unique_ptr<int> p, allocator_type al) : Uses(*p, 0, al) {}
    Uses(const Uses&) = delete;
    int val() const { return v.at(0); }
};
struct AnyObj
{
    virtual ~AnyObj() = default;
    virtual void free() = 0;
    virtual int val() = 0;
};

enum { resources = 3 };
struct World
{
    Recorder r[resources];
    Recorder dflt; // the default resource
    std::pmr::memory_resource* old;
    World() : old(std::pmr::set_default_resource(&dflt)) {}
    ~World() { std::pmr::set_default_resource(old); }
};

template <typename A> struct Held
{
    void* p; size_t n, align; int res; int kind; int v; A a;
    Held(void* p_, size_t n_, size_t al, int r, int k, int v_, A a_) : p(p_), n(n_), align(al), res(r), kind(k), v(v_), a(a_) {}
    Held(const Held&) = default;
    Held& operator=(const Held& o) { this->~Held(); return *new (this) Held(o); } // allocators are not assignable
};

template <typename U, typename A> U* newobj(A& al, int x, int thr, int how)
{
    switch (how)
    {
    case 0: return al.template new_object<U>(x, thr);
    case 1: return al.template new_object<U>();
    default: return al.template new_object<U>(std::unique_ptr<int>(new int(x)));
    }
}

// kinds of objects: index -> type
template <typename F> void with_type(int k, F f)
{
    switch (k)
    {
    case 0: f(static_cast<Obj<1, 8>*>(nullptr)); break;
    case 1: f(static_cast<Obj<40, 16>*>(nullptr)); break;
    case 2: f(static_cast<Obj<100, 64>*>(nullptr)); break;
    case 3: f(static_cast<Agg*>(nullptr)); break;
    case 4: f(static_cast<Uses*>(nullptr)); break;
    default: f(static_cast<Obj<3000, 8>*>(nullptr)); break;
    }
}
template <typename F> void with_pod(int k, F f)
{
    switch (k)
    {
    case 0: f(static_cast<char*>(nullptr)); break;
    case 1: f(static_cast<int*>(nullptr)); break;
    case 2: f(static_cast<long double*>(nullptr)); break;
    case 3: f(static_cast<Obj<100, 64>*>(nullptr)); break;
    default: f(static_cast<Obj<40, 16>*>(nullptr)); break;
    }
}

template <typename T> void raw_history(pbt::Source& s)
{
    using A = itlib::pmr_allocator<T>;
    tstats() = TrackStats();
    {
        World w;
        std::vector<Held<A>> held;
        size_t n = s.small(40);
        long objects = 0;
        auto allocs = [&] { long t = w.dflt.allocs; for (auto& r : w.r) t += r.allocs; return t; };
        for (size_t step = 0; step < n; ++step)
        {
            int ri = int(s.raw(resources - 1));
            Recorder& r = w.r[ri];
            A al(&r);
            switch (s.raw(3))
            {
            case 1: { A b(al); al.~A(); new (&al) A(b); break; }
            case 2: { itlib::pmr_allocator<short> b(&r); al.~A(); new (&al) A(b); break; } // converted
            case 3: { std::pmr::polymorphic_allocator<T>& base = al; REQ(base.resource() == &r); REQ(al == base || !(al != base)); break; }
            default: break;
            }
            REQM(al.resource() == &r, "allocator made for another resource");
            bool fail = s.chance(1, 8);
            static const unsigned weights[] = {2, 2, 5, 1, 5};
            size_t what = s.weighted(weights);
            long before = allocs();
            if (fail) r.fail_in = 0;
            bool thrown = false;
            switch (what)
            {
            case 0: // bytes
            {
                size_t bytes = s.coin() ? s.raw(40) : s.raw(5000);
                size_t align = size_t(1) << s.raw(7);
                bool deflt = s.chance(1, 4);
                if (deflt) align = alignof(std::max_align_t);
                TR("r" << ri << ".allocate_bytes(" << bytes << ", " << align << ")" << (fail ? " fails" : ""));
                void* p = nullptr;
                try { p = deflt ? al.allocate_bytes(bytes) : al.allocate_bytes(bytes, align); } catch (std::bad_alloc&) { thrown = true; }
                r.expect_last(bytes, align);
                if (!thrown) { REQ(r.out.count(p)); std::memset(p, 1, bytes); held.push_back({p, bytes, align, ri, -1, 0, al}); }
                break;
            }
            case 1: // array
            {
                int k = int(s.raw(4));
                size_t c = 1 + s.small(50);
                bool one = s.chance(1, 4);
                if (one) c = 1;
                TR("r" << ri << ".allocate_object of type " << k << ", count " << c << (fail ? " fails" : ""));
                with_pod(k, [&](auto* t) {
                    using U = std::remove_pointer_t<decltype(t)>;
                    U* p = nullptr;
                    try { p = one ? al.template allocate_object<U>() : al.template allocate_object<U>(c); } catch (std::bad_alloc&) { thrown = true; }
                    r.expect_last(c * sizeof(U), alignof(U));
                    if (!thrown) { REQ(r.out.count(p)); held.push_back({p, c, alignof(U), ri, 100 + k, one, al}); }
                });
                break;
            }
            case 2: // object
            {
                int k = int(s.raw(5)), x = int(s.raw(999)), how = int(s.raw(2)), thr = how == 0 && s.chance(1, 4) ? int(1 + s.raw(9)) : 0;
                if (k == 3) thr = 0;
                TR("r" << ri << ".new_object of type " << k << ", way " << how << (thr ? ", constructor throws" : "") << (fail ? ", allocation fails" : ""));
                with_type(k, [&](auto* t) {
                    using U = std::remove_pointer_t<decltype(t)>;
                    U* p = nullptr;
                    size_t blocks = r.out.size();
                    long live = tstats().live;
                    int got = 0;
                    try { p = newobj<U>(al, x, thr, how); }
                    catch (std::bad_alloc&) { thrown = true; }
                    catch (Throw& e) { got = e.n; }
                    if (fail) REQM(thrown, "bad_alloc was lost");
                    if (!fail && thr) REQM(got == thr, "exception of a constructor was lost: " << got << ", expected " << thr);
                    if (fail || thr)
                    {
                        REQM(!p && r.out.size() == blocks, "memory of an object whose construction failed was not returned");
                        REQM(tstats().live == live, "an object whose construction failed is alive");
                        s.nontrivial();
                        return;
                    }
                    REQ(p && r.out.count(p) && r.out[p].bytes == sizeof(U) && r.out[p].align == alignof(U));
                    REQM(p->val() == (how == 1 ? 1 : x), "object is " << p->val() << ", expected " << x);
                    if constexpr (std::is_same_v<U, Uses>) { REQM(p->a.resource() == &r, "the object was not given the allocator"); }
                    held.push_back({p, 1, alignof(U), ri, k, how == 1 ? 1 : x, al});
                    objects += k != 3 && k != 4;
                });
                break;
            }
            case 3: // too large
            {
                TR("r" << ri << ".allocate_object, too many");
                size_t blocks = r.out.size();
                size_t add = s.raw(5);
                with_pod(1 + int(s.raw(3)), [&](auto* t) {
                    using U = std::remove_pointer_t<decltype(t)>;
                    bool ok = true;
                    // the byte count wraps around to a small number
                    try { (void)al.template allocate_object<U>(~size_t(0) / sizeof(U) + 1 + add); } catch (std::bad_alloc&) { ok = false; }
                    REQM(!ok, "allocation of more bytes than there are succeeded");
                });
                REQ(r.out.size() == blocks);
                fail = false;
                r.fail_in = -1;
                s.nontrivial();
                break;
            }
            default: // give back
            {
                fail = false;
                r.fail_in = -1;
                if (held.empty()) break;
                size_t i = s.raw(held.size() - 1);
                Held<A> h = held[i];
                held.erase(held.begin() + long(i));
                TR("return allocation " << i << " of kind " << h.kind << " to r" << h.res);
                Recorder& hr = w.r[h.res];
                size_t blocks = hr.out.size();
                A other(&hr); // an equal allocator
                A& a = s.coin() ? other : h.a;
                if (h.kind < 0) { if (h.align == alignof(std::max_align_t) && s.coin()) a.deallocate_bytes(h.p, h.n); else a.deallocate_bytes(h.p, h.n, h.align); }
                else if (h.kind >= 100) with_pod(h.kind - 100, [&](auto* t) { if (h.v) a.deallocate_object(static_cast<decltype(t)>(h.p)); else a.deallocate_object(static_cast<decltype(t)>(h.p), h.n); });
                else
                {
                    with_type(h.kind, [&](auto* t) { auto p = static_cast<decltype(t)>(h.p); REQ(p->val() == h.v); blocks -= std::is_same_v<decltype(p), Uses*>; a.delete_object(p); });
                    objects -= h.kind != 3 && h.kind != 4;
                }
                REQM(hr.out.size() == blocks - 1, "memory was not returned");
                s.nontrivial();
            }
            }
            if (fail) { REQM(thrown, "bad_alloc was lost"); REQ(r.fail_in == -1); s.nontrivial(); }
            else REQ(!thrown);
            (void)before;
            REQM(w.dflt.allocs == 0, "memory was taken from the default resource");
            REQM(tstats().live == objects, tstats().live << " objects are alive, expected " << objects);
        }
        for (auto& h : held)
        {
            A& a = h.a;
            if (h.kind < 0) a.deallocate_bytes(h.p, h.n, h.align);
            else if (h.kind >= 100) with_pod(h.kind - 100, [&](auto* t) { a.deallocate_object(static_cast<decltype(t)>(h.p), h.n); });
            else with_type(h.kind, [&](auto* t) { a.delete_object(static_cast<decltype(t)>(h.p)); });
        }
    }
    REQ(tstats().live == 0);
}

// as the allocator of containers
struct Eq
{
    template <typename A, typename B> auto eq(const A& a, const B& b, int) const -> decltype(a.second == b.second) { return a.first == b.first && a.second == b.second; }
    template <typename A, typename B> auto eq(const A& a, const B& b, long) const -> decltype(a.begin() == a.end()) { return a.size() == b.size() && std::equal(a.begin(), a.end(), b.begin()); }
    template <typename A, typename B> bool eq(const A& a, const B& b, ...) const { return a == b; }
    template <typename A, typename B> bool operator()(const A& a, const B& b) const { return eq(a, b, 0); }
};

template <typename C, typename M, typename Op> void containers(pbt::Source& s, Op op)
{
    tstats() = TrackStats();
    {
        World w;
        {
            enum { n_c = 3 };
            std::unique_ptr<C> c[n_c];
            M m[n_c];
            std::pmr::memory_resource* res[n_c];
            for (int i = 0; i < n_c; ++i)
            {
                size_t r = s.raw(resources - 1);
                c[i].reset(new C(&w.r[r]));
                res[i] = &w.r[r];
            }
            size_t n = s.small(40);
            for (size_t step = 0; step < n; ++step)
            {
                int a = int(s.raw(n_c - 1)), b = int(s.raw(n_c - 1));
                switch (s.raw(9))
                {
                case 0: // copy construct
                    TR("c" << a << " made as a copy of c" << b);
                    if (a == b) break;
                    c[a].reset(new C(*c[b]));
                    m[a] = m[b];
                    res[a] = &w.dflt; // as with std::pmr containers
                    s.nontrivial();
                    break;
                case 1:
                    TR("c" << a << " made by moving c" << b);
                    if (a == b) break;
                    c[a].reset(new C(std::move(*c[b])));
                    m[a] = m[b];
                    res[a] = res[b];
                    c[b]->clear(); m[b].clear();
                    s.nontrivial();
                    break;
                case 2:
                    TR("c" << a << " = c" << b);
                    *c[a] = *c[b];
                    m[a] = m[b];
                    s.nontrivial();
                    break;
                case 3:
                    TR("c" << a << " = move(c" << b << ")");
                    if (a == b) break;
                    *c[a] = std::move(*c[b]);
                    m[a] = m[b];
                    c[b]->clear(); m[b].clear();
                    s.nontrivial();
                    break;
                case 4:
                    if (res[a] != res[b] || a == b) break;
                    TR("swap(c" << a << ", c" << b << ")");
                    c[a]->swap(*c[b]);
                    std::swap(m[a], m[b]);
                    break;
                case 5:
                {
                    size_t r = s.raw(resources - 1);
                    TR("c" << a << " made as a copy of c" << b << " with resource " << r);
                    if (a == b) break;
                    c[a].reset(new C(*c[b], &w.r[r]));
                    m[a] = m[b];
                    res[a] = &w.r[r];
                    s.nontrivial();
                    break;
                }
                default: op(s, *c[a], m[a], a);
                }
                for (int i = 0; i < n_c; ++i)
                {
                    REQM(c[i]->get_allocator().resource() == res[i], "container " << i << " uses another resource");
                    REQM(c[i]->size() == m[i].size() && std::equal(c[i]->begin(), c[i]->end(), m[i].begin(), Eq{}), "contents of container " << i << " differ");
                }
            }
        }
        for (auto& r : w.r) REQM(r.out.empty(), r.out.size() << " allocations of a container were not returned");
        REQM(w.dflt.out.empty(), w.dflt.out.size() << " allocations of a container were not returned");
    }
    REQ(tstats().live == 0);
}

template <typename T> using Al = itlib::pmr_allocator<T>;

template <typename C, typename M> struct SeqOps
{
    static void op(pbt::Source& s, C& c, M& m, int a)
    {
        int x = int(s.raw(99));
        switch (s.raw(4))
        {
        case 0: TR("c" << a << ".pop_back()"); if (!m.empty()) { c.pop_back(); m.pop_back(); } break;
        case 1: { size_t n = s.raw(60); TR("c" << a << ".resize(" << n << ")"); c.resize(n); m.resize(n); break; }
        case 2: TR("c" << a << ".insert at begin " << x); c.insert(c.begin(), x); m.insert(m.begin(), x); break;
        case 3: TR("c" << a << " = list"); c = {x, x + 1, x + 2}; m = {x, x + 1, x + 2}; break;
        default: TR("c" << a << ".push_back(" << x << ")"); c.push_back(x); m.push_back(x); break;
        }
    }
};
template <typename C, typename M> struct StrOps
{
    static void op(pbt::Source& s, C& c, M& m, int a)
    {
        size_t n = s.raw(50);
        char ch = char('a' + s.raw(25));
        if (s.coin()) { TR("c" << a << ".append(" << n << ", " << ch << ")"); c.append(n, ch); m.append(n, ch); }
        else { TR("c" << a << ".assign(" << n << ", " << ch << ")"); c.assign(n, ch); m.assign(n, ch); }
    }
};
template <typename C, typename M> struct MapOps
{
    static void op(pbt::Source& s, C& c, M& m, int a)
    {
        int k = int(s.raw(15)), x = int(s.raw(99));
        switch (s.raw(3))
        {
        case 0: TR("c" << a << ".erase(" << k << ")"); REQ(c.erase(k) == m.erase(k)); break;
        case 1: TR("c" << a << ".emplace(" << k << ", " << x << ")"); c.emplace(k, x); m.emplace(k, x); break;
        default: TR("c" << a << "[" << k << "] = " << x); c[k] = Tracked(x); m[k] = x; break;
        }
    }
};
// elements which are containers: they get the resource of the outer container
template <typename C, typename M> struct NestOps
{
    static void op(pbt::Source& s, C& c, M& m, int a)
    {
        int x = int(s.raw(99));
        size_t n = s.raw(20);
        switch (s.raw(3))
        {
        case 0: TR("c" << a << ".emplace_back(" << n << ", " << x << ")"); c.emplace_back(n, x); m.emplace_back(n, x); break;
        case 1: TR("c" << a << ".emplace_back()"); c.emplace_back(); m.emplace_back(); break;
        case 2: if (!m.empty()) { size_t i = s.raw(m.size() - 1); TR("c" << a << "[" << i << "].push_back(" << x << ")"); c[i].push_back(x); m[i].push_back(x); } break;
        default: TR("c" << a << ".pop_back()"); if (!m.empty()) { c.pop_back(); m.pop_back(); } break;
        }
        for (auto& e : c) REQM(e.get_allocator().resource() == c.get_allocator().resource(), "an element uses another resource than its container");
        s.nontrivial();
    }
};

using V = std::vector<int, Al<int>>;
using L = std::list<int, Al<int>>;
using D = std::deque<int, Al<int>>;
using S = std::basic_string<char, std::char_traits<char>, Al<char>>;
using Mp = std::map<int, Tracked, std::less<int>, Al<std::pair<const int, Tracked>>>;
using N = std::vector<V, Al<V>>;
using NS = std::deque<std::pmr::vector<int>, Al<std::pmr::vector<int>>>;

template <typename C, typename M, template <typename, typename> class Ops> void cont(pbt::Source& s) { containers<C, M>(s, Ops<C, M>::op); }

// new_object: the arguments arrive as they were given
void forwarding_run(pbt::Source& s)
{
    Recorder r;
    itlib::pmr_allocator<std::byte> al(&r);
    const int v = s.range<int>(1, 9), w = s.range<int>(1, 9);
    s.nontrivial();
    fwd::give2(s, v, w, [&](auto&& a, auto&& b, char k, char l) {
        TR("new_object of '" << k << l << "'");
        auto p = al.new_object<fwd::Probe>(FW(a), FW(b));
        fwd::same(*p, v, w, k, l);
        al.delete_object(p);
    });
    fwd::give(s, v, [&](auto&& a, char k) {
        auto p = al.new_object<fwd::Probe>(FW(a));
        fwd::same(*p, v, k);
        al.delete_object(p);
    });
}
// sizes far beyond what there is; nothing is done with the memory
void huge_blocks(pbt::Source& s)
{
    Recorder r;
    r.pretend = uintptr_t(1) << 40;
    itlib::pmr_allocator<std::byte> al(&r);
    auto number = [&](size_t max) { size_t k = s.coin() ? (size_t(1) << (13 + s.raw(49))) + s.small(40) - 20 : s.coin() ? max - s.small(20) : s.range<size_t>(5001, max); return k > max ? max - s.small(20) : k; };
    const size_t n = 1 + s.small(10);
    for (size_t i = 0; i < n; ++i)
    {
        s.nontrivial();
        if (s.coin())
        {
            size_t bytes = number(PTRDIFF_MAX), align = size_t(1) << s.raw(12);
            TR("allocate_bytes(" << bytes << ", " << align << ")");
            void* p = al.allocate_bytes(bytes, align);
            r.expect_last(bytes, align);
            REQ(r.out.count(p));
            al.deallocate_bytes(p, bytes, align);
        }
        else with_pod(int(s.raw(4)), [&](auto* t) {
            using U = std::remove_pointer_t<decltype(t)>;
            const size_t max = size_t(PTRDIFF_MAX) / sizeof(U);
            size_t c = number(max);
            TR("allocate_object, count " << c << " of " << sizeof(U) << " bytes");
            U* p = al.template allocate_object<U>(c);
            r.expect_last(c * sizeof(U), alignof(U));
            REQ(r.out.count(p));
            al.deallocate_object(p, c);
            itlib::pmr_allocator<U> au(&r);
            p = au.allocate(c);
            r.expect_last(c * sizeof(U), alignof(U));
            au.deallocate(p, c);
            if (sizeof(U) > 1)
            {
                // the size in bytes is beyond what can be told
                c = size_t(-1) / sizeof(U) + 1 + s.small(1000);
                const long before = r.allocs;
                bool thrown = false;
                TR("allocate_object, count " << c << " of " << sizeof(U) << " bytes");
                try { p = al.template allocate_object<U>(c); } catch (std::bad_alloc&) { thrown = true; }
                REQM(thrown && r.allocs == before, "an allocation of a size which wraps around succeeded");
            }
        });
    }
}
PBT_REG(huge, huge_blocks, 8000);
PBT_REG(forwarding, forwarding_run, 3000);
PBT_REG(raw_byte, raw_history<std::byte>, 40000);
PBT_REG(raw_obj, raw_history<int>, 40000);
PBT_REG(vec, (cont<V, std::vector<int>, SeqOps>), 15000);
PBT_REG(lst, (cont<L, std::list<int>, SeqOps>), 10000);
PBT_REG(deq, (cont<D, std::deque<int>, SeqOps>), 10000);
PBT_REG(str, (cont<S, std::string, StrOps>), 10000);
PBT_REG(mp, (cont<Mp, std::map<int, int>, MapOps>), 10000);
PBT_REG(nested, (cont<N, std::vector<std::vector<int>>, NestOps>), 15000);
PBT_REG(nested_std, (cont<NS, std::deque<std::vector<int>>, NestOps>), 8000);
}

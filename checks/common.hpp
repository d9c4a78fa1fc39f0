// Element types, allocators and helpers shared by the harnesses. C++11.
#pragma once
#include <pbt.hpp>

#include <cstddef>
#include <initializer_list>
#include <iterator>
#include <map>
#include <memory>
#include <new>
#include <string>
#include <vector>

namespace vt
{

constexpr int moved_value = -777777;

// ---------------------------------------------------------------------------------------------
// Tracked: an element whose every special member checks that it is applied to memory in the right
// state. Bitwise relocation, double destruction, use after destruction, construction over a live
// object, leaked objects and reads of moved-from values are all visible.
struct TrackStats
{
    long live;        // constructed and not yet destroyed
    long moves;       // move constructions + assignments
    long copies;
};
inline TrackStats& tstats() { static TrackStats t; return t; }

template <size_t Align = alignof(void*)>
struct alignas(Align) TrackedT
{
    int v;
    const TrackedT* self;
    unsigned magic;
    static constexpr unsigned alive = 0xA11FE5EDu;
    static constexpr unsigned dead = 0xDEADDEADu;

    void born() { self = this; magic = alive; ++tstats().live; }
    void check() const
    {
        if (magic != alive) FAIL("element at a destroyed or never constructed location used (magic " << std::hex << magic << ")");
        if (self != this) FAIL("element was relocated bitwise (a live element has a stale address)");
    }

    TrackedT() : v(0) { born(); }
    TrackedT(int x) : v(x) { born(); }
    TrackedT(int a, int b) : v(a * 1000 + b) { born(); }
    TrackedT(std::initializer_list<int> l) : v(-5000000 - int(l.size())) { born(); } // not what T(args...) makes
    TrackedT(const TrackedT& o) : v(0) { copy_from(o); born(); ++tstats().copies; }
    TrackedT(TrackedT&& o) noexcept { o.check(); v = o.v; o.v = moved_value; born(); ++tstats().moves; }
    TrackedT& operator=(const TrackedT& o) { check(); copy_from(o); ++tstats().copies; return *this; }
    TrackedT& operator=(TrackedT&& o) noexcept
    {
        check(); o.check();
        int x = o.v;
        o.v = moved_value;
        v = &o == this ? moved_value : x; // self-move leaves a moved-from value
        ++tstats().moves;
        return *this;
    }
    ~TrackedT()
    {
        check();
        magic = dead;
        --tstats().live;
    }
    void copy_from(const TrackedT& o) { o.check(); v = o.v; }

    int get() const { check(); return v; }
    friend bool operator==(const TrackedT& a, const TrackedT& b) { return a.get() == b.get(); }
    friend bool operator!=(const TrackedT& a, const TrackedT& b) { return a.get() != b.get(); }
    friend bool operator<(const TrackedT& a, const TrackedT& b) { return a.get() < b.get(); }
};

using Tracked = TrackedT<>;
using OverAligned = TrackedT<64>;

struct MoveOnly
{
    int v;
    const MoveOnly* self;
    unsigned magic;
    static constexpr unsigned alive = 0xA11FE5EDu;
    void born() { self = this; magic = alive; ++tstats().live; }
    void check() const
    {
        if (magic != alive) FAIL("element at a destroyed or never constructed location used");
        if (self != this) FAIL("element was relocated bitwise");
    }
    MoveOnly() : v(0) { born(); }
    MoveOnly(int x) : v(x) { born(); }
    MoveOnly(int a, int b) : v(a * 1000 + b) { born(); }
    MoveOnly(std::initializer_list<int> l) : v(-5000000 - int(l.size())) { born(); } // not what T(args...) makes
    MoveOnly(const MoveOnly&) = delete;
    MoveOnly& operator=(const MoveOnly&) = delete;
    MoveOnly(MoveOnly&& o) noexcept { o.check(); v = o.v; o.v = moved_value; born(); ++tstats().moves; }
    MoveOnly& operator=(MoveOnly&& o) noexcept
    {
        check(); o.check();
        int x = o.v;
        o.v = moved_value;
        v = &o == this ? moved_value : x;
        ++tstats().moves;
        return *this;
    }
    ~MoveOnly() { check(); magic = 0xDEADDEADu; --tstats().live; }
    int get() const { check(); return v; }
    friend bool operator==(const MoveOnly& a, const MoveOnly& b) { return a.get() == b.get(); }
    friend bool operator!=(const MoveOnly& a, const MoveOnly& b) { return a.get() != b.get(); }
    friend bool operator<(const MoveOnly& a, const MoveOnly& b) { return a.get() < b.get(); }
};

// element kinds -------------------------------------------------------------------------------
template <typename T> struct Elem; // make(int), get(const T&), tracked
template <> struct Elem<int>
{
    static int make(int i) { return i; }
    static int get(const int& i) { return i; }
    static constexpr bool tracked = false;
};
template <> struct Elem<std::string>
{
    // longer than any small-string buffer for odd values
    static std::string make(int i) { if (i == 0) return std::string(); std::string s = std::to_string(i); if (i & 1) s += "-a-rather-long-tail-which-does-not-fit-inline"; return s; }
    static int get(const std::string& s) { return s.empty() ? 0 : std::atoi(s.c_str()); }
    static constexpr bool tracked = false;
};
template <size_t A> struct Elem<TrackedT<A>>
{
    static TrackedT<A> make(int i) { return TrackedT<A>(i); }
    static int get(const TrackedT<A>& t)
    {
        if (reinterpret_cast<uintptr_t>(&t) % alignof(decltype(t)) != 0) FAIL("misaligned element");
        return t.get();
    }
    static constexpr bool tracked = true;
};
template <> struct Elem<MoveOnly>
{
    static MoveOnly make(int i) { return MoveOnly(i); }
    static int get(const MoveOnly& t) { return t.get(); }
    static constexpr bool tracked = true;
};
template <> struct Elem<std::unique_ptr<int>>
{
    static std::unique_ptr<int> make(int i) { return std::unique_ptr<int>(new int(i)); }
    static int get(const std::unique_ptr<int>& t) { return t ? *t : 0; }
    static constexpr bool tracked = false;
};

// element types which emplace can make of two ints, as T(a, b); the value is then a * 1000 + b
template <typename T> struct from_two : std::false_type {};
template <size_t A> struct from_two<TrackedT<A>> : std::true_type {};
template <> struct from_two<MoveOnly> : std::true_type {};

// random access iterator over Elem<E>::make(0), (1)...; ranges of any length without the storage
template <typename E>
struct CountIt
{
    using iterator_category = std::random_access_iterator_tag;
    using value_type = E;
    using difference_type = std::ptrdiff_t;
    using pointer = const E*;
    using reference = E;
    std::ptrdiff_t i;
    E operator*() const { return Elem<E>::make(int(i % 100)); }
    CountIt& operator++() { ++i; return *this; }
    CountIt operator++(int) { auto c = *this; ++i; return c; }
    CountIt& operator--() { --i; return *this; }
    CountIt operator--(int) { auto c = *this; --i; return c; }
    CountIt& operator+=(std::ptrdiff_t n) { i += n; return *this; }
    CountIt& operator-=(std::ptrdiff_t n) { i -= n; return *this; }
    E operator[](std::ptrdiff_t n) const { return Elem<E>::make(int((i + n) % 100)); }
    friend CountIt operator+(CountIt a, std::ptrdiff_t n) { a.i += n; return a; }
    friend CountIt operator+(std::ptrdiff_t n, CountIt a) { a.i += n; return a; }
    friend CountIt operator-(CountIt a, std::ptrdiff_t n) { a.i -= n; return a; }
    friend std::ptrdiff_t operator-(CountIt a, CountIt b) { return a.i - b.i; }
    friend bool operator==(CountIt a, CountIt b) { return a.i == b.i; }
    friend bool operator!=(CountIt a, CountIt b) { return a.i != b.i; }
    friend bool operator<(CountIt a, CountIt b) { return a.i < b.i; }
    friend bool operator>(CountIt a, CountIt b) { return a.i > b.i; }
    friend bool operator<=(CountIt a, CountIt b) { return a.i <= b.i; }
    friend bool operator>=(CountIt a, CountIt b) { return a.i >= b.i; }
};

// ---------------------------------------------------------------------------------------------
// Allocator with an identity. Every block is registered: deallocation with another allocator, with
// another size, or of an unknown block fails at once; outstanding blocks can be asked for.
struct Arena
{
    std::map<const void*, std::pair<size_t, int>> blocks; // ptr -> (n objects, arena id)
    long allocations = 0;
    long deallocations = 0;
    long constructed = 0;   // through allocator_traits::construct
    long destroyed = 0;
};
// the n-th place which may fail from when this is set to n fails; 0: none does
struct Fault : public std::bad_alloc {};
inline int& fault() { static int n = 0; return n; }
inline bool& fault_lasts() { static bool b = false; return b; } // everything after the first failure fails as well
inline void fault_tick() { if (fault() > 0 && (fault() == 1 && fault_lasts() ? true : --fault() == 0)) throw Fault(); }

inline Arena& arena() { static Arena a; return a; }
inline void arena_reset()
{
    if (!arena().blocks.empty()) arena().blocks.clear();
    arena().allocations = arena().deallocations = arena().constructed = arena().destroyed = 0;
    tstats().live = tstats().moves = tstats().copies = 0;
    fault() = 0;
}

template <typename T, bool AlwaysEqual = false>
struct Alloc
{
    using value_type = T;
    using propagate_on_container_move_assignment = std::true_type;
    using propagate_on_container_swap = std::true_type;
    template <typename U> struct rebind { using other = Alloc<U, AlwaysEqual>; };
    int id;
    explicit Alloc(int i) : id(i) {}
    Alloc() : id(0) {}
    template <typename U> Alloc(const Alloc<U, AlwaysEqual>& o) : id(o.id) {}

    size_t max_size() const noexcept { return (size_t(1) << 28) - size_t(id); }
    T* allocate(size_t n)
    {
        fault_tick();
        if (n > (size_t(1) << 28)) throw std::bad_alloc();
        ++arena().allocations;
        void* p = nullptr;
        size_t al = alignof(T) < sizeof(void*) ? sizeof(void*) : alignof(T);
        if (posix_memalign(&p, al, n ? n * sizeof(T) : 1) != 0) throw std::bad_alloc();
        const int keep = fault();
        fault() = 0; // what the map allocates is not the library's
        arena().blocks[p] = std::make_pair(n, id);
        fault() = keep;
        return static_cast<T*>(p);
    }
    void deallocate(T* p, size_t n)
    {
        auto f = arena().blocks.find(p);
        if (f == arena().blocks.end()) FAIL("deallocate() of a block this allocator family never returned, or twice");
        if (f->second.first != n) FAIL("deallocate() with size " << n << " of a block allocated with size " << f->second.first);
        if (f->second.second != id) FAIL("deallocate() through allocator " << id << " of a block of allocator " << f->second.second);
        arena().blocks.erase(f);
        ++arena().deallocations;
        free(p);
    }
    template <typename U, typename... A>
    void construct(U* p, A&&... a) { ::new (static_cast<void*>(p)) U(std::forward<A>(a)...); ++arena().constructed; }
    template <typename U>
    void destroy(U* p) { ++arena().destroyed; p->~U(); }
    friend bool operator==(const Alloc& a, const Alloc& b) { return a.id == b.id; }
    friend bool operator!=(const Alloc& a, const Alloc& b) { return a.id != b.id; }
};

inline long live() { return tstats().live; }

// contents of any container as ints
template <typename E, typename C>
std::vector<int> values(const C& c)
{
    std::vector<int> r;
    for (auto it = c.begin(); it != c.end(); ++it) r.push_back(Elem<E>::get(*it));
    return r;
}

// an operation's argument list of elements
template <typename E>
std::vector<E> make_elems(const std::vector<int>& v)
{
    std::vector<E> r;
    r.reserve(v.size());
    for (int x : v) r.push_back(Elem<E>::make(x));
    return r;
}

inline std::vector<int> gen_ints(pbt::Source& s, size_t maxn, int lo = 0, int hi = 99)
{
    size_t n = s.small(maxn);
    std::vector<int> r;
    for (size_t i = 0; i < n; ++i) r.push_back(s.range<int>(lo, hi));
    return r;
}

} // namespace vt

namespace vt
{
// Tracked whose converting constructor, copy constructor and copy assignment throw when armed
struct ThrowT : public Tracked
{
    struct boom {};
    static int& armed() { static int a = 0; return a; } // 0: never, n: the n-th from now throws
    static void tick() { if (armed() > 0 && --armed() == 0) throw boom(); }
    ThrowT() { tick(); }
    ThrowT(int x) : Tracked(x) { tick(); }
    ThrowT(int a, int b) : Tracked(a, b) { tick(); }
    ThrowT(const ThrowT& o) : Tracked(o) { tick(); }
    ThrowT(ThrowT&& o) noexcept : Tracked(std::move(o)) {}
    ThrowT& operator=(const ThrowT& o) { tick(); Tracked::operator=(o); return *this; }
    ThrowT& operator=(ThrowT&& o) noexcept { Tracked::operator=(std::move(o)); return *this; }
};
template <> struct Elem<ThrowT>
{
    static ThrowT make(int i) { return ThrowT(i); }
    static int get(const ThrowT& t) { return t.get(); }
    static constexpr bool tracked = true;
};
}

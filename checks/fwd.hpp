// arguments which remember how they were handed over: used by the `forwarding` targets
#pragma once
#if __cplusplus >= 201402L
#include "pbt.hpp"
#include <type_traits>
#include <utility>

namespace fwd
{
struct Arg { int v; };

// l: lvalue, c: const lvalue, r: rvalue, x: const rvalue
template <typename T> constexpr char kind()
{
    return std::is_lvalue_reference<T>::value ? (std::is_const<typename std::remove_reference<T>::type>::value ? 'c' : 'l')
                                              : (std::is_const<typename std::remove_reference<T>::type>::value ? 'x' : 'r');
}
template <typename T> struct is_arg : std::is_same<typename std::decay<T>::type, Arg> {};

struct Probe
{
    int v, w;
    char a, b; // how the arguments came
    static long& made() { static long n; return n; }
    Probe() : v(0), w(0), a('0'), b('0') {}
    template <typename T, typename std::enable_if<is_arg<T>::value, int>::type = 0>
    Probe(T&& t) : v(t.v), w(0), a(kind<T>()), b('0') { ++made(); }
    template <typename T, typename U, typename std::enable_if<is_arg<T>::value && is_arg<U>::value, int>::type = 0>
    Probe(T&& t, U&& u) : v(t.v), w(u.v), a(kind<T>()), b(kind<U>()) { ++made(); }
    friend bool operator<(const Probe& x, const Probe& y) { return x.v < y.v; }
};
struct Less
{
    using is_transparent = void;
    template <typename A, typename B> bool operator()(const A& a, const B& b) const { return a.v < b.v; }
};

// f(argument, its kind)
template <typename F> void give(pbt::Source& s, int v, F f)
{
    Arg a{v};
    const Arg c{v};
    switch (s.raw(3))
    {
    case 0: f(a, 'l'); break;
    case 1: f(c, 'c'); break;
    case 2: f(std::move(a), 'r'); break;
    default: f(std::move(c), 'x'); break;
    }
}
// f(argument, argument, kinds)
template <typename F> void give2(pbt::Source& s, int v, int w, F f)
{
    give(s, v, [&](auto&& a, char k) { give(s, w, [&](auto&& b, char l) { f(std::forward<decltype(a)>(a), std::forward<decltype(b)>(b), k, l); }); });
}
inline void same(const Probe& p, int v, char a)
{
    REQM(p.v == v && p.a == a && p.b == '0', "an argument " << v << " passed as '" << a << "' arrived as " << p.v << " '" << p.a << "'");
}
inline void same(const Probe& p, int v, int w, char a, char b)
{
    REQM(p.v == v && p.w == w && p.a == a && p.b == b, "arguments " << v << ", " << w << " passed as '" << a << b << "' arrived as " << p.v << ", " << p.w << " '" << p.a << p.b << "'");
}
#define FW(x) std::forward<decltype(x)>(x)
}
#endif

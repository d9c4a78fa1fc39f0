// random walks with pairs of random access iterators over a sequence of known length
#pragma once
#include "common.hpp"
#include <iterator>

namespace vt
{
// same(it, i): does *it denote element i
template <typename It, typename Same>
void walk(pbt::Source& s, const char* what, It b, It e, ptrdiff_t n, Same same)
{
    REQM(e - b == n, what << ": end - begin is " << (e - b) << ", expected " << n);
    REQM(b - e == -n, what << ": begin - end is " << (b - e) << ", expected " << -n);
    REQ(std::distance(b, e) == n);
    ptrdiff_t pos = 0;
    for (It i = b; i != e; ++i, ++pos) { REQM(pos < n, what << ": iteration goes on after the last element"); REQM(same(i, pos), what << ": forward iteration, element " << pos); }
    REQM(pos == n, what << ": iteration ended after " << pos << " of " << n);
    for (It i = e; i != b;) { --i; --pos; REQM(pos >= 0, what << ": backward iteration goes on"); REQM(same(i, pos), what << ": backward iteration, element " << pos); }
    REQ(pos == 0);

    It x[2] = {b, e};
    ptrdiff_t p[2] = {0, n};
    size_t steps = s.small(12);
    for (size_t k = 0; k < steps; ++k)
    {
        int i = int(s.raw(1));
        ptrdiff_t target = s.range<ptrdiff_t>(0, n), d = target - p[i];
        switch (s.raw(7))
        {
        case 0: if (p[i] < n) { It& r = ++x[i]; REQ(&r == &x[i]); ++p[i]; } break;
        case 1: if (p[i] > 0) { It& r = --x[i]; REQ(&r == &x[i]); --p[i]; } break;
        case 2: { It& r = (x[i] += d); REQ(&r == &x[i]); p[i] = target; break; }
        case 3: { It& r = (x[i] -= -d); REQ(&r == &x[i]); p[i] = target; break; }
        case 4: { It o = x[i]; x[i] = x[i] + d; REQ(x[i] - o == d); p[i] = target; break; }
        case 5: { It o = x[i]; x[i] = x[i] - (-d); REQ(o - x[i] == -d); p[i] = target; break; }
        case 6: x[i] = x[1 - i]; p[i] = p[1 - i]; break;
        default: { It c(x[i]); std::advance(c, d); x[i] = c; p[i] = target; break; }
        }
        if (p[i] < n) REQM(same(x[i], p[i]), what << ": iterator at " << p[i] << " denotes another element");
        const It& a = x[0];
        const It& c = x[1];
        REQM(a - c == p[0] - p[1], what << ": difference of iterators at " << p[0] << " and " << p[1] << " is " << (a - c));
        REQM((a == c) == (p[0] == p[1]) && (a != c) == (p[0] != p[1]), what << ": (in)equality at " << p[0] << ", " << p[1]);
        REQM((a < c) == (p[0] < p[1]) && (a > c) == (p[0] > p[1]) && (a <= c) == (p[0] <= p[1]) && (a >= c) == (p[0] >= p[1]), what << ": ordering at " << p[0] << ", " << p[1]);
        if (p[0] < p[1]) s.nontrivial();
    }
}
}

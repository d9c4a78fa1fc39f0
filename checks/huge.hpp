// address space for views far beyond 4 GB; nothing in it may be accessed
#pragma once
#include "common.hpp"
#include <sys/mman.h>

namespace vt
{
constexpr size_t huge_bytes = size_t(1) << 42;
inline unsigned char* huge_base()
{
    static unsigned char* p = nullptr;
    if (!p)
    {
        void* m = mmap(nullptr, huge_bytes, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        p = m == MAP_FAILED ? reinterpret_cast<unsigned char*>(size_t(1) << 45) : static_cast<unsigned char*>(m);
    }
    return p;
}
// a number in [0, max], mostly around the powers of two where narrower types wrap
inline size_t huge_number(pbt::Source& s, size_t max)
{
    size_t r;
    switch (s.raw(5))
    {
    case 0: r = s.small(20); break;
    case 1: r = max - s.small(20); break;
    case 2: r = (size_t(1) << (31 + s.raw(2))) + s.small(40) - 20; break;
    case 3: r = (size_t(1 + s.raw(7)) << 32) + s.small(40) - 20; break;
    case 4: r = (size_t(1) << (8 + s.raw(34))) + s.small(40) - 20; break;
    default: r = s.range<size_t>(0, max); break;
    }
    return r > max ? max - r % 64 % (max + 1) : r;
}
inline size_t huge_count(pbt::Source& s, size_t max) { return s.chance(1, 6) ? size_t(-1) - s.small(20) : huge_number(s, max) + (s.chance(1, 8) ? s.small(30) : 0); }
}

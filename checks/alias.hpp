// gigabytes of addressable memory backed by few megabytes: the same file mapped one after the other.
// What is written to one place shows up at all others a multiple of alias_period away
#pragma once
#include "common.hpp"
#include <sys/mman.h>
#include <unistd.h>

namespace vt
{
constexpr size_t alias_period = 4096 * 769; // not a power of two, so that a wrapped offset leads elsewhere
constexpr size_t alias_bytes = size_t(6000) * alias_period; // 18.9 GB
// null if there is no such memory here
inline unsigned char* alias_base()
{
    static unsigned char* base = nullptr;
    static bool tried = false;
    if (tried) return base;
    tried = true;
    int fd = memfd_create("alias", 0);
    if (fd < 0) return nullptr;
    if (ftruncate(fd, off_t(alias_period)) != 0) { close(fd); return nullptr; }
    void* m = mmap(nullptr, alias_bytes, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (m == MAP_FAILED) { close(fd); return nullptr; }
    auto b = static_cast<unsigned char*>(m);
    bool ok = true;
    for (size_t at = 0; ok && at < alias_bytes; at += alias_period) ok = mmap(b + at, alias_period, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) != MAP_FAILED;
    close(fd);
    if (ok) base = b;
    return base;
}
}

// small concurrent histories and a linearizability check (Wing & Gong with memoization)
#pragma once
#include "common.hpp"
#include <atomic>
#include <functional>
#include <set>
#include <thread>

namespace vt
{
template <typename Op>
struct Event
{
    Op op;
    int thread = 0;
    long inv = 0, resp = 0;
};

// apply(state, op) -> is op's recorded result possible in this state; updates the state
template <typename State, typename Op, typename Apply>
bool linearizable(const std::vector<Event<Op>>& h, State init, Apply apply)
{
    const size_t n = h.size();
    if (n > 62) FAIL("history too long for the linearizability check");
    std::set<std::pair<uint64_t, State>> seen;
    struct Rec
    {
        const std::vector<Event<Op>>& h; Apply& apply; std::set<std::pair<uint64_t, State>>& seen; size_t n;
        bool go(uint64_t done, State st)
        {
            if (done == (n == 64 ? ~uint64_t(0) : (uint64_t(1) << n) - 1)) return true;
            if (!seen.insert({done, st}).second) return false;
            long first_resp = -1;
            for (size_t i = 0; i < n; ++i) if (!(done >> i & 1) && (first_resp < 0 || h[i].resp < first_resp)) first_resp = h[i].resp;
            for (size_t i = 0; i < n; ++i)
            {
                if ((done >> i & 1) || h[i].inv > first_resp) continue;
                State next = st;
                if (apply(next, h[i].op) && go(done | uint64_t(1) << i, next)) return true;
            }
            return false;
        }
    } r{h, apply, seen, n};
    return r.go(0, init);
}

inline void jitter(unsigned n) { for (volatile unsigned i = 0; i < n; i = i + 1) {} }

// runs f(thread index) in n threads which start together
template <typename F>
void run_threads(int n, F f)
{
    std::atomic<int> ready(0);
    std::vector<std::thread> ts;
    for (int i = 0; i < n; ++i)
        ts.emplace_back([&, i] {
            ready.fetch_add(1);
            for (int spin = 0; ready.load() < n; ++spin) if (spin > 1000) std::this_thread::yield();
            f(i);
        });
    for (auto& t : ts) t.join();
}

inline std::atomic<long>& lin_clock() { static std::atomic<long> c(0); return c; }
inline long tick() { std::atomic_signal_fence(std::memory_order_seq_cst); long r = lin_clock().fetch_add(1, std::memory_order_relaxed); std::atomic_signal_fence(std::memory_order_seq_cst); return r; }
}

// strong_try_rec_mutex: baton-passing histories over threads, free-running threads (P23)
#include "lin.hpp"
#include <itlib/mutex.hpp>
#include <condition_variable>
#include <mutex>

using namespace vt;
using Mx = itlib::strong_try_rec_mutex;

namespace
{
// threads which execute one command at a time, in the order given by the case
struct Puppets
{
    struct Slot { std::function<void()> cmd; bool busy = false; };
    std::mutex m;
    std::condition_variable cv;
    std::vector<Slot> slot;
    bool quit = false;
    std::vector<std::thread> th;
    explicit Puppets(size_t n) : slot(n)
    {
        for (size_t i = 0; i < n; ++i)
            th.emplace_back([this, i] {
                std::unique_lock<std::mutex> l(m);
                for (;;)
                {
                    cv.wait(l, [&] { return quit || slot[i].busy; });
                    if (!slot[i].busy) return;
                    auto f = slot[i].cmd;
                    l.unlock();
                    f();
                    l.lock();
                    slot[i].busy = false;
                    cv.notify_all();
                }
            });
    }
    void run(size_t i, std::function<void()> f)
    {
        std::unique_lock<std::mutex> l(m);
        slot[i].cmd = f;
        slot[i].busy = true;
        cv.notify_all();
        cv.wait(l, [&] { return !slot[i].busy; });
    }
    ~Puppets()
    {
        { std::lock_guard<std::mutex> l(m); quit = true; }
        cv.notify_all();
        for (auto& t : th) t.join();
    }
};

void baton(pbt::Source& s)
{
    const size_t threads = 1 + s.raw(3);
    Puppets p(threads);
    enum { mutexes = 2 };
    Mx mx[mutexes];
    int owner[mutexes] = {-1, -1}, depth[mutexes] = {0, 0};
    size_t n = s.small(80);
    for (size_t k = 0; k < n; ++k)
    {
        size_t t = s.raw(threads - 1);
        int m = int(s.raw(mutexes - 1));
        bool unlock = owner[m] == int(t) && s.chance(2, 5);
        if (unlock)
        {
            TR("thread " << t << ": m" << m << ".unlock() at depth " << depth[m]);
            p.run(t, [&] { mx[m].unlock(); });
            if (--depth[m] == 0) owner[m] = -1;
            s.nontrivial();
        }
        else
        {
            bool want = owner[m] == -1 || owner[m] == int(t), got = false;
            TR("thread " << t << ": m" << m << ".try_lock(), owner " << owner[m] << " depth " << depth[m]);
            p.run(t, [&] { got = mx[m].try_lock(); });
            REQM(got == want, "try_lock " << (got ? "succeeded" : "failed") << " in thread " << t << "; owner is " << owner[m] << " at depth " << depth[m]);
            if (got) { owner[m] = int(t); ++depth[m]; }
            else s.label("refused");
        }
    }
    // release everything and see that it is free for all
    for (int m = 0; m < mutexes; ++m)
    {
        while (depth[m] > 0)
        {
            bool other = true;
            if (threads > 1) { p.run(size_t(owner[m] + 1) % threads, [&] { other = mx[m].try_lock(); }); REQM(!other, "mutex locked by two threads at depth " << depth[m]); }
            p.run(size_t(owner[m]), [&] { mx[m].unlock(); });
            --depth[m];
        }
        for (size_t t = 0; t < threads; ++t)
        {
            bool got = false;
            p.run(t, [&] { got = mx[m].try_lock(); if (got) mx[m].unlock(); });
            REQM(got, "a free mutex refused thread " << t);
        }
    }
}

// deep recursion in one thread
void deep(pbt::Source& s)
{
    Mx m;
    size_t d = 1 + s.small(70000);
    TR("depth " << d);
    bool other = false;
    auto probe = [&] { std::thread([&] { other = m.try_lock(); if (other) m.unlock(); }).join(); return other; };
    for (size_t i = 0; i < d; ++i) REQ(m.try_lock());
    REQM(!probe(), "locked by another thread at depth " << d);
    for (size_t i = 0; i + 1 < d; ++i) m.unlock();
    REQM(!probe(), "locked by another thread at depth 1");
    m.unlock();
    REQM(probe(), "a free mutex refused a thread");
    s.nontrivial();
}

struct Op { bool lock = true; bool ok = false; int thread = 0; };
struct St { int owner; int depth; bool operator<(const St& o) const { return owner != o.owner ? owner < o.owner : depth < o.depth; } };

void concurrent(pbt::Source& s)
{
    const int threads = 2 + int(s.raw(2));
    const size_t per = 3 + s.raw(7);
    struct Plan { bool unlock; unsigned wait; };
    std::vector<std::vector<Plan>> plan{size_t(threads)};
    for (auto& p : plan)
        for (size_t i = 0; i < per; ++i) p.push_back({s.chance(2, 5), s.coin() ? 0 : unsigned(s.raw(200))});
    Mx mx;
    long guarded = 0, entered = 0; // protected by mx
    std::vector<std::vector<Event<Op>>> hs{size_t(threads)};
    std::atomic<int> inside(0);
    run_threads(threads, [&](int t) {
        std::vector<Event<Op>> h;
        int depth = 0;
        auto un = [&] {
            guarded = guarded + 1;
            if (depth == 1) inside.fetch_sub(1, std::memory_order_relaxed);
            Event<Op> e; e.thread = t; e.op.thread = t; e.op.lock = false;
            e.inv = tick(); mx.unlock(); e.resp = tick();
            --depth;
            h.push_back(e);
        };
        for (auto& p : plan[size_t(t)])
        {
            jitter(p.wait);
            if (p.unlock && depth) { un(); continue; }
            Event<Op> e; e.thread = t; e.op.thread = t;
            e.inv = tick(); e.op.ok = mx.try_lock(); e.resp = tick();
            h.push_back(e);
            if (e.op.ok)
            {
                if (depth++ == 0) { int in = inside.fetch_add(1, std::memory_order_relaxed); if (in != 0) FAIL("two threads hold the mutex"); }
                entered = entered + 1;
            }
        }
        while (depth) un();
        hs[size_t(t)] = std::move(h);
    });
    std::vector<Event<Op>> hist;
    long locks = 0;
    for (auto& h : hs) for (auto& e : h) { hist.push_back(e); if (e.op.lock && e.op.ok) ++locks; }
    REQM(guarded == locks && entered == locks, "updates made under the mutex were lost");
    bool overlap = false, refused = false;
    for (auto& a : hist) { if (a.op.lock && !a.op.ok) refused = true; for (auto& b : hist) if (a.thread != b.thread && a.inv < b.resp && b.inv < a.resp) overlap = true; }
    if (refused) s.label("refused");
    if (overlap) s.nontrivial();
    if (hist.size() > 60) return;
    auto apply = [](St& st, const Op& o) {
        if (!o.lock) { if (st.owner != o.thread) return false; if (--st.depth == 0) st.owner = -1; return true; }
        bool can = st.owner == -1 || st.owner == o.thread;
        if (can != o.ok) return false;
        if (can) { st.owner = o.thread; ++st.depth; }
        return true;
    };
    if (!linearizable<St>(hist, St{-1, 0}, apply))
    {
        std::ostringstream o;
        for (auto& e : hist) o << "\n  [" << e.inv << "," << e.resp << "] thread " << e.thread << (e.op.lock ? e.op.ok ? " try_lock ok" : " try_lock refused" : " unlock");
        FAIL("no sequential order explains the results:" << o.str());
    }
}

PBT_REG(commanded, baton, 1500, pbt::F_THREADS | pbt::F_NOLEAK);
PBT_REG(recursion, deep, 200, pbt::F_THREADS | pbt::F_NOLEAK);
PBT_REG(lin, concurrent, 10000, pbt::F_THREADS | pbt::F_NOLEAK);
}

// atomic_shared_ptr_storage: sequential histories with re-entrant destructors and concurrent histories (P22)
#include "lin.hpp"
#include <itlib/atomic_shared_ptr_storage.hpp>
#include <functional>
#include <sstream>

using namespace vt;

namespace
{
std::atomic<long> g_live(0);

struct Obj
{
    int id;
    unsigned magic = 0xA11FE5ED;
    std::function<void()> at_death;
    explicit Obj(int i) : id(i) { g_live.fetch_add(1, std::memory_order_relaxed); }
    ~Obj()
    {
        if (magic != 0xA11FE5ED) FAIL("object " << id << " destroyed twice");
        if (at_death) at_death();
        magic = 0xDEAD;
        g_live.fetch_sub(1, std::memory_order_relaxed);
    }
    int get() const { if (magic != 0xA11FE5ED) FAIL("object used after its destruction"); return id; }
};
using P = std::shared_ptr<Obj>;
using Cell = itlib::atomic_shared_ptr_storage<Obj>;
int idof(const P& p) { return p ? p->get() : 0; }

static_assert(!std::is_copy_constructible<Cell>::value && !std::is_copy_assignable<Cell>::value, "not copyable");

// -------------------------------------------------------------------------------------------------
void sequential(pbt::Source& s)
{
    g_live = 0;
    int next = 1;
    {
        enum { cells = 2, locals = 4 };
        std::unique_ptr<Cell> c[cells];
        int mc[cells];            // what each cell holds
        P l[locals];
        int ml[locals] = {};
        std::map<int, int> dtor_of; // objects with a destructor which uses a cell
        long deaths = 0;
        for (int i = 0; i < cells; ++i)
        {
            if (s.coin()) { c[i].reset(new Cell); mc[i] = 0; }
            else { int id = next++; c[i].reset(new Cell(std::make_shared<Obj>(id))); mc[i] = id; }
        }
        auto make = [&]() -> P {
            int id = next++;
            P p = std::make_shared<Obj>(id);
            if (s.chance(1, 3))
            {
                int what = s.range<int>(0, 3), ci = int(s.raw(cells - 1));
                TR("  (object " << id << ": its destructor does " << what << " on cell " << ci << ")");
                p->at_death = [&, what, ci, id] {
                    ++deaths;
                    s.label("re-entrant destructor");
                    if (!c[ci]) return;
                    switch (what)
                    {
                    case 0: { P x = c[ci]->load(); REQM(idof(x) == mc[ci], "destructor loaded " << idof(x) << ", cell holds " << mc[ci]); break; }
                    case 1: { int old = mc[ci]; int n = next++; mc[ci] = n; P x = c[ci]->exchange(std::make_shared<Obj>(n)); REQM(idof(x) == old, "destructor exchanged " << idof(x) << ", cell held " << old); break; }
                    case 2: { int n = next++; mc[ci] = n; c[ci]->store(std::make_shared<Obj>(n)); break; }
                    default: { P e; bool ok = mc[ci] == 0; int n = next++; int before = mc[ci]; if (ok) mc[ci] = n; bool r = c[ci]->compare_exchange(e, std::make_shared<Obj>(n)); REQ(r == ok); if (!ok) REQ(idof(e) == before); break; }
                    }
                };
            }
            return p;
        };
        size_t n = s.small(60);
        for (size_t k = 0; k < n; ++k)
        {
            int i = int(s.raw(cells - 1)), j = int(s.raw(locals - 1)), q = int(s.raw(locals - 1));
            long d0 = deaths;
            switch (s.raw(8))
            {
            case 0: { TR("l" << j << " = c" << i << ".load()"); P x = static_cast<const Cell&>(*c[i]).load(); REQM(idof(x) == mc[i], "load gives " << idof(x) << ", cell holds " << mc[i]); ml[j] = mc[i]; l[j].swap(x); break; }
            case 1: { TR("l" << j << " = new"); P x = make(); ml[j] = x->id; l[j].swap(x); break; }
            case 2: { TR("c" << i << ".store(l" << j << ")"); mc[i] = ml[j]; c[i]->store(l[j]); s.nontrivial(); break; }
            case 3: { TR("c" << i << ".store(move(l" << j << "))"); mc[i] = ml[j]; ml[j] = 0; c[i]->store(std::move(l[j])); REQ(!l[j]); s.nontrivial(); break; }
            case 4: { TR("c" << i << ".store(new)"); P x = make(); mc[i] = x->id; c[i]->store(std::move(x)); s.nontrivial(); break; }
            case 5: { TR("l" << j << " = c" << i << ".exchange(l" << q << ")"); int old = mc[i]; mc[i] = ml[q]; P x = c[i]->exchange(l[q]); REQM(idof(x) == old, "exchange gives " << idof(x) << ", cell held " << old); ml[j] = old; l[j].swap(x); s.nontrivial(); break; }
            case 6: case 7:
            {
                P nw = s.coin() ? l[q] : make();
                int nid = idof(nw);
                bool ok = mc[i] == ml[j];
                int held = mc[i];
                TR("c" << i << ".compare_exchange(l" << j << " = " << ml[j] << ", " << nid << "), cell holds " << held);
                if (ok) mc[i] = nid; else ml[j] = held;
                bool r = c[i]->compare_exchange(l[j], std::move(nw));
                REQM(r == ok, "compare_exchange " << (r ? "succeeded" : "failed") << ": stored " << held << ", expected " << (ok ? held : -1));
                REQM(idof(l[j]) == ml[j], "expected pointer after the call is " << idof(l[j]) << ", should be " << ml[j]);
                s.nontrivial();
                break;
            }
            default: { TR("l" << j << " = null"); ml[j] = 0; P x; l[j].swap(x); break; }
            }
            if (deaths != d0) { s.nontrivial(); }
            // contents and reference counts
            std::map<int, long> count;
            for (int x = 0; x < cells; ++x) if (mc[x]) ++count[mc[x]];
            for (int x = 0; x < locals; ++x) if (ml[x]) ++count[ml[x]];
            for (int x = 0; x < locals; ++x)
            {
                REQM(idof(l[x]) == ml[x], "l" << x << " is " << idof(l[x]) << ", expected " << ml[x]);
                if (l[x]) REQM(l[x].use_count() == count[ml[x]], "object " << ml[x] << " has use_count " << l[x].use_count() << ", holders " << count[ml[x]]);
            }
            for (int x = 0; x < cells; ++x)
            {
                P p = c[x]->load();
                REQM(idof(p) == mc[x], "cell " << x << " holds " << idof(p) << ", expected " << mc[x]);
                if (p) REQM(p.use_count() == count[mc[x]] + 1, "object " << mc[x] << " has use_count " << p.use_count() - 1 << ", holders " << count[mc[x]]);
            }
            REQM(g_live == long(count.size()), g_live << " objects alive, " << count.size() << " are held");
        }
        for (auto& x : l) { P p; x.swap(p); if (p) p->at_death = nullptr; }
        for (auto& x : c) { P p = x->exchange(nullptr); if (p) p->at_death = nullptr; }
        for (auto& x : c) x.reset();
    }
    REQM(g_live == 0, g_live << " objects leaked");
}

// -------------------------------------------------------------------------------------------------
// pointers which own one thing and point to another (or to nothing, or own nothing)
struct Whole { int part[3] = {1, 2, 3}; Whole() { ++g_live; } ~Whole() { --g_live; } };
void aliased(pbt::Source& s)
{
    using Q = std::shared_ptr<int>;
    using QCell = itlib::atomic_shared_ptr_storage<int>;
    g_live = 0;
    static int nobodys[2] = {};
    {
        constexpr int owners = 3, n_cells = 2, n_locals = 4;
        std::shared_ptr<Whole> own[owners];
        for (auto& o : own) o = std::make_shared<Whole>();
        struct M { int owner = -1; int* p = nullptr; };
        QCell c[n_cells];
        M mc[n_cells];
        Q l[n_locals];
        M ml[n_locals];
        auto text = [&](const M& m) { std::ostringstream o; if (m.owner < 0) o << "nobody's "; else o << "object " << m.owner << "'s "; if (!m.p) o << "null"; else if (m.owner >= 0 && m.p >= own[m.owner]->part && m.p < own[m.owner]->part + 3) o << "part " << m.p - own[m.owner]->part; else o << "other"; return o.str(); };
        auto check = [&](const Q& q, const M& m, const char* what) {
            REQM(q.get() == m.p, what << " points to something else, expected " << text(m));
            REQM(m.owner < 0 ? q.use_count() == 0 : (!q.owner_before(own[m.owner]) && !own[m.owner].owner_before(q)), what << " has another owner, expected " << text(m));
        };
        size_t n = s.small(50);
        for (size_t k = 0; k < n; ++k)
        {
            int i = int(s.raw(n_cells - 1)), j = int(s.raw(n_locals - 1)), q = int(s.raw(n_locals - 1));
            switch (s.raw(6))
            {
            case 0: case 1:
            {
                M m;
                m.owner = int(s.raw(owners)) - 1;
                switch (s.raw(5)) { case 0: m.p = nullptr; break; case 1: m.p = &nobodys[s.raw(1)]; break; default: m.p = m.owner < 0 ? &nobodys[s.raw(1)] : &own[m.owner]->part[s.raw(2)]; }
                TR("l" << j << " = " << text(m));
                l[j] = m.owner < 0 ? Q(std::shared_ptr<Whole>(), m.p) : Q(own[m.owner], m.p);
                ml[j] = m;
                break;
            }
            case 2: TR("c" << i << ".store(l" << j << ")"); c[i].store(l[j]); mc[i] = ml[j]; break;
            case 3: { TR("l" << j << " = c" << i << ".load()"); l[j] = c[i].load(); ml[j] = mc[i]; check(l[j], ml[j], "what was loaded"); break; }
            case 4: { TR("l" << j << " = c" << i << ".exchange(l" << q << ")"); M old = mc[i]; mc[i] = ml[q]; l[j] = c[i].exchange(l[q]); ml[j] = old; break; }
            default:
            {
                // equal pointers with different owners: the implementations differ
                if (ml[j].p == mc[i].p && ml[j].owner != mc[i].owner) break;
                bool ok = ml[j].p == mc[i].p;
                TR("c" << i << ".compare_exchange(l" << j << ", l" << q << "), cell holds " << text(mc[i]) << ", expected " << text(ml[j]));
                M nw = ml[q];
                Q arg = l[q];
                bool r = c[i].compare_exchange(l[j], arg);
                REQM(r == ok, "compare_exchange " << (r ? "succeeded" : "failed"));
                if (ok) mc[i] = nw; else ml[j] = mc[i];
                s.nontrivial();
                break;
            }
            }
            long held[owners] = {};
            for (int x = 0; x < n_locals; ++x) { check(l[x], ml[x], "a local pointer"); if (ml[x].owner >= 0) ++held[ml[x].owner]; }
            for (int x = 0; x < n_cells; ++x) { check(c[x].load(), mc[x], "a cell"); if (mc[x].owner >= 0) ++held[mc[x].owner]; }
            for (int x = 0; x < owners; ++x) REQM(own[x].use_count() == held[x] + 1, "object " << x << " has use_count " << own[x].use_count() << ", holders " << held[x] + 1);
        }
    }
    REQM(g_live == 0, g_live << " objects leaked");
}

// -------------------------------------------------------------------------------------------------
enum Kind { load, store, exch, cas };
struct Op { Kind k = load; int arg = 0; int expect = 0; int got = 0; bool ok = false; };

struct Plan { Kind k; int arg; unsigned wait; bool use_last; };

void concurrent(pbt::Source& s)
{
    g_live = 0;
    const int threads = 2 + int(s.raw(2));
    const size_t per = 2 + s.raw(4);
    const int pool_size = 1 + int(s.raw(3));
    const bool reenter = s.chance(1, 4);
    std::vector<std::vector<Plan>> plan{size_t(threads)};
    int next = pool_size + 1;
    TR(threads << " threads, " << pool_size << " shared objects" << (reenter ? ", destructors load the cell" : ""));
    for (int t = 0; t < threads; ++t)
    {
        TR("thread " << t << ":");
        for (size_t i = 0; i < per; ++i)
        {
            Plan p;
            p.k = Kind(s.raw(3));
            p.arg = s.coin() ? int(s.raw(uint64_t(pool_size))) : next++; // from the pool (0: null), or a new object
            p.wait = s.coin() ? 0 : unsigned(s.raw(300));
            p.use_last = !s.chance(1, 4);
            plan[size_t(t)].push_back(p);
            static const char* const names[] = {"load", "store", "exchange", "compare_exchange"};
            TR("  " << names[p.k] << " " << (p.k == load ? 0 : p.arg) << (p.k == cas ? p.use_last ? ", expecting what was seen last" : ", expecting null" : ""));
        }
    }
    std::vector<Event<Op>> hist;
    int init = int(s.raw(uint64_t(pool_size)));
    {
        Cell cell;
        std::vector<P> pool;
        pool.push_back(nullptr);
        for (int i = 1; i <= pool_size; ++i) pool.push_back(std::make_shared<Obj>(i));
        cell.store(pool[size_t(init)]);
        std::vector<std::vector<Event<Op>>> hs{size_t(threads)};
        run_threads(threads, [&](int t) {
            P last;
            std::vector<P> mine(pool);
            std::vector<Event<Op>> h;
            for (auto& p : plan[size_t(t)])
            {
                P arg = p.arg <= pool_size ? mine[size_t(p.arg)] : nullptr;
                if (p.arg > pool_size && p.k != load)
                {
                    arg = std::make_shared<Obj>(p.arg);
                    if (reenter) arg->at_death = [&cell] { P x = cell.load(); if (x) x->get(); };
                }
                jitter(p.wait);
                Event<Op> e;
                e.thread = t;
                e.op.k = p.k;
                e.op.arg = p.arg;
                switch (p.k)
                {
                case load: { e.inv = tick(); P r = cell.load(); e.resp = tick(); e.op.got = idof(r); last = std::move(r); break; }
                case store: e.inv = tick(); cell.store(std::move(arg)); e.resp = tick(); break;
                case exch: { e.inv = tick(); P r = cell.exchange(std::move(arg)); e.resp = tick(); e.op.got = idof(r); last = std::move(r); break; }
                default:
                {
                    P ex = p.use_last ? last : P();
                    e.op.expect = idof(ex);
                    if (p.use_last) last.reset(); // ex may be the last holder of its object
                    e.inv = tick();
                    e.op.ok = cell.compare_exchange(ex, std::move(arg));
                    e.resp = tick();
                    e.op.got = idof(ex);
                    last = std::move(ex);
                    break;
                }
                }
                h.push_back(e);
            }
            hs[size_t(t)] = std::move(h);
        });
        for (auto& h : hs) hist.insert(hist.end(), h.begin(), h.end());
        // the final contents are one more load
        Event<Op> fin;
        fin.op.k = load;
        P f = cell.load();
        fin.op.got = idof(f);
        fin.inv = tick();
        fin.resp = tick();
        hist.push_back(fin);
        bool in_pool = f && f->id <= pool_size;
        if (f) REQM(f.use_count() == (in_pool ? 3 : 2), "final object has use_count " << f.use_count());
        for (int i = 1; i <= pool_size; ++i) REQM(pool[size_t(i)].use_count() == 1 + (f == pool[size_t(i)] ? 2 : 0), "object " << i << " has use_count " << pool[size_t(i)].use_count());
        REQM(g_live == pool_size + (f && !in_pool ? 1 : 0), g_live << " objects are alive at the end");
        if (f) f->at_death = nullptr;
    }
    REQM(g_live == 0, g_live << " objects leaked");
    auto apply = [](int& st, const Op& o) {
        switch (o.k)
        {
        case load: return o.got == st;
        case store: st = o.arg; return true;
        case exch: { bool ok = o.got == st; st = o.arg; return ok; }
        default:
            if (o.ok) { bool ok = st == o.expect && o.got == o.expect; st = o.arg; return ok; }
            return o.expect != st && o.got == st;
        }
    };
    bool overlap = false;
    for (auto& a : hist) for (auto& b : hist) if (a.thread != b.thread && a.inv < b.resp && b.inv < a.resp && &a != &b) overlap = true;
    if (overlap) s.nontrivial();
    if (!linearizable<int>(hist, init, apply))
    {
        std::ostringstream o;
        for (auto& e : hist) o << "\n  [" << e.inv << "," << e.resp << "] thread " << e.thread << " op " << e.op.k << " arg " << e.op.arg << " expect " << e.op.expect << " ok " << e.op.ok << " got " << e.op.got;
        FAIL("no sequential order explains the results (initially " << init << "):" << o.str());
    }
}

// several threads hammer one cell; every object must be destroyed exactly once and be usable while held
void stress(pbt::Source& s)
{
    g_live = 0;
    const int threads = 2 + int(s.raw(3));
    const int rounds = 20 + int(s.small(200));
    const uint64_t salt = s.raw(1000000);
    TR(threads << " threads, " << rounds << " rounds, salt " << salt);
    std::atomic<long> added(0);
    {
        Cell cell(std::make_shared<Obj>(1));
        run_threads(threads, [&](int t) {
            uint64_t r = pbt::mix64(salt + uint64_t(t));
            P mine;
            for (int i = 0; i < rounds; ++i)
            {
                r = pbt::mix64(r);
                switch (r % 5)
                {
                case 0: mine = cell.load(); if (mine) mine->get(); break;
                case 1: cell.store(std::make_shared<Obj>(2)); break;
                case 2: mine = cell.exchange(std::make_shared<Obj>(3)); if (mine) mine->get(); break;
                case 3: cell.compare_exchange(mine, std::make_shared<Obj>(4)); if (mine) mine->get(); break;
                default: { P x = cell.load(); while (!cell.compare_exchange(x, std::make_shared<Obj>((x ? x->get() : 0) % 1000 + 5))) {} added.fetch_add(1, std::memory_order_relaxed); break; }
                }
            }
        });
        P f = cell.load();
        REQ(f && f.use_count() == 2);
        REQM(g_live == 1, g_live << " objects alive at the end");
    }
    REQ(g_live == 0);
    // a counter incremented through compare_exchange
    {
        Cell cell(std::make_shared<Obj>(0));
        run_threads(threads, [&](int) {
            for (int i = 0; i < rounds; ++i)
            {
                P x = cell.load();
                while (!cell.compare_exchange(x, std::make_shared<Obj>(x->get() + 1))) {}
            }
        });
        REQM(cell.load()->get() == threads * rounds, "counter is " << cell.load()->get() << " after " << threads * rounds << " increments");
    }
    REQ(g_live == 0);
    s.nontrivial();
}

#if !VT_ONLY_THREADS
PBT_REG(seq, sequential, 150000);
PBT_REG(aliases, aliased, 150000);
#endif
PBT_REG(lin, concurrent, 12000, pbt::F_THREADS | pbt::F_NOLEAK);
PBT_REG(hammer, stress, 1200, pbt::F_THREADS | pbt::F_NOLEAK);
}

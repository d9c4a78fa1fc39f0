// dynamic_bitset against std::vector<bool> (P09)
#include "common.hpp"
#include <itlib/dynamic_bitset.hpp>
#include <itlib/small_vector.hpp>

using namespace vt;

namespace
{
template <typename Buf>
struct Machine
{
    using B = itlib::dynamic_bitset<Buf>;
    using W = typename B::word_type;
    using M = std::vector<bool>;
    static constexpr size_t bpw = sizeof(W) * 8;
    enum { slots = 3 };

    pbt::Source& s;
    std::unique_ptr<B> sut[slots];
    M mod[slots];
    size_t maxbits;

    explicit Machine(pbt::Source& src) : s(src), maxbits(size_t(src.pick<size_t>({bpw * 4 + 3, 40, 200, bpw * 9}))) {}

    static std::string str(const M& m) { std::string r; for (size_t i = 0; i < m.size(); ++i) r += m[i] ? '1' : '0'; return r; }

    W gen_word()
    {
        switch (s.raw(4))
        {
        case 0: return 0;
        case 1: return W(~W(0));
        case 2: return W(W(1) << s.raw(bpw - 1));
        case 3: return W(~(W(1) << s.raw(bpw - 1)));
        default: return W(s.raw(W(~W(0))));
        }
    }
    // sizes near word boundaries are as likely as all the others
    size_t gen_size(size_t mx)
    {
        if (s.coin())
        {
            size_t words = s.raw(mx / bpw);
            ptrdiff_t d = ptrdiff_t(s.raw(4)) - 2;
            ptrdiff_t r = ptrdiff_t(words * bpw) + d;
            if (r < 0) r = 0;
            return size_t(r) > mx ? mx : size_t(r);
        }
        return size_t(s.raw(mx));
    }

    void check(size_t k)
    {
        B& b = *sut[k];
        const B& c = b;
        const M& m = mod[k];
        REQ_EQ(c.size(), m.size());
        REQ_EQ(size_t(c.word_size()), size_t(B::word_size(m.size())));
        REQ_EQ(size_t(c.word_size()), (m.size() + bpw - 1) / bpw);
        REQ_EQ(size_t(c.buffer().size()), size_t(c.word_size()));
        REQ_EQ(c.byte_size(), (m.size() + 7) / 8);
        REQ_EQ(c.empty(), m.empty());
        REQ(m.empty() || (c.data() == c.buffer().data() && b.data() == c.data()));
        bool all = true, any = false;
        for (size_t i = 0; i < m.size(); ++i)
        {
            bool e = m[i];
            if (c.test(i) != e) FAIL("bit " << i << " of " << m.size() << " is " << c.test(i) << ", expected " << str(m));
            all = all && e;
            any = any || e;
        }
        if (!m.empty()) REQM(c.all() == all, "all() is " << c.all() << " for " << str(m));
        REQM(c.any() == any, "any() is " << c.any() << " for " << str(m));
        REQM(c.none() == !any, "none() is " << c.none() << " for " << str(m));
    }

    void iterate(size_t k)
    {
        B& b = *sut[k];
        const B& c = b;
        const M& m = mod[k];
        size_t n = 0;
        for (auto it = c.begin(); it != c.end(); ++it, ++n) REQ(n < m.size() && *it == m[n]);
        REQ_EQ(n, m.size());
        n = 0;
        for (auto it = b.begin(); it != b.end(); it++, ++n) REQ(n < m.size() && bool(*it) == m[n] && c[n] == m[n] && bool(b[n]) == m[n]);
        REQ_EQ(n, m.size());
        REQ_EQ(size_t(b.end() - b.begin()), m.size());
        REQ_EQ(size_t(c.end() - c.begin()), m.size());
        {
            auto it = c.end();
            while (!(it == c.begin())) { --it; --n; REQ(*it == m[n]); }
        }
        if (!m.empty())
        {
            size_t x = s.raw(m.size() - 1), y = s.raw(m.size() - 1);
            auto i1 = b.begin() + ptrdiff_t(x);
            auto i2 = i1 + (ptrdiff_t(y) - ptrdiff_t(x));
            REQ(i2 - i1 == ptrdiff_t(y) - ptrdiff_t(x) && bool(*i2) == m[y] && (i1 == i2) == (x == y) && (i1 != i2) == (x != y));
            auto i3 = i2 - (ptrdiff_t(y) - ptrdiff_t(x));
            REQ(i3 == i1);
            typename B::const_iterator ci = i1;
            REQ(*ci == m[x]);
            const typename B::iterator fixed = i1; // the iterator is, not the bit
            const typename B::const_iterator cfixed = ci;
            REQ(bool(*fixed) == m[x] && *cfixed == m[x] && fixed == i1 && fixed - i1 == 0 && cfixed + 0 == cfixed);
            auto old = i2++;
            REQ(bool(*old) == m[y] && i2 - old == 1);
            auto old2 = i2--;
            REQ(old2 - i2 == 1 && bool(*i2) == m[y]);
        }
    }

    void make(size_t k)
    {
        switch (s.raw(3))
        {
        case 0:
            TR("b" << k << " = {}");
            sut[k].reset(new B);
            mod[k].clear();
            break;
        case 1:
        {
            size_t n = gen_size(maxbits);
            TR("b" << k << " = bitset(" << n << ")");
            sut[k].reset(new B(n));
            mod[k].assign(n, false);
            break;
        }
        case 2:
        {
            size_t n = gen_size(maxbits);
            W w = gen_word();
            TR("b" << k << " = bitset(" << n << ", word " << uint64_t(w) << ")");
            sut[k].reset(new B(n, w));
            mod[k].assign(n, false);
            for (size_t i = 0; i < n; ++i) mod[k][i] = (w >> (i % bpw)) & 1;
            break;
        }
        case 3:
        {
            size_t n = gen_size(maxbits);
            TR("b" << k << " = random bits by push_back, " << n);
            sut[k].reset(new B);
            mod[k].clear();
            for (size_t i = 0; i < n; ++i)
            {
                bool v = s.coin();
                sut[k]->push_back(v);
                mod[k].push_back(v);
            }
            TR("  " << str(mod[k]));
            break;
        }
        }
    }

    void step(size_t op)
    {
        size_t k = s.raw(slots - 1);
        B& b = *sut[k];
        M& m = mod[k];
        switch (op)
        {
        case 0: // one bit
        {
            if (m.empty()) break;
            size_t i = s.raw(m.size() - 1);
            bool v = s.coin();
            unsigned how = unsigned(s.raw(10));
            TR("b" << k << " bit " << i << " kind " << how << " value " << v);
            switch (how)
            {
            case 0: b.set(i); m[i] = true; break;
            case 1: b.reset(i); m[i] = false; break;
            case 2: b.set(i, v); m[i] = v; break;
            case 3: b.flip(i); m[i] = !m[i]; break;
            case 4: b[i] = v; m[i] = v; break;
            case 5: b[i].set(); m[i] = true; break;
            case 6: b[i].reset(); m[i] = false; break;
            case 7: b[i].flip(); m[i] = !m[i]; break;
            case 8: b[i].set(v); m[i] = v; REQ(b[i].test() == v); break;
            case 9: *(b.begin() + ptrdiff_t(i)) = v; m[i] = v; break;
            default:
            {
                auto r = b[i];
                size_t j = s.raw(m.size() - 1);
                b[j] = bool(r);
                m[j] = bool(m[i]);
                break;
            }
            }
            break;
        }
        case 1: // push_back
        {
            size_t n = 1 + s.small(20);
            for (size_t i = 0; i < n; ++i)
            {
                bool v = s.coin();
                TR("b" << k << ".push_back(" << v << ")");
                b.push_back(v);
                m.push_back(v);
            }
            if (m.size() % bpw == 0 || m.size() % bpw == 1) s.nontrivial();
            break;
        }
        case 2: // resize
        {
            size_t n = gen_size(maxbits);
            TR("b" << k << ".resize(" << n << ") from " << m.size());
            if (n > m.size()) { s.nontrivial(); s.label("resize up"); }
            b.resize(n);
            m.resize(n, false);
            break;
        }
        case 3: TR("b" << k << ".reserve"); b.reserve(gen_size(maxbits)); break;
        case 4: // append
        {
            size_t j = s.raw(slots - 1);
            if (j == k || m.size() + mod[j].size() > maxbits * 3) break;
            TR("b" << k << " (" << m.size() << ") .append(b" << j << ") (" << mod[j].size() << ")");
            b.append(*sut[j]);
            for (size_t i = 0; i < mod[j].size(); ++i) m.push_back(mod[j][i]);
            s.nontrivial();
            s.label(m.size() % bpw ? "append, unaligned end" : "append, aligned end");
            check(j);
            break;
        }
        case 5: // assign
        {
            Buf buf;
            size_t n = s.small(5);
            for (size_t i = 0; i < n; ++i) buf.push_back(gen_word());
            TR("b" << k << ".assign(" << n << " words)");
            b.assign(buf);
            m.assign(n * bpw, false);
            for (size_t i = 0; i < m.size(); ++i) m[i] = (buf[i / bpw] >> (i % bpw)) & 1;
            break;
        }
        case 6: // copy a range of bits
        {
            size_t j = s.raw(slots - 1);
            if (j == k) break;
            size_t mx = m.size() < mod[j].size() ? m.size() : mod[j].size();
            size_t len = s.coin() ? mx : gen_size(mx);
            size_t to = s.raw(m.size() - len);
            size_t from = s.raw(mod[j].size() - len);
            if (s.coin()) to = m.size() - len; // up to the very end
            if (s.coin()) from = mod[j].size() - len;
            TR("b" << k << " copy [" << to << "," << to + len << ") of " << m.size() << " from b" << j << " at " << from << " of " << mod[j].size());
            const B& src = *sut[j];
            if (s.coin()) b.copy(b.begin() + ptrdiff_t(to), b.begin() + ptrdiff_t(to + len), src.begin() + ptrdiff_t(from));
            else b.copy(b.begin() + ptrdiff_t(to), b.begin() + ptrdiff_t(to + len), sut[j]->begin() + ptrdiff_t(from));
            for (size_t i = 0; i < len; ++i) m[to + i] = mod[j][from + i];
            if (len) s.nontrivial();
            if (len > bpw && to % bpw != from % bpw) s.label("copy, different offsets, longer than a word");
            else if (len) s.label("copy, other");
            check(j);
            break;
        }
        case 7: // copy / move objects
        {
            size_t j = s.raw(slots - 1);
            if (j == k) break;
            switch (s.raw(3))
            {
            case 0: TR("b" << j << " = b" << k); *sut[j] = b; mod[j] = m; check(j); break;
            case 1: TR("b" << j << " = copy of b" << k); sut[j].reset(new B(b)); mod[j] = m; check(j); break;
            case 2:
                TR("b" << j << " = move(b" << k << ")");
                *sut[j] = std::move(b);
                mod[j] = m;
                m.clear();
                check(j);
                break;
            default:
                TR("b" << j << " = new from move(b" << k << ")");
                sut[j].reset(new B(std::move(b)));
                mod[j] = m;
                m.clear();
                check(j);
                break;
            }
            s.nontrivial();
            break;
        }
        case 8: // dirty bits beyond size(), through the data
        {
            if (m.size() % bpw == 0) break;
            W w = gen_word();
            W tail = W(~W(0)) << (m.size() % bpw);
            TR("b" << k << " bits beyond size() |= " << uint64_t(w & tail));
            b.data()[b.word_size() - 1] |= W(w & tail);
            s.label("dirty tail");
            break;
        }
        case 9: // write a word
        {
            if (m.empty()) break;
            size_t wi = s.raw(b.word_size() - 1);
            W w = gen_word();
            TR("b" << k << ".data()[" << wi << "] = " << uint64_t(w));
            b.data()[wi] = w;
            for (size_t i = wi * bpw; i < m.size() && i < (wi + 1) * bpw; ++i) m[i] = (w >> (i % bpw)) & 1;
            break;
        }
        case 10: iterate(k); break;
        case 11: make(k); break;
        case 12: // fill all bits (so that all() is true), then maybe clear one
        {
            TR("b" << k << " all bits set");
            for (size_t i = 0; i < m.size(); ++i) { b.set(i); m[i] = true; }
            check(k);
            if (!m.empty() && s.coin()) { size_t i = s.raw(m.size() - 1); b.reset(i); m[i] = false; TR("  except " << i); }
            break;
        }
        case 13: // static helpers
        {
            size_t i = s.coin() ? s.raw(100000) : s.coin() ? ~size_t(0) - s.raw(200) : size_t(s.raw(~uint64_t(0)));
            TR("helpers for " << i);
            REQ_EQ(size_t(B::word_index(i)), i / bpw);
            REQ_EQ(size_t(B::bit_index(i)), i % bpw);
            REQ_EQ(B::word_mask(i), W(W(1) << (i % bpw)));
            REQ_EQ(size_t(B::word_size(i)), i / bpw + (i % bpw ? 1 : 0));
            break;
        }
        }
        check(k);
    }

    void run()
    {
        const unsigned base[] = {6, 6, 6, 1, 6, 2, 8, 4, 4, 3, 2, 3, 3, 1};
        pbt::Swarm<14> sw(s, base);
        for (size_t i = 0; i < slots; ++i) { make(i); check(i); }
        size_t steps = 1 + s.small(40);
        for (size_t i = 0; i < steps && !(i > 3 && s.out_of_data()); ++i) step(sw.next(s));
        for (size_t i = 0; i < slots; ++i) check(i);
    }
};

template <typename Buf>
void drive(pbt::Source& s) { Machine<Buf> m(s); m.run(); }

// one operation on fresh bitsets, all parameters near word boundaries
template <typename Buf>
void single(pbt::Source& s)
{
    Machine<Buf> m(s);
    for (size_t i = 0; i < 3; ++i) m.make(i);
    m.step(s.pick<size_t>({6, 4, 2}));
    m.step(s.pick<size_t>({2, 12, 1}));
}
}

PBT_REG(u8, (drive<std::vector<uint8_t>>), 25000);
PBT_REG(u16, (drive<std::vector<uint16_t>>), 25000);
PBT_REG(u32, (drive<std::vector<uint32_t>>), 25000);
PBT_REG(u64, (drive<std::vector<uint64_t>>), 25000);
PBT_REG(u32_small, (drive<itlib::small_vector<uint32_t, 2>>), 15000);
PBT_REG(u8_single, (single<std::vector<uint8_t>>), 30000);
PBT_REG(u64_single, (single<std::vector<uint64_t>>), 30000);

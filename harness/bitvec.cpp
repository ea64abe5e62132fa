// Conformance driver for BitVec (spec/Bits.tla).
#include "seq.h"
#include <cassert>
#include <cstdint>
#include <list>
#include <iterator>
#include <sstream>
#include <memory>
#include <sharemind/BitVector.h>
using namespace seq;
namespace {
using Bools = std::vector<int>;
struct Msg { // a message of words
    std::vector<std::uint64_t> w; std::size_t pos = 0;
    bool read(std::uint64_t & v) { if (pos >= w.size()) return false; v = w[pos++]; return true; }
    void write(std::uint64_t v) { w.push_back(v); }
};
struct Rng { void fillBytes(void * p, std::size_t n) { for (std::size_t i = 0; i < n; ++i) static_cast<unsigned char *>(p)[i] = static_cast<unsigned char>(vs::rnd(256)); } };
template <typename It> L pack(It b, It e) { // [length, 8 bits each ...]
    L l{0}; long n = 0;
    for (; b != e; ++b, ++n) { if (n % 8 == 0) l.push_back(0); if (*b) l.back() |= 1L << (n % 8); }
    l[0] = n;
    return l;
}
template <typename Block> struct Prog {
    using V = sharemind::BitVec<Block>;
    std::unique_ptr<V> o[4];
    static constexpr unsigned W = 8 * sizeof(Block);
    static unsigned len() { // close to where blocks end
        switch (vs::rnd(4)) { case 0: return vs::rnd(4); case 1: return W - 2 + vs::rnd(5); case 2: return 2 * W - 1 + vs::rnd(3); default: return vs::rnd(2 * W + 3); }
    }
    static Bools bools(unsigned n) { Bools b(n); unsigned const m = vs::rnd(4); for (auto & x : b) x = m == 0 ? 0 : m == 1 ? 1 : int(vs::rnd(2)); return b; }
    static L bits(V const & v) {
        Bools b;
        for (std::size_t i = 0; i < v.size(); ++i) b.push_back(v[i]);
        L l(pack(b.begin(), b.end()));
        if (v.empty() != (v.size() == 0)) l[0] = -1;
        if (!v.empty() && (v.front() != v[0] || v.back() != v[v.size() - 1])) l[0] = -2;
        return l;
    }
    L at(int i) { return bits(*o[i]); }
    void make(int i) {
        unsigned const n = len();
        switch (vs::rnd(3)) {
        case 0: { bool const val = coin(); o[i].reset(new V(n, val)); Bools b(n, val); E("make") << i << pack(b.begin(), b.end()) << at(i); break; }
        case 1: { Bools b(bools(n)); o[i].reset(new V(b.begin(), b.end())); E("make") << i << pack(b.begin(), b.end()) << at(i); break; }
        case 2: { Bools b(bools(n)); std::list<int> const l(b.begin(), b.end()); o[i].reset(new V(l.begin(), l.end())); E("make") << i << pack(b.begin(), b.end()) << at(i); break; }
        }
    }
    void go(int ops) {
        for (int i = 1; i <= 3; ++i) { o[i].reset(new V()); E("make") << i << L{0} << at(i); make(i); }
        for (int n = 0; n < ops; ++n) {
            int const i = 1 + vs::rnd(3); int j = 1 + vs::rnd(3);
            V & x = *o[i]; V const & cx = x;
            std::size_t const p = x.size() ? vs::rnd(static_cast<unsigned>(x.size())) : 0;
            bool const val = coin();
            switch (vs::rnd(26)) {
            case 0: make(i); break;
            case 1: case 2: { // one bit
                if (x.empty()) break;
                auto r = coin() ? x[p] : x.at(p);
                int const op = vs::rnd(7);
                switch (op) {
                case 0: r = val; break; case 1: r |= val; break; case 2: r &= val; break; case 3: r ^= val; break;
                case 4: r -= val; break; case 5: r.flip(); break;
                case 6: { std::size_t const q = vs::rnd(static_cast<unsigned>(x.size())); bool const b = cx[q]; r = x[q]; E("bit") << i << p + 1 << 0 << b << long(bool(r)) << long(~r) << at(i); continue; }
                }
                E("bit") << i << p + 1 << op << val << long(bool(r)) << long(~r) << at(i);
                break; }
            case 3: { // out of range or not
                std::size_t const q = vs::rnd(static_cast<unsigned>(x.size()) + 3);
                long r = -1, r2 = -1;
                try { r = cx.at(q); } catch (std::out_of_range const &) {}
                try { r2 = x.at(q); } catch (std::out_of_range const &) {}
                E("at") << i << q + 1 << r << r2;
                break; }
            case 4: if (vs::rnd(3)) break; if (coin()) x.clear(); else x.clear_and_release(); E("make") << i << L{0} << at(i); break;
            case 5: case 6: { unsigned const m = len(); x.resize(m); E("resize") << i << m << at(i); break; }
            case 7: { j = i % 3 + 1; x.swap(*o[j]); E("swap") << i << j << at(i) << at(j); break; }
            case 8: case 9: for (unsigned c = 1 + vs::rnd(4); c; --c) { bool const b = coin(); x.push_back(b); E("push") << i << b << at(i); } break;
            case 10: case 11: for (unsigned c = 1 + vs::rnd(4); c && !x.empty(); --c) { x.pop_back(); E("pop") << i << at(i); } break;
            case 12: if (x.size() != o[j]->size()) { // made so
                    Bools b(bools(static_cast<unsigned>(x.size()))); o[j].reset(new V(b.begin(), b.end())); E("make") << j << pack(b.begin(), b.end()) << at(j); }
                x.assign(*o[j]); E("copy") << i << j << at(i); break;
            case 13: { unsigned const m = len(); x.assign(std::size_t(m), val); Bools b(m, val); E("make") << i << pack(b.begin(), b.end()) << at(i); break; }
            case 14: { Bools b(bools(static_cast<unsigned>(x.size())));
                switch (vs::rnd(3)) {
                case 0: x.assign(b.begin(), b.end()); break;
                case 1: { std::list<int> const l(b.begin(), b.end()); x.assign(l.begin(), l.end()); break; }
                case 2: { std::ostringstream oss; for (int c : b) oss << c << ' '; std::istringstream iss(oss.str());
                    x.assign(std::istream_iterator<int>(iss), std::istream_iterator<int>()); break; }
                }
                E("make") << i << pack(b.begin(), b.end()) << at(i); break; }
            case 15: { // bytes
                if (x.size() % 8) break;
                std::vector<unsigned char> b(x.size() / 8); L l{long(x.size())};
                for (auto & c : b) { c = static_cast<unsigned char>(vs::rnd(256)); l.push_back(c); }
                x.assignBits(b.begin(), b.end());
                E("make") << i << l << at(i); break; }
            case 16: case 17: case 18: { if (x.size() + o[j]->size() > 5 * W) break; x.append(*o[j]); E("append") << i << j << at(i); break; }
            case 19: x.randomize(*std::make_unique<Rng>()); E("random") << i << at(i); break;
            case 20: switch (vs::rnd(3)) {
                case 0: x.set(); E("all") << i << 1 << at(i); break;
                case 1: x.reset(); E("all") << i << 0 << at(i); break;
                case 2: x.flip(); E("flip") << i << at(i); break; } break;
            case 21: { // bitwise
                if (x.size() != o[j]->size()) { Bools b(bools(static_cast<unsigned>(x.size()))); o[j].reset(new V(b.begin(), b.end())); E("make") << j << pack(b.begin(), b.end()) << at(j); }
                unsigned const op = vs::rnd(3); bool const fresh = coin();
                V const & y = *o[j];
                switch (op) {
                case 0: if (fresh) *o[i] = cx & y; else x &= y; break;
                case 1: if (fresh) *o[i] = cx | y; else x |= y; break;
                case 2: if (fresh) *o[i] = cx ^ y; else x ^= y; break;
                }
                E("op") << op << i << j << at(i) << at(j);
                break; }
            case 22: case 23: { // the same bits, other history
                V const & y = *o[j];
                Bools b; for (std::size_t k = 0; k < x.size(); ++k) b.push_back(cx[k]);
                V z(b.begin(), b.end());
                E("eq") << i << j << (cx == y) << (cx != y) << (cx == z) << (z != cx);
                if (!z.empty()) { z[p].flip(); E("near") << (z == cx) << (cx != z); }
                break; }
            case 24: { // to a message and back
                Msg msg; cx.serialize(msg);
                L l{long(msg.w.size()), msg.w.empty() ? -1 : long(msg.w[0])};
                for (std::size_t k = 1; k < msg.w.size(); ++k) for (unsigned b = 0; b < 64; b += 8) l.push_back(long((msg.w[k] >> b) & 0xff));
                unsigned const cut = vs::rnd(4) ? 0 : 1 + vs::rnd(static_cast<unsigned>(msg.w.size()));
                msg.w.resize(msg.w.size() - cut);
                int const other = vs::rnd(4) ? 0 : coin() || x.empty() ? 1 : -1;
                Bools b(bools(static_cast<unsigned>(static_cast<int>(x.size()) + other)));
                V z(b.begin(), b.end());
                bool const ok = z.deserialize(msg);
                E("msg") << i << l << cut << other << ok << pack(b.begin(), b.end()) << bits(z) << msg.pos;
                break; }
            case 25: switch (vs::rnd(4)) { // copies and moves
                case 0: { V c(*o[j]); o[i].reset(new V(std::move(c))); E("copy") << i << j << at(i); E("make") << 0 << L{0} << bits(c); break; }
                case 1: *o[i] = *static_cast<V const *>(o[j].get()); E("copy") << i << j << at(i); break;
                case 2: if (i == j) break; *o[i] = std::move(*o[j]); E("move") << i << j << at(i) << at(j); break;
                case 3: if (i == j) break; o[i].reset(new V(std::move(*o[j]))); E("move") << i << j << at(i) << at(j); break;
                } break;
            }
        }
        // Access out of range is reported.
        int const i = 1 + vs::rnd(3); V & x = *o[i]; V const & cx = x;
        if (vs::rnd(3)) return;
        std::size_t const q = x.size() + vs::rnd(3) - 1;
        unsigned const f = vs::rnd(4);
        E("access") << i << (f < 2 ? q + 1 : f == 2 ? std::size_t(1) : x.size());
        long r = 0;
        switch (f) { case 0: r = x[q]; break; case 1: r = cx[q]; break; case 2: r = cx.front(); break; case 3: r = cx.back(); break; }
        E("accessed") << r;
    }
};
void all(int v) {
    switch (v) {
    case 0: { Prog<std::uint8_t> p; p.go(30); break; }
    case 1: { Prog<std::uint16_t> p; p.go(30); break; }
    case 2: { Prog<std::uint32_t> p; p.go(30); break; }
    case 3: { Prog<std::uint64_t> p; p.go(25); break; }
    }
}
vs::Reg r1("all", 4, &all);
}

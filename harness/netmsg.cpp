// Conformance driver for network messages, byte orders and memory streams
// (spec/Messages.tla).
#include "seq.h"
#include <cstring>
#include <limits>
#include <memory>
#include <string>
#include <type_traits>
#include <sharemind/InputMemoryStream.h>
#include <sharemind/NetworkMessage.h>
using namespace seq;
using sharemind::IncomingNetworkMessage;
using sharemind::OutgoingNetworkMessage;
namespace {
using U64 = std::uint64_t;
enum Kind { RAW, BOOL, STR, SIZE, ARR, SARR, BYTES, MSG };
struct Three { unsigned char a, b, c; };
template <typename T> L mem(T const & t) { return bytes(reinterpret_cast<char const *>(&t), sizeof(T)); }
// The digits of a number to the base 256, the lowest first.
L digits(U64 v, unsigned n) { L l; for (unsigned i = 0; i < n; ++i) { l.push_back(long(v % 256)); v /= 256; } return l; }
U64 number() {
    U64 r = 0; unsigned const n = vs::rnd(9);
    for (unsigned i = 0; i < n; ++i) r = r * 256 + (coin() ? vs::rnd(256) : (coin() ? 0 : 255));
    return r;
}
template <typename T> T value() { return static_cast<T>(number()); }
std::string text(bool nul) {
    std::string s; unsigned const n = vs::rnd(8) ? vs::rnd(6) : 10 + vs::rnd(25);
    for (unsigned i = 0; i < n; ++i) s += static_cast<char>(vs::rnd(256));
    if (!nul) for (auto & c : s) if (!c) c = 'n';
    return s;
}
L str(std::string const & s) { return bytes(s.data(), s.size()); }

struct Op { Kind kind; unsigned width, n; };
struct Out {
    OutgoingNetworkMessage m[2];
    std::vector<Op> ops;
    L now(int i) const { return bytes(static_cast<char const *>(m[i].getData()), m[i].getSize()); }
    // One write, with its n-th allocation failing; how it ended.
    template <typename F> int tryIt(long fail, F && f) {
        vs::failAlloc(fail);
        int r = 0;
        try { f(); } catch (std::bad_alloc const &) { r = 1; } catch (sharemind::NetworkMessage::LengthError const &) { r = 2; }
        vs::failAlloc(0);
        return r;
    }
    void done(int i, Op op, L const & data, long n, int r) {
        if (!i && !r && op.kind != MSG) ops.push_back(op);
        auto const & x = m[i];
        bool const same = x.getSize() == static_cast<sharemind::NetworkMessage const &>(x).size && x.getData() == static_cast<sharemind::NetworkMessage const &>(x).data
            && x.getRemainingSize() == x.getSize() - x.getOffset();
        E("w") << i << long(op.kind) << long(op.width) << n << data << r << now(i) << long(x.getOffset()) << same;
    }
    template <typename T> void raw(int i, long fail) {
        T const v(value<T>()); T w(v);
        int const how = vs::rnd(3);
        int const r = tryIt(fail, [&] { if (how == 0) m[i].write(v); else if (how == 1) m[i].write(w); else m[i].write(T(v)); });
        done(i, {RAW, sizeof(T), 1}, mem(v), 1, r);
    }
    template <typename T> void size(int i, long fail) {
        T const v(value<T>());
        int const r = tryIt(fail, [&] { m[i].template writeSize<T>(v); });
        done(i, {SIZE, sizeof(T), 1}, digits(v, sizeof(T)), 1, r);
    }
    template <typename T> void arrays(int i, long fail) {
        unsigned const n = vs::rnd(4);
        std::unique_ptr<T[]> a(new T[n]);
        for (unsigned k = 0; k < n; ++k) a[k] = value<T>();
        L const d(bytes(reinterpret_cast<char const *>(a.get()), n * sizeof(T)));
        int const how = vs::rnd(5);
        U64 const huge = std::numeric_limits<U64>::max() / (1u + vs::rnd(16));
        int r = 0;
        switch (how) {
        case 0: r = tryIt(fail, [&] { m[i].writeArray(a.get(), n); }); done(i, {ARR, sizeof(T), n}, d, n, r); break;
        case 1: r = tryIt(fail, [&] { m[i].writeSizeAndArray(a.get(), n); }); done(i, {SARR, 8, n}, d, n, r); break;
        case 2: r = tryIt(fail, [&] { m[i].template writeSizeAndArray<std::uint32_t>(a.get(), static_cast<std::uint32_t>(n)); }); done(i, {SARR, 4, n}, d, n, r); break;
        case 3: if (sizeof(T) > 1) { r = tryIt(0, [&] { m[i].writeArray(a.get(), huge); }); done(i, {ARR, sizeof(T), 0}, L{}, -1, r); } break;
        case 4: if (sizeof(T) > 1) { r = tryIt(0, [&] { m[i].writeSizeAndArray(a.get(), huge); }); done(i, {SARR, 8, 0}, L{}, -1, r); } break;
        }
        if (how == 1 && !r && !i) { ops.back().width = 8 + sizeof(T) * 100; }
        if (how == 2 && !r && !i) { ops.back().width = 4 + sizeof(T) * 100; }
    }
    void step() {
        int const i = vs::rnd(5) ? 0 : 1;
        long const fail = vs::rnd(6) ? 0 : 1;
        int r = 0;
        switch (vs::rnd(18)) {
        case 0: raw<std::uint8_t>(i, fail); break;
        case 1: raw<std::uint16_t>(i, fail); break;
        case 2: raw<std::uint32_t>(i, fail); break;
        case 3: raw<std::uint64_t>(i, fail); break;
        case 4: raw<std::int32_t>(i, fail); break;
        case 5: { Three const t{static_cast<unsigned char>(vs::rnd(256)), 2, static_cast<unsigned char>(vs::rnd(256))}; Three u(t);
            r = tryIt(fail, [&] { if (coin()) m[i].write(t); else m[i].write(u); }); done(i, {RAW, 3, 1}, mem(t), 1, r); break; }
        case 6: { bool const b = coin(); bool c = b; r = tryIt(fail, [&] { if (coin()) m[i].write(b); else m[i].write(c); }); done(i, {BOOL, 1, 1}, L{b}, 1, r); break; }
        case 7: case 8: {
            int const how = vs::rnd(7);
            std::string const s(text(how >= 3)); std::string t(s);
            char const * const p = s.c_str();
            r = tryIt(fail, [&] {
                switch (how) {
                case 0: m[i].write(p); break;
                case 1: m[i].write(&t[0]); break;
                case 2: { char const * q = p; m[i].write(q); break; }
                case 3: m[i].write(s); break;
                case 4: m[i].write(t); break;
                case 5: m[i].write(std::move(t)); break;
                case 6: m[i].write(p, s.size()); break;
                }
            });
            done(i, {STR, 8, 1}, str(s), long(s.size()), r);
            break; }
        case 9: size<std::uint8_t>(i, fail); break;
        case 10: size<std::uint16_t>(i, fail); break;
        case 11: size<std::uint32_t>(i, fail); break;
        case 12: size<std::uint64_t>(i, fail); break;
        case 13: arrays<std::uint8_t>(i, fail); break;
        case 14: arrays<std::uint16_t>(i, fail); break;
        case 15: arrays<std::uint64_t>(i, fail); break;
        case 16: { std::string const s(text(true)); unsigned const n = static_cast<unsigned>(s.size());
            if (vs::rnd(5) || !m[i].getSize()) { r = tryIt(fail, [&] { m[i].writeBytes(s.data(), n); }); done(i, {BYTES, 1, n}, str(s), n, r); }
            else { r = tryIt(0, [&] { m[i].writeBytes(s.data(), std::numeric_limits<std::size_t>::max() - vs::rnd(40)); }); done(i, {BYTES, 1, n}, L{}, -1, r); }
            break; }
        case 17: { if (i) break; // the other message in this one
            OutgoingNetworkMessage const & c = m[1]; sharemind::NetworkMessage const & b = m[1]; L const d(now(1));
            r = tryIt(fail, [&] { switch (vs::rnd(3)) { case 0: m[0].write(c); break; case 1: m[0].write(b); break; case 2: m[0].write(m[1]); break; } });
            done(0, {MSG, 1, 1}, d, long(d.size()), r);
            if (!r) ops.push_back({BYTES, 1, static_cast<unsigned>(d.size())});
            break; }
        }
    }
};
struct In {
    IncomingNetworkMessage m;
    In(void const * p, std::size_t n) : m(p, n) {}
    void done(Kind k, long width, long n, long extra, int r, L const & before, L const & after) {
        bool const same = m.getRemainingSize() == m.getSize() - m.getOffset() && m.getPtr() == static_cast<char const *>(m.getData()) + m.getOffset();
        E("r") << long(k) << width << n << extra << r << before << after << long(m.getOffset()) << same;
    }
    template <typename T> void raw() {
        T v(value<T>()); L const b(mem(v));
        int const r = m.read(v); done(RAW, sizeof(T), 1, 0, r, b, mem(v));
    }
    template <typename S, typename T> void size() {
        T v(value<T>()); L const b(digits(v, sizeof(T)));
        int r;
        if (coin()) { try { r = m.readSize<S>(v); } catch (std::bad_array_new_length const &) { r = 2; } }
        else { struct Mine {}; try { r = m.readSize<S, T>(v, Mine()); } catch (Mine const &) { r = 2; } }
        done(SIZE, sizeof(S), 1, sizeof(T), r, b, digits(v, sizeof(T)));
    }
    template <typename T> void array(unsigned n) {
        std::unique_ptr<T[]> a(new T[n]);
        for (unsigned k = 0; k < n; ++k) a[k] = value<T>();
        L const b(bytes(reinterpret_cast<char const *>(a.get()), n * sizeof(T)));
        int const r = coin() ? m.readArray(a.get(), n) : m.readArray(a.get(), static_cast<std::uint8_t>(n));
        done(ARR, sizeof(T), n, 0, r, b, bytes(reinterpret_cast<char const *>(a.get()), n * sizeof(T)));
    }
    template <typename T> void hugeArray() {
        T v[2]; v[0] = value<T>(); v[1] = value<T>(); L const b(mem(v));
        U64 const h = std::numeric_limits<U64>::max() / (1 + vs::rnd(2 * sizeof(T))) + vs::rnd(2);
        int const r = h > 100 ? m.readArray(v, h) : 0;
        done(ARR, sizeof(T), -1, 0, r, b, mem(v));
    }
    void boolean() { bool v = coin(); L const b{v}; int const r = m.read(v); done(BOOL, 1, 1, 0, r, b, L{v}); }
    void string() {
        std::string v(text(true)); L const b(str(v));
        int r = 0;
        vs::failAlloc(vs::rnd(5) ? 0 : 1);
        try { r = m.read(v); } catch (std::bad_alloc const &) { r = 3; }
        vs::failAlloc(0);
        done(STR, 8, 1, 0, r, b, str(v));
    }
    void raws(unsigned n) {
        std::unique_ptr<char[]> a(new char[n]); for (unsigned k = 0; k < n; ++k) a[k] = '?';
        L const b(bytes(a.get(), n));
        int const r = m.readBytes(a.get(), n); done(BYTES, 1, n, 0, r, b, bytes(a.get(), n));
    }
    void seek() {
        unsigned const p = vs::rnd(static_cast<unsigned>(m.getSize()) + 3);
        std::size_t const q = vs::rnd(8) ? p : std::numeric_limits<std::size_t>::max() - vs::rnd(2);
        int const r = m.seek(q);
        E("seek") << (q == p ? long(p) : -1) << r << long(m.getOffset());
    }
    void readOp(Op o) {
        switch (o.kind) {
        case RAW: switch (o.width) { case 1: raw<std::uint8_t>(); break; case 2: raw<std::uint16_t>(); break; case 3: raw<Three_>(); break; case 4: raw<std::uint32_t>(); break; case 8: raw<std::uint64_t>(); break; } break;
        case BOOL: boolean(); break;
        case STR: string(); break;
        case SIZE: switch (o.width) { case 1: size<std::uint8_t, std::uint8_t>(); break; case 2: size<std::uint16_t, std::uint16_t>(); break; case 4: size<std::uint32_t, std::uint32_t>(); break; case 8: size<std::uint64_t, std::uint64_t>(); break; } break;
        case ARR: case SARR: {
            unsigned const w = o.kind == ARR ? o.width : o.width / 100;
            if (o.kind == SARR) { if (o.width % 100 == 8) size<std::uint64_t, std::uint64_t>(); else size<std::uint32_t, std::uint64_t>(); }
            switch (w) { case 1: array<std::uint8_t>(o.n); break; case 2: array<std::uint16_t>(o.n); break; case 8: array<std::uint64_t>(o.n); break; }
            break; }
        case BYTES: case MSG: raws(o.n); break;
        }
    }
    struct Three_ { unsigned char x[3]; Three_() = default; explicit Three_(U64 v) { x[0] = x[1] = x[2] = static_cast<unsigned char>(v); } };
    void wild() {
        switch (vs::rnd(20)) {
        case 0: raw<std::uint8_t>(); break;
        case 1: raw<std::uint16_t>(); break;
        case 2: raw<std::uint32_t>(); break;
        case 3: raw<std::uint64_t>(); break;
        case 4: boolean(); break;
        case 5: boolean(); break;
        case 6: case 7: case 8: string(); break;
        case 9: size<std::uint64_t, std::uint8_t>(); break;
        case 10: size<std::uint64_t, std::uint32_t>(); break;
        case 11: size<std::uint16_t, std::uint8_t>(); break;
        case 12: size<std::uint32_t, std::uint64_t>(); break;
        case 13: array<std::uint8_t>(vs::rnd(6)); break;
        case 14: array<std::uint16_t>(vs::rnd(4)); break;
        case 15: array<std::uint64_t>(vs::rnd(3)); break;
        case 16: if (coin()) hugeArray<std::uint16_t>(); else hugeArray<std::uint64_t>(); break;
        case 17: raws(vs::rnd(6)); break;
        default: seek(); break;
        }
    }
};
void incoming(L const & data, std::vector<Op> const & ops, int wilds) {
    bool const null = data.empty() && coin();
    std::unique_ptr<char[]> b(null ? nullptr : new char[data.size()]);
    for (std::size_t i = 0; i < data.size(); ++i) b[i] = static_cast<char>(data[i]);
    In in(b.get(), data.size());
    E("in") << data << long(in.m.getSize());
    for (auto const & o : ops) in.readOp(o);
    for (int i = 0; i < wilds; ++i) in.wild();
    L after(bytes(b.get(), data.size()));
    E("kept") << after;
}
void typed() {
    vs::arenaMalloc(true);
    {
        Out out;
        int const n = 1 + vs::rnd(10);
        for (int i = 0; i < n; ++i) out.step();
        L all(out.now(0));
        incoming(all, out.ops, 0);                                  // as it is
        L cut(all); cut.resize(all.size() - vs::rnd(static_cast<unsigned>(all.size()) + 1));
        incoming(cut, out.ops, 0);                                  // cut short
        if (!all.empty()) { all[vs::rnd(static_cast<unsigned>(all.size()))] = vs::rnd(256); incoming(all, out.ops, 3); } // damaged
        if (coin()) { bool const r = coin(); if (r) out.m[0].rewind(); long const p = r ? 0 : long(vs::rnd(static_cast<unsigned>(out.m[0].getSize()) + 2));
            bool const ok = r || out.m[0].seek(static_cast<std::size_t>(p));
            E("back") << p << r << ok << long(out.m[0].getOffset()) << long(out.m[0].getRemainingSize()); }
    }
    vs::arenaMalloc(false);
}
void wild() {
    for (int k = 0; k < 4; ++k) {
        L d; unsigned const n = vs::rnd(30);
        for (unsigned i = 0; i < n; ++i) d.push_back(vs::rnd(3) ? (vs::rnd(4) ? 0 : vs::rnd(4)) : vs::rnd(256));
        if (n > 10 && !vs::rnd(3)) { // as if of a string of nearly all there is
            unsigned const p = vs::rnd(n - 8); for (unsigned i = 0; i < 8; ++i) d[p + i] = i ? 255 : 256 - 1 - vs::rnd(n + 10); }
        if (n > 10 && !vs::rnd(3)) { // as if of an array of many
            unsigned const p = vs::rnd(n - 8); for (unsigned i = 0; i < 8; ++i) d[p + i] = i < 7 ? vs::rnd(4) : 1u << vs::rnd(8); }
        if (coin()) { d.resize(8 + vs::rnd(40)); for (unsigned i = 1; i < 8; ++i) d[i] = 0; d[0] = long(d.size()) - 8 + (vs::rnd(4) ? 0 : 1); }
        incoming(d, {}, 15);
    }
}
template <typename T> void order1() {
    U64 const x = number(); T const v(static_cast<T>(x));
    T const be(sharemind::hostToBigEndian(v)), le(sharemind::hostToLittleEndian(v)), net(sharemind::hostToSharemindNetOrder(v));
    bool const back = sharemind::bigEndianToHost(be) == v && sharemind::littleEndianToHost(le) == v && sharemind::sharemindNetToHostOrder(net) == v;
    E("order") << digits(static_cast<U64>(v), sizeof(T)) << mem(be) << mem(le) << mem(net) << back;
}
struct Tag;
template <typename T> void order2() {
    using S = sharemind::StrongType<T, Tag>;
    U64 const x = number(); S const v(static_cast<T>(x));
    S const be(sharemind::hostToBigEndian(v)), le(sharemind::hostToLittleEndian(v)), net(sharemind::hostToSharemindNetOrder(v));
    bool const back = sharemind::bigEndianToHost(be).get() == v.get() && sharemind::littleEndianToHost(le).get() == v.get() && sharemind::sharemindNetToHostOrder(net).get() == v.get();
    E("order") << digits(static_cast<U64>(v.get()), sizeof(T)) << mem(be.get()) << mem(le.get()) << mem(net.get()) << back;
}
void orders() {
    for (int i = 0; i < 3; ++i) {
        order1<std::uint8_t>(); order1<std::uint16_t>(); order1<std::uint32_t>(); order1<std::uint64_t>();
        order1<std::int8_t>(); order1<std::int16_t>(); order1<std::int32_t>(); order1<std::int64_t>();
        order2<std::uint8_t>(); order2<std::uint16_t>(); order2<std::uint32_t>(); order2<std::uint64_t>();
        order2<std::int8_t>(); order2<std::int16_t>(); order2<std::int32_t>(); order2<std::int64_t>();
    }
}
template <typename C> void stream() {
    unsigned const n = vs::rnd(9);
    std::unique_ptr<C[]> d(new C[n]); L data;
    for (unsigned i = 0; i < n; ++i) { d[i] = static_cast<C>(vs::rnd(4) ? vs::rnd(100) : vs::rnd(128) + 128); data.push_back(long(static_cast<unsigned char>(d[i]))); }
    sharemind::BasicInputMemoryStream<C> s(d.get(), n);
    std::basic_istream<C> & is = s;
    unsigned const k = vs::rnd(n + 2);
    C buf[16];
    auto const peeked = is.peek();
    bool const good = is.good();
    is.clear();
    is.read(buf, k);
    L first; for (long i = 0; i < is.gcount(); ++i) first.push_back(long(static_cast<unsigned char>(buf[i])));
    bool const all = is.good();
    is.clear();
    if (is.gcount() && coin()) { is.unget(); if (is.good()) first.pop_back(); else is.clear(); }
    L rest; C c; while (is.get(c)) rest.push_back(long(static_cast<unsigned char>(c)));
    E("stream") << data << long(k) << (good ? long(static_cast<unsigned char>(static_cast<C>(peeked))) : -1) << first << all << rest << is.eof();
}
void all(int v) {
    switch (v) {
    case 0: typed(); break;
    case 1: wild(); break;
    case 2: orders(); break;
    case 3: for (int i = 0; i < 10; ++i) { stream<char>(); stream<wchar_t>(); } break;
    }
}
vs::Reg r1("all", 4, &all);
}

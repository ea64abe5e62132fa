// Conformance driver for fixed-width integers (spec/BigInt.tla).
#include "seq.h"
#include <cstring>
#include <limits>
#include <memory>
#include <sstream>
#include <sharemind/uint_t.h>
#include <sharemind/uint128_t.h>
using namespace seq;
using namespace sharemind;
namespace {
using u8 = std::uint8_t; using u16 = std::uint16_t; using u32 = std::uint32_t; using u64 = std::uint64_t;

// What differs between the two kinds.
template <typename U> struct Info;
template <unsigned N, typename B> struct Info<uint_t<N, B>> {
    using U = uint_t<N, B>; static constexpr unsigned bits = N; static constexpr std::size_t size = U::num_of_blocks * sizeof(B);
    static void raw(U const & x, unsigned char * to) { std::memcpy(to, x.begin(), size); }
    struct Gen { unsigned char const * from; void operator()(B * b, B * e) const { std::memcpy(b, from, size); if (static_cast<std::size_t>(e - b) != U::num_of_blocks) std::abort(); } };
    static U make(unsigned char const * from) { Gen g{from}; if (coin()) return U(g); return U(Gen{from}); }
};
template <> struct Info<uint128_t> {
    using U = uint128_t; static constexpr unsigned bits = 128; static constexpr std::size_t size = 16;
    static void raw(U const & x, unsigned char * to) { u64 const w[2] = {x.lower(), x.upper()}; std::memcpy(to, w, 16); }
    static U make(unsigned char const * from) { u64 w[2]; std::memcpy(w, from, 16); return U(w[1], w[0]); }
};

template <typename U> struct Run {
    using I = Info<U>; static constexpr unsigned N = I::bits; static constexpr std::size_t K = (N + 7) / 8;
    U v[3] = {U(0), U(0), U(0)};
    // Blocks beyond the last byte must stay empty; if not they are shown.
    L num(U const & x) { unsigned char b[I::size]; I::raw(x, b); std::size_t n = K; for (std::size_t i = K; i < I::size; ++i) if (b[i]) n = i + 1; return bytes(b, n); }
    std::vector<L> regs() { return {num(v[0]), num(v[1]), num(v[2])}; }
    U random() {
        unsigned char b[I::size]; std::memset(b, 0, sizeof b);
        switch (vs::rnd(7)) {
        case 0: for (auto & c : b) c = static_cast<unsigned char>(vs::rnd(256)); break;
        case 1: { unsigned char x = coin() ? 255 : 0; for (auto & c : b) { if (vs::rnd(4) == 0) x = static_cast<unsigned char>(~x); c = x; } break; }
        case 2: b[0] = static_cast<unsigned char>(vs::rnd(20)); break;
        case 3: std::memset(b, 255, sizeof b); b[0] = static_cast<unsigned char>(255 - vs::rnd(3)); break;
        case 4: { unsigned const i = vs::rnd(N); b[i / 8] = static_cast<unsigned char>(1u << (i % 8)); if (coin()) b[0] |= static_cast<unsigned char>(vs::rnd(3)); break; }
        case 5: for (std::size_t i = 0; i < (I::size + 1) / 2; ++i) b[i] = static_cast<unsigned char>(vs::rnd(256)); break;
        case 6: { unsigned const i = vs::rnd(N); for (unsigned j = 0; j < i; ++j) b[j / 8] |= static_cast<unsigned char>(1u << (j % 8)); break; }
        }
        if (N % 8) b[K - 1] &= static_cast<unsigned char>((1u << (N % 8)) - 1u);
        for (std::size_t i = K; i < I::size; ++i) b[i] = 0;
        return I::make(b);
    }
    template <typename T> void load(int d, T x) {
        unsigned char b[sizeof(T)]; std::memcpy(b, &x, sizeof x);
        switch (vs::rnd(3)) { case 0: v[d] = x; break; case 1: v[d] = U(x); break; case 2: { T const c(x); U y(c); v[d] = y; break; } }
        E("load") << d << bytes(b, sizeof b) << bool(x < T(0)) << regs();
    }
    template <typename T> T some() {
        switch (vs::rnd(4)) {
        case 0: return static_cast<T>(vs::rnd(100)); case 1: return std::numeric_limits<T>::max(); case 2: return std::numeric_limits<T>::min();
        default: { T t; unsigned char b[sizeof t]; for (auto & c : b) c = static_cast<unsigned char>(vs::rnd(256)); std::memcpy(&t, b, sizeof t); return t; } }
    }
    void loads(int d) {
        switch (vs::rnd(11)) {
        case 0: load<u8>(d, some<u8>()); break; case 1: load<u16>(d, some<u16>()); break; case 2: load<u32>(d, some<u32>()); break; case 3: load<u64>(d, some<u64>()); break;
        case 4: load<signed char>(d, some<signed char>()); break; case 5: load<short>(d, some<short>()); break; case 6: load<int>(d, some<int>()); break; case 7: load<long>(d, some<long>()); break;
        case 8: { bool const b = coin(); v[d] = b; E("load") << d << L{b} << false << regs(); break; }
        case 9: case 10: others(d, v[0]); break;
        }
    }
    template <unsigned M, typename B> void other(int d) {
        Run<uint_t<M, B>> o; uint_t<M, B> const x(o.random());
        if (coin()) v[d] = x; else { uint_t<M, B> y(x); v[d] = U(y); }
        E("load") << d << o.num(x) << false << regs();
    }
    template <unsigned M, typename B> void others(int d, uint_t<M, B> const &) {
        switch (vs::rnd(6)) {
        case 0: other<8, u8>(d); break; case 1: other<13, u16>(d); break; case 2: other<65, u32>(d); break; case 3: other<130, u64>(d); break; case 4: other<33, u8>(d); break;
        case 5: { Run<uint128_t> o; uint128_t const x(o.random()); v[d] = x; E("load") << d << o.num(x) << false << regs(); break; }
        }
    }
    void others(int, uint128_t const &) {}
    // Demotion, where there is one:
    template <typename T> L raw(T const & x) { return bytes(reinterpret_cast<unsigned char const *>(&x), sizeof x); }
    template <typename T> std::enable_if_t<impl::can_demote<T, U>::value> demote(int a, unsigned k) { T const r(demote_integer<T>(v[a])); E("demote") << a << long(k) << raw(r); }
    template <typename T> std::enable_if_t<!impl::can_demote<T, U>::value> demote(int, unsigned) {}
    template <typename T> std::enable_if_t<impl::can_demote<T, U>::value> demoteBig(int a, unsigned k) { T const r(demote_integer<T>(v[a])); Run<T> o; E("demote") << a << long(k) << o.num(r); }
    template <typename T> std::enable_if_t<!impl::can_demote<T, U>::value> demoteBig(int, unsigned) {}
    void demotes(int a) {
        switch (vs::rnd(11)) {
        case 0: { bool const r = demote_integer<bool>(v[a]); E("demote") << a << 1 << L{r}; break; }
        case 1: demote<u8>(a, 8); break; case 2: demote<u16>(a, 16); break; case 3: demote<u32>(a, 32); break; case 4: demote<u64>(a, 64); break;
        case 5: demoteBig<uint_t<5, u8>>(a, 5); break; case 6: demoteBig<uint_t<20, u8>>(a, 20); break; case 7: demoteBig<uint_t<64, u64>>(a, 64); break;
        case 8: demoteBig<uint_t<40, u16>>(a, 40); break; case 9: demoteBig<uint_t<129, u64>>(a, 129); break; case 10: demoteBig<uint128_t>(a, 128); break;
        }
    }
    void binary(int d, int a, int b) {
        char const * o = ""; bool const in = coin(); U r(0);
        switch (vs::rnd(6)) {
        case 0: o = "+"; if (in) v[d = a] += v[b]; else v[d] = v[a] + v[b]; break;
        case 1: o = "-"; if (in) v[d = a] -= v[b]; else v[d] = v[a] - v[b]; break;
        case 2: o = "*"; if (in) v[d = a] *= v[b]; else v[d] = v[a] * v[b]; break;
        case 3: o = "&"; if (in) v[d = a] &= v[b]; else v[d] = v[a] & v[b]; break;
        case 4: o = "|"; if (in) v[d = a] |= v[b]; else v[d] = v[a] | v[b]; break;
        case 5: o = "^"; if (in) v[d = a] ^= v[b]; else v[d] = v[a] ^ v[b]; break;
        }
        E("bin") << o << d << a << b << regs();
    }
    void literal(int d, int a) {
        int const k = vs::rnd(300); char const * o = ""; bool left = coin();
        switch (vs::rnd(6)) {
        case 0: o = "+"; v[d] = left ? v[a] + k : k + v[a]; break;
        case 1: o = "-"; v[d] = left ? v[a] - k : k - v[a]; break;
        case 2: o = "*"; v[d] = left ? v[a] * k : k * v[a]; break;
        case 3: o = "&"; v[d] = left ? v[a] & u16(k) : u16(k) & v[a]; break;
        case 4: o = "|"; v[d] = left ? v[a] | unsigned(k) : unsigned(k) | v[a]; break;
        case 5: o = "^"; v[d] = left ? v[a] ^ long(k) : long(k) ^ v[a]; break;
        }
        E(left ? "binl" : "binr") << o << d << a << k << regs();
    }
    template <unsigned M, typename B> static bool qr(uint_t<M, B> const & x, uint_t<M, B> const & y, U & q, U & r) { if (coin()) { auto t = divMod(x, y); q = t.quot; r = t.rem; } else { q = x / y; r = x % y; } return true; }
    static bool qr(uint128_t const & x, uint128_t const & y, U & q, U & r) { q = x / y; r = x % y; return true; }
    void divide(int a, int b) {
        U q(0), r(0); bool ok = false;
        try { ok = qr(v[a], v[b], q, r); } catch (typename U::division_by_zero_error const &) {}
        if (ok) E("div") << a << b << num(q) << num(r) << regs(); else E("zero") << b << regs();
    }
    void divideIn(int a, int b) {
        U const x(v[a]), y(v[b]); bool ok = false; bool const q = coin();
        try { if (q) v[a] /= v[b]; else v[a] %= v[b]; ok = true; } catch (typename U::division_by_zero_error const & e) { if (std::strcmp(e.what(), "Division by zero")) std::abort(); }
        // The other half.
        if (ok) { U const o(q ? x % y : x / y); E("divin") << (q ? "/" : "%") << a << b << num(o) << regs(); } else E("zero") << b << regs();
    }
    void unary(int d, int a) {
        switch (vs::rnd(6)) {
        case 0: v[d] = ~v[a]; E("un") << "~" << d << a << num(v[d]) << regs() << 0; break;
        case 1: v[d] = -v[a]; E("un") << "-" << d << a << num(v[d]) << regs() << 0; break;
        case 2: { U & r = ++v[d]; E("un") << "++" << d << d << num(r) << regs() << 0; break; }
        case 3: { U & r = --v[d]; E("un") << "--" << d << d << num(r) << regs() << 0; break; }
        case 4: { U r = v[d]++; E("un") << "++" << d << d << num(r) << regs() << 1; break; }
        case 5: { U r = v[d]--; E("un") << "--" << d << d << num(r) << regs() << 1; break; }
        }
    }
    template <unsigned M, typename B> void shiftSelf(int d, int a, uint_t<M, B> const & s, bool left) { if (coin()) v[d] = left ? v[a] << s : v[a] >> s; else { U c(v[a]); if (left) c <<= s; else c >>= s; v[d] = c; } }
    void shiftSelf(int d, int a, uint128_t const & s, bool left) { v[d] = left ? v[a] << s.lower() : v[a] >> s.lower(); }
    void shift(int d, int a) {
        u64 const s = vs::rnd(4) ? vs::rnd(N) : (vs::rnd(N / 8 + 1) * 8) % N; bool const left = coin();
        switch (vs::rnd(4)) {
        case 0: v[d] = left ? v[a] << s : v[a] >> s; break;
        case 1: if (left) v[a] <<= s; else v[a] >>= s; d = a; break;
        case 2: v[d] = left ? v[a] << u64(s) : v[a] >> u64(s); break;
        case 3: shiftSelf(d, a, U(s), left); break;
        }
        E(left ? "shl" : "shr") << d << a << long(s) << regs();
    }
    void compare(int a, int b) {
        U const & x = v[a]; U const & y = v[b];
        E("cmp") << a << b << L{x == y, x != y, x < y, x <= y, x > y, x >= y} << !x;
    }
    template <unsigned M, typename B> void bit(int d, uint_t<M, B> const & c) {
        unsigned const i = vs::rnd(N); bool const x = coin(); char const * o = ""; long arg = x; bool r;
        switch (vs::rnd(9)) {
        case 0: o = "="; r = (v[d][i] = x); break;
        case 1: o = "|"; r = (v[d][i] |= x); break;
        case 2: o = "&"; r = (v[d][i] &= x); break;
        case 3: o = "^"; r = (v[d][i] ^= x); break;
        case 4: o = "-"; r = (v[d][i] -= x); break;
        case 5: o = "flip"; r = v[d][i].flip(); break;
        case 6: o = "get"; r = c[i]; break;
        case 7: o = "get"; r = !~v[d][i]; break;
        default: { o = "="; unsigned const j = vs::rnd(N); arg = bool(c[j]); r = (v[d][i] = v[d][j]); break; }
        }
        E("bit") << d << long(i) << o << arg << r << regs();
    }
    void bit(int, uint128_t const &) {}
    // A stream without room for any character.
    struct Full : std::streambuf {};
    void print(int a) {
        if (vs::rnd(6) == 0) { Full f; std::ostream o(&f); o.exceptions(std::ios::badbit | std::ios::failbit); bool t = false; try { o << v[a]; } catch (std::ios::failure const &) { t = true; } E("full") << t << regs(); return; }
        std::ostringstream os; int base = 10; bool const up = coin(), plus = coin();
        switch (vs::rnd(3)) { case 0: os << std::hex; base = 16; break; case 1: os << std::oct; base = 8; break; case 2: break; }
        if (up) os << std::uppercase;
        if (plus) os << std::showpos;
        os << v[a];
        std::string const s(os.str());
        E("print") << a << base << up << plus << bytes(s.data(), s.size());
    }
    void go(int ops) {
        E("meta") << long(N) << regs();
        for (int i = 0; i < 3; ++i) { v[i] = random(); E("load") << i << num(v[i]) << 0 << regs(); }
        for (int i = 0; i < ops; ++i) {
            int const d = vs::rnd(3), a = vs::rnd(3), b = vs::rnd(3);
            switch (vs::rnd(20)) {
            case 0: case 1: case 2: case 3: binary(d, a, b); break;
            case 4: literal(d, a); break;
            case 5: if (N <= 200 || vs::rnd(5) == 0) divide(a, b); break;
            case 6: if (N <= 200 || vs::rnd(5) == 0) divideIn(a, b); break;
            case 7: case 8: unary(d, a); break;
            case 9: case 10: case 11: shift(d, a); break;
            case 12: compare(a, b); break;
            case 13: bit(d, v[d]); break;
            case 14: if (N <= 200 || vs::rnd(5) == 0) print(a); break;
            case 15: demotes(a); break;
            case 16: loads(d); break;
            case 17: { int const w = vs::rnd(4); if (w == 0) v[d] = v[a]; else if (w == 1) { U c(std::move(v[a])); v[d] = c; } else if (w == 2) { U const c(v[a]); v[d] = c; } else { U c(v[a]); v[d] = std::move(c); } E("copy") << d << a << regs(); break; }
            case 18: case 19: v[d] = random(); E("load") << d << num(v[d]) << 0 << regs(); break;
            }
        }
    }
};
template <typename U> void run() { std::unique_ptr<Run<U>> r(new Run<U>); r->go(25); }
void all(int w) {
    switch (w) {
    case 0: if (coin()) run<uint_t<3, u8>>(); else run<uint_t<8, u8>>(); break;
    case 1: if (coin()) run<uint_t<9, u8>>(); else run<uint_t<24, u8>>(); break;
    case 2: if (coin()) run<uint_t<37, u8>>(); else run<uint_t<1, u8>>(); break;
    case 3: if (coin()) run<uint_t<13, u16>>(); else run<uint_t<16, u16>>(); break;
    case 4: if (coin()) run<uint_t<40, u16>>(); else run<uint_t<48, u16>>(); break;
    case 5: if (coin()) run<uint_t<32, u32>>(); else run<uint_t<33, u32>>(); break;
    case 6: if (coin()) run<uint_t<96, u32>>(); else run<uint_t<100, u32>>(); break;
    case 7: if (coin()) run<uint_t<64, u64>>(); else run<uint_t<65, u64>>(); break;
    case 8: if (coin()) run<uint_t<128, u64>>(); else run<uint_t<130, u64>>(); break;
    case 9: if (coin()) run<uint_t<192, u64>>(); else run<uint_t<200, u64>>(); break;
    case 10: case 11: run<uint128_t>(); break;
    case 12: run<uint_t<800, u64>>(); break;
    }
}
vs::Reg r1("all", 13, &all);

// Everything there is, of few bits.
template <typename U> struct Few {
    static constexpr unsigned N = Info<U>::bits, M = 1u << N;
    static long num(U const & x) { Run<U> r; L const b(r.num(x)); return b.size() == 1 ? b[0] : 1000; }
    static U make(unsigned x) { return U(x); }
    template <typename F> static void rows(char const * o, F f) { for (unsigned x = 0; x < M; ++x) { L r; for (unsigned y = 0; y < M; ++y) r.push_back(f(make(x), make(y), y)); E("row") << o << long(N) << long(x) << r; } }
    static void go() {
        rows("+", [](U a, U b, unsigned) { return num(a + b); });
        rows("-", [](U a, U b, unsigned) { return num(a - b); });
        rows("*", [](U a, U b, unsigned) { return num(a * b); });
        rows("/", [](U a, U b, unsigned) { try { return num(a / b); } catch (typename U::division_by_zero_error const &) { return -1l; } });
        rows("%", [](U a, U b, unsigned) { try { return num(a % b); } catch (typename U::division_by_zero_error const &) { return -1l; } });
        rows("<", [](U a, U b, unsigned) { return long(a < b); });
        rows("=", [](U a, U b, unsigned) { return long(a == b); });
        rows("<<", [](U a, U, unsigned y) { return y < N ? num(a << u64(y)) : -1; });
        rows(">>", [](U a, U, unsigned y) { return y < N ? num(a >> u64(y)) : -1; });
    }
};
void few(int w) {
    switch (w) {
    case 0: Few<uint_t<1, u8>>::go(); break; case 1: Few<uint_t<2, u8>>::go(); break; case 2: Few<uint_t<3, u16>>::go(); break;
    case 3: Few<uint_t<4, u32>>::go(); break; case 4: Few<uint_t<5, u8>>::go(); break; case 5: Few<uint_t<6, u64>>::go(); break;
    case 6: Few<uint_t<7, u8>>::go(); break;
    }
}
vs::Reg r2("few", 7, &few);
}

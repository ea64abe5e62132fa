// Conformance driver for comparisons and conversions of integers of any types
// (spec/Integers.tla).
#include "seq.h"
#include <limits>
#include <type_traits>
#include <sharemind/EnumToUnderlying.h>
#include <sharemind/IntegralComparisons.h>
#include <sharemind/IsPowerOfTwo.h>
#include <sharemind/Max.h>
#include <sharemind/MaybeEnumToUnderlying.h>
#include <sharemind/Min.h>
#include <sharemind/SignedToUnsigned.h>
#include <sharemind/ToSigned.h>
#include <sharemind/ToUnsigned.h>
using namespace seq;
namespace {
// A number: whether it is negative, and the bytes of its magnitude.
template <typename T> L num(T v) {
    bool const neg = v < T(0) ? true : false;
    std::uint64_t m = static_cast<std::uint64_t>(v);
    if (neg) m = ~m + 1u;
    L r{neg ? 1l : 0l};
    for (int i = 0; i < 8; ++i) r.push_back(static_cast<long>((m >> (8 * i)) & 255u));
    return r;
}
std::uint64_t bits() {
    std::uint64_t r = 0;
    for (int i = 0; i < 8; ++i) r = (r << 8) | vs::rnd(256);
    return r;
}
template <typename T> struct Draw {
    static T draw() {
        std::uint64_t const lo = static_cast<std::uint64_t>(std::numeric_limits<T>::min());
        std::uint64_t const hi = static_cast<std::uint64_t>(std::numeric_limits<T>::max());
        switch (vs::rnd(8)) {
        case 0: return static_cast<T>(hi - vs::rnd(3));
        case 1: return static_cast<T>(lo + vs::rnd(3));
        case 2: return static_cast<T>(std::uint64_t(0) - vs::rnd(4));
        case 3: return static_cast<T>(vs::rnd(4));
        case 4: case 5: return static_cast<T>((std::uint64_t(1) << vs::rnd(64)) + vs::rnd(3) - 1u);
        default: return static_cast<T>(bits());
        }
    }
};
template <> struct Draw<bool> { static bool draw() { return coin(); } };
template <typename T> using Same = T;
constexpr unsigned types = 15;
// Calls f with a value of the given type.
template <typename F> void with(unsigned t, F const & f) {
    switch (t) {
    case 0: return f(Draw<bool>::draw());
    case 1: return f(Draw<char>::draw());
    case 2: return f(Draw<signed char>::draw());
    case 3: return f(Draw<unsigned char>::draw());
    case 4: return f(Draw<short>::draw());
    case 5: return f(Draw<unsigned short>::draw());
    case 6: return f(Draw<int>::draw());
    case 7: return f(Draw<unsigned>::draw());
    case 8: return f(Draw<long>::draw());
    case 9: return f(Draw<unsigned long>::draw());
    case 10: return f(Draw<long long>::draw());
    case 11: return f(Draw<unsigned long long>::draw());
    case 12: return f(Draw<wchar_t>::draw());
    case 13: return f(Draw<char16_t>::draw());
    default: return f(Draw<char32_t>::draw());
    }
}
// Values near one another however different their types.
template <typename B, typename A> B near(A a) {
    B const b = static_cast<B>(a);
    return static_cast<B>(static_cast<std::uint64_t>(b) + vs::rnd(3) - 1u);
}
template <typename A> bool nearBool(A) { return coin(); }
template <typename A, typename B> void compare(A a, B b) {
    using namespace sharemind;
    if (coin()) { b = std::is_same<B, bool>::value ? static_cast<B>(coin()) : near<B>(a); }
    E("cmp") << num(a) << num(b)
             << integralLess(a, b) << integralLessThan(a, b) << integralLessEqual(a, b)
             << integralEqual(a, b) << integralNotEqual(a, b)
             << integralGreaterEqual(a, b) << integralGreater(a, b) << integralGreaterThan(a, b);
}
template <typename A> void signs(A a) {
    using namespace sharemind;
    E("sign") << num(a) << integralPositive(a) << integralNegative(a) << integralNonNegative(a)
              << integralNonPositive(a) << integralZero(a) << integralNonZero(a) << isPowerOfTwo(a);
}
template <typename R> void conv(char const * what, std::size_t size, L const & from, R const & r) {
    E("conv") << what << size << from << sizeof(R) << std::is_signed<R>::value << num(r);
}
template <typename A> typename std::enable_if<std::is_signed<A>::value>::type s2u(A a) {
    conv("u", sizeof(A), num(a), sharemind::signedToUnsigned(a));
}
template <typename A> typename std::enable_if<!std::is_signed<A>::value>::type s2u(A) {}
template <typename A> void convert(A const a) {
    L const x = num(a);
    s2u(a);
    { auto const & r = sharemind::toUnsigned(a); conv("u", sizeof(A), x, r); }
    { auto const & r = sharemind::toSigned(a); conv("s", sizeof(A), x, r); }
}
void convert(bool) {}
template <typename E_> void enums() {
    using U = typename std::underlying_type<E_>::type;
    U const u = Draw<U>::draw();
    E_ e = static_cast<E_>(u); E_ const & ce = e;
    { auto r = sharemind::enumToUnderlying(ce); conv("e", sizeof(U), num(u), r); }
    { auto r = sharemind::maybeEnumToUnderlying(e); conv("e", sizeof(U), num(u), r); }
    { auto r = sharemind::maybeEnumToUnderlying(static_cast<E_>(u)); conv("e", sizeof(U), num(u), r); }
    { auto r = sharemind::maybeEnumToUnderlying(ce); conv("e", sizeof(U), num(u), r); }
    { auto r = sharemind::maybeEnumToUnderlying(U(u)); conv("e", sizeof(U), num(u), r); }
    if (std::is_signed<decltype(sharemind::enumToUnderlying(ce))>::value != std::is_signed<U>::value) vs::fail("crash", "an enumeration of another type");
}
enum class E1 : signed char {}; enum class E2 : std::uint64_t {}; enum E3 : short {}; enum class E4 : std::int64_t {};
template <typename T> void extremes(T) {
    using namespace sharemind;
    T v[5];
    for (auto & x : v) x = Draw<T>::draw();
    if (coin()) v[vs::rnd(5)] = v[vs::rnd(5)];
    T const & c = v[2];
    std::vector<L> all; for (T x : v) all.push_back(num(x));
    T mx, mn; unsigned n = 1 + vs::rnd(5);
    switch (n) {
    case 1: mx = max(v[0]); mn = min(v[0]); break;
    case 2: mx = max(v[0], v[1]); mn = min(v[0], v[1]); break;
    case 3: mx = max(v[0], T(v[1]), c); mn = min(v[0], T(v[1]), c); break;
    case 4: mx = max(v[0], v[1], c, v[3]); mn = min(v[0], v[1], c, v[3]); break;
    default: mx = max(v[0], v[1], c, T(v[3]), v[4]); mn = min(v[0], v[1], c, T(v[3]), v[4]); break;
    }
    all.resize(n);
    E("ext") << all << num(mx) << num(mn);
}
void run(int) {
    for (int step = 0; step < 12; ++step) {
        unsigned const a = vs::rnd(types);
        switch (vs::rnd(8)) {
        case 0: with(a, [](auto x) { signs(x); }); break;
        case 1: with(a, [](auto x) { convert(x); }); break;
        case 2: with(a, [](auto x) { extremes(x); }); break;
        case 3:
            switch (vs::rnd(4)) { case 0: enums<E1>(); break; case 1: enums<E2>(); break; case 2: enums<E3>(); break; default: enums<E4>(); }
            break;
        default: with(a, [](auto x) { with(vs::rnd(types), [x](auto y) { compare(x, y); }); });
        }
    }
}
// All pairs of values of narrow types.
template <typename A, typename B> void table() {
    using namespace sharemind;
    A const a = Draw<A>::draw();
    for (int k = 0; k < 256; ++k) {
        B const b = static_cast<B>(k);
        E("cmp") << num(a) << num(b)
                 << integralLess(a, b) << integralLessThan(a, b) << integralLessEqual(a, b)
                 << integralEqual(a, b) << integralNotEqual(a, b)
                 << integralGreaterEqual(a, b) << integralGreater(a, b) << integralGreaterThan(a, b);
        signs(b); convert(b);
    }
}
void tables(int) {
    switch (vs::rnd(6)) {
    case 0: table<signed char, unsigned char>(); break;
    case 1: table<unsigned char, signed char>(); break;
    case 2: table<int, unsigned char>(); break;
    case 3: table<unsigned, signed char>(); break;
    case 4: table<long, signed char>(); break;
    default: table<std::uint64_t, signed char>(); break;
    }
}
vs::Reg r1("run", 1, &run), r2("tables", 1, &tables);
} // namespace

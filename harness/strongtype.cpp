// Conformance driver for strong types (spec/StrongTypes.tla).
#include "seq.h"
#include <algorithm>
#include <cmath>
#include <limits>
#include <sstream>
#include <sharemind/StrongType.h>
using namespace seq;
using namespace sharemind;
namespace {
constexpr long NaN = 2147483647;
constexpr unsigned N = 4;
struct Tag {};
using Other = StrongType<short, int, StrongTypeStreamable>;
// A stream of its own kind.
struct Sink { L got; };
template <typename T> Sink & operator<<(Sink & s, T v) { s.got.push_back(long(v)); return s; }

int g_array[200];
template <typename V> struct Num {
    static V of(long v) { return static_cast<V>(v); }
    static long see(V v) { return static_cast<long>(v); }
};
template <> struct Num<double> {
    static double of(long v) { return v == NaN ? std::numeric_limits<double>::quiet_NaN() : double(v); }
    static long see(double v) { return std::isnan(v) ? NaN : long(v); }
};
template <> struct Num<int const *> {
    static int const * of(long v) { return g_array + v; }
    static long see(int const * v) { return v - g_array; }
};
long value(char const * op, long a, long b) {   // to keep from overflowing
    switch (*op) { case '+': return a + b; case '-': return a - b; case '*': return a * b; default: return 0; }
}
bool same(bool v) { return v; }

// What every kind has.
template <typename S> struct Common {
    using V = typename S::ValueType;
    char const * kind; S s[N];
    static V val(long v) { return Num<V>::of(v); }
    static long see(S const & x) { return Num<V>::see(x.get()); }
    explicit Common(char const * k) : kind(k), s{S(val(0)), S(val(0)), S(val(0)), S(val(0))} { E("kind") << k; }
    void now() { L r; for (auto const & x : s) r.push_back(see(x)); E("now") << r; }
    void common(long some) {
        unsigned const a = vs::rnd(N), b = vs::rnd(N);
        switch (vs::rnd(7)) {
        case 0: {
            V const v(val(some)); 
            switch (vs::rnd(3)) {
            case 0: s[a] = S(v); break;
            case 1: s[a] = S(val(some)); break;
            default: s[a].get() = v;
            }
            E("set") << a << some;
            break;
        }
        case 1: {
            switch (vs::rnd(3)) {
            case 0: s[a] = s[b]; break;
            case 1: { S x(s[b]); s[a] = std::move(x); break; }
            default: { S const & y = s[b]; S const x(y); s[a] = x; }
            }
            E("copy") << a << b;
            break;
        }
        case 2: {
            std::size_t const h = s[a].hash();
            E("hash") << a << (h == std::hash<V>()(s[a].get())) << (std::hash<S>()(s[a]) == h);
            break;
        }
        case 3: {
            bool ok = true;
            switch (vs::rnd(3)) {
            case 0: { using std::swap; swap(s[a], s[b]); break; }
            case 1: std::iter_swap(s + a, s + b); break;
            default: std::swap(s[a], s[b]);
            }
            E("swap") << a << b << same(ok);
            break;
        }
        default: {
            S const & x = s[a]; S const & y = s[b];
            E("cmp") << a << b << L{x == y, x != y, x < y, x <= y, x > y, x >= y};
        }
        }
    }
    void text() {
        unsigned const a = vs::rnd(N);
        std::ostringstream os; S const & x = s[a];
        bool const back = &(os << x) == &os;
        std::string const t(os.str());
        Sink k; bool const back2 = &(k << x) == &k && k.got.size() == 1u;
        E("text") << a << bytes(t.data(), t.size()) << (back && back2 && (k.got[0] == see(x) || see(x) == NaN));
    }
    void step() {
        unsigned const a = vs::rnd(N);
        S & x = s[a];
        switch (vs::rnd(4)) {
        case 0: { S & r = ++x; E("pre") << a << 1 << (&r == &x) << see(r); break; }
        case 1: { S & r = --x; E("pre") << a << -1 << (&r == &x) << see(r); break; }
        case 2: { S const r = x++; E("post") << a << 1 << see(r); break; }
        default: { S const r = x--; E("post") << a << -1 << see(r); }
        }
    }
};
#define ALWAYS StrongTypeHashable, StrongTypeFullyComparable, StrongTypeSwappable
#define WITH(o, Op) StrongType ## Op ## Assignable, StrongType ## Op ## AssignableWith<long>, StrongType ## Op ## AssignableWith<Other>
#define STEPS StrongTypeIncrementable, StrongTypeDecrementable
#define OUT StrongTypeStreamable, StrongTypeStreamableTo<Sink>
#define OP(sign, eq) \
    if (*op == sign) switch (how) { \
        case 0: same_ = &(x eq s[b]) == &x; break; \
        case 1: same_ = &(x eq lv) == &x; break; \
        case 2: same_ = &(x eq V(rhs)) == &x; break; \
        case 3: { Other const o(static_cast<short>(rhs)); same_ = &(x eq o) == &x; break; } \
        default: same_ = &((x eq s[b]) eq s[b]) == &x; \
    }
template <typename S> struct Integer : Common<S> {
    using Common<S>::s; using V = typename S::ValueType;
    using Common<S>::Common;
    bool wraps = sizeof(V) < sizeof(int);
    void step1() {
        char const * const ops[] = {"+", "-", "*", "/", "%", "^", "&", "|"};
        unsigned const a = vs::rnd(N), b = vs::rnd(N), how = vs::rnd(5);
        char const * op = ops[vs::rnd(8)];
        long rhs = vs::rnd(3) ? long(vs::rnd(9)) - 4 : long(vs::rnd(256)) - 128;
        if (how == 2) rhs = long(V(rhs));
        if (how == 0 || how == 4) rhs = this->see(s[b]);
        if (sizeof(V) == 2 && *op == '*' && (rhs > 1000 || rhs < -1000)) return;
        if (how == 4 && *op == '*' && (sizeof(V) > 1 || a == b)) return;
        if ((*op == '/' || *op == '%') && (rhs == 0 || (how == 4 && a == b))) return;
        if (!wraps) {
            long const v = value(op, this->see(s[a]), rhs);
            long const v2 = how == 4 ? value(op, v, a == b ? v : rhs) : 0;
            if (v > 1000000 || v < -1000000 || v2 > 1000000 || v2 < -1000000) return;
        }
        S & x = s[a]; bool same_ = false; long const lv = rhs;
        OP('+', +=) OP('-', -=) OP('*', *=) OP('/', /=) OP('%', %=) OP('^', ^=) OP('&', &=) OP('|', |=)
        if (how == 4) E("upd2") << op << a << b << 0 << same_;
        else E("upd") << op << a << (how == 0 ? long(b) : -1) << rhs << same_;
    }
    void run() {
        for (int i = 0; i < 12; ++i) {
            switch (vs::rnd(6)) {
            case 0: case 1: step1(); break;
            case 2: this->step(); break;
            case 3: this->text(); break;
            default: {
                long v = long(vs::rnd(256)) - 128;
                if (sizeof(V) == 2) v *= 1 + long(vs::rnd(256));
                if (vs::rnd(4) == 0) v = sizeof(V) > 2 ? 1000 : vs::rnd(2) ? long(std::numeric_limits<V>::max()) : long(std::numeric_limits<V>::min());
                this->common(long(V(v)));
            }
            }
            this->now();
        }
        if (vs::rnd(2)) { std::sort(s, s + N); L r; for (auto const & x : s) r.push_back(this->see(x)); E("sort") << r; this->now(); }
    }
};
#define INTOPS WITH(+=, Add), WITH(-=, Sub), WITH(*=, Mul), WITH(/=, Div), WITH(%=, Mod), WITH(^=, Xor), WITH(&=, And), WITH(|=, Or)
template <typename V> using Int = StrongType<V, Tag, ALWAYS, STEPS, OUT, INTOPS>;
using Fl = StrongType<double, Tag, ALWAYS, STEPS, OUT, WITH(+=, Add), WITH(-=, Sub), WITH(*=, Mul), WITH(/=, Div)>;
using Ptr = StrongType<int const *, Tag, ALWAYS, STEPS, StrongTypeAddAssignableWith<long>, StrongTypeSubAssignableWith<long>, StrongTypeAddAssignableWith<Other>, StrongTypeSubAssignableWith<Other>>;
using Bool = StrongType<bool, Tag, ALWAYS, OUT, WITH(^=, Xor), WITH(&=, And), WITH(|=, Or)>;
struct Floating : Common<Fl> {
    using V = double;
    Floating() : Common<Fl>("f64") {}
    void step1() {
        char const * const ops[] = {"+", "-", "*", "/"};
        unsigned const a = vs::rnd(N), b = vs::rnd(N), how = vs::rnd(5);
        char const * op = ops[vs::rnd(4)];
        long rhs = long(vs::rnd(41)) - 20;
        if (how == 0 || how == 4) rhs = see(s[b]);
        long const was = see(s[a]);
        if (how == 4 && *op != '+' && *op != '-') return;
        if (was != NaN && rhs != NaN) {
            if (*op == '/' && (rhs == 0 || was % rhs || was == 0)) return;
            if (*op == '*' && (rhs <= 0 || was == 0)) return;   // (no negative zeroes)
            long const v = value(op, was, rhs);
            if (v > 100000 || v < -100000) return;
        }
        Fl & x = s[a]; bool same_ = false; long const lv = rhs;
        OP('+', +=) OP('-', -=) OP('*', *=) OP('/', /=)
        if (how == 4) E("upd2") << op << a << b << 0 << same_;
        else E("upd") << op << a << (how == 0 ? long(b) : -1) << rhs << same_;
    }
    void run() {
        bool nan = false;
        for (int i = 0; i < 12; ++i) {
            switch (vs::rnd(6)) {
            case 0: case 1: step1(); break;
            case 2: step(); break;
            case 3: text(); break;
            default: common(vs::rnd(5) ? long(vs::rnd(100000)) - 50000 : NaN);
            }
            now();
        }
        for (auto const & x : s) nan = nan || std::isnan(x.get());
        if (!nan) { std::sort(s, s + N); L r; for (auto const & x : s) r.push_back(see(x)); E("sort") << r; now(); }
    }
};
struct Pointer : Common<Ptr> {
    Pointer() : Common<Ptr>("ptr") {}
    void run() {
        for (auto & x : s) x.get() = g_array + 90;
        for (unsigned i = 0; i < N; ++i) E("set") << i << 90;
        for (int i = 0; i < 12; ++i) {
            switch (vs::rnd(4)) {
            case 0: {
                unsigned const a = vs::rnd(N); Ptr & x = s[a];
                long const rhs = long(vs::rnd(15)) - 7; bool const plus = coin(); bool same_;
                if (see(x) < 10 || see(x) > 180) break;
                if (coin()) same_ = &(plus ? x += rhs : x -= rhs) == &x;
                else { Other const o(static_cast<short>(rhs)); same_ = &(plus ? x += o : x -= o) == &x; }
                E("upd") << (plus ? "+" : "-") << a << -1 << rhs << same_;
                break;
            }
            case 1: step(); break;
            default: common(20 + long(vs::rnd(150)));
            }
            now();
        }
    }
};
struct Boolean : Common<Bool> {
    using V = bool;
    Boolean() : Common<Bool>("b") {}
    void run() {
        char const * const ops[] = {"^", "&", "|"};
        for (int i = 0; i < 12; ++i) {
            switch (vs::rnd(4)) {
            case 0: case 1: {
                unsigned const a = vs::rnd(N), b = vs::rnd(N), how = vs::rnd(5);
                char const * op = ops[vs::rnd(3)];
                long rhs = vs::rnd(2); long const lv = rhs; bool same_ = false; Bool & x = s[a];
                OP('^', ^=) OP('&', &=) OP('|', |=)
                if (how == 4) E("upd2") << op << a << b << 0 << same_;
                else E("upd") << op << a << (how == 0 ? long(b) : -1) << rhs << same_;
                break;
            }
            case 2: text(); break;
            default: common(vs::rnd(2));
            }
            now();
        }
    }
};
void run(int variant) {
    switch (variant) {
    case 0: Integer<Int<signed char>>("i8").run(); break;
    case 1: Integer<Int<unsigned char>>("u8").run(); break;
    case 2: Integer<Int<short>>("i16").run(); break;
    case 3: Integer<Int<unsigned short>>("u16").run(); break;
    case 4: Integer<Int<int>>("i32").run(); break;
    case 5: Floating().run(); break;
    case 6: Pointer().run(); break;
    default: Boolean().run();
    }
}
vs::Reg r1("run", 8, &run);
} // namespace

// Conformance driver for Optional (spec/Optional.tla).
#include "seq.h"
#include <cassert>
#include <memory>
#include <stdexcept>
#include <sharemind/Optional.h>
using namespace seq;
using sharemind::Optional; using sharemind::nullOption; using sharemind::inPlace;
namespace {
int const MOVED = 99;
struct Boom {};
long g_bomb;                       // the n-th operation on elements throws
void maybeThrow() { if (g_bomb && --g_bomb == 0) throw Boom(); }
void const * g_at[64]; int g_live, g_bad;
int where(void const * p) { for (int i = 0; i < g_live; ++i) if (g_at[i] == p) return i; return -1; }
void made(void const * p) { if (where(p) >= 0 || g_live >= 64) ++g_bad; else g_at[g_live++] = p; }
void gone(void const * p) { int const i = where(p); if (i < 0) ++g_bad; else g_at[i] = g_at[--g_live]; }
void used(void const * p) { if (where(p) < 0) ++g_bad; }
struct Src { int v; };             // converts to every element type
// Copyable and movable, everything may throw.
struct Both {
    int v;
    Both(int x) : v((maybeThrow(), x)) { made(this); }
    Both(Src const & s) : v((maybeThrow(), s.v)) { made(this); }
    Both(std::initializer_list<int> l, int x) : v((maybeThrow(), *l.begin() + x)) { made(this); }
    Both(Both const & o) : v((maybeThrow(), used(&o), o.v)) { made(this); }
    Both(Both && o) : v((maybeThrow(), used(&o), o.v)) { o.v = MOVED; made(this); }
    Both & operator=(Both const & o) { maybeThrow(); used(this); used(&o); v = o.v; return *this; }
    Both & operator=(Both && o) { maybeThrow(); used(this); used(&o); int const x = o.v; o.v = MOVED; v = x; return *this; }
    Both & operator=(Src const & o) { maybeThrow(); used(this); v = o.v; return *this; }
    ~Both() { gone(this); }
};
struct MoveOnly {
    int v;
    MoveOnly(int x) : v((maybeThrow(), x)) { made(this); }
    MoveOnly(Src const & s) : v((maybeThrow(), s.v)) { made(this); }
    MoveOnly(MoveOnly && o) : v((maybeThrow(), used(&o), o.v)) { o.v = MOVED; made(this); }
    MoveOnly & operator=(MoveOnly && o) { maybeThrow(); used(this); used(&o); int const x = o.v; o.v = MOVED; v = x; return *this; }
    MoveOnly & operator=(Src const & o) { maybeThrow(); used(this); v = o.v; return *this; }
    ~MoveOnly() { gone(this); }
};
struct CopyOnly {
    int v;
    CopyOnly(int x) : v((maybeThrow(), x)) { made(this); }
    CopyOnly(Src const & s) : v((maybeThrow(), s.v)) { made(this); }
    CopyOnly(CopyOnly const & o) : v((maybeThrow(), used(&o), o.v)) { made(this); }
    CopyOnly & operator=(CopyOnly const & o) { maybeThrow(); used(this); used(&o); v = o.v; return *this; }
    CopyOnly & operator=(Src const & o) { maybeThrow(); used(this); v = o.v; return *this; }
    ~CopyOnly() { gone(this); }
};
// Trivially destructible, not trivially copyable.
struct Triv {
    int v;
    Triv(int x) : v((maybeThrow(), x)) {}
    Triv(Src const & s) : v((maybeThrow(), s.v)) {}
    Triv(Triv const & o) : v((maybeThrow(), o.v)) {}
    Triv & operator=(Triv const & o) { maybeThrow(); v = o.v; return *this; }
    Triv & operator=(Src const & o) { maybeThrow(); v = o.v; return *this; }
};
int val(int x) { return x; } int val(long x) { return static_cast<int>(x); }
template <typename T> int val(T const & x) { return x.v; }
#define CMP(op) bool operator op(Both const & a, Both const & b) { return a.v op b.v; } \
    bool operator op(MoveOnly const & a, MoveOnly const & b) { return a.v op b.v; } \
    bool operator op(CopyOnly const & a, CopyOnly const & b) { return a.v op b.v; } \
    bool operator op(Triv const & a, Triv const & b) { return a.v op b.v; }
CMP(==) CMP(!=) CMP(<) CMP(<=) CMP(>) CMP(>=)
template <typename T> struct Kind { using From = Src; static Src from(int v) { return Src{v}; } };
template <> struct Kind<long> { using From = int; static int from(int v) { return v; } };

template <typename T> struct Prog {
    using O = Optional<T>;
    using F = typename Kind<T>::From;
    std::unique_ptr<O> o[4];
    bool boom;
    template <typename Op> void run(Op && op) {
        g_bomb = vs::rnd(3) ? 0 : 1 + vs::rnd(4);
        boom = false;
        try { op(); } catch (Boom const &) { boom = true; }
        g_bomb = 0;
    }
    L states() {
        L s;
        for (int i = 1; i <= 3; ++i) s.push_back(o[i]->hasValue() ? val(**o[i]) : 0);
        s.push_back(g_live); s.push_back(g_bad);
        return s;
    }
    template <typename X> static auto copyAssign(X & a, X & b, int) -> decltype(X(b), void()) { a = b; }
    template <typename X> static void copyAssign(X &, X &, long) {}
    template <typename X> static auto copyMake(std::unique_ptr<X> & a, X & b, int) -> decltype(T(*b), void())
    { a.reset(new X(b)); }
    template <typename X> static void copyMake(std::unique_ptr<X> &, X &, long) {}
    template <typename X> static auto valueOr(X & b, int d, int) -> decltype(T(*b), int()) { return val(b.valueOr(d)); }
    template <typename X> static int valueOr(X &, int, long) { return -1; }
    template <typename X> static auto valueOrC(X & b, int d, int) -> decltype(T(*b), int())
    { return val(static_cast<X const &>(b).valueOrConstruct(d)); }
    template <typename X> static int valueOrC(X &, int, long) { return -1; }
    static auto emplaceList(Optional<Both> & a, int v, int) { return val(a.emplace({v}, 1)) ; }
    template <typename X> static int emplaceList(X & a, int v, long) { return val(a.emplace(v + 1)); }
    template <typename A, typename B> static long cmp(A const & a, B const & b) {
        return (a == b) + 2 * (a != b) + 4 * (a < b) + 8 * (a <= b) + 16 * (a > b) + 32 * (a >= b); }
    void go(bool copyable, bool moves, bool counted, int ops) {
        g_live = g_bad = 0; g_bomb = 0;
        for (int i = 1; i <= 3; ++i) o[i].reset(new O());
        E("new") << copyable << moves << counted << states();
        for (int n = 0; n < ops; ++n) {
            int const i = 1 + vs::rnd(3), j = 1 + vs::rnd(3), v = 1 + vs::rnd(5);
            switch (vs::rnd(22)) {
            case 0: case 1: { int r = 0; run([&] { r = val(o[i]->emplace(v)); }); E("emp") << i << v << boom << r << states(); break; }
            case 2: { int r = 0; run([&] { r = emplaceList(*o[i], v, 0); }); E("emp") << i << v + 1 << boom << r << states(); break; }
            case 3: case 4: run([&] { *o[i] = v; }); E("set") << i << v << boom << states(); break;
            case 5: *o[i] = nullOption; E("null") << i << states(); break;
            case 6: o[i]->reset(); E("null") << i << states(); break;
            case 7: o[i].reset(new O(nullOption)); E("null") << i << states(); break;
            case 8: case 9: if (!copyable) break; run([&] { copyAssign(*o[i], *o[j], 0); }); E("cpy") << i << j << boom << states(); break;
            case 10: if (i == j) break; run([&] { *o[i] = std::move(*o[j]); }); E("mov") << i << j << boom << states(); break;
            case 11: if (!copyable) break; run([&] { copyMake(o[i], *o[j], 0); }); E("cctor") << i << j << boom << states(); break;
            case 12: if (i == j) break; run([&] { o[i].reset(new O(std::move(*o[j]))); }); E("mctor") << i << j << boom << states(); break;
            case 13: if (i == j) break; run([&] { o[i]->swap(*o[j]); }); E("swap") << i << j << boom << states(); break;
            case 14: if (i == j) break; run([&] { using sharemind::swap; swap(*o[i], *o[j]); }); E("swap") << i << j << boom << states(); break;
            case 15: { // from an optional of another type
                Optional<F> f; bool const full = coin(); if (full) f.emplace(Kind<T>::from(v));
                bool const rv = coin();
                run([&] { if (rv) o[i].reset(new O(std::move(f))); else o[i].reset(new O(f)); });
                E("conv") << i << (full ? v : 0) << boom << states(); break; }
            case 16: {
                Optional<F> f; bool const full = coin(); if (full) f.emplace(Kind<T>::from(v));
                bool const rv = coin();
                run([&] { if (rv) *o[i] = std::move(f); else *o[i] = f; });
                E("cass") << i << (full ? v : 0) << boom << states(); break; }
            case 17: { // in place, or from a value
                int const w = vs::rnd(4);
                run([&] {
                    switch (w) {
                    case 0: o[i].reset(new O(inPlace, v)); break;
                    case 1: o[i].reset(new O(v)); break;
                    case 2: o[i].reset(new O(sharemind::makeOptional<T>(v))); break;
                    case 3: o[i].reset(new O(sharemind::makeOptional(T(v)))); break;
                    }
                });
                E("conv") << i << v << boom << states(); break; }
            case 18: {
                O const & c = *o[i];
                long r = c.hasValue() + 2 * static_cast<bool>(c);
                L vs_;
                if (c.hasValue()) { vs_ = {val(*c), val(*c.operator->()), val(*o[i]->operator->()), val(**o[i])}; }
                E("ask") << i << r << vs_ << valueOr(*o[i], 7, 0) << valueOrC(*o[i], 8, 0) << states(); break; }
            case 19: { // taken out of a temporary
                int r = 0; bool const w = coin();
                run([&] { r = w ? val(std::move(*o[i]).valueOr(7)) : val(std::move(*o[i]).valueOrConstruct(7)); });
                E("take") << i << boom << r << states(); break; }
            case 20: {
                L const r{cmp(*o[i], *o[j]), cmp(*o[i], nullOption), cmp(nullOption, *o[i]), cmp(*o[i], T(v)), cmp(T(v), *o[i])};
                E("cmp") << i << j << v << r << states(); break; }
            case 21: {
                if (vs::rnd(6)) break;
                bool const full = o[i]->hasValue();
                E("access") << i;
                int r = 0; O const & c = *o[i];
                switch (vs::rnd(4)) {
                case 0: r = val(*c); break; case 1: r = val(**o[i]); break;
                case 2: r = val(*c.operator->()); break; case 3: r = val(*std::move(*o[i])); break;
                }
                E("accessed") << r;
                (void) full;
                break; }
            }
        }
        for (int i = 1; i <= 3; ++i) o[i].reset();
        E("del") << g_live << g_bad;
    }
};
void all(int v) {
    switch (v) {
    case 0: { Prog<Both> p; p.go(true, true, true, 30); break; }
    case 1: { Prog<MoveOnly> p; p.go(false, true, true, 30); break; }
    case 2: { Prog<CopyOnly> p; p.go(true, false, true, 30); break; }
    case 3: { Prog<Triv> p; p.go(true, false, false, 30); break; }
    case 4: { Prog<long> p; p.go(true, false, false, 30); break; }
    }
}
vs::Reg r1("all", 5, &all);
}

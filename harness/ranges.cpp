// Conformance driver for ranges, reversed ranges and reference vectors
// (spec/Ranges.tla).
#include "seq.h"
#include <algorithm>
#include <array>
#include <cstring>
#include <deque>
#include <forward_list>
#include <iterator>
#include <list>
#include <memory>
#include <set>
#include <sharemind/Range.h>
#include <sharemind/ReferenceVector.h>
#include <sharemind/ReversedRange.h>
#include <sharemind/ReversionWrapper.h>
using namespace seq;
namespace {
// Ranges whose iterators know where they are.
void in(bool ok) { if (!ok) vs::fail("crash", "access beyond the end of a range"); }
template <typename V> struct Fwd {
    struct It {
        using iterator_category = std::forward_iterator_tag;
        using value_type = V; using difference_type = std::ptrdiff_t;
        using pointer = V const *; using reference = V const &;
        Fwd const * r = nullptr; std::size_t i = 0;
        It() = default;
        It(Fwd const * r_, std::size_t i_) : r(r_), i(i_) {}
        reference operator*() const { in(r && i < r->v.size()); return r->v[i]; }
        It & operator++() { in(r && i < r->v.size()); ++i; return *this; }
        It operator++(int) { It c(*this); ++*this; return c; }
        bool operator==(It const & o) const { return i == o.i; }
        bool operator!=(It const & o) const { return i != o.i; }
    };
    std::vector<V> v;
    It begin() const { return It(this, 0); }
    It end() const { return It(this, v.size()); }
};
template <typename V> struct Rand {   // random access, size() left out
    struct It {
        using iterator_category = std::random_access_iterator_tag;
        using value_type = V; using difference_type = std::ptrdiff_t;
        using pointer = V *; using reference = V &;
        Rand const * r = nullptr; std::ptrdiff_t i = 0;
        It() = default;
        It(Rand const * r_, std::ptrdiff_t i_) : r(r_), i(i_) {}
        V & at(std::ptrdiff_t k) const { in(r && k >= 0 && k < r->size_()); return const_cast<V &>(r->v[static_cast<std::size_t>(k)]); }
        V & operator*() const { return at(i); }
        V & operator[](std::ptrdiff_t n) const { return at(i + n); }
        It & operator+=(std::ptrdiff_t n) { i += n; in(r && i >= 0 && i <= r->size_()); return *this; }
        It & operator-=(std::ptrdiff_t n) { return *this += -n; }
        It & operator++() { return *this += 1; }
        It & operator--() { return *this += -1; }
        It operator++(int) { It c(*this); ++*this; return c; }
        It operator--(int) { It c(*this); --*this; return c; }
        friend It operator+(It a, std::ptrdiff_t n) { return a += n; }
        friend It operator+(std::ptrdiff_t n, It a) { return a += n; }
        friend It operator-(It a, std::ptrdiff_t n) { return a -= n; }
        friend std::ptrdiff_t operator-(It const & a, It const & b) { return a.i - b.i; }
        bool operator==(It const & o) const { return i == o.i; }
        bool operator!=(It const & o) const { return i != o.i; }
        bool operator<(It const & o) const { return i < o.i; }
        bool operator<=(It const & o) const { return i <= o.i; }
        bool operator>(It const & o) const { return i > o.i; }
        bool operator>=(It const & o) const { return i >= o.i; }
    };
    std::vector<V> v;
    std::ptrdiff_t size_() const { return static_cast<std::ptrdiff_t>(v.size()); }
    It begin() const { return It(this, 0); }
    It end() const { return It(this, size_()); }
};
// A stream: elements can be read once, its end is of another type.
template <typename V> struct Stream {
    struct Sent {};
    struct It {
        using iterator_category = std::input_iterator_tag;
        using value_type = V; using difference_type = std::ptrdiff_t;
        using pointer = V const *; using reference = V const &;
        Stream const * r; std::size_t i;
        reference operator*() const { fresh(); in(i < r->v.size()); return r->v[i]; }
        void fresh() const { if (i != r->pos) vs::fail("crash", "used an iterator of a stream that has moved on"); }
        It & operator++() { fresh(); in(i < r->v.size()); i = ++r->pos; return *this; }
        struct Past { V v; V const & operator*() const { return v; } };
        Past operator++(int) { Past p{**this}; ++*this; return p; }
        bool atEnd() const { fresh(); return i == r->v.size(); }
        friend bool operator==(It const & a, It const & b) { return a.i == b.i; }
        friend bool operator!=(It const & a, It const & b) { return a.i != b.i; }
        friend bool operator==(It const & a, Sent) { return a.atEnd(); }
        friend bool operator!=(It const & a, Sent) { return !a.atEnd(); }
        friend bool operator==(Sent, It const & a) { return a.atEnd(); }
        friend bool operator!=(Sent, It const & a) { return !a.atEnd(); }
    };
    std::vector<V> v;
    mutable std::size_t pos = 0;
    It begin() const { return It{this, pos}; }
    Sent end() const { return Sent(); }
};
// The same, of known size of a small type.
template <typename V, typename S> struct SizedStream : Stream<V> {
    S size() const { return static_cast<S>(this->v.size()); }
};

template <typename R, typename V = long> R make(L const & c) { R r; for (long x : c) r.v.push_back(static_cast<V>(x)); return r; }
template <typename C> C cont(L const & c) { return C(c.begin(), c.end()); }
L back(L c) { std::reverse(c.begin(), c.end()); return c; }

// Calls f with a range of the given kind and contents.
constexpr unsigned kinds = 16;
long g_short;   // the kind really used
template <typename F> void with(unsigned kind, L const & c, F const & f) {
    g_short = kind;
    switch (kind) {
    case 1: { auto r = cont<std::vector<int>>(c); return f(r); }
    case 2: { auto const r = cont<std::list<long>>(c); return f(r); }
    case 3: { auto r = cont<std::forward_list<short>>(c); return f(r); }
    case 4: { auto const r = cont<std::deque<unsigned char>>(c); return f(r); }
    case 5:   // arrays
        if (c.size() == 1) { int r[] = {int(c[0])}; return f(r); }
        if (c.size() == 2) { long const r[] = {c[0], c[1]}; return f(r); }
        if (c.size() == 3) { unsigned char r[] = {(unsigned char)c[0], (unsigned char)c[1], (unsigned char)c[2]}; return f(r); }
        return with(10, c, f);
    case 6: { auto r = cont<std::vector<int>>(back(c)); auto w = sharemind::reverseRange(r); return f(w); }
    case 7: { auto const r = cont<std::list<long>>(back(c)); auto const w = sharemind::reverseRange(r); return f(w); }
    case 8:
        if (c.size() == 2) { int r[] = {int(c[1]), int(c[0])}; auto w = sharemind::reverseRange(r); return f(w); }
        if (c.size() == 3) { long const r[] = {c[2], c[1], c[0]}; auto const w = sharemind::reverseRange(r); return f(w); }
        return with(6, c, f);
    case 9: { auto r = make<Fwd<long>>(c); return f(r); }
    case 10: { auto r = make<Rand<int>, int>(c); return f(r); }
    case 11: { auto const r = make<Stream<int>, int>(c); return f(r); }
    case 12: { auto r = make<SizedStream<int, unsigned char>, int>(c); return f(r); }
    case 13: { auto r = make<SizedStream<long, signed char>>(c); return f(r); }
    case 14: {
        char s[4] = {};
        for (std::size_t i = 0; i < c.size() && i < 3; ++i) s[i] = char(c[i]);
        if (c.size() == 0) { char const t[] = {99}; auto r = sharemind::asLiteralStringRange(t); return f(r); }
        if (c.size() == 1) { char const t[] = {s[0], 0}; auto const r = sharemind::asLiteralStringRange(t); return f(r); }
        if (c.size() == 3) { char const t[] = {s[0], s[1], s[2], 0}; auto r = sharemind::asLiteralStringRange(t); return f(r); }
        return with(4, c, f);
    }
    case 15: { auto r = make<SizedStream<int, short>, int>(c); return f(r); }
    default: {   // a view of part of something longer
        std::vector<int> whole(1, 7); for (long x : c) whole.push_back(int(x)); whole.push_back(int(c.empty() ? 0 : c[0]));
        struct View { int const * b; int const * e; int const * begin() const { return b; } int const * end() const { return e; } };
        View v{whole.data() + 1, whole.data() + 1 + c.size()};
        return f(v);
    }
    }
}
L contents(long maxLen) {
    L r; long n = vs::rnd(int(maxLen) + 1);
    for (long i = 0; i < n; ++i) r.push_back(vs::rnd(3));
    return r;
}
L mutation(L c) {
    switch (vs::rnd(7)) {
    case 0: return contents(4);
    case 1: if (!c.empty()) c.pop_back(); return c;
    case 2: c.push_back(vs::rnd(3)); return c;
    case 3: if (!c.empty()) c.back() = vs::rnd(3); return c;
    case 4: if (!c.empty()) c[static_cast<std::size_t>(vs::rnd(int(c.size())))] = vs::rnd(3); return c;
    default: return c;
    }
}
struct Eq2 { template <typename A, typename B> static bool run(A & a, B & b) { return sharemind::rangeEqual(a, b); } };
void equal(int variant) {
    for (int step = 0; step < 12; ++step) {
        L a = variant == 1 && vs::rnd(4) == 0 ? [] { L r; long n = 100 + vs::rnd(coin() ? 28 : 200); for (long i = 0; i < n; ++i) r.push_back(vs::rnd(3)); return r; }() : contents(4);
        L b = mutation(a);
        if (a.size() >= 256 && vs::rnd(4) == 0) b.resize(a.size() - 256);
        if (coin()) std::swap(a, b);
        auto const kind = [](std::size_t n) {
            for (;;) {   // one whose size is of a type large enough
                unsigned const k = 1 + vs::rnd(kinds);
                if ((k != 12 || n < 256) && (k != 13 || n < 128)) return k;
            }
        };
        unsigned const ka = kind(a.size()), kb = kind(b.size());
        bool r = false;
        long ra = 0, rb = 0;
        with(ka, a, [&](auto & x) {
            ra = g_short;
            with(kb, b, [&](auto & y) {
                rb = g_short;
                r = Eq2::run(x, y);
            });
        });
        E("eq") << ra << a << rb << b << r;
    }
}

template <typename R> L walk(R & r) {
    L out;
    using std::begin; using std::end;
    auto e = end(r);
    for (auto it = begin(r); !(it == e); ++it) { out.push_back(long(*it)); if (out.size() > 300) vs::fail("crash", "a walk without end"); }
    return out;
}
template <typename R> L range(R && r) {   // as range-based loops see it
    L out;
    for (auto && x : r) { out.push_back(long(x)); if (out.size() > 300) vs::fail("crash", "a walk without end"); }
    return out;
}
template <typename R> auto sizeOf(R & r, int) -> decltype(long(sharemind::measureRange(r))) { return long(sharemind::measureRange(r)); }
template <typename R> long sizeOf(R &, long) { return -1; }
template <typename C> void reversed(char const * what, L const & c, bool wrap) {
    // Reads, measures and writes through a reversed container.
    C r(c.begin(), c.end());
    C const & cr = r;
    auto w = sharemind::reverseRange(r);
    auto const cw = sharemind::reverseRange(cr);
    E(what) << c << walk(w) << walk(cw) << range(w) << sizeOf(w, 0) << sizeOf(r, 0);
    L next; long k = 10;
    for (auto & x : w) { using V = typename std::remove_reference<decltype(x)>::type; x = V(++k); next.push_back(k); }
    E("rwrite") << next << L(r.begin(), r.end());
    if (wrap) {
        auto u = sharemind::makeReversionWrapper(r);
        L seen = range(u), seen2 = range(sharemind::makeReversionWrapper(cr));
        E("rwrap") << L(r.begin(), r.end()) << seen << seen2;
    }
}
template <std::size_t n> void reversedArray() {
    L c; long arr[n];
    for (auto & x : arr) c.push_back(x = vs::rnd(100));
    auto w = sharemind::reverseRange(arr);
    auto const & carr = arr;
    auto const cw = sharemind::reverseRange(carr);
    E("rarray") << c << walk(w) << walk(cw) << range(w) << sizeOf(w, 0) << sizeOf(arr, 0);
    L next; long k = 10;
    for (auto & x : w) next.push_back(x = ++k);
    E("rwrite") << next << L(std::begin(arr), std::end(arr));
}
void walks(int) {
    for (int step = 0; step < 8; ++step) {
        L c = contents(6);
        switch (vs::rnd(8)) {
        case 0: reversed<std::vector<int>>("rvec", c, true); break;
        case 1: reversed<std::list<long>>("rlist", c, true); break;
        case 2: reversed<std::deque<unsigned char>>("rdeque", c, true); break;
        case 3: reversedArray<1>(); break;
        case 4: reversedArray<3>(); break;
        case 5: {   // sets are in order whatever the order of insertion
            std::multiset<long> s(c.begin(), c.end());
            auto w = sharemind::reverseRange(s);
            L in(s.begin(), s.end()), seen = walk(w), seen2 = range(sharemind::makeReversionWrapper(s));
            E("rwrap") << in << seen << seen2;
            break;
        }
        default: {
            unsigned const k = 1 + vs::rnd(kinds);
            L seen; long size = 0, again = 0;
            with(k, c, [&](auto & x) { size = sizeOf(x, 0); seen = walk(x); again = sizeOf(x, 0); });
            E("walk") << g_short << c << seen << size << again;
        }
        }
    }
}

struct Ref { void * pData; std::size_t size; };
struct CRef { void const * pData; std::size_t size; };
struct Tri { unsigned char b[3]; };
struct Rng {
    L given; int mode;
    template <typename P> void fillBlock(P b, P e) {
        unsigned char * p = reinterpret_cast<unsigned char *>(&*b);
        std::size_t n = static_cast<std::size_t>(e - b) * sizeof(*b);
        for (std::size_t i = 0; i < n; ++i) {
            p[i] = static_cast<unsigned char>(mode == 0 ? 0 : mode == 1 ? 255 : mode == 2 ? 0x55 : vs::rnd(256));
            given.push_back(p[i]);
        }
    }
    void fillBytes(void * b, std::size_t n) { auto * p = static_cast<unsigned char *>(b); if (n) fillBlock(p, p + n); }
};
template <typename T> L bytesOf(T const & v) { return bytes(reinterpret_cast<unsigned char const *>(&v), sizeof(T)); }
template <typename It> L flat(It b, It e) { L r; for (; b != e; ++b) for (long x : bytesOf(*b)) r.push_back(x); return r; }
template <typename V, typename T> void look(V const & v, std::size_t n, L const & mem, T *) {
    L each;
    for (std::size_t i = 0; i < n; ++i) for (long x : bytesOf(v[i])) each.push_back(x);
    E("ref") << sizeof(T) << mem << v.size() << v.empty() << each << flat(v.begin(), v.end());
}
template <typename T> void refs() {
    std::size_t const n = static_cast<std::size_t>(vs::rnd(14)) + (std::is_same<T, bool>::value && coin() ? 100u : 0u);
    std::unique_ptr<unsigned char[]> mem(new (std::nothrow) unsigned char[n + 1]);
    for (std::size_t i = 0; i < n; ++i) mem[i] = static_cast<unsigned char>(std::is_same<T, bool>::value ? vs::rnd(2) : vs::rnd(256));
    auto now = [&] { return bytes(mem.get(), n); };
    std::size_t const count = n / sizeof(T);
    sharemind::RefVec<T> v(Ref{mem.get(), n});
    sharemind::CRefVec<T> cv(CRef{mem.get(), n});
    sharemind::CRefVec<T> cv2(v);
    auto const & kv = v;
    switch (vs::rnd(4)) {
    case 0: look(kv, count, now(), static_cast<T *>(nullptr)); break;
    case 1: look(cv, count, now(), static_cast<T *>(nullptr)); break;
    default: look(cv2, count, now(), static_cast<T *>(nullptr)); break;
    }
    if (count) {   // write through it
        std::size_t const at = static_cast<std::size_t>(vs::rnd(int(count)));
        T x; unsigned char raw[sizeof(T)];
        for (auto & b : raw) b = static_cast<unsigned char>(std::is_same<T, bool>::value ? vs::rnd(2) : vs::rnd(256));
        std::memcpy(&x, raw, sizeof(T));
        L before = now();
        if (coin()) v[at] = x; else *(v.begin() + at) = x;
        E("refput") << sizeof(T) << before << at << bytesOf(x) << now();
    }
    if (v.end() - v.begin() != static_cast<std::ptrdiff_t>(count)) vs::fail("crash", "a reference vector of another length");
    L before = now();
    Rng rng{{}, int(vs::rnd(4))};
    v.randomize(rng);
    E("refrnd") << sizeof(T) << std::is_same<T, bool>::value << before << rng.mode << rng.given << now();
}
void references(int) {
    for (int step = 0; step < 4; ++step)
        switch (vs::rnd(6)) {
        case 0: refs<unsigned char>(); break;
        case 1: refs<short>(); break;
        case 2: refs<std::uint64_t>(); break;
        case 3: refs<Tri>(); break;
        default: refs<bool>(); break;
        }
}
vs::Reg r1("equal", 2, &equal), r2("walks", 1, &walks), r3("references", 1, &references);
} // namespace

// Conformance driver for CircBufferSCSP (spec/RingBuffer.tla).
#include <vsched.h>
#include <algorithm>
#include <cstring>
#include <chrono>
#include <functional>
#include <memory>
#include <new>
#include <string>
#include <thread>
#include <vector>
#include <sharemind/CircBufferSCSP.h>
using namespace sharemind;

namespace {

std::string arr(std::vector<int> const & v) {
    std::string s = "[";
    for (std::size_t i = 0; i < v.size(); ++i)
        s += (i ? "," : "") + std::to_string(v[i]);
    return s + "]";
}
struct Stop {};

template <typename B> struct Side {
    using T = typename B::ValueType;
    B & b;
    int next = 1;                     // next value to write (1..100 cyclic)
    int val() { int const r = next; next = next % 100 + 1; return r; }
    unsigned rnd(unsigned n) { return n ? vs::rnd(n) : 0u; }
    static void call(int t, char const * op, std::string const & arg) {
        vs::evRaw("[\"c\"," + std::to_string(t) + ",\"" + op + "\"," + arg + "]");
    }
    static void ret(int t, std::string const & r)
    { vs::evRaw("[\"r\"," + std::to_string(t) + "," + r + "]"); }
    static std::string n(std::size_t v) {
        return v > 1000000u ? std::string("-77") : std::to_string(v);
    }

    std::size_t write(unsigned size) {
        std::vector<int> l; std::vector<T> d;
        for (unsigned i = 0; i < size; ++i) { l.push_back(val()); d.push_back(static_cast<T>(l.back())); }
        call(1, "w", arr(l));
        std::size_t const r = b.write(d.data(), size);
        ret(1, n(r));
        // values refused come again
        for (std::size_t i = r; i < size; ++i) next = next == 1 ? 100 : next - 1;
        return r;
    }
    std::size_t read(unsigned size) {
        std::unique_ptr<T[]> d(new T[size]);
        call(2, "rd", n(size));
        std::size_t const r = b.read(d.get(), size);
        std::vector<int> l;
        for (std::size_t i = 0; i < r && i < size; ++i) l.push_back(static_cast<int>(d[i]));
        ret(2, arr(l));
        return r;
    }
    std::size_t writeActor(unsigned limit) {
        call(1, "wa", "0");
        auto const actor = [this, limit](T * const p, std::size_t const size) mutable noexcept -> std::size_t {
            std::size_t const k = std::min<std::size_t>(size, limit);
            limit -= static_cast<unsigned>(k);
            std::vector<int> l;
            for (std::size_t i = 0; i < k; ++i) { l.push_back(val()); p[i] = static_cast<T>(l.back()); }
            vs::evRaw("[\"act\",1," + n(size) + "," + arr(l) + "," + n(k) + "]");
            return k;
        };
        std::size_t const r = b.write(actor);
        ret(1, n(r));
        return r;
    }
    std::size_t readActor(unsigned limit) {
        call(2, "ra", "0");
        auto const actor = [limit](T const * const p, std::size_t const size) mutable noexcept -> std::size_t {
            std::size_t const k = std::min<std::size_t>(size, limit);
            limit -= static_cast<unsigned>(k);
            std::vector<int> l;
            for (std::size_t i = 0; i < size; ++i) l.push_back(static_cast<int>(p[i]));
            vs::evRaw("[\"act\",2," + n(size) + "," + arr(l) + "," + n(k) + "]");
            return k;
        };
        std::size_t const r = b.read(actor);
        ret(2, n(r));
        return r;
    }
    std::size_t writeInPlace(unsigned limit, bool ubeRet) {
        call(1, "spu", "0");
        std::size_t ube = 0;
        std::size_t const space = b.spaceAvailable(ube);
        ret(1, "[" + n(space) + "," + n(ube) + "," + n(b.writeOffset()) + "]");
        std::size_t const k = std::min<std::size_t>(ube, limit);
        if (!k) return 0;
        std::vector<int> l;
        for (std::size_t i = 0; i < k; ++i) {
            l.push_back(val());
            b.arrayStart()[b.writeOffset() + i] = static_cast<T>(l.back());
        }
        call(1, ubeRet ? "hwu" : "hw", arr(l));
        ret(1, n(ubeRet ? b.haveWrittenRetUbe(k) : b.haveWritten(k)));
        return k;
    }
    std::size_t readInPlace(unsigned limit, bool ubeRet) {
        call(2, "dau", "0");
        std::size_t ube = 0;
        std::size_t const data = b.dataAvailable(ube);
        std::string s = "[" + n(data) + "," + n(ube) + "," + n(b.readOffset());
        for (std::size_t i = 0; i < ube && i < b.bufferSize(); ++i)
            s += "," + std::to_string(static_cast<int>(b.arrayStart()[b.readOffset() + i]));
        ret(2, s + "]");
        std::size_t const k = std::min<std::size_t>(ube, limit);
        if (!k) return 0;
        call(2, ubeRet ? "hru" : "hr", n(k));
        ret(2, n(ubeRet ? b.haveReadRetUbe(k) : b.haveRead(k)));
        return k;
    }
    std::size_t writerOp(unsigned k, unsigned maxSize) {
        switch (k) {
        case 0: return write(1u + rnd(maxSize));
        case 1: return writeActor(1u + rnd(maxSize));
        case 2: return writeInPlace(1u + rnd(maxSize), false);
        case 3: return writeInPlace(1u + rnd(maxSize), true);
        case 4: call(1, "sp", "0"); ret(1, n(b.spaceAvailable())); return 0;
        case 5: call(1, "full", "0"); ret(1, n(b.full())); return 0;
        default: return write(maxSize);
        }
    }
    std::size_t readerOp(unsigned k, unsigned maxSize) {
        switch (k) {
        case 0: return read(1u + rnd(maxSize));
        case 1: return readActor(1u + rnd(maxSize));
        case 2: return readInPlace(1u + rnd(maxSize), false);
        case 3: return readInPlace(1u + rnd(maxSize), true);
        case 4: call(2, "da", "0"); ret(2, n(b.dataAvailable())); return 0;
        case 5: call(2, "empty", "0"); ret(2, n(b.empty())); return 0;
        default: return read(maxSize);
        }
    }
};

// A large buffer, seen in units of U equal characters.
struct Large {
    static constexpr std::size_t U = 16411u;
    using ValueType = int;
    using B = CircBufferSCSP<char>;
    B b;
    explicit Large(std::size_t cap) : b(cap * U) {}
    static std::size_t units(std::size_t n) { return n % U ? 999999u : n / U; }
    static int get(char const * p) { return std::memcmp(p, p + 1, U - 1u) ? -1 : *p; }
    struct Unit {
        char * p;
        void operator=(int v) const { std::memset(p, v, U); }
        operator int() const { return get(p); }
    };
    struct Array { char * p; Unit operator[](std::size_t i) const { return Unit{p + i * U}; } };
    template <typename F> struct WriteActor {
        F f;
        std::size_t operator()(char * p, std::size_t n) noexcept {
            std::size_t const k = units(n) > 100u ? 1u : units(n);
            int d[100]; std::size_t const r = f(d, k);
            for (std::size_t i = 0; i < r; ++i) Array{p}[i] = d[i];
            return r * U;
        }
    };
    template <typename F> struct ReadActor {
        F f;
        std::size_t operator()(char const * p, std::size_t n) noexcept {
            std::size_t const k = units(n) > 100u ? 1u : units(n);
            int d[100]; for (std::size_t i = 0; i < k; ++i) d[i] = get(p + i * U);
            return f(d, k) * U;
        }
    };
    std::size_t waitDataAvailable() const { return units(b.waitDataAvailable()); }
    std::size_t waitSpaceAvailable() const { return units(b.waitSpaceAvailable()); }
    std::size_t bufferSize() const { return units(b.bufferSize()); }
    std::size_t spaceAvailable() const { return units(b.spaceAvailable()); }
    std::size_t dataAvailable() const { return units(b.dataAvailable()); }
    std::size_t spaceAvailable(std::size_t & u) const { std::size_t const r = b.spaceAvailable(u); u = units(u); return units(r); }
    std::size_t dataAvailable(std::size_t & u) const { std::size_t const r = b.dataAvailable(u); u = units(u); return units(r); }
    std::size_t writeOffset() const { return units(b.writeOffset()); }
    std::size_t readOffset() const { return units(b.readOffset()); }
    std::size_t haveWritten(std::size_t n) { return units(b.haveWritten(n * U)); }
    std::size_t haveWrittenRetUbe(std::size_t n) { return units(b.haveWrittenRetUbe(n * U)); }
    std::size_t haveRead(std::size_t n) { return units(b.haveRead(n * U)); }
    std::size_t haveReadRetUbe(std::size_t n) { return units(b.haveReadRetUbe(n * U)); }
    bool full() const { return b.full(); }
    bool empty() const { return b.empty(); }
    Array arrayStart() const { return Array{b.arrayStart()}; }
    std::size_t write(int const * d, std::size_t n) {
        std::unique_ptr<char[]> c(new char[n * U]);
        for (std::size_t i = 0; i < n; ++i) Array{c.get()}[i] = d[i];
        return units(b.write(c.get(), n * U));
    }
    std::size_t read(int * d, std::size_t n) {
        std::unique_ptr<char[]> c(new char[n * U]);
        std::size_t const r = units(b.read(c.get(), n * U));
        for (std::size_t i = 0; i < r && i < n; ++i) d[i] = get(c.get() + i * U);
        return r;
    }
    template <typename F> std::size_t write(F f) { return units(b.write(WriteActor<F>{f})); }
    template <typename F> std::size_t read(F f) { return units(b.read(ReadActor<F>{f})); }
};

// Waits for what is there already.
template <typename B> auto waits(B & b, int) -> decltype(b.waitDataAvailable(), void()) {
    if (b.dataAvailable()) { Side<B>::call(2, "wd", "0"); Side<B>::ret(2, Side<B>::n(b.waitDataAvailable())); }
    if (b.spaceAvailable()) { Side<B>::call(1, "ws", "0"); Side<B>::ret(1, Side<B>::n(b.waitSpaceAvailable())); }
}
template <typename B> void waits(B &, long) {}
template <typename B> void seqT() {
    unsigned const cap = 1u + vs::rnd(7);
    B b(cap);
    vs::ev({"new", cap});
    if (b.bufferSize() != cap) vs::ev({"badsize"});
    Side<B> s{b};
    for (int i = 0; i < 60; ++i) {
        if (vs::rnd(2)) s.writerOp(vs::rnd(7), cap + vs::rnd(2));
        else s.readerOp(vs::rnd(7), cap + vs::rnd(2));
        if (vs::rnd(8) == 0) waits(b, 0);
    }
}
void seq(int v) {
    if (v == 0) seqT<CircBufferSCSP<int>>();
    else if (v == 1) seqT<CircBufferSCSP<char>>();
    else if (v == 2) seqT<CircBufferSCSP<long, CircBufferNoLocking>>();
    else if (v == 3) seqT<CircBufferSCSP<signed char, CircBufferNoLocking>>();
    else seqT<Large>();
}

struct Slow: std::mutex {};   // another mutex type: condition_variable_any

// Free-running producer and consumer.
template <typename B> void concT(unsigned cap, int ops, unsigned maxSize, bool skew) {
    B b(cap);
    vs::ev({"new", cap});
    {
        Side<B> s{b};
        if (skew) {      // start in the middle of the array
            unsigned const k = 1u + vs::rnd(cap);
            s.write(k); s.read(k);
        }
    }
    Side<B> w{b}, r{b};
    w.next = 50;
    std::thread a([&w, ops, maxSize] { for (int i = 0; i < ops; ++i) w.writerOp(vs::rnd(5), maxSize); });
    std::thread c([&r, ops, maxSize] { for (int i = 0; i < ops; ++i) r.readerOp(vs::rnd(5), maxSize); });
    a.join(); c.join();
    while (r.read(2u)) {}
}
void conc(int v) {
    unsigned const cap = 1u + static_cast<unsigned>(v) % 3u;
    if (v < 3) concT<CircBufferSCSP<int>>(cap, 3, cap + 1u, v & 1);
    else concT<CircBufferSCSP<char, CircBufferScspLocking<Slow>>>(cap, 2, cap, true);
}

// Blocking transfer of a fixed amount: must always come to its end.
template <typename B> void blockT(unsigned cap, int total, bool deaf) {
    B b(cap);
    vs::ev({"new", cap});
    Side<B> w{b}, r{b};
    std::thread a([&w, &b, total, cap] {
        int left = total;
        while (left > 0) {
            Side<B>::call(1, "ws", "0");
            Side<B>::ret(1, Side<B>::n(b.waitSpaceAvailable()));
            unsigned const m = std::min<unsigned>(static_cast<unsigned>(left), cap);
            unsigned const k = 1u + w.rnd(m);
            left -= static_cast<int>(vs::rnd(2) ? w.write(k) : vs::rnd(2) ? w.writeActor(k) : w.writeInPlace(k, false));
        }
    });
    std::thread c([&r, &b, total, cap, deaf] {
        int left = total + (deaf ? 1 : 0);
        while (left > 0) {
            Side<B>::call(2, "wd", "0");
            Side<B>::ret(2, Side<B>::n(b.waitDataAvailable()));
            unsigned const k = 1u + r.rnd(cap);
            left -= static_cast<int>(vs::rnd(2) ? r.read(k) : vs::rnd(2) ? r.readActor(k) : r.readInPlace(k, false));
        }
    });
    a.join(); c.join();
}
void block(int v) {
    switch (v) {
    case 0: return blockT<CircBufferSCSP<int>>(1, 3, false);
    case 1: return blockT<CircBufferSCSP<int>>(2, 4, false);
    case 2: return blockT<CircBufferSCSP<char>>(3, 4, false);
    case 3: return blockT<CircBufferSCSP<int>>(1, 2, true);
    default: return blockT<CircBufferSCSP<int, CircBufferScspLocking<Slow>>>(2, 3, false);
    }
}

// One operation of one side, any part of what is possible, has to be enough
// for the other side, whatever happens (or nothing) afterwards.
template <typename B> void onceT(unsigned cap, bool space) {
    B b(cap);
    vs::ev({"new", cap});
    Side<B> w{b}, r{b};
    if (vs::rnd(2)) { unsigned const k = 1u + vs::rnd(cap); w.write(k); r.read(k); }
    if (space) w.write(cap); else if (vs::rnd(3) == 0) w.write(1u + vs::rnd(cap));
    std::thread a([&] {
        if (!space) { w.writerOp(vs::rnd(5), cap); return; }
        for (int i = 1 + static_cast<int>(vs::rnd(2)); i > 0; --i) {
            Side<B>::call(1, "ws", "0");
            Side<B>::ret(1, Side<B>::n(b.waitSpaceAvailable()));
        }
    });
    std::thread c([&] {
        if (space) { r.readerOp(vs::rnd(5), cap); return; }
        for (int i = 1 + static_cast<int>(vs::rnd(2)); i > 0; --i) {
            Side<B>::call(2, "wd", "0");
            Side<B>::ret(2, Side<B>::n(b.waitDataAvailable()));
        }
    });
    a.join(); c.join();
}
void once(int v) {
    unsigned const cap = 1u + static_cast<unsigned>(v % 4);
    if (v < 4) onceT<CircBufferSCSP<int>>(cap, true);
    else if (v < 8) onceT<CircBufferSCSP<char>>(cap, false);
    else onceT<CircBufferSCSP<int, CircBufferScspLocking<Slow>>>(3u, v % 2);
}

// Waits with a periodic stop test.
void at() { if (vs::strictTime()) vs::ev({"t", vs::nowMs()}); }
void timed(int v) {
    using B = CircBufferSCSP<int>;
    unsigned const cap = v % 2 ? 2u : 1u;
    B b(cap);
    vs::ev({"new", cap});
    Side<B> w{b}, r{b};
    if (v >= 2) { w.write(cap); }
    std::thread a([&w, &b, v] {
        vs::sleepMs(vs::rnd(25)); at();
        if (v >= 2) {
            Side<B>::call(1, "wst", "0");
            int n = 0; int const lim = 1 + static_cast<int>(vs::rnd(3));
            try {
                at(); std::size_t const x = b.waitSpaceAvailable([&n, lim] {
                    at(); vs::ev({"stop", 1, ++n >= lim}); if (n >= lim) throw Stop(); },
                    std::chrono::milliseconds(10));
                at();
                Side<B>::ret(1, Side<B>::n(x));
            } catch (Stop const &) { Side<B>::ret(1, "-1"); }
        }
        w.write(1u);
    });
    std::thread c([&r, &b, v] {
        if (v >= 2) { vs::sleepMs(vs::rnd(35)); at(); r.read(1u); }
        else {
            Side<B>::call(2, "wdt", "0");
            int n = 0; int const lim = 1 + static_cast<int>(vs::rnd(3));
            try {
                at(); std::size_t const x = b.waitDataAvailable([&n, lim] {
                    at(); vs::ev({"stop", 2, ++n >= lim}); if (n >= lim) throw Stop(); },
                    std::chrono::milliseconds(10));
                at();
                Side<B>::ret(2, Side<B>::n(x));
            } catch (Stop const &) { Side<B>::ret(2, "-1"); }
        }
        r.read(1u);
    });
    a.join(); c.join();
}

vs::Reg r1("seq", 5, &seq), r2("conc", 5, &conc), r3("block", 5, &block), r4("timed", 4, &timed), r5("once", 10, &once);

} // namespace

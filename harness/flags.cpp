// Conformance driver for Flags and AtomicFlags (spec/FlagSet.tla).
#include <vsched.h>
#include <cstdint>
#include <memory>
#include <string>
#include <thread>
#include <vector>
#include <sharemind/AtomicFlags.h>
#include <sharemind/Flags.h>
using namespace sharemind;
namespace {
enum class E: std::uint8_t { a = 1 };
using F = Flags<E>;
using A = AtomicFlags<E>;
using U = std::uint8_t;
std::string bits(unsigned v) {
    std::string s = "[";
    for (int i = 0; i < 8; ++i)
        if (v >> i & 1u) { if (s.size() > 1) s += ","; s += std::to_string(i); }
    return s + "]";
}
void call(int t, char const * op, U a, U e = 0) {
    vs::evRaw("[\"c\"," + std::to_string(t) + ",\"" + op + "\"," + bits(a) + "," + bits(e) + "]");
}
void ret(int t, bool b, int hasSet = 0, U s = 0) {
    vs::evRaw("[\"r\"," + std::to_string(t) + "," + (b ? "1" : "0") + "," + std::to_string(hasSet) + "," + bits(s) + "]");
}
void atomicOp(A & f, int t, unsigned k) {
    U const a = static_cast<U>(vs::rnd(256)), e = static_cast<U>(vs::rnd(4) ? vs::rnd(256) : U(f.load()));
    U const all = 255;
    switch (k) {
    case 0: { call(t, "set", a); U const r = f.fetchSetFlags(a); ret(t, 0, 1, r); break; }
    case 1: { call(t, "unset", a); U const r = f.fetchUnsetFlags(a); ret(t, 0, 1, r); break; }
    case 2: { call(t, "toggle", a); U const r = f.fetchToggleFlags(a); ret(t, 0, 1, r); break; }
    case 3: { call(t, "get", 0); U const r = f.load(); ret(t, 0, 1, r); break; }
    case 4: { call(t, "store", a); U const r = f.exchange(a); ret(t, 0, 1, r); break; }
    case 5: { call(t, "store", a); f.store(a); ret(t, 0); break; }
    case 6: { call(t, "store", all); U const r = f.fetchSetFlags(); ret(t, 0, 1, r); break; }
    case 7: { call(t, "store", 0); U const r = f.fetchUnsetFlags(); ret(t, 0, 1, r); break; }
    case 8: { call(t, "store", all); f.setFlags(); ret(t, 0); break; }
    case 9: { call(t, "store", 0); f.unsetFlags(); ret(t, 0); break; }
    case 10: { call(t, "any", a); bool const r = f.hasAnyOf(a); ret(t, r); break; }
    case 11: { call(t, "all", a); bool const r = f.hasAllOf(a); ret(t, r); break; }
    case 12: { call(t, "none", a); bool const r = f.hasNoneOf(a); ret(t, r); break; }
    case 13: { call(t, "cas", a, e); U x = e; bool const r = f.compareExchangeStrong(x, a); ret(t, r, 1, x); break; }
    case 14: { call(t, "casw", a, e); U x = e; bool const r = f.compareExchangeWeak(x, a); ret(t, r, 1, x); break; }
    case 15: { call(t, "cas", a, e); F x(e); bool const r = f.compareExchangeStrong(x, a, std::memory_order_acq_rel, std::memory_order_acquire); ret(t, r, 1, x); break; }
    default: { call(t, "casw", a, e); F x(e); bool const r = f.compareExchangeWeak(x, a, std::memory_order_acq_rel, std::memory_order_acquire); ret(t, r, 1, x); break; }
    }
}
void plain(int) {
    F f(0);
    for (int i = 0; i < 30; ++i) {
        U const a = static_cast<U>(vs::rnd(256));
        unsigned const k = vs::rnd(20);
        switch (k) {
        case 0: call(1, "set", a); f.setFlags(a); break;
        case 1: call(1, "set", a); f |= a; break;
        case 2: call(1, "unset", a); f.unsetFlags(a); break;
        case 3: call(1, "toggle", a); f.toggleFlags(a); break;
        case 4: call(1, "toggle", a); f ^= a; break;
        case 5: call(1, "and", a); f &= a; break;
        case 6: call(1, "store", a); f = a; break;
        case 7: call(1, "store", a); f.store(a); break;
        case 8: { call(1, "store", a); U const r = f.exchange(a); ret(1, 0, 1, r); continue; }
        case 9: call(1, "store", 255); f.setFlags(); break;
        case 10: call(1, "store", 0); f.unsetFlags(); break;
        case 11: call(1, "toggle", 255); f.toggleFlags(); break;
        case 12: { call(1, "any", a); bool const r = f.hasAnyOf(a); ret(1, r); continue; }
        case 13: { call(1, "all", a); bool const r = f.hasAllOf(a); ret(1, r); continue; }
        case 14: { call(1, "none", a); bool const r = f.hasNoneOf(a); ret(1, r); continue; }
        case 15: { call(1, "calc&", a); U const r = f & a; ret(1, 0, 1, r); continue; }
        case 16: { call(1, "calc|", a); U const r = f | a; ret(1, 0, 1, r); continue; }
        case 17: { call(1, "calc^", a); U const r = f ^ a; ret(1, 0, 1, r); continue; }
        default: { call(1, "get", 0); F g(f); U const r = g; ret(1, 0, 1, r); continue; }
        }
        ret(1, 0);
    }
}
void seq(int) {
    A f(0);
    for (int i = 0; i < 30; ++i) atomicOp(f, 1, vs::rnd(17));
}
void conc(int v) {
    auto f = std::make_shared<A>(U(0));
    std::vector<std::thread> ts; ts.reserve(4);
    for (int t = 1; t <= 2 + v; ++t)
        ts.emplace_back([f, t, v] {
            for (int i = 0; i < 3 - v; ++i) atomicOp(*f, t, vs::rnd(4) ? vs::rnd(3) : vs::rnd(17));
        });
    for (auto & t : ts) t.join();
    atomicOp(*f, 0, 3);
}
vs::Reg r0("plain", 1, &plain), r1("seq", 1, &seq), r2("conc", 2, &conc);
}

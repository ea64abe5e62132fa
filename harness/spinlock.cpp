// Conformance driver for TicketSpinLock (spec/SpinLock.tla).
#include <vsched.h>
#include <cstdint>
#include <cstring>
#include <memory>
#include <mutex>
#include <thread>
#include <vector>
#include <sharemind/TicketSpinLock.h>
using namespace sharemind;
namespace {
struct Shared { TicketSpinLock lock; long data = 0; };
void lk(Shared & s, int t) { vs::ev({"c", t, "lock"}); s.lock.lock(); vs::ev({"r", t}); }
void un(Shared & s, int t) { vs::ev({"c", t, "unlock"}); s.lock.unlock(); vs::ev({"r", t}); }
void use(Shared & s, int t) { long const d = s.data; vs::point(); vs::ev({"data", t, d}); s.data = d + 1; }

// Looks for the counters of the lock: what advances by one whenever it is locked
// and unlocked, and is accessed with the width of what advances.  Puts all of them
// where they will soon wrap around (back < 3) or carry into the upper half.
struct Counters {
    unsigned char width[sizeof(TicketSpinLock)];
    unsigned char was[4][sizeof(TicketSpinLock)];
};
__attribute__((no_sanitize("thread"), noinline))
void peek(TicketSpinLock const & l, unsigned char * to) {
    auto const p = reinterpret_cast<unsigned char const volatile *>(&l);
    for (std::size_t i = 0u; i < sizeof l; ++i) to[i] = p[i];
}
template <typename U> __attribute__((no_sanitize("thread"), noinline))
bool counts(Counters const & c, std::size_t at) {
    if (at % sizeof(U) || c.width[at] != sizeof(U)) return false;
    U w[4];
    for (int i = 0; i < 4; ++i) std::memcpy(&w[i], c.was[i] + at, sizeof(U));
    for (int i = 1; i < 4; ++i) if (static_cast<U>(w[i] - w[i - 1]) != 1u) return false;
    return true;
}
template <typename U> __attribute__((no_sanitize("thread"), noinline))
void put(TicketSpinLock & l, Counters const & c, std::size_t at, std::uint64_t end) {
    U last, v;
    std::memcpy(&last, c.was[3] + at, sizeof last);
    v = static_cast<U>(last + end);
    std::memcpy(reinterpret_cast<char *>(&l) + at, &v, sizeof v);
}
void nearEnd(TicketSpinLock & l, std::uint64_t left, bool half) {
    static Counters c;
    std::memset(&c, 0, sizeof c);
    vs::watch(&l, sizeof l, c.width);
    for (int i = 0; i < 4; ++i) {
        if (i) { l.lock(); l.unlock(); }
        peek(l, c.was[i]);
    }
    vs::watch(nullptr, 0u, nullptr);
    std::uint64_t const end = (half ? std::uint64_t(1u) << 32 : std::uint64_t(0u)) - left - 3u;
    for (std::size_t i = 0u; i < sizeof l; ++i) {
        if (counts<std::uint64_t>(c, i)) put<std::uint64_t>(l, c, i, end);
        else if (counts<std::uint32_t>(c, i)) put<std::uint32_t>(l, c, i, end);
        else if (counts<std::uint16_t>(c, i)) put<std::uint16_t>(l, c, i, end);
    }
}
void many(TicketSpinLock & l, int n) { for (int i = 0; i < n; ++i) { l.lock(); l.unlock(); } }

void threads(std::shared_ptr<Shared> const s, int n, int rounds) {
    std::vector<std::thread> ts; ts.reserve(4);
    for (int t = 1; t <= n; ++t)
        ts.emplace_back([s, t, rounds] {
            for (int i = 0; i < rounds; ++i) { lk(*s, t); use(*s, t); un(*s, t); }
        });
    for (auto & t : ts) t.join();
    { std::lock_guard<TicketSpinLock> g(s->lock); }
    if (s->data != rounds * n) vs::ev({"lost", s->data});
}
void conc(int v) { threads(std::make_shared<Shared>(), 2 + v, v == 0 ? 3 : 2); }
// The same after many locks, a number the tickets or a half of them wrap around at:
void wrap(int v) {
    auto s = std::make_shared<Shared>();
    nearEnd(s->lock, 1u + static_cast<unsigned>(v % 2), v >= 2);
    threads(s, 2 + v % 2, 2);
}
void lots(int v) {
    auto s = std::make_shared<Shared>();
    many(s->lock, v ? 65534 : 254);
    threads(s, 2, 2);
}
// Threads arrive one after the other while the lock is held.
void fifo(int v) {
    auto s = std::make_shared<Shared>();
    std::vector<std::thread> ts; ts.reserve(4);
    if (v >= 4) nearEnd(s->lock, 1u + static_cast<unsigned>(vs::rnd(2)), vs::rnd(4) == 0);
    v %= 4;
    lk(*s, 5);
    int const n = 2 + v % 2;
    for (int t = 1; t <= n; ++t) {
        ts.emplace_back([s, t] { lk(*s, t); use(*s, t); un(*s, t); });
        vs::sleepMs(5);
        vs::ev({"arr", t});
    }
    use(*s, 5);
    un(*s, 5);
    if (v >= 2) { lk(*s, 5); use(*s, 5); un(*s, 5); }
    for (auto & t : ts) t.join();
}
vs::Reg r1("conc", 3, &conc), r2("fifo", 8, &fifo), r3("wrap", 4, &wrap), r4("lots", 2, &lots);
}

// Conformance driver for Latch, SimpleWait, Stoppable, NoStartThread (spec/Sync.tla).
#include <vsched.h>
#include <chrono>
#include <memory>
#include <thread>
#include <vector>
#include <sharemind/Latch.h>
#include <sharemind/NoStartThread.h>
#include <sharemind/SimpleWait.h>
#include <sharemind/Stoppable.h>
using namespace sharemind;

namespace {

void call(int t, char const * op, int i) { vs::ev({"c", t, op, i}); }
void ret(int t, long r) { vs::ev({"r", t, r}); }

// A latch of n, used by up to four threads in all possible ways; with
// `short` one countdown is missing and the waiters must sleep for ever.
template <typename C> void latchT(int n, int waiters, bool missing) {
    auto latch = std::make_shared<Latch<C>>(static_cast<C>(n));
    vs::ev({"latch", 1, n});
    unsigned const plan = vs::rnd(16);
    std::vector<std::thread> ts;
    ts.reserve(8);
    int t = 1;
    for (int i = 0; i < n - (missing ? 1 : 0); ++i, ++t)
        ts.emplace_back([latch, t, plan] {
            if (plan >> t & 1) { call(t, "cd", 1); bool const r = latch->countDown(); ret(t, r); }
            else { call(t, "cdw", 1); latch->countDownAndWait(); ret(t, 0); }
        });
    for (int i = 0; i < waiters; ++i, ++t)
        ts.emplace_back([latch, t] {
            call(t, "ir", 1); bool const r = latch->isReady(); ret(t, r);
            call(t, "w", 1); latch->wait(); ret(t, 0);
            call(t, "ir", 1); bool const r2 = latch->isReady(); ret(t, r2);
        });
    for (auto & x : ts) x.join();
}
void latch(int v) {
    switch (v) {
    case 0: return latchT<unsigned>(2, 1, false);
    case 1: return latchT<unsigned>(3, 1, false);
    case 2: return latchT<unsigned char>(2, 2, false);
    case 3: return latchT<unsigned>(2, 1, true);
    case 4: return latchT<unsigned>(1, 2, false);
    default: return latchT<unsigned short>(3, 0, true);
    }
}

struct Stopped {};
// A wait flag: waiters (plain or with stop test), one or two notifications.
void flag(int v) {
    auto f = std::make_shared<SimpleWait>();
    auto s = std::make_shared<Stoppable>();
    vs::ev({"flag", 1}); vs::ev({"stopf", 1});
    std::vector<std::thread> ts;
    ts.reserve(8);
    for (int t = 1; t <= 2; ++t)
        ts.emplace_back([f, s, t, v] {
            bool const timed = v == 1 ? t == 1 : v >= 2;
            if (!timed) { call(t, "sw", 1); f->wait(); ret(t, 0); return; }
            call(t, "swt", 1);
            int n = 0;
            try {
                auto const test = [&n, &s, t] {
                    ++n;
                    bool const stop = s->stopRequested() || n > 3;
                    vs::ev({"stop", t, stop});
                    if (stop) throw Stopped();
                };
                if (v == 2) f->waitOrStop(test); else f->waitOrStop(test, LoopDuration<>(7u));
                ret(t, 0);
            } catch (Stopped const &) { ret(t, -1); }
        });
    if (v != 4)
        ts.emplace_back([f, v] {
            if (v >= 1) vs::sleepMs(vs::rnd(12));
            call(3, "nr", 1); f->notifyReady(); ret(3, 0);
            if (v == 0) { call(3, "sw", 1); f->wait(); ret(3, 0); }
        });
    if (v == 3)
        ts.emplace_back([s] {
            vs::sleepMs(vs::rnd(12));
            call(4, "st", 1); s->stop(); ret(4, 0);
            call(4, "sq", 1); bool const r = s->stopRequested(); ret(4, r);
        });
    for (auto & x : ts) x.join();
}

struct Ex {};
void stopflag(int) {
    auto s = std::make_shared<Stoppable>();
    vs::ev({"stopf", 1});
    std::vector<std::thread> ts;
    ts.reserve(4);
    for (int t = 1; t <= 3; ++t)
        ts.emplace_back([s, t] {
            for (int i = 0; i < 2; ++i)
                switch (vs::rnd(5)) {
                case 0: call(t, "st", 1); s->stop(); ret(t, 0); break;
                case 1: call(t, "rs", 1); s->reset(); ret(t, 0); break;
                case 2: { call(t, "sq", 1); bool const r = s->stopRequested(); ret(t, r); break; }
                case 3: {
                    call(t, "sq", 1);
                    bool r = false;
                    try { s->throwIfStopRequested<Ex>(); } catch (Ex const &) { r = true; }
                    ret(t, r);
                    break;
                }
                default: {
                    call(t, "sq", 1);
                    bool r = false;
                    Stoppable::TestActor<Ex> a(*s);
                    try { a(); } catch (Ex const &) { r = true; }
                    ret(t, r);
                }}
        });
    for (auto & x : ts) x.join();
}

// Delayed threads, every life of one.
void delayed(int v) {
    int runs = 0;
    auto fn = [&runs]() noexcept {
        vs::ev({"fb", 1}); ++runs; vs::point(); vs::ev({"fe", 1});
    };
    bool const withFn = v % 4 != 3;
    std::unique_ptr<NoStartThread> t;
    if (v % 4 == 0) t.reset(new NoStartThread(fn));
    else t.reset(new NoStartThread());
    vs::ev({"thread", 1, v % 4 == 0});
    if (v % 4 != 0 && withFn) { t->setFunction(fn); vs::ev({"setfn", 1}); }
    bool const start = vs::rnd(4) != 0;
    if (start) { call(0, "start", 1); t->start(); ret(0, 0); }
    switch (vs::rnd(4)) {
    case 0: call(0, "stop", 1); t->stop(); ret(0, 0); break;
    case 1: if (start) { call(0, "join", 1); t->join(); ret(0, 0); }
            if (start && t->joinable()) vs::ev({"still joinable"});
            break;
    case 2: call(0, "stop", 1); t->stop(); ret(0, 0);
            call(0, "stop", 1); t->stop(); ret(0, 0); break;
    default: break;
    }
    call(0, "del", 1); t.reset(); ret(0, 0);
}

vs::Reg r1("latch", 6, &latch), r2("flag", 5, &flag), r3("stopflag", 1, &stopflag),
        r4("delayed", 4, &delayed);

} // namespace

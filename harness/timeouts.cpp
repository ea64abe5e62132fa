// Conformance driver for TimeoutsThread.h (spec/Timeouts.tla).
#include <vsched.h>
#include <chrono>
#include <condition_variable>
#include <memory>
#include <mutex>
#include <thread>
#include <vector>
#include <sharemind/TimeoutsThread.h>
using namespace sharemind;
namespace {
using TT = TimeoutsThread;
using Ms = std::chrono::milliseconds;
struct Alive { // its destruction is that of the task
    int id; std::unique_ptr<int> mem;
    explicit Alive(int i) : id(i), mem(new int(i)) {}
    Alive(Alive && o) noexcept : id(o.id), mem(std::move(o.mem)) { o.id = 0; }
    ~Alive() { if (id) vs::ev({"dt", id}); }
};
// Deadlines standing for the extreme points in time:
constexpr long Epoch = -1000000, Min = -1000001, Max = 1000000;
struct World {
    TT::Clock::time_point base{TT::Clock::now() - Ms(vs::nowMs())};
    TT * tt = new TT;
    std::unique_ptr<TT::Task> kept[10];
    int left = 0; std::mutex m; std::condition_variable cv;
    void done() { std::lock_guard<std::mutex> g(m); --left; cv.notify_all(); }
    void waitAll() {
        std::unique_lock<std::mutex> l(m);
        while (left > 0) cv.wait(l);
    }
    void body(int id, int work) {
        vs::ev({"run", id, vs::nowMs()});
        if (work) vs::sleepMs(work); else vs::point();
    }
    // again: how often the task sets itself once more
    std::unique_ptr<TT::Task> make(int id, int work, bool reusable, int again, int gap) {
        vs::ev({"make", id});
        ++left;
        if (!reusable) {
            struct F {
                World * w; Alive a; int work;
                void operator()() noexcept {
                    w->body(a.id, work); vs::ev({"ran", a.id, vs::nowMs()}); w->done(); }
            };
            return TT::createOneShotTask(F{this, Alive(id), work});
        }
        struct F {
            World * w; Alive a; int work, again, gap;
            void operator()(std::unique_ptr<TT::Task> && task) noexcept {
                World & ww = *w;
                int const id = a.id;
                ww.body(id, work);
                if (again-- > 0) {
                    ww.add(9, id, vs::nowMs() + gap, std::move(task));
                    // it may be running again any time after that, but not before we are done
                    vs::ev({"ran", id, vs::nowMs()});
                } else if (id & 1) {
                    ww.kept[id] = std::move(task);
                    vs::ev({"keep", id});
                    vs::ev({"ran", id, vs::nowMs()}); ww.done();
                } else { vs::ev({"ran", id, vs::nowMs()}); ww.done(); }
            }
        };
        return TT::createReusableTask(F{this, Alive(id), work, again, gap});
    }
    void add(int t, int id, long deadline, std::unique_ptr<TT::Task> task, bool rel = false) {
        vs::ev({"c", t, "add", id, deadline, vs::nowMs()});
        if (rel) tt->addTimeoutTask(Ms(deadline - vs::nowMs()), std::move(task));
        else tt->addTask(deadline <= Min ? TT::Clock::time_point::min()
                         : deadline <= Epoch ? TT::Clock::time_point()
                         : deadline >= Max ? TT::Clock::time_point::max()
                         : base + Ms(deadline), std::move(task));
        vs::ev({"r", t, 0});
    }
    void stop(int t) { vs::ev({"c", t, "stop", 0, 0, vs::nowMs()}); tt->stop(); vs::ev({"r", t, 0}); }
    void del(int t) { vs::ev({"c", t, "del", 0, 0, vs::nowMs()}); delete tt; vs::ev({"r", t, 0}); }
};
// Random additions over time by one thread; exact times.
void strict(int v) {
    vs::ev({"strict"});
    World w;
    int const n = 5;
    for (int id = 1; id <= n; ++id) {
        long const d = vs::nowMs() + vs::rnd(12) - (vs::rnd(4) == 0 ? 3 : 0);
        auto task = w.make(id, vs::rnd(4), vs::rnd(2), vs::rnd(3), 1 + vs::rnd(5));
        w.add(0, id, d, std::move(task), v == 1);
        if (vs::rnd(2)) vs::sleepMs(vs::rnd(7));
    }
    if (v != 2) { w.waitAll(); vs::sleepMs(3); }
    if (vs::rnd(2)) w.stop(0);
    w.del(0);
}
// The same by several threads.
void strict2(int v) {
    vs::ev({"strict"});
    World w;
    {
        std::vector<std::thread> ts; ts.reserve(4);
        std::unique_ptr<TT::Task> k[7];
        for (int id = 1; id <= 4; ++id) k[id] = w.make(id, vs::rnd(3), vs::rnd(2), vs::rnd(2), 1 + vs::rnd(4));
        for (int t = 1; t <= 2; ++t)
            ts.emplace_back([&w, &k, t] {
                for (int i = 0; i < 2; ++i) {
                    int const id = 2 * t - 1 + i;
                    w.add(t, id, vs::nowMs() + vs::rnd(6), std::move(k[id]));
                    if (i == 0) vs::sleepMs(vs::rnd(4));
                }
            });
        if (v == 1) { vs::sleepMs(vs::rnd(9)); w.stop(0); }
        for (auto & t : ts) t.join();
        if (v == 0) w.waitAll();
    }
    w.del(0);
}
// Races: additions, expiry and stop, time may pass at any moment.
void conc(int v) {
    World w;
    {
        std::vector<std::thread> ts; ts.reserve(4);
        std::unique_ptr<TT::Task> k[7];
        for (int id = 1; id <= 3; ++id) k[id] = w.make(id, 0, id == 2, 1, 2);
        switch (v) {
        case 0: case 1:
            for (int t = 1; t <= 2; ++t)
                ts.emplace_back([&w, &k, t] { w.add(t, t, 3 - t, std::move(k[t])); });
            if (v == 1) { w.add(0, 3, 1, std::move(k[3])); } else { k[3].reset(); --w.left; }
            for (auto & t : ts) t.join();
            w.waitAll();
            break;
        case 2: // stop against expiry and additions
            ts.emplace_back([&w, &k] { w.add(1, 1, 1, std::move(k[1])); w.add(1, 2, 0, std::move(k[2])); });
            ts.emplace_back([&w] { w.stop(2); });
            for (auto & t : ts) t.join();
            break;
        case 3: // the task itself stops the thread
            w.add(0, 1, 1, std::move(k[1])); w.add(0, 3, 50, std::move(k[3]));
            ts.emplace_back([&w, &k] { vs::sleepMs(1); w.add(1, 2, 1, std::move(k[2])); });
            for (auto & t : ts) t.join();
            break;
        default: // nothing is ever set
            break;
        }
    }
    w.del(0);
}
// Tasks due long ago or never, and a stop while another one runs.
void extreme(int v) {
    vs::ev({"strict"});
    World w;
    long const d[] = {Epoch, Min, Max, 0, 3};
    int const n = 1 + static_cast<int>(vs::rnd(4));
    auto first = w.make(1, 2 + vs::rnd(3), false, 0, 0);
    w.add(0, 1, 1, std::move(first));
    if (v == 0) vs::sleepMs(2);
    for (int id = 2; id <= 1 + n; ++id) {
        auto task = w.make(id, vs::rnd(2), vs::rnd(2), vs::rnd(2), 1);
        w.add(0, id, d[vs::rnd(5)], std::move(task));
    }
    if (v && vs::rnd(2)) vs::sleepMs(vs::rnd(6));
    w.stop(0);
    if (vs::rnd(2)) { auto task = w.make(n + 2, 0, false, 0, 0); w.add(0, n + 2, d[vs::rnd(5)], std::move(task)); } // too late
    if (vs::rnd(2)) vs::sleepMs(vs::rnd(6));
    w.del(0);
}
vs::Reg r4("extreme", 2, &extreme);
vs::Reg r1("strict", 3, &strict), r2("strict2", 2, &strict2), r3("conc", 5, &conc);
}

// Conformance driver for the thread pools and strands (spec/TaskQueue.tla).
#include <vsched.h>
#include <chrono>
#include <condition_variable>
#include <functional>
#include <memory>
#include <mutex>
#include <stdexcept>
#include <thread>
#include <vector>
#include <sharemind/ParticipatoryThreadPool.h>
#include <sharemind/SimpleThreadPool.h>
#include <sharemind/Strand.h>
using namespace sharemind;
namespace {
using Ms = std::chrono::milliseconds;
using Clock = std::chrono::steady_clock;
#define RAW __attribute__((no_sanitize("thread"), noinline))
int g_who[64]; // fibre -> participant
RAW void enter(int t) { g_who[vs::self()] = t; }
RAW int who() { return g_who[vs::self()]; }
RAW void resetWho() { for (int & w : g_who) w = 0; }

struct Alive {
    int id; std::unique_ptr<int> mem;
    explicit Alive(int i) : id(i), mem(new int(i)) { vs::ev({"new", i}); }
    Alive(Alive && o) noexcept : id(o.id), mem(std::move(o.mem)) { o.id = 0; }
    ~Alive() { if (id) vs::ev({"dt", id}); }
};
struct World {
    std::function<void(ThreadPool::Task &&)> submitTo;
    std::unique_ptr<ThreadPool::ReusableTask> reusable[10];
    Clock::time_point base{Clock::now() - Ms(vs::nowMs())};
    int left = 0; std::mutex m; std::condition_variable cv;
    int * shared = nullptr; // what one task of a strand did is visible to the next
    World() { resetWho(); }
    void done() { std::lock_guard<std::mutex> g(m); --left; cv.notify_all(); }
    int met = 0;
    void meet(int n) { std::unique_lock<std::mutex> l(m); ++met; cv.notify_all(); while (met < n) cv.wait(l); }
    void waitAll() { std::unique_lock<std::mutex> l(m); while (left > 0) cv.wait(l); }
    void body(int id, int work) {
        vs::ev({"b", id, who(), vs::nowMs()});
        if (shared) ++*shared;
        if (work) vs::sleepMs(work); else vs::point();
        if (shared) ++*shared;
    }
    void end(int id) { vs::ev({"e", id, who(), vs::nowMs()}); }
    void submit(int t, int id, ThreadPool::Task && task) {
        vs::ev({"c", t, "submit", id, vs::nowMs()});
        submitTo(std::move(task));
        vs::ev({"r", t, 0});
    }
    // Runs once.
    ThreadPool::Task simple(int id, int work = 0, std::function<void()> after = nullptr) {
        { std::lock_guard<std::mutex> g(m); ++left; }
        struct F {
            World * w; Alive a; int work; std::function<void()> after;
            void operator()() {
                World & ww = *w;
                ww.body(a.id, work); if (after) after(); ww.end(a.id); ww.done(); }
        };
        return ThreadPool::createSimpleTask(F{this, Alive(id), work, std::move(after)});
    }
    // Submits itself again.
    ThreadPool::Task again(int id, int times, int work = 0) {
        { std::lock_guard<std::mutex> g(m); ++left; }
        struct F {
            World * w; Alive a; int times, work;
            void operator()(ThreadPool::Task && task) {
                World & ww = *w;
                int const id = a.id;
                ww.body(id, work); ww.end(id);
                if (times-- > 0) { ww.submit(4 + id, id, std::move(task)); return; }
                ww.done();
            }
        };
        return ThreadPool::createTask(F{this, Alive(id), times, work});
    }
    // Submits a new task.
    ThreadPool::Task nest(int id, int id2, int work = 0) {
        struct F {
            World * w; Alive a; int id2, work;
            void operator()(ThreadPool::Task && task) {
                World & ww = *w;
                ww.body(a.id, work);
                ww.submit(4 + a.id, id2, ww.simple(id2));
                ww.end(a.id); ww.done();
                { ThreadPool::Task const t(std::move(task)); }
            }
        };
        { std::lock_guard<std::mutex> g(m); ++left; }
        return ThreadPool::createTask(F{this, Alive(id), id2, work});
    }
    ThreadPool::Task reuse(int id, int times) {
        { std::lock_guard<std::mutex> g(m); ++left; }
        struct F {
            World * w; std::shared_ptr<Alive> a; std::shared_ptr<int> times;
            void operator()() const {
                World & ww = *w;
                int const id = a->id;
                ww.body(id, 0); ww.end(id);
                if ((*times)-- > 0) { ww.submit(4 + id, id, std::move(*ww.reusable[id])); return; }
                ww.done();
            }
        };
        reusable[id].reset(new ThreadPool::ReusableTask(
            F{this, std::make_shared<Alive>(id), std::make_shared<int>(times)}));
        return std::move(*reusable[id]);
    }
    ThreadPool::Task throwing(int id) {
        struct F {
            World * w; Alive a;
            void operator()() {
                World & ww = *w;
                ww.body(a.id, 0); vs::ev({"x", a.id, who(), vs::nowMs()});
                throw std::runtime_error("task");
            }
        };
        return ThreadPool::createSimpleTask(F{this, Alive(id)});
    }
};
#define OP(t, name, expr) do { vs::ev({"c", t, name, 0, vs::nowMs()}); expr; vs::ev({"r", t, 0}); } while (0)

// ---- pools with threads of their own
void pool(int v) {
    World w;
    int const n = v == 3 ? 1 : v == 5 ? 3 : v == 6 ? 0 : v == 8 ? 1 + static_cast<int>(vs::rnd(3)) : 2;
    vs::ev({"open", n});
    SimpleThreadPool * p = new SimpleThreadPool(n);
    w.submitTo = [p](ThreadPool::Task && t) { p->submit(std::move(t)); };
    {
        std::vector<std::thread> ts; ts.reserve(4);
        ThreadPool::Task k[6];
        switch (v) {
        case 0: case 1:
            for (int i = 1; i <= 4; ++i) k[i] = w.simple(i, i & 1);
            for (int t = 1; t <= 2; ++t)
                ts.emplace_back([&w, &k, t] {
                    w.submit(t, 2 * t - 1, std::move(k[2 * t - 1]));
                    w.submit(t, 2 * t, std::move(k[2 * t])); });
            if (v == 1) OP(0, "stop", p->notifyStop());
            for (auto & t : ts) t.join();
            if (v == 0) w.waitAll();
            OP(0, "sj", p->stopAndJoin());
            break;
        case 2:
            k[1] = w.again(1, 1); k[2] = w.nest(2, 3); k[4] = w.reuse(4, 1);
            ts.emplace_back([&w, &k] { w.submit(1, 4, std::move(k[4])); });
            w.submit(0, 1, std::move(k[1])); w.submit(0, 2, std::move(k[2]));
            for (auto & t : ts) t.join();
            w.waitAll();
            break;
        case 3:
            for (int i = 1; i <= 4; ++i) w.submit(0, i, i == 2 ? w.again(2, 2) : w.simple(i));
            if (vs::rnd(2)) w.waitAll(); else if (vs::rnd(2)) vs::sleepMs(1);
            break;
        case 4:
            w.submit(0, 1, w.simple(1, 1)); w.submit(0, 2, w.simple(2)); w.submit(0, 3, w.simple(3));
            ts.emplace_back([p] { OP(1, "join", p->join()); });
            ts.emplace_back([p] { OP(2, "sj", p->stopAndJoin()); });
            { vs::ev({"c", 0, "sn", 0, 0}); bool b = p->stopNotified(); vs::ev({"r", 0, b}); }
            OP(0, "sj", p->stopAndJoin());
            for (auto & t : ts) t.join();
            { vs::ev({"c", 0, "sn", 0, 0}); bool b = p->stopNotified(); vs::ev({"r", 0, b}); }
            break;
        case 5:
            w.submit(0, 1, w.simple(1, 1));
            w.submit(0, 2, w.simple(2, 0, [p] { OP(6, "stop", p->notifyStop()); }));
            w.submit(0, 3, w.simple(3));
            OP(0, "join", p->join());
            w.submit(0, 4, w.simple(4));
            break;
        case 6:
            w.submit(0, 1, w.simple(1));
            OP(0, "stop", p->notifyStop());
            OP(0, "join", p->join());
            break;
        case 7: // idle threads and tasks trickling in
            for (int i = 1; i <= 4; ++i) {
                w.submit(0, i, w.simple(i, 2 * vs::rnd(2)));
                if (vs::rnd(2)) vs::sleepMs(1);
            }
            w.waitAll();
            break;
        case 8: // as many tasks at once as there are threads: they wait for each other
            for (int i = 1; i <= n; ++i) w.submit(0, i, w.simple(i, 0, [&w, n] { w.meet(n); }));
            w.waitAll();
            break;
        }
    }
    OP(0, "del", delete p);
}

// ---- participation
struct PWorld : World {
    ParticipatoryThreadPool * p = new ParticipatoryThreadPool;
    PWorld() { submitTo = [this](ThreadPool::Task && t) { p->submit(std::move(t)); }; }
    void part(int t) {
        enter(t);
        vs::ev({"c", t, "part", 0, vs::nowMs()});
        int r = 0;
        try { p->participate(); } catch (std::runtime_error const &) { r = -1; }
        vs::ev({"r", t, r});
        enter(0);
    }
    int once(int t) {
        enter(t);
        vs::ev({"c", t, "ponce", 0, vs::nowMs()});
        int r;
        try { r = p->participateOnce(); } catch (std::runtime_error const &) { r = -1; }
        vs::ev({"r", t, r});
        enter(0);
        return r;
    }
    int timed(int t, bool one, long deadline, bool until) {
        enter(t);
        vs::ev({"c", t, one ? "poncef" : "pfor", deadline, vs::nowMs()});
        ThreadPool::Status s;
        auto const d = Ms(deadline - vs::nowMs());
        auto const tp = base + Ms(deadline);
        if (one) s = until ? p->participateOnceUntil(tp) : p->participateOnceFor(d);
        else s = until ? p->participateUntil(tp) : p->participateFor(d);
        int const r = s == ThreadPool::Ok ? 0 : s == ThreadPool::Timeout ? 1 : 2;
        vs::evRaw("[\"r\"," + std::to_string(t) + ",[" + std::to_string(r) + ","
                  + std::to_string(vs::nowMs()) + "]]");
        enter(0);
        return r;
    }
};
void ppool(int v) {
    PWorld w; auto p = w.p;
    vs::ev({"open", 3});
    {
        std::vector<std::thread> ts; ts.reserve(5);
        switch (v) {
        case 0: case 1:
            for (int t = 1; t <= 2; ++t) ts.emplace_back([&w, t] { w.part(t); });
            w.submit(0, 1, w.simple(1)); w.submit(0, 2, w.again(2, 1)); w.submit(0, 3, w.simple(3));
            if (v == 0) w.waitAll();
            if (v == 0) OP(0, "sj", p->stopAndJoin()); else OP(0, "stop", p->notifyStop());
            break;
        case 2:
            for (int t = 1; t <= 2; ++t) ts.emplace_back([&w, t] { w.once(t); });
            ts.emplace_back([p] { OP(4, "pjoin", p->join()); });
            w.submit(0, 1, w.simple(1)); w.submit(0, 2, w.simple(2)); w.submit(0, 3, w.simple(3));
            break;
        case 3:
            for (int t = 1; t <= 2; ++t) ts.emplace_back([&w, t] { w.once(t); w.once(t); });
            w.submit(0, 1, w.simple(1)); w.submit(0, 2, w.nest(2, 3));
            if (vs::rnd(2)) vs::point();
            OP(0, "sj", p->stopAndJoin());
            break;
        case 4:
            for (int t = 1; t <= 2; ++t) ts.emplace_back([&w, t] { w.part(t); if (t == 1) w.part(t); });
            w.submit(0, 1, w.throwing(1)); w.submit(0, 2, w.simple(2));
            if (vs::rnd(2)) OP(0, "stop", p->notifyStop()); else OP(0, "pjoin", p->join());
            if (vs::rnd(2)) OP(0, "stop", p->notifyStop());
            break;
        case 5: // the task itself stops the pool
            ts.emplace_back([&w] { w.part(1); }); ts.emplace_back([&w] { w.once(2); });
            w.submit(0, 1, w.simple(1));
            w.submit(0, 2, w.simple(2, 0, [p] { OP(6, "stop", p->notifyStop()); }));
            w.submit(0, 3, w.simple(3));
            break;
        case 6: // a stranger's once
            ts.emplace_back([&w] { w.once(1); });
            ts.emplace_back([&w] { w.timed(2, true, 1, true); });
            w.submit(0, 1, w.simple(1));
            break;
        case 7: // many wait for the end of participation
            for (int t = 1; t <= 2; ++t) ts.emplace_back([&w, t] { if (t == 1) w.once(t); else w.part(t); });
            for (int t = 3; t <= 5; ++t) ts.emplace_back([p, t] {
                if (t == 5) OP(t, "sj", p->stopAndJoin()); else OP(t, "pjoin", p->join()); });
            w.submit(0, 1, w.simple(1)); w.submit(0, 2, w.simple(2));
            break;
        }
        for (auto & t : ts) t.join();
    }
    OP(0, "del", delete p);
}
// Exact times: tasks come at even times, deadlines are odd.
void ptime(int v) {
    vs::ev({"strict"});
    PWorld w; auto p = w.p;
    vs::ev({"open", 3});
    {
        std::vector<std::thread> ts; ts.reserve(5);
        for (int t = 1; t <= (v == 2 ? 3 : 2); ++t)
            ts.emplace_back([&w, t, v] {
                if (v == 1 && t == 1) { w.part(t); return; }
                if (v == 4 && t == 1) { w.once(t); w.once(t); return; }
                for (int i = 0; i < 2; ++i) {
                    long const d = (vs::nowMs() | 1) + 2 * static_cast<long>(vs::rnd(6)) - (vs::rnd(5) ? 0 : 4);
                    if (w.timed(t, v == 3 || vs::rnd(2), d, vs::rnd(2)) == 2) return;
                    if (!vs::rnd(3)) vs::sleepMs(vs::rnd(4));
                }
            });
        int const n = 1 + vs::rnd(3);
        for (int i = 1; i <= n; ++i) {
            vs::sleepMs(2 * vs::rnd(4));
            w.submit(0, i, w.simple(i, 2 * vs::rnd(4)));
        }
        vs::sleepMs(2 * vs::rnd(6));
        if (v == 1 || v == 4 || v == 2) OP(0, "sj", p->stopAndJoin());
        for (auto & t : ts) t.join();
    }
    OP(0, "del", delete p);
}

// Deleted while there are participants.
void pdel(int v) {
    vs::ev({"strict"});
    PWorld w; auto p = w.p;
    vs::ev({"open", 3});
    {
        std::vector<std::thread> ts; ts.reserve(5);
        for (int t = 1; t <= 3; ++t)
            ts.emplace_back([&w, t, v, m = static_cast<int>(vs::rnd(3))] {
                if (t == 3) { w.timed(t, m == 0, 5, v); return; }
                if (m) w.part(t); else w.once(t); });
        int const n = static_cast<int>(vs::rnd(4));
        for (int i = 1; i <= n; ++i) w.submit(0, i, w.simple(i, 2 * vs::rnd(3)));
        vs::sleepMs(1 + 2 * vs::rnd(2)); // all have begun
        OP(0, "del", delete p);
        for (auto & t : ts) t.join();
    }
}
// Stopped while tasks go on submitting themselves.
void ever(int v) {
    vs::ev({"strict"});
    World w;
    vs::ev({"open", v ? v : 1});
    auto pool = std::make_shared<SimpleThreadPool>(v ? v : 2);
    SimpleThreadPool * const p = pool.get();
    std::unique_ptr<Strand> s(v ? nullptr : new Strand(pool));
    w.submitTo = [&s, p](ThreadPool::Task && t) { if (s) s->submit(std::move(t)); else p->submit(std::move(t)); };
    for (int i = 1; i <= 3; ++i) w.submit(0, i, w.again(i, 4, 2));
    vs::sleepMs(1 + 2 * vs::rnd(3));
    if (s) {
        vs::ev({"c", 0, "ssj", 0, vs::nowMs()}); int r = s->stopAndMaybeJoin() ? 1 : 0; vs::ev({"r", 0, r});
    } else if (vs::rnd(2)) OP(0, "stop", p->notifyStop());
    OP(0, "del", (s.reset(), pool.reset()));
}

// ---- strands
int strandDone(Strand & s) { return s.stopAndJoin() ? 1 : 0; }
void strand(int v) {
    World w;
    int sh = 0; w.shared = &sh;
    vs::ev({"open", 1});
    auto pool = std::make_shared<SimpleThreadPool>(v == 4 ? 3 : v == 7 ? 1 : 2);
    std::shared_ptr<SimpleThreadPool> const keep(pool);
    Strand * s = new Strand(std::move(pool));
    w.submitTo = [s](ThreadPool::Task && t) { s->submit(std::move(t)); };
    {
        std::vector<std::thread> ts; ts.reserve(4);
        ThreadPool::Task k[6];
        switch (v) {
        case 0: case 1:
            for (int i = 1; i <= 4; ++i) k[i] = w.simple(i, i & 1);
            for (int t = 1; t <= 2; ++t)
                ts.emplace_back([&w, &k, t] {
                    w.submit(t, 2 * t - 1, std::move(k[2 * t - 1]));
                    w.submit(t, 2 * t, std::move(k[2 * t])); });
            if (v == 1) {
                vs::ev({"c", 0, "ssj", 0, vs::nowMs()}); int r = strandDone(*s); vs::ev({"r", 0, r});
            }
            for (auto & t : ts) t.join();
            if (v == 0) w.waitAll();
            break;
        case 2: // stopping from within
            w.submit(0, 1, w.simple(1));
            w.submit(0, 2, w.simple(2, 0, [s] {
                vs::ev({"c", 6, "smi", 0, vs::nowMs()}); int r = s->stopAndMaybeJoin() ? 1 : 0; vs::ev({"r", 6, r}); }));
            w.submit(0, 3, w.simple(3));
            { vs::ev({"c", 0, "ssj", 0, vs::nowMs()}); int r = s->stopAndMaybeJoin() ? 1 : 0; vs::ev({"r", 0, r}); }
            break;
        case 3: case 4:
            k[1] = w.again(1, 1); k[2] = w.nest(2, 3); k[4] = w.reuse(4, 1);
            ts.emplace_back([&w, &k] { w.submit(1, 4, std::move(k[4])); });
            w.submit(0, 1, std::move(k[1])); w.submit(0, 2, std::move(k[2]));
            for (auto & t : ts) t.join();
            w.waitAll();
            break;
        case 5:
            for (int i = 1; i <= 4; ++i) w.submit(0, i, i == 2 ? w.again(2, 2) : w.simple(i));
            if (vs::rnd(2)) vs::sleepMs(1);
            break;
        case 6:
            for (int i = 1; i <= 3; ++i) w.submit(0, i, w.simple(i));
            for (int t = 1; t <= 2; ++t)
                ts.emplace_back([s, t] {
                    vs::ev({"c", t, "ssj", 0, vs::nowMs()}); int r = strandDone(*s); vs::ev({"r", t, r}); });
            for (auto & t : ts) t.join();
            w.submit(0, 4, w.simple(4));
            { vs::ev({"c", 0, "ssj", 0, vs::nowMs()}); int r = strandDone(*s); vs::ev({"r", 0, r}); }
            break;
        case 7: // one thread, others' tasks in between
            for (int i = 1; i <= 3; ++i) {
                w.submit(0, i, w.simple(i));
                keep->submit(ThreadPool::createSimpleTask([] { vs::point(); }));
            }
            w.waitAll();
            break;
        case 8: // two strands, one pool
            {
                Strand other(keep);
                int o = 0;
                for (int i = 1; i <= 3; ++i) {
                    w.submit(0, i, w.simple(i));
                    other.submit(ThreadPool::createSimpleTask([&o] { ++o; vs::point(); ++o; }));
                }
                w.waitAll();
            }
            break;
        case 9: // stopped by a task of another strand, run within a task of this one
            w.submit(0, 1, w.simple(1));
            w.submit(0, 2, w.simple(2, 0, [s] {
                auto pp = std::make_shared<ParticipatoryThreadPool>();
                Strand other(pp);
                other.submit(ThreadPool::createSimpleTask([s] {
                    vs::ev({"c", 6, "smi", 0, vs::nowMs()}); int r = s->stopAndMaybeJoin() ? 1 : 0; vs::ev({"r", 6, r}); }));
                pp->participateOnce(); }));
            w.submit(0, 3, w.simple(3));
            if (vs::rnd(2)) {
                vs::ev({"c", 0, "ssj", 0, vs::nowMs()}); int r = s->stopAndMaybeJoin() ? 1 : 0; vs::ev({"r", 0, r}); }
            break;
        case 10: // stopped by a task of another strand: that waits
            {
                Strand other(keep);
                w.submit(0, 1, w.simple(1, 1));
                w.submit(0, 2, w.simple(2));
                other.submit(ThreadPool::createSimpleTask([s] {
                    vs::ev({"c", 6, "ssj", 0, vs::nowMs()}); int r = s->stopAndMaybeJoin() ? 1 : 0; vs::ev({"r", 6, r}); }));
                w.submit(0, 3, w.simple(3));
                if (vs::rnd(2)) vs::sleepMs(1);
            }
            break;
        }
    }
    OP(0, "del", delete s);
}
// Any number of tasks may be left over.
void chain(int v) {
    World w;
    vs::ev({"open", 1});
    auto p = std::make_shared<SimpleThreadPool>(v ? 1 : 0);
    vs::setAtomic(true);
    if (v) {
        Strand s(p);
        s.stopAndJoin();
        for (int i = 0; i < 8000; ++i) s.submit(ThreadPool::createSimpleTask([] {}));
    } else
        for (int i = 0; i < 8000; ++i) p->submit(ThreadPool::createSimpleTask([] {}));
    vs::setAtomic(false);
    vs::ev({"c", 0, "del", 0, 0}); p.reset(); vs::ev({"r", 0, 0});
}
vs::Reg r1("pool", 9, &pool), r2("ppool", 8, &ppool), r3("ptime", 5, &ptime), r4("strand", 11, &strand),
        r5("chain", 2, &chain),
        r6("pdel", 2, &pdel), r7("ever", 3, &ever);
}

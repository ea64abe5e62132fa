// Conformance driver for the event loop (spec/EventLoop.tla).
#include <vsched.h>
#include <cstdint>
#include <functional>
#include <memory>
#include <mutex>
#include <sys/eventfd.h>
#include <sys/syscall.h>
#include <thread>
#include <unistd.h>
#include <vector>
#include <sharemind/EventLoop.h>
#include <sharemind/SingleThreadEventLoop.h>
using namespace sharemind;
namespace {
using EL = EventLoop;
constexpr int IN = 1, OUT = 4, HUP = 16;
EL::EventSet mask(int m) {
    return ((m & IN) ? EL::INPUT_DATA_EVENTS : 0u) | ((m & OUT) ? EL::OUTPUT_DATA_EVENTS : 0u)
           | ((m & HUP) ? EL::COMMON_HUP_EVENTS : 0u);
}
struct World;
struct Handler final : EL::EventHandler {
    World & w; int const hid;
    std::unique_ptr<int> mem{new int(0)};
    std::function<void()> action;
    Handler(World & ww, int h) : w(ww), hid(h) {}
    ~Handler() noexcept override { vs::ev({"hx", hid}); }
    void handleEvents(EL::EventSet evs) noexcept override;
};
struct World {
    EL * loop = nullptr;
    int fd[5] = {-1, -1, -1, -1, -1};
    int wfd = -1;
    int runner = 8;
    Handler * h[8] = {};
    World() {
        for (int i = 1; i <= 3; ++i) fd[i] = ::eventfd(0, EFD_NONBLOCK);
        int p[2]; if (::pipe2(p, O_NONBLOCK)) vs::fail("crash", "pipe2");
        fd[4] = p[0]; wfd = p[1];
        for (int i = 1; i <= 7; ++i) h[i] = new Handler(*this, i);
        for (int i = 1; i <= 3; ++i) { vs::ev({"c", 0, "set", i, OUT, 0, 0}); vs::ev({"r", 0, 0}); }
    }
    ~World() {
        for (int i = 1; i <= 7; ++i) delete h[i];
        for (int i = 1; i <= 4; ++i) ::close(fd[i]);
        if (wfd >= 0) ::close(wfd);
    }
    template <typename F> int op(int t, char const * name, int f, int e, int hid, F body) {
        vs::ev({"c", t, name, f, e, hid, vs::nowMs()});
        int r;
        auto const t0 = vs::nowMs();
        try { r = body(); } catch (EL::EpollCtlException const &) { r = -1; }
        if (t != runner) vs::ev({"took", t, vs::nowMs() - t0});
        vs::ev({"r", t, r});
        return r;
    }
    // The registrations:
    int insert(int t, int f, int e, int hid) {
        return op(t, "ins", f, e, hid, [&] { return loop->insert(fd[f], mask(e), *h[hid]); }); }
    int modify(int t, int f, int e, int hid) {
        return op(t, "mod", f, e, hid, [&] { loop->modify(fd[f], mask(e), *h[hid]); return 0; }); }
    int iom(int t, int f, int e, int hid) {
        return op(t, "iom", f, e, hid, [&] { return loop->insertOrModify(fd[f], mask(e), *h[hid]); }); }
    int insDis(int t, int f) { return op(t, "insd", f, 0, 0, [&] { loop->insertDisabled(fd[f]); return 0; }); }
    int disable(int t, int f) { return op(t, "dis", f, 0, 0, [&] { loop->disable(fd[f]); return 0; }); }
    int idod(int t, int f) { return op(t, "idod", f, 0, 0, [&] { return loop->insertDisabledOrDisable(fd[f]); }); }
    int remove(int t, int f) { return op(t, "rm", f, 0, 0, [&] { return loop->remove(fd[f]); }); }
    // The outside world (set: what holds from now on):
    void set(int t, int f, int conds) {
        op(t, "set", f, conds, 0, [&] {
            vs::point();
            std::uint64_t v;
            if (f == 4) { // IN: something written; HUP: closed
                char c = 0;
                if (conds & IN) { if (::syscall(SYS_write, wfd, &c, 1) != 1) vs::fail("crash", "harness"); }
                else { char b[64]; while (::syscall(SYS_read, fd[4], b, sizeof b) > 0); }
                if ((conds & HUP) && wfd >= 0) { ::close(wfd); wfd = -1; }
            } else {
                (void) ::syscall(SYS_read, fd[f], &v, 8);
                v = conds == OUT ? 0 : conds == IN ? 0xfffffffffffffffeull : 1;
                if (v && ::syscall(SYS_write, fd[f], &v, 8) != 8) vs::fail("crash", "harness");
            }
            return 0;
        });
    }
    void wait(int t, bool spin) {
        op(t, "wait", 0, 0, 0, [&] {
            if (spin) loop->spinUntilLoopIterationEnd(); else loop->yieldUntilLoopIterationEnd();
            return 0; });
    }
    void run(int t) { op(t, "run", 0, 0, 0, [&] { loop->run(); return 0; }); }
    void stop(int t) { op(t, "stop", 0, 0, 0, [&] { loop->stop(); return 0; }); }
    void stopAsync(int t) { op(t, "stopa", 0, 0, 0, [&] { loop->stopAsync(); return 0; }); }
    void del(int t) { op(t, "del", 0, 0, 0, [&] { delete loop; loop = nullptr; return 0; }); }
    void quiet() { vs::sleepMs(5); vs::ev({"quiet"}); }
    void drop(int hid) { delete h[hid]; h[hid] = nullptr; }
};
int g_runner[64]; int g_other = 0;
__attribute__((no_sanitize("thread"), noinline)) void setRunner(int t) { g_runner[vs::self()] = t; }
__attribute__((no_sanitize("thread"), noinline)) int runnerId() { int const r = g_runner[vs::self()]; return r ? r : g_other; }
__attribute__((no_sanitize("thread"), noinline)) void resetRunners() { for (int & r : g_runner) r = 0; g_other = 0; }
__attribute__((no_sanitize("thread"), noinline)) void setOther(int t) { g_other = t; }
void Handler::handleEvents(EL::EventSet evs) noexcept {
    vs::ev({"hb", hid, static_cast<int>(evs & (IN | OUT | HUP)), runnerId()});
    *mem += 1;
    if (action) action();
    vs::point();
    vs::ev({"he", hid});
}
void finish(World * w) { delete w; vs::ev({"fds", vs::openFds()}); }

// A program of random operations from outside, with and without random actions
// in the handlers; exact times.
void randomOp(World & w, int t, bool mayWait) {
    int const f = 1 + vs::rnd(3), hid = 1 + vs::rnd(3);
    static int const es[] = {IN, OUT, IN | OUT, IN};
    static int const cs[] = {OUT, IN, IN | OUT};
    int const e = es[vs::rnd(4)];
    switch (vs::rnd(mayWait ? 12 : 11)) {
    case 0: w.insert(t, f, e, hid); break;
    case 1: case 2: w.iom(t, f, e, hid); break;
    case 3: w.modify(t, f, e, hid); break;
    case 4: w.insDis(t, f); break;
    case 5: w.disable(t, f); break;
    case 6: w.idod(t, f); break;
    case 7: w.remove(t, f); break;
    case 8: case 9: case 10: w.set(t, f, cs[vs::rnd(3)]); break;
    case 11: w.wait(t, vs::rnd(2)); break;
    }
}
void strict(int v) {
    vs::ev({"strict"});
    if (v >= 2) vs::sysFaults(4);
    World * w = new World; resetRunners();
    w->loop = new EL;
    std::thread r([w] { setRunner(8); w->run(8); });
    if (v & 1) for (int i = 1; i <= 3; ++i) w->h[i]->action = [w] { if (vs::rnd(2)) randomOp(*w, 9, false); };
    for (int i = 0; i < 7; ++i) {
        randomOp(*w, 0, true);
        if (i == 2 || i == 4) w->quiet();
    }
    w->quiet();
    if (vs::rnd(2)) w->stop(0); else { w->stopAsync(0); w->quiet(); }
    r.join();
    w->del(0);
    finish(w);
}
// Several threads.
void conc(int v) {
    World * w = new World; resetRunners();
    if (v == 6) { // the loop with a thread of its own
        vs::ev({"c", 8, "run", 0, 0, 0, 0});
        setOther(8);
        w->loop = nullptr;
        std::unique_ptr<SingleThreadEventLoop> l(new SingleThreadEventLoop);
        w->loop = l.get();
        w->h[1]->action = [w] { w->set(9, 1, OUT); };
        w->iom(0, 1, IN, 1); w->set(0, 1, IN);
        w->wait(0, true);
        w->loop = nullptr;
        w->op(0, "stop", 0, 0, 0, [&] { l.reset(); return 0; });
        vs::ev({"r", 8, 0});
        finish(w);
        return;
    }
    w->loop = new EL;
    {
        std::vector<std::thread> ts; ts.reserve(5);
        auto start = [&] { ts.emplace_back([w] { setRunner(8); w->run(8); }); };
        switch (v) {
        case 0: // taking a handler away and destroying it
            { auto n = std::make_shared<int>(3); w->h[1]->action = [w, n] { if ((*n)--) w->modify(9, 1, IN, 1); }; }
            w->set(0, 1, IN | OUT); w->insert(0, 1, IN, 1);
            start();
            ts.emplace_back([w] { w->remove(1, 1); w->wait(1, false); w->drop(1); });
            w->set(0, 1, OUT);
            break;
        case 1: // changing the handler
            w->insert(0, 1, IN, 1); start();
            ts.emplace_back([w] { w->set(1, 1, IN | OUT); w->wait(1, true); });
            w->modify(0, 1, OUT, 2); w->wait(0, true); w->drop(1);
            break;
        case 2: // waiters galore, loop running or not
            start();
            ts.emplace_back([w] { w->wait(1, true); });
            ts.emplace_back([w] { w->wait(2, false); });
            w->wait(0, true);
            break;
        case 3: // no loop running
            ts.emplace_back([w] { w->wait(1, true); });
            ts.emplace_back([w] { w->wait(2, false); });
            for (auto & t : ts) t.join();
            ts.clear();
            start();
            w->wait(0, true);
            break;
        case 4: // stop from everywhere
            w->h[1]->action = [w] { w->stopAsync(9); };
            w->insert(0, 1, IN, 1); start();
            ts.emplace_back([w] { w->set(1, 1, IN); w->stop(1); });
            ts.emplace_back([w] { w->remove(2, 1); w->wait(2, true); w->drop(1); });
            w->stopAsync(0);
            break;
        case 5: // two runs
            w->h[1]->action = [w] { w->set(9, 1, OUT); w->modify(9, 1, IN, 1); };
            w->insert(0, 1, IN, 1);
            start();
            ts.emplace_back([w] { setRunner(7); w->run(7); });
            w->set(0, 1, IN);
            ts.emplace_back([w] { w->wait(1, true); });
            break;
        case 7: // hang-up, and a handler for two descriptors
            w->insDis(0, 4); start();
            w->insert(0, 2, IN, 1);
            ts.emplace_back([w] { w->iom(1, 4, IN, 1); });
            w->set(0, 4, HUP);
            w->set(0, 2, IN);
            break;
        }
        w->stop(0);
        for (auto & t : ts) t.join();
    }
    w->del(0);
    finish(w);
}
// Many notifications pending.
void many(int v) {
    static long const n[] = {2, 1535, 1536, 1537, 3072, 70000};
    vs::ev({"strict"});
    World * w = new World; resetRunners();
    w->loop = new EL;
    w->insert(0, 1, IN, 1);
    vs::amplify(n[v]);
    std::thread r([w] { setRunner(8); w->run(8); });
    std::thread a([w] { w->wait(1, true); });
    std::thread b([w] { w->wait(2, true); });
    vs::point();
    w->set(0, 1, IN);
    a.join(); b.join();
    w->quiet();
    vs::amplify(0);
    w->stop(0);
    r.join();
    w->del(0);
    finish(w);
}
vs::Reg r1("strict", 4, &strict), r2("conc", 8, &conc), r3("many", 6, &many);
}

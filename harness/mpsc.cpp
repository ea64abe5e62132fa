// Conformance driver for MpscWaitFreeSemiIntrusiveQueue (spec/MpscQueue.tla).
#include <vsched.h>
#include <memory>
#include <thread>
#include <vector>
#include <sharemind/MpscWaitFreeSemiIntrusiveQueue.h>
using namespace sharemind;
namespace {
// The item owns memory, so that its loss or double destruction shows.
struct Item {
    std::unique_ptr<int> p;
    Item() {}
    Item(int v) : p(new int(v)) {}
    Item(Item &&) noexcept = default;
    Item & operator=(Item &&) noexcept = default;
};
using Q = MpscWaitFreeSemiIntrusiveQueue<Item>;
void push(Q & q, int t, int x) {
    vs::ev({"c", t, "push", x});
    q.push(std::unique_ptr<Q::Node>(new Q::Node(x)));
    vs::ev({"r", t, 0});
}
// The node a pop gives back may be pushed again.
std::unique_ptr<Q::Node> keep;
void repush(Q & q, int t, int x) {
    if (!keep) return;
    keep->data = Item(x);
    vs::ev({"c", t, "push", x});
    q.push(std::move(keep));
    vs::ev({"r", t, 0});
}
int pop(Q & q, int t, bool keepIt = false) {
    vs::ev({"c", t, "pop", 0});
    auto n = q.pop();
    int const r = n ? (n->data.p ? *n->data.p : -7) : 0;
    vs::ev({"r", t, r});
    if (keepIt && n) keep = std::move(n);
    return r;
}
void empty(Q & q, int t) {
    vs::ev({"c", t, "empty", 0}); bool const e = q.empty(); vs::ev({"r", t, e});
}
void seq(int) {
    Q q;
    int x = 0;
    for (int i = 0; i < 30; ++i)
        switch (vs::rnd(7)) {
        case 5: pop(q, 1, true); break;
        case 6: repush(q, 1, ++x); break;
        case 0: case 1: push(q, 1, ++x); break;
        case 2: case 3: pop(q, 1); break;
        default: empty(q, 1);
        }
    keep.reset();
}
void conc(int v) {
    auto q = std::make_shared<Q>();
    std::vector<std::thread> ts; ts.reserve(4);
    int const producers = v == 0 ? 2 : v == 1 ? 3 : 2;
    int const each = v == 2 ? 3 : v == 1 ? 1 : 2;
    for (int t = 1; t <= producers; ++t)
        ts.emplace_back([q, t, each] { for (int i = 0; i < each; ++i) push(*q, t, 10 * t + i); });
    int got = 0;
    for (int i = 0; i < 4; ++i) {
        if (vs::rnd(4) == 0) empty(*q, 0);
        if (pop(*q, 0, true) > 0) ++got;
        if (vs::rnd(2)) repush(*q, 0, 50 + i);
    }
    keep.reset();
    for (auto & t : ts) t.join();
    if (v != 3) { while (pop(*q, 0)) {} empty(*q, 0); }
    // v == 3: the rest is destroyed with the queue
}
vs::Reg r1("seq", 1, &seq), r2("conc", 4, &conc);
}

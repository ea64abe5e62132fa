// Conformance driver for shared parts of tuples and objects that share
// themselves (spec/SharedParts.tla).
#include "seq.h"
#include <functional>
#include <memory>
#include <tuple>
#include <sharemind/EnableSharedFromThis.h>
#include <sharemind/SharedTupleElementPointers.h>
using namespace seq;
namespace {
constexpr int N = 6;
L * g_dead;             // objects destroyed, part by part: 10 * object + part
long g_obj;
struct Part {
    long obj; long no;
    Part(long o, long n) : obj(o), no(n) {}
    Part(Part const &) = delete;
    ~Part() { if (g_dead) g_dead->push_back(10 * obj + no); obj = -1; }
};
// Parts of different types and sizes.
template <int n> struct P : Part { char fill[1 + 7 * n]; P(long o) : Part(o, n) {} };
using Tup = std::tuple<P<1>, P<2>, P<3>>;
using One = std::tuple<P<1>>;

struct Node;
std::function<void (Node &)> * g_look;   // called while a node is destroyed
struct Node : sharemind::EnableSharedFromThis<Node> {
    Node(long o, bool & early) : a(o), b(o) { early = ask(); }
    ~Node() { if (g_look) (*g_look)(*this); }
    bool ask() {   // what it answers before it is shared, and when no longer
        bool r = weakFromThis().expired() && weakFromThis(&a).expired()
                 && static_cast<Node const *>(this)->weakFromThis().expired()
                 && static_cast<Node const *>(this)->weakFromThis(&b).expired();
        try { sharedFromThis(); r = false; } catch (std::bad_weak_ptr const &) {}
        try { sharedFromThis(&a); r = false; } catch (std::bad_weak_ptr const &) {}
        try { static_cast<Node const *>(this)->sharedFromThis(); r = false; } catch (std::bad_weak_ptr const &) {}
        try { static_cast<Node const *>(this)->sharedFromThis(&b); r = false; } catch (std::bad_weak_ptr const &) {}
        return r;
    }
    P<1> a; P<2> b;
};
struct Slot {
    std::shared_ptr<Tup> tup; std::shared_ptr<One> one; std::shared_ptr<Node const> node; std::shared_ptr<Part const> part;
    bool empty() const { return !tup && !one && !node && !part; }
    L see() const {   // object, part (0: all of it), holders
        if (tup) return {std::get<0>(*tup).obj, 0, tup.use_count()};
        if (one) return {std::get<0>(*one).obj, 0, one.use_count()};
        if (node) return {node->a.obj, 0, node.use_count()};
        if (part) return {part->obj, part->no, part.use_count()};
        return {};
    }
};
void run(int) {
    Slot s[N]; std::weak_ptr<Node const> w[2]; std::weak_ptr<Part const> wp[2]; int wkind[2] = {0, 0};
    L dead; dead.reserve(64); g_dead = &dead; g_obj = 0;
    bool late = true;
    std::function<void (Node &)> look([&](Node & n) { late = late && n.ask(); });
    g_look = &look;
    auto now = [&] {
        std::vector<L> r;
        for (auto const & x : s) r.push_back(x.see());
        L gone(dead); dead.clear();
        E("now") << r << gone;
    };
    auto set = [&](unsigned i, Slot x) { s[i] = std::move(x); };
    for (int step = 0; step < 14; ++step) {
        unsigned const a = vs::rnd(N), b = vs::rnd(N), c = vs::rnd(N), k = vs::rnd(2);
        switch (vs::rnd(12)) {
        case 0: case 1: {
            Slot x; long const o = ++g_obj;
            bool early = true;
            bool const failed = starved(vs::rnd(4) == 0 ? 1 : 0, [&] {
                switch (vs::rnd(5)) {
                case 0: x.tup = std::make_shared<Tup>(o, o, o); break;
                case 1: x.one = std::make_shared<One>(o); break;
                case 2: x.node = std::make_shared<Node>(o, early); break;
                case 3: x.node = std::shared_ptr<Node>(new Node(o, early)); break;
                default: x.tup = std::shared_ptr<Tup>(new Tup(o, o, o)); break;
                }
            });
            if (failed) dead.clear();
            long const shape = x.tup ? 3 : x.one ? 1 : 2;
            set(a, std::move(x));
            E("new") << a << (failed ? 0 : o) << shape << early;
            break;
        }
        case 2: set(a, Slot(s[b])); E("copy") << a << b; break;
        case 3: { Slot x(std::move(s[b])); s[b] = Slot(); set(a, std::move(x)); E("move") << a << b; break; }
        case 4: case 5: set(a, Slot()); E("drop") << a; break;
        case 6: case 7: {   // one part
            Slot x; long n = 0;
            if (s[b].tup) {
                n = 1 + vs::rnd(3);
                if (n == 1) x.part = sharemind::makeSharedTupleElementPtr<0u>(s[b].tup);
                else if (n == 2) x.part = sharemind::makeSharedTupleElementPtr<1u>(s[b].tup);
                else x.part = sharemind::makeSharedTupleElementPtr<2u>(s[b].tup);
            } else if (s[b].one) {
                n = 1;
                if (coin()) x.part = sharemind::makeSharedTupleElementPtr<0u>(s[b].one);
                else x.part = std::get<0>(sharemind::makeAllSharedTupleElementPtrs(s[b].one));
            } else if (s[b].node) {
                n = 1 + vs::rnd(2);
                Node const & cn = *s[b].node; Node & m = const_cast<Node &>(cn);
                if (n == 1) x.part = coin() ? std::shared_ptr<Part const>(m.sharedFromThis(&m.a)) : std::shared_ptr<Part const>(cn.sharedFromThis(&cn.a));
                else x.part = coin() ? std::shared_ptr<Part const>(m.sharedFromThis(&m.b)) : std::shared_ptr<Part const>(cn.sharedFromThis(&cn.b));
            } else break;
            set(a, std::move(x));
            E("part") << a << b << n;
            break;
        }
        case 8: {   // several at once
            if (!s[b].tup || a == b || a == c || b == c) break;
            Slot x, y;
            switch (vs::rnd(3)) {
            case 0: { auto t = sharemind::makeSharedTupleElementPtrs<0u, 2u>(s[b].tup); x.part = std::get<0>(t); y.part = std::get<1>(t); break; }
            case 1: { auto t = sharemind::makeSharedTupleElementPtrs<1u, 0u, 2u>(s[b].tup); x.part = std::get<1>(t); y.part = std::get<2>(t); break; }
            default: { auto t = sharemind::makeAllSharedTupleElementPtrs(s[b].tup); x.part = std::get<0>(t); y.part = std::get<2>(t); break; }
            }
            set(a, std::move(x)); set(c, std::move(y));
            E("parts") << a << c << b;
            break;
        }
        case 9: {   // the node itself
            if (!s[b].node) break;
            Node const & cn = *s[b].node; Node & m = const_cast<Node &>(cn);
            Slot x;
            if (coin()) x.node = m.sharedFromThis(); else x.node = cn.sharedFromThis();
            set(a, std::move(x));
            E("copy") << a << b;
            break;
        }
        case 10: {  // weakly
            if (!s[b].node) break;
            Node const & cn = *s[b].node; Node & m = const_cast<Node &>(cn);
            w[k].reset(); wp[k].reset();
            switch (wkind[k] = int(vs::rnd(4))) {
            case 0: w[k] = m.weakFromThis(); break;
            case 1: w[k] = cn.weakFromThis(); break;
            case 2: wp[k] = m.weakFromThis(&m.a); break;
            default: wp[k] = cn.weakFromThis(&cn.b); break;
            }
            E("weak") << k << b << (wkind[k] < 2 ? 0 : wkind[k] - 1);
            break;
        }
        default: {  // from weakly held to held
            Slot x; x.node = w[k].lock(); if (!x.node) x.part = wp[k].lock();
            set(a, std::move(x));
            E("lock") << k << a;
        }
        }
        now();
    }
    for (auto & x : s) x = Slot();
    E("late") << late;
    E("all") << g_obj;
    now();
    {   // not shared at all
        bool early = true;
        Node n(0, early);
        bool const r = n.ask();
        E("late") << (early && r);
    }
    dead.clear(); g_dead = nullptr; g_look = nullptr;
}
vs::Reg r1("run", 1, &run);
} // namespace

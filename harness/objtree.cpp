// Conformance driver for object trees (spec/ObjectTree.tla).
#include "seq.h"
#include <algorithm>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <thread>
#include <sharemind/ObjectTree.h>
using namespace seq;
using namespace sharemind;
namespace {
struct NoMutex { void lock() noexcept {} void unlock() noexcept {} };
struct Out { bool keep; std::set<void *> * alive; };
Out g_out;
// Kids before link or after it: the order in which they are destroyed.
template <typename M, bool kidsFirst> struct Node;
template <typename M> struct Node<M, true> {
    using P = ObjectTree::ParentNode<Node, Node, M>;
    Node(Node * p, long i) : kids(&Node::out), link(p, this), id(i) {}
    ~Node() { E("die") << id; }
    static void out(Node * n) { E("freed") << n->id; if (!g_out.keep) { long const i = n->id; g_out.alive->erase(n); delete n; E("gone") << i; } }
    P kids; ObjectTree::ChildNode<P, &Node::kids> link; long id;
};
template <typename M> struct Node<M, false> {
    using P = ObjectTree::ParentNode<Node, Node, M>;
    struct Del { void operator()(Node * n) const { E("freed") << n->id; if (!g_out.keep) { long const i = n->id; g_out.alive->erase(n); delete n; E("gone") << i; } } };
    P kids; 
    struct Link : ObjectTree::ChildNode<P, &Node::kids> { using ObjectTree::ChildNode<P, &Node::kids>::ChildNode; };
    long id; Link * link;
    Node(Node * p, long i) : kids(Del()), id(i), link(nullptr) { link = new Link(p, this); }
    // The link goes after the children.
    ~Node() { E("die") << id; Link * l = link; struct G { Link * l; ~G() {} } g{l}; (void) g; delete l; }
};
template <typename N> long parentOf(N * n);
template <typename M> Node<M, true> * up(Node<M, true> * n) { return n->link.parent(); }
template <typename M> Node<M, false> * up(Node<M, false> * n) { return n->link->parent(); }

template <typename N> void forest(int ops, bool keep) {
    std::set<void *> alive; g_out = {keep, &alive};
    long next = 0;
    auto pick = [&] { auto it = alive.begin(); std::vector<N *> v; for (void * p : alive) v.push_back(static_cast<N *>(p));
        std::sort(v.begin(), v.end(), [](N * a, N * b) { return a->id < b->id; }); (void) it; return v[vs::rnd(static_cast<unsigned>(v.size()))]; };
    auto see = [&] (N * n) {
        if (vs::rnd(6) == 0) starved(1, [&] { n->kids.children(); });
        L ids; for (N * c : n->kids.children()) ids.push_back(c->id);
        std::sort(ids.begin(), ids.end());
        E("see") << n->id << (up(n) ? up(n)->id : 0) << ids << long(n->kids.numChildren());
    };
    for (int i = 0; i < ops; ++i) {
        switch (alive.empty() ? 0 : vs::rnd(8)) {
        case 0: case 1: case 2: {
            N * p = alive.empty() || vs::rnd(5) == 0 ? nullptr : pick();
            long const id = ++next; N * n = nullptr;
            if (starved(vs::rnd(5) ? 0 : 1 + vs::rnd(3), [&] { n = new N(p, id); })) E("newx") << id;
            else { E("new") << id << (p ? p->id : 0); alive.insert(n); see(n); }
            if (p) see(p);
            break; }
        case 3: case 4: {
            if (vs::rnd(3)) break;
            N * n = pick(); N * p = up(n); long const id = n->id;
            alive.erase(n); delete n; E("gone") << id;
            if (p) see(p);
            break; }
        default: see(pick()); break;
        }
    }
    std::vector<N *> all;
    while (!alive.empty()) { N * n = pick(); long const id = n->id; alive.erase(n); delete n; E("gone") << id; }
}
void all(int v) {
    switch (v) {
    case 0: forest<Node<NoMutex, true>>(30, false); break;
    case 1: forest<Node<NoMutex, true>>(30, true); break;
    case 2: forest<Node<std::mutex, true>>(30, false); break;
    case 3: forest<Node<std::mutex, false>>(30, false); break;
    case 4: forest<Node<std::mutex, false>>(30, true); break;
    }
}
vs::Reg r1("all", 5, &all);

// Several threads with children of one parent.
using N = Node<std::mutex, true>;
struct Kid; 
struct Root {
    using P = ObjectTree::ParentNode<Root, Kid, std::mutex>;
    static void out(Kid * k);
    P kids{&Root::out};
};
struct Kid { ObjectTree::ChildNode<Root::P, &Root::kids> link; long id; Kid(Root * r, long i) : link(r, this), id(i) {} };
void Root::out(Kid * k) { E("freed") << k->id; E("die") << k->id; long const i = k->id; delete k; E("gone") << i; }
void call(int t, char const * o, long a) { E("c") << t << o << a; }
void worker(Root & r, int t, int ops) {
    std::vector<Kid *> own; long next = 10 * t;
    for (int i = 0; i < ops; ++i)
        switch (vs::rnd(6)) {
        case 0: case 1: { long const id = ++next; call(t, "add", id); Kid * k = new Kid(&r, id); E("r") << t << 0; own.push_back(k); break; }
        case 2: case 3: { if (own.empty()) break; std::size_t const k = vs::rnd(static_cast<unsigned>(own.size())); Kid * x = own[k]; own.erase(own.begin() + static_cast<long>(k));
            call(t, "del", x->id); delete x; E("r") << t << 0; break; }
        case 4: { call(t, "num", 0); std::size_t const n = r.kids.numChildren(); E("r") << t << long(n); break; }
        // (Looking at the others' children is safe only while these live: only their number is.)
        case 5: { call(t, "num", 0); std::size_t const n = r.kids.children().size(); E("r") << t << long(n); break; }
        }
}
void conc(int v) {
    E("new") << 1 << 0;
    std::unique_ptr<Root> r(new Root);
    int const n = 2 + v % 2, ops = v < 2 ? 4 : 2;
    std::vector<std::thread> ts;
    for (int t = 1; t <= n; ++t) ts.emplace_back([&r, t, ops] { worker(*r, t, ops); });
    for (auto & t : ts) t.join();
    ts.clear(); ts.shrink_to_fit();
    { call(0, "list", 0); L ids; for (Kid * k : r->kids.children()) ids.push_back(k->id); std::sort(ids.begin(), ids.end()); E("r") << 0 << ids; }
    E("die") << 1; r.reset(); E("gone") << 1;
}
vs::Reg r2("conc", 4, &conc);
}

// Conformance driver for LRU (spec/LRU.tla).
#include "seq.h"
#include <cassert>
#include <list>
#include <memory>
#include <unordered_map>
#include <sharemind/LRU.h>
using namespace seq;
namespace {
long g_gone[64]; int g_n = 0; // (destructors must not allocate)
struct Obj {
    int const id; std::unique_ptr<int> mem{new int(7)};
    explicit Obj(int i) : id(i) {}
    ~Obj() { g_gone[g_n++] = id; }
};
// A key with memory of its own.
struct Key {
    std::shared_ptr<int> v;
    Key(int k) : v(std::make_shared<int>(k)) {}
    bool operator==(Key const & o) const { return *v == *o.v; }
};
L gone() { L r(g_gone, g_gone + g_n); g_n = 0; return r; }
} // namespace
namespace std { template <> struct hash<Key> {
    std::size_t operator()(Key const & k) const { return static_cast<std::size_t>(*k.v % 3); } }; }
namespace {
template <typename K> void prog(int limit, int keys, int ops) {
    g_n = 0;
    E("new") << limit;
    std::shared_ptr<Obj> slot[4];
    int next = 0;
    {
        sharemind::LRU<K, Obj> c(static_cast<std::size_t>(limit));
        for (int i = 0; i < ops; ++i) {
            int const k = 1 + vs::rnd(keys), s = 1 + vs::rnd(3), t = 1 + vs::rnd(3);
            switch (vs::rnd(13)) {
            case 0: case 1: case 2: { // a new object, kept or not
                bool const keep = vs::rnd(3) == 0;
                int const o = ++next;
                auto p = std::make_shared<Obj>(o);
                if (keep) slot[s] = p;
                L const before = gone();
                long const n = vs::rnd(6) ? 0 : 1 + vs::rnd(5);
                bool const oom = starved(n, [&] { c.insert(K(k), std::move(p)); });
                p.reset();
                L after = gone();
                E("ins") << k << o << (keep ? s : 0) << oom << before << after;
                break; }
            case 3: { // an object held by the user
                if (!slot[s]) break;
                int const o = slot[s]->id;
                bool const oom = starved(vs::rnd(6) ? 0 : 1 + vs::rnd(5), [&] { c.insert(K(k), slot[s]); });
                E("put") << k << o << oom << gone();
                break; }
            case 4: case 5: case 6: {
                K const key(k);
                auto p = c.get(key);
                int const o = p ? p->id : 0;
                L const a = gone();
                p.reset();
                E("get") << k << o << a << gone();
                break; }
            case 7: case 8: { // get and keep
                K const key(k);
                auto p = c.get(key);
                int const o = p ? p->id : 0;
                L const a = gone();
                slot[s] = std::move(p);
                E("take") << k << o << s << a << gone();
                break; }
            case 9: case 10: slot[s].reset(); E("drop") << s << gone(); break;
            case 11: slot[t] = slot[s]; E("copy") << t << s << gone(); break;
            case 12: if (vs::rnd(4)) break; c.clear(); E("clear") << gone(); break;
            }
        }
        if (coin()) { c.clear(); E("clear") << gone(); }
    }
    { L g = gone(); E("del") << g; }
    for (int s = 1; s <= 3; ++s) { slot[s].reset(); E("drop") << s << gone(); }
}
void ints(int v) { static int const lim[] = {1, 2, 3, 5}; prog<int>(lim[v], 3 + 2 * (v > 1), 40); }
void objs(int v) { static int const lim[] = {1, 2, 3}; prog<Key>(lim[v], 4, 40); }
vs::Reg r1("ints", 4, &ints), r2("objs", 3, &objs);
}

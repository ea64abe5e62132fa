// Conformance driver for SharedResourceMap.h (spec/ResourceMap.tla).
#include <vsched.h>
#include <memory>
#include <new>
#include <string>
#include <thread>
#include <vector>
#include <sharemind/SharedResourceMap.h>
using namespace sharemind;
namespace {
int g_id;
__attribute__((no_sanitize("thread"), noinline)) int nextId() { return ++g_id; }
struct Fail {};
struct Res {
    int id; std::unique_ptr<int> mem;
    Res(int t, int key) : id(nextId()), mem(new int(1)) { vs::ev({"ctor", t, id, key}); }
    Res() : Res(1, 0) {} // key 0 is used by thread 1 only, by default construction
    ~Res() { vs::ev({"dtor", id}); }
};
// Keys own memory, so that one used after it was moved from or destroyed shows.
struct Key {
    std::unique_ptr<int> p;
    explicit Key(int k) : p(new int(k)) {}
    Key(Key && o) noexcept : p(std::move(o.p)) {}
    Key(Key const & o) : p(new int(o.get())) {}
    Key & operator=(Key const &) = delete;
    int get() const { return p ? *p : -999; }
    bool operator<(Key const & o) const { return get() < o.get(); }
};
using Map = SharedResourceMap<Key, Res>;
struct World {
    std::unique_ptr<Map> m{new Map};
    std::shared_ptr<Res> slot[20];
    void get(int t, int s, int k, bool fail = false) {
        if (slot[s]) drop(t, s);
        vs::ev({"c", t, "get", s, k});
        int r;
        try {
            Key key(k);
            Key const & ckey = key;
            if (k == 0) slot[s] = s % 2 ? m->getResource(Key(0)) : m->getResource(ckey);
            else if (k & 1) {
                auto const f = [t, fail](Key const & key) {
                    if (fail) { vs::ev({"ctorx", t, key.get()}); throw Fail(); }
                    return std::make_shared<Res>(t, key.get()); };
                slot[s] = s % 2 ? m->getResource(std::move(key), f) : m->getResource(key, f);
                if (s % 2 == 0 && key.get() != k) vs::ev({"keymoved"});
            } else {
                auto const f = [fail](Key const & key, int t_, std::unique_ptr<int> p) {
                    if (fail) { vs::ev({"ctorx", t_, key.get()}); throw Fail(); }
                    return std::shared_ptr<Res>(new Res(*p, key.get())); };
                std::unique_ptr<int> arg(new int(t));
                slot[s] = s % 2 ? m->getResource(std::move(key), f, t, std::move(arg))
                                : m->getResource(ckey, f, t, std::move(arg));
            }
            r = slot[s] ? slot[s]->id : -9;
        } catch (Fail const &) { r = -1; } catch (std::bad_alloc const &) { r = -2; }
        vs::ev({"r", t, r});
    }
    void drop(int t, int s) {
        if (!slot[s]) return;
        vs::ev({"c", t, "drop", s, 0}); slot[s].reset(); vs::ev({"r", t, 0});
    }
    void copy(int t, int d, int s) {
        if (!slot[s] || d == s) return;
        drop(t, d);
        vs::ev({"c", t, "copy", d, s}); slot[d] = slot[s]; vs::ev({"r", t, 0});
    }
    void empty(int t) { vs::ev({"c", t, "empty", 0, 0}); bool const r = m->empty(); vs::ev({"r", t, r}); }
    void size(int t) { vs::ev({"c", t, "size", 0, 0}); auto const r = m->size(); vs::ev({"r", t, r}); }
    void wfe(int t) { vs::ev({"c", t, "wfe", 0, 0}); m->waitForEmpty(); vs::ev({"r", t, 0}); }
    void each(int t) {
        vs::ev({"c", t, "each", 0, 0});
        m->forEach([t](Key const & k, std::shared_ptr<Res> r) { vs::ev({"vis", t, r->id}); (void) k; });
        vs::ev({"r", t, 0});
    }
    void delmap(int t) { vs::ev({"c", t, "delmap", 0, 0}); m.reset(); vs::ev({"r", t, 0}); }
};
void seq(int v) {
    g_id = 0;
    World w;
    int n = 0;
    for (int i = 0; i < 34; ++i) {
        int const k = vs::rnd(3), s = vs::rnd(5), s2 = vs::rnd(5), t = 1;
        switch (vs::rnd(10)) {
        case 0: case 1: case 2:
            if (v == 1 && vs::rnd(2)) {
                vs::ev({"oom"});
                vs::failAlloc(1 + vs::rnd(10));
                w.get(t, s, k);
                vs::failAlloc(0);
            } else w.get(t, s, k);
            break;
        case 3: case 4: case 5: w.drop(t, s); break;
        case 6: w.copy(t, s, s2); break;
        case 7: if (k) w.get(t, s, k, true); break;
        case 8: if (vs::rnd(2)) w.size(t); else w.empty(t); break;
        default: if (vs::rnd(2)) w.each(t);
        }
        n = 0;
        for (int j = 0; j < 5; ++j) n += !!w.slot[j];
        if (!n) w.wfe(t);
    }
    if (v == 2) w.delmap(1); // users outlive the map
    for (int j = 0; j < 5; ++j) w.drop(1, j);
    if (w.m) { w.wfe(1); w.delmap(1); }
}
void conc(int v) {
    g_id = 0;
    World w;
    std::vector<std::thread> ts; ts.reserve(6);
    auto const user = [&w](int t, int rounds, int keys, bool fails) {
        for (int i = 0; i < rounds; ++i) {
            bool const f = fails && vs::rnd(3) == 0;
            w.get(t, t, 1 + vs::rnd(keys), f);
            w.drop(t, t);
        }
    };
    switch (v) {
    case 0: for (int t = 1; t <= 2; ++t) ts.emplace_back([&, t] { user(t, 2, 1, false); }); break;
    case 1: for (int t = 1; t <= 3; ++t) ts.emplace_back([&, t] { user(t, 2, 1, false); }); break;
    case 2: for (int t = 1; t <= 3; ++t) ts.emplace_back([&, t] { user(t, 2, 2, true); }); break;
    case 3: // a walker among users
        for (int t = 1; t <= 2; ++t) ts.emplace_back([&, t] { user(t, 2, 2, false); });
        ts.emplace_back([&] { w.each(3); w.size(3); });
        break;
    case 4: // someone waits for everything to be gone
        w.get(0, 0, 1);
        ts.emplace_back([&] { user(1, 1, 2, false); });
        ts.emplace_back([&] { w.drop(2, 0); w.empty(2); });
        ts.emplace_back([&] { w.wfe(3); });
        break;
    case 5: // the map goes away before, while and after its users let go
        w.get(0, 1, 1); w.copy(0, 2, 1); w.get(0, 3, 2);
        ts.emplace_back([&] { w.drop(1, 1); });
        ts.emplace_back([&] { w.drop(2, 2); w.drop(2, 3); });
        ts.emplace_back([&] { w.delmap(3); });
        break;
    case 6: // three references of one resource dropped against a request
        w.get(0, 1, 1); w.copy(0, 2, 1);
        ts.emplace_back([&] { w.drop(1, 1); w.get(1, 1, 1); w.drop(1, 1); });
        ts.emplace_back([&] { w.drop(2, 2); w.get(2, 2, 1); w.drop(2, 2); });
        ts.emplace_back([&] { w.get(3, 3, 1); w.drop(3, 3); });
        break;
    default: // one thread keeps a resource: the waiter sleeps for ever
        w.get(0, 1, 1);
        ts.emplace_back([&] { w.wfe(3); });
        ts.emplace_back([&] { w.get(1, 2, 1); w.drop(1, 2); });
    }
    for (auto & t : ts) t.join();
    for (int j = 0; j < 20; ++j) w.drop(0, j);
    if (w.m) { w.wfe(0); w.delmap(0); }
}
vs::Reg r1("seq", 3, &seq), r2("conc", 8, &conc);
}

// Conformance driver for the call stack (spec/CallStack.tla).
#include "seq.h"
#include <memory>
#include <string>
#include <thread>
#include <sharemind/CallStack.h>
using namespace seq;
namespace {
struct Boom {};
int me() { return vs::self(); }

// Stack 1: numbers, with values; 2: numbers, without; 3: strings, with values
// that throw, and use the stacks, while they are made or destroyed.
struct Val3;
using S1 = sharemind::CallStack<int, long>;
using S2 = sharemind::CallStack<int>;
using S3 = sharemind::CallStack<std::string, Val3>;
bool g_throw[8];
struct Val3 {
    long v; std::unique_ptr<int> mem{new int(1)};
    Val3() : Val3(0) {}
    explicit Val3(long x) : v(x) { if (g_throw[me()]) { g_throw[me()] = false; throw Boom(); } look(); }
    ~Val3() { undo(); }
    static void look();
    static void undo();
};
std::string str(long k) { return "a key too long to be short, number " + std::to_string(k); }
long num(std::string const & s) { return std::stol(s.substr(s.rfind(' '))); }

template <int> struct Use;
template <> struct Use<1> {
    using S = S1;
    static long key(S::Context const & c) { return c.key(); }
    static long val(S::Context const & c) { return c.value(); }
    static void setVal(S::Context & c, long v) { c.value() = v; }
    static void setKey(S::Context & c, long k) { c.key() = static_cast<int>(k); }
    static S::Context * find(long k) { return coin() ? S::contains(k) : S::contains(static_cast<int>(k)); }
};
template <> struct Use<2> {
    using S = S2;
    static long key(S::Context const & c) { return c.key(); }
    static long val(S::Context const &) { return 0; }
    static void setVal(S::Context &, long) {}
    static void setKey(S::Context & c, long k) { c.key() = static_cast<int>(k); }
    static S::Context * find(long k) { return S::contains(static_cast<short>(k)); }
};
template <> struct Use<3> {
    using S = S3;
    static long key(S::Context const & c) { return num(c.key()); }
    static long val(S::Context const & c) { return c.value().v; }
    static void setVal(S::Context & c, long v) { c.value().v = v; }
    static void setKey(S::Context & c, long k) { c.key() = str(k); }
    static S::Context * find(long k) { return S::contains(str(k)); }
};
template <int n> void look(char const * how = "look") {
    std::vector<L> all;
    for (auto * c = Use<n>::S::top(); c; c = c->next()) all.push_back(L{Use<n>::key(*c), Use<n>::val(*c)});
    E(how) << me() << n << all;
}
void Val3::look() { ::look<3>(); }
void Val3::undo() { ::look<3>("undo"); }

void act(int depth, int & budget);
template <int n> struct Enter;
template <> struct Enter<1> {
    static void go(int d, int & b, long k, long v) {
        if (coin()) { S1::Context const c(static_cast<int>(k), v); E("in") << me() << 1 << k << v; act(d, b); E("out") << me() << 1; }
        else { short const sk = static_cast<short>(k); S1::Context c(sk, 0); c.value() = v; E("in") << me() << 1 << k << v; act(d, b); E("out") << me() << 1; }
    }
};
template <> struct Enter<2> {
    static void go(int d, int & b, long k, long) { S2::Context const c(static_cast<int>(k)); E("in") << me() << 2 << k << 0; act(d, b); E("out") << me() << 2; }
};
template <> struct Enter<3> {
    static void go(int d, int & b, long k, long v) {
        g_throw[me()] = vs::rnd(6) == 0;
        bool in = false;
        try {
            if (v) { S3::Context const c(str(k), v); in = true; E("in") << me() << 3 << k << v; act(d, b); E("out") << me() << 3; }
            else { S3::Context const c(str(k)); in = true; E("in") << me() << 3 << k << 0; act(d, b); E("out") << me() << 3; }
        } catch (Boom const &) {
            if (in) throw;
            E("inx") << me() << 3;
        }
    }
};
template <int n> void use() {
    using U = Use<n>;
    long const k = 1 + vs::rnd(3), v = vs::rnd(50);
    switch (vs::rnd(4)) {
    case 0: look<n>(); break;
    case 1: {
        auto * c = U::find(k);
        long at = 0; bool in = false;
        for (auto * x = U::S::top(); x; x = x->next()) { ++at; if (x == c) { in = true; break; } }
        E("find") << me() << n << k << (c ? (in ? at : -1) : 0);
        break; }
    case 2: if (n != 2 && U::S::top()) { U::setVal(*U::S::top(), v); E("val") << me() << n << 1 << v; } break;
    case 3: if (U::S::top() && U::S::top()->next()) { U::setKey(*U::S::top()->next(), k); E("key") << me() << n << 2 << k; } break;
    }
}
void act(int depth, int & budget) {
    while (--budget > 0) {
        vs::point();
        switch (vs::rnd(depth < 6 ? 11 : 7)) {
        case 0: case 1: use<1>(); break;
        case 2: use<2>(); break;
        case 3: case 4: use<3>(); break;
        case 5: if (depth) return; break;
        case 6: if (depth && vs::rnd(3) == 0) { E("boom") << me(); throw Boom(); } break;
        default: {
            long const k = 1 + vs::rnd(3), v = vs::rnd(3) ? vs::rnd(50) : 0;
            bool const guard = vs::rnd(3) == 0;
            if (guard) E("try") << me();
            try {
                switch (vs::rnd(3)) {
                case 0: Enter<1>::go(depth + 1, budget, k, v); break;
                case 1: Enter<2>::go(depth + 1, budget, k, v); break;
                case 2: Enter<3>::go(depth + 1, budget, k, v); break;
                }
            } catch (Boom const &) {
                if (!guard) throw;
                E("caught") << me(); look<1>(); look<2>(); look<3>();
                break;
            }
            if (guard) E("tried") << me();
            break; }
        }
    }
}
void thread(int budget) {
    try { act(0, budget); } catch (Boom const &) {}
    E("idle") << me(); look<1>(); look<2>(); look<3>();
}
void seqs(int v) { for (auto & x : g_throw) x = false; thread(v == 0 ? 12 : 40); }
void conc(int v) {
    for (auto & x : g_throw) x = false;
    int const n = v == 0 ? 2 : 3;
    std::unique_ptr<std::thread> t[3];
    for (int i = 0; i < n; ++i) t[i].reset(new std::thread([v] { thread(v == 0 ? 5 : 12); }));
    thread(4);
    for (int i = 0; i < n; ++i) t[i]->join();
    if (v == 2) { // a later thread starts with empty stacks
        std::thread([] { thread(6); }).join();
    }
}
vs::Reg r1("seq", 2, &seqs), r2("conc", 3, &conc);
} // namespace

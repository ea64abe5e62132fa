// Conformance driver for Future.h (spec/Future.tla).  Futures and promises live
// in numbered slots; slots 11, 12 hold packaged tasks.
#include <vsched.h>
#include <chrono>
#include <cstdint>
#include <memory>
#include <string>
#include <thread>
#include <vector>
#include <sharemind/Future.h>
using namespace sharemind;
namespace {
struct Ex { int n; };
struct Throw {};
int g_objs;
__attribute__((no_sanitize("thread"), noinline)) void count(int d) { g_objs += d; }
struct Obj {
    std::unique_ptr<int> p; // owns memory, so that loss and double destruction show
    explicit Obj(int n) : p(new int(n)) { count(1); }
    Obj(Throw) { throw Ex{99}; }
    Obj(Obj && o) noexcept : p(std::move(o.p)) { count(1); }
    Obj & operator=(Obj &&) noexcept = default;
    ~Obj() { count(-1); }
};
// Copied as well as moved; must lie at its alignment.
struct alignas(16) Wide {
    std::shared_ptr<int> p; unsigned char fill[64];
    bool placed() const { std::uintptr_t volatile const a = reinterpret_cast<std::uintptr_t>(this); return a % 16 == 0; }
    explicit Wide(int n) : p(std::make_shared<int>(n)) { count(1); paint(); }
    Wide(int n, std::unique_ptr<int> add) : p(std::make_shared<int>(n + *add)) { count(1); paint(); }
    Wide(Throw) { throw Ex{99}; }
    Wide(Wide const & o) : p(o.p) { count(1); paint(); }
    Wide(Wide && o) noexcept : p(std::move(o.p)) { count(1); paint(); }
    Wide & operator=(Wide const &) = default;
    Wide & operator=(Wide &&) = default;
    ~Wide() { count(-1); }
    void paint() { if (!placed()) std::abort(); for (auto & c : fill) c = 0x5a; }
    bool whole() const { for (auto c : fill) if (c != 0x5a) return false; return placed(); }
};
std::string outc(char const * k, int n)
{ return "[\"" + std::string(k) + "\"," + std::to_string(n) + "]"; }

template <typename T> struct V;
template <> struct V<Obj> {
    static void set(Promise<Obj> & p, int n) { p.setValue(Obj(n)); }
    static int take(Future<Obj> & f) { Obj o(f.takeValue()); return o.p ? *o.p : -7; }
    static Future<Obj> make(int n) { return makeReadyFuture(Obj(n)); }
    static Obj value(int n) { return Obj(n); }
    static int norm(int n) { return n; }
    static bool setThrowing(Promise<Obj> & p) {
        try { p.emplaceValue(Throw()); } catch (Ex const & e) { return e.n == 99; }
        return false;
    }
};
template <> struct V<void> {
    static void set(Promise<void> & p, int n)
    { if (n & 1) p.setReady(); else p.setValue(); }
    static int take(Future<void> & f) { f.takeValue(); return 0; }
    static Future<void> make(int) { return makeReadyFuture(); }
    static void value(int) {}
    static int norm(int) { return 0; }
    static bool setThrowing(Promise<void> &) { return true; }
};
template <> struct V<Wide> {
    static void set(Promise<Wide> & p, int n) {
        switch (vs::rnd(4)) {
        case 0: p.setValue(Wide(n)); break;
        case 1: { Wide const w(n); p.setValue(w); if (!w.p || *w.p != n) std::abort(); break; } // which keeps its value
        case 2: p.emplaceValue(n); break;
        case 3: p.emplaceValue(n - 3, std::unique_ptr<int>(new int(3))); break;
        }
    }
    static int take(Future<Wide> & f) { Wide const o(f.takeValue()); return o.p && o.whole() ? *o.p : -7; }
    static Future<Wide> make(int n) {
        Wide w(n);
        switch (vs::rnd(3)) {
        case 0: return makeReadyFuture(std::move(w));
        case 1: { auto f(makeReadyFuture(w)); if (!w.p || *w.p != n) std::abort(); return f; }
        default: { Wide const & c = w; auto f(makeReadyFuture(c)); if (!w.p || *w.p != n) std::abort(); return f; }
        }
    }
    static Wide value(int n) { return Wide(n); }
    static int norm(int n) { return n; }
    static bool setThrowing(Promise<Wide> & p) {
        try { p.emplaceValue(Throw()); } catch (Ex const & e) { return e.n == 99; }
        return false;
    }
};
template <> struct V<int> {
    static void set(Promise<int> & p, int n) { if (n & 1) p.setValue(int(n)); else { short const c = static_cast<short>(n); p.emplaceValue(c); } }
    static int take(Future<int> & f) { return f.takeValue(); }
    static Future<int> make(int n) { return makeReadyFuture(n); }
    static int value(int n) { return n; }
    static int norm(int n) { return n; }
    static bool setThrowing(Promise<int> &) { return true; }
};
template <typename T> std::string taken(Future<T> & f) {
    try { return outc("val", V<T>::take(f)); }
    catch (Ex const & e) { return outc("exc", e.n); }
    catch (BrokenPromiseException const &) { return outc("broken", 0); }
    catch (...) { return outc("other", 0); }
}
// Operations with their events; t is the calling thread of the history.
struct Scope {
    int t; std::string r;
    Scope(int t_, char const * op, int a, int b = 0) : t(t_), r("0")
    { vs::ev({"c", t, op, a, b}); }
    ~Scope() { if (std::uncaught_exception()) r = "-1";
        vs::evRaw("[\"r\"," + std::to_string(t) + "," + r + "]"); }
};
template <typename T> struct World {
    using Task = PackagedTask<Obj(int, int)>; // the value type of tasks is Obj
    std::unique_ptr<Promise<T>> p[10];
    Future<T> f[10];
    int cont = 0;

    void newp(int t, int i) { Scope s(t, "newp", i); p[i].reset(new Promise<T>()); }
    void delp(int t, int i) { Scope s(t, "delp", i); p[i].reset(); }
    void movp(int t, int d, int i) {
        Scope s(t, "movp", d, i);
        if (p[d]) *p[d] = std::move(*p[i]); else p[d].reset(new Promise<T>(std::move(*p[i])));
    }
    void swpp(int t, int a, int b) {
        Scope s(t, "swpp", a, b);
        if (t & 1) p[a]->swap(*p[b]); else std::swap(*p[a], *p[b]);
    }
    void takf(int t, int i, int j) { Scope s(t, "takf", i, j); f[i] = p[j]->takeFuture(); }
    void setv(int t, int i, int n) { Scope s(t, "setv", i, V<T>::norm(n)); V<T>::set(*p[i], n); }
    void sett(int t, int i) {
        Scope s(t, "sett", i); if (!V<T>::setThrowing(*p[i])) s.r = "-1";
    }
    void sete(int t, int i, int n) {
        Scope s(t, "sete", i, n);
        if (n & 1) p[i]->setException(Ex{n});
        else p[i]->setException(std::make_exception_ptr(Ex{n}));
    }
    void aban(int t, int i) { Scope s(t, "aban", i); p[i]->abandon(); }
    bool pval(int t, int i) {
        Scope s(t, "pval", i); bool const r = p[i] && p[i]->isValid();
        s.r = std::to_string(r); return r;
    }
    bool phas(int t, int i) {
        Scope s(t, "phas", i); bool const r = p[i] && p[i]->hasFuture();
        s.r = std::to_string(r); return r;
    }
    void delf(int t, int i) { Scope s(t, "delf", i); Future<T> x(std::move(f[i])); }
    void movf(int t, int d, int i) { Scope s(t, "movf", d, i); f[d] = std::move(f[i]); }
    void swpf(int t, int a, int b) {
        Scope s(t, "swpf", a, b);
        if (t & 1) f[a].swap(f[b]); else std::swap(f[a], f[b]);
    }
    void mkv(int t, int i, int n)
    { Scope s(t, "mkv", i, V<T>::norm(n)); f[i] = V<T>::make(n); }
    void mke(int t, int i, int n) {
        Scope s(t, "mke", i, n);
        if (n & 1) f[i] = makeExceptionalFuture<T>(std::make_exception_ptr(Ex{n}));
        else f[i] = makeExceptionalFuture<T>(Ex{n});
    }
    void mkb(int t, int i) { Scope s(t, "mkb", i); f[i] = makeBrokenFuture<T>(); }
    bool fval(int t, int i) {
        Scope s(t, "fval", i); bool const r = f[i].isValid(); s.r = std::to_string(r); return r;
    }
    bool frdy(int t, int i) {
        Scope s(t, "frdy", i); bool const r = f[i].isReady(); s.r = std::to_string(r); return r;
    }
    void wait(int t, int i) { Scope s(t, "wait", i); f[i].wait(); }
    void wfor(int t, int i, int ms) {
        Scope s(t, "wfor", i, ms);
        long const t0 = vs::nowMs();
        bool const r = (ms & 1)
            ? f[i].waitFor(std::chrono::milliseconds(ms))
            : f[i].waitUntil(std::chrono::steady_clock::now() + std::chrono::milliseconds(ms));
        s.r = "[" + std::to_string(r) + "," + std::to_string(vs::nowMs() - t0) + "]";
    }
    void take(int t, int i) { Scope s(t, "take", i); s.r = taken(f[i]); }

    void ran(int c, char const * k, int x) { vs::ev({"ran", c, k, x}); }
    void run(int c, Future<T> & in)
    { vs::failAlloc(0); vs::evRaw("[\"run\"," + std::to_string(c) + "," + taken(in) + "]"); }
    // kind 0: returns a value, 1: throws, 2: returns the future of slot `from`
    void then(int t, int i, int g, int kind, int from = 0) {
        int const c = ++cont;
        Scope s(t, "then", i, g * 100 + c);
        if (kind == 2)
            f[g] = f[i].then([this, c, from](Future<T> in) {
                run(c, in);
                ran(c, "fut", from);
                return Future<T>(std::move(f[from]));
            });
        else
            f[g] = f[i].then([this, c, kind](Future<T> && in) {
                run(c, in);
                if (kind == 1) { ran(c, "exc", 200 + c); throw Ex{200 + c}; }
                ran(c, "val", V<T>::norm(100 + c));
                return V<T>::value(100 + c);
            });
    }
    // A continuation of another type, and one of that of the first; kind 0:
    // values, 1: the first throws.  Functions of its own, passed as they are.
    template <typename U> void via(int t, int i, int g, int kind) {
        int const c = ++cont; std::shared_ptr<int> keep(new int(c));
        Future<U> mid;
        {
            Scope s(t, "then", i, 900 + c);
            std::shared_ptr<int> own(new int(c)); std::weak_ptr<int> const held(own);
            auto fun = [this, c, kind, keep, own](Future<T> in) -> U {
                run(c, in);
                if (*keep != c || *own != c) std::abort();
                if (kind == 1) { ran(c, "exc", 200 + c); throw Ex{200 + c}; }
                ran(c, "val", V<U>::norm(100 + c));
                return V<U>::value(100 + c);
            };
            own.reset();
            if (kind) mid = f[i].then(fun); else { auto const & k = fun; mid = f[i].then(k); }
            if (held.expired()) std::abort(); // taken out of the caller's function
        }
        int const d = ++cont;
        Scope s(t, "then", 9, g * 100 + d);
        f[g] = mid.then([this, d, keep](Future<U> && in) -> T {
            vs::failAlloc(0); vs::evRaw("[\"run\"," + std::to_string(d) + "," + taken(in) + "]");
            ran(d, "val", V<T>::norm(100 + d));
            return V<T>::value(100 + d);
        });
    }
    void clear(int t) {
        for (int i = 1; i < 10; ++i) if (p[i]) delp(t, i);
        for (int i = 1; i < 10; ++i) if (f[i].isValid()) delf(t, i);
    }
};
void balance() { vs::ev({"balance", g_objs}); }

template <typename T> void seqT(int steps, bool chains) {
    g_objs = 0;
    {
        World<T> w;
        for (int i = 0; i < steps; ++i) {
            int const a = 1 + vs::rnd(3), b = 1 + vs::rnd(3), n = 10 + i, t = 1 + vs::rnd(2);
            switch (vs::rnd(chains ? 28 : 24)) {
            case 0: case 1: w.newp(t, a); break;
            case 2: if (w.p[a] && vs::rnd(2)) w.delp(t, a); break;
            case 3: if (a != b && w.p[a]) w.movp(t, b, a); break;
            case 4: if (w.p[a] && w.p[b]) w.swpp(t, a, b); break;
            case 5: case 6: case 7: case 8: if (w.phas(t, b)) w.takf(t, a, b); break;
            case 9: case 10: if (w.pval(t, a)) w.setv(t, a, n); break;
            case 11: if (w.pval(t, a)) w.sett(t, a); break;
            case 12: if (w.pval(t, a)) w.sete(t, a, n); break;
            case 13: if (w.pval(t, a)) w.aban(t, a); break;
            case 14: if (vs::rnd(2)) w.delf(t, a); break;
            case 15: if (a != b) w.movf(t, b, a); break;
            case 16: w.swpf(t, a, b); break;
            case 17: if (vs::rnd(2)) w.mkv(t, a, n); break;
            case 18: if (vs::rnd(2)) { if (vs::rnd(2)) w.mke(t, a, n); else w.mkb(t, a); } break;
            case 19: if (w.fval(t, a)) w.wfor(t, a, 3 + vs::rnd(4)); break;
            case 20: case 21: case 22: case 23:
                if (w.fval(t, a) && w.frdy(t, a)) { if (vs::rnd(3)) w.take(t, a); else w.wait(t, a); }
                break;
            default:
                if (w.fval(t, a)) {
                    // a continuation may return a future only if that is ready
                    int const k = vs::rnd(3);
                    if (k == 2) {
                        int const g = 4 + w.cont; // a slot of its own
                        if (g > 8) break;
                        switch (vs::rnd(4)) {
                        case 0: w.mkv(t, g, n); break;
                        case 1: w.mke(t, g, n); break;
                        case 2: w.mkb(t, g); break;
                        }
                        w.then(t, a, b, 2, g);
                    } else switch (vs::rnd(8)) {
                        case 0: w.template via<int>(t, a, b, k); break;
                        case 1: w.template via<Obj>(t, a, b, k); break;
                        case 2: w.template via<void>(t, a, b, k); break;
                        case 3: w.template via<Wide>(t, a, b, k); break;
                        default: w.then(t, a, b, k);
                    }
                }
            }
        }
        w.clear(1);
    }
    balance();
}
void seqV(int v, int steps, bool chains) {
    switch (v) {
    case 0: seqT<Obj>(steps, chains); break;
    case 1: seqT<void>(steps, chains); break;
    case 2: seqT<Wide>(steps, chains); break;
    case 3: seqT<int>(steps, chains); break;
    }
}
void seq(int v) { seqV(v, 34, false); }
void seqc(int v) { seqV(v, 28, true); }

// Every allocating operation, with one allocation failing.
template <typename T, typename F> void oom(F op) {
    vs::ev({"oom"});
    vs::failAlloc(1 + vs::rnd(4));
    try { op(); } catch (std::bad_alloc const &) {}
    vs::failAlloc(0);
}
template <typename T> void allocT() {
    g_objs = 0;
    {
        World<T> w;
        for (int i = 0; i < 24; ++i) {
            int const a = 1 + vs::rnd(3), b = 1 + vs::rnd(3), n = 10 + i;
            switch (vs::rnd(12)) {
            case 0: case 1: oom<T>([&] { w.newp(1, a); }); break;
            case 2: oom<T>([&] { w.mke(1, a, n); }); break;
            case 3: oom<T>([&] { w.mkb(1, a); }); break;
            case 4: case 5: case 6: if (w.fval(1, a)) { int const k = vs::rnd(2); oom<T>([&] { w.then(1, a, b, k); }); } break;
            case 7: case 8: if (w.phas(1, b)) w.takf(1, a, b); break;
            case 9: if (w.pval(1, a)) w.setv(1, a, n); break;
            case 10: if (w.pval(1, a)) w.sete(1, a, n); break;
            default: if (w.fval(1, a) && w.frdy(1, a)) w.take(1, a);
            }
        }
        w.clear(1);
    }
    balance();
}
void alloc(int v) { if (v) allocT<void>(); else allocT<Obj>(); }

template <typename T> void finishPromise(World<T> & w, int t, int i, unsigned how) {
    switch (how) {
    case 0: w.setv(t, i, 5); break;
    case 1: w.sete(t, i, 6); break;
    case 2: w.aban(t, i); break;
    case 3: w.delp(t, i); break;
    case 4: w.newp(t, 9); w.movp(t, i, 9); break;
    default: w.sett(t, i); w.setv(t, i, 5); break;
    }
}
// One promise, waiters on its future, one more takes; variants: who and how.
template <typename T> void concT(int v) {
    g_objs = 0;
    if (vs::strictTime()) vs::ev({"strict"});
    {
        World<T> w;
        std::vector<std::thread> ts; ts.reserve(6);
        w.newp(0, 1);
        w.takf(0, 1, 1);
        unsigned const how = vs::rnd(6);
        int const ms = 1 + vs::rnd(6), slp = vs::rnd(8);
        switch (v) {
        case 0: // two plain waiters, one poller
            for (int t = 1; t <= 2; ++t)
                ts.emplace_back([&w, t] { w.wait(t, 1); w.frdy(t, 1); });
            ts.emplace_back([&w] { w.frdy(3, 1); w.frdy(3, 1); });
            ts.emplace_back([&w, how] { finishPromise(w, 4, 1, how); });
            break;
        case 1: // taker
            ts.emplace_back([&w] { w.take(1, 1); });
            ts.emplace_back([&w, how] { finishPromise(w, 4, 1, how); });
            break;
        case 2: // timed waiters and a plain one
            ts.emplace_back([&w, ms] { w.wfor(1, 1, ms); w.wfor(1, 1, 3); });
            ts.emplace_back([&w, ms] { w.wfor(2, 1, ms + 1); w.wait(2, 1); });
            ts.emplace_back([&w, how, slp] { vs::sleepMs(slp); finishPromise(w, 4, 1, how); });
            break;
        case 3: // three waiters
            for (int t = 1; t <= 3; ++t) ts.emplace_back([&w, t] { w.wait(t, 1); });
            ts.emplace_back([&w, how] { finishPromise(w, 4, 1, how); });
            break;
        case 4: // the future is dropped, moved or swapped while the promise is kept
            ts.emplace_back([&w] {
                switch (vs::rnd(3)) {
                case 0: w.delf(1, 1); break;
                case 1: w.movf(1, 2, 1); w.take(1, 2); break;
                default: w.swpf(1, 1, 2); w.wait(1, 2);
                }
            });
            ts.emplace_back([&w, how] { finishPromise(w, 4, 1, how); });
            break;
        case 5: // nobody ever sets it: the waiters sleep for ever
            ts.emplace_back([&w, ms] { w.wfor(1, 1, ms); w.wait(1, 1); });
            break;
        case 6: // the future is taken from the promise only while the outcome is set
            w.newp(0, 2);
            ts.emplace_back([&w] { w.wait(1, 1); w.take(1, 1); });
            ts.emplace_back([&w, how] { w.setv(4, 2, 8); w.takf(4, 2, 2); w.take(4, 2);
                                        finishPromise(w, 4, 1, how); });
            break;
        }
        for (auto & t : ts) t.join();
        if (v == 0 || v == 3) w.take(0, 1);
        w.clear(0);
    }
    balance();
}
void conc(int v) { if (v >= 7) concT<void>(v - 7); else concT<Obj>(v); }

// Continuations.
template <typename T> void contT(int v) {
    g_objs = 0;
    {
        World<T> w;
        std::vector<std::thread> ts; ts.reserve(6);
        w.newp(0, 1);
        w.takf(0, 1, 1);
        unsigned const how = vs::rnd(6), kind = vs::rnd(2);
        switch (v) {
        case 0: // attaching against completing; result taken
            ts.emplace_back([&w, kind] { w.then(1, 1, 2, kind); w.take(1, 2); });
            ts.emplace_back([&w, how] { finishPromise(w, 4, 1, how); });
            break;
        case 1: // a chain of three
            ts.emplace_back([&w, kind] {
                w.then(1, 1, 2, kind); w.then(1, 2, 3, 0); w.then(1, 3, 4, kind); w.take(1, 4); });
            ts.emplace_back([&w, how] { finishPromise(w, 4, 1, how); });
            break;
        case 2: // a continuation returning a future set by a third thread
            w.newp(0, 2); w.takf(0, 5, 2);
            ts.emplace_back([&w] { w.then(1, 1, 2, 2, 5); w.take(1, 2); });
            ts.emplace_back([&w, how] { finishPromise(w, 4, 1, how); });
            ts.emplace_back([&w] { finishPromise(w, 3, 2, vs::rnd(4)); });
            break;
        case 3: // result dropped
            ts.emplace_back([&w, kind] { w.then(1, 1, 2, kind); w.delf(1, 2); });
            ts.emplace_back([&w, how] { finishPromise(w, 4, 1, how); });
            break;
        case 4: // one thread attaches, another waits for the derived future
            w.then(0, 1, 2, kind);
            ts.emplace_back([&w] { w.wait(1, 2); });
            ts.emplace_back([&w] { w.wait(2, 2); });
            ts.emplace_back([&w, how] { finishPromise(w, 4, 1, how); });
            break;
        case 5: // attached to a future that is ready
            w.setv(0, 1, 7);
            ts.emplace_back([&w, kind] { w.then(1, 1, 2, kind); w.take(1, 2); });
            break;
        case 6: // an empty future returned
            ts.emplace_back([&w] { w.then(1, 1, 2, 2, 6); w.take(1, 2); });
            ts.emplace_back([&w, how] { finishPromise(w, 4, 1, how); });
            break;
        }
        for (auto & t : ts) t.join();
        w.clear(0);
    }
    balance();
}
void cont(int v) { if (v >= 7) contT<void>(v - 7); else contT<Obj>(v); }

// Packaged tasks (slots 11, 12).
using Task = PackagedTask<Obj(int, int)>;
struct Fun {
    std::shared_ptr<int> keep{new int(1)};
    Obj operator()(int t, int n) {
        if (n < 0) {
            vs::evRaw("[\"fn\"," + std::to_string(t) + "," + outc("exc", -n) + "]");
            throw Ex{-n};
        }
        vs::evRaw("[\"fn\"," + std::to_string(t) + "," + outc("val", n) + "]");
        return Obj(n);
    }
};
struct Tasks {
    std::unique_ptr<Task> k[2];
    World<Obj> w;
    void newp(int t, int i, bool has = true) {
        Scope s(t, has ? "newp" : "delp", 11 + i);
        k[i].reset(has ? new Task(Fun()) : new Task());
    }
    void delp(int t, int i) { Scope s(t, "delp", 11 + i); k[i].reset(); }
    void movp(int t, int d, int i) {
        Scope s(t, "movp", 11 + d, 11 + i);
        if (k[d]) *k[d] = std::move(*k[i]); else k[d].reset(new Task(std::move(*k[i])));
    }
    void swpp(int t) {
        Scope s(t, "swpp", 11, 12);
        if (t & 1) k[0]->swap(*k[1]); else std::swap(*k[0], *k[1]);
    }
    void reset(int t, int i) { Scope s(t, "newp", 11 + i); k[i]->reset(); }
    void takf(int t, int f, int i) { Scope s(t, "takf", f, 11 + i); w.f[f] = k[i]->takeFuture(); }
    bool pval(int t, int i) {
        Scope s(t, "pval", 11 + i); bool const r = k[i] && k[i]->isValid();
        s.r = std::to_string(r); return r;
    }
    void ptc(int t, int i, int n) { Scope s(t, "ptc", 11 + i); (*k[i])(t, n); }
};
void tasks(int v) {
    g_objs = 0;
    {
        Tasks x;
        if (v == 0) {
            bool fut[2] = {false, false}, fun[2] = {false, false};
            for (int i = 0; i < 30; ++i) {
                int const a = vs::rnd(2), b = 1 - a, f = 1 + vs::rnd(2);
                switch (vs::rnd(13)) {
                case 0: case 1: { bool const h = vs::rnd(4); x.newp(1, a, h); fut[a] = fun[a] = h; break; }
                case 2: if (x.k[a]) { x.delp(1, a); fut[a] = fun[a] = false; } break;
                case 3: if (x.k[b]) { x.movp(1, a, b); fut[a] = fut[b]; fun[a] = fun[b]; fut[b] = fun[b] = false; } break;
                case 4: if (x.k[a] && x.k[b]) { x.swpp(1 + vs::rnd(2)); std::swap(fut[0], fut[1]); std::swap(fun[0], fun[1]); } break;
                case 5: if (fun[a]) { x.reset(1, a); fut[a] = true; } break;
                case 6: case 7: case 8: if (fut[a]) { x.takf(1, f, a); fut[a] = false; } break;
                case 9: case 10: if (x.pval(1, a)) x.ptc(1, a, vs::rnd(2) ? 20 + i : -20 - i); break;
                default: if (x.w.fval(1, f) && x.w.frdy(1, f)) x.w.take(1, f);
                }
            }
        } else {
            std::vector<std::thread> ts; ts.reserve(6);
            x.newp(0, 0);
            x.takf(0, 1, 0);
            int const n = vs::rnd(2) ? 4 : -4;
            bool const moved = vs::rnd(2);
            if (v == 1) {
                ts.emplace_back([&x] { x.w.take(1, 1); });
                ts.emplace_back([&x, n, moved] {
                    if (moved) { x.movp(2, 1, 0); x.ptc(2, 1, n); x.delp(2, 1); }
                    else x.ptc(2, 0, n);
                });
            } else if (v == 2) { // never invoked
                ts.emplace_back([&x] { x.w.wait(1, 1); x.w.take(1, 1); });
                ts.emplace_back([&x, moved] {
                    if (moved) { x.newp(2, 1); x.movp(2, 0, 1); } else x.delp(2, 0); });
            } else { // reset, then used again
                ts.emplace_back([&x] { x.w.take(1, 1); });
                ts.emplace_back([&x, n, moved] {
                    if (moved) x.ptc(2, 0, 3);
                    x.reset(2, 0); x.takf(2, 2, 0); x.ptc(2, 0, n); x.w.take(2, 2); });
            }
            for (auto & t : ts) t.join();
        }
        for (int i = 0; i < 2; ++i) if (x.k[i]) x.delp(0, i);
        x.w.clear(0);
    }
    balance();
}
vs::Reg r1("seq", 4, &seq), r2("seqc", 4, &seqc), r3("conc", 14, &conc), r4("cont", 14, &cont),
        r5("tasks", 4, &tasks), r6("alloc", 2, &alloc);
}

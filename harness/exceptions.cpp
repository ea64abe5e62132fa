// Conformance driver for exceptions, what they say and how they nest
// (spec/Exceptions.tla).
#include "seq.h"
#include <cstring>
#include <map>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <sharemind/DebugVerboseHandlers.h>
#include <sharemind/Exception.h>
#include <sharemind/ExceptionMacros.h>
#include <sharemind/ThrowNested.h>
#include <sharemind/ThrowWithNested.h>
using namespace seq;
namespace {
// Texts are recorded by number: equal numbers, equal texts.
std::map<std::string, long> * g_texts;
long text(std::string const & s) { return g_texts->emplace(s, static_cast<long>(g_texts->size()) + 1).first->second; }

SHAREMIND_DETAIL_DEFINE_EXCEPTION_CONST_MSG(sharemind::Exception, E0, "a message known in advance");
SHAREMIND_DETAIL_DEFINE_EXCEPTION_CONST_STDSTRING(sharemind::Exception, E1);
SHAREMIND_DECLARE_EXCEPTION_CONST_STDSTRING_NOINLINE(std::exception, E2);
SHAREMIND_DEFINE_EXCEPTION_CONST_STDSTRING_NOINLINE(std::exception,, E2);
using E3 = sharemind::ErrnoException;
using E4 = std::runtime_error;
struct E6 final : std::exception { explicit E6(std::string s) : m(std::move(s)) {} char const * what() const noexcept override { return m.c_str(); } std::string m; };
struct E7 { long t; };
SHAREMIND_DECLARE_EXCEPTION_CONST_MSG_NOINLINE(sharemind::Exception, E8);
SHAREMIND_DEFINE_EXCEPTION_CONST_MSG_NOINLINE(sharemind::Exception,, E8, "another one");
struct E9 : std::runtime_error, std::nested_exception { using std::runtime_error::runtime_error; };

long g_no;
std::string say() { return "number " + std::to_string(++g_no) + (coin() ? "" : " of those that are long"); }
// Makers: an exception, and what it is expected to say.
template <int> struct Mk;
template <> struct Mk<0> { using T = E0; static T make(L & d) { d = {0, text("a message known in advance")}; return T(); } };
template <> struct Mk<1> { using T = E1; static T make(L & d) { auto s = say(); d = {1, text(s)}; return T(s); } };
template <> struct Mk<2> { using T = E2; static T make(L & d) {
    auto s = say(); d = {2, text(s)};
    if (coin()) return T(s);
    return T(std::make_shared<std::string const>(s)); } };
template <> struct Mk<3> { using T = E3; static T make(L & d) {
    static int const es[] = {0, 1, 2, 4, 11, 9999, -1, 133};
    int const e = es[vs::rnd(8)];
    d = {3, text(::strerror(e)), e};
    return T(e); } };
template <> struct Mk<4> { using T = E4; static T make(L & d) { auto s = say(); d = {4, text(s)}; return T(s); } };
template <> struct Mk<5> { using T = int; static T make(L & d) { d = {5, text(say())}; return static_cast<int>(d[1]); } };
template <> struct Mk<6> { using T = E6; static T make(L & d) { auto s = say(); d = {6, text(s)}; return T(s); } };
template <> struct Mk<7> { using T = E7; static T make(L & d) { d = {7, text(say())}; return T{d[1]}; } };
template <> struct Mk<8> { using T = E8; static T make(L & d) { d = {8, text("another one")}; return T(); } };
template <> struct Mk<9> { using T = E9; static T make(L & d) { auto s = say(); d = {9, text(s)}; return T(s); } };

L sees(E3 const & e) { return {3, text(e.what()), e.errorNumber()}; }
L sees(int e) { return {5, e}; }
L sees(E7 const & e) { return {7, e.t}; }
L sees(E0 const & e) { return {0, text(e.what())}; }
L sees(E1 const & e) { return {1, text(e.what())}; }
L sees(E2 const & e) { return {2, text(e.what())}; }
L sees(E9 const & e) { return {9, text(e.what())}; }
L sees(E8 const & e) { return {8, text(e.what())}; }
L sees(E6 const & e) { return {6, text(e.what())}; }
L sees(E4 const & e) { return {4, text(e.what())}; }
// What an exception pointer holds, and what that is nested upon.
template <typename T> L look(T const & e, std::exception_ptr & next, L & type) {
    L r = sees(e);
    if (auto * n = dynamic_cast<std::nested_exception const *>(&e)) next = n->nested_ptr();
    type.push_back(text(typeid(e).name()));
    return r;
}
std::vector<L> chain(std::exception_ptr p, L & types) {
    std::vector<L> r;
    while (p) {
        if (r.size() > 20) vs::fail("crash", "endless nesting");
        std::exception_ptr next;
        try { std::rethrow_exception(p); }
        catch (E0 const & e) { r.push_back(look(e, next, types)); }
        catch (E1 const & e) { r.push_back(look(e, next, types)); }
        catch (E2 const & e) { r.push_back(look(e, next, types)); }
        catch (E3 const & e) { r.push_back(look(e, next, types)); }
        catch (E6 const & e) { L x = sees(e); types.push_back(text(typeid(e).name())); r.push_back(x); }
        catch (E8 const & e) { r.push_back(look(e, next, types)); }
        catch (E9 const & e) { r.push_back(look(e, next, types)); }
        catch (E4 const & e) { r.push_back(look(e, next, types)); }
        catch (E7 const & e) {
            r.push_back(sees(e)); types.push_back(0);
            try { std::rethrow_exception(p); }
            catch (std::nested_exception const & n) { next = n.nested_ptr(); }
            catch (...) {}
        }
        catch (int e) { r.push_back(sees(e)); types.push_back(0); }
        catch (...) { r.push_back({-1, 0}); types.push_back(0); }
        p = next;
    }
    return r;
}
void print(std::exception_ptr p) {
    std::ostringstream oss;
    sharemind::verbosePrintException(p, oss);
    std::istringstream in(oss.str());
    std::vector<L> lines; std::string line; bool gaveUp = false;
    while (std::getline(in, line)) {
        if (line.compare(0, 4, "... ") == 0) { gaveUp = true; continue; }
        auto const a = line.find(": ["), b = line.find("]");
        if (gaveUp || a == std::string::npos || b == std::string::npos || b < a) { lines.push_back({-1, 0, 0}); continue; }
        L x{std::stol(line.substr(0, a)), text(line.substr(a + 3, b - a - 3))};
        x.push_back(line.size() > b + 1 ? text(line.substr(b + 2)) : 0);
        lines.push_back(x);
    }
    E("print") << lines << gaveUp;
}
void caught(char const * how, std::vector<L> const & base, std::vector<L> const & args, std::vector<L> const & left) {
    std::exception_ptr p = std::current_exception();
    L types;
    std::vector<L> c = chain(p, types);
    E("throw") << how << base << args << left << c;
    E("types") << types;
    print(p);
}
// How: "n": throwNested(); "w": throwWithNested() with nothing to nest upon;
// "i": throwWithNested() while handling another exception; "m": throwNested() then.
template <typename F> void nest(char const * how, F const & f) {
    std::vector<L> base;
    if (how[0] == 'i' || how[0] == 'm') {
        try {
            L d;
            try {
                switch (vs::rnd(4)) {
                case 0: { auto e = Mk<1>::make(d); base.push_back(d); throw e; }
                case 1: { auto e = Mk<5>::make(d); base.push_back(d); throw e; }
                case 2: { auto e = Mk<7>::make(d); base.push_back(d); throw e; }
                default: { auto e = Mk<3>::make(d); base.push_back(d); throw e; }
                }
            } catch (...) { f(base); }
        } catch (...) { vs::fail("crash", "exception out of place"); }
    } else f(base);
}
template <typename ... T> [[noreturn]] void go(char how, T && ... e) {
    if (how == 'n' || how == 'm') sharemind::throwNested(std::forward<T>(e)...);
    sharemind::throwWithNested(std::forward<T>(e)...);
}
template <int a> void one(char const * how) {
    nest(how, [how](std::vector<L> const & base) {
        L d; auto e = Mk<a>::make(d);
        std::vector<L> args{d}, left;
        bool const keep = coin();
        try { if (keep) go(how[0], e); go(how[0], std::move(e)); }
        catch (...) { if (keep) left = {sees(e)}; caught(how, base, args, left); }
    });
}
template <int a, int b> void two(char const * how) {
    nest(how, [how](std::vector<L> const & base) {
        L d1, d2; auto e1 = Mk<a>::make(d1); auto const e2 = Mk<b>::make(d2);
        std::vector<L> args{d1, d2}, left;
        bool const keep = coin();
        try { if (keep) go(how[0], e1, e2); go(how[0], std::move(e1), e2); }
        catch (...) { if (keep) left = {sees(e1), sees(e2)}; caught(how, base, args, left); }
    });
}
template <int a, int b, int c> void three(char const * how) {
    nest(how, [how](std::vector<L> const & base) {
        L d1, d2, d3; auto e1 = Mk<a>::make(d1); auto e2 = Mk<b>::make(d2); auto e3 = Mk<c>::make(d3);
        std::vector<L> args{d1, d2, d3};
        try { go(how[0], std::move(e1), std::move(e2), std::move(e3)); }
        catch (...) { caught(how, base, args, {}); }
    });
}
template <int a, int b, int c, int d, int e> void five(char const * how) {
    nest(how, [how](std::vector<L> const & base) {
        L x[5]; auto e1 = Mk<a>::make(x[0]); auto e2 = Mk<b>::make(x[1]); auto e3 = Mk<c>::make(x[2]); auto e4 = Mk<d>::make(x[3]); auto e5 = Mk<e>::make(x[4]);
        std::vector<L> args{x[0], x[1], x[2], x[3], x[4]};
        try { go(how[0], e1, std::move(e2), e3, std::move(e4), e5); }
        catch (...) { caught(how, base, args, {}); }
    });
}
using Fn = void (*)(char const *);
template <int a, int ... b> void fill2(std::vector<Fn> & v, std::integer_sequence<int, b...>) { for (Fn f : {&two<a, b>...}) v.push_back(f); }
template <int ... a> void fill1(std::vector<Fn> & v, std::vector<Fn> & w, std::integer_sequence<int, a...> s) {
    for (Fn f : {&one<a>...}) v.push_back(f);
    (void) std::initializer_list<int>{(fill2<a>(w, s), 0)...};
}
template <int a, int b> void fill3(std::vector<Fn> & v) { for (Fn f : {&three<a, b, 1>, &three<a, b, 3>, &three<a, b, 5>, &three<a, b, 6>, &three<a, b, 7>}) v.push_back(f); }
template <int a> void fill4(std::vector<Fn> & v) { fill3<a, 1>(v); fill3<a, 3>(v); fill3<a, 5>(v); fill3<a, 6>(v); fill3<a, 7>(v); }

void start(std::map<std::string, long> & texts) { g_texts = &texts; g_no = 0; }
void nesting(int) {
    std::map<std::string, long> texts; start(texts);
    std::vector<Fn> f1, f2, f3, f5;
    fill1(f1, f2, std::make_integer_sequence<int, 10>());
    fill4<1>(f3); fill4<9>(f3); fill4<7>(f3);
    for (Fn f : {&five<1, 1, 2, 4, 0>, &five<5, 8, 3, 7, 1>, &five<1, 6, 2, 4, 3>, &five<9, 1, 4, 9, 2>}) f5.push_back(f);
    for (int step = 0; step < 4; ++step) {
        char const * how = vs::rnd(4) == 0 ? "w" : coin() ? "i" : coin() ? "n" : "m";
        switch (vs::rnd(6)) {
        case 0: f1[vs::rnd(unsigned(f1.size()))](how); break;
        case 1: case 2: f2[vs::rnd(unsigned(f2.size()))](how); break;
        case 3: f3[vs::rnd(unsigned(f3.size()))](how); break;
        case 4: f5[vs::rnd(unsigned(f5.size()))](how); break;
        default:
            nest("i", [](std::vector<L> const & base) {
                try { sharemind::throwWithNested(); } catch (...) { caught("i", base, {}, {}); }
            });
        }
    }
}
template <typename T> T * mk(std::string const & m, std::shared_ptr<std::string const> const &) { return new T(m); }
template <> E2 * mk<E2>(std::string const & m, std::shared_ptr<std::string const> const & p) { return p ? new E2(p) : new E2(m); }
// Exceptions copied, assigned and destroyed in any order.
template <typename T> void messages() {
    constexpr int N = 4;
    std::unique_ptr<T> s[N];
    auto all = [&] {
        std::vector<L> r;
        for (auto & x : s) r.push_back(x ? sees(*x) : L{});
        E("msgs") << r;
    };
    for (int step = 0; step < 12; ++step) {
        unsigned const a = vs::rnd(N), b = vs::rnd(N);
        switch (vs::rnd(5)) {
        case 0: case 1: {
            std::string const m = say(); long const t = text(m);
            s[a].reset();
            std::unique_ptr<T> n;
            std::shared_ptr<std::string const> const given(vs::rnd(3) == 0 && std::is_same<T, E2>::value ? std::make_shared<std::string const>(m) : nullptr);
            bool const failed = starved(vs::rnd(3) == 0 ? 1 + vs::rnd(3) : 0, [&] { n.reset(mk<T>(m, given)); });
            s[a] = std::move(n);
            E("make") << a << (failed ? 0 : t);
            break;
        }
        case 2: if (s[b] && a != b) { s[a].reset(new T(*s[b])); E("copy") << a << b; } break;
        case 3: if (s[a] && s[b]) { T & r = (*s[a] = *s[b]); if (&r != s[a].get()) vs::fail("crash", "assigned to another"); E("copy") << a << b; } break;
        default: s[a].reset(); E("make") << a << 0;
        }
        all();
    }
}
void said(int v) {
    std::map<std::string, long> texts; start(texts);
    if (v == 0) messages<E1>(); else messages<E2>();
}
// Handlers put back as they were.
void handlers(int) {
    auto const t0 = std::get_terminate(); auto const u0 = std::get_unexpected();
    {
        sharemind::ScopedDebugVerboseHandlers h1;
        bool const in1 = std::get_terminate() == &sharemind::verboseTerminateHandler && std::get_unexpected() == &sharemind::verboseUnexpectedHandler;
        {
            sharemind::ScopedDebugVerboseHandlers h2;
            if (!(std::get_terminate() == &sharemind::verboseTerminateHandler)) vs::fail("crash", "handler not set");
        }
        bool const in2 = std::get_terminate() == &sharemind::verboseTerminateHandler && std::get_unexpected() == &sharemind::verboseUnexpectedHandler;
        E("handlers") << in1 << in2;
    }
    E("handlers") << (std::get_terminate() == t0) << (std::get_unexpected() == u0);
    sharemind::enableDebugVerboseHandlers();
    bool const in = std::get_terminate() == &sharemind::verboseTerminateHandler && std::get_unexpected() == &sharemind::verboseUnexpectedHandler;
    std::set_terminate(t0); std::set_unexpected(u0);
    E("handlers") << in << in;
}
vs::Reg r1("nesting", 1, &nesting), r2("said", 2, &said), r3("handlers", 1, &handlers);
} // namespace

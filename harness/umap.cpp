// Conformance driver for UnorderedMap (spec/Map.tla).
#include "seq.h"
#include <algorithm>
#include <forward_list>
#include <list>
#include <map>
#include <memory>
#include <string>
#include <sharemind/SimpleUnorderedStringMap.h>
#include <sharemind/StringHashTablePredicate.h>
#include <sharemind/UnorderedMap.h>
using namespace seq;
namespace {
struct Boom {};
long g_bomb, g_live, g_serial, g_bad;
// A value with an identity: who was made keeps its number until destroyed.
struct Val {
    int v; long id; Val * self;
    Val(int x = 9) : v(x), id(++g_serial), self(this) { ++g_live; }
    Val(Val const & o) : v(o.v), id(++g_serial), self(this) { if (o.self != &o) ++g_bad; bomb(); ++g_live; }
    Val & operator=(Val const & o) { if (o.self != &o || self != this) ++g_bad; bomb(); v = o.v; return *this; }
    ~Val() { if (self != this) ++g_bad; self = nullptr; --g_live; }
    static void bomb() { if (g_bomb && --g_bomb == 0) throw Boom(); }
};
bool operator==(Val const & a, Val const & b) { return a.v == b.v; }
struct Hashed { int k; };      // other types to look ints up by
struct Unhashed { int k; };
struct Eq {
    using is_transparent = void;
    bool operator()(int a, int b) const { return a == b; }
    bool operator()(int a, Hashed const & b) const { return a == b.k; }
    bool operator()(int a, Unhashed const & b) const { return a == b.k; }
};
template <int Mod> struct IntHash {
    using transparent_key_equal = Eq;
    std::size_t operator()(int k) const { return static_cast<std::size_t>(k % Mod); }
    std::size_t operator()(Hashed const & h) const { return static_cast<std::size_t>(h.k % Mod); }
};
template <typename H> struct IntPred {
    int k;
    std::size_t hash() const { return H()(k); }
    bool operator()(int const & o) const { return k == o; }
};
std::string const g_names[] = {"?", std::string(), "a", std::string("a\0b", 3), "ab", "a rather long string, not stored inside", "\xc3\xa4\xff", std::string("\0", 1)};

template <int Mod> struct Ints {
    using M = sharemind::UnorderedMap<int, Val, IntHash<Mod>>;
    static constexpr int N = 9;
    static int key(int k) { return k; }
    static int un(int k) { return k; }
    template <typename MM> static L lookups(MM & m, int k) {
        IntHash<Mod> const h;
        auto r = [&](decltype(m.find(k)) i) -> long { return i == m.end() ? 0 : un(i->first) == k ? i->second.v : -1; };
        L l{r(m.find(k)), r(m.find(h(k), k)), r(m.find(h(k), [k](int o) { return o == k; })),
            r(m.find(IntPred<IntHash<Mod>>{k})), r(m.find(h(k), [](int a, long b) { return a == b; }, long(k))),
            r(m.find(Hashed{k})), r(m.find(Unhashed{k}))};
        return l;
    }
    static L counts(M const & m, int k) {
        IntHash<Mod> const h;
        auto const p = [k](int o) { return o == k; };
        auto const q = [](int a, long b) { return a == b; };
        IntPred<IntHash<Mod>> const ip{k};
        L l{long(m.count(k)), m.contains(k), long(m.count(h(k), p)), m.contains(h(k), p), long(m.count(ip)), m.contains(ip),
            long(m.count(h(k), q, long(k))), m.contains(h(k), q, long(k)), long(m.count(Hashed{k})), m.contains(Hashed{k}),
            long(m.count(Unhashed{k})), m.contains(Unhashed{k})};
        return l;
    }
    static long erase(M & m, int k, int form) {
        switch (form) { case 0: return long(m.erase(Hashed{k})); case 1: return long(m.erase(Unhashed{k})); default: return long(m.erase(k)); }
    }
};
struct Strings {
    using M = sharemind::SimpleUnorderedStringMap<Val>;
    static constexpr int N = 7;
    static std::string key(int k) { return g_names[k]; }
    static int un(std::string const & s) { for (int i = 1; i <= N; ++i) if (g_names[i] == s) return i; return -1; }
    static bool isC(int k) { return g_names[k].find('\0') == std::string::npos; }
    template <typename MM> static L lookups(MM & m, int k) {
        std::string const & s = g_names[k];
        std::vector<char> const vec(s.begin(), s.end());
        std::list<char> const lst(s.begin(), s.end());
        std::forward_list<char> const fwd(s.begin(), s.end());
        sharemind::StringHasher const h;
        auto r = [&](decltype(m.find(s)) i) -> long { return i == m.end() ? 0 : un(i->first) == k ? i->second.v : -1; };
        L l{r(m.find(s)), r(m.find(vec)), r(m.find(lst)), r(m.find(h(vec), s)), r(m.find(h(lst), vec)),
            r(m.find(h(vec.begin(), vec.end()), lst)),
            r(m.find(sharemind::getOrCreateTemporaryStringHashTablePredicate(s))),
            r(m.find(sharemind::getOrCreateTemporaryStringHashTablePredicate(vec))),
            r(m.find(sharemind::getOrCreateTemporaryStringHashTablePredicate(lst))),
            r(m.find(sharemind::getOrCreateTemporaryStringHashTablePredicate(lst, h(s)))),
            r(m.find(fwd)), r(m.find(sharemind::getOrCreateTemporaryStringHashTablePredicate(fwd))),
            r(m.find(h(s), [&](std::string const & o) { return o == s; }))};
        if (isC(k)) {
            char const * const c = s.c_str();
            l.push_back(r(m.find(c)));
            l.push_back(r(m.find(h(c), c)));
            l.push_back(r(m.find(sharemind::getOrCreateTemporaryStringHashTablePredicate(c))));
            l.push_back(r(m.find(sharemind::getOrCreateTemporaryStringHashTablePredicate(c, h(c)))));
        }
        return l;
    }
    static L counts(M const & m, int k) {
        std::string const & s = g_names[k];
        std::vector<char> const vec(s.begin(), s.end());
        std::list<char> const lst(s.begin(), s.end());
        L l{long(m.count(s)), m.contains(s), long(m.count(vec)), m.contains(vec), long(m.count(lst)), m.contains(lst)};
        if (isC(k)) { l.push_back(long(m.count(s.c_str()))); l.push_back(m.contains(s.c_str())); }
        return l;
    }
    static long erase(M & m, int k, int form) {
        std::string const & s = g_names[k];
        switch (form) {
        case 0: return long(m.erase(std::vector<char>(s.begin(), s.end())));
        case 1: return isC(k) ? long(m.erase(s.c_str())) : long(m.erase(s));
        default: return long(m.erase(s)); }
    }
};
template <typename T> struct Prog {
    using M = typename T::M;
    std::unique_ptr<M> m[4];
    bool failed;
    template <typename Op> void run(Op && op) {
        g_bomb = vs::rnd(4) ? 0 : 1 + vs::rnd(3);
        failed = false;
        try { failed = starved(vs::rnd(4) ? 0 : 1 + vs::rnd(4), op); } catch (Boom const &) { failed = true; vs::failAlloc(0); }
        g_bomb = 0;
    }
    // [size, key, value, identity, key, ...] in order of keys
    static L content(M const & x) {
        std::vector<std::vector<long>> es;
        for (auto const & e : x) es.push_back({T::un(e.first), e.second.v, e.second.id});
        std::sort(es.begin(), es.end());
        L l{long(x.size())};
        for (auto const & e : es) l.insert(l.end(), e.begin(), e.end());
        if ((x.begin() == x.end()) != x.empty() || (x.cbegin() == x.cend()) != x.empty()) l[0] = -1;
        return l;
    }
    std::vector<L> states() {
        std::vector<L> s;
        for (int i = 1; i <= 3; ++i) s.push_back(content(*m[i]));
        s.push_back({g_live, g_bad});
        return s;
    }
    static long dist(L const & l) { long r = 0; for (long x : l) r += x; return r; }
    void go(int ops) {
        g_live = g_serial = g_bad = g_bomb = 0;
        for (int i = 1; i <= 3; ++i) switch (vs::rnd(3)) {
            case 0: m[i].reset(new M(std::size_t(1))); break;
            default: m[i].reset(new M()); break;
        }
        E("new") << states();
        using VT = typename M::value_type;
        for (int n = 0; n < ops; ++n) {
            int const i = 1 + vs::rnd(3), j = 1 + vs::rnd(3), k = 1 + vs::rnd(T::N), v = 1 + vs::rnd(5);
            auto const key(T::key(k));
            M & x = *m[i]; M const & cx = x;
            switch (vs::rnd(19)) {
            case 0: case 1: case 2: {
                long ins = -1, at = -1;
                int const form = vs::rnd(7);
                Val const val(v); VT const vt(key, val);
                run([&] {
                    std::pair<typename M::iterator, bool> r(x.end(), false);
                    switch (form) {
                    case 0: r = x.emplace(key, v); break;
                    case 1: r = x.insert(vt); break;
                    case 2: r = x.insert(VT(key, val)); break;
                    case 3: r = x.insert(std::make_pair(key, v)); break;
                    case 4: r.first = x.emplace_hint(x.begin(), key, v); ins = 2; break;
                    case 5: r.first = x.insert(x.end(), vt); ins = 2; break;
                    case 6: r.first = x.insert(x.end(), std::make_pair(key, v)); ins = 2; break;
                    }
                    if (ins != 2) ins = r.second;
                    at = T::un(r.first->first) == k ? r.first->second.v : -2;
                });
                g_live -= 2;
                E("ins") << i << k << v << failed << ins << at << states();
                g_live += 2;
                break; }
            case 3: case 4: {
                long ins = -1, at = -1;
                int const form = vs::rnd(4);
                Val const val(v);
                run([&] {
                    std::pair<typename M::iterator, bool> r(x.end(), false);
                    switch (form) {
                    case 0: r = x.insert_or_assign(key, val); break;
                    case 1: r = x.insert_or_assign(T::key(k), val); break;
                    case 2: r.first = x.insert_or_assign(x.begin(), key, val); ins = 2; break;
                    case 3: r.first = x.insert_or_assign(x.begin(), T::key(k), val); ins = 2; break;
                    }
                    if (ins != 2) ins = r.second;
                    at = T::un(r.first->first) == k ? r.first->second.v : -2;
                });
                --g_live;
                E("ioa") << i << k << v << failed << ins << at << states();
                ++g_live;
                break; }
            case 5: { // m[k] = v, or only m[k]
                long at = -1;
                bool const rv = coin();
                run([&] { at = rv ? x[T::key(k)].v : x[key].v; });
                E("sub") << i << k << failed << at << states();
                break; }
            case 6: { auto const it = x.find(key); if (it == x.end()) break; it->second.v = v; E("asg") << i << k << v << states(); break; }
            case 7: case 8: { long const r = T::erase(x, k, vs::rnd(4)); E("del") << i << k << r << states(); break; }
            case 9: {
                auto const it = cx.find(key); if (it == cx.end()) break;
                auto const nx = std::next(it) == cx.end() ? 0 : T::un(std::next(it)->first);
                auto const r = x.erase(it);
                E("del") << i << k << long((r == x.end() ? 0 : T::un(r->first)) == nx) << states();
                break; }
            case 10: { // a range of them
                auto a = cx.begin(); L gone;
                for (int s = vs::rnd(3); s && a != cx.end(); --s) ++a;
                auto b = a;
                for (int s = vs::rnd(4); s && b != cx.end(); --s) { gone.push_back(T::un(b->first)); ++b; }
                x.erase(a, b);
                E("cut") << i << gone << states();
                break; }
            case 11: if (vs::rnd(4)) break; x.clear(); E("clr") << i << states(); break;
            case 12: { // copies
                if (i == j && coin()) break;
                int const form = vs::rnd(4);
                run([&] {
                    switch (form) {
                    case 0: m[i].reset(new M(*m[j])); break;
                    case 1: m[i].reset(new M(static_cast<M const &>(*m[j]), std::allocator<VT>())); break;
                    default: *m[i] = *m[j]; break;
                    }
                });
                E("cpy") << i << j << bool(i == j && form > 1) << failed << states();
                break; }
            case 13: { // moves
                if (i == j) break;
                switch (vs::rnd(3)) {
                case 0: m[i].reset(new M(std::move(*m[j]))); break;
                case 1: m[i].reset(new M(std::move(*m[j]), std::allocator<VT>())); break;
                default: *m[i] = std::move(*m[j]); break;
                }
                if (coin()) for (auto & e : *m[j]) e.second.v = 77; // not those moved
                m[j]->clear(); // (what is left is unspecified)
                E("mov") << i << j << states();
                break; }
            case 14: if (i == j) break; m[i]->swap(*m[j]); E("swp") << i << j << states(); break;
            case 15: { // several at once, the first of a key counts
                L what; std::vector<VT> vs_; vs_.reserve(3);
                int const c = vs::rnd(4);
                for (int s = 0; s < c; ++s) {
                    int const kk = 1 + vs::rnd(T::N), vv = 1 + vs::rnd(5);
                    what.push_back(kk); what.push_back(vv); vs_.emplace_back(T::key(kk), vv);
                }
                bool fresh = true;
                switch (vs::rnd(5)) {
                case 0: x.insert(vs_.begin(), vs_.end()); fresh = false; break;
                case 1: m[i].reset(new M(vs_.begin(), vs_.end())); break;
                case 2: if (c < 2) { x = {}; what.clear(); }
                        else { what.resize(4); x = {vs_[0], vs_[1]}; } break;
                case 3: if (c < 2) { fresh = false; what.clear(); break; } what.resize(4);
                        m[i].reset(new M({vs_[0], vs_[1]})); break;
                case 4: if (c < 2) { fresh = false; what.clear(); break; } what.resize(4);
                        x.insert({vs_[0], vs_[1]}); fresh = false; break;
                }
                vs_.clear();
                E("many") << i << fresh << what << states();
                break; }
            case 16: { // looking things up
                L const a = T::lookups(x, k), b = T::lookups(cx, k), c = T::counts(cx, k);
                L d;
                auto const er = x.equal_range(key); d.push_back(std::distance(er.first, er.second));
                auto const cer = cx.equal_range(key); d.push_back(std::distance(cer.first, cer.second));
                d.push_back(er.first == x.end() ? 0 : er.first->second.v);
                d.push_back(cer.first == cx.end() ? 0 : cer.first->second.v);
                long a1 = 0, a2 = 0;
                try { a1 = x.at(key).v; } catch (std::out_of_range const &) {}
                try { a2 = cx.at(key).v; } catch (std::out_of_range const &) {}
                d.push_back(a1); d.push_back(a2);
                E("ask") << i << k << a << b << c << d << states();
                break; }
            case 17: { // buckets
                switch (vs::rnd(4)) {
                case 0: x.rehash(static_cast<std::size_t>(vs::rnd(20))); break;
                case 1: x.reserve(static_cast<std::size_t>(vs::rnd(20))); break;
                case 2: x.max_load_factor(coin() ? 0.5f : 3.f); break;
                }
                L seen; bool ok = true; std::size_t sum = 0;
                for (std::size_t b = 0; b < x.bucket_count(); ++b) {
                    sum += x.bucket_size(b);
                    std::size_t here = 0;
                    for (auto it = x.begin(b); it != x.end(b); ++it, ++here) {
                        seen.push_back(T::un(it->first));
                        ok = ok && x.bucket(it->first) == b && x.hash_bucket(x.hash_function()(it->first)) == b
                             && x.bucket(cx.find(it->first)) == b && x.key_eq()(it->first, it->first);
                    }
                    ok = ok && here == x.bucket_size(b) && std::distance(cx.cbegin(b), cx.cend(b)) == long(here)
                         && std::distance(cx.begin(b), cx.end(b)) == long(here);
                }
                ok = ok && sum == x.size() && x.max_size() > 1000 && x.max_bucket_count() > 1000;
                std::sort(seen.begin(), seen.end());
                E("bkt") << i << ok << seen << states();
                break; }
            case 18: E("eq") << i << j << (*m[i] == *m[j]) << (*m[i] != *m[j]) << states(); break;
            }
        }
        for (int i = 1; i <= 3; ++i) m[i].reset();
        E("gone") << g_live << g_bad;
    }
};
// How strings and character sequences hash and compare.
void names() {
    sharemind::StringHasher const h; sharemind::StringHasher::transparent_key_equal const eq;
    for (int n = 0; n < 25; ++n) {
        std::string a_, b_; std::string const & a = a_, & b = b_;
        char const abc[] = {'a', 'b', '\0', '\xff'};
        for (int c = vs::rnd(5); c; --c) a_ += abc[vs::rnd(4)];
        if (coin()) b_ = a; else for (int c = vs::rnd(5); c; --c) b_ += abc[vs::rnd(4)];
        if (!vs::rnd(3)) b_ += abc[vs::rnd(4)];
        std::vector<char> const vb(b.begin(), b.end()); std::list<char> const lb(b.begin(), b.end());
        L e{eq(a, b), eq(a, vb), eq(a, lb), eq(vb, a), eq(lb, a)};
        L e2{eq(a, b.c_str()), eq(b.c_str(), a)};
        std::string const cut(b.c_str());
        L s{h(b) == h(vb), h(b) == h(lb), h(b) == h(b.begin(), b.end()), h(cut) == h(b.c_str())};
        using sharemind::getOrCreateTemporaryStringHashTablePredicate;
        auto const p1(getOrCreateTemporaryStringHashTablePredicate(b));
        auto const p2(getOrCreateTemporaryStringHashTablePredicate(vb));
        auto const p3(getOrCreateTemporaryStringHashTablePredicate(lb));
        char const * const cb = b.c_str();
        auto const p4(getOrCreateTemporaryStringHashTablePredicate(cb));
        e.push_back(p1(a)); e.push_back(p2(a)); e.push_back(p3(a)); e2.push_back(p4(a));
        s.push_back(p1.hash() == h(b)); s.push_back(p2.hash() == h(b)); s.push_back(p3.hash() == h(b)); s.push_back(p4.hash() == h(cut));
        std::forward_list<char> const fb(b.begin(), b.end());
        auto const p5(getOrCreateTemporaryStringHashTablePredicate(fb));
        e.push_back(p5(a)); e.push_back(eq(a, fb)); s.push_back(p5.hash() == h(b)); s.push_back(h(fb) == h(b));
        E("str") << bytes(a.data(), a.size()) << bytes(b.data(), b.size()) << e << e2 << s;
    }
}
void all(int v) {
    switch (v) {
    case 0: { Prog<Ints<1000>> p; p.go(40); break; }
    case 1: { Prog<Ints<3>> p; p.go(40); break; }
    case 2: { Prog<Ints<1>> p; p.go(30); break; }
    case 3: { Prog<Strings> p; p.go(40); break; }
    case 4: names(); break;
    }
}
vs::Reg r1("all", 5, &all);
}

// Conformance driver for StringView, Split and Concat (spec/Strings.tla).
#include "seq.h"
#include <iomanip>
#include <limits>
#include <list>
#include <boost/functional/hash.hpp>
#include <memory>
#include <sstream>
#include <sharemind/Concat.h>
#include <sharemind/Split.h>
#include <sharemind/StringView.h>
using namespace seq;
namespace {
std::size_t const NPOS = static_cast<std::size_t>(-1);
long rep(std::size_t r) { return r == NPOS ? -1 : static_cast<long>(r); }
// Takes only so many characters, then refuses one or all.
template <typename C> struct Sink : std::basic_streambuf<C> {
    std::size_t room; bool once; std::vector<C> got;
    Sink(std::size_t r, bool o) : room(r), once(o) { got.reserve(64); }
    using I = typename std::char_traits<C>::int_type;
    I overflow(I c) override {
        if (got.size() >= room) { if (once) room = 1000; return std::char_traits<C>::eof(); }
        got.push_back(std::char_traits<C>::to_char_type(c)); return c; }
};
template <typename C> struct Prog {
    using V = sharemind::BasicStringView<C>;
    using S = std::basic_string<C>;
    static long un(C c) { return static_cast<long>(static_cast<typename std::make_unsigned<C>::type>(c)); }
    static L nums(C const * p, std::size_t n) { L l; for (std::size_t i = 0; i < n; ++i) l.push_back(un(p[i])); return l; }
    static L nums(V v) { return nums(v.data(), v.size()); }
    // Characters in heap blocks of exactly their size.
    struct Buf {
        std::unique_ptr<C[]> p; std::size_t n;
        Buf(std::vector<C> const & v, bool nul = false) : p(v.size() + nul ? new C[v.size() + nul] : nullptr), n(v.size()) {
            for (std::size_t i = 0; i < n; ++i) p[i] = v[i];
            if (nul) p[n] = C(); }
        V view() const { return V(p.get(), n); }
    };
    static C ch() { static C const cs[] = {C('a'), C('a'), C('b'), C('b'), C('\0'), C(' '), static_cast<C>(sizeof(C) == 1 ? 0xff : 0x3ff)}; return cs[vs::rnd(7)]; }
    static std::vector<C> text(unsigned max, bool noNul = false) {
        std::vector<C> v(vs::rnd(max + 1));
        for (auto & c : v) { do c = ch(); while (noNul && c == C()); }
        return v;
    }
    static std::size_t pos(std::size_t n) { unsigned const r = vs::rnd(static_cast<unsigned>(n) + 5); return r >= n + 3 ? (r == n + 3 ? NPOS : NPOS - 1) : r; }
    // A piece of the text, or something else.
    static std::vector<C> needle(V h) {
        if (h.empty() || !vs::rnd(3)) return text(3);
        std::size_t const a = vs::rnd(static_cast<unsigned>(h.size())), b = a + vs::rnd(static_cast<unsigned>(h.size() - a) + 1);
        return std::vector<C>(h.data() + a, h.data() + b);
    }
    template <typename F> static L caught(F && f) { try { return f(); } catch (std::out_of_range const &) { return L{-9}; } }
    void go(int ops) {
        std::unique_ptr<Buf> bufs[3]; V v[3];
        for (int n = 0; n < ops; ++n) {
            int const i = 1 + vs::rnd(2), j = 3 - i;
            V & x = v[i]; V const & cx = x;
            switch (vs::rnd(20)) {
            case 0: case 1: case 2: { // another view
                std::vector<C> t(text(8));
                bool const nul = coin();
                std::unique_ptr<Buf> b(new Buf(t, nul));
                switch (vs::rnd(5)) {
                case 0: x = V(b->p.get(), b->n); break;
                case 1: if (!nul) { x = b->view(); break; }
                    x = V(b->p.get()); t.resize(std::char_traits<C>::length(b->p.get())); break;
                case 2: { if (!nul) { x = V(); t.clear(); break; }
                    x = V(static_cast<C const *>(nullptr)); t.clear(); break; }
                case 3: { S const s(b->p.get(), b->n); V const w(s); x = V(b->p.get(), w.size()); if (nums(w) != nums(x) || w.data() != s.data()) x = V(); break; }
                case 4: x = b->view(); break;
                }
                // (the buffers of both views stay alive)
                bufs[i] = std::move(b);
                v[j] = V(); E("set") << i << nums(t.data(), t.size()) << nums(x);
                std::vector<C> t2(coin() ? t : text(8));
                bufs[j].reset(new Buf(t2)); v[j] = bufs[j]->view();
                E("set") << j << nums(t2.data(), t2.size()) << nums(v[j]);
                break; }
            case 3: { if (coin()) x.swap(v[j]); else std::swap(x, v[j]); std::swap(bufs[1], bufs[2]); E("swap") << nums(v[1]) << nums(v[2]); break; }
            case 4: { std::size_t const k = vs::rnd(static_cast<unsigned>(x.size()) + 1);
                bool const pre = coin(); if (pre) x.removePrefix(k); else x.removeSuffix(k);
                E("rem") << i << pre << k << nums(x); break; }
            case 5: { // everything there is to see
                L fwd, bwd;
                for (auto it = cx.cbegin(); it != cx.cend(); ++it) fwd.push_back(un(*it));
                for (auto it = cx.rbegin(); it != cx.rend(); ++it) bwd.push_back(un(*it));
                L el; for (std::size_t k = 0; k < x.size(); ++k) el.push_back(un(cx[k]));
                L ends; if (!x.empty()) ends = {un(cx.front()), un(cx.back())};
                bool const same = cx.begin() == cx.cbegin() && cx.end() == cx.cend() && cx.data() == cx.begin()
                    && cx.crbegin() == cx.rbegin() && cx.crend() == cx.rend() && cx.length() == cx.size()
                    && std::distance(cx.begin(), cx.end()) == static_cast<std::ptrdiff_t>(cx.size());
                S const s(cx.str()); S const s2(cx.str(std::allocator<C>()));
                E("see") << i << fwd << bwd << el << ends << long(cx.size()) << cx.empty() << same << nums(s.data(), s.size()) << nums(s2.data(), s2.size());
                break; }
            case 6: { std::size_t const p = pos(x.size());
                E("at") << i << rep(p) << caught([&] { return L{un(cx.at(p))}; }); break; }
            case 7: case 8: { // pieces
                std::size_t const p = pos(x.size()), q = pos(x.size());
                E("cut") << i << rep(p) << rep(q)
                    << caught([&] { return nums(cx.substr(p)); }) << caught([&] { return nums(cx.substr(p, q)); })
                    << caught([&] { return nums(cx.left(p)); }) << caught([&] { return nums(cx.right(p)); })
                    << caught([&] { return nums(cx.leftClipped(p)); }) << caught([&] { return nums(cx.rightClipped(p)); })
                    << caught([&] { return nums(cx.clipped(p, q)); })
                    << caught([&] {
                        std::size_t const room = std::min(q, p <= x.size() ? x.size() - p : 0);
                        Buf dest(std::vector<C>(room, C('!')));
                        std::size_t const k = cx.copy(dest.p.get(), q, p);
                        L l(nums(dest.p.get(), room)); l.push_back(long(k)); return l; });
                break; }
            case 9: case 10: { // looking for a sequence
                std::vector<C> const t(needle(x)); Buf const b(t), bz(t, true);
                std::size_t const p = pos(x.size());
                V const w(b.view()); C const * const d = b.p.get();
                bool const z = std::char_traits<C>::length(bz.p.get()) == t.size(); C const * const c = bz.p.get();
                L f{rep(cx.find(w, p)), rep(cx.find(d, p, b.n))}, r{rep(cx.rfind(w, p)), rep(cx.rfind(d, p, b.n))}, f0{rep(cx.find(w))}, r0{rep(cx.rfind(w))};
                L st{cx.startsWith(w), cx.startsWith(d, b.n)}, en{cx.endsWith(w), cx.endsWith(d, b.n)};
                if (z) { f.push_back(rep(cx.find(c, p))); r.push_back(rep(cx.rfind(c, p))); f0.push_back(rep(cx.find(c))); r0.push_back(rep(cx.rfind(c)));
                         st.push_back(cx.startsWith(c)); en.push_back(cx.endsWith(c)); }
                if (t.size() == 1) { f.push_back(rep(cx.find(t[0], p))); r.push_back(rep(cx.rfind(t[0], p))); f0.push_back(rep(cx.find(t[0]))); r0.push_back(rep(cx.rfind(t[0])));
                         st.push_back(cx.startsWith(t[0])); en.push_back(cx.endsWith(t[0])); }
                E("find") << i << nums(t.data(), t.size()) << rep(p) << f << r << f0 << r0 << st << en;
                break; }
            case 11: case 12: { // looking for characters
                std::vector<C> const t(text(3)); Buf const b(t), bz(t, true);
                std::size_t const p = pos(x.size());
                V const w(b.view()); C const * const d = b.p.get();
                bool const z = std::char_traits<C>::length(bz.p.get()) == t.size(); C const * const c = bz.p.get();
                std::vector<L> r(8);
#define LOOK(k, name) r[k] = {rep(cx.name(w, p)), rep(cx.name(d, p, b.n))}; r[k + 4] = {rep(cx.name(w))}; \
                if (z) { r[k].push_back(rep(cx.name(c, p))); r[k + 4].push_back(rep(cx.name(c))); } \
                if (t.size() == 1) { r[k].push_back(rep(cx.name(t[0], p))); r[k + 4].push_back(rep(cx.name(t[0]))); }
                LOOK(0, findFirstOf) LOOK(1, findFirstNotOf) LOOK(2, findLastOf) LOOK(3, findLastNotOf)
                E("look") << i << nums(t.data(), t.size()) << rep(p) << r;
                break; }
            case 13: { // trimming
                std::vector<C> const t(text(3)); Buf const b(t), bz(t, true);
                V const w(b.view()); C const * const d = b.p.get();
                bool const z = std::char_traits<C>::length(bz.p.get()) == t.size(); C const * const c = bz.p.get();
                std::vector<L> l{nums(cx.leftTrimmed(w)), nums(cx.leftTrimmed(d, b.n))}, r{nums(cx.rightTrimmed(w)), nums(cx.rightTrimmed(d, b.n))}, m{nums(cx.trimmed(w)), nums(cx.trimmed(d, b.n))};
                if (z) { l.push_back(nums(cx.leftTrimmed(c))); r.push_back(nums(cx.rightTrimmed(c))); m.push_back(nums(cx.trimmed(c))); }
                if (t.size() == 1) { l.push_back(nums(cx.leftTrimmed(t[0]))); r.push_back(nums(cx.rightTrimmed(t[0]))); m.push_back(nums(cx.trimmed(t[0]))); }
                E("trim") << i << nums(t.data(), t.size()) << l << r << m;
                break; }
            case 14: case 15: { // order
                V const y(v[j]);
                auto const sign = [](int r) { return long((r > 0) - (r < 0)); };
                S const ys(y.str());
                bool const z = ys.find(C()) == S::npos;
                L cs{sign(cx.compare(y)), sign(cx.compare(y.data(), y.size()))};
                if (z) cs.push_back(sign(cx.compare(ys.c_str())));
                L ops{cx == y, cx != y, cx < y, cx <= y, cx > y, cx >= y}, ops2{cx == ys, cx != ys, cx < ys, cx <= ys, cx > ys, cx >= ys}, ops3;
                C const * const yc = ys.c_str();
                if (z) ops3 = {yc == cx, yc != cx, yc > cx, yc >= cx, yc < cx, yc <= cx}; else ops3 = ops;
                std::size_t const p = pos(x.size()), q = pos(x.size()), p2 = pos(y.size()), q2 = pos(y.size());
                E("cmp") << i << cs << ops << ops2 << ops3
                    << (!(cx == y) || hash_value(cx) == hash_value(y))
                    << rep(p) << rep(q) << rep(p2) << rep(q2)
                    << caught([&] { return L{sign(cx.compare(p, q, y))}; })
                    << caught([&] { return L{sign(cx.compare(p, q, y, p2, q2))}; })
                    << caught([&] { return L{sign(cx.compare(p, q, y.data(), y.size()))}; })
                    << (z ? caught([&] { return L{sign(cx.compare(p, q, ys.c_str()))}; }) : L{-2});
                break; }
            case 16: case 17: { // splitting
                std::vector<C> const t(text(2)); Buf const b(t);
                V const w(b.view());
                std::vector<L> all, some, all2, some2;
                auto const delim = [&](C c) { return w.find(c) != NPOS; };
                sharemind::split(cx.begin(), cx.end(), delim, [&](C const * f, C const * l) { all.push_back(nums(f, static_cast<std::size_t>(l - f))); });
                sharemind::splitNoAllowEmpty(cx.begin(), cx.end(), delim, [&](C const * f, C const * l) { some.push_back(nums(f, static_cast<std::size_t>(l - f))); });
                std::list<C> const lst(cx.begin(), cx.end()); using It = typename std::list<C>::const_iterator;
                sharemind::split(lst.begin(), lst.end(), delim, [&](It f, It l) { L r; for (; f != l; ++f) r.push_back(un(*f)); all2.push_back(r); });
                sharemind::splitNoAllowEmpty(lst.begin(), lst.end(), delim, [&](It f, It l) { L r; for (; f != l; ++f) r.push_back(un(*f)); some2.push_back(r); });
                E("split") << i << nums(w) << all << some << all2 << some2;
                break; }
            default: output(i, cx, 0); break;
            }
        }
    }
    template <typename X> void output(int, X const &, ...) {}
    template <typename X> auto output(int i, X const & cx, int)
        -> typename std::enable_if<std::is_same<C, char>::value || (std::is_same<C, wchar_t>::value && sizeof(X) > 0)>::type
    {
        std::size_t const room = vs::rnd(3) ? 1000 : vs::rnd(8);
        int const w = vs::rnd(3) ? static_cast<int>(vs::rnd(10)) : 0, adj = vs::rnd(4);
        Sink<C> sink(room, coin()); std::basic_ostream<C> os(&sink);
        if (adj == 1) os << std::left; else if (adj == 2) os << std::right; else if (adj == 3) os << std::internal;
        os << std::setfill(C('.')) << std::setw(w);
        os << cx;
        bool const good = os.good();
        E("out") << i << w << adj << room << nums(sink.got.data(), sink.got.size()) << good << long(os.width());
    }
};
void concats() {
    for (int n = 0; n < 20; ++n) {
        std::vector<char> const a(Prog<char>::text(5)), b(Prog<char>::text(5)), z(Prog<char>::text(4, true));
        std::string s(a.begin(), a.end()), t(b.begin(), b.end()), u(z.begin(), z.end());
        int const k = vs::rnd(100) - 50; bool const noise = coin();
        std::string const cs(s);
        sharemind::StringView const tv(t);
        std::string r; std::vector<L> parts;
        L const A(bytes(s.data(), s.size())), B_(bytes(t.data(), t.size())), U(bytes(u.data(), u.size())), one{'c'};
        std::string const ks(std::to_string(k)); L const K(bytes(ks.data(), ks.size()));
        switch (vs::rnd(9)) {
        case 0: r = sharemind::concat(); break;
        case 1: r = sharemind::concat(u.c_str()); parts = {U}; break;
        case 2: r = sharemind::concat(cs); parts = {A}; break;
        case 3: r = sharemind::concat(std::string(s)); parts = {A}; break;
        case 4: r = sharemind::concat(s, t); parts = {A, B_}; break;
        case 5: r = sharemind::concat(cs, k, 'c', u.c_str(), tv); parts = {A, K, one, U, B_}; break;
        case 6: r = sharemind::concat(k); parts = {K}; break;
        case 7: r = sharemind::concat(s); parts = {A}; break;
        case 8: r = sharemind::concat(u.c_str(), std::string(t), s, k); parts = {U, B_, A, K}; break;
        }
        (void) noise;
        bool const kept = bytes(s.data(), s.size()) == A && bytes(t.data(), t.size()) == B_;
        E("cat") << parts << bytes(r.data(), r.size()) << kept;
    }
}
void all(int v) {
    switch (v) {
    case 0: { Prog<char> p; p.go(30); break; }
    case 1: { Prog<wchar_t> p; p.go(30); break; }
    case 2: { Prog<char16_t> p; p.go(30); break; }
    case 3: { Prog<char32_t> p; p.go(30); break; }
    case 4: concats(); break;
    }
}
vs::Reg r1("all", 5, &all);
}

// Conformance driver for packed structures (spec/Packed.tla).
#include "seq.h"
#include <cstring>
#include <limits>
#include <memory>
#include <tuple>
#include <type_traits>
#include <sharemind/DynamicPackedStruct.h>
#include <sharemind/MaybeDynamicPackedStruct.h>
#include <sharemind/MaybeDynamicPackingInfo.h>
#include <sharemind/PackedStruct.h>
using namespace seq;
using namespace sharemind;
namespace {
struct Three { unsigned char x[3]; };
using u8 = std::uint8_t; using u16 = std::uint16_t; using u32 = std::uint32_t; using u64 = std::uint64_t;
using Raw = DynamicFieldPlaceholder<>;
template <typename T> using Vec = DynamicVectorFieldPlaceholder<T>;
template <typename T> T value() { T t; unsigned char b[sizeof(T)]; for (auto & c : b) c = static_cast<unsigned char>(vs::rnd(256)); std::memcpy(&t, b, sizeof(T)); return t; }
template <typename T> L mem(T const & t) { return bytes(reinterpret_cast<char const *>(std::addressof(t)), sizeof(T)); }
L mem(void const * p, std::size_t n) { return bytes(static_cast<char const *>(p), n); }
template <typename P> long off(void const * base, P p) { return static_cast<char const *>(static_cast<void const *>(p)) - static_cast<char const *>(base); }

// What fields are made of.
template <typename T> struct Field { using V = T; enum { dyn = 0, vec = 0, size = sizeof(T) }; static constexpr std::size_t lo = 1, hi = 1; };
template <std::size_t a, std::size_t b> struct Field<DynamicFieldPlaceholder<a, b>> { using V = u8; enum { dyn = 1, vec = 0, size = 1 }; static constexpr std::size_t lo = a, hi = b; };
template <typename T, std::size_t a, std::size_t b> struct Field<DynamicVectorFieldPlaceholder<T, a, b>> { using V = T; enum { dyn = 1, vec = 1, size = sizeof(T) }; static constexpr std::size_t lo = a, hi = b; };
long few(std::size_t n) { return n > 100000 ? -1 : static_cast<long>(n); }

template <typename T, typename R> void assignFrom(R && r, T const & v, T & seen, std::true_type) {
    switch (vs::rnd(4)) {
    case 0: r = v; seen = v; break;
    case 1: { short const s = static_cast<short>(vs::rnd(200)); r = s; seen = static_cast<T>(s); break; }
    case 2: { T w(v); UnalignedReference<T> x(&w); r = x; seen = v; break; }
    case 3: { T const w(v); r = UnalignedReference<T const>(&w); seen = v; break; }
    }
}
template <typename T, typename R> void assignFrom(R && r, T const & v, T & seen, std::false_type) { r = v; seen = v; }
template <typename R, typename T> void put(R && r, T const & v, T & seen) { assignFrom<T>(std::forward<R>(r), v, seen, std::is_arithmetic<T>()); }

// One pointer's arithmetic within an array of n elements.
template <typename T, typename P> void pointers(P p, std::size_t n) {
    std::size_t const a = vs::rnd(static_cast<unsigned>(n) + 1), b = vs::rnd(static_cast<unsigned>(n) + 1);
    void const * const base = static_cast<void const *>(p);
    P const q(p + a), r(b + p);
    P x(p), y(q), z(r); L steps;
    if (a < n) { x = q; steps.push_back(off(base, x++)); steps.push_back(off(base, x)); steps.push_back(off(base, x--)); steps.push_back(off(base, x)); steps.push_back(off(base, ++x)); steps.push_back(off(base, --x)); }
    y += b; y -= b; z = q; z += 0; z = z - a;
    E("ptr") << long(sizeof(T)) << long(a) << long(b) << off(base, q) << off(base, r) << long(q - r) << steps << off(base, y) << off(base, z)
        << L{q == r, q != r, q < r, q <= r, q > r, q >= r} << static_cast<bool>(p);
}

template <typename ... Ts> struct Lists {
    template <std::size_t I> using T = typename std::tuple_element<I, std::tuple<Ts...>>::type;
    static constexpr std::size_t N = sizeof...(Ts);
    using Is = std::make_index_sequence<N>;
};

// ------------------------------------------------------------- static ----
template <typename ... Ts> struct Static {
    using S = PackedStruct<Ts...>; using I_ = PackingInfo<Ts...>; using Ls = Lists<Ts...>;
    static_assert(std::is_same<S, MaybeDynamicPackedStruct<Ts...>>::value, "");
    static_assert(std::is_same<I_, MaybeDynamicPackingInfo<Ts...>>::value, "");
    static constexpr std::size_t N = sizeof...(Ts);
    // 0, 1: structures; 2: an accessor to a buffer at an odd address
    std::unique_ptr<S> s[2]; std::unique_ptr<char[]> buf;
    void * data(int i) { return i < 2 ? s[i]->data() : buf.get() + 1; }
    L now(int i) { L l(mem(data(i), S::size())); if (i == 2) { l.push_back(buf[0]); l.push_back(buf[S::size() + 1]); } else { l.push_back(1); l.push_back(2); } return l; }
    template <std::size_t I> static void set(Static & t, int i) {
        using T = typename Ls::template T<I>;
        static_assert(std::is_same<typename S::template ElemType<I>, T>::value, "");
        T const v(value<T>()); T seen(v);
        PackedStructAccessor<Ts...> acc(t.data(i));
        switch (vs::rnd(i < 2 ? 10 : 6)) {
        case 0: acc.template set<I>(v); break;
        case 1: put(acc.template ref<I>(), v, seen); break;
        case 2: *acc.template ptr<I>() = v; break;
        case 3: I_::template set<I>(t.data(i), v); break;
        case 4: put(I_::template ref<I>(t.data(i)), v, seen); break;
        case 5: std::memcpy(acc.template voidPtr<I>(), &v, sizeof(T)); break;
        case 6: t.s[i]->template set<I>(v); break;
        case 7: put(t.s[i]->template ref<I>(), v, seen); break;
        case 8: *t.s[i]->template ptr<I>() = v; break;
        case 9: t.s[i]->refs().template set<I>(v); break;
        }
        E("set") << i << long(I) << 0 << mem(seen) << t.now(i);
    }
    template <std::size_t I> static void get(Static & t, int i) {
        using T = typename Ls::template T<I>;
        PackedStructAccessor<Ts...> const acc(t.data(i)); ConstPackedStructAccessor<Ts...> const cacc(acc), c2(t.data(i));
        T v;
        switch (vs::rnd(i < 2 ? 14 : 9)) {
        case 0: v = acc.template get<I>(); break;
        case 1: v = acc.template ref<I>(); break;
        case 2: v = acc.template cref<I>(); break;
        case 3: v = cacc.template get<I>(); break;
        case 4: v = *c2.template ptr<I>(); break;
        case 5: v = cacc.template ref<I>(); break;
        case 6: v = I_::template get<I>(t.data(i)); break;
        case 7: v = *I_::template constPtr<I>(t.data(i)); break;
        case 8: std::memcpy(&v, cacc.template constVoidPtr<I>(), sizeof(T)); break;
        case 9: v = t.s[i]->template get<I>(); break;
        case 10: v = const_cast<S const &>(*t.s[i]).template ref<I>(); break;
        case 11: v = *const_cast<S const &>(*t.s[i]).template ptr<I>(); break;
        case 12: v = t.s[i]->crefs().template get<I>(); break;
        case 13: v = const_cast<S const &>(*t.s[i]).refs().template get<I>(); break;
        }
        E("get") << i << long(I) << 0 << mem(v);
    }
    template <std::size_t I> static void where(Static & t, int i, L & offs, bool & same) {
        PackedStructAccessor<Ts...> const acc(t.data(i)); ConstPackedStructAccessor<Ts...> const cacc(acc);
        void * const d = t.data(i);
        long const o = off(d, I_::template voidPtr<I>(d));
        offs.push_back(o);
        same = same && off(d, I_::template constVoidPtr<I>(d)) == o && off(d, I_::template ptr<I>(d)) == o && off(d, I_::template constPtr<I>(d)) == o
            && off(d, acc.template voidPtr<I>()) == o && off(d, acc.template ptr<I>()) == o && off(d, acc.template constPtr<I>()) == o
            && off(d, cacc.template voidPtr<I>()) == o && off(d, cacc.template ptr<I>()) == o && I_::template ElemOffset<I>::value == std::size_t(o)
            && I_::template PrefixType<I>::size() == std::size_t(o) && I_::template SuffixType<N - I>::size() == I_::size() - std::size_t(o)
            && sizeof(typename S::template PrefixType<(I == 0 ? N : I)>) == (I == 0 ? S::size() : std::size_t(o)) && off(d, acc.template constVoidPtr<I>()) == o;
        if (i < 2) { S & x = *t.s[i]; S const & y = x;
            same = same && off(d, x.template voidPtr<I>()) == o && off(d, y.template voidPtr<I>()) == o && off(d, y.template constVoidPtr<I>()) == o && off(d, x.template ptr<I>()) == o && off(d, y.template ptr<I>()) == o; }
    }
    template <std::size_t I> static void arith(Static & t, int i) { pointers<typename Ls::template T<I>>(I_::template ptr<I>(t.data(i)), 0); pointers<typename Ls::template T<I>>(I_::template constPtr<I>(t.data(i)), 1); }
    void made(int i) {
        L offs; bool same = true; L ws{long(sizeof(Ts))...}; all(i, offs, same, typename Ls::Is());
        PackedStructAccessor<Ts...> acc(data(i)); auto const & cc = acc; void * const d = data(i);
        same = same && off(d, acc.endVoidPtr()) == long(S::size()) && off(d, cc.endConstVoidPtr()) == long(S::size()) && acc.data() == d && cc.constData() == d && ConstPackedStructAccessor<Ts...>(acc).constData() == d && ConstPackedStructAccessor<Ts...>(d).data() == d && off(d, I_::endVoidPtr(d)) == long(S::size())
            && off(d, I_::endVoidPtr(static_cast<void const *>(d))) == long(S::size()) && off(d, I_::endConstVoidPtr(d)) == long(S::size()) && sizeof(S) == S::size() && alignof(S) == 1 && S::staticSize() == S::size();
        if (i < 2) { S & x = *s[i]; S const & y = x; same = same && off(d, x.endVoidPtr()) == long(S::size()) && off(d, y.endVoidPtr()) == long(S::size()) && y.data() == d && y.constData() == d
            && static_cast<void *>(x.dataChar()) == d && static_cast<void *>(x.dataUint8()) == d && static_cast<void *>(x.dataUnsignedChar()) == d && static_cast<void const *>(y.constDataChar()) == d && static_cast<void const *>(y.constDataUint8()) == d && static_cast<void const *>(y.constDataUnsignedChar()) == d && static_cast<void const *>(y.dataChar()) == d && static_cast<void const *>(y.dataUint8()) == d && static_cast<void const *>(y.dataUnsignedChar()) == d; }
        E("new") << i << ws << offs << long(S::size()) << same << now(i);
    }
    template <std::size_t ... I> void all(int i, L & offs, bool & same, std::index_sequence<I...>) { int x[] = {(where<I>(*this, i, offs, same), 0)...}; (void) x; }
    template <std::size_t ... I> void go(int ops, std::index_sequence<I...>) {
        using F = void (*)(Static &, int);
        F const sets[] = {&set<I>...}, gets[] = {&get<I>...}, ariths[] = {&arith<I>...};
        E("meta") << L{long(sizeof(Ts))...} << L{((void) I, 1L)...} << L{((void) I, 1L)...} << long(S::numFields()) << long(S::numDynamicFields()) << bool(S::hasDynamicFields())
            << few(S::minSizeInBytes()) << few(S::maxSizeInBytes()) << few(I_::minSizeInBytes()) << few(I_::maxSizeInBytes());
        s[0].reset(new S); s[1].reset(new S()); buf.reset(new char[S::size() + 2]);
        buf[0] = 1; buf[S::size() + 1] = 2;
        for (int i = 0; i < 3; ++i) made(i);
        for (int n = 0; n < ops; ++n) {
            int const i = vs::rnd(3); unsigned const f = vs::rnd(N);
            switch (vs::rnd(12)) {
            case 0: case 1: case 2: case 3: sets[f](*this, i); break;
            case 4: case 5: case 6: gets[f](*this, i); break;
            case 7: ariths[f](*this, i); break;
            case 8: { *s[0] = *s[1]; E("copy") << 0 << 1 << 0 << long(S::size()) << now(0); break; }
            case 9: { S c(*s[0]); s[1].reset(new S(c)); E("copy") << 1 << 0 << 0 << long(S::size()) << now(1); break; }
            case 10: { std::memcpy(data(2), data(0), S::size()); E("copy") << 2 << 0 << 0 << long(S::size()) << now(2); break; }
            case 11: { ConstPackedStructAccessor<Ts...> a(data(i)), b(data((i + 1) % 3)); PackedStructAccessor<Ts...> c(data(i)), d(data((i + 1) % 3));
                E("eq") << i << ((i + 1) % 3) << L{a == b, c == d, *s[0] == *s[1] || i != 0 ? a == b : 0} << L{a != b, c != d}; break; }
            }
        }
    }
};

// ------------------------------------------------------------ dynamic ----
template <typename ... Ts> struct Dynamic {
    using S = DynamicPackedStruct<Ts...>; using I_ = DynamicPackingInfo<Ts...>; using A = typename I_::AccumArrayType; using Ls = Lists<Ts...>;
    static_assert(std::is_same<S, MaybeDynamicPackedStruct<Ts...>>::value, "");
    static_assert(std::is_same<I_, MaybeDynamicPackingInfo<Ts...>>::value, "");
    static constexpr std::size_t N = sizeof...(Ts), K = S::numDynamicFields();
    std::unique_ptr<S> s[3]; std::unique_ptr<A> acc[3]; bool there[3] = {false, false, false}; std::vector<std::size_t> sizes[3];
    // Of field I of structure i: how many elements?
    template <std::size_t I> std::size_t count(int i) const {
        if (!Field<typename Ls::template T<I>>::dyn) return 1;
        bool const d[] = {bool(Field<Ts>::dyn)...}; std::size_t k = 0; for (std::size_t j = 0; j < I; ++j) k += d[j]; return sizes[i][k];
    }
    L now(int i) { L l(mem(s[i]->data(), s[i]->size())); l.push_back(1); l.push_back(2); return l; }
    template <std::size_t ... I> L widths(int i, std::index_sequence<I...>) { return L{long(count<I>(i) * Field<Ts>::size)...}; }
    // Single values:
    template <std::size_t I, typename T> std::enable_if_t<!Field<T>::dyn> set1(int i) {
        T const v(value<T>()); T seen(v); S & x = *s[i];
        switch (vs::rnd(6)) {
        case 0: x.template set<I>(v); break;
        case 1: put(x.template ref<I>(), v, seen); break;
        case 2: *x.template ptr<I>() = v; break;
        case 3: std::memcpy(x.template voidPtr<I>(), &v, sizeof(T)); break;
        case 4: I_::template set<I>(x.data(), *acc[i], v); break;
        case 5: put(I_::template ref<I>(x.data(), *acc[i]), v, seen); break;
        }
        E("set") << i << long(I) << 0 << mem(seen) << now(i);
    }
    template <std::size_t I, typename T> std::enable_if_t<!Field<T>::dyn> get1(int i) {
        T v; S const & x = *s[i];
        switch (vs::rnd(6)) {
        case 0: v = x.template get<I>(); break;
        case 1: v = x.template cref<I>(); break;
        case 2: v = *x.template constPtr<I>(); break;
        case 3: std::memcpy(&v, x.template constVoidPtr<I>(), sizeof(T)); break;
        case 4: v = I_::template get<I>(x.data(), *acc[i]); break;
        case 5: v = *I_::template constPtr<I>(x.data(), *acc[i]); break;
        }
        E("get") << i << long(I) << 0 << mem(v);
    }
    // Vectors:
    template <std::size_t I, typename T> std::enable_if_t<Field<T>::vec> set1(int i) {
        using V = typename Field<T>::V; S & x = *s[i];
        std::size_t const n = count<I>(i); if (!n) return;
        std::size_t const e = vs::rnd(static_cast<unsigned>(n));
        V const v(value<V>()); V seen(v); auto p = x.template ptr<I>();
        switch (vs::rnd(5)) {
        case 0: put(p[e], v, seen); break;
        case 1: *(p + e) = v; break;
        case 2: for (std::size_t k = 0; k < e; ++k) ++p; put(*p, v, seen); break;
        case 3: p += n; p -= n - e; *p = v; break;
        case 4: if (e) I_::template ptr<I>(x.data(), *acc[i])[e] = v; else x.template ref<I>() = v; break;
        }
        E("set") << i << long(I) << long(e * sizeof(V)) << mem(seen) << now(i);
    }
    template <std::size_t I, typename T> std::enable_if_t<Field<T>::vec> get1(int i) {
        using V = typename Field<T>::V; S const & x = *s[i];
        std::size_t const n = count<I>(i); if (!n) return;
        std::size_t const e = vs::rnd(static_cast<unsigned>(n));
        auto p = x.template constPtr<I>(); V v;
        switch (vs::rnd(3)) {
        case 0: v = p[e]; break;
        case 1: for (std::size_t k = 0; k < e; ++k) p++; v = *p; break;
        case 2: if (e) v = *(e + p); else v = x.template cref<I>(); break;
        }
        E("get") << i << long(I) << long(e * sizeof(V)) << mem(v);
    }
    // Raw bytes:
    template <std::size_t I, typename T> std::enable_if_t<Field<T>::dyn && !Field<T>::vec> set1(int i) {
        std::size_t const n = count<I>(i); L v; for (std::size_t k = 0; k < n; ++k) v.push_back(vs::rnd(256));
        for (std::size_t k = 0; k < n; ++k) static_cast<unsigned char *>(coin() ? s[i]->template ptr<I>() : s[i]->template voidPtr<I>())[k] = static_cast<unsigned char>(v[k]);
        E("set") << i << long(I) << 0 << v << now(i);
    }
    template <std::size_t I, typename T> std::enable_if_t<Field<T>::dyn && !Field<T>::vec> get1(int i) {
        E("get") << i << long(I) << 0 << mem(s[i]->template constPtr<I>(), count<I>(i)); }
    template <std::size_t I> static void set(Dynamic & t, int i) { t.template set1<I, typename Ls::template T<I>>(i); }
    template <std::size_t I> static void get(Dynamic & t, int i) { t.template get1<I, typename Ls::template T<I>>(i); }
    template <std::size_t I, typename T> std::enable_if_t<Field<T>::vec> arith1(int i) { pointers<typename Field<T>::V>(s[i]->template ptr<I>(), count<I>(i)); pointers<typename Field<T>::V>(s[i]->template constPtr<I>(), count<I>(i)); }
    template <std::size_t I, typename T> std::enable_if_t<!Field<T>::vec> arith1(int) {}
    template <std::size_t I> static void arith(Dynamic & t, int i) { t.template arith1<I, typename Ls::template T<I>>(i); }
    template <std::size_t I> static void where(Dynamic & t, int i, L & offs, bool & same) {
        S & x = *t.s[i]; S const & y = x; A const & a = *t.acc[i]; void * const d = x.data();
        long const o = off(d, x.template voidPtr<I>());
        offs.push_back(o);
        same = same && off(d, y.template constVoidPtr<I>()) == o && off(d, y.template ptr<I>()) == o && off(d, y.template constPtr<I>()) == o && y.template elemOffset<I>() == std::size_t(o)
            && off(d, I_::template voidPtr<I>(d, a)) == o && off(d, I_::template constVoidPtr<I>(d, a)) == o && off(d, I_::template ptr<I>(d, a)) == o && off(d, I_::template constPtr<I>(d, a)) == o && I_::template elemOffset<I>(a) == std::size_t(o);
    }
    void made(int i) {
        L offs; bool same = true; all(i, offs, same, typename Ls::Is());
        S & x = *s[i]; S const & y = x; A const & a = *acc[i]; void * const d = x.data(); long const n = long(x.size());
        same = same && off(d, x.endVoidPtr()) == n && off(d, y.endVoidPtr()) == n && off(d, y.endConstVoidPtr()) == n && off(d, I_::endVoidPtr(d, a)) == n && off(d, I_::endConstVoidPtr(d, a)) == n
            && I_::sizeFromAccum(a) == x.size() && a.structSizeInBytes() == x.size() && y.data() == d && y.constData() == d;
        E("new") << i << widths(i, typename Ls::Is()) << offs << n << same << now(i);
    }
    template <std::size_t ... I> void all(int i, L & offs, bool & same, std::index_sequence<I...>) { int x[] = {(where<I>(*this, i, offs, same), 0)...}; (void) x; }
    template <std::size_t ... J> void make(int i, std::index_sequence<J...>) {
        sizes[i].clear(); { bool const d[] = {bool(Field<Ts>::dyn)...}; std::size_t const lo[] = {std::size_t(Field<Ts>::lo)...}; for (std::size_t k = 0; k < N; ++k) if (d[k]) sizes[i].push_back(lo[k] + vs::rnd(5)); }
        s[i].reset(); s[i].reset(new S(sizes[i][J]...)); acc[i].reset(new A(sizes[i][J]...)); there[i] = true;
        std::size_t raw[K]; I_::populateAccumArray(raw, sizes[i][J]...);
        bool const ok = I_::sizeInBytes(sizes[i][J]...) == s[i]->size() && I_::validSizes(sizes[i][J]...) && std::memcmp(raw, acc[i]->data(), sizeof raw) == 0;
        made(i);
        E("sizes") << i << ok;
        std::size_t t[K]; L ts; for (auto & x : t) { x = vs::rnd(12); ts.push_back(long(x)); }
        E("valid") << ts << I_::validSizes(t[J]...);
    }
    void same(int i, int j) { sizes[i] = sizes[j]; acc[i].reset(new A(const_cast<A const &>(*acc[j]))); }
    template <std::size_t ... I> void go(int ops, std::index_sequence<I...>) {
        using F = void (*)(Dynamic &, int);
        F const sets[] = {&set<I>...}, gets[] = {&get<I>...}, ariths[] = {&arith<I>...};
        E("meta") << L{long(Field<Ts>::size)...} << L{few(Field<Ts>::lo)...} << L{few(Field<Ts>::hi)...} << long(S::numFields()) << long(S::numDynamicFields()) << bool(S::hasDynamicFields())
            << few(S::minSizeInBytes()) << few(S::maxSizeInBytes()) << few(I_::minSizeInBytes()) << few(I_::maxSizeInBytes());
        using Ks = std::make_index_sequence<K>;
        for (int i = 0; i < 3; ++i) make(i, Ks());
        for (int n = 0; n < ops; ++n) {
            int const i = vs::rnd(3), j = vs::rnd(3); unsigned const f = vs::rnd(N);
            switch (vs::rnd(16)) {
            case 0: case 1: case 2: case 3: if (there[i]) sets[f](*this, i); break;
            case 4: case 5: case 6: if (there[i]) gets[f](*this, i); break;
            case 7: if (there[i]) ariths[f](*this, i); break;
            case 8: make(i, Ks()); break;
            case 9: case 10: { // assignment of a copy, maybe without memory
                if (!there[j]) { // of one without memory
                    *s[i] = const_cast<S const &>(*s[j]); there[i] = false; sizes[i] = sizes[j];
                    E("empty") << i << (s[i]->data() == nullptr); break; }
                bool r = starved(vs::rnd(2), [&] { S & x = (*s[i] = const_cast<S const &>(*s[j])); if (&x != s[i].get()) std::abort(); });
                if (!r) { same(i, j); there[i] = true; }
                E("copy") << i << j << r << long(there[i] ? s[i]->size() : 0) << (there[i] ? now(i) : L{1, 2});
                break; }
            case 11: { // construction of a copy
                if (!there[j] || i == j) break;
                bool r = starved(vs::rnd(4) ? 0 : 2, [&] { std::unique_ptr<S> c(coin() ? new S(*s[j]) : new S(const_cast<S const &>(*s[j]))); s[i] = std::move(c); });
                if (!r) { same(i, j); there[i] = true; }
                E("copy") << i << j << r << long(there[i] ? s[i]->size() : 0) << (there[i] ? now(i) : L{1, 2});
                break; }
            case 12: { // moving
                if (!there[j] || i == j) break;
                if (coin()) { S & x = (*s[i] = std::move(*s[j])); if (&x != s[i].get()) std::abort(); }
                else { std::unique_ptr<S> c(new S(std::move(*s[j]))); s[i] = std::move(c); }
                same(i, j); there[i] = true; there[j] = false;
                E("move") << i << j << long(s[i]->size()) << now(i) << (s[j]->data() == nullptr);
                break; }
            case 13: { // the memory taken out
                if (!there[i]) break;
                long const n_ = long(s[i]->size());
                auto p(s[i]->release()); there[i] = false;
                E("out") << i << mem(p.get(), std::size_t(n_)) << (s[i]->data() == nullptr);
                break; }
            case 14: case 15: {
                if (!there[i] || !there[j]) break;
                S const & a = *s[i]; S const & b = *s[j];
                E("eq") << i << j << L{a == b, b == a} << L{a != b, b != a}; break; }
            }
        }
    }
};
template <std::size_t a, std::size_t b> using R2 = DynamicFieldPlaceholder<a, b>;
template <typename T, std::size_t a, std::size_t b> using V2 = DynamicVectorFieldPlaceholder<T, a, b>;
template <typename P> void run() { P p; p.go(25, typename P::Ls::Is()); }
void all(int v) {
    switch (v) {
    case 0: run<Static<u8, u32, u16, u64>>(); break;
    case 1: run<Static<Three, u64, u8, std::int16_t, Three, u32>>(); break;
    case 2: if (coin()) run<Static<u16>>(); else run<Static<u8, double, float>>(); break;
    case 3: run<Dynamic<u8, Raw, u16, Vec<u32>, u64>>(); break;
    case 4: if (coin()) run<Dynamic<Raw>>(); else run<Dynamic<Vec<u16>, u8>>(); break;
    case 5: run<Dynamic<u32, Vec<u64>, Vec<u8>, Raw, u8, u16>>(); break;
    case 6: if (coin()) run<Dynamic<R2<2, 9>, V2<u16, 3, 7>, u32>>(); else run<Dynamic<Three, Vec<Three>, Three>>(); break;
    case 7: run<Dynamic<V2<u32, 0, 4>, V2<u64, 0, std::numeric_limits<std::size_t>::max() / 4>, u8, u8, R2<0, 100>>>(); break;
    }
}
vs::Reg r1("all", 8, &all);
}

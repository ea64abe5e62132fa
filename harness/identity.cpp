// Conformance driver for hashes of bytes and universally unique identifiers
// (spec/Identity.tla).
#include "seq.h"
#include <cstring>
#include <map>
#include <unordered_set>
#include <sharemind/Hash.h>
#include <sharemind/Uuid.h>
using namespace seq;
using namespace sharemind;
namespace {
// Hashes are told by the order in which they were first seen.
struct Ids {
    std::vector<HashValue> v;
    long of(HashValue h) {
        for (std::size_t i = 0; i < v.size(); ++i) if (v[i] == h) return long(i);
        v.push_back(h); return long(v.size()) - 1;
    }
};
struct Raw3 { unsigned char b[3]; };
struct Raw12 { std::uint32_t a, b, c; };
struct Own { HashValue h; HashValue hash() const noexcept { return h; } };
std::string word(unsigned most) {
    std::string s(vs::rnd(most + 1), 'a');
    bool const few = coin();
    for (auto & c : s) c = few ? char(vs::rnd(2)) : char(vs::rnd(256));
    return s;
}
void hashes(int) {
    Ids ids; ids.of(0u);
    std::vector<std::string> pool;
    for (int i = 0; i < 14; ++i) {
        auto next = [&] {   // something new, or much like what was
            if (pool.empty() || vs::rnd(3) == 0) pool.push_back(word(12));
            else if (coin()) {
                std::string s(pool[vs::rnd(pool.size())]);
                if (!s.empty() && coin()) s[vs::rnd(s.size())] ^= char(1u << vs::rnd(8)); else s += '\0';
                pool.push_back(s);
            }
            return pool[vs::rnd(pool.size())];
        };
        std::string const a(next()), b(next()), c(next());
        // Each block in memory of its own, at some alignment.
        std::vector<char> m1(a.size() + 9), m2(b.size() + 9), m3(c.size() + 9);
        unsigned const o = vs::rnd(8);
        char * const p = m1.data() + o; char * const q = m2.data() + o; char * const r = m3.data() + o;
        if (a.size()) std::memcpy(p, a.data(), a.size()); if (b.size()) std::memcpy(q, b.data(), b.size()); if (c.size()) std::memcpy(r, c.data(), c.size());
        L const la(bytes(p, a.size())), lb(bytes(q, b.size())), lc(bytes(r, c.size()));
        long const s = vs::rnd(ids.v.size()); HashValue const seed = ids.v[s];
        switch (vs::rnd(8)) {
        case 0: E("hash") << 0 << std::vector<L>{la} << ids.of(hashRawData(p, a.size())); break;
        case 1: E("hash") << 0 << std::vector<L>{la, lb} << ids.of(hashRawData(p, a.size(), q, b.size())); break;
        case 2: E("hash") << 0 << std::vector<L>{la, lb, lc} << ids.of(hashRawData(p, a.size(), q, b.size(), r, c.size())); break;
        case 3: E("hash") << s << std::vector<L>{la} << ids.of(hashCombineRawData(seed, p, a.size())); break;
        case 4: E("hash") << s << std::vector<L>{la, lb} << ids.of(hashCombineRawData(seed, p, a.size(), q, b.size())); break;
        case 5: E("hash") << s << std::vector<L>{la, lb, lc} << ids.of(hashCombineRawData(seed, p, a.size(), q, b.size(), r, c.size())); break;
        case 6: {
            char fill[12]; for (auto & x : fill) x = char(vs::rnd(2));
            switch (vs::rnd(5)) {
            case 0: { Raw3 x; std::memcpy(&x, fill, 3); E("hash") << 0 << std::vector<L>{bytes(fill, 3)} << ids.of(coin() ? RawHasher()(x) : RawHasherT<Raw3>()(x)); break; }
            case 1: { Raw12 x; std::memcpy(&x, fill, 12); E("hash") << 0 << std::vector<L>{bytes(fill, 12)} << ids.of(coin() ? RawHasher()(x) : RawHasherT<Raw12>()(x)); break; }
            case 2: { std::uint64_t x; std::memcpy(&x, fill, 8); E("hash") << 0 << std::vector<L>{bytes(fill, 8)} << ids.of(coin() ? RawHasher()(x) : RawHasherT<std::uint64_t>()(x)); break; }
            case 3: { std::int16_t x; std::memcpy(&x, fill, 2); E("hash") << 0 << std::vector<L>{bytes(fill, 2)} << ids.of(coin() ? RawHasher()(x) : RawHasherT<std::int16_t>()(x)); break; }
            default: { unsigned char x; std::memcpy(&x, fill, 1); E("hash") << 0 << std::vector<L>{bytes(fill, 1)} << ids.of(coin() ? RawHasher()(x) : RawHasherT<unsigned char>()(x)); }
            }
            break;
        }
        default: {
            long const h = vs::rnd(1000000);
            Own const x{HashValue(h)};
            E("member") << h << long(HashMemberCaller()(x)) << long(HashMemberCallerT<Own>()(x));
        }
        }
    }
}
Uuid any() { Uuid u; unsigned const kind = vs::rnd(3); unsigned char const base = static_cast<unsigned char>(vs::rnd(256)); for (auto & b : u) b = static_cast<unsigned char>(kind == 0 ? vs::rnd(256) : kind == 1 ? base : base + (vs::rnd(8) == 0)); return u; }
void parse(std::string const & s) {
    L const t(bytes(s.data(), s.size())); L got; bool ok = false;
    try { Uuid const u(uuidFromString(s)); ok = true; got = bytes(u.data, 16); }
    catch (boost::bad_lexical_cast const &) {}
    E("parse") << t << ok << got;
}
void text(int) {
    Ids ids; ids.of(0u);
    std::vector<Uuid> pool;
    for (int i = 0; i < 12; ++i) {
        if (pool.empty() || vs::rnd(3) == 0) pool.push_back(any());
        else if (coin()) { Uuid u(pool[vs::rnd(pool.size())]); u.data[vs::rnd(16)] ^= static_cast<unsigned char>(1u << vs::rnd(8)); pool.push_back(u); }
        Uuid const u(pool[vs::rnd(pool.size())]);
        switch (vs::rnd(6)) {
        case 0: {
            std::string s;
            if (starved(vs::rnd(4) == 0, [&] { s = uuidToString(u); })) { E("oom"); break; }
            E("text") << bytes(u.data, 16) << bytes(s.data(), s.size());
            break;
        }
        case 1: parse(uuidToString(u)); break;
        case 2: {   // much like an identifier
            std::string s(uuidToString(u));
            for (unsigned n = 1 + vs::rnd(2); n; --n) switch (vs::rnd(7)) {
            case 0: if (!s.empty()) s.erase(vs::rnd(s.size()), 1u); break;
            case 1: s.insert(coin() ? s.size() : vs::rnd(s.size() + 1u), 1u, "0-fFgG {"[vs::rnd(9)]); break;
            case 2: if (!s.empty()) s[vs::rnd(s.size())] = "09afAFgG-/:@`"[vs::rnd(13)]; break;
            case 3: if (!s.empty()) s[vs::rnd(s.size())] = char(vs::rnd(256)); break;
            case 4: for (auto & c : s) if (c >= 'a' && c <= 'f' && coin()) c = char(c - 32); break;
            case 5: s.resize(vs::rnd(s.size() + 1u)); break;
            default: if (s.size() > 1u) std::swap(s[vs::rnd(s.size())], s[vs::rnd(s.size())]);
            }
            parse(s);
            break;
        }
        case 3: { std::string s(36u, '0'); for (auto & c : s) c = "0123456789abcdefABCDEF"[vs::rnd(22)]; for (unsigned k : {8u, 13u, 18u, 23u}) s[k] = '-'; parse(s); break; }
        default: E("uhash") << bytes(u.data, 16) << ids.of(std::hash<Uuid>()(u));
        }
    }
    // They may be kept by hash.
    std::unordered_set<Uuid> set(pool.begin(), pool.end());
    for (auto const & u : pool) if (!set.count(u)) vs::fail("crash", "lost identifier");
}
void names(int) {
    SharemindUuidGenerator g;
    for (int i = 0; i < 4; ++i) {
        std::string s(vs::rnd(6) ? word(40) : word(130));
        bool const plain = coin();
        if (plain) for (auto & c : s) c = char(32 + static_cast<unsigned char>(c) % 95);
        Uuid u;
        switch (vs::rnd(plain ? 5 : 3)) {
        case 0: u = generateSharemindNameUuid(s); break;
        case 1: u = generateSharemindNameUuid(static_cast<void const *>(s.data()), s.size()); break;
        case 2: u = g(s.data(), s.size()); break;
        case 3: u = generateSharemindNameUuid(s.c_str()); break;
        default: u = g(s); 
        }
        E("name") << bytes(s.data(), s.size()) << bytes(u.data, 16);
    }
}
vs::Reg r1("hashes", 1, &hashes);
vs::Reg r2("text", 1, &text);
vs::Reg r3("names", 1, &names);
} // namespace

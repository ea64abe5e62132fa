// Conformance driver for IdentifierPool (spec/IdentifierPool.tla).
#include <vsched.h>
#include <cstdint>
#include <memory>
#include <string>
#include <thread>
#include <vector>
#include <sharemind/IdentifierPool.h>
#include <sharemind/StrongType.h>
using namespace sharemind;

namespace {

using Strong = StrongType<std::uint8_t, struct IdTag>;

template <typename Pool> struct Num {
    static long of(typename Pool::IdHolder const & h) { return h.id(); }
};
template <> struct Num<IdentifierPool<Strong>> {
    static long of(IdentifierPool<Strong>::IdHolder const & h) { return h.id().get(); }
};

template <typename Pool> long bits() { return 8 * static_cast<long>(sizeof(typename Pool::ValueType)); }

// Sequential: random operations on two pools and many holders, including
// runs that fill a pool completely.
template <typename Pool>
void seqT(int mode) {
    using Holder = typename Pool::IdHolder;
    std::vector<std::unique_ptr<Pool>> pools;
    pools.emplace_back(new Pool()); pools.emplace_back(new Pool());
    int const slots = mode == 1 ? 262 : 12;
    std::vector<std::unique_ptr<Holder>> h(static_cast<std::size_t>(slots));
    auto valid = [&](int s) { return h[s] && h[s]->valid(); };
    auto query = [&](int s) {
        if (h[s]) {
            bool const v = h[s]->valid();
            if (static_cast<bool>(*h[s]) != v) vs::ev({"boolmismatch", s});
            vs::ev({"q", s, v, v ? Num<Pool>::of(*h[s]) : 0l});
        }
    };
    auto reserve = [&](int s, int p) {
        if (!pools[p]) return;
        try {
            std::unique_ptr<Holder> n(new Holder(pools[p]->reserve()));
            h[s] = std::move(n);
            vs::ev({"res", p, s, Num<Pool>::of(*h[s]), bits<Pool>()});
        } catch (typename Pool::ReserveException const &) {
            vs::ev({"full", p, bits<Pool>()});
        }
    };
    int const ops = mode == 1 ? 420 : 60;
    for (int i = 0; i < ops; ++i) {
        int const s = static_cast<int>(vs::rnd(static_cast<unsigned>(slots)));
        int const d = static_cast<int>(vs::rnd(static_cast<unsigned>(slots)));
        unsigned const k = vs::rnd(100);
        if (mode == 1 && i < 256 + 4) {
            // fill pool 0, with a few gaps opened on the way
            if (i % 61 == 60 && valid(i - 20)) {
                h[i - 20]->release(); vs::ev({"rel", i - 20});
            }
            reserve(i, 0);
            if (i > 250) query(i);
            continue;
        }
        if (k < (mode == 1 ? 45u : 40u)) {
            if (!valid(s)) { h[s].reset(); reserve(s, mode == 1 ? 0 : static_cast<int>(vs::rnd(2))); }
        } else if (k < 55) {
            if (h[s]) { h[s]->release(); vs::ev({"rel", s}); query(s); }
        } else if (k < 65) {
            if (h[s]) { h[s].reset(); vs::ev({"rel", s}); }
        } else if (k < 80) {
            if (h[s] && k == 79) {
                Holder & self = *h[s];
                *h[s] = std::move(self);
                vs::ev({"mv", s, s}); query(s);
            } else if (s != d && h[s]) {
                if (!h[d]) h[d].reset(new Holder(std::move(*h[s])));
                else *h[d] = std::move(*h[s]);
                vs::ev({"mv", d, s}); query(d); query(s);
            }
        } else if (k < 97) {
            query(s);
        } else if (mode == 0 && i > 45) {
            pools[vs::rnd(2)].reset(); vs::ev({"note"});
        }
    }
    // Holders may outlive their pools:
    if (vs::rnd(2)) { pools.clear(); vs::ev({"note"}); }
    for (int s = 0; s < slots; ++s) query(s);
}

void seqAny(int mode, int variant) {
    if (variant == 0) seqT<IdentifierPool<std::uint8_t>>(mode);
    else if (variant == 1) seqT<IdentifierPool<Strong>>(mode);
    else if (variant == 2) seqT<IdentifierPool<std::uint16_t>>(mode);
    else if (variant == 3) seqT<IdentifierPool<std::uint32_t>>(mode);
    else seqT<IdentifierPool<std::uint64_t>>(mode);
}
void seqSmall(int variant) { seqAny(0, variant); }
void seqFull(int variant) { seqAny(1, variant); }

// A whole space of identifiers, in summary: how many are given until none is
// left, how many are different, the largest; then, some given back at random,
// whether exactly these are given again.
template <typename T>
void wholeT() {
    IdentifierPool<T> pool;
    std::vector<typename IdentifierPool<T>::IdHolder> h;
    h.reserve((1u << 8 * sizeof(T)) + 1u);
    std::vector<bool> seen(1u << 8 * sizeof(T));
    long distinct = 0, largest = 0;
    auto fill = [&]() {
        long n = 0;
        try {
            for (;; ++n) {
                h.push_back(pool.reserve());
                auto const i = static_cast<std::size_t>(h.back().id());
                distinct += !seen[i]; seen[i] = true;
                if (static_cast<long>(i) > largest) largest = static_cast<long>(i);
            }
        } catch (typename IdentifierPool<T>::ReserveException const &) {}
        return n;
    };
    long n = fill();
    vs::ev({"whole", static_cast<long>(8 * sizeof(T)), n, distinct, largest});
    for (int round = 0; round < 3; ++round) {
        unsigned const k = 1u + vs::rnd(5);
        for (unsigned i = 0; i < k && !h.empty(); ++i) {
            auto const at = vs::rnd(static_cast<unsigned>(h.size()));
            std::swap(h[at], h.back());
            seen[static_cast<std::size_t>(h.back().id())] = false; --distinct;
            h.pop_back();
        }
        fill();
        vs::ev({"whole", static_cast<long>(8 * sizeof(T)), static_cast<long>(h.size()), distinct, largest});
    }
}
void whole(int variant) {
    vs::setAtomic(true);
    if (variant == 0) wholeT<std::uint8_t>(); else wholeT<std::uint16_t>();
    vs::setAtomic(false);
}

// Concurrent: up to three threads reserve, release and move; `pre` identifiers
// are taken beforehand, so that the threads fight over the last few.
void conc(int variant) {
    using Pool = IdentifierPool<std::uint8_t>;
    int const threads = variant % 2 ? 3 : 2;
    int const pre = variant < 2 ? 0 : variant < 4 ? 255 : 254;
    {
        auto pool = std::make_shared<Pool>();
        std::vector<Pool::IdHolder> base;
        if (pre) {
            vs::setAtomic(true);
            std::string s = "[\"preset\",0,[";
            for (int i = 0; i < pre; ++i) {
                base.push_back(pool->reserve());
                s += (i ? "," : "") + std::to_string(base.back().id());
            }
            vs::evRaw(s + "]]");
            vs::setAtomic(false);
        }
        unsigned const plan = vs::rnd(1u << 12);
        auto body = [pool, plan](int t) mutable {
            Pool::IdHolder a, b;
            auto res = [&](int slot) {
                Pool::IdHolder & h = slot % 2 ? a : b;
                vs::ev({"c", t, "res", slot});
                try {
                    h = pool->reserve();
                    vs::ev({"r", t, static_cast<long>(h.id())});
                } catch (Pool::ReserveException const &) { vs::ev({"r", t, -1}); }
            };
            res(t * 10 + 1);
            if (plan >> (t * 2) & 1) {
                if (a.valid()) {
                    vs::ev({"c", t, "mv", t * 10 + 2, t * 10 + 1});
                    b = std::move(a);
                    vs::ev({"r", t, 0});
                }
            } else {
                vs::ev({"c", t, "rel", t * 10 + 1});
                a.release();
                vs::ev({"r", t, 0});
            }
            if (plan >> (t * 2 + 1) & 1) { if (!a.valid()) res(t * 10 + 1); }
            else if (!b.valid()) res(t * 10 + 2);
            pool.reset();
            vs::ev({"c", t, "rel", t * 10 + 1}); a.release(); vs::ev({"r", t, 0});
            vs::ev({"c", t, "rel", t * 10 + 2}); b = Pool::IdHolder(); vs::ev({"r", t, 0});
        };
        std::vector<std::thread> ts;
        ts.reserve(3);
        for (int t = 1; t <= threads; ++t) ts.emplace_back(body, t);
        if (variant % 2 == 0) pool.reset();
        for (auto & t : ts) t.join();
    }
}

vs::Reg r1("seq", 5, &seqSmall), r2("full", 5, &seqFull), r4("whole", 2, &whole), r3("conc", 6, &conc);

} // namespace

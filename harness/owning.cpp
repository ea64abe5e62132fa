// Conformance driver for what owns things (spec/Owning.tla): sets of shared
// items, arrays, data, descriptors, scope guards, aligned storage.
#include "seq.h"
#include <algorithm>
#include <cerrno>
#include <cstring>
#include <functional>
#include <memory>
#include <sys/eventfd.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <sharemind/AlignedAllocator.h>
#include <sharemind/Datum.h>
#include <sharemind/FileDescriptor.h>
#include <sharemind/GlobalDeleter.h>
#include <sharemind/IntrusiveUnorderedSharedItemSet.h>
#include <sharemind/ScopeExit.h>
#include <sharemind/UninitializedDynamicArray.h>
using namespace seq;
using namespace sharemind;
namespace {
// ------------------------------------------------------ shared item sets ----
long g_gone[64]; int g_n = 0;
L gone() { L r(g_gone, g_gone + g_n); g_n = 0; std::sort(r.begin(), r.end()); return r; }
struct Oops {};
bool g_badHash = false;
struct Item : IntrusiveUnorderedSharedItemSetItemBase<Item> {
    long const id; long const key;
    Item(long i, long k) : id(i), key(k) {}
    ~Item() noexcept override { g_gone[g_n++] = id; }
};
bool operator==(Item const & a, Item const & b) { return a.key == b.key; }
std::size_t hash_value(Item const & a) {
    if (g_badHash) { g_badHash = false; throw Oops(); }
    return static_cast<std::size_t>(a.key % 3);
}
struct H { std::size_t operator()(Item const & a) const { return hash_value(a) * 7; } };
struct Q { bool operator()(Item const & a, Item const & b) const { return a.key == b.key; } };

template <typename S> void useSet(S & s, std::shared_ptr<Item> (&slot)[4], int ops, std::size_t mul) {
    S const & cs = s;
    long next = 0;
    auto h = [mul] (long k) { return static_cast<std::size_t>(k % 3) * mul; };
    auto q = [] (long k, Item const & i) { return k == i.key; };
    auto some = [&] { auto it = s.begin(); for (unsigned n = vs::rnd(static_cast<unsigned>(s.size())); n > 0; --n) ++it; return it; };
    for (int i = 0; i < ops; ++i) {
        unsigned const k = 1 + vs::rnd(3);
        switch (vs::rnd(11)) {
        case 0: case 1: {
            long const id = ++next; long const key = 1 + vs::rnd(4);
            slot[k] = std::make_shared<Item>(id, key);
            E("mk") << k << id << key << gone();
            break; }
        case 2: case 3: case 4: {
            if (!slot[k]) break;
            bool const mv = coin(), bad = vs::rnd(8) == 0;
            try {
                g_badHash = bad;
                bool made; long id;
                if (mv) { auto r = s.insert(std::move(slot[k])); made = r.second; id = r.first->id; }
                else { auto r = s.insert(slot[k]); made = r.second; id = r.first->id; }
                g_badHash = false;
                E("ins") << k << mv << made << id << gone();
            } catch (Oops const &) { E("insx") << k << mv << gone(); }
            break; }
        case 5: slot[k].reset(); E("drop") << k << gone(); break;
        case 6: {
            if (s.empty()) break;
            auto it = some(); long const id = it->id;
            s.erase(it);
            E("erasei") << id << gone();
            break; }
        case 7: {
            if (!slot[k]) break;
            long const id = slot[k]->id;
            auto const n = s.erase(*slot[k]);
            E("eraser") << id << n << gone();
            break; }
        case 8: {
            if (s.empty()) break;
            auto it = some(); long const id = it->id;
            if (coin()) slot[k] = s.take(it); else slot[k] = s.take(*it);
            E("take") << k << id << (slot[k] ? slot[k]->id : 0l) << gone();
            break; }
        case 9: {
            long const key = 1 + vs::rnd(4);
            Item const * r = coin() ? s.find(key, h, q) : cs.find(key, h, q);
            E("find") << key << (r ? r->id : 0l);
            break; }
        case 10: {
            if (slot[k] && coin()) {
                long n; { auto p = S::retrieveSharedPtr(*slot[k]); n = p ? p.use_count() - 1 : 0; }
                E("ptr") << k << n;
            } else if (!s.empty()) {
                auto it = some(); long const id = it->id;
                slot[k] = coin() ? S::retrieveSharedPtr(it) : S::retrieveSharedPtr(*it);
                E("hold") << k << id << (slot[k] ? slot[k]->id : 0l) << gone();
            }
            break; }
        }
        if (vs::rnd(3) == 0) {
            L ids; bool ok = true;
            for (auto it = s.begin(); it != s.end(); ++it) { ids.push_back(it->id); ok = ok && s.iteratorTo(*it) == it; }
            L ids2; for (auto it = cs.begin(); it != cs.end(); ++it) { ids2.push_back(it->id); ok = ok && cs.iteratorTo(*it) == it; }
            L ids3; for (auto it = cs.cbegin(); it != cs.cend(); ++it) ids3.push_back(it->id);
            ok = ok && ids == ids2 && ids == ids3;
            std::sort(ids.begin(), ids.end());
            E("look") << ids << s.size() << s.empty() << ok;
        }
    }
}
void set(int v) {
    g_n = 0; g_badHash = false;
    std::shared_ptr<Item> slot[4];
    int const ops = 5 + vs::rnd(30);
    if (v == 3) {
        IntrusiveUnorderedSharedItemSet<Item, boost::intrusive::hash<H>, boost::intrusive::equal<Q> > s(2);
        useSet(s, slot, ops, 7);
    } else {
        std::unique_ptr<IntrusiveUnorderedSharedItemSet<Item> > s;
        starved(vs::rnd(4), [&] {
            if (v == 0) s.reset(new IntrusiveUnorderedSharedItemSet<Item>());
            else s.reset(new IntrusiveUnorderedSharedItemSet<Item>(v == 1 ? 1u : 3u)); });
        if (!s) return;
        useSet(*s, slot, ops, 1);
    }
    E("fin") << gone();
    for (auto & s : slot) s.reset();
    E("clear") << gone();
}

// ---------------------------------------------------------------- arrays ----
struct Pod { int a; char b; short c; };
template <typename T> T mkT(long v) { return static_cast<T>(v); }
template <> Pod mkT<Pod>(long v) { return Pod{static_cast<int>(v), static_cast<char>(v % 100), static_cast<short>(v)}; }
template <typename T> long unT(T const & v) { return static_cast<long>(v); }
template <> long unT(Pod const & v) { return v.b == v.a % 100 && v.c == v.a ? v.a : -1; }
template <typename T> void arrays(int ops) {
    using A = UninitializedDynamicArray<T>;
    std::unique_ptr<A> a[4];
    for (auto & x : a) x.reset(new A);
    auto content = [] (A & x) { L r; for (T const & v : x) r.push_back(unT(v)); return r; };
    for (int i = 0; i < ops; ++i) {
        unsigned const h = 1 + vs::rnd(3), g = 1 + vs::rnd(3);
        switch (vs::rnd(7)) {
        case 0: case 1: {
            unsigned const n = vs::rnd(6);
            std::unique_ptr<A> x;
            if (starved(vs::rnd(5) ? 0 : 1 + vs::rnd(2), [&] { x.reset(new A(n)); })) { E("amkx"); break; }
            for (unsigned j = 0; j < n; ++j) (*x)[j] = mkT<T>(0);
            a[h] = std::move(x);
            E("amk") << h << n;
            break; }
        case 2: {
            if (h == g) break;
            std::unique_ptr<A> x(new A(std::move(*a[g])));
            a[h] = std::move(x);
            E("amove") << h << g;
            break; }
        case 3: if (h == g) break; { A & r = (*a[h] = std::move(*a[g])); E("aassign") << h << g << (&r == a[h].get()); } break;
        default: {
            if (a[h]->empty()) break;
            unsigned const j = vs::rnd(static_cast<unsigned>(a[h]->size())); long const v = vs::rnd(1u << 7);
            switch (vs::rnd(4)) {
            case 0: (*a[h])[j] = mkT<T>(v); break;
            case 1: *a[h]->data(j) = mkT<T>(v); break;
            case 2: a[h]->data()[j] = mkT<T>(v); break;
            case 3: *(a[h]->begin() + j) = mkT<T>(v); break;
            }
            E("aset") << h << j << v;
            break; }
        }
        if (coin()) {
            A & x = *a[h]; A const & c = x;
            L via; for (std::size_t j = 0; j < c.size(); ++j) via.push_back(unT(c[j]));
            L via2; for (T const & v : c) via2.push_back(unT(v));
            bool ok = via == content(x) && via == via2 && c.begin() == c.cbegin() && c.end() == c.cend()
                      && c.end() - c.begin() == static_cast<std::ptrdiff_t>(c.size()) && c.data() == c.begin()
                      && x.data() == x.begin() && x.end() == x.begin() + x.size();
            for (std::size_t j = 0; j < c.size(); ++j) ok = ok && c.data(j) == c.begin() + j;
            E("asee") << h << via << x.size() << x.empty() << ok;
        }
    }
    g_n = 0;
}
void array(int v) {
    int const ops = 5 + vs::rnd(25);
    if (v == 0) arrays<unsigned char>(ops);
    else if (v == 1) arrays<int>(ops);
    else arrays<Pod>(ops);
}

// ------------------------------------------------------------------ data ----
L datumL(Datum const & d) { return bytes(static_cast<char const *>(d.constData()), d.size()); }
char const g_src[] = "\x01\xff" "aabb\x80";
int g_file; long g_eio, g_shrinkAt, g_shrinkTo; bool g_chunks; long g_reads;
std::size_t onRead(int, std::size_t n) {
    ++g_reads;
    if (g_reads == g_shrinkAt) { if (::ftruncate(g_file, g_shrinkTo) != 0) vs::fail("crash", "ftruncate"); E("shrink") << g_shrinkTo; }
    if (g_reads == g_eio) { E("rd") << -1; errno = EIO; return std::size_t(-1); }
    std::size_t const m = g_chunks && n > 1 ? 1 + vs::rnd(static_cast<unsigned>(std::min<std::size_t>(n, 6))) : n;
    E("rd") << m;
    return m;
}
int g_made;
void load(Datum & d, unsigned h) {
    unsigned const kind = vs::rnd(8);
    L content;
    std::string name;
    g_file = -1;
    switch (kind) {
    case 0: name = "/nonexistent/file"; break;
    case 1: name = "/"; break;
    case 2: name = "/dev/null"; break;
    default: {
        unsigned const n = vs::rnd(4) ? 1 + vs::rnd(12) : 0;
        std::string s; for (unsigned j = 0; j < n; ++j) s += static_cast<char>(vs::rnd(256));
        g_file = static_cast<int>(::syscall(SYS_memfd_create, "f", 0u));
        if (g_file < 0 || ::syscall(SYS_write, g_file, s.data(), s.size()) != static_cast<long>(s.size())) vs::fail("crash", "memfd");
        content = bytes(s.data(), s.size());
        name = "/proc/self/fd/" + std::to_string(g_file);
        break; }
    }
    g_reads = 0; g_chunks = coin();
    g_eio = vs::rnd(5) == 0 ? 1 + vs::rnd(3) : 0;
    g_shrinkAt = g_file >= 0 && vs::rnd(4) == 0 ? 1 + vs::rnd(3) : 0;
    g_shrinkTo = static_cast<long>(vs::rnd(static_cast<unsigned>(content.size() + 1)));
    bool const emfile = vs::rnd(8) == 0;
    int const expect = emfile ? EMFILE : kind == 0 ? ENOENT : 0;
    vs::readHook(&onRead);
    vs::sysFaults(coin() ? 2 : 0);
    E("file") << kind << content << expect;
    long const starve = vs::rnd(8) == 0 ? 1 + vs::rnd(8) : 0;
    char const * how = "none"; int err = 0;
    if (emfile) vs::openError(EMFILE);
    vs::failAlloc(starve);
    try {
        if (coin()) { d.loadFromFile(name); } else { Datum x(name); d = std::move(x); }
        vs::failAlloc(0);
        how = "ok";
    } catch (Datum::LoadException const & e) {
        vs::failAlloc(0);
        how = "load";
        try { std::rethrow_if_nested(e); }
        catch (Datum::FileTypeNotSupportedException const &) { how = "type"; }
        catch (Datum::FileSizeChangedException const &) { how = "changed"; }
        catch (ErrnoException const & x) { how = "errno"; err = x.errorNumber(); }
        catch (std::bad_alloc const &) { how = "alloc"; }
    } catch (std::bad_alloc const &) { vs::failAlloc(0); how = "alloc"; }
    vs::readHook(nullptr); vs::sysFaults(0); vs::openError(0);
    E("loaded") << h << how << err << (starve != 0) << vs::openFds() << datumL(d);
    if (g_file >= 0) ::syscall(SYS_close, g_file);
}
void datum(int v) {
    std::unique_ptr<Datum> d[4];
    for (auto & x : d) x.reset(new Datum);
    int const ops = 4 + vs::rnd(v == 0 ? 25 : 8);
    for (int i = 0; i < ops; ++i) {
        unsigned const h = 1 + vs::rnd(3), g = 1 + vs::rnd(3), n = vs::rnd(7);
        long const starve = vs::rnd(6) ? 0 : 1 + vs::rnd(2);
        auto put = [&] (std::unique_ptr<Datum> x) { d[h] = std::move(x); };
        bool failed = false;
        if (v == 1 && coin()) { load(*d[h], h); }
        else switch (vs::rnd(9)) {
        case 0: { char const c = static_cast<char>(vs::rnd(256)); bool const dflt = coin();
            std::unique_ptr<Datum> x;
            failed = starved(starve, [&] { x.reset(dflt ? new Datum(n) : new Datum(n, c)); });
            if (!failed) { put(std::move(x)); E("dfill") << h << n << (dflt ? 0l : static_cast<long>(static_cast<unsigned char>(c))); }
            break; }
        case 1: { std::unique_ptr<Datum> x;
            failed = starved(starve, [&] { x.reset(n == 0 && coin() ? new Datum(nullptr, 0u) : new Datum(g_src, n)); });
            if (!failed) { put(std::move(x)); E("dset") << h << bytes(g_src, n); }
            break; }
        case 2: { std::unique_ptr<Datum> x;
            failed = starved(starve, [&] { x.reset(new Datum(*d[g])); });
            if (!failed) { put(std::move(x)); E("dcopy") << h << g << 1; }
            break; }
        case 3: { if (h == g) break; std::unique_ptr<Datum> x(new Datum(std::move(*d[g]))); put(std::move(x)); E("dmove") << h << g << 1; break; }
        case 4: { Datum * r = nullptr;
            failed = starved(starve, [&] { r = &(*d[h] = *d[g]); });
            if (!failed) E("dcopy") << h << g << (r == d[h].get());
            break; }
        case 5: { if (h == g) break; Datum & r = (*d[h] = std::move(*d[g])); E("dmove") << h << g << (&r == d[h].get()); break; }
        case 6: { char const c = static_cast<char>(vs::rnd(256)); bool const dflt = coin();
            failed = starved(starve, [&] { if (dflt) d[h]->resize(n); else d[h]->resize(n, c); });
            if (!failed) E("dresize") << h << n << (dflt ? 0l : static_cast<long>(static_cast<unsigned char>(c)));
            break; }
        case 7: {
            failed = starved(starve, [&] { d[h]->assign(g_src, n); });
            if (!failed) E("dset") << h << bytes(g_src, n);
            break; }
        case 8: if (coin()) { d[h]->clear(); E("dset") << h << L{}; }
            else if (!d[h]->empty()) { unsigned const j = vs::rnd(static_cast<unsigned>(d[h]->size()));
                static_cast<char *>(d[h]->data())[j] = 'x'; E("dput") << h << j << long('x'); }
            break;
        }
        if (failed) E("dfailed");
        Datum const & c = *d[h];
        bool ok = static_cast<char const *>(c.constData()) + c.size() == c.constDataEnd()
                  && static_cast<char *>(d[h]->data()) + c.size() == d[h]->dataEnd()
                  && c.constData() == d[h]->data();
        E("dsee") << h << datumL(c) << c.size() << c.empty() << ok;
        if (vs::rnd(3) == 0)
            E("deq") << h << g << (*d[h] == *d[g]) << (*d[h] != *d[g]) << (hash_value(*d[h]) == d[g]->hash())
                     << (d[h]->hash() == hashRawData(d[h]->constData(), d[h]->size()));
    }
}

// ----------------------------------------------------------- descriptors ----
long g_id[1024]; long g_ids;
int newFd() { int const fd = ::eventfd(0, EFD_CLOEXEC); g_id[fd] = ++g_ids; return fd; }
long idOf(int fd) { return fd < 0 ? 0 : fd < 1024 ? g_id[fd] : -1; }
L openIds() { L r; for (int i = 0; i < 1024; ++i) if (vs::fdIsOpen(i)) r.push_back(g_id[i]); std::sort(r.begin(), r.end()); return r; }
void fd(int) {
    g_ids = 0;
    {
    std::unique_ptr<FileDescriptor> f[4];
    for (auto & x : f) x.reset(new FileDescriptor);
    std::vector<int> raw;
    auto see = [&] {
        L ids, valid;
        for (int i = 1; i < 4; ++i) { ids.push_back(idOf(f[i]->nativeHandle())); valid.push_back(f[i]->valid()); }
        E("fsee") << ids << valid << openIds();
    };
    int const ops = 4 + vs::rnd(25);
    for (int i = 0; i < ops; ++i) {
        unsigned const h = 1 + vs::rnd(3), g = 1 + vs::rnd(3);
        switch (vs::rnd(9)) {
        case 0: case 1: { int const n = newFd(); f[h].reset(new FileDescriptor(n)); E("fmk") << h << idOf(n); break; }
        case 2: { if (h == g) break; std::unique_ptr<FileDescriptor> x(new FileDescriptor(std::move(*f[g]))); f[h] = std::move(x); E("fmove") << h << g; break; }
        case 3: { FileDescriptor & s = *f[g]; FileDescriptor & r = (*f[h] = std::move(s)); E("fassign") << h << g << (&r == f[h].get()); break; }
        case 4: {
            if (!f[g]->valid()) break;
            int const errs[] = {0, 0, 0, EMFILE, EBADF, EAGAIN, EINTR};
            int const err = errs[vs::rnd(7)];
            vs::openError(err); vs::sysFaults(coin() ? 2 : 0);
            try {
                FileDescriptor x(f[g]->duplicate());
                g_id[x.nativeHandle()] = ++g_ids;
                bool const cloexec = ::fcntl(x.nativeHandle(), F_GETFD) & FD_CLOEXEC;
                *f[h] = std::move(x);
                E("fdup") << h << g << g_ids << cloexec;
            } catch (FileDescriptor::FailedToDuplicateException const & e) {
                int n = 0;
                try { std::rethrow_if_nested(e); } catch (ErrnoException const & x) { n = x.errorNumber(); }
                E("fdupx") << err << n;
            }
            vs::openError(0); vs::sysFaults(0);
            break; }
        case 5: {
            int n = -1;
            if (vs::rnd(3) == 0) n = f[h]->nativeHandle();
            else if (!raw.empty() && coin()) { n = raw.back(); raw.pop_back(); }
            else if (coin()) n = newFd();
            long const id = idOf(n);
            f[h]->reset(n);
            E("freset") << h << id;
            break; }
        case 6: { int const n = f[h]->release(); if (n >= 0) raw.push_back(n); E("frelease") << h << idOf(n); break; }
        case 7: f[h]->close(); E("fclose") << h; break;
        case 8:
            if (coin()) { f[h].reset(new FileDescriptor); E("fclose") << h; }
            else { FileDescriptor z(0); bool const valid = z.valid(); int const n = z.release(); E("fzero") << valid << n << z.valid(); }
            break;
        }
        see();
    }
    for (int n : raw) { long const id = idOf(n); ::close(n); E("fraw") << id; }
    }
    E("fend") << openIds();
}

// ----------------------------------------------------------------- scopes ----
struct Boom { long id; };
struct Fat { long a[8]; };
long g_scopes, g_budget;
template <typename F> void inside(F && body) { body(); }
void scope(long depth) {
    if (--g_budget < 0) return;
    long const id = ++g_scopes; long v = id, top = id;
    unsigned const form = vs::rnd(5);
    auto body = [&] {
        for (unsigned k = vs::rnd(3); k > 0; --k) {
            switch (vs::rnd(4)) {
            case 0: E("boom") << id; throw Boom{id};
            case 1: try { scope(depth + 1); } catch (Boom const & b) { E("caught") << depth + 1 << b.id; } break;
            default: scope(depth + 1); break;
            }
            E("top") << top;
        }
    };
    if (form == 0) {
        v = id; SHAREMIND_SCOPE_EXIT(E("run") << v); v = 0;
        E("guard") << id; body();
    } else if (form == 1) {
        if (coin()) {
            auto const g(makeScopeExit([id] { E("run") << id; }));
            E("guard") << id; body();
        } else { // moved on: what is left behind does nothing
            std::unique_ptr<ScopeExit> a(new ScopeExit([id] { E("run") << id; }));
            ScopeExit const g(std::move(*a));
            E("guard") << id;
            if (coin()) a.reset();
            body();
        }
    } else if (form == 2) { // two guards in one scope
        ScopeExit const g1([id] { E("run") << id; }); E("guard") << id;
        long const id2 = ++g_scopes;
        std::function<void()> fn([id2] { E("run") << id2; });
        ScopeExit const g2(fn); E("guard") << id2; top = id2;
        body();
    } else if (form == 3) { // the action throws
        bool const calm = !std::uncaught_exception();
        bool left = true;
        ScopeExit const g([id, calm, &left] { E("run") << id; if (calm && !std::uncaught_exception() && left) { E("boom") << id; throw Boom{id}; } });
        E("guard") << id;
        if (coin()) left = false;
        body();
    } else {
        Fat const fat{{id, id, id, id, id, id, id, id}};
        vs::failAlloc(vs::rnd(3) == 0 ? 1 : 0);
        try { ScopeExit const g([fat] { E("run") << fat.a[7]; }); vs::failAlloc(0); E("guard") << id; body(); }
        catch (std::bad_alloc const &) { vs::failAlloc(0); E("guardx") << id; }
    }
}
void scopes(int) {
    g_scopes = 0; g_budget = 12;
    for (int k = 0; k < 3; ++k) {
        try { scope(0); E("left"); } catch (Boom const & b) { E("caught") << 0 << b.id; }
    }
}

// -------------------------------------------------------- aligned storage ----
template <typename T> using AV = std::vector<T, AlignedAllocator<T> >;
struct A16 { alignas(16) char c; A16(long v = 0) : c(static_cast<char>(v)) {} operator long() const { return c; } };
struct Odd { char c[24]; long v; Odd(long x = 0) : c{}, v(x) {} operator long() const { return v; } };
struct A32 { alignas(32) char c; char more[40]; A32(long v = 0) : c(static_cast<char>(v)), more{} {} operator long() const { return c; } };
struct A64 { alignas(64) char c; A64(long v = 0) : c(static_cast<char>(v)) {} operator long() const { return c; } };
struct Al { SHAREMIND_ALIGNEDALLOCATION_MEMBERS(128) char c[16]; };
long mis(void const * p, std::size_t a) { return static_cast<long>(reinterpret_cast<std::uintptr_t>(p) % a); }
template <typename T> void aligned(int ops) {
    vs::arenaMalloc(true);
    AV<T> v[3];
    for (int i = 0; i < ops; ++i) {
        unsigned const h = vs::rnd(3), g = vs::rnd(3);
        long const x = vs::rnd(100), starve = vs::rnd(5) ? 0 : 1;
        bool failed = false;
        switch (vs::rnd(6)) {
        case 0: case 1: failed = starved(starve, [&] { v[h].push_back(T(x)); }); if (!failed) E("vpush") << h + 1 << x; break;
        case 2: failed = starved(starve, [&] { v[h] = v[g]; }); if (!failed) E("vcopy") << h + 1 << g + 1; break;
        case 3: if (h == g) break; v[h] = std::move(v[g]); v[g].clear(); E("vmove") << h + 1 << g + 1; break;
        case 4: if (h == g) break; v[h].swap(v[g]); E("vswap") << h + 1 << g + 1; break;
        case 5: {
            switch (vs::rnd(5)) {
            case 0: failed = starved(starve, [&] { std::unique_ptr<Al> p(new Al); E("at") << mis(p.get(), 128); }); break;
            case 1: failed = starved(starve, [&] { std::unique_ptr<Al[]> p(new Al[3]); E("at") << mis(p.get(), 128); }); break;
            case 2: { vs::failAlloc(starve); std::unique_ptr<Al> p(new (std::nothrow) Al); vs::failAlloc(0); failed = !p; if (p) E("at") << mis(p.get(), 128); break; }
            case 3: { vs::failAlloc(starve); std::unique_ptr<Al[]> p(new (std::nothrow) Al[2]); vs::failAlloc(0); failed = !p; if (p) E("at") << mis(p.get(), 128); break; }
            case 4: { std::unique_ptr<void, GlobalDeleter> p; failed = starved(starve, [&] { p.reset(::operator new(5)); });
                if (p) { std::unique_ptr<void, GlobalDeleter> q(std::move(p)); E("at") << 0; } break; }
            }
            break; }
        }
        if (failed) E("vfailed") << (starve != 0);
        L c; for (T const & t : v[h]) c.push_back(static_cast<long>(t));
        E("vsee") << h + 1 << c << mis(v[h].data(), alignof(T))
                  << (v[h].get_allocator() == v[g].get_allocator()) << (AlignedAllocator<int>() != v[h].get_allocator());
    }
}
void align(int v) {
    int const ops = 4 + vs::rnd(25);
    switch (v) {
    case 0: aligned<char>(ops); break;
    case 1: aligned<int>(ops); break;
    case 2: aligned<long>(ops); break;
    case 3: aligned<A16>(ops); break;
    case 4: aligned<A64>(ops); break;
    case 5: aligned<Odd>(ops); break;
    default: aligned<A32>(ops); break;
    }
}
vs::Reg r1("set", 4, &set), r2("array", 3, &array), r3("datum", 2, &datum), r4("fd", 1, &fd), r5("scope", 1, &scopes), r6("align", 7, &align);
} // namespace

// See vsched.h.  This file is compiled WITHOUT -fsanitize=thread.
#include "vsched.h"

#include <algorithm>
#include <cassert>
#include <cerrno>
#include <csetjmp>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <cxxabi.h>
#include <dlfcn.h>
#include <exception>
#include <map>
#include <new>
#include <pthread.h>
#include <string>
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>
#include <vector>

extern "C" char __libc_single_threaded;
extern "C" char __executable_start;

namespace {

// ---------------------------------------------------------------- state ----

int g_rt = 1;           // > 0: inside the run time, hooks are inert
bool g_inExec = false;  // an execution is running
struct Rt { Rt() { ++g_rt; } ~Rt() { --g_rt; } };

inline bool active() { return g_inExec && g_rt == 0; }

// ---------------------------------------------------------------- arena ----

constexpr std::size_t ARENA = 48u << 20;
char * g_arena = nullptr;
unsigned char * g_shadow = nullptr; // per 8 bytes: 0 none, 1..8 bytes ok, 9 free
std::size_t g_top = 0;
long g_live = 0;
long g_failAlloc = 0;
bool g_arenaMalloc = false;
long g_faults = 0, g_amplify = 0;
char const * g_watch = nullptr; std::size_t g_watchLen = 0; unsigned char * g_watchWidth = nullptr;
int g_openError = 0;
std::size_t (*g_readHook)(int, std::size_t) = nullptr;

inline bool inArena(void const * p) {
    return static_cast<char const *>(p) >= g_arena
           && static_cast<char const *>(p) < g_arena + ARENA;
}

struct Hdr { std::size_t size; std::size_t magic; };
constexpr std::size_t MAGIC = 0x5afe5afe5afe5afeull;
constexpr std::size_t DEADMAGIC = 0xdeaddeaddeaddeadull;

[[noreturn]] void endExec(char const * kind, char const * what);

void * arenaAlloc(std::size_t n, std::size_t align) {
    if (align < 16) align = 16;
    std::size_t p = g_top + sizeof(Hdr) + 16;
    p = (p + align - 1) / align * align;
    std::size_t const end = p + n;
    if (end + 64 > ARENA)
        endExec("crash", "outofmemory");
    Hdr * h = reinterpret_cast<Hdr *>(g_arena + p - sizeof(Hdr));
    h->size = n; h->magic = MAGIC;
    for (std::size_t i = 0; i < n; i += 8)
        g_shadow[(p + i) / 8] =
            static_cast<unsigned char>(n - i >= 8 ? 8 : n - i);
    // Recognisable garbage in fresh memory:
    std::memset(g_arena + p, 0xA5, n);
    g_top = (end + 15) / 16 * 16;
    ++g_live;
    return g_arena + p;
}

// --------------------------------------------------------------- fibres ----

enum State { Ready, BMutex, BCond, BJoin, BSleep, BPoll, BSpin, Done };

struct Fiber {
    int id;
    void * sp = nullptr;
    char * stack = nullptr;
    State st = Ready;
    void * (*start)(void *) = nullptr;
    void * arg = nullptr;
    bool detached = false, joined = false;
    void * addr = nullptr;       // mutex or condition variable waited for
    void * mtx = nullptr;        // mutex to take back after a condition wait
    long long deadline = -1;     // ns, -1: none
    bool timedOut = false, signaled = false;
    long condSeq = 0;
    int joinTarget = -1;
    unsigned long spinMark = 0;
    int reads = 0; unsigned long readMark = 0; bool lastChance = false;
    int epfd = -1;
    double prio = 0;
    unsigned char eh[16];
    std::unordered_map<void *, void *> tls;
    std::vector<std::pair<void (*)(void *), void *>> dtors;
};

constexpr std::size_t STACK = 256u << 10;
std::vector<char *> g_stackPool;
std::vector<Fiber *> g_fibers;
Fiber * g_cur = nullptr;
void * g_schedSp = nullptr;
Fiber g_outside; // TLS outside executions

extern "C" void vs_switch(void ** saveSp, void * newSp);
__asm__(
".text\n.globl vs_switch\n.type vs_switch,@function\nvs_switch:\n"
"  pushq %rbp\n  pushq %rbx\n  pushq %r12\n  pushq %r13\n  pushq %r14\n"
"  pushq %r15\n  movq %rsp,(%rdi)\n  movq %rsi,%rsp\n"
"  popq %r15\n  popq %r14\n  popq %r13\n  popq %r12\n  popq %rbx\n"
"  popq %rbp\n  ret\n.size vs_switch,.-vs_switch\n");

unsigned char g_schedEh[16];

long long g_now = 0; // virtual ns
unsigned long g_writes = 0;
long g_steps = 0;
long g_maxSteps = 20000;
long g_condSeq = 0;
bool g_atomicMode = false;

struct Mutex { void * addr; int owner; int depth; };
std::vector<Mutex> g_mutexes;

Mutex * findMutex(void * a) {
    for (auto & m : g_mutexes) if (m.addr == a) return &m;
    return nullptr;
}
int mutexOwner(void * a) { auto m = findMutex(a); return m ? m->owner : -1; }

// -------------------------------------------------------------- history ----

std::string g_hist;
bool g_histEmpty = true;

void addEvent(std::string const & s) {
    if (!g_histEmpty) g_hist += ',';
    g_histEmpty = false;
    g_hist += s;
}

// --------------------------------------------------------------- HB log ----

enum HbKind { HRead, HWrite, HALoad, HAStore, HARmw, HAcq, HRel, HFence,
              HCreate, HStart, HExit, HJoin, HFree };
struct HbEv { unsigned char f, k, order; std::uint32_t size; std::uintptr_t a; void * pc; };
void * g_pc = nullptr; // of the access (for VS_PC)
bool g_hb = false;
std::vector<HbEv> g_hbLog;
std::size_t const HB_MAX = 400000;
inline void hb(HbKind k, void const * a, std::size_t size, int order) {
    if (!g_hb || !g_cur || g_hbLog.size() >= HB_MAX) return;
    g_hbLog.push_back(HbEv{static_cast<unsigned char>(g_cur->id),
                           static_cast<unsigned char>(k),
                           static_cast<unsigned char>(order),
                           static_cast<std::uint32_t>(size),
                           reinterpret_cast<std::uintptr_t>(a), g_pc});
}

// ------------------------------------------------------------- explorer ----

enum Mode { MDfs, MRand, MReplay };
struct Choice { unsigned char chosen, n; unsigned char costFrom; };
// costs: option i costs 0 if i < costFrom, else 1

struct Shared { // survives the death of a worker
    long execsDone;
    long nChoices;
    Choice choices[1 << 16];
    long execSeed;
    long dfsPhase;
};
Shared * g_sh = nullptr;
Mode g_mode = MRand;
int g_bound = 1;
long g_pos = 0;
int g_cost = 0;
std::uint64_t g_rng = 1;
std::uint64_t rngNext() {
    g_rng ^= g_rng << 13; g_rng ^= g_rng >> 7; g_rng ^= g_rng << 17;
    return g_rng * 2685821657736338717ull;
}
unsigned rngN(unsigned n) { return static_cast<unsigned>((rngNext() >> 33) % n); }
std::uint64_t g_userRng = 1;

// Random strategies:
int g_strategy = 0;
double g_stick = 0.8;
std::vector<long> g_pctPoints;
long g_plainCountdown = -1;
long g_plainSeen = 0, g_plainEst = 400, g_stepEst = 60;
int g_optTime = 0, g_optSpur = 0; // optional events used in this execution
int g_maxOptTime = 6, g_maxOptSpur = 2;
int g_cfgOptTime = 6, g_cfgOptSpur = 2;
bool g_allowSpurious = true;
long g_plainPeriod = 0;

// Chooses among n options; those with index >= costFrom count as deviations.
int chooseDfs(int n, int costFrom) {
    if (n <= 1) return 0;
    Shared & s = *g_sh;
    if (g_pos >= (1 << 16) - 1) return 0;
    if (g_pos < s.nChoices) {
        Choice & c = s.choices[g_pos++];
        if (c.chosen >= n) c.chosen = 0; // should not happen
        if (c.chosen >= c.costFrom) ++g_cost;
        return c.chosen;
    }
    s.choices[g_pos] = Choice{0, static_cast<unsigned char>(n),
                              static_cast<unsigned char>(costFrom)};
    ++g_pos; s.nChoices = g_pos;
    return 0;
}

// Moves on to the next choice vector; false when all are done.
bool dfsAdvance() {
    Shared & s = *g_sh;
    // costs of prefixes:
    while (s.nChoices > 0) {
        int cost = 0;
        for (long i = 0; i + 1 < s.nChoices; ++i)
            if (s.choices[i].chosen >= s.choices[i].costFrom) ++cost;
        Choice & c = s.choices[s.nChoices - 1];
        if (c.chosen + 1 < c.n) {
            int const nc = c.chosen + 1;
            if (nc < c.costFrom || cost + 1 <= g_bound) {
                c.chosen = static_cast<unsigned char>(nc);
                return true;
            }
        }
        --s.nChoices;
    }
    return false;
}

// ------------------------------------------------------------ scheduler ----

bool g_ended = false;
std::string g_endEvent;

void switchTo(Fiber * f) {
    if (f == g_cur) return;
    Fiber * const old = g_cur;
    std::memcpy(old ? old->eh : g_schedEh, abi::__cxa_get_globals(), 16);
    g_cur = f;
    std::memcpy(abi::__cxa_get_globals(), f->eh, 16);
    vs_switch(old ? &old->sp : &g_schedSp, f->sp);
}

void backToScheduler() {
    Fiber * const old = g_cur;
    g_cur = nullptr;
    std::memcpy(abi::__cxa_get_globals(), g_schedEh, 16);
    void * dummy;
    vs_switch(old ? &old->sp : &dummy, g_schedSp);
}

[[noreturn]] void endExec(char const * kind, char const * what) {
    ++g_rt;
    if (g_inExec) {
        std::string s = "[\"";
        s += kind; s += "\",\""; s += what; s += "\"]";
        addEvent(s);
    }
    g_ended = true;
    if (g_cur) backToScheduler();
    std::fprintf(stderr, "vsched: %s %s outside an execution\n", kind, what);
    _exit(3);
}

bool pollReady(Fiber * f) {
    ::epoll_event e[8];
    static auto real = reinterpret_cast<int (*)(int, epoll_event *, int, int)>(
        dlsym(RTLD_NEXT, "epoll_wait"));
    // Must not consume edge/one-shot state: poll the epoll descriptor itself.
    (void) real; (void) e;
    fd_set s; FD_ZERO(&s); FD_SET(f->epfd, &s);
    timeval tv{0, 0};
    return ::select(f->epfd + 1, &s, nullptr, nullptr, &tv) > 0;
}

bool enabled(Fiber * f) {
    switch (f->st) {
    case Ready: return true;
    case BMutex: return mutexOwner(f->addr) < 0
                        || (f->deadline >= 0 && g_now >= f->deadline);
    case BCond: return f->signaled
                       ? mutexOwner(f->mtx) < 0
                       : (f->deadline >= 0 && g_now >= f->deadline
                          && mutexOwner(f->mtx) < 0);
    case BJoin: return g_fibers[f->joinTarget]->st == Done;
    case BSleep: return g_now >= f->deadline;
    case BPoll: return (f->deadline >= 0 && g_now >= f->deadline)
                       || pollReady(f);
    case BSpin: return g_writes != f->spinMark;
    case Done: return false;
    }
    return false;
}

long long earliestDeadline() {
    long long d = -1;
    for (auto f : g_fibers)
        if ((f->st == BCond || f->st == BSleep || f->st == BPoll
             || f->st == BMutex)
            && f->deadline > g_now && !(f->st == BCond && f->signaled))
            if (d < 0 || f->deadline < d) d = f->deadline;
    return d;
}

int g_idleRounds = 0;

// Picks the next fibre to run and switches to it.  forceSwitch: prefer others.
void schedule(bool forceSwitch = false) {
    if (++g_steps > g_maxSteps)
        endExec("hang", "livelock");
    for (;;) {
        Fiber * en[64]; int n = 0;
        bool curEn = g_cur->st != Done && enabled(g_cur);
        if (curEn) en[n++] = g_cur;
        for (auto f : g_fibers)
            if (f != g_cur && n < 60 && enabled(f)) en[n++] = f;
        if (n == 0) {
            // Give spinning fibres another chance first:
            bool again = false;
            for (auto f : g_fibers)
                if (f->st == BSpin && !f->lastChance) {
                    f->lastChance = true; f->reads = -60; f->st = Ready;
                    again = true; break;
                }
            if (again) continue;
            long long const d = earliestDeadline();
            if (d < 0 || ++g_idleRounds > 400)
                endExec("hang", d < 0 ? "deadlock" : "idle");
            g_now = d; ++g_writes;
            continue;
        }
        if (g_atomicMode && curEn) return;
        // Optional pseudo-events: time passes; a condition wait wakes up early.
        long long const d = earliestDeadline();
        bool const optTime = d >= 0 && g_optTime < g_maxOptTime;
        Fiber * spur = nullptr;
        if (g_allowSpurious && g_optSpur < g_maxOptSpur) {
            Fiber * c[64]; int m = 0;
            for (auto f : g_fibers)
                if (f->st == BCond && !f->signaled && m < 60) c[m++] = f;
            if (m) spur = c[g_mode == MRand ? rngN(m) : 0];
        }
        int pick = 0;
        if (g_mode == MRand) {
            if (optTime && rngN(g_strategy == 0 ? 12 : 20) == 0) pick = n;
            else if (spur && rngN(25) == 0) pick = n + 1;
            else if (n > 1) {
                if (g_strategy == 2) {
                    for (std::size_t i = 0; i < g_pctPoints.size(); ++i)
                        if (g_pctPoints[i] == g_steps)
                            g_cur->prio = -static_cast<double>(i) - 1;
                    if (forceSwitch && curEn) g_cur->prio -= 10;
                    pick = 0;
                    for (int i = 1; i < n; ++i)
                        if (en[i]->prio > en[pick]->prio) pick = i;
                } else {
                    int lo = (forceSwitch && curEn) ? 1 : 0;
                    if (lo == 0 && curEn
                        && (rngNext() >> 40) < g_stick * (1 << 24))
                        pick = 0;
                    else
                        pick = lo + static_cast<int>(rngN(n - lo));
                }
            }
        } else {
            int const costFrom = curEn ? 1 : n;
            int total = n + (optTime ? 1 : 0) + (spur ? 1 : 0);
            int p = chooseDfs(total, costFrom);
            if (p >= n) {
                if (optTime && p == n) pick = n;
                else pick = n + 1;
            } else pick = p;
        }
        if (pick == n && optTime) {
            ++g_optTime; g_now = d; ++g_writes;
            continue;
        }
        if (pick >= n) { // spurious wake-up
            ++g_optSpur; spur->signaled = true; spur->timedOut = false;
            continue;
        }
        Fiber * const f = en[pick];
        if (f->st == BSpin) { f->st = Ready; f->reads = 0; f->lastChance = false; }
        switchTo(f);
        return;
    }
}

// A visible operation is about to happen.
void visible(bool write) {
    schedule();
    if (write) {
        ++g_writes; g_cur->reads = 0; g_cur->lastChance = false;
        g_idleRounds = 0;
    } else {
        if (g_cur->readMark != g_writes) {
            g_cur->readMark = g_writes;
            g_cur->reads = g_cur->reads < 0 ? g_cur->reads : 0;
            g_cur->lastChance = false;
        }
        if (++g_cur->reads > 6) {
            g_cur->st = BSpin; g_cur->spinMark = g_writes;
            g_cur->reads = 0;
            schedule();
        }
    }
}

void lockMutex(void * m, bool recursive) {
    Fiber * const me = g_cur;
    Mutex * x = findMutex(m);
    if (x && x->owner == me->id && recursive) { ++x->depth; return; }
    if (x && x->owner >= 0) {
        me->st = BMutex; me->addr = m; me->deadline = -1;
        schedule();
        me->st = Ready;
        x = findMutex(m);
    }
    if (!x) { g_mutexes.push_back(Mutex{m, -1, 0}); x = &g_mutexes.back(); }
    x->owner = me->id; x->depth = 1;
    ++g_writes; me->reads = 0; g_idleRounds = 0;
    hb(HAcq, m, 1, 0);
}

void unlockMutex(void * m) {
    Mutex * x = findMutex(m);
    if (!x || x->owner != g_cur->id)
        endExec("crash", "unlock of a mutex not held");
    hb(HRel, m, 1, 0);
    if (--x->depth == 0) x->owner = -1;
    ++g_writes;
}

// deadline < 0: none.  Returns true on timeout.
bool condWait(void * c, void * m, long long deadline) {
    Fiber * const me = g_cur;
    visible(true);
    unlockMutex(m);
    me->st = BCond; me->addr = c; me->mtx = m; me->deadline = deadline;
    me->signaled = false; me->timedOut = false; me->condSeq = ++g_condSeq;
    schedule();
    bool const to = !me->signaled;
    me->st = Ready; me->deadline = -1;
    Mutex * x = findMutex(m);
    if (!x) { g_mutexes.push_back(Mutex{m, -1, 0}); x = &g_mutexes.back(); }
    x->owner = me->id; x->depth = 1;
    ++g_writes; me->reads = 0;
    hb(HAcq, m, 1, 0);
    return to;
}

void condSignal(void * c, bool all) {
    visible(true);
    std::vector<Fiber *> w;
    for (auto f : g_fibers)
        if (f->st == BCond && f->addr == c && !f->signaled
            && !(f->deadline >= 0 && g_now >= f->deadline && false))
            w.push_back(f);
    if (w.empty()) return;
    std::sort(w.begin(), w.end(),
              [](Fiber * a, Fiber * b) { return a->condSeq < b->condSeq; });
    if (all) { for (auto f : w) f->signaled = true; return; }
    int k = 0;
    if (w.size() > 1)
        k = g_mode == MRand ? (rngN(2) ? 0 : static_cast<int>(rngN(
                                static_cast<unsigned>(w.size()))))
                            : chooseDfs(static_cast<int>(w.size()), 1);
    w[k]->signaled = true;
}

void runDtors(Fiber * f) {
    while (!f->dtors.empty()) {
        auto d = f->dtors.back(); f->dtors.pop_back();
        --g_rt; d.first(d.second); ++g_rt;
    }
}

extern "C" void vs_trampoline() {
    Fiber * const f = g_cur;
    hb(HStart, nullptr, static_cast<std::size_t>(f->id), 0);
    int const saved = g_rt;
    g_rt = 0;
    f->start(f->arg);
    g_rt = saved;
    g_rt = 1;
    runDtors(f);
    hb(HExit, nullptr, static_cast<std::size_t>(f->id), 0);
    f->st = Done; ++g_writes;
    if (f->id == 0) {
        backToScheduler();
    } else {
        schedule();
    }
    std::abort();
}

Fiber * newFiber(void * (*start)(void *), void * arg) {
    Fiber * f = new Fiber();
    f->id = static_cast<int>(g_fibers.size());
    f->start = start; f->arg = arg;
    if (g_stackPool.empty()) {
        char * s = static_cast<char *>(mmap(nullptr, STACK + 4096,
            PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
        mprotect(s, 4096, PROT_NONE);
        g_stackPool.push_back(s + 4096);
    }
    f->stack = g_stackPool.back(); g_stackPool.pop_back();
    std::uintptr_t top = reinterpret_cast<std::uintptr_t>(f->stack) + STACK - 64;
    top &= ~static_cast<std::uintptr_t>(15);
    void ** sp = reinterpret_cast<void **>(top);
    *--sp = nullptr;                         // alignment / fake return address
    *--sp = reinterpret_cast<void *>(&vs_trampoline);
    for (int i = 0; i < 6; ++i) *--sp = nullptr;
    f->sp = sp;
    std::memset(f->eh, 0, sizeof f->eh);
    f->prio = static_cast<double>(rngNext() >> 11);
    g_fibers.push_back(f);
    return f;
}

// --------------------------------------------------------------- memory ----

void checkAccess(void const * p, std::size_t n, bool write) {
    (void) write;
    if (n > (std::size_t(1) << 40)) endExec("crash", "out of bounds");
    if (static_cast<std::size_t>(static_cast<char const *>(p) - g_watch) < g_watchLen) {
        unsigned char & w = g_watchWidth[static_cast<char const *>(p) - g_watch];
        w = std::max(w, static_cast<unsigned char>(std::min<std::size_t>(n, 255u)));
    }
    if (!inArena(p)) return;
    std::size_t const o = static_cast<std::size_t>(
                              static_cast<char const *>(p) - g_arena);
    for (std::size_t i = o; i < o + n; ) {
        unsigned char const s = g_shadow[i / 8];
        std::size_t const off = i % 8;
        std::size_t const here = std::min<std::size_t>(8 - off, o + n - i);
        if (s == 9) endExec("crash", "use after free");
        if (s == 0 || off + here > s) endExec("crash", "out of bounds");
        i += here;
    }
}

void access(void const * p, std::size_t n, bool write) {
    if (!active()) return;
    Rt r;
    checkAccess(p, n, write);
    hb(write ? HWrite : HRead, p, n, 0);
    ++g_plainSeen;
    if (g_plainCountdown > 0 && --g_plainCountdown == 0) {
        if (g_plainPeriod) g_plainCountdown = 1 + rngN(
                               static_cast<unsigned>(g_plainPeriod));
        if (!g_atomicMode) schedule(true);
    }
}

template <typename F> auto realFn(char const * name) {
    return reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
}

} // namespace

// --------------------------------------------------------------- public ----

namespace vs {

void ev(std::initializer_list<Val> vals) {
    Rt r;
    if (!g_inExec) return;
    std::string s = "[";
    bool first = true;
    for (auto const & v : vals) {
        if (!first) s += ',';
        first = false;
        if (v.isStr) { s += '"'; s += v.s; s += '"'; }
        else s += std::to_string(v.i);
    }
    s += ']';
    addEvent(s);
}
void evRaw(std::string const & j) { Rt r; if (g_inExec) addEvent(j); }
void point() { if (!active()) return; Rt r; visible(true); }
bool strictTime() { return g_cfgOptTime == 0; }
long nowMs() { return static_cast<long>(g_now / 1000000); }
void sleepMs(long ms) {
    if (!active()) return;
    Rt r;
    g_cur->st = BSleep; g_cur->deadline = g_now + ms * 1000000ll;
    schedule();
    g_cur->st = Ready; g_cur->deadline = -1;
}
int self() { return g_cur ? g_cur->id : 0; }
unsigned rnd(unsigned n) {
    g_userRng = g_userRng * 6364136223846793005ull + 1442695040888963407ull;
    return static_cast<unsigned>((g_userRng >> 33) % n);
}
long liveBlocks() { return g_live; }
void fail(char const * kind, char const * what) { endExec(kind, what); }
void setAtomic(bool on) { g_atomicMode = on; }
void failAlloc(long n) { g_failAlloc = n; }
void arenaMalloc(bool on) { g_arenaMalloc = on; }
void sysFaults(long n) { g_faults = n; }
void openError(int e) { g_openError = e; }
void readHook(std::size_t (*hook)(int, std::size_t)) { g_readHook = hook; }
void amplify(long n) { g_amplify = n; }
void watch(void const * p, std::size_t n, unsigned char * widths) {
    g_watch = static_cast<char const *>(p); g_watchLen = p ? n : 0u; g_watchWidth = widths;
}
long openFds();

static std::vector<Scenario> & scenarios() {
    static std::vector<Scenario> v; return v;
}
Reg::Reg(char const * name, int variants, void (*body)(int)) {
    scenarios().push_back(Scenario{name, variants, body});
}

} // namespace vs

// ----------------------------------------------------- operator new etc. ----

static std::size_t const HUGE_ = std::size_t(1) << 40; // no machine has that
static void * vsNew(std::size_t n, std::size_t al) {
    if (active()) {
        Rt r;
        if (g_failAlloc > 0 && --g_failAlloc == 0) return nullptr;
        if (n > HUGE_) return nullptr;
        return arenaAlloc(n, al);
    }
    return al > 16 ? aligned_alloc(al, (n + al - 1) / al * al)
                   : std::malloc(n ? n : 1);
}
static void vsDelete(void * p) {
    if (!p) return;
    if (!inArena(p)) { std::free(p); return; }
    if (!g_inExec) return;
    Rt r;
    Hdr * h = reinterpret_cast<Hdr *>(static_cast<char *>(p) - sizeof(Hdr));
    if (h->magic == DEADMAGIC) endExec("crash", "double free");
    if (h->magic != MAGIC) endExec("crash", "free of a bad pointer");
    h->magic = DEADMAGIC;
    hb(HFree, p, h->size, 0);
    std::size_t const o = static_cast<std::size_t>(static_cast<char *>(p)
                                                   - g_arena);
    std::memset(g_shadow + o / 8, 9, (h->size + 7) / 8);
    std::memset(p, 0xDD, h->size);
    --g_live;
}
static void * vsNewThrow(std::size_t n, std::size_t al) {
    void * const p = vsNew(n, al);
    if (!p) throw std::bad_alloc();
    return p;
}
void * operator new(std::size_t n) { return vsNewThrow(n, 16); }
void * operator new[](std::size_t n) { return vsNewThrow(n, 16); }
void * operator new(std::size_t n, std::nothrow_t const &) noexcept { return vsNew(n, 16); }
void * operator new[](std::size_t n, std::nothrow_t const &) noexcept { return vsNew(n, 16); }
void operator delete(void * p) noexcept { vsDelete(p); }
void operator delete[](void * p) noexcept { vsDelete(p); }
void operator delete(void * p, std::size_t) noexcept { vsDelete(p); }
void operator delete[](void * p, std::size_t) noexcept { vsDelete(p); }
void operator delete(void * p, std::nothrow_t const &) noexcept { vsDelete(p); }
void operator delete[](void * p, std::nothrow_t const &) noexcept { vsDelete(p); }

// aligned variants used by some code under test:
extern "C" int posix_memalign(void ** out, std::size_t al, std::size_t n) {
    static auto real = realFn<int (*)(void **, std::size_t, std::size_t)>("posix_memalign");
    if (active()) {
        Rt r;
        if (g_failAlloc > 0 && --g_failAlloc == 0) return ENOMEM;
        *out = arenaAlloc(n, al); return 0;
    }
    return real(out, al, n);
}
extern "C" void * aligned_alloc(std::size_t al, std::size_t n) noexcept {
    static auto real = realFn<void * (*)(std::size_t, std::size_t)>("aligned_alloc");
    if (active()) {
        Rt r;
        if (g_failAlloc > 0 && --g_failAlloc == 0) return nullptr;
        return arenaAlloc(n, al);
    }
    return real(al, n);
}
extern "C" void __libc_free(void *);
extern "C" void free(void * p) noexcept {
    if (p && g_arena && inArena(p)) { vsDelete(p); return; }
    __libc_free(p);
}

// Exceptions live in the arena too, and their reference counts order accesses.
namespace { bool g_exAlloc = false; }
extern "C" void * __libc_malloc(std::size_t);
extern "C" void * malloc(std::size_t n) noexcept {
    if (g_exAlloc) { g_exAlloc = false; return arenaAlloc(n, 16); }
    if (g_arenaMalloc && active()) return vsNew(n, 16);
    return __libc_malloc(n);
}
extern "C" void * __libc_calloc(std::size_t, std::size_t);
extern "C" void * calloc(std::size_t n, std::size_t m) noexcept {
    if (!g_arenaMalloc || !active()) return __libc_calloc(n, m);
    if (m && n > std::size_t(-1) / m) return nullptr;
    void * const p = vsNew(n * m, 16);
    if (p) std::memset(p, 0, n * m);
    return p;
}
extern "C" void * __libc_realloc(void *, std::size_t);
extern "C" void * realloc(void * p, std::size_t n) noexcept {
    if (!g_arenaMalloc || !active()) return __libc_realloc(p, n);
    if (!p) return vsNew(n, 16);
    if (!n) { vsDelete(p); return nullptr; }
    void * const q = vsNew(n, 16);
    if (!q) return nullptr;
    std::size_t const old = reinterpret_cast<Hdr *>(static_cast<char *>(p) - sizeof(Hdr))->size;
    std::memcpy(q, p, old < n ? old : n);
    vsDelete(p);
    return q;
}
namespace __cxxabiv1 {
extern "C" void * __cxa_allocate_exception(std::size_t n) noexcept {
    static auto real = realFn<void * (*)(std::size_t)>("__cxa_allocate_exception");
    if (!active()) return real(n);
    Rt r;
    g_exAlloc = true;
    void * const p = real(n);
    g_exAlloc = false;
    return p;
}
}
static void exceptionUse(void * obj) {
    if (obj && inArena(obj)) hb(HARmw, static_cast<char *>(obj) - 8, 1, 3);
}
namespace __cxxabiv1 {
extern "C" void __cxa_end_catch() {
    static auto real = realFn<void (*)()>("__cxa_end_catch");
    if (active() && g_hb) {
        Rt r;
        std::exception_ptr const e = std::current_exception();
        void * obj; std::memcpy(&obj, &e, sizeof obj);
        exceptionUse(obj);
    }
    real();
}
}
extern "C" void _ZNSt15__exception_ptr13exception_ptr10_M_releaseEv(void ** self) noexcept {
    static auto real = realFn<void (*)(void **)>("_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv");
    if (active() && g_hb) { Rt r; exceptionUse(*self); }
    real(self);
}

// ------------------------------------------------------ tsan entry points ----

extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define RW(n) \
    void __tsan_read##n(void * p) { g_pc = __builtin_return_address(0); access(p, n, false); } \
    void __tsan_write##n(void * p) { g_pc = __builtin_return_address(0); access(p, n, true); } \
    void __tsan_unaligned_read##n(void * p) { g_pc = __builtin_return_address(0); access(p, n, false); } \
    void __tsan_unaligned_write##n(void * p) { g_pc = __builtin_return_address(0); access(p, n, true); } \
    void __tsan_volatile_read##n(void * p) { access(p, n, false); } \
    void __tsan_volatile_write##n(void * p) { access(p, n, true); } \
    void __tsan_read_write##n(void * p) { g_pc = __builtin_return_address(0); access(p, n, true); } \
    void __tsan_unaligned_read_write##n(void * p) { access(p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_update(void ** p, void *) { access(p, 8, true); }
void __tsan_vptr_read(void ** p) { access(p, 8, false); }
void __tsan_read_range(void * p, std::size_t n) { access(p, n, false); }
void __tsan_write_range(void * p, std::size_t n) { access(p, n, true); }
void * __tsan_memcpy(void * d, void const * s, std::size_t n) {
    if (n) { access(s, n, false); access(d, n, true); }
    return std::memmove(d, s, n);
}
void * __tsan_memmove(void * d, void const * s, std::size_t n) {
    if (n) { access(s, n, false); access(d, n, true); }
    return std::memmove(d, s, n);
}
void * __tsan_memset(void * d, int c, std::size_t n) {
    if (n) access(d, n, true);
    return std::memset(d, c, n);
}

static bool acqOrd(int o) { return o == 1 || o == 2 || o == 4 || o == 5; }
static bool relOrd(int o) { return o == 3 || o == 4 || o == 5; }
static int ordCode(int o) { return (acqOrd(o) ? 1 : 0) | (relOrd(o) ? 2 : 0); }

static void atomicPoint(void const volatile * p, std::size_t n, bool w) {
    if (!active()) return;
    Rt r;
    visible(w);
    checkAccess(const_cast<void const *>(p), n, w);
}
static void atomicHb(HbKind k, void const volatile * p, std::size_t n, int o) {
    if (!active()) return;
    Rt r;
    hb(k, const_cast<void const *>(p), n, ordCode(o));
}
static bool weakFail() {
    if (!active()) return false;
    Rt r;
    if (g_mode != MRand || g_optSpur >= g_maxOptSpur || g_atomicMode) return false;
    if (rngN(12) != 0) return false;
    ++g_optSpur;
    return true;
}

#define AT(bits, T) \
T __tsan_atomic##bits##_load(T const volatile * a, int o) { \
    atomicPoint(a, sizeof(T), false); T const v = *a; \
    atomicHb(HALoad, a, sizeof(T), o); return v; } \
void __tsan_atomic##bits##_store(T volatile * a, T v, int o) { \
    atomicPoint(a, sizeof(T), true); *a = v; \
    atomicHb(HAStore, a, sizeof(T), o); } \
T __tsan_atomic##bits##_exchange(T volatile * a, T v, int o) { \
    atomicPoint(a, sizeof(T), true); T const r = *a; *a = v; \
    atomicHb(HARmw, a, sizeof(T), o); return r; } \
T __tsan_atomic##bits##_fetch_add(T volatile * a, T v, int o) { \
    atomicPoint(a, sizeof(T), true); T const r = *a; *a = static_cast<T>(r + v); \
    atomicHb(HARmw, a, sizeof(T), o); return r; } \
T __tsan_atomic##bits##_fetch_sub(T volatile * a, T v, int o) { \
    atomicPoint(a, sizeof(T), true); T const r = *a; *a = static_cast<T>(r - v); \
    atomicHb(HARmw, a, sizeof(T), o); return r; } \
T __tsan_atomic##bits##_fetch_and(T volatile * a, T v, int o) { \
    atomicPoint(a, sizeof(T), true); T const r = *a; *a = static_cast<T>(r & v); \
    atomicHb(HARmw, a, sizeof(T), o); return r; } \
T __tsan_atomic##bits##_fetch_or(T volatile * a, T v, int o) { \
    atomicPoint(a, sizeof(T), true); T const r = *a; *a = static_cast<T>(r | v); \
    atomicHb(HARmw, a, sizeof(T), o); return r; } \
T __tsan_atomic##bits##_fetch_xor(T volatile * a, T v, int o) { \
    atomicPoint(a, sizeof(T), true); T const r = *a; *a = static_cast<T>(r ^ v); \
    atomicHb(HARmw, a, sizeof(T), o); return r; } \
T __tsan_atomic##bits##_fetch_nand(T volatile * a, T v, int o) { \
    atomicPoint(a, sizeof(T), true); T const r = *a; *a = static_cast<T>(~(r & v)); \
    atomicHb(HARmw, a, sizeof(T), o); return r; } \
int __tsan_atomic##bits##_compare_exchange_strong(T volatile * a, T * c, T v, int o, int fo) { \
    atomicPoint(a, sizeof(T), true); T const r = *a; \
    if (r == *c) { *a = v; atomicHb(HARmw, a, sizeof(T), o); return 1; } \
    *c = r; atomicHb(HALoad, a, sizeof(T), fo); return 0; } \
int __tsan_atomic##bits##_compare_exchange_weak(T volatile * a, T * c, T v, int o, int fo) { \
    atomicPoint(a, sizeof(T), true); T const r = *a; \
    if (r == *c && !weakFail()) { *a = v; atomicHb(HARmw, a, sizeof(T), o); return 1; } \
    *c = r; atomicHb(HALoad, a, sizeof(T), fo); return 0; } \
T __tsan_atomic##bits##_compare_exchange_val(T volatile * a, T c, T v, int o, int fo) { \
    atomicPoint(a, sizeof(T), true); T const r = *a; \
    if (r == c) { *a = v; atomicHb(HARmw, a, sizeof(T), o); } \
    else atomicHb(HALoad, a, sizeof(T), fo); \
    return r; }
AT(8, std::uint8_t) AT(16, std::uint16_t) AT(32, std::uint32_t) AT(64, std::uint64_t)
void __tsan_atomic_thread_fence(int o) {
    if (!active()) return;
    Rt r; visible(true); hb(HFence, nullptr, 0, ordCode(o));
}
void __tsan_atomic_signal_fence(int) {}

// --------------------------------------------------------------- pthread ----

int pthread_create(pthread_t * t, pthread_attr_t const * at,
                   void * (*start)(void *), void * arg)
{
    static auto real = realFn<int (*)(pthread_t *, pthread_attr_t const *,
                                      void * (*)(void *), void *)>("pthread_create");
    if (!active()) return real(t, at, start, arg);
    Rt r;
    Fiber * f = newFiber(start, arg);
    *t = static_cast<pthread_t>(0x100000u + static_cast<unsigned>(f->id));
    hb(HCreate, nullptr, static_cast<std::size_t>(f->id), 0);
    ++g_writes;
    schedule();
    return 0;
}
int pthread_join(pthread_t t, void ** ret) {
    static auto real = realFn<int (*)(pthread_t, void **)>("pthread_join");
    if (!active()) return real(t, ret);
    Rt r;
    unsigned const id = static_cast<unsigned>(t - 0x100000u);
    if (id >= g_fibers.size()) endExec("crash", "join of a bad thread");
    Fiber * f = g_fibers[id];
    if (f->joined || f->detached) endExec("crash", "join of a joined thread");
    if (f == g_cur) return EDEADLK;
    visible(true);
    if (f->joined) endExec("crash", "join of a thread being joined");
    f->joined = true;
    if (f->st != Done) {
        g_cur->st = BJoin; g_cur->joinTarget = f->id;
        schedule();
        g_cur->st = Ready;
    }
    hb(HJoin, nullptr, static_cast<std::size_t>(f->id), 0);
    if (ret) *ret = nullptr;
    return 0;
}
int pthread_detach(pthread_t t) {
    static auto real = realFn<int (*)(pthread_t)>("pthread_detach");
    if (!active()) return real(t);
    g_fibers[static_cast<unsigned>(t - 0x100000u)]->detached = true;
    return 0;
}
pthread_t pthread_self() {
    if (g_inExec && g_cur)
        return static_cast<pthread_t>(0x100000u + static_cast<unsigned>(g_cur->id));
    return static_cast<pthread_t>(0x100000u - 1u);
}
static bool isRec(pthread_mutex_t * m) {
    return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP;
}
int pthread_mutex_lock(pthread_mutex_t * m) {
    if (!active()) return 0;
    Rt r;
    if (inArena(m)) checkAccess(m, sizeof *m, true);
    visible(true);
    lockMutex(m, isRec(m));
    return 0;
}
int pthread_mutex_trylock(pthread_mutex_t * m) {
    if (!active()) return 0;
    Rt r;
    if (inArena(m)) checkAccess(m, sizeof *m, true);
    // A failed attempt only reads (whoever keeps trying is spinning):
    auto const busy = [m] {
        Mutex * x = findMutex(m);
        return x && x->owner >= 0 && !(x->owner == g_cur->id && isRec(m)); };
    visible(!busy());
    if (busy()) return EBUSY;
    lockMutex(m, isRec(m));
    return 0;
}
static long long tsNs(timespec const * t) {
    return t->tv_sec * 1000000000ll + t->tv_nsec;
}
// Virtual clocks: MONOTONIC = base + now, REALTIME = other base + now.
static long long const MONO_BASE = 1000ll * 1000000000ll;
static long long const REAL_BASE = 1700000000ll * 1000000000ll;
static long long toVirtual(clockid_t c, timespec const * t) {
    long long const v = tsNs(t) - (c == CLOCK_REALTIME ? REAL_BASE : MONO_BASE);
    return v < 0 ? 0 : v;
}
static int timedLock(pthread_mutex_t * m, clockid_t c, timespec const * ts) {
    if (!active()) return 0;
    Rt r;
    if (inArena(m)) checkAccess(m, sizeof *m, true);
    visible(true);
    Mutex * x = findMutex(m);
    long long const d = toVirtual(c, ts);
    if (x && x->owner >= 0 && !(x->owner == g_cur->id && isRec(m))) {
        g_cur->st = BMutex; g_cur->addr = m; g_cur->deadline = d;
        schedule();
        g_cur->st = Ready; g_cur->deadline = -1;
        if (mutexOwner(m) >= 0) return ETIMEDOUT;
    }
    lockMutex(m, isRec(m));
    return 0;
}
int pthread_mutex_timedlock(pthread_mutex_t * m, timespec const * ts) {
    return timedLock(m, CLOCK_REALTIME, ts);
}
int pthread_mutex_clocklock(pthread_mutex_t * m, clockid_t c, timespec const * ts) {
    return timedLock(m, c, ts);
}
int pthread_mutex_unlock(pthread_mutex_t * m) {
    if (!active()) return 0;
    Rt r;
    if (inArena(m)) checkAccess(m, sizeof *m, true);
    unlockMutex(m);
    schedule();
    return 0;
}
int pthread_mutex_destroy(pthread_mutex_t *) { return 0; }
int pthread_cond_wait(pthread_cond_t * c, pthread_mutex_t * m) {
    if (!active()) return 0;
    Rt r;
    if (inArena(c)) checkAccess(c, sizeof *c, true);
    condWait(c, m, -1);
    return 0;
}
int pthread_cond_timedwait(pthread_cond_t * c, pthread_mutex_t * m, timespec const * ts) {
    if (!active()) return 0;
    Rt r;
    if (inArena(c)) checkAccess(c, sizeof *c, true);
    return condWait(c, m, toVirtual(CLOCK_REALTIME, ts)) ? ETIMEDOUT : 0;
}
int pthread_cond_clockwait(pthread_cond_t * c, pthread_mutex_t * m, clockid_t k, timespec const * ts) {
    if (!active()) return 0;
    Rt r;
    if (inArena(c)) checkAccess(c, sizeof *c, true);
    return condWait(c, m, toVirtual(k, ts)) ? ETIMEDOUT : 0;
}
int pthread_cond_signal(pthread_cond_t * c) {
    if (!active()) return 0;
    Rt r;
    if (inArena(c)) checkAccess(c, sizeof *c, true);
    condSignal(c, false);
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t * c) {
    if (!active()) return 0;
    Rt r;
    if (inArena(c)) checkAccess(c, sizeof *c, true);
    condSignal(c, true);
    return 0;
}
int pthread_cond_destroy(pthread_cond_t * c) {
    if (!active()) return 0;
    Rt r;
    // Destroying a condition variable with blocked waiters is undefined:
    for (auto f : g_fibers)
        if (f->st == BCond && f->addr == c && !f->signaled)
            endExec("crash", "condition variable destroyed while waited for");
    return 0;
}
int sched_yield() noexcept {
    if (!active()) return 0;
    Rt r;
    Fiber * const me = g_cur;
    if (me->readMark != g_writes) { me->readMark = g_writes; me->reads = 0; me->lastChance = false; }
    me->reads += 2;
    if (me->reads > 6) { me->st = BSpin; me->spinMark = g_writes; me->reads = 0; }
    schedule(true);
    return 0;
}
static int doSleep(long long ns) {
    Rt r;
    g_cur->st = BSleep; g_cur->deadline = g_now + ns;
    schedule();
    g_cur->st = Ready; g_cur->deadline = -1;
    return 0;
}
int nanosleep(timespec const * t, timespec *) {
    static auto real = realFn<int (*)(timespec const *, timespec *)>("nanosleep");
    return active() ? doSleep(tsNs(t)) : real(t, nullptr);
}
int clock_nanosleep(clockid_t c, int fl, timespec const * t, timespec * rem) {
    static auto real = realFn<int (*)(clockid_t, int, timespec const *, timespec *)>("clock_nanosleep");
    if (!active()) return real(c, fl, t, rem);
    long long d = tsNs(t);
    if (fl & TIMER_ABSTIME) { d = toVirtual(c, t) - g_now; if (d < 0) d = 0; }
    return doSleep(d);
}
int usleep(useconds_t us) {
    static auto real = realFn<int (*)(useconds_t)>("usleep");
    return active() ? doSleep(us * 1000ll) : real(us);
}
int clock_gettime(clockid_t c, timespec * t) noexcept {
    static auto real = realFn<int (*)(clockid_t, timespec *)>("clock_gettime");
    if (!active()) return real ? real(c, t) : -1;
    {
        Rt r;
        visible(false);
        long long const v = g_now
            + ((c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) ? REAL_BASE : MONO_BASE);
        t->tv_sec = v / 1000000000ll; t->tv_nsec = v % 1000000000ll;
    }
    return 0;
}
int gettimeofday(timeval * tv, void *) noexcept {
    timespec t; clock_gettime(CLOCK_REALTIME, &t);
    tv->tv_sec = t.tv_sec; tv->tv_usec = t.tv_nsec / 1000;
    return 0;
}

// ---------------------------------------------------- descriptors / epoll ----

// Descriptors made in this execution; nothing else may be closed in it.
static bool g_fdOpen[1024];

static int fdMade(int fd) {
    if (active() && fd >= 0 && fd < 1024) g_fdOpen[fd] = true;
    return fd;
}
static bool faultNow() {
    if (g_faults <= 0 || g_mode == MDfs || rngN(3) != 0) return false;
    --g_faults;
    errno = EINTR;
    return true;
}
int pipe2(int fds[2], int flags) noexcept {
    static auto real = realFn<int (*)(int *, int)>("pipe2");
    int const r = real(fds, flags);
    if (r == 0) { fdMade(fds[0]); fdMade(fds[1]); }
    return r;
}
int epoll_create1(int flags) noexcept {
    static auto real = realFn<int (*)(int)>("epoll_create1");
    return fdMade(real(flags));
}
int eventfd(unsigned v, int flags) noexcept {
    static auto real = realFn<int (*)(unsigned, int)>("eventfd");
    return fdMade(real(v, flags));
}
static int openFailure() { int const e = g_openError; g_openError = 0; errno = e; return -1; }
int open(char const * path, int flags, ...) {
    static auto real = realFn<int (*)(char const *, int, ...)>("open");
    va_list a; va_start(a, flags); int const mode = va_arg(a, int); va_end(a);
    if (active() && g_openError) return openFailure();
    return fdMade(real(path, flags, mode));
}
int fcntl(int fd, int cmd, ...) {
    static auto real = realFn<int (*)(int, int, ...)>("fcntl");
    va_list a; va_start(a, cmd); long const arg = va_arg(a, long); va_end(a);
    if (active()) {
        Rt r; visible(true);
        if (faultNow()) return -1;
        if (g_openError) return openFailure();
    }
    int const k = real(fd, cmd, arg);
    return cmd == F_DUPFD_CLOEXEC || cmd == F_DUPFD ? fdMade(k) : k;
}
// What is handed to epoll_ctl() is there when epoll_wait() reports it.
static char g_fdSync[256];
static void const * fdSync(int fd) { return g_fdSync + (fd & 255); }
int epoll_wait(int fd, epoll_event * e, int n, int timeout) {
    static auto real = realFn<int (*)(int, epoll_event *, int, int)>("epoll_wait");
    if (!active()) return real(fd, e, n, timeout);
    Rt r;
    schedule();
    if (faultNow()) return -1;
    int k = real(fd, e, n, 0);
    if (k > 0) hb(HARmw, fdSync(fd), 1, 3);
    if (k != 0 || timeout == 0) { ++g_writes; return k; }
    g_cur->st = BPoll; g_cur->epfd = fd;
    g_cur->deadline = timeout < 0 ? -1 : g_now + timeout * 1000000ll;
    schedule();
    g_cur->st = Ready; g_cur->deadline = -1;
    k = real(fd, e, n, 0);
    if (k > 0) { ++g_writes; g_idleRounds = 0; hb(HARmw, fdSync(fd), 1, 3); }
    return k;
}
int epoll_ctl(int fd, int op, int f, epoll_event * e) noexcept {
    static auto real = realFn<int (*)(int, int, int, epoll_event *)>("epoll_ctl");
    if (active()) { Rt r; visible(true); hb(HARmw, fdSync(fd), 1, 3); }
    return real(fd, op, f, e);
}
ssize_t write(int fd, void const * p, std::size_t n) {
    static auto real = realFn<ssize_t (*)(int, void const *, std::size_t)>("write");
    if (active()) {
        Rt r; visible(true);
        if (faultNow()) return -1;
        if (g_amplify > 1 && n == 1) { // many writers at once
            long done = 0;
            while (done < g_amplify && real(fd, p, 1) == 1) ++done;
            if (done) return 1;
            return -1;
        }
    }
    return real(fd, p, n);
}
ssize_t read(int fd, void * p, std::size_t n) {
    static auto real = realFn<ssize_t (*)(int, void *, std::size_t)>("read");
    if (active()) {
        Rt r; visible(true);
        if (faultNow()) return -1;
        if (g_readHook) n = g_readHook(fd, n);
        if (n == std::size_t(-1)) return -1;
    }
    return real(fd, p, n);
}
int close(int fd) {
    static auto real = realFn<int (*)(int)>("close");
    if (active()) {
        Rt r; visible(true);
        if (fd < 0 || fd >= 1024 || !g_fdOpen[fd])
            endExec("crash", "close of a descriptor that is not open");
        g_fdOpen[fd] = false;
    }
    return real(fd);
}
static void closeLeftFds() {
    static auto real = realFn<int (*)(int)>("close");
    for (int i = 0; i < 1024; ++i)
        if (g_fdOpen[i]) { real(i); g_fdOpen[i] = false; }
}
static long countFds() {
    long n = 0;
    for (bool b : g_fdOpen) n += b;
    return n;
}

// ---------------------------------------------------------- emulated TLS ----

struct emutls_control { std::size_t size, align; void * obj; void * templ; };
void * __emutls_get_address(emutls_control * c) {
    Rt r;
    Fiber * f = (g_inExec && g_cur) ? g_cur : &g_outside;
    auto & slot = f->tls[c];
    if (!slot) {
        slot = aligned_alloc(16, (c->size + 15) / 16 * 16 + 16);
        if (c->templ) std::memcpy(slot, c->templ, c->size);
        else std::memset(slot, 0, c->size);
    }
    return slot;
}
int __cxa_thread_atexit(void (*fn)(void *), void * obj, void *) noexcept {
    Rt r;
    Fiber * f = (g_inExec && g_cur) ? g_cur : &g_outside;
    f->dtors.push_back({fn, obj});
    return 0;
}

// --------------------------------------------------------------- failures ----

void __assert_fail(char const * e, char const * file, unsigned line, char const *) noexcept {
    ++g_rt;
    if (getenv("VS_DEBUG")) fprintf(stderr, "assert %s:%u %s\n", file, line, e);
    if (g_inExec) endExec("crash", "assert");
    fprintf(stderr, "assert %s:%u %s\n", file, line, e);
    _exit(3);
}
void abort() noexcept {
    ++g_rt;
    if (g_inExec && g_cur) endExec("crash", "abort");
    _exit(3);
}
} // extern "C"

namespace vs { long openFds() { return countFds(); } }
namespace vs { bool fdIsOpen(int fd) { return fd >= 0 && fd < 1024 && g_fdOpen[fd]; } }

namespace {

void onTerminate() {
    ++g_rt;
    if (g_inExec && g_cur) endExec("crash", "terminate");
    fprintf(stderr, "terminate outside an execution\n");
    _exit(3);
}
sigjmp_buf g_sigJmp;
// Executions that go on and on without reaching the scheduler: a timer of the
// processor time used, and the execution it last saw.
long g_execNo = 0;
bool g_stuck = false;
void onTick(int) {
    static long last = -1; static int ticks = 0;
    if (!g_inExec || !g_cur || g_execNo != last) { last = g_execNo; ticks = 0; return; }
    if (++ticks < 4) return;
    ticks = 0;
    ++g_rt;
    addEvent("[\"hang\",\"no progress\"]");
    g_ended = g_stuck = true;
    siglongjmp(g_sigJmp, 1);
}
void startTicks() {
    struct sigaction sa; std::memset(&sa, 0, sizeof sa);
    sa.sa_handler = &onTick; sa.sa_flags = SA_ONSTACK | SA_RESTART;
    sigaction(SIGVTALRM, &sa, nullptr);
    itimerval t; t.it_interval.tv_sec = 5; t.it_interval.tv_usec = 0; t.it_value = t.it_interval;
    setitimer(ITIMER_VIRTUAL, &t, nullptr);
}
void onSignal(int sig) {
    ++g_rt;
    if (g_inExec && g_cur) {
        addEvent(sig == SIGFPE ? "[\"crash\",\"sigfpe\"]" : "[\"crash\",\"signal\"]");
        g_ended = true;
        siglongjmp(g_sigJmp, 1);
    }
    _exit(4);
}

vs::Scenario const * g_scn = nullptr;
int g_variant = 0;
void * mainFiber(void *) { g_scn->body(g_variant); return nullptr; }

// Turns the raw access log into a compact list over shared locations.
std::string hbJson() {
    std::vector<std::uintptr_t> b;
    for (auto const & e : g_hbLog)
        if (e.k <= HARmw || e.k == HFree) {
            if (e.size == 0) continue;
            b.push_back(e.a); b.push_back(e.a + e.size);
        }
    std::sort(b.begin(), b.end());
    b.erase(std::unique(b.begin(), b.end()), b.end());
    auto idx = [&b](std::uintptr_t a) {
        return static_cast<std::size_t>(std::lower_bound(b.begin(), b.end(), a)
                                        - b.begin());
    };
    struct Cell { int thr = -1; bool multi = false, write = false, atomic = false; int id = -1; };
    std::vector<Cell> cells(b.size() + 1);
    for (auto const & e : g_hbLog)
        if ((e.k <= HARmw || e.k == HFree) && e.size)
            for (std::size_t i = idx(e.a); i < idx(e.a + e.size); ++i) {
                Cell & c = cells[i];
                if (c.thr < 0) c.thr = e.f; else if (c.thr != e.f) c.multi = true;
                if (e.k != HRead && e.k != HALoad) c.write = true;
                if (e.k >= HALoad && e.k <= HARmw) c.atomic = true;
            }
    // Adjacent cells always accessed together are merged by giving each event
    // only the first cell of a run of identical access patterns:
    std::vector<std::size_t> sig(b.size() + 1, 1469598103934665603ull);
    std::size_t n = 0;
    for (auto const & e : g_hbLog) {
        ++n;
        if ((e.k <= HARmw || e.k == HFree) && e.size)
            for (std::size_t i = idx(e.a); i < idx(e.a + e.size); ++i)
                sig[i] = (sig[i] ^ n) * 1099511628211ull;
    }
    std::unordered_map<std::size_t, std::size_t> rep;
    int nextLoc = 0;
    std::unordered_map<std::uintptr_t, int> sync;
    std::string out = "[";
    bool first = true;
    void * pc = nullptr;
    bool const pcs = std::getenv("VS_PC");
    auto emit = [&](char const * k, int t, long x, int o) {
        if (pcs) std::fprintf(stderr, "%s %d %ld pc=%lx\n", k, t, x,
            (unsigned long) pc - (unsigned long) &__executable_start);
        if (!first) out += ',';
        first = false;
        out += "[\""; out += k; out += "\","; out += std::to_string(t);
        out += ','; out += std::to_string(x); out += ',';
        out += std::to_string(o); out += ']';
    };
    // Thread numbers in order of appearance; last plain access per (t, loc)
    // since t's last synchronisation is remembered to skip repetitions.
    std::map<std::pair<int, int>, int> lastAcc;
    std::map<int, int> epoch;
    for (auto const & e : g_hbLog) {
        pc = e.pc;
        switch (e.k) {
        case HRead: case HWrite: case HFree: case HALoad: case HAStore: case HARmw:
            if (!e.size) break;
            for (std::size_t i = idx(e.a); i < idx(e.a + e.size); ++i) {
                Cell & c = cells[i];
                if (!c.multi || !c.write) continue;
                auto it = rep.find(sig[i]);
                if (it != rep.end() && it->second != i) continue;
                rep[sig[i]] = i;
                if (c.id < 0) c.id = ++nextLoc;
                if (e.k == HRead || e.k == HWrite || e.k == HFree) {
                    bool const w = e.k != HRead;
                    auto key = std::make_pair(static_cast<int>(e.f), c.id);
                    auto la = lastAcc.find(key);
                    int const tag = epoch[e.f] * 2 + (w ? 1 : 0);
                    if (la != lastAcc.end() && la->second / 2 == tag / 2
                        && la->second >= tag)
                        continue; // nothing new
                    lastAcc[key] = tag;
                    emit(w ? "w" : "r", e.f, c.id, 0);
                } else {
                    ++epoch[e.f];
                    emit(e.k == HALoad ? "al" : e.k == HAStore ? "as" : "am",
                         e.f, c.id, e.order);
                }
            }
            break;
        case HAcq: case HRel: {
            auto & id = sync[e.a];
            if (!id) id = static_cast<int>(sync.size());
            ++epoch[e.f];
            emit(e.k == HAcq ? "acq" : "rel", e.f, id, 0);
            break; }
        case HFence: ++epoch[e.f]; emit("fence", e.f, 0, e.order); break;
        case HCreate: ++epoch[e.f]; emit("create", e.f, static_cast<long>(e.size), 0); break;
        case HStart: emit("start", e.f, 0, 0); break;
        case HExit: emit("exit", e.f, 0, 0); break;
        case HJoin: ++epoch[e.f]; emit("join", e.f, static_cast<long>(e.size), 0); break;
        }
    }
    out += "]";
    return out;
}

void runOne() {
    // Resets everything an execution can see:
    if (g_top) std::memset(g_shadow, 0, g_top / 8 + 64);
    g_top = 0; g_live = 0; g_failAlloc = 0; g_arenaMalloc = false; g_faults = g_amplify = 0; g_openError = 0; g_readHook = nullptr; g_watchLen = 0;
    closeLeftFds();
    g_now = 0; g_writes = 1; g_steps = 0; g_condSeq = 0; g_idleRounds = 0;
    g_mutexes.clear();
    g_hist.clear(); g_histEmpty = true; g_hbLog.clear();
    g_optTime = g_optSpur = 0; g_atomicMode = false;
    g_plainSeen = 0;
    g_ended = false;
    for (auto f : g_fibers) { g_stackPool.push_back(f->stack);
        for (auto & t : f->tls) __libc_free(t.second);
        delete f; }
    g_fibers.clear();
    g_pos = 0; g_cost = 0;
    Fiber * const m = newFiber(&mainFiber, nullptr);
    g_cur = nullptr;
    g_inExec = true;
    if (sigsetjmp(g_sigJmp, 1) == 0) {
        switchTo(m);
    } else {
        g_cur = nullptr;
        std::memcpy(abi::__cxa_get_globals(), g_schedEh, 16);
    }
    g_rt = 1;
    g_inExec = false;
    g_cur = nullptr;
    if (!g_ended) {
        int unjoined = 0;
        for (auto f : g_fibers) if (f->id && f->st != Done) ++unjoined;
        std::string s = "[\"end\"," + std::to_string(g_live) + ","
                        + std::to_string(unjoined) + "]";
        addEvent(s);
    }
    g_stepEst = (g_stepEst * 7 + g_steps) / 8;
    g_plainEst = (g_plainEst * 7 + g_plainSeen) / 8;
}

std::uint64_t mix(std::uint64_t x) {
    x += 0x9e3779b97f4a7c15ull; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull; return x ^ (x >> 31);
}

void setupRandom(std::uint64_t seed) {
    g_rng = mix(seed) | 1;
    g_userRng = mix(seed + 77);
    g_strategy = static_cast<int>(rngN(4));
    static double const sticks[] = {0.0, 0.3, 0.6, 0.8, 0.9, 0.97};
    g_stick = g_strategy == 0 ? 0.0 : sticks[rngN(6)];
    if (g_strategy == 3) g_strategy = 1;
    g_pctPoints.clear();
    if (g_strategy == 2) {
        unsigned const d = rngN(4);
        for (unsigned i = 0; i < d; ++i)
            g_pctPoints.push_back(1 + rngN(static_cast<unsigned>(
                std::max<long>(8, g_stepEst + g_stepEst / 4))));
    }
    g_plainCountdown = -1; g_plainPeriod = 0;
    if (rngN(3) == 0) {
        g_plainPeriod = std::max<long>(4, g_plainEst * 2 / (1 + rngN(4)));
        g_plainCountdown = 1 + rngN(static_cast<unsigned>(g_plainPeriod));
    }
    g_maxOptTime = static_cast<int>(rngN(static_cast<unsigned>(g_cfgOptTime) + 1));
    g_maxOptSpur = rngN(2) ? 0 : g_cfgOptSpur;
}

struct Opt {
    std::string scenario, out; long execs = 1000; std::uint64_t seed = 1;
    int dfs = 0; long dfsExecs = 0; double budget = 1e9; int jobs = 8; bool hb = false;
    long hbMax = 400; int variant = -1; std::string replay; long slices = 0; int vlo = 0, vhi = -1;
    std::string variantsCsv;
};

double wall() {
    static auto real = realFn<int (*)(clockid_t, timespec *)>("clock_gettime");
    timespec t; real(CLOCK_MONOTONIC, &t);
    return static_cast<double>(t.tv_sec) + static_cast<double>(t.tv_nsec) * 1e-9;
}

// One worker: all executions of one (scenario, variant, mode) job.
void worker(Opt const & o, vs::Scenario const & s, int variant, bool dfs,
            std::string const & outPath, double deadline, std::uint64_t seed0)
{
    g_scn = &s; g_variant = variant;
    FILE * f = std::fopen(outPath.c_str(), "a");
    std::unordered_map<std::uint64_t, long> seen;
    auto hash = [](std::string const & x) {
        std::uint64_t h = 1469598103934665603ull;
        for (unsigned char c : x) h = (h ^ c) * 1099511628211ull;
        return h;
    };
    long const limit = dfs ? o.dfsExecs : o.execs;
    std::unordered_set<std::uint64_t> hbSeen;
    while (g_sh->execsDone < limit && wall() < deadline) {
        std::string sched;
        if (dfs) {
            g_mode = MDfs; g_plainCountdown = -1;
            g_maxOptTime = std::min(2, g_cfgOptTime); g_maxOptSpur = 1;
            g_userRng = mix(o.seed + 77);
            g_rng = 88172645463325252ull;
        } else {
            g_mode = MRand;
            g_sh->execSeed = static_cast<long>(
                (seed0 * 1000003ull + static_cast<std::uint64_t>(variant) * 7919ull
                 + static_cast<std::uint64_t>(g_sh->execsDone)) & 0x7fffffffffff);
            // estimates must not depend on the past, or replays would differ:
            g_stepEst = 40 + (g_sh->execSeed * 37) % 160;
            g_plainEst = 100 + (g_sh->execSeed * 53) % 1500;
            setupRandom(static_cast<std::uint64_t>(g_sh->execSeed));
        }
        long const prevN = g_sh->execsDone;
        g_sh->execsDone = prevN + 1; // a dying execution is not repeated
        g_hb = o.hb;
        ++g_execNo;
        runOne();
        if (dfs) {
            for (long i = 0; i < g_sh->nChoices; ++i)
                sched += static_cast<char>('0' + g_sh->choices[i].chosen);
            sched = "d" + sched;
        } else sched = "r" + std::to_string(g_sh->execSeed);
        if (o.hb) {
            std::string const h = hbJson();
            std::uint64_t const hh = hash(h);
            if (hbSeen.insert(hh).second && static_cast<long>(hbSeen.size()) <= o.hbMax)
                std::fprintf(f, "%s %d %s %s\n", s.name, variant, sched.c_str(), h.c_str());
        } else {
            std::uint64_t const h = hash(g_hist);
            if (seen[h]++ == 0)
                std::fprintf(f, "%s %d %s [%s]\n", s.name, variant, sched.c_str(),
                             g_hist.c_str());
            if (g_ended) std::fflush(f);
        }
        if (g_stuck) break;   // others may be, too
        if (dfs && !dfsAdvance()) { g_sh->dfsPhase = 1; break; }
    }
    std::fclose(f);
}

} // namespace

int main(int argc, char ** argv) {
    __libc_single_threaded = 0;
    Opt o;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto next = [&]() { return std::string(argv[++i]); };
        if (a == "--scenario") o.scenario = next();
        else if (a == "--out") o.out = next();
        else if (a == "--execs") o.execs = std::stol(next());
        else if (a == "--seed") o.seed = std::stoull(next());
        else if (a == "--dfs") { o.dfs = std::stoi(next()); }
        else if (a == "--dfs-execs") o.dfsExecs = std::stol(next());
        else if (a == "--budget") o.budget = std::stod(next());
        else if (a == "--jobs") o.jobs = std::stoi(next());
        else if (a == "--hb") o.hb = true;
        else if (a == "--hb-max") o.hbMax = std::stol(next());
        else if (a == "--variant") o.variant = std::stoi(next());
        else if (a == "--replay") o.replay = next();
        else if (a == "--no-spurious") g_allowSpurious = false;
        else if (a == "--opt-time") g_cfgOptTime = std::stoi(next());
        else if (a == "--max-steps") g_maxSteps = std::stol(next());
        else if (a == "--list") {
            for (auto & s : vs::scenarios()) std::printf("%s %d\n", s.name, s.variants);
            return 0;
        } else { std::fprintf(stderr, "bad option %s\n", a.c_str()); return 2; }
    }
    g_arena = static_cast<char *>(mmap(reinterpret_cast<void *>(0x600000000000ull), ARENA,
        PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    g_shadow = static_cast<unsigned char *>(mmap(nullptr, ARENA / 8 + 4096,
        PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    std::set_terminate(&onTerminate);
    {
        stack_t ss; ss.ss_sp = std::malloc(1 << 16); ss.ss_size = 1 << 16; ss.ss_flags = 0;
        sigaltstack(&ss, nullptr);
        struct sigaction sa; std::memset(&sa, 0, sizeof sa);
        sa.sa_handler = &onSignal; sa.sa_flags = SA_ONSTACK | SA_NODEFER;
        sigaction(SIGSEGV, &sa, nullptr); sigaction(SIGBUS, &sa, nullptr);
        sigaction(SIGFPE, &sa, nullptr); sigaction(SIGILL, &sa, nullptr);
        signal(SIGPIPE, SIG_IGN);
    }
    std::memset(g_schedEh, 0, sizeof g_schedEh);
    g_bound = o.dfs;
    if (!o.replay.empty()) {
        g_sh = static_cast<Shared *>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE,
                                          MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
        for (auto & s : vs::scenarios())
            if (s.name == o.scenario) { g_scn = &s; break; }
        if (!g_scn) return 2;
        g_variant = o.variant < 0 ? 0 : o.variant;
        g_hb = o.hb;
        if (o.replay[0] == 'r') {
            g_mode = MRand;
            g_sh->execSeed = std::stol(o.replay.substr(1));
            g_stepEst = 40 + (g_sh->execSeed * 37) % 160;
            g_plainEst = 100 + (g_sh->execSeed * 53) % 1500;
            setupRandom(static_cast<std::uint64_t>(g_sh->execSeed));
        } else {
            g_mode = MDfs; g_maxOptTime = std::min(2, g_cfgOptTime); g_maxOptSpur = 1;
            g_userRng = mix(o.seed + 77); g_rng = 88172645463325252ull;
            for (std::size_t i = 1; i < o.replay.size(); ++i)
                g_sh->choices[g_sh->nChoices++] =
                    Choice{static_cast<unsigned char>(o.replay[i] - '0'), 255, 255};
        }
        startTicks();
        runOne();
        std::printf("%s %d %s %s\n", g_scn->name, g_variant, o.replay.c_str(),
                    o.hb ? hbJson().c_str() : ("[" + g_hist + "]").c_str());
        return 0;
    }
    // Jobs: scenario x variant x {dfs, random slices}
    struct Job { vs::Scenario const * s; int variant; bool dfs; std::string out; Shared * sh; pid_t pid = -1; std::uint64_t seed; int deaths = 0; };
    std::vector<Job> jobs;
    for (auto & s : vs::scenarios()) {
        if (!o.scenario.empty() && o.scenario != s.name) continue;
        for (int v = 0; v < s.variants; ++v) {
            if (o.variant >= 0 && v != o.variant) continue;
            if (o.dfsExecs > 0) jobs.push_back(Job{&s, v, true, "", nullptr, -1, o.seed, 0});
            if (o.execs > 0) jobs.push_back(Job{&s, v, false, "", nullptr, -1, o.seed, 0});
        }
    }
    for (std::size_t i = 0; i < jobs.size(); ++i) {
        jobs[i].out = o.out + "." + std::to_string(i);
        std::remove(jobs[i].out.c_str());
        jobs[i].sh = static_cast<Shared *>(mmap(nullptr, sizeof(Shared),
            PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    }
    double const t0 = wall();
    std::size_t nextJob = 0; int running = 0; bool broken = false;
    auto launch = [&](Job & j) {
        pid_t p = fork();
        if (p == 0) {
            double const left = o.budget - (wall() - t0);
            double const share = o.budget;
            (void) share;
            alarm(static_cast<unsigned>(std::min(3600.0, left + 60)));
            g_sh = j.sh;
            startTicks();
            worker(o, *j.s, j.variant, j.dfs, j.out, t0 + o.budget, j.seed);
            _exit(0);
        }
        j.pid = p; ++running;
    };
    while (nextJob < jobs.size() || running > 0) {
        while (running < o.jobs && nextJob < jobs.size()) launch(jobs[nextJob++]);
        int st; pid_t p = waitpid(-1, &st, 0);
        if (p < 0) break;
        --running;
        for (auto & j : jobs) if (j.pid == p) {
            if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
                std::fprintf(stderr, "worker %s/%d died: status %x\n", j.s->name, j.variant, st);
                if (++j.deaths > 20) { broken = true; break; }
                if (j.dfs) { g_sh = j.sh; if (!dfsAdvance()) { j.sh->dfsPhase = 1; break; } }
                launch(j);
            }
        }
    }
    // Summary: executions per job, and whether a bounded search finished.
    long total = 0; int complete = 0, dfsJobs = 0;
    for (auto & j : jobs) {
        total += j.sh->execsDone;
        if (j.dfs) { ++dfsJobs; if (j.sh->dfsPhase) ++complete; }
    }
    std::printf("{\"executions\":%ld,\"jobs\":%zu,\"dfs_jobs\":%d,\"dfs_complete\":%d}\n",
                total, jobs.size(), dfsJobs, complete);
    return broken ? 3 : 0;
}

// vsched: a deterministic scheduler for conformance runs.
//
// The code under test is compiled with -fsanitize=thread but linked against
// this run time instead of the sanitizer's.  Every std::thread becomes a fibre;
// every atomic access, mutex/condition-variable call, clock read, sleep and
// (for event loops) epoll/pipe call is a scheduling point; time is virtual.  An
// execution is a function of its seed (or of its choice vector), and what it
// leaves behind is a history: the list of events the scenario recorded with
// ev(), which is then checked against the TLA+ specification by TLC.
#ifndef VSCHED_H
#define VSCHED_H
#include <cstddef>
#include <cstdint>
#include <functional>
#include <initializer_list>
#include <string>
#include <vector>

namespace vs {

struct Val {
    bool isStr; long i; char const * s;
    Val(int v) : isStr(false), i(v), s(nullptr) {}
    Val(unsigned v) : isStr(false), i(static_cast<long>(v)), s(nullptr) {}
    Val(long v) : isStr(false), i(v), s(nullptr) {}
    Val(long long v) : isStr(false), i(static_cast<long>(v)), s(nullptr) {}
    Val(unsigned long v) : isStr(false), i(static_cast<long>(v)), s(nullptr) {}
    Val(unsigned long long v)
        : isStr(false), i(static_cast<long>(v)), s(nullptr) {}
    Val(bool v) : isStr(false), i(v ? 1 : 0), s(nullptr) {}
    Val(char const * v) : isStr(true), i(0), s(v) {}
};

// Records one event (a JSON array) in the history of this execution.
void ev(std::initializer_list<Val> vals);
// Records one event given as JSON text.
void evRaw(std::string const & json);
// A scheduling point at the level of the scenario.
void point();
// Virtual milliseconds since the start of the execution.
long nowMs();
// Whether time passes only while all threads wait (--opt-time 0).
bool strictTime();
// Lets the calling fibre sleep for ms virtual milliseconds.
void sleepMs(long ms);
// The number of the running fibre (0 is the scenario's main thread).
int self();
// Deterministic per-execution randomness for the scenario's own choices.
unsigned rnd(unsigned n);
// Blocks allocated with operator new in this execution and not yet deleted.
long liveBlocks();
// True while the runtime decides the execution is being replayed for HB logs.
// Marks the end of an execution as a failure and leaves it at once.
[[noreturn]] void fail(char const * kind, char const * what);
// Stops exploration alternatives (run straight) while set.
void setAtomic(bool on);
// Makes allocation number n (counting from now, 1 = next) throw bad_alloc;
// 0 turns that off.
void failAlloc(long n);
// malloc and relatives of the code under test in the checked heap, too.
void arenaMalloc(bool on);
// Lets up to n system calls of this execution fail with EINTR.
void sysFaults(long n);
// The next descriptor to be made by open() or fcntl() is not: errno is e.
void openError(int e);
// Called with every read(): returns how much to read, or -1 after setting errno.
void readHook(std::size_t (*hook)(int, std::size_t));
bool fdIsOpen(int fd);
// Turns every write of one byte into n of them (others did the rest).
void amplify(long n);
// Notes the greatest width of the accesses to each of the n bytes at p in widths,
// until called with null.
void watch(void const * p, std::size_t n, unsigned char * widths);
// Descriptors (pipes, epoll, eventfd) made in this execution and not closed.
long openFds();

struct Scenario {
    char const * name;
    int variants;                      // variant numbers 0 .. variants-1
    std::function<void(int)> body;
};

// Registers a scenario (at static-initialisation time).
struct Reg { Reg(char const * name, int variants, void (*body)(int)); };

} // namespace vs

#endif

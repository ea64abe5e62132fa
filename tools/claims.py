COMMON = (' Bounded: the closed model is exhaustive within its constants; the real code is '
          'explored by seeded random, PCT and preemption-bounded depth-first schedules, and every '
          'history found (or a seeded sample of them) is decided by TLC. Assumes the '
          'stand-in headers of harness/stub and, for concurrency, the scheduler runtime (harness/rt).')
def C(note): return dict(note=note + COMMON)
CLAIMED = {
 'C01': C('Streams through buffers of 1 to 16 elements, all block forms, one reader, one writer, with the fill levels reported.'),
 'C02': C('Waiting and timed-waiting readers and writers against notifications and consumption; virtual time; lost wake-ups show as deadlocks.'),
 'C03': C('Sequential histories over several promises, futures and packaged tasks, and concurrent setters, waiters, timed waiters, takers.'),
 'C04': C('Attaching against completing, chains, continuations returning futures or throwing, value and void futures.'),
 'C05': C('Constructions and destructions are balanced and the heap is empty after every history, including failing allocations.'),
 'C06': C('Histories of sequential, exhausting and concurrent use.'),
 'C07': C('Getting, releasing and iterating over keys of one map by several threads, failing constructors, failing allocations.'),
 'C08': C('Random additions over virtual time with exact times, and races of additions, expiry, stop and destruction; tasks at the extreme points in time.'),
 'C09': C('Up to three workers and two submitters; submission from tasks, resubmission, reusable tasks, stop from anywhere, join; thousands of tasks left over.'),
 'C10': C('Up to three participants, timed and not, one task or many, exceptions, join and stop; exact virtual times.'),
 'C11': C('Strands on pools of one to three threads, stop from inside and outside, resubmission, two strands on a pool, thousands of tasks left over.'),
 'C12': C('Latches, wait flags, stop flags and delayed-start threads in all roles, including cases where waiters must stay asleep.'),
 'C13': C('Lock/unlock histories of up to four threads, 8-bit counters and the real ones put near their end wrapping around, with first-in-first-out order tied to ticket acquisition.'),
 'C14': C('One consumer, up to three producers, nodes recycled; per-producer order, completeness, emptiness answers.'),
 'C15': C('Random programs over three eventfds and a pipe with exact virtual times, from outside and from handlers, with interrupted system calls; races of arming, changing, removal and destruction.'),
 'C16': C('Waiters, stoppers and two runs in all orders, loop running or not, 1 to 140000 pending notifications (a full pipe), interrupted system calls.'),
 'C17': C('Full access logs (every plain and atomic access, mutex, thread and epoll operation) of the concurrent scenarios of C01 to C16 and C18, decided against a vector-clock specification of happens-before. Only instrumented code (the headers and what they instantiate) is seen.'),
 'C18': C('Every operation of AtomicFlags and Flags on several threads.'),
 'S01': C('Caches of 1 to 5 objects under random uses, keys with and without memory of their own, failing allocations; which objects die at each operation. Null objects are not inserted (a precondition).'),
 'S02': C('Optionals of five kinds of elements (copyable, movable only, copyable only, trivially destructible, plain integers), elements throwing at any construction or assignment, every access to an empty one.'),
 'S03': C('Maps of integers under good, bad and constant hashes, and of strings (null and high characters included), every way of looking up; identities of values tell copies from originals; throwing values and failing allocations.'),
 'S04': C('Vectors of 0 to 200 bits of 8-, 16-, 32- and 64-bit blocks, every operation, messages cut short; out-of-range accesses asserted.'),
 'S05': C('Views of four character types of up to 8 characters, every operation and overload, positions beyond the end, streams that refuse characters; splits over arrays and lists; concatenations.'),
 'S06': C('Messages of any mix of typed writes, read back in the same or another order, whole, cut short or with bytes changed; seeking, rewinding, swapping, moving; failing allocations; streams of four character types; byte-order conversions of all widths. Seeking to the very end is refused by the code and writing after going back is a precondition.'),
 'S07': C('Eight families of layouts (static and dynamic, elements of 1 to 8 bytes and structures of 3, limits), every accessor, copies, moves and assignments with failing allocations. Sizes large enough to wrap around in sizeInBytes() are a precondition.'),
}
CLAIMED['S08'] = C('Thirteen types of 1 to 2048 bits, one word or several, mixed with each other and with uint128_t; every operation on random and extreme operands, whole tables for small types, printing in every base and format to failing streams.')
CLAIMED['S09'] = C('Forests of objects that are parents and children, children destroyed before or after their parents, released, kept by the destructor given, with and without locks; failing allocations; children of one parent made, destroyed and listed by several threads. Destroying a parent while another thread destroys its child is a precondition.')
CLAIMED['S10'] = C('Shared items taken, passed on, dropped and inserted by value under several hashes; uninitialised arrays; datums from and to files with interrupted, short and failing reads; descriptors counted by the kernel; guards left normally and by exception; aligned blocks of seven shapes; failing allocations.')
CLAIMED['S11'] = C('Random nestings of two kinds of contexts with and without values, returns and exceptions, searched from the inside out, on up to three threads.')
CLAIMED['S12'] = C('Sixteen kinds of ranges compared with one another (known and unknown lengths, sentinels, streams that can be read once, sizes of small types, up to 300 elements), iterators that check their positions, reversed ranges read and written through, reference vectors over odd numbers of bytes.')
CLAIMED['S13'] = C('Fifteen integral types against one another, random, extreme and neighbouring values, whole tables of narrow types; enumerations.')
CLAIMED['S14'] = C('Chains of up to seven exceptions of nesting and non-nesting kinds thrown inside and outside handlers; copies, assignments and destruction in any order; errno numbers; printing chains, handlers installed and removed; failing allocations.')
CLAIMED['S15'] = C('Tuples and self-sharing objects, their parts held, passed on, moved, dropped and locked in any order; asked before they are shared and while they are destroyed; failing allocations.')
CLAIMED['S16'] = C('Four registers of eight wrapped kinds (narrow and wide, signed and unsigned integers that wrap around, int, double with NaN, pointers, bool) updated, compared, printed, hashed, swapped and sorted.')
CLAIMED['S17'] = C('Up to three blocks of zero to fourteen bytes at every alignment on every earlier hash as the seed; texts a few edits away from identifiers; names up to 130 bytes, against SHA-1 written in TLA+.')
CLAIMED['S18'] = dict(note='Some 2500 (thorough: 24000) literals per run, random, near the limits of the types, long, with zeros, and such which are none; compiled by g++, the values printed, and decided by TLC. The algorithm itself is model-checked for smaller words. Bounded: texts of up to 90 characters.')
CLAIMED['S19'] = dict(note='6000 (thorough: 60000) random uses of 35 operations per run, compiled by g++ (which of them compile is observed, too), what they give printed and decided by TLC. MC_TypeLists: the recursions against the lists, for all pairs of lists of up to 4 elements. Bounded: lists of up to 8 elements of 12 types or 4 value types.')
CLAIMED['S20'] = dict(note='22400 (thorough: 448000) random expressions and traits over 64 (1280) random tables of classes, generated by what they declare (about 75 classes per table, standard iterators and built-in types among them), compiled by g++ and printed; TLC computes from the declarations which must hold. MC_Concepts: laws of the concepts (hierarchies, duality, order) over 5850 tables. Bounded: nestings of depth 3, calls of up to 3 arguments, one declaration per call arity.')
CLAIMED['S21'] = dict(note='6000 (thorough: 60000) random uses of 17 operations per run, compiled by g++, printed and decided by TLC; the clock is a stand-in, assertions run in child processes. MC_Trivia: laws of the type functions over all types of up to 6 constructors, of chains and walks. Bounded: types of up to 5 constructors, chains of 6 exceptions.')

#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(),
         note=None, na=None, tech=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files,
                          state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                          mechanism=[dict(name=a, where=b) for a, b in mech],
                          observe_at=list(observe), hook_needed=None))
    assert len(title) <= 80, id
    P.append((d, note, na, tech))

S, I, H = 'schedules', 'inputs', 'histories'
F = 'fault_sequences'

prop('C01', 'Ring buffer: the reader gets exactly the writer\'s bytes, in order',
 'Between one writer and one reader thread, the single-consumer single-producer ring buffer delivers exactly the elements written, in order, none lost, duplicated, reordered or invented, across any wrap-around. The amounts available and free reported to either side never promise more than is really there.',
 [S, I, H], 'every interleaving of one writer and one reader, every capacity, position and chunk size',
 'The existing test runs one byte stream on free-running threads; it samples a few schedules and sizes and no weak-memory or wrap-around corner on purpose.',
 ['src/CircBufferSCSP.h'],
 [('lock-free index publication', 'CircBufferSCSP: ReadIndex/WriteIndex updates'), ('two-part copy on wrap-around', 'CircBufferSCSP::read/write')],
 [('readPos/writePos/available', 'cursor positions and fill level', 'src/CircBufferSCSP.h')],
 ['returned element values', 'reported availability'])
prop('C02', 'Ring buffer: blocking waits wake exactly when promised',
 'A thread waiting for data (or for room) in a ring buffer is released once the other side provides it, and never sleeps on while the condition it waits for stays true. A timed wait ends no earlier than the condition or its timeout, and tells the two apart.',
 [S, H], 'every interleaving of waiting, notifying and consuming sides, spurious wake-ups and timer orders included',
 'A lost wake-up needs the notification to fall into the gap between test and sleep; a free-running test does not steer there.',
 ['src/CircBufferSCSP.h'],
 [('mutex/condition-variable hand-shake', 'CircBufferSCSP wait functions')], observe=['whether and when a waiting call returns'])
prop('C03', 'Futures: an outcome is delivered once, completely and to every waiter',
 'A future becomes ready exactly when its promise is given a value or exception or is abandoned (destroyed or overwritten, which delivers a broken-promise error); every waiting thread is then released, and whoever takes the value gets exactly that outcome. Timed waits end when the outcome is there or the time is over, and tell which; readiness and validity are reported truthfully, and moving or swapping handles moves their futures and obligations along.',
 [S, H], 'every interleaving of promise, future and waiter threads and every sequence of operations on them',
 'Tests run a handful of scripted or free-running cases; lost wake-ups, half-published values and abandoned promises need particular interleavings or histories.',
 ['src/Future.h'], [('shared state with mutex and condition variable', 'Future.h SharedState'), ('broken promise on abandonment', 'Future.h Promise')],
 observe=['values and exceptions taken from futures', 'termination of waits'])
prop('C04', 'Future continuations run exactly once, with the outcome',
 'A continuation attached to a future runs exactly once, after the outcome is known, whether it is attached before, while or after the outcome is set. Its own result, exception or (if it returns a future) that future\'s outcome becomes the outcome of the future it produced.',
 [S, H], 'every interleaving of attaching and completing, and every chain of continuations',
 'The race between attaching and completing has a narrow window that the test suite does not steer into.',
 ['src/Future.h'], [('continuation hand-over under the state lock', 'Future.h SharedState')], observe=['continuation invocations', 'outcome of the derived future'])
prop('C05', 'Futures: every stored value is destroyed exactly once',
 'Every value handed to a promise, packaged task or continuation is destroyed exactly once, whether it is taken, moved out, abandoned in the shared state or delivered to a continuation, and no shared state outlives its last handle.',
 [S, H, F], 'every history of promise/future operations, including outcomes never taken, and allocation failures',
 'The tests look at delivered values, not at the number of constructions and destructions over all histories.',
 ['src/Future.h'], [('shared state life time', 'Future.h SharedState')], observe=['constructor/destructor balance of the value type', 'heap blocks left'])
prop('C06', 'Identifier pool: no identifier is ever held twice',
 'An identifier pool never hands out an identifier that somebody still holds, makes a released one available again, and reports exhaustion, by its exception, only when every identifier is held. Moving a holder moves the obligation to give back, and holders may outlive the pool.',
 [S, I, H], 'every history of reservations, releases and moves on any number of threads, up to a full identifier space',
 'The tests reserve a few identifiers on one thread and never fill the space.',
 ['src/IdentifierPool.h'], [('reserved set under a mutex', 'IdentifierPool::State'), ('owning holder', 'IdentifierPool::IdHolder')],
 observe=['identifiers handed out', 'exceptions'])
prop('C07', 'Shared resource map: at most one live resource per key',
 'At any moment a shared resource map has at most one live resource for a key, and everybody asking for the key while it is alive gets that one; a resource lives until its last user lets go and is then destroyed exactly once, after which the next request creates a fresh one. A failing creation is reported to its caller, leaves nothing behind, and neither blocks nor poisons other requests.',
 [S, H, F], 'every interleaving of requests, releases and failing creations by any number of threads, and map destruction before the last release',
 'The tests use a few threads and check counts at the end; the window between the last release and the next request is not steered.',
 ['src/SharedResourceMap.h'], [('weak entry plus under-construction flag, mutex and condition variable', 'SharedResourceMap.h')], observe=['identity of the resources returned', 'creations and destructions'])
prop('C08', 'Timeout tasks run once per adding, on time, in order, and never after the stop',
 'A task added to a timeouts thread is run at most once for every time it was added, never before its time, and earlier ones before later ones; if the thread is free it runs when its time comes, also if it was added while the thread slept for a later one. A reusable task is handed back to itself when it runs and may be added again. Once the thread has been stopped no task starts; stopping returns after the running one has ended, and tasks that never ran are destroyed exactly once.',
 [S, H], 'every interleaving of adding, expiry and stop, and every ordering of deadlines',
 'The tests use real time and a few deadlines; races at the moment of expiry are not reproducible.',
 ['src/TimeoutsThread.h'], [('ordered task queue under a mutex', 'TimeoutsThread.h')], observe=['time and number of task invocations', 'destruction of tasks', 'return of stop'])
prop('C09', 'Thread pools run every submitted task exactly once',
 'A thread pool runs every task submitted to it at most once, and, unless it is stopped, exactly once, in submission order as far as starting is concerned; submission from inside tasks is allowed. Stopping lets running tasks finish, is idempotent and returns only when no worker runs any more, and tasks never run are destroyed, not leaked.',
 [S, H], 'every interleaving of submitters, workers and stop, any number of each',
 'The tests count completed tasks of one free-running schedule.',
 ['src/ThreadPool.h', 'src/SimpleThreadPool.h', 'src/NoStartThread.h'], [('two-lock task queue', 'ThreadPool.h'), ('worker loop', 'SimpleThreadPool.h')], observe=['task invocations and destructions', 'return of stop and destructor'])
prop('C10', 'Participatory pool: participation ends when and only when promised',
 'A thread participating in a pool runs submitted tasks like a worker, each task exactly once in total; timed participation never waits past its deadline nor gives up before it, whoever else participates, and participation returns when the pool stops or its own condition is met, with the result saying which. An exception from a task reaches the participant that ran it. Stopping and joining release every participant, and joining returns only once all of them have left.',
 [S, H], 'every interleaving of participants, submitters, stop and join, and every deadline',
 'Deadlines racing with submissions and with other idle participants are not reproducible in a free-running test.',
 ['src/ParticipatoryThreadPool.h', 'src/ThreadPool.h'], [('participation loops', 'ParticipatoryThreadPool.h')], observe=['task invocations', 'virtual time at which participation returns'])
prop('C11', 'Strand: tasks run one at a time, in order, and are never lost',
 'Tasks submitted to a strand run one after the other in the order of submission, never two at a time, whatever number of pool threads serve it, each exactly once; everything one task did is visible to the next. As long as the pool keeps running, stopping a strand from outside returns, and only when no task of it runs; afterwards none starts, and tasks never run are destroyed exactly once.',
 [S, H], 'every interleaving of submitters, pool threads and stop',
 'Overlap or a stranded task needs a submission in the window where the strand goes idle.',
 ['src/Strand.h'], [('slice task rescheduling itself', 'Strand.h')], observe=['start and end of every task', 'return of stop'])
prop('C12', 'Latches, wait flags and delayed threads release exactly when due',
 'A latch releases its waiters when, and only when, its count reaches zero, and a wait flag when, and only when, it has been set, however waiting and signalling interleave; stop requests are seen by every poller. A delayed-start thread runs its function exactly once if started and never otherwise, and joining or destroying it always returns.',
 [S, H], 'every interleaving of waiters and signallers',
 'A lost wake-up needs the signal to fall between test and sleep; free-running tests do not steer there.',
 ['src/Latch.h', 'src/SimpleWait.h', 'src/NoStartThread.h', 'src/Stoppable.h', 'src/Spinwait.h'], [('condition variable hand-shakes', 'Latch.h, SimpleWait.h, NoStartThread.h')], observe=['return of waits'])
prop('C13', 'Ticket spin lock: mutual exclusion in order of arrival',
 'At most one thread holds a ticket spin lock; threads obtain it in the order in which they asked, each eventually, and keep doing so when the ticket counters wrap around. Data guarded by the lock needs no other synchronisation.',
 [S, H], 'every interleaving of lock and unlock by any number of threads, counters wrapping around included',
 'The existing test is a compile-time check only.',
 ['src/TicketSpinLock.h'], [('next-ticket and now-serving counters', 'TicketSpinLock.h')], observe=['order of acquisitions', 'overlap of critical sections'])
prop('C14', 'Multi-producer queue: nothing lost, per-producer order kept',
 'Every item pushed to the multi-producer single-consumer queue is popped exactly once, items of one producer come out in the order it pushed them and items pushed one after the other in that order; popping finds nothing only when nothing is queued or the oldest outstanding push has not yet returned, and popped nodes may be pushed again. The content of an item is visible to the consumer that pops it.',
 [S, H], 'every interleaving of any number of producers and one consumer',
 'The existing test covers compile-time traits or a single thread.',
 ['src/MpscWaitFreeSemiIntrusiveQueue.h'], [('exchange of the head and link publication', 'MpscWaitFreeSemiIntrusiveQueue.h')], observe=['sequence of popped items'])
prop('C15', 'Event loop: an event reaches its handler once per arming',
 'The event loop calls the handler of a registered descriptor when, and only when, a condition it was armed for holds on it: once per arming, with exactly the conditions that hold, and on the thread running the loop. Handlers ready in one iteration are all called, whatever else happens in it. Arming, re-arming, changing, disabling and removing take effect from any thread and from handlers and report what they found; once a removal or change has returned and the iteration in progress has ended (or been waited for), the old handler is not called again and may be destroyed.',
 [S, H], 'every interleaving of loop iterations, event arrivals, re-arming and removal by other threads',
 'The tests make one pass with real descriptors in a fixed order.',
 ['src/EventLoop.h', 'src/SingleThreadEventLoop.h'], [('one-shot epoll registrations', 'EventLoop.h')], observe=['handler calls', 'handler destruction', 'results of the registration calls'])
prop('C16', 'Event loop: stops and waits for an iteration are never lost',
 'A stop request made at any time from any thread makes the loop return at the end of its iteration, and later runs return at once; stop() and destruction return only when no run is in progress. Waiting for the end of an iteration returns once the iteration in progress has ended or the loop is not running, without waiting for a timeout, and never hangs, whoever else waits or stops; it never returns while a handler collected before it began may still be called. Any number of notifications, however many are pending, neither blocks the notifier nor wedges the loop.',
 [S, H], 'every interleaving of run, stop and notification, and every number of pending notifications',
 'The windows between looking at the loop and sleeping, and particular notification counts, are not reachable by a free-running test.',
 ['src/EventLoop.h', 'src/SingleThreadEventLoop.h'], [('self-pipe, iteration counter and run mutex', 'EventLoop.h')], observe=['return of run, stop and of the waits'])
prop('C17', 'Concurrent components are free of data races',
 'Any correct concurrent use of the library\'s concurrency components is free of data races under the C++ memory model: every two conflicting accesses, at least one of them not atomic, to memory the library manages or hands from one thread to another are ordered by happens-before.',
 [S], 'every interleaving of the scenarios of C01 to C16',
 'A race whose outcome is harmless on x86 in this build is invisible to functional tests.',
 ['src/CircBufferSCSP.h', 'src/MpscWaitFreeSemiIntrusiveQueue.h', 'src/TicketSpinLock.h', 'src/Future.h', 'src/ThreadPool.h', 'src/Strand.h', 'src/SharedResourceMap.h', 'src/TimeoutsThread.h', 'src/EventLoop.h'],
 [('acquire/release orders on atomics, mutexes', 'all concurrent headers')], observe=['happens-before graph of the recorded accesses'])
prop('C18', 'Atomic flag sets: each update is atomic and touches only its flags',
 'Setting, clearing and testing flags of an atomic flag set behave as single atomic steps that change exactly the named flags and return the state right before, on any number of threads; the plain flag set obeys the algebra of sets.',
 [S, I], 'every interleaving of updates and every combination of flags',
 'Lost updates need two read-modify-writes to overlap.',
 ['src/AtomicFlags.h', 'src/Flags.h'], [('atomic or/and', 'AtomicFlags.h')], observe=['returned and final flag sets'])

prop('S01', 'LRU: evicts exactly the least recently used, at the right time',
 'Among the objects held by an LRU cache, exactly the least recently used ones beyond its capacity are evicted; use of an object makes it the most recent, an object stays alive while it is cached or held by a user and is destroyed exactly once otherwise, and lookups never resurrect a dead one.',
 [H, I], 'every history of insertions, uses, releases and evictions, every capacity',
 'The tests run one fixed sequence.',
 ['src/LRU.h'], [('recency list', 'LRU.h')], observe=['which objects are alive'])
prop('S02', 'Optional holds at most one value and destroys each exactly once',
 'After any history of construction, assignment, emplacement, reset and swap, copying and moving, an optional contains a value exactly when the history says so, with that value; every contained value is destroyed exactly once, a throwing constructor leaves no half-made value, and access to an empty one is reported.',
 [H, F], 'every history of operations including throwing element constructors',
 'The tests check a fixed list of operations and no exception at every possible point.',
 ['src/Optional.h'], [('tagged storage', 'Optional.h')], observe=['state, values and object counts'])
prop('S03', 'Unordered maps behave as maps with independent copies',
 'The unordered maps hold at most one value per key, find exactly the keys inserted and not yet erased with their last assigned values, and iterate over each entry once, across rehashing; insertion reports whether it happened and references stay valid until erasure. Copies are independent of the original.',
 [H, I], 'every history of operations on any number of maps',
 'The tests run a short fixed history on one or two maps.',
 ['src/UnorderedMap.h', 'src/SimpleUnorderedStringMap.h', 'src/HashTablePredicate.h', 'src/StringHasher.h', 'src/StringHashTablePredicate.h'], [('set of shared entries with heterogeneous lookup', 'UnorderedMap.h')], observe=['lookup results and iteration'])
prop('S04', 'Bit vectors equal their sequence of bits under every operation',
 'A bit vector of any length behaves as a sequence of that many bits: reading, setting, flipping, filling, appending, resizing (the bits gained are unspecified), copying, comparing, serializing and bitwise operations give exactly what they give on the sequence, whatever the length modulo the block size, and never touch memory outside.',
 [I, H], 'every length and every history of operations',
 'The tests use a few lengths; the partial last block has many corner cases.',
 ['src/BitVector.h'], [('block storage with a partial last block', 'BitVector.h')], observe=['bits read back', 'counts and comparisons'])
prop('S05', 'String views and splitting agree with the character sequence',
 'Searching, comparing, slicing, ordering and splitting string views give exactly the result defined on the character sequences, for every content (embedded zero bytes and empty views included) and every position and count, and out-of-range positions are reported, never read.',
 [I], 'every pair of strings, every position and count',
 'Tests sample a few literals.',
 ['src/StringView.h', 'src/Split.h', 'src/Concat.h'], [('search and compare functions', 'StringView.h'), ('tokenizer', 'Split.h')], observe=['results'])
prop('S06', 'Network messages read back exactly what was written',
 'Reading a network message with the same sequence of operations as it was written with returns the same values and ends exactly at its end; objects are laid out as they are in memory and sizes little-endian, whatever the byte order of the host. Reads past the end, of malformed sizes or of malformed booleans fail without moving the position, for every truncation and corruption, and a failing write or allocation leaves what was written before. Streams over memory give the characters of that memory in order, and byte-order conversions invert each other.',
 [I, H], 'every sequence of typed writes and reads, every truncation and corruption',
 'The tests round-trip a few messages and no systematic truncation or corruption.',
 ['src/NetworkMessage.h', 'src/InputMemoryStream.h', 'src/EndianMacros.h'], [('bounded reader', 'IncomingNetworkMessage'), ('rewindable writer', 'OutgoingNetworkMessage')], observe=['values, positions, bytes'])
prop('S07', 'Packed structures: fields are contiguous, disjoint and independent',
 'In static and dynamic packed structures every field lies right behind the previous one with no padding, reading a field returns the value last written to it whatever its alignment, writing one changes no other, and copies, moves and assignments carry every field. Reported sizes, offsets and limits are those of the layout, with limits too large to represent reported as the largest number, and arithmetic on pointers to unaligned elements is that of positions in the array.',
 [I, H, 'programs'], 'every list of field types and repetition counts, every history of field writes, copies and moves',
 'The tests check a few layouts with fixed values.',
 ['src/PackedStruct.h', 'src/PackingInfo.h', 'src/DynamicPackedStruct.h', 'src/DynamicPackingInfo.h', 'src/MaybeDynamicPackedStruct.h', 'src/MaybeDynamicPackingInfo.h', 'src/PackedStructAccessor.h', 'src/UnalignedReference.h', 'src/UnalignedPointer.h'], [('compile-time and run-time offsets', 'PackingInfo.h, DynamicPackingInfo.h')], observe=['bytes and fields'])
prop('S08', 'Fixed-width big integers compute modulo 2^N',
 'Addition, subtraction, multiplication, division, remainder, increments, shifts, bitwise operations, access to single bits, comparisons and conversions of the multi-word unsigned integers (negative numbers taken modulo 2^N) equal arithmetic modulo 2^N for all operands, and printing shows the exact digits; division by zero is reported.',
 [I], 'all operand pairs and shift counts',
 'Tests sample a few operands; carry propagation fails only on particular ones.',
 ['src/uint_t.h', 'src/uint128_t.h', 'src/integer_demotion.h'], [('limb-wise algorithms', 'uint_t.h')], observe=['results'])
prop('S09', 'Object trees: links and ownership always agree',
 'In an object tree, a parent owns its children: each child is linked to at most one parent, and parent(), children() and numChildren() show exactly the children made and not yet destroyed or released, to every thread at every moment; destroying a child unlinks it from its parent, destroying a parent hands every remaining child to its destruction exactly once with parent() null afterwards; children of one parent may come and go on several threads at once; a failed construction changes nothing.',
 [H, S], 'every history of constructions and destructions on any number of threads, every failing allocation',
 'The tests run one fixed history on one thread.',
 ['src/ObjectTree.h'], [('parent links and lists of children', 'ObjectTree.h')], observe=['links, counts, destructions, live objects'])
prop('S10', 'Owning handles release what they own exactly once',
 'Owning containers and handles own exactly what their history says and release each thing exactly once, never using it afterwards: shared-item sets (items live as long as a reference to them, and equal items are one), uninitialised arrays, datums (including those loaded from files, whatever reads return), file descriptors, scope guards (run once, on every way out, last first) and aligned storage. After a move the source owns nothing.',
 [H, F], 'every history of insertions, moves, swaps, releases, failing allocations and interrupted or short reads',
 'Tests check values, rarely release counts over all histories.',
 ['src/IntrusiveUnorderedSharedItemSet.h', 'src/UninitializedDynamicArray.h', 'src/Datum.h', 'src/FileDescriptor.h', 'src/ScopeExit.h', 'src/GlobalDeleter.h', 'src/AlignedAllocator.h', 'src/Posix.h'], [('ownership transfer on move', 'move operations')], observe=['releases and contents'])
prop('S11', 'Call stack: contexts nest per thread like the calls do',
 'The per-thread call stack shows, at every moment, exactly the contexts entered and not yet left on the current thread, innermost first, with the data last given to each; searching finds the innermost match and leaving by exception restores the outer state.',
 [H, S], 'every nesting of calls on any number of threads',
 'The tests use one nesting.',
 ['src/CallStack.h'], [('thread-local context chain', 'CallStack.h')], observe=['what searches see'])
prop('S12', 'Ranges visit each element once, in order, and compare like sequences',
 'Ranges, reversed ranges and measuring functions visit exactly the elements of the underlying sequence, once each, forwards or backwards, and report sizes consistent with it; comparing two ranges of any kinds tells whether the sequences are equal and never accesses anything beyond the end of either. Reference vectors view exactly the whole elements that fit in the bytes given.',
 [I], 'every pair of sequences, of every kind of range', 'Tests sample a few ranges.',
 ['src/Range.h', 'src/ReversedRange.h', 'src/Iterator.h', 'src/ReversionWrapper.h', 'src/ReferenceVector.h', 'src/Size.h'], [('lock-step comparison', 'Range.h')], observe=['visited elements', 'results of comparison'])
prop('S13', 'Integers of any types compare and convert by mathematical value',
 'Comparing integers of any types and signs gives the result of comparing the mathematical values; conversions between signed and unsigned keep the value modulo 2^N and the width; the greatest and least of any number of values, and whether one is a power of two, are exact.',
 [I], 'all pairs of values of all pairs of integral types', 'Tests sample a few pairs.',
 ['src/IntegralComparisons.h', 'src/ToUnsigned.h', 'src/ToSigned.h', 'src/SignedToUnsigned.h', 'src/Max.h', 'src/Min.h', 'src/IsPowerOfTwo.h'], [('sign-aware comparison', 'IntegralComparisons.h')], observe=['results'])
prop('S14', 'Exceptions nest in order and describe themselves fully',
 'throwNested() and throwWithNested() raise the last exception given, with all the previous ones (and, for throwWithNested(), the one being handled) nested within it in order, as far as their types can nest. What an exception says survives copying, assignment and the destruction of the exceptions it was copied from; exceptions about errno describe the number they were made with. Printing an exception verbosely prints every nested exception once, in order, and ends; handlers set for terminating verbosely are put back.',
 [H, F], 'every nesting of exceptions of every kind, and every history of copies', 'Tests nest two or three exceptions and compare few messages.',
 ['src/ThrowNested.h', 'src/ThrowWithNested.h', 'src/DebugVerboseHandlers.h', 'src/Exception.h', 'src/ExceptionMacros.h', 'src/detail/ExceptionMacros.h'], [('nesting on the way out', 'ThrowNested.h'), ('chain printing', 'DebugVerboseHandlers.h')], observe=['chain of nested exceptions', 'messages and printed lines'])
prop('S15', 'Holding any part of a shared object holds all of it',
 'A pointer to a part of a shared object, however obtained (element of a shared tuple, sharedFromThis() with a pointer), holds the whole object: an object and all its parts are destroyed exactly once, when the last holder of any of it lets go. Weak references lock to their part until then and never afterwards. An object which is not yet shared, or is being destroyed, answers sharedFromThis() with std::bad_weak_ptr and weakFromThis() with an empty reference.',
 [H], 'every history of sharing, passing on and letting go', 'Tests keep the whole object alive while looking at its parts.',
 ['src/SharedTupleElementPointers.h', 'src/EnableSharedFromThis.h'], [('aliasing shared pointers', 'makeSharedTupleElementPtr, sharedFromThis(U *)')], observe=['destruction of parts', 'numbers of holders'])
prop('S16', 'Strong types compute exactly like the values they wrap',
 'A value of a strong type behaves in every operation mixed into it exactly like the wrapped value would: comparisons (also with NaN), compound assignments with its own type, other types and other strong types (each returning its left side), increments and decrements, printing, hashing and swapping give the results of the wrapped operation and change nothing else.',
 [I], 'all values of all wrapped types and all sequences of operations', 'The tests of strong types only check the types of expressions.',
 ['src/StrongType.h'], [('operations forwarded by mixins', 'StrongType.h')], observe=['values after operations', 'results'])
prop('S17', 'Hashes tell bytes apart; identifiers read back as written; names keep theirs',
 'The hash of a sequence of blocks of bytes depends on nothing but the seed, the bytes and their order (not on where they are in memory or on how combining is split into calls), and every byte counts. An UUID is written in the 8-4-4-4-12 form and read back equal; any other text is refused with boost::bad_lexical_cast. Equal identifiers hash equal. The identifier of a name is the version 5 UUID of it in the Sharemind namespace, for all names.',
 [I], 'all blocks of bytes, all identifiers, texts and names', 'No tests read identifiers or compare hashes of all shapes.',
 ['src/Hash.h', 'src/Uuid.h'], [('hash chaining', 'hashCombineRawData'), ('identifiers', 'Uuid.h')], observe=['hash values', 'texts and identifiers'])
prop('S18', 'Integer literals denote exactly the number written, or are refused',
 'A literal of one of the integer suffixes (_uint8, _int64, _sizeT, ...) has the value of the number written in decimal, octal or hexadecimal digits, whatever its length and leading zeros: for unsigned types modulo 2^N, except that the _no_overflow forms refuse to compile what does not fit; signed types refuse what does not fit, except that their _overflow forms take it modulo 2^N. Texts that are no such integers never compile to some other value.',
 [I], 'all texts of literals and all suffixes', 'Tests are literals themselves; the limits of each type and base, and long texts, are too many.',
 ['src/IntegerLiterals.h', 'src/CstdintLiterals.h', 'src/CstddefLiterals.h'], [('digit by digit evaluation', 'LiteralStep'), ('suffixes', 'SHAREMIND_INTEGERLITERAL_*_OPS')], observe=['values of literals', 'whether they compile'])
prop('S19', 'Compile-time lists of types and values compute as sequences do',
 'Operations on lists of types and values (append, prepend, sub-lists, prefixes, suffixes, common prefixes, filters, conditional appending and their inverses, counting, containment, elements, joins, logical folds, sums of sizes) give what the same operations on sequences give, for lists of any length and with repetitions, and refuse to compile where there is no such element or sub-list. Tuples without nulls keep the other elements, in order and under their original index; applying a function to tuples passes all elements in order and with the value category of their tuple; functions and functors have the return and argument types they are declared with; qualifiers are copied or added as named.',
 [I], 'all lists, of all lengths, predicates, tuples and functions', 'Tests are a few static assertions about short lists.',
 ['src/Template*.h', 'src/NoNullTuple.h', 'src/ApplyTuples.h', 'src/FunctionTraits.h', 'src/SizeOfTypes.h', 'src/CopyCv.h', 'src/CopyConst.h', 'src/CopyVolatile.h'], [('recursion over lists', 'TemplateSubTypes, TemplateCommonPrefixTypes, TemplateFilter, ...'), ('indices without nulls', 'Detail::IndexInNonNullTuple'), ('order of elements', 'Detail::ApplyTuples::Apply')], observe=['resulting lists', 'values', 'whether they compile'])
prop('S20', 'Concepts and detection hold exactly for the types that have what they name',
 'A concept applied to types holds exactly if the types have what the concept requires: constructors, assignments and destructors (not throwing where named), comparisons whose results convert to bool for every combination of const and non-const sides, calls and predicates by arity, constness, value category and result, swapping by the own function of the types or by moving in both directions, hashing of values and of what converts to them, null pointer comparisons and assignments, arithmetic kinds, bases, conversions, and the operators of each iterator category. All, Any, None, Not and Models combine them as logic does, nested to any depth, and overloads constrained by them are chosen accordingly. IsSwappable, IsNothrowSwappable (and With), IsReferenceable and the detection of operations tell the same about any type, including void, functions and arrays, without failing to compile.',
 [I], 'all types, by any combination of what they declare, and all nestings of concepts', 'Tests are static assertions about a few chosen types.',
 ['src/Concepts.h', 'src/Iterator.h', 'src/IsSwappable.h', 'src/IsReferenceable.h', 'src/Detected.h', 'src/Void.h'], [('concepts', 'Detail::ModelsConcept, SHAREMIND_DEFINE_CONCEPT'), ('iterator concepts', 'Iterator.h'), ('swapping', 'Detail::IsSwappable::Test'), ('detection', 'Detail::Detector')], observe=['values of Models, IsSwappable, IsDetected, ...', 'chosen overloads', 'whether they compile'])
prop('S21', 'Small functions on types, enumerations, pointers and test outcomes are exact',
 'Removing qualifiers and references, stripping reference wrappers, and decaying give the type they name for any composition of types; values of enumerations convert to exactly their underlying type and value (others are passed through); pointer arithmetic, distances, sizes and copies count elements of any type, and bytes for void, for any qualifiers and signs of steps; loop durations count the unit they are made of; times in microseconds combine the seconds and microseconds of the clock, and failures of the clock give the value or exception asked for; an asserted value is returned as the same object. Test assertions go on exactly if the expression is true (does not throw, throws), abort otherwise, and print each exception of a nested chain once, in order, numbered, up to the first one which is not a standard exception.',
 [I, F], 'all types by composition, all values, steps and chains of exceptions', 'Tests are a few static assertions; the outcomes of failing assertions are not tested.',
 ['src/PotentiallyVoidTypeInfo.h', 'src/RemoveCvref.h', 'src/StripAndDecay.h', 'src/StripReferenceWrapper.h', 'src/TypeIdentity.h', 'src/EnumToUnderlying.h', 'src/MaybeEnumToUnderlying.h', 'src/Durations.h', 'src/MicrosecondTime.h', 'src/AssertReturn.h', 'src/TestAssert.h'], [('arithmetic on void', 'Detail::PotentiallyVoidTypeInfo::Arith'), ('time', 'getUsTime, getUsTimeOrThrow'), ('test outcomes', 'SHAREMIND_TESTASSERT, SHAREMIND_TEST_PRINT_CURRENT_EXCEPTION')], observe=['resulting types and values', 'offsets', 'bytes copied', 'exit and output of assertions'])
exec(open(os.path.join(V, 'tools', 'claims.py')).read())   # CLAIMED = {...}

DEF_TECH = ('TLA+ specification model-checked with TLC; histories of the real code, '
            'explored under a deterministic scheduler, validated against it by TLC')
checks, na = [], []
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for d, *_ in P:
        f.write(json.dumps(d) + '\n')
        c = CLAIMED.get(d['id'])
        if c is None or isinstance(c, str):
            na.append(dict(property=d['id'], reason=c or 'Its check is still being built.'))
        else:
            checks.append(dict(property=d['id'],
                quick_cmd='VERIF_TIER=quick python3 checks/%s.py' % d['id'],
                thorough_cmd='VERIF_TIER=thorough python3 checks/%s.py' % d['id'],
                evidence_file='evidence/%s.json' % d['id'],
                technique=c.get('tech', DEF_TECH), level=c.get('level', 'model_checking'),
                level_note=c['note']))
m = dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=na,
         notes='Specifications in spec/ (TLA+, TLC). See DESIGN.md. No hooks in /repo.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')

import concurrent.futures as cf
import json, os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf, lines

HEAD = '''#include <functional>
#include <sharemind/AssertReturn.h>
#include <sharemind/Durations.h>
#include <sharemind/EnumToUnderlying.h>
#include <sharemind/MaybeEnumToUnderlying.h>
#include <sharemind/MicrosecondTime.h>
#include <sharemind/PotentiallyVoidTypeInfo.h>
#include <sharemind/RemoveCvref.h>
#include <sharemind/StripAndDecay.h>
#include <sharemind/StripReferenceWrapper.h>
#include <sharemind/TestAssert.h>
#include <sharemind/TypeIdentity.h>
#include <chrono>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <sys/wait.h>
#include <unistd.h>
namespace s = sharemind;
static void o(long long v) { std::printf(" %lld", v); }
struct C {}; enum E { e0 };
struct S3 { unsigned char c[3]; };
template <typename T> struct P;
template <typename T> struct P<T &> { static void p() { o(1); P<T>::p(); } };
template <typename T> struct P<T &&> { static void p() { o(2); P<T>::p(); } };
template <typename T> struct P<T const> { static void p() { o(3); P<T>::p(); } };
template <typename T> struct P<T volatile> { static void p() { o(4); P<T>::p(); } };
template <typename T> struct P<T const volatile> { static void p() { o(3); o(4); P<T>::p(); } };
template <typename T> struct P<T *> { static void p() { o(5); P<T>::p(); } };
template <typename T> struct P<std::reference_wrapper<T> > { static void p() { o(6); P<T>::p(); } };
template <typename T, std::size_t n> struct P<T [n]> { static void p() { o(7); o(n); P<T>::p(); } };
template <typename T, std::size_t n> struct P<T const [n]> { static void p() { o(7); o(n); P<T const>::p(); } };
template <typename T, std::size_t n> struct P<T volatile [n]> { static void p() { o(7); o(n); P<T volatile>::p(); } };
template <typename T, std::size_t n> struct P<T const volatile [n]> { static void p() { o(7); o(n); P<T const volatile>::p(); } };
template <> struct P<int> { static void p() { o(20); } };
template <> struct P<C> { static void p() { o(21); } };
template <> struct P<E> { static void p() { o(22); } };
template <> struct P<void> { static void p() { o(23); } };
template <> struct P<int (int)> { static void p() { o(24); } };
template <> struct P<unsigned char> { static void p() { o(25); } };
template <> struct P<double> { static void p() { o(26); } };
template <typename T> void limbs(T v) { unsigned long long u = static_cast<unsigned long long>(v);
  for (int k = 48; k >= 0; k -= 16) o((u >> k) & 0xffff); }
template <typename W, typename T> void en(T v) { o(std::is_same<T, W>::value); limbs(v); }
static long g_sec, g_usec; static int g_fail;
extern "C" int gettimeofday(struct timeval * t, void *) noexcept
{ if (g_fail) return -1; t->tv_sec = g_sec; t->tv_usec = g_usec; return 0; }
static void us(unsigned long long t) { o(t / 1000000); o(t % 1000000); }
alignas(64) static unsigned char mem[4096];
struct Ex: std::exception { int n; char w[8]; Ex(int n_) : n(n_) { std::snprintf(w, 8, "e%d", n); }
  char const * what() const noexcept override { return w; } };
struct Odd {};
static void chain(int const * b, int const * e) {
  if (e - b > 1) { try { chain(b + 1, e); } catch (...) {
    if (*b) std::throw_with_nested(Ex(*b)); else std::throw_with_nested(Odd()); } }
  if (*b) throw Ex(*b);
  throw Odd(); }
static bool thr(std::initializer_list<int> l, bool v) { if (l.size()) chain(l.begin(), l.end()); return v; }
template <typename F> void child(F f) {
  int p[2]; if (pipe(p)) return; std::fflush(stdout);
  pid_t const k = fork();
  if (!k) { dup2(p[1], 2); close(p[0]); close(p[1]); f(); _exit(7); }
  close(p[1]); static char buf[65536]; std::size_t n = 0; ssize_t r;
  while ((r = read(p[0], buf + n, sizeof(buf) - 1 - n)) > 0) n += static_cast<std::size_t>(r);
  buf[n] = 0; close(p[0]); int st = 0; waitpid(k, &st, 0);
  o(WIFEXITED(st) && WEXITSTATUS(st) == 7 ? 1 : WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT ? 0 : -5);
  for (char * l = std::strtok(buf, "\\n"); l; l = std::strtok(nullptr, "\\n")) {
    int a, b, c; if (std::sscanf(l, "[%d/%d] e%d", &a, &b, &c) == 3) { o(a); o(b); o(c); }
    else if (std::sscanf(l, "[%d/%d] <UNK", &a, &b) == 2) { o(a); o(b); o(0); } } }
'''

INTS = {'std::uint8_t': (0, 255), 'std::int8_t': (-128, 127), 'std::uint16_t': (0, 65535), 'std::int16_t': (-32768, 32767),
        'std::uint32_t': (0, 2**32 - 1), 'std::int32_t': (-2**31, 2**31 - 1), 'std::uint64_t': (0, 2**64 - 1),
        'std::int64_t': (-2**63, 2**63 - 1), 'bool': (0, 1), 'char': (-128, 127)}


def a_type(r, depth=None, top=True, void=False):
    """What the type is made of, and an alias expression for it."""
    base = {20: 'int', 21: 'C', 22: 'E', 24: 'int (int)', 26: 'double'}
    if void and r.randrange(3) == 0:
        t, x = [23], 'void'
    else:
        k = r.choice([20, 21, 22, 26] + ([] if void else [24]))
        t, x = [k], base[k]
    ref = 0
    for _ in range(r.randrange(5) if depth is None else depth):
        c = r.choice([3, 4, 5, 6, 7, 3, 6])
        if void and c in (6, 7):
            continue
        if c in (3, 4):
            if t[0] == 24:
                continue
            pre = []
            u = t
            while u[0] == 7:
                pre, u = pre + u[:2], u[2:]
            q = set()
            while u[0] in (3, 4):
                q.add(u[0])
                u = u[1:]
            q.add(c)
            t = pre + sorted(q) + u
            x = 's::TypeIdentityT<%s> %s' % (x, 'const' if c == 3 else 'volatile')
        elif c == 5:
            t, x = [5] + t, 's::TypeIdentityT<%s> *' % x
        elif c == 6:
            t, x = [6] + t, 'std::reference_wrapper<%s>' % x
        elif c == 7 and t[0] != 24 and t[0] != 23:
            n = r.randrange(1, 4)
            t, x = [7, n] + t, 'typename s::TypeIdentity<%s>::type [%d]' % (x, n)
            x = 's::TypeIdentityT<%s>' % x
    if not void:
        ref = r.choice([0, 0, 1, 2])
        if ref:
            t, x = [ref] + t, 's::TypeIdentityT<%s> %s' % (x, ['', '&', '&&'][ref])
    return t, x


def limbs(v):
    v %= 2**64
    return [(v >> k) & 0xffff for k in (48, 32, 16, 0)]


def item(r):
    op = r.choice('rmcvref unwrap stripdecay stripdecay same enum maybe walk walk dist alloc copy copy duration time return '
                  'assertion assertion assertion'.split())
    if op in ('rmcvref', 'unwrap', 'stripdecay', 'same'):
        t, x = a_type(r)
        w = {'rmcvref': ['s::RemoveCvrefT<%s>', 's::RemoveCvref<%s>::type'],
             'unwrap': ['s::StripReferenceWrapper_t<%s>', 's::StripReferenceWrapper<%s>::type'],
             'stripdecay': ['s::StripAndDecay_t<%s>', 's::StripAndDecay<%s>::type'],
             'same': ['s::TypeIdentityT<%s>', 's::TypeIdentity<%s>::type']}[op]
        return (op, t, 0, 0), 'P<%s>::p();' % (r.choice(w) % x)
    if op in ('enum', 'maybe'):
        u = r.choice(sorted(INTS))
        lo, hi = INTS[u]
        v = r.choice([lo, hi, r.randint(lo, hi), r.randint(lo, hi)])
        lit = 'static_cast<%s>(%dull)' % (u, v % 2**64)
        plain = op == 'maybe' and r.randrange(3) == 0
        cls = r.choice(['', 'class '])
        pre = '' if plain else 'enum %sX: %s {}; ' % (cls, u)
        ty = u if plain else 'X'
        e = 's::%sumToUnderlying' % ('en' if op == 'enum' else 'maybeEn')
        arg = r.choice(['v', 'w', 'static_cast<%s>(v)' % ty])
        return (op, limbs(v), 1, 0), '%s%s v = static_cast<%s>(%s); %s const & w = v; en<%s>(%s(%s));' % (
            pre, ty, ty, lit, ty, u, e, arg)
    sizes = {'unsigned char': 1, 'short': 2, 'int': 4, 'double': 8, 'S3': 3, 'void': 0, 'C': 1}
    t = r.choice(sorted(sizes) + ['void'])
    cv = r.choice(['', '', ' const', ' volatile', ' const volatile'])
    if op in ('walk', 'dist'):
        z = sizes[t] or 1
        at = 24 * r.randrange(20, 80)
        pre = '%s%s * p = reinterpret_cast<%s%s *>(mem + %d); ' % (t, cv, t, cv, at)
        if op == 'dist':
            d = r.randrange(-40, 41)
            return (op, sizes[t], d, 0), pre + '%s%s * q = reinterpret_cast<%s%s *>(mem + %d); o(s::ptrDist(p, q));' % (
                t, cv, t, cv, at + d * z)
        steps = [r.randrange(-8, 9) for _ in range(r.randrange(5))]
        body = ''
        for d in steps:
            f = r.randrange(2)
            ty = r.choice(['%du', 'std::size_t(%d)', 'std::uint8_t(%d)', 'std::uint16_t(%d)', '%dul', 'std::int8_t(%d)', '%dl'])
            body += 'p = s::%s(p, %s); ' % (['ptrAdd', 'ptrSub'][f], ty % abs(d)
                                            if (d if not f else -d) >= 0 and r.randrange(2) else '%d' % (d if not f else -d))
        return (op, sizes[t], at, steps), pre + body + 'o((unsigned char const *) p - mem); o(s::sizeOf<%s%s>());' % (t, cv)
    if op == 'alloc':
        t, x = a_type(r, void=True)
        return (op, t, 0, 0), 'P<s::AllocType<%s> >::p();' % x
    if op == 'copy':
        t = r.choice(['unsigned char', 'short', 'int', 'S3', 'void', 'void'])
        z = sizes[t] or 1
        while True:
            f, g, n = r.randrange(0, 40 // z) * z, r.randrange(0, 40 // z) * z, r.randrange(0, 12)
            if f + n * z <= 48 and g + n * z <= 48 and (f + n * z <= g or g + n * z <= f):
                break
        m = [r.randrange(256) for _ in range(48)]
        c = r.choice(['', ' const']) if t != 'void' or 1 else ''
        return (op, sizes[t], [f, g, n], m), (
            'static unsigned char const m[] = {%s}; std::memcpy(mem, m, 48); s::copy<%s>(reinterpret_cast<%s const *>(mem + %d), '
            'reinterpret_cast<%s *>(mem + %d), %du); for (int i = 0; i < 48; ++i) o(mem[i]);' % (
                ', '.join(map(str, m)), t, t, f, t, g, n))
    if op == 'duration':
        n, k = r.randrange(0, 100000), r.randrange(3)
        d, to, f = [('std::chrono::milliseconds', 'std::chrono::seconds', 1000), ('std::chrono::seconds', 'std::chrono::minutes', 60),
                    ('std::chrono::microseconds', 'std::chrono::milliseconds', 1000)][k]
        x = r.choice(['s::LoopDuration<%s> d(%d);' % (d, n), 's::StaticLoopDuration<%du, %s> d;' % (n, d)] +
                     (['s::LoopDuration<> d(%d);' % n, 's::StaticLoopDuration<%d> d;' % n] if k == 0 else []))
        if k == 0 and r.randrange(8) == 0:
            n, x = 3, 's::StaticLoopDuration<> d;'
        return (op, n, f, 0), '%s o(std::chrono::duration_cast<%s>(d).count()); o(d.count());' % (x, to)
    if op == 'time':
        ok = int(r.random() < .7)
        a, b = r.choice([0, r.randrange(2**31 - 1), 2**31 - 1]), r.choice([0, 999999, r.randrange(1000000)])
        pre = 'g_sec = %d; g_usec = %d; g_fail = %d; ' % (a, b, 1 - ok)
        x = r.randrange(2000)
        k = r.randrange(3)
        if k == 0:
            return (op, [ok], [a, b], [0, x]), pre + 'us(s::getUsTime(%du));' % x
        if k == 1:
            return (op, [ok], [a, b], [0, 0]), pre + 'us(s::getUsTime());'
        return (op, [ok], [a, b], [-1, x]), pre + 'try { us(s::getUsTimeOrThrow(%d)); } catch (int e) { o(-1); o(e); }' % x
    if op == 'return':
        v, k = r.randrange(1, 1000), r.randrange(3)
        pre = 'int v = %d; int const & w = v; ' % v
        x = ['v', 'w', 'std::move(v)'][k]
        return (op, v, int(k < 2), 0), pre + ('auto && z = s::assertReturn(%s); o(z); o(&z == &v); '
                                              'o(std::is_lvalue_reference<decltype(s::assertReturn(%s))>::value);' % (x, x))
    kind = r.choice(['assert', 'assert', 'nothrow', 'throws', 'print', 'unreachable'])
    ch = [r.choice([0, r.randrange(1, 99), r.randrange(1, 99), r.randrange(1, 99)]) for _ in range(r.choice([0, 1, 2, 3, 4, 6]))]
    v = r.randrange(2)
    e = 'thr({%s}, %s)' % (', '.join(map(str, ch)), ['false', 'true'][v])
    m = {'assert': 'SHAREMIND_TESTASSERT(%s);', 'nothrow': 'SHAREMIND_TEST_DOES_NOT_THROW(%s);',
         'throws': 'SHAREMIND_TEST_THROWS(%s);', 'unreachable': '(void) (%s); SHAREMIND_TEST_UNREACHABLE;',
         'print': 'try { %s; SHAREMIND_TEST_PRINT_CURRENT_EXCEPTION; } catch (...) { SHAREMIND_TEST_PRINT_CURRENT_EXCEPTION; }'}[kind]
    if kind == 'unreachable':
        ch, e = [], 'true'
    return ('assertion', kind, v, ch), 'child([] { %s });' % (m % e)


def body(c):
    c.model_check('MC_Trivia')
    c.include_dir()
    for rnd in range(c.n(1, 10)):
        r = random.Random('%d/%d' % (c.seed, rnd))
        items, seen = [], set()
        while len(items) < 6000:
            args, text = item(r)
            if text not in seen or r.randrange(20) == 0:
                seen.add(text)
                items.append((args, text))
        chunks = [range(k, min(k + 250, len(items))) for k in range(0, len(items), 250)]
        out, bad = {}, set()
        with cf.ThreadPoolExecutor(vf.NPROC) as ex:
            for o, b, _ in ex.map(lambda ch: lines.run(c, 'p%d' % ch[0], HEAD, {i: items[i][1] for i in ch}), chunks):
                out.update(o)
                bad |= b
        hists = []
        for k in range(0, len(items), 40):
            evs = [list(items[i][0]) + [int(i not in bad), out.get(i, [])] for i in range(k, min(k + 40, len(items)))]
            hists.append(dict(scenario='trivia', variant=rnd, sched='%d:\n%s' % (k, '\n'.join(
                items[i][1] for i in range(k, min(k + 40, len(items))))),
                text=json.dumps(evs, separators=(',', ':')), raw='', hb=False, extra=[], env={}, seed=c.seed))
        c.cov['executions'] += len(items)
        c.check_histories('Trace_Trivia', hists)


vf.main('S21', body)

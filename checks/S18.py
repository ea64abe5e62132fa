import concurrent.futures as cf
import json, os, random, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf

SIGNED = [('int8', 1), ('int16', 2), ('int32', 4), ('int64', 8), ('intFast8', 0), ('intFast16', 0),
          ('intFast32', 0), ('intFast64', 0), ('intLeast8', 1), ('intLeast16', 2), ('intLeast32', 4),
          ('intLeast64', 8), ('intMax', 8), ('intPtr', 8)]
NAMES = [(n, 1) for n, _ in SIGNED] + [('u' + n, 0) for n, _ in SIGNED] + [('sizeT', 0)]
STD = {'sizeT': 'std::size_t', 'intMax': 'std::intmax_t', 'uintMax': 'std::uintmax_t',
       'intPtr': 'std::intptr_t', 'uintPtr': 'std::uintptr_t'}


def ctype(n):
    return STD.get(n) or 'std::' + re.sub(r'(Fast|Least)', lambda m: '_' + m.group(1).lower(), n) + '_t'


TYPES = sorted(set(ctype(n) for n, _ in NAMES))


def text(r, bits):
    """The text of a literal, of a number in the neighbourhood of the type's limits or not."""
    k = r.randrange(12)
    if k == 0:  # not an integer, or not one of the three bases
        d = lambda: ''.join(r.choice('0123456789') for _ in range(r.randrange(1, 4)))
        return r.choice([d() + '.' + d(), d() + 'e' + d(), '.' + d(), d() + '.', d() + 'E-' + d(),
                         '0b' + ''.join(r.choice('01') for _ in range(r.randrange(1, 9))),
                         '0B1', str(r.randrange(1, 10)) + "'" + d(), "0x1'" + d(), d() + 'e+' + d()])
    if k == 1:  # a digit in front of zeros (and a few others)
        return r.choice(['', '', '0', '0x']) + r.choice('1112345') + '0' * r.randrange(12, 75) + r.choice(['', '', '7'])
    b = r.choice([8, bits, bits, bits, 64, 64])
    v = r.choice([r.randrange(1 << b), (1 << b) - r.randrange(1, 4), (1 << b) + r.randrange(3),
                  (1 << (b - 1)) + r.randrange(-2, 3), r.randrange(20), r.randrange(1 << (b + 3)),
                  # a few digits in front of so many zeros or other digits
                  r.randrange(1, 30) * r.choice([8, 10, 10, 16]) ** r.randrange(1, 70),
                  r.randrange(1, 30) * r.choice([8, 10, 10, 16]) ** r.randrange(14, 30) + r.randrange(1 << bits),
                  r.randrange(1, 30) * 10 ** r.randrange(64, 70)])
    zeros = '0' * r.choice([0, 0, 0, 1, 3, 25])
    return r.choice([lambda: str(v), lambda: str(v), lambda: '0' + zeros + '%o' % v,
                     lambda: '0x' + zeros + '%x' % v, lambda: '0X' + zeros + '%X' % v])()


HEAD = ['#include <cstdio>', '#include <sharemind/CstdintLiterals.h>',
        '#include <sharemind/CstddefLiterals.h>', 'using namespace sharemind;']


def compiled(c, chunk, items):
    """Which of the literals compile, and the bytes of their values."""
    src = os.path.join(c.work, 'lit%d.cpp' % chunk[0])
    ok = {i: True for i in chunk}
    flags = ['g++', '-std=c++14', '-w', '-I' + c.include_dir()]

    def write(run):
        with open(src, 'w') as f:
            f.write('\n'.join(HEAD) + '\n')
            for i in chunk:
                t, n, s, strict, suf = items[i]
                f.write('constexpr %s x%d = %s%s;\n' % (ctype(n), i, t, suf) if ok[i] else '\n')
            if not run:
                return
            f.write('template <typename T> void p(int i, T v) {\n'
                    ' std::printf("%d", i);\n'
                    ' for (auto c = reinterpret_cast<unsigned char const *>(&v), e = c + sizeof v; c != e; ++c)\n'
                    '  std::printf(" %d", *c);\n std::puts(""); }\nint main() {\n')
            for i in chunk:
                if ok[i]:
                    f.write('p(%d, x%d);\n' % (i, i))
            for n in TYPES:
                f.write('std::printf("%s %%d\\n", int(sizeof(%s)));\n' % (n, n))
            f.write('}\n')
    write(False)
    e = vf.sh(flags + ['-fsyntax-only', '-fmax-errors=0', src], timeout=300)
    for line in re.findall(r'^%s:(\d+):' % re.escape(src), e.stderr, re.M):
        i = int(line) - 1 - len(HEAD)
        if i < 0:
            raise vf.CheckError('the literals do not compile:\n' + e.stderr[:2000])
        ok[chunk[i]] = False
    write(True)
    prog = src[:-4]
    e = vf.sh(flags + ['-O0', src, '-o', prog], timeout=300)
    if e.returncode:
        raise vf.CheckError('the literals do not compile:\n' + e.stderr[:2000])
    out, sizes = {}, {}
    for line in vf.sh([prog]).stdout.splitlines():
        p = line.split()
        if p[0] in TYPES:
            sizes[p[0]] = int(p[1])
        else:
            out[int(p[0])] = [int(x) for x in p[1:]]
    return out, sizes, ok


def body(c):
    c.model_check('MC_Literals')
    if not c.quick:
        c.model_check('MC_Literals', 'MC_Literals_big.cfg')
    c.include_dir()
    for rnd in range(c.n(1, 8)):
        r = random.Random(c.seed * 1000 + rnd)
        items, seen = [], set()
        while len(items) < c.n(2500, 3000):
            n, s = r.choice(NAMES)
            m = re.search(r'\d+', n)
            t = text(r, int(m.group()) if m else 64)
            strict = r.randrange(2)
            # what exceeds the largest type is too large for the compiler's own
            # limits in no form: the characters are all that counts
            suf = '_' + n + ('_overflow' if s and not strict else '_no_overflow' if not s and strict else '')
            if t + suf not in seen:
                seen.add(t + suf)
                items.append((t, n, s, strict, suf))
        out, sizes, ok = {}, {}, {}
        chunks = [range(k, min(k + 200, len(items))) for k in range(0, len(items), 200)]
        with cf.ThreadPoolExecutor(vf.NPROC) as ex:
            for o, z, g in ex.map(lambda ch: compiled(c, ch, items), chunks):
                out.update(o); sizes.update(z); ok.update(g)
        hists = []
        for k in range(0, len(items), 25):
            evs = []
            for i in range(k, min(k + 25, len(items))):
                t, n, s, strict, suf = items[i]
                evs.append(['lit', [ord(x) for x in t], sizes[ctype(n)], s, strict, int(ok[i]), out.get(i, [])])
            hists.append(dict(scenario='literals', variant=rnd, sched='%d: %s' % (k, ' '.join(
                items[i][0] + items[i][4] for i in range(k, min(k + 25, len(items))))),
                text=json.dumps(evs, separators=(',', ':')), raw='', hb=False, extra=[], env={}, seed=c.seed))
        c.cov['executions'] += len(items)
        c.check_histories('Trace_Literals', hists)


vf.main('S18', body)

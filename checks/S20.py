import concurrent.futures as cf
import json, os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf, lines

HEAD = '''#include <sharemind/Concepts.h>
#include <sharemind/Detected.h>
#include <sharemind/IsReferenceable.h>
#include <sharemind/IsSwappable.h>
#include <sharemind/Iterator.h>
#include <cstdio>
#include <deque>
#include <forward_list>
#include <iterator>
#include <list>
#include <set>
#include <vector>
namespace s = sharemind;
static void o(long long v) { std::printf(" %lld", v); }
struct Bl { operator bool() const; };
struct Eb { explicit operator bool() const; };
template <typename ... C> s::Detail::ModelsConcept<int> unused();
template <typename ... C> SHAREMIND_REQUIRE_CONCEPTS_R(int, C...) pick(int) { return 1; }
template <typename ... C> SHAREMIND_REQUIRE_CONCEPTS_R(int, s::Not(s::All(C...))) pick(int) { return 0; }
template <typename ... C, SHAREMIND_REQUIRES_CONCEPTS(C...)> int sel(int) { return 1; }
template <typename ... C> int sel(...) { return 0; }
template <typename ... C, SHAREMIND_REQUIRES(s::Models<C...>::value)> int cho(int) { return 1; }
template <typename ... C, SHAREMIND_REQUIRES(!s::Models<C...>::value)> int cho(int) { return 0; }
template <typename ... C> void mo() { o(s::Models<C...>::value); o(pick<C...>(0)); o(sel<C...>(0)); o(cho<C...>(0)); }
template <typename T, typename U> void sw() { o(s::IsReferenceable<T>::value); o(s::IsSwappable<T>::value);
  o(s::IsNothrowSwappable<T>::value); o(s::IsSwappableWith<T, U>::value); o(s::IsNothrowSwappableWith<T, U>::value); }
template <typename> struct Id;
template <> struct Id<int> { enum { v = 1 }; };
template <> struct Id<long> { enum { v = 2 }; };
template <> struct Id<bool> { enum { v = 3 }; };
struct DA {}; struct DB {};
template <> struct Id<DA> { enum { v = 4 }; };
template <> struct Id<DB> { enum { v = 5 }; };
struct DC { operator DA() const; };
template <> struct Id<DC> { enum { v = 6 }; };
template <> struct Id<s::NoneSuch> { enum { v = 9 }; };
template <typename T> using ByType = typename T::type;
template <typename T> using ByCall = decltype(std::declval<T &>().f());
template <typename T> using ByConst = decltype(std::declval<T const &>().f());
template <typename T, typename ... A> using ByArgs = decltype(std::declval<T &>().g(std::declval<A>()...));
template <template <typename ...> class Op, typename Def, typename Want, typename ... A> void de() {
  o(s::IsDetected<Op, A...>::value); o(Id<s::DetectedT<Op, A...> >::v); o(Id<s::DetectedOrT<Def, Op, A...> >::v);
  o(s::DetectedOr<Def, Op, A...>::ValueType::value); o(Id<typename s::DetectedOr<Def, Op, A...>::Type>::v);
  o(s::IsDetectedExact<Want, Op, A...>::value); o(s::IsDetectedConvertible<Want, Op, A...>::value); }
struct W { };
struct Key { int i; };
struct Fn {};
'''
OPS = ['==', '!=', '<', '<=', '>', '>=']
CMP = 'Equality Inequality LessThan LessOrEqual GreaterThan GreaterOrEqual'.split()
CMP = [x + 'Comparable' for x in CMP]
ITER = ['Iterator', 'InputIterator', 'OutputIterator', 'ForwardIterator', 'BidirectionalIterator', 'RandomAccessIterator']
UN = ('DefaultConstructible NothrowDefaultConstructible MoveConstructible NothrowMoveConstructible CopyConstructible '
      'NothrowCopyConstructible MoveAssignable NothrowMoveAssignable CopyAssignable NothrowCopyAssignable Destructible '
      'Swappable NullablePointer').split()
GOOD = dict(kind='K', cls=1, dc=2, cc=2, mc=2, ca=2, ma=2, dt=1, sw=0, cb=0, c2=0, cmp=[0] * 6, xc=[0] * 6,
            nul=[0] * 4, asg=0, ari=0, x=0, up=0, ops=[])
ONES = [1] * 6


def rec(**k):
    return dict(GOOD, **k)


def flip(r, d, choices, n):
    for k in r.sample(sorted(choices), min(n, len(choices))):
        d[k] = r.choice(choices[k])
    return d


VALUE = dict(dc=[0, 1, 2], cc=[0, 1, 2], mc=[0, 1, 2, 3], ca=[0, 1, 2], ma=[0, 1, 2, 3], dt=[0, 1], sw=[0, 1, 2, 3])


def four(o, n, bad):
    """An operator for each of four constnesses, of which one returns nothing."""
    return ''.join('friend %s operator%s(%s %s&, %s %s&); ' % (
        'void' if k == bad else 'bool', o, n, 'const ' if k & 1 else '', n, 'const ' if k & 2 else '') for k in range(4))


def special(n, d):
    ex = lambda k: ['= delete', '', 'noexcept'][d[k]] + '; '
    t = '%s() %s%s(%s const &) %s' % (n, ex('dc'), n, n, ex('cc'))
    if d['mc'] < 3:
        t += '%s(%s &&) %s' % (n, n, ex('mc'))
    t += '%s & operator=(%s const &) %s' % (n, n, ex('ca'))
    if d['ma'] < 3:
        t += '%s & operator=(%s &&) %s' % (n, n, ex('ma'))
    if not d['dt']:
        t += '~%s() = delete; ' % n
    if d['sw']:
        t += 'friend void swap(%s &, %s &)%s; ' % (n, n, ['', '', ' = delete', ' noexcept'][d['sw']])
    for o, k in zip(OPS, d['cmp']):
        t += ['', 'friend bool operator{o}({n} const &, {n} const &); ', 'friend void operator{o}({n} const &, {n} const &); ',
              'bool operator{o}({n} const &); ', 'friend Bl operator{o}({n} const &, {n} const &); ',
              'Eb operator{o}({n} const &) const; ', 'friend bool operator{o}({n} &, {n} &); '][k].format(o=o, n=n) if k < 7 else four(o, n, k - 7)
    return t


def value_class(r, i, n):
    d = rec(cmp=list(ONES), xc=[0] * 6, nul=[0] * 4)
    for k in ('dc', 'cc', 'mc', 'ca', 'ma'):
        d[k] = r.choice([1, 2])
    d['c2'] = r.randrange(3)
    kind = r.randrange(3)
    if kind == 0:       # like a pointer
        d.update(cb=1, nul=[1] * 4, asg=1, cmp=[1, 1, 0, 0, 0, 0])
        if r.random() < .6:
            q = r.randrange(4)
            if q == 0:
                k = r.choice(['dc', 'cc', 'ca', 'sw', 'sw', 'dt'])
                d[k] = 2 if k == 'sw' else 0
            elif q == 1:
                d['nul'][r.randrange(4)] = r.choice([0, 2, 3])
            elif q == 2:
                d['asg'] = r.choice([0, 2, 3])
            else:
                d['cb'] = r.choice([0, 2, 3])
    elif kind == 1:
        flip(r, d, VALUE, r.randrange(4))
    else:
        flip(r, d, VALUE, len(VALUE))
    for j in range(6):
        if r.random() < .3:
            d['cmp'][j] = r.randrange(11)
    if kind and r.random() < .3:
        d['cb'] = r.randrange(4)
    t = special(n, d)
    t += '%s(int, int) %s; ' % (n, ['= delete', '', 'noexcept'][d['c2']])
    t += ['', 'operator bool() const; ', 'explicit operator bool() const; ', 'operator bool(); '][d['cb']]
    z = 'std::nullptr_t'
    for j, (a, op) in enumerate([('%s const &, %s' % (n, z), '=='), ('%s, %s const &' % (z, n), '=='),
                                 ('%s const &, %s' % (n, z), '!='), ('%s, %s const &' % (z, n), '!=')]):
        if d['nul'][j]:
            t += 'friend %s operator%s(%s); ' % ([0, 'bool', 'void', 'Eb'][d['nul'][j]], op, a)
    t += ['', '%s & ' % n, 'void ', '%s const & ' % n][d['asg']] + 'operator=(%s); ' % z if d['asg'] else ''
    if i > 0:
        d['x'] = r.randrange(5)
        if d['x']:
            t += 'friend void swap(%s &, K0 &)%s; ' % (n, ' noexcept' if d['x'] > 2 else '')
        if d['x'] > 1:
            t += 'friend void swap(K0 &, %s &)%s; ' % (n, ' noexcept' if d['x'] > 3 else '')
        if r.random() < .4:
            for j in range(6):
                d['xc'][j] = r.choice([0, 1, 1, 2, 4])
                if d['xc'][j]:
                    t += 'friend %s operator%s(%s const &, K0 const &); ' % (
                        {1: 'bool', 2: 'void', 4: 'Bl'}[d['xc'][j]], OPS[j], n)
    return d, 'struct %s { %s};' % (n, t)


def iter_class(r, n):
    d = rec(kind='iter', cmp=list(ONES), tr=1, val=r.randrange(2), ref=r.choice([0, 0, 1, 2]), pre=1, post=r.choice([1, 1, 2]),
            dpre=1, dpost=1, pe=1, me=1, pl=1, npl=1, mi=1, df=1)
    d['der'] = d['ref'] + 1
    d['idx'] = d['der']
    ch = dict(VALUE, tr=[0], der=[0, 1, 2, 3, 4], pre=[0, 2, 3, 4, 5], post=[0, 2, 3, 4, 5, 6, 7], dpre=[0, 2, 3, 4, 5], dpost=[0, 2, 3, 4, 4, 5, 6, 7],
              idx=[0, 1, 2, 3], pe=[0, 2, 3], me=[0, 2, 3], pl=[0, 2], npl=[0, 2], mi=[0, 2], df=[0, 2])
    flip(r, d, {k: v for k, v in ch.items() if k not in VALUE} if r.randrange(3) else ch, r.choice([0, 1, 1, 1, 1, 2, 3]))
    for j in range(6):
        if r.random() < .04:
            d['cmp'][j] = r.randrange(11)
    v = ['int', 'W'][d['val']]
    u = [0, v + ' &', v + ' const &', v, 'void']
    t = special(n, d)
    t += 'using value_type = %s; using difference_type = std::ptrdiff_t; using pointer = %s *; using reference = %s; ' % (
        v, v, u[d['ref'] + 1])
    if d['tr']:
        t += 'using iterator_category = std::%s_iterator_tag; ' % r.choice(
            ['input', 'output', 'forward', 'bidirectional', 'random_access'])
    t += 'struct Proxy { %s operator*() const; }; struct ToRef { operator %s &() const; }; ' % (u[d['der']] or 'void', n)
    t += 'struct Same: Proxy { operator %s const &() const; }; ' % n
    t += 'struct Only { void operator*() const; operator %s const &() const; }; ' % n
    if d['der']:
        t += '%s operator*() const; ' % u[d['der']]
    for op, a, b in (('++', 'pre', 'post'), ('--', 'dpre', 'dpost')):
        if d[a]:
            t += '%s operator%s(); ' % ([0, n + ' &', n, 'void', n + ' const &', 'ToRef'][d[a]], op)
        if d[b]:
            t += '%s operator%s(int); ' % ([0, n, n + ' const &', 'void', 'Proxy', n + ' &', 'Only', 'Same'][d[b]], op)
    if d['idx']:
        t += '%s operator[](std::ptrdiff_t) const; ' % u[d['idx']]
    for k, op in (('pe', '+='), ('me', '-=')):
        if d[k]:
            t += '%s operator%s(std::ptrdiff_t); ' % ([0, n + ' &', 'void', n][d[k]], op)
    for k, op, a in (('pl', '+', '%s const &, std::ptrdiff_t'), ('npl', '+', 'std::ptrdiff_t, %s const &'),
                     ('mi', '-', '%s const &, std::ptrdiff_t')):
        if d[k]:
            t += 'friend %s operator%s(%s); ' % ([0, n, n + ' &'][d[k]], op, a % n)
    if d['df']:
        t += 'friend %s operator-(%s const &, %s const &); ' % ([0, 'std::ptrdiff_t', 'int'][d['df']], n, n)
    return d, 'struct %s { %s};' % (n, t)


def call_class(r, n):
    ops, t = [], ''
    for a in r.sample(range(4), r.randrange(1, 4)):
        p = dict(n=a, c=r.randrange(2), r=r.choice([0, 0, 0, 1, 2]), p=r.choice([0, 0, 1, 2, 3]), ret=r.choice([0, 1, 1, 2, 3, 4]))
        ops.append(p)
        t += '%s operator()(%s)%s%s; ' % (['void', 'bool', 'int', 'Bl', 'Eb'][p['ret']],
                                          ', '.join([['int', 'int &', 'int const &', 'int &&'][p['p']]] * a),
                                          ' const' if p['c'] else '', ['', ' &', ' &&'][p['r']])
    return rec(kind='call', ops=ops), 'struct %s { %s};' % (n, t)


def hash_class(r, n, key):
    d = rec(kind='hash', cc=r.choice([0, 1, 2, 2, 2, 2]), dt=int(r.random() < .9), p=r.randrange(6), cst=int(r.random() < .85),
            ret=r.choice([0] * 6 + [1, 2, 3, 4, 5]), key=key, b=0)
    if r.randrange(3) == 0:
        d.update(cc=2, dt=1, p=0, cst=1, ret=0, b=r.randrange(1, 7))
    a = ['Key const &', 'Key &', 'Key', 'Key &&', 'T const &', 'T &&'][d['p']]
    t = special(n, d) + ('template <typename T> ' if d['p'] > 3 else '') + '%s operator()(%s)%s; ' % (
        ['std::size_t', 'unsigned', 'std::size_t const &', 'std::size_t &', 'bool', 'void'][d['ret']], a,
        ' const' if d['cst'] else '')
    if d['b']:      # in one of six cases the type is another
        a = ['Key &', 'Key &&', 'Key const &&']
        for k in range(6):
            t += '%s operator()(%s)%s; ' % ('int' if k == d['b'] - 1 else 'std::size_t', a[k // 2], ' const' if k % 2 else '')
    return d, 'struct %s { %s};' % (n, t)


def table(r):
    """Classes: the table for the specification, their names, and the program's head."""
    cls, names, text = [], [], []

    def add(d, n, t=''):
        cls.append(d)
        names.append(n)
        if t:
            text.append(t)
        return len(cls)
    idx = {}
    for i in range(14):
        d, t = value_class(r, i, 'K%d' % i)
        idx.setdefault('K', []).append(add(d, 'K%d' % i, t))
    for i in range(7):          # a forest
        up = r.choice(idx['D']) if i and r.random() < .7 else 0
        d = rec(kind='D', up=up)
        n = 'D%d' % i
        idx.setdefault('D', []).append(add(d, n, 'struct %s%s {};' % (n, ': ' + names[up - 1] if up else '')))
    B = dict(kind='B', cls=0, cb=1, cmp=list(ONES))
    for n, kind, ari, k in (('int', 'int', 1, {}), ('unsigned', 'B', 2, {}), ('bool', 'bool', 2, {}), ('double', 'B', 3, {}),
                            ('unsigned char', 'B', 2, {}), ('long long', 'B', 1, {}), ('float', 'B', 3, {}), ('wchar_t', 'B', 1, {}),
                            ('int *', 'B', 0, dict(nul=[1] * 4, asg=1)), ('void (*)()', 'B', 0, dict(nul=[1] * 4, asg=1)),
                            ('std::nullptr_t', 'B', 0, dict(nul=[1] * 4, asg=1, cb=0, cmp=[1, 1, 0, 0, 0, 0]))):
        idx.setdefault('B', []).append(add(rec(**dict(B, kind=kind, ari=ari, **k)), n))
        idx[n] = len(cls)
    text.append('enum En { en }; enum class Ec { ec };')
    idx['B'].append(add(rec(**dict(B, cls=0)), 'En'))
    idx['B'].append(add(rec(**dict(B, cls=0, cb=0)), 'Ec'))
    idx['W'] = add(rec(kind='W'), 'W')
    idx['key'] = add(rec(kind='key'), 'Key')
    for i in range(10):
        d, t = call_class(r, 'F%d' % i)
        idx.setdefault('F', []).append(add(d, 'F%d' % i, t))
    fp = dict(n=2, c=1, r=0, p=0, ret=1)
    idx['F'].append(add(rec(kind='call', ops=[fp], cb=1, cmp=list(ONES), nul=[1] * 4, asg=1, cls=0), 'bool (*)(int, int)'))
    idx['F'].append(add(rec(kind='call', ops=[dict(fp, n=1, ret=0)], cb=1, cmp=list(ONES), nul=[1] * 4, asg=1, cls=0), 'void (*)(int)'))
    for i in range(8):
        d, t = hash_class(r, 'H%d' % i, idx['key'])
        idx.setdefault('H', []).append(add(d, 'H%d' % i, t))
    for i in range(16):
        d, t = iter_class(r, 'I%d' % i)
        idx.setdefault('I', []).append(add(d, 'I%d' % i, t))
    it = dict(kind='iter', tr=1, val=0, ref=0, der=1, pre=1, post=1, dpre=1, dpost=1, idx=1, pe=1, me=1, pl=1, npl=1, mi=1, df=1,
              cmp=list(ONES))
    no = dict(cmp=[1, 1, 0, 0, 0, 0], idx=0, pe=0, me=0, pl=0, npl=0, mi=0, df=0)
    cst = dict(ref=1, der=2)
    for n, k in (('int *', dict(cls=0, cb=1, nul=[1] * 4, asg=1)), ('W const *', dict(cls=0, cb=1, nul=[1] * 4, asg=1, val=1, idx=2, **cst)),
                 ('std::vector<int>::iterator', {}), ('std::vector<W>::const_iterator', dict(val=1, idx=2, **cst)),
                 ('std::deque<int>::const_iterator', dict(idx=2, **cst)), ('std::list<int>::iterator', no),
                 ('std::list<W>::const_iterator', dict(no, val=1, **cst)), ('std::set<int>::iterator', dict(no, **cst)),
                 ('std::forward_list<int>::iterator', dict(no, dpre=0, dpost=0)),
                 ('std::reverse_iterator<int *>', {}), ('std::istream_iterator<int>', dict(no, dpre=0, dpost=0, **cst)),
                 ('std::ostream_iterator<int>', dict(no, tr=0, cmp=[0] * 6)), ('std::back_insert_iterator<std::list<int> >', dict(no, tr=0, cmp=[0] * 6))):
        if n == 'int *':
            continue            # among the built-in types already
        idx.setdefault('S', []).append(add(rec(**dict(it, **k)), n))
    cls[idx['int *'] - 1].update(dict(it, cls=0), cb=1, nul=[1] * 4, asg=1)
    idx['S'].append(idx['int *'])
    return cls, names, idx, HEAD + '\n'.join(text)


REF = ['', ' &', ' const &', ' &&', ' const']


def item(r, cls, names, idx):
    def nm(i, q):
        n = names[i - 1]
        if '(*)' in n:
            return n.replace('(*)', '(*%s)' % REF[q].strip())
        return n + REF[q]

    def ty(i, qs=(0, 0, 0, 1, 2, 3, 4)):
        q = r.choice(qs)
        return dict(i=i, q={3: 0, 4: 0}.get(q, q)), nm(i, q)

    def leaf():
        f = r.choice('un un cmp cmp pair pair two call call hash iter iter iter ctor ctor ari conv conv base same'.split())
        if f == 'un':
            return r.choice(UN), [ty(r.choice(idx[r.choice('KKKKBDI')]))]
        if f == 'cmp':
            t = ty(r.choice(idx[r.choice('KKKKBI')]))
            return r.choice(CMP), [t] * 1
        if f == 'pair':
            k = r.choice('KKKB')
            a = r.choice(idx[k])
            b = a if k == 'B' else r.choice([a, idx['K'][0], idx['K'][0], r.choice(idx['K'])])
            return r.choice(CMP + ['Swappable'] * 4), [ty(a), ty(b)]
        if f == 'two':
            return r.choice(UN + CMP + ITER), [ty(r.choice(idx['K'])) for _ in range(r.choice([0, 3]))]
        if f == 'call':
            n = r.randrange(4)
            c = r.choice(['Callable', 'Predicate', 'Predicate', 'UnaryPredicate', 'BinaryPredicate', 'TrinaryPredicate'])
            if r.randrange(3) and c[0] in 'UBT':
                n = 'UBT'.index(c[0]) + 1
            q = r.choice([0, 1, 2])
            return c, [ty(r.choice(idx[r.choice('FFFFFFFK')]))] + [ty(idx['int'], (q,)) for _ in range(n)]
        if f == 'hash':
            return 'Hash', [ty(r.choice(idx[r.choice('HHHHHHK')]), (0, 0, 0, 0, 1, 2, 3)), ty(idx['key'])]
        if f == 'iter':
            i = r.choice(idx[r.choice('IIIIISSSK')])
            c = r.choice(ITER + ['ValueSwappable'])
            t = ty(i, (0, 0, 0, 0, 0, 3, 4, 1, 2))
            if c != 'ValueSwappable' and r.randrange(3) == 0 and 'val' in cls[i - 1]:
                v = idx[['int', 'W'][cls[i - 1]['val']]] if r.randrange(4) else r.choice([idx['int'], idx['W']])
                return c + 'To', [t, ty(v, (0, 0, 0, 0, 1, 2))]
            return c, [t]
        if f == 'ctor':
            k = r.choice('KKKD')
            a = r.choice(idx[k])
            n = r.choice([0, 1, 1, 1, 2])
            as_ = [] if not n else [ty(a if r.randrange(5) else r.choice([x for x in idx['K'] if cls[x - 1]['cb'] == 0 or 1]))]\
                if n == 1 and k == 'K' else [ty(a)] if n == 1 else [ty(idx['int'], (0,))] * 2
            if n == 2 and k == 'D':
                as_ = []
            return r.choice(['Constructible', 'NothrowConstructible']), [ty(a)] + as_
        if f == 'ari':
            return r.choice(['Integral', 'Signed', 'Unsigned', 'SignedIntegral', 'UnsignedIntegral']), [
                ty(r.choice(idx[r.choice('BBBBBK')]), (0, 0, 0, 0, 3, 4, 1, 2))]
        if f == 'conv':
            k = r.choice('KKDDB')
            a = r.choice(idx[k])
            b = r.choice([a, r.choice(idx['D'])] if k == 'D' else [a, a, idx['bool'], idx['bool'], r.choice(idx['D'])])
            if k == 'K' and b == a and not cls[a - 1]['dt']:
                b = idx['bool']
            return 'ConvertibleTo', [ty(a), ty(b, (0,) if b == idx['bool'] and a != b else (0, 0, 1, 2, 3))]
        if f == 'base':
            a, b = r.choice(idx[r.choice('DDDDKB')]), r.choice(idx[r.choice('DDDDKB')])
            if r.randrange(5) == 0:
                b = a
            return r.choice(['BaseOf', 'DerivedFrom']), [ty(a, (0, 0, 0, 0, 3, 4, 1)), ty(b, (0, 0, 0, 0, 3, 4, 2))]
        a, b = r.choice(idx[r.choice('KB')]), r.choice(idx[r.choice('KB')])
        return r.choice(['Same', 'DecaysTo']), [ty(a), ty(b if r.randrange(3) == 0 else a)]

    def expr(depth):
        if depth and r.random() < (.35 if depth == 3 else .5):
            op = r.choice(['All', 'Any', 'None', 'Not'])
            n = (1 if r.randrange(8) else r.choice([0, 2])) if op == 'Not' else r.choice([0, 1, 2, 2, 3, 4])
            es = [expr(depth - 1) for _ in range(n)]
            return dict(o=op, a=[e for e, _ in es]), 's::%s(%s)' % (op, ', '.join(t for _, t in es))
        c, ts = leaf()
        return dict(o='c', c=c, t=[t for t, _ in ts]), 's::%s(%s)' % (c, ', '.join(t for _, t in ts))
    k = r.random()
    if k < .8:
        es = [expr(r.choice([0, 0, 1, 3])) for _ in range(r.choice([1, 1, 1, 1, 2, 3, 0]))]
        if r.random() < .01:
            es = [(dict(o='x'), r.choice(['int', 's::Same', 'K0']))]
        return 'models', [e for e, _ in es], 'mo<%s>();' % ', '.join(t for _, t in es)
    if k < .94:
        def st():
            if r.random() < .07:
                n = r.randrange(1, 4)
                return dict(i=0, q=0, n=n), [0, 'void', 'int (int)', 'int (int) const'][n]
            i, q, n = r.choice(idx[r.choice('KKKKBD')]), r.choice([0, 1, 1, 2, 3, 4]), r.choice([0, 0, 0, 0, 2, 3])
            if not n:
                return dict(i=i, q=q, n=0), nm(i, q)
            u = names[i - 1]
            u = ('%s const' % u if '(*)' not in u else u.replace('(*)', '(* const)')) if q in (2, 4) else u
            m = ['', '&', '&', '&&', ''][q]
            if '(*' in u:
                i, u = idx['int'], 'int' + (' const' if q in (2, 4) else '')
            return dict(i=i, q=q, n=n), '%s (%s)[%d]' % (u, m, n) if m else '%s [%d]' % (u, n)
        a = st()
        b = a if r.randrange(3) == 0 else st()
        if r.random() < .35:
            x, y = r.choice(idx['K']), idx['K'][0]
            if r.randrange(2):
                x, y = y, x
            p, q = r.choice([1, 1, 1, 1, 0, 2]), r.choice([1, 1, 1, 1, 0, 2])
            a, b = (dict(i=x, q=p, n=0), nm(x, p)), (dict(i=y, q=q, n=0), nm(y, q))
        return 'swap', [a[0], b[0]], 'sw<%s, %s>();' % (a[1], b[1])
    op = r.randrange(4)
    T = ['', 'int', 'long', 'bool', 'DA', 'DB', 'DC']
    got = r.randrange(7)
    priv = got and r.random() < .15
    pre = 'private: ' if priv else ''
    x = r.randrange(3)
    if op == 0:
        body = 'using type = %s; ' % T[got] if got else ''
    elif op in (1, 2):
        c = r.randrange(2)
        body = '%s f()%s; ' % (T[got], ' const' if c else '') if got else ''
        if op == 2 and not c:
            got = 0
    else:
        body = '%s g(%s); ' % (T[got], ', '.join(['DA'] * x)) if got else ''
    other = r.randrange(1, 7)
    want = r.choice([got or 9, r.randrange(1, 7), 9, r.randrange(1, 4), r.choice([4, 6])])
    args = ''
    if op == 3:
        y = r.choice([x, x, x, r.randrange(3)])
        k = r.choice(['DA', 'DA', 'DA', 'DB'])
        args = ''.join(', ' + k for _ in range(y))
        if y != x or (k != 'DA' and y):
            got = 0
    if priv:
        got = 0
    if want == 9 and r.randrange(2):
        want = got or 9
    return 'detect', [got, other, want], 'struct X { %s%s}; de<%s, %s, %s, X%s>();' % (
        pre, body, ['ByType', 'ByCall', 'ByConst', 'ByArgs'][op], T[other], 's::NoneSuch' if want == 9 else T[want], args)


def one(c, r, k):
    cls, names, idx, head = table(r)
    items, seen = [], set()
    for ks, cs, n in (('I', ITER + ['ValueSwappable'], 7), ('K', UN + CMP, 6), ('H', ['Hash'], 1)):
        for i in idx[ks]:
            for x in r.sample(cs, n) + (['NullablePointer'] if ks == 'K' else []):
                e = [dict(i=i, q=0)] + ([dict(i=idx['key'], q=0)] if ks == 'H' else [])
                items.append(('models', [dict(o='c', c=x, t=e)], 'mo<s::%s(%s)>();' % (x, ', '.join(names[t['i'] - 1] for t in e))))
    while len(items) < 350:
        op, args, text = item(r, cls, names, idx)
        if text not in seen:
            seen.add(text)
            items.append((op, args, text))
    out, bad, _ = lines.run(c, 'p%d' % k, head, {i: it[2] for i, it in enumerate(items)})
    hists = []
    for a in range(0, len(items), 50):
        evs = [['classes', cls]] + [[items[i][0], items[i][1], int(i not in bad), out.get(i, [])]
                                    for i in range(a, min(a + 50, len(items)))]
        hists.append(dict(scenario='concepts', variant=k, sched='%d:\n%s\n%s' % (
            a, '\n'.join(head[len(HEAD):].split('\n')), '\n'.join(items[i][2] for i in range(a, min(a + 50, len(items))))),
            text=json.dumps(evs, separators=(',', ':')), raw='', hb=False, extra=[], env={}, seed=c.seed))
    return hists, len(items)


def body(c):
    c.model_check('MC_Concepts')
    c.include_dir()
    for rnd in range(c.n(1, 20)):
        n = c.n(64, 64)
        with cf.ThreadPoolExecutor(vf.NPROC) as ex:
            res = list(ex.map(lambda k: one(c, random.Random('%d/%d/%d' % (c.seed, rnd, k)), k), range(n)))
        hists = [h for hs, _ in res for h in hs]
        c.cov['executions'] += sum(x for _, x in res)
        c.check_histories('Trace_Concepts', hists)


vf.main('S20', body)

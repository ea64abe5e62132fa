import concurrent.futures as cf
import json, os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf, lines

HEADERS = '''AlwaysFalsePred AlwaysFalseTypePred AlwaysTruePred AlwaysTrueTypePred ApplyTuples CopyConst CopyCv
CopyVolatile DecayTupleSize FunctionTraits NoNullTuple SizeOfTypes StripAndDecay TemplateAll TemplateAny TemplateAppend
TemplateAppendTypes TemplateCommonPrefixTypes TemplateCondAppend TemplateCondAppendType TemplateContainsType
TemplateCopyParams TemplateCountTypes TemplateFilter TemplateFilterTypes TemplateFirstType TemplateGetParam
TemplateGetTypeParam TemplateInstantiateWithTypeParams TemplateInverseCondAppend TemplateInverseCondAppendType
TemplateInverseFilter TemplateInverseTypeFilter TemplateLastType TemplateList TemplateNone TemplatePrefixTypes
TemplatePrepend TemplatePrependTypes TemplateSubTypes TemplateSuffixTypes TemplateTypeList'''.split()

VT = {'int': 'Int', 'unsigned char': 'Uc', 'long': 'Long', 'bool': 'Bool'}
TYPES = ['T%d' % i for i in range(8)] + ['void', 'T0 &', 'T1 const', 'std::nullptr_t']
TMPL = ['TemplateTypeList', 'std::tuple', 'My']


def head():
    h = ''.join('#include <sharemind/%s.h>\n' % n for n in HEADERS)
    h += '''#include <array>
#include <cstdio>
#include <functional>
#include <tuple>
#include <utility>
using namespace sharemind;
template <typename ...> struct My {};
struct C {};
static void o(long long v) { std::printf(" %lld", v); }
template <typename T> struct Id: std::integral_constant<int, 99> {};
template <typename T> struct Id<T *>: std::integral_constant<int, std::is_const<T>::value ? 24 : 25> {};
template <template <typename ...> class> struct Tid: std::integral_constant<int, 9> {};
template <> struct Tid<TemplateTypeList>: std::integral_constant<int, 0> {};
template <> struct Tid<std::tuple>: std::integral_constant<int, 1> {};
template <> struct Tid<My>: std::integral_constant<int, 2> {};
template <typename T> struct R;
template <template <typename ...> class L, typename ... Ts> struct R<L<Ts...> > {
  static void p() { o(Tid<L>::value); (void) std::initializer_list<int>{0, (o(Id<Ts>::value), 0)...}; } };
template <typename T> struct One { static void p() { o(Id<T>::value); } };
template <typename T> struct Odd: std::integral_constant<bool, Id<T>::value % 2> {};
template <typename T> struct Low: std::integral_constant<bool, (Id<T>::value < 4)> {};
'''
    for i in range(8):
        h += 'struct T%d { char c[%d]; };\n' % (i, i + 1)
    for i, t in enumerate(TYPES):
        h += 'template <> struct Id<%s>: std::integral_constant<int, %d> {};\n' % (t, i)
    for i, t in enumerate(['C *', 'C const *', 'C volatile *', 'C const volatile *']):
        h += 'template <> struct Id<%s>: std::integral_constant<int, %d> {};\n' % (t, 20 + i)
    for t, n in VT.items():
        for k in ('', '2'):
            h += 'template <%s ...> struct V%s%s {};\n' % (t, n, k)
            h += ('template <%s ... v> struct R<V%s%s<v...> > { static void p() { o(%s); '
                  '(void) std::initializer_list<int>{0, (o(v), 0)...}; } };\n' % (t, n, k, 4 if k else 3))
        h += ('template <%s ... v> struct R<TemplateList<%s, v...> > { static void p() { o(5); '
              '(void) std::initializer_list<int>{0, (o(v), 0)...}; '
              'if (TemplateList<%s, v...>::size() != sizeof...(v)) o(-99); } };\n' % (t, t, t))
        h += 'template <%s v> struct Odd%s: std::integral_constant<bool, (long(v) %% 2 != 0)> {};\n' % (t, n)
        h += 'template <%s v> struct Low%s: std::integral_constant<bool, (long(v) < 4)> {};\n' % (t, n)
        h += 'template <%s v> using True%s = AlwaysTruePred<%s, v>;\n' % (t, n, t)
        h += 'template <%s v> using False%s = AlwaysFalsePred<%s, v>;\n' % (t, n, t)
    h += '''struct Got { template <typename ... A> int operator()(A && ... a) const {
  (void) std::initializer_list<int>{0, (o(a), o(std::is_lvalue_reference<A>::value), 0)...}; return sizeof...(a); } };
struct GotM { template <typename ... A> int operator()(A && ... a) {
  (void) std::initializer_list<int>{0, (o(a), o(std::is_lvalue_reference<A>::value), 0)...}; return sizeof...(a); } };
template <typename ... Ts> void pt(std::tuple<Ts...> const & t);
template <std::size_t ... I, typename T> void pt_(std::index_sequence<I...>, T const & t)
{ (void) std::initializer_list<int>{0, (o(std::get<I>(t)), 0)...}; }
template <typename ... Ts> void pt(std::tuple<Ts...> const & t) { pt_(std::index_sequence_for<Ts...>(), t); }
template <typename T> void cv() {
  using U = std::remove_reference_t<T>;
  o(std::is_const<U>::value); o(std::is_volatile<U>::value); o(std::is_reference<T>::value);
  o(std::is_same<std::remove_cv_t<U>, int>::value); }
template <typename F, std::size_t ... I> void fn_(std::index_sequence<I...>) {
  o(Id<typename FunctionTraits<F>::return_type>::value);
  (void) std::initializer_list<int>{0, (o(Id<typename FunctionTraits<F>::template argument<I> >::value), 0)...};
  R<typename FunctionTraits<F>::arguments>::p(); }
template <typename F> void fn() { fn_<F>(std::make_index_sequence<FunctionTraits<F>::arity()>()); }
'''
    return h


def item(r):
    """An expression, and the operation and its arguments for the specification."""
    tl = lambda n=6, ts=12: [r.randrange(ts) for _ in range(r.randrange(n + 1))]
    ts = lambda l, first='': ''.join(', ' + TYPES[i] for i in l) if first == ',' else ', '.join(TYPES[i] for i in l)
    pred = ['Odd', 'Low', 'AlwaysTrueTypePred', 'AlwaysFalseTypePred', 'std::is_null_pointer']
    inst = lambda k, l: '%s<%s>' % (TMPL[k], ts(l))
    bound = lambda n: r.choice([r.randrange(n + 1), r.randrange(n + 1), r.randrange(n + 1), n, n + 1 if r.random() < .3 else n])
    vt = r.choice(list(VT))
    lim = {'bool': (0, 1), 'unsigned char': (0, 9)}.get(vt, (-3, 9))
    vl = lambda n=6: [r.randint(*lim) for _ in range(r.randrange(n + 1))]
    vs = lambda l: ''.join(', (%s) %d' % (vt, v) for v in l)
    vi = lambda k, l: 'V%s%s<%s>' % (VT[vt], k, vs(l)[2:])
    vp = ['Odd', 'Low', 'True', 'False']
    op = r.choice('append append prepend sub sub prefix suffix common common cappend cappend icappend icappend filter '
                  'filter ifilter ifilter vappend vprepend vcond vcond vicond vicond vfilter vfilter vifilter vifilter '
                  'vget vcopy count contains get first last inst bools size elem sizes nonull mknn nnget apply apply fn fn '
                  'cv cv'.split())
    if op in ('append', 'prepend'):
        k, a, b = r.randrange(3), tl(), tl()
        return (op, [k] + a, b, 0), 'R<Template%sTypes_t<%s%s> >::p();' % (op.capitalize(), inst(k, a), ts(b, ','))
    if op == 'sub':
        a = tl(); s = bound(len(a)); n = bound(max(0, len(a) - s))
        return (op, a, s, n), 'R<TemplateSubTypes_t<%du, %du%s> >::p();' % (s, n, ts(a, ','))
    if op in ('prefix', 'suffix'):
        a = tl(); n = bound(len(a))
        return (op, a, n, 0), 'R<Template%sTypes_t<%du%s> >::p();' % (op.capitalize(), n, ts(a, ','))
    if op == 'common':
        base, ls = tl(6, 3), []
        for _ in range(r.randrange(5)):
            b = list(base[:r.randrange(len(base) + 1)]) if r.randrange(3) else list(base)
            ls.append(b + [r.randrange(3) for _ in range(r.randrange(4))])
        return (op, ls, 0, 0), 'R<TemplateCommonPrefixTypes_t<%s> >::p();' % ', '.join(inst(r.randrange(3), x) for x in ls)
    if op in ('cappend', 'icappend'):
        k, p, a, b = r.randrange(3), r.randrange(5), tl(4), tl()
        return (op, p, [k] + a, b), 'R<Template%sCondAppendType_t<%s, %s%s> >::p();' % (
            'Inverse' if op[0] == 'i' else '', pred[p], inst(k, a), ts(b, ','))
    if op in ('filter', 'ifilter'):
        p, a = r.randrange(5), tl(8)
        return (op, p, a, 0), 'R<Template%s_t<%s%s> >::p();' % (
            'InverseTypeFilter' if op[0] == 'i' else 'FilterTypes', pred[p], ts(a, ','))
    if op in ('vappend', 'vprepend'):
        a, b, k = vl(), vl(), r.choice(['', '2'])
        if op == 'vprepend' and not r.randrange(3):
            return (op, [5] + a, b, 0), 'R<TemplatePrepend_t<%s, TemplateList<%s%s>%s> >::p();' % (vt, vt, vs(a), vs(b))
        return (op, [4 if k else 3] + a, b, 0), 'R<Template%s_t<%s, %s%s> >::p();' % (op[1:].capitalize(), vt, vi(k, a), vs(b))
    if op in ('vcond', 'vicond'):
        p, a, b = r.randrange(4), vl(4), vl()
        return (op, p, [3] + a, b), 'R<Template%sCondAppend_t<%s, %s, %s%s> >::p();' % (
            'Inverse' if op[1] == 'i' else '', vt, vp[p] + VT[vt], vi('', a), vs(b))
    if op in ('vfilter', 'vifilter'):
        p, a = r.randrange(4), vl(8)
        return (op, p, a, 0), 'R<Template%sFilter_t<%s, %s%s> >::p();' % (
            'Inverse' if op[1] == 'i' else '', vt, vp[p] + VT[vt], vs(a))
    if op == 'vget':
        a = vl(); n = bound(max(0, len(a) - 1))
        return (op, a, n, 0), 'o(TemplateGetParam<%s, %du%s>::value);' % (vt, n, vs(a))
    if op == 'vcopy':
        a = vl(); k = r.randrange(2)
        return (op, a, 3 + k, 0), 'R<TemplateCopyParams_t<%s, %s, V%s%s> >::p();' % (
            vt, vi(r.choice(['', '2']), a), VT[vt], '2' if k else '')
    if op in ('count', 'contains'):
        a = tl(8, r.choice([2, 4, 12])); x = r.choice(a) if a and r.randrange(3) else r.randrange(12)
        return (op, a, x, 0), ('o(Template%sType%s<%s%s>::value);' % (op.capitalize(), 's' if op == 'count' else '', TYPES[x], ts(a, ','))
            if r.randrange(2) else 'o(Template%sType%s_v<%s%s>);' % (op.capitalize(), 's' if op == 'count' else '', TYPES[x], ts(a, ',')))
    if op == 'get':
        a = tl(); n = bound(max(0, len(a) - 1))
        return (op, a, n, 0), 'One<TemplateGetTypeParam_t<%du%s> >::p();' % (n, ts(a, ','))
    if op == 'elem':
        a = [x for x in tl() if x != 8]; n = bound(max(0, len(a) - 1))
        return ('get', a, n, 0), 'One<TemplateTypeList<%s>::type<%du> >::p();' % (ts(a), n)
    if op in ('first', 'last'):
        a = tl()
        return (op, a, 0, 0), 'One<Template%sType<%s> >::p();' % (op.capitalize(), ts(a))
    if op == 'inst':
        k, ls = r.randrange(3), [tl(4) for _ in range(r.randrange(5))]
        return (op, k, ls, 0), 'R<TemplateInstantiateWithTypeParams_t<%s%s> >::p();' % (
            TMPL[k], ''.join(', ' + inst(r.randrange(3), x) for x in ls))
    if op == 'bools':
        a = [int(r.random() < r.choice([.1, .5, .9])) for _ in range(r.randrange(7))]
        w = ', '.join('true' if x else 'false' for x in a)
        return (op, a, 0, 0), 'o(TemplateAll<%s>::value); o(TemplateAny<%s>::value); o(TemplateNone<%s>::value);' % (w, w, w)
    if op == 'size':
        a = tl()
        return (op, a, 0, 0), 'o(TemplateTypeList<%s>::size()); o(DecayTupleSize<std::tuple<%s> const &>::value);' % (
            ts(a), ts(a))
    if op == 'sizes':
        a = [r.choice([0, 1, 2, 3, 4, 5, 6, 7, 9, 10]) for _ in range(r.randrange(7))]
        z = [{9: 1, 10: 2}.get(x, x + 1) for x in a]
        return (op, z, 0, 0), 'o(SizeOfTypes<%s>::value); o(sizeOfTypes<%s>());' % (ts(a), ts(a))
    if op == 'nonull':
        a = [11 if r.random() < .3 else x for x in tl(7)]
        return (op, a, 0, 0), 'R<NoNullTuple_t<%s> >::p();' % ts(a)
    if op in ('mknn', 'nnget'):
        a = [[r.randrange(4), r.randrange(50)] for _ in range(r.randrange(6))]
        if op == 'nnget' and not a:
            a = [[1, 7]]
        pre = ''.join('int v%d = %d; ' % (i, x[1]) if x[0] else 'std::nullptr_t v%d = nullptr; ' % i for i, x in enumerate(a))
        args = ', '.join((['nullptr', 'v%d' % i][x[1] % 2], str(x[1]), 'v%d' % i, 'std::ref(v%d)' % i)[x[0]] for i, x in enumerate(a))
        post = ''.join('v%d += 10; ' % i for i, x in enumerate(a) if x[0])
        if op == 'mknn':
            return (op, a, 0, 0), pre + 'auto t = makeNoNullTuple(%s); %s pt(t);' % (args, post)
        n = bound(len(a) - 1)
        orig = ', '.join(('std::nullptr_t', 'int', 'int', 'int &')[x[0]] for x in a)
        return (op, a, n, 0), pre + 'auto t = makeNoNullTuple(%s); %s o(noNullGet<%du, std::tuple<%s> >(t));' % (
            args, post, n, orig)
    if op == 'apply':
        a, pre, args = [], '', []
        for i in range(r.randrange(1, 5)):
            x, lv = [r.randrange(90) for _ in range(r.randrange(1, 5))], r.randrange(3)
            a.append([lv > 0, x])
            v = ', '.join(map(str, x))
            e = r.choice(['std::make_tuple(%s)' % v, 'std::array<int, %d>{{%s}}' % (len(x), v)] +
                         (['std::make_pair(%s)' % v] if len(x) == 2 else []))
            if lv:
                pre += '%sauto%s t%d = %s; ' % ('const ' if lv == 2 else '', '', i, e)
                args.append('t%d' % i)
            else:
                args.append(e)
        a = [[int(l), x] for l, x in a]
        f = r.choice(['Got()', 'g', 'Got const h{}; h', 'GotM()', 'm'])
        if f[-1] == 'h':
            pre, f = 'Got const h{}; ' + pre, 'h'
        return (op, a, 0, 0), 'Got g; GotM m; ' + pre + 'o(applyTuples(%s, %s));' % (f, ', '.join(args))
    if op == 'fn':
        k, ref = r.randrange(8), r.randrange(9)
        ret, a = r.choice([0, 3, 8, 9, 11]), [r.choice([0, 1, 2, 3, 4, 9, 11]) for _ in range(r.randrange(5))]
        rt, at = TYPES[ret], ts(a)
        t = ['%s (%s)' % (rt, at), '%s (*)(%s)' % (rt, at), '%s (C::*)(%s)' % (rt, at), '%s (C::*)(%s) const' % (rt, at),
             '%s (C::*)(%s) volatile' % (rt, at), '%s (C::*)(%s) const volatile' % (rt, at), '', ''][k]
        pre = ''
        if k >= 6:
            body = {8: 'return;', 9: 'static T0 x; return x;', 11: 'return nullptr;'}.get(ret, 'return %s{};' % rt)
            pre = 'auto l = [](%s)%s -> %s { %s }; ' % (at, ' mutable' if k == 7 else '', rt, body)
            t = 'decltype(l)'
        q = ['', ' &', ' const &', ' &&', ' const &&', ' volatile &', ' const volatile &', ' volatile &&', ' const'][ref]
        if k == 0:
            q = ['', ' &', ' &', ' &&', ' &&', ' &', ' &', ' &&', ''][ref]
        return (op, k, ret, a), pre + 'using F0 = %s; fn<F0%s>();' % (t, q)
    if op == 'cv':
        to = [r.randrange(2), r.randrange(2), int(r.random() < .2)]
        fr = [r.randrange(2), r.randrange(2), int(r.random() < .2)]
        k = r.randrange(6)
        w = lambda b, x: b + (' const' if x[0] else '') + (' volatile' if x[1] else '') + (' &' if x[2] else '')
        n = ['CopyConst', 'OrConst', 'CopyVolatile', 'OrVolatile', 'CopyCv', 'OrCv'][k]
        e = '%s_t<%s, %s>' % (n, w('int', to), w('char', fr)) if r.randrange(3) else \
            'typename %s<%s, %s>::type' % (n, w('int', to), w('char', fr))
        return (op, k, to, fr), 'cv<%s>();' % e
    raise AssertionError(op)


def body(c):
    c.model_check('MC_TypeLists')
    h = head()
    c.include_dir()
    for rnd in range(c.n(1, 10)):
        r = random.Random(c.seed * 1000 + rnd)
        items, seen = [], set()
        while len(items) < c.n(6000, 6000):
            args, text = item(r)
            if text not in seen:
                seen.add(text)
                items.append((args, text))
        chunks = [range(k, min(k + 200, len(items))) for k in range(0, len(items), 200)]
        out, bad = {}, set()
        with cf.ThreadPoolExecutor(vf.NPROC) as ex:
            for o, b, _ in ex.map(lambda ch: lines.run(c, 'p%d' % ch[0], h, {i: items[i][1] for i in ch}), chunks):
                out.update(o)
                bad |= b
        hists = []
        for k in range(0, len(items), 40):
            evs = [list(items[i][0]) + [int(i not in bad), out.get(i, [])] for i in range(k, min(k + 40, len(items)))]
            hists.append(dict(scenario='lists', variant=rnd, sched='%d:\n%s' % (k, '\n'.join(
                items[i][1] for i in range(k, min(k + 40, len(items))))),
                text=json.dumps(evs, separators=(',', ':')), raw='', hb=False, extra=[], env={}, seed=c.seed))
        c.cov['executions'] += len(items)
        c.check_histories('Trace_TypeLists', hists)


vf.main('S19', body)

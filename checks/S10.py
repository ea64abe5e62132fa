import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf

def body(c):
    for m in ('MC_SharedSet', 'MC_Handles'):
        c.model_check(m)
        if c.tier != 'quick':
            c.model_check(m, m + '_big.cfg')
    p = c.build('owning', defs=('_GLIBCXX_ASSERTIONS',))
    h = []
    for s, n in (('set', 2000), ('array', 600), ('datum', 2500), ('fd', 1500), ('scope', 1500), ('align', 400)):
        h += c.explore(p, s, execs=c.n(n, 20 * n))
    c.check_histories('Trace_Owning', h)

vf.main('S10', body)

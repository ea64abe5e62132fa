import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf

def body(c):
    c.model_check('MC_Ranges')
    if c.tier != 'quick':
        c.model_check('MC_Ranges', 'MC_Ranges_big.cfg')
    p = c.build('ranges', defs=('_GLIBCXX_DEBUG',))
    h = []
    for s, n in (('equal', 4000), ('walks', 1500), ('references', 2000)):
        h += c.explore(p, s, execs=c.n(n, 20 * n))
    c.check_histories('Trace_Ranges', h)

vf.main('S12', body)

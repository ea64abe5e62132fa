import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf

def body(c):
    c.model_check('MC_ObjectTree')
    if c.tier != 'quick':
        c.model_check('MC_ObjectTree', 'MC_ObjectTree_big.cfg')
    p = c.build('objtree')
    h = c.explore(p, 'all', execs=c.n(3000, 40000))
    h += c.pick(c.explore(p, 'conc', execs=c.n(3000, 40000), dfs=2, dfs_execs=c.n(1000, 40000),
                          commute=True), c.n(6000, 80000))
    c.check_histories('Trace_ObjectTree', h)

vf.main('S09', body)

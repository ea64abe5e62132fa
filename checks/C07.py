import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf

def body(c):
    c.model_check('MC_ResourceMap')
    p = c.build('resmap')
    h = []
    h += c.explore(p, 'seq', execs=c.n(300, 5000))
    h += c.pick(c.explore(p, 'conc', execs=c.n(8000, 120000), dfs=2, dfs_execs=c.n(8000, 100000),
                          commute=True), c.n(6000, 80000))
    c.check_histories('Trace_ResourceMap', h)

vf.main('C07', body)

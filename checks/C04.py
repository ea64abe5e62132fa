import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf

def body(c):
    c.model_check('MC_Future')
    p = c.build('future')
    h = []
    h += c.explore(p, 'seqc', execs=c.n(500, 8000))
    h += c.pick(c.explore(p, 'cont', execs=c.n(6000, 100000), dfs=2, dfs_execs=c.n(6000, 100000),
                          commute=True), c.n(5000, 80000))
    c.check_histories('Trace_Future', h)

vf.main('C04', body)

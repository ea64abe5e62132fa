import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf

def body(c):
    c.model_check('MC_MpscQueue')
    p = c.build('mpsc')
    h = []
    h += c.explore(p, 'seq', execs=c.n(150, 2000))
    h += c.pick(c.explore(p, 'conc', execs=c.n(4000, 80000), dfs=2, dfs_execs=c.n(4000, 80000),
                          commute=True), c.n(9000, 100000))
    c.check_histories('Trace_MpscQueue', h)

vf.main('C14', body)

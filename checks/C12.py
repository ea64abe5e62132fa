import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf

def body(c):
    c.model_check('MC_Sync')
    p = c.build('sync')
    h = []
    for s, n in (('latch', 2000), ('flag', 2000), ('stopflag', 2000), ('delayed', 2000)):
        h += c.pick(c.explore(p, s, execs=c.n(n, 20 * n), dfs=2, dfs_execs=c.n(n, 20 * n),
                              commute=True), c.n(4000, 40000))
    c.check_histories('Trace_Sync', h)

vf.main('C12', body)

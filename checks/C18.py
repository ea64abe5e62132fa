import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf

def body(c):
    c.model_check('MC_FlagSet')
    p = c.build('flags')
    h = []
    h += c.explore(p, 'plain', execs=c.n(200, 3000))
    h += c.explore(p, 'seq', execs=c.n(200, 3000))
    h += c.pick(c.explore(p, 'conc', execs=c.n(8000, 80000), dfs=2, dfs_execs=c.n(2000, 80000),
                          commute=True), c.n(9000, 100000))
    c.check_histories('Trace_FlagSet', h)

vf.main('C18', body)

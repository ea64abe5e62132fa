import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf

def body(c):
    c.model_check('MC_RingBuffer')
    p = c.build('ring')
    h = c.explore(p, 'seq', execs=c.n(300, 5000))
    h += c.pick(c.explore(p, 'conc', execs=c.n(3000, 60000), dfs=2, dfs_execs=c.n(1500, 60000),
                          commute=True), c.n(9000, 150000))
    c.check_histories('Trace_RingBuffer', h)

vf.main('C01', body)

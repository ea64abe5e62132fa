import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf

def body(c):
    c.model_check('MC_Future')
    p = c.build('future')
    h = []
    h += c.explore(p, 'seq', execs=c.n(400, 6000))
    h += c.explore(p, 'tasks', execs=c.n(200, 3000), extra=['--variant', '0'])
    h += c.pick(c.explore(p, 'conc', execs=c.n(6000, 100000), dfs=2, dfs_execs=c.n(6000, 100000),
                          commute=True), c.n(5000, 80000))
    h += c.pick(c.explore(p, 'conc', execs=c.n(4000, 40000), dfs=2, dfs_execs=c.n(1000, 20000),
                          commute=True, extra=['--opt-time', '0', '--variant', '2']), c.n(2500, 30000))
    h += c.pick(c.explore(p, 'tasks', execs=c.n(800, 20000), dfs=2, dfs_execs=c.n(1000, 20000),
                          commute=True), c.n(1500, 20000))
    c.check_histories('Trace_Future', h)

vf.main('C03', body)

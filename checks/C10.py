import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf

def body(c):
    c.model_check('MC_TaskQueue', 'MC_TaskQueue_timed.cfg')
    p = c.build('taskqueue')
    h = []
    h += c.pick(c.explore(p, 'ppool', execs=c.n(6000, 80000), dfs=2, dfs_execs=c.n(6000, 80000),
                          commute=True), c.n(3000, 50000))
    h += c.pick(c.explore(p, 'ptime', execs=c.n(3000, 40000), commute=True,
                          extra=['--opt-time', '0']), c.n(3000, 40000))
    h += c.pick(c.explore(p, 'pdel', execs=c.n(1500, 20000), commute=True,
                          extra=['--opt-time', '0']), c.n(2000, 20000))
    c.check_histories('Trace_TaskQueue', h)

vf.main('C10', body)

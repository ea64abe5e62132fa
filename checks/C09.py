import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf

def body(c):
    c.model_check('MC_TaskQueue')
    if not c.quick:
        c.model_check('MC_TaskQueue', 'MC_TaskQueue_big.cfg')
    p = c.build('taskqueue')
    h = []
    h += c.pick(c.explore(p, 'pool', execs=c.n(6000, 80000), dfs=2, dfs_execs=c.n(6000, 80000),
                          commute=True), c.n(4000, 60000))
    h += c.explore(p, 'chain', execs=2, extra=['--variant', '0', '--max-steps', '1000000'])
    for v in '1', '2':
        h += c.explore(p, 'ever', execs=c.n(500, 5000), extra=['--opt-time', '0', '--variant', v])
    c.check_histories('Trace_TaskQueue', h)

vf.main('C09', body)

import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf

def body(c):
    c.model_check('MC_Strand')
    if not c.quick:
        c.model_check('MC_Strand', 'MC_Strand_big.cfg')
    p = c.build('taskqueue')
    h = []
    h += c.pick(c.explore(p, 'strand', execs=c.n(6000, 80000), dfs=2, dfs_execs=c.n(6000, 80000),
                          commute=True), c.n(4000, 60000))
    h += c.explore(p, 'chain', execs=2, extra=['--variant', '1', '--max-steps', '1000000'])
    h += c.explore(p, 'ever', execs=c.n(500, 5000), extra=['--opt-time', '0', '--variant', '0'])
    c.check_histories('Trace_TaskQueue', h)

vf.main('C11', body)

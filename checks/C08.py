import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf

def body(c):
    c.model_check('MC_Timeouts')
    if not c.quick:
        c.model_check('MC_Timeouts', 'MC_Timeouts_big.cfg')
    p = c.build('timeouts')
    h = []
    exact = ['--opt-time', '0']
    h += c.explore(p, 'strict', execs=c.n(800, 10000), extra=exact)
    h += c.explore(p, 'extreme', execs=c.n(1000, 10000), extra=exact)
    h += c.pick(c.explore(p, 'strict2', execs=c.n(2000, 20000), commute=True, extra=exact), c.n(2000, 20000))
    h += c.pick(c.explore(p, 'conc', execs=c.n(6000, 80000), dfs=2, dfs_execs=c.n(6000, 80000),
                          commute=True), c.n(3500, 60000))
    c.check_histories('Trace_Timeouts', h)

vf.main('C08', body)

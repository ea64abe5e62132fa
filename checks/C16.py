import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf

def body(c):
    c.model_check('MC_EventLoop')
    if not c.quick:
        c.model_check('MC_EventLoop', 'MC_EventLoop_big.cfg', workers=8)
    p = c.build('eventloop')
    h = c.pick(c.explore(p, 'many', execs=c.n(500, 5000), dfs=2, dfs_execs=c.n(500, 5000), commute=True,
                         extra=['--opt-time', '0']), c.n(800, 10000))
    h += c.pick(c.explore(p, 'conc', execs=c.n(2500, 30000), dfs=2, dfs_execs=c.n(2500, 30000), commute=True),
                c.n(4000, 50000))
    h += c.pick(c.explore(p, 'strict', execs=c.n(500, 10000), commute=True,
                          extra=['--opt-time', '0']), c.n(1000, 20000))
    c.check_histories('Trace_EventLoop', h)

vf.main('C16', body)

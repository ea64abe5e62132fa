import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf

def body(c):
    c.model_check('MC_EventLoop')
    if not c.quick:
        c.model_check('MC_EventLoop', 'MC_EventLoop_big.cfg', workers=8)
    p = c.build('eventloop')
    h = c.pick(c.explore(p, 'strict', execs=c.n(2500, 40000), dfs=1, dfs_execs=c.n(500, 5000), commute=True,
                         extra=['--opt-time', '0']), c.n(4000, 40000))
    h += c.pick(c.explore(p, 'conc', execs=c.n(1500, 30000), dfs=2, dfs_execs=c.n(1000, 20000), commute=True),
                c.n(2500, 40000))
    h += c.pick(c.explore(p, 'many', execs=c.n(800, 8000), dfs=2, dfs_execs=c.n(300, 5000), commute=True,
                          extra=['--opt-time', '0', '--variant', '0']), c.n(800, 10000))
    c.check_histories('Trace_EventLoop', h)

vf.main('C15', body)

import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf

def body(c):
    c.model_check('MC_SpinLock')
    p = c.build('spinlock')
    h = []
    for s, n in (('conc', 4000), ('wrap', 4000), ('fifo', 500)):
        h += c.pick(c.explore(p, s, execs=c.n(n, 20 * n), dfs=2, dfs_execs=c.n(n, 20 * n),
                              commute=True,
                              extra=['--opt-time', '0']), c.n(5000, 60000))
    h += c.explore(p, 'lots', execs=c.n(200, 2000),
                   extra=['--opt-time', '0', '--max-steps', '2000000'])
    c.check_histories('Trace_SpinLock', h)

vf.main('C13', body)

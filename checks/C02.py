import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf

def body(c):
    c.model_check('MC_RingBuffer')
    p = c.build('ring')
    h = c.pick(c.explore(p, 'block', execs=c.n(4000, 60000), dfs=2, dfs_execs=c.n(3000, 60000),
                         commute=True), c.n(6000, 80000))
    h += c.explore(p, 'seq', execs=c.n(100, 2000))
    h += c.pick(c.explore(p, 'timed', execs=c.n(3000, 60000), dfs=2, dfs_execs=c.n(2000, 60000),
                          commute=True), c.n(4000, 80000))
    h += c.pick(c.explore(p, 'timed', execs=c.n(2000, 40000), dfs=2, dfs_execs=c.n(1000, 20000),
                          commute=True, extra=['--opt-time', '0']), c.n(2500, 40000))
    h += c.pick(c.explore(p, 'once', execs=c.n(6000, 60000), dfs=2, dfs_execs=c.n(2000, 60000),
                          commute=True), c.n(5000, 80000))
    c.check_histories('Trace_RingBuffer', h)

vf.main('C02', body)

import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf

def body(c):
    c.model_check('MC_IdentifierPool')
    p = c.build('idpool')
    h = c.explore(p, 'seq', execs=c.n(400, 6000))
    h += c.explore(p, 'full', execs=c.n(12, 100))
    h += c.explore(p, 'whole', execs=c.n(3, 30), extra=['--max-steps', '100000000'])
    c.check_histories('Trace_IdentifierPool', h)
    h = c.explore(p, 'conc', execs=c.n(20000, 200000), dfs=2, dfs_execs=c.n(20000, 300000), commute=True)
    c.check_histories('Trace_IdentifierPool', c.pick(h, c.n(8000, 100000)))

vf.main('C06', body)

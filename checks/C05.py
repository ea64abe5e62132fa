import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf

def body(c):
    c.model_check('MC_Future')
    p = c.build('future')
    h = []
    # The balance of constructed and destroyed values, heap blocks included,
    # after every history; other executions than those of C03 and C04.
    c.seed += 1000
    for sc, q, t in (('seq', 700, 10000), ('seqc', 500, 8000), ('alloc', 1500, 20000)):
        h += c.explore(p, sc, execs=c.n(q, t))
    for sc in ('conc', 'cont', 'tasks'):
        h += c.pick(c.explore(p, sc, execs=c.n(3000, 60000), dfs=1, dfs_execs=c.n(2000, 40000),
                              commute=True), c.n(2500, 50000))
    c.check_histories('Trace_Future', h)

vf.main('C05', body)

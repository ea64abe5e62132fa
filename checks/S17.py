import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf

def body(c):
    c.model_check('MC_Identity')
    p = c.build('identity')
    for s, q, t in (('hashes', 6000, 60000), ('text', 6000, 60000), ('names', 2000, 20000)):
        h = c.explore(p, s, execs=c.n(q, t))
        c.check_histories('Trace_Identity', h)

vf.main('S17', body)

import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf

def body(c):
    c.model_check('MC_StrongTypes')
    p = c.build('strongtype')
    h = c.explore(p, 'run', execs=c.n(1500, 20000))
    c.check_histories('Trace_StrongTypes', h)

vf.main('S16', body)

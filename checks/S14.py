import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf

def body(c):
    c.model_check('MC_Exceptions')
    p = c.build('exceptions')
    h = c.explore(p, 'nesting', execs=c.n(8000, 100000))
    h += c.explore(p, 'said', execs=c.n(1500, 30000))
    h += c.explore(p, 'handlers', execs=2)
    c.check_histories('Trace_Exceptions', h)

vf.main('S14', body)

import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf

def body(c):
    c.model_check('MC_Optional')
    c.model_check('MC_Optional', 'MC_Optional_copies.cfg')
    p = c.build('optional')
    c.check_histories('Trace_Optional', c.explore(p, 'all', execs=c.n(5000, 60000)))

vf.main('S02', body)

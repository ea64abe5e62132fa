import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf

def body(c):
    c.model_check('MC_Packed')
    if c.tier != 'quick':
        c.model_check('MC_Packed', 'MC_Packed_big.cfg')
    p = c.build('packed')
    c.check_histories('Trace_Packed', c.explore(p, 'all', execs=c.n(4000, 60000)))

vf.main('S07', body)

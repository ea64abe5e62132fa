import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf

def body(c):
    c.model_check('MC_Bits')
    if c.tier != 'quick':
        c.model_check('MC_Bits', 'MC_Bits_big.cfg')
    p = c.build('bitvec')
    c.check_histories('Trace_Bits', c.explore(p, 'all', execs=c.n(4000, 60000)))

vf.main('S04', body)

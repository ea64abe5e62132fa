import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf

def body(c):
    c.model_check('MC_SharedParts')
    if c.tier != 'quick':
        c.model_check('MC_SharedParts', 'MC_SharedParts_big.cfg')
    p = c.build('shared')
    h = c.explore(p, 'run', execs=c.n(6000, 100000))
    c.check_histories('Trace_SharedParts', h)

vf.main('S15', body)

import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf

def body(c):
    c.model_check('MC_MathInts')
    if c.tier != 'quick':
        c.model_check('MC_MathInts', 'MC_MathInts_big.cfg')
    p = c.build('integers')
    h = c.explore(p, 'run', execs=c.n(8000, 100000))
    h += c.explore(p, 'tables', execs=c.n(60, 1000))
    c.check_histories('Trace_MathInts', h)

vf.main('S13', body)

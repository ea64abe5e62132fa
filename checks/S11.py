import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf

def body(c):
    c.model_check('MC_CallStack')
    if c.tier != 'quick':
        c.model_check('MC_CallStack', 'MC_CallStack_big.cfg')
    p = c.build('callstack')
    h = c.explore(p, 'seq', execs=c.n(3000, 60000))
    h += c.explore(p, 'conc', execs=c.n(3000, 40000))
    c.check_histories('Trace_CallStack', h)

vf.main('S11', body)

import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf

def body(c):
    c.model_check('MC_Strings')
    if c.tier != 'quick':
        c.model_check('MC_Strings', 'MC_Strings_big.cfg')
    p = c.build('strings')
    c.check_histories('Trace_Strings', c.explore(p, 'all', execs=c.n(4000, 60000)))

vf.main('S05', body)

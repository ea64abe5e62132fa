import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf

def body(c):
    c.model_check('MC_Messages')
    if c.tier != 'quick':
        c.model_check('MC_Messages', 'MC_Messages_big.cfg')
    p = c.build('netmsg')
    c.check_histories('Trace_Messages', c.explore(p, 'all', execs=c.n(4000, 60000)))

vf.main('S06', body)

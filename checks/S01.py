import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf

def body(c):
    c.model_check('MC_LRU')
    p = c.build('lru')
    h = []
    for s in ('ints', 'objs'):
        h += c.explore(p, s, execs=c.n(3000, 40000))
    c.check_histories('Trace_LRU', h)

vf.main('S01', body)

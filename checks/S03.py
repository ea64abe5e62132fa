import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf

def body(c):
    c.model_check('MC_Map')
    p = c.build('umap')
    c.check_histories('Trace_Map', c.explore(p, 'all', execs=c.n(4000, 50000)))

vf.main('S03', body)

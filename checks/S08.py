import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf

def body(c):
    for k in ('4_1', '5_2') + (() if c.tier == 'quick' else ('6_2', '7_3', '8_3')):
        c.model_check('MC_BigInt', 'MC_BigInt_%s.cfg' % k)
    p = c.build('bigint')
    c.check_histories('Trace_BigInt', c.explore(p, 'few', execs=2, extra=['--max-steps', '100000000']))
    c.check_histories('Trace_BigInt', c.explore(p, 'all', execs=c.n(600, 12000),
                                                extra=['--max-steps', '100000000']))

vf.main('S08', body)

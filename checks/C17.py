import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf

# harness -> [(scenario, variants (None: all), extra options)]
RUNS = [
    ('ring', [('conc', None, []), ('block', None, []), ('timed', None, [])]),
    ('mpsc', [('conc', None, [])]),
    ('spinlock', [('conc', None, ['--opt-time', '0'])]),
    ('flags', [('conc', None, [])]),
    ('sync', [('latch', None, []), ('flag', None, []), ('stopflag', None, []), ('delayed', None, [])]),
    ('future', [('conc', None, []), ('cont', None, [])]),
    ('idpool', [('conc', [0, 1], [])]),
    ('resmap', [('conc', None, [])]),
    ('timeouts', [('conc', None, [])]),
    ('objtree', [('conc', None, [])]),
    ('taskqueue', [('pool', None, []), ('ppool', None, []), ('strand', None, [])]),
    ('eventloop', [('conc', None, []), ('many', [0], ['--opt-time', '0'])]),
]
EXECS = dict(eventloop=1200, resmap=800)
CAPS = dict(eventloop=400, resmap=300)

def body(c):
    c.model_check('MC_HappensBefore')
    for name, runs in RUNS:
        p = c.build(name)
        c.races(p, runs, c.n(EXECS.get(name, 300), 4000), cap=c.n(CAPS.get(name, 160), 2500))

vf.main('C17', body)

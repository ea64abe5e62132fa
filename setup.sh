#!/bin/bash
# Builds the scheduler run time once; the checks build the rest themselves.
cd "$(dirname "$0")"
python3 - <<'P'
import sys
sys.path.insert(0, 'lib')
import vf
c = vf.Check('setup')
print(c.runtime())
P

import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vkit import *

ck = Check('C01', 'exploration',
           'grid over record counts around the internal buffers, all extra field counts 0-255, WKT lengths up to '
           '65535 and column content styles, both encodings; non-trivial: at least one record', min_events=1500)
ck.build([('c01', VERIF + '/harness/c01.cpp', 'san', []),
          ('c01d', VERIF + '/harness/c01.cpp', 'dbg', [])])
run_harness(ck, 'c01', ['tmp=' + ck.work + '/t', 'stride=%d' % scale(2, 1)], NPROC)
if not ck.nviol:
    run_harness(ck, 'c01d', ['tmp=' + ck.work + '/d'], NPROC)
ck.finish()

import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vkit import *

ck = Check('C26', 'exploration',
           'families of points of four types, records, headers, extents and voxel indexes around a random base value, each member '
           'differing from it in one component (by the least amount, in sign, in one bit), in two, by exchanged components or '
           'signed zeros; every pair and triple: ==, !=, <, hashes, hashed sets and sorting against componentwise models; hash '
           'changes counted per component; non-trivial: one family', min_events=20000)
ck.build([('c26.san', VERIF + '/harness/c26.cpp', 'san', []), ('c26.rel', VERIF + '/harness/c26.cpp', 'rel', [])])
run_harness(ck, 'c26.rel', ['items=%d' % scale(16000, 1000000)], NPROC)
run_harness(ck, 'c26.san', ['items=%d' % scale(3200, 50000)], NPROC)
ck.finish()

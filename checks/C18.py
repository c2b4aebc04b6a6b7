import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vkit import *

ck = Check('C18', 'exploration',
           'point sets (uniform, lines, planes, clumps, many equal points, grids with exact distances on voxel edges, far from '
           'the origin) x three point types x all five forms of the call, subsets with repeated indexes x maxima x three thread '
           'counts; every answer is compared with a brute force search; non-trivial: a query with at least two neighbours',
           min_events=20000)
ck.build([('c18.san', VERIF + '/harness/c18.cpp', 'san', []), ('c18.rel', VERIF + '/harness/c18.cpp', 'rel', []),
          ('c18.dsan', VERIF + '/harness/c18.cpp', 'dsan', [])])
run_harness(ck, 'c18.rel', ['items=%d' % scale(1600, 20000)], NPROC)
run_harness(ck, 'c18.san', ['items=%d' % scale(120, 2000)], NPROC)
run_harness(ck, 'c18.dsan', ['items=%d' % scale(120, 2000)], NPROC)
run_harness(ck, 'c18.rel', ['large=1', 'items=%d' % scale(24, 240)], NPROC)
ck.finish()

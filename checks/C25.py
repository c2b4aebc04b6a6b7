import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vkit import *

ck = Check('C25', 'exploration',
           'point sets of three types (coordinates of either sign only, constant, on grids, far from the origin, tiny, huge, signed '
           'zeros) x every geometric helper with random, exact and edge arguments, 1 to 8 threads; results compared with '
           'extended precision definitions, inverse pairs composed; non-trivial: a helper applied to points on which it does '
           'something', min_events=20000)
ck.build([('c25.san', VERIF + '/harness/c25.cpp', ['g++', '-O1', '-g1', '-DNDEBUG', '-fsanitize=address,undefined,float-cast-overflow',
                                                   '-fno-sanitize-recover=all', '-fopenmp'], []),
          ('c25.rel', VERIF + '/harness/c25.cpp', 'rel', []), ('c25.dbg', VERIF + '/harness/c25.cpp', 'dbg', [])])
run_harness(ck, 'c25.rel', ['items=%d' % scale(8000, 400000)], NPROC)
run_harness(ck, 'c25.san', ['items=%d' % scale(2000, 40000)], NPROC)
run_harness(ck, 'c25.dbg', ['items=%d' % scale(2000, 40000)], NPROC)
run_harness(ck, 'c25.rel', ['large=1', 'items=%d' % scale(48, 480)], NPROC)
ck.finish()

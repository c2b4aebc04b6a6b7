import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vkit import *

ck = Check('C21', 'exploration',
           'histories of 60 operations (constructions, assignments, swaps, appends, updates, resizes, moves, WKT and flag '
           'changes, with consistent and inconsistent arguments, aliasing, and failing allocations) on three objects; after each '
           'one every accessor of the objects is compared with a model; every record constructor; non-trivial: distinct (operation, state, outcome)',
           min_events=20000)
ck.build([('c21.' + v, VERIF + '/harness/c21.cpp', v, []) for v in ('rel', 'dsan', 'san')])
run_harness(ck, 'c21.rel', ['items=%d' % scale(3000, 60000)], NPROC)
run_harness(ck, 'c21.dsan', ['items=%d' % scale(500, 10000)], NPROC)
run_harness(ck, 'c21.san', ['items=%d' % scale(500, 10000)], NPROC)
run_harness(ck, 'c21.rel', ['large=1', 'items=%d' % scale(16, 160), 'length=25'], NPROC)
ck.finish()

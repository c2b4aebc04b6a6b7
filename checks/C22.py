import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vkit import *

ck = Check('C22', 'exploration',
           'histories of 25 calls of the Python bindings (all functions, properties, valid and invalid arguments, both encodings, 0 '
           'to 256 extra fields, damaged and unwritable files, objects outliving others) against a model, with an independent codec '
           'for the files, under the plain interpreter and with AddressSanitizer; non-trivial: distinct (call, state)',
           min_events=4000)
V = {'rel': {}, 'dbg': {}, 'san': {}}
ck.build([ck.py_job(v) for v in V])
asan = subprocess.check_output(['g++', '-print-file-name=libasan.so'], text=True).strip()
ubsan = subprocess.check_output(['g++', '-print-file-name=libubsan.so'], text=True).strip()
for v, n in (('rel', scale(400, 8000)), ('dbg', scale(240, 4000)), ('san', scale(160, 2500))):
    env = ck.py_env(v)
    if v == 'san':
        env['LD_PRELOAD'] = asan + ':' + ubsan
    sh = os.path.join(ck.work, 'bin', 'c22.' + v)
    d = os.path.join(ck.work, 'd-' + v)
    os.makedirs(d)
    with open(sh, 'w') as f:
        f.write('#!/bin/sh\n' + ('' if v == 'san' else 'ulimit -v 4000000\n') + 'exec /usr/bin/python3 %s/harness/c22.py dir=%s "$@"\n' % (VERIF, d))
    os.chmod(sh, 0o755)
    ck.bin['c22.' + v] = sh
    run_harness(ck, 'c22.' + v, ['items=%d' % n, 'flip=%d' % (v != 'san')], NPROC, env=env)
ck.assumptions.append('the extension is compiled as setup.py does it, with the installed pybind11, for /usr/bin/python3')
ck.finish()

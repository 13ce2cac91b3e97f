"""Checks that the verifier's ingredients are there; nothing needs building ahead of a check."""
import shutil, subprocess, sys
for t in ('clang++-18', 'opt-18', 'cvc5', 'c++filt'):
    if not shutil.which(t): sys.exit('missing ' + t)
subprocess.run(['/opt/veriftools/pyvenv/bin/python3', '-c', 'import z3'], check=True)

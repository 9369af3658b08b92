"""Setup: checks that the tools the framework uses are present; nothing needs building ahead of the checks."""
import shutil, subprocess, sys
for t in ('clang++-20', 'clang-20', 'llvm-nm-20', 'protoc', 'cvc5', 'nm'):
    if not shutil.which(t):
        sys.exit('missing tool ' + t)
import z3, sympy
sys.path.insert(0, '.')
from pv import ir
ir.lib()
print('ok')

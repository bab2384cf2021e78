"""setup_cmd: check that the tools the checks need are present"""
import shutil, sys, z3
assert shutil.which('cvc5') and shutil.which('clang'), 'solver or compiler missing'
s = z3.Solver(); x = z3.Real('x'); s.add(x * x < 0); assert s.check() == z3.unsat
print('z3', z3.get_version_string(), 'ok')

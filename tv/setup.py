"""nothing is compiled; check that the pieces the checks need are there."""
import torch, sys
from tv import terms, prove, symt, runner
import z3
print("torch", torch.__version__, "z3", z3.get_version_string(), "python", sys.version.split()[0])

import os, sys; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import *
import c09gen
c = Check("C09")
b = build("plain")
out = os.path.join(c.tmp, "ir")
n = c09gen.generate(out, c.tier == "thorough")
c.run(compile_harness(["checks/c09.cpp"], "plain", b, extra=["-rdynamic"]), [b + "/include/oclgrind", out, str(c09gen.NMOD)])
c.finish(rule="states: IR kernels (one per construct, type, width, operand form, control-flow graph or aggregate path); transitions: operand tuples executed; every result compared with host code that LLVM compiles from the same IR", ir_kernels=n)

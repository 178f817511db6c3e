import os, sys; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import *
import c08gen
c = Check("C08")
b = build("plain")
exe = compile_harness(["checks/c08.cpp"], "plain", b)
ir = os.path.join(c.tmp, "ir"); n = c08gen.generate(ir, c.tier == "thorough")
c.run(exe, [b + "/include/oclgrind", "ir", ir], label="ir")
for m in ("op", "prog", "out", "atomic", "async", "image", "host"):
    c.run(exe, [b + "/include/oclgrind", m], label=m)
c.finish(rule="a state is one kernel (operation, width and form), with one assignment of written/never-written to its inputs, or one history of host commands on a buffer; transitions are the judged result elements", ir_kernels=n)

import os, sys; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import *
import c20gen, subprocess
c = Check("C20")
b = build("plain")
out = os.path.join(c.tmp, "ir")
n = c20gen.generate(out, c.tier == "thorough")
exe = compile_harness(["checks/c20.cpp"], "plain", b, libs=("oclgrind-rt", "oclgrind", "LLVM-20"), extra=["-rdynamic", "-I/usr/lib/llvm-20/include", "-L/usr/lib/llvm-20/lib", "-fno-rtti", "-D__STDC_LIMIT_MACROS", "-D__STDC_CONSTANT_MACROS"])
shim = compile_harness(["checks/c20shim.cpp"], "plain", b, out="shim.so", libs=(), shared=True)
import shutil
shim2 = compile_harness(["checks/c20shim2.cpp"], "plain", b, out="shim2.so", libs=(), shared=True)
open(c.tmp + "/empty.cpp", "w").write("int nothing;\n"); subprocess.run(["g++", "-shared", "-fPIC", "-o", c.tmp + "/noinit.so", c.tmp + "/empty.cpp"], check=True)
for x in "abc": shutil.copy(shim2, c.tmp + "/%s.so" % x)
inc = b + "/include/oclgrind"
for mode, th in (("k", "1"), ("k", "4"), ("host", "1")):
    c.run(exe, [inc, out, str(c20gen.NMOD), th, shim, mode], label=mode + th)
c.run(exe, [inc, out, str(c20gen.NMOD), "3", shim, "plugins", c.tmp], label="plugins")
c.finish(rule="a state is one generated kernel (every sequence of memory, call, barrier and branch operations within the depth) on one NDRange and thread count, or one history of host commands; transitions are the recorded events, each compared with the execution the program must have", kernels=n)

from vlib import *
c = Check("C19")
b = build("plain")
inc = os.path.join(c.tmp, "inc"); os.makedirs(inc, exist_ok=True)
open(os.path.join(inc, "vfh19.h"), "w").write("// header\nstatic void hpoke(global int *p, size_t i)\n{\n  p[6000000 + i] = 9;\n}\n")
exe = compile_harness(["checks/c19.cpp"], "plain", b, libs=("oclgrind-rt", "oclgrind", "LLVM-20"), extra=["-rdynamic", "-I/usr/lib/llvm-20/include", "-L/usr/lib/llvm-20/lib", "-fno-rtti", "-D__STDC_LIMIT_MACROS", "-D__STDC_CONSTANT_MACROS"])
shim = compile_harness(["checks/c20shim.cpp"], "plain", b, out="shim.so", libs=(), shared=True)
c.run(exe, [b + "/include/oclgrind", inc, shim], stall=100)
c.finish(rule="states: (kind of problem, NDRange shape and offset, subset of failing work-items, optimisation, line endings, plugin set, workers), (error limit, split of errors over two launches, sink, workers), histories of two contexts sharing a log file; all subsets enumerated; transitions: expected diagnostics, each compared with the printed one in kernel, entity, line and source text; traces: launches or child processes whose complete output was judged")

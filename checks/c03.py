from vlib import *
c = Check("C03")
b = build("sched")
h = compile_harness(["checks/c03.cpp", "lib/mcrt.cpp"], "sched", b, out="c03", extra=["-rdynamic", "-fno-builtin-malloc", "-fno-threadsafe-statics"], plain=True, cxx="/usr/bin/clang++")
c.run(h, [b + "/include/oclgrind"], stall=90)
c.finish(rule="states: operand combinations of single calls and schedules of concurrent sequences executed; transitions: atomic calls and scheduling points; traces: executions of the real simulator under the controlled scheduler, each compared with all sequential orders of its calls")

from vlib import *
c = Check("C02")
b = build("sched")
h = compile_harness(["checks/c02.cpp", "lib/mcrt.cpp"], "sched", b, out="c02", extra=["-rdynamic", "-fno-builtin-malloc", "-fno-threadsafe-statics","-fno-threadsafe-statics"], plain=True, cxx="/usr/bin/clang++")
c.run(h, [b + "/include/oclgrind"], stall=90)
c.finish(rule="states: schedules of the worker threads executed (all schedules within the preemption bound of each kernel, plugin set, group and worker count); transitions: scheduling points passed; traces: executions of the real simulator under the controlled scheduler")

from vlib import *
c = Check("C28")
b = build("sched")
h = compile_harness(["checks/c28.cpp", "lib/mcrt.cpp"], "sched", b, out="c28", extra=["-rdynamic", "-fno-builtin-malloc", "-fno-threadsafe-statics"], plain=True, cxx="/usr/bin/clang++")
for s in "f", "n", "a":
    c.run(h, [b + "/include/oclgrind", s], label=s, stall=90)
c.finish(rule="states: schedules of two host threads (and their worker threads) executed, all schedules within the preemption bound of each pair of scripts; transitions: scheduling points passed; traces: executions of the real runtime under the controlled scheduler")

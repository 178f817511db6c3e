from vlib import *
c = Check("C05")
b = build("plain")
c.run(compile_harness(["checks/c05.cpp"], "plain", b), [b + "/include/oclgrind"])
c.finish(rule="a state is one (NDRange shape, per-work-item access program with barriers); every launch's reports (existence per address space, address, kind, entities) are compared with the exact pairwise definition of a data race")

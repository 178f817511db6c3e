from vlib import *
c = Check("C25")
b = build("plain")
c.run(compile_harness(["checks/c25.cpp"], "plain", b), [b + "/include/oclgrind"])
c.finish(rule="states: (element type, width, address space, access path, optimisation setting, statement sequence, aliasing): every sequence over the statement alphabet within the depth; transitions: executed statements; final memory compared with the model")

from vlib import *
c = Check("C27")
b = build("asan")
c.run(compile_harness(["checks/c27.cpp"], "asan", b), [b + "/include/oclgrind"])
c.finish(rule="a state is one object with one combination of creation parameters (and, for events, queues and mappings, one point of its life); a transition is one query; every query is made in five forms and its value and the bytes around the destination are compared with the model")

from vlib import *
c = Check("C15")
b = build("asan")
c.run(compile_harness(["checks/c15.cpp"], "asan", b), [b + "/include/oclgrind"])
c.finish(rule="a state is one command with one geometry on one kind of object; a transition is one enqueued command; every byte of the objects and of guarded host memory is compared with the model afterwards")

from vlib import *
c = Check("C06")
b = build("asan")
c.run(compile_harness(["checks/c06.cpp"], "asan", b), [b + "/include/oclgrind"])
c.finish(rule="a state is one (address space, access form, object size, offset); a transition is one kernel launch; reports, loaded value, object and neighbouring objects are compared with the model")

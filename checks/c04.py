from vlib import *
c = Check("C04")
b = build("plain")
c.run(compile_harness(["checks/c04.cpp"], "plain", b), [b + "/include/oclgrind"], stall=30)
c.finish(rule="a state is one program assignment: every work-item of a work-group executes its own sequence of actions (barriers at several call sites, asynchronous copies, waits, early exits); reports, termination and visibility are compared with the model")

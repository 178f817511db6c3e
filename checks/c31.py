from vlib import *
c = Check("C31")
b = build("plain")
c.run(compile_harness(["checks/c31.cpp"], "plain", b), [b + "/include/oclgrind"], stall=200)
c.finish(rule="a state is one floating-point environment of the host (rounding mode x flush-to-zero x denormals-are-zero x trapped exceptions) in one configuration; transitions are the API calls made in it; all results are compared bit by bit with those in the default environment")

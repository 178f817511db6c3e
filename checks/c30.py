from vlib import *
c = Check("C30")
b = build("asan")
a = compile_harness(["checks/c30app.cpp"], "asan", b, out="c30app", libs=("oclgrind-rt",))
c.run(compile_harness(["checks/c30.cpp"], "plain", b, libs=()), [a, b + "/include/oclgrind"], stall=200)
c.finish(rule="a state is one API history with one way of ending the process and one configuration, run as a process of its own under AddressSanitizer; transitions are the operations of the history and the ending")

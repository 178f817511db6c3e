from vlib import *
c = Check("C32")
b = build("plain")
c.run(compile_harness(["checks/c32.cpp"], "plain", b), [b + "/include/oclgrind"], stall=200)
c.finish(rule="a state is one configuration of the host's streams, buffering and locale, run as a process of its own; transitions are kernel launches; what reaches the standard streams is compared with the model (printf) and with the default configuration (reports)")

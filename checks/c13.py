from vlib import *
c = Check("C13")
b = build("plain")
c.run(compile_harness(["checks/c13.cpp"], "plain", b), [b + "/include/oclgrind"], stall=30)
c.finish(states=c.cov.pop("model_states", 0), rule="histories: n<=3 commands (n<=4 thorough) of 6 kinds on two queues (in order / out of order), every wait list over earlier commands and user events, every outcome and setting point of the user events, an intermediate and a final synchronisation; a state is a prefix of a history, a transition an API operation")

from vlib import *
c = Check("C22")
b = build("plain")
c.run(compile_harness(["checks/c22.cpp"], "plain", b), [b + "/include/oclgrind"], stall=100)
c.finish(rule="states: debugger sessions (command sequences) enumerated to the depth bound on each kernel and NDRange; transitions: prompts whose answer was compared with the reference debugger; traces: sessions replayed on the implementation")

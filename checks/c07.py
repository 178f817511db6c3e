from vlib import *
c = Check("C07")
b = build("plain")
c.run(compile_harness(["checks/c07.cpp"], "plain", b), [b + "/include/oclgrind"])
c.finish(rule="states: (map/unmap history prefix) x (access form, offset), (object flags, access form) and (array shape, access, index); transitions: executed accesses; every access of every state is judged against the model")

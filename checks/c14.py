from vlib import *
c = Check("C14")
b = build("asan")
c.run(compile_harness(["checks/c14.cpp"], "asan", b), [b + "/include/oclgrind"], stall=60)
c.finish(rule="a trace is one history of create/retain/release/use/callback operations over a family of objects followed by the release of everything in creation or reverse order; after every operation (transition) reference counts, queries, destructor and event callbacks are compared with the model and at the end all memory has to be returned")

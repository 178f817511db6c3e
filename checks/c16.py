from vlib import *
c = Check("C16")
b = build("plain")
c.run(compile_harness(["checks/c16.cpp"], "plain", b), [b + "/include/oclgrind"])
c.finish(rule="states: API calls; every combination of the listed argument values (valid, missing, boundary, overflowing) per entry point; each call's result, report, callback and side effects compared with the documented preconditions")

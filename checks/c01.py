from vlib import *
c = Check("C01", assumptions=["global sizes beyond the enumerated shapes behave like the enumerated ones"])
b = build("plain")
exe = compile_harness(["checks/c01.cpp"], "plain", b)
pch = b + "/include/oclgrind"
for conf, t, q in (("t1", "1", "0"), ("t3", "3", "0"), ("q1", "1", "1"), ("q2", "2", "1")):
    c.run(exe, [pch, conf, t, q], label=conf)
c.finish(rule="a state is one (worker count, quick mode, language version, dimensions, global size, work-group size, offset); a transition is one work-item execution")

from vlib import *
c = Check("C18")
b = build("plain")
exe = compile_harness(["checks/c18.cpp"], "plain", b)
for d, h in (("a b", 0), ("c  d", 1), ("e\\f", 2)):
    os.makedirs(os.path.join(c.tmp, d))
    open(os.path.join(c.tmp, d, "h%d.h" % h), "w").write("#define H%d 1\n" % h)
for mode in ("hist", "opts", "link", "init", "misc"):
    c.run(exe, [b + "/include/oclgrind", c.tmp, mode], label=mode)
c.finish(rule="a state is one build history, option string, set of linked parts, program-scope initialiser, header set or source split; transitions are the builds, links, reloads and launches executed and compared with the model")

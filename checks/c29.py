from vlib import *
c = Check("C29")
b = build("plain", targets=("oclgrind-rt", "oclgrind-rt-icd"))
ldr = compile_harness(["checks/c29loader.cpp"], "plain", b, out="c29loader.so", libs=(), shared=True)
ln = os.path.join(b, "libvf_c29loader.so")
if not os.path.exists(ln): os.symlink(ldr, ln)
d = compile_harness(["checks/c29app.cpp"], "plain", b, out="c29direct", libs=("oclgrind-rt",))
i = compile_harness(["checks/c29app.cpp"], "plain", b, out="c29icd", libs=("vf_c29loader",), extra=("-Wl,--allow-shlib-undefined",))
c.run(compile_harness(["checks/c29.cpp"], "plain", b), [d, i, b + "/liboclgrind-rt-icd.so", b + "/include/oclgrind"], stall=800)
c.finish(rule="a state is one sequence of operations, executed in two fresh processes (linked directly; through the reference ICD loader); a transition is one operation (about 8 API calls) whose complete outcome is compared; the dispatch table of every kind of object is compared entry by entry")

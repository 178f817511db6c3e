from vlib import *
c = Check("C17")
b = build("plain")
exe = compile_harness(["checks/c17.cpp"], "plain", b)
inc = b + "/include/oclgrind"
c.run(exe, [inc, "hist"], label="hist")
c.run(exe, [inc, "types"], label="types")
for th in ("1", "4"):
    c.run(exe, [inc, "local", th], label="local" + th)
c.finish(rule="a state is one history of set-argument/enqueue/clone/release/finish, one tuple of argument types, or one layout of local memory; transitions are API calls and launches whose recorded arguments are compared with the model")

from vlib import *
c = Check("C10")
b = build("plain")
c.run(compile_harness(["checks/c10.cpp"], "plain", b), [b + "/include/oclgrind"])
c.finish(rule="states: (builtin overload, vector width, operand tuple): 8-bit operand pairs exhaustively, wider types over every tuple of boundary values; transitions: evaluated builtin lanes, each compared with the reference semantics")

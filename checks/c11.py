from vlib import *
c = Check("C11")
b = build("plain")
c.run(compile_harness(["checks/c11.cpp"], "plain", b), [b + "/include/oclgrind"], stall=100)
c.finish(rule="states: (builtin overload, vector width, address space of the output pointer, operand tuple) over every tuple of the operand lattice (for one-argument single-precision functions also every sign/exponent/leading-mantissa pattern); each tuple reaches each vector lane; transitions: evaluated builtin lanes, each compared with an extended-precision reference within the OpenCL error bound; traces: launched kernels")

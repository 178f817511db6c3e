from vlib import *
c = Check("C23")
b = build("plain")
c.run(compile_harness(["checks/c23.cpp"], "plain", b), [b + "/include/oclgrind"], stall=100)
c.finish(rule="states: (conversion, flag subset, width, precision, length modifier, vector width, value) all enumerated where C99 defines the combination, plus every sequence of up to three (thorough: four) conversions and text pieces, and loops/barriers/calls with several group shapes and workers; transitions: formatted pieces compared with C99 formatting of the same value; traces: launched kernels")

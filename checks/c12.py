from vlib import *
c = Check("C12")
b = build("plain")
c.run(compile_harness(["checks/c12.cpp"], "plain", b), [b + "/include/oclgrind"], stall=60)
c.finish(rule="a state is one image (type, format, size) with its complete contents; transitions are single reads (every sampler on a coordinate grid around and inside the image), single-texel writes, fills and queries, each compared with the specification's formulas and, for writes, with every byte of the image")

from vlib import *
import glob
c = Check("C24")
b = build("plain")
src = os.path.join(b, "..", "mirror", "src", "kernel")
rest = sorted(f for f in glob.glob(src + "/*.cpp") if os.path.basename(f) != "oclgrind-kernel.cpp")
llvm = ["-I/usr/lib/llvm-20/include", "-L/usr/lib/llvm-20/lib", "-D__STDC_LIMIT_MACROS", "-D__STDC_CONSTANT_MACROS", "-D__STDC_FORMAT_MACROS"]
# the runner's own main function under another name, so that a forked child of the harness can call it (renamed in the object file: main may end without a return statement)
mo = os.path.join(b, "vf_kernel_main.o")
f = FLAVORS["plain"]
rc, o = sh([f["cxx"], "-std=gnu++17", "-w"] + f["flags"].split() + ["-I" + os.path.join(b, "..", "mirror", "src"), "-I" + b, "-I" + os.path.join(b, "..", "mirror")] + llvm + ["-c", os.path.join(src, "oclgrind-kernel.cpp"), "-o", mo])
if rc: die("the kernel runner does not compile: " + o[-3000:])
rc, o = sh(["objcopy", "--redefine-sym", "main=kernel_runner_main", mo])
if rc: die("objcopy: " + o)
c.run(compile_harness(["checks/c24.cpp", mo] + rest, "plain", b, libs=("oclgrind-rt", "oclgrind", "LLVM-20"), extra=llvm), [b + "/include/oclgrind"], stall=100)
c.finish(rule="states: simulation files enumerated (type x base x value x position, ranges, every ordered selection of header tokens, every single-token corruption, every pair of separators, NDRange/group-size combinations); transitions: runs of the runner, each judged by the reference reader: a valid file must give exactly the reference dumps, a malformed one a message and a failure status; traces: the same runs")

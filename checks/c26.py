from vlib import *
import shutil, glob, re
c = Check("C26")
b = build("plain")
src = os.path.join(b, "..", "mirror", "src")
llvm = ["-I/usr/lib/llvm-20/include", "-L/usr/lib/llvm-20/lib", "-D__STDC_LIMIT_MACROS", "-D__STDC_CONSTANT_MACROS", "-D__STDC_FORMAT_MACROS"]
launcher = compile_harness([os.path.join(src, "runtime", "oclgrind.cpp")], "plain", b, out="launcher", libs=(), extra=['-DLIBDIR_SUFFIX=""'])
runner = compile_harness(sorted(glob.glob(src + "/kernel/*.cpp")), "plain", b, out="runner", libs=("oclgrind-rt", "oclgrind", "LLVM-20"), extra=llvm)
probe = compile_harness(["checks/c26probe.c"], "plain", b, out="c26probe", libs=(), extra=["-fPIC", "-fno-plt", "-Wl,-z,dynamic-undefined-weak"], cxx="gcc", plain=True)
shim = compile_harness(["checks/c26shim.c"], "plain", b, out="c26shim.so", libs=(), cxx="gcc", shared=True, plain=True)
pa = compile_harness(["checks/c26plug.cpp"], "plain", b, out="c26plugA.so", shared=True, extra=llvm + ["-fno-rtti"])
pb = compile_harness(["checks/c26plug.cpp"], "plain", b, out="c26plugB.so", shared=True, extra=llvm + ['-fno-rtti', '-DNAME="B"'])
# an installation tree as the install target lays it out, and one whose runtime is an empty library (cheap to start) for the runs that only look at arguments and environment
t = c.tmp + "/w"
for d in ("inst/bin", "inst/lib", "stub/bin", "stub/lib"): os.makedirs(t + "/" + d)
for d in ("inst", "stub"): shutil.copy(launcher, t + "/" + d + "/bin/oclgrind")
shutil.copy(runner, t + "/inst/bin/oclgrind-kernel")
for l in os.listdir(b):
    if l.endswith(".so") and l.startswith("lib"): os.symlink(os.path.join(b, l), t + "/inst/lib/" + l)
os.symlink(os.path.join(b, "include"), t + "/inst/include")
open(t + "/e.c", "w").write("int vf_stub;\n")
rc, o = sh(["gcc", "-shared", "-fPIC", t + "/e.c", "-o", t + "/stub/lib/liboclgrind-rt.so"])
shutil.copy(t + "/stub/lib/liboclgrind-rt.so", t + "/stub/extra.so")
if rc: die(o)
c.run(compile_harness(["checks/c26.cpp"], "plain", b), [t, probe, shim, pa, pb, b + "/include/oclgrind"], stall=100)
c.finish(rule="states: command lines enumerated (every option sequence up to the depth bound with every kind of value, argument vectors, exit statuses, installation paths, and every option with every other on a program exercising all features); transitions: launches; traces: launches whose arguments, environment, status and observed features were compared with the reference")

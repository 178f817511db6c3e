import os, sys; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import *
import c20gen, subprocess
c = Check("C21")
b = build("plain")
out = os.path.join(c.tmp, "ir")
n = c20gen.generate(out, c.tier == "thorough")
# a kernel whose groups each call f0..f4 (fi is called i+1 times) as bits of an argument say, in either order
NF = 5
ir = c20gen.HEAD + "".join("define internal spir_func void @f%d(ptr addrspace(1) %%a) noinline optnone {\nret void\n}\n" % i for i in range(NF))
ir += "define spir_kernel void @sub(ptr addrspace(1) %A, i32 %m, i32 %o)" + c20gen.MD.replace("!0", "!10").replace("!1 ", "!11 ").replace("!2", "!12").replace("!3", "!13") + " {\n%grp = call spir_func i64 @_Z12get_group_idj(i32 0)\n%g = trunc i64 %grp to i32\n%s = mul i32 %g, 5\n%h = lshr i32 %m, %s\n%c = icmp eq i32 %o, 0\nbr i1 %c, label %a0, label %b0\n"
for p, order in (("a", range(NF)), ("b", range(NF - 1, -1, -1))):
    for j, i in enumerate(order):
        ir += "%s%d:\n%%%sx%d = and i32 %%h, %d\n%%%sc%d = icmp ne i32 %%%sx%d, 0\nbr i1 %%%sc%d, label %%%st%d, label %%%s\n%st%d:\n" % (p, j, p, j, 1 << i, p, j, p, j, p, j, p, j, p + str(j + 1) if j < NF - 1 else "end", p, j)
        ir += ("call spir_func void @f%d(ptr addrspace(1) %%A)\n" % i) * (i + 1) + "br label %%%s\n" % (p + str(j + 1) if j < NF - 1 else "end")
ir += "end:\nret void\n}\n" + c20gen.TAIL + '!10 = !{i32 1, i32 0, i32 0}\n!11 = !{!"none", !"none", !"none"}\n!12 = !{!"int*", !"int", !"int"}\n!13 = !{!"", !"", !""}\n'
open(out + "/sub.ll", "w").write(ir)
subprocess.run([c20gen.LL + "llvm-as", out + "/sub.ll", "-o", out + "/sub.bc"], check=True)
exe = compile_harness(["checks/c21.cpp"], "plain", b)
inc = b + "/include/oclgrind"
for mode, th in (("k", "1"), ("k", "4"), ("sub", "1"), ("sub", "3")):
    c.run(exe, [inc, out, str(c20gen.NMOD), th, mode], label=mode + th)
c.finish(rule="a state is one generated kernel on one NDRange and thread count, one assignment of function subsets to work-groups, or one history of launches; transitions are the report lines compared with the instructions the kernel must execute", kernels=n)

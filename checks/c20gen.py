"""Generates the kernels of C20/C21 (SPIR bitcode) together with the record of the execution each of them must give:
one line per event of a work-item, written in terms of memory names and offsets."""
import itertools, os, subprocess, concurrent.futures as cf
LL = "/usr/lib/llvm-20/bin/"
HEAD = '''target datalayout = "e-i64:64-v16:16-v24:32-v32:32-v48:64-v96:128-v192:256-v256:256-v512:512-v1024:1024-n8:16:32:64"
target triple = "spir64-unknown-unknown"
%%S2 = type { i32, i32 }
@cg = internal addrspace(2) constant [4 x i32] [i32 305419896, i32 -559038737, i32 287454020, i32 1432778632], align 4
declare spir_func i64 @_Z13get_global_idj(i32)
declare spir_func i64 @_Z12get_local_idj(i32)
declare spir_func i64 @_Z12get_group_idj(i32)
declare spir_func void @_Z7barrierj(i32)
declare spir_func void @_Z9mem_fencej(i32)
declare spir_func i32 @_Z10atomic_addPU3AS1Vii(ptr addrspace(1), i32)
declare spir_func i32 @_Z11atomic_xchgPU3AS1Vii(ptr addrspace(1), i32)
declare spir_func i32 @_Z10atomic_maxPU3AS1Vii(ptr addrspace(1), i32)
declare spir_func i32 @_Z10atomic_incPU3AS3Vi(ptr addrspace(3))
declare spir_func i32 @_Z9atomic_orPU3AS3Vjj(ptr addrspace(3), i32)
declare spir_func i64 @_Z8atom_addPU3AS1Vll(ptr addrspace(1), i64)
declare spir_func i32 @_Z14atomic_cmpxchgPU3AS1Viii(ptr addrspace(1), i32, i32)
declare spir_func <4 x i32> @_Z6vload4mPU3AS1Ki(i64, ptr addrspace(1))
declare spir_func <3 x i32> @_Z6vload3mPU3AS1Ki(i64, ptr addrspace(1))
declare spir_func <2 x i8> @_Z6vload2mPU3AS3Kc(i64, ptr addrspace(3))
declare spir_func void @_Z7vstore4Dv4_imPU3AS1i(<4 x i32>, i64, ptr addrspace(1))
declare spir_func void @_Z7vstore3Dv3_imPU3AS1i(<3 x i32>, i64, ptr addrspace(1))
declare spir_func void @_Z7vstore2Dv2_cmPU3AS3c(<2 x i8>, i64, ptr addrspace(3))
declare spir_func float @_Z10vload_halfmPU3AS1KDh(i64, ptr addrspace(1))
declare spir_func void @_Z12vstore_half2Dv2_fmPU3AS1Dh(<2 x float>, i64, ptr addrspace(1))
declare spir_func target("spirv.Event") @_Z21async_work_group_copyPU3AS3iPU3AS1Kim9ocl_event(ptr addrspace(3), ptr addrspace(1), i64, target("spirv.Event"))
declare spir_func target("spirv.Event") @_Z21async_work_group_copyPU3AS1iPU3AS3Kim9ocl_event(ptr addrspace(1), ptr addrspace(3), i64, target("spirv.Event"))
declare spir_func target("spirv.Event") @_Z29async_work_group_strided_copyPU3AS3iPU3AS1Kimm9ocl_event(ptr addrspace(3), ptr addrspace(1), i64, i64, target("spirv.Event"))
declare spir_func target("spirv.Event") @_Z21async_work_group_copyPU3AS3Dv4_iPU3AS1KDv4_im9ocl_event(ptr addrspace(3), ptr addrspace(1), i64, target("spirv.Event"))
declare spir_func target("spirv.Event") @_Z29async_work_group_strided_copyPU3AS1Dv3_iPU3AS3KDv3_imm9ocl_event(ptr addrspace(1), ptr addrspace(3), i64, i64, target("spirv.Event"))
declare spir_func target("spirv.Event") @_Z21async_work_group_copyPU3AS3cPU3AS1Kcm9ocl_event(ptr addrspace(3), ptr addrspace(1), i64, target("spirv.Event"))
declare spir_func void @_Z17wait_group_eventsiP9ocl_event(i32, ptr)
declare void @llvm.memcpy.p1.p1.i64(ptr addrspace(1), ptr addrspace(1), i64, i1)
declare void @llvm.memcpy.p3.p1.i64(ptr addrspace(3), ptr addrspace(1), i64, i1)
declare void @llvm.memmove.p1.p1.i64(ptr addrspace(1), ptr addrspace(1), i64, i1)
declare void @llvm.memcpy.p0.p2.i64(ptr, ptr addrspace(2), i64, i1)
declare void @llvm.memset.p1.i64(ptr addrspace(1), i8, i64, i1)
declare void @llvm.memset.p3.i64(ptr addrspace(3), i8, i64, i1)
define internal spir_func i32 @fld(ptr addrspace(1) %%a) noinline {
%%v = load i32, ptr addrspace(1) %%a
ret i32 %%v
}
define internal spir_func void @fst(ptr addrspace(1) %%a, i32 %%x) noinline {
store i32 %%x, ptr addrspace(1) %%a
ret void
}
define internal spir_func i32 @fal(i32 %%x) noinline {
%%m = alloca i32
store i32 %%x, ptr %%m
%%v = load i32, ptr %%m
ret i32 %%v
}
define internal spir_func void @fnest(ptr addrspace(1) %%a) noinline {
%%m = alloca i32
store i32 9, ptr %%m
%%v = call spir_func i32 @fld(ptr addrspace(1) %%a)
call spir_func void @fst(ptr addrspace(1) %%a, i32 %%v)
%%w = load i32, ptr %%m
ret void
}
define internal spir_func i32 @fby(ptr byval(%%S2) align 4 %%s) noinline {
%%p = getelementptr %%S2, ptr %%s, i32 0, i32 1
%%v = load i32, ptr %%p
ret i32 %%v
}
'''.replace("%%", "%")
MD = " !kernel_arg_addr_space !0 !kernel_arg_access_qual !1 !kernel_arg_type !2 !kernel_arg_base_type !2 !kernel_arg_type_qual !3"
TAIL = '''
!0 = !{i32 1, i32 1, i32 3, i32 2}
!1 = !{!"none", !"none", !"none", !"none"}
!2 = !{!"int*", !"int*", !"int*", !"int*"}
!3 = !{!"", !"", !"", !"const"}
!opencl.spir.version = !{!4}
!4 = !{i32 1, i32 2}
'''
g, l, c = "ptr addrspace(1) %p", "ptr addrspace(3) %q", "ptr addrspace(2) %C"
V = lambda bs: "v" + bs   # literal bytes, hex
def hx(*ws): return "".join("".join("%02x" % (w >> (8 * i) & 255) for i in range(4)) for w in ws)
OPS = {}   # name -> (ir with @ for the unique suffix, [events])
def op(name, ir, *ev): OPS[name] = (ir, list(ev))
def G(off): return "%%o@ = getelementptr i8, %s, i64 %d\n" % (g, off)
SZ = {"i8": 1, "i16": 2, "i32": 4, "i64": 8, "float": 4, "double": 8, "<2 x i8>": 2, "<3 x i32>": 12, "<4 x i32>": 16, "<4 x float>": 16, "<8 x i16>": 16, "<2 x double>": 16}
for t, n in SZ.items():
    nm = t.replace("<", "").replace(">", "").replace(" x ", "x")
    op("ld." + nm, G(16) + "%%v@ = load %s, ptr addrspace(1) %%o@, align 1" % t, "I getelementptr", "L g 16 %d" % n, "I load r")
op("st.i8", G(5) + "store i8 77, ptr addrspace(1) %o@", "I getelementptr", "S g 5 v4d", "I store")
op("st.i32", G(8) + "store i32 %gi, ptr addrspace(1) %o@", "I getelementptr", "S g 8 gid4", "I store")
op("st.i64", G(24) + "store i64 %gid, ptr addrspace(1) %o@", "I getelementptr", "S g 24 gid8", "I store")
op("st.3xi32", G(32) + "store <3 x i32> <i32 1, i32 2, i32 3>, ptr addrspace(1) %o@, align 4", "I getelementptr", "S g 32 v" + hx(1, 2, 3), "I store")
op("st.4xi32", G(16) + "store <4 x i32> <i32 1, i32 2, i32 3, i32 4>, ptr addrspace(1) %o@, align 4", "I getelementptr", "S g 16 v" + hx(1, 2, 3, 4), "I store")
op("lst.i32", "store i32 %gi, " + l, "S l 0 gid4", "I store")
op("lld.i32", "%v@ = load i32, " + l, "L l 0 4", "I load r")
op("lld.4xi32", "%v@ = load <4 x i32>, " + l + ", align 4", "L l 0 16", "I load r")
op("cld", "%%v@ = load <2 x i32>, %s, align 4" % c, "L C 0 8", "I load r")
op("cgld", "%v@ = load i32, ptr addrspace(2) getelementptr inbounds ([4 x i32], ptr addrspace(2) @cg, i32 0, i32 2)", "L G:cg 8 4", "I load r")
op("alloca", "%m@ = alloca i64\nstore i64 %gid, ptr %m@\n%v@ = load i32, ptr %m@", "A m@ 8", "I alloca", "S P:m@ 0 gid8", "I store", "L P:m@ 0 4", "I load r")
op("alloca2", "%m@ = alloca [3 x i16]\n%n@ = alloca i8, i32 5\nstore i8 3, ptr %n@\nstore i16 %gs, ptr %m@", "A m@ 6", "I alloca", "A n@ 5", "I alloca", "S P:n@ 0 v03", "I store", "S P:m@ 0 gid2", "I store")
op("memcpy.gg", G(32) + "call void @llvm.memcpy.p1.p1.i64(ptr addrspace(1) %%o@, %s, i64 12, i1 false)" % g, "I getelementptr", "L g 0 12", "S g 32 m:g:0", "I call:llvm.memcpy.p1.p1.i64")
op("memcpy.lg", "call void @llvm.memcpy.p3.p1.i64(%s, %s, i64 16, i1 false)" % (l, g), "L g 0 16", "S l 0 m:g:0", "I call:llvm.memcpy.p3.p1.i64")
op("memmove", G(4) + "call void @llvm.memmove.p1.p1.i64(ptr addrspace(1) %%o@, %s, i64 16, i1 false)" % g, "I getelementptr", "L g 0 16", "S g 4 m:g:0", "I call:llvm.memmove.p1.p1.i64")
op("memcpy.pc", "%%m@ = alloca [16 x i8]\ncall void @llvm.memcpy.p0.p2.i64(ptr %%m@, %s, i64 16, i1 false)" % c, "A m@ 16", "I alloca", "L C 0 16", "S P:m@ 0 m:C:0", "I call:llvm.memcpy.p0.p2.i64")
op("memset.g", "call void @llvm.memset.p1.i64(%s, i8 -91, i64 20, i1 false)" % g, "S g 0 v" + "a5" * 20, "I call:llvm.memset.p1.i64")
op("memset.l", "call void @llvm.memset.p3.i64(%s, i8 7, i64 8, i1 false)" % l, "S l 0 v" + "07" * 8, "I call:llvm.memset.p3.i64")
def atom(nm, fn, ptr, t, args, opname, sp, val, ev=()): op(nm, "%%v@ = call spir_func %s @%s(%s%s)" % (t, fn, ptr, "".join(", %s %s" % (t, a) for a in args)), "AT %s %s 0 %d %s" % (opname, sp, 4 if t == "i32" else 8, " ".join(map(str, val))), "I call:%s r" % fn)
atom("at.add", "_Z10atomic_addPU3AS1Vii", g, "i32", ["5"], "add", "g", [5])
atom("at.xchg", "_Z11atomic_xchgPU3AS1Vii", g, "i32", ["%gi"], "xchg", "g", ["gid"])
atom("at.max", "_Z10atomic_maxPU3AS1Vii", g, "i32", ["1000"], "max", "g", [1000])
atom("at.linc", "_Z10atomic_incPU3AS3Vi", l, "i32", [], "inc", "l", [0])
atom("at.lor", "_Z9atomic_orPU3AS3Vjj", l, "i32", ["6"], "or", "l", [6])
atom("at.add64", "_Z8atom_addPU3AS1Vll", g, "i64", ["-3"], "add", "g", [-3])
op("at.cas.hit", "store i32 41, %s\n%%v@ = call spir_func i32 @_Z14atomic_cmpxchgPU3AS1Viii(%s, i32 41, i32 42)" % (g, g), "S g 0 v" + hx(41), "I store", "AT cmpxchg g 0 4 42 41", "I call:_Z14atomic_cmpxchgPU3AS1Viii r")
op("at.cas.miss", "store i32 40, %s\n%%v@ = call spir_func i32 @_Z14atomic_cmpxchgPU3AS1Viii(%s, i32 41, i32 42)" % (g, g), "S g 0 v" + hx(40), "I store", "AT cmpxchg g 0 4 42 41", "I call:_Z14atomic_cmpxchgPU3AS1Viii r")
op("vload4", "%%v@ = call spir_func <4 x i32> @_Z6vload4mPU3AS1Ki(i64 1, %s)" % g, "L g 16 16", "I call:_Z6vload4mPU3AS1Ki r")
op("vload3", "%%v@ = call spir_func <3 x i32> @_Z6vload3mPU3AS1Ki(i64 1, %s)" % g, "L g 12 12", "I call:_Z6vload3mPU3AS1Ki r")
op("vload2l", "%%v@ = call spir_func <2 x i8> @_Z6vload2mPU3AS3Kc(i64 3, %s)" % l, "L l 6 2", "I call:_Z6vload2mPU3AS3Kc r")
op("vstore4", "call spir_func void @_Z7vstore4Dv4_imPU3AS1i(<4 x i32> <i32 5, i32 6, i32 7, i32 8>, i64 1, %s)" % g, "S g 16 v" + hx(5, 6, 7, 8), "I call:_Z7vstore4Dv4_imPU3AS1i")
op("vstore3", "call spir_func void @_Z7vstore3Dv3_imPU3AS1i(<3 x i32> <i32 5, i32 6, i32 7>, i64 1, %s)" % g, "S g 12 v" + hx(5, 6, 7), "I call:_Z7vstore3Dv3_imPU3AS1i")
op("vstore2l", "call spir_func void @_Z7vstore2Dv2_cmPU3AS3c(<2 x i8> <i8 5, i8 6>, i64 2, %s)" % l, "S l 4 v0506", "I call:_Z7vstore2Dv2_cmPU3AS3c")
op("vload_half", "%%v@ = call spir_func float @_Z10vload_halfmPU3AS1KDh(i64 3, %s)" % g, "L g 6 2", "I call:_Z10vload_halfmPU3AS1KDh")
op("vstore_half2", "call spir_func void @_Z12vstore_half2Dv2_fmPU3AS1Dh(<2 x float> <float 1.0, float -2.0>, i64 2, %s)" % g, "S g 8 v003c00c0", "I call:_Z12vstore_half2Dv2_fmPU3AS1Dh")
op("fld", "%%v@ = call spir_func i32 @fld(%s)" % g, "I call:fld", "L g 0 4", "I load r", "I ret")
op("fst", "call spir_func void @fst(%s, i32 %%gi)" % g, "I call:fst", "S g 0 gid4", "I store", "I ret")
FAL = ["I call:fal", "A fm@ 4", "I alloca", "S P:fm@ 0 gid4", "I store", "L P:fm@ 0 4", "I load r", "D fm@", "I ret"]
op("fal", "%v@ = call spir_func i32 @fal(i32 %gi)", *FAL)
op("fal.twice", "%v@ = call spir_func i32 @fal(i32 %gi)\n%w@ = call spir_func i32 @fal(i32 %gi)", *(FAL + FAL))
op("fnest", "call spir_func void @fnest(%s)" % g, "I call:fnest", "A fn@ 4", "I alloca", "S P:fn@ 0 v09000000", "I store", "I call:fld", "L g 0 4", "I load r", "I ret", "I call:fst", "S g 0 m:g:0:4", "I store", "I ret", "L P:fn@ 0 4", "I load r", "D fn@", "I ret")
op("fby", "%m@ = alloca %S2\nstore i64 %gid, ptr %m@, align 4\n%v@ = call spir_func i32 @fby(ptr byval(%S2) align 4 %m@)", "A m@ 8", "I alloca", "S P:m@ 0 gid8", "I store", "A fb@ 8 P:m@", "I call:fby", "I getelementptr", "L P:fb@ 4 4", "I load r", "D fb@", "I ret")
op("fence", "call spir_func void @_Z9mem_fencej(i32 3)", "I call:_Z9mem_fencej")
op("arith", "%x@ = add i32 %gi, 5\n%y@ = mul i32 %x@, 3\n%z@ = icmp ugt i32 %y@, 17\n%w@ = select i1 %z@, i32 %x@, i32 %y@", "I add", "I mul", "I icmp", "I select")
op("loop", "br label %pre@\npre@:\nbr label %l@\nl@:\n%i@ = phi i32 [ 0, %pre@ ], [ %j@, %l@ ]\n%v@ = load i32, " + g + "\n%j@ = add i32 %i@, 1\n%c@ = icmp ult i32 %j@, 3\nbr i1 %c@, label %l@, label %d@\nd@:", *(["I br", "I br"] + ["I phi", "L g 0 4", "I load r", "I add", "I icmp", "I br"] * 3))
DIV = ["I and", "I icmp", "I br"]
op("odd", "%a@ = and i64 %gid, 1\n%c@ = icmp eq i64 %a@, 0\nbr i1 %c@, label %e@, label %o@\ne@:\n%v@ = load i32, " + g + "\nbr label %d@\no@:\ncall spir_func void @fst(" + g + ", i32 3)\nbr label %d@\nd@:", *(DIV + ["?gid&1=0 L g 0 4", "?gid&1=0 I load r", "?gid&1=1 I call:fst", "?gid&1=1 S g 0 v03000000", "?gid&1=1 I store", "?gid&1=1 I ret", "I br"]))
op("bygroup", "%a@ = and i64 %grp, 3\nswitch i64 %a@, label %d@ [ i64 0, label %x@\ni64 1, label %y@\ni64 2, label %z@ ]\nx@:\n%u@ = call spir_func i32 @fld(" + g + ")\nbr label %d@\ny@:\ncall spir_func void @fst(" + g + ", i32 8)\nbr label %d@\nz@:\n%w@ = call spir_func i32 @fal(i32 %gi)\ncall spir_func void @fst(" + g + ", i32 8)\nbr label %d@\nd@:",
   *(["I and", "I switch"] + ["?grp&3=0 " + e for e in ("I call:fld", "L g 0 4", "I load r", "I ret", "I br")] + ["?grp&3=1 " + e for e in ("I call:fst", "S g 0 v08000000", "I store", "I ret", "I br")] + ["?grp&3=2 " + e for e in FAL + ["I call:fst", "S g 0 v08000000", "I store", "I ret", "I br"]]))
for f in (1, 2, 3): op("bar%d" % f, "call spir_func void @_Z7barrierj(i32 %d)" % f, "I call:_Z7barrierj", "BAR %d" % f)
def acopy(nm, calls, copies):
    ir = "%e@ = alloca target(\"spirv.Event\")\n" + "".join("%%t%d@ = call spir_func target(\"spirv.Event\") @%s)\nstore target(\"spirv.Event\") %%t%d@, ptr %%e@\n" % (i, x, i) for i, x in enumerate(calls))
    ev = ["A e@ 8", "I alloca"]
    for i, x in enumerate(calls): ev += ["I call:" + x.split("(")[0], "S P:e@ 0 ?8", "I store"]
    ev += ["L P:e@ 0 8", "I call:_Z17wait_group_eventsiP9ocl_event"] + copies + ["BAR 3"]
    op(nm, ir + "call spir_func void @_Z17wait_group_eventsiP9ocl_event(i32 1, ptr %e@)", *ev)
N0 = "target(\"spirv.Event\") zeroinitializer"
acopy("async.gl", ["_Z21async_work_group_copyPU3AS3iPU3AS1Kim9ocl_event(ptr addrspace(3) %L, ptr addrspace(1) %B, i64 6, " + N0], ["GC L 0 B 0 4 6 1 1"])
acopy("async.lg", ["_Z21async_work_group_copyPU3AS1iPU3AS3Kim9ocl_event(ptr addrspace(1) %bg, ptr addrspace(3) %L, i64 4, " + N0], ["GC b 0 L 0 4 4 1 1"])
acopy("async.str", ["_Z29async_work_group_strided_copyPU3AS3iPU3AS1Kimm9ocl_event(ptr addrspace(3) %L, ptr addrspace(1) %B, i64 4, i64 3, " + N0], ["GC L 0 B 0 4 4 3 1"])
acopy("async.v4", ["_Z21async_work_group_copyPU3AS3Dv4_iPU3AS1KDv4_im9ocl_event(ptr addrspace(3) %L, ptr addrspace(1) %B, i64 3, " + N0], ["GC L 0 B 0 16 3 1 1"])
acopy("async.v3s", ["_Z29async_work_group_strided_copyPU3AS1Dv3_iPU3AS3KDv3_imm9ocl_event(ptr addrspace(1) %bg, ptr addrspace(3) %L, i64 2, i64 2, " + N0], ["GC b 0 L 0 16 2 1 2"])
acopy("async.c", ["_Z21async_work_group_copyPU3AS3cPU3AS1Kcm9ocl_event(ptr addrspace(3) %L, ptr addrspace(1) %B, i64 5, " + N0], ["GC L 0 B 0 1 5 1 1"])

PRE = ("%gid = call spir_func i64 @_Z13get_global_idj(i32 0)\n%lid = call spir_func i64 @_Z12get_local_idj(i32 0)\n%grp = call spir_func i64 @_Z12get_group_idj(i32 0)\n%go = mul i64 %gid, 64\n%p = getelementptr i8, ptr addrspace(1) %A, i64 %go\n%lo = mul i64 %lid, 32\n%q = getelementptr i8, ptr addrspace(3) %L, i64 %lo\n%gi = trunc i64 %gid to i32\n%gs = trunc i64 %gid to i16\n%b0 = mul i64 %grp, 64\n%bo = or i64 %b0, 512\n%bg = getelementptr i8, ptr addrspace(1) %B, i64 %bo\nstore <8 x i32> <i32 11, i32 12, i32 13, i32 14, i32 15, i32 16, i32 17, i32 18>, ptr addrspace(3) %q, align 4\n",
  ["I call:_Z13get_global_idj r=gid8", "I call:_Z12get_local_idj", "I call:_Z12get_group_idj", "I mul", "I getelementptr", "I mul", "I getelementptr", "I trunc r=gid4", "I trunc r=gid2", "I mul", "I or", "I getelementptr", "S l 0 v" + hx(*range(11, 19)), "I store"])

def seqs(thorough):
    names = list(OPS)
    yield ()
    for a in names: yield (a,)
    core = ["ld.i32", "ld.3xi32", "st.i32", "lst.i32", "lld.4xi32", "alloca", "memcpy.gg", "at.add", "at.cas.miss", "vload3", "fal", "fnest", "fby", "loop", "odd", "bygroup", "bar1", "bar2", "async.gl", "async.str", "async.lg"]
    for a, b in itertools.product(names, names):
        if thorough or (a in core and b in core) or a == b: yield (a, b)
    c3 = ["st.i32", "lst.i32", "fal", "bar1", "bar2", "async.gl", "async.lg", "odd", "alloca", "bygroup"]
    for t in itertools.product(c3, repeat=3):
        if thorough or any(x.startswith(("bar", "async")) for x in t): yield t
NMOD = 16
def generate(out, thorough):
    os.makedirs(out, exist_ok=True)
    ks = list(dict.fromkeys(seqs(thorough)))
    def kernel(i, s):
        ir = "".join(OPS[o][0].replace("@ ", str(k) + " ") if 0 else sub(OPS[o][0], k) + "\n" for k, o in enumerate(s))
        return "define spir_kernel void @k%d(ptr addrspace(1) %%A, ptr addrspace(1) %%B, ptr addrspace(3) %%L, ptr addrspace(2) %%C)%s {\n%s%sret void\n}\n" % (i, MD, PRE[0], ir)
    def sub(t, k):   # names end in @, function names start with it
        import re
        return re.sub(r"(?<=[A-Za-z0-9])@", "_%d" % k, t)
    def module(m):
        p = os.path.join(out, "m%d" % m)
        open(p + ".ll", "w").write(HEAD + "".join(kernel(i, ks[i]) for i in range(m, len(ks), NMOD)) + TAIL)
        r = subprocess.run([LL + "llvm-as", p + ".ll", "-o", p + ".bc"], capture_output=True, text=True)
        if r.returncode: raise SystemExit("c20gen: " + r.stderr[:2000])
    with cf.ThreadPoolExecutor(8) as ex: list(ex.map(module, range(NMOD)))
    with open(os.path.join(out, "script"), "w") as f:
        for i, s in enumerate(ks):
            f.write("K %s\n" % ("+".join(s) or "empty"))
            for e in PRE[1]: f.write(e + "\n")
            for k, o in enumerate(s):
                for e in OPS[o][1]: f.write(e.replace("@", "_%d" % k) + "\n")
            f.write("I ret\n")
    return len(ks)
if __name__ == "__main__":
    import sys, time; t = time.time(); print(generate("/tmp/c20", "--thorough" in sys.argv), time.time() - t)

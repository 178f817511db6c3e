"""IR kernels for C08 that no OpenCL C source gives: aggregates in registers, array allocas, every constant shuffle, memory intrinsics
of every length and alignment. Next to each kernel the words of p that each word of o depends on."""
import os, subprocess, itertools, c20gen
LL = c20gen.LL
HEAD = '''target datalayout = "e-i64:64-v16:16-v24:32-v32:32-v48:64-v96:128-v192:256-v256:256-v512:512-v1024:1024-n8:16:32:64"
target triple = "spir64-unknown-unknown"
declare void @llvm.memcpy.p0.p0.i64(ptr, ptr, i64, i1)
declare void @llvm.memmove.p0.p0.i64(ptr, ptr, i64, i1)
declare void @llvm.memset.p0.i64(ptr, i8, i64, i1)
declare void @llvm.memcpy.p1.p0.i64(ptr addrspace(1), ptr, i64, i1)
declare void @llvm.memcpy.p0.p1.i64(ptr, ptr addrspace(1), i64, i1)
%A = type { i8, i32, [2 x i32], { i16, i64 } }
define internal spir_func %A @pass(%A %x, i32 %y) noinline optnone {
%r = insertvalue %A %x, i32 %y, 2, 0
ret %A %r
}
'''
MD = " !kernel_arg_addr_space !0 !kernel_arg_access_qual !1 !kernel_arg_type !2 !kernel_arg_base_type !2 !kernel_arg_type_qual !3"
TAIL = '''!0 = !{i32 1, i32 1, i32 1, i32 3, i32 0}
!1 = !{!"none", !"none", !"none", !"none", !"none"}
!2 = !{!"int*", !"int*", !"int*", !"int*", !"int"}
!3 = !{!"", !"", !"", !"", !""}
!opencl.spir.version = !{!4}
!4 = !{i32 1, i32 2}
'''
LEAF = [("0", "i8"), ("1", "i32"), ("2, 0", "i32"), ("2, 1", "i32"), ("3, 0", "i16"), ("3, 1", "i64")]
CONST = "{ i8 1, i32 2, [2 x i32] [i32 3, i32 4], { i16, i64 } { i16 5, i64 6 } }"

def generate(out, thorough):
    os.makedirs(out, exist_ok=True)
    ks = []; cnt = [0]
    def t():
        cnt[0] += 1; return "%%t%d" % cnt[0]
    def ld(i, body, ptr="%p"):
        a, v = t(), t(); body.append("%s = getelementptr i32, ptr addrspace(1) %s, i64 %d\n%s = load i32, ptr addrspace(1) %s, align 4" % (a, ptr, i, v, a)); return v
    def st(i, v, body):
        a = t(); body.append("%s = getelementptr i32, ptr addrspace(1) %%o, i64 %d\nstore volatile i32 %s, ptr addrspace(1) %s, align 4" % (a, i, v, a))
    def conv(v, ty, to, body):
        if ty == to: return v
        w = {"i8": 8, "i16": 16, "i32": 32, "i64": 64}; r = t(); body.append("%s = %s %s %s to %s" % (r, "sext" if w[to] > w[ty] else "trunc", ty, v, to)); return r
    def add(name, body, deps): ks.append((name, "\n".join(body), deps))
    def unpack(agg, deps, body, name):
        for k, (ix, ty) in enumerate(LEAF):
            e = t(); body.append("%s = extractvalue %%A %s, %s" % (e, agg, ix)); st(k, conv(e, ty, "i32", body), body)
        add(name, body, deps)
    def ins(agg, leaf, v, body):
        ix, ty = LEAF[leaf]; r = t(); body.append("%s = insertvalue %%A %s, %s %s, %s" % (r, agg, ty, conv(v, "i32", ty, body), ix)); return r
    # aggregates in registers: every pair of inserted leaves, then passed on in every way
    for a in range(6):
        for b in range(6):
            for how in ("", "pass", "mem", "sel", "sub", "phi"):
                if how and not thorough and (a * 6 + b) % 5 != 0: continue
                body = []; d = [0] * 6; agg = CONST
                for leaf, pi in ((a, 0), (b, 1)): agg = ins(agg, leaf, ld(pi, body), body); d[leaf] = 1 << pi
                if how == "pass": r = t(); body.append("%s = call spir_func %%A @pass(%%A %s, i32 %s)" % (r, agg, ld(2, body))); agg = r; d[2] = 4
                elif how == "mem": m, r = t(), t(); body.append("%s = alloca %%A, align 8\nstore %%A %s, ptr %s, align 8\n%s = load %%A, ptr %s, align 8" % (m, agg, m, r, m)); agg = r
                elif how == "sel":
                    other = ins(CONST, 5, ld(3, body), body); c, r = t(), t(); body.append("%s = icmp eq i32 %%two, 2\n%s = select i1 %s, %%A %s, %%A %s" % (c, r, c, agg, other)); agg = r
                elif how == "sub":
                    s, r = t(), t(); body.append("%s = extractvalue %%A %s, 2\n%s = insertvalue %%A %s, [2 x i32] %s, 2" % (s, agg, r, CONST, s)); agg = r; d = [0, 0, d[2], d[3], 0, 0]
                elif how == "phi":
                    other = ins(CONST, 0, ld(3, body), body); c, r = t(), t(); n = len(ks); body.append("%s = icmp eq i32 %%two, 2\nbr i1 %s, label %%x%d, label %%y%d\nx%d:\nbr label %%z%d\ny%d:\nbr label %%z%d\nz%d:\n%s = phi %%A [ %s, %%x%d ], [ %s, %%y%d ]" % (c, c, n, n, n, n, n, n, n, r, agg, n, other, n)); agg = r
                unpack(agg, d, body, "agg_%d_%d%s" % (a, b, how and "_" + how))
    # every constant shuffle of two-element vectors into one to three elements, a sample of wider ones
    masks = [m for n in (1, 2, 3) for m in itertools.product(range(4), repeat=n)]
    for m in masks if thorough else [m for m in masks if len(m) < 3] + [m for i, m in enumerate(masks) if len(m) == 3 and i % 3 == 0]:
        body = []; vs = []
        for k in (0, 2):
            x, y = t(), t(); body.append("%s = getelementptr i32, ptr addrspace(1) %%p, i64 %d\n%s = load <2 x i32>, ptr addrspace(1) %s, align 8" % (x, k, y, x)); vs.append(y)
        r = t(); body.append("%s = shufflevector <2 x i32> %s, <2 x i32> %s, <%d x i32> <%s>" % (r, vs[0], vs[1], len(m), ", ".join("i32 %d" % x for x in m)))
        for k in range(len(m)): e = t(); body.append("%s = extractelement <%d x i32> %s, i32 %d" % (e, len(m), r, k)); st(k, e, body)
        add("shuf_" + "".join(map(str, m)), body, [1 << x for x in m])
    for m in itertools.product((0, 3, 4, 7), repeat=2):
        body = []; x, y, r = t(), t(), t(); body.append("%s = load <4 x i32>, ptr addrspace(1) %%p, align 16\n%s = load <4 x i32>, ptr addrspace(1) %%q, align 16\n%s = shufflevector <4 x i32> %s, <4 x i32> %s, <2 x i32> <i32 %d, i32 %d>" % (x, y, r, x, y, m[0], m[1]))
        for k in range(2): e = t(); body.append("%s = extractelement <2 x i32> %s, i32 %d" % (e, r, k)); st(k, e, body)
        add("shufq_%d_%d" % m, body, [1 << x if x < 4 else 0 for x in m])
    # array allocas, written in part
    for ty, n in (("i32", "%two"), ("i32", "4"), ("<2 x i32>", "%two"), ("[2 x i32]", "%two")):
        for w in range(4):
            words = 4 if ty != "i32" or n == "4" else 2
            if w >= words: continue
            body = []; a, g = t(), t(); body.append("%s = alloca %s, i32 %s, align 8" % (a, ty, n)); v = ld(w, body); body.append("%s = getelementptr i32, ptr %s, i64 %d\nstore i32 %s, ptr %s, align 4" % (g, a, w, v, g))
            for k in range(words): x, y = t(), t(); body.append("%s = getelementptr i32, ptr %s, i64 %d\n%s = load i32, ptr %s, align 4" % (x, a, k, y, x)); st(k, y, body)
            add("alloca_%d_%d" % (len(ks), w), body, [1 << w if k == w else -1 for k in range(words)])
    # memory intrinsics: every length and both alignments
    def frame(body, name, fill=True):
        a = t(); body.append("%s = alloca [4 x i32], align 8" % a)
        if fill: body.append("call void @llvm.memset.p0.i64(ptr %s, i8 0, i64 16, i1 false)" % a)
        return a
    def out4(a, body):
        for k in range(4): x, y = t(), t(); body.append("%s = getelementptr i32, ptr %s, i64 %d\n%s = load i32, ptr %s, align 4" % (x, a, k, y, x)); st(k, y, body)
    for op in ("memcpy.p0.p0", "memmove.p0.p0", "memcpy.p0.p1"):
        for n in range(0, 13):
            for do, so in ((0, 0), (1, 0), (0, 3), (2, 1)):
                if not thorough and op != "memcpy.p0.p0" and (n + do + so) % 3: continue
                body = []; dst = frame(body, "d"); d, s = t(), t()
                if op == "memcpy.p0.p1": body.append("%s = getelementptr i8, ptr addrspace(1) %%p, i64 %d" % (s, so))
                else:
                    src = frame(body, "s", False); body.append("call void @llvm.memcpy.p0.p1.i64(ptr %s, ptr addrspace(1) %%p, i64 16, i1 false)\n%s = getelementptr i8, ptr %s, i64 %d" % (src, s, src, so))
                body.append("%s = getelementptr i8, ptr %s, i64 %d\ncall void @llvm.%s.i64(ptr %s, ptr %s%s, i64 %d, i1 false)" % (d, dst, do, op, d, "addrspace(1) " if op == "memcpy.p0.p1" else "", s, n))
                dep = [0] * 4
                for i in range(n): dep[(do + i) // 4] |= 1 << (so + i) // 4
                out4(dst, body); add("%s_%d_%d_%d" % (op.replace(".", "_"), n, do, so), body, dep)
    for n in range(0, 14):
        for do in (0, 1, 2):
            body = []; dst = frame(body, "d"); d = t(); v = conv(ld(1, body), "i32", "i8", body); body.append("%s = getelementptr i8, ptr %s, i64 %d\ncall void @llvm.memset.p0.i64(ptr %s, i8 %s, i64 %d, i1 false)" % (d, dst, do, d, v, n))
            dep = [0] * 4
            for i in range(n): dep[(do + i) // 4] = 2
            out4(dst, body); add("memset_%d_%d" % (n, do), body, dep)
    # a clean fill of an unwritten array
    for n in range(0, 17, 1 if thorough else 3):
        body = []; dst = frame(body, "d", False); body.append("call void @llvm.memset.p0.i64(ptr %s, i8 3, i64 %d, i1 false)" % (dst, n)); out4(dst, body); add("fill_%d" % n, body, [-1 if n < 4 * k + 4 else 0 for k in range(4)])
    # vector elements at variable positions, selection and comparison of lanes
    for k in range(4):
        body = []; x, i, r2 = t(), t(), t(); v = ld(k, body); body.append("%s = load <4 x i32>, ptr addrspace(1) %%q, align 16\n%s = add i32 %%two, %d\n%s = insertelement <4 x i32> %s, i32 %s, i32 %s" % (x, i, k - 2, r2, x, v, i))
        for j in range(4): e = t(); body.append("%s = extractelement <4 x i32> %s, i32 %d" % (e, r2, j)); st(j, e, body)
        add("inse_%d" % k, body, [1 << k if j == k else 0 for j in range(4)])
        body = []; x, i, e = t(), t(), t(); body.append("%s = load <4 x i32>, ptr addrspace(1) %%p, align 16\n%s = add i32 %%two, %d\n%s = extractelement <4 x i32> %s, i32 %s" % (x, i, k - 2, e, x, i)); st(0, e, body); add("exte_%d" % k, body, [1 << k])
    for two in (0, 1):
        body = []; x, y, c, s = t(), t(), t(), t(); body.append("%s = load <2 x i32>, ptr addrspace(1) %%p, align 8\n%s = getelementptr i32, ptr addrspace(1) %%p, i64 2" % (x, y)); z = t(); body.append("%s = load <2 x i32>, ptr addrspace(1) %s, align 8\n%s = icmp eq i32 %%two, %d\n%s = select i1 %s, <2 x i32> %s, <2 x i32> %s" % (z, y, c, 2 + two, s, c, x, z))
        for j in range(2): e = t(); body.append("%s = extractelement <2 x i32> %s, i32 %d" % (e, s, j)); st(j, e, body)
        add("selv_%d" % two, body, [1 << (j + 2 * two) for j in range(2)])
    with open(os.path.join(out, "k.ll"), "w") as f:
        f.write(HEAD)
        for name, body, d in ks: f.write("define spir_kernel void @%s(ptr addrspace(1) %%p, ptr addrspace(1) %%q, ptr addrspace(1) %%o, ptr addrspace(3) %%l, i32 %%two)%s {\n%s\nret void\n}\n" % (name, MD, body))
        f.write(TAIL)
    with open(os.path.join(out, "k.txt"), "w") as f:
        for name, body, d in ks: f.write(name + " " + " ".join(map(str, d)) + "\n")
    subprocess.run([LL + "llvm-as", out + "/k.ll", "-o", out + "/k.bc"], check=True)
    return len(ks)
if __name__ == "__main__": print(generate("/tmp/c08ir", False))

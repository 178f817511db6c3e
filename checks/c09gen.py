"""Generates LLVM IR kernels for C09: every case exists once as a SPIR module (interpreted by Oclgrind) and once as
host code compiled from the same text by llc (the reference)."""
import itertools, os, subprocess, concurrent.futures as cf
LL = "/usr/lib/llvm-20/bin/"
NMOD = 16
INTS = ["i8", "i16", "i32", "i64"]; FLTS = ["float", "double"]; W = [1, 2, 3, 4, 8, 16]
BITS = dict(i1=1, i8=8, i16=16, i32=32, i64=64, float=32, double=64)
def T(t, n=1): return t if n == 1 else "<%d x %s>" % (n, t)
def splat(t, n, vs):
    """constant of type T(t,n) whose lane i is vs[i % len(vs)]"""
    if n == 1: return str(vs[0])
    return "<" + ", ".join("%s %s" % (t, vs[i % len(vs)]) for i in range(n)) + ">"
FH = {"0.0": "0x0000000000000000", "-0.0": "0x8000000000000000", "1.5": "0x3FF8000000000000", "inf": "0x7FF0000000000000", "nan": "0x7FF8000000000000", "-3.25": "0xC00A000000000000"}
MX = {"i8": "v4i8"}
def mang(t, n=1): return ("" if n == 1 else "v%d" % n) + {"float": "f32", "double": "f64"}.get(t, t)

cases = []   # (name, ins [(type, lanes, table)], out (type, lanes), body, decls)
def case(name, ins, out, body, decls=(), globs=""):
    cases.append((name, ins, out, body, decls, globs))

def instructions(thorough):
    # ---- integer arithmetic and logic
    guard = lambda ty, t, n: ("%%m1 = icmp eq %s %%b, %s\n%%m2 = icmp eq %s %%a, %s\n%%m3 = and %s %%m1, %%m2\n%%d = select %s %%m3, %s %s, %s %%b\n" %
        (ty, splat(t, n, [-1]), ty, splat(t, n, [-(1 << (BITS[t] - 1))]), T("i1", n), T("i1", n), ty, splat(t, n, [1]), ty))
    for op in ["add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "udiv", "sdiv", "urem", "srem"]:
        for t in INTS:
            for n in W:
                ty = T(t, n); tb = "sh" if "sh" in op else "nz" if op[1:] in ("div", "rem") else "all"
                if op in ("sdiv", "srem"): body = guard(ty, t, n) + "%%r = %s %s %%a, %%d" % (op, ty)
                else: body = "%%r = %s %s %%a, %%b" % (op, ty)
                case("%s.%s" % (op, mang(t, n)), [(t, n, "all"), (t, n, tb)], (t, n), body)
                for k, vs in enumerate([[1, 2, 3, 5], [-1], [0, -1], [7, 0, 6, 1]] if n in (1, 4) or thorough else []):
                    if not (k == 0 and "sh" in op) and not ("sh" in op and k == 3):
                        if "sh" in op: pass
                        elif op[1:] in ("div", "rem") and 0 in vs: pass
                        elif op in ("sdiv", "srem"): case("%s.%s.c%d" % (op, mang(t, n), k), [(t, n, "nomin")], (t, n), "%%r = %s %s %%a, %s" % (op, ty, splat(t, n, vs)))
                        else: case("%s.%s.c%d" % (op, mang(t, n), k), [(t, n, "all")], (t, n), "%%r = %s %s %%a, %s" % (op, ty, splat(t, n, vs)))
                    else: case("%s.%s.c%d" % (op, mang(t, n), k), [(t, n, "all")], (t, n), "%%r = %s %s %%a, %s" % (op, ty, splat(t, n, vs)))
                    if op in ("sub", "shl", "lshr", "ashr", "udiv", "urem"):
                        case("%s.c%d.%s" % (op, k, mang(t, n)), [(t, n, tb)], (t, n), "%%r = %s %s %s, %%a" % (op, ty, splat(t, n, vs)))
    # ---- comparisons; the boolean is consumed in each way the compiler consumes it
    def consume(pre, n, out):
        b = T("i1", n); o = T("i32", n)
        yield "sel", "%%r = select %s %%q, %s %s, %s %s" % (b, o, splat("i32", n, [7]), o, splat("i32", n, [9]))
        yield "zext", "%%r = zext %s %%q to %s" % (b, o)
        yield "sext", "%%r = sext %s %%q to %s" % (b, o)
        yield "not", "%%z = xor %s %%q, %s\n%%r = zext %s %%z to %s" % (b, splat("i1", n, ["true"]), b, o)
        yield "notsel", "%%z = xor %s %%q, %s\n%%r = select %s %%z, %s %s, %s %s" % (b, splat("i1", n, ["true"]), b, o, splat("i32", n, [7]), o, splat("i32", n, [9]))
        yield "fp", "%%z = uitofp %s %%q to %s\n%%r = bitcast %s %%z to %s" % (b, T("float", n), T("float", n), o)
        yield "sfp", "%%z = sitofp %s %%q to %s\n%%r = bitcast %s %%z to %s" % (b, T("float", n), T("float", n), o)
        yield "mix", "%%z = and %s %%q, %s\n%%r = sext %s %%z to %s" % (b, splat("i1", n, ["true", "false"]), b, o)
        yield "cmp", "%%z = icmp eq %s %%q, %s\n%%r = zext %s %%z to %s" % (b, splat("i1", n, ["true", "false"]), b, o)
        yield "eqself", "%%z = icmp ult %s %%q, %s\n%%r = sext %s %%z to %s" % (b, splat("i1", n, ["true"]), b, o)
    for p in ["eq", "ne", "ugt", "uge", "ult", "ule", "sgt", "sge", "slt", "sle"]:
        for t in INTS:
            for n in W:
                for how, c in consume("", n, None):
                    if how != "sel" and not (t == "i32" and p in ("eq", "slt")): continue
                    case("icmp.%s.%s.%s" % (p, mang(t, n), how), [(t, n, "all"), (t, n, "all")], ("i32", n), "%%q = icmp %s %s %%a, %%b\n" % (p, T(t, n)) + c)
                if n in (1, 4): case("icmp.%s.%s.const" % (p, mang(t, n)), [(t, n, "all")], ("i8", n), "%%q = icmp %s %s %%a, %s\n%%r = zext %s %%q to %s" % (p, T(t, n), splat(t, n, [5, -1, 0, 1]), T("i1", n), T("i8", n)))
    for p in ["false", "oeq", "ogt", "oge", "olt", "ole", "one", "ord", "ueq", "ugt", "uge", "ult", "ule", "une", "uno", "true"]:
        for t in FLTS:
            for n in W:
                for how, c in consume("", n, None):
                    if how not in ("sel", "zext") and not (t == "float" and p == "olt"): continue
                    case("fcmp.%s.%s.%s" % (p, mang(t, n), how), [(t, n, "all"), (t, n, "all")], ("i32", n), "%%q = fcmp %s %s %%a, %%b\n" % (p, T(t, n)) + c)
    # ---- boolean logic, including booleans made by truncation
    for n in W:
        b = T("i1", n); i8 = T("i8", n)
        for how in ("trunc", "ne"):
            mk = lambda x, v: "%%%s = trunc %s %%%s to %s\n" % (x, i8, v, b) if how == "trunc" else "%%%s = icmp ne %s %%%s, %s\n" % (x, i8, v, splat("i8", n, [0]))
            for op in ["and", "or", "xor", "add", "sub", "mul", "icmp eq", "icmp ne", "icmp ugt", "icmp uge", "icmp ult", "icmp ule", "icmp sgt", "icmp slt", "icmp sge", "icmp sle"]:
                for how2, c in list(consume("", n, None))[:4 if n in (1, 4) else 3]:
                    case("bool.%s.%s.%s.%s" % (how, op.replace(" ", ""), mang("i1", n), how2), [("i8", n, "few"), ("i8", n, "few")], ("i32", n), mk("x", "a") + mk("y", "b") + "%%q = %s %s %%x, %%y\n" % (op, b) + c)
            case("bool.%s.sel.%s" % (how, mang("i1", n)), [("i8", n, "few"), ("i8", n, "few"), ("i8", n, "few")], ("i32", n), mk("x", "a") + mk("y", "b") + mk("w", "c") + "%%q = select %s %%x, %s %%y, %s %%w\n%%r = sext %s %%q to %s" % (b, b, b, b, T("i32", n)))
            case("bool.%s.store.%s" % (how, mang("i1", n)), [("i8", n, "all")], ("i8", n), mk("x", "a") + "%%r = zext %s %%x to %s" % (b, i8))
            if n == 1:
                case("bool.%s.mem" % how, [("i8", 1, "all")], ("i8", 1), "%m = alloca i1\n" + mk("x", "a") + "store i1 %x, ptr %m\n%y = load i1, ptr %m\n%z = load i8, ptr %m\n%s = zext i1 %y to i8\n%r = add i8 %s, %z")
                case("bool.%s.br" % how, [("i8", 1, "all")], ("i8", 1), mk("x", "a") + "br i1 %x, label %t, label %f\nt:\nbr label %e\nf:\nbr label %e\ne:\n%r = phi i8 [ 3, %t ], [ 5, %f ]")
                case("bool.%s.switch" % how, [("i8", 1, "all")], ("i8", 1), mk("x", "a") + "switch i1 %x, label %t [ i1 true, label %f ]\nt:\nbr label %e\nf:\nbr label %e\ne:\n%r = phi i8 [ 3, %t ], [ 5, %f ]")
                case("bool.%s.gep" % how, [("i8", 1, "all")], ("i64", 1), mk("x", "a") + "%m = alloca [4 x i16]\n%i = zext i1 %x to i64\n%p = getelementptr i16, ptr %m, i64 %i\n%u = ptrtoint ptr %p to i64\n%v = ptrtoint ptr %m to i64\n%r = sub i64 %u, %v")
        for t in INTS:
            if t != "i8": case("trunc.%s.i1" % mang(t, n), [(t, n, "all")], ("i32", n), "%%q = trunc %s %%a to %s\n%%r = select %s %%q, %s %s, %s %s" % (T(t, n), b, b, T("i32", n), splat("i32", n, [3]), T("i32", n), splat("i32", n, [4])))
    # ---- conversions
    for f, t in itertools.product(INTS, INTS):
        for n in W:
            if BITS[f] > BITS[t]: case("trunc.%s.%s" % (mang(f, n), t), [(f, n, "all")], (t, n), "%%r = trunc %s %%a to %s" % (T(f, n), T(t, n)))
            if BITS[f] < BITS[t]:
                for op in ("zext", "sext"): case("%s.%s.%s" % (op, mang(f, n), t), [(f, n, "all")], (t, n), "%%r = %s %s %%a to %s" % (op, T(f, n), T(t, n)))
    for f in FLTS:
        for n in W:
            for t in INTS:
                for op, tb in (("fptosi", "s" + t), ("fptoui", "u" + t)): case("%s.%s.%s" % (op, mang(f, n), t), [(f, n, tb)], (t, n), "%%r = %s %s %%a to %s" % (op, T(f, n), T(t, n)))
                for op in ("sitofp", "uitofp"): case("%s.%s.%s" % (op, mang(t, n), f), [(t, n, "all")], (f, n), "%%r = %s %s %%a to %s" % (op, T(t, n), T(f, n)))
    for n in W:
        case("fpext.%s" % mang("float", n), [("float", n, "all")], ("double", n), "%%r = fpext %s %%a to %s" % (T("float", n), T("double", n)))
        case("fptrunc.%s" % mang("double", n), [("double", n, "all")], ("float", n), "%%r = fptrunc %s %%a to %s" % (T("double", n), T("float", n)))
        for t in INTS + FLTS:
            for u in INTS + FLTS:
                k = n * BITS[t] // BITS[u]
                if t != u and n * BITS[t] == k * BITS[u] and k in W: case("bitcast.%s.%s" % (mang(t, n), mang(u, k)), [(t, n, "all")], (u, k), "%%r = bitcast %s %%a to %s" % (T(t, n), T(u, k)))
    # ---- floating point
    for t in FLTS:
        for n in W:
            ty = T(t, n)
            for op in ("fadd", "fsub", "fmul", "fdiv", "frem"):
                case("%s.%s" % (op, mang(t, n)), [(t, n, "all"), (t, n, "all")], (t, n), "%%r = %s %s %%a, %%b" % (op, ty))
                if n in (1, 4):
                    for k, vs in enumerate([["1.5", "-3.25"], ["0.0", "inf"], ["-0.0"], ["nan", "1.5", "0.0", "inf"]]):
                        c = splat(t, n, [FH[v] for v in vs]); case("%s.%s.c%d" % (op, mang(t, n), k), [(t, n, "all")], (t, n), "%%r = %s %s %%a, %s" % (op, ty, c)); case("%s.c%d.%s" % (op, k, mang(t, n)), [(t, n, "all")], (t, n), "%%r = %s %s %s, %%a" % (op, ty, c))
            case("fneg.%s" % mang(t, n), [(t, n, "all")], (t, n), "%%r = fneg %s %%a" % ty)
    # ---- selection and vector shuffling
    for t in INTS + FLTS:
        for n in W:
            ty = T(t, n)
            case("select.%s" % mang(t, n), [(t, n, "few"), (t, n, "few"), ("i8", 1, "few")], (t, n), "%%q = icmp sgt i8 %%c, 1\n%%r = select i1 %%q, %s %%a, %s %%b" % (ty, ty))
            case("vselect.%s" % mang(t, n), [(t, n, "few"), (t, n, "few"), ("i8", n, "few")], (t, n), "%%q = icmp sgt %s %%c, %s\n%%r = select %s %%q, %s %%a, %s %%b" % (T("i8", n), splat("i8", n, [1]), T("i1", n), ty, ty))
            case("freeze.%s" % mang(t, n), [(t, n, "all")], (t, n), "%%r = freeze %s %%a" % ty)
            if n == 1: continue
            case("cselect.%s" % mang(t, n), [(t, n, "few"), (t, n, "few")], (t, n), "%%r = select %s %s, %s %%a, %s %%b" % (T("i1", n), splat("i1", n, ["true", "false", "false"]), ty, ty))
            for i in range(n):
                if n > 4 and i not in (0, 1, 5, n - 1): continue
                case("extract.%s.%d" % (mang(t, n), i), [(t, n, "all")], (t, 1), "%%r = extractelement %s %%a, i32 %d" % (ty, i))
                case("insert.%s.%d" % (mang(t, n), i), [(t, n, "few"), (t, 1, "all")], (t, n), "%%r = insertelement %s %%a, %s %%b, i64 %d" % (ty, t, i))
            m = n - 1 if n != 3 else 1
            for it in ("i8", "i32", "i64"):
                case("extractv.%s.%s" % (mang(t, n), it), [(t, n, "few"), (it, 1, "all")], (t, 1), "%%i = and %s %%b, %d\n%%r = extractelement %s %%a, %s %%i" % (it, m, ty, it))
                case("insertv.%s.%s" % (mang(t, n), it), [(t, n, "few"), (it, 1, "all"), (t, 1, "few")], (t, n), "%%i = and %s %%b, %d\n%%r = insertelement %s %%a, %s %%c, %s %%i" % (it, m, ty, t, it))
            case("build.%s" % mang(t, n), [(t, 1, "all"), (t, 1, "few")], (t, n), "\n".join("%%v%d = insertelement %s %s, %s %%%s, i32 %d" % (i, ty, "poison" if i == 0 else "%%v%d" % (i - 1), t, "ab"[i % 2], i) for i in range(n)) + "\n%%r = freeze %s %%v%d" % (ty, n - 1))
    def shuf(t, n, mask, tag, second="%b"):
        ins = [(t, n, "all")] + ([(t, n, "all")] if second == "%b" else [])
        case("shuffle.%s.%s" % (mang(t, n), tag), ins, (t, len(mask)), "%%r = shufflevector %s %%a, %s %s, <%d x i32> <%s>" % (T(t, n), T(t, n), second, len(mask), ", ".join("i32 %d" % x for x in mask)))
    for m in itertools.product(range(4), repeat=2): shuf("i32", 2, m, "".join(map(str, m))); shuf("double", 2, m, "".join(map(str, m)))
    for m in itertools.product(range(4), repeat=3): shuf("i16", 2, m, "".join(map(str, m)))
    for m in itertools.product(range(6), repeat=2): shuf("i8", 3, m, "".join(map(str, m)))
    if thorough:
        for m in itertools.product(range(6), repeat=3): shuf("i32", 3, m, "".join(map(str, m)))
        for m in itertools.product(range(8), repeat=4): shuf("i8", 4, m, "".join(map(str, m)))
    for t in ("i8", "i16", "i32", "i64", "float"):
        for n in (2, 3, 4, 8, 16):
            for tag, mask in dict(rev=range(n - 1, -1, -1), bcast=[n // 2] * n, even=[(2 * i) % (2 * n) for i in range(n)], odd=[(2 * i + 1) % (2 * n) for i in range(n)], ilv=[(i // 2) + n * (i % 2) for i in range(n)], second=range(n, 2 * n), lo=range(max(n // 2, 2)), wide=(list(range(2 * n)) if n in (2, 4, 8) else range(n))).items():
                shuf(t, n, list(mask), tag)
            shuf(t, n, [i % n if i % 2 else n + i % n for i in range(n)], "czero", "zeroinitializer")
            shuf(t, n, [(i * 3) % n for i in range(n)], "poison", "poison")
            case("shuffle.%s.cfirst" % mang(t, n), [(t, n, "all")], (t, n), "%%r = shufflevector %s %s, %s %%a, <%d x i32> <%s>" % (T(t, n), splat(t, n, [FH["1.5"], FH["-0.0"]] if t == "float" else [1, 9, 4]), T(t, n), n, ", ".join("i32 %d" % ((i * 2 + 1) % (2 * n)) for i in range(n))))
    # ---- intrinsics that the optimiser introduces
    for t in INTS:
        for n in ([1, 2, 3, 4, 16] if not thorough else W):
            ty, m = T(t, n), mang(t, n); b = T("i1", n)
            for f in ("smax", "smin", "umax", "umin", "uadd.sat", "usub.sat", "sadd.sat", "ssub.sat"):
                case("llvm.%s.%s" % (f, m), [(t, n, "all"), (t, n, "all")], (t, n), "%%r = call %s @llvm.%s.%s(%s %%a, %s %%b)" % (ty, f, m, ty, ty), ["declare %s @llvm.%s.%s(%s, %s)" % (ty, f, m, ty, ty)])
            for f in ("scmp", "ucmp"):
                for rt in ("i8", "i32"): case("llvm.%s.%s.%s" % (f, rt, m), [(t, n, "all"), (t, n, "all")], (rt, n), "%%r = call %s @llvm.%s.%s.%s(%s %%a, %s %%b)" % (T(rt, n), f, mang(rt, n), m, ty, ty), ["declare %s @llvm.%s.%s.%s(%s, %s)" % (T(rt, n), f, mang(rt, n), m, ty, ty)])
            for f in ("abs", "ctlz", "cttz"):
                case("llvm.%s.%s" % (f, m), [(t, n, "all")], (t, n), "%%r = call %s @llvm.%s.%s(%s %%a, i1 false)" % (ty, f, m, ty), ["declare %s @llvm.%s.%s(%s, i1)" % (ty, f, m, ty)])
            for f in ("ctpop", "bitreverse") + (("bswap",) if t != "i8" else ()):
                case("llvm.%s.%s" % (f, m), [(t, n, "all")], (t, n), "%%r = call %s @llvm.%s.%s(%s %%a)" % (ty, f, m, ty), ["declare %s @llvm.%s.%s(%s)" % (ty, f, m, ty)])
            for f in ("fshl", "fshr"):
                case("llvm.%s.%s" % (f, m), [(t, n, "few"), (t, n, "few"), (t, n, "shx")], (t, n), "%%r = call %s @llvm.%s.%s(%s %%a, %s %%b, %s %%c)" % (ty, f, m, ty, ty, ty), ["declare %s @llvm.%s.%s(%s, %s, %s)" % (ty, f, m, ty, ty, ty)])
            for f in ("uadd", "usub", "umul", "sadd", "ssub", "smul"):
                if n == 1: case("llvm.%s.with.overflow.%s" % (f, m), [(t, n, "all"), (t, n, "all")], (t, 1), "%%s = call {%s, %s} @llvm.%s.with.overflow.%s(%s %%a, %s %%b)\n%%v = extractvalue {%s, %s} %%s, 0\n%%o = extractvalue {%s, %s} %%s, 1\n%%z = zext i1 %%o to %s\n%%y = mul %s %%z, 77\n%%r = xor %s %%v, %%y" % (ty, b, f, m, ty, ty, ty, b, ty, b, ty, ty, ty), ["declare {%s, %s} @llvm.%s.with.overflow.%s(%s, %s)" % (ty, b, f, m, ty, ty)])
    for t in FLTS:
        for n in (1, 2, 3, 4):
            ty, m = T(t, n), mang(t, n)
            case("llvm.fabs.%s" % m, [(t, n, "all")], (t, n), "%%r = call %s @llvm.fabs.%s(%s %%a)" % (ty, m, ty), ["declare %s @llvm.fabs.%s(%s)" % (ty, m, ty)])
            case("llvm.copysign.%s" % m, [(t, n, "all"), (t, n, "all")], (t, n), "%%r = call %s @llvm.copysign.%s(%s %%a, %s %%b)" % (ty, m, ty, ty), ["declare %s @llvm.copysign.%s(%s, %s)" % (ty, m, ty, ty)])
            case("llvm.fmuladd.%s" % m, [(t, n, "exact"), (t, n, "exact"), (t, n, "exact")], (t, n), "%%r = call %s @llvm.fmuladd.%s(%s %%a, %s %%b, %s %%c)" % (ty, m, ty, ty, ty), ["declare %s @llvm.fmuladd.%s(%s, %s, %s)" % (ty, m, ty, ty, ty)])
            case("llvm.fma.%s" % m, [(t, n, "few"), (t, n, "few"), (t, n, "few")], (t, n), "%%r = call %s @llvm.fma.%s(%s %%a, %s %%b, %s %%c)" % (ty, m, ty, ty, ty), ["declare %s @llvm.fma.%s(%s, %s, %s)" % (ty, m, ty, ty, ty)])
            for f in ("minnum", "maxnum"): case("llvm.%s.%s" % (f, m), [(t, n, "nozero"), (t, n, "nozero")], (t, n), "%%r = call %s @llvm.%s.%s(%s %%a, %s %%b)" % (ty, f, m, ty, ty), ["declare %s @llvm.%s.%s(%s, %s)" % (ty, f, m, ty, ty)])

# ---- types with structure ---------------------------------------------------------------------------
S = lambda *e: ("s", e); P = lambda *e: ("p", e); A = lambda n, e: ("a", n, e); V = lambda n, e: ("v", n, e)
AGG = dict(s1=S("i8", "i32"), p1=P("i8", "i32", "i16"), s2=S("i8", S("i16", "i64"), "i8"), a1=A(3, S("i32", "i8")), s3=S(A(2, V(3, "float")), "i8", "i16"), s4=S("i8", V(4, "i16"), A(3, "i8"), "double"),
           a2=A(2, A(3, "i16")), s5=S("float", P("i8", "i64"), V(2, "i8"), "i32"), s6=S(S(S("i8"), "i8"), "i16", A(1, "i64")), a3=A(2, P("i8", A(2, "i32"))), v1=V(4, "i32"), s7=S("i16", V(8, "i8"), V(16, "i8"), "i8"), s8=S("i8", "double", "float", V(3, "i16"), V(2, "i64")))
def ts(t):
    if isinstance(t, str): return t
    if t[0] == "s": return "{" + ", ".join(map(ts, t[1])) + "}"
    if t[0] == "p": return "<{" + ", ".join(map(ts, t[1])) + "}>"
    if t[0] == "a": return "[%d x %s]" % (t[1], ts(t[2]))
    return "<%d x %s>" % (t[1], ts(t[2]))
def kids(t):
    if isinstance(t, str) or t[0] == "v": return []
    return list(t[1]) if t[0] in "sp" else [t[2]] * t[1]
def paths(t):
    """(path, type) of t and everything below it"""
    yield (), t
    for i, k in enumerate(kids(t)):
        for p, u in paths(k): yield (i,) + p, u
def leaves(t): return [(p, u) for p, u in paths(t) if not kids(u)]
cnt = [0]
def const(t):
    """a constant initialiser with distinct values"""
    def nx(): cnt[0] = (cnt[0] * 5 + 3) % 251; return cnt[0]
    if isinstance(t, str): return str(nx() % 100) if t[0] == "i" else "%d.5" % (nx() % 100)
    if t[0] == "v": return "<" + ", ".join("%s %s" % (t[2], const(t[2])) for _ in range(t[1])) + ">"
    if t[0] == "a": return "[" + ", ".join("%s %s" % (ts(t[2]), const(t[2])) for _ in range(t[1])) + "]"
    inner = ", ".join("%s %s" % (ts(k), const(k)) for k in t[1])
    return "{" + inner + "}" if t[0] == "s" else "<{" + inner + "}>"
def lt(u): return (u, 1) if isinstance(u, str) else (u[2], u[1])

def structure(thorough):
    # address computation: every path of every type, with constant and variable outer and inner indices
    for name, t in AGG.items():
        y = ts(t)
        base = "%%m = alloca [8 x %s]\n%%u0 = getelementptr [8 x %s], ptr %%m, i64 0, i64 3\n" % (y, y)
        end = "\n%u = ptrtoint ptr %p to i64\n%v = ptrtoint ptr %m to i64\n%r = sub i64 %u, %v"
        for p, u in paths(t):
            tag = "_".join(map(str, p)) or "top"
            idx = "".join(", i32 %d" % i for i in p)
            for first in ("i64 0", "i64 -1", "i32 2", "i64 %a"):
                case("gep.%s.%s.%s" % (name, tag, first.replace(" ", "").replace("%", "v")), [("i64", 1, "pm2")], ("i64", 1), base + "%%p = getelementptr %s, ptr %%u0, %s%s" % (y, first, idx) + end)
            case("gep.%s.%s.v32" % (name, tag), [("i32", 1, "pm2")], ("i64", 1), base + "%%p = getelementptr inbounds %s, ptr %%u0, i32 %%a%s" % (y, idx) + end)
        for p, u in paths(t):   # variable inner array index
            if not isinstance(u, str) and u[0] == "a":
                tag = "_".join(map(str, p)) or "top"
                for it in ("i32", "i64"):
                    case("gep.%s.%s.inner.%s" % (name, tag, it), [(it, 1, "idx")], ("i64", 1), base + "%%i = urem %s %%a, %d\n%%p = getelementptr %s, ptr %%u0, i64 0%s, %s %%i" % (it, u[1], y, "".join(", i32 %d" % i for i in p), it) + end)
        # far array indices (address arithmetic only), at the top and below
        for it in ("i8", "i16", "i32", "i64"):
            case("gep.%s.far.%s" % (name, it), [(it, 1, "far")], ("i64", 1), base + "%%p = getelementptr [1000 x %s], ptr %%u0, i64 0, %s %%a" % (y, it) + end)
            case("gep.%s.farfirst.%s" % (name, it), [(it, 1, "far")], ("i64", 1), base + "%%p = getelementptr [3 x %s], ptr %%u0, %s %%a, i64 1" % (y, it) + end)
            for p, u in paths(t):
                if not isinstance(u, str) and u[0] == "a": case("gep.%s.%s.far.%s" % (name, "_".join(map(str, p)) or "top", it), [(it, 1, "far")], ("i64", 1), base + "%%p = getelementptr %s, ptr %%u0, i64 0%s, %s %%a" % (y, "".join(", i32 %d" % i for i in p), it) + end)
        # values of aggregate type: store every leaf, load the whole, extract a leaf; insert a leaf and read every leaf back
        L = leaves(t)
        if t[0] == "v": continue
        fill = "%m = alloca " + y + "\n"
        for k, (p, u) in enumerate(L):
            (e, n) = lt(u); fill += "%%f%d = getelementptr %s, ptr %%m, i64 0%s\n" % (k, y, "".join(", i32 %d" % i for i in p))
            v = str(11 * k + 3) + (".25" if e in FLTS else "")
            fill += "store %s %s, ptr %%f%d, align 1\n" % (ts(u), splat(e, n, [v, str(7 * k + 1) + (".5" if e in FLTS else "")]), k)
        for k, (p, u) in enumerate(L):
            tag = "_".join(map(str, p)); (e, n) = lt(u)
            case("extractvalue.%s.%s" % (name, tag), [("i8", 1, "few")], (e, n), fill + "%%g = load %s, ptr %%m\n%%r = extractvalue %s %%g, %s" % (y, y, ", ".join(map(str, p))))
            for q in range(len(L)):
                (e2, n2) = lt(L[q][1])
                if abs(q - k) > 1 and not thorough: continue
                case("insertvalue.%s.%s.%d" % (name, tag, q), [(e, n, "few")], (e2, n2), fill + "%%g = load %s, ptr %%m\n%%h = insertvalue %s %%g, %s %%a, %s\n%%x = alloca %s\nstore %s %%h, ptr %%x\n%%y = getelementptr %s, ptr %%x, i64 0%s\n%%r = load %s, ptr %%y, align 1" % (y, y, ts(u), ", ".join(map(str, p)), y, y, y, "".join(", i32 %d" % i for i in L[q][0]), ts(L[q][1])))
            # constants: module-level data and immediate aggregates
            cnt[0] = 17; init = const(t)
            case("constant.%s.%s" % (name, tag), [("i8", 1, "few")], (e, n), "%%p = getelementptr %s, ptr addrspace(2) @G, i64 0%s\n%%r = load %s, ptr addrspace(2) %%p, align 1" % (y, "".join(", i32 %d" % i for i in p), ts(u)), (), "@G = internal addrspace(2) constant %s %s" % (y, init))
            case("constexpr.%s.%s" % (name, tag), [("i8", 1, "few")], (e, n), "%%r = load %s, ptr addrspace(2) getelementptr inbounds (%s, ptr addrspace(2) @G, i64 0%s), align 1" % (ts(u), y, "".join(", i32 %d" % i for i in p)), (), "@G = internal addrspace(2) constant %s %s" % (y, init))
            case("immediate.%s.%s" % (name, tag), [("i8", 1, "few")], (e, n), "%%q = icmp sgt i8 %%a, 1\n%%g = select i1 %%q, %s %s, %s zeroinitializer\n%%r = extractvalue %s %%g, %s" % (y, init, y, y, ", ".join(map(str, p))))
            case("storeconst.%s.%s" % (name, tag), [("i8", 1, "few")], (e, n), "%%m = alloca %s\nstore %s %s, ptr %%m\n%%p = getelementptr %s, ptr %%m, i64 0%s\n%%r = load %s, ptr %%p, align 1" % (y, y, init, y, "".join(", i32 %d" % i for i in p), ts(u)))
        # passing and returning
        (e, n) = lt(L[-1][1]); lp = ", ".join(map(str, L[-1][0])); (e0, n0) = lt(L[0][1]); l0 = ", ".join(map(str, L[0][0]))
        case("callagg.%s" % name, [(e0, n0, "few")], (e, n), fill + "%%g = load %s, ptr %%m\n%%h = call spir_func %s @F(%s %%g, %s %%a)\n%%h2 = call spir_func %s @F(%s %%h, %s %%a)\n%%r = extractvalue %s %%h2, %s" % (y, y, y, ts(L[0][1]), y, y, ts(L[0][1]), y, lp), (),
             "define internal spir_func %s @F(%s %%s, %s %%x) {\n%%z = insertvalue %s %%s, %s %%x, %s\nret %s %%z\n}" % (y, y, ts(L[0][1]), y, ts(L[0][1]), l0, y))
        case("byval.%s" % name, [(e0, n0, "few")], (e0, n0), fill + "%%g = call spir_func %s @F(ptr byval(%s) %%m, %s %%a)\n%%h = load %s, ptr %%f0, align 1\n" % (ts(L[0][1]), y, ts(L[0][1]), ts(L[0][1])) + xorlike(e0, n0, "%h", "%g"), (),
             "define internal spir_func %s @F(ptr byval(%s) %%s, %s %%x) {\n%%p = getelementptr %s, ptr %%s, i64 0%s\n%%o = load %s, ptr %%p, align 1\nstore %s %%x, ptr %%p, align 1\n%%n = load %s, ptr %%p, align 1\n%s\nret %s %%r\n}" % (ts(L[0][1]), y, ts(L[0][1]), y, "".join(", i32 %d" % i for i in L[0][0]), ts(L[0][1]), ts(L[0][1]), ts(L[0][1]), xorlike(e0, n0, "%o", "%n"), ts(L[0][1])))
    # phis: every way three values of a loop header can be permuted or copied, in every order of the phi instructions
    for m in itertools.product(range(3), repeat=3):
        for order in itertools.permutations(range(3)):
            ph = "".join("%%v%d = phi i32 [ %%s%d, %%entry ], [ %%v%d, %%loop ]\n" % (i, i, m[i]) for i in order)
            case("phi.%d%d%d.%d%d%d" % (m + order), [("i32", 1, "few"), ("i32", 1, "few"), ("i32", 1, "idx")], ("i32", 1), "br label %entry\nentry:\n%s0 = add i32 %a, 1\n%s1 = mul i32 %b, 3\n%s2 = xor i32 %a, 77\n%n = urem i32 %c, 6\nbr label %loop\nloop:\n" + ph + "%i = phi i32 [ 0, %entry ], [ %j, %loop ]\n%j = add i32 %i, 1\n%q = icmp ult i32 %i, %n\nbr i1 %q, label %loop, label %done\ndone:\n%w0 = mul i32 %v0, 5\n%w1 = mul i32 %v1, 17\n%w2 = add i32 %w0, %w1\n%r = sub i32 %w2, %v2")
    # control-flow graphs: every successor assignment over blocks; branch decisions come from the bits of an input
    def cfg(succ, tag):
        nb = len(succ); preds = {i: [] for i in range(nb + 1)}
        reach = {0}
        for _ in range(nb): reach |= {d for i in reach if i < nb for d in succ[i]}
        for i, (x, y) in enumerate(succ):
            if i in reach:
                for d in sorted({x, y}): preds[d].append(i)
        txt = "br label %entry\nentry:\nbr label %b0\n"
        for i in range(nb):
            pr = [("entry", "%a", "%b", "0")] * (i == 0) + [("t%d" % j, "%%acc%d" % j, "%%bits%d" % j, "%%f%d" % j) for j in preds[i]]
            if i not in reach: continue
            txt += "b%d:\n" % i
            for k, nm in ((1, "pa"), (2, "pb"), (3, "pf")): txt += "%%%s%d = phi i32 %s\n" % (nm, i, ", ".join("[ %s, %%%s ]" % (p[k], p[0]) for p in pr))
            txt += "%%m%d = mul i32 %%pa%d, 3\n%%acc%d = add i32 %%m%d, %d\n%%bits%d = lshr i32 %%pb%d, 1\n%%f%d = add i32 %%pf%d, 1\n%%c%d = trunc i32 %%pb%d to i1\n%%l%d = icmp ult i32 %%f%d, 7\nbr i1 %%l%d, label %%t%d, label %%x%d\nx%d:\nbr label %%done\nt%d:\n" % (i, i, i, i, i + 1, i, i, i, i, i, i, i, i, i, i, i, i, i)
            x, y = succ[i]; nm = lambda d: "%%b%d" % d if d < nb else "%done"
            txt += "br label %s\n" % nm(x) if x == y else "br i1 %%c%d, label %s, label %s\n" % (i, nm(x), nm(y))
        inc = []
        for i in range(nb):
            if i not in reach: continue
            inc.append("[ %%acc%d, %%x%d ]" % (i, i))
            if i in preds[nb]: inc.append("[ %%acc%d, %%t%d ]" % (i, i))
        txt += "done:\n%r = phi i32 " + ", ".join(inc)
        case("cfg." + tag, [("i32", 1, "few"), ("i32", 1, "byte")], ("i32", 1), txt)
    for s in itertools.product(itertools.product(range(3), repeat=2), repeat=2): cfg(s, "".join("%d%d" % x for x in s))
    for s in itertools.product(itertools.product(range(4), repeat=2), repeat=3):
        if thorough or all(x <= y for x, y in s) and len({d for x in s for d in x}) > 2: cfg(s, "".join("%d%d" % x for x in s))
    # switches
    for t in INTS:
        b = BITS[t]; vals = [0, 1, 2, -1, (1 << (b - 1)) - 1, -(1 << (b - 1)), 100]
        for k, cs in enumerate([[], vals[:1], vals[:3], vals, vals[::-1], [5, -1, -2]]):
            case("switch.%s.%d" % (t, k), [(t, 1, "all")], ("i32", 1), "switch %s %%a, label %%d [ %s ]\n" % (t, " ".join("%s %d, label %%c%d" % (t, v, i // 2) for i, v in enumerate(cs))) + "".join("c%d:\nbr label %%e\n" % i for i in range((len(cs) + 1) // 2)) + "d:\nbr label %e\ne:\n%r = phi i32 [ 99, %d ]" + "".join(", [ %d, %%c%d ]" % (i + 1, i) for i in range((len(cs) + 1) // 2)))
        case("switchdup.%s" % t, [(t, 1, "all")], ("i32", 1), "br label %%s\ns:\nswitch %s %%a, label %%e [ %s 1, label %%e %s 2, label %%e\n%s 3, label %%f ]\nf:\nbr label %%e\ne:\n%%r = phi i32 [ 4, %%s ], [ 4, %%s ], [ 4, %%s ], [ 6, %%f ]" % (t, t, t, t))
    # calls
    for t in INTS + FLTS:
        for n in (1, 3, 4, 16):
            y = T(t, n)
            f = "define internal spir_func %s @F(%s %%x, i1 %%w, %s %%y) {\nbr i1 %%w, label %%p, label %%q\np:\nret %s %%x\nq:\nret %s %%y\n}" % (y, y, y, y, y)
            case("call.%s" % mang(t, n), [(t, n, "few"), (t, n, "few"), ("i8", 1, "few")], (t, n), "%%w = trunc i8 %%c to i1\n%%nw = xor i1 %%w, true\n%%u = call spir_func %s @F(%s %%a, i1 %%w, %s %%b)\n%%v = call spir_func %s @F(%s %%b, i1 %%nw, %s %%a)\n%%z = call spir_func %s @F(%s %%u, i1 %%nw, %s %%v)\n" % (y, y, y, y, y, y, y, y, y) + xorlike(t, n, "%u", "%z"), (), f)
    case("call.void", [("i32", 1, "all")], ("i32", 1), "%m = alloca i32\nstore i32 %a, ptr %m\ncall spir_func void @F(ptr %m)\ncall spir_func void @F(ptr %m)\n%r = load i32, ptr %m", (), "define internal spir_func void @F(ptr %p) {\n%x = load i32, ptr %p\n%y = mul i32 %x, 3\n%z = add i32 %y, 1\nstore i32 %z, ptr %p\nret void\n}")
    case("call.nested", [("i32", 1, "all"), ("i32", 1, "few")], ("i32", 1), "%u = call spir_func i32 @F(i32 %a, i32 %b)\n%v = call spir_func i32 @H(i32 %b)\n%w = call spir_func i32 @F(i32 %u, i32 %v)\n%r = add i32 %w, %u", (),
         "define internal spir_func i32 @H(i32 %x) {\n%m = alloca [4 x i32]\n%p = getelementptr i32, ptr %m, i64 2\nstore i32 %x, ptr %p\n%y = load i32, ptr %p\n%z = xor i32 %y, 91\nret i32 %z\n}\ndefine internal spir_func i32 @F(i32 %x, i32 %y) {\n%m = alloca i32\nstore i32 %x, ptr %m\n%h = call spir_func i32 @H(i32 %y)\n%k = load i32, ptr %m\n%s = sub i32 %k, %h\n%g = call spir_func i32 @H(i32 %s)\n%l = load i32, ptr %m\n%o = add i32 %l, %g\nret i32 %o\n}")
    case("call.loop", [("i32", 1, "few"), ("i32", 1, "idx")], ("i32", 1), "%n = urem i32 %b, 9\nbr label %l\nl:\n%i = phi i32 [ 0, %0 ], [ %j, %l ]\n%s = phi i32 [ %a, %0 ], [ %t, %l ]\n%t = call spir_func i32 @F(i32 %s, i32 %i)\n%j = add i32 %i, 1\n%q = icmp ule i32 %j, %n\nbr i1 %q, label %l, label %d\nd:\n%r = add i32 %t, %s", (),
         "define internal spir_func i32 @F(i32 %x, i32 %n) {\n%m = alloca [3 x i32]\n%k = urem i32 %n, 3\n%p = getelementptr [3 x i32], ptr %m, i32 0, i32 %k\nstore i32 %x, ptr %p\n%c = icmp eq i32 %k, 1\nbr i1 %c, label %e, label %f\ne:\nret i32 7\nf:\n%v = load i32, ptr %p\n%w = mul i32 %v, 31\nret i32 %w\n}")
    case("call.out", [("i64", 1, "all")], ("i64", 1), "%m = alloca {i64, i32}\n%p = getelementptr {i64, i32}, ptr %m, i32 0, i32 1\n%x = call spir_func ptr @F(ptr %m, ptr %p, i64 %a)\n%y = load i32, ptr %x\n%z = sext i32 %y to i64\n%w = load i64, ptr %m\n%r = add i64 %w, %z", (), "define internal spir_func ptr @F(ptr %u, ptr %v, i64 %x) {\nstore i64 %x, ptr %u\n%t = trunc i64 %x to i32\nstore i32 %t, ptr %v\nret ptr %v\n}")
    # memory: scalars and vectors through private memory at every alignment, constant tables, block operations
    for t in INTS + FLTS:
        for n in W:
            for off in (0, 1, 3):
                case("mem.%s.%d" % (mang(t, n), off), [(t, n, "few")], (t, n), "%%m = alloca [200 x i8]\n%%p = getelementptr i8, ptr %%m, i64 %d\nstore %s %%a, ptr %%p, align 1\n%%r = load %s, ptr %%p, align 1" % (off, T(t, n), T(t, n)))
            if n != 1: case("memelem.%s" % mang(t, n), [(t, n, "few"), ("i32", 1, "idx")], (t, 1), "%%m = alloca %s\nstore %s %%a, ptr %%m\n%%i = urem i32 %%b, %d\n%%p = getelementptr %s, ptr %%m, i32 %%i\n%%r = load %s, ptr %%p" % (T(t, n), T(t, n), n, t, t))
        c = "[" + ", ".join("%s %s" % (t, str(i * 7 + 1) + (".5" if t in FLTS else "")) for i in range(10)) + "]"
        case("table.%s" % t, [("i32", 1, "idx")], (t, 1), "%%i = urem i32 %%a, 10\n%%p = getelementptr [10 x %s], ptr addrspace(2) @G, i32 0, i32 %%i\n%%r = load %s, ptr addrspace(2) %%p" % (t, t), (), "@G = internal addrspace(2) constant [10 x %s] %s" % (t, c))
    case("string", [("i32", 1, "idx")], ("i8", 1), "%i = urem i32 %a, 6\n%p = getelementptr i8, ptr addrspace(2) @G, i32 %i\n%r = load i8, ptr addrspace(2) %p", (), '@G = internal addrspace(2) constant [6 x i8] c"he\\FFlo\\00"')
    fill = "%m = alloca [64 x i8]\n%n = alloca [64 x i8]\ncall void @llvm.memset.p0.i64(ptr %m, i8 -86, i64 64, i1 false)\ncall void @llvm.memset.p0.i64(ptr %n, i8 17, i64 64, i1 false)\n%m4 = getelementptr i8, ptr %m, i64 4\nstore i64 %a, ptr %m4, align 1\nstore i64 %b, ptr %m, align 1\n"
    hsh = lambda p: "br label %%h\nh:\n%%hi = phi i64 [ 0, %%0 ], [ %%hj, %%h ]\n%%hs = phi i64 [ 5381, %%0 ], [ %%ht, %%h ]\n%%hp = getelementptr i8, ptr %s, i64 %%hi\n%%hv = load i8, ptr %%hp\n%%hz = zext i8 %%hv to i64\n%%hm = mul i64 %%hs, 33\n%%ht = xor i64 %%hm, %%hz\n%%hj = add i64 %%hi, 1\n%%hq = icmp ult i64 %%hj, 64\nbr i1 %%hq, label %%h, label %%hd\nhd:\n%%r = add i64 %%ht, 0" % p
    D = ["declare void @llvm.memset.p0.i64(ptr, i8, i64, i1)", "declare void @llvm.memcpy.p0.p0.i64(ptr, ptr, i64, i1)", "declare void @llvm.memmove.p0.p0.i64(ptr, ptr, i64, i1)", "declare void @llvm.memcpy.p0.p0.i32(ptr, ptr, i32, i1)", "declare void @llvm.memcpy.p0.p2.i64(ptr, ptr addrspace(2), i64, i1)", "declare void @llvm.memcpy.p0.p1.i64(ptr, ptr addrspace(1), i64, i1)"]
    for sz in list(range(0, 10)) + [16, 17, 33]:
        for so, do in ((0, 0), (3, 1), (1, 7)):
            case("memcpy.%d.%d.%d" % (sz, so, do), [("i64", 1, "few"), ("i64", 1, "few")], ("i64", 1), fill + "%%sp = getelementptr i8, ptr %%m, i64 %d\n%%dp = getelementptr i8, ptr %%n, i64 %d\ncall void @llvm.memcpy.p0.p0.i64(ptr %%dp, ptr %%sp, i64 %d, i1 false)\n" % (so, do, sz) + hsh("%n"), D)
            case("memmove.%d.%d.%d" % (sz, so, do), [("i64", 1, "few"), ("i64", 1, "few")], ("i64", 1), fill + "%%sp = getelementptr i8, ptr %%m, i64 %d\n%%dp = getelementptr i8, ptr %%m, i64 %d\ncall void @llvm.memmove.p0.p0.i64(ptr %%dp, ptr %%sp, i64 %d, i1 false)\n" % (so, do, sz) + hsh("%m"), D)
            case("memset.%d.%d" % (sz, do), [("i64", 1, "few"), ("i64", 1, "few"), ("i8", 1, "few")], ("i64", 1), fill + "%%dp = getelementptr i8, ptr %%m, i64 %d\ncall void @llvm.memset.p0.i64(ptr %%dp, i8 %%c, i64 %d, i1 false)\n" % (do, sz) + hsh("%m"), D)
    case("memcpy.var", [("i64", 1, "few"), ("i64", 1, "few"), ("i32", 1, "idx")], ("i64", 1), fill + "%l = urem i32 %c, 40\ncall void @llvm.memcpy.p0.p0.i32(ptr %n, ptr %m, i32 %l, i1 false)\n" + hsh("%n"), D)
    case("memcpy.const", [("i64", 1, "few"), ("i64", 1, "few")], ("i64", 1), fill + "call void @llvm.memcpy.p0.p2.i64(ptr %n, ptr addrspace(2) @G, i64 9, i1 false)\n" + hsh("%n"), D, '@G = internal addrspace(2) constant [9 x i8] c"abcdefgh\\00"')
    case("memcpy.global", [("i64", 1, "few"), ("i64", 1, "few")], ("i64", 1), fill + "call void @llvm.memcpy.p0.p1.i64(ptr %n, ptr addrspace(1) %pa, i64 8, i1 false)\n" + hsh("%n"), D)
    for k in (1, 3, 5):
        case("alloca.n%d" % k, [("i32", 1, "few")], ("i32", 1), "%%m = alloca i32, i32 %d\n%%z = alloca i32\nstore i32 7, ptr %%z\n%%p = getelementptr i32, ptr %%m, i32 %d\nstore i32 %%a, ptr %%p\n%%v = load i32, ptr %%p\n%%w = load i32, ptr %%z\n%%r = add i32 %%v, %%w" % (k, k - 1))
    for n in (1, 2, 4): pass
    for t in ("i32", "i64"):
        case("ptr.%s" % t, [(t, 1, "few")], (t, 1), "%%m = alloca %s\n%%n = alloca ptr\nstore %s %%a, ptr %%m\nstore ptr %%m, ptr %%n\n%%p = load ptr, ptr %%n\n%%i = ptrtoint ptr %%p to i64\n%%q = inttoptr i64 %%i to ptr\n%%e = icmp eq ptr %%q, %%m\n%%u = icmp ne ptr %%q, null\n%%f = and i1 %%e, %%u\n%%s = select i1 %%f, ptr %%q, ptr %%n\n%%v = load %s, ptr %%s\n%%r = add %s %%v, 1" % (t, t, t, t))
    case("ptr.phi", [("i32", 1, "few"), ("i8", 1, "few")], ("i32", 1), "%m = alloca i32\n%n = alloca i32\nstore i32 %a, ptr %m\nstore i32 11, ptr %n\n%q = icmp sgt i8 %b, 1\nbr i1 %q, label %t, label %f\nt:\nbr label %e\nf:\nbr label %e\ne:\n%p = phi ptr [ %m, %t ], [ %n, %f ]\n%r = load i32, ptr %p")
    case("ptr.trunc", [("i32", 1, "few")], ("i32", 1), "%m = alloca i32\n%x = ptrtoint ptr %m to i64\n%y = ptrtoint ptr %m to i32\n%z = trunc i64 %x to i32\n%d = sub i32 %y, %z\n%r = add i32 %d, %a")
    case("cexpr.ops", [("i64", 1, "few")], ("i64", 1), "%x = ptrtoint ptr addrspace(2) @G to i64\n%y = add i64 sub (i64 ptrtoint (ptr addrspace(2) getelementptr (i8, ptr addrspace(2) @G, i64 6) to i64), i64 ptrtoint (ptr addrspace(2) @G to i64)), %a\n%z = sub i64 ptrtoint (ptr addrspace(2) getelementptr (i32, ptr addrspace(2) @G, i64 2) to i64), %x\n%r = mul i64 %y, %z", (), "@G = internal addrspace(2) constant [9 x i32] zeroinitializer")

def xorlike(t, n, x, y):
    ty = T(t, n)
    if t in FLTS: return "%%r = fsub %s %s, %s" % (ty, x, y)
    return "%%xm = mul %s %s, %s\n%%r = xor %s %%xm, %s" % (ty, x, splat(t, n, [3]), ty, y)

HEAD = 'target triple = "spir64-unknown-unknown"\ntarget datalayout = "e-i64:64-v16:16-v24:32-v32:32-v48:64-v96:128-v192:256-v256:256-v512:512-v1024:1024-G1"\ndeclare spir_func i64 @_Z13get_global_idj(i32)\n'
TAIL = '''!0 = !{i32 1, i32 1, i32 1, i32 1}
!1 = !{!"none", !"none", !"none", !"none"}
!2 = !{!"uchar*", !"uchar*", !"uchar*", !"uchar*"}
!3 = !{!"", !"", !"", !""}
!opencl.ocl.version = !{!4}
!opencl.spir.version = !{!4}
!4 = !{i32 1, i32 2}
'''
MD = " !kernel_arg_addr_space !0 !kernel_arg_access_qual !1 !kernel_arg_type !2 !kernel_arg_base_type !2 !kernel_arg_type_qual !3"
def kernel(i, c):
    name, ins, out, body, decls, globs = c
    pre = "%gid = call spir_func i64 @_Z13get_global_idj(i32 0)\n"
    for k, (t, n, tab) in enumerate(ins):
        v = "abc"[k]; pre += "%%p%s = getelementptr %s, ptr addrspace(1) %%%s, i64 %%gid\n%%%s = load %s, ptr addrspace(1) %%p%s\n" % (v, T(t, n), v.upper(), v, T(t, n), v)
    ty = T(*out)
    post = "\n%%po = getelementptr %s, ptr addrspace(1) %%O, i64 %%gid\nstore %s %%r, ptr addrspace(1) %%po\nret void\n" % (ty, ty)
    for nm in ("@G", "@F", "@H"): body = body.replace(nm, nm + str(i)); globs = globs.replace(nm, nm + str(i))
    return globs + "\ndefine spir_kernel void @k%d(ptr addrspace(1) %%A, ptr addrspace(1) %%B, ptr addrspace(1) %%C, ptr addrspace(1) %%O)%s {\n%s%s%s}\n" % (i, MD, pre, body, post)

def module(m, out):
    txt = HEAD; decl = set(); ks = ""
    for i in range(m, len(cases), NMOD):
        ks += kernel(i, cases[i]); decl |= set(cases[i][4])
    txt += "\n".join(sorted(decl)) + "\n" + ks + TAIL
    p = os.path.join(out, "m%d" % m); open(p + ".ll", "w").write(txt)
    r = subprocess.run([LL + "llvm-as", p + ".ll", "-o", p + ".bc"], capture_output=True, text=True)
    if r.returncode: raise SystemExit("c09gen: " + r.stderr[:2000])
    host = txt.replace('target triple = "spir64-unknown-unknown"', 'target triple = "x86_64-pc-linux-gnu"').replace("spir_kernel ", "").replace("spir_func ", "")
    host = "\n".join(l for l in host.split("\n") if not l.startswith("target datalayout"))
    open(p + ".h.ll", "w").write(host)
    r = subprocess.run([LL + "llc", "-O0", "-filetype=obj", "-relocation-model=pic", p + ".h.ll", "-o", p + ".o"], capture_output=True, text=True)
    if r.returncode: raise SystemExit("c09gen: " + r.stderr[:2000])
    r = subprocess.run(["cc", "-shared", p + ".o", "-o", p + ".so", "-lm"], capture_output=True, text=True)
    if r.returncode: raise SystemExit("c09gen: " + r.stderr[:2000])

def generate(out, thorough):
    os.makedirs(out, exist_ok=True)
    instructions(thorough); structure(thorough)
    names = [c[0] for c in cases]; assert len(set(names)) == len(names), [n for n in names if names.count(n) > 1][:5]
    with cf.ThreadPoolExecutor(8) as ex: list(ex.map(lambda m: module(m, out), range(NMOD)))
    with open(os.path.join(out, "cases"), "w") as f:
        for c in cases: f.write(" ".join([c[0]] + ["%s,%d,%s" % i for i in c[1]] + ["-"] * (3 - len(c[1])) + ["%s,%d" % c[2]]) + "\n")
    return len(cases)
if __name__ == "__main__":
    import sys, time; t = time.time(); print(generate("/tmp/c09", "--thorough" in sys.argv), time.time() - t)

"""Shared driver of all checks: builds /repo's working tree, runs exhaustive harnesses in shards,
confirms violations by replay, applies known findings, writes evidence."""
import hashlib, json, os, re, shutil, signal, subprocess, sys, time, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
BUILD = os.environ.get("VF_BUILD", os.path.join(VERIF, "build"))
LLVM = "/usr/lib/llvm-20"
NPROC = os.cpu_count() or 4

FLAVORS = {
    # shipped configuration, plus AddressSanitizer so that any memory corruption is a hard failure
    "asan": dict(cc="gcc", cxx="g++", flags="-O1 -g0 -DNDEBUG -fsanitize=address -fno-omit-frame-pointer"),
    "plain": dict(cc="gcc", cxx="g++", flags="-O1 -g0 -DNDEBUG"),
    # every memory access and atomic operation calls the controlled-scheduler runtime (lib/mcrt.cpp)
    "sched": dict(cc="/usr/bin/clang", cxx="/usr/bin/clang++",
                  flags="-O1 -g0 -DNDEBUG -fsanitize=thread -mllvm -tsan-instrument-func-entry-exit=0",
                  link="-fno-sanitize=thread -Wl,-z,lazy -Wl,--unresolved-symbols=ignore-all"),
}

def log(*a):
    print(*a, file=sys.stderr, flush=True)

def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    return r.returncode, r.stdout

def mirror():
    """Content-based mirror of /repo: a file's mtime changes exactly when its content does."""
    dst = os.path.join(BUILD, "mirror")
    os.makedirs(dst, exist_ok=True)
    rc, out = sh(["rsync", "-rlc", "--delete", "--exclude=/.git", "--exclude=/_build", "--exclude=*.o",
                  REPO + "/", dst + "/"])
    if rc: die("mirror failed: " + out)
    return dst

def die(msg):
    log("CHECK-ERROR:", msg)
    sys.exit(3)

def build(flavor, targets=("oclgrind-rt",), pch=True):
    """Builds /repo's current tree in the given flavor; returns the build directory."""
    t0 = time.time()
    src = mirror()
    f = FLAVORS[flavor]
    b = os.path.join(BUILD, flavor)
    stamp = os.path.join(b, ".vf_config")
    want = json.dumps(f, sort_keys=True) + src
    if os.path.isdir(b) and (not os.path.exists(stamp) or open(stamp).read() != want):
        shutil.rmtree(b)
    env = dict(os.environ, CC=f["cc"], CXX=f["cxx"], LC_ALL="C.UTF-8", HOME="/root")
    if not os.path.exists(os.path.join(b, "build.ninja")):
        os.makedirs(b, exist_ok=True)
        link = f.get("link", "")
        rc, out = sh(["cmake", "-S", src, "-B", b, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=None",
                      "-DCMAKE_CXX_FLAGS=" + f["flags"], "-DCMAKE_C_FLAGS=" + f["flags"],
                      "-DCMAKE_SHARED_LINKER_FLAGS=" + link, "-DCMAKE_EXE_LINKER_FLAGS=" + link,
                      "-DLLVM_DIR=%s/lib/cmake/llvm" % LLVM, "-DCLANG_ROOT=" + LLVM,
                      "-DPYTHON_EXECUTABLE=/usr/bin/python3"], env=env)
        if rc: die("cmake failed: " + out[-3000:])
        open(stamp, "w").write(want)
    tg = list(targets)
    if pch:
        tg += ["include/oclgrind/opencl-c-1.2-64.pch", "include/oclgrind/opencl-c-2.0-64.pch"]
    rc, out = sh(["ninja", "-C", b] + tg, env=env)
    if rc: die("build of /repo failed: " + out[-3000:])
    so = os.path.join(b, "libOpenCL.so")
    if not os.path.exists(so): os.symlink("liboclgrind-rt.so", so)
    log("[build %s: %.1fs]" % (flavor, time.time() - t0))
    return b

def compile_harness(srcs, flavor, bdir, out=None, libs=("oclgrind-rt", "oclgrind"), extra=(), cxx=None, shared=False, plain=False):
    """Compiles a harness of /verif against the build in bdir (skipped when nothing changed)."""
    f = FLAVORS[flavor]
    srcs = [s if s.startswith("/") else os.path.join(VERIF, s) for s in srcs]
    out = os.path.join(bdir, "vf_" + (out or os.path.basename(srcs[0]).split(".")[0]))
    inc = ["-I" + os.path.join(VERIF, "lib"), "-I" + os.path.join(bdir, "..", "mirror", "src"), "-I" + bdir,
           "-I" + os.path.join(bdir, "..", "mirror")]
    flags = f["flags"].split() if not plain else ["-O1", "-g0"]
    cmd = [cxx or f["cxx"], "-std=gnu++17", "-Wno-deprecated-declarations", "-w"] + flags + inc + list(extra) + srcs + ["-o", out]
    if shared: cmd += ["-shared", "-fPIC"]
    if flavor == "sched": cmd += ["-fno-sanitize=thread"]
    cmd += ["-L" + bdir] + ["-l" + l for l in libs] + ["-Wl,-rpath," + bdir, "-lpthread", "-ldl"]
    h = hashlib.sha256(json.dumps(cmd).encode())
    deps = srcs + [os.path.join(VERIF, "lib", x) for x in sorted(os.listdir(os.path.join(VERIF, "lib"))) if x.endswith((".hpp", ".h"))]
    for d in deps: h.update(open(d, "rb").read())
    for root, _, files in sorted(os.walk(os.path.join(bdir, "..", "mirror", "src"))):
        for x in sorted(files):
            if x.endswith(".h"): h.update(open(os.path.join(root, x), "rb").read())
    st = out + ".hash"
    if os.path.exists(out) and os.path.exists(st) and open(st).read() == h.hexdigest(): return out
    rc, o = sh(cmd)
    if rc: die("harness does not compile: " + o[-4000:])
    open(st, "w").write(h.hexdigest())
    return out

class Check:
    def __init__(self, pid, level="model_checking", assumptions=()):
        self.pid, self.level = pid, level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"): self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.cov = {}
        self.samples = []
        self.viol = []            # (key, message, replay dict)
        self.unconfirmed = []
        self.assumptions = list(assumptions)
        self.only = None
        self.tmp = tempfile.mkdtemp(prefix="vf_%s_" % pid)
        for i, a in enumerate(sys.argv):
            if a == "--only": self.only = sys.argv[i + 1]
            if a == "--thorough": self.tier = "thorough"
        self.known = {}
        kf = os.path.join(VERIF, "known_findings.txt")
        if os.path.exists(kf):
            for l in open(kf):
                m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l.strip())
                if m and m.group(1) == pid: self.known[m.group(2)] = m.group(3)
        self.known_hit = {}

    def add(self, **kw):
        for k, v in kw.items():
            if isinstance(v, (int, float)) and not isinstance(v, bool):
                self.cov[k] = self.cov.get(k, 0) + v
            else: self.cov[k] = v

    def sample(self, s, limit=6):
        if len(self.samples) < limit: self.samples.append(s)

    def _once(self, m):
        if m not in self.__dict__.setdefault('_seen', set()):
            self._seen.add(m)
            log(m)

    def violation(self, key, msg, replay=None):
        for k in self.known:
            if key == k or (k.endswith("*") and key.startswith(k[:-1])):
                self.known_hit.setdefault(k, key + ": " + msg); return
        if any(v[0] == key for v in self.viol): return
        self.viol.append((key, msg, replay or {}))

    # ---- sharded execution of a C++ harness -------------------------------------------------------
    def _spawn(self, exe, args, env, shard, nsh, only=None, start=0, tag=""):
        d = os.path.join(self.tmp, "s%s%d" % (tag, shard)); os.makedirs(d, exist_ok=True)
        e = dict(os.environ); e.update(env)
        e.update(VF_SHARD=str(shard), VF_NSHARDS=str(nsh), VF_TIER=self.tier, VF_OUT=d + "/out.jsonl",
                 VF_CUR=d + "/cur", VF_START=str(start), VF_DIR=d, VF_SEED=str(self.seed))
        e.setdefault("ASAN_OPTIONS", "")
        e["ASAN_OPTIONS"] += ":detect_leaks=0:detect_odr_violation=0:alloc_dealloc_mismatch=0:new_delete_type_mismatch=0:handle_abort=0:exitcode=99:allocator_may_return_null=1:log_path=%s/asan" % d
        if only is not None: e["VF_ONLY"] = only
        else: e.pop("VF_ONLY", None)
        for x in ("/out.jsonl", "/cur"):
            if os.path.exists(d + x): os.remove(d + x)
        for x in os.listdir(d):
            if x.startswith("asan"): os.remove(os.path.join(d, x))
        p = subprocess.Popen([exe] + list(args), env=e, stdin=subprocess.DEVNULL, stdout=open(d + "/stdout", "wb"),
                             stderr=open(d + "/stderr", "wb"), cwd=d, start_new_session=True)
        return p, d

    @staticmethod
    def _cur(d, full=False):
        try:
            b = open(d + "/cur", "rb").read()
            if full: return b
            return b.split(b"\0")[0].decode("utf8", "replace")
        except OSError: return ""

    @staticmethod
    def _lines(d):
        try: return [json.loads(l) for l in open(d + "/out.jsonl", errors="replace") if l.strip().endswith("}")]
        except (OSError, ValueError):
            out = []
            for l in open(d + "/out.jsonl", errors="replace"):
                try: out.append(json.loads(l))
                except ValueError: pass
            return out

    @staticmethod
    def _kill(p):
        try: os.killpg(p.pid, signal.SIGKILL)
        except OSError: pass
        p.wait()

    @staticmethod
    def _asan(d):
        s = ""
        for x in sorted(os.listdir(d)):
            if x.startswith("asan"):
                t = open(os.path.join(d, x), errors="replace").read()
                m = re.search(r"ERROR: AddressSanitizer: .*", t)
                s += m.group(0) if m else t[:300]
                fr = re.findall(r"#\d+ 0x\S+ in (\S+)", t)[:8]
                s += " @ " + " < ".join(fr)
        return s

    def solo(self, exe, args, env, case, stall):
        """Runs one case alone; returns (status, [fail lines], note) with status ok|fail|crash|hang."""
        p, d = self._spawn(exe, args, env, 0, 1, only=case, tag="solo")
        t = time.time()
        while p.poll() is None:
            time.sleep(0.02)
            if time.time() - t > stall: self._kill(p); return "hang", [], "no progress for %ds" % stall
        ls = self._lines(d)
        f = [l for l in ls if l.get("t") == "fail"]
        if p.returncode not in (0,) :
            return "crash", f, "exit %d %s %s" % (p.returncode, self._asan(d), open(d + "/stderr", errors="replace").read()[-300:])
        return ("fail" if f else "ok"), f, ""

    def run(self, exe, args=(), env=None, shards=None, stall=60, label=None):
        env = env or {}; shards = shards or NPROC
        if self.only is not None:
            st, f, note = self.solo(exe, args, env, self.only, stall * 3)
            log("replay of case %r: %s %s" % (self.only, st, note))
            for l in f: log("  " + l["key"] + ": " + l["msg"])
            if st != "ok":
                self.violation(f[0]["key"] if f else "crash:" + self.only, f[0]["msg"] if f else note, dict(case=self.only))
            return
        act = {}
        start = {i: 0 for i in range(shards)}
        restarts = hangs = 0
        rec = {}  # shard -> list of lines
        fails, abn = [], []
        def launch(i):
            p, d = self._spawn(exe, args, env, i, shards, start=start[i], tag=label or "")
            act[i] = [p, d, "", time.time()]
        for i in range(shards): launch(i)
        while act:
            time.sleep(0.05)
            for i in list(act):
                p, d, last, t = act[i]
                rc = p.poll()
                cur = self._cur(d)
                if rc is None:
                    raw = self._cur(d, True)
                    if raw != last:
                        act[i][2], act[i][3] = raw, time.time(); continue
                    elif time.time() - t > stall:
                        self._kill(p); rc = "hang"
                    else: continue
                del act[i]
                ls = self._lines(d)
                rec.setdefault(i, []).extend(ls)
                if rc == 0: continue
                if rc == 3:
                    # a call that is valid in every case of the harness (build, create, read) was refused
                    m = open(d + "/stderr", errors="replace").read()[-1500:]
                    self._once("harness step failed: " + m[:600])
                    self.violation("valid-step-failed", cur.partition(" ")[2] + " " + m, dict(case=cur.partition(" ")[2]))
                    continue
                note = ("no progress" if rc == "hang" else "exit %s " % rc) + self._asan(d)
                idx, _, case = cur.partition(" ")
                if not idx.isdigit():
                    m = open(d + "/stderr", errors="replace").read()[-1500:]
                    self._once("harness failed before its first case: %s %s" % (note, m[:600]))
                    self.violation("setup-failed", note + " " + m, dict(case=""))
                    continue
                abn.append((case, rc, note, i))
                restarts += 1
                hangs += rc == "hang"
                if restarts <= 24 and hangs <= 4 and time.time() - self.t0 < 500:
                    start[i] = int(idx) + 1; launch(i)
                else:
                    self.add(shards_abandoned_after_failures=1)
        for i, ls in rec.items():
            for l in ls:
                if l["t"] == "stat": self.add(**{k: v for k, v in l.items() if k != "t"})
                elif l["t"] == "sample": self.sample(l["s"])
                elif l["t"] == "fail": fails.append(l)
        seen = set()
        nconf = 0
        for l in fails:
            if l["key"] in seen: continue
            if nconf >= 12: self.violation(l["key"], l["msg"], dict(case=l["case"])); seen.add(l["key"]); continue
            nconf += 1
            st, f, note = self.solo(exe, args, env, l["case"], stall * 3)
            if st in ("fail", "crash", "hang"):
                seen.add(l["key"])
                self.violation(l["key"], l["msg"], dict(case=l["case"]))
            else: self.unconfirmed.append((l["key"], l["msg"]))
        nh = 0
        for case, rc, note, i in abn[:8]:
            if rc == "hang":
                nh += 1
                if nh > 1: continue
            st, f, n2 = self.solo(exe, args, env, case, stall if rc == "hang" else stall * 3)
            if st == "fail":
                self.violation(f[0]["key"], f[0]["msg"], dict(case=case))
            elif st in ("crash", "hang"):
                self.violation(("hang:" if st == "hang" else "crash:") + case, n2 or note, dict(case=case))
            else: self.unconfirmed.append(("abnormal:" + case, note))

    # ---- reporting --------------------------------------------------------------------------------
    def finish(self, **cov):
        self.add(**cov)
        if "cases" in self.cov and "states" not in self.cov: self.cov["states"] = self.cov["cases"]
        self.cov.pop("cases", None)
        self.cov.setdefault("states", 0); self.cov.setdefault("transitions", 0); self.cov.setdefault("traces_validated_against_impl", 0)
        self.cov.setdefault("exhaustive", True)
        if self.samples: self.cov["samples"] = self.samples
        shutil.rmtree(self.tmp, ignore_errors=True)
        rep = os.path.join(VERIF, "replays", self.pid)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        os.makedirs(rep, exist_ok=True)
        rc = 0
        for k, what in self.known.items():
            if k in self.known_hit: print("KNOWN-FINDING: property=%s %s" % (self.pid, what))
        for n, (key, msg, r) in enumerate(self.viol[:40]):
            path = os.path.join(rep, "%03d.json" % n)
            json.dump(dict(property=self.pid, key=key, message=msg, tier=self.tier,
                           replay_cmd="python3 run.py %s --only %s" % (self.pid, json.dumps(r.get("case", ""))), **r),
                      open(path, "w"), indent=1)
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
            print("   %s: %s" % (key, msg[:600]))
            rc = 1
        if self.unconfirmed:
            self.cov["unconfirmed_on_replay"] = [k + ": " + m[:200] for k, m in self.unconfirmed[:10]]
            for k, m in self.unconfirmed[:10]: log("UNCONFIRMED", k, m[:300])
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level, coverage=self.cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(self.viol))
        if self.only is None:
            json.dump(ev, open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w"), indent=1)
        c = {k: v for k, v in self.cov.items() if k not in ("samples",)}
        print("%s %s: %s in %.1fs; %s" % (self.pid, self.tier, "%d violation(s)" % len(self.viol) if self.viol else "held", ev["wall_s"], json.dumps(c)[:900]))
        sys.exit(rc)

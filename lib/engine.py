"""Engine: compiles /repo's current sources with goto-cc, discharges the obligations of
the contract harnesses with CBMC, replays counterexamples natively on the real code."""
import json, os, re, resource, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
NPROC = max(1, int(os.environ.get("VP_JOBS", "0")) or min(8, os.cpu_count() or 4))
GOTO_CC, GOTO_INSTR, CBMC = "goto-cc", "goto-instrument", "cbmc"
MEM = 7 << 30

# functions without a body whose absence is fine: nothing in a contract depends on them
HARMLESS_NOBODY = {"printf", "fprintf", "puts", "putchar", "perror", "fflush", "__assert_fail",
                   "nondet_vp", "putc", "fputs", "fputc", "fwrite", "syslog"}


class Job:
    def __init__(self, name, harness, srcs, stubs=(), macros=None, cmacros=None, defs=(), cases=None,
                 unwind=20, unwindset=None, flags=(), under=(), timeout=400, assumptions=(),
                 bounded=None, tier="quick", native=True, nsecs=20, entry="harness", extra=(),
                 nflags=(), solver="cadical", maxunwind=600, must_cover=True, weaken=(), cut=None, dfcc=None, note=None, obits=10, mem=7, nsrcs=(), fs=800):
        self.__dict__.update(locals()); del self.__dict__["self"]
        self.macros = dict(macros or {}); self.cmacros = dict(cmacros or {})
        self.cases = cases or [("", [])]
        self.unwindset = dict(unwindset or {})


import ctypes
_libc = ctypes.CDLL(None)


def _limits(mem):
    def f():
        os.setsid()
        _libc.prctl(1, 9)      # ends with this program
        resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    return f


def sh(cmd, timeout=300, cwd=None, env=None, mem=None):
    """-> (rc, stdout, stderr); rc -9 on timeout"""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd, env=env,
                         preexec_fn=_limits(mem) if mem else os.setsid, stdin=subprocess.DEVNULL)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o.decode("latin-1"), e.decode("latin-1")
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, 9)
        except OSError: pass
        try: o, e = p.communicate(timeout=10)
        except Exception: o, e = b"", b""
        return -9, o.decode("latin-1"), e.decode("latin-1")


class Engine:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.tmp = tempfile.mkdtemp(prefix="vp-%s-" % pid)
        self.lock = threading.Lock()
        self.cache, self.cmds = {}, []
        self.t0 = time.time()

    def close(self):
        shutil.rmtree(self.tmp, ignore_errors=True)

    # ---- compilation -----------------------------------------------------------------
    def _once(self, key, fn):
        with self.lock:
            ent = self.cache.get(key)
            if ent is None:
                ent = self.cache[key] = {"l": threading.Lock(), "done": False, "v": None}
        with ent["l"]:
            if not ent["done"]:
                ent["v"] = fn(); ent["done"] = True
        return ent["v"]

    def srcpath(self, src, cut):
        p = os.path.join(REPO, src)
        if not cut or cut.get("src") != src:
            return p, None
        def gen():
            sys.path.insert(0, os.path.join(VERIF, "lib"))
            import loopcut
            return loopcut.instrument(p, cut, self.tmp, REPO)
        return self._once(("cut", src, json.dumps(cut, sort_keys=True)), gen)

    def goto_obj(self, src, macros, stubs, cut):
        def build():
            path, err = self.srcpath(src, cut)
            if err: return None, err
            tag = "g%d" % (abs(hash((src, tuple(sorted(macros.items())), tuple(stubs), json.dumps(cut)))) % 10**12)
            out = os.path.join(self.tmp, tag + ".gb")
            cmd = [GOTO_CC, "-std=gnu99", "-DVP_CBMC", "-include", os.path.join(VERIF, "lib", "vp_pre.h"), "-c", path, "-o", out, "-I" + REPO + "/mbus", "-I" + REPO,
                   "-I" + os.path.join(VERIF, "lib")]
            cmd += ["-D%s=%s" % kv for kv in sorted(macros.items())]
            rc, o, e = sh(cmd, 120)
            if rc: return None, "goto-cc %s: %s" % (src, (o + e)[-1500:])
            if stubs:
                out2 = os.path.join(self.tmp, tag + "s.gb")
                cmd = [GOTO_INSTR]
                for s in stubs: cmd += ["--remove-function-body", s]
                rc, o, e = sh(cmd + [out, out2], 120)
                if rc: return None, "goto-instrument: " + (o + e)[-800:]
                out = out2
            return out, None
        return self._once(("go", src, tuple(sorted(macros.items())), tuple(stubs), json.dumps(cut)), build)

    def goto_bin(self, job, label, defs, cover):
        objs = []
        m = dict(job.macros); m.update(job.cmacros)
        for s in job.srcs:
            o, err = self.goto_obj(s, m, tuple(job.stubs), job.cut)
            if err: return None, err
            objs.append(o)
        out = os.path.join(self.tmp, "b%d.gb" % (abs(hash((job.name, label, cover))) % 10**14))
        cmd = [GOTO_CC, "-std=gnu99", "-DVP_CBMC", "--function", job.entry, "-o", out,
               os.path.join(VERIF, "harness", job.harness)] + \
              [os.path.join(VERIF, "lib", x) for x in job.extra] + objs + \
              ["-I" + REPO + "/mbus", "-I" + REPO, "-I" + os.path.join(VERIF, "lib"),
               "-I" + os.path.join(VERIF, "harness")] + list(job.defs) + list(defs)
        if not cover: cmd.append("-DVP_NOCOVER")
        rc, o, e = sh(cmd, 120)
        if rc: return None, "goto-cc %s: %s" % (job.harness, (o + e)[-1500:])
        if job.dfcc:
            out2 = out[:-3] + "d.gb"
            rc, o, e = sh([GOTO_INSTR, "--dfcc", job.entry] +
                          sum([["--enforce-contract", f] for f in job.dfcc], []) + [out, out2], 120)
            if rc: return None, "goto-instrument --dfcc: " + (o + e)[-1500:]
            out = out2
        return out, None

    def native_bin(self, job, label, defs):
        def obj(src):
            def build():
                path = os.path.join(REPO, src)
                out = os.path.join(self.tmp, "n%d.o" % (abs(hash((src, tuple(sorted(job.macros.items())), tuple(job.stubs)))) % 10**12))
                cmd = ["gcc", "-std=gnu99", "-g", "-O0", "-w", "-fno-inline", "-fno-builtin", "-DVP_NATIVE", "-fsanitize=address,undefined",
                       "-fno-sanitize-recover=all", "-I" + REPO + "/mbus", "-I" + REPO, "-c", path, "-o", out]
                cmd += ["-D%s=%s" % kv for kv in sorted(job.macros.items())]
                rc, o, e = sh(cmd, 120)
                if rc: return None, e[-1500:]
                if job.stubs:
                    rc, o, e = sh(["objcopy"] + ["--weaken-symbol=" + s for s in job.stubs] + [out], 60)
                    if rc: return None, e[-500:]
                return out, None
            return self._once(("no", src, tuple(sorted(job.macros.items())), tuple(job.stubs)), build)
        def build():
            objs = []
            for s in list(job.srcs) + list(job.nsrcs):
                o, err = obj(s)
                if err: return None, err
                objs.append(o)
            out = os.path.join(self.tmp, "x%d" % (abs(hash((job.name, label))) % 10**14))
            cmd = ["gcc", "-std=gnu99", "-g", "-O1", "-w", "-DVP_NATIVE", "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
                   "-I" + REPO + "/mbus", "-I" + REPO, "-I" + os.path.join(VERIF, "lib"), "-I" + os.path.join(VERIF, "harness"),
                   os.path.join(VERIF, "harness", job.harness), os.path.join(VERIF, "lib", "vp_native.c")] + \
                  [os.path.join(VERIF, "lib", x) for x in job.extra] + \
                  objs + list(job.defs) + list(defs) + list(job.nflags) + ["-o", out, "-lm"]
            rc, o, e = sh(cmd, 180)
            if rc: return None, e[-1500:]
            return out, None
        return self._once(("nb", job.name, label), build)

    # ---- CBMC ------------------------------------------------------------------------
    def cbmc(self, binf, job, extra, timeout, unwind, slice_=True):
        cmd = [CBMC, binf, "--unwind", str(unwind), "--unwinding-assertions", "--object-bits", str(job.obits),
               "--max-field-sensitivity-array-size", str(job.fs), "--drop-unused-functions", "--json-ui", "--verbosity", "6", "--no-malloc-may-fail"]
        if slice_: cmd.append("--slice-formula")
        if job.unwindset:
            cmd += ["--unwindset", ",".join("%s:%d" % (k, v if unwind == job.unwind else max(v, unwind)) for k, v in sorted(job.unwindset.items()))]
        if job.solver == "cadical": cmd += ["--sat-solver", "cadical"]
        elif job.solver.startswith("--"): cmd += job.solver.split()
        cmd += list(job.flags) + list(extra)
        t = time.time()
        rc, o, e = sh(cmd, timeout, mem=job.mem << 30)
        dt = time.time() - t
        with self.lock:
            if len(self.cmds) < 3: self.cmds.append(" ".join(cmd).replace(self.tmp, "$TMP"))
        res = {"rc": rc, "t": dt, "props": {}, "nobody": set(), "msg": "", "status": None}
        if rc == -9: res["msg"] = "timeout after %ds" % timeout; return res
        try: doc = json.loads(o)
        except Exception:
            res["msg"] = "unparsable output: " + (o + e)[-800:]; return res
        msgs = []
        for it in doc:
            if "messageText" in it:
                mt = it["messageText"]; msgs.append(mt)
                m = re.search(r"no body for (?:function|callee) '?([A-Za-z0-9_]+)", mt)
                if m: res["nobody"].add(m.group(1))
            if "result" in it:
                for r in it["result"]: res["props"][r["property"]] = r
            if "cProverStatus" in it: res["status"] = it["cProverStatus"]
        if res["status"] is None: res["msg"] = " | ".join(msgs)[-1200:] + e[-400:]
        return res

    def run_case(self, job, label, defs):
        """Proof attempt for one case. -> dict(outcome, ...)"""
        r = {"job": job.name, "case": label, "obl": 0, "ok": 0, "time": 0.0, "covers": 0, "failed": [], "why": "",
             "bounded": job.bounded, "harness_job": job, "defs": defs}
        if os.environ.get("VP_FORCE_NATIVE"):
            r["outcome"] = "undecided"; r["why"] = "proof skipped (VP_FORCE_NATIVE)"; return r
        binf, err = self.goto_bin(job, label, defs, job.must_cover)
        if err:
            r["outcome"] = "undecided"; r["why"] = err; return r
        unwind = job.unwind
        while True:
            c = self.cbmc(binf, job, [], job.timeout, unwind)
            r["time"] += c["t"]
            if c["status"] is None:
                if job.unwindset and "oop identifier" in c["msg"]:
                    m = re.search(r"oop identifier ['`]?([A-Za-z0-9_.]+)", c["msg"])
                    us = dict(job.unwindset)
                    if m and m.group(1) in us: us.pop(m.group(1))
                    else: us = {k: v for k, v in us.items() if k.startswith(("harness.", "spec_"))} if any(not k.startswith(("harness.", "spec_")) for k in us) else {}
                    job.unwindset = us; continue
                r["outcome"] = "undecided"; r["why"] = c["msg"]; return r
            fails, unw, covers_hit, covers_miss, n, bad = [], [], 0, [], 0, False
            for pid_, pr in c["props"].items():
                d = pr.get("description", "")
                if d.startswith("VPCOVER:"):
                    if pr["status"] == "FAILURE": covers_hit += 1
                    else: covers_miss.append(d[8:])
                    continue
                n += 1
                if pr["status"] == "FAILURE":
                    (unw if ("unwinding assertion" in d or ".unwind." in pid_ or "recursion unwinding" in d) else fails).append(pr)
                elif pr["status"] != "SUCCESS":
                    unw.append(pr); bad = bad or pr["status"] == "ERROR"
            r["obl"], r["ok"], r["covers"] = n, n - len(fails) - len(unw), covers_hit
            if fails: break
            if bad:
                r["outcome"] = "undecided"; r["why"] = "solver error (out of memory)"; return r
            if unw:
                if os.environ.get("VP_DBG"): print("UNWIND", job.name, label, [u["property"] for u in unw if u["status"] == "FAILURE"])
                if unwind * 2 <= job.maxunwind:
                    unwind *= 2; continue
                r["outcome"] = "undecided"; r["why"] = "unwinding bound %d not sufficient: %s" % (unwind, "; ".join("%s %s" % (u.get("property"), u.get("status")) for u in sorted(unw, key=lambda u: u["status"] != "FAILURE")[:3])); return r
            break
        nobody = c["nobody"] - HARMLESS_NOBODY
        if not fails:
            if n == 0:
                r["outcome"] = "undecided"; r["why"] = "no obligation generated"; return r
            if covers_miss:
                r["outcome"] = "undecided"; r["why"] = "vacuity: not reachable: " + ", ".join(covers_miss); return r
            if nobody: r["why"] = "no body (unconstrained result): " + ", ".join(sorted(nobody))
            r["outcome"] = "proved"; return r
        r["failed"] = [{"property": x["property"], "description": x["description"],
                        "line": (x.get("sourceLocation") or {}).get("line"), "file": (x.get("sourceLocation") or {}).get("file"),
                        "function": (x.get("sourceLocation") or {}).get("function")} for x in fails]
        if nobody: r["nobody"] = sorted(nobody)
        # counterexample; contract assertions first
        r["outcome"] = "failed"
        order = sorted(fails, key=lambda x: (0 if x["description"].startswith("VP:") else 1))
        for x in order[:3]:
            c = self.cbmc(binf, job, ["--property", x["property"], "--trace"], job.timeout, unwind, slice_=False)
            r["time"] += c["t"]
            pr = c["props"].get(x["property"])
            if pr and "trace" in pr:
                draws = []
                for st in pr["trace"]:
                    if st.get("stepType") == "assignment" and st.get("lhs") == "vp_drawn" and not st.get("hidden"):
                        v = st.get("value", {})
                        b = v.get("binary")
                        draws.append((st.get("thread"), int(b, 2) if b else int(re.sub(r"[a-zA-Z]", "", v.get("data", "0")) or 0)))
                vals = [d[1] for d in draws]
                st = self.replay(job, label, defs, vals)
                r.setdefault("cex", []).append({"property": x["property"], "values": vals, "native": st})
                if st["confirmed"]:
                    r["confirmed"] = st; r["confirmed_vals"] = vals; r["confirmed_prop"] = x["description"]
                    return r
        return r

    # ---- native ----------------------------------------------------------------------
    ENVN = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=1:allocator_may_return_null=1", "UBSAN_OPTIONS": "print_stacktrace=0:exitcode=1",
            "PATH": "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin", "LC_ALL": "C", "HOME": "/root"}

    def replay(self, job, label, defs, vals):
        if not job.native: return {"confirmed": False, "out": "no native form"}
        b, err = self.native_bin(job, label, defs)
        if err: return {"confirmed": False, "out": "native build failed: " + err}
        fd, f = tempfile.mkstemp(dir=self.tmp)
        with os.fdopen(fd, "w") as h: h.write("".join("%d\n" % v for v in vals))
        rc, o, e = sh([b, "replay", f], 30, cwd=self.tmp, env=self.ENVN)
        bad = rc not in (0, 77, 2)
        return {"confirmed": bad, "rc": rc, "out": (e or o)[-1500:]}

    def search(self, job, label, defs, secs, iters=10**9):
        if not job.native: return None
        b, err = self.native_bin(job, label, defs)
        if err: return {"confirmed": False, "out": "native build failed: " + err, "built": False}
        fd, f = tempfile.mkstemp(dir=self.tmp); os.close(fd)
        rc, o, e = sh([b, "search", str(self.seed), str(secs), str(iters), f], secs + 40, cwd=self.tmp, env=self.ENVN)
        if rc == 0: return {"confirmed": False, "out": o.strip(), "built": True}
        vals = [int(x) for x in open(f).read().split()]
        return {"confirmed": rc in (1,) or rc < 0, "rc": rc, "out": (e or o)[-1500:], "vals": vals, "built": True}

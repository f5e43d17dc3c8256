#!/usr/bin/env python3
"""Build the harness of one property from /repo's working tree, explore it
exhaustively on all cores, replay any violation, and write the evidence."""
import argparse, concurrent.futures, glob, hashlib, json, os, re, shutil, signal, struct, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "planner", "src")
sys.path.insert(0, VERIF)
from props import PROPS  # noqa: E402

CXX = os.environ.get("VERIF_CXX", "/usr/bin/g++")
BASE = ["-std=c++17", "-g1", "-w", "-pthread", "-I" + SRC, "-I" + os.path.join(VERIF, "src"),
        "-include", "cassert", "-include", "algorithm", "-DPP_ENABLE_ASSERT"]
SAN = ["-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize=vptr,alignment",
       "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
NCPU = os.cpu_count() or 4


def die(msg, code=2):
    print("ERROR: " + msg)
    sys.exit(code)


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p.encode() if isinstance(p, str) else p)
        h.update(b"\0")
    return h.hexdigest()[:16]


def tree_hash(root):
    h = hashlib.sha256()
    for d, dirs, files in os.walk(root):
        dirs.sort()
        for f in sorted(files):
            if f.endswith((".h", ".cpp", ".hpp", ".inl", ".tpp")):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, root).encode())
                with open(p, "rb") as fh:
                    h.update(fh.read())
    return h.hexdigest()


def compile_one(args):
    cmd, out = args
    if os.path.exists(out):
        return None
    tmp = out + ".tmp%d.o" % os.getpid()
    r = subprocess.run(cmd + ["-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        return " ".join(cmd) + "\n" + r.stdout[-6000:]
    os.replace(tmp, out)
    return None


LOCKS = ["pthread_mutex_lock", "pthread_mutex_unlock", "pthread_mutex_trylock", "pthread_once", "pthread_rwlock_rdlock",
         "pthread_rwlock_wrlock", "pthread_rwlock_unlock", "__cxa_guard_acquire", "__cxa_guard_release", "__cxa_guard_abort"]


def wrap_streams(objs, hdir):
    """Trampolines that make every operation on an output stream a scheduling point."""
    out = subprocess.run(["nm", "-u"] + objs, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True).stdout
    syms = sorted(set(l.split()[-1] for l in out.splitlines() if len(l.split()) == 2))
    dem = subprocess.run(["c++filt"], input="\n".join(syms), stdout=subprocess.PIPE, text=True).stdout.split("\n")
    pat = re.compile(r"^(std::basic_ostream<.*>& )?(std::ostream& )?(std::__ostream_insert<|std::operator<< ?<|std::ostream::|std::basic_ostream<[^(]*>::|std::basic_ofstream<[^(]*>::|std::endl<|std::flush<)")
    chosen = [s for s, d in zip(syms, dem) if pat.match(d) and s.startswith("_Z")]
    asm = [".text"]
    regs = ["rdi", "rsi", "rdx", "rcx", "r8", "r9"]
    for s in chosen:
        asm += [".globl __wrap_" + s, ".type __wrap_%s, @function" % s, "__wrap_%s:" % s]
        asm += ["  pushq %" + r for r in regs]
        asm += ["  subq $40, %rsp", "  movsd %xmm0, 16(%rsp)", "  call sched_stream@PLT", "  movsd 16(%rsp), %xmm0", "  addq $40, %rsp"]
        asm += ["  popq %" + r for r in reversed(regs)]
        asm += ["  jmp __real_%s@PLT" % s]
    asm += ['.section .note.GNU-stack,"",@progbits', ""]
    p = os.path.join(hdir, "wrap.s")
    with open(p, "w") as f:
        f.write("\n".join(asm))
    return [p] + ["-Wl,--wrap=" + s for s in chosen + LOCKS]


def build(prop, cfg):
    """Return the path of the harness binary."""
    flags = BASE + cfg.get("opt", ["-O1"]) + (SAN if cfg.get("san", True) else []) + cfg.get("flags", [])
    flags += ["-include", os.path.join(VERIF, "src", "verif_random.h")]
    th = tree_hash(SRC)
    with open(os.path.join(VERIF, "src", "verif_random.h")) as f:
        vr = f.read()
    extra = [os.path.join(REPO, x) for x in cfg.get("extra", [])]
    for x in extra:
        with open(x) as f:
            vr += f.read()
    libkey = sha(th, " ".join(flags), vr, str(cfg.get("tsan")), str(cfg.get("profiler")))
    root = os.path.join(VERIF, ".build")
    libdir = os.path.join(root, "lib-" + libkey)
    os.makedirs(libdir, exist_ok=True)
    libsrcs = []
    for s in sorted(glob.glob(os.path.join(SRC, "**", "*.cpp"), recursive=True)):
        rel = os.path.relpath(s, SRC)
        if rel == "core/log.cpp":
            continue
        if rel == "debug/profiler.cpp" and not cfg.get("profiler"):
            continue
        libsrcs.append((s, os.path.join(libdir, rel.replace("/", "__")[:-4] + ".o")))
    libsrcs += [(x, os.path.join(libdir, os.path.basename(x)[:-4] + ".o")) for x in extra]
    hs = [os.path.join(VERIF, "src", x) for x in ["mc.cpp"] + cfg["src"]]
    hcontent = ""
    for p in sorted(glob.glob(os.path.join(VERIF, "src", "*.h")) + glob.glob(os.path.join(VERIF, "src", "*.py"))) + hs:
        with open(p) as f:
            hcontent += p + f.read()
    key = sha(libkey, hcontent)
    hdir = os.path.join(root, "h-%s-%s" % (prop, key))
    os.makedirs(hdir, exist_ok=True)
    binary = os.path.join(hdir, "harness")
    if os.path.exists(binary):
        return binary
    jobs = []
    # tsan: memory accesses are instrumented, and reported to sched.cpp
    inst = ["-fsanitize=thread"] if cfg.get("tsan") else []
    if cfg.get("lib", True):
        jobs += [(CXX.split() + flags + inst + ["-c", s], o) for s, o in libsrcs]
    hobjs = []
    for s in hs:
        o = os.path.join(hdir, os.path.basename(s)[:-4] + ".o")
        hobjs.append(o)
        fl = flags + ([] if os.path.basename(s) in ("mc.cpp", "sched.cpp") else inst)
        jobs.insert(0, (CXX.split() + fl + ["-c", s], o))
    with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
        errs = [e for e in ex.map(compile_one, jobs) if e]
    if errs:
        die("harness for %s does not compile against the tree:\n%s" % (prop, errs[0]))
    objs = hobjs + ([o for _, o in libsrcs] if cfg.get("lib", True) else [])
    if cfg.get("tsan"):
        objs += wrap_streams([o for o in objs if os.path.basename(o) not in ("mc.o", "sched.o")], hdir)
    cmd = CXX.split() + flags + objs + ["-o", binary + ".tmp"] + cfg.get("libs", ["-lflann", "-llz4"])
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        die("harness for %s does not link:\n%s" % (prop, r.stdout[-6000:]))
    os.replace(binary + ".tmp", binary)
    # Keep the build cache small.
    for pat, keep in (("lib-*", 4), ("h-%s-*" % prop, 2)):
        ds = sorted(glob.glob(os.path.join(root, pat)), key=os.path.getmtime, reverse=True)
        for d in ds[keep:]:
            if d not in (libdir, hdir):
                shutil.rmtree(d, ignore_errors=True)
    return binary


ENV = dict(os.environ)
ENV["ASAN_OPTIONS"] = "detect_leaks=0:exitcode=77:hard_rss_limit_mb=3400:quarantine_size_mb=32:malloc_context_size=6:allocator_may_return_null=0"
ENV["UBSAN_OPTIONS"] = "print_stacktrace=1:exitcode=77"


class Worker:
    def __init__(self, binary, prop, tier, args, scratch, tag):
        self.status = os.path.join(scratch, "status-" + tag)
        self.outp = os.path.join(scratch, "out-" + tag)
        self.errp = os.path.join(scratch, "err-" + tag)
        self.args = args
        cmd = [binary, "--prop", prop, "--status", self.status] + args
        if tier == "thorough":
            cmd.append("--thorough")
        self.out = open(self.outp, "w")
        self.err = open(self.errp, "w")
        self.p = subprocess.Popen(cmd, stdout=self.out, stderr=self.err, env=ENV, cwd=scratch, start_new_session=True)
        self.last = (0, time.time())
        self.done = False
        self.hang = False

    def read_status(self):
        try:
            with open(self.status, "rb") as f:
                b = f.read()
            prog, scen, phase, ln = struct.unpack_from("<QQQQ", b, 0)
            ln = min(ln, 4096)
            ch = struct.unpack_from("<%di" % ln, b, 32) if ln else ()
            return prog, scen, phase, list(ch)
        except Exception:
            return 0, 0, 0, []

    def cpu(self):
        try:
            with open("/proc/%d/stat" % self.p.pid) as f:
                v = f.read().rsplit(")", 1)[1].split()
            return (int(v[11]) + int(v[12])) / os.sysconf("SC_CLK_TCK")
        except Exception:
            return 0.0

    def poll(self, stall):
        """stall is measured in CPU seconds without progress (plus a wall limit for deadlocks)."""
        if self.p.poll() is not None:
            self.done = True
            return
        prog = self.read_status()[0]
        if prog != self.last[0]:
            self.last = (prog, time.time())
            self.cpu0 = self.cpu()
        else:
            c = self.cpu() - getattr(self, "cpu0", 0.0)
            w = time.time() - self.last[1]
            if c > stall or w > 6 * stall:
                self.hang = True
                self.kill()
                self.done = True

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        self.p.wait()

    def results(self):
        self.out.flush()
        res = []
        with open(self.outp, errors="replace") as f:
            for line in f:
                line = line.strip()
                if line.startswith('{"scenario"'):
                    try:
                        res.append(json.loads(line))
                    except ValueError:
                        pass
        return res

    def stderr(self):
        with open(self.errp, errors="replace") as f:
            return f.read()


def scen_names(binary, prop, tier):
    cmd = [binary, "--prop", prop, "--list"] + (["--thorough"] if tier == "thorough" else [])
    r = subprocess.run(cmd, stdout=subprocess.PIPE, text=True, env=ENV)
    return r.stdout.split()


def first_lines(err):
    keep = [l for l in err.splitlines() if re.search(r"runtime error|ERROR: AddressSanitizer|SUMMARY|Assertion|terminate|what\(\)", l)]
    return " | ".join(keep[:4])[:800]


def run_single(binary, prop, tier, scratch, tag, args, limit):
    """Run one replay / shard to its end. Returns (kind, info)."""
    w = Worker(binary, prop, tier, args, scratch, tag)
    t0 = time.time()
    while True:
        w.poll(limit)
        if w.done:
            break
        time.sleep(0.02)
    res = w.results()
    bad = [r for r in res if r["violated"]]
    if w.hang:
        return "hang", {"msg": "does not terminate (no progress in %d s of CPU time)" % limit}, w
    if bad:
        return "violation", bad[0], w
    rc = w.p.returncode
    if rc == 3:
        return "error", {"msg": w.stderr()[-2000:]}, w
    if rc != 0:
        return "crash", {"msg": "terminated abnormally (rc=%s) %s" % (rc, first_lines(w.stderr()))}, w
    return "ok", {}, w


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--scenario")
    ap.add_argument("--replay", help="replay file written by a previous run")
    ap.add_argument("--build-only", action="store_true")
    a = ap.parse_args()
    prop, tier = a.prop, ("thorough" if a.tier == "thorough" else "quick")
    cfg = PROPS[prop]
    t0 = time.time()
    binary = build(prop, cfg)
    if a.build_only:
        return 0
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    try:
        return explore(prop, tier, cfg, binary, scratch, t0, a)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def explore(prop, tier, cfg, binary, scratch, t0, a):
    stall = cfg.get("stall", 60)
    if a.replay:
        with open(a.replay) as f:
            r = json.load(f)
        args = ["--scenario", r["scenario"]]
        args += ["--replay", r["choices"]] if r.get("choices") is not None else ["--shard", r["shard"]]
        kind, info, w = run_single(binary, prop, r.get("tier", tier), scratch, "replay", args, 2 * stall)
        print(kind, json.dumps(info, indent=1))
        print(w.stderr()[-3000:])
        return 0 if kind == "ok" else 1

    names = scen_names(binary, prop, tier)
    if a.scenario:
        names = [a.scenario]
    if not names:
        die("no scenario for " + prop)
    shards = cfg.get("shards", NCPU)
    deadline = float(os.environ.get("VERIF_DEADLINE", "560" if tier == "quick" else str(cfg.get("thorough_s", 3000))))
    deadline = max(60.0, deadline - (time.time() - t0))
    extra = ["--deadline", str(deadline)] + (["--scenario", a.scenario] if a.scenario else [])
    ws = [Worker(binary, prop, tier, extra + ["--shard", "%d/%d" % (i, shards)], scratch, "s%d" % i) for i in range(shards)]
    bad = None
    while True:
        alive = 0
        for i, w in enumerate(ws):
            if w.done:
                continue
            w.poll(stall)
            if not w.done:
                alive += 1
                continue
            res = w.results()
            v = [r for r in res if r["violated"]]
            if v:
                bad = ("violation", i, v[0]["scenario"], v[0]["choices_seq"], v[0]["msg"])
            elif w.hang or w.p.returncode != 0:
                if w.p.returncode == 3 and not w.hang:
                    for x in ws:
                        x.kill()
                    die("explorer error in %s: %s" % (prop, w.stderr()[-2000:]))
                prog, sidx, phase, ch = w.read_status()
                ndone = len(res)
                scen = names[ndone] if ndone < len(names) else names[-1]
                kind = "hang" if w.hang else "crash"
                msg = "no progress" if w.hang else "rc=%s %s" % (w.p.returncode, first_lines(w.stderr()))
                bad = (kind, i, scen, ",".join(map(str, ch)), msg)
            if bad:
                break
        if bad or not alive:
            break
        time.sleep(0.05)
    violations = 0
    replay_path = None
    vmsg = None
    if bad:
        for x in ws:
            if not x.done:
                x.kill()
        kind, i, scen, ch, msg = bad
        args = ["--scenario", scen, "--replay", ch]
        k2, info, w2 = run_single(binary, prop, tier, scratch, "r1", args, 2 * stall)
        rep = {"property": prop, "scenario": scen, "choices": ch, "tier": tier, "kind": kind, "message": msg}
        if k2 in ("violation", "crash", "hang"):
            rep["message"] = info.get("msg", msg)
            rep["trace"] = info.get("notes", "")
            rep["stderr"] = w2.stderr()[-3000:]
        else:
            # The failing execution depends on earlier ones of the same worker: replay the worker.
            args = ["--scenario", scen, "--shard", "%d/%d" % (i, shards)]
            k2, info, w2 = run_single(binary, prop, tier, scratch, "r2", args, 2 * stall)
            if k2 not in ("violation", "crash", "hang"):
                die("a failure of %s.%s could not be reproduced (%s: %s)" % (prop, scen, kind, msg))
            rep["choices"] = None
            rep["shard"] = "%d/%d" % (i, shards)
            rep["message"] = info.get("msg", msg)
        violations = 1
        os.makedirs(os.path.join(VERIF, "replay"), exist_ok=True)
        replay_path = os.path.join(VERIF, "replay", "%s-%s.json" % (prop, scen))
        with open(replay_path, "w") as f:
            json.dump(rep, f, indent=1)
        vmsg = rep
    # Merge.
    merged = {}
    for w in ws:
        for r in w.results():
            m = merged.setdefault(r["scenario"], {"executions": 0, "pruned": 0, "transitions": 0, "states": 0, "outcomes": 0, "complete": True, "wall": 0, "samples": []})
            for k in ("executions", "pruned", "transitions", "states"):
                m[k] += r[k]
            m["outcomes"] = max(m["outcomes"], r["outcomes"])
            m["wall"] = round(max(m["wall"], r["wall"]), 2)
            m["complete"] &= r["complete"]
            m["samples"] += r["samples"][:1]
    exhaustive = not bad and bool(merged) and set(merged) == set(names) and all(m["complete"] for m in merged.values())
    samples = []
    for n, m in merged.items():
        for s in m["samples"][:2]:
            samples.append("%s: %s" % (n, s[:700]))
    cov = {
        "states": sum(m["states"] for m in merged.values()),
        "transitions": sum(m["transitions"] for m in merged.values()),
        "traces_validated_against_impl": sum(m["executions"] for m in merged.values()),
        "samples": samples[:24],
        "exhaustive": exhaustive,
        "bounds": cfg.get("bounds", ""),
        "scenarios": {n: {k: m[k] for k in ("executions", "pruned", "transitions", "states", "outcomes", "complete", "wall")} for n, m in merged.items()},
        "meaning": "states: distinct abstract states of the real objects (summed over workers); transitions: real-code steps compared with the oracle; "
                   "traces_validated_against_impl: complete executions of the real code, each compared with the reference model",
    }
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking",
          "coverage": cov, "wall_s": round(time.time() - t0, 2), "violations": violations,
          "assumptions": cfg.get("assumptions", [])}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    if not a.scenario:
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    print("%s %s: %d executions, %d states, %d transitions, exhaustive=%s, %.1f s" % (
        prop, tier, cov["traces_validated_against_impl"], cov["states"], cov["transitions"], exhaustive, time.time() - t0))
    for n, m in merged.items():
        print("  %-28s exec=%d pruned=%d states=%d trans=%d outcomes=%d complete=%s wall=%.1f" % (
            n, m["executions"], m["pruned"], m["states"], m["transitions"], m["outcomes"], m["complete"], m["wall"]))
    for k in known(prop):
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    if violations:
        print("  scenario %s: %s" % (vmsg["scenario"], vmsg["message"]))
        if vmsg.get("trace"):
            print("  trace: " + vmsg["trace"][:1500])
        print("VIOLATION property=%s replay=%s" % (prop, replay_path))
        return 1
    return 0


def known(prop):
    try:
        with open(os.path.join(VERIF, "known_findings.json")) as f:
            return [k for k in json.load(f)["findings"] if k["property"] == prop]
    except FileNotFoundError:
        return []


if __name__ == "__main__":
    sys.exit(main())

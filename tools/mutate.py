#!/usr/bin/env python3
"""Mutation campaign on a scratch copy: mutate.py OUT.jsonl COUNT_PER_FILE SEED [file-regex]
Small textual mutations of the library; those that build and pass the C++ tests are given to the checks of the
properties anchored in the mutated file (and the extra ones below). Survivors are examined by hand."""
import glob, json, os, random, re, shutil, subprocess, sys, time
REPO, V = "/tmp/mut/repo", "/tmp/mut/verif"
MAP = [  # file regex -> properties, most specific first
    (r"utils/frontier", ["C01", "C02"]), (r"algo/a_star\.h", ["C02", "C04", "C03"]), (r"a_star_n2", ["C03"]),
    (r"bidirectional", ["C04"]), (r"utils/node", ["C05", "C02"]), (r"utils/tree", ["C05", "C07", "C06"]), (r"algo/rrt\.h", ["C06"]), (r"rrt_star", ["C07"]),
    (r"geometry/reeds", ["C08", "C09"]), (r"geometry/2d", ["C10", "C14"]), (r"kinematic", ["C10", "C09"]), (r"paths/", ["C09", "C20", "C16"]),
    (r"state_space", ["C21", "C06"]), (r"gvd", ["C12", "C13"]), (r"/obstacle\.", ["C15", "C11"]), (r"obstacle_list", ["C11"]),
    (r"occupancy_map\.(h|cpp)", ["C14", "C11", "C16"]), (r"state_validator", ["C16"]), (r"utils/grid", ["C03", "C17", "C12", "C13"]),
    (r"heuristics", ["C17", "C18", "C02", "C04"]), (r"smoother", ["C19"]), (r"hybrid", ["C20"]), (r"profiler", ["C22"]), (r"singleton", ["C23", "C22"]),
    (r"random", ["C21"]), (r"maths", ["C10", "C08"]), (r"path_planner", ["C02", "C20"]), (r"core/hash", ["C10"]),
]
OPS = [
    (r"(?<![<>=!+\-*/&|-])<(?![<=])(?=\s)", ["<="]), (r"(?<=\s)>(?![>=])(?=\s)", [">="]), (r"<=", ["<"]), (r"(?<![>-])>=", [">"]),
    (r"==", ["!="]), (r"!=", ["=="]), (r"&&", ["||"]), (r"\|\|", ["&&"]),
    (r"(?<=\s)\+(?=\s)", ["-"]), (r"(?<=\s)-(?=\s)", ["+"]), (r"(?<=\s)\*(?=\s)", ["/"]), (r"(?<=\s)/(?=\s)", ["*"]),
    (r"\+=", ["-="]), (r"-=", ["+="]), (r"\+\+", ["--"]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
    (r"(?<![\w.])0(?![\w.])", ["1"]), (r"(?<![\w.])1(?![\w.])", ["0", "2"]), (r"(?<![\w.])2(?![\w.])", ["1", "3"]),
    (r"\b(\d+)\.(\d+)f?\b", ["(2 * \\g<0>)"]), (r"\bstd::sin\b", ["std::cos"]), (r"\bstd::cos\b", ["std::sin"]), (r"\bsin\(", ["cos("]), (r"\bcos\(", ["sin("]),
    (r"std::max\b", ["std::min"]), (r"std::min\b", ["std::max"]), (r"std::floor\b", ["std::ceil"]), (r"std::ceil\b", ["std::floor"]), (r"std::round\b", ["std::floor"]),
    (r"std::abs\(", ["("]), (r"if \((?!!)", ["if (!("]), (r"\.x\(\)", [".y()"]), (r"\.y\(\)", [".x()"]), (r"\.row\b", [".col"]), (r"\.col\b", [".row"]),
    (r"\brow\b", ["col"]), (r"\bcol\b", ["row"]), (r"Forward\b", ["Backward"]), (r"\bfrom\b", ["to"]), (r"\bto\b", ["from"]), (r"\bbreak;", ["continue;"]), (r"\bcontinue;", ["break;"]),
    (r"\bf(Cost|orward)\b", ["r\\1"]), (r"\brows\b", ["columns"]), (r"\bcolumns\b", ["rows"]), (r"\blength\b", ["(length * 2)"]),
]
def sh(c, **k):
    return subprocess.run(c, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
def candidates(path):
    out = []
    lines = open(path).read().split("\n")
    for i, l in enumerate(lines):
        st = l.strip()
        if not st or st.startswith(("//", "#", "*", "/*", "template", "using", "PP_", "assert", "namespace", "friend", "class", "struct", "static_assert")) or "PP_" in l:
            continue
        code = l.split("//")[0]
        for pat, reps in OPS:
            for m in re.finditer(pat, code):
                if code[:m.start()].count('"') % 2:
                    continue
                for r in reps:
                    new = code[:m.start()] + m.expand(r) + code[m.end():]
                    if r == "if (!(":
                        new = re.sub(r"\)(\s*\{?)$", r"))\1", new, count=1)
                    if new != code:
                        out.append((i, l, new))
        if st.endswith(";") and not re.match(r"(return|break|continue|using|typedef|static|const|auto|[\w:<>,\* &]+ \w+( = .*)?;$)", st):
            out.append((i, l, re.match(r"\s*", l).group(0) + ";"))
    return out
def main():
    outp, n, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    rx = re.compile(sys.argv[4] if len(sys.argv) > 4 else ".")
    rnd = random.Random(seed)
    if not os.path.isdir(REPO):
        os.makedirs("/tmp/mut", exist_ok=True)
        sh("git clone -q /repo %s" % REPO)
        sh("cp -a /repo/external %s/" % REPO)
    sh("git -C %s checkout -q -- . && git -C %s pull -q" % (REPO, REPO))
    shutil.rmtree(V, ignore_errors=True)
    os.makedirs(V)
    sh("cp -a /verif/run.py /verif/props.py /verif/known_findings.json /verif/src %s/" % V)
    os.makedirs(V + "/tools", exist_ok=True)
    env = dict(os.environ, VERIF_REPO=REPO, VERIF_CXX="ccache /usr/bin/g++", CCACHE_MAXSIZE="3G")
    done = set()
    if os.path.exists(outp):
        for l in open(outp):
            d = json.loads(l)
            done.add((d["file"], d["line"], d["new"]))
    cfgcmd = ('cmake -S . -B _build -G Ninja -Wno-dev -DCMAKE_BUILD_TYPE= -DCMAKE_CXX_FLAGS="-O2 -UNDEBUG -include cassert -include algorithm" '
              '-DENABLE_LOGGING=OFF -DENABLE_ASSERT=ON -DPYTHON_EXECUTABLE=/usr/bin/python3 -DCMAKE_POLICY_VERSION_MINIMUM=3.5 -DCMAKE_CXX_COMPILER_LAUNCHER=ccache')
    r = sh(cfgcmd + " && ninja -C _build", cwd=REPO, env=env)
    assert r.returncode == 0, r.stdout[-2000:]
    todo = []
    for f in sorted(glob.glob(REPO + "/planner/src/**/*", recursive=True)):
        rel = os.path.relpath(f, REPO + "/planner/src")
        if not f.endswith((".h", ".cpp")) or not rx.search(rel):
            continue
        props = next((p for x, p in MAP if re.search(x, rel)), None)
        if not props:
            continue
        c = candidates(f)
        rnd.shuffle(c)
        per = max(3, min(n, len(c) // 3)) if n < 1000 else len(c)
        todo += [(rel, props, x) for x in c[:per]]
    rnd.shuffle(todo)
    print(len(todo), "mutants")
    for rel, props, (i, old, new) in todo:
        if (rel, i + 1, new.strip()) in done:
            continue
        f = REPO + "/planner/src/" + rel
        src = open(f).read()
        lines = src.split("\n")
        assert lines[i] == old
        lines[i] = new
        open(f, "w").write("\n".join(lines))
        rec = {"file": rel, "line": i + 1, "old": old.strip(), "new": new.strip()}
        try:
            r = sh("timeout 600 ninja -C _build", cwd=REPO, env=env)
            if r.returncode:
                rec["result"] = "nocompile"
            else:
                r = sh("timeout 100 ctest --test-dir _build -j8 --timeout 20", cwd=REPO, env=env)
                if r.returncode:
                    rec["result"] = "tests"
                else:
                    rec["result"] = "SURVIVED"
                    for p in props:
                        t = time.time()
                        r = sh("timeout 900 python3 run.py %s" % p, cwd=V, env=env)
                        if r.returncode == 1 and "VIOLATION property=" + p in r.stdout:
                            rec.update(result="caught", by=p, s=round(time.time() - t), msg=[x for x in r.stdout.splitlines() if x.strip().startswith("scenario")][:1])
                            break
                        if r.returncode != 0:
                            rec.update(result="ERROR", by=p, msg=r.stdout[-500:])
                            break
        finally:
            open(f, "w").write(src)
        with open(outp, "a") as o:
            o.write(json.dumps(rec) + "\n")
main()

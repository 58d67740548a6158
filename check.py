#!/usr/bin/env python3
"""check.py <property-id> <quick|thorough>   decide one property on /repo's working tree.

Builds the property's explorer (harness + the real /repo sources it needs), runs it,
writes evidence/<id>.json and exits 0 (held on everything explored) or 1 with a
VIOLATION line.  Exit 2: the check itself could not run (e.g. the tree does not compile).
"""
import concurrent.futures, hashlib, json, os, re, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
sys.path.insert(0, os.path.join(VERIF, "lib"))
from specs import SPECS, SETS  # noqa

JOBS = int(os.environ.get("VERIF_JOBS", os.cpu_count() or 8))
BASE_FLAGS = ["-std=c++14", "-O1", "-g1", "-w", "-fno-omit-frame-pointer", "-ffunction-sections",
              "-D_GLIBCXX_ASSERTIONS", "-DENVIRE_VERIF_HARNESS", "-ftrivial-auto-var-init=pattern"]
ASAN = ["-fsanitize=address"]


def log(*a):
    print(*a, flush=True)


def sha(path, cache={}):
    try:
        st = os.stat(path)
    except OSError:
        return None
    k = (path, st.st_mtime_ns, st.st_size)
    if k not in cache:
        h = hashlib.sha256()
        with open(path, "rb") as f:
            h.update(f.read())
        cache[k] = h.hexdigest()
    return cache[k]


def includes():
    inc = os.path.join(BUILD, "include")
    os.makedirs(inc, exist_ok=True)
    link = os.path.join(inc, "envire")
    want = os.path.join(REPO, "src")
    if not (os.path.islink(link) and os.readlink(link) == want):
        tmp = link + ".%d" % os.getpid()
        os.symlink(want, tmp)
        os.replace(tmp, link)
    return ["-I" + os.path.join(VERIF, "stubs"), "-I" + inc, "-I" + want, "-I" + os.path.join(VERIF, "mc"),
            "-I" + os.path.join(VERIF, "harness"), "-isystem", "/usr/include/eigen3"]


def compile_one(src, flags):
    key = hashlib.sha256(("\0".join([src] + flags)).encode()).hexdigest()[:20]
    objdir = os.path.join(BUILD, "obj")
    os.makedirs(objdir, exist_ok=True)
    obj = os.path.join(objdir, os.path.basename(src).replace(".cpp", "") + "-" + key + ".o")
    meta = obj + ".json"
    if os.path.exists(obj) and os.path.exists(meta):
        try:
            deps = json.load(open(meta))
            if all(sha(d) == h for d, h in deps.items()):
                return obj, None
        except Exception:
            pass
    tmp = obj + ".%d.tmp.o" % os.getpid()
    dfile = tmp + ".d"
    p = subprocess.run(["g++"] + flags + ["-MMD", "-MF", dfile, "-c", src, "-o", tmp], capture_output=True, text=True)
    if p.returncode:
        return None, "compiling %s failed:\n%s" % (src, "\n".join(l for l in p.stderr.splitlines() if "error" in l)[:3000] or p.stderr[-3000:])
    deps = {}
    txt = open(dfile).read().replace("\\\n", " ")
    for d in txt.split(":", 1)[1].split():
        if not d.startswith("/usr/"):
            deps[d] = sha(d)
    os.unlink(dfile)
    os.replace(tmp, obj)
    json.dump(deps, open(meta, "w"))
    return obj, None


def programs(names):
    """copies of programs that can be called as functions: main is renamed, and returns 0 if it ends without a return"""
    out = os.path.join(BUILD, "gen", "tools")
    os.makedirs(out, exist_ok=True)
    for n in names:
        p = os.path.join(REPO, "tools", n)
        if not os.path.exists(p):
            return "source %s is missing" % p
        t = open(p).read()
        # a version without strings and comments, of the same length, to find braces
        q = re.sub(r'//[^\n]*|/\*.*?\*/|"(?:\\.|[^"\\\n])*"|\'(?:\\.|[^\'\\\n])*\'', lambda m: re.sub(r"[^\n]", " ", m.group(0)), t, flags=re.S)
        m = re.search(r"\bmain\s*\(", q)
        if not m:
            return "no main function in %s" % p
        i = q.index("{", m.end())
        d, j = 0, i
        while j < len(q):
            d += (q[j] == "{") - (q[j] == "}")
            if d == 0:
                break
            j += 1
        t = '#line 1 "%s"\n' % p + t[:m.start()] + "tool_main(" + t[m.end():j] + "\nreturn 0; " + t[j:]
        f = os.path.join(out, n)
        if not os.path.exists(f) or open(f).read() != t:
            open(f + ".%d" % os.getpid(), "w").write(t)
            os.replace(f + ".%d" % os.getpid(), f)
    return None


def build(spec):
    if spec.get("programs"):
        err = programs(spec["programs"])
        if err:
            return None, err
    flags = BASE_FLAGS + ([] if spec.get("noasan") else ASAN) + [f.replace("{REPO}", REPO).replace("{GEN}", os.path.join(BUILD, "gen")) for f in spec.get("flags", [])] + includes()
    srcs = [os.path.join(VERIF, "harness", s) for s in spec["harness"]]
    names = []
    for s in spec.get("repo", []):
        for n in (SETS[s[1:]] if s.startswith("@") else [s]):
            if n not in names:
                names.append(n)
    # slow translation units first
    slow = ["maps/Grids.cpp", "core/Transform.cpp", "maps/MLSGrid.cpp", "tools/PlyFile.cpp"]
    names.sort(key=lambda n: slow.index(n) if n in slow else 99)
    for s in names:
        p = os.path.join(REPO, "src" if not s.startswith("icp/") else "", s)
        if not os.path.exists(p):
            return None, "source %s is missing" % p
        srcs.append(p)
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        res = list(ex.map(lambda s: compile_one(s, flags + (["-O0"] if os.path.basename(s) in spec.get("o0", []) else [])), srcs))
    errs = [e for _, e in res if e]
    if errs:
        return None, "\n".join(errs)
    objs = [o for o, _ in res]
    exe = os.path.join(BUILD, "bin", spec["id"] + "-%d" % os.getpid())
    os.makedirs(os.path.dirname(exe), exist_ok=True)
    p = subprocess.run(["g++"] + ([] if spec.get("noasan") else ASAN) + ["-o", exe] + objs + ["-Wl,--gc-sections"] +
                       spec.get("libs", []) + ["-lpthread"], capture_output=True, text=True)
    if p.returncode and "undefined reference" in p.stderr:
        # code may have moved to other translation units: offer all that compile here
        more = []
        for d, _, fs in list(os.walk(os.path.join(REPO, "src"))) + (list(os.walk(os.path.join(REPO, "icp"))) if spec["id"].startswith("I") else []):
            more += [os.path.join(d, f) for f in fs if f.endswith(".cpp") and os.path.join(d, f) not in srcs]
        with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
            extra = [o for o, _ in ex.map(lambda s: compile_one(s, flags), sorted(more)) if o]
        lib = exe + ".a"
        if os.path.exists(lib):
            os.unlink(lib)
        if extra:
            subprocess.run(["ar", "crs", lib] + extra, capture_output=True)
            p = subprocess.run(["g++"] + ([] if spec.get("noasan") else ASAN) + ["-o", exe] + objs + [lib, "-Wl,--gc-sections"] +
                               spec.get("libs", []) + ["-lpthread"], capture_output=True, text=True)
    if p.returncode:
        return None, "link failed:\n" + p.stderr[-3000:]
    return exe, None


def known_findings(pid):
    out = []
    p = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l:
                d = json.loads(l)
                if d.get("property") == pid and d.get("status") == "known":
                    out.append(d)
    return out


def main():
    pid, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    spec = dict(SPECS[pid])
    spec["id"] = pid
    t0 = time.time()
    exe, err = build(spec)
    if err:
        log("ERROR: cannot build the explorer for %s\n%s" % (pid, err))
        return 2
    tb = time.time() - t0
    ev_dir = os.path.join(VERIF, "evidence")
    os.makedirs(ev_dir, exist_ok=True)
    rep_dir = os.path.join(VERIF, "replays")
    os.makedirs(rep_dir, exist_ok=True)
    scratch = os.path.join(BUILD, "scratch-%s-%d" % (pid, os.getpid()))
    os.makedirs(scratch, exist_ok=True)
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:max_malloc_fill_size=1048576:malloc_fill_byte=%d:detect_stack_use_after_return=1:handle_abort=1:color=never" % spec.get("fill", 190)
    env["VERIF_SCRATCH"] = scratch
    kf = known_findings(pid)
    env["VERIF_KNOWN"] = ",".join(d["key"] for d in kf)
    replay = os.path.join(rep_dir, pid + ".replay")
    outj = os.path.join(scratch, "stats.json")
    if os.path.exists(replay):
        os.unlink(replay)
    cmd = [exe, "--out", outj, "--replay-out", replay, "--jobs", str(JOBS)]
    if tier == "thorough":
        cmd += ["--thorough"]
    p = subprocess.run(cmd, capture_output=True, text=True, env=env, cwd=scratch)
    log(p.stdout.strip()[-4000:])
    stats = json.load(open(outj)) if os.path.exists(outj) else None
    rc = p.returncode
    violations = 1 if rc == 10 else 0
    if stats:
        ev = {
            "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": spec["level"],
            "technique": "explicit exhaustive enumeration (choice-tree model checking) of the real implementation",
            "coverage": {
                    "states": max(stats["states"], stats["outcomes"]), "transitions": stats["transitions"],
                    "executions": stats["executions"], "pruned_by_state_matching": stats["pruned"],
                    "oracle_checks": stats["checks"], "distinct_outcomes": stats["outcomes"],
                    "traces_validated_against_impl": stats["executions"],
                    "exhaustive": rc == 0,
                    "samples": [s["name"] + " (bound %d%s): " % (s["bound"], ", state matching" if s["dedup"] else "") + s["desc"] for s in stats["scenarios"]],
            },
            "wall_s": round(time.time() - t0, 2), "build_s": round(tb, 2), "violations": violations,
            "known_findings": [d["what"] for d in kf],
            "assumptions": spec.get("assumptions", []) + [
                "The Rock/GDAL/ply dependencies are replaced by the stand-ins in /verif/stubs; the sources of the repository itself are compiled unmodified from the working tree.",
                "Every reported execution ran on the implementation itself, so all explored traces are implementation traces."],
        }
        json.dump(ev, open(os.path.join(ev_dir, pid + ".json"), "w"), indent=1)
    subprocess.run(["rm", "-rf", scratch])
    try:
        os.unlink(exe)
    except OSError:
        pass
    if rc == 0:
        for d in kf:
            log("KNOWN-FINDING: property=%s %s" % (pid, d["what"]))
        return 0
    if rc == 10:
        lg = replay + ".log"
        if os.path.exists(lg):
            log(open(lg, errors="replace").read()[-3000:])
        with open(replay, "a") as f:
            f.write("# re-run: python3 %s/check.py --replay %s %s\n" % (VERIF, pid, replay))
        log("VIOLATION property=%s replay=%s" % (pid, replay))
        return 1
    log("ERROR: explorer ended with %d\n%s" % (rc, p.stderr[-3000:]))
    return 2


def do_replay():
    pid, path = sys.argv[2], sys.argv[3]
    spec = dict(SPECS[pid]); spec["id"] = pid
    exe, err = build(spec)
    if err:
        log(err); return 2
    scratch = os.path.join(BUILD, "scratch-%s-%d" % (pid, os.getpid()))
    os.makedirs(scratch, exist_ok=True)
    env = dict(os.environ); env["VERIF_SCRATCH"] = scratch
    env["ASAN_OPTIONS"] = "detect_leaks=0:exitcode=77:max_malloc_fill_size=1048576:malloc_fill_byte=%d:handle_abort=1" % spec.get("fill", 190)
    env["VERIF_KNOWN"] = ",".join(d["key"] for d in known_findings(pid))
    rc = subprocess.run([exe, "--replay", path], env=env, cwd=scratch).returncode
    subprocess.run(["rm", "-rf", scratch]); os.unlink(exe)
    return rc


if __name__ == "__main__":
    if sys.argv[1] == "--replay":
        sys.exit(do_replay())
    if sys.argv[1] == "--build":
        ids = sys.argv[2:] or sorted(SPECS)
        for i in ids:
            s = dict(SPECS[i]); s["id"] = i
            exe, err = build(s)
            log(i, "ok" if exe else err)
            if exe:
                os.unlink(exe)
        sys.exit(0)
    sys.exit(main())

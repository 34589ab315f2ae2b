#!/usr/bin/env python3
"""Builds and runs the model-checking harnesses of one property against the code in /repo.

usage: run_check.py <property>            quick or thorough exploration (VERIF_TIER)
       run_check.py --replay FILE         re-runs one recorded counterexample, with a full log
       run_check.py --selftest            checks the tool chain and the explorer itself
exit: 0 property held on everything explored, 1 violation (line VIOLATION ...), 2 error of the check
"""
import concurrent.futures, glob, json, os, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
from checks import CHECKS  # noqa: E402

SAN = ["-fsanitize=address,bounds,shift,signed-integer-overflow,integer-divide-by-zero,return,unreachable,enum,bool",
       "-fno-sanitize-recover=all"]
BASE = ["-std=c++17", "-g1", "-w", "-fno-omit-frame-pointer", "-ftrivial-auto-var-init=pattern"]


def repo_globs(*pats):
    r = []
    for p in pats:
        r += sorted(glob.glob(os.path.join(REPO, p)))
    return r


COMPONENTS = {
    "none": lambda: ([], [REPO]),
    "core": lambda: (repo_globs("*.cpp"), [REPO]),
    "graphics": lambda: (repo_globs("*.cpp", "graphics/*.cpp"), [REPO]),
    "arduino": lambda: (repo_globs("*.cpp", "arduino/*.cpp"), [HERE + "/stubs/arduino", REPO]),
    "esp": lambda: (repo_globs("*.cpp", "esp32-esp-idf/*.cpp"), [HERE + "/stubs/esp", REPO]),
    "converter": lambda: (repo_globs("*.cpp", "graphics/*.cpp", "gfx-font-converter/*.cpp"),
                          [REPO, REPO + "/gfx-font-converter", "/usr/include/freetype2"]),
    "converter-nomain": lambda: ([f for f in repo_globs("*.cpp", "gfx-font-converter/*.cpp") if not f.endswith("/main.cpp")],
                                 [REPO, REPO + "/gfx-font-converter", "/usr/include/freetype2"]),
}


def env():
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=98:allocator_may_return_null=1:detect_stack_use_after_return=0"
    e["UBSAN_OPTIONS"] = "print_stacktrace=0:halt_on_error=1:exitcode=97"
    e["LC_ALL"] = "C"
    return e


class BuildError(Exception):
    pass


def compile_all(pid, builds, out):
    """Compiles every build of a check, all object files in parallel; returns {build name: binary}."""
    jobs, links = [], []
    for b in builds:
        srcs, incs = COMPONENTS[b["component"]]()
        cxx = b.get("cxx", "g++")
        san = b.get("san", SAN)
        opt = b.get("opt", "-O1")
        flags = BASE + [opt] + san + ["-I" + HERE + "/mc", "-I" + HERE + "/harness"] + ["-I" + i for i in incs] + b.get("flags", [])
        objs = []
        d = os.path.join(out, b["name"])
        os.makedirs(d, exist_ok=True)
        for i, s in enumerate(srcs + [os.path.join(HERE, "harness", b["harness"]), os.path.join(HERE, "mc", "mc.cpp")]
                              + [os.path.join(HERE, x) for x in b.get("extra", [])]):
            o = os.path.join(d, "%d_%s.o" % (i, os.path.basename(s)))
            f = flags
            if s.endswith("/mc.cpp"):
                f = BASE + ["-O2", "-I" + HERE + "/mc"] + ([x for x in san if "trace" not in x])
            extra = b.get("repo_flags", []) if s.startswith(REPO + "/") else []
            cmd = [cxx] + f + extra + ["-c", s, "-o", o]
            # on the real platform long has 32 bits (see stubs/arduino/HardwareSerial.h); not every source can be compiled that way
            alt = [cxx] + f + extra + ["-DMC_LONG32", "-c", s, "-o", o] if b["component"] == "arduino" and s.startswith(REPO + "/") else None
            jobs.append((cmd, alt))
            objs.append(o)
        binary = os.path.join(d, "check")
        links.append((b["name"], ([cxx] + san + objs + ["-o", binary] + b.get("libs", []), None), binary))

    def one(job):
        cmd, alt = job
        if alt and subprocess.run(alt, capture_output=True).returncode == 0:
            return
        p = subprocess.run(cmd, capture_output=True, text=True)
        if p.returncode:
            raise BuildError(" ".join(cmd) + "\n" + p.stderr[-4000:])

    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for f in [ex.submit(one, j) for j in jobs]:
            f.result()
        for f in [ex.submit(one, l[1]) for l in links]:
            f.result()
    return {l[0]: l[2] for l in links}


def run_binary(binary, tier, work, b, isolate=False, limit=None):
    js = os.path.join(work, "result.json")
    cmd = [binary, "--out", js, "--dir", work, "--jobs", str(min(8, os.cpu_count() or 8)), "--hang", str(b.get("hang", 20))]
    if tier == "thorough":
        cmd.append("--thorough")
    if isolate:
        cmd.append("--isolate")
    try:
        p = subprocess.run(cmd, env=env(), capture_output=True, text=True, cwd=work, timeout=limit, errors="replace")
    except subprocess.TimeoutExpired:
        raise BuildError("exploration with one process per execution did not end within %d s" % limit)
    if p.returncode not in (0, 1) or not os.path.exists(js):
        raise BuildError("harness ended with %d\n%s%s" % (p.returncode, p.stdout[-2000:], p.stderr[-2000:]))
    return json.load(open(js))


def replay_binary(binary, work, scenario, path, limit):
    """0: held, 10: failed check, 'hang', or another (crash) status."""
    try:
        p = subprocess.run([binary, "--scenario", scenario, "--replay", path, "--dir", work], env=env(),
                           capture_output=True, text=True, cwd=work, timeout=limit, errors="replace")
        return p.returncode, p.stdout[-6000:] + p.stderr[-3000:]
    except subprocess.TimeoutExpired:
        return "hang", ""


def violation(pid, build, fail, log, how):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s-%s.json" % (pid, build, fail["scenario"]))
    with open(path, "w") as f:
        json.dump({"property": pid, "build": build, "scenario": fail["scenario"], "path": fail["path"], "kind": fail["kind"],
                   "message": fail["message"], "confirmed_by": how, "stderr": fail["stderr"][-3000:], "log": log,
                   "rerun": "python3 run_check.py --replay " + path}, f, indent=1)
    print("%s/%s: %s: %s" % (build, fail["scenario"], fail["kind"], fail["message"] or fail["stderr"][:600]))
    print("VIOLATION property=%s replay=%s" % (pid, path))


def check(pid):
    c = CHECKS[pid]
    tier = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    out = tempfile.mkdtemp(prefix="mc-%s-" % pid)
    try:
        builds = [b for b in c["builds"] if tier == "thorough" or not b.get("thorough_only")]
        bins = compile_all(pid, builds, out)
        t_build = time.time() - t0
        scen, failed = [], None
        for b in builds:
            work = os.path.join(out, b["name"], "run")
            os.makedirs(work)
            r = run_binary(bins[b["name"]], tier, work, b)
            for s in r["scenarios"]:
                s["build"] = b["name"]
                scen.append(s)
            if "failure" in r and r["failure"]["message"].startswith("DIVERGENCE"):
                # the code under test keeps state from one execution to the next: one process per execution
                work = os.path.join(out, b["name"], "isolated")
                os.makedirs(work)
                r = run_binary(bins[b["name"]], tier, work, b, isolate=True, limit=max(60, 780 - (time.time() - t0)))
                scen = [s for s in scen if s["build"] != b["name"]]
                for s in r["scenarios"]:
                    s["build"] = b["name"]
                    scen.append(s)
            if "failure" in r:
                f = r["failure"]
                if f["message"].startswith("DIVERGENCE"):
                    raise BuildError("execution is not deterministic: " + f["message"])
                if f["message"].startswith("harness error"):
                    raise BuildError(f["message"])
                st, log = replay_binary(bins[b["name"]], work, f["scenario"], f["path"], 60 if f["kind"] == "hang" else 300)
                if st == "hang" or st != 0:
                    failed = (b["name"], f, log, "replay of the single execution")
                else:
                    # state kept across executions by the code under test? explore again: must fail the same way
                    work2 = os.path.join(out, b["name"], "run2")
                    os.makedirs(work2)
                    r2 = run_binary(bins[b["name"]], tier, work2, b)
                    if "failure" in r2 and r2["failure"]["scenario"] == f["scenario"]:
                        failed = (b["name"], f, log, "second full exploration (depends on earlier executions)")
                    else:
                        raise BuildError("failure did not reproduce: " + json.dumps(f)[:2000])
                break
        cov = {
            "states": sum(s["states"] for s in scen),
            "transitions": sum(s["transitions"] for s in scen),
            "traces_validated_against_impl": sum(s["executions"] for s in scen),
            "distinct_outcomes": sum(s["outcomes"] for s in scen),
            "pruned_revisits": sum(s["pruned"] for s in scen),
            "exhaustive": failed is None and all(s["completed"] for s in scen),
            "rule": c["rule"],
            "binding": "every trace is an execution of the real code compiled from /repo's working tree, compared step by step with the reference model in the harness",
            "scenarios": [{k: s[k] for k in ("build", "name", "completed", "executions", "transitions", "states", "outcomes", "max_choices")} for s in scen],
            "samples": [x for s in scen for x in s["samples"][:1]][:12],
            "build_s": round(t_build, 2),
        }
        ev = {"property": pid, "tier": tier, "seed": seed, "level": c.get("level", "model_checking"), "coverage": cov,
              "assumptions": c.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": 1 if failed else 0}
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if failed:
            violation(pid, *failed)
            return 1
        print("%s: held; states=%d transitions=%d traces=%d outcomes=%d build=%.1fs total=%.1fs" %
              (pid, cov["states"], cov["transitions"], cov["traces_validated_against_impl"], cov["distinct_outcomes"], t_build, time.time() - t0))
        for line in known_findings(pid):
            print(line)
        return 0
    finally:
        shutil.rmtree(out, ignore_errors=True)


def known_findings(pid):
    """Open findings (defects recorded, not repaired) of this property; fixed ones suppress nothing and are not printed."""
    r = []
    with open(os.path.join(HERE, "known_findings.txt")) as f:
        for line in f:
            if line.startswith("finding: property=%s " % pid):
                r.append("KNOWN-FINDING: " + line[len("finding: "):].strip())
    return r


def replay(path):
    v = json.load(open(path))
    b = [b for b in CHECKS[v["property"]]["builds"] if b["name"] == v["build"]]
    out = tempfile.mkdtemp(prefix="mc-replay-")
    try:
        bins = compile_all(v["property"], b, out)
        work = os.path.join(out, "run")
        os.makedirs(work)
        st, log = replay_binary(bins[v["build"]], work, v["scenario"], v["path"], 300)
        print(log)
        print("status:", st)
        return 0 if st == 0 else 1
    finally:
        shutil.rmtree(out, ignore_errors=True)


def main():
    if len(sys.argv) == 3 and sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    if len(sys.argv) == 2 and sys.argv[1] == "--selftest":
        import selftest
        return selftest.run()
    if len(sys.argv) != 2 or sys.argv[1] not in CHECKS:
        print(__doc__)
        return 2
    try:
        return check(sys.argv[1])
    except BuildError as e:
        print("ERROR", e)
        return 2


if __name__ == "__main__":
    sys.exit(main())

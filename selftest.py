"""Checks the tool chain and the explorer: known counts, and every kind of failure is found and replayed."""
import json, os, shutil, subprocess, tempfile


def run():
    import run_check as rc
    out = tempfile.mkdtemp(prefix="mc-selftest-")
    try:
        b = dict(name="selftest", component="none", harness="selftest.cpp")
        binary = rc.compile_all("selftest", [b], out)["selftest"]

        done = {}

        def explore(kind, *more):
            js = os.path.join(out, "r.json")
            e = rc.env()
            e["SELFTEST_FAIL"] = str(kind)
            p = subprocess.run([binary, "--out", js, "--dir", out, "--hang", "3" if kind == 3 else "60"] + list(more), env=e, capture_output=True, text=True)
            return p.returncode, json.load(open(js)), e

        for more in ((), ("--isolate",)):
            st, r, _ = explore(0, *more)
            s = {x["name"]: x for x in r["scenarios"]}
            assert st == 0 and "failure" not in r, r
            assert s["count"]["executions"] == 60 and s["count"]["states"] == 60 and s["count"]["outcomes"] == 10, s["count"]
            assert s["deviations"]["executions"] == 1 + 6 * 2 + 15 * 4, s["deviations"]
            assert s["pruning"]["states"] == 4 and s["pruning"]["executions"] + s["pruning"]["pruned"] < 40, s["pruning"]
            assert s["needle"]["executions"] == 1000, s["needle"]
        # state kept by the code under test changes the choices: noticed, and without effect on isolated executions
        st, r, _ = explore(7)
        assert st == 1 and r["failure"]["message"].startswith("DIVERGENCE"), r
        st, r, _ = explore(7, "--isolate")
        s = {x["name"]: x for x in r["scenarios"]}
        assert st == 0 and s["stateful"]["executions"] == 8, r
        for kind, word in ((1, "check"), (2, "crash"), (3, "hang"), (4, "crash"), (5, "crash"), (6, "memory"), (1, "check"), (2, "crash"), (3, "hang"), (4, "crash")):
            done[kind] = done.get(kind, 0) + 1
            st, r, e = explore(kind, *(("--isolate",) if done[kind] > 1 else ()))
            f = r.get("failure")
            assert st == 1 and f and word in f["kind"] and f["path"] == "7,3,9", (kind, r)
            try:
                p = subprocess.run([binary, "--scenario", "needle", "--replay", f["path"], "--dir", out], env=e, capture_output=True, timeout=5 if kind == 3 else 120)
                assert kind != 3 and p.returncode not in (0,), (kind, p)
            except subprocess.TimeoutExpired:
                assert kind == 3
        print("selftest: explorer counts, failures, crashes, hangs, undefined behaviour and replays as expected")
        return 0
    finally:
        shutil.rmtree(out, ignore_errors=True)

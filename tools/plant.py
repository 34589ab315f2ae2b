#!/usr/bin/env python3
"""Plants a bug: makes seeded/<id>/patch.diff from edits and confirms everything that makes it count.

usage: plant.py [--add] ID PROPERTY 'needs' 'what it breaks' FILE OLD NEW [FILE OLD NEW ...]
       plant.py --verify ID...      confirms existing ones again
demo.sh (and what it needs) must already lie in seeded/ID.  Prints what the property's check says.
"""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, cwd, timeout=600, env=None):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, timeout=timeout, env=env, errors="replace")


def copy():
    d = tempfile.mkdtemp(prefix="plant-") + "/repo"
    subprocess.run(["cp", "-a", "/repo", d], check=True)
    return d


def baseline(d):
    """builds and runs the tests of a copy the way the task's scripts do, in the copy"""
    b = d + "/_build-plant"
    if sh(["cmake", "-S", d, "-B", b, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=Debug", "-DBUILD_TESTING=ON", "-DFETCHCONTENT_FULLY_DISCONNECTED=ON"], d).returncode or sh(["ninja", "-C", b], d).returncode:
        return "does not build"
    for t, w in (("tests", b + "/tests"), ("graphics-tests", d + "/tests/data")):
        r = sh([b + "/tests/" + t], w, 60)
        if r.returncode:
            return "tests fail\n" + r.stdout[-1500:]
    shutil.rmtree(b)
    return None


def demo(src, d):
    e = tempfile.mkdtemp(prefix="demo-")
    try:
        for f in os.listdir(src):
            if not f.endswith((".diff", ".patch")) and f != "meta.json":
                p = os.path.join(src, f)
                (shutil.copytree if os.path.isdir(p) else shutil.copy)(p, os.path.join(e, f))
        r = sh(["bash", e + "/demo.sh"], d, 300)
        return r.returncode, (r.stdout + r.stderr)[-600:]
    finally:
        shutil.rmtree(e, ignore_errors=True)


def verify(i):
    s = HERE + "/seeded/" + i
    meta = json.load(open(s + "/meta.json"))
    d = copy()
    try:
        st, out = demo(s, d)
        if st:
            return "%s: demo fails on the unchanged tree: %s" % (i, out)
        a = sh(["git", "apply", s + "/patch.diff"], d)
        if a.returncode:
            return "%s: patch does not apply: %s" % (i, a.stderr)
        blame = []
        for line in open(s + "/patch.diff"):
            if line.startswith("--- a/"):
                blame.append(line[6:].strip())
        t = baseline(d)
        if t:
            return "%s: %s" % (i, t)
        st, out = demo(s, d)
        if not st:
            return "%s: demo passes with the change" % i
        r = sh(["python3", HERE + "/run_check.py", meta["property"]], HERE, 900, dict(os.environ, VERIF_REPO=d))
        return "%s (%s) files %s; demo: %s\n   check -> %d %s" % (i, meta["property"], ",".join(blame), out.strip()[-150:], r.returncode, r.stdout.strip()[-400:] + r.stderr[-300:])
    finally:
        shutil.rmtree(os.path.dirname(d), ignore_errors=True)


def main():
    a = sys.argv[1:]
    if a and a[0] == "--verify":
        for i in a[1:] or sorted(os.listdir(HERE + "/seeded")):
            print(verify(i), flush=True)
        return
    i, prop, needs, breaks = a[:4]
    a = a[4:]
    s = HERE + "/seeded/" + i
    d = copy()
    try:
        while a:
            f, o, n = a[:3]
            a = a[3:]
            t = open(d + "/" + f).read()
            assert t.count(o) == 1, (t.count(o), f, o)
            open(d + "/" + f, "w").write(t.replace(o, n))
        p = sh(["git", "diff"], d).stdout
        open(s + "/patch.diff", "w").write(p)
    finally:
        shutil.rmtree(os.path.dirname(d), ignore_errors=True)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(s + "/meta.json", "w"), indent=1)
    print(verify(i))


main()

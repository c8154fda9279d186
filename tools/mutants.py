#!/usr/bin/env python3
"""mutants.py FILE [jobs] [name...]: evaluates one-edit changes of /repo in scratch copies.

FILE holds a Python list `M` of (name, property, path, old, new).
Development aid: no check uses it."""
import concurrent.futures, os, shutil, subprocess, sys, time
M = {}
exec(open(sys.argv[1]).read())
jobs = int(sys.argv[2]) if len(sys.argv) > 2 else 2
only = set(sys.argv[3:])

def one(m):
    name, prop, path, old, new = m
    d = "/tmp/mut_" + name
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    subprocess.run("git -C /repo archive HEAD | tar x -C %s --exclude=external --exclude=scripts" % d, shell=True)
    for x in os.listdir("/repo"):
        if x == "external":
            os.symlink("/repo/external", d + "/external")
    p = os.path.join(d, path)
    s = open(p).read()
    if s.count(old) != 1:
        shutil.rmtree(d)
        return name, prop, "BADEDIT count=%d" % s.count(old)
    open(p, "w").write(s.replace(old, new))
    env = dict(os.environ, VERIF_REPO=d, VERIF_BUILD=d + "/vb")
    t = time.time()
    r = subprocess.run([sys.executable, "/verif/run.py", "check", prop, "quick"], env=env, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    line = [l for l in r.stdout.splitlines() if "violation class" in l or "VIOLATION" in l or "ERROR" in l or "error:" in l]
    shutil.rmtree(d)
    return name, prop, "%s (%.0fs) %s" % ({0: "MISSED", 1: "caught"}.get(r.returncode, "rc=%d" % r.returncode), time.time() - t, " ".join(line)[:150])

todo = [m for m in M if not only or m[0] in only]
with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
    for r in ex.map(one, todo):
        print("%-10s %s %s" % r, flush=True)

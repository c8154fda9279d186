#!/usr/bin/env python3
"""Builds a check from /repo's working tree and runs it.

  run.py check <id> quick|thorough     the registered commands
  run.py build <id>
  run.py determinism <id> [runs]
  run.py replay <file>
"""
import concurrent.futures
import hashlib
import json
import os
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
# VERIF_REPO and VERIF_BUILD serve the development of the checks only (tools/mutant.sh).
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, VERIF)
from checks import CHECKS  # noqa: E402

BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
CXX = os.environ.get("CXX_SIM", "g++")
COMMON = ["-std=c++20", "-g1", "-w", "-pthread", "-I" + os.path.join(VERIF, "sim"),
          "-I" + os.path.join(VERIF, "shim"), "-I" + REPO,
          "-DMETADATA_COMPRESSION_DEFAULT=true", "-fno-omit-frame-pointer"]
INSTR = ["-O1", "-fsanitize=thread"]


def error(msg):
    print("ERROR: " + msg, file=sys.stderr)
    sys.exit(3)


def compile_one(args):
    cmd, out = args
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, cmd, p.stdout


def extra_library(cfg, d):
    jobs, objs = [], []
    for top in ("common", "base", "steps", "ddecal", "blob", "model", "parmdb", "sky_model", "pythondp3", "aartfaac",
                "antennaflagger", "predict", "svp", "."):
        for path, dirs, files in os.walk(os.path.join(REPO, top)):
            dirs[:] = [x for x in dirs if top != "." and x not in ("test", "tests", "unit", "external")]
            for f in files:
                rel = os.path.relpath(os.path.join(path, f), REPO)
                if not f.endswith((".cc", ".cpp", ".cxx")) or rel in cfg["sources"] or f[0:2] in ("t_",):
                    continue
                if "int main(" in open(os.path.join(path, f), errors="replace").read():
                    continue
                o = os.path.join(d, "x_" + rel.replace("/", "_") + ".o")
                jobs.append(([CXX] + INSTR + ["-I" + os.path.join(VERIF, x) for x in cfg.get("includes", [])] + COMMON + cfg.get("flags", []) + ["-c", os.path.join(path, f), "-o", o], o))
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for (cmd, o), (rc, _, _) in zip(jobs, ex.map(compile_one, jobs)):
            if rc == 0:
                objs.append(o)
    lib = os.path.join(d, "libextra.a")
    if os.path.exists(lib):
        os.unlink(lib)
    subprocess.run(["ar", "rcs", lib] + objs, check=True)
    return lib


def build(cid):
    cfg = CHECKS[cid]
    d = os.path.join(BUILD, cid)
    os.makedirs(d, exist_ok=True)
    jobs, objs_i, objs_p = [], [], []

    def add(src, flags, group, tag):
        o = os.path.join(d, tag + "_" + src.strip("/").replace("/", "_") + ".o")
        group.append(o)
        first = ["-I" + os.path.join(VERIF, x) for x in cfg.get("includes", [])]
        jobs.append(([CXX] + flags + first + COMMON + cfg.get("flags", []) + ["-c", src, "-o", o], o))

    for s in cfg["sources"]:
        add(os.path.join(REPO, s), INSTR, objs_i, "r")
    for s in cfg["harness"]:
        add(os.path.join(VERIF, "harness", s), INSTR, objs_i, "h")
    for s in cfg.get("shim_sources", []):
        add(os.path.join(VERIF, "shim", s), INSTR, objs_i, "s")
    for s in ("core.cc", "fs.cc", "main.cc"):
        add(os.path.join(VERIF, "sim", s), ["-O2", "-fno-threadsafe-statics"], objs_p, "c")
    for s in cfg.get("plain", []):
        add(os.path.join(VERIF, "sim", s), ["-O2", "-fno-threadsafe-statics"], objs_p, "c")
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for rc, cmd, out in ex.map(compile_one, jobs):
            if rc != 0:
                print(" ".join(cmd) + "\n" + out[-6000:], file=sys.stderr)
                error("cannot build " + cid)
    exe = os.path.join(d, "sim_" + cid)
    # Instrumented objects first, so that their copies of inline functions win.
    cmd = [CXX, "-pthread", "-rdynamic", "-o", exe] + objs_i + objs_p + cfg.get("libs", []) + ["-ldl"]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0 and "undefined reference" in p.stdout:
        # Code may have moved to files this check does not know: offer all
        # others as a library.
        lib = extra_library(cfg, d)
        p = subprocess.run(cmd[:-1] + [lib] + cmd[-1:], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        print(" ".join(cmd) + "\n" + p.stdout[-6000:], file=sys.stderr)
        error("cannot link " + cid)
    return exe


def level(cid):
    with open(os.path.join(VERIF, "MANIFEST.json")) as f:
        levels = {c["property"]: c["level"] for c in json.load(f)["checks"]}
    return levels.get(cid, "exploration")


def main():
    if sys.argv[1:] == ["setup"]:
        # Nothing is kept between runs: every check builds what it needs.
        for tool in (CXX,):
            subprocess.run([tool, "--version"], check=True, stdout=subprocess.DEVNULL)
        os.makedirs(BUILD, exist_ok=True)
        return
    if len(sys.argv) < 3:
        print(__doc__)
        sys.exit(2)
    what = sys.argv[1]
    if what == "replay":
        f = sys.argv[2]
        cid = [l.split()[1] for l in open(f) if l.startswith("property ")][0]
        sys.exit(subprocess.run([build(cid), "--replay", f]).returncode)
    cid = sys.argv[2]
    t0 = time.time()
    exe = build(cid)
    tb = time.time() - t0
    if what == "build":
        print(exe, "%.1fs" % tb)
        return
    if what == "determinism":
        n = sys.argv[3] if len(sys.argv) > 3 else "1000"
        sys.exit(subprocess.run([exe, "--determinism", "--runs", n, "--seconds", "900",
                                 "--seed", os.environ.get("VERIF_SEED", "1"),
                                 "--workers", os.environ.get("SIM_WORKERS", "8")]).returncode)
    tier = sys.argv[3]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    cfg = CHECKS[cid]
    runs, seconds = cfg[tier]
    raw = os.path.join(BUILD, cid, "out.json")
    if os.path.exists(raw):
        os.unlink(raw)
    cmd = [exe, "--seed", str(seed), "--runs", str(runs), "--seconds", str(seconds),
           "--workers", str(min(8, os.cpu_count() or 1)), "--out", raw,
           "--replay-dir", os.path.join(VERIF if REPO == "/repo" else BUILD, "replays"),
           "--known", os.path.join(VERIF, "known_findings.txt")]
    rc = subprocess.run(cmd).returncode
    if not os.path.exists(raw):
        error("the simulator gave no result (exit %d)" % rc)
    r = json.load(open(raw))
    wall = time.time() - t0
    ev = {
        "property": cid, "tier": tier, "seed": seed, "level": level(cid),
        "coverage": {
            "evaluations": r["runs"],
            "distinct_nontrivial": r["distinct_histories"],
            "rule": "one evaluation = one simulated execution of a generated workload with its own "
                    "seed; distinct = different event hash (context switches, choices, faults fired "
                    "and values observed at the public interface)",
            "samples": r["samples"][:6] or ["none"],
            "simulated_runs_and_seeds_per_hour": int(r["runs"] / max(r["wall_s"], 1e-3) * 3600),
            "simulated_seconds": r["sim_ns"] * 1e-9,
            "scheduling_points": r["steps"],
            "synchronisation_points": r["sync_points"],
            "context_switches": r["switches"],
            "multi_threaded_runs": r["multi_threaded_runs"],
            "fault_free_runs": r["fault_free_runs"],
            "distinct_interleavings": r["distinct_interleavings"],
            "distinct_interleavings_measure": "hash of the sequence of thread ids at synchronisation points",
            "faults": r["faults"],
            "reach_probes": r["probes"],
            "determinism_reruns": r["reruns"],
            "determinism_mismatches": r["rerun_mismatches"],
            "real_components": cfg["real"],
            "stub_components": cfg["stub"],
            "build_s": round(tb, 1),
            "known_findings_hit": r["known"],
        },
        "wall_s": round(wall, 2),
        "violations": 1 if r["violation"] else 0,
    }
    if r["violation"]:
        ev["coverage"]["violation"] = {"class": r["class"], "message": r["message"],
                                       "replay": r["violation"]}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    if REPO != "/repo":
        sys.exit(rc)
    with open(os.path.join(VERIF, "evidence", cid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    print("%s %s: %d runs (%d distinct histories, %d interleavings) in %.1fs, exit %d"
          % (cid, tier, r["runs"], r["distinct_histories"], r["distinct_interleavings"], wall, rc))
    sys.exit(rc)


main()

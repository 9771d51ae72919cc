#!/usr/bin/env python3
"""Build and run the model-checking harnesses that decide one property.

usage: check.py ID [quick|thorough]      (tier default: $VERIF_TIER or quick)
       check.py --replay FILE            re-run a recorded violation, verbosely
       check.py --build                  build every harness
Exit 0: property held on everything explored; exit 1 + VIOLATION line: broken;
anything else: the check itself failed.
"""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import shutil
import signal
import struct
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "tools"))
from props import PROPS, EXES, VARIANTS  # noqa: E402

REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
HARNESS = os.path.join(VERIF, "harness")
NPROC = os.cpu_count() or 4

DEFS = ["-DVECMEM_DEBUG_MSG_LVL=0", "-DVECMEM_HAVE_BUILTIN_CLZL",
        "-DVECMEM_HAVE_PMR_MEMORY_RESOURCE", "-DVECMEM_HAVE_STD_ALIGNED_ALLOC",
        "-DVECMEM_SOURCE_DIR_LENGTH=6"]
LIB_ONLY = {"-DVECMEM_HAVE_BUILTIN_CLZL", "-DVECMEM_HAVE_STD_ALIGNED_ALLOC"}
VERSION_HPP = """#pragma once
#define VECMEM_VERSION_MAJOR 1
#define VECMEM_VERSION_MINOR 13
#define VECMEM_VERSION_PATCH 0
#define VECMEM_VERSION "1.13.0"
namespace vecmem {
static constexpr int version_major = 1;
static constexpr int version_minor = 13;
static constexpr int version_patch = 0;
static constexpr char version[] = "1.13.0";
}
"""
EXPORT_HPP = """#pragma once
#define VECMEM_CORE_EXPORT
#define VECMEM_CORE_NO_EXPORT
"""


class CheckError(Exception):
    pass


def tree_hash(roots, extra=b""):
    h = hashlib.sha256(extra)
    for root in roots:
        if os.path.isfile(root):
            files = [root]
        else:
            files = []
            for d, sub, fs in os.walk(root):
                sub.sort()
                files += [os.path.join(d, f) for f in sorted(fs)]
        for f in files:
            h.update(f.encode())
            with open(f, "rb") as fp:
                h.update(fp.read())
    return h.hexdigest()[:20]


def run_cmd(cmd, log):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, errors="replace")
    if p.returncode:
        ls = p.stdout.splitlines()
        err = [l for l in ls if "error" in l or "undefined ref" in l][:12]
        raise CheckError("build failed: %s\n%s" % (
            cmd[-3], "\n".join(err or ls[-20:])))


def gen_headers():
    d = os.path.join(BUILD, "gen", "vecmem")
    os.makedirs(d, exist_ok=True)
    for n, t in (("version.hpp", VERSION_HPP),
                 ("vecmem_core_export.hpp", EXPORT_HPP)):
        p = os.path.join(d, n)
        if not os.path.exists(p) or open(p).read() != t:
            with open(p + ".tmp", "w") as f:
                f.write(t)
            os.replace(p + ".tmp", p)
    return os.path.join(BUILD, "gen")


def lib_jobs(variant):
    v = VARIANTS[variant]
    srcs = sorted(glob.glob(os.path.join(REPO, "core/src/**/*.cpp"),
                            recursive=True))
    srcs = [s for s in srcs if not s.endswith("default_resource_polyfill.cpp")]
    key = tree_hash([os.path.join(REPO, "core")],
                    json.dumps([v, DEFS, "lib1"]).encode())
    out = os.path.join(BUILD, "lib-%s-%s" % (variant, key))
    jobs = []
    objs = []
    gen = gen_headers()
    os.makedirs(out, exist_ok=True)
    for s in srcs:
        o = os.path.join(out, os.path.relpath(s, REPO).replace("/", "_") + ".o")
        objs.append(o)
        if not os.path.exists(o):
            cmd = [v["cxx"], "-std=gnu++17"] + v["flags"] + [
                x for x in DEFS if x not in v.get("lacks", [])] + [
                "-DVECMEM_SUPPORT_POSIX_ATOMIC_REF",
                "-I", os.path.join(REPO, "core/include"), "-I", gen,
                "-I", os.path.join(REPO, "core/src"),
                "-c", s]
            jobs.append((cmd, o))
    return objs, jobs, out, key


def build(exes):
    """Build the executables, return {exe: path}."""
    os.makedirs(BUILD, exist_ok=True)
    gen = gen_headers()
    res = {}
    objjobs = {}
    links = []
    keep = set()
    for exe in exes:
        e = EXES[exe]
        v = VARIANTS[e["variant"]]
        libobjs = []
        libkey = ""
        if e.get("lib", True):
            libobjs, jobs, libdir, libkey = lib_jobs(e["variant"])
            keep.add(os.path.basename(libdir))
            for cmd, o in jobs:
                objjobs[o] = cmd
        roots = [os.path.join(REPO, d) for d in ["core"] + e.get("repo", [])]
        srcs = [os.path.join(HARNESS, s) for s in e["src"]]
        hdrs = sorted(glob.glob(os.path.join(HARNESS, "*.hpp")))
        if "incdirs" in e:
            for i in e["incdirs"]:
                roots.append(i.format(verif=VERIF, repo=REPO))
        key = tree_hash(roots + srcs + hdrs + [
            os.path.join(HARNESS, s[0]) for s in e.get("extra_src", [])],
            json.dumps([v, DEFS, e, libkey]).encode())
        d = os.path.join(BUILD, "exe-%s-%s" % (exe, key))
        keep.add(os.path.basename(d))
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, exe)
        res[exe] = path
        if os.path.exists(path):
            continue
        objs = list(libobjs)
        inc = ["-I", os.path.join(REPO, "core/include"), "-I", gen,
               "-I", HARNESS]
        for i in e.get("incdirs", []):
            inc = ["-I", i.format(verif=VERIF, repo=REPO)] + inc
        defs = [x for x in DEFS if x not in LIB_ONLY and x not in v.get("lacks", [])]
        if e.get("posix_atomics", True):
            defs.append("-DVECMEM_SUPPORT_POSIX_ATOMIC_REF")
        # (source, flags override)
        allsrc = [(s, v["flags"]) for s in srcs]
        for s, fl in e.get("extra_src", []):
            allsrc.append((os.path.join(HARNESS, s), fl))
        for g in e.get("repo_src", []):
            for s in sorted(glob.glob(os.path.join(REPO, g), recursive=True)):
                allsrc.append((s, v["flags"]))
        for s, fl in allsrc:
            o = os.path.join(d, s.strip("/").replace("/", "_") + ".o")
            objs.append(o)
            if not os.path.exists(o):
                objjobs[o] = [v["cxx"], "-std=" + e.get("std", "gnu++17")] + \
                    fl + ["-w"] + e.get("flags", []) + defs + inc + ["-x", "c++", "-c", s]
        links.append((path, [v["cxx"]] + objs + v["ldflags"] +
                      e.get("ldflags", []) + ["-lpthread"]))

    def compile_one(item):
        o, cmd = item
        tmp = o + ".tmp%d" % os.getpid()
        run_cmd(cmd + ["-o", tmp], None)
        os.replace(tmp, o)

    with cf.ThreadPoolExecutor(NPROC) as ex:
        # Harnesses first: they take the longest.
        items = sorted(objjobs.items(), key=lambda i: 0 if "/exe-" in i[0] else 1)
        list(ex.map(compile_one, items))

        def link_one(l):
            path, cmd = l
            tmp = path + ".tmp%d" % os.getpid()
            run_cmd(cmd + ["-o", tmp], None)
            os.replace(tmp, path)
        list(ex.map(link_one, links))
    # Forget old build trees of these executables.
    names = set(exes)
    for d in os.listdir(BUILD):
        if d in keep:
            continue
        full = os.path.join(BUILD, d)
        base = d.rsplit("-", 1)[0]
        if base.startswith("exe-") and base[4:] in names or \
                base.startswith("lib-") and \
                base[4:] in {EXES[e]["variant"] for e in exes}:
            if time.time() - os.path.getmtime(full) > 3600:
                shutil.rmtree(full, ignore_errors=True)
    return res


ENV = dict(os.environ)
ENV["ASAN_OPTIONS"] = ("detect_leaks=0:abort_on_error=0:exitcode=66:"
                       "allocator_may_return_null=1:handle_abort=1:"
                       "detect_stack_use_after_return=1:"
                       "max_allocation_size_mb=8192:"
                       "quarantine_size_mb=16:malloc_context_size=8")
ENV["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=67"
ENV["TSAN_OPTIONS"] = "exitcode=68:halt_on_error=1:report_bugs=1"


def known_keys(prop):
    keys = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if not line.startswith("known:"):
                continue
            w = line.split(None, 3)
            pid = w[1].split("=", 1)[1]
            key = w[2].split("=", 1)[1]
            if pid == prop:
                keys[key] = w[3] if len(w) > 3 else ""
    return keys


def read_cur(path):
    try:
        b = open(path, "rb").read()
    except OSError:
        return None
    if len(b) < 80:
        return None
    name = b[:64].split(b"\0")[0].decode()
    execs, n = struct.unpack_from("<QI", b, 64)
    ch = struct.unpack_from("<%dH" % n, b, 76)
    return name, execs, ch


_setarch = None


def prefix():
    global _setarch
    if _setarch is None:
        try:
            ok = subprocess.run(["setarch", "-R", "true"],
                                stdout=subprocess.DEVNULL,
                                stderr=subprocess.DEVNULL).returncode == 0
        except OSError:
            ok = False
        _setarch = ["setarch", "-R"] if ok else []
    return _setarch


def run_prop(prop, tier):
    t0 = time.time()
    P = PROPS[prop]
    runs = P["runs"]
    paths = build(sorted({r["exe"] for r in runs}))
    tbuild = time.time() - t0
    work = os.path.join(BUILD, "work-%s-%s-%d" % (prop, tier, os.getpid()))
    os.makedirs(work, exist_ok=True)
    replay_dir = os.path.join(VERIF, "replays")
    known = known_keys(prop)
    budget = P.get("budget", {}).get(tier, 240 if tier == "quick" else 600) // len(runs)
    jobs = []
    for ri, r in enumerate(runs):
        if tier == "quick" and r.get("thorough_only"):
            continue
        n = r.get("shards", NPROC)
        for s in range(n):
            b = os.path.join(work, "r%d_s%d" % (ri, s))
            cmd = prefix() + [paths[r["exe"]], "--prop", r.get("prop", prop),
                   "--shard", "%d/%d" % (s, n), "--out", b + ".json",
                   "--cur", b + ".cur", "--viol", b + ".viol",
                   "--states", b + ".states", "--budget", str(budget),
                   "--known", ",".join(sorted(known))] + r.get("args", [])
            if tier == "thorough":
                cmd += ["--thorough"] + r.get("thorough_args", [])
            jobs.append((r, b, cmd, paths[r["exe"]]))

    found = []  # with VERIF_FAST, the first violation ends the run

    def go(job):
        r, b, cmd, exe = job
        if found:
            return "skipped"
        with open(b + ".log", "w") as log:
            p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL if r.get("quiet") else log,
                                 stderr=log,
                                 env=ENV, start_new_session=True)
            end = time.time() + budget + 120
            try:
                while os.environ.get("VERIF_FAST"):
                    try:
                        rc = p.wait(timeout=1)
                        if rc != 0:
                            found.append(rc)
                        break
                    except subprocess.TimeoutExpired:
                        if found:
                            os.killpg(p.pid, signal.SIGKILL)
                            p.wait()
                            return "skipped"
                        if time.time() > end:
                            raise
                else:
                    rc = p.wait(timeout=budget + 120)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                rc = "timeout"
        return rc

    def replay_run(exe, path, r, timeout=120):
        cmd = prefix() + [exe, "--prop", r.get("prop", prop), "--replay", path,
                          "--hang", "60"] + r.get("args", [])
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, env=ENV, text=True,
                               errors="replace", timeout=timeout)
            return p.returncode, p.stdout
        except subprocess.TimeoutExpired:
            return "timeout", ""

    with cf.ThreadPoolExecutor(NPROC) as ex:
        rcs = list(ex.map(go, jobs))
    found.clear()

    viols = []
    errors = []
    total = {"executions": 0, "transitions": 0, "cuts": 0}
    scen = {}
    counters = {}
    knownhits = {}
    samples = []
    capped = False
    statefiles = []
    outcomes = 0
    for (r, b, cmd, exe), rc in zip(jobs, rcs):
        if os.path.exists(b + ".json") and rc in (0, 10):
            j = json.load(open(b + ".json"))
            for k in total:
                total[k] += j[k]
            outcomes += j["outcomes"]
            capped |= j["capped"]
            for k, v in j["counters"].items():
                counters[k] = counters.get(k, 0) + v
            for k, v in j["known"].items():
                a = knownhits.setdefault(k, [0, v[1]])
                a[0] += v[0]
            for k, v in j["scenarios"].items():
                a = scen.setdefault(k, {"executions": 0, "complete": True})
                a["executions"] += v["executions"]
                a["complete"] = a["complete"] and v["complete"]
            for smp in j["samples"]:
                if len(samples) < 24:
                    samples.append(smp)
            statefiles.append(b + ".states")
        if rc == 0 or rc == "skipped":
            continue
        # Something is wrong: make a replay file, replay it, then report.
        os.makedirs(replay_dir, exist_ok=True)
        dst = os.path.join(replay_dir, "%s_%s.txt" % (prop, os.path.basename(b)))
        head = "exe: %s\nprop: %s\n" % (r["exe"], r.get("prop", prop))
        args = "# args: %s\n" % json.dumps(r.get("args", []))
        if rc == 10 and os.path.exists(b + ".viol"):
            body = open(b + ".viol", errors="replace").read()
            with open(dst, "w") as f:
                f.write(head + args + body)
            rrc, out = replay_run(exe, dst, r)
            if rrc == 0:
                # Depends on what ran before it in this process: run the same
                # shard again, completely.
                if go((r, b, cmd, exe)) == 10:
                    rrc = 10
                    with open(dst, "a") as f:
                        f.write("# only reproduced by the whole shard: %s\n"
                                % " ".join(cmd))
            if rrc == 0:
                errors.append("violation did not replay: %s" % dst)
            else:
                viols.append((dst, body.splitlines()))
            continue
        cur = read_cur(b + ".cur")
        log = open(b + ".log", errors="replace").read()
        if rc == 3 or cur is None or cur[0] == "":
            errors.append("harness error (exit %s): %s\n%s" %
                          (rc, " ".join(cmd), log[-3000:]))
            continue
        with open(dst, "w") as f:
            f.write(head + args + "scenario: %s\ntier: %s\n# exit %s\n" %
                    (cur[0], tier, rc))
            for line in log[-6000:].splitlines():
                f.write("# | %s\n" % line)
            f.write("choices: %s\n" % " ".join(map(str, cur[2])))
        rrc, out = replay_run(exe, dst, r, timeout=200)
        if rrc == 0:
            rc2 = go((r, b, cmd, exe))
            if rc2 == rc:
                with open(dst, "a") as f:
                    f.write("# only reproduced by the whole shard: %s\n"
                            % " ".join(cmd))
                rrc = rc2
        if rrc == 0 or rrc == 3:
            errors.append("crash did not replay (exit %s): %s\n%s" %
                          (rc, dst, log[-3000:]))
        else:
            viols.append((dst, ["crash/hang: exit %s" % rc] +
                          log[-1500:].splitlines()))

    nstates = None
    try:
        import numpy as np
        arrs = [np.fromfile(f, dtype=np.uint64) for f in statefiles
                if os.path.exists(f)]
        if arrs:
            nstates = int(len(np.unique(np.concatenate(arrs))))
    except ImportError:
        pass
    if nstates is None:
        seen = set()
        for f in statefiles:
            if os.path.exists(f):
                d = open(f, "rb").read()
                seen.update(struct.unpack("<%dQ" % (len(d) // 8), d))
        nstates = len(seen)
    shutil.rmtree(work, ignore_errors=True)

    level = P["level"]
    cov = {"samples": samples or ["(none)"], "exhaustive": not capped and not viols,
           "scenarios": scen, "counters": counters,
           "bounds": P.get("bounds", ""), "build_s": round(tbuild, 1)}
    if level == "model_checking":
        cov.update(states=nstates, transitions=total["transitions"],
                   traces_validated_against_impl=total["executions"])
    else:
        cov.update(evaluations=total["executions"],
                   distinct_nontrivial=nstates,
                   rule=P["rule"], transitions=total["transitions"])
    if knownhits:
        cov["known_findings_hit"] = {k: v[0] for k, v in knownhits.items()}
    ev = {"property": prop, "tier": tier,
          "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
          "level": level, "coverage": cov,
          "assumptions": P.get("assumptions", []),
          "wall_s": round(time.time() - t0, 2), "violations": len(viols)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")

    for k, v in sorted(knownhits.items()):
        print("KNOWN-FINDING: property=%s %s: %s (%d histories, e.g. %s)" %
              (prop, k, known.get(k, ""), v[0], v[1]))
    print("%s %s: %d executions, %d transitions, %d distinct states, %s, %.1fs" %
          (prop, tier, total["executions"], total["transitions"], nstates,
           "CAPPED" if capped else "complete", time.time() - t0))
    for k, v in scen.items():
        print("  %-34s %10d executions %s" % (k, v["executions"],
              "" if v["complete"] else "(not complete)"))
    for dst, lines in viols[:8]:
        for l in [x for x in lines if x.startswith("#") or "crash" in x][:14]:
            print("  " + l)
        print("VIOLATION property=%s replay=%s" % (prop, dst))
    if viols:
        return 1
    if errors:
        for e in errors:
            print("ERROR: " + e, file=sys.stderr)
        return 2
    return 0


def main():
    if len(sys.argv) > 2 and sys.argv[1] == "--replay":
        txt = open(sys.argv[2], errors="replace").read()
        exe = [l.split()[1] for l in txt.splitlines() if l.startswith("exe:")][0]
        args = [l for l in txt.splitlines() if l.startswith("# args:")]
        args = json.loads(args[0][7:]) if args else []
        p = build([exe])[exe]
        return subprocess.run(prefix() + [p, "--replay", sys.argv[2]] + args,
                              env=ENV).returncode
    if len(sys.argv) > 1 and sys.argv[1] == "--build":
        build(sorted({r["exe"] for p in PROPS.values() for r in p["runs"]}))
        return 0
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else \
        os.environ.get("VERIF_TIER", "quick")
    return run_prop(prop, tier)


if __name__ == "__main__":
    try:
        sys.exit(main())
    except CheckError as e:
        print("ERROR: %s" % e, file=sys.stderr)
        sys.exit(2)

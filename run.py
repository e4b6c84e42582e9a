#!/usr/bin/env python3
"""Builds one check from /repo's working tree and runs it.

    python3 run.py ID [quick|thorough] [--replay N] [--jobs N]

Everything is built into a scratch folder (object files are cached under
/verif/build, keyed by the content of everything that goes into them)."""

import concurrent.futures
import glob
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("NSASM_REPO", "/repo")
CACHE = f"{VERIF}/build/cache"

sys.path.insert(0, VERIF)
from checks.table import CHECKS  # noqa: E402


def sh(cmd):
    return subprocess.run(cmd, capture_output=True, text=True)


def read(p):
    with open(p, "rb") as f:
        return f.read()


def tree_hash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode() + b"\0" + read(p) + b"\0")
    return h.hexdigest()


class BuildError(Exception):
    pass


def compile_all(jobs):
    """jobs: list of (source, object, flags). Runs g++ in parallel."""

    def one(job):
        src, obj, flags = job
        if os.path.exists(obj):
            return None
        tmp = f"{obj}.{os.getpid()}.tmp"
        r = sh(["g++", *flags, "-c", src, "-o", tmp])
        if r.returncode:
            return f"compiling {src} failed:\n{r.stderr[-4000:]}"
        os.replace(tmp, obj)
        return None

    with concurrent.futures.ThreadPoolExecutor(max_workers=os.cpu_count()) as ex:
        for err in ex.map(one, jobs):
            if err:
                raise BuildError(err)


SYS_SCOPE = ["nsasm/error.cc", "nsasm/memory.cc", "nsasm/mnemonic.cc", "nsasm/ranges.cc", "nsasm/rom.cc", "test/test_sink.cc"]


def build(spec, mode, outdir):
    san = spec.get("san", "none")
    opt = spec.get("opt", "-O1")
    flags = ["-std=c++20", opt, "-g1", "-w", "-fno-omit-frame-pointer"]
    if san == "asan":
        flags += ["-fsanitize=address"]
    libs = []
    if mode == "shim":
        flags += [f"-I{VERIF}/shim", "-D_GLIBCXX_ASSERTIONS"]
        srcs = [p for p in sorted(glob.glob(f"{REPO}/nsasm/*.cc")) if not p.endswith("_test.cc")]
        srcs.append(f"{REPO}/test/test_sink.cc")
        if "srcs" in spec:
            srcs = [f"{REPO}/{s}" for s in spec["srcs"]]
    else:
        srcs = [f"{REPO}/{s}" for s in SYS_SCOPE]
        mods = ["absl_str_format", "absl_strings", "absl_flat_hash_map", "absl_flat_hash_set", "absl_optional", "absl_variant", "absl_span", "absl_memory"]
        r = sh(["pkg-config", "--libs", *mods])
        libs = r.stdout.split()
    flags += ["-iquote", REPO, "-iquote", VERIF]
    heads = glob.glob(f"{REPO}/*/*.h") + glob.glob(f"{VERIF}/lib/*.h") + glob.glob(f"{VERIF}/checks/*.h")
    if mode == "shim":
        heads += glob.glob(f"{VERIF}/shim/absl/*/*.h")
    base = tree_hash(heads) + " ".join(flags)
    os.makedirs(CACHE, exist_ok=True)

    def obj(src, extra=()):
        k = hashlib.sha256((base + " ".join(extra) + src).encode() + read(src)).hexdigest()[:32]
        return f"{CACHE}/{k}.o"

    jobs = []
    repo_objs = []
    for s in srcs:
        jobs.append((s, obj(s), flags))
        repo_objs.append(jobs[-1][1])
    harness = [f"{VERIF}/checks/{s}" for s in spec["harness"]] + [f"{VERIF}/lib/mc.cc"]
    h_objs = []
    for s in harness:
        jobs.insert(0, (s, obj(s), flags))
        h_objs.append(jobs[0][1])
    tools = {}
    tflags = flags
    for t in spec.get("tools", []):
        s = f"{REPO}/util/{t}.cc"
        jobs.append((s, obj(s), tflags))
        tools[t] = jobs[-1][1]
    compile_all(jobs)
    links = [(f"{outdir}/check", h_objs + repo_objs)]
    for t, o in tools.items():
        links.append((f"{outdir}/{t}", [o] + repo_objs))
    procs = []
    for exe, objs in links:
        cmd = ["g++", *(["-fsanitize=address"] if san == "asan" else []), "-o", exe, *objs, *libs, *spec.get("libs", [])]
        procs.append((exe, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    for exe, p in procs:
        out, _ = p.communicate()
        if p.returncode:
            raise BuildError(f"linking {exe} failed:\n{out[-4000:]}")


def main():
    opts = {}
    rest = []
    it = iter(sys.argv[1:])
    for a in it:
        if a == "--setup":
            continue
        if a.startswith("--"):
            opts[a] = next(it)
        else:
            rest.append(a)
    if "--setup" in sys.argv:
        # Checks build what they need themselves; this only shows that the tools are there.
        return 0 if sh(["g++", "--version"]).returncode == 0 else 1
    pid = rest[0]
    tier = rest[1] if len(rest) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = os.environ.get("VERIF_SEED", "1")
    spec = CHECKS[pid]
    t0 = time.time()
    work = tempfile.mkdtemp(prefix=f"vf_{pid}_", dir=os.environ.get("TMPDIR", "/tmp"))
    rc = 2
    try:
        modes = [spec.get("mode", "shim")]
        if spec.get("fallback"):
            modes.append(spec["fallback"])
        err = None
        for m in modes:
            try:
                build(spec, m, work)
                err = None
                break
            except BuildError as e:
                err = err or e
        if err:
            print(err)
            return 2
        tb = time.time() - t0
        os.makedirs(f"{VERIF}/evidence", exist_ok=True)
        cmd = [f"{work}/check", "--tier", tier, "--seed", seed, "--evidence", f"{VERIF}/evidence/{pid}.json",
               "--replays", f"{VERIF}/build/replays", "--known", f"{VERIF}/known_findings.tsv",
               "--scratch", f"{work}/s", "--jobs", opts.get("--jobs", "8")]
        if "--replay" in opts:
            cmd += ["--replay", opts["--replay"]]
        env = dict(os.environ)
        env["VF_TOOLS"] = work
        env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:hard_rss_limit_mb=3500:" + spec.get("asan", "")
        env["LC_ALL"] = "C.UTF-8"
        os.makedirs(f"{VERIF}/build/replays", exist_ok=True)
        p = subprocess.run(cmd, env=env)
        rc = p.returncode
        print(f"build {tb:.1f} s, total {time.time() - t0:.1f} s")
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return rc if rc in (0, 1) else 2


if __name__ == "__main__":
    sys.exit(main())

#!/usr/bin/env python3
"""Builds what a check needs from /repo's working tree and runs the jobs that decide one property.

  run.py C05                 the check of property C05 (tier from VERIF_TIER or --tier, seed from VERIF_SEED)
  run.py --setup             builds the drivers and the surfaces of the quick tier
  run.py --replay FILE       replays a saved failing case against the current tree
"""
import concurrent.futures as cf
import fcntl
import hashlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get("VF_REPO", "/repo")
HARN = os.path.join(HERE, "harness")
BUILD = os.path.join(HERE, "build")
NCPU = os.cpu_count() or 4

import jobs as J  # noqa: E402


class BuildError(Exception):
    pass


# ------------------------------------------------------------------------------------------ building
def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        h.update(str(len(p)).encode() + b":" + p)
    return h.hexdigest()[:20]


def tree_digest(root, exts):
    """Digest of every source file below root (so that a file a change adds is seen as well)."""
    out = []
    for d, dirs, files in os.walk(root):
        dirs[:] = sorted(x for x in dirs if not x.startswith(".") and x not in ("build", "node_modules"))
        for f in sorted(files):
            if f.endswith(exts):
                p = os.path.join(d, f)
                try:
                    if os.path.getsize(p) > 2_000_000:
                        continue
                    with open(p, "rb") as fh:
                        out.append(os.path.relpath(p, root).encode() + b"\0" + hashlib.sha256(fh.read()).digest())
                except OSError:
                    pass
    return sha(*out)


_digests = {}


def repo_digest():
    if "r" not in _digests:
        _digests["r"] = tree_digest(REPO, (".h", ".hpp", ".go", ".c", ".cpp"))
    return _digests["r"]


def harness_digest():
    if "h" not in _digests:
        _digests["h"] = tree_digest(HARN, (".h", ".cpp", ".c", ".inc", ".go"))
    return _digests["h"]


def run_cmd(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
    if p.returncode != 0:
        raise BuildError("command failed (%d): %s\n%s" % (p.returncode, " ".join(cmd), p.stdout[-4000:]))


def artefact(name, key, make):
    """Returns build/<name>-<key>, calling make(tmp_path) when it does not exist yet."""
    os.makedirs(BUILD, exist_ok=True)
    path = os.path.join(BUILD, "%s-%s" % (name, key))
    if os.path.exists(path):
        return path
    with open(os.path.join(BUILD, name + ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(path):
            return path
        for old in os.listdir(BUILD):
            if old.startswith(name + "-") and len(old) == len(name) + 1 + len(key):
                try:
                    os.unlink(os.path.join(BUILD, old))
                except OSError:
                    pass
        tmp = path + ".tmp%d" % os.getpid()
        make(tmp)
        os.rename(tmp, path)
    return path


LOCALES = {"comma": ("002C", "002E"), "arab": ("066B", "066C")}


def locale_dir():
    """A directory for LOCPATH with locales whose decimal point is not '.', or None if they cannot be made."""
    d = os.path.join(BUILD, "locales")
    with open(os.path.join(BUILD, "locales.lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        for n, (point, sep) in LOCALES.items():
            if os.path.exists(os.path.join(d, n, "LC_NUMERIC")):
                continue
            os.makedirs(d, exist_ok=True)
            src = os.path.join(d, n + ".src")
            with open(src, "w") as f:
                f.write("comment_char %%\nescape_char /\nLC_NUMERIC\ndecimal_point \"<U%s>\"\nthousands_sep \"<U%s>\"\ngrouping 3;3\nEND LC_NUMERIC\n" % (point, sep))
            try:
                subprocess.run(["localedef", "-c", "-i", src, "-f", "UTF-8", os.path.join(d, n)], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            except OSError:
                pass
            if not os.path.exists(os.path.join(d, n, "LC_NUMERIC")):
                return None
    return d


def job_env(job):
    fl = job["flavour"]
    env = dict(os.environ)
    env.update(ENV.get("asan" if fl == "asanraw" else fl, {}))
    if "locale" in job:
        env["LOCPATH"] = locale_dir() or ""
    return env


SAN = {
    "plain": (["g++", "-std=c++17", "-O2", "-g"], ["gcc"], ["-O2", "-g"]),
    "asan": (["clang++", "-std=c++17"] + J.ASAN_FLAGS + ["-O1", "-g", "-DVF_COUNT_ONLY"], ["clang"],
             J.ASAN_FLAGS + ["-O1", "-g", "-Dzj_VERIFY_EXACT_ALLOC"]),
    "asanraw": (["clang++", "-std=c++17"] + J.ASAN_FLAGS + ["-O1", "-g", "-DVF_COUNT_ONLY"], ["clang"], J.ASAN_FLAGS + ["-O1", "-g"]),
    "tsan": (["clang++", "-std=c++17", "-fsanitize=thread", "-O1", "-g", "-DVF_COUNT_ONLY"], ["clang"],
             ["-fsanitize=thread", "-O1", "-g"]),
    # counts executed basic blocks of the library and the bytes its libc calls go over
    "count": (["g++", "-std=c++17", "-O1", "-g", "-DVF_COUNT_ONLY", "-DVF_STEPS"], ["clang"],
              ["-O1", "-g", "-fno-builtin", "-U_FORTIFY_SOURCE", "-fsanitize-coverage=trace-pc-guard"]),
    # runs under valgrind
    "vg": (["g++", "-std=c++17", "-O1", "-g", "-DVF_COUNT_ONLY"], ["gcc"], ["-O1", "-g", "-Dzj_VERIFY_EXACT_ALLOC"]),
}
WRAP = ["-Wl,--wrap=malloc,--wrap=free,--wrap=calloc,--wrap=realloc"]
STEPWRAP = ["-Wl," + ",".join("--wrap=" + f for f in "memcpy memmove memset memcmp memchr strlen strnlen strcmp strncmp strchr strstr strcpy strncpy strcat atof atoi atol atoll strtod".split())]
UNITS = ["main", "engines", "cost", "world", "hist", "gen", "oracle", "runtime"]


def object_file(flavour, unit):
    cxx = SAN[flavour][0]
    src = os.path.join(HARN, unit + ".cpp")
    key = sha(harness_digest(), *cxx)
    return artefact("%s_%s.o" % (flavour, unit), key, lambda t: run_cmd(cxx + ["-fPIC", "-c", src, "-o", t]))


def driver(flavour, pool):
    if flavour == "asanraw":
        flavour = "asan"
    objs = list(pool.map(lambda u: object_file(flavour, u), UNITS))
    cxx = SAN[flavour][0]
    return artefact("drv_" + flavour, sha(harness_digest(), *cxx),
                    lambda t: run_cmd(cxx + ["-rdynamic"] + objs + ["-o", t, "-ldl", "-lpthread"]))


def surface_flags(name, flavour):
    """(compiler, source, flags) of a surface; 'name' is a key of J.SURFACES or an inline configuration."""
    spec = J.surface_spec(name)
    ccs = SAN[flavour][1][0]
    flags = list(SAN[flavour][2])
    if flavour == "plain":
        if spec.get("cc"):
            ccs = spec["cc"]
        if spec.get("opt"):
            flags = ["-g", spec["opt"]]
    is_c = spec["lang"] == "c"
    cc = ccs if is_c else {"gcc": "g++", "clang": "clang++"}[ccs]
    src = os.path.join(HARN, "shim_c.c" if is_c else "shim_cpp.cpp")
    std = spec.get("std")
    if std:
        flags.append("-std=" + std)
    vf = spec.get("vflags", [])
    if flavour in ("asan", "vg"):
        vf = vf + ["VF_FLAG_EXACT"]
    if vf:
        flags.append("-DEXTRA_FLAGS=" + "|".join(vf))
    flags += ["-DSURFACE_" + spec["surface"], "-DSHIM_NAME=" + name.replace(":", "_").replace("=", "").replace(",", "_")]
    flags += spec.get("defs", [])
    return cc, src, flags


def surface(name, flavour):
    if name == "go":
        return go_surface()
    if name.startswith("mix"):
        return "%s+%s#%s" % (surface("c_long", flavour), surface("c_short", flavour), name[3:])
    cc, src, flags = surface_flags(name, flavour)
    key = sha(repo_digest(), harness_digest(), cc, *flags)
    safe = "".join(c if c.isalnum() else "_" for c in name)
    cmd = [cc] + flags + ["-I" + HARN, "-I" + REPO, "-fPIC", "-shared", "-fvisibility=hidden", "-w"] + ([] if flavour == "tsan" else WRAP) + (STEPWRAP if flavour == "count" else [])
    return artefact("so_%s_%s" % (flavour, safe), key, lambda t: run_cmd(cmd + [src, "-o", t]))


def go_surface():
    key = sha(repo_digest(), harness_digest(), "go")

    def make(t):
        d = tempfile.mkdtemp(prefix="gobuild", dir=BUILD)
        try:
            pk = os.path.join(d, "zzzjson")
            os.makedirs(os.path.join(pk, "real"))
            for f in os.listdir(REPO):
                p = os.path.join(REPO, f)
                if f.endswith(".go") and not f.endswith("_test.go"):
                    shutil.copy(p, pk)
                elif f.endswith(".h"):
                    shutil.copy(p, os.path.join(pk, "real"))
            for f in os.listdir(pk + "/real"):
                if f != "zzzjson.h":
                    shutil.copy(os.path.join(pk, "real", f), pk)
            shutil.copy(os.path.join(HARN, "goshim", "memhook.h"), os.path.join(pk, "zzzjson.h"))
            for f in ("main.go", "table.c"):
                shutil.copy(os.path.join(HARN, "goshim", f), d)
            shutil.copy(os.path.join(HARN, "api.h"), d)
            with open(os.path.join(d, "go.mod"), "w") as f:
                f.write("module vf\n\ngo 1.23\n")
            env = dict(os.environ, GOFLAGS="-mod=mod", GOCACHE=os.path.join(BUILD, "gocache"), GOTOOLCHAIN="local", CGO_ENABLED="1",
                       GOPROXY="off", HOME=os.environ.get("HOME", "/root"))
            # every malloc and free of the package's C side, C.CString included, goes through table.c
            run_cmd(["go", "build", "-buildmode=c-shared", "-ldflags", "-extldflags=-Wl,--wrap=malloc,--wrap=free,--wrap=calloc,--wrap=realloc,--wrap=strdup", "-o", t, "."], cwd=d, env=env)
            if os.path.exists(t + ".h"):
                os.unlink(t + ".h")
        finally:
            shutil.rmtree(d, ignore_errors=True)

    return artefact("so_go", key, make)


def fuzzer(names, pool):
    """A libFuzzer binary with the given surfaces linked in."""
    cxx = ["clang++", "-std=c++17"] + J.ASAN_FLAGS + ["-O1", "-g", "-DVF_COUNT_ONLY"]
    units = ["engines", "cost", "world", "hist", "gen", "oracle", "runtime"]
    # only the library is instrumented for coverage: guidance should come from it, not from the checker
    objs = list(pool.map(lambda u: object_file("asan", u), units))
    key = sha(repo_digest(), harness_digest(), *names)
    tmpd = tempfile.mkdtemp(prefix="fz", dir=BUILD)

    def make(t):
        sos = []
        for n in names:
            cc, src, flags = surface_flags(n, "asan")
            o = os.path.join(tmpd, n + ".o")
            run_cmd([cc] + flags + ["-fsanitize=fuzzer-no-link", "-Dvf_api=vf_api_" + n, "-I" + HARN, "-I" + REPO, "-fPIC", "-w", "-c", src, "-o", o])
            sos.append(o)
        fz = os.path.join(tmpd, "fuzz.o")
        run_cmd(cxx + ["-DVF_APIS=" + " ".join("X(%s)" % n for n in names), "-c", os.path.join(HARN, "fuzz.cpp"), "-o", fz])
        run_cmd(cxx + ["-fsanitize=fuzzer", "-rdynamic", fz] + sos + objs + ["-o", t, "-ldl", "-lpthread"])

    try:
        return artefact("fuzz_" + "_".join(names), key, make)
    finally:
        shutil.rmtree(tmpd, ignore_errors=True)


# ------------------------------------------------------------------------------------------ running
ENV = {
    "asan": {"ASAN_OPTIONS": "detect_leaks=0:exitcode=45:abort_on_error=0:allocator_may_return_null=1:hard_rss_limit_mb=6000:"
                             "detect_stack_use_after_return=0:quarantine_size_mb=32:handle_abort=1:symbolize=1",
             "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=45:halt_on_error=1"},
    "vg": {"VF_NOASLR": "1"},
    "tsan": {"TSAN_OPTIONS": "exitcode=45:halt_on_error=1:report_thread_leaks=0:report_signal_unsafe=0"},
}


def replay_dir():
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    return d


def drv_cmd(job, drv, sos, prop, tier, seed, outfile):
    fl = job["flavour"]
    cmd = []
    if fl == "vg":
        cmd += ["valgrind", "-q", "--error-exitcode=45", "--trace-children=yes", "--leak-check=no", "--child-silent-after-fork=no",
                "--exit-on-first-error=yes", "--track-origins=no"]
    cmd += [drv, "--engine", job["engine"], "--param", job.get("param", ""), "--seed", str(seed), "--cases", str(job["cases"]),
            "--workers", str(job.get("workers", NCPU)), "--tier", "1" if tier == "thorough" else "0", "--prop", prop, "--out", outfile,
            "--replaydir", replay_dir(), "--flavour", fl, "--maxsec", str(job.get("maxsec", 600))]
    if fl in ("asan", "asanraw", "tsan", "vg") or "go" in job["surfaces"]:
        cmd += ["--as", "0"]
    else:
        cmd += ["--as", str(job.get("as", 3500))]
    if fl == "vg":
        cmd += ["--fill", "-1", "--cpu", "300", "--wall", "600"]
    elif "fill" in job:
        cmd += ["--fill", str(job["fill"])]
    elif "cpu" not in job and (job["engine"] in ("deep", "growth", "threads") or fl in ("asan", "asanraw", "tsan")):
        cmd += ["--cpu", "60"]
    if "cpu" in job:
        cmd += ["--cpu", str(job["cpu"])]
    if "wall" in job:
        cmd += ["--wall", str(job["wall"])]
    if "locale" in job:
        cmd += ["--locale", job["locale"]]
    for s in sos:
        cmd += ["--so", s]
    return cmd


def build_for(jobs, pool_workers=NCPU):
    """Builds everything the jobs need; returns {(kind, name, flavour): path}."""
    need = set()
    for j in jobs:
        fl = j["flavour"]
        need.add(("drv", "", fl))
        for s in j["surfaces"]:
            need.add(("so", s, fl))
    res = {}
    with cf.ThreadPoolExecutor(pool_workers) as pool, cf.ThreadPoolExecutor(len(need) + 1) as outer:
        futs = {}
        for k in need:
            if k[0] == "drv":
                futs[k] = outer.submit(driver, k[2], pool)
            else:
                futs[k] = pool.submit(surface, k[1], k[2])
        for k, f in futs.items():
            res[k] = f.result()
    return res


def run_job(job, built, prop, tier, seed):
    fl = job["flavour"]
    drv = built[("drv", "", fl)]
    sos = [built[("so", s, fl)] for s in job["surfaces"]]
    fd, out = tempfile.mkstemp(prefix="out", dir=BUILD)
    os.close(fd)
    try:
        env = job_env(job)
        cmd = drv_cmd(job, drv, sos, prop, tier, seed, out)
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=env)
        txt = open(out).read().strip()
        if p.returncode not in (0, 1) or not txt:
            raise RuntimeError("driver ended with %d: %s\n%s" % (p.returncode, " ".join(cmd), p.stdout[-3000:]))
        r = json.loads(txt.splitlines()[-1])
        r["surfaces"] = job["surfaces"]
        if "locale" in job:
            r["param"] = (r["param"] + " locale=" + job["locale"]).strip()
        if r["violation"] and os.path.exists(r["violation"]["replay"]):
            rec = json.load(open(r["violation"]["replay"]))
            rec["surfaces"] = job["surfaces"]
            rec["options"] = {k: job[k] for k in ("fill", "cpu", "wall", "as", "locale") if k in job}
            with open(r["violation"]["replay"], "w") as f:
                json.dump(rec, f, indent=1)
        return r
    finally:
        os.unlink(out)


def run_fuzz(job, prop, tier, seed):
    """Coverage-guided fuzzing of an engine; findings become replay files of the ASan driver."""
    with cf.ThreadPoolExecutor(NCPU) as pool:
        exe = fuzzer(job["surfaces"], pool)
        drv = driver("asan", pool)
        sos = [surface(s, "asan") for s in job["surfaces"]]
    d = tempfile.mkdtemp(prefix="fuzzrun", dir=BUILD)
    procs = []
    t0 = time.time()
    try:
        env = dict(os.environ)
        env.update(ENV["asan"])
        env["VF_FUZZ_ENGINE"] = job["engine"]
        env["VF_FUZZ_PARAM"] = job.get("param", "")
        n = job.get("workers", NCPU)
        for w in range(n):
            wd = os.path.join(d, "w%d" % w)
            os.makedirs(os.path.join(wd, "corpus"))
            for i, b in enumerate(J.fuzz_seeds(job["engine"], seed * 1000 + w)):
                with open(os.path.join(wd, "corpus", "s%d" % i), "wb") as f:
                    f.write(b)
            args = [exe, "corpus", "-seed=%d" % (seed * 64 + w + 1), "-runs=%d" % job["cases"], "-max_len=%d" % job.get("max_len", 600),
                    "-timeout=60", "-rss_limit_mb=6000", "-use_value_profile=1", "-print_final_stats=1", "-artifact_prefix=" + wd + "/",
                    "-max_total_time=%d" % job.get("maxsec", 600), "-reload=0"]
            if os.path.exists(os.path.join(HERE, "fuzz.dict")):
                args.append("-dict=" + os.path.join(HERE, "fuzz.dict"))
            procs.append((wd, subprocess.Popen(args, cwd=wd, env=env, stdout=subprocess.DEVNULL, stderr=open(os.path.join(wd, "log"), "w"))))
        execs = cov = newunits = 0
        viol = None
        for wd, p in procs:
            p.wait()
            log = open(os.path.join(wd, "log"), errors="replace").read()
            for line in log.splitlines():
                if line.startswith("stat::number_of_executed_units:"):
                    execs += int(line.split()[-1])
                elif line.startswith("stat::new_units_added:"):
                    newunits += int(line.split()[-1])
                elif " cov: " in line:
                    try:
                        cov = max(cov, int(line.split(" cov: ")[1].split()[0]))
                    except ValueError:
                        pass
            arts = [f for f in os.listdir(wd) if f.startswith(("crash-", "timeout-", "oom-"))]
            for a in arts:
                if viol:
                    break
                data = open(os.path.join(wd, a), "rb").read()
                viol = confirm_fuzz(job, prop, drv, sos, data, log, seed)
            if p.returncode != 0 and not arts:
                raise RuntimeError("fuzzer ended with %d\n%s" % (p.returncode, log[-3000:]))
        if execs == 0 and not viol:
            raise RuntimeError("the fuzzer executed nothing")
        return {"engine": "fuzz:" + job["engine"], "param": job.get("param", ""), "flavour": "asan+libFuzzer", "cases": execs, "evaluations": execs,
                "distinct_nontrivial": newunits, "rule": "coverage-guided choice sequences for the engine; non-trivial and distinct: inputs that reached new coverage of the library or a new comparison value",
                "samples": ["%d executions, %d edges of the library covered, %d inputs kept" % (execs, cov, newunits)], "classes": {}, "wall_s": time.time() - t0, "note": "",
                "violation": viol, "surfaces": job["surfaces"]}
    finally:
        for _, p in procs:
            if p.poll() is None:
                p.kill()
        shutil.rmtree(d, ignore_errors=True)


def confirm_fuzz(job, prop, drv, sos, data, log, seed):
    """A fuzzer finding counts when the ASan driver fails on the same choice bytes."""
    name = "%s-fuzz-%s.json" % (prop, sha(data)[:10])
    path = os.path.join(replay_dir(), name)
    msg = ""
    for line in log.splitlines():
        if line.startswith(("VIOLATION-DETAIL", "==", "SUMMARY")) and not msg:
            msg = line
    rec = {"property": prop, "engine": job["engine"], "param": job.get("param", ""), "flavour": "asan", "surfaces": job["surfaces"],
           "tier": 0, "seed": seed, "workers": 1, "prelude": [], "message": msg, "bytes": data.hex(), "trace": []}
    with open(path, "w") as f:
        json.dump(rec, f, indent=1)
    rc, out = replay_file(path)
    if rc == 1:
        return {"message": (msg + " " + out)[-1500:], "replay": path}
    os.unlink(path)
    return None


def replay_file(path):
    rec = json.load(open(path))
    fl = rec["flavour"]
    job = dict(rec.get("options", {}), flavour=fl, surfaces=rec["surfaces"])
    built = build_for([job])
    drv = built[("drv", "", fl)]
    sos = [built[("so", s, fl)] for s in job["surfaces"]]
    fd, bf = tempfile.mkstemp(prefix="bytes", dir=BUILD)
    os.write(fd, bytes.fromhex(rec["bytes"]))
    os.close(fd)
    try:
        cmd = drv_cmd(dict(job, engine=rec["engine"], param=rec["param"], cases=1), drv, sos, rec["property"], "thorough" if rec.get("tier") else "quick",
                      rec["seed"], "-")
        cmd += ["--bytesfile", bf]
        pre = rec.get("prelude")
        pf = None
        if pre:
            fd, pf = tempfile.mkstemp(prefix="prel", dir=BUILD)
            os.write(fd, " ".join(str(x) for x in pre).encode())
            os.close(fd)
            cmd += ["--preludefile", pf]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=job_env(job))
        return p.returncode, p.stdout
    finally:
        os.unlink(bf)
        if pf:
            os.unlink(pf)


# ------------------------------------------------------------------------------------------ one check
def known_findings():
    path = os.path.join(HERE, "known-findings.txt")
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("known: "):
                rec = json.loads(line[7:])
                out.append(rec)
    return out


def mem_available():
    try:
        for line in open("/proc/meminfo"):
            if line.startswith("MemAvailable:"):
                return int(line.split()[1]) / 1e6
    except OSError:
        pass
    return 0


def check(prop, tier, seed):
    t0 = time.time()
    jobs = J.jobs_for(prop, tier, seed)
    results = []
    violation = None
    try:
        built = build_for([j for j in jobs if j["flavour"] != "fuzz"])
    except BuildError as e:
        # a surface the property speaks about does not build any more
        if J.BUILD_IS_PART.get(prop):
            os.makedirs(replay_dir(), exist_ok=True)
            path = os.path.join(replay_dir(), prop + "-build.txt")
            with open(path, "w") as f:
                f.write(str(e))
            violation = {"message": "does not build", "replay": path}
            built = {}
            jobs = []
        else:
            print(str(e))
            return 2
    skipped = []
    for j in jobs:
        if j.get("mem", 0) > mem_available():
            skipped.append("%s %s on %s needs %d GB of memory" % (j["engine"], j["param"], ",".join(j["surfaces"]), j["mem"]))
            print("skipped: " + skipped[-1])
            continue
        if "locale" in j and locale_dir() is None:
            skipped.append("%s %s on %s needs localedef" % (j["engine"], j["param"], ",".join(j["surfaces"])))
            print("skipped: " + skipped[-1])
            continue
        try:
            r = run_fuzz(j, prop, tier, seed) if j["flavour"] == "fuzz" else run_job(j, built, prop, tier, seed)
        except RuntimeError as e:  # the driver gave no answer (another run may have pruned its build): once more
            print(str(e)[:600])
            if j["flavour"] != "fuzz":
                built.update(build_for([j]))
            r = run_fuzz(j, prop, tier, seed) if j["flavour"] == "fuzz" else run_job(j, built, prop, tier, seed)
        results.append(r)
        print("%-10s %-24s %-6s %-28s cases=%-9d non-trivial=%-9d %.1fs" % (r["engine"], r["param"], r["flavour"], ",".join(j["surfaces"])[:28],
                                                                       r["evaluations"], r["distinct_nontrivial"], r["wall_s"]), flush=True)
        if r["violation"]:
            violation = r["violation"]
            break
    write_evidence(prop, tier, seed, results, violation, time.time() - t0, skipped)
    for k in known_findings():
        if k["property"] == prop:
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    if violation:
        print("  " + violation["message"][:1500])
        print("VIOLATION property=%s replay=%s" % (prop, violation["replay"]))
        return 1
    return 0


def write_evidence(prop, tier, seed, results, violation, wall, skipped=()):
    groups = {}
    samples = []
    rules = {}
    classes = {}
    for r in results:
        # the same cases on another build count once as distinct cases
        g = (r["engine"], r["param"])
        groups[g] = max(groups.get(g, 0), r["distinct_nontrivial"])
        rules.setdefault(r["engine"], r["rule"])
        for s in r["samples"][:2]:
            if len(samples) < 12:
                samples.append("[%s %s on %s/%s] %s" % (r["engine"], r["param"], ",".join(r["surfaces"])[:60], r["flavour"], s[:700]))
        for k, v in r["classes"].items():
            classes[k] = classes.get(k, 0) + v
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": J.LEVEL,
        "coverage": {
            "evaluations": sum(r["evaluations"] for r in results),
            "distinct_nontrivial": sum(groups.values()),
            "rule": "; ".join("%s: %s" % kv for kv in rules.items()) + ". A case run on several builds is counted once as distinct.",
            "samples": samples or ["(no case was run: %s)" % (violation["message"] if violation else "no jobs")],
            "classes": dict(sorted(classes.items(), key=lambda kv: -kv[1])),
            "jobs": [{"engine": r["engine"], "param": r["param"], "build": r["flavour"], "surfaces": r["surfaces"], "evaluations": r["evaluations"],
                      "distinct_nontrivial": r["distinct_nontrivial"], "complete": r["cases"] >= r.get("planned", r["cases"]), "wall_s": round(r["wall_s"], 2)} for r in results],
        },
        "assumptions": list(J.ASSUMPTIONS) + ["skipped for lack of memory: " + x for x in skipped],
        "wall_s": round(wall, 2),
        "violations": 1 if violation else 0,
    }
    d = os.path.join(HERE, "evidence")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, prop + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.rename(p + ".tmp", p)


def main(argv):
    tier = os.environ.get("VERIF_TIER") or "quick"
    seed = int(os.environ.get("VERIF_SEED") or "1")
    args = []
    i = 0
    while i < len(argv):
        if argv[i] == "--tier":
            tier = argv[i + 1]
            i += 2
        elif argv[i] == "--seed":
            seed = int(argv[i + 1])
            i += 2
        else:
            args.append(argv[i])
            i += 1
    if tier not in ("quick", "thorough"):
        tier = "quick"
    if args[:1] == ["--setup"]:
        alljobs = [j for p in J.PROPS for j in J.jobs_for(p, "quick", seed) if j["flavour"] != "fuzz"]
        build_for(alljobs)
        return 0
    if args[:1] == ["--replay"]:
        rc, out = replay_file(args[1])
        print(out)
        return rc
    if len(args) != 1 or args[0] not in J.PROPS:
        print(__doc__)
        return 2
    try:
        return check(args[0], tier, seed)
    except BuildError as e:
        print(str(e)[-6000:])
        return 2


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))

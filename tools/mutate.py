#!/usr/bin/env python3
"""Development aid (no check uses it): small syntactic changes of a header, run against a battery of the engines.

  mutate.py FILE(relative to /repo) SURFACE COUNT SEED OUT.jsonl [lines A-B]
Needs the drivers of run.py --setup. Survivors are to be read by hand: equivalent, or a gap of the checks.
"""
import concurrent.futures as cf
import json, os, random, re, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import run as R, jobs as J

REL, SURF, COUNT, SEED, OUT = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4]), sys.argv[5]
src = open("/repo/" + REL, newline="").read()
lines = src.split("\n")
lo, hi = 0, len(lines)
if len(sys.argv) > 6:
    lo, hi = (int(x) for x in sys.argv[6].split("-"))

SWAPS = [(r"==", "!="), (r"!=", "=="), (r"(?<![<\-])<(?![<=])", "<="), (r"(?<![>\-])>(?![>=])", ">="), (r"<=", "<"), (r">=", ">"), (r"&&", "||"), (r"\|\|", "&&"),
         (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"->Next\b", "->Prev"), (r"->Prev\b", "->Next"), (r"->Element\b", "->Next"), (r"\+ 1\b", "+ 2"), (r"\+ 1\b", ""), (r"- 1\b", ""),
         (r"\+ 1\b", "+ 0"), (r"\+=", "="), (r"\+\+", "--"), (r"!(?=[a-z_])", ""), (r"\bbreak;", ";"), (r"\bcontinue;", ";"), (r"\bbreak;", "continue;"), (r"->Key\b", "->Value"), (r"->Value\b", "->Key"),
         (r"KeyLen\b", "ValueLen"), (r"ValueLen\b", "KeyLen"), (r"\bdst\b", "src"), (r"\bvv\b", "v"), (r"\bv\b", "vv"), (r"\bnext\b", "prev"), (r"\bprev\b", "next"),
         (r"Len\b", "Len - 1"), (r"\*\w+ = ", "")]
muts = []
for i in range(lo, hi):
    l = lines[i]
    st = l.strip()
    if not st or st.startswith(("//", "#", "*", "/*")):
        continue
    code = l.split("//")[0]
    for pat, rep in SWAPS:
        for m in re.finditer(pat, code):
            muts.append((i, code[:m.start()] + rep + code[m.end():] + ("\r" if l.endswith("\r") and "//" in l else ""), pat + "->" + rep))
    for m in re.finditer(r"\b(0x[0-9a-fA-F]+|\d+)\b", code):
        try:
            v = int(m.group(0), 0)
        except ValueError:
            continue
        for d in (1, -1):
            if v + d >= 0:
                muts.append((i, code[:m.start()] + (hex(v + d) if m.group(0).startswith("0x") else str(v + d)) + code[m.end():], "const%+d" % d))
    for m in re.finditer(r"'(\\?.)'", code):
        muts.append((i, code[:m.start()] + "'~'" + code[m.end():], "char"))
    if re.match(r"^[\w\->.*\[\]()]+\s*[-+*|&]?=[^=].*;\s*$", st) or re.match(r"^\w+\(.*\);\s*$", st) or st in ("return;",):
        muts.append((i, re.match(r"^\s*", l).group(0) + ";", "del"))
        muts.append((i, re.match(r"^\s*", l).group(0) + "if (0) " + st, "del0"))
rng = random.Random(SEED)
seen = set()
u = []
for m in muts:
    if (m[0], m[1]) not in seen and m[1] != lines[m[0]]:
        seen.add((m[0], m[1]))
        u.append(m)
muts = u
rng.shuffle(muts)
print(len(muts), "possible; taking", COUNT)
muts = muts[:COUNT]

with cf.ThreadPoolExecutor(8) as pool:
    DRV = {f: R.driver(f, pool) for f in ("plain", "asan")}
BETA = SURF.startswith("beta")
P, A = "plain", "asan"
TEXT = J.TEXT_SWEEPS + J.LIT_SWEEPS
BATTERY = ([("hist", "p=mix", P, 3000), ("doc", "f=read", P, 3000), ("doc", "f=text", P, 3000), ("doc", "f=verdict", P, 8000), ("shorthist", "len=3", P, 0), ("moves", "", P, 0), ("trunc", "", P, 0)] +
           [("sweep", "w=" + w, P, 0) for w in TEXT] +
           [("unicode", "", P, 0), ("into", "", P, 5000), ("num", "", P, 12000), ("ints", "", P, 0), ("numlen", "", P, 0), ("esc", "", P, 10000), ("escbytes", "", P, 0), ("lens", "max=2500", P, 0), ("deep", "k=14", P, 0),
            ("reads", "", P, 3000), ("hist", "p=mem", P, 4000), ("hist", "p=copy", P, 4000), ("hist", "p=move", P, 6000), ("hist", "p=edit", P, 8000), ("hist", "p=read", P, 5000), ("hist", "p=lits", P, 5000),
            ("hist", "p=mem", A, 600), ("hist", "p=mix", A, 800), ("doc", "f=verdict", A, 1500), ("trunc", "", A, 0), ("lens", "max=700", A, 0), ("num", "", A, 1000), ("unicode", "", A, 0)])
if not BETA:
    BATTERY += [("growth", "", "narrow", 0), ("lens", "max=500", "tiny", 0), ("hist", "p=mix", "tiny", 2000), ("unicode", "", "narrow", 0), ("hist", "p=mem", "mode2", 500), ("hist", "p=mem", "mode3", 500)]


def one(k):
    i, new, what = muts[k]
    d = tempfile.mkdtemp(prefix="mut", dir="/tmp")
    res = {"line": i + 1, "old": lines[i].strip(), "new": new.strip(), "what": what}
    try:
        repo = os.path.join(d, "repo")
        os.makedirs(repo + "/beta")
        for f in ("zzzjson.h", "zzzjson.hpp", "zzzjson.go", "beta/zzzjson_beta.h"):
            shutil.copy("/repo/" + f, os.path.join(repo, f))
        L = list(lines)
        L[i] = new
        open(os.path.join(repo, REL), "w", newline="").write("\n".join(L))
        sos = {}

        def so(kind):
            if kind not in sos:
                fl, name = (kind, SURF) if kind in ("plain", "asan") else ("plain", kind)
                cc, s, flags = R.surface_flags(name, fl)
                t = os.path.join(d, kind + ".so")
                cmd = [cc] + flags + ["-I" + R.HARN, "-I" + repo, "-fPIC", "-shared", "-fvisibility=hidden", "-w"] + R.WRAP + [s, "-o", t]
                p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                sos[kind] = t if p.returncode == 0 else None
            return sos[kind]

        if not so("plain"):
            res["status"] = "nobuild"
            return res
        for eng, par, kind, n in BATTERY:
            t = so(kind)
            if not t:
                res["status"] = "killed"
                res["by"] = "build " + kind
                return res
            fl = "asan" if kind == "asan" else "plain"
            env = dict(os.environ)
            env.update(R.ENV.get(fl, {}))
            cmd = [DRV[fl], "--engine", eng, "--param", par, "--so", t, "--seed", "1", "--cases", str(n), "--workers", "1", "--as", "0" if fl == "asan" else "2500", "--cpu", "20", "--wall", "60", "--shrinksec", "0",
                   "--maxsec", "300", "--prop", "M", "--out", os.path.join(d, "out"), "--replaydir", d, "--flavour", fl]
            p = subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=env)
            if p.returncode == 1:
                res["status"] = "killed"
                res["by"] = "%s %s %s" % (eng, par, kind)
                try:
                    res["msg"] = json.load(open(os.path.join(d, "out")))["violation"]["message"][:200]
                except Exception:
                    pass
                return res
            if p.returncode != 0:
                res["status"] = "error"
                res["by"] = "%s %s %s" % (eng, par, kind)
                return res
        res["status"] = "survived"
        return res
    finally:
        shutil.rmtree(d, ignore_errors=True)


cnt = {}
with open(OUT, "a") as out, cf.ThreadPoolExecutor(int(os.environ.get("MUT_JOBS", "8"))) as ex:
    for r in ex.map(one, range(len(muts))):
        cnt[r["status"]] = cnt.get(r["status"], 0) + 1
        out.write(json.dumps(r) + "\n")
        out.flush()
print(cnt)

#!/usr/bin/env python3
"""Create, confirm and evaluate planted bugs.

Definitions: tools/seeds/*.py, each setting SEEDS = {id: dict(property, edits=[(file, old, new)...],
needs, breaks, demo (C++ source), src=[...], flags, shim=bool)}.
  seed.py make ID...     write seeded/ID and confirm it (build, stable tests, demo with and without)
  seed.py check ID...    run the property's quick check against it
  seed.py all            make + check everything that is not there yet
"""
import glob, json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
BASE = "82743b4"
SEEDS = {}
for f in sorted(glob.glob(HERE + "/seeds/*.py")):
    g = {}; exec(open(f).read(), g); SEEDS.update(g["SEEDS"])
PRE = '#include <cstdio>\n#include <cstdlib>\n#define REQUIRE(c) do { if (!(c)) { std::printf("demo: line %d: %s\\n", __LINE__, #c); return 1; } } while (0)\n'

def sh(cmd, **k): return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)

def make(i):
    s = SEEDS[i]; d = f"{VERIF}/seeded/{i}"
    w = tempfile.mkdtemp(prefix="seed")+"/r"
    sh(f"cp -a /repo {w}")
    for f, old, new in s["edits"]:
        t = open(f"{w}/{f}").read()
        if t.count(old) != 1: return f"{f}: old text occurs {t.count(old)} times"
        # every removed line must be an original one
        open(f"{w}/{f}", "w").write(t.replace(old, new))
    patch = sh(f"git -C {w} diff").stdout
    import re
    cur = None; orig = 0
    for l in patch.split("\n"):
        if l.startswith("--- a/"): cur = l[6:]
        m = re.match(r"@@ -(\d+)", l)
        if m: n = int(m.group(1)); continue
        if cur and l.startswith("-") and not l.startswith("---"):
            b = sh(f"git -C /repo blame -s -L{n},{n} HEAD -- {cur}").stdout
            if b.startswith("^") or sh(f"git -C /repo merge-base --is-ancestor {b.split()[0].lstrip('^')} {BASE}").returncode == 0: orig += 1
            else: return f"line {n} of {cur} is not an original line: {b.strip()}"
            n += 1
        elif cur and l.startswith(" "): n += 1
    if not orig: return "removes no original line"
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    open(f"{d}/patch.diff", "w").write(patch)
    json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(f"{d}/meta.json", "w"), indent=1)
    if "pydemo" in s:
        open(f"{d}/demo.py", "w").write(s["pydemo"].lstrip("\n"))
        open(f"{d}/demo.sh", "w").write("""#!/bin/bash
# run with cwd /repo: runs the script in a scratch directory
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
d=$(mktemp -d) || exit 3
cd "$d" || exit 3
REPO=$repo PYTHONDONTWRITEBYTECODE=1 timeout 200 python3 "$here/demo.py"
""")
    else: cdemo(s, d)
    os.chmod(f"{d}/demo.sh", 0o755)
    return confirm(i, s, d, w)

def cdemo(s, d):
    open(f"{d}/demo.cpp", "w").write(PRE + s["demo"])
    inc = "-Isrc"
    if s.get("shim"):
        shutil.copytree(f"{VERIF}/shim", f"{d}/shim"); inc += ' -I"$here" -I"$here/shim" -isystem /usr/include/eigen3'
    for x in s.get("files", []): shutil.copy(f"{VERIF}/{x}", d)
    flags = "-std=c++17 -w -O1 -g -fsanitize=address,undefined -fno-sanitize-recover=all " + s.get("flags", "")
    open(f"{d}/demo.sh", "w").write(f'''#!/bin/bash
# run with cwd /repo: builds a small program from its sources and runs it in a scratch directory
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d) || exit 3
g++ {flags} {inc} -I. "$here/demo.cpp" {" ".join(s.get("src", []))} -o "$d/demo" {s.get("libs", "")} || exit 2
cd "$d" || exit 3
ASAN_OPTIONS=detect_leaks={s.get("leaks", 0)} timeout 200 ./demo
''')

def confirm(i, s, d, w):
    # confirm: quiet without, build + stable tests + demo with
    r = sh(f"bash {d}/demo.sh", cwd="/repo")
    if r.returncode: return "demo fails on the unchanged tree:\n" + (r.stdout + r.stderr)[-1500:]
    if sh("git -C /repo status --porcelain -uno").stdout.strip(): return "repo dirty"
    try:
        if sh(f"git -C /repo apply {d}/patch.diff").returncode: return "patch does not apply"
        b = sh("bash /opt/vp/build.sh")
        if b.returncode: return "build fails"
        t = sh(f"bash /opt/vp/test.sh {w}/../t.json"); res = open(f"{w}/../t.json").read()
        base = json.load(open("/opt/vp/BASELINE.json"))
        out = json.loads(res)
        bad = [x for x in stable(base) if x not in passed(out)]
        if bad: return "stable tests fail: %s" % bad
        r = sh(f"bash {d}/demo.sh", cwd="/repo")
        if r.returncode == 0: return "demo passes with the patch"
        if r.returncode in (2, 3, 124): return "demo: rc %d\n" % r.returncode + (r.stdout + r.stderr)[-1500:]
        print(f"  demo with patch: rc {r.returncode}", (r.stdout + r.stderr).strip().split("\n")[-1][:150])
    finally:
        sh("git -C /repo checkout -- ."); sh("bash /opt/vp/build.sh"); shutil.rmtree(os.path.dirname(w))
    return None

def stable(b):
    for k in ("stable", "stable_passing", "passing", "passed"):
        if k in b: return list(b[k])
    raise SystemExit("BASELINE keys: %s" % list(b))
def passed(o):
    for k in ("passed", "passing"):
        if k in o: return set(o[k])
    if "tests" in o: return {t["name"] for t in o["tests"] if t.get("status", t.get("outcome")) in ("passed", "pass")}
    raise SystemExit("result keys: %s" % list(o))

def check(i):
    d = f"{VERIF}/seeded/{i}"; p = json.load(open(d + "/meta.json"))["property"]
    w = tempfile.mkdtemp(prefix="seedc"); sh(f"cp -a /repo {w}/r; git -C {w}/r apply {d}/patch.diff")
    r = sh(f"python3 {VERIF}/check.py {p}", env=dict(os.environ, MC_REPO=f"{w}/r", MC_BUILD=f"{w}/b", MC_EVID=f"{w}/e"), cwd=VERIF)
    v = [l for l in r.stdout.split("\n") if l.startswith("VIOLATION")]
    shutil.rmtree(w)
    return r.returncode, v[:1] or (r.stdout + r.stderr)[-300:]

if __name__ == "__main__":
    cmd, ids = sys.argv[1], sys.argv[2:] or list(SEEDS)
    if cmd == "all": ids = [i for i in ids if not os.path.exists(f"{VERIF}/seeded/{i}/demo.sh")]
    for i in ids:
        if cmd in ("make", "all"):
            e = make(i); print(i, "OK" if e is None else "NOT OK: " + e, flush=True)
            if e: shutil.rmtree(f"{VERIF}/seeded/{i}", ignore_errors=True); continue
        if cmd in ("check", "all"): print("  check:", i, *check(i), flush=True)

#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] : build the harness for one property from
/repo's current working tree and run the exploration.  Exit 0 held, 1 violated
(VIOLATION line printed), 2 error of the machinery.
check.py ID --replay FILE re-runs one recorded choice sequence."""
import sys, os, glob, hashlib, subprocess, json, time, concurrent.futures as cf
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("MC_REPO", "/repo")
BUILD = os.environ.get("MC_BUILD", os.path.join(HERE, "build"))
sys.path.insert(0, HERE)
from specs import SPECS

CXX = os.environ.get("CXX", "g++")
BASE = ["-std=c++17", "-O1", "-g1", "-fno-omit-frame-pointer", "-w", "-D_GLIBCXX_ASSERTIONS",
        "-ftrivial-auto-var-init=pattern", "-fno-gnu-unique"] + os.environ.get("MC_XFLAGS", "").split()
SAN = ["-fsanitize=address,undefined", "-fno-sanitize=float-divide-by-zero,float-cast-overflow,vptr,alignment", "-fno-sanitize-recover=all"]

def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode()); h.update(b"\0")
    return h.hexdigest()

def rd(f):
    with open(f, "rb") as fh: return fh.read()

_tree = None
def header_hash():
    """everything a source may include: all files of src/ and var/, the shims and lib/"""
    global _tree
    if _tree is None:
        h = hashlib.sha256()
        fs = []
        for pat in ("src/**/*", "var/**/*"):
            fs += glob.glob(os.path.join(REPO, pat), recursive=True)
        fs += glob.glob(os.path.join(HERE, "shim/**/*"), recursive=True) + glob.glob(os.path.join(HERE, "lib/*")) + glob.glob(os.path.join(HERE, "harness/*.hpp"))
        for f in sorted(fs):
            if os.path.isfile(f) and f.rsplit(".", 1)[-1] in ("hpp", "h", "cpp", "cc"):
                # objects of one .cpp do not depend on another, except where a
                # harness includes it; the harness key takes the whole tree
                if f.endswith((".hpp", ".h")): h.update(f.encode()); h.update(rd(f))
        _tree = h.hexdigest()
    return _tree

def whole_hash():
    if os.environ.get("MC_HARNESS_KEY"): return os.environ["MC_HARNESS_KEY"]  # tools/mutate.py: no harness includes the changed file
    h = hashlib.sha256()
    for pat in ("src/**/*", "var/**/*"):
        for f in sorted(glob.glob(os.path.join(REPO, pat), recursive=True)):
            if os.path.isfile(f) and f.rsplit(".", 1)[-1] in ("cpp", "cc"):
                h.update(f.encode()); h.update(rd(f))
    return h.hexdigest()

def compile_one(src, flags, extra_key=""):
    key = sha(" ".join(flags), CXX, src, rd(src), header_hash(), extra_key)[:32]
    obj = os.path.join(BUILD, key + ".o")
    if os.path.exists(obj): return obj, ""
    tmp = obj + ".%d.tmp" % os.getpid()
    r = subprocess.run([CXX] + flags + ["-c", src, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode: return None, "%s\n%s" % (src, r.stdout[-4000:])
    os.rename(tmp, obj)
    return obj, ""

def unit_flags(u, san):
    incf = []
    for i in u.get("inc", ["src"]): incf += ["-I", os.path.join(REPO, i)]
    incf += ["-I", os.path.join(HERE, "shim"), "-I", os.path.join(HERE, "lib"), "-I", os.path.join(HERE, "harness"), "-I", REPO, "-isystem", "/usr/include/eigen3"]
    return BASE + (SAN if san else []) + u.get("flags", []) + incf

def build(spec):
    """spec: units = [{harness:[..], src:[globs in the repo], inc, flags, exclude}], ld"""
    os.makedirs(BUILD, exist_ok=True)
    san = spec.get("san", True)
    units = spec.get("units") or [spec]
    jobs = [(os.path.join(HERE, "lib/mc.cpp"), unit_flags({}, san), "", False, -1)]
    for ui, u in enumerate(units):
        f = unit_flags(u, san)
        for h in u.get("harness", []): jobs.append((os.path.join(HERE, h), f + u.get("hflags", []), whole_hash(), False, ui))
        ex = set(os.path.join(REPO, e) for e in u.get("exclude", []))
        for pat in u.get("src", []):
            m = [x for x in sorted(glob.glob(os.path.join(REPO, pat))) if x not in ex]
            if not m: print("no source matches", pat, file=sys.stderr)
            jobs += [(x, f, "", True, ui) for x in m]
    with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as pool:
        res = list(pool.map(lambda j: compile_one(*j[:3]), jobs))
    errs = [e for o, e in res if o is None]
    if errs:
        # a repository source that the harness turns out not to need may fail alone
        if any(o is None and not j[3] for (o, e), j in zip(res, jobs)):
            print("\n".join(errs), file=sys.stderr); return None
    lib = [[] for _ in units]; own = [[] for _ in units]; main = []
    for (o, e), j in zip(res, jobs):
        if o: (main if j[4] < 0 else (lib if j[3] else own)[j[4]]).append(o)
    key = sha(*main, *sum(own, []), *sum(lib, []), " ".join(spec.get("ld", [])), str([u.get("isolate", False) for u in units]))[:32]
    exe = os.path.join(BUILD, key + ".exe")
    if os.path.exists(exe): return exe
    tmps = []
    def tmpf(ext):
        f = os.path.join(BUILD, "%s.%d.%d%s" % (key, os.getpid(), len(tmps), ext)); tmps.append(f); return f
    def sh(cmd):
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode: print(r.stdout[-6000:], file=sys.stderr)
        return r.returncode == 0
    # own objects first, then the repository's as an archive: only what is used is linked
    objs, arcs = list(main), []
    ok = True
    for u, ow, lb in zip(units, own, lib):
        arc = []
        if lb:
            arc = [tmpf(".a")]; ok = ok and sh(["ar", "rcs", arc[0]] + lb)
        if u.get("isolate"):  # a second copy of the same sources: all its symbols made private
            t = tmpf(".o")
            ok = ok and sh(["ld", "-r", "--force-group-allocation"] + ow + arc + ["-o", t]) and sh(["objcopy", "--keep-global-symbol=__no_such_symbol", t])
            objs.append(t)
        else:
            objs += ow; arcs += arc
    tmp = exe + ".%d.tmp" % os.getpid()
    ok = ok and sh([CXX] + BASE + (SAN if san else []) + objs + (["-Wl,--start-group"] + arcs + ["-Wl,--end-group"] if arcs else []) + ["-o", tmp] + spec.get("ld", []) + ["-lpthread"])
    for t in tmps:
        if os.path.exists(t): os.remove(t)
    if not ok:
        print("\n".join(errs), file=sys.stderr); return None
    os.rename(tmp, exe)
    return exe

def main():
    args = sys.argv[1:]
    pid = args.pop(0)
    tier = os.environ.get("VERIF_TIER", "quick"); replay = None; extra = []
    only_build = False
    while args:
        a = args.pop(0)
        if a == "--tier": tier = args.pop(0)
        elif a == "--replay": replay = args.pop(0)
        elif a == "--build": only_build = True
        else: extra.append(a)
    os.environ["VERIF_TIER"] = tier
    ids = sorted(SPECS) if pid == "all" else [pid]
    rc = 0
    for i in ids:
        t0 = time.time()
        spec = SPECS[i]
        if "cmd" in spec:   # a check with its own driver
            if only_build: continue
            rc |= subprocess.run([sys.executable, os.path.join(HERE, spec["cmd"]), i, "--tier", tier] + (["--replay", replay] if replay else []) + extra).returncode
            continue
        ev = os.path.join(os.environ.get("MC_EVID") or os.path.join(HERE, "evidence"), i + ".json"); os.makedirs(os.path.dirname(ev), exist_ok=True)
        exe = build(spec)
        if not exe:
            print("%s: build failed" % i, file=sys.stderr); rc |= 2; continue
        print("%s: built in %.1fs" % (i, time.time() - t0), flush=True)
        if only_build: continue
        os.makedirs(os.path.dirname(ev), exist_ok=True)
        cmd = [exe, "--tier", tier, "--evidence", ev, "--replays", os.environ.get("MC_REPLAYS") or os.path.join(HERE, "replays"), "--known", os.path.join(HERE, "known_findings.txt"),
               "--deadline", str(spec.get("deadline", 420) if tier == "quick" else spec.get("deadline_thorough", 3000))] + extra
        if replay: cmd = [exe, "--tier", tier, "--replay", replay, "--known", os.path.join(HERE, "known_findings.txt")]
        rc |= subprocess.run(cmd).returncode
    sys.exit(rc if rc in (0, 1) else 2)

if __name__ == "__main__": main()

#!/usr/bin/env python3
"""Mutation campaign (development aid, not a check): small edits of the sources, one at a time,
in scratch copies; an edit no check of the file's properties notices is printed for review.
  mutate.py JOBS OUT FILE[:PROP,PROP..]... [--n N] [--seed S] [--only REGEX]"""
import os, random, re, shutil, subprocess, sys, tempfile, threading, queue, time
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
REPO = os.environ.get("MC_REPO", "/repo")

def code_lines(text):
    """(line number, code without comments) of lines worth changing"""
    out = []; blk = False; skip = 0; cont = False
    for n, l in enumerate(text.split("\n")):
        c = l
        if blk:
            if "*/" in c: c = c.split("*/", 1)[1]; blk = False
            else: continue
        c = re.sub(r"/\*.*?\*/", lambda m: " " * len(m.group()), c)
        if "/*" in c: c = c.split("/*")[0]; blk = True
        c = re.sub(r"//.*", "", c)
        s = c.strip()
        if s.startswith("#"):
            if re.match(r"#\s*if(def)?\s+(DEBUG|ABCD|ASSERT_ERROR|COUNT)", s): skip += 1; stack.append(True) if False else None
            elif skip and re.match(r"#\s*if", s): skip += 1
            elif skip and re.match(r"#\s*endif", s): skip -= 1
            elif skip == 1 and re.match(r"#\s*else", s): skip = 0; out.append((n, None))
            continue
        if skip or not s: continue
        if cont or re.match(r"(std::)?f?printf\s*\(|assert\(|static_assert|std::c(out|err)|using |namespace |typedef |struct |class |template|\[\[", s):
            cont = not re.search(r";\s*$", s) and (cont or re.match(r"(std::)?f?printf\s*\(|std::c", s)); continue
        if '"[ERROR]' in c or '"ERROR' in c or s.startswith('"'): continue
        out.append((n, c))
    return [x for x in out if x[1]]

OPS = [(r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "), (r" && ", " || "), (r" \|\| ", " && "),
       (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " / "), (r" / ", " * "), (r"\+=", "-="), (r"-=", "+="), (r"\+\+", "--"), (r"std::min", "std::max"), (r"std::max", "std::min"),
       (r"\bsin\(", "cos("), (r"\bcos\(", "sin("), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\bbreak;", "continue;"), (r"\bcontinue;", "break;"), (r"if \((?!.*constexpr)", "if (!"), (r"return [12];", "return 0;"),
       (r"<(?=[\w(])(?![\w:, *]*>)", "<="), (r"(?<=[\w)])>(?=[\w(])(?!=)", ">="), (r"(?<=[\w)])\+(?=[\w(])", "-"), (r"(?<=[\w)])-(?=[\w(])(?!>)", "+"), (r"\[(\w+)\]", r"[\1 + 1]"), (r"std::abs\(", "("), (r"== 0e0", "== 1e0")]
NUM = re.compile(r"(?<![\w.'\"])(\d+(?:\.\d+)?(?:[eE][-+]?\d+)?)(?![\w.'])")

def mutants(text):
    L = text.split("\n"); ms = []
    for n, c in code_lines(text):
        for a, b in OPS:
            for m in re.finditer(a, c):
                if c.count('"', 0, m.start()) % 2: continue
                if a.startswith("if"):   # negate the condition up to the matching parenthesis
                    i = m.end() - 1; d = 0; e = None
                    i = c.index("(", m.start())
                    for k in range(i, len(c)):
                        d += c[k] == "("; d -= c[k] == ")"
                        if d == 0: e = k; break
                    if e is None or ";" in c[i:e]: continue
                    new = c[:i] + "(!" + c[i:e + 1] + ")" + c[e + 1:]
                else: new = c[:m.start()] + re.sub(a, b, m.group()) + c[m.end():] if not a.startswith(("<(?=", "(?<=")) else c[:m.start()] + b + c[m.end():]
                ms.append((n, new, 1.0))
        nums = list(NUM.finditer(c))
        for m in nums:
            if c.count('"', 0, m.start()) % 2: continue
            t = m.group(1)
            if re.fullmatch(r"\d+", t): vs = [str(int(t) + 1)] + ([str(int(t) - 1)] if int(t) else [])
            else:
                d = [i for i, ch in enumerate(t.split("e")[0].split("E")[0]) if ch.isdigit()]
                k = d[len(d) // 2]; vs = [t[:k] + str((int(t[k]) + 1) % 10) + t[k + 1:], t[:d[0]] + str((int(t[d[0]]) + 1) % 10) + t[d[0] + 1:]]
            for v in vs: ms.append((n, c[:m.start(1)] + v + c[m.end(1):], min(1.0, 3.0 / len(nums))))
        if re.match(r"\s*[\w\[\]().>*-]+(\([^;]*\)|\s*[-+*/]?=[^=].*|\+\+|--)?;\s*$", c) and not re.match(r"\s*(return|break|continue|delete|const|double|int|auto|char|bool)", c):
            ms.append((n, "", 1.0))
        if re.match(r"\s*return [^;]+;", c) and "0e0" not in c and re.search(r"return (status|error|err|[1-9]);", c): ms.append((n, re.sub(r"return [^;]+;", "return 0;", c), 1.0))
    seen = set(); out = []
    for n, new, w in ms:
        if new.strip() == L[n].strip() or (n, new) in seen: continue
        seen.add((n, new)); out.append((n, new, w))
    return out

def pymutants(text):
    L = text.split("\n"); ms = []
    P = [(r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "), (r"==", "!="), (r" and ", " or "), (r" or ", " and "), (r"\bnot ", ""), (r" \+ ", " - "), (r" - ", " + "), (r"\+=", "-="), (r"-=", "+="),
         (r"\bTrue\b", "False"), (r"\bFalse\b", "True"), (r"\bbreak\b", "pass"), (r"\bif (.*):$", r"if not (\1):"), (r"\bwhile (.*):$", r"while not (\1):"), (r"\.strip\(\)", ""), (r"startswith\(", "endswith("), (r"\*(?=\))", ""), (r"is not None", ""), (r"\[0\]", "[-1]"), (r"\[-1\]", "[0]"), (r"\?", ""), (r"\.lower\(\)", "")]
    for n, l in enumerate(L):
        s = l.strip()
        if not s or s.startswith(("#", "import", "from", '"', "'", "errmsg", "parser", "vprint", "metavar", "help", "default", "required", "epilog", "description")): continue
        for a, b in P:
            for m in re.finditer(a, l): ms.append((n, l[:m.start()] + re.sub(a, b, m.group()) + l[m.end():], 1.0))
        for m in NUM.finditer(l):
            t = m.group(1)
            if re.fullmatch(r"\d+", t):
                for v in [str(int(t) + 1)] + ([str(int(t) - 1)] if int(t) else []): ms.append((n, l[:m.start(1)] + v + l[m.end(1):], 1.0))
        if re.match(r"[\w.\[\]'\"]+(\(.*\)| [-+]?= .*)$", s) or s in ("break", "continue") or s.startswith("raise"): ms.append((n, l[:len(l) - len(l.lstrip())] + "pass", 1.0))
    return sorted(set(ms))

def main():
    a = sys.argv[1:]; N = None; seed = 1; only = None
    def opt(k, f=str):
        nonlocal a
        if k in a: i = a.index(k); v = f(a[i + 1]); del a[i:i + 2]; return v
    N = opt("--n", int); seed = opt("--seed", int) or 1; only = opt("--only"); T = opt("--timeout", int) or 400
    jobs = int(a.pop(0)); outf = a.pop(0); q = queue.Queue()
    rnd = random.Random(seed)
    for spec in a:
        f, props = spec.split(":"); text = open(f"{REPO}/{f}").read(); ms = pymutants(text) if f.endswith('.py') else mutants(text)
        if only: ms = [m for m in ms if re.search(only, text.split("\n")[m[0]])]
        k = min(len(ms), N or max(8, len(set(m[0] for m in ms)) // 3))
        pick = []
        pool = list(ms)
        while pool and len(pick) < k:
            i = rnd.choices(range(len(pool)), [m[2] for m in pool])[0]; pick.append(pool.pop(i))
        for m in sorted(pick): q.put((f, props.split(","), text, m))
    lock = threading.Lock(); tot = q.qsize(); done = [0, 0, 0, 0]; log = open(outf, "a")
    fast = {}
    def includes(f):  # does any harness include this source?
        b = os.path.basename(f)
        return f.endswith((".hpp", ".h")) or subprocess.run(["grep", "-rlE", r'#include .*' + re.escape(b), f"{VERIF}/harness", REPO + "/src", REPO + "/var"], capture_output=True).returncode == 0
    def work(w):
        d = tempfile.mkdtemp(prefix=f"mu{w}_"); subprocess.run(f"cp -a {REPO} {d}/r && rm -rf {d}/r/.git", shell=True)
        while True:
            try: f, props, text, (n, new, _) = q.get_nowait()
            except queue.Empty: break
            L = text.split("\n"); old = L[n]; L2 = list(L); L2[n] = new; open(f"{d}/r/{f}", "w").write("\n".join(L2))
            res = "SURVIVED"; t0 = time.time()
            env = dict(os.environ, MC_REPO=f"{d}/r", MC_BUILD=f"{d}/b", MC_EVID=f"{d}/e", MC_REPLAYS=f"{d}/rep")
            if f not in fast: fast[f] = not includes(f)
            if fast[f]: env["MC_HARNESS_KEY"] = "x"
            det = ""
            for p in props:
                try: r = subprocess.run(["python3", f"{VERIF}/check.py", p, "--workers", "2"], env=env, cwd=VERIF, capture_output=True, text=True, timeout=T, errors="replace")
                except subprocess.TimeoutExpired: res = "timeout"; break
                if r.returncode == 1: res = "killed"; break
                if r.returncode != 0: res = "invalid" if "build failed" in r.stderr else f"rc{r.returncode}"; break
            open(f"{d}/r/{f}", "w").write(text)
            with lock:
                k = {"killed": 0, "SURVIVED": 1, "invalid": 2}.get(res, 3); done[k] += 1
                if res != "invalid" : log.write(f"{res} {f}:{n+1} [{time.time()-t0:.0f}s {','.join(props)}]\n" + ("" if res == "killed" else f"   - {old.strip()}\n   + {new.strip()}\n")); log.flush()
                print(f"{sum(done)}/{tot} killed {done[0]} survived {done[1]} invalid {done[2]} other {done[3]}", end="\r", flush=True)
        shutil.rmtree(d, ignore_errors=True)
    ts = [threading.Thread(target=work, args=(i,)) for i in range(jobs)]
    for t in ts: t.start()
    for t in ts: t.join()
    log.write(f"== killed {done[0]} survived {done[1]} invalid {done[2]} other {done[3]}\n"); print()
main()

"""Exhaustive exploration of bounded choice trees for the Python tools (the twin of lib/mc.cpp).

A scenario is a function of a context; every c.choose(n) is a branch point, and all branches are
executed (depth-first, replaying the prefix).  c.deviate(n) is a branch whose non-zero values spend
one unit of the scenario's deviation budget.  Nothing is sampled.
"""
import hashlib, json, os, shutil, signal, sys, tempfile, time, traceback, multiprocessing as mp

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MC_REPO", "/repo")
sys.dont_write_bytecode = True


class Skip(BaseException):
    pass


class Broken(BaseException):
    def __init__(self, msg, key=""):
        super().__init__(msg)
        self.msg, self.key = msg, key


class Hang(BaseException):
    pass


class Ctx:
    def __init__(self, tier, budget, scratch):
        self.tier, self.budget, self._dir = tier, budget, scratch
        self.prefix, self.shard, self.nshards, self.replaying = [], 0, 1, False
        self.states, self.outcomes, self.steps, self.nevals = set(), set(), 0, 0
        self.reset()

    def reset(self):
        self.path, self.ns, self.labels, self.spent, self.notes = [], [], [], 0, ""

    def thorough(self):
        return self.tier == "thorough"

    def scratch(self):
        return self._dir

    def choose(self, n, label=""):
        d = len(self.path)
        a = self.prefix[d] if d < len(self.prefix) else 0
        if a >= n:
            if self.replaying: a = 0
            else: raise RuntimeError("divergence at choice %d (%s)" % (d, label))
        self.path.append(a); self.ns.append(n); self.labels.append(label)
        if d == 3 and not self.replaying and hash(tuple(self.path)) % self.nshards != self.shard:
            raise Skip()
        return a

    def mine(self):   # executions with fewer than four choices belong to the first worker
        return len(self.path) >= 4 or self.shard == 0 or self.replaying

    def deviate(self, n, label=""):
        if self.spent >= self.budget and not self.replaying:
            n = 1
        a = self.choose(n, label)
        if a: self.spent += 1
        return a

    def flip(self, label=""):
        return self.choose(2, label) == 1

    def pick(self, seq, label=""):
        return seq[self.choose(len(seq), label)]

    def check(self, ok, msg, *a, key=""):
        self.nevals += 1
        if not ok:
            raise Broken(msg % a if a else msg, key)

    def fail(self, msg, *a):
        self.check(False, msg, *a)

    def skip(self):
        raise Skip()

    def step(self, n=1):
        self.steps += n

    def state(self, *v):
        self.states.add(hashlib.blake2b(repr(v).encode(), digest_size=8).digest())

    def outcome(self, *v):
        self.outcomes.add(hashlib.blake2b(repr(v).encode(), digest_size=8).digest())

    def note(self, msg, *a):
        self.notes = (msg % a if a else msg)

    def trace(self):
        return " ".join("%s=%d" % (l, v) for l, v, n in zip(self.labels, self.path, self.ns) if n > 1)


def scratchdir():
    try: return tempfile.mkdtemp(prefix="pymc.", dir="/dev/shm")
    except OSError: return tempfile.mkdtemp(prefix="pymc.")


def empty(d):
    for f in os.listdir(d):
        p = os.path.join(d, f)
        shutil.rmtree(p) if os.path.isdir(p) and not os.path.islink(p) else os.remove(p)


def execute(c, fn, limit):
    """one execution: None, or (message, key)"""
    def alarm(*_): raise Hang()
    old = signal.signal(signal.SIGALRM, alarm)
    cwd = os.getcwd()
    keep = dict(os.environ), list(sys.argv), sys.stdout, sys.stderr, list(sys.path)
    os.chdir(c._dir)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        fn(c)
        return None
    except Broken as b:
        return (b.msg, b.key)
    except Hang:
        return ("the execution does not end (%g s)" % limit, "")
    except Skip:
        raise
    except BaseException as e:
        if isinstance(e, RuntimeError) and str(e).startswith("divergence"): raise
        return ("stopped by %s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-1500:]), "")
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0); signal.signal(signal.SIGALRM, old)
        os.chdir(cwd)
        os.environ.clear(); os.environ.update(keep[0]); sys.argv[:] = keep[1]; sys.stdout, sys.stderr = keep[2], keep[3]; sys.path[:] = keep[4]
        empty(c._dir)


def worker(arg):
    pid, si, shard, nsh, tier, end, known = arg
    P = PROPS[pid]
    name, q, t, fn = P["scenarios"][si]
    d = scratchdir()
    out = dict(scenario=name, execs=0, steps=0, evals=0, states=set(), outcomes=set(), samples=[], bad=None, done=False, known={}, error="")
    try:
        c = Ctx(tier, q if tier == "quick" else t, d); c.shard, c.nshards = shard, nsh
        while True:
            c.reset(); skipped = False
            try:
                r = execute(c, fn, P["limit"])
            except Skip:
                r, skipped = None, True
            mine = c.mine()
            if not skipped and mine:
                out["execs"] += 1
                if len(out["samples"]) < 2 and out["execs"] % 97 == 1:
                    out["samples"].append((name + ": " + c.trace() + (" => " + c.notes if c.notes else ""))[:600])
            if r and mine:
                if r[1] and r[1] in known:
                    out["known"].setdefault(r[1], [0, c.trace() + " => " + r[0]])[0] += 1
                else:
                    out["bad"] = (list(c.path), r[0], c.trace()); STOP.value = 1; break
            p, n = c.path, c.ns
            while p and p[-1] + 1 >= n[len(p) - 1]:
                p = p[:-1]
            if not p:
                out["done"] = True; break
            c.prefix = p[:-1] + [p[-1] + 1]
            if time.time() > end or STOP.value: break
        out.update(steps=c.steps, evals=c.nevals, states=c.states, outcomes=c.outcomes)
    except BaseException:
        out["error"] = traceback.format_exc()
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return out


PROPS = {}
STOP = mp.Value("i", 0)   # a violation ends the run


def prop(pid, level, rule, bound, scenarios, assumptions=(), limit=20):
    PROPS[pid] = dict(id=pid, level=level, rule=rule, bound=bound, scenarios=scenarios, assumptions=list(assumptions), limit=limit)


def known_for(pid):
    k = {}
    f = os.path.join(HERE, "known_findings.txt")
    for l in open(f) if os.path.exists(f) else []:
        if l.startswith("KNOWN-FINDING: property=%s key=" % pid):
            a = l.split("key=", 1)[1].split(None, 1); k[a[0]] = a[1].strip() if len(a) > 1 else ""
    return k


def run(pid, args):
    tier = os.environ.get("VERIF_TIER", "quick"); replay = None; workers = min(8, os.cpu_count() or 1); only = None
    while args:
        a = args.pop(0)
        if a == "--tier": tier = args.pop(0)
        elif a == "--replay": replay = args.pop(0)
        elif a == "--workers": workers = int(args.pop(0))
        elif a == "--scenario": only = args.pop(0)
    P = PROPS[pid]; known = known_for(pid); t0 = time.time()
    if replay:
        r = json.load(open(replay)); d = scratchdir()
        try:
            fn = {s[0]: s[3] for s in P["scenarios"]}[r["scenario"]]
            c = Ctx(r.get("tier", tier), 1 << 30, d); c.prefix = r["choices"]; c.replaying = True
            try: x = execute(c, fn, 3 * P["limit"])
            except Skip: x = None
            print("replay %s: %s" % (c.trace(), "VIOLATION: " + x[0] if x else "held"))
            if c.notes: print(c.notes)
            return 1 if x else 0
        finally:
            shutil.rmtree(d, ignore_errors=True)
    end = t0 + (P.get("deadline", 300) if tier == "quick" else 3000)
    jobs = [(pid, i, s, workers, tier, end, set(known)) for i, sc in enumerate(P["scenarios"]) if only in (None, sc[0]) for s in range(workers)]
    with mp.get_context("fork").Pool(workers) as pool:
        res = pool.map(worker, jobs, 1)
    rc = 0; sc = {}; st = set(); oc = set(); samples = []; kn = {}; bad = []
    for r in res:
        if r["error"]:
            print(r["error"], file=sys.stderr); rc = 2
        s = sc.setdefault(r["scenario"], dict(executions=0, steps=0, checks=0, complete=True))
        s["executions"] += r["execs"]; s["steps"] += r["steps"]; s["checks"] += r["evals"]; s["complete"] &= r["done"]
        st |= r["states"]; oc |= r["outcomes"]; samples += r["samples"]
        for k, v in r["known"].items():
            kn.setdefault(k, [0, v[1]])[0] += v[0]
        if r["bad"]: bad.append((r["scenario"],) + r["bad"])
    rdir = os.environ.get("MC_REPLAYS") or os.path.join(HERE, "replays")
    for name, ch, msg, tr in sorted(bad, key=lambda b: len([x for x in b[1] if x]))[:3]:
        os.makedirs(rdir, exist_ok=True)
        f = os.path.join(rdir, "%s-%s.json" % (pid, hashlib.sha1(repr((name, ch)).encode()).hexdigest()[:10]))
        json.dump(dict(property=pid, scenario=name, choices=ch, tier=tier, what=msg, trace=tr), open(f, "w"), indent=1)
        print("VIOLATION property=%s replay=%s" % (pid, f)); print("  %s: %s" % (tr, msg[:1500]))
        rc |= 1
    for k, v in kn.items():
        print("KNOWN-FINDING: property=%s %s:%s (%d executions; e.g. %s)" % (pid, k, known[k], v[0], v[1][:300]))
    tot = lambda k: sum(s[k] for s in sc.values())
    ex = all(s["complete"] for s in sc.values())
    ev = os.path.join(os.environ.get("MC_EVID") or os.path.join(HERE, "evidence"), pid + ".json")
    os.makedirs(os.path.dirname(ev), exist_ok=True)
    e = dict(property=pid, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1")), level=P["level"],
             coverage=dict(states=len(st), transitions=tot("steps"), traces_validated_against_impl=tot("executions"), evaluations=tot("executions"), distinct_nontrivial=len(oc),
                           oracle_comparisons=tot("checks"), distinct_outcomes=len(oc), rule=P["rule"], bound=P["bound"], exhaustive=ex and not bad, scenarios=sc, samples=samples[:6]),
             assumptions=P["assumptions"], wall_s=round(time.time() - t0, 2), violations=len(bad))
    json.dump(e, open(ev, "w"), indent=1)
    print("%s %s: %d executions, %d steps, %d comparisons, %d states, %d outcomes, %s, %.1f s" % (pid, tier, tot("executions"), tot("steps"), tot("checks"), len(st), len(oc), "complete" if ex else "INCOMPLETE", time.time() - t0))
    return rc

# Y02: Earth-orientation files fetched month by month and merged; space weather files fetched
import contextlib, datetime, io, itertools, os, re, runpy, sys, types
import pymc

SCRIPT = os.path.join(pymc.REPO, "script/fetch_iers_c04.py")
SPACEW = os.path.join(pymc.REPO, "script/fetch_celestrak_space_weather_data_csv.py")
FIRST = 252
MJD0 = datetime.date(1858, 11, 17)


def mjd(d): return (d - MJD0).days


def month(k): return datetime.date(2008 + (11 + k) // 12, (11 + k) % 12 + 1, 2)   # bulletin 252+k starts here


def days(n):
    a, b = month(n - FIRST), month(n - FIRST + 1)
    return [a + datetime.timedelta(i) for i in range((b - a).days)]


def values(d):
    """the values of a day: distinct, of every sign, exact at the precision they are written with"""
    m = mjd(d)
    v1 = [((m * (3 + 2 * i) * 7919 + i * 104729) % 8000001 - 4000000) / 10000. for i in range(5)] + [((m * (5 + i) * 31) % 9000) / 10000. for i in range(5)]
    v3 = [((m * 37) % 40001 - 20000) / 10000., ((m * 11) % 700) / 10000., 15.041067 + ((m * 13) % 1000) * 1e-12 * 1000, ((m * 17) % 300) / 1e12]
    return v1, [float("%.12f" % x) for x in v3]


_cache = {}


def bulletin(n, change=None):
    """bulletin B number n as published (change edits its lines)"""
    if n not in _cache:
        L1, L3 = [], []
        for d in days(n):
            v1, v3 = values(d)
            L1.append(" %4d %3d %3d %6d" % (d.year, d.month, d.day, mjd(d)) + "".join(" %10.4f" % x for x in v1))
            L3.append(" %4d %3d %3d %6d" % (d.year, d.month, d.day, mjd(d)) + " %8.4f %8.4f %16.12f %14.12f" % tuple(v3))
        ext = []
        d = days(n)[-1]
        for i in range(1, 4):
            e = d + datetime.timedelta(i); ext.append(" %4d %3d %3d %6d" % (e.year, e.month, e.day, mjd(e)) + "".join(" %10.4f" % 9.9 for x in range(10)))
        _cache[n] = (L1, L3, ext)
    L1, L3, ext = [list(x) for x in _cache[n]]
    head1 = [" 1 - DAILY FINAL VALUES OF x, y, UT1-UTC, dX, dY", "     Angular unit is milliarcsecond (mas), time unit is millisecond (ms).", "",
             "      DATE     MJD       x        y       UT1-UTC     dX        dY       x err     y err    UT1 err   dX err    dY err", "   (0 h UTC)            mas      mas        ms        mas       mas       mas       mas        ms       mas       mas",
             "   Mean formal error     0.030    0.030     0.0100     0.050     0.050", ""]
    mid = ["", "   Preliminary extension", ""] + ext + ["", " 2 - DAILY FINAL VALUES OF CELESTIAL POLE OFFSETS dPsi1980 & dEps1980", "", "      DATE     MJD    dPsi  dEps", "   (0 h UTC)            mas    mas", " 2000   1   1  51544   -9.9  -9.9", ""]
    head3 = [" 3 - EARTH ANGULAR VELOCITY : DAILY FINAL VALUES OF LOD, OMEGA AT 0hUTC", "     LOD : Excess of the Length of day - 86400 s TAI", "     OMEGA : Earth angular velocity", "",
             "      DATE     MJD      LOD     sigma        OMEGA         sigma", "   (0 h UTC)              ms       ms        mas/ms          mas/ms", ""]
    tail = ["", " 4 - INFORMATION ON TIME SCALES", "     UTC-TAI = - 37 s", ""]
    doc = dict(head1=head1, b1=L1, mid=mid, head3=head3, b3=L3, tail=tail)
    if change: change(doc)
    return "\n".join(["                    INTERNATIONAL EARTH ROTATION SERVICE", "          BULLETIN B %d" % n, ""] + doc["head1"] + doc["b1"] + doc["mid"] + doc["head3"] + doc["b3"] + doc["tail"]) + "\n"


class HTTPError(IOError):
    pass


class Answer:
    def __init__(self, code, body):
        self.status_code, self.content, self.ok, self.reason = code, body, code < 400, "OK" if code < 400 else "Error"
        self.text = body.decode("utf-8", "replace"); self.headers = {"Content-Length": str(len(body))}; self.url = ""
    def raise_for_status(self):
        if not self.ok: raise HTTPError("%d" % self.status_code)
    def iter_content(self, chunk_size=1, decode_unicode=False):
        for i in range(0, len(self.content), chunk_size or 1): yield self.content[i:i + chunk_size]
    def __enter__(self): return self
    def __exit__(self, *a): return False
    def close(self): pass
    def __bool__(self): return self.ok


def requests_with(get):
    m = types.ModuleType("requests"); m.get = get
    m.exceptions = types.ModuleType("requests.exceptions"); m.exceptions.HTTPError = HTTPError; m.exceptions.RequestException = IOError; m.exceptions.ConnectionError = ConnectionError
    m.HTTPError, m.RequestException, m.ConnectionError = HTTPError, IOError, ConnectionError
    class Session:
        def get(self, *a, **k): return get(*a, **k)
        def __enter__(self): return self
        def __exit__(self, *a): return False
    m.Session = Session; m.codes = types.SimpleNamespace(ok=200)
    return m


class TooMany(BaseException):
    pass


def script(path, argv, get):
    """runs the script as a program: (exit status, output)"""
    old = sys.modules.get("requests"); sys.modules["requests"] = m = requests_with(get); sys.modules["requests.exceptions"] = m.exceptions
    so, se = io.StringIO(), io.StringIO()
    sys.argv[:] = [os.path.basename(path)] + argv
    try:
        with contextlib.redirect_stdout(so), contextlib.redirect_stderr(se):
            g = runpy.run_path(path, run_name="__main__"); g.clear()
        return 0, so.getvalue(), ""
    except SystemExit as e:
        return (0 if e.code is None else e.code if isinstance(e.code, int) else 1), so.getvalue(), "exit"
    except TooMany:
        return -1, so.getvalue(), "endless"
    except Exception as e:
        return 1, so.getvalue(), repr(e)
    finally:
        sys.modules.pop("requests.exceptions", None)
        if old: sys.modules["requests"] = old
        else: sys.modules.pop("requests", None)


def rows(text):
    R = []
    for l in text.split("\n"):
        if not l.strip() or l.lstrip().startswith("#"): continue
        t = re.findall(r"[+-]?\d+(?:\.\d+)?(?:[eE][+-]?\d+)?", l)
        R.append(([int(x) for x in t[:4]], [float(x) for x in t[4:]]))
    return R


def judge(c, text, must, what):
    R = rows(text)
    got = [r[0][3] for r in R]
    c.check(all(b == a + 1 for a, b in zip(got, got[1:])), "%s: the days do not follow one another: %r", what, got)
    missing = [d for d in must if mjd(d) not in got]
    c.check(not missing, "%s: days missing: %r (file has %r..%r)", what, missing[:5], got[:1], got[-1:])
    for ymd, v in R:
        d = MJD0 + datetime.timedelta(ymd[3])
        c.check(ymd[:3] == [d.year, d.month, d.day], "%s: date %r", what, ymd)
        v1, v3 = values(d)
        c.check(len(v) == 14 and all(abs(a - b) < 1e-13 for a, b in zip(v, v1 + v3)), "%s: day %s: %r instead of %r", what, d, v, v1 + v3)
    return len(R)


def fetch(c):
    """the whole program, on any day of some years and any window"""
    if c.thorough():
        y = c.choose(15, "year") + 2009
    else:
        y = c.pick([2009, 2012, 2015, 2019, 2023], "year")
    d = datetime.date(y, 1, 1) + datetime.timedelta(c.choose(365, "day"))
    lim = [3, 0, 1, 15, 31, 45, 62][c.deviate(7, "limit")]
    t0, t1 = d - datetime.timedelta(lim), d + datetime.timedelta(lim)
    # what the server has: everything, or only up to a bulletin around the window
    last = FIRST + (t1.year - 2008) * 12 + t1.month - 12 - (1 if t1.day == 1 else 0)   # number of the bulletin that holds t1
    first = FIRST + (t0.year - 2008) * 12 + t0.month - 12 - (1 if t0.day == 1 else 0)
    newest = [last + 12, last, last - 1][c.deviate(3, "newest")]
    asked = []
    def get(url, *a, **k):
        asked.append(url)
        if len(asked) > 150: raise TooMany()
        m = re.fullmatch(r".*bulletinb\.(\d+)", url)
        n = int(m.group(1)) if m else -1
        if FIRST <= n <= newest: return Answer(200, bulletin(n).encode())
        return Answer(404, b"<html><head><title>404 Not Found</title></head></html>\n")
    out = c.deviate(2, "to standard output")
    rc, so, err = script(SCRIPT, ["-d", d.isoformat(), "-n", str(lim)] + ([] if out else ["-o", "merged.c04"]), get)
    c.step(len(asked))
    c.note("%s -n %d: %d downloads, exit %d %s", d, lim, len(asked), rc, err)
    c.check(err != "endless", "%s -n %d asks the server without end: ... %r", d, lim, asked[-4:])
    must_fail = newest < last or first < FIRST
    if rc == 0:
        c.check(not must_fail, "%s -n %d: success, although the server does not have the days", d, lim)
        text = so if out else open("merged.c04").read()
        n = judge(c, text, [t0 + datetime.timedelta(i) for i in range((t1 - t0).days + 1)], "%s -n %d" % (d, lim))
        c.state(d, lim, n); c.outcome(text)
    else:
        if newest >= last and first >= FIRST:
            c.fail("%s -n %d: failed with everything available: %s", d, lim, err)
        c.outcome(err[:40])


def cat(c):
    """merging any set of bulletins given in any order"""
    k = c.choose(5, "files"); base = c.pick([FIRST, FIRST + 11, FIRST + 134, FIRST + 146], "first")
    ns = list(range(base, base + k))
    perm = list(c.pick(list(itertools.permutations(ns)), "order")) if k else []
    sys.modules["requests"] = m = requests_with(None)
    try: g = runpy.run_path(SCRIPT, run_name="c04_ut")
    finally: sys.modules.pop("requests", None)
    D = {}
    for n in perm:
        fn = "bulletinb.%d" % n
        with open(fn, "w") as f: f.write(bulletin(n))
        a, b = g["c04_date_span"](fn)
        dd = days(n)
        c.check(a.date() == dd[0] and b.date() == dd[-1], "bulletin %d spans %s..%s, not %s..%s", n, a, b, dd[0], dd[-1])
        D[fn] = dict(t0=a, tn=b)
    g["merge_c04_files"]("m.c04", D)
    text = open("m.c04").read()
    c.step(k)
    n = judge(c, text, sum([days(n) for n in ns], []), "order %r" % (perm,))
    c.check(n == sum(len(days(x)) for x in ns), "%d rows", n)
    c.state(tuple(perm)); c.outcome(text)


def damage(c):
    """a bulletin damaged anywhere is refused"""
    base = FIRST + 12; k = c.choose(2, "files"); ns = [base, base + 1][:k + 1]; at = c.choose(k + 1, "which")
    nd = len(days(ns[at]))
    kind = c.choose(15, "damage"); w = c.pick([0, 1, nd // 2, nd - 2, nd - 1], "row")
    ok = False
    def change(D):
        if kind == 0: pass
        elif kind == 1: del D["head1"][c.pick([0, 3, 4, 5], "line")]
        elif kind == 2: del D["head3"][c.pick([0, 1, 2, 4, 5], "line")]
        elif kind == 3: del D["b3"][w]
        elif kind == 4: D["b1"][w] = D["b1"][w].rsplit(None, c.pick([1, 5, 10], "columns"))[0]
        elif kind == 5: D["b3"][w] = D["b3"][w].rsplit(None, c.pick([1, 2, 4], "columns"))[0]
        elif kind == 6: D["b1"][w] = D["b1"][w].replace(".", "x", 1)
        elif kind == 7: D["b3"][w] = D["b3"][w].replace(".", "x", 1)
        elif kind == 8: D["b1"][w] += "  7.7"
        elif kind == 9: D["b3"][w] += "  7.7"
        elif kind == 10: D["mid"], D["head3"], D["b3"], D["tail"] = [], [], [], []
        elif kind == 11: D["head3"], D["b3"], D["tail"] = D["head3"][:c.choose(7, "lines")], [], []
        elif kind == 12: D["b3"], D["tail"] = D["b3"][:w], []
        elif kind == 13: D["b1"][w] = " ****" + D["b1"][w][5:]
        elif kind == 14: D["b3"].reverse()       # order is of no matter there
    for i, n in enumerate(ns):
        with open("bulletinb.%d" % n, "w") as f: f.write(bulletin(n, change if i == at else None))
    sys.modules["requests"] = m = requests_with(None)
    try: g = runpy.run_path(SCRIPT, run_name="c04_ut")
    finally: sys.modules.pop("requests", None)
    err = None
    try:
        D = {}
        for n in ns:
            a, b = g["c04_date_span"]("bulletinb.%d" % n); D["bulletinb.%d" % n] = dict(t0=a, tn=b)
        g["merge_c04_files"]("m.c04", D)
    except (Exception) as e:
        err = e
    c.step()
    if kind in (0, 14):
        c.check(err is None, "refused: %r", err)
        judge(c, open("m.c04").read(), sum([days(n) for n in ns], []), "merge")
    else:
        c.check(err is not None, "a damaged bulletin (%d, row %d) was merged", kind, w)
    c.state(kind, w, k, at); c.outcome(type(err).__name__, kind)


def spacew(c):
    """the space weather fetcher"""
    code = c.pick([200, 404, 500, 503, 301 + 99], "status"); body = c.pick([b"DATE,BSRN,ND\n2020-01-01,2542,1\n", b"", b"<html>no</html>\n", bytes(range(256)) * 40, b"a\r\nb\r\n"], "body")
    every = c.flip("all"); name = c.pick([None, "sw.csv"], "name"); dr = c.pick([None, "sub", "nowhere"], "directory"); old = c.flip("old file"); boom = c.flip("connection lost")
    os.mkdir("sub")
    local = os.path.join(dr or ".", name or ("SW-All.csv" if every else "SW-Last5Years.csv"))
    if old and dr != "nowhere":
        with open(local, "wb") as f: f.write(b"what was there\n")
    asked = []
    def get(url, *a, **k):
        asked.append(url)
        if boom: raise ConnectionError("lost")
        return Answer(code, body)
    rc, so, err = script(SPACEW, (["--csv-all"] if every else []) + (["-o", name] if name else []) + (["-O", dr] if dr else []), get)
    c.step()
    good = code == 200 and not boom and dr != "nowhere"
    got = open(local, "rb").read() if os.path.isfile(local) else None
    c.note("status %d, exit %d, %s", code, rc, err)
    if good:
        c.check(rc == 0 and got == body, "exit %d, %r bytes delivered of %d", rc, got and len(got), len(body))
        c.check(asked and asked[-1].endswith("SW-All.csv" if every else "SW-Last5Years.csv"), "asked for %r", asked)
    else:
        c.check(rc != 0, "status %d was taken for success", code)
        c.check(got == (b"what was there\n" if old and dr != "nowhere" else None), "a failed download left %r", got and got[:40])
    have = sorted(os.path.join(a, x) for a, b, f in os.walk(".") for x in f)
    c.check(have in ([], [os.path.join(".", os.path.normpath(local))]), "files left: %r", have)
    c.state(code, every, name, dr, old, boom); c.outcome(rc, got)


pymc.prop("Y02", "model_checking",
          "the merging program run on every day of the years against an archive of monthly bulletins with known values (every window half-width of the list, archives that end before, at and after the window); every permutation of sets of bulletins merged; every damage at every marked row; every answer of the server for the space weather file",
          "every day of 5 years, 1 deviation (quick) / 15 years, 2 deviations; up to 4 files; one damage",
          [("space weather", 0, 0, spacew), ("damage", 0, 0, damage), ("merge", 0, 0, cat), ("fetch", 1, 2, fetch)],
          ["bulletins follow one another without gap or overlap, each from the 2nd of a month to the 1st of the next", "the requests library is a stand-in that follows its documentation", "a last number cut in the middle of its digits cannot be told from a shorter one and is excluded"])

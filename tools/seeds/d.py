SEEDS = {}
LOGDEMO = r'''
import importlib.util, io, os
REPO = os.environ["REPO"]
sp = importlib.util.spec_from_file_location("p", REPO + "/script/pydoris/pydoris/log/ids_log_parser.py")
M = importlib.util.module_from_spec(sp); sp.loader.exec_module(M)
open("a.log", "w").write("""    SITE DORIS site description form

1. Site location information

  Site Name                 : SITE
  Notes                     : a : b : c

2. DORIS antenna and reference point information

2.1
  Four character ID         : ABCA
  Height above ground mark  : 0.510 m
  Date installed (dd/mm/yy) : 02/07/1991
  Date removed (dd/mm/yy)   :
  Notes                     : 2 Ghz PC offset : 2 mm north : 1 mm west

3. DORIS beacons information

3.1
  Four character ID         : ABCA
""")
'''
SEEDS["Y01-colon-value"] = dict(property="Y01", needs="a value that contains a colon", breaks="a field is cut at its last colon, so the name takes part of the value",
  edits=[("script/pydoris/pydoris/log/ids_log_parser.py", '''                            l = [l.strip() for l in line.split(":",1)]''', '''                            l = [l.strip() for l in line.rsplit(":",1)]''')],
  pydemo=LOGDEMO + '''
d = M.IdsLogFile("a.log").parse_block_nr(2)
assert d[0]["Notes"] == "2 Ghz PC offset : 2 mm north : 1 mm west", d
''')
SEEDS["Y01-no-rewind"] = dict(property="Y01", needs="two blocks asked for on one object, the second one earlier in the file", breaks="the search for a block goes on from where the last one ended",
  edits=[("script/pydoris/pydoris/log/ids_log_parser.py", "        self.open_stream()\n        strpattern", "        if not self.istream_: self.open_stream()\n        strpattern")],
  pydemo=LOGDEMO + '''
l = M.IdsLogFile("a.log"); l.parse_block_nr(2)
d = l.parse_block_nr(1)
assert d[0]["Site Name"] == "SITE", d
''')
C04 = r'''
import datetime, os, runpy, sys, types
REPO = os.environ["REPO"]
Z = datetime.date(1858, 11, 17)
def month(k): return datetime.date(2008 + (11 + k) // 12, (11 + k) % 12 + 1, 2)
def bulletin(n):
    a, b = month(n - 252), month(n - 251); D = [a + datetime.timedelta(i) for i in range((b - a).days)]
    T = "\n 1 - DAILY FINAL VALUES OF x, y, UT1-UTC, dX, dY\n DATE MJD x y UT1-UTC dX dY x err y err UT1 err dX err dY err\n (0 h UTC) mas mas ms mas mas mas mas ms mas mas\n Mean formal error 0.1\n\n"
    for d in D: T += " %d %d %d %d" % (d.year, d.month, d.day, (d - Z).days) + " 1.5000" * 10 + "\n"
    T += "\n 3 - EARTH ANGULAR VELOCITY : DAILY FINAL VALUES OF LOD, OMEGA AT 0hUTC\n LOD : Excess of the Length of day - 86400 s TAI\n OMEGA : Earth angular velocity\n DATE MJD LOD sigma OMEGA sigma\n   (0 h UTC)              ms       ms        mas/ms          mas/ms\n\n"
    for d in D: T += " %d %d %d %d 0.5 0.1 15.04 0.01\n" % (d.year, d.month, d.day, (d - Z).days)
    return (T + "\n").encode()
class R:
    ok, status_code = True, 200
    def __init__(s, b): s.content = b
    def raise_for_status(s): pass
calls = []
def get(u, **k):
    calls.append(u); assert len(calls) < 200, "endless"
    return R(bulletin(int(u.split(".")[-1])))
m = types.ModuleType("requests"); m.get = get; sys.modules["requests"] = m
def run(date, n):
    del calls[:]
    sys.argv[:] = ["fetch", "-d", date, "-n", str(n), "-o", "out"]
    try: runpy.run_path(REPO + "/script/fetch_iers_c04.py", run_name="__main__")
    except SystemExit as e: assert not e.code
    d = datetime.date(*map(int, date.split("-"))); got = [l.split()[:4] for l in open("out") if l[0] != "#" and l.strip() and not l.startswith("  ")]
    J = [int(g[3]) for g in got]
    assert J == list(range(J[0], J[-1] + 1)), J
    assert J[0] <= (d - Z).days - n and J[-1] >= (d - Z).days + n, (J[0], J[-1], (d - Z).days)
'''
SEEDS["Y02-joined-rows"] = dict(property="Y02", needs="a window over two bulletins", breaks="the last day of a bulletin and the first of the next share a line, so a day is lost",
  edits=[("script/fetch_iers_c04.py", "      if i==len(c04fns)-1 and j==len(fdata)-1:", "      if j==len(fdata)-1:")], pydemo=C04 + '\nrun("2009-02-01", 3)\n')
SEEDS["Y02-window-end"] = dict(property="Y02", needs="a window whose last day is the first of a bulletin", breaks="the day that ends the window is not asked for",
  edits=[("script/fetch_iers_c04.py", "    t_end   = t + datetime.timedelta(days=args.day_limit)", "    t_end   = t_start + datetime.timedelta(days=max(0, 2*args.day_limit-1))")], pydemo=C04 + '\nfor d in range(1, 32): run("2009-03-%02d" % d, 3)\n')
GFC = r'''
import contextlib, io, os, runpy, sys
REPO = os.environ["REPO"]
def conv(line):
    open("m.gfc", "w").write("head\nend_of_head\n" + line + "\n"); sys.argv[:] = ["x", "m.gfc"]; o = io.StringIO()
    with contextlib.redirect_stdout(o): runpy.run_path(REPO + "/script/gfc_fortran2c.py", run_name="__main__")
    return o.getvalue().split("\n")[2].split()
'''
SEEDS["Y03-record-head"] = dict(property="Y03", needs="a record with more than two numbers (errors given too)", breaks="only the first two numbers of a record are converted",
  edits=[("script/gfc_fortran2c.py", r'''r"\1e\3", line)''', r'''r"\1e\3", line, count=2)''')], pydemo=GFC + '''
t = conv("gfc 2 0 -0.5D-03 0.0D+00 0.1D-10 0.2D-10")
assert [float(x) for x in t[3:]] == [-0.5e-3, 0, 1e-11, 2e-11], t
''')
SEEDS["Y03-unsigned-exponent"] = dict(property="Y03", needs="an exponent written without sign", breaks="numbers whose exponent has no sign are not converted",
  edits=[("script/gfc_fortran2c.py", "([Dd])([+-]?[0-9]+)", "([Dd])([+-][0-9]+)")], pydemo=GFC + '''
t = conv("gfc 2 0 0.5D02 -0.25d-3")
assert [float(x) for x in t[3:]] == [50.0, -0.25e-3], t
''')

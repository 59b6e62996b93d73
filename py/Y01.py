# Y01: IDS site logs and the beacon height table made of them
import gc, importlib.util, io, os, re, runpy, sys, contextlib
import pymc

LOG = os.path.join(pymc.REPO, "script/pydoris/pydoris/log/ids_log_parser.py")


def module():
    spec = importlib.util.spec_from_file_location("ids_log_parser_ut", LOG)
    m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m); return m


try:
    M, ERR = module(), None
except Exception as e:
    M, ERR = None, e

TITLE = {0: "0. Form", 1: "1. Site location information", 2: "2. DORIS antenna and reference point information", 3: "3. DORIS beacons information",
         4: "4. ITRF coordinates and velocities of the current DORIS ref. point (%s)", 5: "5. IERS colocation information", 6: "6. Tide Gauge colocation information",
         7: "7. Local site ties", 8: "8. Meteorological Instrumentation", 9: "9. DORIS network contacts"}
# height texts: the exact value, or None when no length in metres can be read; "?" when a refusal is as good
HEIGHTS = [("0.510 m", "0.510"), ("12.345678 m", "12.345678"), ("0.5m", "0.5"), ("3.25", "3.25"), ("m", "0"), ("2 m", "2?"), ("-0.250 m", "-0.25?"), ("5", "5?"), ("10.", "10?"), (".75 m", "0.75?"),
           ("510 mm", None), ("51.0 cm", None), ("unknown", None), ("1,5 m", None), ("0.487 m (from the mark)", "0.487?"), ("", "0?"), ("100.125 m", "100.125"), ("0.5100 metres", "0.51?"), ("n/a", None), ("1.5 2.5 m", "1.5?!")]
ID = ["YELA", "YELB", "YEMB", "Y1"]
DATES = [("02/07/1991", "1991-07-02 00:00:00"), ("29/02/2000", "2000-02-29 00:00:00"), ("31/12/2019", "2019-12-31 00:00:00")]


def key(k, v, pad):
    return "  " + k.ljust(pad) + ":" + (" " + v if v else "")


def dump(fn):
    out = io.StringIO()
    with contextlib.redirect_stderr(io.StringIO()):
        M.dump_log_antenna_info(fn, out)
    return out.getvalue()


def rows(text):
    r = []
    for l in text.split("\n"):
        if not l.strip(): continue
        m = re.fullmatch(r"(.{4}) (\d{4}-\d\d-\d\d \d\d:\d\d:\d\d) (\d{4}-\d\d-\d\d \d\d:\d\d:\d\d) +(-?\d+\.\d+)\s*", l)
        r.append((m.group(1).strip(), m.group(2), m.group(3), float(m.group(4))) if m else l)
    return r


def write(c, name, text):
    f = os.path.join(c.scratch(), name)
    with open(f, "wb") as o: o.write(text.encode())
    return f


def filler(b, sub):
    """lines of another block: it may use the very names of block 2"""
    L = [TITLE[b] % "YEMB" if "%" in TITLE[b] else TITLE[b], ""]
    for s in range(1, sub + 1):
        L += ["%d.%d" % (b, s), "", key("Four character ID", "BAD%d" % b, 25), key("Height above ground mark", "9.9%d m" % b, 25), key("Date installed (dd/mm/yy)", "01/01/2011", 26), key("Date removed (dd/mm/yy)", "", 26), key("Notes", "of block %d" % b, 25), ""]
    if not sub: L += [key("Field of block %d" % b, "value %d" % b, 25), ""]
    return L


def antennas(c):
    if ERR: c.fail("the module cannot be loaded: %r", ERR)
    n = c.choose(3 if not c.thorough() else 4, "antennas")
    recs = []; L = []
    bad = False; unsure = False
    pad = [25, 0][c.deviate(2, "pad")]
    for i in range(n):
        h, hv = HEIGHTS[0 if i == 0 else 1]
        d = c.deviate(len(HEIGHTS), "height")
        if d: h, hv = HEIGHTS[d]
        ins = DATES[i % 3]; rem = c.pick([("", "9999-12-31 23:59:59"), DATES[(i + 1) % 3]], "removed")
        idn = ID[c.deviate(4, "id") or (i % 3)]
        want = None
        if hv is not None: want = float(hv.rstrip("?!"))
        if hv is None: bad = True
        elif hv[-1] in "?!": unsure = True
        F = [key("Four character ID", idn, pad), key("DORIS antenna type", "STAREC", pad), key("Height above ground mark", h, pad), key("Date installed (dd/mm/yy)", ins[0], pad), key("Date removed (dd/mm/yy)", rem[0], pad)]
        dm = c.deviate(13, "change")
        if dm == 1: F = F[::-1]
        elif dm == 2: F.append(key("Notes", "2 Ghz PC offset : 2 mm north, 1 mm west", pad))
        elif dm == 3: F += [key("Notes", "a note that", pad), "                           goes on on the next line"]
        elif dm == 4: F.insert(2, ""); F.append("")
        elif dm == 5: F[2] = F[2] + "   "
        elif dm == 6: del F[0]; bad = True
        elif dm == 7: del F[2]; bad = True
        elif dm == 8: del F[3]; bad = True
        elif dm == 9: del F[4]; bad = True
        elif dm == 10: F[3] = key("Date installed (dd/mm/yy)", c.pick(["31/02/2000", "", "xx/01/2000", "01-01-2000"], "bad date"), pad); bad = True
        elif dm == 11: F[4] = key("Date removed (dd/mm/yy)", c.pick(["31/02/2000", "??", "01/13/2000"], "bad date"), pad); bad = True
        elif dm == 12: F += [key("Notes", "short", pad), "   on"]; unsure = True   # a continuation too short to be told from a field: read or refused
        L += ["2.%d%s" % (i + 1 if dm != 4 else i + 10, c.pick(["", "  (antenna)"], "sub-header") if i == 0 else ""), ""] + F + [""]
        recs.append((idn, ins[1], rem[1], want))
    before = [[], filler(1, 0), filler(0, 0) + filler(1, 1)][c.deviate(3, "before")]
    nxt = c.choose(5, "after")
    after = [[], filler(3, 2), filler(4, 0) + filler(3, 1), filler(9, 0), filler(4, 1)][nxt]
    doc = ["    YELLOWKNIFE DORIS site description form", ""] + before + [TITLE[2], ""] + L + after
    eol = "\r\n" if c.deviate(2, "line ends") else "\n"
    text = eol.join(doc) + eol
    if c.deviate(2, "final newline"):
        text = text.rstrip("\r\n")
    fn = write(c, "SITE.LOG", text)
    try:
        got = rows(dump(fn)); err = None
    except Exception as e:
        got, err = None, e
    c.step()
    c.note("%d antennas, %s", n, "refused: %r" % err if err else "%d rows" % len(got))
    if bad: c.check(err is not None, "a log with a missing or unreadable field was taken: %r\n%s", got, text)
    elif not unsure and n: c.check(err is None, "refused (%r)\n%s", err, text)
    if err is None:
        c.check(len(got) == len(recs), "%d rows instead of %d: %r\n%s", len(got), len(recs), got, text)
        for g, w in zip(got, recs):
            c.check(isinstance(g, tuple), "not a row of a height table: %r", g)
            c.check(g[0] == w[0] and g[1] == w[1] and g[2] == w[2], "row %r instead of %r\n%s", g, w, text)
            c.check(abs(g[3] - w[3]) < 6e-7, "height %r instead of %r\n%s", g[3], w[3], text)
    c.state(text); c.outcome(repr(got), type(err).__name__)


def blocks(c):
    """any block, asked for in any order, on a log with any set of blocks"""
    if ERR: c.fail("the module cannot be loaded: %r", ERR)
    have = []; doc = ["    YELLOWKNIFE DORIS site description form", ""]
    want = {}
    present = c.pick([list(range(10)), [1, 2, 3, 4, 5], [2, 4], [3, 4, 5], [0, 1, 2], [2, 3], [4], [7, 8, 9], [1, 3, 6]], "blocks")
    style = c.choose(3, "style")
    last_open = c.flip("no newline at the end")
    for b in present:
        subs = [0, 1, 2][(b + style) % 3]
        doc += [TITLE[b] % ["YEMB", "YELA", "METB"][style] if "%" in TITLE[b] else TITLE[b], ""]
        w = []
        for s in range(1, subs + 1):
            doc += ["%d.%d" % (b, s), ""]; d = {}
            for f in range(2):
                v = "v%d%d%d : x" % (b, s, f) if style == 2 else "v%d%d%d" % (b, s, f)
                doc += [key("Field %d" % f, v, 12)]; d["Field %d" % f] = v
            doc += [""]; w.append(d)
        if not subs:
            doc += [key("Only", "w%d" % b, 12)]; w.append({"Only": "w%d" % b})
            if style == 1: doc += ["                 continued on a line"]; w[0]["Only"] += " continued on a line"
        want[b] = w
    text = "\n".join(doc) + ("" if last_open else "\n")
    fn = write(c, "SITE.LOG", text)
    log = M.IdsLogFile(fn)
    depth = 3 if c.thorough() else 2
    for i in range(depth):
        b = c.choose(10, "block")
        try:
            got = log.parse_block_nr(b); err = None
        except Exception as e:
            got, err = None, e
        c.step()
        if b not in want:
            c.check(err is not None, "block %d is not in the log, but gave %r\n%s", b, got, text)
        else:
            c.check(err is None, "block %d: %r\n%s", b, err, text)
            got = [g for g in got if g]
            c.check(got == want[b], "block %d: %r instead of %r\n%s", b, got, want[b], text)
        c.state(style, tuple(present), b, repr(got)); c.outcome(repr(got))
    if log.istream_: log.istream_.close()


def station(c):
    """ids_logs2station_info over a directory of logs"""
    n = c.choose(4, "logs"); allrows = []; bad = False
    d = os.path.join(c.scratch(), "logs"); os.mkdir(d)
    for i in range(n):
        ext = c.pick([".LOG", ".log", ".txt"], "extension"); k = c.choose(3, "antennas") if i < 2 else 1
        L = ["    SITE%d DORIS site description form" % i, ""] + filler(1, 0) + [TITLE[2], ""]
        dam = c.deviate(2, "damaged")
        rr = []
        for a in range(k + (dam and not k)):
            hh = "x" if dam else "%d.%03d m" % (i, a * 125 + 5)
            L += ["2.%d" % (a + 1), "", key("Four character ID", "S%dA%d" % (i, a), 25), key("Height above ground mark", hh, 25), key("Date installed (dd/mm/yy)", "0%d/0%d/2001" % (i + 1, a + 1), 26), key("Date removed (dd/mm/yy)", "" if a else "11/12/2013", 26), ""]
            rr.append(("S%dA%d" % (i, a), "2001-0%d-0%d 00:00:00" % (a + 1, i + 1), "9999-12-31 23:59:59" if a else "2013-12-11 00:00:00", float("%d.%03d" % (i, a * 125 + 5))))
        if k == 0 and not dam: bad = None if bad is False and ext != ".txt" else bad
        L += filler(3, 1) if c.flip("more blocks") else []
        with open(os.path.join(d, "site%d%s" % (i, ext)), "w") as o: o.write("\n".join(L) + "\n")
        if ext != ".txt":
            allrows += rr
            if dam: bad = True
    out = c.pick([None, "heights.txt"], "to")
    sys.argv[:] = ["ids_logs2station_info.py", "-l", d] + (["-o", out] if out else [])
    if not n and c.flip("no such directory"):
        sys.argv[2] = os.path.join(c.scratch(), "nowhere"); bad = True
    so, se = io.StringIO(), io.StringIO(); err = None
    sys.path.insert(0, os.path.join(pymc.REPO, "script/pydoris"))
    for m in [m for m in sys.modules if m.split(".")[0] == "pydoris"]: del sys.modules[m]
    try:
        with contextlib.redirect_stdout(so), contextlib.redirect_stderr(se):
            g = runpy.run_path(os.path.join(pymc.REPO, "script/ids_logs2station_info.py"), run_name="__main__")
            g.clear(); gc.collect()   # whatever the script left open is closed, as at its end
    except SystemExit as e:
        err = e if e.code not in (None, 0) else None
    except Exception as e:
        err = e
    c.step()
    if bad is True: c.check(err is not None, "a damaged log or a missing directory raised no error")
    elif bad is False: c.check(err is None, "refused: %r", err)
    if err is None:
        t = open(out).read() if out else so.getvalue()
        c.check(t.startswith("Site"), "no head line: %r", t[:60])
        got = rows(t.split("\n", 1)[1])
        c.check(sorted(map(repr, got)) == sorted(map(repr, allrows)), "rows %r instead of %r", got, allrows)
        c.state(t); c.outcome(t)
    else: c.outcome(type(err).__name__)


def first(c):
    """the first line names the site"""
    if ERR: c.fail("the module cannot be loaded: %r", ERR)
    name = c.pick(["YELLOWKNIFE", "DIONYSOS", "SAL", "TERRE-ADELIE", "Ny_Alesund", ""], "name")
    line = ["    %s DORIS site description form", "%s DORIS site description form", " %s DORIS site description form  \n", "    %s", "    %s DORIS site log", "", "%s description form"][c.choose(7, "line")]
    good = "site description form" in line and name != ""
    try: got = M.parse_first_log_line(line % name if "%s" in line else line)
    except Exception as e: got = e
    c.step()
    if good: c.check(got == name, "%r instead of %r", got, name)
    else: c.check(isinstance(got, RuntimeError), "%r for %r", got, line)
    c.state(name, line); c.outcome(repr(got))


pymc.prop("Y01", "model_checking",
          "every site log of bounded size: 0..n antennas, heights in every written form (with and without unit, integers, signs, other units, words), open and closed intervals, fields reordered, missing, repeated with other blocks' names, continued, blank lines, line ends, any following block or the end of the file; every set of blocks asked for in any order on one object; directories of logs through the script itself",
          "0..2 antennas, 2 deviations, 2 block requests (quick) / 0..3, 3 and 3",
          [("first line", 0, 0, first), ("blocks", 0, 0, blocks), ("directory", 1, 2, station), ("antennas", 2, 3, antennas)],
          ["a height without a number counts as zero, as the script has it", "unusual but unambiguous heights (signs, integers) may be read exactly or refused"])

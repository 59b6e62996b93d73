# Y03: gravity model files rewritten from Fortran to C notation
import contextlib, io, os, re, runpy, sys
import pymc

SCRIPT = os.path.join(pymc.REPO, "script/gfc_fortran2c.py")
FORT = re.compile(r"[+-]?(\d+\.?\d*|\.\d+)[dD][+-]?\d+")
CNUM = re.compile(r"[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?")
MANT = ["0.484165", "-0.484165", "+1.5", ".25", "-.125", "0.0", "12.75", "-123.456", "9.999999999999999"]
EXP = ["D-03", "d+00", "D+15", "d-12", "D02", "d5", "e-03", "E+01", ""]
ODD = ["1.D+00", "2.d-1", "7", "-3", "20080101", "0.5E-300"]


class Full(Exception):
    pass


class Sink(io.StringIO):
    def write(self, s):
        if self.tell() > 2000000: raise Full()
        return super().write(s)


def convert(fn):
    so = Sink(); sys.argv[:] = ["gfc_fortran2c.py"] + ([fn] if fn else [])
    try:
        with contextlib.redirect_stdout(so), contextlib.redirect_stderr(io.StringIO()):
            runpy.run_path(SCRIPT, run_name="__main__").clear()
        return 0, so.getvalue()
    except SystemExit as e:
        return (0 if e.code is None else e.code if isinstance(e.code, int) else 1), so.getvalue()
    except Full:
        return "endless", ""
    except Exception:
        return 1, so.getvalue()


def same(c, a, b, text):
    """token b stands for what token a said"""
    if FORT.fullmatch(a) and a not in ODD[:2]:
        c.check(CNUM.fullmatch(b) is not None, "%r became %r, which no C reader takes\n%s", a, b, text)
        c.check(float(b) == float(re.sub("[dD]", "e", a)), "%r became %r\n%s", a, b, text)
    elif FORT.fullmatch(a):
        c.check(float(re.sub("[dD]", "e", b)) == float(re.sub("[dD]", "e", a)), "%r became %r\n%s", a, b, text)
    else:
        c.check(a == b, "%r became %r\n%s", a, b, text)


def judge(c, doc, text, head, rc, out):
    c.check(rc == 0, "exit %r\n%s", rc, text)
    L = out.split("\n")
    if L and L[-1] == "": L.pop()
    c.check(len(L) == len(doc), "%d lines instead of %d\n%s\n--\n%s", len(L), len(doc), text, out)
    for i, (a, b) in enumerate(zip(doc, L)):
        if i < head:
            c.check(a.split() == b.split(), "header line %r became %r", a, b); continue
        ta, tb = a.split(), b.split()
        c.check(len(ta) == len(tb), "line %r became %r", a, b)
        for x, y in zip(ta, tb): same(c, x, y, a)


def run(c, doc, head, eol="\n", end=True):
    text = eol.join(doc) + (eol if end else "")
    with open("m.gfc", "wb") as f: f.write(text.encode("utf-8"))
    rc, out = convert("m.gfc"); c.step()
    judge(c, doc, text, head, rc, out)
    c.state(text); c.outcome(out)


HEAD = ["A model, radius 0.6378D+07", "begin_of_head", "product_type  gravity_field", "modelname  TEST_1.5D-3", "earth_gravity_constant  0.3986004415D+15", "radius 0.6378136460D+07", "max_degree 4", "errors no", "key L M C S", "end_of_head ====="]


def tokens(c):
    """every pair of numbers in every written form, at every place of a record"""
    a = c.pick(MANT, "mantissa") + c.pick(EXP, "exponent"); b = c.pick(MANT, "mantissa 2") + c.pick(EXP, "exponent 2")
    odd = c.deviate(len(ODD) + 1, "odd")
    if odd: b = ODD[odd - 1]
    form = c.choose(4, "record")
    rec = ["gfc  2 0 %s %s", "gfct 2 1 %s %s 20080101.0000", "trnd    2    1   %s   %s", "asin 2 1\t%s\t%s 0.1D-10 -.5d+1 1.0"][form] % (a, b)
    run(c, HEAD + [rec], len(HEAD), "\r\n" if c.deviate(2, "line ends") else "\n", not c.deviate(2, "final newline"))


def files(c):
    """line structures: header length, blank lines, the marker's look, words that are no numbers"""
    h = [HEAD, HEAD[-1:], ["  end_of_head"], HEAD[:1] + ["", ""] + HEAD[1:], HEAD[:3] + ["x end_of_head", "end_of_heaD"] + HEAD[3:], ["é model"] + HEAD][c.choose(6, "head")]
    n = c.choose(4 if c.thorough() else 3, "lines"); D = []
    for i in range(n):
        D.append(c.pick(["gfc 2 0 -0.484D-03 0.0D+00", "", "gfc 2 1 1.0 2.0", "# D+1 d-2 word.D Dx", "  gfc   3  0  .5d-3  -.5D3  ", "end_of_head 1.5D+2", "gfc " + " ".join(["1.25D-01"] * 40)], "line"))
    run(c, list(h) + D, len(h), "\r\n" if c.deviate(2, "line ends") else "\n", n == 0 or D[-1] == "" or not c.deviate(2, "final newline"))


def cut(c):
    """a file cut at any byte: refused without end_of_head, otherwise what is there is converted"""
    doc = HEAD + ["gfc 2 0 -0.484D-03 0.0D+00", "gfc 2 1 0.5d-09 1.0D+00"]
    text = "\n".join(doc) + "\n"
    n = c.choose(len(text) + 1, "bytes"); t = text[:n]
    with open("m.gfc", "w") as f: f.write(t)
    rc, out = convert("m.gfc"); c.step()
    c.check(rc != "endless", "a file without an end of header is converted without end (%d bytes)", n)
    if "\nend_of_head" not in t: c.check(rc != 0, "exit 0 for a file without an end of header (%d bytes)", n)
    else:
        part = t.split("\n")
        if part[-1] == "": part.pop()
        body = [re.sub(r"\S+$", lambda m: m.group(0), l) for l in part]
        c.check(rc == 0, "exit %r for %d bytes", rc, n)
        L = out.split("\n")
        if L and L[-1] == "": L.pop()
        c.check(len(L) == len(body), "%d lines of %d", len(L), len(body))
        for i, (a, b) in enumerate(zip(body, L)):
            ta, tb = a.split(), b.split(); c.check(len(ta) == len(tb), "line %r became %r", a, b)
            last = i == len(body) - 1
            for k, (x, y) in enumerate(zip(ta, tb)):
                if last and k == len(ta) - 1: continue   # the token that was cut
                if i < len(HEAD): c.check(x == y, "header %r became %r", x, y)
                else: same(c, x, y, a)
    c.state(n); c.outcome(rc, len(out))


def usage(c):
    k = c.choose(2, "case")
    rc, out = convert(None if k == 0 else "nowhere.gfc"); c.step()
    c.check(rc != 0, "exit 0 without a file to convert"); c.state(k); c.outcome(rc)


pymc.prop("Y03", "model_checking",
          "every pair of written numbers (mantissa and exponent forms) in every kind of record; every header and line structure of bounded length; a file cut at every byte; missing arguments",
          "pairs of 81 number forms in 4 records, up to 2 data lines (quick) / 3",
          [("usage", 0, 0, usage), ("cut", 0, 0, cut), ("files", 1, 2, files), ("tokens", 1, 2, tokens)],
          ["a number with a D exponent and no digit after its point may be left or converted", "a number cut by the end of the file is not judged"], limit=10)

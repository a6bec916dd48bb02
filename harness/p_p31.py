"""The files the QC reads: their names, which of them is taken, and the identifiers to leave out."""
from api import again, harness
import BackgroundField as bf
from fakefs import FS

BOUNDS = "every year from 1600 to 2999, month and day; lists of 1 to 3 places; any of their files, packed or not, present, empty or "\
         "absent; excluded identifiers of any printable characters, lists of up to 3 lines"
ASSUMPTIONS = ["files and the unpacking command are stand-ins"]


class Os:
    """files at given paths: sizes, None when absent"""

    def __init__(self, sizes):
        self.sizes, self.path, self.environ, self.ran, self.sep = sizes, self, {"SCRATCH": "/scratch"}, [], "/"

    def join(self, *a):
        out = a[0]
        for x in a[1:]:
            out = x if x.startswith("/") else out + x if out.endswith("/") else out + "/" + x
        return out

    def size(self, name):
        for path, n in self.sizes:
            if name == path:
                return n() if callable(n) else n
        return None

    def isfile(self, name):
        return self.size(name) is not None
    exists = isfile

    def getsize(self, name):
        n = self.size(name)
        if n is None:
            raise OSError(name)
        return n

    def stat(self, name):
        class S:
            st_size = self.getsize(name)
        return S()

    def getenv(self, k, d=None):
        return self.environ.get(k, d)


class Run:
    """stands for subprocess"""

    def __init__(self, world):
        self.world, self.ran = world, []

    def call(self, command, shell=False, **k):
        self.ran.append(command)
        return 0
    check_call = call


def date(c):
    return c.int("y", 1600, 2999), c.int("m", 1, 12), c.int("d", 1, 31)


@harness(quick=[{"dir": "/a/YYYY/MMMM/", "f": "xYYYYMMMMDDDD.nc"}, {"dir": "/a/YYYYMMMM", "f": "DDDD_YYYY"}, {"dir": "/q", "f": "MMMM"},
                {"dir": "/YYYY/YYYY/", "f": "f"}], time=100)
def name(c, p):
    y, m, d = date(c)
    c.patch(bf, "os", Os([]))
    want = p["dir"].rstrip("/") + "/" + p["f"]
    for k, x in (("YYYY", "%04d" % y), ("MMMM", "%02d" % m), ("DDDD", "%02d" % d)):
        want = want.replace(k, x)
    c.require(bf.make_filename(p["dir"], p["f"], y, m, d) == want, "the placeholders are filled with the date")
    c.require(bf.process_string(p["f"], y, m, d) == want[-len(bf.process_string(p["f"], y, m, d)):], "in the name as well")


@harness(quick=[{"n": 1}, {"n": 2}, {"n": 3}], time=100)
def icoads(c, p):
    n = p["n"]
    y, m, d = date(c)
    dirs, names = c.shared("lists", lambda: (["/i%d/YYYY" % i for i in range(n)], ["R%d_YYYY-MMMM.gz" % i for i in range(n)]))
    n = len(dirs)
    paths = ["/i%d/%04d/R%d_%04d-%02d.gz" % (i, y, i, y, m) for i in range(n)]
    there = [c.flag("there%d" % i) for i in range(n)]
    c.patch(bf, "os", Os([(paths[i], 100 if there[i] else None) for i in range(n)]))
    got = bf.icoads_filename_from_stub(dirs, names, y, m)
    want = None
    for i in range(n):
        if want is None and there[i]:
            want = paths[i]
    c.require((got is None) == (want is None), "no name when none of the files is there")
    if want is not None:
        c.require(got == want, "the first of the files that is there")
    c.require(bf.icoads_filename_from_stub(dirs, names, None, m) is None and bf.icoads_filename_from_stub(dirs, names, y, None) is None,
              "no file without a date")
    refused = False
    try:
        bf.icoads_filename_from_stub(dirs, names + ["x"], y, m)
    except AssertionError:
        refused = True
    c.require(refused, "lists that do not match are refused")


@harness(quick=[{"n": 1}, {"n": 2}], thorough=[{"n": 1}, {"n": 2}, {"n": 3}], time=150)
def background(c, p):
    n = p["n"]
    y, m, d = date(c)
    dirs, names = ["/b%d/YYYY/" % i for i in range(n)], ["S%d_YYYYMMMMDDDD.nc" % i for i in range(n)]
    tail = ["S%d_%04d%02d%02d.nc" % (i, y, m, d) for i in range(n)]
    paths = ["/b%d/%04d/" % (i, y) + tail[i] for i in range(n)]
    known = {}

    def size(kind, i):
        if (kind, i) not in known:
            known[kind, i] = c.choice("%s%d" % (kind, i), [None, 0, 50] if kind != "done" else [None, 50])
        return known[kind, i]

    def later(kind, i):
        return lambda: size(kind, i)
    w = Os([(paths[i], later("plain", i)) for i in range(n)] + [(paths[i] + ".bz2", later("packed", i)) for i in range(n)] +
           [("/scratch/" + tail[i], later("done", i)) for i in range(n)])
    run = Run(w)
    c.patch(bf, "os", w)
    c.patch(bf, "subprocess", run)
    got = bf.get_background_filename(dirs, names, y, m, d)
    last = n - 1
    c.patch(bf, "os", Os([("/b%d/1999/S%d_19990203.nc" % (last, last), 50)]))
    c.require(bf.get_background_filename(dirs, names, 1999, 2, 3) == "/b%d/1999/S%d_19990203.nc" % (last, last), "another day has its own")
    first = None
    for i in range(n):
        if first is None and ((size("plain", i) or 0) > 0 or (size("packed", i) or 0) > 0):
            first = i
    if first is None:
        c.require(got is None and not run.ran, "no background without a file that has contents")
        return
    c.require(got is not None, "a background when there is a file")
    if (size("plain", first) or 0) > 0 and bool(got == paths[first]):
        c.require(len(run.ran) == 0, "a file that is not packed is read in place")
    else:
        c.require((size("packed", first) or 0) > 0 and bool(got == "/scratch/" + tail[first]), "the first of the files that is there")
        if size("done", first):
            c.require(len(run.ran) == 0, "it is not unpacked again")
        else:
            c.require(len(run.ran) == 1, "it is unpacked once")
            c.require(run.ran[0] == "bunzip2 -c " + paths[first] + ".bz2 > /scratch/" + tail[first], "the packed file, into the scratch folder")


@harness(time=60)
def no_date(c, p):
    y, m, d = c.opt("y", lambda k: c.int(k, 1900, 2000)), c.opt("m", lambda k: c.int(k, 1, 12)), c.opt("d", lambda k: c.int(k, 1, 31))
    c.assume(y is None or m is None or d is None)
    c.patch(bf, "os", Os([]))
    c.require(bf.get_background_filename(["/a"], ["b"], y, m, d) is None, "no background without a date")


@harness(time=60)
def release(c, p):
    y, m = c.int("y", 1600, 2999), c.int("m", 1, 12)
    if y >= 2015:
        c.require(bf.icoads_filename("/i", y, m, "3.0") == "/i/ICOADS.3.0.1/IMMA1_R3.0.1_%s-%02d.gz" % (str(y), m), "release 3.0 from 2015 on")
    else:
        c.require(bf.icoads_filename("/i", y, m, "3.0") == "/i/ICOADS.3.0.0/IMMA1_R3.0.0_%s-%02d.gz" % (str(y), m), "release 3.0 to 2014")
    if y >= 2008 and y <= 2014:
        c.require(bf.icoads_filename("/i", y, m, "2.5") == "/i/R2.5.2.%s.%02d.gz" % (str(y), m), "release 2.5, later years")
    else:
        c.require(bf.icoads_filename("/i", y, m, "2.5") == "/i/ICOADS.2.5.1/R2.5.1.%s.%02d.gz" % (str(y), m), "release 2.5")
    refused = False
    try:
        bf.icoads_filename("/i", y, m, "2.4")
    except AssertionError:
        refused = True
    c.require(refused, "other releases are refused")


@harness(quick=[{"n": n} for n in (0, 1, 4, 8, 9, 11)], time=100)
def excluded(c, p):
    """each line is one identifier, padded to nine characters; blank lines are none"""
    n = p["n"]
    text = c.str("id", n, n) if n else ""
    lines = ["AB\n", text, "\n"] if c.flag("end") else [text + "\n" if n else "\n", " \n", "123456789\n", "X 1"]

    class F:
        def __init__(self):
            self.shut = False

        def __iter__(self):
            return iter(lines)

        def readlines(self):
            return list(lines)

        def close(self):
            self.shut = True

        def __enter__(self):
            return self

        def __exit__(self, *a):
            self.close()
    f = F()
    names = []

    def opened(nm, mode="r"):
        names.append(nm)
        return f
    c.patch(bf, "open", opened)
    got = bf.process_bad_id_file("/bad")
    c.require(names == ["/bad"] and f.shut, "reads the file and closes it")
    mine = text.rstrip()
    rest = ["AB       "] if lines[0] == "AB\n" else ["123456789", "X 1      "]
    if len(mine) == 0:
        c.require(got == rest, "blank lines are no identifiers")
    else:
        mine = mine + " " * max(0, 9 - len(mine))
        want = rest + [mine] if len(rest) == 1 else [mine] + rest
        c.require(len(got) == len(want), "one identifier per line")
        for a, b in zip(got, want):
            c.require(a == b, "padded with blanks to nine characters")


@harness(quick=[{"made": k} for k in (0, 1, 2)], time=60)
def directories(c, p):
    y, m = c.choice("y", [1850, 2003, 2021]), c.concretise(c.int("m", 1, 12))
    fs = FS({}, ["/out"] + ["/out/%d" % y, "/out/%d/%02d" % (y, m)][:p["made"]])
    c.patch(bf, "os", fs)
    out = bf.safe_make_dir("/out", y, m)
    c.require(out == "/out/%d/%02d" % (y, m), "the directory of the year and month")
    c.require(out in fs.dirs and "/out/%d" % y in fs.dirs, "is made if it is not there")
    c.require(len(fs.dirs) == 3, "and nothing else")


again("icoads", quick=[{"n": 1}, {"n": 2}], time=100)
again("name", quick=[{"dir": "/a/YYYY/MMMM/", "f": "xYYYYMMMMDDDD.nc"}], time=60)

"""Reading and writing IMMA records."""
from api import harness
import IMMA1
import NRT
import SimpleIMMA
import TestIMMA

BOUNDS = "records of the core and up to four attachments in which one field at a time, any of them, holds any value that fits its "\
         "columns, or none, the others fixed values or blanks; the short, tabular and near-real-time records likewise"
ASSUMPTIONS = ["attachments of one record do not share parameter names and hold some value", "text fields hold one of three texts"]

# name:columns, then s for text, b for a base-36 digit, /n for units of 1/n
LAYOUT = {
    0: "YR:4 MO:2 DY:2 HR:4/100 LAT:5/100 LON:6/100 IM:2 ATTC:1b TI:1 LI:1 DS:1 VS:1 NID:2 II:2 ID:9s C1:2s DI:1 D:3 WI:1 W:3/10 "
       "VI:1 VV:2 WW:2 W1:1 SLP:5/10 A:1 PPP:3/10 IT:1 AT:4/10 WBTI:1 WBT:4/10 DPTI:1 DPT:4/10 SI:2 SST:4/10 N:1 NH:1 CL:1b HI:1 "
       "H:1b CM:1b CH:1b WD:2 WP:2 WH:2 SD:2 SP:2 SH:2",
    1: "BSI:1 B10:3 B1:2 DCK:3 SID:3 PT:2 DUPS:2 DUPC:1 TC:1 PB:1 WX:1 SX:1 C2:2 SQZ:1b SQA:1b AQZ:1b AQA:1b UQZ:1b UQA:1b VQZ:1b "
       "VQA:1b PQZ:1b PQA:1b DQZ:1b DQA:1b ND:1 SF:1b AF:1b UF:1b VF:1b PF:1b RF:1b ZNC:1b WNC:1b BNC:1b XNC:1b YNC:1b PNC:1b "
       "ANC:1b GNC:1b DNC:1b SNC:1b CNC:1b ENC:1b FNC:1b TNC:1b QCE:2 LZ:1 QCZ:2",
    2: "OS:1 OP:1 FM:2 IX:1 W2:1 SGN:1 SGT:1b SGH:2 WMI:1 SD2:2 SP2:2 SH2:2 IS:1 ES:2 RS:1 IC1:1b IC2:1b IC3:1b IC4:1b IC5:1b IR:1 "
       "RRR:3 TR:1 QCI:1 QI1:1 QI2:1 QI3:1 QI4:1 QI5:1 QI6:1 QI7:1 QI8:1 QI9:1 QI10:1 QI11:1 QI12:1 QI13:1 QI14:1 QI15:1 QI16:1 "
       "QI17:1 QI18:1 QI19:1 QI20:1 QI21:1 HDG:3 COG:3 SOG:2 SLL:2 SLHH:3 RWD:3 RWS:3/10",
    3: "CCCC:4s BUID:6s BMP:5/10 BSWU:4/10 SWU:4/10 BSWV:4/10 SWV:4/10 BSAT:4/10 BSRH:3 SRH:3 SIX:1 BSST:4/10 MST:1 MSH:3 BY:4 "
       "BM:2 BD:2 BH:2 BFL:2",
    4: "C1M:2s OPM:2 KOV:2s COR:2s TOB:3s TOT:3s EOT:2s LOT:2s TOH:1s EOH:2s SIM:3s LOV:3 DOS:2 HOP:3 HOT:3 HOB:3 HOA:3 SMF:5 "
       "SME:5 SMV:2",
    5: "OS:1 OP:1 FM:1b IMMV:1b IX:1 W2:1 WMI:1 SD2:2 SP2:2 SH2:2 IS:1 ES:2 RS:1 IC1:1b IC2:1b IC3:1b IC4:1b IC5:1b IR:1 RRR:3 TR:1 "
       "NU:1s QCI:1 QI1:1 QI2:1 QI3:1 QI4:1 QI5:1 QI6:1 QI7:1 QI8:1 QI9:1 QI10:1 QI11:1 QI12:1 QI13:1 QI14:1 QI15:1 QI16:1 QI17:1 "
       "QI18:1 QI19:1 QI20:1 QI21:1 HDG:3 COG:3 SOG:2 SLL:2 SLHH:3 RWD:3 RWS:3/10 QI22:1 QI23:1 QI24:1 QI25:1 QI26:1 QI27:1 QI28:1 "
       "QI29:1 RH:4/10 RHI:1 AWSI:1 IMONO:7",
    6: "CCCC:4s BUID:6s FBSRC:1 BMP:5/10 BSWU:4/10 SWU:4/10 BSWV:4/10 SWV:4/10 BSAT:4/10 BSRH:3 SRH:3 BSST:5/10 MST:1 MSH:4 BY:4 "
       "BM:2 BD:2 BH:2 BFL:2",
    7: "MDS:1 C1M:2s OPM:2 KOV:2s COR:2s TOB:3s TOT:3s EOT:2s LOT:2s TOH:1s EOH:2s SIM:3s LOV:3 DOS:2 HOP:3 HOT:3 HOB:3 HOA:3 "
       "SMF:5 SME:5 SMV:2",
    8: "OTV:5/1000 OTZ:4/100 OSV:5/1000 OSZ:4/100 OOV:4/100 OOZ:4/100 OPV:4/100 OPZ:4/100 OSIV:5/100 OSIZ:4/100 ONV:5/100 ONZ:4/100 "
       "OPHV:3/100 OPHZ:4/100 OCV:4/100 OCZ:4/100 OAV:3/100 OAZ:4/100 OPCV:4/10 OPCZ:4/100 ODV:2/10 ODZ:4/100 PUID:10s",
    9: "CCe:1b WWe:2 Ne:1 NHe:1 He:1 CLe:2 CMe:2 CHe:1 AM:3/100 AH:3/100 UM:1 UH:1 SBI:1 SA:4/10 RI:4/100",
    95: "ICNR:2 FNR:2 DPRO:2 DPRP:2 UFR:1 MFGR:7 MFGSR:7 MAR:7 MASR:7 BCR:7 ARCR:4s CDR:8 ASIR:1",
    96: "ICNI:2 FNI:2 JVAD:1b VAD:6 IVAU1:1b JVAU1:1b VAU1:6 IVAU2:1b JVAU2:1b VAU2:6 IVAU3:1b JVAU3:1b VAU3:6 VQC:1 ARCI:4s CDR:8 "
        "ASII:1",
    97: "ICNE:2 FNE:2 CEF:1 ERRD:10s ARCE:4s CDE:8 ASIE:1",
    98: "UID:6s RN1:1b RN2:1b RN3:1b RSA:1 IRF:1",
    99: "ATTE:1 SUPD:20s",
}
DIGITS = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ"
LENGTH = {8: "2U", 99: " 0"}


def fields(a):
    """(name, columns, kind, units) of an attachment"""
    out = []
    for f in LAYOUT[a].split():
        name, rest = f.split(":")
        div = 1
        if "/" in rest:
            rest, div = rest.split("/")
        kind = rest[-1] if rest[-1] in "sb" else "i"
        out.append((name, int(rest.rstrip("sb")), kind, int(div)))
    return out


def filler(i, w, kind):
    """a fixed value for a field, or none"""
    if i % 5 == 3:
        return None
    if kind == "s":
        return ("%dx Y" % (i % 7) + "z" * w)[:w]
    if kind == "b":
        return (7 * i) % 36
    return (37 * i + 1) % 10 ** w


def text(v, w, kind):
    if v is None:
        return " " * w
    if kind == "s":
        return v
    if kind == "b":
        return DIGITS[v]
    return ("%" + str(w) + "d") % v


class Out:
    def __init__(self):
        self.got = ""

    def write(self, s):
        self.got = self.got + s


def record(c, atts, which):
    """the text of a record and the values in it; the field with index which is free"""
    line, want, k = "", {}, 0
    for a in atts:
        body = ""
        for i, (name, w, kind, div) in enumerate(fields(a)):
            v = filler(i, w, kind)
            if k == which:
                if c.flag("missing"):
                    v = None
                elif kind == "s":
                    v = c.choice("value", ["A" * w, "b" + " " * (w - 1), "?" * (w - 1) + "0"])
                elif kind == "b":
                    v = c.concretise(c.int("value", 0, 35))
                else:
                    v = c.int("value", -(10 ** (w - 1)) + 1 if w > 1 else 0, 10 ** w - 1)
            elif i == 0 and v is None:
                v = 1
            body = body + text(v, w, kind)
            want[name] = v if v is None or kind != "i" or div == 1 else v / float(div)
            k += 1
        if a:
            body = "%2d%s%s" % (a, LENGTH.get(a) or "%2d" % (len(body) + 4), body)
        line = line + body
    return line, want


SETS = [[0], [0, 1], [0, 2], [0, 3], [0, 4], [0, 5], [0, 6], [0, 7], [0, 8], [0, 9], [0, 95], [0, 96], [0, 97], [0, 98], [0, 99],
        [0, 1, 5, 6, 7], [0, 1, 8, 98, 99], [0, 97, 98], [0, 9, 95, 1]]
QUICK = [[0], [0, 1], [0, 5], [0, 6], [0, 8], [0, 9, 95], [0, 97, 98], [0, 1, 7, 98, 99], [0, 96], [0, 2], [0, 3, 4]]


@harness(quick=[{"a": s, "last": len(s) > 1} for s in QUICK], thorough=[{"a": s, "last": False} for s in SETS + QUICK], time=250)
def codec(c, p):
    """every field comes from its own columns, and goes back to them"""
    atts = p["a"]
    total = sum(len(fields(a)) for a in atts)
    first = len(fields(0)) if p["last"] else 0
    which = c.concretise(c.int("which", first, total - 1))
    line, want = record(c, atts, which)
    r = IMMA1.IMMA()
    ret = r.readstr(line + ("\n" if which % 2 else ""))
    c.require(ret == 1, "a record is read")
    c.require(list(r.attachments) == atts, "with all its attachments")
    for a in atts:
        for name, w, kind, div in fields(a):
            v, x = want[name], r.data[name]
            if v is None or x is None:
                c.require(v is None and x is None, "%s: blank is missing, and nothing else" % name)
            elif kind == "s":
                c.require(x == v, "%s is the text in its columns" % name)
            else:
                c.require(c.close(x, v), "%s is the number in its columns" % name)
    out = Out()
    r.write(out)
    c.require(out.got == line.rstrip() + "\n", "writing gives the record back")


@harness(time=100)
def cut(c, p):
    """blanks at the end of a record may have been cut"""
    n = c.concretise(c.int("columns", 1, 108))
    line, want = record(c, [0], -1)
    line = line[:n]
    r = IMMA1.IMMA()
    r.readstr(line)
    at = 0
    for name, w, kind, div in fields(0):
        t = line[at:at + w]
        at += w
        if at <= n:
            same = r.data[name] == want[name] if kind == "s" or want[name] is None else c.close(r.data[name], want[name])
            c.require(same, "%s, before the cut" % name)
        elif not t.strip():
            c.require(r.data[name] is None, "%s, after the cut, is missing" % name)
    c.require(list(r.attachments) == [0], "the core is there")


@harness(time=60)
def end(c, p):
    """at the end of the file nothing is read"""
    class Fh:
        def __init__(self):
            self.lines = [record(c, [0, 98], -1)[0] + "\n"] if c.flag("one") else []

        def readline(self):
            return self.lines.pop(0) if self.lines else ""
    fh = Fh()
    n = len(fh.lines)
    r = IMMA1.IMMA()
    got = r.read(fh)
    c.require(bool(got) == (n == 1) and len(r.attachments) == (2 if n else 0), "one record per line")
    q = IMMA1.IMMA()
    c.require(not q.read(fh) and not q.attachments, "nothing at the end")


SIMPLE = "YR:4 MO:2 DY:2 HR:4/100 LAT:5/100 LON:6/100 DS:1 VS:1 ID:9s AT:4/10 SST:4/10 DPT:4/10 DCK:3 SID:3 PT:2 UID:6s"


@harness(quick=[{"tail": 0}, {"tail": 1}], time=100)
def simple(c, p):
    """the short record: one line of fixed columns and nothing else"""
    LAYOUT["simple"] = SIMPLE
    f = fields("simple")
    which = c.concretise(c.int("which", 0, len(f) - 1))
    line, want = "", {}
    for i, (name, w, kind, div) in enumerate(f):
        v = filler(i, w, kind)
        if i == which:
            if kind == "s":
                v = c.choice("value", ["A" * w, "b" + " " * (w - 1), " " * w])
            elif c.flag("missing"):
                v = None
            else:
                v = c.int("value", -(10 ** (w - 1)) + 1 if w > 1 else 0, 10 ** w - 1)
        elif kind == "s" and v is None:
            v = " " * w
        line = line + text(v, w, kind)
        want[name] = v if v is None or kind != "i" or div == 1 else v / float(div)
    r = SimpleIMMA.IMMA()
    r.readstr(line + ("12345\n" if p["tail"] else "\n"))
    for name, w, kind, div in f:
        v, x = want[name], r.data[name]
        if kind == "s":
            c.require(x == v, "%s is the text in its columns" % name)
        elif v is None or x is None:
            c.require(v is None and x is None, "%s: blank is missing, and nothing else" % name)
        else:
            c.require(c.close(x, v), "%s is the number in its columns" % name)


@harness(time=60)
def table(c, p):
    """reports from a table of texts"""
    row = ["SHIP", "U1"] + ["0"] * 12
    want = {}
    f = (("LAT", 2, -90, 90), ("LON", 3, -180, 360), ("YR", 4, 1800, 2100), ("MO", 5, 1, 12), ("DY", 6, 1, 31), ("HR", 7, 0, 23),
         ("SST", 11, -50, 400))
    which = c.choice("which", [q[0] for q in f])
    for name, i, lo, hi in f:
        if which != name:
            want[name] = lo + i
            row[i] = "%d" % (lo + i)
        elif name in ("HR", "SST") and c.flag("gone"):
            want[name] = None
            row[i] = "-32768.0"
        else:
            want[name] = c.int("value", lo, hi)
            row[i] = "%d.0" % want[name]
    r = TestIMMA.IMMA()
    r.readstr(row)
    c.require(r.data["ID"] == "SHIP" and r.data["UID"] == "U1" and r.data["DCK"] == 999, "identifiers")
    for n in want:
        x, v = r.data[n], want[n]
        if v is None or x is None:
            c.require(v is None and x is None, "%s: -32768 is missing, and nothing else" % n)
        else:
            c.require(c.close(x, v), "%s is the number in its place" % n)


@harness(quick=[{"sst": s} for s in ("value", "nan")], time=60)
def near_real_time(c, p):
    """one line of comma separated texts per report of a drifter"""
    class When:
        year, month, day = c.int("year", 1950, 2100), c.int("month", 1, 12), c.int("day", 1, 31)
        hour, minute, second = c.int("hour", 0, 23), c.int("minute", 0, 59), 0
    asked = []

    def parse(x):
        asked.append(x)
        return When
    c.patch(NRT.dateutil.parser, "parse", parse)
    which = c.choice("which", ["lat", "lon", "sst"])
    la = c.int("la", -90, 300) if which == "lat" else 45
    lo = c.int("lo", -180, 500) if which == "lon" else -45
    t = c.int("t", -50, 400) if which == "sst" else 12
    r = NRT.NRT()
    end = "\n" if c.flag("newline") else ""
    r.readstr("ID7,x,2010-05-06T07:08,%d.0,%d.0,%s%s" % (la, lo, "nan" if p["sst"] == "nan" else "%d" % t, end))
    c.require(asked == ["2010-05-06T07:08"], "the date is read from its own text")
    c.require(r["YR"] == When.year and r["MO"] == When.month and r["DY"] == When.day, "year, month and day")
    c.require(c.close(r["HR"] * 60, When.hour * 60 + When.minute), "the hour, with its minutes")
    c.require(r["LAT"] == (200 if la > 200 else la) and r["LON"] == (400 if lo > 400 else lo), "position")
    if p["sst"] == "nan":
        c.require(r["SST"] is None, "no temperature")
    else:
        c.require(r["SST"] is not None and r["SST"] == t, "the temperature")
    c.require(r["ID"] == "ID7" and r["UID"] == "NRTID72010-05-06T07:08" and r["PT"] == 7, "identifiers, a drifter")
    c.require(all(r[n] is None for n in ("AT", "DPT", "SIM", "DS", "VS", "C1", "SI")), "nothing else is known")
    q = NRT.NRT()
    q.readstr("")
    c.require(list(q.data) == ["ID"] and q["ID"] is None, "nothing at the end")

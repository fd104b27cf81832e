"""Units, numbers in text, comments."""
from engine.contract import contract
from contracts.common import make_dims, mk

SI = "constants.si_units:"
PREFIX = {"": 0, "d": -1, "c": -2, "m": -3, "u": -6, "n": -9, "p": -12,
          "f": -15, "a": -18, "k": 3, "M": 6, "G": 9, "T": 12, "P": 15,
          "E": 18}
UNITS = ["Hz", "s", "S", "Ohm", "m", "V", "A", "F", "W"]
PRINTED = {-24: "y", -21: "z", -18: "a", -15: "f", -12: "p", -9: "n",
           -6: "u", -3: "m", 0: "", 3: "k", 6: "M", 9: "G", 12: "T",
           15: "P", 18: "E", 21: "Z", 24: "Y"}


def si(w):
    return w.mod("hftools.constants.si_units")


def scaled(w, e, m):
    """m * 10**e, the power exact."""
    return m * w.num(10) ** e if w.symbolic else m * 10.0 ** e


@contract("C16", [SI + "unit_to_multiplier", SI + "convert_with_unit"],
          cases=[dict(how=h) for h in ("number", "text", "array")], runs=3)
def unit_scaling(w, how):
    """value [unit] is the value times the prefix, in the base unit."""
    v = w.real("v")
    if how == "array":
        dims = make_dims(w, "f")
        A, raw = mk(w, "A", "f", dims)
    for u in UNITS:
        for p, e in sorted(PREFIX.items()):
            if p + u in UNITS:
                continue
            unit = p + u
            if how == "number":
                r = si(w).convert_with_unit(" %s " % unit, v)
            elif how == "text":
                r = si(w).convert_with_unit(unit, w.text(v))
            else:
                mul, base = si(w).unit_to_multiplier(unit)
                w.true("base unit of " + unit, base == u)
                r = A * mul
                for i, in w.forall(A.shape):
                    w.eq("scaled " + unit, w.at(r, (i,)),
                         scaled(w, e, w.at(raw, (i,))))
                continue
            w.true("base unit of " + unit, r.unit == u)
            w.eq("value in " + unit, w.at(r, ()), scaled(w, e, v))
    for unit in ("dBm", "dB", "C", "K", "sec", "deg", "1=ON", "V/m", "g",
                 "GHZ", "min", "Bit", "dB/GHz", "xHz", "bV", "%%", "#1", "x",
                 "VV", "HzHz", "kk", "mm1", "Gfoo", "ohm", "kohm", "hz",
                 "MHZ", "w", "mw", "OHM"):
        mul, base = si(w).unit_to_multiplier(" %s\t" % unit)
        w.true("other unit kept: " + unit, mul == 1 and base == unit)
        r = si(w).convert_with_unit(unit, v)
        w.true("other unit kept: " + unit, r.unit == unit)
        w.eq("value unscaled: " + unit, w.at(r, ()), v)
    for unit, e in (("", 0), ("%", -2), ("#", 0), (None, 0), ("  ", 0)):
        r = si(w).convert_with_unit(unit, v)
        w.true("no unit", r.unit is None)
        w.eq("value", w.at(r, ()), scaled(w, e, v))


@contract("C16", [SI + "string_number_with_unit_to_value",
                  SI + "unit_to_multiplier", SI + "convert_with_unit"],
          cases=[dict(fmt=f, sep=s) for f in ("%r", "%.16e", "%+.16E")
                 for s in ("%s", " %s", "\t%s", " [%s]")], runs=6)
def number_text(w, fmt, sep):
    """The text of a number with unit is read as that number."""
    v = w.real("v") if w.symbolic else \
        w.real("v") * 10 ** w.choice("e", [-120, -20, -9, -1, 0, 2, 17, 99])
    t = w.text(v, fmt)
    r = si(w).string_number_with_unit_to_value(t)
    w.eq("plain number", w.at(r, ()), v)
    w.true("no unit", r.unit is None)
    for u in UNITS[:4]:
        for p, e in sorted(PREFIX.items()):
            unit = p + u
            if sep == "%s" and p and p in "eE":
                continue
            r = si(w).string_number_with_unit_to_value(t + sep % unit)
            w.true("unit of " + unit, r.unit == u)
            w.eq("value in " + unit, w.at(r, ()), scaled(w, e, v))
    for unit in ("dBm", "C", "sec"):
        r = si(w).string_number_with_unit_to_value(t + sep % unit)
        w.true("other unit", r.unit == unit)
        w.eq("value", w.at(r, ()), v)
    r = si(w).string_number_with_unit_to_value(t + sep % "%")
    w.eq("percent", w.at(r, ()), scaled(w, -2, v))
    w.true("already a number",
           all(si(w).string_number_with_unit_to_value(q) == q
               for q in (12, -0.25, 2 ** 60 + 1)))
    for q in (0, -7, 10 ** 9 + 1, 2 ** 53 + 1, -(2 ** 60) - 1):
        r = si(w).convert_with_unit("dBm", " %d " % q)
        w.true("whole numbers", int(r) == q and r.unit == "dBm")
    for bad in ("", "N/A", "volt", "2010-04-20", "2002-10-25, 09:09",
                "2006-05-08 09:27:02", "-", "x" + t):
        with w.raises("not a number: " + bad[:12], ValueError):
            si(w).string_number_with_unit_to_value(bad)


@contract("C16", [SI + "format_number", SI + "_help_format_sci",
                  SI + "mantissa", SI + "SIFormat.__mod__"],
          cases=[dict(e=e, neg=n, greek=g) for e in range(-24, 27)
                 for n in (False, True) for g in (False, True)
                 if (e + n + g) % 2 == 0], runs=6)
def formatted(w, e, neg, greek):
    """The printed number times its prefix is the number."""
    m = w.pos("m")
    if w.symbolic:
        w.assume(m >= 1)
        w.assume(m < 10)
    else:
        m = w.choice("m", [1 + m * 2.2, 1 + m * 2.2, 1.000000000001,
                           9.999999999999, 9.9999])
    if neg:
        m = -m
    x = scaled(w, e, m)
    f = si(w).SIFormat(unit="Hz", digs=None, greek=greek)
    num, unit = (f % x).split(" ")
    g = 3 * (e // 3)
    want = "\u03bc" if greek and g == -6 else PRINTED[g]
    w.true("prefix", unit == want + "Hz")
    n = si(w).string_number_with_unit_to_value(num)
    w.eq("number", w.at(n, ()), scaled(w, e - g, m))
    if not greek and want in PREFIX:
        r = si(w).string_number_with_unit_to_value(num + " " + unit)
        w.eq("read back", w.at(r, ()), x)
        w.true("read back unit", r.unit == "Hz")
    if not w.symbolic:
        digs = w.choice("digs", [0, 1, 3, 6])
        s = si(w).format_number(x, unit="Hz", digs=digs, greek=greek)
        w.true("digits", s == "%.*f %sHz" % (digs, m * 10.0 ** (e - g),
                                              want) or
               abs(float(s.split(" ")[0]) - m * 10.0 ** (e - g)) <=
               10.0 ** -digs)


@contract("C16", [SI + "format_number", SI + "SIFormat.__mod__",
                  SI + "mantissa"], runs=2)
def formatted_special(w):
    F = si(w).SIFormat
    w.true("zero", F(unit="V", digs=3) % 0 == "0.000 V" and
           F(digs=2) % 0.0 == "0.00 ")
    w.true("no unit", F(unit=None, digs=1) % 1500 == "1.5 k")
    inf = float("inf")
    w.true("infinity", F(unit="V") % inf == "inf V" and
           F(unit="V") % -inf == "-inf V")
    w.true("layout", F("%(num)s_%(unit)s", unit="V", digs=1) % 0.25 ==
           "250.0_mV")


# ------------------------------------------------------------------ comments

CM = {"data": "hftools.dataset.comments", "file": "hftools.file_formats.common"}
CMF = [m + x for m in ("dataset.comments:", "file_formats.common:")
       for x in ("process_comment", "convert", "Comments.add_from_comment",
                 "Comments.add_from_comments")]
WORDS = ["Vds", "Port1Ext_Time", "START Time", "MV_8_104_GT1", "Description "
         "of DUT", "Temp (inside)", "a/b", "x.y", "Freq#2"]
TEXTS = ["LIN", "Agilent E8361A", "N/A", "No Cal - Raw Data", "OML WR-03",
         "a:b=c [d]", "\"quoted text\"", "Stop!", "a!! b!!", "%", "#3", "2002-10-25, 09:09", "-", "today", "now", "NaT", "Type N "
         "male load  SP503388 S/N 00923"]


def same_value(w, label, r, v, unit):
    w.true(label + ": unit", r.unit == unit)
    w.eq(label + ": value", w.at(r, ()), v)


@contract("C25", CMF, cases=[dict(mod=m, q=q) for m in sorted(CM)
                             for q in range(len(WORDS))], runs=12)
def comment_values(w, mod, q):
    """name [unit] : value gives the value in the base unit."""
    M = w.mod(CM[mod])
    name = WORDS[q] if w.symbolic else w.choice("name", WORDS)
    x, y = w.real("x"), w.real("y")
    fmt = ["%r", "%.16e", "%+.16E"][q % 3]
    tx = w.text(x, fmt)
    sep = [":", "=", " : ", " = ", "\t:\t", ": "][q % 6] if w.symbolic else \
        w.choice("sep", [":", "=", " : ", " = ", "\t:\t", ": "])
    u = UNITS[q % len(UNITS)] if w.symbolic else w.choice("unit", UNITS)
    for p, e in sorted(PREFIX.items()):
        for pat in ("%s [%s]", "%s[%s]", "!  %s  [%s]"):
            c = M.Comments([pat % (name, p + u) + sep + tx])
            w.true("one property", list(c.property) == [name])
            same_value(w, "bracketed unit " + p + u, c.property[name],
                       scaled(w, e, x), u)
        c = M.Comments([name + sep + tx + " " + p + u])
        same_value(w, "trailing unit " + p + u, c.property[name],
                   scaled(w, e, x), u)
    same_value(w, "no unit", M.Comments([name + sep + tx]).property[name],
               x, None)
    same_value(w, "empty unit", M.Comments(
        [name + " [ ]" + sep + tx]).property[name], x, None)
    same_value(w, "other unit", M.Comments(
        [name + " [dBm]" + sep + tx]).property[name], x, "dBm")
    same_value(w, "percent", M.Comments(
        [name + " [%]" + sep + tx]).property[name], scaled(w, -2, x), None)
    # later comments win, every line is kept in order
    lines = [name + sep + tx, "plain remark", "Other: 1",
             name + sep + w.text(y, fmt)]
    c = M.Comments(list(lines))
    same_value(w, "last value", c.property[name], y, None)
    w.true("names", set(c.property) == {name, "Other"})
    w.true("lines kept in order", list(c.fullcomments) == lines)


@contract("C25", CMF, cases=[dict(mod=m, t=t) for m in sorted(CM)
                             for t in range(len(TEXTS))], runs=3)
def comment_text(w, mod, t):
    """A value that is no number stays the text it is; dates become dates."""
    M = w.mod(CM[mod])
    np = w.np
    text = TEXTS[t]
    for name in WORDS:
        for sep in (":", " = "):
            for unit in ("", " [ ]", "[1=ON]", " [mV]"):
                for tail in ("  ", ""):
                    c = M.Comments(["! " + name + unit + sep + text + tail])
                    w.true("text kept", list(c.property.items()) ==
                           [(name, text)])
            for date in ("2010-10-19 16:01:26", "2010-10-19 16:01",
                         "2010-10-19 16:01:26.750",
                         "1999-12-31 23:59:59.000001"):
                c = M.Comments([name + sep + date.replace(" ", "  ")])
                w.true("date", c.property[name] == np.datetime64(date))
                c = M.Comments()
                c.add_from_comments([name + sep + date, ""])
                w.true("date", c.property[name] == np.datetime64(date))
    for name in WORDS[:3] if mod == "file" else []:
        for date in ("2010-10-19", "1999-12-31", "2024-02-29", "2001-01-30",
                     "2014-11-09"):
            c = M.Comments([name + ": " + date])
            w.true("day", c.property[name] == np.datetime64(date) and
                   str(c.property[name]) == date)
    if ":" not in text and "=" not in text:
        c = M.Comments([text])
        w.true("no property", not c.property)
        w.true("kept as text", list(c.fullcomments) == [text])
    w.true("empty", not M.Comments([]).property and
           not M.Comments().fullcomments)


@contract("C25", [m + x for m in ("dataset.comments:", "file_formats.common:")
                  for x in ("Comments.copy", "Comments.extend",
                            "Comments.__init__")],
          cases=[dict(mod=m) for m in sorted(CM)], runs=4)
def comments_independent(w, mod):
    """Copies do not follow the original; extend adds everything."""
    M = w.mod(CM[mod])
    x, y, z = w.real("x"), w.real("y"), w.real("z")
    given = ["A: " + w.text(x), "remark"]
    a = M.Comments(given)
    b = a.copy()
    o = M.Comments(["A: " + w.text(y), "B: " + w.text(z), "tail"])
    b.extend(o)
    w.true("argument kept", len(given) == 2)
    w.true("lines", list(b.fullcomments) ==
           given + list(o.fullcomments))
    w.true("names", set(b.property) == {"A", "B"})
    same_value(w, "later value", b.property["A"], y, None)
    same_value(w, "added value", b.property["B"], z, None)
    w.true("original lines", list(a.fullcomments) == given)
    w.true("original names", list(a.property) == ["A"])
    same_value(w, "original value", a.property["A"], x, None)
    b.add_from_comment("C: 1")
    b.property["D"] = 1
    w.true("copies are independent", list(a.property) == ["A"] and
           set(o.property) == {"A", "B"} and len(o.fullcomments) == 3)
    e = M.Comments(given)
    e.extend(o)
    w.true("extend keeps the given list", len(given) == 2 and
           len(e.fullcomments) == 5)
    k = M.Comments(given, extra=1)
    w.true("keywords are properties", k.property["extra"] == 1)
    t = b.table()
    w.true("table", len(t) == 3 + len(b.property) and
           all(any(line.startswith(n) for line in t) for n in b.property))
    k = M.Comments(given)
    for n, v in (("none", None), ("zero", 0), ("empty", ""), ("", "x")):
        k.property[n] = v
    w.true("every property is copied",
           list(k.copy().property.items()) == list(k.property.items()))
    e = M.Comments()
    e.extend(k)
    w.true("every property is added", set(e.property) == set(k.property))
    k = M.Comments(zeta="  some text ", alpha=1, beta="")
    w.true("sorted by name", [x.split()[0] for x in k.table()[3:]] ==
           ["alpha", "beta", "zeta"])
    w.true("text without the spaces around it",
           [x.split() for x in k.table()[3:]][-1] ==
           ["zeta", "some", "text"] and
           "zeta  some" in repr(k))
    w.true("no table of nothing", M.Comments(["remark"]).table() == [])

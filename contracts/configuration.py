"""Configuration files with lexical scope."""
import datetime
import os
from engine.contract import contract
from contracts.files import write

CO = "file_formats.config:"
LOOK = [CO + x for x in ("LexicalScopeDict.__getitem__",
                         "LexicalScopeDict.__contains__",
                         "LexicalScopeDict.get", "find_next_dict")]
LOAD = [CO + x for x in (
    "LexicalConfig.reload_settings", "LexicalLoader.construct_mapping",
    "LexicalLoader.construct_sequence", "SIValue.__new__",
    "convert_si_value", "percentvalue_constructor",
    "timeintervall_constructor", "shortdatetime_constructor",
    "time_constructor", "overrideint")]
SAVE = [CO + x for x in (
    "LexicalConfig.write", "Config.write", "sivalue_representer",
    "timeintervall_representer", "timestamp_representer",
    "LexicalScopeDict.convert_to_standard",
    "LexicalScopeList.convert_to_standard")]


def cf(w):
    return w.mod("hftools.file_formats.config")


def exactly(w, label, a, b):
    w.true(label, abs(float(a) - b) <= 1e-14 * abs(b))


SHAPES = {"flat": "D", "dict": "DD", "deep": "DDD", "list": "DLD",
          "lists": "DLLD", "mixed": "DLDDLD", "empty": "DED",
          "empties": "DELEED", "empty top": "EDD"}


@contract("C26", LOOK, cases=[dict(shape=s) for s in sorted(SHAPES)], runs=3)
def scopes(w, shape):
    """A key is the one of the innermost dictionary that has it."""
    c = cf(w)
    kinds = SHAPES[shape]
    levels = [c.LexicalScopeList() if k == "L" else c.LexicalScopeDict()
              for k in kinds]
    for up, low, k in zip(levels, levels[1:], kinds):
        low.parent = up
        if k == "E":         # a dictionary with no keys of its own
            continue
        if isinstance(up, dict):
            up["child"] = low
        else:
            up.append(low)
    dicts = [x for x in levels if isinstance(x, dict)]
    n = len(dicts)
    val = {}
    empty = [x for x, k in zip(levels, kinds) if k == "E"]
    for k, d in enumerate(dicts):
        if any(d is e for e in empty):
            continue
        for key in ["all", "only%d" % k] + (["odd"] if k % 2 else []):
            val[k, key] = w.real("v%d_%s" % (k, key))
            d[key] = val[k, key]
        d["none"] = None
    keys = ["all", "odd", "never", "child"] + ["only%d" % k for k in range(n)]
    for k, d in enumerate(dicts):
        for key in keys:
            have = [q for q in range(k, -1, -1) if (q, key) in val]
            if key == "child":
                continue
            w.true("membership of %s" % key, bool(key in d) == bool(have))
            if have:
                w.eq("value of %s" % key, d[key], val[have[0], key])
                w.eq("get %s" % key, d.get(key, 5), val[have[0], key])
            else:
                w.eq("default of %s" % key, d.get(key, 5), 5)
                w.true("no default", d.get(key) is None)
                with w.raises("unknown %s" % key, KeyError):
                    d[key]
        if all(d is not e for e in empty) or any(
                q < k and (q, "all") in val for q in range(n)):
            w.true("None is a value", "none" in d and
                   d.get("none", 5) is None)
    for d in empty:
        w.true("no keys of its own", len(d) == 0)
    if empty:
        return
    inner = dicts[-1]
    inner["all"] = 7
    w.eq("assignment is local", inner["all"], 7)
    inner.update({"all": None, "new": 8})
    w.true("updated", inner["all"] is None and inner["new"] == 8)
    inner.update({"all": 7})
    w.eq("updated again", inner["all"], 7)
    if n > 1:
        w.eq("outer value kept", dicts[-2]["all"], val[n - 2, "all"])
    std = dicts[0].convert_to_standard()
    w.true("plain dictionaries", type(std) is dict)
    x, y = std, levels[0]
    for low in levels[1:]:
        x = x["child"] if isinstance(y, dict) else x[0]
        w.true("plain containers", type(x) is (dict if isinstance(low, dict)
                                               else list))
        y = low


@contract("C26", [CO + x for x in ("MergedDicts.__getitem__",
                                   "MergedDicts.__contains__",
                                   "MergedDicts.keys", "MergedDicts.copy")],
          cases=[dict(n=n, copy=k) for n in (1, 2, 3, 5, 8)
                 for k in (0, 1)], runs=3)
def merged(w, n, copy):
    """The last dictionary that has a key decides."""
    dicts, val = [], {}
    for k in range(n):
        d = {}
        for key in ["all", "own%d" % k] + (["some"] if k != n - 1 else []):
            val[k, key] = d[key] = w.real("v%d_%s" % (k, key))
        for q in range((n - k) ** 2 % 7):    # of any size
            d["many%d" % q] = q
        dicts.append(d)
    m = cf(w).MergedDicts(*dicts)
    if copy:
        m = m.copy()
    names = set("many%d" % q for k in range(n) for q in range((n - k) ** 2
                                                              % 7))
    for key in ["all", "some"] + ["own%d" % k for k in range(n)]:
        have = [k for k in range(n) if (k, key) in val]
        w.true("membership", (key in m) == bool(have))
        if have:
            names.add(key)
            w.eq("value of " + key, m[key], val[have[-1], key])
    w.true("keys", set(m.keys()) == names)
    with w.raises("unknown", KeyError):
        m["absent"]


PREFIX = {"": 1, "d": 1e-1, "c": 1e-2, "m": 1e-3, "u": 1e-6, "n": 1e-9,
          "p": 1e-12, "f": 1e-15, "a": 1e-18, "k": 1e3, "M": 1e6, "G": 1e9,
          "T": 1e12, "P": 1e15, "E": 1e18}


@contract("C26", LOAD, cases=[dict(cls=c) for c in ("LexicalConfig",
                                                    "Config")],
          prove=False, runs=40)
def values_read(w, cls):
    """Numbers with prefixes, percentages, intervals and times."""
    x = w.real("x")
    pre = w.choice("prefix", sorted(PREFIX))
    unit = w.choice("unit", ["Hz", "V", "A", "s", "W", "Ohm"])
    if pre and w.choice("metres", [False, False, False, True]):
        unit = "m"         # without a prefix, m means milli
    gap = w.choice("gap", ["", " ", "\t"])
    num = w.choice("format", ["%r", "%.6e", "%+.4f"]) % float(x)
    d, h, m, s = [w.int(k, 0, 50) for k in "dhms"]
    iv = ["%d days" % d, "%d hours" % h, "%d minutes" % m, "%d seconds" % s]
    use = [w.choice("use%d" % k, [True, False]) for k in range(4)]
    if not any(use):
        use[2] = True
    hh, mm = w.int("hh", 0, 23), w.int("mm", 0, 59)
    if w.choice("midnight", [False] * 5 + [True]):
        hh = 0
    clock = (hh, mm, h % 60)
    delta = w.choice("delta", [None, -80, -30, -5, 5, 30, 80, -3570, 3570])
    if delta is not None:        # a time of day close to the present one
        near = datetime.datetime.now() + datetime.timedelta(seconds=delta)
        clock = (near.hour, near.minute, near.second)
    base = "Hz" if unit == "m" else unit
    kind = w.choice("kind", ["%", "ppm", "ppb"])
    text = ["si: %s%s%s%s" % (num, gap if gap != "\t" else " ", pre, unit),
            "prefix: %s %s" % (num, pre) if pre else "prefix: 1 k",
            "part: %s%s" % (num, kind),
            "interval: " + " ".join(t for t, u in zip(iv, use) if u),
            "when: 2011-03-0%d %02d:%02d" % (1 + mm % 9, hh, mm),
            "clock: %02d:%02d:%02d" % clock,
            "whole: %d" % (d - 20), "text: some %s text" % unit,
            "nested: {a: 1, b: [2 %s, {c: 3}]}" % base]
    fn = write(w, "t.yaml", "\n".join(text) + "\n", encoding="utf-8")
    before = datetime.datetime.now()
    C = getattr(cf(w), cls)(fn)
    after = datetime.datetime.now()
    v = float(num)
    exactly(w, "value with unit", C["si"], v * PREFIX[pre])
    w.true("unit", C["si"].unit == unit)
    exactly(w, "value with prefix", C["prefix"],
            v * PREFIX[pre] if pre else 1000)
    w.true("no unit", C["prefix"].unit is None)
    exactly(w, "fraction", C["part"], v * {"%": 1e-2, "ppm": 1e-6,
                                           "ppb": 1e-9}[kind])
    want = datetime.timedelta(**dict((n, k) for n, k, u in zip(
        ("days", "hours", "minutes", "seconds"), (d, h, m, s), use) if u))
    w.true("interval", C["interval"] == want)
    w.true("date and time", C["when"] ==
           datetime.datetime(2011, 3, 1 + mm % 9, hh, mm))
    t = C["clock"]
    w.true("time of day", (t.hour, t.minute, t.second) == clock)
    w.true("next time of day", before <= t <=
           after + datetime.timedelta(days=1))
    w.true("integer", C["whole"] == d - 20 and isinstance(C["whole"], int))
    w.true("text", C["text"] == "some %s text" % unit)
    n = C["nested"]
    w.true("nested", n["a"] == 1 and float(n["b"][0]) == 2 and
           n["b"][0].unit == base and n["b"][1]["c"] == 3)
    if cls == "LexicalConfig":
        w.true("scope", n["b"][1]["a"] == 1 and n["b"][1]["whole"] == d - 20
               and "text" in n["b"][1] and "absent" not in n["b"][1])


def same(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and set(a) == set(b) and \
            all(same(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and \
            all(same(x, y) for x, y in zip(a, b))
    return a == b and getattr(a, "unit", None) == getattr(b, "unit", None) \
        and isinstance(a, str) == isinstance(b, str)


@contract("C26", LOAD + SAVE, cases=[dict(cls=c, named=k)
                                     for c in ("LexicalConfig", "Config")
                                     for k in (0, 1)],
          prove=False, runs=30)
def values_saved(w, cls, named):
    """What is written is read back."""
    c = cf(w)
    unit = w.choice("unit", ["Hz", "V", "A", "s", "W", "Ohm"])
    pre = w.choice("prefix", sorted(PREFIX))
    fn = write(w, "t.yaml", "", encoding="utf-8")
    C = getattr(c, cls)(fn)
    w.true("an empty file", len(C) == 0)
    C["si"] = c.SIValue("%r %s%s" % (float(w.real("x")), pre, unit))
    C["plain"] = c.SIValue("%r" % float(w.real("y")))
    C["interval"] = datetime.timedelta(
        days=w.choice("d", [0, 1, 9, 31, 400, 36525]),
        minutes=w.int("m", 0, 3000), seconds=w.int("s", 0, 100),
        microseconds=w.choice("us", [0, 0, 500000, 123456, 250, 1, 99]))
    C["when"] = datetime.datetime(2012, 1 + w.int("mo", 0, 11), 3,
                                  w.int("h", 0, 23), w.int("mi", 0, 59),
                                  w.int("se", 0, 59),
                                  w.choice("mus", [0, 0, 1, 123456, 500000]))
    C["text"] = w.choice("text", ["abc", "5 GHz", "åäö", "10:30", "", "1",
                                  "2 days", "5%"])
    C["number"] = float(w.real("z"))
    C["whole"] = w.int("k", -10, 10)
    C["none"] = None
    C["list"] = [1, C["si"], {"a": C["text"], "b": [2.5]}]
    C["dict"] = {"x": {"y": C["interval"]}}
    want = dict(C)
    if named:
        fn = os.path.join(w.tmpdir(), "u.yaml")
        C.write(fn)
    else:
        C.write()
    w.true("not modified", same(want, dict(C)))
    R = getattr(c, cls)(fn)
    for k in want:
        w.true("value of " + k, k in R and same(want[k], R[k]))
    w.true("nothing else", set(R.keys()) == set(want))
    C["si"] = 3
    C["more"] = 4
    if not named:
        C.reload_settings()
        w.true("reloaded", "more" not in C and same(want["si"], C["si"]))

"""Independent reading of a configuration file: the documented grammar, used as oracle for arbitrary text.

parse(text, limits_checked) -> dict(sets, names, labels, params, lims, opts, extra, counts) or Reject; raises DontCare for
text whose meaning the documentation leaves open (exotic number spellings, control characters, one-character lines)."""
import re

NUM = re.compile(r"^[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?$")
LIM = re.compile(r"^[^,]+,[^,]+$")


class Reject(Exception):
    pass


class DontCare(Exception):
    pass


def number(t):
    if NUM.match(t):
        v = float(t)
        if v in (float("inf"), float("-inf")):
            raise Reject("overflow")
        return v
    if re.match(r"^[+-]?0[xX]", t):
        raise DontCare("hexadecimal")
    raise Reject("not a number: %r" % t)


def toks(l):
    return [t for t in re.split(r"[ \t]+", l.split("#")[0]) if t]


def parse(text, limits_checked):
    if isinstance(text, bytes):
        text = text.decode("latin1")
    for ch in text:
        if (ord(ch) < 32 and ch not in "\n\t") or ord(ch) == 127:
            raise DontCare("control character")
    L = []
    for l in text.split("\n"):
        s = l.strip(" \t")
        if len(s) == 1 and s != "#":
            raise DontCare("one-character line")
        if not s or s[0] == "#":
            continue
        L.append(s)
    start = next((i for i, l in enumerate(L) if toks(l)[:1] == ["X0"]), None)
    if start is None:
        raise Reject("no X0")
    out = dict(opts=[], names=[], labels=[], params=[], lims=[], starts=[], extra=[], counts=[], found=False)
    for l in L[:start]:
        t = toks(l)
        if t[:1] == ["FUNCTION"]:
            raise Reject("function before the first X0")
        if len(t) == 2:
            out["opts"].append(t)
    L = L[start:]
    optional = False
    expect_y = False
    for l in L:
        t = toks(l)
        key = t[0] if t else ""
        if expect_y and key != "Y0":
            raise Reject("X0 without Y0")
        if key == "X0" or (key == "Y0" and expect_y):
            if optional:
                raise DontCare("position inside optional parameters")
            if key == "X0" and out["starts"] and out["starts"][-1] == len(out["names"]):
                raise Reject("set without functions")
            if key == "X0":
                out["starts"].append(len(out["names"]))
            expect_y = key == "X0"
            param(out, t, limits_checked)
            continue
        if key == "FUNCTION":
            if optional:
                raise DontCare("function inside optional parameters")
            if len(t) < 2:
                raise Reject("no function name")
            out["names"].append(t[1])
            k = l.find("LABEL")
            lab = l[k + 5:].strip(" \t") if k >= 0 else ""
            if k >= 0 and (l.find("#") < 0 or l.find("#") > k or not re.search(r"#\s*LABEL(\s|$)", l)):
                raise DontCare("LABEL in an undocumented place")
            out["labels"].append(lab)
            out["extra"].append({})
            out["counts"].append(0)
            continue
        if out["starts"][-1] == len(out["names"]):
            raise Reject("parameter before any function")
        if key == "OPTIONAL_PARAMS_START":
            optional = True
            continue
        if key == "OPTIONAL_PARAMS_END":
            optional = False
            continue
        if optional:
            if len(t) < 2:
                raise Reject("optional parameter without value")
            out["extra"][-1][t[0]] = t[1]
            continue
        param(out, t, limits_checked)
        out["counts"][-1] += 1
    if expect_y:
        raise Reject("X0 without Y0")
    if out["starts"][-1] == len(out["names"]):
        raise Reject("set without functions")
    return out


def param(out, t, checked):
    if len(t) < 2:
        raise Reject("no value")
    v = number(t[1])
    out["params"].append(v)
    if len(t) == 2:
        out["lims"].append([0, 0, 0, 0.0, 0.0])
        return
    out["found"] = True
    if t[2] == "fixed":
        out["lims"].append([1, 0, 0, 0.0, 0.0])
        return
    p = t[2].split(",")
    if len(p) != 2 or "" in p:
        if len([x for x in p if x]) == 2:
            raise DontCare("superfluous commas")
        raise Reject("bad limits")
    lo, hi = number(p[0]), number(p[1])
    if checked and (lo >= hi or v < lo or v > hi):
        raise Reject("limits out of order")
    out["lims"].append([0, 1, 1, lo, hi])

"""Configuration files with a random layout: the same content written with blank lines, comments, tabs, number formats ..."""
import random
from . import gens

FEATURES = ["blank", "comment", "trailing", "keyword", "tabs", "indent", "numfmt", "names", "nonl", "glued", "long", "extra"]
WORDS = ["a", "this", "n", "value", "see", "paper", "=", "3.5", "the", "bulge", "10,20", "disc", "end", "é"]
KEYS = ["X0", "Y0", "FUNCTION", "OPTIONAL_PARAMS_START", "OPTIONAL_PARAMS_END", "fixed", "X0 3", "Y0 5.0", "FUNCTION Exponential", "NCOLS 7"]


class Layout:
    def __init__(self, seed, feats):
        self.r = random.Random(seed)
        self.f = set(feats)

    def on(self, k, p=0.3):
        return k in self.f and self.r.random() < p

    def ws(self):
        if "tabs" not in self.f:
            return "  "
        return "".join(self.r.choice(" \t") for _ in range(self.r.randint(1, 5)))

    def text(self):
        ws = [self.r.choice(WORDS) for _ in range(self.r.randint(0, 5))]
        if self.on("keyword", 0.6):
            ws.insert(self.r.randint(0, len(ws)), self.r.choice(KEYS))
        s = " ".join(ws)
        if self.on("long", 0.05):
            s += " x" * 700
        return s

    def tail(self):
        """what may follow the meaningful part of a line"""
        s = ""
        if self.on("trailing", 0.35):
            s = ("" if self.on("glued", 0.5) else self.ws()) + "#" + self.r.choice(["", " ", "\t", "##"]) + self.text()
        if self.on("tabs", 0.3):
            s += self.ws()
        return s

    def num(self, v):
        v = float(v)
        s = repr(v)
        if self.on("numfmt", 0.6):
            c = ["%.17g" % v, "%.16e" % v, ("%.16E" % v)]
            if v == int(v) and abs(v) < 1e6:
                c += ["%d" % v, "%d." % v, "%d.000" % v]
            if v >= 0 and not (v == 0 and s[0] == "-"):
                c += ["+" + s, "00" + s if "e" not in s and "inf" not in s else s]
            if 0 < abs(v) < 1 and s.lstrip("-").startswith("0."):
                c += [s.replace("0.", ".", 1)]
            s = self.r.choice(c)
            if float(s) != v:
                s = repr(v)
        return s

    def name(self, n):
        if self.on("names", 0.3):
            return self.r.choice(["p", n.lower(), n + "_bulge", "param", "X0_ring", "MYFUNCTION", "fixed", "FUNCTION_x", "1.0", "I_e(ADU)", "X0Y0"])
        return n

    def lines(self, L):
        """add noise lines and indentation"""
        out = []

        def noise():
            while self.on("blank", 0.2):
                out.append(self.r.choice(["", "  ", "\t", " \t "]))
            while self.on("comment", 0.25):
                out.append(self.r.choice(["", " ", "\t"]) + "#" + self.r.choice(["", " "]) + self.text())
        for l in L:
            noise()
            out.append((self.ws() if self.on("indent", 0.4) else "") + l)
        noise()
        s = "\n".join(out)
        return s if self.on("nonl", 0.5) else s + "\n"


def write(case, limits=True):
    """case: dict(sets, limits, labels, header [[k, v, ...]], opts {str(function index): [[k, v], ...]}, lseed, feats)"""
    Z = Layout(case["lseed"], case["feats"])
    L = []
    for h in case.get("header", []):
        L.append(Z.ws().join(str(x) for x in h) + Z.tail())
    k = j = 0
    lims = case.get("limits")

    def lim():
        nonlocal k
        l = lims[k] if lims and limits else None
        k += 1
        if l is None:
            return ""
        s = Z.ws() + ("fixed" if l == "fixed" else Z.num(l[0]) + "," + Z.num(l[1]))
        if Z.on("extra", 0.2):
            s += Z.ws() + Z.r.choice(["kpc", "fixed", "1,2", "99"])
        return s
    for x0, y0, fs in case["sets"]:
        for n, v in (("X0", x0), ("Y0", y0)):
            L.append(n + Z.ws() + Z.num(v) + lim() + Z.tail())
        for f in fs:
            lab = (case.get("labels") or {}).get(str(j))
            s = "FUNCTION" + Z.ws() + f[0]
            if lab:
                s += ("" if Z.on("glued", 0.3) else Z.ws()) + "#" + Z.r.choice([" ", "", "  ", "\t"]) + "LABEL" + Z.ws() + lab + (Z.ws() if Z.on("tabs") else "")
            else:
                s += Z.tail()
            L.append(s)
            for pn, v in zip(gens.pnames(f[0]), f[1]):
                L.append(Z.name(pn) + Z.ws() + Z.num(v) + lim() + Z.tail())
            o = (case.get("opts") or {}).get(str(j))
            if o is not None:
                L.append("OPTIONAL_PARAMS_START" + Z.tail())
                for a, b in o:
                    L.append(a + Z.ws() + b + Z.tail())
                L.append("OPTIONAL_PARAMS_END" + Z.tail())
            j += 1
    return Z.lines(L)

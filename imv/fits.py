"""Minimal independent FITS reader/writer (numpy only)."""
import numpy as np, gzip

BT = {8: ">u1", 16: ">i2", 32: ">i4", 64: ">i8", -32: ">f4", -64: ">f8"}


def card(key, val, comment=""):
    if isinstance(val, bool):
        v = "%20s" % ("T" if val else "F")
    elif isinstance(val, int):
        v = "%20d" % val
    elif isinstance(val, float):
        v = "%20s" % repr(val).upper()
    else:
        v = "%-20s" % ("'%-8s'" % str(val).replace("'", "''"))
    return ("%-8s= %s%s" % (key, v, (" / " + comment) if comment else "")).ljust(80)[:80]


def hdu(arr=None, bitpix=-64, primary=True, bscale=None, bzero=None, extname=None, extra=(), shape=None, extend=True, naxis=None):
    """arr: 2-D (rows, cols) array of *stored* values, or N-D, or None for no data."""
    cards = [card("SIMPLE", True)] if primary else [card("XTENSION", "IMAGE")]
    cards.append(card("BITPIX", bitpix))
    if arr is None:
        cards.append(card("NAXIS", 0))
    else:
        cards.append(card("NAXIS", arr.ndim))
        for k, n in enumerate(reversed(arr.shape)):
            cards.append(card("NAXIS%d" % (k + 1), int(n)))
    if primary and extend:
        cards.append(card("EXTEND", True))
    if not primary:
        cards += [card("PCOUNT", 0), card("GCOUNT", 1)]
    if bscale is not None:
        cards.append(card("BSCALE", float(bscale)))
    if bzero is not None:
        cards.append(card("BZERO", float(bzero)))
    if extname is not None:
        cards.append(card("EXTNAME", extname))
    cards += list(extra)
    cards.append("END".ljust(80))
    h = "".join(cards)
    h = h.ljust((len(h) + 2879) // 2880 * 2880).encode("ascii")
    d = b""
    if arr is not None:
        d = np.ascontiguousarray(arr).astype(BT[bitpix]).tobytes()
        d += b"\0" * (-len(d) % 2880)
    return h + d


def table_hdu():
    """A one-column one-row binary table extension."""
    cards = [card("XTENSION", "BINTABLE"), card("BITPIX", 8), card("NAXIS", 2), card("NAXIS1", 4), card("NAXIS2", 1),
             card("PCOUNT", 0), card("GCOUNT", 1), card("TFIELDS", 1), card("TFORM1", "1J"), card("TTYPE1", "A"), "END".ljust(80)]
    h = "".join(cards)
    h = h.ljust((len(h) + 2879) // 2880 * 2880).encode("ascii")
    return h + (b"\0\0\0\1").ljust(2880, b"\0")


def write(path, arr, bitpix=-64, **kw):
    with open(path, "wb") as f:
        f.write(hdu(np.asarray(arr, dtype=float), bitpix=bitpix, **kw))


class FitsError(Exception):
    pass


def parse_header(b, pos):
    cards = {}
    hist = []
    while True:
        blk = b[pos:pos + 2880]
        if len(blk) < 2880:
            raise FitsError("truncated header")
        pos += 2880
        done = False
        for k in range(0, 2880, 80):
            c = blk[k:k + 80].decode("latin1")
            key = c[:8].strip()
            if key == "END":
                done = True
                break
            if key in ("HISTORY", "COMMENT", "CONTINUE"):
                hist.append((key, c[8:].rstrip()))
            elif c[8:10] == "= ":
                v = c[10:]
                if v.lstrip().startswith("'"):
                    s = v.lstrip()[1:]
                    out = ""
                    i = 0
                    while i < len(s):
                        if s[i] == "'":
                            if i + 1 < len(s) and s[i + 1] == "'":
                                out += "'"; i += 2; continue
                            break
                        out += s[i]; i += 1
                    cards[key] = out.rstrip()
                else:
                    cards[key] = v.split("/")[0].strip()
        if done:
            return cards, hist, pos


def read(path):
    """Returns (array as float64 with (rows, cols), cards, history) of the first HDU with image data."""
    b = open(path, "rb").read()
    if b[:2] == b"\x1f\x8b":
        b = gzip.decompress(b)
    pos = 0
    while pos < len(b):
        cards, hist, pos = parse_header(b, pos)
        nax = int(cards.get("NAXIS", 0))
        bp = int(cards["BITPIX"])
        dims = [int(cards["NAXIS%d" % (k + 1)]) for k in range(nax)]
        n = int(np.prod(dims)) if nax else 0
        size = n * abs(bp) // 8
        if nax >= 1 and n > 0:
            if pos + size > len(b):
                raise FitsError("truncated data")
            a = np.frombuffer(b[pos:pos + size], dtype=BT[bp]).astype(float).reshape(list(reversed(dims)))
            a = a * float(cards.get("BSCALE", 1.0)) + float(cards.get("BZERO", 0.0))
            return a, cards, hist
        pos += (size + 2879) // 2880 * 2880
    raise FitsError("no image")

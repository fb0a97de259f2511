"""Independent writer of HTDUMP streams (docs/design/htdump_format.md), with positions of the items."""
DT_STRUCT, DT_STRING, DT_INT, DT_UINT = 1, 2, 3, 99
RESERVED = ("base", "timestamp", "id", "klass_id", "klass", "label", "duration", "thread_id", "name", "identifier")


class Writer:
    def __init__(self, big):
        self.big, self.o, self.ends = big, bytearray(), []

    def i(self, v, n):
        self.o += (v & ((1 << (8 * n)) - 1)).to_bytes(n, "big" if self.big else "little")

    def s(self, b):
        self.o += b + b"\0"

    def head(self, kid, ts, eid):
        self.i(kid, 4)
        self.i(ts, 8)
        self.i(eid, 8)

    def endian(self):
        self.head(0, 0, 0)
        self.i(1 if self.big else 0, 1)
        self.ends.append((len(self.o), None))

    def klass(self, kid, name, base, fields):
        """fields: [kind, size, name], kind in u / i / s"""
        self.head(2, 0, 0)
        self.i(kid, 4)
        self.s(name.encode())
        self.i(len(fields) + 1, 1)
        self.ends.append((len(self.o), None))
        self.field(kid, base, "base", 24, DT_STRUCT)
        for k, sz, n in fields:
            t = {"u": "uint%d_t" % (8 * sz), "i": "int%d_t" % (8 * sz), "s": "const char*"}[k]
            self.field(kid, t, n, 8 if k == "s" else sz, {"u": DT_UINT, "i": DT_INT, "s": DT_STRING}[k])

    def field(self, kid, tname, name, size, dt):
        self.head(3, 0, 0)
        self.i(kid, 4)
        self.s(tname.encode())
        self.s(name.encode())
        self.i(size, 8)
        self.i(dt, 1)
        self.ends.append((len(self.o), None))

    def event(self, kid, ts, eid, values, tag=None):
        """values: [(kind, size, value)] outermost base first"""
        self.head(kid, ts, eid)
        for k, sz, v in values:
            if k == "s":
                self.s(v)
            else:
                self.i(v, sz)
        self.ends.append((len(self.o), tag))


def signed(v, n):
    v &= (1 << (8 * n)) - 1
    return v - (1 << (8 * n)) if v >> (8 * n - 1) else v


def gen_text(r, maxlen=60, bad=""):
    """random UTF-8 text without NUL and without the characters of `bad`"""
    style = r.weighted(5, 4, 3, 2)
    n = r.choice([0, 1, 2, 7, 31, 32, 33, 63, 64, 127, 128, 255, 256, 300]) if r.chance(1, 6) else r.randint(0, 12)
    n = min(n, maxlen) if maxlen else n
    out = ""
    for _ in range(n):
        if style == 0:
            c = r.choice("abcdefghijklmnopqrstuvwxyzABCXYZ_0123456789")
        elif style == 1:
            c = chr(r.randint(0x20, 0x7e))
        elif style == 2:
            c = r.choice("\"\\/{}[],:'\n\t\r\b\f\x01\x1f\x7f <>&%$u")
        else:
            c = chr(r.choice([0xe4, 0x3b1, 0x7ff, 0x800, 0x2028, 0x2029, 0xfffd, 0xfeff, 0xffff, 0x1f600, 0x10ffff, 0x41, 0x22, 0x80, 0xa0]))
        if c not in bad:
            out += c
    return out


def gen_name(r, used, words=("value", "size", "args", "count", "a", "x", "category", "ts", "pid", "tid", "dur", "ph", "Name", "labels", "thread", "s_1")):
    n = r.choice(words) if r.chance(1, 2) else "".join(r.choice("abcdefghij_XYZ019") for _ in range(r.randint(1, 14)))
    if n[0].isdigit():
        n = "f" + n
    while n in used or n in RESERVED:
        n += r.choice("abc_0129")
    used.add(n)
    return n

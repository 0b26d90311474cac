"""Reference model of the save format: types with an encoding, a JSON form and edits.

Independent of the tool: shares no code with it and never imports it. A *value* is an
immutable Python object; for every type T

    T.enc(v)       the bytes a save stores for v
    T.js(v)        the JSON the tool must show for v
    T.edits(v, a)  every elementary edit of v: (position, label, v'), alphabet `a`

Floats are held as bit patterns, ids as 16 stored bytes, text as str.
"""

import struct

# ---------------------------------------------------------------- alphabets


class Alpha:
    """How many alternatives an edit offers per leaf: 'full' boundary sets or 'small'."""

    def __init__(self, full, only=None, grow=0, **values):
        self.full = full
        self.grow = grow  # lists, texts and byte strings of this size
        self.only = only  # None, or the kinds of leaves to edit
        self.values = values  # kind -> alphabet override

    def wants(self, kind):
        return self.only is None or kind in self.only.split()

    def pick(self, kind, full, small):
        if kind in self.values:
            return self.values[kind]
        return full if self.full else small


FULL = Alpha(True)
SMALL = Alpha(False)


def growing(n):
    return Alpha(False, "grow", n)


class Lock(str):
    """Text that governs how its surroundings are laid out; not edited on its own."""


class Ident(str):
    """Text used as a name (property name, type name): edits stay well-formed Unicode."""


G0 = bytes(16)
G1 = bytes(range(1, 17))
GF = b"\xff" * 16
# sorts differently as text and as bytes; has zero groups (printf padding)
G2 = bytes([0x0A, 0, 0, 0, 0xB0, 0, 0, 0x0C, 0, 0, 0, 0x80, 0x7F, 0, 0, 1])


def guid_text(b):
    a, c, d, e = struct.unpack("<IIII", b)
    h = "%08x%08x%08x%08x" % (a, c, d, e)
    return "-".join((h[:8], h[8:12], h[12:16], h[16:20], h[20:]))


def text_bytes(s):
    if s == "":
        return struct.pack("<i", 0)
    if all(ord(c) < 128 for c in s):
        b = bytes(ord(c) for c in s) + b"\0"
        return struct.pack("<i", len(b)) + b
    units = []
    for c in s:
        o = ord(c)
        if o >= 0x10000:
            o -= 0x10000
            units += [0xD800 | (o >> 10), 0xDC00 | (o & 0x3FF)]
        else:
            units.append(o)
    units.append(0)
    return struct.pack("<i", -len(units)) + struct.pack("<%dH" % len(units), *units)


IDENTS_FULL = ["x", "Naïve", "日本", "\U0001f600", "a b", "n" * 130, "é" * 130]
IDENTS_SMALL = ["x", "\U0001f600é"]
TEXTS_FULL = [
    "",
    "a",
    "None",
    "é",
    "\x7f",
    "\x80",
    "\xff",
    "日本",
    "\U0001f600",
    "\U0010ffff",
    "\ud800",
    "\udc00",
    "\udfff\ud800",
    "a\ud83d",
    "a\x00b",
    "\x00",
    "é\x00",
    "\x01\x1f",
    '"\\\n\r\t/',
    "\u2028\ufeff\uffff",
    "k" * 127,
    "k" * 128,
    "k" * 255,
    "k" * 256,
    "é" * 128,
    "é" * 300,
]
TEXTS_SMALL = ["", "\U0001f600é\ud800", "k\x00"]


def cycle(v, n):
    return (v * (n // len(v) + 1))[:n]


def texts(v, a):
    if isinstance(v, Lock):
        return []
    if a.grow:
        kind = Ident if isinstance(v, Ident) else str
        return [kind(cycle("0123456789abc", a.grow)), kind(cycle("a1é日", a.grow))]
    if not a.wants("text"):
        return []
    if isinstance(v, Ident):
        return [Ident(s) for s in a.pick("ident", IDENTS_FULL, IDENTS_SMALL) if s != v]
    return [s for s in a.pick("text", TEXTS_FULL, TEXTS_SMALL) if s != v]


# ---------------------------------------------------------------- type combinators


class T:
    default = None

    def enc(self, v):
        raise NotImplementedError

    def js(self, v):
        return v

    def edits(self, v, a):
        return ()


class Num(T):
    def __init__(self, fmt, full, small, default=0):
        self.fmt = struct.Struct("<" + fmt)
        self.full = full
        self.small = small
        self.default = default

    def enc(self, v):
        return self.fmt.pack(v)

    def edits(self, v, a):
        if not a.wants("num"):
            return
        for x in a.pick(self.fmt.format[1:], self.full, self.small):
            if x != v:
                yield (), repr(x), x


def _ints(bits, signed):
    if signed:
        h = 1 << (bits - 1)
        f = [0, 1, -1, 127, 128, 255, 256, -128, -256, h - 1, -h, h - 2, 0x1234567 % h]
        s = [0, -2, h - 1]
        f = [x for x in f if -h <= x < h]
    else:
        h = 1 << bits
        f = [0, 1, 127, 128, 255, 256, h - 1, h >> 1, (h >> 1) - 1, 0x1234567 % h]
        s = [0, 2, h - 1]
        f = [x for x in f if x < h]
    return sorted(set(f), key=lambda x: (abs(x), x)), s


def mknum(fmt, bits, signed, default):
    f, s = _ints(bits, signed)
    return Num(fmt, f, s, default)


U8 = Num("B", [0, 1, 2, 3, 4, 9, 127, 128, 254, 255], [0, 5, 255], 7)
U16 = mknum("H", 16, False, 5)
U32 = mknum("I", 32, False, 6)
I32 = mknum("i", 32, True, 42)
I64 = mknum("q", 64, True, 1 << 40)
U64 = mknum("Q", 64, False, 638000000000000000)
# doubles do not hold these: a codec going through floats would lose them
I64.full = I64.full + [(1 << 53) + 1, -(1 << 53) - 1]
U64.full = U64.full + [(1 << 53) + 1]


class Flt(T):
    """float32/float64, value = bit pattern; NaN only as the canonical quiet NaN."""

    def __init__(self, bits):
        self.bits = bits
        if bits == 32:
            self.i, self.f = struct.Struct("<I"), struct.Struct("<f")
            self.default = 0x3FC00000  # 1.5
            self.full = [
                0,
                0x80000000,
                1,
                0x807FFFFF,
                0x00800000,
                0x3DCCCCCD,
                0x3F800000,
                0xBF800000,
                0x7F7FFFFF,
                0xFF7FFFFF,
                0x7F800000,
                0xFF800000,
                0x7FC00000,
                0x4B800001,
            ]
            self.small = [0, 0x3DCCCCCD, 0xFF800000]
        else:
            self.i, self.f = struct.Struct("<Q"), struct.Struct("<d")
            self.default = 0x4045500000000000  # 42.625
            self.full = [
                0,
                1 << 63,
                1,
                0x800FFFFFFFFFFFFF,
                0x0010000000000000,
                0x3FB999999999999A,
                0x3FF0000000000000,
                0xBFF0000000000000,
                0x7FEFFFFFFFFFFFFF,
                0xFFEFFFFFFFFFFFFF,
                0x7FF0000000000000,
                0xFFF0000000000000,
                0x7FF8000000000000,
                0x4340000000000001,
                0x3FB99999A0000000,
            ]
            self.small = [0, 0x3FB999999999999A, 0xFFF0000000000000]

    def enc(self, v):
        return self.i.pack(v)

    def js(self, v):
        return self.f.unpack(self.i.pack(v))[0]

    def edits(self, v, a):
        if not a.wants("float"):
            return
        for x in a.pick(f"f{self.bits}", self.full, self.small):
            if x != v:
                yield (), hex(x), x


F32 = Flt(32)
F64 = Flt(64)


def f64bits(x):
    return struct.unpack("<Q", struct.pack("<d", x))[0]


def f32bits(x):
    return struct.unpack("<I", struct.pack("<f", x))[0]


class Flag(T):
    default = 1

    def __init__(self, fmt):
        self.fmt = struct.Struct("<" + fmt)

    def enc(self, v):
        return self.fmt.pack(v)

    def js(self, v):
        return bool(v)

    def edits(self, v, a):
        if a.wants("flag") and 1 - v in a.pick("flag", (0, 1), (0, 1)):
            yield (), str(1 - v), 1 - v


B8 = Flag("B")
B32 = Flag("I")


class Str(T):
    def __init__(self, default="text"):
        self.default = default

    def enc(self, v):
        return text_bytes(v)

    def js(self, v):
        return str(v)

    def edits(self, v, a):
        for s in texts(v, a):
            yield (), ascii(s)[:40], s


STR = Str()


class Guid(T):
    default = G1

    def enc(self, v):
        return v

    def js(self, v):
        return guid_text(v)

    def edits(self, v, a):
        if not a.wants("guid"):
            return
        for g in a.pick("guid", (G0, G2, GF, G1), (G2, G0)):
            if g != v:
                yield (), g.hex(), g


GUID = Guid()


class OptGuid(T):
    default = None

    def enc(self, v):
        return b"\0" if v is None else b"\1" + v

    def js(self, v):
        return None if v is None else guid_text(v)

    def edits(self, v, a):
        if not a.wants("guid"):
            return
        for g in (None,) + tuple(a.pick("guid", (G1, G0, GF), (G2,))):
            if g != v:
                yield (), "None" if g is None else g.hex(), g


OPTGUID = OptGuid()


class Const(T):
    """A JSON value without stored bytes, or stored bytes without freedom."""

    def __init__(self, value, stored=b"", js=None):
        self.default = value
        self.stored = stored

    def enc(self, v):
        return self.stored


def tup_set(v, i, x):
    return v[:i] + (x,) + v[i + 1 :]


class Rec(T):
    """Fields in stored order. A field name None is merged into this record's JSON."""

    def __init__(self, *fields):
        self.fields = fields
        self.default = tuple(t.default for _, t in fields)

    def enc(self, v):
        return b"".join(t.enc(x) for (_, t), x in zip(self.fields, v, strict=True))

    def js(self, v):
        d = {}
        for (n, t), x in zip(self.fields, v, strict=True):
            if n is None:
                d.update(t.js(x))
            else:
                d[n] = t.js(x)
        return d

    def edits(self, v, a):
        for i, ((n, t), x) in enumerate(zip(self.fields, v, strict=True)):
            for pos, lab, y in t.edits(x, a):
                yield (i,) + pos, f"{n}:{lab}", tup_set(v, i, y)

    def with_(self, **kw):
        v = list(self.default)
        names = [n for n, _ in self.fields]
        for k, x in kw.items():
            v[names.index(k)] = x
        return tuple(v)


def list_edits(v, elem_edits, new, a, max_len=3):
    """Edits of a list: each element's, remove each, duplicate/insert, swap neighbours."""
    n = len(v)
    for i, x in enumerate(v):
        for pos, lab, y in elem_edits(x, a):
            yield (i,) + pos, f"[{i}]{lab}", tup_set(v, i, y)
    if a.grow:
        some = v or new
        if some:
            some = tuple(some) + tuple(y for _, (_, _, y) in zip(range(11), elem_edits(some[0], SMALL)))
            yield (n,), f"{a.grow} entries", cycle(some, a.grow)
        return
    if not a.wants("list"):
        return
    for i in range(n):
        yield (n + i,), f"del[{i}]", v[:i] + v[i + 1 :]
    if n < max_len and new is not None:
        for j, x in enumerate(new):
            yield (2 * n + j,), f"append#{j}", v + (x,)
        if n:
            yield (2 * n + 10,), "prepend", (new[0],) + v
    for i in range(n - 1):
        if v[i] != v[i + 1]:
            yield (3 * n + 20 + i,), f"swap[{i}]", v[:i] + (v[i + 1], v[i]) + v[i + 2 :]


class Seq(T):
    def __init__(self, t, default=None, count="I", max_len=3):
        self.t = t
        self.count = struct.Struct("<" + count)
        self.default = (t.default,) if default is None else default
        self.max_len = max_len

    def enc(self, v):
        return self.count.pack(len(v)) + b"".join(self.t.enc(x) for x in v)

    def js(self, v):
        return [self.t.js(x) for x in v]

    def edits(self, v, a):
        new = (self.t.default,)
        if isinstance(self.t, Str):
            new += ("None", "")
        return list_edits(v, self.t.edits, new, a, self.max_len)


class Raw(T):
    """Uninterpreted bytes, shown as a list of numbers; fixed length or free."""

    def __init__(self, n=None, default=None):
        self.n = n
        self.default = default if default is not None else bytes(range(n or 0))

    def enc(self, v):
        return v

    def js(self, v):
        return list(v)

    def edits(self, v, a):
        if isinstance(v, LockBytes):
            return
        if a.grow and self.n is None:
            yield (), f"{a.grow} bytes", cycle(bytes(range(256)), a.grow)
        if a.grow or not a.wants("raw"):
            return
        if self.n is not None:
            alts = [b"\xff" * self.n, b"\0" * self.n, bytes(range(250, 250 + min(self.n, 6))) + bytes(max(0, self.n - 6))]
        else:
            alts = [b"", b"\0", b"\xff\x80", bytes(range(256)), b"None\0"]
        if not a.full:
            alts = alts[:2]
        for b in a.pick("raw", alts, alts) if self.n is None else alts:
            if b != v:
                yield (), b[:8].hex(), b


class LockBytes(bytes):
    pass


class Opt(T):
    """Present or absent at the end of a record; merged into the parent's JSON."""

    def __init__(self, name, t, default=None):
        self.name, self.t, self.default = name, t, default

    def enc(self, v):
        return b"" if v is None else self.t.enc(v)

    def js(self, v):
        return {} if v is None else {self.name: self.t.js(v)}

    def edits(self, v, a):
        if v is None:
            if a.wants("variant"):
                yield (), "present", self.t.default
        else:
            if a.wants("variant"):
                yield (), "absent", None
            for pos, lab, y in self.t.edits(v, a):
                yield (1,) + pos, lab, y


class Choice(T):
    """Tagged alternatives; value = (index, inner). Each alternative stores its own tag."""

    def __init__(self, *alts, default=0, switch=True):
        self.alts = alts
        self.default = (default, alts[default].default)
        self.switch = switch

    def enc(self, v):
        return self.alts[v[0]].enc(v[1])

    def js(self, v):
        return self.alts[v[0]].js(v[1])

    def edits(self, v, a):
        for pos, lab, y in self.alts[v[0]].edits(v[1], a):
            yield (0,) + pos, lab, (v[0], y)
        if self.switch and a.wants("variant"):
            for i, t in enumerate(self.alts):
                if i != v[0]:
                    yield (1,), f"variant{i}", (i, t.default)


VEC = Rec(("x", F64), ("y", F64), ("z", F64))
QUAT = Rec(("x", F64), ("y", F64), ("z", F64), ("w", F64))
COLOR = Rec(("r", F32), ("g", F32), ("b", F32), ("a", F32))
XFORM = Rec(("rotation", QUAT), ("translation", VEC), ("scale3d", VEC))
VEC.default = (f64bits(1.25), f64bits(-2.5), f64bits(0.1))
QUAT.default = (f64bits(0.5), f64bits(-0.25), f64bits(0.125), f64bits(0.75))
COLOR.default = (f32bits(0.5), f32bits(0.25), f32bits(1.0), f32bits(0.0))
XFORM.default = (QUAT.default, VEC.default, (f64bits(1.0), f64bits(2.0), f64bits(3.0)))


class Rotator(T):
    """Three 16-bit angles, each preceded by a flag that is 0 for a zero angle."""

    default = (100, 0, 65535)
    full = [0, 1, 2, 255, 256, 16384, 32767, 32768, 49152, 65534, 65535]
    small = [0, 32768]

    def enc(self, v):
        return b"".join(b"\0" if x == 0 else b"\1" + struct.pack("<H", x) for x in v)

    def js(self, v):
        return dict(zip(("pitch", "yaw", "roll"), (x * 360.0 / 65536.0 for x in v)))

    def edits(self, v, a):
        if not a.wants("num"):
            return
        for i in range(3):
            for x in a.pick("angle", self.full, self.small):
                if x != v[i]:
                    yield (i,), f"{i}:{x}", tup_set(v, i, x)


def signed_bits(x):
    """Bits a two's complement number needs, sign included."""
    return (x if x >= 0 else ~x).bit_length() + 1


class Packed(T):
    """Packed location. Value: ('i', x, y, z) whole numbers, or ('d', bx, by, bz) doubles.

    Well-formed: whole numbers below 2**62 that doubles can hold are packed with the
    minimal common width; everything else is stored as three doubles.
    """

    default = ("i", 1234, -5678, 90)
    ints = (
        [0, 1, -1, 2, -2]
        + [s * ((1 << k) + d) for k in (6, 7, 8, 15, 16, 23, 24, 31, 32, 40, 47, 48, 52) for d in (-1, 0) for s in (1, -1)]
        + [s * (1 << k) for k in (53, 55, 56, 60, 61) for s in (1, -1)]
        + [(1 << 62) - 512, -((1 << 62) - 512)]
    )
    dbls = [f64bits(x) for x in (float(1 << 62), -float(1 << 62), 1e300, -1e300, float("inf"), float("-inf"))]

    def enc(self, v):
        k, x, y, z = v
        if k == "d":
            return struct.pack("<IQQQ", 64, x, y, z)
        bits = max(map(signed_bits, (x, y, z)))
        # numbers so large that scaling could overflow are stored unscaled; with a scale
        # factor of one that only concerns the flag
        scaled = min(abs(x), abs(y), abs(z)) < (1 << 52)
        n = (bits + 7) // 8
        return struct.pack("<I", bits | (64 if scaled else 0)) + b"".join(
            c.to_bytes(n, "little", signed=True) for c in (x, y, z)
        )

    def js(self, v):
        if v[0] == "d":
            return dict(zip("xyz", (F64.js(c) for c in v[1:])))
        return dict(zip("xyz", (float(c) for c in v[1:])))

    def edits(self, v, a):
        if not a.wants("num"):
            if a.wants("float"):
                for i in range(3):
                    for d in (0x7FF8000000000000, f64bits(float("inf")), f64bits(float("-inf"))):
                        yield (5,), f"full {i} {d:x}", ("d",) + tup_set((f64bits(1.0), f64bits(-0.75), f64bits(0.0)), i, d)
            return
        if v[0] == "i":
            for i in (1, 2, 3):
                for x in a.pick("packed", self.ints, (0, -129, 1 << 31)):
                    if x != v[i]:
                        yield (i,), f"{i}:{x}", tup_set(v, i, x)
            big = (f64bits(1e300), f64bits(0.5), f64bits(-3.0))
            yield (4,), "full", ("d",) + big
            if a.full:
                for x in (1 << 52, (1 << 53) + 2, -(1 << 61)):
                    yield (4,), f"all {x}", ("i", x, -x, x)
                for i in range(3):
                    for d in self.dbls:
                        w = [f64bits(1.0), f64bits(-0.75), f64bits(0.0)]
                        w[i] = d
                        yield (5,), f"full {i} {d:x}", ("d",) + tuple(w)
                    for nan in (0x7FF8000000000000,):
                        w = [f64bits(1.0), f64bits(-0.75), f64bits(0.0)]
                        w[i] = nan
                        yield (5,), f"full {i} nan", ("d",) + tuple(w)
                yield (5,), "fraction", ("d", f64bits(0.5), f64bits(1.0), f64bits(2.0))
        else:
            yield (1,), "packed", self.default


ROTATOR = Rotator()
PACKED = Packed()

"""See DESIGN.md, C07."""

import itertools
import json
import math
import struct

from .. import codec, generic as g, impl, literals, records as r, ref, spaces
from ..core import Violation
from ..generic import DOC

ID = "C07"
LEVEL = "model_checking"
BOUND = (
    "all bytes, 16-bit numbers and rotation steps; 32/64-bit integers with at most 3 bits set or cleared; floats and "
    "doubles of every sign and exponent with boundary and single-bit (thorough: two-bit) fractions; packed vectors of "
    "every width 1..62 with boundary values in every component; ids with every value of every byte; primitives directly "
    "and in documents"
)
ASSUMPTIONS = ["NaN is covered by C13; packed vectors are canonical (minimal width)"]


def bits_words(n, k):
    """n-bit words with at most k bits set, or at most k bits clear."""
    full = (1 << n) - 1
    for j in range(k + 1):
        for c in itertools.combinations(range(n), j):
            w = sum(1 << b for b in c)
            yield w
            yield full ^ w


def f32_words(two=False):
    m = [0, 1, 0x7FFFFF, 0x400000, 0x3FFFFF, 0x2AAAAA, 0x555555, 0x4CCCCD] + [1 << i for i in range(23)] + [(1 << i) - 1 for i in range(23)]
    if two:
        m += [(1 << i) | (1 << j) for i in range(23) for j in range(i)]
    for s in (0, 1):
        for e in range(255):
            for x in sorted(set(m)):
                yield s << 31 | e << 23 | x
        yield s << 31 | 255 << 23


def f64_words(two=False):
    full = (1 << 52) - 1
    m = [0, 1, full, 1 << 51, full >> 1, 0x999999999999A, 0x5555555555555, 0xAAAAAAAAAAAAA, 0x5555560000000] 
    n = m + [1 << i for i in range(52)] + [(1 << i) - 1 for i in range(52)]
    for s in (0, 1):
        for e in range(2047):
            for x in sorted(set(n if two or e % 64 < 3 or 1000 < e < 1100 else m)):
                yield s << 63 | e << 52 | x
        yield s << 63 | 2047 << 52


def packed_values(width):
    """Component triples whose minimal common width is `width` (sign bit included)."""
    lo, hi = -(1 << (width - 1)), (1 << (width - 1)) - 1
    if width > 62:
        return
    bound = [x for x in {lo, hi, lo + 1, hi - 1, lo // 2, hi // 2} if float(x) == x and lo <= x <= hi and abs(x) < 1 << 62]
    if width > 53:
        step = 1 << (width - 53)
        bound += [lo + step, hi + 1 - step]
    top = [x for x in bound if ref.signed_bits(x) == width]
    other = sorted(set(bound + [0, -1, 1]) & set(range(lo, hi + 1))) if width < 20 else sorted({*bound, 0, 1, -1, 5, -7})
    other = [x for x in other if lo <= x <= hi and float(x) == x]
    for t in top:
        for a, b in itertools.product(other, repeat=2):
            yield (t, a, b)
            yield (a, t, b)
            yield (a, b, t)


def chunks(it, n):
    it = iter(it)
    while c := list(itertools.islice(it, n)):
        yield c


SIZES = {"byte": "B", "i16": "h", "u16": "H", "i32": "i", "u32": "I", "i64": "q", "u64": "Q"}


def ints(kind, tier):
    n = struct.calcsize(SIZES[kind]) * 8
    if n <= 16:
        return range(1 << n)
    return sorted(set(bits_words(n, 3 if n == 32 or tier == "thorough" else 2)))


def fits(f, v):
    try:
        struct.pack("<" + f, v)
        return True
    except struct.error:
        return False


def f32_of(x):
    return ref.f32bits(x) if abs(x) < 3.4e38 else 0


def units(tier):
    two = tier == "thorough"
    mentioned, fmentioned = literals.ints(), literals.floats()
    for k in SIZES:
        near = [v & ((1 << struct.calcsize(SIZES[k]) * 8) - 1) for v in mentioned if fits(SIZES[k], v)]
        for i, c in enumerate(chunks(itertools.chain(ints(k, tier), near), 20000)):
            yield f"{k} {i}", ("int", k, c)
    yield "floats of the code", ("float", 32, sorted({f32_of(x) for x in fmentioned}))
    yield "doubles of the code", ("float", 64, sorted({ref.f64bits(x) for x in fmentioned}))
    for i, c in enumerate(chunks(f32_words(two), 10000)):
        yield f"float {i}", ("float", 32, c)
    for i, c in enumerate(chunks(f64_words(two), 10000)):
        yield f"double {i}", ("float", 64, c)
    yield "bool", ("bool",)
    for i in range(16):
        yield f"id byte {i}", ("guid", [ref.G1[:i] + bytes([v]) + ref.G1[i + 1 :] for v in range(256)])
        yield f"id byte {i} alone", ("guid", [bytes(i) + bytes([v]) + bytes(15 - i) for v in range(256)])
    yield "vectors", ("vectors",)
    for c in range(3):
        for lo in range(0, 65536, 4096):
            yield f"rotation {c} {lo}", ("rot", [tuple(x if i == c else o for i, o in enumerate(base)) for x in range(lo, lo + 4096) for base in ((0, 0, 0), (1, 65535, 32768))])
    for w in range(1, 63):
        for i, c in enumerate(chunks(packed_values(w), 2000)):
            yield f"packed width {w} {i}", ("packed", [("i",) + x for x in c])
    ds = [ref.f64bits(x) for x in (0.5, -0.5, 1.0, 1e300, 5e-324, float(1 << 62), -float(1 << 62), math.inf, -math.inf, 2.0**1023, 0.0, -123456.75)]
    full = [("d",) + x for x in itertools.product(ds, repeat=3) if not all(whole(b) for b in x)]
    for i, c in enumerate(chunks(full, 500)):
        yield f"packed in full {i}", ("packed", c)
    # every numeric position of every property and record kind
    said, fsaid = literals.ints(two), literals.floats(two)
    alpha = ref.Alpha(
        True,
        "num",
        B=list(range(256)) if two else sorted({0, 1, 2, 3, 15, 16, 127, 128, 129, 254, 255} | {v for v in said if 0 <= v < 256}),
        angle=[1 << i for i in range(16)] + [(1 << i) - 1 for i in range(17)],
        **{f: [unsigned(f, w) for w in sorted(set(bits_words(struct.calcsize(f) * 8, 1)))] + [v for v in said if fits(f, v)] for f in "hHiIqQ"},
    )
    falpha = ref.Alpha(
        True,
        "float",
        f32=[s << 31 | e << 23 | m for s in (0, 1) for e in range(0, 255, 1 if two else 17) for m in (0, 1, 0x7FFFFF, 0x4CCCCD)] + [0x7F800000, 0xFF800000]
        + sorted({f32_of(x) for x in fsaid}),
        f64=[s << 63 | e << 52 | m for s in (0, 1) for e in range(0, 2047, 23 if two else 113) for m in (0, 1, (1 << 52) - 1, 0x999999999999A)]
        + [0x7FF << 52, 0xFFF << 52]
        + sorted({ref.f64bits(x) for x in fsaid}),
    )
    for k, p in g.LEAVES.items():
        for a, n in ((alpha, "integers"), (falpha, "floats")):
            yield f"{n} in {k}", ("edit", (k, spaces.one(k, p), "props", a, 1, 0))
    first = True
    for fam, lab, d in r.record_bases(False):
        for a, n in ((alpha, "integers"), (falpha, "floats")):
            if first or n == "floats":
                yield f"{n} in {fam} {lab}", ("edit", (lab, d, None if first else "props", a, 1, 0))
            else:
                for s in spaces.focus_schemas(d):
                    yield f"{n} in {fam} {lab} {s}", ("edit", (lab, d, s, a, 1, 0))
        first = False


def whole(b):
    x = ref.F64.js(b)
    return math.isfinite(x) and abs(x) < 1 << 62 and x == int(x)


def unsigned(f, w):
    return struct.unpack("<" + f, w.to_bytes(struct.calcsize(f), "little"))[0]


def fail(what, **k):
    raise Violation(what, **k)


def read_all(method, data, n, allow_nan=True):
    with impl.archive.FArchiveReader(data, allow_nan=allow_nan) as rd:
        f = getattr(rd, method)
        out = [f() for _ in range(n)]
        if not rd.eof():
            fail(f"{method} reads fewer bytes than the value has")
    return out


def written(method, args):
    w = impl.archive.FArchiveWriter()
    f = getattr(w, method)
    for a in args:
        f(*a)
    return w.bytes()


def pairwise(cx, method, data, want, n, spread=lambda v: (v,), values=None):
    """Reading `data` n times gives `want`; writing those gives `data`."""
    got = impl.must(f"reading {method}", read_all, method, data, n)
    for i, (a, b) in enumerate(zip(got, want)):
        if impl.jeq(a, b):
            fail(f"{method} reads another value than stored", got=a, stored=b)
    again = json.loads(json.dumps(got))
    back = impl.must(f"writing {method}", written, method, [spread(v) for v in again])
    if back != data:
        fail(f"{method} is not written back as it was stored", **impl.diff_bytes(data, back))
    cx.trace(n)
    cx.transition(2 * n)


def check_doc(cx, d, label):
    b = DOC.enc(d)
    cx.state(b)
    cx.trace()
    cx.transition()
    try:
        t = impl.must("converting to JSON", impl.to_json, b)
        diff = impl.same(json.loads(t), DOC.js(d))
        if diff:
            fail("value differs in the JSON", difference=diff)
        back = impl.must("converting back", impl.from_json, t)
        if back != b:
            fail("value is not written back as it was stored", **impl.diff_bytes(b, back))
    except Violation as v:
        v.detail.update(state=label, save=b.hex()[:20000])
        raise


def run(payload, cx):
    kind = payload[0]
    if kind == "edit":
        for label, _, d in spaces.expand(payload[1]):
            check_doc(cx, d, label)
        return
    if kind == "int":
        _, k, words = payload
        f = SIZES[k]
        vals = [unsigned(f, w) for w in words]
        for w in words:
            cx.state((k, w))
        data = b"".join(w.to_bytes(struct.calcsize(f), "little") for w in words)
        pairwise(cx, k, data, vals, len(vals))
        if k == "byte":
            got = impl.must("reading byte_list", lambda: list(impl.archive.FArchiveReader(data).byte_list(len(data))))
            if got != vals:
                fail("byte_list reads other values than stored")
        make = {
            "i32": lambda v: ("Int", None, v),
            "i64": lambda v: ("Int64", None, v),
            "u64": lambda v: ("Struct", "DateTime", ref.G0, None, v),
        }.get(k)
        if make:
            check_doc(cx, g.doc([(f"p{i}", make(v)) for i, v in enumerate(vals)]), k)
        if k == "byte":
            check_doc(cx, g.doc([("p", ("Bytes", None, bytes(vals)))]), k)
        cx.sample({"kind": k, "words": [hex(w) for w in words[:3]]})
    elif kind == "float":
        _, n, words = payload
        t = ref.F32 if n == 32 else ref.F64
        for w in words:
            cx.state((n, w))
        data = b"".join(t.enc(w) for w in words)
        pairwise(cx, "float" if n == 32 else "double", data, [t.js(w) for w in words], len(words))
        if n == 32:
            props = [(f"p{i}", ("Float", None, w)) for i, w in enumerate(words)]
        else:
            ws = words + [0] * (-len(words) % 3)
            props = [(f"p{i}", ("Struct", "Vector", ref.G0, None, tuple(ws[i : i + 3]))) for i in range(0, len(ws), 3)]
        check_doc(cx, g.doc(props), f"float{n}")
        cx.sample({"kind": f"float{n}", "words": [hex(w) for w in words[:3]]})
    elif kind == "bool":
        pairwise(cx, "bool", b"\0\1", [False, True], 2)
        for v in (0, 1):
            check_doc(cx, g.doc([("p", ("Bool", None, v))]), "bool")
        for o in (None, ref.G1):
            data = ref.OPTGUID.enc(o)
            pairwise(cx, "optional_guid", data, [ref.OPTGUID.js(o)], 1) if o is None else guids(cx, "optional_guid", data, [o], 1)
    elif kind == "guid":
        ids = payload[1]
        for x in ids:
            cx.state(x)
        guids(cx, "guid", b"".join(ids), ids, len(ids))
        check_doc(cx, g.doc([("p", ("Arr", None, "Guid", tuple(ids)))] + [(f"q{i}", ("Int", x, 1)) for i, x in enumerate(ids)]), "ids")
    elif kind == "vectors":
        for p in itertools.permutations((0x3FF0000000000000, 0xBFB999999999999A, 0x0000000000000001, 0x7FEFFFFFFFFFFFFF, 1 << 63)):
            cx.state(p)
            d3 = b"".join(ref.F64.enc(w) for w in p[:3])
            d4 = b"".join(ref.F64.enc(w) for w in p[:4])
            f = [ref.F64.js(w) for w in p]
            pairwise(cx, "vector", d3, [f[:3]], 1, lambda v: v)
            pairwise(cx, "vector_dict", d3, [dict(zip("xyz", f))], 1)
            pairwise(cx, "quat", d4, [f[:4]], 1, lambda v: v)
            pairwise(cx, "quat_dict", d4, [dict(zip("xyzw", f))], 1)
            x = (p[1:5], p[:3], p[2:5])
            pairwise(cx, "ftransform", ref.XFORM.enc(x), [ref.XFORM.js(x)], 1)
    elif kind == "rot":
        for v in payload[1]:
            cx.state(v)
        data = b"".join(ref.ROTATOR.enc(v) for v in payload[1])
        want = [list(ref.ROTATOR.js(v).values()) for v in payload[1]]
        pairwise(cx, "compressed_short_rotator", data, want, len(want), lambda v: v)
        inst = r.SCHEMAS["foliage_instance"]
        check_doc(cx, r.world(r.foliage(None, [with_transform(rot=v) for v in payload[1][:: 16 if not cx.thorough else 1]])), "rotations")
    elif kind == "packed":
        for v in payload[1]:
            cx.state(v)
            data = ref.PACKED.enc(v)
            want = list(ref.PACKED.js(v).values())
            packed(cx, data, want, 1)
        check_doc(cx, r.world(r.foliage(None, [with_transform(loc=v) for v in payload[1][:: 8 if not cx.thorough else 1]])), "packed")


def packed(cx, data, want, scale):
    def rd():
        with impl.archive.FArchiveReader(data) as x:
            v = x.packed_vector(scale)
            return v if x.eof() else fail("packed vector is not read to its end")

    def wr(v):
        w = impl.archive.FArchiveWriter()
        w.packed_vector(scale, *v)
        return w.bytes()

    got = list(impl.must("reading a packed vector", rd))
    if impl.jeq(got, want):
        fail("packed vector reads another value than stored", got=got, stored=want, bytes=data.hex())
    back = impl.must("writing a packed vector", wr, json.loads(json.dumps(got)))
    if back != data:
        fail("packed vector is not written back as it was stored", value=want, **impl.diff_bytes(data, back))
    cx.trace()
    cx.transition(2)


def guids(cx, method, data, ids, n):
    got = impl.must(f"reading {method}", read_all, method, data, n)
    for a, b in zip(got, ids):
        if str(a) != ref.guid_text(b):
            fail("an id reads as another id", got=str(a), stored=b.hex())
    for form in (lambda x: x, str, lambda x: x.UUID()):
        back = impl.must(f"writing {method}", written, method, [(form(x),) for x in got])
        if back != data:
            fail("an id is not written back as it was stored", **impl.diff_bytes(data, back))
    cx.trace(n)
    cx.transition(4 * n)


def with_transform(rot=None, loc=None):
    """A foliage instance with that rotation and location."""
    t = r.SCHEMAS["foliage_instance"]
    v = t.default
    for i, (n, ft) in enumerate(t.fields):
        if n == "world_transform":
            w = v[i]
            for j, (m, _) in enumerate(ft.fields):
                if m == "rotator" and rot is not None:
                    w = ref.tup_set(w, j, rot)
                if m == "location" and loc is not None:
                    w = ref.tup_set(w, j, loc)
            return ref.tup_set(v, i, w)
    raise AssertionError

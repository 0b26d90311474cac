"""See DESIGN.md, C18."""

import copy
import itertools
import json
import pickle
import sys
import uuid

from ..core import Violation

ID = "C18"
LEVEL = "model_checking"
BOUND = (
    "ids: every value of every byte on two backgrounds, every pair of positions over 5 values; all operation sequences up to length 3 "
    "(thorough 4) on fresh ids of 6 kinds; all pairs of ids differing in one bit; conversions of every property kind and record base; "
    "under the performance library, with it disabled, and with it absent"
)
ASSUMPTIONS = ["the text form is the game's: the four little-endian 32-bit words, grouped 8-4-4-4-12 in lower-case hexadecimal"]
TECHNIQUE = "explicit-state exploration of the implementation's operation sequences against a value model"
ENVS = [{}, {"FORCE_STDLIB_ONLY": "1"}, {"VERIF_NO_RECORDCLASS": "1"}]

A = {}


class Absent:
    """Import hook: the performance library is not installed."""

    def find_spec(self, name, path=None, target=None):
        if name.split(".")[0] == "recordclass":
            raise ModuleNotFoundError("No module named 'recordclass'", name="recordclass")


def setup(cx):
    import os

    if "palworld_save_tools.archive" in sys.modules:
        raise RuntimeError("the code under test was imported too early")
    if os.environ.get("VERIF_NO_RECORDCLASS"):
        sys.meta_path.insert(0, Absent())
    from .. import impl, generic, records, spaces

    A.update(impl=impl, a=impl.archive, generic=generic, records=records, spaces=spaces)
    A["backend"] = os.environ.get("FORCE_STDLIB_ONLY") or ("absent" if os.environ.get("VERIF_NO_RECORDCLASS") else "installed")


# ---------------------------------------------------------------- model


def swap(b):
    return b"".join(b[i : i + 4][::-1] for i in range(0, 16, 4))


def text_of(b):
    h = swap(b).hex()
    return "-".join((h[:8], h[8:12], h[12:16], h[16:20], h[20:]))


ZERO = bytes(16)
RAMP = bytes(range(0x10, 0x20))
SPECIAL = [ZERO, RAMP, bytes([0xFF] * 16), bytes([0] * 15 + [1]), bytes([0x0A] * 16), bytes.fromhex("00000000000000800000008000000001")]
EDGE = (0, 1, 0x7F, 0x80, 0xFF)


def with_(bg, *pairs):
    b = bytearray(bg)
    for i, v in pairs:
        b[i] = v
    return bytes(b)


def units(tier):
    for bi, bg in enumerate((ZERO, RAMP)):
        for pos in range(16):
            yield f"byte {pos} on background {bi}", ("values", [with_(bg, (pos, v)) for v in range(256)])
    for i, j in itertools.combinations(range(16), 2):
        yield f"bytes {i},{j}", ("values", [with_(RAMP, (i, v), (j, w)) for v in EDGE for w in EDGE])
    for k, b in enumerate(SPECIAL):
        yield f"neighbours of id {k}", ("pairs", b)
    depth = 4 if tier == "thorough" else 3
    for k, b in enumerate(SPECIAL):
        for first in OPS:
            for second in OPS:
                yield f"calls on id {k}: {first} {second}", ("calls", b, first, second, depth)
    yield "conversions", ("convert", None)
    from .. import generic, records, spaces

    for lab, p in generic.LEAVES.items():
        yield f"conversion {lab}", ("convert", spaces.one(lab, p))
    for fam, lab, d in records.record_bases(True):
        yield f"conversion {fam} {lab}", ("convert", d)


# ---------------------------------------------------------------- operations


def other(b):
    return with_(b, (7, b[7] ^ 1))


def make(b):
    return A["a"].UUID(b)


def expect(name, got, want, b):
    if type(got) is not type(want) or got != want:
        raise Violation(f"{name} is wrong", id=b.hex(), value=repr(got), wanted=repr(want), library=A["backend"])


def wbytes(v):
    w = A["a"].FArchiveWriter()
    w.guid(v)
    return w.bytes()


def ubytes(v):
    w = A["a"].FArchiveWriter()
    A["a"].uuid_writer(w, v)
    return w.bytes()


OPS = {
    "text": lambda u, b: expect("text", str(u), text_of(b), b),
    "format": lambda u, b: expect("formatted text", f"{u}", text_of(b), b),
    "repr": lambda u, b: expect("repr shows the text", text_of(b) in repr(u), True, b),
    "stdlib": lambda u, b: expect("standard library UUID", u.UUID(), uuid.UUID(bytes=swap(b)), b),
    "hash": lambda u, b: expect("hash", hash(u), hash(text_of(b)), b),
    "bytes": lambda u, b: expect("stored bytes", bytes(u.raw_bytes), b, b),
    "json": lambda u, b: expect("JSON", json.dumps(u, cls=A["impl"].CustomEncoder), json.dumps(text_of(b)), b),
    "write": lambda u, b: expect("written bytes", wbytes(u), b, b),
    "eq own text": lambda u, b: expect("== own text", (u == text_of(b), text_of(b) == u, u != text_of(b)), (True, True, False), b),
    "eq other text": lambda u, b: expect("== other text", (u == text_of(other(b)), text_of(other(b)) == u, u != text_of(other(b))), (False, False, True), b),
    "eq same": lambda u, b: expect("== same id", (u == make(b), make(b) == u, u != make(b)), (True, True, False), b),
    "eq other": lambda u, b: expect("== other id", (u == make(other(b)), make(other(b)) == u, u != make(other(b))), (False, False, True), b),
    "eq stdlib": lambda u, b: expect("== standard library UUID", (u == uuid.UUID(bytes=swap(b)), u == uuid.UUID(bytes=swap(other(b)))), (True, False), b),
}


def full(u, b):
    for f in OPS.values():
        f(u, b)


def run(payload, cx):
    kind, arg = payload[:2]
    if kind == "values":
        for b in arg:
            value(b, cx)
            cx.state((A["backend"], b))
        cx.sample({"library": A["backend"], "id": arg[-1].hex(), "text": text_of(arg[-1])})
    elif kind == "pairs":
        pairs(arg, cx)
    elif kind == "calls":
        calls(*payload[1:], cx)
    else:
        conversion(arg, cx)


def value(b, cx):
    a = A["a"]
    t = text_of(b)
    std = uuid.UUID(bytes=swap(b))
    full(make(b), b)
    for form in (t, t.upper(), t.replace("-", ""), "{" + t + "}", "urn:uuid:" + t):
        u = a.UUID.from_str(form)
        expect("bytes from text", bytes(u.raw_bytes), b, b)
        full(u, b)
        expect("bytes written from text", wbytes(form), b, b)
    for v in (std, make(b), a.UUID.from_str(t)):
        expect("bytes written", wbytes(v), b, b)
        expect("bytes written", ubytes(v), b, b)
    expect("bytes written", ubytes(t), b, b)
    r = a.FArchiveReader(b + b + b"\x01" + b + b"\x00" + b + b"!")
    full(r.guid(), b)
    full(a.uuid_reader(r), b)
    full(r.optional_guid(), b)
    expect("absent id", r.optional_guid(), None, b)
    full(r.guid(), b)
    expect("rest", bytes(r.read_to_end()), b"!", b)
    w = a.FArchiveWriter()
    for v in (t, std, make(b)):
        w.optional_guid(v)
    w.optional_guid(None)
    expect("optional ids written", w.bytes(), (b"\x01" + b) * 3 + b"\x00", b)
    pair = a.instance_id_reader(a.FArchiveReader(b + other(b)))
    full(pair["guid"], b)
    full(pair["instance_id"], other(b))
    w = a.FArchiveWriter()
    a.instance_id_writer(w, pair)
    expect("pair written", w.bytes(), b + other(b), b)
    u = make(b)
    for v in (t.upper(), t.title(), t.replace("-", ""), "{" + t + "}", "urn:uuid:" + t, t + " ", t[:-1], std, std.int, std.hex, b, t.encode()):
        e = u == v
        expect("== and != with something else", (v == u, u != v, v != u), (e, not e, not e), b)
        if e and not isinstance(v, uuid.UUID):
            expect("hash of something equal", hash(v), hash(u), b)
    expect("dictionary by text", {u: 1}.get(t), 1, b)
    expect("dictionary by id", {t: 1}.get(u), 1, b)
    expect("set", len({u, make(b), t}), 1, b)
    expect("copies", bytes(copy.deepcopy(u).raw_bytes), b, b)
    full(copy.copy(u), b)
    full(copy.deepcopy(u), b)
    full(pickle.loads(pickle.dumps(u)), b)
    cx.transition(60)
    cx.trace()


def pairs(b, cx):
    """Ids differing in one bit, and in two exchanged bytes, are different ids; text too."""
    near = [with_(b, (i, b[i] ^ (1 << k))) for i in range(16) for k in range(8)]
    for i, j in itertools.combinations(range(16), 2):
        s = with_(b, (i, b[j]), (j, b[i]))
        if s != b:
            near.append(s)
    for n in near:
        for warm in range(4):
            u, v = make(b), make(n)
            if warm & 1:
                full(u, b)
            if warm & 2:
                full(v, n)
            r = (u == v, v == u, u != v, v != u, u == text_of(n), text_of(b) == v, str(u) == str(v), u.UUID() == v.UUID(), len({u, v}), v in {u: 1}, v in [u])
            expect("comparison of different ids", r, (False, False, True, True, False, False, False, False, 2, False, False), b)
            cx.transition(len(r))
        cx.state((A["backend"], "pair", b, n))
        cx.trace()
    for junk in (None, 0, b, "", "None", [], {}):
        expect("comparison with something else", (make(b) == junk, make(b) != junk), (False, True), b)


def calls(b, first, second, depth, cx):
    for rest in itertools.product(OPS, repeat=depth - 2):
        u = make(b)
        for name in (first, second, *rest):
            OPS[name](u, b)
            cx.transition()
        full(u, b)
        cx.state((A["backend"], b, first, second, rest))
        cx.trace()


def conversion(d, cx):
    impl, DOC = A["impl"], A["generic"].DOC
    if d is None:
        if A["backend"] != "installed" and "recordclass" in sys.modules and A["backend"] == "absent":
            raise RuntimeError("the performance library is loaded")
        return
    b, j = DOC.enc(d), DOC.js(d)
    t = impl.must("conversion to JSON", impl.to_json, b)
    diff = impl.same(json.loads(t), j)
    if diff:
        raise Violation("JSON differs from the values stored", difference=diff, library=A["backend"])
    gf = impl.read(b)
    for name, data in (("document in memory", lambda: gf.write(impl.PALWORLD_CUSTOM_PROPERTIES)), ("JSON text", lambda: impl.from_json(t)), ("exported data", lambda: impl.write(impl.read(b).dump()))):
        out = impl.must(f"writing the {name}", data)
        if out != b:
            raise Violation(f"writing the {name} gives other bytes", library=A["backend"], **impl.diff_bytes(b, out))
        cx.transition()
    cx.state((A["backend"], b))
    cx.trace()

"""See DESIGN.md, C10."""

import hashlib
import itertools
import json
import os
import zlib

from .. import generic as g, impl, records as r, ref
from ..core import Violation
from ..generic import DOC

ID = "C10"
LEVEL = "model_checking"
BOUND = (
    "all contents of up to 2 bytes, all lengths up to 1200 and around powers of two up to 2^21 (constant content: 2^26) of constant, periodic and "
    "incompressible content, both kinds, plain and chunk header; containers made with every zlib level, strategy and window; "
    "save classes of the game with every header variation"
)
ASSUMPTIONS = ["save classes: those of the game (world, local world, base info, option, player) and unrelated ones"]

KINDS = (0x31, 0x32)


def noise(n):
    return b"".join(hashlib.sha256(i.to_bytes(4, "big")).digest() for i in range(n // 32 + 1))[:n]


NOISE = []


def noises(n):
    if not NOISE or len(NOISE[0]) < n:
        NOISE[:] = [noise(max(n, 1 << 21 | 7))]
    return NOISE[0][:n]


PATTERNS = {
    "zeros": lambda n: bytes(n),
    "ones": lambda n: b"\xff" * n,
    "text": lambda n: (b"PlZ1" * (n // 4 + 1))[:n],
    "cycle": lambda n: (bytes(range(256)) * (n // 256 + 1))[:n],
    "noise": lambda n: noises(n),
}
CLASSES = {
    "/Script/Pal.PalWorldSaveGame": 0x32,
    "/Script/Pal.PalLocalWorldSaveGame": 0x32,
    "/Script/Pal.PalWorldBaseInfoSaveGame": 0x31,
    "/Script/Pal.PalWorldOptionSaveGame": 0x31,
    "/Script/Pal.PalWorldPlayerSaveGame": 0x31,
    "/Script/Pal.PalUserSaveGame": 0x31,
    "/Script/Engine.SaveGame": 0x31,
    "": 0x31,
    "日本": 0x31,
    "/Script/Pal.": 0x31,
    "/Script/Pal.PalWorld": 0x31,
    "WorldSaveGame": 0x31,
}


def units(tier):
    yield "empty and one byte", ("small", [b""] + [bytes([x]) for x in range(256)])
    for x in range(256):
        yield f"two bytes {x}", ("small", [bytes([x, y]) for y in range(256)])
    lens = list(range(1200 if tier == "quick" else 6000)) + [(1 << k) + d for k in range(11, 22) for d in (-1, 0, 1)]
    for p in PATTERNS:
        for i in range(0, len(lens), 50):
            yield f"{p} {lens[i]}..", ("lengths", p, lens[i : i + 50])
    for p, top in (("zeros", 26), ("cycle", 24), ("noise", 23)):
        for k in range(22, top + (3 if tier == "thorough" else 1)):
            for d in (-1, 0, 1):
                yield f"{p} {(1 << k) + d}", ("lengths", p, [(1 << k) + d])
    for p in PATTERNS:
        for n in (0, 1, 100, 5000, 70000):
            yield f"foreign {p} {n}", ("foreign", p, n)
    yield "classes", ("classes",)
    docs = [("all kinds", r.all_kinds()), ("compact", r.compact_all_kinds())] + list(r.location_bases())
    for lab, d in docs:
        yield f"document {lab}", ("small", [DOC.enc(d)])


def parse(c):
    """(true lengths, kind, content) of a plain container, by the format's definition."""
    if len(c) < 12:
        raise Violation("container has no complete header", header=c.hex())
    un, co = int.from_bytes(c[0:4], "little"), int.from_bytes(c[4:8], "little")
    if c[8:11] != b"PlZ":
        raise Violation("format marker is wrong", header=c[:12].hex())
    body = c[12:]
    kind = c[11]
    if kind == 0x32:
        body = strict(body)
    if co != len(body):
        raise Violation("compressed length in the header is wrong", header=c[:12].hex(), actual=len(body))
    out = strict(body)
    if un != len(out):
        raise Violation("uncompressed length in the header is wrong", header=c[:12].hex(), actual=len(out))
    return out, kind


def strict(b):
    d = zlib.decompressobj()
    try:
        out = d.decompress(b) + d.flush()
    except zlib.error as e:
        raise Violation("body is not what the header says", error=str(e))
    if not d.eof or d.unused_data:
        raise Violation("body has missing or extra bytes")
    return out


def short(b):
    return f"{b[:200].hex()} ({len(b)} bytes)"


def unpack(c, content, kind, what):
    got = impl.must("decompressing " + what, impl.decompress_sav_to_gvas, c)
    if got[0] != content or got[1] != kind:
        raise Violation("decompressing gives other content or another kind", container=short(c), what_container=what, kind=got[1])


def pack(content, kind, level=6, strategy=0, wbits=15, chunk=None):
    def z(b):
        o = zlib.compressobj(level, zlib.DEFLATED, wbits, 8, strategy)
        return o.compress(b) + o.flush()

    inner = z(content)
    body = z(inner) if kind == 0x32 else inner
    h = len(content).to_bytes(4, "little") + len(inner).to_bytes(4, "little") + b"PlZ" + bytes([kind])
    return (chunk or b"") + h + body


CHUNKS = [a + b + b"CNK" + bytes([k]) for a in (b"\0\0\0\0", b"\x10\0\0\0", b"\xff\xff\xff\xff") for b in (b"\0\0\0\0", b"\xff\xff\xff\x7f") for k in (0x30, 0x31, 0x32, 0)]


def check(cx, content):
    for kind in KINDS:
        cx.state((kind, hashlib.sha1(content).digest()))
        cx.trace()
        cx.transition(2)
        c = impl.must("compressing", impl.compress_gvas_to_sav, content, kind)
        try:
            out, k = parse(c)
            if out != content or k != kind:
                raise Violation("container holds other content or another kind", kind=k)
        except Violation as v:
            v.detail.update(content=short(content), asked_kind=kind, container=short(c))
            raise
        unpack(c, content, kind, "own container")
        for chunk in CHUNKS[: 2 if len(content) > 300 else None]:
            unpack(chunk + c, content, kind, "own container after a chunk header")


def run(payload, cx):
    if payload[0] == "small":
        for b in payload[1]:
            check(cx, b)
        cx.sample({"content": payload[1][-1].hex()[:60]})
    elif payload[0] == "lengths":
        for n in payload[2]:
            check(cx, PATTERNS[payload[1]](n))
    elif payload[0] == "foreign":
        b = PATTERNS[payload[1]](payload[2])
        for kind, level, strategy, wbits, chunk in itertools.product(KINDS, range(-1, 10), range(5), range(9, 16), (None, CHUNKS[1])):
            cx.state((payload, kind, level, strategy, wbits, chunk))
            cx.trace()
            cx.transition()
            unpack(pack(b, kind, level, strategy, wbits, chunk), b, kind, f"level {level} strategy {strategy} window {wbits}")
    else:
        for (cls, want), minify in itertools.product(CLASSES.items(), (False, True)):
            for base in (g.doc([("p", g.LEAVES["Int"])]), r.compact_all_kinds(), g.doc([("SaveGameClassName", ("Str", None, "/Script/Pal.PalWorldSaveGame"))])):
                for stored in KINDS:
                    d = (base[0][:-1] + (cls,),) + base[1:]
                    b = DOC.enc(d)
                    cx.state((cls, hashlib.sha1(b).digest(), stored))
                    cx.trace()
                    cx.transition(2)
                    sav, js, back = (os.path.join(cx.scratch, n) for n in ("a.sav", "a.sav.json", "b.sav"))
                    impl.put(sav, pack(b, stored))
                    impl.must("converting to JSON", impl.file_to_json, sav, js, minify=minify)
                    impl.must("converting back", impl.file_from_json, js, back)
                    out, kind = parse(impl.get(back))
                    if out != b:
                        raise Violation("content changed", save_class=cls)
                    if kind != want:
                        raise Violation("wrong compression kind for the class of save", save_class=cls, kind=kind, expected=want)

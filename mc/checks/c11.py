"""See DESIGN.md, C11."""

import hashlib
import itertools
import zlib

from .. import impl, records as r, spaces
from ..core import Violation
from ..generic import DOC, LEAVES
from .c10 import CHUNKS, KINDS, noises, pack, parse

ID = "C11"
LEVEL = "fault_enumeration"
RULE = "one evaluation per damaged container; distinct_nontrivial counts distinct damaged containers"
BOUND = (
    "containers of 9 contents, both kinds, plain and chunk header, three zlib levels: every value of every byte (quick: of "
    "the header and the first and last 60 bytes, 14 values elsewhere), every deletion, duplication, truncation, zeroed tail, "
    "neighbour swap; every pair of header bytes changed over a value alphabet; every combination of boundary header fields; "
    "containers of up to 8 MB damaged in 7 ways near their ends, around powers of two and in regular steps"
)
ASSUMPTIONS = ["damage beyond one place is limited to tails and pairs of header bytes"]
TECHNIQUE = "exhaustive fault enumeration (all single-byte changes and truncations of containers) on the implementation"


def contents():
    yield "empty", b""
    yield "one", b"G"
    yield "zeros", bytes(3000)
    yield "noise", noises(300)
    yield "text", b"GVAS save data " * 40
    yield "magic", b"PlZ1PlZ2CNK0" * 5
    yield "compressed", zlib.compress(b"GVAS" * 100)
    yield "document", DOC.enc(spaces.one("p", LEAVES["Struct"]))
    yield "world", DOC.enc(r.world(r.groups(("EPalGroupType::Neutral", None))))


def containers():
    for (n, b), kind, level, chunk in itertools.product(contents(), KINDS, (0, 6, 9), (None, CHUNKS[5])):
        yield f"{n} {kind:#x} level {level}{' chunk' if chunk else ''}", b, kind, pack(b, kind, level, chunk=chunk), 24 if chunk else 12


def units(tier):
    for lab, b, kind, c, h in containers():
        for lo in range(0, len(c), 64):
            yield f"bytes of {lab} {lo}", ("bytes", b, kind, c, h, lo, min(len(c), lo + 64))
        yield f"tails of {lab}", ("tails", b, kind, c, h)
        yield f"header of {lab}", ("header", b, kind, c, h)
    yield "short files", ("short",)
    for i in range(len(BIG)):
        for kind in KINDS:
            for part in range(8):
                yield f"big {i} {kind:#x} {part}", ("big", i, kind, part)


# contents beyond the sizes data is handled in at a time
BIG = [lambda: noises(200_000), lambda: noises(1_500_000), lambda: bytes(8 << 20), lambda: b"GVAS save data " * 100_000, lambda: zlib.compress(noises(70_000)) * 20]


def big(cx, i, kind, part):
    """A large container damaged near its ends, around round offsets, and in regular steps."""
    b = BIG[i]()
    c = pack(b, kind, 1)
    n = len(c)
    at = {*range(12, 24), *range(n - 40, n)}
    for k in range(5, 25):
        for e in (-1, 0, 1, 11, 12, 13):
            at |= {(1 << k) + e, n - (1 << k) + e}
    at |= {12 + (n - 12) * j // 40 for j in range(40)}
    at = sorted(a for a in at if 12 <= a < n)[part::8]
    for a in at:
        cx.limit(120)
        for x, what in (
            (c[:a], "cut"),
            (c[:a] + bytes(n - a), "zeroed"),
            (c[:a] + bytes([c[a] ^ 1]) + c[a + 1 :], "bit changed"),
            (c[:a] + bytes([c[a] ^ 0xFF]) + c[a + 1 :], "bits changed"),
            (c[:a] + c[a + 1 :], "byte removed"),
            (c[:a] + b"\0" + c[a:], "byte added"),
            # the same with a length that fits
            (c[:4] + (int.from_bytes(c[4:8], "little") - n + a).to_bytes(4, "little", signed=False) + c[8:a] if kind == 0x31 else c[:a], "cut, length fitting"),
        ):
            judge(cx, x, b, f"{what} at {a} of {n}")
    if part == 0:
        for extra in (b"\0", bytes(70_000), c, c[12:]):
            judge(cx, c + extra, b, "followed by something")
            y = bytearray(c + extra)
            if kind == 0x31:
                y[4:8] = (int.from_bytes(c[4:8], "little") + len(extra)).to_bytes(4, "little")
                judge(cx, bytes(y), b, "followed by something, length fitting")
        for un in (len(b) - 1, len(b) + 1, len(b) ^ 0x10000, len(b) & 0xFFFF, 0):
            must_reject(cx, un.to_bytes(4, "little") + c[4:], f"content length {un}", "a wrong header is accepted")


def valid(c):
    """What the container holds if, after the change, it is well-formed in its own right."""
    try:
        return parse(c[12:] if c[8:11] == b"CNK" else c)
    except Violation:
        return None


def must_reject(cx, c, what, why):
    cx.state(c if len(c) < 64 else hashlib.sha1(c).digest())
    cx.trace()
    got, err = impl.attempt(impl.decompress_sav_to_gvas, c)
    if err is None and got != valid(c):
        raise Violation(why, damage=what, container=c.hex()[:6000], returned=bytes(got[0][:100]).hex())
    cx.outcome("rejected" if err else "another valid container")


def judge(cx, c, content, what, kind=None):
    """Rejected, or the original content."""
    if not cx.state(c if len(c) < 64 else hashlib.sha1(c).digest()):
        return
    cx.trace()
    got, err = impl.attempt(impl.decompress_sav_to_gvas, c)
    if err is None:
        if got[0] != content and got != valid(c):
            raise Violation("a damaged container is accepted with other content", damage=what, container=c.hex()[:6000], returned=bytes(got[0][:100]).hex())
        cx.outcome("original content")
    else:
        cx.outcome("rejected")


def run(payload, cx):
    if payload[0] == "short":
        # nothing this short is a save, whatever it holds
        for n in range(0, 24):
            for f in (bytes(n), b"\xff" * n, (b"\0\0\0\0\0\0\0\0PlZ1" * 2)[:n], (b"\0\0\0\0\0\0\0\0PlZ2" * 2)[:n], (b"\0\0\0\0\0\0\0\0CNK0\0\0\0\0\0\0\0\0PlZ1")[:n], b"GVAS" * 6 and (b"GVAS" * 6)[:n]):
                must_reject(cx, f, f"{n} bytes", "a file without content is accepted")
        return
    if payload[0] == "big":
        return big(cx, *payload[1:])
    kind_, b, kind, c, h = payload[:5]
    if kind_ == "bytes":
        lo, hi = payload[5:]
        for i in range(lo, hi):
            full = cx.thorough or i < h + 60 or i >= len(c) - 60
            vals = range(256) if full else {0, 1, 2, 4, 0x7F, 0x80, 0xFF, *(c[i] ^ (1 << k) for k in range(8))}
            for v in vals:
                if v == c[i]:
                    continue
                x = c[:i] + bytes([v]) + c[i + 1 :]
                what = f"byte {i} = {v}"
                if h - 12 <= i < h or h == 24 and 8 <= i < 11:
                    must_reject(cx, x, what, "a wrong header is accepted")
                else:
                    judge(cx, x, b, what)
            judge(cx, c[:i] + c[i + 1 :], b, f"byte {i} removed")
            judge(cx, c[: i + 1] + c[i:], b, f"byte {i} doubled")
            judge(cx, c[:i] + b"\0" + c[i:], b, f"0 before byte {i}")
            if i + 1 < len(c):
                judge(cx, c[:i] + c[i + 1 : i + 2] + c[i : i + 1] + c[i + 2 :], b, f"bytes {i}, {i + 1} swapped")
        cx.sample({"container": c.hex()[:80], "bytes": f"{lo}..{hi - 1}"})
    elif kind_ == "tails":
        for k in range(len(c)):
            judge(cx, c[:k], b, f"cut to {k} bytes")
            judge(cx, c[:k] + bytes(len(c) - k), b, f"zeroed from byte {k}")
        for extra in (b"\0", b"\xff", bytes(16), c, c[h:], b[:50], zlib.compress(b"other")):
            judge(cx, c + extra, b, f"followed by {extra[:20].hex()}")
        judge(cx, bytes(12) + c, b, "after 12 zero bytes")
        if h == 24:
            judge(cx, c[12:], b, "chunk header removed")
        else:
            for ch in CHUNKS:
                judge(cx, ch + c, b, "chunk header added")
    else:
        p = h - 12
        un, co = len(b), int.from_bytes(c[p + 4 : p + 8], "little")
        U = sorted({0, 1, un - 1, un, un + 1, un * 2, un + 256, un ^ 0x80, un + 65536, un + (1 << 24), co, 0x7FFFFFFF, 0xFFFFFFFF} - {-1})
        C = sorted({0, 1, co - 1, co, co + 1, len(c), len(c) - h, len(c) - 12, co + 256, co ^ 0x80, co + 65536, co + (1 << 24), un, 0x7FFFFFFF, 0xFFFFFFFF} - {-1})
        M = [b"PlZ", b"CNK", b"\0\0\0", b"plz", b"PlM", b"PlX", b"ZlP"]
        K = [0x31, 0x32, 0x30, 0x33, 0x00, 0x01, 0x02, 0x13, 0xFF]
        for u, k, m, t in itertools.product(U, C, M, K):
            x = c[:p] + u.to_bytes(4, "little") + k.to_bytes(4, "little") + m + bytes([t]) + c[h:]
            if x == c:
                continue
            what = f"header {u} {k} {m!r} {t:#x}"
            if m == b"CNK":
                judge(cx, x, b, what)
            else:
                must_reject(cx, x, what, "a wrong header is accepted")
        # any two header bytes
        vals = (0, 1, 0x30, 0x31, 0x32, 0xFF)
        for i, j in itertools.combinations(range(p, h), 2):
            for v, w in itertools.product(vals, repeat=2):
                if v != c[i] and w != c[j]:
                    x = bytearray(c)
                    x[i], x[j] = v, w
                    must_reject(cx, bytes(x), f"bytes {i}, {j} = {v}, {w}", "a wrong header is accepted")

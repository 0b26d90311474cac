"""See DESIGN.md, C08."""

from .. import damage, impl, records as r, spaces
from ..core import Violation
from ..generic import DOC, LEAVES, SCHEMAS
from ..ref import FULL, SMALL

ID = "C08"
LEVEL = "fault_enumeration"
RULE = "one evaluation per truncation point; distinct_nontrivial counts distinct truncated contents"
BOUND = (
    "every proper prefix of every base document (every property kind, plain and nested; a world save with all record kinds; "
    "thorough: every record base), and every proper prefix of every distinct record of every kind and variant inside an "
    "otherwise intact save, as well as with one edit (quick: small alphabet, thorough: full); "
    "some 80 (thorough: 300) cuts of documents and records in which one list, text or blob is large (1100; texts and blobs also 70000)"
)

ASSUMPTIONS = ["container lengths around a shortened record are those of the shortened record"]
TECHNIQUE = "exhaustive fault enumeration (all truncation points) on the implementation"


def units(tier):
    for lab, d in damage.bases(True):
        yield f"prefixes of {lab}", ("doc", d)
    big = [("all kinds", r.all_kinds()), ("compact", r.compact_all_kinds())]
    if tier == "thorough":
        big += spaces.real_states()
        big += [(f"{fam} {lab}", d) for u in (False, True) for fam, lab, d in r.record_bases(u)]
    big += list(r.location_bases())
    for lab, d in big:
        n = len(DOC.enc(d))
        for lo in range(0, n, 400):
            yield f"prefixes of {lab} {lo}", ("part", d, lo, min(n, lo + 400))
    for lab, d, p, raw in damage.record_blobs():
        yield f"record {lab}", ("blob", d, p, raw)
        yield f"record {lab}, edited", ("edited blob", d, p, raw)
    for big in (spaces.large_units(tier, False), spaces.large_records(), spaces.large_records(True)):
        for u in big:
            if "bytes" not in u[0].split(" ")[1:] and " of " not in u[0]:
                yield f"cuts of {u[0]} {u[3]}", ("large", u)
    for k, q in LEAVES.items():
        yield f"prefixes of {k}, edited", ("edited doc", spaces.one(k, q))


def surplus(raw):
    yield raw
    for x in (0, 1, 2, 127, 128, 255):
        for n in (1, 2, 3, 4, 5, 8, 16, 17, 20, 32) if x in (0, 255) else (1, 2, 4):
            yield bytes([x]) * n
    for k in range(1, min(len(raw), 64)):
        yield raw[:k]
        yield raw[-k:]
    yield b"\5\0\0\0None\0"


def cuts(n, start, grid):
    """Where to cut something of n bytes: around round sizes, in regular steps, and in the last bytes."""
    ks = {n - i for i in range(1, 25)}
    ks |= {n - (1 << k) + e for k in range(5, 21) for e in (-1, 0, 1)}
    ks |= {start + (1 << k) + e for k in range(5, 21) for e in (-1, 0, 1)}
    ks |= {start + (n - start) * i // grid for i in range(grid)}
    return sorted(k for k in ks if start <= k < n)


def large(cx, unit):
    """Contents with something big in them, cut in many places; records also cut within the save."""
    label, d, focus = unit[:3]
    grid = 256 if cx.thorough else 12
    for lab, _, e in spaces.expand(unit):
        # the long lists would take long; long texts and blobs do not
        if e is d or isinstance(unit[3], int) and unit[3] > 5000 and lab.endswith((" entries", " properties")):
            continue
        cx.limit(120)
        b = DOC.enc(e)
        if not cx.state(b):
            continue
        for k in cuts(len(b), damage.props_start(b), grid) if focus in (None, "props") else ():
            cx.limit(120)
            judge(cx, b[:k], f"{lab} cut to {k} of {len(b)} bytes")
        if focus not in (None, "props"):
            p = spaces.find(e, focus)
            node = spaces.node_at(e, p)
            w = damage.Within(e, p)
            raw = SCHEMAS[focus].enc(node[5])
            for k in cuts(len(raw), 0, grid):
                cx.limit(120)
                judge(cx, w(raw[:k]), f"{lab}: record cut to {k} of {len(raw)} bytes")
            for extra in (b"\0", b"\0" * 4, raw[-20:]):
                judge(cx, w(raw + extra), f"{lab}: record followed by {extra.hex()}")


def judge(cx, b, what):
    cx.state(b)
    cx.trace()
    t, err = impl.attempt(impl.to_json, b)
    if err:
        cx.outcome("rejected")
        return
    back, err = impl.attempt(impl.from_json, t)
    if err:
        cx.outcome("rejected when writing")
        return
    if back != b and not impl.nan_only(b, back):
        raise Violation("truncated data is accepted and written back as something else", cut=what, truncated=b.hex()[-4000:], **impl.diff_bytes(b, back))
    cx.outcome("reproduced")


def run(payload, cx):
    if payload[0] == "blob":
        _, d, p, raw = payload
        w = damage.Within(d, p)
        for k in range(len(raw)):
            judge(cx, w(raw[:k]), f"record cut to {k} of {len(raw)} bytes")
        for extra in surplus(raw):
            judge(cx, w(raw + extra), f"record followed by {extra.hex()}")
        cx.sample({"record": raw.hex()[:100], "cut at": f"0..{len(raw) - 1}"})
        return
    if payload[0] == "edited blob":
        _, d, p, _ = payload
        node = spaces.node_at(d, p)
        w = damage.Within(d, p)
        for _, lab, v in SCHEMAS[node[4]].edits(node[5], FULL if cx.thorough else SMALL):
            raw = SCHEMAS[node[4]].enc(v)
            for k in range(len(raw)):
                x = w(raw[:k])
                if cx.state(x):
                    judge(cx, x, f"record with {lab} cut to {k} of {len(raw)} bytes")
        return
    if payload[0] == "large":
        return large(cx, payload[1])
    if payload[0] == "edited doc":
        for _, lab, e in DOC.prop_edits(payload[1], FULL if cx.thorough else SMALL):
            b = DOC.enc(e)
            for k in range(damage.props_start(b), len(b)):
                if cx.state(b[:k]):
                    judge(cx, b[:k], f"document with {lab} cut to {k} of {len(b)} bytes")
        return
    b = DOC.enc(payload[1])
    lo, hi = (0, len(b)) if payload[0] == "doc" else payload[2:]
    for k in range(lo, hi):
        judge(cx, b[:k], f"content cut to {k} of {len(b)} bytes")

"""See DESIGN.md, C09."""

import json
import resource

from .. import damage, impl, records as r, spaces
from ..core import Stuck, Violation
from ..generic import DOC, SCHEMAS

ID = "C09"
LEVEL = "fault_enumeration"
RULE = "one evaluation per damaged content; distinct_nontrivial counts distinct damaged contents"
BOUND = (
    "at every byte of every property kind's document, of every distinct record of every kind and variant, and of a world save "
    "with all record kinds: substitution by every value of a 16-value alphabet (thorough: all 256), deletion, and insertion "
    "of 0, 1, 255 or a copy; 5 s and 2 GB per case"
)
ASSUMPTIONS = ["NaN payloads do not count as values", "single damaged byte (runs of damage are covered by truncation, C08)"]
TECHNIQUE = "exhaustive fault enumeration (all single-byte changes) on the implementation"


def setup(cx):
    resource.setrlimit(resource.RLIMIT_AS, (2 << 30, 2 << 30))


def subst(b, thorough):
    if thorough:
        return [x for x in range(256) if x != b]
    s = {0, 1, 2, 3, 4, 0x20, 0x40, 0x7F, 0x80, 0xFF, b ^ 1, b ^ 0x80, b ^ 0x20, b ^ 0x40, (b + 1) & 255, (b - 1) & 255}
    s.discard(b)
    return sorted(s)


def variants(raw, lo, hi, thorough):
    for i in range(lo, hi):
        for x in subst(raw[i], thorough):
            yield f"byte {i} = {x}", raw[:i] + bytes([x]) + raw[i + 1 :]
        yield f"byte {i} removed", raw[:i] + raw[i + 1 :]
        for x in {0, 1, 255, raw[i]}:
            yield f"{x} before byte {i}", raw[:i] + bytes([x]) + raw[i:]
    if hi == len(raw):
        for x in (0, 1, 255):
            yield f"{x} at the end", raw + bytes([x])


def parts(n, step):
    for lo in range(0, n, step):
        yield lo, min(n, lo + step)


def units(tier):
    step = 100 if tier == "quick" else 20
    first = True
    for lab, d in damage.bases(tier == "thorough"):
        b = DOC.enc(d)
        for lo, hi in parts(len(b), step):
            if first or hi > damage.props_start(b):
                yield f"{lab} {lo}", ("doc", d, lo, hi)
        first = False
    for lab, d, p, raw in damage.record_blobs():
        for lo, hi in parts(len(raw), step):
            yield f"record {lab} {lo}", ("blob", d, p, raw, lo, hi)
    for lab, d in [("compact", r.compact_all_kinds())] + list(r.location_bases()) + (spaces.real_states() if tier == "thorough" else []):
        for lo, hi in parts(len(DOC.enc(d)), step):
            yield f"{lab} {lo}", ("doc", d, lo, hi)


def judge(cx, b, what):
    if not cx.state(b):
        return
    cx.trace()
    cx.limit(5)
    try:
        t, err = impl.attempt(impl.to_json, b)
        if err:
            cx.outcome("rejected")
            return
        back, err = impl.attempt(impl.from_json, t)
        if err:
            cx.outcome("rejected when writing")
            return
        t2 = impl.must("reading the save produced from the shown JSON", impl.to_json, back)
        diff = None if t == t2 else impl.jeq(json.loads(t), json.loads(t2))
        if diff:
            raise Violation("the JSON shown is not what is written back", difference=diff)
        cx.outcome("stable")
    except Violation as v:
        v.detail.update(damage=what, content=b.hex()[:20000])
        raise
    except Stuck:
        raise Violation("does not terminate in time", damage=what, content=b.hex()[:20000])
    finally:
        cx.limit(0)


def run(payload, cx):
    if payload[0] == "doc":
        _, d, lo, hi = payload
        b = DOC.enc(d)
        for what, x in variants(b, lo, hi, cx.thorough):
            judge(cx, x, what)
    else:
        _, d, p, raw, lo, hi = payload
        w = damage.Within(d, p)
        for what, x in variants(raw, lo, hi, cx.thorough):
            judge(cx, w(x), "record: " + what)
        cx.sample({"record": raw.hex()[:100], "bytes": f"{lo}..{hi - 1}"})

"""See DESIGN.md, C13."""

import json
import math
import os
import re

from .. import cli, generic as g, impl, records as r, ref, spaces
from ..core import Violation
from ..generic import DOC
from .c10 import pack, parse

ID = "C13"
LEVEL = "model_checking"
BOUND = (
    "every floating-point position of every property kind and of every record kind and variant, with every non-finite value "
    "(NaN of both signs and with payload, both infinities) and the extreme finite ones, with and without the option; "
    "every pair of positions in every property kind and one base of each record family (thorough: every base)"
)
ASSUMPTIONS = ["which NaN bit pattern is stored does not count: JSON has one NaN"]

F32 = {"nan": 0x7FC00000, "-nan": 0xFFC00000, "snan": 0x7F800001, "inf": 0x7F800000, "-inf": 0xFF800000, "max": 0x7F7FFFFF, "tiny": 1}
F64 = {
    "nan": 0x7FF8000000000000,
    "-nan": 0xFFF8000000000000,
    "snan": 0x7FF0000000000001,
    "inf": 0x7FF0000000000000,
    "-inf": 0xFFF0000000000000,
    "max": 0x7FEFFFFFFFFFFFFF,
    "tiny": 1,
}
NAMES = {f"{v:x}": k for t in (F32, F64) for k, v in t.items() if k != "tiny"}
NAMES["1"] = "tiny"
TAIL = re.compile(r"(?:0x)?([0-9a-f]+)$")


def alpha(*names):
    return ref.Alpha(True, "float", f32=[F32[n] for n in names], f64=[F64[n] for n in names])


ALL = alpha("nan", "-nan", "snan", "inf", "-inf", "max", "tiny")
PAIR = alpha("nan", "-inf")
NONFINITE = {"nan", "-nan", "snan", "inf", "-inf"}


def positions(d, a):
    """position -> {value name -> document}"""
    out = {}
    for pos, lab, e in DOC.prop_edits(d, a):
        m = TAIL.search(lab)
        out.setdefault((pos, lab[: m.start()]), {})[NAMES[m.group(1)]] = e
    return out


def units(tier):
    fams = set()
    for k, p in g.LEAVES.items():
        yield f"{k}", ("single", spaces.one(k, p))
        yield f"pairs in {k}", ("pairs", spaces.one(k, p))
    for k, p in g.LEAVES.items():
        for w, q in g.wraps(k, p):
            yield f"{k} in {w}", ("single", spaces.one(k, q))
    for u in (False, True):
        for fam, lab, d in r.record_bases(u):
            yield f"{fam} {lab}", ("single", d)
            if tier == "thorough" or fam not in fams:
                fams.add(fam)
                yield f"pairs in {fam} {lab}", ("pairs", d)
    for lab, d in r.location_bases():
        yield lab, ("single", d)
    for lab, d in spaces.real_states():
        yield f"real {lab}", ("single", d)
    for i in range(4):
        yield f"all kinds {i}", ("all", i)


def nulled(x):
    if isinstance(x, float) and not math.isfinite(x):
        return None
    if isinstance(x, dict):
        return {k: nulled(v) for k, v in x.items()}
    if isinstance(x, list):
        return [nulled(v) for v in x]
    return x


def no_constant(s):
    raise Violation("the JSON is not standard JSON", constant=s)


def strict(t):
    return json.loads(t, parse_constant=no_constant)


def check(cx, d, want, kept, label, files=False):
    """d: document; want: with every non-finite value NaN; kept: with every NaN canonical."""
    b = DOC.enc(d)
    cx.state(b)
    cx.trace(2)
    cx.transition(2)
    js = DOC.js(d)
    try:
        if files:
            sav, path, back = (os.path.join(cx.scratch, n) for n in ("a.sav", "a.sav.json", "b.sav"))
            impl.put(sav, pack(b, 0x31))
            st, out, _ = cli.convert([sav, "--force", "--convert-nan-to-null", "-o", path], cx.scratch)
            if st:
                raise Violation("converting with the option failed", output=out[-800:])
            with open(path, encoding="utf8") as f:
                t = f.read()
            st, out, _ = cli.convert([path, "--force", "-o", back], cx.scratch)
            if st:
                raise Violation("converting back failed", output=out[-800:])
            got = parse(impl.get(back))[0]
            cx.count("through_files")
        else:
            t = impl.must("converting with the option", impl.to_json, b, None, False)
            got = impl.must("converting back", impl.from_json, t)
        diff = impl.jeq(strict(t), nulled(js))
        if diff:
            raise Violation("null mode does not replace exactly the non-finite values", difference=diff)
        if got != DOC.enc(want):
            raise Violation("nulls do not become NaN in their place", **impl.diff_bytes(DOC.enc(want), got))
        t = impl.must("converting without the option", impl.to_json, b)
        diff = impl.same(json.loads(t), js)
        if diff:
            raise Violation("non-finite values are not kept without the option", difference=diff)
        got = impl.must("converting back", impl.from_json, t)
        if got != DOC.enc(kept):
            raise Violation("non-finite values are not written back without the option", **impl.diff_bytes(DOC.enc(kept), got))
    except Violation as v:
        v.detail.update(state=label, save=b.hex()[:20000])
        raise
    cx.sample({"state": label, "json": t[-120:]})


def expect(m, name, base):
    """documents to expect at that position: in null mode, and otherwise"""
    return (m["nan"] if name in NONFINITE else m[name]), (m["nan"] if "nan" in name else m[name])


def run(payload, cx):
    kind, d = payload
    n = 0
    if kind == "all":
        d = r.all_kinds()
        for name in ("nan", "inf", "-inf", "snan")[d is None or payload[1] : payload[1] + 1]:
            x = everywhere(d, name)
            check(cx, x, everywhere(d, "nan"), everywhere(d, "nan" if "nan" in name else name), f"{name} everywhere", True)
        return
    if kind == "single":
        check(cx, d, d, d, "base", True)
        for (pos, lab), m in positions(d, ALL).items():
            for name, e in m.items():
                if "nan" not in m:  # alternatives that exist without a NaN
                    continue
                want, kept = expect(m, name, d)
                check(cx, e, want, kept, f"{lab} {name}", n % 8 == 0)
                n += 1
        return
    first = positions(d, PAIR)
    for (p1, l1), m in first.items():
        for n1, e in m.items():
            second = positions(e, PAIR)
            nan2 = positions(m["nan"], PAIR) if n1 != "nan" else second
            for (p2, l2), m2 in second.items():
                if p2 <= p1 or (p2, l2) not in nan2 or "full" in l1 + l2:
                    continue
                for n2, e2 in m2.items():
                    want = nan2[p2, l2]["nan"]
                    kept = m2["nan"] if n2 == "nan" else e2
                    check(cx, e2, want, kept, f"{l1} {n1}, {l2} {n2}")


def everywhere(d, name):
    """The value at every floating-point position at once."""
    a = alpha(name)
    done = set()
    while True:
        for pos, lab, e in DOC.prop_edits(d, a):
            if "full" in lab or pos in done:
                continue
            done.add(pos)
            d = e
            break
        else:
            return d

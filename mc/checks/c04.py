"""See DESIGN.md, C04."""

import itertools

from .. import codec, impl, spaces
from ..core import Violation
from ..generic import DOC

ID = "C04"
LEVEL = "model_checking"
BOUND = "all transitions of C01, C02 and C05 (one edit, two edits), plus every switch between two variants of a record"
ASSUMPTIONS = ["an edit replaces a JSON value by the JSON of another value of the reference model"]


def units(tier):
    for u in itertools.chain(
        spaces.large_units(tier, False), spaces.large_records(), spaces.large_records(True),
        spaces.generic_units(tier), spaces.record_units(tier), spaces.record_units(tier, True)
    ):
        if u[4]:
            yield u[0], u
    fams = {}
    for unknown in (False, True):
        for fam, lab, d in spaces.r.record_bases(unknown):
            fams.setdefault(fam, []).append((lab, d))
    leaves = [(k, spaces.one(k, p)) for k, p in spaces.LEAVES.items()]
    fams["property kind"] = leaves
    for fam, ds in fams.items():
        for lab, d in ds:
            yield f"switch {fam} {lab}", ("switch", lab, d, ds)


def run(unit, cx):
    if unit[0] != "switch":
        return codec.edit(unit, cx)
    import json

    _, lab, d, ds = unit
    t = impl.must("converting to JSON", impl.to_json, DOC.enc(d))
    pj = DOC.js(d)
    for lab2, e in ds:
        if e == d:
            continue
        b = DOC.enc(e)
        cx.state(b)
        cx.transition()
        cx.trace()
        try:
            j = impl.patch(json.loads(t), pj, DOC.js(e))
            back = impl.must("converting the edited JSON", impl.from_json, json.dumps(j))
            if back != b:
                raise Violation("switching the variant gives another save than that variant", **impl.diff_bytes(b, back))
        except Violation as v:
            v.detail.update(edit=f"{lab} -> {lab2}", edited_save=b.hex()[:20000])
            raise

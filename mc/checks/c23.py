"""See DESIGN.md, C23."""

import itertools
import json

from .. import codec, generic as g, impl, records as r, spaces
from ..core import Violation
from ..generic import DOC, LEAVES, SCHEMAS

ID = "C23"
LEVEL = "model_checking"
BOUND = (
    "every group, map object, base-camp and work document with every subset of its records left raw (documents of more than 6 records: "
    "subsets of at most 2 and their complements), and each raw record with other bytes; every edit of the records left decoded and of the old-layout transforms; every "
    "property kind, alone, wrapped and edited, with every subset of up to 6 (else each one and all) absent ids omitted; all three together"
)
ASSUMPTIONS = [
    "the earlier layouts are those the writer's source documents: a transform without 'v2' stores the ten numbers in save order as location, rotation, scale"
]



def affected():
    for u in (False, True):
        for fam, lab, d in r.record_bases(u):
            if fam in ("group", "camp_module", "base_camp", "work", "map_object", "map_object_empty", "connector", "map_module"):
                yield f"{fam} {lab}{' unknown' if u else ''}", d
    for lab, d in r.location_bases():
        yield f"at {lab}", d
    yield "everything", r.all_kinds()
    yield "two groups", r.world(r.groups(("EPalGroupType::Guild", None), ("EPalGroupType::Neutral", None), ("EPalGroupType::Guild", None)))
    yield "two objects", r.world(r.map_objects(r.map_object("Torch"), r.map_object("HatchingPalEgg")))


def rawable(d):
    out = []
    for p in spaces.blobs(d):
        b = spaces.node_at(d, p)
        if b[2] in RAW and not b[3]:
            out.append(p)
    return out


def raw(d, paths):
    for p in paths:
        b = spaces.node_at(d, p)
        d = spaces.replace(d, p, ("Bytes", b[1], SCHEMAS[b[4]].enc(b[5])))
    return d


def subsets(xs, full=6):
    if len(xs) <= full:
        for n in range(len(xs) + 1):
            yield from itertools.combinations(xs, n)
        return
    for n in range(3):
        for c in itertools.combinations(xs, n):
            yield c
            yield tuple(x for x in xs if x not in c)


def old_transforms(j):
    """Give every work transform the layout of earlier releases; True if there was one."""
    found = False
    if isinstance(j, dict):
        t = j.get("transform")
        if isinstance(t, dict) and "v2" in t:
            found = True
            del t["v2"]
            if t["type"] == 1:
                n = [t["rotation"][k] for k in "xyzw"] + [t["translation"][k] for k in "xyz"] + [t["scale3d"][k] for k in "xyz"]
                for k in ("rotation", "translation", "scale3d"):
                    del t[k]
                t["location"] = dict(zip("xyz", n[:3]))
                t["rotation"] = dict(zip("xyzw", n[3:7]))
                t["scale"] = dict(zip("xyz", n[7:]))
        for v in j.values():
            found |= old_transforms(v)
    elif isinstance(j, list):
        for v in j:
            found |= old_transforms(v)
    return found


def properties(j):
    """All properties with an absent id, in document order."""
    if isinstance(j, dict):
        if "type" in j and "id" in j and j["id"] is None:
            yield j
        for v in j.values():
            yield from properties(v)
    elif isinstance(j, list):
        for v in j:
            yield from properties(v)


RAW = (r.K_GROUP, r.K_MAPOBJ, r.K_MOD)


def units(tier):
    for lab, d in affected():
        yield f"raw {lab}", ("raw", d)
        yield f"any bytes {lab}", ("bytes", d)
        for s in spaces.focus_schemas(d):
            if s.startswith(("work ", "raw")) and tier == "quick":
                alpha = "small"
            else:
                alpha = "full" if tier == "thorough" else "small"
            yield f"edits of {s} in {lab}", ("edits", (lab, d, s, alpha, 1, 0))
    seen = set()
    for lab, d in affected():
        for s in spaces.focus_schemas(d):
            if s.startswith("work ") and s not in seen:
                seen.add(s)
                yield f"all edits of {s}", ("edits", (lab, d, s, "full", 1, 0))
    for k, p in LEAVES.items():
        yield f"ids of {k}", ("ids", spaces.one(k, p))
        yield f"ids of edits of {k}", ("idedits", (k, spaces.one(k, p), "props", "full" if tier == "thorough" else "small", 1, 0))
        for w, q in g.wraps(k, p):
            yield f"ids of {k} in {w}", ("ids", spaces.one(k, q))
            if tier == "thorough":
                yield f"ids of edits of {k} in {w}", ("idedits", (k, spaces.one(k, q), "props", "small", 1, 0))
    for fam, lab, d in r.record_bases(False):
        yield f"ids of {fam} {lab}", ("ids", d)


def check(j, d, cx, n=1, **detail):
    b = DOC.enc(d)
    cx.trace()
    cx.transition()
    t = json.dumps(j)
    out = impl.must("converting a document of an earlier layout", impl.from_json, t)
    if out != b:
        raise Violation("a document of an earlier layout gives another save", json=t[:4000], **detail, **impl.diff_bytes(b, out))
    cx.state(t.encode())


def omit(j, which):
    for i, p in enumerate(list(properties(j))):
        if i in which:
            del p["id"]


def layouts(d, cx, raws, **detail):
    """Every combination of the old layouts of one document."""
    for sub in raws:
        x = raw(d, sub)
        for old in (False, True):
            for ids in (False, True):
                j = DOC.js(x)
                if old and not old_transforms(j):
                    continue
                if ids:
                    omit(j, range(10**9))
                check(j, d, cx, raw=len(sub), old_transforms=old, ids_omitted=ids, **detail)


def run(payload, cx):
    kind, d = payload
    if kind == "raw":
        layouts(d, cx, subsets(rawable(d)))
        cx.sample({"records": len(rawable(d)), "json": json.dumps(DOC.js(raw(d, rawable(d))))[-200:]})
    elif kind == "bytes":
        # whatever the raw bytes are
        for p in rawable(d):
            e = SCHEMAS[spaces.node_at(d, p)[4]].enc(spaces.node_at(d, p)[5])
            for v in (b"", e[:-1], e[1:], e + b"\0", *r.UNKNOWN_BYTES):
                x = spaces.replace(d, p, ("Bytes", spaces.node_at(d, p)[1], v))
                check(DOC.js(x), x, cx, raw=v.hex()[:80])
                rest = [q for q in rawable(d) if q != p]
                if rest:
                    y = raw(x, rest)
                    check(DOC.js(y), x, cx, raw=v.hex()[:80], others_raw=True)
    elif kind == "edits":
        for lab, _, e in spaces.expand(d):
            rs = rawable(e)
            layouts(e, cx, {(), tuple(rs), *((p,) for p in rs[:3])}, edit=lab)
    elif kind == "idedits":
        for lab, _, e in spaces.expand(d):
            j = DOC.js(e)
            omit(j, range(10**9))
            check(j, e, cx, edit=lab)
    else:
        n = sum(1 for _ in properties(DOC.js(d)))
        sets = subsets(range(n)) if n <= 6 else [(i,) for i in range(n)] + [tuple(range(n))] + [tuple(x for x in range(n) if x != i) for i in range(n)]
        for w in sets:
            j = DOC.js(d)
            omit(j, set(w))
            check(j, d, cx, ids_omitted=list(w))

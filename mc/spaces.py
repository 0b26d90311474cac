"""The state spaces the checks explore: base documents and everything within k edits.

A unit is (label, base, focus, alphabet, depth, part): the base document, the record
schema the edits are confined to (None: the whole document), and which of the base's
first edits this unit continues from (depth 2 only).
"""

import base64
import itertools
import json
import os
import zlib

from . import generic as g
from . import lift
from . import literals
from . import records as r
from .generic import DOC, LEAVES, SCHEMAS
from .ref import FULL, SMALL, Alpha, Lock, growing, tup_set
from .ref import G0 as ref_g0
from .ref import cycle as ref_cycle

ALPHAS = {"full": FULL, "small": SMALL}


def find(node, schema, path=()):
    """Index path of the first record blob of that schema in a document tree."""
    if isinstance(node, tuple):
        if len(node) == 6 and node[0] == "Blob" and node[4] == schema:
            return path
        for i, x in enumerate(node):
            p = find(x, schema, path + (i,))
            if p is not None:
                return p
    return None


def blobs(node, path=()):
    """Index paths of all record blobs."""
    if isinstance(node, tuple):
        if len(node) == 6 and node[0] == "Blob":
            yield path
            return
        for i, x in enumerate(node):
            yield from blobs(x, path + (i,))


def node_at(node, path):
    for i in path:
        node = node[i]
    return node


def replace(node, path, new):
    if not path:
        return new
    return tup_set(node, path[0], replace(node[path[0]], path[1:], new))


def edits(d, focus, alpha):
    a = growing(alpha) if isinstance(alpha, int) else ALPHAS[alpha] if isinstance(alpha, str) else alpha
    if focus is None:
        yield from DOC.edits(d, a)
    elif focus == "props":
        yield from DOC.prop_edits(d, a)
    else:
        p = find(d, focus)
        b = node_at(d, p)
        for pos, lab, v in SCHEMAS[focus].edits(b[5], a):
            yield pos, lab, replace(d, p, tup_set(b, 5, v))


def expand(unit):
    """The base document and all its (parent, child) transitions in this unit."""
    label, d, focus, alpha, depth, part = unit
    if depth < 2:
        yield label, None, d
    if depth == 1:
        for _, lab, e in edits(d, focus, alpha):
            yield f"{label} / {lab}", d, e
    elif depth == 2:
        pos1, lab1, d1 = next(itertools.islice(edits(d, focus, alpha), part, None))
        for pos2, lab2, d2 in edits(d1, focus, alpha):
            if pos2 > pos1:
                yield f"{label} / {lab1} / {lab2}", d1, d2


def pairs(label, d, focus, alpha):
    n = sum(1 for _ in edits(d, focus, alpha))
    for i in range(n):
        yield (label, d, focus, alpha, 2, i)


_num = dict(
    least=dict(B=(0,), H=(0,), I=(0,), i=(-(1 << 31),), q=(-(1 << 63),), Q=(0,), f32=(0xFF800000,), f64=(0xFFF0000000000000,)),
    most=dict(B=(255,), H=(65535,), I=((1 << 32) - 1,), i=((1 << 31) - 1,), q=((1 << 63) - 1,), Q=((1 << 64) - 1,), f32=(0x7F800000,), f64=(0x7FF0000000000000,)),
    zero=dict(B=(0,), H=(0,), I=(0,), i=(0,), q=(0,), Q=(0,), f32=(0,), f64=(0,)),
    minus=dict(B=(1,), H=(1,), I=(1,), i=(-1,), q=(-1,), Q=(1,), f32=(0x80000000,), f64=(1 << 63,)),
    nan=dict(B=(2,), H=(2,), I=(2,), i=(2,), q=(2,), Q=(2,), f32=(0x7FC00000,), f64=(0x7FF8000000000000,)),
)
_other = dict(
    zero=dict(flag=(0,), text=("",), ident=("x",), guid=(bytes(16),), raw=(b"",), angle=(0,), packed=(0,)),
    most=dict(flag=(1,), text=("\U0001f600",), ident=("日本",), guid=(b"\xff" * 16,), raw=(b"\xff",), angle=(65535,), packed=((1 << 53) - 1,)),
    least=dict(flag=(0,), text=("\ud800",), ident=("é",), guid=(bytes(range(1, 17)),), raw=(b"\0",), angle=(32768,), packed=(-(1 << 52),)),
    minus=dict(flag=(1,), text=("a\x00b",), ident=("a b",), guid=(bytes(15) + b"\1",), raw=(b"None\0",), angle=(1,), packed=(-1,)),
    nan=dict(flag=(1,), text=("None",), ident=("None",), guid=(b"\1" + bytes(15),), raw=(b"\5\0\0\0None\0",), angle=(2,), packed=(2,)),
)
PROFILES = {k: Alpha(False, "num float flag text guid raw", **_num[k], **_other[k]) for k in _num}


def uniform(edits, v, alpha):
    """v with every value replaced by the one its kind has in that profile."""
    done = set()
    while True:
        for pos, _, w in edits(v, alpha):
            if pos not in done:
                done.add(pos)
                v = w
                break
        else:
            return v


def hollow(edits, v):
    """v without the list entries and optional parts it can do without."""
    a = Alpha(False, "list variant")
    while True:
        for _, lab, w in edits(v, a):
            if "del[" in lab or lab.endswith("absent"):
                v = w
                break
        else:
            return v


def uniforms(edits, v):
    bases = [("", v)]
    h = hollow(edits, v)
    if h != v:
        bases.append(("hollow ", h))
    for lab, b in bases:
        yield lab, b
        for k, a in PROFILES.items():
            yield lab + "all " + k, uniform(edits, b, a)


def variants(edits, v, depth=2):
    """v and everything reached by switching between alternatives and optional parts."""
    a = Alpha(True, "variant")
    seen, level = {v: ""}, [(v, "")]
    for _ in range(depth):
        nxt = []
        for x, lab in level:
            for _, l, w in edits(x, a):
                if w not in seen:
                    seen[w] = f"{lab} {l}"
                    nxt.append((w, f"{lab} {l}"))
        level = nxt
    return [(lab, x) for x, lab in seen.items()]


def profile_units(label, d, focus):
    """Documents with all values of a record at once at an edge, for all its variants."""
    p = find(d, focus)
    b = node_at(d, p)
    sch = SCHEMAS[focus]
    for lab, v in variants(sch.edits, b[5]):
        e = replace(d, p, tup_set(b, 5, v))
        if lab:
            yield (f"{label}{lab}", e, focus, "full", 1, 0)
        for lab2, w in uniforms(sch.edits, v):
            if w != v:
                yield (f"{label}{lab} {lab2}", replace(d, p, tup_set(b, 5, w)), focus, "small", 1, 0)


def one(name, p):
    return g.doc([("p", p)])


def generic_units(tier):
    """Documents of ordinary properties."""
    first = True
    for k, p in LEAVES.items():
        yield (k, one(k, p), None if first else "props", "full", 1, 0)
        first = False
    yield ("no properties", g.doc([]), None, "full", 1, 0)
    for k, p in LEAVES.items():
        for w, q in g.wraps(k, p):
            yield (f"{k} in {w}", one(k, q), "props", "full" if tier == "thorough" else "small", 1, 0)
            for w2, q2 in g.wraps("in", q):
                yield (f"{k} in {w} in {w2}", one(k, q2), None, "small", 0, 0)
    for a, p in LEAVES.items():
        for b, q in LEAVES.items():
            yield (f"{a}, {b}", g.doc([("p", p), ("q", q)]), None, "small", 0, 0)
    for lab, d in r.location_bases():
        yield (f"at {lab}", d, "props", "full" if tier == "thorough" else "small", 1, 0)
    # deeper nesting than any wrap above
    for w in range(5):
        d = LEAVES["Struct"]
        for lev in range(40):
            d = [q for _, q in g.wraps(f"l{lev}", d)][w]
        yield (f"40 levels of wrap {w}", one("deep", d), None, "small", 0, 0)
    for n in (100, 255, 256, 257, 1000):
        yield (f"{n} properties", g.doc([(f"p{i}", ("Int", None, i)) for i in range(n)]), None, "small", 0, 0)
        for k in ("ArrName", "ArrEnum", "ArrGuid", "ArrByte", "ArrStruct", "ArrVector", "MapNameStruct", "MapStructStruct", "MapIntBool"):
            p = LEAVES[k]
            i = max(i for i, x in enumerate(p) if isinstance(x, (tuple, bytes)))
            yield (f"{n} x {k}", one(k, tup_set(p, i, (p[i] * n)[:n])), None, "small", 0, 0)
    # all values at an edge at once
    for k, p in list(LEAVES.items()) + [("everything", None)]:
        d = one(k, p) if p else g.doc(list(LEAVES.items()))
        for lab, e in uniforms(DOC.prop_edits, d):
            if e != d:
                yield (f"{k} {lab}", e, "props" if p else None, "small", 1 if p else 0, 0)
    yield from real_units(tier, False)
    for t in literals.texts():
        yield from named(t, tier)
    # any two edits at once
    for k, p in LEAVES.items():
        yield from pairs(k, one(k, p), "props", "full" if tier == "thorough" else "small")
    if tier == "thorough":
        for k, p in LEAVES.items():
            for w, q in g.wraps(k, p):
                yield from pairs(f"{k} in {w}", one(k, q), "props", "small")
        for lab, d in r.location_bases():
            yield from pairs(f"at {lab}", d, "props", "small")


# sizes just above the limits code likes to have
LARGE = (1100, 70000)
MAIN = ("Str", "Struct", "ArrName", "ArrGuid", "ArrByte", "ArrStruct", "MapNameStruct")
# and those on either side of such limits
EXACT = sorted({(1 << k) + e for k in (6, 7, 8, 9, 10, 12) for e in (-1, 0, 1)} | {10**k + e for k in (2, 3) for e in (-1, 0, 1)})


def large_units(tier, exact=True):
    """Every list, text and blob of every base document at a large size."""
    for k, p in LEAVES.items():
        sizes = [1100]
        if k in MAIN or tier == "thorough":
            sizes += [70000] + (EXACT + [65535, 65536, 65537] if exact else [])
        for n in sizes:
            yield (f"large {k}", one(k, p), None if k == "Str" else "props", n, 1, 0)
    for n in ((1 << 20) + 1, (1 << 23) + 1) + (((1 << 26) + 1,) if tier == "thorough" else ()):
        b = ref_cycle(bytes(range(251)), n)
        yield (f"{n} bytes", one("p", ("Bytes", None, b)), None, "small", 0, 0)
        t = ref_cycle("0123456789abc", n)
        yield (f"text of {n}", one("p", ("Str", None, t)), None, "small", 0, 0)
        yield (f"wide text of {n}", one("p", ("Str", None, t + "日")), None, "small", 0, 0)
        yield (f"trailer of {n}", g.doc([], b), None, "small", 0, 0)


def large_records(unknown=False):
    """Every list, text and blob of every record at a large size, and many records."""
    seen = set()
    for fam, lab, d in r.record_bases(unknown):
        for s in focus_schemas(d):
            # the same things can grow: the same record, or one differing in values only
            key = (s, tuple(l for _, l, _ in edits(d, s, 1)))
            if key[1] and key not in seen:
                seen.add(key)
                for n in LARGE:
                    yield (f"large {fam} {lab} {s}", d, s, n, 1, 0)
        if fam not in seen:
            seen.add(fam)
            yield (f"many {fam} {lab}", d, "props", Outer(1100), 1, 0)


class Outer(Alpha):
    """Growth outside the records only."""

    def __init__(self, n):
        super().__init__(False, "outer", n)


def named(t, tier):
    """Properties and types called t, a word the code mentions."""
    if t == "None":
        return
    low = (t, ("Int", None, 1))
    st = t if t not in g.SPECIAL else "PalThing"
    d = g.doc(
        [
            (t, ("Struct", st, ref_g0, None, (low, ("#z", ("Str", None, t))))),
            ("#e", ("Enum", None, t, t)),
            ("#a", ("ArrStruct", None, t, t, st, ref_g0, ((low,), ()))),
            ("#m", ("Map", None, "NameProperty", "StructProperty", None, "StructProperty", ((t, (low,)),))),
            ("#n", ("Map", None, "EnumProperty", "NameProperty", None, None, ((t, t),))),
        ]
    )
    yield (f"named {t!r}", d, None, "small", 0, 0)
    near = tuple(dict.fromkeys(literals.text_variants(t)))
    d = g.doc(
        [(f"#{k}", ("Arr", None, k, near)) for k in ("EnumProperty", "NameProperty")]
        + [(f"{k}{i}", (k, None, v)) for k in ("Str", "Name") for i, v in enumerate(near)]
        + [(f"e{i}", ("Enum", None, v, w)) for i, (v, w) in enumerate(zip(near, near[::-1]))]
        + [("m", ("Map", None, "EnumProperty", "NameProperty", None, None, tuple((v, v) for v in near)))]
    )
    yield (f"texts like {t!r}", d, None, "small", 0, 0)
    yield (f"character with {t!r}", r.world(r.characters(((low,), b"\0\1\2\3", bytes(range(16))))), None, "small", 0, 0)
    for k, p in LEAVES.items():
        yield (f"{k} named {t!r}", g.doc([(t, p)]), None, "small", 0, 0)
    for k in ("Str", "Struct", "ArrStruct", "ArrByte"):
        yield (f"{k} named {t!r} in a struct", one("p", ("Struct", "PalThing", ref_g0, None, ((t, LEAVES[k]),))), None, "small", 0, 0)


def real_units(tier, world):
    """The shapes of data found in real saves, with every edit."""
    for lab, d in real_states():
        if world == any(isinstance(n, Lock) for n, _ in d[1]):
            yield (f"real {lab}", d, "props", "full" if tier == "thorough" or len(DOC.enc(d)) < 4000 else "small", 1, 0)


REAL = []


def real_states():
    if not REAL:
        with open(os.path.join(os.path.dirname(__file__), "real.json")) as f:
            for x in json.load(f):
                REAL.append((x["label"], lift.document(zlib.decompress(base64.b64decode(x["save"])))))
    return REAL


FOCUS = {
    "character": "character",
    "item_container": "item_container",
    "item_slot": "item_slot",
    "character_slot": "character_slot",
    "dynamic_item": "dynamic_item",
    "connector": "connector",
}


def focus_schemas(d):
    """The schemas of the records in a document (distinct, in order)."""
    out = []
    for p in blobs(d):
        s = node_at(d, p)[4]
        if s not in out:
            out.append(s)
    return out


def record_units(tier, unknown=False):
    """Documents of Palworld records."""
    families = {}
    bases = list(r.record_bases(unknown))
    for fam, lab, d in bases:
        families.setdefault(fam, []).append((lab, d))
    seen = set()
    later = []
    for fam, lab, d in bases:
        new = [s for s in focus_schemas(d) if s not in seen]
        if lab == families[fam][0][0]:
            yield (f"{fam} {lab}", d, "props", "full", 1, 0)
            seen.update(focus_schemas(d))
        else:
            yield (f"{fam} {lab}", d, None, "small", 0, 0)
            # a variant of a record tells itself apart by its value, not its schema
            todo = [s for s in focus_schemas(d) if s not in seen or s in ("item_container", "item_slot", "character_slot", "dynamic_item", "connector") or s.startswith(("work ", "raw"))]
            for s in todo:
                yield (f"{fam} {lab} {s}", d, s, "full", 1, 0)
                seen.add(s)
        later.append((fam, lab, d, new))
    done = set()
    for fam, lab, d in bases:
        for i, (c, e) in enumerate(r.nested(d)):
            yield (f"{fam} {lab} inside {c}", e, None, "small", 0, 0)
            if fam not in done and i == 0:
                yield (f"{fam} {lab} inside {c}", e, "props", "small", 1, 0)
        done.add(fam)
    if unknown:
        yield ("unknown next to known", r.all_kinds(), "props", "small", 1, 0)
        yield from neighbours()
    else:
        yield ("everything", r.all_kinds(), "props", "small", 1, 0)
        names = list(r.table_bases())
        for i in range(0, len(names), 4):
            for n, d in names[i : i + 4]:
                yield (f"name {n}", d, None, "small", 0, 0)
        yield from multiples()
        yield from real_units(tier, True)
    done = set()
    for fam, lab, d, new in later:
        for s in new:
            if s not in done:
                done.add(s)
                yield from profile_units(f"{fam} {lab} {s}", d, s)
                yield from pairs(f"{fam} {lab} {s}", d, s, "full" if tier == "thorough" else "small")


def multiples():
    """Several records of different variants side by side, in every order of two."""
    gt = list(r.GROUPS)
    for a in gt:
        for b in gt:
            yield (f"groups {a},{b}", r.world(r.groups((a, None), (b, None))), None, "small", 0, 0)
    dyn = SCHEMAS["dynamic_item"].alts
    for i in (0, 1, 2, 4):
        for j in (0, 1, 2, 4):
            yield (f"items {i},{j}", r.world(r.dynamic_items((i, dyn[i].default), (j, dyn[j].default))), None, "small", 0, 0)
    mods = list(r.CAMP_MODULES)
    for a in mods:
        for b in mods:
            yield (
                f"modules {a},{b}",
                r.world(r.base_camps([(a, "module " + a, None), (b, "module " + b, None)])),
                None,
                "small",
                0,
                0,
            )
    wk = list(r.WORKS)
    for a in wk:
        for b in wk:
            yield (f"works {a},{b}", r.world(r.works((a, "work " + a, None, (None,)), (b, "work " + b, None, ()))), None, "small", 0, 0)
    names = {}
    for n, c in r.MAP_OBJECTS.items():
        names.setdefault(c, n)
    names = list(names.values())
    for a in names:
        for b in names:
            yield (f"objects {a},{b}", r.world(r.map_objects(r.map_object(a), r.map_object(b))), None, "small", 0, 0)
    mm = list(r.MAP_MODULES) + r.EMPTY_MAP_MODULES
    s = lambda t: (t, "mapmodule " + t, None) if t in r.MAP_MODULES else (t, "nothing", b"")
    for a in mm:
        for b in mm:
            yield (f"map modules {a},{b}", r.world(r.map_objects(r.map_object("Torch", modules=[s(a), s(b)]))), None, "small", 0, 0)
    yield ("three characters", r.world(r.characters(None, None, None)), "props", "small", 1, 0)
    yield ("empty lists", r.world(r.groups(), r.works(), r.map_objects()), "props", "small", 1, 0)


def neighbours():
    """Unknown data before and after recognised data of the same kind."""
    u = ("EPalWorkableType::BrandNew", "raw", None, ())
    k = (r.WT + "Repair", "work " + r.WT + "Repair", None, (None,))
    yield ("works u,k", r.world(r.works(u, k)), None, "small", 0, 0)
    yield ("works k,u,k", r.world(r.works(k, u, k)), None, "small", 0, 0)
    mu, mk = (r.M + "BrandNew", "raw", None), (r.M + "PassiveEffect", "module " + r.M + "PassiveEffect", None)
    mr = (r.M + "PassiveEffect", "raw passive", None)
    for a in itertools.product((mu, mk, mr), repeat=3):
        yield ("modules " + ",".join(x[1] for x in a), r.world(r.base_camps(a)), None, "small", 0, 0)
    un, kn = "NoSuchThing", "Torch"
    for a in itertools.product((un, kn, "DamagableRock_PV"), repeat=3):
        yield ("objects " + ",".join(a), r.world(r.map_objects(*[r.map_object(n) for n in a])), None, "small", 0, 0)
    alts = SCHEMAS["dynamic_item"].alts
    for a in itertools.product((0, 1, 2, 3), repeat=2):
        yield (f"items {a}", r.world(r.dynamic_items(*[(i, alts[i].default) for i in a])), None, "small", 0, 0)

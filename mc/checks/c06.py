"""See DESIGN.md, C06."""

import itertools
import json

from .. import codec, generic as g, impl, literals, records as r, ref, spaces
from ..core import Violation
from ..generic import DOC

ID = "C06"
LEVEL = "model_checking"
BOUND = (
    "every Unicode code point (and every lone surrogate) as a text; every text of up to 3 (thorough: 4) units of a boundary "
    "alphabet; every length up to 1100 and around powers of two up to 2^17, ASCII and not; at every text "
    "position of every base document a boundary alphabet of texts; every text the source of the tool mentions, and "
    "variants of it, in every kind of carrier and every text field of every record; every code point up to U+2FFFF (and the last and tag ones) as a name of a property, struct, "
    "enum or map entry, alone and between other characters; all code points up to U+1FFFF in every text field of every record"
)
ASSUMPTIONS = ["names of properties and types are well-formed Unicode; values may be any text"]

UNITS = [0x61, 0x00, 0x7F, 0x80, 0xE9, 0x3042, 0xD83D, 0xDE00, 0xFFFF, 0x0A, 0x22]


def image(units):
    return b"".join(u.to_bytes(2, "little") for u in units).decode("utf-16-le", "surrogatepass")


def words(n):
    for k in range(n + 1):
        for w in itertools.product(UNITS, repeat=k):
            yield image(w)


POSITION_TEXTS = ref.TEXTS_FULL + [image(w) for w in itertools.product((0x61, 0x00, 0xE9, 0xD83D, 0xDE00), repeat=2)]
TEXT_ALPHA = ref.Alpha(True, "text", text=POSITION_TEXTS)


def chunks(it, n):
    it = iter(it)
    while c := tuple(itertools.islice(it, n)):
        yield c


def once():
    """(label, document, focus) covering the records of all kinds, each once, and the properties."""
    seen = set()
    for u in (False, True):
        for fam, lab, d in r.record_bases(u):
            for s in spaces.focus_schemas(d):
                if s not in seen:
                    seen.add(s)
                    yield f"{fam} {lab}", d, s
    for k, p in g.LEAVES.items():
        yield k, spaces.one(k, p), None if k == "Str" else "props"


def carriers(ts):
    """Documents holding the texts ts, once per kind of carrier."""
    yield g.doc([("p", ("Arr", None, "NameProperty", ts))])
    yield g.doc([("p", ("Arr", None, "EnumProperty", ts))])
    yield g.doc([(f"p{i}", ("Str", None, t)) for i, t in enumerate(ts)])
    yield g.doc([(f"p{i}", ("Name", None, t)) for i, t in enumerate(ts)])
    yield g.doc([(f"p{i}", ("Enum", None, t, t)) for i, t in enumerate(ts)])
    yield g.doc([("p", ("Map", None, "NameProperty", "EnumProperty", None, None, tuple((t, t) for t in ts)))])
    yield g.doc([("p", ("Map", None, "EnumProperty", "NameProperty", None, None, tuple((t, t) for t in ts)))])
    # text inside decoded records
    v = (0, ((), (), ())) if False else (0, (((), (), ts),))
    yield r.world(r.item_containers(v, ()))


def names(ts):
    """Documents with the texts as names of properties, structs and enums, and in records."""
    x = ("Int", None, 1)
    yield g.doc([(t, x) for t in ts])
    yield spaces.one("s", ("Struct", "PalThing", ref.G0, None, tuple((t, ("Name", None, t)) for t in ts)))
    yield spaces.one("s", ("ArrStruct", None, "Elem", "StructProperty", "PalElem", ref.G0, tuple(((t, x),) for t in ts)))
    yield g.doc([(f"p{i}", ("Enum", None, t, t)) for i, t in enumerate(ts)])
    yield g.doc([(f"p{i}", ("Struct", t, ref.G0, None, ())) for i, t in enumerate(ts)])
    yield g.doc([(f"p{i}", ("ArrStruct", None, t, "StructProperty", t, ref.G0, ())) for i, t in enumerate(ts)])
    yield spaces.one("m", ("Map", None, "NameProperty", "StructProperty", None, "StructProperty", tuple((t, ((t, x),)) for t in ts)))
    yield r.world(r.characters((tuple((t, x) for t in ts), b"\0\1\2\3", bytes(range(16)))))


# names are well-formed Unicode, and a property called None ends the list
NAMEABLE = [*range(0xD800), *range(0xE000, 0x30000), *range(0xE0000, 0xE0200), *range(0x10FF00, 0x110000)]


def units(tier):
    for i, cs in enumerate(chunks(NAMEABLE, 2048)):
        yield f"names of code points {cs[0]:x}..", ("names", [chr(c) for c in cs], False)
        yield f"names with code points {cs[0]:x}..", ("names", ["a" + chr(c) + "\u0301b" for c in cs], True)
    # every text field of every record, with texts that go through all of Unicode
    runs = tuple("".join(chr(c) for c in cs) for cs in chunks(range(0x20000), 0x4000))
    runs_alpha = ref.Alpha(True, "text", text=runs, ident=tuple(t for t in runs if all(not 0xD800 <= ord(c) < 0xE000 for c in t)))
    for lab, d, s in once():
        yield f"runs of code points in {lab} {s}", ("edit", (lab, d, s, runs_alpha, 1, 0))
    for i, ts in enumerate(chunks((chr(c) for c in range(0x110000)), 4096)):
        yield f"code points {i * 4096:x}..", ("first", ts)
    for i, ts in enumerate(chunks(words(4 if tier == "thorough" else 3), 100)):
        yield f"words {i}", ("all", ts)
    lens = list(range(1100)) + [x for k in range(11, 21 if tier == "thorough" else 18) for x in ((1 << k) - 1, 1 << k, (1 << k) + 1)]
    for i, ls in enumerate(chunks(lens, 20)):
        for c in ("k", "é", "\U0001f600", "\ud800"):
            yield f"lengths {ls[0]}.. of {c!r}", ("one", tuple(c * n for n in ls))
    lits = literals.texts()
    near = sorted({v for t in lits for v in literals.text_variants(t)})
    for i, ts in enumerate(chunks(near, 200)):
        yield f"texts of the code {i}", ("all", ts)
    lit_alpha = ref.Alpha(True, "text", text=near if tier == "thorough" else lits)
    n, seen = 0, set()
    for src in (r.record_bases(False), r.record_bases(True)):
        for fam, lab, d in src:
            yield f"positions in {fam} {lab}", ("edit", (lab, d, None if n == 0 else "props", TEXT_ALPHA, 1, 0))
            for s in spaces.focus_schemas(d) if tier == "thorough" else [s for s in spaces.focus_schemas(d) if s not in seen]:
                seen.add(s)
                yield f"texts of the code in {fam} {lab} {s}", ("edit", (lab, d, s, lit_alpha, 1, 0))
            n += 1
    for lab, d in r.location_bases():
        yield f"positions in {lab}", ("edit", (lab, d, "props", TEXT_ALPHA, 1, 0))
    for k, p in g.LEAVES.items():
        yield f"positions in {k}", ("edit", (k, spaces.one(k, p), "props", TEXT_ALPHA, 1, 0))
        yield f"texts of the code in {k}", ("edit", (k, spaces.one(k, p), "props", lit_alpha, 1, 0))


def check(label, d, cx, n):
    b = DOC.enc(d)
    if not cx.state(b):
        return
    cx.trace()
    cx.transition()
    try:
        if n % 4 == 0:
            t, back = codec.through_files(d, b, cx, n % 8 == 0)
        else:
            t = impl.must("converting to JSON", impl.to_json, b)
            back = impl.must("converting back", impl.from_json, t)
        diff = impl.same(json.loads(t), DOC.js(d))
        if diff:
            raise Violation("text differs in the JSON", difference=diff)
        if back != b:
            raise Violation("text is not written back as it was stored", **impl.diff_bytes(b, back))
    except Violation as v:
        v.detail.update(state=label, save=b.hex()[:20000])
        raise
    cx.sample({"state": label, "json": t[-200:]})


def run(payload, cx):
    kind, x = payload[:2]
    if kind == "edit":
        for n, (label, _, d) in enumerate(spaces.expand(x)):
            check(label, d, cx, n)
        return
    if kind == "names":
        cx.count("names", len(x))
        for n, d in enumerate(names(x)):
            if n == 0 or not payload[2] or cx.thorough:
                check(f"names {n}", d, cx, n)
        return
    cx.count("texts", len(x))
    for n, d in enumerate(carriers(x)):
        if kind == "first" and n > 1 or kind == "one" and n not in (2, 7):
            continue
        check(f"carrier {n}", d, cx, n)

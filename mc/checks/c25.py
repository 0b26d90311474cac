"""See DESIGN.md, C25."""

import contextlib
import importlib
import io
import itertools
import json
import struct

from .. import generic as g, impl, records as r, ref, spaces
from ..core import Violation
from ..generic import DOC, LEAVES, PROP, SCHEMAS

ID = "C25"
LEVEL = "model_checking"
BOUND = (
    "every property kind in every container (two deep; thorough: three), neighbours and repeated names; a recording decoder at each one path of the "
    "document, at each two, and at all, also inside records; paths of every length up to 1100 (4200) and 40 levels; failing decoders and encoders; paths close to the real ones, which select nothing; every decoder the library ships "
    "registered at paths of its own in every container, on every record of its kind; map key and value types of six sorts given by hints, and hints for other places"
)
ASSUMPTIONS = [
    "a decoder reads its property with reader.property(..., nested_caller_path=path) and its encoder writes it with writer.property_inner, as the shipped ones do",
    "the path of a property is its name after that of what holds it; entries of a list of structs are held by the list's property name, keys and values of a map by Key and Value",
]


# ---------------------------------------------------------------- paths


def walk(props, js, path):
    """(path, property, its JSON) of everything held in properties, in stored order, outer ones first."""
    for n, p in props:
        yield from walk_property(p, js[n], f"{path}.{n}")


def walk_property(p, js, path):
    yield path, p, js
    k = p[0]
    v = js["value"]
    if k == "Struct" and p[1] not in g.SPECIAL:
        yield from walk(p[4], v, path)
    elif k == "ArrStruct" and p[4] not in g.SPECIAL:
        for x, y in zip(p[6], v["values"]):
            yield from walk(x, y, f"{path}.{p[2]}")
    elif k == "Map":
        for (a, b), y in zip(p[6], v):
            if p[2] == "StructProperty" and p[4] not in g.SPECIAL:
                yield from walk(a, y["key"], path + ".Key")
            if p[3] == "StructProperty" and p[5] not in g.SPECIAL:
                yield from walk(b, y["value"], path + ".Value")


def inside(props, js):
    """The same of what decoded records hold, whose paths start anew."""
    if isinstance(js, dict):
        for k, v in js.items():
            if k == "object":
                yield from walk(props, v, "")
            else:
                yield from inside(props, v)
    elif isinstance(js, list):
        for v in js:
            yield from inside(props, v)


def wrap(p, tag, v):
    return {"by": tag, "was": v}


def unwrap(tag, v):
    if v["by"] != tag:
        raise Violation("a property is written by an encoder registered elsewhere", path=tag)
    return v["was"]


def alter(p, tag, v):
    """Another value of the same shape."""
    return {"values": [255 - x for x in v["values"]]} if p == "bytes" else v


class Recorder:
    """A decoder and an encoder that leave traces."""

    def __init__(self, tag, keep):
        self.read, self.written, self.tag, self.keep = [], [], tag, keep

    def decode(self, reader, type_name, size, path):
        self.read.append((path, type_name, size))
        v = reader.property(type_name, size, path, nested_caller_path=path)
        sort = "bytes" if v.get("array_type") == "ByteProperty" else None
        return {**v, "value": alter(sort, self.tag, v["value"]) if self.keep else wrap(sort, self.tag, v["value"])}

    def encode(self, writer, property_type, properties):
        self.written.append((properties["custom_type"], property_type))
        properties = dict(properties)
        del properties["custom_type"]
        if self.keep:
            sort = "bytes" if properties.get("array_type") == "ByteProperty" else None
            properties["value"] = alter(sort, self.tag, properties["value"])
        else:
            properties["value"] = unwrap(self.tag, properties["value"])
        return writer.property_inner(property_type, properties)


def convert(b, hints, customs):
    """(JSON of the content, what is written back), with the caller's own hints and decoders."""
    gf = impl.must("reading", impl.GvasFile.read, b, hints, customs)
    t = impl.must("converting to JSON", impl.text, gf)
    back = impl.must("writing back", lambda: impl.GvasFile.load(json.loads(t)).write(customs))
    return t, back


def check(d, paths, cx, label, props=None):
    """props: what the records in d hold, if that is where the paths lead."""
    b = DOC.enc(d)
    base = (impl.PALWORLD_TYPE_HINTS, impl.PALWORLD_CUSTOM_PROPERTIES) if props is not None else ({}, {})
    for keep in (False, True):
        if not cx.state((b, sorted(paths), keep)):
            return
        cx.trace()
        cx.transition(2)
        js = DOC.js(d)
        found = inside(props, js["properties"]) if props is not None else walk(d[1], js["properties"], "")
        want = []
        # the innermost first, so that the JSON of what is inside stays in reach
        for path, p, j in list(found)[::-1]:
            if path in paths:
                want.append((path, PROP.name(p), PROP.body(p)[0]))
                sort = "bytes" if j.get("array_type") == "ByteProperty" else None
                j["value"] = alter(sort, path, j["value"]) if keep else wrap(sort, path, j["value"])
                j["custom_type"] = path
        want.reverse()
        log = {p: Recorder(p, keep) for p in paths}
        read, written = [], []
        for x in log.values():
            x.read, x.written = read, written
        customs = base[1] | {p: (x.decode, x.encode) for p, x in log.items()}
        try:
            t, back = convert(b, dict(base[0]), customs)
            diff = impl.same(json.loads(t), js)
            if diff:
                raise Violation("the JSON does not show exactly the registered properties decoded", difference=diff)
            if read != want:
                raise Violation("decoders are called for other properties", wanted=want, calls=read)
            if written != [x[:2] for x in want]:
                raise Violation("encoders are called for other properties", wanted=want, calls=written)
            if back != b:
                raise Violation("the save changed", **impl.diff_bytes(b, back))
            if want:
                cx.outcome("decoded")
                # without the encoder it cannot be written
                some = {p: c for p, c in customs.items() if p != want[-1][0]}
                out, err = impl.attempt(lambda: impl.GvasFile.load(json.loads(t)).write(some))
                if err is None:
                    raise Violation("decoded data is written without its encoder", path=want[-1][0])
            else:
                cx.outcome("nothing there")
                return
        except Violation as v:
            v.detail.update(state=label, registered=sorted(paths), save=b.hex()[:8000])
            raise


FAILURES = [
    KeyError("k"),
    IndexError("i"),
    ValueError("v"),
    TypeError("t"),
    AttributeError("a"),
    EOFError("e"),
    OSError("o"),
    RuntimeError("r"),
    NotImplementedError("n"),
    AssertionError("x"),
    StopIteration("s"),
    LookupError("l"),
    ArithmeticError("m"),
    UnicodeError("u"),
    struct.error("p"),
    Exception("z"),
]


def failing(cx):
    """A decoder or encoder that fails makes the conversion fail."""
    for k, p in LEAVES.items():
        ds = [(spaces.one("p", p), ".p")]
        ds += [(g.doc([("o", q)]), ".o" + inner + ".in") for (w, q), inner in zip(g.wraps("in", p), ("", "", ".Elem", ".Value", ".Value"))]
        for d, path in ds:
            b = DOC.enc(d)
            for e, late in itertools.product(FAILURES, (False, True)):
                cx.state((b, path, repr(e), late))
                cx.trace(2)
                ok = Recorder(path, False)

                def fails(*a):
                    if late:
                        (ok.decode if len(a) == 4 else ok.encode)(*a)
                    raise e

                out, err = impl.attempt(lambda: impl.GvasFile.read(b, {}, {path: (fails, ok.encode)}))
                if err is None:
                    raise Violation("the failure of a decoder goes unnoticed", kind=k, path=path, failure=repr(e), after_reading=late)
                t = impl.text(impl.GvasFile.read(b, {}, {path: (ok.decode, ok.encode)}))
                out, err = impl.attempt(lambda: impl.GvasFile.load(json.loads(t)).write({path: (ok.decode, fails)}))
                if err is None:
                    raise Violation("the failure of an encoder goes unnoticed", kind=k, path=path, failure=repr(e), after_writing=late)


def lengths(cx, lo, hi):
    """Paths of every length, from one long name and from many short ones."""
    for n in range(lo, hi):
        q = LEAVES["ArrByte"]
        for d, path in ((g.doc([("n" * n, q), ("n" * (n + 1), q)]), "." + "n" * n),):
            check(d, (path,), cx, f"a name of {n}")
        if n <= 40:
            d, path = q, ""
            for i in range(n):
                d, path = ("Struct", "PalWrap", ref.G0, None, (("s", d),)), path + ".s"
            check(g.doc([("s", d)]), (path + ".s",), cx, f"nested {n} deep")
            check(g.doc([("s", d)]), (".s", path), cx, f"nested {n} deep")


def near(paths, names):
    out = set()
    for p in paths:
        out |= {p[1:], p + ".", "." + p, p + "x", p[:-1], p.lower(), p.upper(), p + ".Value", p + ".Key", p + "[0]", p + ".0", p.rsplit(".", 1)[0], p.replace(".", "/"), p.rsplit(".", 1)[1]}
    out |= {"", ".", "*", ".*", "properties"} | {n for n in names}
    return sorted(out - set(paths))


def documents(tier):
    for k, p in LEAVES.items():
        yield k, spaces.one(k, p)
        for w, q in g.wraps(k, p):
            yield f"{k} in {w}", spaces.one("o", q)
            for w2, q2 in g.wraps("in", q):
                yield f"{k} in {w} in {w2}", spaces.one("o", q2)
                if tier == "thorough":
                    for w3, q3 in g.wraps("in", q2):
                        yield f"{k} in {w} in {w2} in {w3}", spaces.one("o", q3)
    # the same name at different places, and names that look like paths
    i = ("Int", None, 1)
    for n, m in itertools.product(("p", "Key", "Value", "Elem", "a.b", "a", "b", "", "values", "p.p"), repeat=2):
        inner = ((m, i), (m + ".", ("Name", None, "x")))
        for lab, q in (
            ("struct", ("Struct", "PalWrap", ref.G0, None, inner)),
            ("array", ("ArrStruct", None, n + "e" if n else "Elem", "StructProperty", "PalWrap", ref.G0, (inner, inner, ()))),
            ("map", ("Map", None, "NameProperty", "StructProperty", None, "StructProperty", (("k", inner), ("l", inner)))),
        ):
            yield f"{n!r} {lab} {m!r}", g.doc([(n, q), (n + "2", i), (f"{n}.{m}x", i)])


SHIPPED = {
    "character": ("character", ["character"]),
    "character_container": ("character_container", ["character_slot"]),
    "dynamic_item": ("dynamic_item", ["dynamic_item"]),
    "item_container": ("item_container", ["item_container"]),
    "item_container_slots": ("item_container_slots", ["item_slot"]),
    "foliage_model": ("foliage_model", ["foliage_model"]),
    "foliage_model_instance": ("foliage_model_instance", ["foliage_instance"]),
    "base_camp": ("base_camp", ["base_camp"]),
    "worker_director": ("worker_director", ["worker_director"]),
    "work_collection": ("work_collection", ["work_collection"]),
    "connector": ("connector", ["connector"]),
    "build_process": ("build_process", ["build_process"]),
    "map_model": ("map_model", ["map_model"]),
    "debug": ("debug", []),
}


def units(tier):
    docs = list(documents(tier))
    for i in range(0, len(docs), 20):
        yield f"documents {docs[i][0]}..", ("documents", docs[i : i + 20])
    for m, (_, schemas) in SHIPPED.items():
        for s in schemas:
            yield f"shipped {m} {s}", ("shipped", m, s)
    yield "debug", ("debug",)
    yield "failing", ("failing",)
    for i in range(1, 1100 if tier == "quick" else 4200, 100):
        yield f"lengths {i}..", ("lengths", i, i + 100)
    for k in LEAVES:
        yield f"inside records {k}", ("inside", k)
    for ks in TYPES:
        yield f"hints {ks}", ("hints", ks)


# ---------------------------------------------------------------- shipped decoders


def shipped(cx, name, schema):
    """A decoder of the library, registered at a path of the caller's."""
    m = importlib.import_module(f"palworld_save_tools.rawdata.{name}")
    t = SCHEMAS[schema]
    values = [t.default]
    if hasattr(t, "alts"):
        values = [(i, a.default) for i, a in enumerate(t.alts)]
    for v in values:
        for _, _, w in itertools.chain([((), "", v)], t.edits(v, ref.SMALL)):
            places(cx, name, schema, w, m, ((m.decode, m.encode),), w is v)


def places(cx, name, schema, v, m, pair, many):
    path = ".p"
    blob = lambda path: ("Blob", None, path, True, schema, v)  # noqa: E731
    ds = [(path, g.doc([("q", LEAVES["ArrByte"]), ("p", blob(path)), ("pp", LEAVES["ArrByte"])]))]
    if many:
        for (w, _), inner in zip(g.wraps("in", LEAVES["Int"]), (".o.in", ".o.in", ".o.Elem.in", ".o.Value.in", ".o.Value.in")):
            ds.append((inner, g.doc([("o", dict(g.wraps("in", blob(inner)))[w])])))
    for path, d in ds:
        b = DOC.enc(d)
        if not cx.state((name, path, b)):
            continue
        cx.trace()
        cx.transition()
        try:
            t, back = convert(b, {}, {path: pair[0]})
            diff = impl.same(json.loads(t), DOC.js(d))
            if diff:
                raise Violation("the JSON does not show the registered property decoded", difference=diff)
            if back != b:
                raise Violation("the save changed", **impl.diff_bytes(b, back))
            # registered elsewhere, it leaves this one alone
            t, back = convert(b, {}, {path + "x": pair[0], ".x": pair[0]})
            diff = impl.same(json.loads(t), DOC.js(d, frozenset()))
            if diff or back != b:
                raise Violation("a decoder registered elsewhere is used", difference=diff)
        except Violation as x:
            x.detail.update(decoder=name, path=path, save=b.hex()[:8000])
            raise


def debug(cx):
    """The decoder that only prints."""
    m = importlib.import_module("palworld_save_tools.rawdata.debug")
    for raw in (b"", b"\0", b"\xff\0\1", bytes(range(256)), b"None\0" * 9):
        d = g.doc([("q", LEAVES["ArrByte"]), ("p", ("Bytes", None, raw))])
        b = DOC.enc(d)
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            t, back = convert(b, {}, {".p": (m.decode, m.encode)})
        js = DOC.js(d)
        js["properties"]["p"]["custom_type"] = ".p"
        cx.state(("debug", raw))
        cx.trace()
        diff = impl.same(json.loads(t), js)
        if diff or back != b:
            raise Violation("the printing decoder changes the data", difference=diff)
        if raw and raw.hex() not in out.getvalue():
            raise Violation("the printing decoder does not print", data=raw.hex(), printed=out.getvalue()[-300:])


# ---------------------------------------------------------------- hints

PAL = (("A", ("Int", None, 1)), ("B", ("Name", None, "z")))
TYPES = {
    "Guid": (ref.G1, ref.G2),
    "PalThing": (PAL, ()),
    "StructProperty": (PAL, ()),
    "Vector": (ref.VEC.default, (0, 1 << 63, 1)),
    "DateTime": (1, 1 << 40),
    "Quat": (ref.QUAT.default, ref.QUAT.default),
    "LinearColor": (ref.COLOR.default, ref.COLOR.default),
}


def hints(cx, ks):
    for vs in TYPES:
        key_default, value_default = ks == "Guid", vs == "StructProperty"
        for count in (0, 1, 2):
            m = ("Map", None, "StructProperty", "StructProperty", ks, vs, tuple(zip(TYPES[ks], TYPES[vs]))[:count])
            other = ("Map", None, "StructProperty", "StructProperty", "Guid", "StructProperty", ((ref.G1, PAL), (ref.G2, ())))
            cases = [("p", "", g.doc([("before", other), ("p", m), ("after", other)]))]
            for (w, q), inner in zip(g.wraps("in", m), ("", "", ".Elem", ".Value", ".Value")):
                cases.append((f"in {w}", ".o" + inner + ".in", g.doc([("o", q), ("in", other)])))
            for lab, path, d in cases:
                path = path or ".p"
                full = {path + ".Key": ks, path + ".Value": vs}
                b = DOC.enc(d)
                for extra in (
                    {},
                    {path + "x.Key": "Vector", ".before": "Vector", path: "Quat", ".Key": "Vector", "Key": "Vector", ".Value": "Quat", path[1:] + ".Key": "Quat", path + ".Value.Key": "Quat"},
                ):
                    for drop in ("", "key", "value"):
                        if drop == "key" and not key_default or drop == "value" and not value_default:
                            continue
                        h = {k: v for k, v in full.items() if not (drop == "key" and k.endswith(".Key") or drop == "value" and k.endswith(".Value"))} | extra
                        if not cx.state((b, sorted(h.items()))):
                            continue
                        cx.trace()
                        cx.transition()
                        try:
                            given = dict(h)
                            t, back = convert(b, given, {})
                            diff = impl.same(json.loads(t), DOC.js(d))
                            if diff:
                                raise Violation("a map is not read as its hints say", difference=diff)
                            if back != b:
                                raise Violation("the save changed", **impl.diff_bytes(b, back))
                            if given != h:
                                raise Violation("the caller's hints are changed", now=given)
                        except Violation as v:
                            v.detail.update(state=lab, hints=h, save=b.hex()[:8000])
                            raise


def run(payload, cx):
    kind = payload[0]
    if kind == "shipped":
        return shipped(cx, *payload[1:])
    if kind == "debug":
        return debug(cx)
    if kind == "hints":
        return hints(cx, payload[1])
    if kind == "failing":
        return failing(cx)
    if kind == "lengths":
        return lengths(cx, *payload[1:])
    if kind == "inside":
        p = LEAVES[payload[1]]
        for props in ((("p", p), ("q", ("Int", None, 1))), *((("o", q), ("worldSaveData", p)) for _, q in g.wraps("in", p))):
            for lab, x in r.carriers(props):
                d = r.world(x)
                names = list(dict.fromkeys(x for x, _, _ in inside(props, DOC.js(d)["properties"])))
                for n in (0, 1, 2):
                    for c in itertools.combinations(names, n):
                        if ".worldSaveData" not in c:
                            check(d, c, cx, f"inside {lab}", props)
                close = [c for c in near(names, [n for n, _ in props]) if not c.startswith(".worldSaveData") and c not in impl.PALWORLD_CUSTOM_PROPERTIES]
                check(d, tuple(close), cx, f"inside {lab}", props)
        return
    for label, d in payload[1]:
        found = list(dict.fromkeys(p for p, _, _ in walk(d[1], DOC.js(d)["properties"], "")))
        for n in (0, 1, 2):
            for c in itertools.combinations(found, n):
                check(d, c, cx, label)
        check(d, tuple(found), cx, label)
        close = near(found, [n for n, _ in d[1]])
        check(d, tuple(close), cx, label)
        for c in close:
            check(d, (c,), cx, label)
    cx.sample({"state": label, "registered": found})

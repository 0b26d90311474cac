"""Reference model: the ordinary Unreal property grammar and whole documents.

A property value is a tagged tuple:
  ('Int'|'Int64'|'Fixed'|'Float'|'Str'|'Name', id, value)
  ('Enum', id, enum_type, enum_value)          ('Bool', id, 0/1)
  ('Struct', struct_type, struct_id, id, sval)
  ('ArrStruct', id, prop_name, prop_type, type_name, struct_id, (sval, ...))
  ('Arr', id, 'EnumProperty'|'NameProperty'|'Guid', (elem, ...))
  ('Bytes', id, bytes)                         a byte array without a decoder
  ('Blob', id, gov, own, schema, value)        a byte array holding a Palworld record
  ('Map', id, key_type, value_type, key_struct, value_struct, ((k, v), ...))
  ('Custom', gov, prop)                        property whose custom type is `gov`
sval: a record tuple for Vector/Quat/LinearColor, int for DateTime, 16 bytes for Guid,
otherwise a tuple of (name, property).
"""

import base64
import struct

from . import ref
from .ref import B8, COLOR, F32, FULL, GUID, I32, I64, OPTGUID, QUAT, STR, U64, VEC, Ident, Lock, T, text_bytes, tup_set

SPECIAL = {"Vector": VEC, "DateTime": U64, "Guid": GUID, "Quat": QUAT, "LinearColor": COLOR}
SIMPLE = {
    "Int": ("IntProperty", I32, 4),
    "Int64": ("Int64Property", I64, 8),
    "Fixed": ("FixedPoint64Property", I32, 4),
    "Float": ("FloatProperty", F32, 4),
    "Str": ("StrProperty", STR, None),
    "Name": ("NameProperty", STR, None),
}
SCHEMAS = {}  # name -> T, filled by records.py
IDENT = ref.Str(Ident("nm"))
MAPPABLE = {
    "EnumProperty": STR,
    "NameProperty": STR,
    "IntProperty": I32,
    "BoolProperty": B8,
}


class Everything:
    """Selection of decoded kinds: all of them."""

    def __contains__(self, x):
        return True


ALL = Everything()


def sval_t(stype):
    return SPECIAL.get(stype, PROPS)


class Props(T):
    """Named properties in order, closed by the name None."""

    default = (("n", ("Int", None, 1)),)

    def enc(self, v):
        return b"".join(text_bytes(n) + PROP.enc(p) for n, p in v) + text_bytes("None")

    def js(self, v, sel=ALL):
        return {str(n): PROP.js(p, sel) for n, p in v}

    def edits(self, v, a):
        names = {n for n, _ in v}
        n = len(v)
        for i, (nm, p) in enumerate(v):
            for pos, lab, q in PROP.edits(p, a):
                yield (i, 1) + pos, f".{nm}{lab}", tup_set(v, i, (nm, q))
            if not isinstance(nm, Lock):
                for m in ref.texts(Ident(nm), a):
                    if m not in names and m != "None":
                        yield (i, 0), f"rename {nm}->{ascii(m)[:40]}", tup_set(v, i, (m, p))
                if a.wants("list"):
                    yield (n + i,), f"del .{nm}", v[:i] + v[i + 1 :]
        if a.grow:
            yield (n,), f"{a.grow} properties", v + tuple((f"g{i}", ("Int", None, i)) for i in range(a.grow))
        if not a.wants("list"):
            return
        if "fresh" not in names:
            yield (2 * n,), "+fresh", v + (("fresh", ("Name", None, "F")),)
            if n and a.full:
                yield (2 * n,), "fresh+", (("fresh", ("Bool", None, 1)),) + v
        if a.full:
            for i in range(n - 1):
                yield (3 * n + i,), f"swap{i}", v[:i] + (v[i + 1], v[i]) + v[i + 2 :]


class Prop(T):
    def name(self, p):
        k = p[0]
        if k in SIMPLE:
            return SIMPLE[k][0]
        if k == "Custom":
            return self.name(p[2])
        return {
            "Enum": "EnumProperty",
            "Bool": "BoolProperty",
            "Struct": "StructProperty",
            "ArrStruct": "ArrayProperty",
            "Arr": "ArrayProperty",
            "Bytes": "ArrayProperty",
            "Blob": "ArrayProperty",
            "Map": "MapProperty",
        }[k]

    def enc(self, p):
        size, body = self.body(p)
        return text_bytes(self.name(p)) + struct.pack("<Q", size) + body

    def body(self, p):
        k = p[0]
        if k in SIMPLE:
            b = SIMPLE[k][1].enc(p[2])
            return len(b), OPTGUID.enc(p[1]) + b
        if k == "Enum":
            b = text_bytes(p[3])
            return len(b), text_bytes(p[2]) + OPTGUID.enc(p[1]) + b
        if k == "Bool":
            return 0, B8.enc(p[2]) + OPTGUID.enc(p[1])
        if k == "Struct":
            b = sval_t(p[1]).enc(p[4])
            return len(b), text_bytes(p[1]) + p[2] + OPTGUID.enc(p[3]) + b
        if k == "Bytes" or k == "Blob":
            raw = p[2] if k == "Bytes" else SCHEMAS[p[4]].enc(p[5])
            b = struct.pack("<I", len(raw)) + raw
            return len(b), text_bytes("ByteProperty") + OPTGUID.enc(p[1]) + b
        if k == "Arr":
            e = GUID if p[2] == "Guid" else STR
            b = struct.pack("<I", len(p[3])) + b"".join(e.enc(x) for x in p[3])
            return len(b), text_bytes(p[2]) + OPTGUID.enc(p[1]) + b
        if k == "ArrStruct":
            _, i, pn, pt, tn, sid, vals = p
            t = sval_t(tn)
            d = b"".join(t.enc(x) for x in vals)
            b = (
                struct.pack("<I", len(vals))
                + text_bytes(pn)
                + text_bytes(pt)
                + struct.pack("<Q", len(d))
                + text_bytes(tn)
                + sid
                + b"\0"
                + d
            )
            return len(b), text_bytes("StructProperty") + OPTGUID.enc(i) + b
        if k == "Map":
            _, i, kt, vt, ks, vs, entries = p
            ek = sval_t(ks) if kt == "StructProperty" else MAPPABLE[kt]
            ev = sval_t(vs) if vt == "StructProperty" else MAPPABLE[vt]
            b = struct.pack("<II", 0, len(entries)) + b"".join(ek.enc(x) + ev.enc(y) for x, y in entries)
            return len(b), text_bytes(kt) + text_bytes(vt) + OPTGUID.enc(i) + b
        if k == "Custom":
            return self.body(p[2])
        raise AssertionError(k)

    def js(self, p, sel=ALL):
        k = p[0]
        if k == "Custom":
            d = self.js(p[2], sel)
            if p[1] in sel:
                d["custom_type"] = p[1]
            return d
        d = {"type": self.name(p)}
        if k in SIMPLE:
            d["id"] = OPTGUID.js(p[1])
            d["value"] = SIMPLE[k][1].js(p[2])
        elif k == "Enum":
            d["id"] = OPTGUID.js(p[1])
            d["value"] = {"type": str(p[2]), "value": str(p[3])}
        elif k == "Bool":
            d["id"] = OPTGUID.js(p[1])
            d["value"] = bool(p[2])
        elif k == "Struct":
            d["struct_type"] = str(p[1])
            d["struct_id"] = GUID.js(p[2])
            d["id"] = OPTGUID.js(p[3])
            d["value"] = sval_js(p[1], p[4], sel)
        elif k == "Bytes":
            d["array_type"] = "ByteProperty"
            d["id"] = OPTGUID.js(p[1])
            d["value"] = {"values": list(p[2])}
        elif k == "Blob":
            _, i, gov, own, schema, v = p
            d["array_type"] = "ByteProperty"
            d["id"] = OPTGUID.js(i)
            if gov in sel:
                d["value"] = SCHEMAS[schema].js(v)
                if own:
                    d["custom_type"] = gov
            else:
                d["value"] = {"values": list(SCHEMAS[schema].enc(v))}
        elif k == "Arr":
            e = GUID if p[2] == "Guid" else STR
            d["array_type"] = p[2]
            d["id"] = OPTGUID.js(p[1])
            d["value"] = {"values": [e.js(x) for x in p[3]]}
        elif k == "ArrStruct":
            _, i, pn, pt, tn, sid, vals = p
            d["array_type"] = "StructProperty"
            d["id"] = OPTGUID.js(i)
            d["value"] = {
                "prop_name": str(pn),
                "prop_type": str(pt),
                "values": [sval_js(tn, x, sel) for x in vals],
                "type_name": str(tn),
                "id": GUID.js(sid),
            }
        elif k == "Map":
            _, i, kt, vt, ks, vs, entries = p
            d["key_type"], d["value_type"] = str(kt), str(vt)
            d["key_struct_type"] = str(ks) if kt == "StructProperty" else None
            d["value_struct_type"] = str(vs) if vt == "StructProperty" else None
            d["id"] = OPTGUID.js(i)
            d["value"] = [
                {
                    "key": sval_js(ks, x, sel) if kt == "StructProperty" else MAPPABLE[kt].js(x),
                    "value": sval_js(vs, y, sel) if vt == "StructProperty" else MAPPABLE[vt].js(y),
                }
                for x, y in entries
            ]
        else:
            raise AssertionError(k)
        return d

    # -------------------------------------------------------------- edits

    def edits(self, p, a):
        k = p[0]
        if k in SIMPLE:
            yield from field(p, 1, OPTGUID, a, "#id ")
            yield from field(p, 2, SIMPLE[k][1], a, "=")
        elif k == "Enum":
            yield from field(p, 1, OPTGUID, a, "#id ")
            yield from field(p, 2, STR, a, "#enum ")
            yield from field(p, 3, STR, a, "=")
        elif k == "Bool":
            yield from field(p, 1, OPTGUID, a, "#id ")
            yield from field(p, 2, B8, a, "=")
        elif k == "Struct":
            if p[1] not in SPECIAL and not isinstance(p[1], Lock):
                for s in ref.texts(Ident(p[1]), a):
                    if s not in SPECIAL:
                        yield (1,), f"#struct {ascii(s)[:40]}", tup_set(p, 1, s)
            yield from field(p, 2, GUID, a, "#sid ")
            yield from field(p, 3, OPTGUID, a, "#id ")
            yield from field(p, 4, sval_t(p[1]), a, "")
        elif k == "Bytes":
            yield from field(p, 1, OPTGUID, a, "#id ")
            yield from field(p, 2, ref.Raw(), a, "=")
        elif k == "Blob":
            yield from field(p, 1, OPTGUID, a, "#id ")
            if a.only == "outer":
                return
            for pos, lab, y in SCHEMAS[p[4]].edits(p[5], a):
                yield (5,) + pos, "=" + lab, tup_set(p, 5, y)
        elif k == "Arr":
            yield from field(p, 1, OPTGUID, a, "#id ")
            e, new = (GUID, (ref.G2,)) if p[2] == "Guid" else (STR, ("e",))
            for pos, lab, y in ref.list_edits(p[3], e.edits, new, a):
                yield (3,) + pos, lab, tup_set(p, 3, y)
        elif k == "ArrStruct":
            yield from field(p, 1, OPTGUID, a, "#id ")
            if not isinstance(p[2], Lock):
                yield from field(p, 2, STR, a, "#prop ", Ident)
            if not isinstance(p[3], Lock):
                yield from field(p, 3, STR, a, "#ptype ", Ident)
            if p[4] not in SPECIAL and not isinstance(p[4], Lock):
                for s in ref.texts(Ident(p[4]), a):
                    yield (4,), f"#type {ascii(s)[:40]}", tup_set(p, 4, s)
            yield from field(p, 5, GUID, a, "#sid ")
            t = sval_t(p[4])
            new = (p[6][0],) if p[6] else None if isinstance(p[2], Lock) else (t.default,)
            for pos, lab, y in ref.list_edits(p[6], t.edits, new, a):
                yield (6,) + pos, lab, tup_set(p, 6, y)
        elif k == "Map":
            yield from field(p, 1, OPTGUID, a, "#id ")
            _, i, kt, vt, ks, vs, entries = p
            ek = sval_t(ks) if kt == "StructProperty" else MAPPABLE[kt]
            ev = sval_t(vs) if vt == "StructProperty" else MAPPABLE[vt]

            def entry_edits(e, a):
                for pos, lab, y in ek.edits(e[0], a):
                    yield (0,) + pos, "key" + lab, (y, e[1])
                for pos, lab, y in ev.edits(e[1], a):
                    yield (1,) + pos, "val" + lab, (e[0], y)

            new = (entries[0],) if entries else None if isinstance(kt, Lock) else ((ek.default, ev.default),)
            for pos, lab, y in ref.list_edits(entries, entry_edits, new, a):
                yield (6,) + pos, lab, tup_set(p, 6, y)
        elif k == "Custom":
            for pos, lab, y in self.edits(p[2], a):
                yield pos, lab, ("Custom", p[1], y)
        else:
            raise AssertionError(k)


def field(p, i, t, a, lab, wrap=None):
    v = wrap(p[i]) if wrap else p[i]
    for pos, l, y in t.edits(v, a):
        yield (i,) + pos, lab + l, tup_set(p, i, y)


def sval_js(stype, v, sel=ALL):
    t = sval_t(stype)
    return t.js(v, sel) if t is PROPS else t.js(v)


PROPS = Props()
PROP = Prop()

# ---------------------------------------------------------------- documents


class Trailer(ref.Raw):
    def js(self, v):
        return base64.b64encode(v).decode("ascii")


class CustomVersion(T):
    default = (ref.G1, 7)

    def enc(self, v):
        return v[0] + struct.pack("<i", v[1])

    def js(self, v):
        return [ref.guid_text(v[0]), v[1]]

    def edits(self, v, a):
        for pos, lab, y in GUID.edits(v[0], a):
            yield (0,), lab, (y, v[1])
        for pos, lab, y in I32.edits(v[1], a):
            yield (1,), lab, (v[0], y)


class Magic(T):
    def __init__(self, n):
        self.default = n

    def enc(self, v):
        return struct.pack("<i", v)


WORLD_CLASS = "/Script/Pal.PalWorldSaveGame"
HEADER = ref.Rec(
    ("magic", Magic(0x53415647)),
    ("save_game_version", Magic(3)),
    ("package_file_version_ue4", I32),
    ("package_file_version_ue5", I32),
    ("engine_version_major", ref.U16),
    ("engine_version_minor", ref.U16),
    ("engine_version_patch", ref.U16),
    ("engine_version_changelist", ref.U32),
    ("engine_version_branch", ref.Str("++UE5+Release-5.1")),
    ("custom_version_format", Magic(3)),
    ("custom_versions", ref.Seq(CustomVersion())),
    ("save_game_class_name", ref.Str(WORLD_CLASS)),
)


class Doc(T):
    """value = (header, props, trailer)"""

    default = (HEADER.default, (), bytes(4))

    def enc(self, v):
        return HEADER.enc(v[0]) + PROPS.enc(v[1]) + v[2]

    def js(self, v, sel=ALL):
        return {
            "header": HEADER.js(v[0]),
            "properties": PROPS.js(v[1], sel),
            "trailer": TRAILER.js(v[2]),
        }

    def edits(self, v, a):
        yield from self.prop_edits(v, a)
        for pos, lab, y in HEADER.edits(v[0], a):
            yield (0,) + pos, "header " + lab, tup_set(v, 0, y)
        for pos, lab, y in TRAILER.edits(v[2], a):
            yield (2,) + pos, "trailer " + lab, tup_set(v, 2, y)

    def prop_edits(self, v, a):
        for pos, lab, y in PROPS.edits(v[1], a):
            yield (1,) + pos, lab, tup_set(v, 1, y)


TRAILER = Trailer(None, bytes(4))
DOC = Doc()


def doc(props, trailer=bytes(4), header=None):
    return (header or HEADER.default, tuple(props), trailer)


# ---------------------------------------------------------------- base documents

G = ref.G1
LEAVES = {
    "Int": ("Int", None, -5),
    "Int64": ("Int64", None, 1 << 33),
    "Fixed": ("Fixed", None, 77),
    "Float": ("Float", None, F32.default),
    "Str": ("Str", None, "text"),
    "Name": ("Name", None, "Nm"),
    "Enum": ("Enum", None, "EKind", "EKind::A"),
    "Bool": ("Bool", None, 1),
    "Vector": ("Struct", "Vector", ref.G0, None, VEC.default),
    "DateTime": ("Struct", "DateTime", ref.G0, None, U64.default),
    "Guid": ("Struct", "Guid", ref.G0, None, ref.G2),
    "Quat": ("Struct", "Quat", ref.G0, None, QUAT.default),
    "LinearColor": ("Struct", "LinearColor", ref.G0, None, COLOR.default),
    "Struct": ("Struct", "PalThing", ref.G0, None, (("A", ("Int", None, 1)), ("B", ("Str", None, "é")))),
    "EmptyStruct": ("Struct", "PalThing", ref.G0, None, ()),
    "ArrEnum": ("Arr", None, "EnumProperty", ("EKind::A", "EKind::B")),
    "ArrName": ("Arr", None, "NameProperty", ("N1", "日本")),
    "ArrGuid": ("Arr", None, "Guid", (ref.G1, ref.G2)),
    "ArrByte": ("Bytes", None, b"\0\1\xff"),
    "ArrEmpty": ("Arr", None, "NameProperty", ()),
    "ArrStruct": (
        "ArrStruct",
        None,
        "Elem",
        "StructProperty",
        "PalElem",
        ref.G0,
        ((("A", ("Int", None, 1)),), (("A", ("Int", None, 2)), ("B", ("Bool", None, 0)))),
    ),
    "ArrVector": ("ArrStruct", None, "Elem", "StructProperty", "Vector", ref.G0, (VEC.default, (0, 1 << 63, 1))),
    "ArrGuidStruct": ("ArrStruct", None, "Elem", "StructProperty", "Guid", ref.G0, (ref.G1, ref.G2)),
    "ArrDateTime": ("ArrStruct", None, "Elem", "StructProperty", "DateTime", ref.G0, (1, 2)),
    "ArrQuat": ("ArrStruct", None, "Elem", "StructProperty", "Quat", ref.G0, (QUAT.default,)),
    "ArrColor": ("ArrStruct", None, "Elem", "StructProperty", "LinearColor", ref.G0, (COLOR.default,)),
    "ArrStructEmpty": ("ArrStruct", None, "Elem", "StructProperty", "PalElem", ref.G0, ()),
}


def unknown_map(kt, vt, entries=None):
    """A map at a location without a known type: struct keys are ids, values are structs."""
    ks = "Guid" if kt == "StructProperty" else None
    vs = "StructProperty" if vt == "StructProperty" else None
    vals = {
        "EnumProperty": ("EKind::A", "EKind::é"),
        "NameProperty": ("K1", "日本"),
        "IntProperty": (-1, 300),
        "BoolProperty": (0, 1),
    }
    kk = (ref.G1, ref.G2) if kt == "StructProperty" else vals[kt]
    vv = (
        ((("A", ("Int", None, 1)),), (("A", ("Name", None, "z")), ("B", ("Float", None, F32.default))))
        if vt == "StructProperty"
        else vals[vt]
    )
    if entries is None:
        entries = 2
    return ("Map", None, kt, vt, ks, vs, tuple(zip(kk, vv))[:entries])


MAPTYPES = ("StructProperty", "EnumProperty", "NameProperty", "IntProperty", "BoolProperty")
for _k in MAPTYPES:
    for _v in MAPTYPES:
        LEAVES[f"Map{_k[:-8]}{_v[:-8]}"] = unknown_map(_k, _v)
LEAVES["MapEmpty"] = unknown_map("NameProperty", "StructProperty", 0)


def wraps(name, p):
    """p nested in every container that can hold a property."""
    inner = ((name, p),)
    yield "struct", ("Struct", "PalWrap", ref.G0, None, inner)
    yield "structlast", ("Struct", "PalWrap", ref.G0, None, (("Z", ("Int", None, 3)),) + inner)
    yield "array", ("ArrStruct", None, "Elem", "StructProperty", "PalWrap", ref.G0, (inner, (("Z", ("Int", None, 3)),)))
    yield "mapvalue", ("Map", None, "NameProperty", "StructProperty", None, "StructProperty", (("k", inner), ("k2", ())))
    yield "guidmap", ("Map", None, "StructProperty", "StructProperty", "Guid", "StructProperty", ((ref.G1, inner),))

"""Reading save bytes into the reference model: real saves become states of it.

An independent reader, driven by the types of the model; it never imports the tool. A save
it cannot describe raises Unlike, so every lifted document is exactly those bytes:
enc(lift(b)) == b is checked on the way out.
"""

import struct

from . import generic as g
from . import records as r
from . import ref
from .generic import DOC, HEADER, MAPPABLE, PROPS, SCHEMAS, SIMPLE, SPECIAL
from .records import HINTS, W
from .ref import Lock


class Unlike(Exception):
    pass


class In:
    def __init__(self, b):
        self.b, self.p = b, 0

    def take(self, n):
        if n < 0 or self.p + n > len(self.b):
            raise Unlike("ends early")
        self.p += n
        return self.b[self.p - n : self.p]

    def un(self, fmt):
        return struct.unpack("<" + fmt, self.take(struct.calcsize("<" + fmt)))

    @property
    def left(self):
        return len(self.b) - self.p


def text(i):
    (n,) = i.un("i")
    if n == 0:
        return ""
    if n < 0:
        b = i.take(-2 * n)
        s = b.decode("utf-16-le", "surrogatepass")
    else:
        s = i.take(n).decode("ascii")
    if s[-1] != "\0":
        raise Unlike("text without end")
    return s[:-1]


def value(t, i):
    """The value of type t stored next."""
    if isinstance(t, g.CustomVersion):
        return (i.take(16), i.un("i")[0])
    if isinstance(t, (ref.Num, ref.Flag)):
        return t.fmt.unpack(i.take(t.fmt.size))[0]
    if isinstance(t, g.Magic):
        if i.un("i")[0] != t.default:
            raise Unlike("another magic number")
        return t.default
    if isinstance(t, ref.Flt):
        return t.i.unpack(i.take(t.i.size))[0]
    if isinstance(t, ref.Str):
        return text(i)
    if isinstance(t, ref.Guid):
        return i.take(16)
    if isinstance(t, ref.OptGuid):
        return i.take(16) if i.un("B")[0] else None
    if isinstance(t, ref.Const):
        i.take(len(t.stored))
        return t.default
    if isinstance(t, r.Tag):
        if i.un("B")[0] != t.default:
            raise Unlike("another tag")
        return t.default
    if isinstance(t, ref.Rec):
        return tuple(value(f, i) for _, f in t.fields)
    if isinstance(t, ref.Seq):
        (n,) = t.count.unpack(i.take(t.count.size))
        return tuple(value(t.t, i) for _ in range(n))
    if isinstance(t, r.RawValues):
        return i.take(i.left)
    if isinstance(t, ref.Raw):
        return i.take(i.left if t.n is None else t.n)
    if isinstance(t, ref.Opt):
        return value(t.t, i) if i.left else None
    if isinstance(t, r.OtherConnectors):
        out = []
        while i.left:
            out.append(value(r.OTHER, i))
        return tuple(out)
    if isinstance(t, ref.Choice):
        at = i.p
        for n, a in enumerate(t.alts):
            try:
                i.p = at
                return n, value(a, i)
            except Unlike:
                pass
        raise Unlike("no alternative fits")
    if isinstance(t, ref.Rotator):
        return tuple(i.un("H")[0] if i.un("B")[0] else 0 for _ in range(3))
    if isinstance(t, ref.Packed):
        (head,) = i.un("I")
        bits = head & 63
        if bits == 0:
            return ("d", *i.un("QQQ"))
        return ("i", *(int.from_bytes(i.take((bits + 7) // 8), "little", signed=True) for _ in range(3)))
    if isinstance(t, g.Props):
        return properties(i, "")
    raise AssertionError(t)


def record(schema, b):
    """The value of a record that is exactly those bytes."""
    t = SCHEMAS[schema]
    if isinstance(t, ref.Choice):
        order = (1, 2, 0, 4, 3) if schema == "dynamic_item" else range(len(t.alts))
        for n in order:
            try:
                i = In(b)
                v = value(t.alts[n], i)
                if not i.left and t.alts[n].enc(v) == b:
                    return n, v
            except (Unlike, UnicodeDecodeError):
                pass
        raise Unlike(schema)
    i = In(b)
    v = value(t, i)
    if i.left or t.enc(v) != b:
        raise Unlike(schema)
    return v


OWN = {
    r.K_CHAR: "character",
    r.K_ITEMC: "item_container",
    r.K_SLOT: "item_slot",
    r.K_CCONT: "character_slot",
    r.K_DYN: "dynamic_item",
    r.K_FOL: "foliage_model",
    r.K_FOLI: "foliage_instance",
    r.K_CAMP: "base_camp",
    r.K_DIR: "worker_director",
    r.K_COLL: "work_collection",
}


def properties(i, path):
    out = []
    while True:
        n = text(i)
        if n == "None":
            return tuple(out)
        out.append((Lock(n) if path.startswith(".worldSaveData") or n == "worldSaveData" else n, prop(i, f"{path}.{n}")))


def sval(i, stype, path):
    return value(SPECIAL[stype], i) if stype in SPECIAL else properties(i, path)


NAMES = {v[0]: k for k, v in SIMPLE.items()}


def prop(i, path):
    t = text(i)
    (size,) = i.un("Q")
    world = path.startswith(".worldSaveData")
    nm = Lock if world else str
    if t in NAMES:
        k = NAMES[t]
        return (k, value(ref.OPTGUID, i), value(SIMPLE[k][1], i))
    if t == "EnumProperty":
        e = text(i)
        return ("Enum", value(ref.OPTGUID, i), e, text(i))
    if t == "BoolProperty":
        v = i.un("B")[0]
        return ("Bool", value(ref.OPTGUID, i), v)
    if t == "StructProperty":
        s = nm(text(i))
        sid = i.take(16)
        own = value(ref.OPTGUID, i)
        return ("Struct", s, sid, own, sval(i, s, path))
    if t == "ArrayProperty":
        e = text(i)
        own = value(ref.OPTGUID, i)
        (n,) = i.un("I")
        if e == "ByteProperty":
            b = i.take(n)
            if path in OWN:
                return ("Blob", own, path, True, OWN[path], record(OWN[path], b))
            return ("Bytes", own, b)
        if e in ("EnumProperty", "NameProperty", "Guid"):
            return ("Arr", own, e, tuple(i.take(16) if e == "Guid" else text(i) for _ in range(n)))
        if e != "StructProperty":
            raise Unlike(f"array of {e}")
        pn, pt = nm(text(i)), text(i)
        i.un("Q")
        tn = nm(text(i))
        sid = i.take(16)
        i.take(1)
        p = ("ArrStruct", own, pn, pt, tn, sid, tuple(sval(i, tn, f"{path}.{pn}") for _ in range(n)))
        return custom(p, path)
    if t == "MapProperty":
        kt, vt = nm(text(i)), nm(text(i))
        own = value(ref.OPTGUID, i)
        zero, n = i.un("II")
        if zero:
            raise Unlike("removed map entries")
        ks = nm(HINTS.get(path + ".Key", "Guid")) if kt == "StructProperty" else None
        vs = nm(HINTS.get(path + ".Value", "StructProperty")) if vt == "StructProperty" else None
        one = lambda pt, s, p: sval(i, s, p) if pt == "StructProperty" else value(MAPPABLE[pt], i)
        p = ("Map", own, kt, vt, ks, vs, tuple((one(kt, ks, path + ".Key"), one(vt, vs, path + ".Value")) for _ in range(n)))
        return custom(p, path)
    raise Unlike(f"property {t}")


def with_(props, name, f):
    return tuple((n, f(p) if n == name else p) for n, p in props)


def get(props, name):
    return next((p for n, p in props if n == name), None)


def custom(p, path):
    """Kinds whose decoder sits above the records it decodes."""

    def blob(schema, only=True):
        def f(q):
            if q[0] != "Bytes":
                raise Unlike("record is no byte array")
            return ("Blob", q[1], path, False, schema, record(schema, q[2]))

        return f

    if path == r.K_GROUP:
        return ("Custom", path, p[:6] + (tuple((k, group(v, blob)) for k, v in p[6]),))
    if path == r.K_MOD:
        return ("Custom", path, p[:6] + (tuple((Lock(k), with_(v, "RawData", module(k, blob))) for k, v in p[6]),))
    if path == r.K_WORK:
        return ("Custom", path, p[:6] + (tuple(work(v, blob) for v in p[6]),))
    if path == r.K_MAPOBJ:
        return ("Custom", path, p[:6] + (tuple(map_object(v, blob) for v in p[6]),))
    return p


def lock_enum(e):
    return e[:3] + (Lock(e[3]),)


def group(v, blob):
    t = get(v, "GroupType")[3]
    if "group " + t not in SCHEMAS:
        raise Unlike(t)
    return with_(with_(v, "GroupType", lock_enum), "RawData", blob("group " + t))


def module(t, blob):
    def f(q):
        try:
            return blob("module " + t if "module " + t in SCHEMAS else "raw")(q)
        except Unlike:
            return blob("raw")(q)

    return f


def work(v, blob):
    t = get(v, "WorkableType")[3]
    v = with_(with_(v, "WorkableType", lock_enum), "RawData", blob("work " + t if t in r.WORKS else "raw"))
    assign = lambda m: m[:6] + (tuple((k, with_(x, "RawData", blob("work_assign"))) for k, x in m[6]),)
    return with_(v, "WorkAssignMap", assign)


def inside(f):
    return lambda p: p[:4] + (f(p[4]),)


def map_object(v, blob):
    name = get(v, "MapObjectId")[2]
    cls = r.MAP_OBJECTS.get(name.lower())
    if cls is None:
        con = "raw"
    elif cls in r.CONCRETE:
        con = "concrete " + cls
    else:
        con = "raw concrete"

    def concrete(q):
        return blob("nothing" if not q[2] else con)(q)

    def mods(m):
        kinds = lambda t: "mapmodule " + t if t in r.MAP_MODULES else "nothing" if t in r.EMPTY_MAP_MODULES else "raw"
        return m[:6] + (tuple((Lock(k), with_(x, "RawData", blob(kinds(k)))) for k, x in m[6]),)

    v = with_(v, "MapObjectId", lambda p: p[:2] + (Lock(p[2]),))
    part = lambda s: inside(lambda x: with_(x, "RawData", blob(s)))
    model = lambda x: with_(with_(with_(x, "BuildProcess", part("build_process")), "Connector", part("connector")), "RawData", blob("map_model"))
    v = with_(v, "Model", inside(model))
    return with_(v, "ConcreteModel", inside(lambda x: with_(with_(x, "ModuleMap", mods), "RawData", concrete)))


def document(b):
    """The document whose bytes are b."""
    i = In(b)
    h = value(HEADER, i)
    p = properties(i, "")
    d = (h, p, i.take(i.left))
    if DOC.enc(d) != b:
        raise Unlike("not reproduced")
    return d

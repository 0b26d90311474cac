"""See DESIGN.md, C20."""

import contextlib
import copy
import io
import itertools
import json
import os
import pickle
import shutil

from .. import cli, generic as g, impl, records as r, ref, spaces
from ..core import Violation
from ..generic import DOC, LEAVES
from .c10 import pack

ID = "C20"
LEVEL = "model_checking"
BOUND = (
    "every sequence of two conversions out of the whole alphabet (documents x options x direction x outcome, library and command "
    "line), every two documents of a family that a coarse cache would mix up (texts, numbers, kinds at one place, variants of each record), every sequence of three out of its core (thorough: three out of all, four out of the core); each sequence starts in a "
    "process that has converted nothing"
)
ASSUMPTIONS = ["a conversion's own result alone is checked against the reference model where it is defined, and by the other properties"]
TECHNIQUE = "explicit-state model checking: all conversion histories to a depth, run on the implementation"

OP = {}
CORE = []


def op(name, core=False):
    def add(f):
        OP[name] = f
        if core:
            CORE.append(name)
        return f

    return add


def documents():
    nan = spaces.one("n", LEAVES["Float"])
    for pos, lab, e in spaces.edits(nan, "props", ref.Alpha(True, None)):
        if "NaN" in json.dumps(DOC.js(e)):
            nan = e
            break
    return {
        "world": r.compact_all_kinds(),
        "other world": r.all_kinds(),
        "player": g.doc([("p", LEAVES["Struct"]), ("m", LEAVES["MapNameStruct"]), ("b", LEAVES["ArrByte"]), ("g", LEAVES["ArrGuid"])]),
        "unknown": r.world(r.groups(("EPalGroupType::Neutral", None)), r.map_objects(r.map_object("NoSuchThing"))),
        "nan": nan,
    }


DOCS = documents()


def vandal(x, depth=0):
    """Ruin a document in place, bottom up."""
    if isinstance(x, dict):
        for v in x.values():
            vandal(v, depth + 1)
        x.clear()
        x["ruined"] = depth
    elif isinstance(x, list):
        for v in x:
            vandal(v, depth + 1)
        x[:] = ["ruined"]


def broken(t, how):
    j = json.loads(t)
    w = j["properties"]["worldSaveData"]["value"]
    if how == "no key":
        next(iter(w.values()))["value"][0].clear()
    elif how == "unknown kind":
        next(iter(w.values()))["custom_type"] = ".worldSaveData.NoSuch"
    elif how == "out of range":
        for k in w:
            if "MapObject" in k:
                w[k]["value"]["values"][0]["Model"]["value"]["RawData"]["value"]["hp"]["current"] = 1 << 40
    return j


def build():
    kinds = r.KINDS
    for n, d in DOCS.items():
        b, t = DOC.enc(d), json.dumps(DOC.js(d))
        core = n in ("world", "other world")

        def results(d=d, b=b, t=t, n=n, core=core):
            sels = [("all", None), ("none", frozenset())]
            if core:
                sels += [(k, frozenset([k])) for k in kinds if "Group" in k or "MapObject" in k or "Character" in k]
            for lab, s in sels:
                op(f"read {n} ({lab})", core and lab in ("all", "none"))(lambda s=s: impl.to_json(b, s))
            op(f"read {n} (null)", n == "nan")(lambda: impl.to_json(b, None, False))
            op(f"write {n}", core)(lambda: impl.from_json(t))
            op(f"read and write {n}")(lambda: impl.read(b).write(impl.PALWORLD_CUSTOM_PROPERTIES))
            op(f"write {n} undecoded")(lambda: impl.write(json.loads(json.dumps(DOC.js(d, frozenset())))))

            def ruin():
                gf = impl.read(b)
                vandal(gf.properties)
                vandal(gf.header.custom_versions)

            def ruin_after_write():
                j = json.loads(t)
                gf = impl.GvasFile.load(j)
                out = gf.write(impl.PALWORLD_CUSTOM_PROPERTIES)
                vandal(j)
                return out

            op(f"read and ruin {n}", n == "world")(ruin)
            op(f"write and ruin {n}", n == "world")(ruin_after_write)

        results()
    b, t = DOC.enc(DOCS["world"]), json.dumps(DOC.js(DOCS["world"]))
    for part in (0.02, 0.1, 0.5, 0.9, 0.999):
        op(f"read cut off at {part}", part in (0.5, 0.9))(lambda part=part: impl.to_json(b[: int(len(b) * part)]))
    flipped = bytearray(b)
    flipped[len(b) // 3] ^= 0xFF
    op("read damaged")(lambda: impl.to_json(bytes(flipped)))
    for how in ("no key", "unknown kind", "out of range"):
        op(f"write with {how}", how != "unknown kind")(lambda how=how: impl.write(broken(t, how)))
    p = DOC.enc(DOCS["player"])
    op("read without hints", True)(lambda: json.dumps(impl.GvasFile.read(p).dump(), cls=impl.CustomEncoder))
    op("write without kinds")(lambda: impl.GvasFile.load(json.loads(json.dumps(DOC.js(DOCS["player"])))).write())

    def own_hints():
        hints, kinds = dict(impl.PALWORLD_TYPE_HINTS), dict(impl.PALWORLD_CUSTOM_PROPERTIES)
        out = json.dumps(impl.GvasFile.read(b, hints, kinds).dump(), cls=impl.CustomEncoder)
        hints.clear()
        kinds.clear()
        return out

    op("read with own tables")(own_hints)

    def command(args, files, outs):
        def f(dir):
            for n, x in files.items():
                impl.put(os.path.join(dir, n), x)
            st, _, _ = cli.convert(args, dir)
            return st, {n: content(os.path.join(dir, n)) for n in outs}

        f.dir = True
        return f

    sav = {n: pack(DOC.enc(d), 0x32 if "world" in n else 0x31) for n, d in DOCS.items()}
    js = {n: json.dumps(DOC.js(d)).encode() for n, d in DOCS.items()}
    some = ",".join(k for k in kinds if "Group" in k)
    for n in ("world", "player", "nan"):
        op(f"command to JSON {n}", n == "world")(command(["a.sav"], {"a.sav": sav[n]}, ["a.sav.json"]))
        op(f"command to JSON {n} some")(command(["a.sav", "--custom-properties", some, "--minify-json"], {"a.sav": sav[n]}, ["a.sav.json"]))
        op(f"command to JSON {n} null")(command(["a.sav", "--convert-nan-to-null"], {"a.sav": sav[n]}, ["a.sav.json"]))
        op(f"command to save {n}", n == "world")(command(["a.sav.json"], {"a.sav.json": js[n]}, ["a.sav"]))
    op("command no input")(command(["nothing.sav"], {}, ["nothing.sav.json"]))
    op("command broken save")(command(["a.sav"], {"a.sav": sav["world"][:-9]}, ["a.sav.json"]))
    op("command broken JSON")(command(["a.sav.json"], {"a.sav.json": js["world"][:-9]}, ["a.sav"]))
    op("command bad option")(command(["a.sav", "--to-json", "--from-json"], {"a.sav": sav["world"]}, ["a.sav.json"]))

    shared = {"list": list(kinds), "all": ["all"]}

    def function(name, **kw):
        def f(dir):
            args = {k: shared[v] if k == "custom_properties_keys" else v for k, v in kw.items()}
            a, j, back = (os.path.join(dir, x) for x in ("f.sav", "f.json", "g.sav"))
            impl.put(a, sav[name])
            impl.file_to_json(a, j, **args)
            impl.file_from_json(j, back)
            return content(j), content(back)

        f.dir = True
        return f

    for n in ("world", "player"):
        # as a script using the package: with the defaults, and with one list for all its calls
        op(f"function {n}", n == "world")(function(n))
        op(f"function {n} minified")(function(n, minify=True))
        op(f"function {n} all")(function(n, custom_properties_keys="all"))
        op(f"function {n} listed")(function(n, custom_properties_keys="list"))
        op(f"function {n} null")(function(n, allow_nan=False))

    def twin(i, how):
        """A file with the name, size and time another one had."""
        d = g.doc([("p", ("Int", None, 5 + i)), ("q", ("Str", None, "ab"[i] * 9))])
        b, t = DOC.enc(d), json.dumps(DOC.js(d)).encode()

        def f(dir):
            a, back = os.path.join(dir, "t.in"), os.path.join(dir, "t.out")
            impl.put(a, pack(b, 0x31, level=0) if how == "read" else t)
            os.utime(a, (1700000000, 1700000000))
            (impl.file_to_json if how == "read" else impl.file_from_json)(a, back)
            return content(back)

        f.dir = True
        return f

    for i in (0, 1):
        for how in ("read", "write"):
            op(f"{how} file twin {i}", True)(twin(i, how))

    def same_tables():
        kinds = impl.PALWORLD_CUSTOM_PROPERTIES
        first = json.dumps(impl.GvasFile.read(b, impl.PALWORLD_TYPE_HINTS, kinds).dump(), cls=impl.CustomEncoder)
        gf = impl.GvasFile.load(json.loads(first))
        out = gf.write(kinds)
        return first, out, out == gf.write(kinds)

    op("read and write twice with the tool's tables")(same_tables)

    def resave(dir):
        from palworld_save_tools.commands import resave_test

        impl.put(os.path.join(dir, "r.sav"), sav["world"])
        return cli.run(resave_test.main, ["resave", os.path.join(dir, "r.sav")], dir)[0]

    resave.dir = True
    op("resave")(resave)


def aliases():
    """Families of documents that a cache or table keyed too coarsely would mix up."""
    texts = ["ba", "\u6162", "Ba", "BA", "ba ", " ba", "ab", "b\0a", "\u00e9", "e\u0301", "E\u0301", "1", "1.0", "True", "", "None", "null", ref.guid_text(ref.G1), ref.guid_text(ref.G1).upper(), "\ud83d\ude00", "\ud83d", "ss", "\u00df"]
    out = [(k + ascii(t), g.doc([("p", (k, None, t))])) for k in ("Str", "Name") for t in texts]
    out += [("name " + ascii(t), g.doc([(t, ("Int", None, 1))])) for t in texts if t not in ("", "None")]
    out += [("enum " + ascii(t), g.doc([("p", ("Enum", None, *t))])) for t in (("A", "B::C"), ("A::B", "C"), ("A", "C"), ("B", "C"), ("C", "A"))]
    yield "texts", out
    # equal or alike to Python, or the same bytes
    out = [(f"Int {v}", g.doc([("p", ("Int", None, v))])) for v in (0, 1, -1, 0x3F800000, 0x6162)]
    out += [(f"Int64 {v}", g.doc([("p", ("Int64", None, v))])) for v in (0, 1, -1, 0x3FF0000000000000, -(1 << 63))]
    out += [(f"Fixed {v}", g.doc([("p", ("Fixed", None, v))])) for v in (0, 1, -1)]
    out += [(f"Float {v:x}", g.doc([("p", ("Float", None, v))])) for v in (0, 0x80000000, 0x3F800000, 1, 0xBF800000, 0x7F800000, 0x7FC00000)]
    out += [(f"Bool {v}", g.doc([("p", ("Bool", None, v))])) for v in (0, 1)]
    out += [(f"DateTime {v}", g.doc([("p", ("Struct", "DateTime", ref.G0, None, v))])) for v in (0, 1, (1 << 64) - 1)]
    zero, minus = 0, 1 << 63
    one = ref.f64bits(1.0)
    for v in ((zero,) * 3, (minus,) * 3, (one, zero, minus), (one, minus, zero), (zero, one, zero)):
        out.append((f"Vector {v}", g.doc([("p", ("Struct", "Vector", ref.G0, None, v))])))
    for v in (ref.G0, ref.G1, ref.G2, ref.G1[::-1]):
        out += [(f"Guid {v.hex()}", g.doc([("p", ("Struct", "Guid", ref.G0, None, v))])), (f"id {v.hex()}", g.doc([("p", ("Int", v, 1))])), (f"struct id {v.hex()}", g.doc([("p", ("Struct", "Guid", v, None, ref.G1))]))]
    yield "numbers", out
    # one place, different kinds of data
    yield "kinds", [(k, spaces.one(k, p)) for k, p in LEAVES.items()]
    yield "places", list(r.location_bases())
    fams = {}
    for unknown in (False, True):
        for fam, lab, d in r.record_bases(unknown):
            fams.setdefault(fam, []).append((lab, d))
    for fam, ds in fams.items():
        yield fam, ds


def content(p):
    return impl.get(p) if os.path.exists(p) else None


build()


def units(tier):
    names = list(OP)
    yield "alone", ("alone", None)
    for a in names:
        yield f"{a}; x", ("after", (a,), names, 1)
    for fam, ds in aliases():
        for lab, d in ds:
            yield f"alias {fam} {lab}", ("alias", (lab, d), ds)
    deep = names if tier == "thorough" else CORE
    for a in deep:
        for b in deep:
            yield f"{a}; {b}; x", ("after", (a, b), deep, 1)
    if tier == "thorough":
        for seq in itertools.product(CORE, repeat=3):
            yield f"{'; '.join(seq)}; x", ("after", seq, CORE, 1)


def perform(name, dir):
    f = OP[name]
    with contextlib.redirect_stdout(io.StringIO()):
        try:
            if getattr(f, "dir", False):
                sub = os.path.join(dir, "c")
                if os.path.exists(sub):
                    shutil.rmtree(sub)
                os.mkdir(sub)
                return "ok", f(sub)
            return "ok", f()
        except (Exception, SystemExit) as e:
            return "failed", type(e).__name__


def fresh(seq, dir):
    """Results of the conversions of a sequence, in a process of its own."""
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        st = 3
        try:
            os.close(rd)
            out = [perform(n, dir) for n in seq]
            with os.fdopen(wr, "wb") as f:
                pickle.dump(out, f)
            st = 0
        finally:
            os._exit(st)
    os.close(wr)
    with os.fdopen(rd, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    if not data:
        raise Violation("the process dies", conversions=list(seq))
    return pickle.loads(data)


ALONE = {}


def alone(name, dir):
    if name not in ALONE:
        ALONE[name] = fresh([name], dir)[0]
    return ALONE[name]


def there_and_back(b):
    t = impl.to_json(b)
    return t, impl.from_json(t)


def alias(payload, cx):
    """Any other document of the family after this one, forwards, both ways, and twice."""
    _, (lab, d), ds = payload
    first = DOC.enc(d)
    for lab2, e in ds:
        b = DOC.enc(e)
        cx.state((lab, lab2, "alias"))
        cx.transition(2)
        cx.trace()
        OP["first"], OP["second"] = lambda: there_and_back(first), lambda: there_and_back(b)
        _, (st, got) = fresh(["first", "second"], cx.scratch)
        del OP["first"], OP["second"]
        if st != "ok" or got[1] != b or impl.same(json.loads(got[0]), DOC.js(e)):
            raise Violation(
                "a conversion's result depends on earlier ones",
                conversions=[lab, lab2],
                expected=json.dumps(DOC.js(e))[:400],
                after_the_other=str(got)[:400],
            )


def run(payload, cx):
    kind, seq = payload[:2]
    if kind == "alone":
        for n, d in DOCS.items():
            b = DOC.enc(d)
            for name, want in ((f"write {n}", b), (f"read and write {n}", b), (f"write {n} undecoded", b)):
                if alone(name, cx.scratch) != ("ok", want):
                    raise Violation("a conversion gives another save than the document's", conversion=name, result=str(alone(name, cx.scratch))[:300])
            for lab, sel in (("all", None), ("none", frozenset())):
                st, t = alone(f"read {n} ({lab})", cx.scratch)
                if st != "ok" or impl.same(json.loads(t), DOC.js(d) if sel is None else DOC.js(d, sel)):
                    raise Violation("a conversion gives other JSON than the document's", conversion=f"read {n} ({lab})", result=str(t)[:300])
        for n in OP:
            cx.outcome(alone(n, cx.scratch)[0])
        return
    if kind == "alias":
        return alias(payload, cx)
    _, _, last, _ = payload
    for x in last:
        whole = (*seq, x)
        got = fresh(whole, cx.scratch)
        cx.state(whole)
        cx.transition(len(whole))
        cx.trace()
        for i, n in enumerate(whole):
            want = alone(n, cx.scratch)
            if got[i] != want:
                raise Violation(
                    "a conversion's result depends on earlier ones",
                    conversions=list(whole[: i + 1]),
                    alone=str(want)[:400],
                    after_the_others=str(got[i])[:400],
                )
    cx.sample({"conversions": list(whole)})

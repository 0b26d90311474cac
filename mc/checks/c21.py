"""See DESIGN.md, C21."""

import json
import os

from .. import generic as g, impl, records as r, ref, sched, spaces
from ..core import Violation
from ..generic import DOC, LEAVES
from .c10 import pack, parse

ID = "C21"
LEVEL = "model_checking"
BOUND = (
    "two threads, scheduling points at every line of the tool (quick: the first arrival at a line from the same caller or, in small conversions, two callers): all schedules with at most 1 preemption of conversions (SAV to JSON and back) of every record kind "
    "next to a conversion of the same kind with other values, and of every kind within a record family next to the family's previous kind, and of records nested in records next to one with other settings; all schedules with at most 2 preemptions of small conversions that differ in options, "
    "direction and outcome; thorough: also points at every bytecode instruction with 1 preemption, 2 preemptions on more pairs, and three threads"
)
ASSUMPTIONS = [
    "a step is a line (thorough: also an instruction) of the tool's Python code; the standard library's steps in between are atomic",
    "the interpreter runs one thread at a time (GIL)",
]
TECHNIQUE = "stateless model checking: preemption-bounded systematic exploration of thread schedules on the implementation"


def variant(d):
    """The same kind of document with as many values as possible changed, one edit after another."""
    for s in spaces.focus_schemas(d) or ["props"]:
        seen = ()
        for _ in range(40):
            for pos, lab, e in spaces.edits(d, s, "small"):
                if pos > seen and DOC.enc(e) != DOC.enc(d):
                    d, seen = e, pos
                    break
            else:
                break
    return d




def job(kind, d):
    b, sel = DOC.enc(d), frozenset()
    if kind == "read":
        return lambda: impl.to_json(b)
    if kind == "read undecoded":
        return lambda: impl.to_json(b, sel)
    if kind == "read null":
        return lambda: impl.to_json(b, None, False)
    if kind == "read without hints":
        return lambda: impl.text(impl.GvasFile.read(b, {}, impl.PALWORLD_CUSTOM_PROPERTIES))
    if kind == "read cut off":
        return lambda: impl.to_json(b[:-12])
    t = json.dumps(DOC.js(d))
    if kind == "read properties":
        p = g.PROPS.enc(d[1])

        def properties():
            with impl.archive.FArchiveReader(p, impl.PALWORLD_TYPE_HINTS, impl.PALWORLD_CUSTOM_PROPERTIES) as x:
                return json.dumps(x.properties_until_end(), cls=impl.CustomEncoder)

        return properties
    if kind == "write properties":

        def properties():
            w = impl.archive.FArchiveWriter(impl.PALWORLD_CUSTOM_PROPERTIES)
            w.properties(json.loads(t)["properties"])
            return w.bytes()

        return properties
    if kind == "write":
        return lambda: impl.from_json(t)
    if kind == "write fails":
        return lambda: impl.from_json(t.replace('"type"', '"tpye"'))
    if kind == "both":

        def both():
            t = impl.to_json(b)
            return t, impl.from_json(t)

        return both
    raise ValueError(kind)


def nan_doc():
    d = g.doc([("n", LEAVES["Float"])])
    for _, _, e in spaces.edits(d, "props", "full"):
        if "NaN" in json.dumps(DOC.js(e)):
            return e
    raise ValueError


def small_pairs(tier):
    grp = r.world(r.groups(("EPalGroupType::Neutral", None)))
    grp2 = variant(grp)
    st = spaces.one("s", LEAVES["Struct"])
    m = spaces.one("m", LEAVES["MapNameStruct"])
    n = nan_doc()
    a = spaces.one("a", LEAVES["ArrName"])
    txt = g.doc([("p", ("Str", None, "text")), ("q", ("Str", None, "é"))])
    yield "NaN kept / NaN to null", ("read", n), ("read null", n)
    yield "struct written / text written", ("write properties", st), ("write properties", txt)
    yield "struct read / map written", ("read properties", st), ("write properties", m)
    yield "array read / cut off", ("read properties", a), ("read cut off", txt)
    for k in ("Str", "Enum", "Bool", "Struct", "Vector", "Guid", "ArrName", "ArrByte", "ArrStruct", "MapNameStruct", "MapStructInt"):
        x = spaces.one("p", LEAVES[k])
        yield f"{k} read / the same read", ("read properties", x), ("read properties", x)
        yield f"{k} written / another written", ("write properties", x), ("write properties", variant(x))
    yield "text written / failing write", ("write properties", txt), ("write fails", st)
    if tier == "thorough":
        yield "group decoded / left raw", ("read", grp), ("read undecoded", grp2)
        yield "group written / another written", ("write", grp), ("write", grp2)
        docs = {k: spaces.one("p", p) for k, p in LEAVES.items()}
        names = list(docs)
        for i, k in enumerate(names):
            yield f"{k} / {names[i - 1]}", ("write", docs[k]), ("write", docs[names[i - 1]])
            yield f"{k} read / written", ("read", docs[k]), ("write", variant(docs[k]))


def families():
    seen = set()
    some = ("Float", "Enum", "Bool", "Struct", "Vector", "ArrEnum", "ArrByte", "ArrStruct", "MapStructStruct", "MapNameStruct", "MapEnumInt")
    yield "ordinary properties", g.doc([(k, LEAVES[k]) for k in some])
    for u in (False, True):
        for fam, lab, d in r.record_bases(u):
            b = DOC.enc(d)
            if (u, fam) not in seen and b not in seen:
                seen |= {(u, fam), b}
                yield f"{fam} {lab}{' unknown' if u else ''}", d


def rings(tier):
    """Each kind of every record next to the following kind of the same record."""
    fams = {}
    for u in (False, True) if tier == "thorough" else (False,):
        for fam, lab, d in r.record_bases(u):
            fams.setdefault((u, fam), []).append((lab, d))
    for (u, fam), ds in fams.items():
        if len(ds) > 1:
            for i, (lab, d) in enumerate(ds):
                yield f"{fam} {lab} / {ds[i - 1][0]}{' unknown' if u else ''}", d, ds[i - 1][1]


def settings(tier):
    """A conversion of data nested in records next to one with another setting."""
    inner = [r.characters(), r.item_containers(), r.groups(("EPalGroupType::Neutral", None))]
    nested = r.world(r.characters((r.world(*inner)[1], b"\0\1\2\3", bytes(range(16)))))
    for a in ("read", "both"):
        yield f"{a} nested / without hints", (a, nested), ("read without hints", r.world(r.groups(("EPalGroupType::Neutral", None))))
        yield f"{a} nested / undecoded", (a, nested), ("read undecoded", nested)
        yield f"{a} nested / NaN to null", (a, nested), ("read null", nested)
        yield f"{a} nested / cut off", (a, nested), ("read cut off", nested)


def units(tier):
    yield "alone", ("alone", [("both", r.compact_all_kinds()), ("read null", r.compact_all_kinds())])
    for lab, d in families():
        for part in range(8):
            yield f"{lab} {part}", ("one", [("both", d), ("both", variant(d))], part, 8, False)
    for lab, a, b in rings(tier):
        for part in range(4):
            yield f"{lab} {part}", ("ring", [("both", a), ("both", b)], part, 4, False)
    for part in range(16):
        yield f"worlds {part}", ("one", [("both", r.compact_all_kinds()), ("read undecoded", r.compact_all_kinds())], part, 32 if tier == "quick" else 16, False)
    for lab, a, b in small_pairs(tier):
        for part in range(32):
            yield f"{lab} {part}", ("two", [a, b], part, 32, False)
    for lab, a, b in settings(tier):
        for part in range(4):
            yield f"{lab} {part}", ("one", [a, b], part, 4, False)
    yield "commands", ("files", None)
    if tier == "thorough":
        for lab, d in families():
            for part in range(32):
                yield f"{lab} by instruction {part}", ("one", [("both", d), ("both", variant(d))], part, 32, True)
        for lab, a, b in list(small_pairs("quick")):
            for part in range(32):
                yield f"three threads {lab} {part}", ("three", [a, b, a], part, 32, False)




def alone(jobs):
    out = []
    for k, d in jobs:
        f = job(k, d)
        first = sched.Run([f], []).go()[0]
        # each job alone is what the model says
        b = DOC.enc(d)
        ok = True
        if k in ("read", "both", "read undecoded", "read without hints"):
            t = first[1][0] if k == "both" else first[1]
            ok = first[0] == "ok" and not impl.same(json.loads(t), DOC.js(d, frozenset()) if k == "read undecoded" else DOC.js(d))
        if k in ("write", "both"):
            ok = ok and first[0] == "ok" and (first[1][1] if k == "both" else first[1]) == b
        if k == "read properties":
            ok = first[0] == "ok" and not impl.same(json.loads(first[1]), DOC.js(d)["properties"])
        if k == "write properties":
            ok = first == ("ok", g.PROPS.enc(d[1]))
        if k in ("write fails", "read cut off"):
            ok = first[0] == "failed"
        if not ok:
            raise Violation("a conversion run alone is wrong", job=k, result=str(first)[:500])
        out.append(first)
    return out


def points(jobs, opcodes, times, depth):
    """The scheduling points of each job: all (times None) or the first `times` per call stack."""
    out = []
    for k, d in jobs:
        run = sched.Run([job(k, d)], [], opcodes)
        run.places = []
        run.go()
        seen, ps = {}, []
        for i, p in enumerate(run.places):
            p = p[:depth] if times else p
            seen[p] = seen.get(p, 0) + 1
            if times is None or seen[p] <= times:
                ps.append(i)
        out.append(ps + [len(run.places)])
    return out


def check(jobs, fs, want, plan, opcodes, cx):
    run = sched.Run(fs, plan, opcodes, light=True)
    got = run.go()
    cx.trace()
    cx.transition(sum(run.points))
    cx.count("switches", run.switches)
    for i, w in enumerate(want):
        if got[i] != w:
            raise Violation(
                "a conversion gives another result next to another one",
                jobs=[k for k, _ in jobs],
                schedule=plan,
                thread=i,
                alone=str(w)[-600:],
                concurrent=str(got[i])[-600:],
            )


def run(payload, cx):
    kind, jobs = payload[:2]
    if kind == "alone":
        alone(jobs)
        return
    if kind == "files":
        return files(cx)
    _, _, part, parts, opcodes = payload
    want = alone(jobs)
    fs = [job(*j) for j in jobs]
    n = points(jobs, opcodes, None if cx.thorough else 1, {"one": 2, "ring": 1}.get(kind, 3))
    key = tuple((k, DOC.enc(d)) for k, d in jobs)
    if kind in ("one", "ring"):
        for a in range(len(jobs) if kind == "one" else 1):
            for k in n[a][part::parts]:
                cx.limit(120)
                check(jobs, fs, want, [(a, k), (1 - a, None)], opcodes, cx)
                cx.state((key, a, k))
    elif kind == "two":
        for a in (0, 1):
            for k in n[a][part::parts]:
                cx.limit(120)
                for m in n[1 - a][1:-1]:
                    check(jobs, fs, want, [(a, k), (1 - a, m), (a, None)], opcodes, cx)
                    cx.state((key, a, k, m))
    else:
        # three threads, one preemption each of the first two
        for k in n[0][part::parts]:
            cx.limit(120)
            for m in n[1][1:-1:3]:
                check(jobs, fs, want, [(0, k), (1, m), (2, None), (0, None)], opcodes, cx)
                cx.state((key, k, m))
    alone(jobs)  # and nothing is left behind
    cx.sample({"jobs": [k for k, _ in jobs], "points": [len(x) for x in n]})


def files(cx):
    """The command's own functions on different files."""
    d, e = spaces.one("s", LEAVES["Struct"]), r.world(r.groups(("EPalGroupType::Neutral", None)))
    old, base = os.getcwd(), cx.scratch
    os.chdir(base)
    try:
        for relative in (False, True):
            pairs(cx, d, e, base, relative)
    finally:
        os.chdir(old)


def pairs(cx, d, e, base, relative):
    def place(name):
        """The path to give, and where that is."""
        p = os.path.join(base, name[0], name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        return (os.path.join(name[0], name) if relative else p), p

    def to_json(name, doc, kind):
        p, real = place(name)
        impl.put(real, pack(DOC.enc(doc), kind))

        def f():
            if os.path.exists(real + ".json"):
                os.unlink(real + ".json")
            impl.file_to_json(p, p + ".json", minify=True)
            return impl.get(real + ".json")

        return f

    def to_save(name, doc):
        p, real = place(name)
        impl.put(real, json.dumps(DOC.js(doc)).encode())

        def f():
            if os.path.exists(real + ".out"):
                os.unlink(real + ".out")
            impl.file_from_json(p, p + ".out")
            return parse(impl.get(real + ".out"))

        return f

    for fs in ([to_json("a.sav", d, 0x31), to_json("b.sav", e, 0x32)], [to_save("c.json", d), to_save("d.json", e)], [to_json("a.sav", d, 0x31), to_save("d.json", e)]):
        want = [sched.Run([f], []).go()[0] for f in fs]
        if any(w[0] != "ok" for w in want):
            raise Violation("a conversion run alone fails", results=str(want)[:500])
        n = []
        for f in fs:
            x = sched.Run([f], [])
            x.go()
            n.append(x.points[0])
        for a in (0, 1):
            for k in range(0, n[a] + 1):
                cx.limit(120)
                check([("file", None)] * 2, fs, want, [(a, k), (1 - a, None)], False, cx)
                cx.state(("files", relative, a, k, n[a]))

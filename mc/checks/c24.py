"""See DESIGN.md, C24."""

import ast
import contextlib
import importlib.util
import io
import itertools
import json
import os
import shutil
import subprocess
import sys

from .. import core
from ..core import Violation

ID = "C24"
LEVEL = "model_checking"
BOUND = (
    "all graphs of 3 blueprints (thorough: also 4), each naming no concrete model, one of 2 native classes, another blueprint or a missing one, and "
    "having a native parent, another blueprint or a missing one as parent (without cycles), under a table with objects of every blueprint, "
    "without blueprint and with an unknown one; all graphs of 2 with entries missing; spellings, entry orders and folders; an object of 15 other types under 5 names before or after the real ones"
)
ASSUMPTIONS = [
    "blueprint inheritance is acyclic",
    "what an object maps to when the class it names itself cannot be found is unspecified, except that it is no native class",
]

SCRIPT = os.path.join(core.REPO, "scripts", "extract_map_object_concrete_classes.py")
DEFAULT = "DEFAULT_UNKNOWN_PalMapObjectConcreteModelBase"
main = None


def setup(cx):
    global main
    spec = importlib.util.spec_from_file_location("verif_extract", SCRIPT)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    main = m.main


# A blueprint: (name, concrete, parent, has_default, has_class); a reference: ("native", n) | ("gen", name)
NAMES = ["BP_MapObject_A", "BP_BuildObject_B", "BP_C", "BP_D"]
NATIVE = ["PalMapObjectTorchModel", "PalMapObjectItemChestModel"]


def acyclic(bps):
    for b in bps:
        seen, x = set(), b
        while x is not None:
            if x[0] in seen:
                return False
            seen.add(x[0])
            x = next((y for y in bps if x[2] == ("gen", y[0])), None)
    return True


def graphs(n, flags=False):
    names = NAMES[:n]
    gens = [("gen", x) for x in names] + [("gen", "BP_Missing")]
    concretes = [None, *(("native", x) for x in NATIVE), *gens]
    parents = [("native", "PalBuildObject"), *gens]
    fl = list(itertools.product((True, False), repeat=2)) if flags else [(True, True)]
    options = list(itertools.product(concretes, parents, fl))
    for combo in itertools.product(options, repeat=n):
        bps = [(names[i], c, p, *f) for i, (c, p, f) in enumerate(combo)]
        if acyclic(bps):
            yield bps


def chunks(it, n):
    it = iter(it)
    while c := list(itertools.islice(it, n)):
        yield c


def units(tier):
    for i, c in enumerate(chunks(graphs(1), 200)):
        yield f"1 blueprint {i}", ("graphs", c)
    for i, c in enumerate(chunks(graphs(2, True), 200)):
        yield f"2 blueprints with gaps {i}", ("graphs", c)
    for i, c in enumerate(chunks(graphs(3), 200)):
        yield f"3 blueprints {i}", ("graphs", c)
    if tier == "thorough":
        for i, c in enumerate(chunks(graphs(4), 200)):
            yield f"4 blueprints {i}", ("graphs", c)
    yield "spellings", ("spellings", None)
    yield "chains", ("chains", None)
    for n in (1, 2):
        for i, c in enumerate(chunks((x for x in graphs(n) if n == 1 or x[0][1] is None or x[0][1] == ("gen", NAMES[1])), 8)):
            yield f"strays of {n} {i}", ("strays", c)


# ---------------------------------------------------------------- reference


def low(name):
    return name.lower()


def resolve(ref, by):
    """The native class a reference stands for, or None."""
    if ref[0] == "native":
        return ref[1]
    b = by.get(low(ref[1]))
    if b is None or not b[4]:
        return None
    return resolve(b[2], by)


UNSPECIFIED = object()


def expected(rows, bps):
    by = {low(b[0]): b for b in bps}
    out = {}
    for name, asset, cls in rows:
        b = by.get(low(cls))
        if asset == "None" or b is None or not b[3]:
            continue
        if b[1] is not None:
            n = resolve(b[1], by)
            out[low(name)] = UNSPECIFIED if n is None else n
            continue
        if not b[4]:
            continue
        parent = b[2]
        if parent[0] == "native":
            out[low(name)] = parent[1]
            continue
        p = by.get(low(parent[1]))
        n = resolve(p[1], by) if p is not None and p[3] and p[1] is not None else None
        out[low(name)] = DEFAULT if n is None else n
    return out


# ---------------------------------------------------------------- export tree


def reference(ref, spell=lambda x: x):
    if ref[0] == "native":
        return {"ObjectName": f"Class'{ref[1]}'", "ObjectPath": "/Script/Pal"}
    return {"ObjectName": f"BlueprintGeneratedClass'{spell(ref[1])}_C'", "ObjectPath": f"Pal/Content/{ref[1]}.0"}


def entries(b, spell=lambda x: x):
    name, concrete, parent, has_default, has_class = b
    out = []
    if has_class:
        out.append({"Type": "BlueprintGeneratedClass", "Name": f"{name}_C", "SuperStruct": reference(parent, spell), "ClassDefaultObject": {}})
    if has_default:
        props = {"bIsHidden": True}
        if concrete is not None:
            props["ConcreteModelClass"] = reference(concrete, spell)
        out.append({"Type": f"{name}_C", "Name": f"Default__{name}_C", "Properties": props})
    out.append({"Type": "SceneComponent", "Name": "Root_GEN_VARIABLE", "Properties": {"ConcreteModelClass": {"ObjectName": "Class'Wrong'"}}})
    return out


# objects of other types a blueprint's file can hold, looking like the real ones
KINDS = [
    "WidgetBlueprintGeneratedClass",
    "AnimBlueprintGeneratedClass",
    "BlueprintGeneratedClass2",
    "blueprintgeneratedclass",
    "Blueprint",
    "Class",
    "Function",
    "ScriptStruct",
    "PalMapObject",
    "",
    "Default__{}_C",
    "{}",
    "{}_C_Other",
    "Other_{}_C",
    "Other_C",
]
STRAY_NAMES = ["{}_C", "Default__{}_C", "{}", "Stray", "Default__Stray_C"]


def strays(b):
    for kind in KINDS:
        for name in STRAY_NAMES:
            yield {
                "Type": kind.format(b[0]),
                "Name": name.format(b[0]),
                "SuperStruct": {"ObjectName": "Class'Wrong'", "ObjectPath": "/Script/Pal"},
                "ClassDefaultObject": {},
                "Properties": {"ConcreteModelClass": {"ObjectName": "Class'Wrong'", "ObjectPath": "/Script/Pal"}},
            }


def table(rows):
    return [{"Type": "DataTable", "Rows": {n: {"BlueprintClassName": c, "BlueprintClassSoft": {"AssetPathName": a, "SubPathString": ""}} for n, a, c in rows}}]


TABLE = "Pal/Content/Pal/DataTable/MapObject"
BLUE = "Pal/Content/Pal/Blueprint"


def write(root, path, value):
    p = os.path.join(root, path)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, "w", encoding="utf8") as f:
        json.dump(value, f)


def build(root, rows, bps, spell=lambda x: x, order=None, folder="", stray=None):
    if os.path.exists(root):
        shutil.rmtree(root)
    write(root, f"{TABLE}/DT_MapObjectMasterDataTable.json", table(rows))
    os.makedirs(os.path.join(root, BLUE), exist_ok=True)
    for i, b in enumerate(bps):
        es = entries(b, spell)
        if order:
            es = [es[k] for k in order if k < len(es)]
        if stray:
            es = stray(b, es)
        write(root, f"{BLUE}/{folder if i else ''}{b[0]}.json", es)


def extract(root):
    out = io.StringIO()
    old = sys.argv
    sys.argv = ["extract", root]
    try:
        with contextlib.redirect_stdout(out):
            main()
    except SystemExit as e:
        if e.code:
            raise Violation("the script fails", status=e.code)
    except Exception as e:
        raise Violation("the script fails", error=f"{type(e).__name__}: {e}") from e
    finally:
        sys.argv = old
    return ast.literal_eval(out.getvalue().strip().splitlines()[-1])


def compare(got, rows, bps):
    want = expected(rows, bps)
    bad = {k: got.get(k, "(left out)") for k, w in want.items() if w is not UNSPECIFIED and got.get(k, "(left out)") != w}
    bad |= {k: v for k, v in got.items() if k not in want}
    bad |= {k: got[k] for k, w in want.items() if w is UNSPECIFIED and got.get(k) not in (None, DEFAULT)}
    if bad:
        raise Violation("wrong classes", objects=bad, wanted={k: str(want.get(k, "(left out)")) for k in bad}, blueprints=bps, rows=rows)


def rows_for(bps):
    rows = []
    for b in bps:
        rows.append((f"Obj_{b[0]}", f"/Game/{b[0]}.{b[0]}_C", b[0]))
    rows.append(("NoBlueprint", "None", bps[0][0]))
    rows.append(("Unknown", "/Game/X.X_C", "BP_Nowhere"))
    rows.append(("Second", "/Game/Y.Y_C", bps[-1][0].upper()))
    return rows


def run(payload, cx):
    kind, bs = payload
    root = os.path.join(cx.scratch, "export")
    if kind == "graphs":
        for bps in bs:
            rows = rows_for(bps)
            build(root, rows, bps)
            compare(extract(root), rows, bps)
            cx.state(bps)
            cx.trace()
            cx.transition(len(bps))
        cx.sample({"blueprints": bps, "mapping": {k: str(v) for k, v in expected(rows, bps).items() if v is not UNSPECIFIED}})
        return
    if kind == "strays":
        for bps in bs:
            rows = rows_for(bps)
            for i in range(len(KINDS) * len(STRAY_NAMES)):
                # entries are told apart by name: one that takes a real one's name replaces it
                real = {e["Name"] for e in entries(bps[0])}
                if list(strays(bps[0]))[i]["Name"] in real:
                    continue
                for stray in (lambda b, es: [list(strays(b))[i]] + es, lambda b, es: es + [list(strays(b))[i]]):
                    build(root, rows, bps, stray=stray)
                    compare(extract(root), rows, bps)
                    cx.state(("stray", bps, i, stray is None))
                    cx.trace()
                    cx.transition()
        return
    if kind == "chains":
        # long chains of parents below a native class, and wide tables
        for n in (5, 20, 60):
            bps = [(f"BP_{i}", ("gen", "BP_0") if i == n - 1 else None, ("gen", f"BP_{i + 1}") if i < n - 2 else ("native", NATIVE[0]), True, True) for i in range(n)]
            rows = rows_for(bps)
            build(root, rows, bps)
            compare(extract(root), rows, bps)
            cx.state(("chain", n))
            cx.trace()
        build(root, [], bps)
        compare(extract(root), [], bps)
        # as a process
        bps = next(graphs(3))
        rows = rows_for(bps)
        build(root, rows, bps)
        p = subprocess.run([sys.executable, SCRIPT, root], capture_output=True, env={**os.environ, "PYTHONDONTWRITEBYTECODE": "1"})
        if p.returncode:
            raise Violation("the script fails as a process", errors=p.stderr[-500:])
        compare(ast.literal_eval(p.stdout.decode().strip().splitlines()[-1]), rows, bps)
        cx.trace()
        return
    base = [
        (NAMES[0], ("gen", NAMES[1]), ("gen", NAMES[2]), True, True),
        (NAMES[1], ("native", NATIVE[1]), ("gen", NAMES[2]), True, True),
        (NAMES[2], None, ("native", NATIVE[0]), True, True),
        (NAMES[3], None, ("gen", NAMES[1]), True, True),
    ]
    for spell in (lambda x: x, str.lower, str.upper, str.swapcase):
        for order in itertools.permutations(range(3)):
            for folder in ("", "Sub/", "Deep/er/"):
                for row in (lambda x: x, str.lower, str.upper):
                    for files in (lambda x: x, str.lower, str.upper):
                        bps = [(files(b[0]), *b[1:]) for b in base]
                        rows = [(row(n), a, row(c)) for n, a, c in rows_for(base)]
                        build(root, rows, bps, spell, order, folder)
                        # other files lie around, too
                        write(root, f"{BLUE}/{folder}Readme.txt", "no data")
                        write(root, f"{BLUE}/{folder}Empty.json", [])
                        compare(extract(root), rows, bps)
                        cx.state((spell("Aa"), order, folder, row("Aa"), files("Aa")))
                        cx.trace()

"""See DESIGN.md, C17."""

import itertools
import json
import os
import shutil
import subprocess
import sys

from .. import cli, core, generic as g, impl, records as r, ref, spaces
from ..core import Violation
from ..generic import DOC, LEAVES
from .c10 import pack, parse

ID = "C17"
LEVEL = "model_checking"
BOUND = (
    "every combination of {performance library, standard library only} x DEBUG {unset, 0, 1} x 3 hash seeds x 5 locale and "
    "encoding settings x 3 working directories x {indented, minified}, each on every property kind, record kind and variant, "
    "unknown data and odd text (quick: a third of the documents per combination, so that every document meets every value of "
    "every setting); 10 sets of other environment variables (optimisation, warnings as errors, development mode, time zone, no home ...), each on every document; every document with 12 JSON formattings and with every record's keys reversed, rotated and sorted"
)
ASSUMPTIONS = ["order of properties inside a property list is data, every other key order is formatting"]

LOCALES = {
    "utf8": {"LC_ALL": "C.UTF-8"},
    "C": {"LC_ALL": "C"},
    "ascii": {"LC_ALL": "C", "PYTHONCOERCECLOCALE": "0", "PYTHONUTF8": "0"},
    "cp1252": {"PYTHONIOENCODING": "cp1252"},
    "utf8 mode": {"PYTHONUTF8": "1", "LC_ALL": "POSIX"},
}
# settings that concern other things; each is met by every document
OTHERS = {
    "none": {},
    "optimised": {"PYTHONOPTIMIZE": "1"},
    "no docstrings": {"PYTHONOPTIMIZE": "2"},
    "development": {"PYTHONDEVMODE": "1"},
    "warnings": {"PYTHONWARNINGS": "error"},
    "unbuffered": {"PYTHONUNBUFFERED": "1", "PYTHONNOUSERSITE": "1", "PYTHONSAFEPATH": "1"},
    "digits": {"PYTHONINTMAXSTRDIGITS": "640", "PYTHONMALLOC": "debug"},
    "far away": {"TZ": "Pacific/Kiritimati", "HOME": "/nonexistent", "USER": "nobody", "TMPDIR": "/nonexistent", "COLUMNS": "10", "TERM": "dumb"},
    "ci": {"CI": "1", "NO_COLOR": "1", "VERBOSE": "1", "LANG": "tr_TR.UTF-8", "LANGUAGE": "tr", "PYTHONVERBOSE": ""},
    "nothing": {"PATH": "", "HOME": "", "LANG": "", "PWD": ""},
}
BACKENDS = {"default": {}, "stdlib": {"FORCE_STDLIB_ONLY": "1"}}
DEBUGS = {"unset": {}, "0": {"DEBUG": "0"}, "1": {"DEBUG": "1"}}
SEEDS = ("0", "1", "424242")
CWDS = ("scratch", "root", "deep")


def odd():
    for i, t in enumerate(ref.TEXTS_FULL):
        yield f"text {i}", g.doc([("p", ("Str", ref.G2, t)), ("q", ("Enum", None, t, t)), ("r", ("Map", None, "NameProperty", "NameProperty", None, None, ((t, t),)))])
    for i, t in enumerate(("日本", "\U0001f600", "é", "a b", '"')):
        for k in ("MapGuidStruct", "MapStructStruct", "Struct", "ArrStruct"):
            if k in LEAVES:
                yield f"name {i} {k}", g.doc([(t, LEAVES[k])])
    yield "float edges", g.doc([(f"f{i}", ("Float", None, v)) for i, v in enumerate(ref.F32.full)] + [(f"i{i}", ("Int64", None, v)) for i, v in enumerate(ref.I64.full)])


def documents():
    for k, p in LEAVES.items():
        yield k, spaces.one(k, p)
    for u in (False, True):
        for fam, lab, d in r.record_bases(u):
            yield f"{fam} {lab}", d
    yield from r.location_bases()
    yield from spaces.real_states()
    yield from odd()
    yield "all kinds", r.all_kinds()


def units(tier):
    docs = list(documents())
    real = [lab for lab, _ in spaces.real_states()]
    combos = list(itertools.product(BACKENDS, DEBUGS, SEEDS, LOCALES, CWDS, (False, True)))
    for o in OTHERS:
        for m in range(3):
            yield f"environment {o} {m}", ("env", ("default", "unset", "0", "utf8", "scratch", bool(m % 2)), docs[m::3], o)
            yield f"environment {o} stdlib {m}", ("env", ("stdlib", "1", "0", "ascii", "scratch", not m % 2), docs[m::3], o)
    for n, c in enumerate(combos):
        part = docs if tier == "thorough" else docs[(n + n // 3 + n // 9 + n // 27) % 3 :: 3]
        yield f"environment {c}", ("env", c, part)
    for lab, d in docs:
        yield f"formats of {lab}", ("format", d, lab, tier == "thorough" or lab not in real)


def run(payload, cx):
    if payload[0] == "env":
        environment(cx, *payload[1:])
    else:
        formats(cx, *payload[1:])


def environment(cx, combo, docs, other="none"):
    backend, debug, seed, loc, cwd, minify = combo
    root = os.path.join(cx.scratch, "root")
    if os.path.exists(root):
        shutil.rmtree(root)
    work = os.path.join(root, "wörk dir" if loc.startswith("utf8") else "work")
    os.makedirs(os.path.join(work, "deep", "er"))
    where = {"scratch": work, "root": "/", "deep": os.path.join(work, "deep", "er")}[cwd]
    jobs, more = [], []
    for i, (lab, d) in enumerate(docs):
        a, j, b = (os.path.relpath(os.path.join(work, f"{i}{x}"), where) if cwd != "root" else os.path.join(work, f"{i}{x}") for x in (".sav", ".sav.json", ".back"))
        impl.put(os.path.join(work, f"{i}.sav"), pack(DOC.enc(d), 0x31))
        raw = json.dumps(DOC.js(d), ensure_ascii=False)
        try:
            impl.put(os.path.join(work, f"{i}.raw.json"), raw.encode("utf8"))
            plain = [[j.replace(".sav.json", ".raw.json"), "-o", b + "2"]]
        except UnicodeEncodeError:
            plain = []
        more.append(bool(plain))
        jobs.append([[a] + (["--minify-json"] if minify else []), [j, "-o", b], *plain])
    with open(os.path.join(work, "jobs"), "w") as f:
        json.dump(jobs, f)
    env = {k: v for k, v in os.environ.items() if not k.startswith(("PYTHON", "VERIF_", "LC_", "LANG")) and k not in ("DEBUG", "FORCE_STDLIB_ONLY")}
    env.update(PYTHONPATH=core.REPO, PYTHONDONTWRITEBYTECODE="1", PYTHONPYCACHEPREFIX="/nonexistent-cache", PYTHONHASHSEED=seed)
    env.update(BACKENDS[backend] | DEBUGS[debug] | LOCALES[loc] | OTHERS[other])
    script = os.path.join(core.VERIF, "mc", "batch.py")
    p = subprocess.run([sys.executable, script, os.path.join(work, "jobs"), os.path.join(work, "report")], cwd=where, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
    settings = dict(library=backend, debug=debug, hash_seed=seed, locale=loc, cwd=cwd, minify=minify, other=other)
    if p.returncode:
        raise Violation("conversions fail in this environment", settings=settings, error=p.stderr[-1500:].decode("utf8", "replace"))
    with open(os.path.join(work, "report")) as f:
        report = json.load(f)
    for i, (lab, d) in enumerate(docs):
        cx.state((combo, lab, other))
        cx.trace()
        cx.transition(2)
        try:
            if report[i] != [0, 0] + [0] * more[i]:
                raise Violation("a conversion fails in this environment", statuses=report[i])
            with open(os.path.join(work, f"{i}.sav.json"), encoding="utf8") as f:
                t = f.read()
            diff = impl.same(json.loads(t), DOC.js(d))
            if diff:
                raise Violation("the JSON is different in this environment", difference=diff)
            if minify == ("\n" in t):
                raise Violation("the minify option is not respected")
            for back in ("back", "back2") if more[i] else ("back",):
                got = parse(impl.get(os.path.join(work, f"{i}.{back}")))[0]
                if got != DOC.enc(d):
                    raise Violation("the save is different in this environment", **impl.diff_bytes(DOC.enc(d), got))
        except Violation as v:
            v.detail.update(document=lab, settings=settings)
            raise
    cx.sample({"settings": settings, "documents": len(docs)})


def is_property(x):
    return isinstance(x, dict) and isinstance(x.get("type"), str) and x["type"].endswith("Property")


def is_property_list(x):
    return all(is_property(v) for v in x.values())


def reorder(x, f):
    if isinstance(x, dict):
        items = [(k, reorder(v, f)) for k, v in x.items()]
        return dict(items if is_property_list(x) else f(items))
    if isinstance(x, list):
        return [reorder(v, f) for v in x]
    return x


def records(x, path=()):
    if isinstance(x, dict):
        if len(x) > 1 and not is_property_list(x):
            yield path
        for k, v in x.items():
            yield from records(v, path + (k,))
    elif isinstance(x, list):
        for i, v in enumerate(x):
            yield from records(v, path + (i,))


def at(x, path, f):
    if not path:
        return dict(f(list(x.items())))
    if isinstance(x, dict):
        return {k: at(v, path[1:], f) if k == path[0] else v for k, v in x.items()}
    return [at(v, path[1:], f) if i == path[0] else v for i, v in enumerate(x)]


def escape_all(t):
    """Every character of every string as \\uXXXX."""
    out, inside, i = [], False, 0
    while i < len(t):
        c = t[i]
        if not inside:
            inside = c == '"'
            out.append(c)
        elif c == '"':
            inside = False
            out.append(c)
        elif c == "\\":
            out.append(t[i : i + 2])
            i += 1
            if t[i] == "u":
                out.append(t[i + 1 : i + 5])
                i += 4
        else:
            out.append("\\u%04X" % ord(c) if ord(c) < 0x10000 else c)
        i += 1
    return "".join(out)


def formats(cx, d, lab, each):
    j = DOC.js(d)
    b = DOC.enc(d)
    base = json.dumps(j)
    texts = {
        "plain": base,
        "compact": json.dumps(j, separators=(",", ":")),
        "wide": json.dumps(j, separators=(" ,\n ", " :\t")),
        "indent 0": json.dumps(j, indent=0),
        "indent 4": json.dumps(j, indent=4),
        "tabs": json.dumps(j, indent="\t"),
        "crlf": json.dumps(j, indent=1).replace("\n", "\r\n"),
        "padded": "\n\t " + base + " \r\n",
        "escaped": escape_all(base),
        "slashes": base.replace("/", "\\/"),
    }
    raw = json.dumps(j, ensure_ascii=False)
    try:
        raw.encode("utf8")
        texts["raw characters"] = raw
    except UnicodeEncodeError:
        pass
    orders = {"reversed": lambda x: x[::-1], "sorted": lambda x: sorted(x, key=lambda kv: kv[0]), "rotated": lambda x: x[1:] + x[:1]}
    for n, f in orders.items():
        texts[f"all keys {n}"] = json.dumps(reorder(j, f))
    if each and len(base) < 20000:
        for path in records(j):
            for n, f in orders.items():
                texts[f"keys of {path} {n}"] = json.dumps(at(j, path, f))
    for name, t in texts.items():
        cx.state(t.encode())
        cx.trace()
        cx.transition()
        try:
            if name.startswith("keys of"):
                got = impl.must("converting back", impl.from_json, t)
            else:
                js, back = os.path.join(cx.scratch, "x.json"), os.path.join(cx.scratch, "x")
                impl.put(js, t.encode("utf8"))
                impl.must("converting back", impl.file_from_json, js, back)
                got = parse(impl.get(back))[0]
            if got != b:
                raise Violation("the formatting of the JSON changes the save", **impl.diff_bytes(b, got))
        except Violation as v:
            v.detail.update(document=lab, formatting=name)
            raise

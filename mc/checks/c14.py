"""See DESIGN.md, C14."""

import itertools
import json
import os
import shutil

from .. import cli, impl, records as r, spaces
from ..core import Violation
from ..generic import DOC, LEAVES
from .c10 import pack, parse

ID = "C14"
LEVEL = "model_checking"
BOUND = (
    "all combinations of 16 file names, 7 places, 4 kinds of content or absence, 4 direction flag settings, 9 output settings, "
    "force (over nothing, and over a shorter and a longer file), and option order, run in-process; one of each distinct expected result and a set of spellings as a real process; "
    "56 names with characters special elsewhere as input and as output, and 18 arrangements of symbolic links, with every direction and output"
)
ASSUMPTIONS = ["upper-case extensions are left open", "no output file exists beforehand unless --force is given (C15)"]

BASE = spaces.one("p", LEAVES["Struct"])
NAMES = [
    "a.sav",
    "a.json",
    "a.sav.json",
    "a.json.sav",
    "a.json.json",
    "a.sav.sav",
    "a",
    "a.txt",
    "asav",
    "ajson",
    "a.sav.bak",
    "a.json.old",
    "日本 é.sav",
    "sp ace.sav.json",
    ".sav",
    "x.jsonl",
]
PLACES = ["", "./", "sub/", "d.sav/", "d.json/", "sub/../", "ABS"]
FLAGS = [(), ("--to-json",), ("--from-json",), ("--to-json", "--from-json")]
OUTPUTS = [None, "out", "out.sav", "out.json", "sub/out.bin", "d.sav/x", "missing/out", "sub", "NAME.new"]
CONTENT = ["sav", "json", "absent", "dir"]
# characters that mean something to a shell, a formatter, a pattern matcher or another system
ODD = [
    "~/x", "~x", "$HOME", "${HOME}x", "$HOME/x", "%HOME%", "%41", "%s", "%(a)s", "{}", "{0}", "{a}", "a*", "a?", "[a]", "a;b", "a&b", "a|b", "a#b", "a,b",
    " a", "a ", "a\tb", "a\nb", "a\\b", "\\n", "C:a", "con", "file:a", "http:a", "@a", "+a", "=a", "a=b", "'a'", '"a"', "`a`", "$(a)", "a..", "...", ".a", "..a",
    "e\u0301", "\u00e9", "\u212b", "\ufeffa", "\u202ea", "\u00df", "\u0130", "\udcff", "\U0001f600", "a" * 200, "a.sav", "a.json", "a.SAV", "A",
]  # fmt: skip
# (path of the real file, links to make, input as given): the place of the result follows from the path as given
LINKS = [
    ("sub/real{}", {"a{}": "sub/real{}"}, "a{}"),
    ("real.bin", {"a{}": "real.bin"}, "a{}"),
    ("d.sav/real.json", {"a{}": "d.sav/real.json"}, "a{}"),
    ("d.json/real.sav", {"a{}": "d.json/real.sav"}, "a{}"),
    ("real{}", {"a": "real{}"}, "a"),
    ("sub/real{}", {"b": "sub/real{}", "a{}": "b"}, "a{}"),
    ("sub/real{}", {"a{}": "ROOT/sub/real{}"}, "a{}"),
    ("sub/a{}", {"l": "sub"}, "l/a{}"),
    ("d.sav/a{}", {"l": "d.sav"}, "l/a{}"),
    ("d.json/a", {"l": "d.json"}, "l/a"),
    ("a{}", {"sub/l": "../d.sav"}, "sub/l/../a{}"),
    ("sub/a{}", {"l": "ROOT/sub"}, "ROOT/l/a{}"),
    ("sub/real{}", {"d.sav/a{}": "../sub/real{}"}, "d.sav/a{}"),
    ("sub/a{}", {"l": "sub/deep"}, "l/../a{}"),
    ("a{}", {"l": "sub/deep", "m": "l"}, "a{}"),
    (None, {"a{}": "nowhere"}, "a{}"),
    (None, {"a{}": "a{}"}, "a{}"),
    (None, {"a{}": "sub"}, "a{}"),
]


def expected(place, name, content, flags, output):
    """Output path the command must produce (and how), or None for a failure."""
    if content in ("absent", "dir") or len(flags) == 2:
        return None
    path = place + name
    if flags:
        to = flags[0] == "--to-json"
    elif name.endswith(".sav"):
        to = True
    elif name.endswith(".json"):
        to = False
    else:
        return None
    if output is not None:
        out = output
    elif to:
        out = path + ".json"
    elif name.endswith(".json"):
        out = path[:-5]
    else:
        out = path + ".sav"
    if (content == "sav") != to:
        return None
    if out.startswith("missing/") or out == "sub":
        return None
    return out, to


def units(tier):
    for name, place, content in itertools.product(NAMES, PLACES, CONTENT):
        yield f"{place}{name} {content}", ("inproc", name, place, content)
    seen = {}
    for name, place, content, flags, output in itertools.product(NAMES, ("", "sub/", "d.json/"), CONTENT, FLAGS, OUTPUTS):
        e = expected(place, name, content, flags, output)
        key = (e is None, e and e[1], content, flags, output is None, os.path.splitext(name)[1], bool(place) if tier == "thorough" else 0)
        if key not in seen:
            seen[key] = (name, place, content, flags, output)
    for k, v in seen.items():
        yield f"process {v}", ("process",) + v
    yield "usage", ("usage",)
    for n in ODD:
        yield f"odd name {n!a}", ("odd", n)
    for i in range(len(LINKS)):
        yield f"links {i}", ("links", i)


def world(cx, place, name, content, sav, js):
    root = os.path.join(cx.scratch, "root")
    if os.path.exists(root):
        shutil.rmtree(root)
    for d in ("sub", "sub/deep", "d.sav", "d.json", "home"):
        os.makedirs(os.path.join(root, d))
    for n in ("bystander.sav", "bystander.json", "sub/bystander"):
        impl.put(os.path.join(root, n), b"untouched")
    if place is None:
        return root
    p = os.path.join(root, place + name)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    if content == "sav":
        impl.put(p, sav)
    elif content == "json":
        impl.put(p, js)
    elif content == "dir":
        os.mkdir(p)
    return root


def run(payload, cx):
    b = DOC.enc(BASE)
    sav, js = pack(b, 0x31), json.dumps(DOC.js(BASE)).encode()
    if payload[0] == "usage":
        return usage(cx, sav, js)
    if payload[0] == "odd":
        return odd(cx, payload[1], b, sav, js)
    if payload[0] == "links":
        return links(cx, *LINKS[payload[1]], b, sav, js)
    if payload[0] == "process":
        _, name, place, content, flags, output = payload
        one(cx, name, place, content, flags, output, False, 0, b, sav, js, True)
        return
    _, name, place, content = payload
    for flags, output, force, order in itertools.product(FLAGS, OUTPUTS, (False, True), (0, 1, 2, 3)):
        if order == 3 and not force:
            continue
        one(cx, name, place, content, flags, output, force, order, b, sav, js, False)


def one(cx, name, place, content, flags, output, force, order, b, sav, js, process):
    real = place
    if place == "ABS":
        real = ""
    root = world(cx, real, name, content, sav, js)
    if output == "NAME.new":
        output = name + ".new"
    e = expected(real, name, content, flags, output)
    if force and e and order >= 2:
        # shorter or longer than what comes
        impl.put(os.path.join(root, e[0]), b"previous output" * (1 if order == 2 else 9999))
    before = cli.snapshot(root)
    arg = os.path.join(root, name) if place == "ABS" else place + name
    opts = list(flags) + (["--force"] if force else [])
    if order >= 2:
        opts += ["--minify-json", "--custom-properties", "all"]
    o = [] if output is None else (["-o", output] if order == 0 else [f"--output={output}"])
    args = [arg, *opts, *o] if order == 0 else [*opts, *o, arg]
    if process:
        st = cli.process(cli.CONVERT, args, root)[0]
    else:
        st = cli.convert(args, root)[0]
    cx.state((name, place, content, flags, output, force, order))
    cx.trace()
    cx.transition()
    verdict(cx, root, before, st, e, b, arguments=args, content=content)


def verdict(cx, root, before, st, e, b, **detail):
    after = cli.snapshot(root)
    ch = cli.changed(before, after)
    try:
        if e is None:
            cx.outcome("failure")
            if st == 0:
                raise Violation("exit status 0 although nothing can be produced", changed=ch)
            if ch:
                raise Violation("a failing command touches files", changed=ch, status=st)
            return
        out = os.path.normpath(e[0])
        cx.outcome("to JSON" if e[1] else "to save")
        if ch != [out]:
            raise Violation("the result does not go to exactly the right place", expected=out, changed=ch, status=st)
        if st != 0:
            raise Violation("nonzero exit status although the output was produced", status=st)
        if e[1]:
            diff = impl.jeq(json.loads(after[out].decode("utf8")), DOC.js(BASE))
            if diff:
                raise Violation("the output is not the converted input", difference=diff)
        elif parse(after[out])[0] != b:
            raise Violation("the output is not the converted input")
    except Violation as v:
        v.detail.update(detail)
        raise


def given(cx, root, args, process):
    """The command, with a home directory that is part of the world."""
    home = os.path.join(root, "home")
    if process:
        return cli.process(cli.CONVERT, args, root, env={"HOME": home, "a": "x"})[0]
    old = os.environ.get("HOME")
    os.environ["HOME"] = home
    try:
        return cli.convert(args, root)[0]
    finally:
        if old is None:
            del os.environ["HOME"]
        else:
            os.environ["HOME"] = old


def odd(cx, n, b, sav, js):
    """Names that a shell or a formatter would treat specially are names like any other."""
    cases = [(n + ext, None, content, ()) for ext, content in ((".sav", "sav"), (".json", "json"), ("", "sav"), (".sav", "absent"), (".json", "absent"))]
    cases += [(n, None, "sav", ("--to-json",)), (n, None, "json", ("--from-json",))]
    cases += [("in" + ext, n + x, content, ()) for ext, content in ((".sav", "sav"), (".json", "json")) for x in ("", ".sav", ".json")]
    for name, output, content, flags in cases:
        for place, process in (("", False), ("./", False), ("sub/", False), ("", True)):
            if "/" in name and place == "sub/":
                continue
            root = world(cx, place, name, content, sav, js)
            if "/" in n:
                os.makedirs(os.path.join(root, os.path.dirname(n)), exist_ok=True)
            e = expected(place, name, content, flags, output)
            before = cli.snapshot(root)
            args = [place + name, *flags] + ([f"--output={output}"] if output is not None else [])
            if e is not None and os.path.isdir(os.path.join(root, e[0])):
                e = None
            st = given(cx, root, args, process)
            cx.state(("odd", name, output, content, flags, place, process))
            cx.trace()
            cx.transition()
            verdict(cx, root, before, st, e, b, arguments=args, content=content)


def links(cx, real, made, arg, b, sav, js):
    for ext, content, flags, output, process in itertools.product(
        (".sav", ".json"), ("sav", "json"), FLAGS[:3], (None, "out", "sub/out", "l/out", "l/../out", "m/../../out"), (False, True)
    ):
        root = world(cx, None, None, None, sav, js)
        f = lambda x: x.replace("ROOT", root).replace("{}", ext)  # noqa: E731
        if real:
            impl.put(os.path.join(root, f(real)), sav if content == "sav" else js)
        for k, v in made.items():
            os.symlink(f(v), os.path.join(root, f(k)))
        path = f(arg)
        place, name = os.path.split(path)
        e = expected(place and place + "/", name, content if real else "absent", flags, output)
        if e:
            d, n = os.path.split(os.path.join(root, e[0]))
            if os.path.isdir(d):
                e = os.path.relpath(os.path.join(os.path.realpath(d), n), os.path.realpath(root)), e[1]
            else:
                e = None
        if e and os.path.exists(os.path.join(root, e[0])):
            continue
        before = cli.snapshot(root)
        args = [path, *flags] + (["-o", output] if output is not None else [])
        st = given(cx, root, args, process)
        cx.state(("links", arg, str(made), ext, content, flags, output, process))
        cx.trace()
        cx.transition()
        verdict(cx, root, before, st, e, b, arguments=args, links=made, content=content)


def usage(cx, sav, js):
    """Command lines that say too little or too much."""
    for args in ([], ["a.sav", "b.sav"], ["a.sav", "--nonsense"], ["a.sav", "-o"], ["--to-json"], ["--from-json", "--force"], [""], ["a.sav\n"]):
        for process in (False, True):
            root = world(cx, "", "a.sav", "sav", sav, js)
            before = cli.snapshot(root)
            st = cli.process(cli.CONVERT, args, root)[0] if process else cli.convert(args, root)[0]
            cx.state(("usage", args, process))
            cx.trace()
            cx.transition()
            ch = cli.changed(before, cli.snapshot(root))
            if st == 0 or ch:
                raise Violation("a wrong command line is not refused", arguments=args, status=st, changed=ch)

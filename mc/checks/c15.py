"""See DESIGN.md, C15."""

import copy
import itertools
import json
import os
import shutil

from .. import cli, generic as g, impl, literals, records as r, ref, spaces
from ..core import Violation
from ..generic import DOC, LEAVES
from .c10 import noises, pack, parse

ID = "C15"
LEVEL = "model_checking"
BOUND = (
    "both directions x 7 output states x force x every sequence of up to 3 (thorough: 5) answers out of 8, ended by end of "
    "input or an interrupt, good and bad input; every prefix of a JSON and of a container; every key deletion, every value "
    "replaced by each of 10 wrong values, at every place of the JSON of every property kind and a world save with all record "
    "kinds; bad saves of 30 sorts; with and without force and an existing output; some hundred names a tool might use for files of its own, taken by other files"
)
ASSUMPTIONS = ["'y' is yes and 'n' is no; any other answer may repeat the question or abort"]

ANSWERS = ["y", "n", "Y", "N", "", "maybe", "yn", "y n"]
STATES = ["absent", "file", "empty", "link", "big", "input", "readonly"]
BASE = spaces.one("p", LEAVES["Struct"])
OTHER = spaces.one("p", LEAVES["Name"])


def sequences(n):
    for k in range(n + 1):
        yield from itertools.product(ANSWERS, repeat=k)


def units(tier):
    n = 3 if tier == "quick" else 5
    for to, state, force in itertools.product((True, False), STATES, (False, True)):
        seqs = list(sequences(n if not force else 1))
        for i in range(0, len(seqs), 100):
            yield f"answers {to} {state} {force} {i}", ("answers", to, state, force, seqs[i : i + 100])
    yield "interrupt", ("interrupt",)
    for i, (lab, b) in enumerate(bad_savs()):
        yield f"bad save {lab}", ("bad", True, [(lab, b)])
    sav = pack(DOC.enc(BASE), 0x31)
    for lo in range(0, len(sav), 40):
        yield f"save prefixes {lo}", ("bad", True, [(f"{k} bytes of a save", sav[:k]) for k in range(lo, min(len(sav), lo + 40))])
    js = json.dumps(DOC.js(BASE)).encode()
    for lo in range(0, len(js), 100):
        yield f"JSON prefixes {lo}", ("bad", False, [(f"{k} bytes of JSON", js[:k]) for k in range(lo, min(len(js), lo + 100))])
    yield "bad JSON", ("bad", False, list(bad_jsons(js)))
    docs = [(k, spaces.one(k, p)) for k, p in LEAVES.items()]
    docs += [(f"{fam} {lab}", d) for fam, lab, d in r.record_bases(False)][:: 1 if tier == "thorough" else 4]
    for lab, d in docs:
        yield f"damaged JSON of {lab}", ("mutants", d)
    for to, named in itertools.product((True, False), (True, False)):
        yield f"bystanders {to} {named}", ("bystanders", to, named)
    yield "process", ("process",)


def bad_savs():
    b = DOC.enc(BASE)
    yield "empty file", b""
    yield "zeros", bytes(200)
    yield "noise", noises(500)
    yield "raw content", b
    yield "JSON", b'{"header": {}}'
    for k in (0x30, 0x33, 0x00):
        yield f"kind {k:#x}", pack(b, 0x31)[:11] + bytes([k]) + pack(b, 0x31)[12:]
    yield "wrong lengths", b"\0" + pack(b, 0x31)[1:]
    for lab, c in (
        ("empty content", b""),
        ("zero content", bytes(300)),
        ("no properties", g.HEADER.enc(g.HEADER.default)),
        ("half", b[: len(b) // 2]),
        ("half properties", b[:-20]),
        ("magic", b"GVAT" + b[4:]),
        ("version", b[:4] + b"\2" + b[5:]),
    ):
        yield lab, pack(c, 0x31)
        yield lab + " double", pack(c, 0x32)
    yield "unknown property type", pack(b.replace(b"IntProperty", b"OddProperty"), 0x31)
    # records that do not decode
    w = r.world(r.groups(("EPalGroupType::Guild", None)))
    p = next(spaces.blobs(w))
    t = r.SCHEMAS["group EPalGroupType::Guild"]
    for lab, raw in (("short", b"\1\2\3"), ("empty", b""), ("surplus", t.enc(t.default) + b"\0")):
        yield "group record " + lab, pack(DOC.enc(spaces.replace(w, p, ("Bytes", None, raw))), 0x32)
    w = r.world(r.characters())
    p = next(spaces.blobs(w))
    yield "character record surplus", pack(DOC.enc(spaces.replace(w, p, ("Bytes", None, r.SCHEMAS["character"].enc(r.SCHEMAS["character"].default) + b"\0"))), 0x32)


def bad_jsons(js):
    for x in (b"", b" ", b"null", b"[]", b"{}", b"1", b'"x"', b"{", b"nonsense", b"\xff\xfe", js + b"}", js + js, js[1:], bytes(100), js.replace(b'"p"', b'"\xff"')):
        yield f"JSON {x[:20]!r}", x


def scene(cx, to, content, state):
    root = os.path.join(cx.scratch, "root")
    if os.path.exists(root):
        shutil.rmtree(root)
    os.mkdir(root)
    src = os.path.join(root, "in.bin")
    impl.put(src, content)
    impl.put(os.path.join(root, "bystander"), b"bystander")
    out = os.path.join(root, "out")
    if state == "file":
        impl.put(out, b"previous output")
    elif state == "empty":
        impl.put(out, b"")
    elif state == "big":
        impl.put(out, bytes(100000))
    elif state == "link":
        impl.put(os.path.join(root, "target"), b"linked file")
        os.symlink("target", out)
    elif state == "readonly":
        impl.put(out, b"previous output")
        os.chmod(out, 0o444)
    elif state == "input":
        out = src
    return root, src, out


def good(to):
    b = DOC.enc(BASE)
    return pack(b, 0x31) if to else json.dumps(DOC.js(BASE)).encode()


def complete(to, data):
    if to:
        try:
            return impl.jeq(json.loads(data.decode("utf8")), DOC.js(BASE)) is None
        except ValueError:
            return False
    try:
        return parse(data)[0] == DOC.enc(BASE)
    except Violation:
        return False


def answers(cx, to, state, force, seq, bad=False):
    content = good(to) if not bad else b"neither this nor that"
    root, src, out = scene(cx, to, content, state)
    before = cli.snapshot(root)
    flags = ["--to-json" if to else "--from-json"] + (["--force"] if force else [])
    st, text, left = cli.convert([src, "-o", out, *flags], root, "".join(a + "\n" for a in seq))
    cx.state((to, state, force, seq, bad))
    cx.trace()
    cx.transition(len(seq) + 1)
    after = cli.snapshot(root)
    ch = cli.changed(before, after)
    detail = dict(to_json=to, output_state=state, force=force, answers=list(seq), status=st, changed=ch, bad_input=bad)
    name = os.path.relpath(out, root)
    asked = len(seq) - left.count("\n")
    if state == "absent" or force:
        consent = True
    else:
        consent, must = verdict(seq)
        if consent is None:  # both outcomes are open
            consent = st == 0
            if st == 0 and "y" not in [a.casefold() for a in seq]:
                raise Violation("overwritten without a yes", **detail)
    touched = {name, "target"} if state == "link" else {name}
    if not consent or bad:
        if st == 0:
            raise Violation("reports success without converting", **detail)
        if ch:
            raise Violation("files are changed without consent" if not bad else "files are changed although the input is bad", **detail)
        cx.outcome("refused")
        return
    if st != 0:
        raise Violation("fails although the output may be written", **detail)
    if not set(ch) <= touched:
        raise Violation("another file than the output is changed", **detail)
    if not complete(to, impl.get(out)):
        raise Violation("the output is not the converted input", **detail)
    cx.outcome("written")


def verdict(seq):
    """(consent given or None if open, ...) for a sequence of answers ended by end of input."""
    for i, a in enumerate(seq):
        if a == "y":
            return (True if i == 0 else None), True
        if a == "n":
            return False, True
        if a in ("Y", "N"):
            rest = verdict(seq[i + 1 :])[0]
            if a == "Y":
                return None, True
            return (False if rest is False else None), True
    return False, True


def run(payload, cx):
    kind = payload[0]
    if kind == "answers":
        _, to, state, force, seqs = payload
        for s in seqs:
            answers(cx, to, state, force, s)
            if state != "input" and len(s) < 2:
                answers(cx, to, state, force, s, bad=True)
        cx.sample({"to_json": to, "output": state, "answers": seqs[-1]})
    elif kind == "bystanders":
        bystanders(cx, *payload[1:])
    elif kind == "interrupt":
        interrupt(cx)
    elif kind == "bad":
        for lab, content in payload[2]:
            for state, force in (("absent", False), ("file", True), ("link", True)):
                bad_input(cx, payload[1], lab, content, state, force, True)
    elif kind == "mutants":
        for lab, j in mutants(DOC.js(payload[1])):
            bad_input(cx, False, lab, json.dumps(j).encode(), "file", True, False)
    else:
        processes(cx)


SUFFIXES = [
    ".tmp", ".temp", "_tmp", "-tmp", ".bak", ".backup", "_backup", "~", ".old", ".orig", ".new", ".part", ".partial", ".lock", ".swp", ".save",
    ".sav", ".json", ".sav.json", ".json.sav", ".gvas", ".bin", ".raw", ".1", ".0", " (1)", "_1", ".log", ".txt", ".cache", ".meta", ".resave.json", ".resave.sav",
    ".minified", ".min.json", ".pretty.json", ".out", ".err", ".failed", ".done", ".crc", ".md5", ".zlib", ".gz", ".zip",
]  # fmt: skip
PREFIXES = [".", "~", "#", "_", "tmp", "tmp_", ".tmp_", "backup_", "new_", "old_", "copy_of_", ".#", "~$"]


def bystander_names(*names):
    """Names next to a file that a tool might think are its own to use."""
    words = [t for t in literals.texts() if 1 < len(t) <= 12 and "/" not in t and "\0" not in t and "\n" not in t]
    for n in names:
        stem = n.rsplit(".", 1)[0]
        for s in SUFFIXES + ["." + w for w in words] + words:
            for x in (n, stem):
                yield x + s
        for p in PREFIXES:
            yield p + n
            for s in (".tmp", ".swp", ".bak", "~", "#"):
                yield p + n + s
    yield from ("tmp", "temp", "output", "out.json", "out.sav", "a", "error.log", "debug.log", "log.txt", "palworld-save-tools.log", "palworld-save-tools.tmp", ".palworld-save-tools")
    yield from words


def bystanders(cx, to, named):
    """Every file around that is not the output stays as it is, whatever it is called."""
    ext = ".sav" if to else ".json"
    src = "in" + ext
    out = "out.x" if named else "in.sav.json" if to else "in"
    names = sorted({*bystander_names(src, out)} - {src, out})
    for state, force, ok, sub_dir in itertools.product(("absent", "file"), (False, True), (True, False), (False, True)):
        root = os.path.join(cx.scratch, "root")
        if os.path.exists(root):
            shutil.rmtree(root)
        at = os.path.join(root, "sub") if sub_dir else root
        os.makedirs(at)
        for d in {root, at}:
            for n in names:
                impl.put(os.path.join(d, n), b"file called " + n.encode())
        impl.put(os.path.join(at, src), good(to) if ok else good(to)[:-20])
        if state == "file":
            impl.put(os.path.join(at, out), b"previous output")
        before = cli.snapshot(root)
        place = "sub/" if sub_dir else ""
        for answer in ("y\n", "n\n", ""):
            args = [place + src, *(["-o", place + out] if named else []), *(["--force"] if force else [])]
            st, _, _ = cli.convert(args, root, answer)
            cx.state(("bystanders", to, named, state, force, ok, sub_dir, answer))
            cx.trace()
            cx.transition()
            after = cli.snapshot(root)
            ch = [x for x in cli.changed(before, after) if x != place + out]
            if ch:
                raise Violation("another file than the output is changed", changed=ch, to_json=to, output_state=state, force=force, bad_input=not ok, arguments=args)
            if (st == 0) != (ok and (force or answer == "y\n" or place + out not in before)):
                raise Violation("wrong exit status", status=st, to_json=to, output_state=state, force=force, bad_input=not ok, answer=answer)
            before = after


def interrupt(cx):
    import builtins

    for to, state, exc in itertools.product((True, False), ("file", "link", "input"), (KeyboardInterrupt, EOFError)):
        root, src, out = scene(cx, to, good(to), state)
        before = cli.snapshot(root)
        old = builtins.input

        def stop(*a):
            raise exc

        builtins.input = stop
        try:
            st, _, _ = cli.convert([src, "-o", out, "--to-json" if to else "--from-json"], root)
        finally:
            builtins.input = old
        cx.state((to, state, exc.__name__))
        cx.trace()
        cx.transition()
        ch = cli.changed(before, cli.snapshot(root))
        if st == 0 or ch:
            raise Violation("an interrupted prompt counts as consent", status=st, changed=ch, to_json=to)


def bad_input(cx, to, lab, content, state, force, must_fail):
    root, src, out = scene(cx, to, content, state)
    before = cli.snapshot(root)
    args = [src, "-o", out, "--to-json" if to else "--from-json"] + (["--force"] if force else [])
    st, text, _ = cli.convert(args, root)
    cx.state((to, content, state, force))
    cx.trace()
    cx.transition()
    after = cli.snapshot(root)
    ch = cli.changed(before, after)
    detail = dict(input=lab, to_json=to, output_state=state, status=st, changed=ch)
    if before["in.bin"] != after["in.bin"] or before["bystander"] != after["bystander"]:
        raise Violation("a file other than the output is changed", **detail)
    if st != 0:
        cx.outcome("rejected")
        old = {k: v for k, v in before.items() if after.get(k) != v}
        if old:
            raise Violation("a failing conversion destroys an existing file", lost=sorted(old), **detail)
    else:
        cx.outcome("converted")
        if must_fail:
            raise Violation("bad input is reported as converted", **detail)


WRONG = [None, "x", "", 1.5, -1, 1 << 70, [], {}, [None], {"x": 1}]


def mutants(j):
    """The JSON with one key removed or one value replaced by something else."""

    def walk(x, path):
        if isinstance(x, dict):
            for k in x:
                yield path, k
                yield from walk(x[k], path + (k,))
        elif isinstance(x, list):
            for i, v in enumerate(x[:4]):
                yield path, i
                yield from walk(v, path + (i,))

    for path, k in list(walk(j, ())):
        c = copy.deepcopy(j)
        o = c
        for s in path:
            o = o[s]
        old = o[k]
        del o[k]
        yield f"without {path + (k,)}", c
        for w in WRONG:
            if w == old and type(w) is type(old):
                continue
            c2 = copy.deepcopy(j)
            o = c2
            for s in path:
                o = o[s]
            o[k] = w
            yield f"{path + (k,)} = {w!r}", c2


def processes(cx):
    """The same as real processes, for the status and the standard streams."""
    for to, state, seq in itertools.product((True, False), ("file", "absent"), ((), ("y",), ("n",), ("maybe", "n"), ("maybe",))):
        root, src, out = scene(cx, to, good(to), state)
        before = cli.snapshot(root)
        st = cli.process(cli.CONVERT, [src, "-o", out, "--to-json" if to else "--from-json"], root, "".join(a + "\n" for a in seq))[0]
        cx.state(("process", to, state, seq))
        cx.trace()
        cx.transition()
        ch = cli.changed(before, cli.snapshot(root))
        ok = state == "absent" or seq == ("y",)
        if ok != (st == 0) or ch != (["out"] if ok else []):
            raise Violation("wrong result of the prompt", answers=seq, status=st, changed=ch, to_json=to)
    for to, content in ((True, b"bad"), (False, b"bad"), (True, pack(DOC.enc(BASE)[:-30], 0x31)), (False, good(False)[:-1])):
        root, src, out = scene(cx, to, content, "file")
        before = cli.snapshot(root)
        st = cli.process(cli.CONVERT, [src, "-o", out, "--force", "--to-json" if to else "--from-json"], root)[0]
        cx.state(("process", to, content))
        cx.trace()
        cx.transition()
        ch = cli.changed(before, cli.snapshot(root))
        if st == 0 or ch:
            raise Violation("bad input is not refused", status=st, changed=ch, to_json=to)

"""See DESIGN.md, C22."""

import json
import os
import shutil

from .. import cli, damage, generic as g, impl, records as r, ref, spaces
from ..core import Violation
from ..generic import DOC, LEAVES
from .c10 import CLASSES, pack, parse
from .c16 import child

ID = "C22"
LEVEL = "model_checking"
BOUND = (
    "every property kind, record base and location under both compression kinds, plain and chunk header; every byte of small documents "
    "and records set to 5 other values (saves that change, survive or fail); every truncation of a save file; every save class; leftovers of "
    "earlier runs with every answer to the prompts; writing cut off at every 7th byte (thorough: every byte); saves of up to 8 MB changed in one of 9 places or at the end"
)
ASSUMPTIONS = [
    "whether a save survives is found by converting it to JSON and back and comparing content and kind with an independent reader of the container",
    "containers the independent reader finds ambiguous (data after the compressed stream) are not judged",
]


def documents():
    for k, p in LEAVES.items():
        yield k, spaces.one(k, p)
    for u in (False, True):
        for fam, lab, d in r.record_bases(u):
            yield f"{fam} {lab}{' unknown' if u else ''}", d
    for lab, d in r.location_bases():
        yield f"at {lab}", d
    yield "all kinds", r.all_kinds()
    yield from spaces.real_states()


def header(cls):
    return g.HEADER.default[:-1] + (cls,)


def others(x):
    return sorted({0, 1, 2, 0xFF, x ^ 1, x ^ 0x80, (x + 1) & 255} - {x})[:5]


def units(tier):
    ds = list(documents())
    for i in range(0, len(ds), 4):
        yield f"documents {ds[i][0]}..", ("whole", [d for _, d in ds[i : i + 4]])
    for cls in CLASSES:
        yield f"class {cls}", ("whole", [(*g.doc([("p", LEAVES["Int"])], header=header(cls)),)])
    for lab, d in damage.bases():
        yield f"damaged {lab}", ("bytes", d, None)
    for lab, d, path, raw in damage.record_blobs():
        yield f"damaged record {lab}", ("bytes", d, path)
    for lab in ("Int", "Struct", "ArrStruct"):
        yield f"truncated {lab}", ("truncated", spaces.one(lab, LEAVES[lab]))
    small = spaces.one("Struct", LEAVES["Struct"])
    yield "leftovers", ("leftovers", small)
    yield "odd paths", ("paths", small)
    for part in range(8):
        yield f"interrupted {part}", ("interrupted", small, part)
    yield "process", ("process", small)
    for size in SIZES:
        yield f"large {size}", ("large", None, size)


SIZES = [100, 1 << 12, 1 << 13, 1 << 16, 1 << 17, 1 << 20, 1 << 22, (1 << 23) + 5]


def large(size, cx):
    """A large save that survives but for one byte, near either end or a multiple of a round size."""
    n = 9
    step = max(1, size // (n - 1))

    def doc(on):
        props = []
        for i in range(n):
            props += [(f"b{i}", ("Bool", None, 1 if i == on else 0)), (f"s{i}", ("Str", None, ref.cycle("0123456789abc", step)))]
        return DOC.enc(g.doc(props[:-1]))

    b = doc(None)
    for kind in (0x31, 0x32):
        cx.limit(300)
        one(pack(b, kind, 1), cx, size=size)
    for i in range(n):
        at = next(k for k, (x, y) in enumerate(zip(b, doc(i))) if x != y)
        cx.limit(300)
        one(pack(b[:at] + b"\2" + b[at + 1 :], 0x32, 1), cx, size=size, changed=at)
    # one more byte, one less, and a changed end
    for x in (b + b"\0", b[:-1], b[:-1] + b"\1", b[:-6] + b"\0" + b[-6:]):
        cx.limit(300)
        one(pack(x, 0x32, 1), cx, size=size, end=x[-8:].hex())


def convertible(sav):
    """(content, kind, what converting to JSON and back makes of them), None where undefined."""
    plain = sav[12:] if sav[8:11] == b"CNK" else sav
    try:
        content, kind = contents(plain)
    except Violation:
        content = kind = None
    try:
        with impl.errors_as_failed():
            raw, k = impl.decompress_sav_to_gvas(sav)
            t = impl.to_json(raw)
            j = json.loads(t)
            back = impl.write(j)
    except impl.Failed:
        return content, kind, None
    cls = j["header"]["save_game_class_name"]
    return content, kind, (back, 0x32 if "Pal.PalWorldSaveGame" in cls or "Pal.PalLocalWorldSaveGame" in cls else 0x31)


def contents(c):
    return parse(c)[0], c[11]


def main():
    from palworld_save_tools.commands import resave_test

    return resave_test.main


def place(cx, sav, name="s.sav"):
    root = os.path.join(cx.scratch, "root")
    if os.path.exists(root):
        shutil.rmtree(root)
    os.makedirs(os.path.dirname(os.path.join(root, name)))
    impl.put(os.path.join(root, name), sav)
    return root


def judge(sav, st, out, after, detail):
    content, kind, back = convertible(sav)
    said = "Files are the same" in out
    if after != sav:
        raise Violation("the save was changed", **detail)
    if said != (st == 0):
        raise Violation("verdict and exit status disagree", status=st, output=out[-300:], **detail)
    if back is None:
        if st == 0:
            raise Violation("a save that cannot be converted is called the same", **detail)
        return "unconvertible"
    if content is None:
        return "not judged"
    same = back == (content, kind)
    if same and st != 0:
        raise Violation("a save that survives is not called the same", status=st, output=out[-300:], **detail)
    if not same and st == 0:
        raise Violation("a save that changes is called the same", kinds=(kind, back[1]), **impl.diff_bytes(content, back[0]), **detail)
    return "same" if same else "different"


def one(sav, cx, **detail):
    root = place(cx, sav)
    st, out, _ = cli.run(main(), ["resave-test", "s.sav"], root)
    cx.state(sav)
    cx.trace()
    cx.transition()
    cx.outcome(judge(sav, st, out, impl.get(os.path.join(root, "s.sav")), {"save": sav.hex()[:4000], **detail}))


def run(payload, cx):
    kind, d = payload[:2]
    if kind == "large":
        return large(payload[2], cx)
    if kind == "whole":
        for x in d:
            b = DOC.enc(x)
            for k in (0x31, 0x32):
                for level in (0, 6, 9):
                    one(pack(b, k, level), cx)
                one(b"\0" * 8 + b"CNK" + bytes([k]) + pack(b, k), cx)
        return
    if kind == "bytes":
        path = payload[2]
        if path is None:
            b = DOC.enc(d)
            lo = damage.props_start(b)
            make = lambda x: x  # noqa: E731
        else:
            node = spaces.node_at(d, path)
            b = g.SCHEMAS[node[4]].enc(node[5])
            lo = 0
            make = damage.Within(d, path)
        kindb = 0x32
        for i in range(lo, len(b)):
            for v in others(b[i]):
                one(pack(make(b[:i] + bytes([v]) + b[i + 1 :]), kindb, 1), cx, changed=i, to=v)
        return
    if kind == "truncated":
        sav = pack(DOC.enc(d), 0x31)
        for n in range(len(sav) + 1):
            one(sav[:n], cx, length=n)
        for n in range(len(sav)):
            one(sav[:n] + bytes([sav[n] ^ 1]) + sav[n + 1 :], cx, flipped=n)
        return
    b = DOC.enc(d)
    good, bad = pack(b, 0x32), pack(b, 0x31)
    if kind == "leftovers":
        js = json.dumps(DOC.js(d)).encode()
        stale = json.dumps(DOC.js(spaces.one("p", LEAVES["Name"]))).encode()
        for sav in (good, bad, good[:-3]):
            for j in (None, js, b"{}", stale):
                for s in (None, good, bad, b"junk"):
                    for answer in ("", "y\n", "n\n", "y\ny\n", "y\n" * 9, "y\nn\n", "maybe\nY\nY\n", "N\n"):
                        root = place(cx, sav)
                        if j is not None:
                            impl.put(os.path.join(root, "s.sav.resave.json"), j)
                        if s is not None:
                            impl.put(os.path.join(root, "s.sav.resave.sav"), s)
                        st, out, left = cli.run(main(), ["resave-test", "s.sav"], root, answer)
                        cx.state((sav, j, s, answer))
                        cx.trace()
                        detail = dict(leftover_json=j is not None, leftover_save=s is not None, answers=answer)
                        said = "Files are the same" in out
                        if impl.get(os.path.join(root, "s.sav")) != sav:
                            raise Violation("the save was changed", **detail)
                        if said != (st == 0) or st == 0 and sav != good:
                            raise Violation("wrong verdict with leftovers of an earlier run", status=st, output=out[-300:], **detail)
                        if (j is None and s is None or answer == "y\n" * 9) and st != 0 and sav == good:
                            raise Violation("a save that survives is not called the same", status=st, **detail)
                        cx.outcome("same" if st == 0 else "not same")
        return
    if kind == "paths":
        for name in ("s.sav", "sub/s.sav", "noext", "two.sav.sav", "x.json", "sp ace.sav", "日本.sav", "-dash.sav"):
            for sav in (good, bad):
                for absolute in (False, True):
                    root = place(cx, sav, name)
                    p = os.path.join(root, name) if absolute else name
                    st, out, _ = cli.run(main(), ["resave-test", p], root)
                    cx.state((name, sav, absolute))
                    cx.trace()
                    cx.outcome(judge(sav, st, out, impl.get(os.path.join(root, name)), dict(path=name)))
        for args in ([], ["a", "b"], ["missing.sav"], ["."]):
            root = place(cx, good)
            st, out, _ = cli.run(main(), ["resave-test", *args], root)
            if st == 0 or "Files are the same" in out:
                raise Violation("success without a save to check", arguments=args)
            cx.trace()
        return
    if kind == "interrupted":
        part = payload[2]
        root = place(cx, good)
        cli.run(main(), ["resave-test", "s.sav"], root)
        size = max(len(x) for x in cli.snapshot(root).values())
        step = 1 if cx.thorough else 7
        for lim in range(part * step, size + 8, 8 * step):
            for kill in (False, True):
                root = place(cx, good)
                st = child(lambda: cli.run(main(), ["resave-test", "s.sav"], root)[0], lim, kill)
                snap = cli.snapshot(root)
                cx.state(("limit", lim, kill))
                cx.trace()
                if snap["s.sav"] != good:
                    raise Violation("the save was changed", limit=lim)
                if st == 0:
                    back = snap.get("s.sav.resave.sav")
                    if back is None or contents(back) != (b, 0x32):
                        raise Violation("called the same although the resaved file is incomplete", limit=lim)
                cx.outcome("same" if st == 0 else "killed" if st < 0 else "failed")
        return
    # as real processes; on a console that cannot show the names in the save, too
    odd = pack(DOC.enc(g.doc([("日本\U0001f600", LEAVES["MapStructStruct"])])), 0x32)
    for env in ({}, {"LC_ALL": "C", "PYTHONCOERCECLOCALE": "0", "PYTHONUTF8": "0"}, {"PYTHONIOENCODING": "cp1252"}, {"DEBUG": "1", "PYTHONIOENCODING": "ascii"}, {"FORCE_STDLIB_ONLY": "1"}):
        root = place(cx, odd)
        st, out, err = cli.process(cli.RESAVE, ["s.sav"], root, env=env)
        cx.trace()
        cx.state(("process", str(env)))
        if st or b"Files are the same" not in out:
            raise Violation("a save that survives is not called the same", environment=env, status=st, errors=err[-300:])
    for sav, want in ((good, 0), (bad, 1), (good[:-2], 1), (b"", 1)):
        root = place(cx, sav)
        st, out, err = cli.process(cli.RESAVE, ["s.sav"], root)
        cx.trace()
        cx.state(("process", sav))
        if (st == 0) != (want == 0) or (b"Files are the same" in out) != (want == 0):
            raise Violation("wrong verdict as a process", status=st, output=out[-300:], errors=err[-300:])
        if impl.get(os.path.join(root, "s.sav")) != sav:
            raise Violation("the save was changed")

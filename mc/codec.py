"""Shared exploration of save documents on the real conversion code."""

import json
import os

from . import impl, lift
from .core import REPO, Violation
from .generic import DOC
from .spaces import expand


def world_type(d):
    return 0x32 if "Pal.PalWorldSaveGame" in d[0][-1] or "Pal.PalLocalWorldSaveGame" in d[0][-1] else 0x31


def through_files(d, b, cx, minify):
    """SAV file -> JSON file -> SAV file with the command's own functions."""
    sav = os.path.join(cx.scratch, "in.sav")
    js = os.path.join(cx.scratch, "out.json")
    back = os.path.join(cx.scratch, "back.sav")
    import zlib

    z = zlib.compress(b)
    impl.put(sav, len(b).to_bytes(4, "little") + len(z).to_bytes(4, "little") + b"PlZ1" + z)
    impl.must("converting to JSON", impl.file_to_json, sav, js, minify=minify)
    with open(js, encoding="utf8") as f:
        t = f.read()
    impl.must("converting back", impl.file_from_json, js, back)
    data = impl.get(back)
    out = zlib.decompress(data[12:])
    if data[11] == 0x32:
        out = zlib.decompress(out)
    return t, out


def roundtrip(unit, cx, check_bytes=True, check_json=False):
    depth = unit[4]
    n = 0
    for label, parent, d in expand(unit):
        b = DOC.enc(d)
        cx.state(b)
        if parent is not None:
            cx.transition()
        cx.trace()
        n += 1
        try:
            if check_bytes and depth == 0 or (depth == 1 and n % 8 == 1):
                t, back = through_files(d, b, cx, n % 16 == 1)
                cx.count("through_files")
            else:
                t = impl.must("converting to JSON", impl.to_json, b)
                back = impl.must("converting back", impl.from_json, t) if check_bytes else None
            if check_json:
                diff = impl.same(json.loads(t), DOC.js(d))
                if diff:
                    raise Violation("JSON differs from the stored values", difference=diff)
            if check_bytes and back != b:
                raise Violation("save differs after SAV -> JSON -> SAV", **impl.diff_bytes(b, back))
        except Violation as v:
            v.detail.update(state=label, save=b.hex()[:20000])
            raise
        if n == 1:
            cx.sample({"state": label, "bytes": b.hex()[:160], "json": t[:160]})


def real_files():
    root = os.path.join(REPO, "tests", "testdata")
    for path, _, names in sorted(os.walk(root)):
        for n in sorted(names):
            if n.endswith(".sav"):
                yield f"file {n}", ("file", os.path.join(path, n))


def real_file(unit, cx):
    """A whole save of the game: the model must describe it, and the tool agree with the model."""
    import zlib

    data = impl.get(unit[1])
    b = zlib.decompress(data[12:])
    if data[11] == 0x32:
        b = zlib.decompress(b)
    try:
        d = lift.document(b)
    except lift.Unlike:
        cx.count("real_saves_outside_the_model")
        return
    cx.count("real_saves_described_by_the_model")
    cx.state(b)
    cx.trace()
    try:
        t, back = through_files(d, b, cx, True)
        diff = impl.same(json.loads(t), DOC.js(d))
        if diff:
            raise Violation("JSON differs from the stored values", difference=diff)
        if back != b:
            raise Violation("save differs after SAV -> JSON -> SAV", **impl.diff_bytes(b, back))
    except Violation as v:
        v.detail.update(save=unit[1])
        raise


def edit(unit, cx):
    """Every transition d -> d' as an edit of the JSON of d must give the save of d'."""
    cache = {}
    for label, parent, d in expand(unit):
        b = DOC.enc(d)
        cx.state(b)
        if parent is None:
            continue
        cx.transition()
        cx.trace()
        try:
            if id(parent) not in cache:
                cache.clear()
                pb = DOC.enc(parent)
                cache[id(parent)] = (parent, impl.must("converting to JSON", impl.to_json, pb), DOC.js(parent))
            _, t, pj = cache[id(parent)]
            j = impl.patch(json.loads(t), pj, DOC.js(d))
            back = impl.must("converting the edited JSON", impl.from_json, json.dumps(j))
            if back != b:
                raise Violation("the edit gives another save than the one with just that value changed", **impl.diff_bytes(b, back))
        except Violation as v:
            v.detail.update(edit=label, edited_save=b.hex()[:20000])
            raise
        cx.sample({"edit": label, "bytes": b.hex()[:160]})

"""Makes mc/real.json: the distinct shapes of data found in the real saves, as small saves.

Run by hand:  python3 -m mc.reduce_real /repo/tests/testdata
"""

import base64
import glob
import json
import os
import sys
import zlib

from . import generic as g
from . import lift
from .generic import DOC


def content(path):
    with open(path, "rb") as f:
        b = f.read()
    x = zlib.decompress(b[12:])
    return zlib.decompress(x) if b[11] == 0x32 else x


def shape(x):
    """What kind of data x is, without the values."""
    if isinstance(x, tuple):
        k = x[0] if x else None
        if k == "Blob":
            return (k, x[4], shape(x[5]))
        if k == "Struct":
            return (k, str(x[1]), x[3] is None, shape(x[4]))
        if k in ("ArrStruct", "Map"):
            return (k, *map(str, x[2:6] if k == "Map" else x[2:5]), tuple(sorted({repr(shape(y)) for y in x[6]})))
        if k in ("Int", "Int64", "Fixed", "Float", "Str", "Name", "Bool", "Bytes"):
            return (k, x[1] is None)
        if k == "Enum":
            return (k, str(x[2]), x[1] is None)
        if k == "Arr":
            return (k, str(x[2]), x[1] is None, len(x[3]) > 0)
        if x and all(isinstance(y, tuple) and len(y) == 2 and isinstance(y[0], str) and isinstance(y[1], tuple) for y in x):
            return tuple((str(n), shape(p)) for n, p in x)
        return tuple(dict.fromkeys(shape(y) for y in x)) if len({type(y) for y in x}) == 1 else tuple(shape(y) for y in x)
    return type(x).__name__ if not isinstance(x, str) else "str"


def distinct(xs):
    return tuple({repr(shape(x)): x for x in reversed(xs)}.values())[::-1][:3]


def small(x):
    """x with one list entry of each shape, and short byte arrays."""
    if isinstance(x, tuple) and x:
        if x[0] == "Blob":
            return x
        if x[0] == "Bytes":
            return x[:2] + (x[2][:8],)
        if x[0] in ("ArrStruct", "Map"):
            return x[:6] + (distinct(tuple(small(y) for y in x[6])),)
        return tuple(small(y) for y in x)
    return x


def main(root):
    out, seen = [], set()

    def add(lab, d):
        k = repr(shape(d[1]))
        if k not in seen:
            seen.add(k)
            b = DOC.enc(d)
            assert lift.document(b) == d, lab
            out.append({"label": lab, "save": base64.b64encode(zlib.compress(b, 9)).decode()})

    for f in sorted(glob.glob(os.path.join(root, "**", "*.sav"), recursive=True)):
        name = os.path.relpath(f, root)
        d = lift.document(content(f))
        w = lift.get(d[1], "worldSaveData")
        if not w:
            add(name, (d[0], small(d[1]), d[2]))
            continue
        for n, p in w[4]:
            c = p[2] if p[0] == "Custom" else p
            parts = [p]
            if c[0] in ("Map", "ArrStruct"):
                parts = [c[:6] + ((e,),) for e in distinct_all(c[6])]
                parts = [("Custom", p[1], q) if p[0] == "Custom" else q for q in parts]
            for q in parts:
                one = lambda x: x[:4] + (((n, small(q)),),)
                add(f"{name} {n}", (d[0], tuple((m, one(x) if m == "worldSaveData" else x) for m, x in d[1]), d[2]))
        # the properties of a world save together, without the long lists
        empty = lambda p: ("Custom", p[1], empty(p[2])) if p[0] == "Custom" else p[:6] + ((),) if p[0] in ("Map", "ArrStruct") else small(p)
        add(f"{name} without lists", (d[0], lift.with_(d[1], "worldSaveData", lambda x: x[:4] + (tuple((m, empty(q)) for m, q in x[4]),)), d[2]))
    with open(os.path.join(os.path.dirname(__file__), "real.json"), "w") as f:
        json.dump(out, f, indent=0)
        f.write("\n")
    print(len(out), "states", sum(len(x["save"]) for x in out), "characters")


def distinct_all(xs):
    return list({repr(shape(small(x))): x for x in reversed(xs)}.values())[::-1]


if __name__ == "__main__":
    main(sys.argv[1])

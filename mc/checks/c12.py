"""See DESIGN.md, C12."""

import itertools
import json
import os

from .. import cli, impl, records as r, spaces
from ..codec import through_files
from ..core import Violation
from ..generic import DOC
from .c10 import pack, parse

ID = "C12"
LEVEL = "model_checking"
BOUND = (
    "all 2^14 subsets of the kinds on a world save with a record of every kind; all subsets of at most 2 kinds and their "
    "complements on a larger one; the empty set, each kind alone and all but one on every record base; every subset of at "
    "most 2 kinds, spelled in several ways, through the command line; names close to that of a kind (parts, other case, additions), which select nothing"
)
ASSUMPTIONS = ["the kinds are those the --custom-properties option names"]


def small_subsets(n):
    k = r.KINDS
    for j in range(n + 1):
        for c in itertools.combinations(k, j):
            yield frozenset(c)
            yield frozenset(k) - frozenset(c)


def nearly(k):
    parts = k.split(".")
    for i in range(1, len(parts)):
        yield ".".join(parts[:i])
        yield ".".join(parts[i:])
        yield "." + parts[i]
        yield parts[i]
    yield from (k[1:], k[:-1], k + ".", "." + k, k + ".Value", k.lower(), k.upper(), k + "x", k * 2, "*", ".", "", "none", "All", "ALL")


def units(tier):
    d = r.compact_all_kinds()
    n = len(r.KINDS)
    for lo in range(0, 1 << n, 128):
        yield f"subsets {lo:#x}..", ("subsets", d, [frozenset(k for i, k in enumerate(r.KINDS) if m >> i & 1) for m in range(lo, lo + 128)])
    big = r.all_kinds()
    subs = sorted(set(small_subsets(2 if tier == "quick" else 3)), key=sorted)
    for i in range(0, len(subs), 10):
        yield f"small subsets {i}", ("subsets", big, subs[i : i + 10])
    for u in (False, True):
        for fam, lab, b in r.record_bases(u):
            yield f"{fam} {lab}", ("subsets", b, sorted(set(small_subsets(1)), key=sorted))
    for lab, b in spaces.real_states():
        if any(True for _ in spaces.blobs(b)):
            yield f"real {lab}", ("subsets", b, sorted(set(small_subsets(1)), key=sorted))
    # names that are not the name of a kind, however close, select nothing
    near = sorted({n for k in r.KINDS for n in nearly(k)} - set(r.KINDS))
    for i in range(0, len(near), 10):
        yield f"near {i}", ("near", d, near[i : i + 10])
    cs = [c for j in range(3) for c in itertools.combinations(r.KINDS, j)]
    for i in range(0, len(cs), 10):
        yield f"command line {i}", ("cli", d, cs[i : i + 10])


def run(payload, cx):
    kind, d, subs = payload
    b = DOC.enc(d)
    if kind == "near":
        return near(d, b, subs, cx)
    sav, js, back = (os.path.join(cx.scratch, n) for n in ("a.sav", "a.sav.json", "b.sav"))
    impl.put(sav, pack(b, 0x32))
    if kind == "subsets":
        for s in subs:
            keys = sorted(s)
            cx.state((hash(b), keys))
            cx.trace()
            cx.transition(2)
            try:
                impl.must("converting to JSON", impl.file_to_json, sav, js, minify=True, custom_properties_keys=keys)
                compare(d, s, js, back, b)
            except Violation as v:
                v.detail.update(selected=keys, save=b.hex()[:20000])
                raise
        return
    for c in subs:
        spell = [",".join(c), ", ".join(reversed(c)), " " + " ,".join(c) + " ", ",".join(c + (".worldSaveData.NoSuch",))]
        if not c:
            spell = ["", ".worldSaveData.NoSuch", "all", None]
        for x in spell:
            sel = frozenset(r.KINDS) if x in ("all", None) else frozenset(c)
            for p in (js, back):
                if os.path.exists(p):
                    os.unlink(p)
            cx.state((hash(b), x))
            cx.trace()
            cx.transition(2)
            st, out, _ = cli.convert([sav] + ([] if x is None else ["--custom-properties", x]), cx.scratch)
            try:
                if st:
                    raise Violation("converting to JSON failed", output=out[-500:])
                compare(d, sel, js, back, b)
            except Violation as v:
                v.detail.update(option=x)
                raise


def near(d, b, names, cx):
    sav, js, back = (os.path.join(cx.scratch, n) for n in ("a.sav", "a.sav.json", "b.sav"))
    impl.put(sav, pack(b, 0x32))
    for n in names:
        for keys in ([n], [n, r.KINDS[0]], [r.KINDS[-1], n]):
            cx.state((hash(b), keys))
            cx.trace()
            cx.transition(2)
            try:
                impl.must("converting to JSON", impl.file_to_json, sav, js, minify=True, custom_properties_keys=keys)
                compare(d, frozenset(keys) & frozenset(r.KINDS), js, back, b)
            except Violation as v:
                v.detail.update(selected=keys)
                raise


def compare(d, s, js, back, b):
    with open(js, encoding="utf8") as f:
        t = json.load(f)
    diff = impl.same(t, DOC.js(d, s))
    if diff:
        raise Violation("the JSON does not show exactly the selected kinds decoded", difference=diff)
    impl.must("converting back", impl.file_from_json, js, back)
    got = parse(impl.get(back))[0]
    if got != b:
        raise Violation("the save changed", **impl.diff_bytes(b, got))

"""Adapter to the real code in /repo. Only documented entry points are used."""

import contextlib
import io
import json
import math
import os
import struct
import sys

from .core import Stuck, Violation, prepare_import

prepare_import()

from palworld_save_tools import archive  # noqa: E402
from palworld_save_tools.commands import convert  # noqa: E402
from palworld_save_tools.gvas import GvasFile  # noqa: E402
from palworld_save_tools.json_tools import CustomEncoder  # noqa: E402
from palworld_save_tools.palsav import compress_gvas_to_sav, decompress_sav_to_gvas  # noqa: E402
from palworld_save_tools.paltypes import PALWORLD_CUSTOM_PROPERTIES, PALWORLD_TYPE_HINTS  # noqa: E402


def read(gvas, sel=None, allow_nan=True):
    cp = PALWORLD_CUSTOM_PROPERTIES
    if sel is not None:
        cp = {k: v for k, v in cp.items() if k in sel}
    return GvasFile.read(gvas, PALWORLD_TYPE_HINTS, cp, allow_nan=allow_nan)


def text(gf, allow_nan=True):
    return json.dumps(gf.dump(), cls=CustomEncoder, allow_nan=allow_nan)


def to_json(gvas, sel=None, allow_nan=True):
    """save content -> JSON text"""
    return text(read(gvas, sel, allow_nan), allow_nan)


def write(obj):
    """JSON value -> save content"""
    return GvasFile.load(obj).write(PALWORLD_CUSTOM_PROPERTIES)


def from_json(t):
    return write(json.loads(t))


class Failed(Exception):
    """The tool reported an error."""


@contextlib.contextmanager
def errors_as_failed():
    try:
        yield
    except (Stuck, Violation):
        raise
    except MemoryError:
        raise Violation("exhausts memory")
    except (Exception, SystemExit) as e:
        raise Failed(f"{type(e).__name__}: {e}") from e


def attempt(f, *a, **k):
    """(result, None) or (None, error text)"""
    try:
        with errors_as_failed():
            return f(*a, **k), None
    except Failed as e:
        return None, str(e)


def must(what, f, *a, **k):
    """Run something the property says works."""
    try:
        with errors_as_failed():
            return f(*a, **k)
    except Failed as e:
        raise Violation(f"{what} failed", error=str(e))


# ---------------------------------------------------------------- file level


def file_to_json(sav_path, json_path, **kw):
    convert.convert_sav_to_json(sav_path, json_path, force=True, **kw)


def file_from_json(json_path, sav_path):
    convert.convert_json_to_sav(json_path, sav_path, force=True)


def put(path, data):
    with open(path, "wb") as f:
        f.write(data)


def get(path):
    with open(path, "rb") as f:
        return f.read()


# ---------------------------------------------------------------- JSON comparison


def jeq(a, b, path="$"):
    """None if equal as JSON values, else the path of the first difference."""
    if isinstance(a, dict) and isinstance(b, dict):
        for k in a:
            if k not in b:
                return f"{path}.{k}: only in first"
        for k in b:
            if k not in a:
                return f"{path}.{k}: only in second"
        for k in a:
            d = jeq(a[k], b[k], f"{path}.{k}")
            if d:
                return d
        return None
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return f"{path}: lengths {len(a)} and {len(b)}"
        for i, (x, y) in enumerate(zip(a, b)):
            d = jeq(x, y, f"{path}[{i}]")
            if d:
                return d
        return None
    if a is None or b is None or isinstance(a, (bool, str)) or isinstance(b, (bool, str)):
        if type(a) is type(b) and a == b:
            return None
        return f"{path}: {a!r} and {b!r}"
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        if a == b:
            if a == 0 and math.copysign(1, a) != math.copysign(1, b):
                return f"{path}: {a!r} and {b!r}"
            return None
        if isinstance(a, float) and isinstance(b, float) and math.isnan(a) and math.isnan(b):
            return None
        return f"{path}: {a!r} and {b!r}"
    return f"{path}: {a!r} and {b!r}"


def same(a, b):
    """Difference between two JSON values, or None (fast path on canonical text)."""
    if json.dumps(a, sort_keys=True) == json.dumps(b, sort_keys=True):
        return None
    return jeq(a, b)


def patch(j, old, new):
    """Apply to j the edit that turns old into new (j equals old on entry)."""
    if isinstance(old, dict) and isinstance(new, dict) and old.keys() == new.keys():
        for k in old:
            if repr(old[k]) != repr(new[k]):
                j[k] = patch(j[k], old[k], new[k])
        if list(old) != list(new):  # the order of properties is part of the document
            return {k: j[k] for k in new}
        return j
    if isinstance(old, list) and isinstance(new, list) and len(old) == len(new):
        for i in range(len(old)):
            if repr(old[i]) != repr(new[i]):
                j[i] = patch(j[i], old[i], new[i])
        return j
    return json.loads(json.dumps(new))


def diff_bytes(a, b):
    n = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    return {"at": n, "lengths": (len(a), len(b)), "expected": a[max(0, n - 16) : n + 32].hex(), "got": b[max(0, n - 16) : n + 32].hex()}


def nan_only(a, b):
    """The two contents differ only in which NaN they store (JSON has one NaN)."""
    if len(a) != len(b):
        return False
    i = 0
    while i < len(a):
        if a[i] == b[i]:
            i += 1
            continue
        for size, fmt in ((4, "<f"), (8, "<d")):
            hit = None
            for lo in range(max(0, i - size + 1), i + 1):
                x, y = a[lo : lo + size], b[lo : lo + size]
                if len(x) == size and math.isnan(struct.unpack(fmt, x)[0]) and y == struct.pack(fmt, math.nan):
                    hit = lo + size
            if hit:
                break
        if not hit:
            return False
        i = hit
    return True

"""Alphabets taken from the code under test: every text and number its source mentions.

Code can treat one particular text or number specially only if it mentions it, so these
(and their neighbours) are values at which behaviour may change. They choose inputs only;
what must come out is decided by the reference model.
"""

import ast
import os

from .core import REPO


def _constants():
    for base, dirs, files in os.walk(os.path.join(REPO, "palworld_save_tools")):
        dirs.sort()
        for f in sorted(files):
            if f.endswith(".py"):
                with open(os.path.join(base, f), "rb") as fh:
                    for n in ast.walk(ast.parse(fh.read())):
                        if isinstance(n, ast.Constant):
                            yield n.value


def texts():
    """The texts, the ones that look like names of things first."""
    out = {"None", "NaN", "null", "true", "0"}
    for v in _constants():
        if isinstance(v, bytes):
            v = v.decode("latin-1")
        if isinstance(v, str) and 0 < len(v) <= 100:
            out.add(v)
    return sorted(out, key=lambda s: (not s.replace("_", "").replace(":", "").replace(".", "").isalnum(), s))


def text_variants(s):
    for v in (s, "x" + s, s + "x", s + s, s.swapcase(), "E::" + s, s + "::x", s[:-1], s[1:], s + "\0", s + " "):
        yield v


def ints(near=True):
    out = set()
    for v in _constants():
        if isinstance(v, bool):
            continue
        if isinstance(v, float) and v == v and abs(v) < 1e300 and v == int(v):
            v = int(v)
        if isinstance(v, int) and abs(v) < 1 << 70:
            if not near:
                out.update((v, -v))
                continue
            for s in (v, -v, ~v, 1 << v if 0 <= v < 64 else v):
                out.update((s - 1, s, s + 1))
    return sorted(out)


def floats(near=True):
    out = set()
    for v in _constants():
        if isinstance(v, (int, float)) and not isinstance(v, bool) and v == v and abs(v) < 1e300:
            v = float(v)
            if not near:
                out.add(v)
                continue
            for s in (v, -v, 1 / v if v else 0.0, v / 2, v * 2):
                out.update((s, s - 1, s + 1))
    return sorted(out)

"""See DESIGN.md, C19."""

import base64
import itertools
import json

from .. import generic as g, impl, records as r, spaces
from ..core import Violation
from ..generic import DOC, LEAVES

ID = "C19"
LEVEL = "model_checking"
BOUND = (
    "documents of every property kind, record base and location, read from a save, loaded from JSON, or read with nothing decoded; all operation "
    "sequences of length 3 (thorough 4) over write, export, three kinds of reload and edits between three values (one less for undecoded, JSON-loaded (quick only), location and combined documents); and around every elementary "
    "edit of every document, and of the header and trailer, all 8 (thorough 64) sequences of writes and exports before, between and after edit and undo"
)
ASSUMPTIONS = ["edits assign values inside the document the library returned, as a script using the library does"]
TECHNIQUE = "explicit-state model checking: all operation sequences to a depth, run on the implementation"


def bases():
    for k, p in LEAVES.items():
        yield k, spaces.one(k, p)
    for u in (False, True):
        for fam, lab, d in r.record_bases(u):
            yield f"{fam} {lab}{' unknown' if u else ''}", d
    for lab, d in r.location_bases():
        yield f"at {lab}", d
    yield "all kinds", r.compact_all_kinds()
    yield from (("real " + lab, d) for lab, d in spaces.real_states())


OBSERVE = ("write", "export")
OPS = ("write", "export", "load export", "load text", "read bytes", 0, 1, 2)
SOURCES = ("save", "json", "undecoded")


def variants(d):
    """Two more values of the same document: one edit each, spread over its structure."""
    es = [e for _, _, e in spaces.edits(d, "props", "small")]
    inner = [e for s in spaces.focus_schemas(d) for _, _, e in spaces.edits(d, s, "small")]
    es = inner or es
    n = len(es)
    return [d] + [es[i] for i in (n - 1, n // 2)]


def units(tier):
    depth = 4 if tier == "thorough" else 3
    for lab, d in bases():
        big = lab == "all kinds"
        for src in SOURCES:
            for first in OPS:
                yield f"{lab} from {src}, {first} first", ("sequences", d, src, first, depth - (big or src == "undecoded" or tier == "quick" and src == "json" or lab.startswith("at ") or lab.startswith("real ")))
    for lab, d in bases():
        if tier == "quick" and lab.startswith("real "):
            continue
        for part in range(8 if lab == "all kinds" else 1):
            yield f"edits of {lab} {part}", ("edits", d, part, 8 if lab == "all kinds" else 1)
    for part in range(8):
        yield f"header and trailer {part}", ("frame", spaces.one("p", LEAVES["Struct"]), part, 8)


class Doc:
    """The document under test together with the value it should have."""

    def __init__(self, values, src, cx):
        self.values, self.cx, self.at, self.log = values, cx, 0, [src]
        self.sel = frozenset() if src == "undecoded" else None
        self.held = None
        b = values[0][0]
        if src == "json":
            self.held = json.loads(values[0][1])
            self.gf = impl.GvasFile.load(self.held)
        else:
            self.gf = impl.read(b, self.sel)

    def js(self, i=None):
        v = self.values[self.at if i is None else i]
        return v[2] if self.sel is not None else v[1]

    def fail(self, what, **k):
        raise Violation(what, operations=self.log, save=self.values[0][0].hex()[:6000], **k)

    def bytes(self):
        try:
            out = impl.must("writing", self.gf.write, impl.PALWORLD_CUSTOM_PROPERTIES)
        except Violation as v:
            self.fail(v.what, **v.detail)
        b = self.values[self.at][0]
        if out != b:
            self.fail("a write does not give the bytes of the current values", **impl.diff_bytes(b, out))
        return out

    def export(self):
        try:
            e = impl.must("exporting", self.gf.dump)
            t = impl.must("exporting as text", json.dumps, e, cls=impl.CustomEncoder)
        except Violation as v:
            self.fail(v.what, **v.detail)
        if t != self.js():
            diff = impl.same(json.loads(t), json.loads(self.js()))
            if diff:
                self.fail("an export does not show the current values", difference=diff)
        return e, t

    def do(self, op):
        self.log.append(op)
        self.cx.transition()
        if op == "write":
            self.bytes()
        elif op == "export":
            self.export()
        elif op == "load export":
            self.held = self.export()[0]
            self.gf = impl.GvasFile.load(self.held)
        elif op == "load text":
            self.gf = impl.GvasFile.load(json.loads(self.export()[1]))
        elif op == "read bytes":
            self.gf = impl.read(self.bytes(), self.sel)
        else:
            old, new = json.loads(self.js()), json.loads(self.js(op))
            edit(self.gf.properties, old["properties"], new["properties"])
            for k, v in new["header"].items():
                if repr(v) != repr(old["header"][k]):
                    setattr(self.gf.header, k, v)
            if new["trailer"] != old["trailer"]:
                self.gf.trailer = base64.b64decode(new["trailer"])
            self.at = op

    def end(self):
        self.bytes()
        self.export()


def edit(j, old, new):
    """Assign in j (a document in memory) what distinguishes old from new."""
    if isinstance(old, dict) and isinstance(new, dict) and list(old) == list(new) and isinstance(j, dict):
        for k in old:
            if repr(old[k]) != repr(new[k]):
                j[k] = edit(j[k], old[k], new[k])
        return j
    if isinstance(old, list) and isinstance(new, list) and len(old) == len(new) and isinstance(j, list):
        for i in range(len(old)):
            if repr(old[i]) != repr(new[i]):
                j[i] = edit(j[i], old[i], new[i])
        return j
    if isinstance(old, dict) and isinstance(new, dict) and isinstance(j, dict):
        # keys added, removed or reordered: rebuild in place
        vals = {k: edit(j[k], old[k], new[k]) if k in old else new[k] for k in new}
        j.clear()
        j.update(vals)
        return j
    return new


def frames(d, alpha):
    """Edits of the header and the trailer."""
    for _, lab, h in g.HEADER.edits(d[0], spaces.ALPHAS[alpha]):
        yield None, lab, (h, *d[1:])
    for t in (b"", b"\0", b"\1\2\3\4", bytes(5)):
        yield None, f"trailer {t}", (*d[:2], t)


def valued(d):
    return DOC.enc(d), json.dumps(DOC.js(d)), json.dumps(DOC.js(d, frozenset()))


def run(payload, cx):
    kind, d = payload[:2]
    if kind == "sequences":
        _, _, src, first, depth = payload
        values = [valued(v) for v in variants(d)]
        for rest in itertools.product(OPS, repeat=depth - 1):
            x = Doc(values, src, cx)
            for op in (first, *rest):
                x.do(op)
            x.end()
            cx.state((values[0][0], src, first, rest))
            cx.trace()
        cx.sample({"document": values[0][0].hex()[:80], "operations": x.log})
        return
    _, _, part, parts = payload
    base = valued(d)
    n = 6 if cx.thorough else 3
    alpha = "full" if cx.thorough else "small"
    for i, (_, lab, e) in enumerate(frames(d, alpha) if kind == "frame" else spaces.edits(d, "props", alpha)):
        if i % parts != part:
            continue
        values = [base, valued(e)]
        for obs in itertools.product(OBSERVE, repeat=n):
            x = Doc(values, "json" if obs[-1] == "write" else "save", cx)
            h = n // 3
            for op in (*obs[:h], 1, *obs[h : 2 * h], 0, *obs[2 * h :]):
                x.do(op)
            x.end()
            cx.trace()
        cx.state((base[0], lab, values[1][0]))

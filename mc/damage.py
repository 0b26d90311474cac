"""Damaged documents: bytes of a document, or of one record inside it, changed."""

from . import generic as g
from . import records as r
from . import spaces
from .generic import DOC, LEAVES, SCHEMAS


def bases(wraps=False):
    for k, p in LEAVES.items():
        yield f"{k}", spaces.one(k, p)
        if wraps:
            for w, q in g.wraps(k, p):
                yield f"{k} in {w}", spaces.one(k, q)


def record_blobs(unknown=True):
    """(label, document, path of the record, its bytes), each distinct record once."""
    seen = set()
    for u in (False, True) if unknown else (False,):
        for fam, lab, d in r.record_bases(u):
            for p in spaces.blobs(d):
                b = spaces.node_at(d, p)
                raw = SCHEMAS[b[4]].enc(b[5])
                key = (b[2], b[4], raw, fam if b[4].startswith("raw") else "")
                if key not in seen:
                    seen.add(key)
                    yield f"{fam} {lab} {b[4]}", d, p, raw


class Within:
    """A document with one record's bytes replaced; all enclosing lengths consistent."""

    def __init__(self, d, path):
        self.d, self.path = d, path
        self.id = spaces.node_at(d, path)[1]
        # constant bytes around the record, found by encoding two different contents
        self.cache = {}

    def __call__(self, raw):
        return DOC.enc(spaces.replace(self.d, self.path, ("Bytes", self.id, raw)))


def props_start(b):
    return len(g.HEADER.enc(g.HEADER.default))

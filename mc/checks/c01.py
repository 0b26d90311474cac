"""See DESIGN.md, C01."""

import itertools

from .. import codec, spaces

ID = "C01"
LEVEL = "model_checking"
BOUND = "ordinary properties: every kind alone, in every container (two levels), next to every other kind, at every known map location; one edit (full alphabet) and two edits (small alphabet) of each; all values at an edge at once; every list, text, blob and name at sizes up to 70000 (each side of powers of two and ten), blobs, texts and trailers up to 8 MiB; the ordinary data of real saves with every edit"
ASSUMPTIONS = [
    "documents beyond two edits of a base document, and values outside the alphabets, are not visited",
    "the reference model in mc/ defines well-formed saves; C02 and C03 check that it describes every real save in tests/testdata, bytes and JSON",
]


def units(tier):
    for u in itertools.chain(spaces.large_units(tier), spaces.generic_units(tier)):
        yield u[0], u


def run(unit, cx):
    codec.roundtrip(unit, cx, check_json=False)

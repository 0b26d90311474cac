"""See DESIGN.md, C05."""

import itertools

from .. import codec, spaces

ID = "C05"
LEVEL = "model_checking"
BOUND = "every place where undecodable data can occur, with an alphabet of unknown bytes, alone and next to recognised data; one and two edits; 1100 and 70000 bytes or entries"
ASSUMPTIONS = [
    "documents beyond two edits of a base document, and values outside the alphabets, are not visited",
    "the reference model in mc/ defines well-formed saves; C02 and C03 check that it describes every real save in tests/testdata, bytes and JSON",
]


def units(tier):
    for u in itertools.chain(spaces.large_records(True), spaces.record_units(tier, True)):
        yield u[0], u


def run(unit, cx):
    codec.roundtrip(unit, cx, check_json=True)

"""See DESIGN.md, C02."""

import itertools

from .. import codec, spaces

ID = "C02"
LEVEL = "model_checking"
BOUND = "every Palworld record kind and variant in a world save, every known map object name in 6 letter cases, all pairs of variants side by side; one edit (full alphabet) and two edits (small alphabet) of each record and of each of its variants; all values of a record at an edge at once, and one edit (small alphabet) from there; every record inside the properties of a character, an egg and a hatching egg; every list, text and blob of a record with 1100 and 70000 entries, 1100 records of every kind; every shape of data found in real saves with every edit; the real saves"
ASSUMPTIONS = [
    "documents beyond two edits of a base document, and values outside the alphabets, are not visited",
    "the reference model in mc/ defines well-formed saves; C02 and C03 check that it describes every real save in tests/testdata, bytes and JSON",
]


def units(tier):
    yield from codec.real_files()
    for u in itertools.chain(spaces.large_records(), spaces.record_units(tier)):
        yield u[0], u


def run(unit, cx):
    if unit[0] == "file":
        return codec.real_file(unit, cx)
    codec.roundtrip(unit, cx, check_json=False)

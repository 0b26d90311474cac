"""See DESIGN.md, C03."""

import itertools

from .. import codec, spaces

ID = "C03"
LEVEL = "model_checking"
BOUND = "the states of C01, C02 and C05: every base document, one edit (full alphabet), two edits (small alphabet)"
ASSUMPTIONS = ["field names and value forms are those of the reference model, fixed from the current release's JSON"]


def units(tier):
    yield from codec.real_files()
    for u in itertools.chain(
        spaces.large_units(tier, False), spaces.large_records(), spaces.large_records(True),
        spaces.generic_units(tier), spaces.record_units(tier), spaces.record_units(tier, True)
    ):
        yield u[0], u


def run(unit, cx):
    if unit[0] == "file":
        return codec.real_file(unit, cx)
    codec.roundtrip(unit, cx, check_bytes=False, check_json=True)

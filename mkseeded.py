#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json (run by hand)."""
import json
import os

here = os.path.dirname(os.path.abspath(__file__))
# missed when first planted, and what was added to catch them
MISSED = {
    "encoder-missing-lenient": "recorders that keep the shape of the value",
    "hint-empty-map": "maps of 0, 1 and 2 entries",
    "decoder-keyerror": "failing decoders and encoders; the statement says so",
    "decoder-long-path": "paths of every length",
    "record-decoders-dropped": "decoders at paths inside records",
    "output-normalised": "links to a deeper directory followed by ..",
    "raw-group-type-checked": "raw records with other bytes",
    "directory-switched": "the commands' functions on relative paths",
    "farm-state-machine": "whole records at one edge value, in every variant",
    "locale-encoding": "JSON with raw characters read under other locales",
    "selection-consumed": "library functions with default and shared arguments in the histories",
    "enum-array-prefixed": "texts the code mentions, as an alphabet (mc/literals.py)",
    "all-anywhere": "selections close to the name of a kind",
    "uuid-eq-casefold": "== and != with other spellings must be complementary and agree with the hash",
    "blob-blocks": "values of every growing length up to 8193 (EXACT) and 2^16 neighbours in every list, blob and text",
    "count-of-many": "record lists of growing size",
    "size-limited": "contents up to 2^26 bytes",
    "text-by-bytes": "pairs of conversions whose values are equal under a coarser view (aliases)",
    "same-file-remembered": "files of the same name, size and time with other content",
    "real-output-name": "arrangements of symbolic links",
    "output-expanded": "names with characters that are special elsewhere",
    "assert-consumes": "optimised and other interpreter settings in the environments",
    "stale-json-reused": "leftovers of another save",
    "work-type-global": "every kind of a record next to the family's previous kind",
    "header-bytes-cached": "edits of header and trailer between writes",
    "output-not-truncated": "a longer previous output",
    "names-normalised": "every code point as a name",
    "compares-first-block": "large saves changed in one place",
    "long-text-cut": "cuts of large documents",
    "temp-name-fixed": "bystanders with names a tool might use",
    "blank-slot-emptied": "edits from whole records at one edge value; list entries called None",
    "three-zeros-transform": "edits from whole records at one edge value",
    "native-class-search": "entries of other types",
    "shared-scratch-reader": "nested records next to other settings",
    "lenient-type-hints": "two preemptions on pairs of equal documents",
}
path = os.path.join(here, "DESIGN.md")
text = open(path).read().split("\n## Planted bugs\n")[0].rstrip("\n")
rows = ["", "", "## Planted bugs", "", "Each is caught by the quick check of its own property. Where a change was missed at first, the last", "column says what was added for it.", "", "| change | property | needs | first missed; added |", "|---|---|---|---|"]
for s in sorted(os.listdir(os.path.join(here, "seeded")), key=lambda s: (json.load(open(f"{here}/seeded/{s}/meta.json"))["property"], s)):
    m = json.load(open(f"{here}/seeded/{s}/meta.json"))
    rows.append(f"| {s} | {m['property']} | {m['needs']} | {MISSED.get(s, '')} |")
open(path, "w").write(text + "\n".join(rows) + "\n")

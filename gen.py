#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (developer tool)."""
import json
import os
import re
import subprocess
from units import PROPS

HERE = os.path.dirname(os.path.abspath(__file__))
P = []


def three(text):
    """Statements have at most three sentences: the rest is joined with semicolons."""
    s = [x for x in re.split(r"(?<=[a-z0-9)])\. (?=[A-Z_a-z])", text.rstrip(".")) if x]
    if len(s) <= 3:
        return text
    cut = [round(i * len(s) / 3) for i in range(4)]

    def low(x):
        return x if x[0].isupper() and x[1:2].isupper() or x.startswith("IPv") else x[0].lower() + x[1:]
    return ". ".join("; ".join([g[0]] + [low(x) for x in g[1:]]) for g in (s[cut[i]:cut[i + 1]] for i in range(3))) + "."


def prop(id, title, statement, over, qtext, why, files, mech, na=None, note=None, tech=None):
    P.append(dict(id=id, title=title, statement=three(statement), over=over, qtext=qtext, why=why, files=files, mech=mech, na=na, note=note, tech=tech))


A = "src/arrays.c"
E = "src/events.c"
X = "src/except.c"
O = "src/os_unix.c"
prop("C01", "Dynamic arrays behave as a sequence under every operation history",
     "After any history of array creation, append (every typed form), pop, shift, remove, reset, reserve, copy, range building and deletion, size, indexed contents and forward/backward iteration equal those of a plain sequence, however often the array had to grow. Pop and shift of an empty array give a zero value, removing an index past the end changes nothing, and a copy is independent of its source. An array turned into a tuple refuses append, pop, shift, remove and reset with logic_error and stays unchanged.",
     ["histories", "inputs"], "all operation sequences and values over several arrays, including growth far beyond the initial capacity",
     "test-arrays builds three small arrays once; growth, shifting, removal order, tuples and copies are not sampled",
     [A, "include/arrays.h"], [("append, growth and removal", A), ("typed append and iteration macros", "include/arrays.h")])
prop("C02", "Text transformations equal their reference definition for every text",
     "Splitting (text and raw bytes, with the reported count and NULL end), exploding, replacing, concatenating, joining arguments, repeating, padding (left, right, both), trimming, case folding, bounded copying and duplicating yield exactly the text of their reference definition for every input, never read or write outside the blocks involved, and never depend on earlier calls. A negative repeat count and an empty pad text raise instead of returning.",
     ["inputs"], "all texts, delimiters, needles, counts and widths, including overlapping, adjacent and edge occurrences",
     "the tests transform a handful of fixed strings",
     [A], [("split, explode, swap, cat, repeat, pad, trim, case, copy", A)])
prop("C03", "Base64 coding round-trips and refuses damaged text",
     "Encoding any text gives its RFC 4648 form and decoding gives the text back. Decoding refuses text with a byte outside the alphabet, a length that is not a multiple of four, or more than two padding characters, and both directions refuse a destination that is too small without writing past it.",
     ["inputs"], "all byte strings without NUL, all damage positions, all destination sizes",
     "the tests encode and decode two fixed strings", [A], [("encode, decode, validation", A)])
prop("C04", "URI parsing returns exactly the components that were written",
     "For every URI assembled from a scheme, optional user and password, host (name or bracketed IPv6), optional port, path, query and fragment, both parsers return exactly those components, with control characters replaced by underscore, and the transport kind of the scheme. Both parsers agree on which texts they accept, refuse out-of-range or malformed ports and missing hosts, leave the input unchanged, and releasing the result of the second form (or its refusal) leaves no memory behind.",
     ["inputs"], "all component combinations plus arbitrary token soup",
     "the tests parse a few fixed URLs", [A], [("URI parser and release", A)])
prop("C05", "Search, comparison, number formatting and path splitting agree with references",
     "Position, containment, occurrence count and either-or search, exact and case-insensitive (bounded) comparison agree with direct definitions for every text and pattern without reading past the given lengths. Integer formatting gives the exact decimal text of every 64-bit value, formatted printing the exact formatted text and length. Splitting a path gives its directory, file name and extension.",
     ["inputs"], "all texts, patterns, 64-bit integers and slash-separated paths",
     "tests use isolated literals; most of these functions have one example", [A], [("search, compare, str_itoa, mem_printf, pathinfo", A)])
prop("C06", "memsort orders every input and loses no element",
     "Sorting any array of fixed-size records with any total preorder leaves it ordered and leaves exactly the same multiset of whole records.",
     ["inputs"], "element counts across every gap of the algorithm, record sizes, duplicate densities and comparison directions",
     "no existing test sorts anything", [A], [("memsort", A)])
prop("C07", "Command line option lookup follows its documented rules",
     "For every argument vector, querying a flag reports whether it is present and yields the flag itself, the following argument, or the value after '=' according to the kind of query; a NULL flag yields the next positional argument, and in ordered mode successive queries continue after the last match.",
     ["inputs", "histories"], "argument vectors and query sequences, ordered and unordered",
     "one test program is run with a few fixed argument vectors", ["src/getopt.c"], [("getopt_has, getopts", "src/getopt.c")])
exec(open(os.path.join(HERE, "gen_more.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]},
        }) + "\n")
        assert len(p["title"]) <= 80, p["title"]

checks, na = [], []
for p in P:
    if p["na"]:
        na.append({"property": p["id"], "reason": p["na"]})
    elif p["id"] not in PROPS:
        na.append({"property": p["id"], "reason": "its check is not built yet"})
    else:
        checks.append({
            "property": p["id"], "quick_cmd": "python3 check.py " + p["id"], "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p["id"],
            "technique": p["tech"] or "property-based testing: generated inputs against a reference model, integrated shrinking",
            "level": "exploration",
            "level_note": p["note"] or "Searches generated inputs against an explicit reference under the address sanitizer; absence of a failure is evidence, not proof. Trusts the reference code in the harness, gcc and its sanitizers.",
        })
json.dump({
    "version": 1, "setup_cmd": "python3 check.py --setup",
    "hooks": {"guard": "none", "enable": "no hooks are needed: checks build /repo's sources unchanged, with stand-ins at link time only", "source_commits": []},
    "checks": checks, "not_applicable": na,
    "notes": "Harnesses in h/, driver h/pbt.c, build logic vlib.py, runner check.py, unit table units.py. Build output in build/ (ignored).",
}, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties,", len(checks), "checks")

#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PROPS = []
NA = {}
ABSINT = "path-sensitive abstract interpretation of the typed program (Herbrand terms + linear inequalities, loop invariants) against a case specification"
SHAPE = "abstract interpretation of the typed program over symbolic elements in containers of bounded shape; set-membership obligations decided in the linear domain"
FLOW = "whole-program dataflow/typestate query over the resolved AST"
NOTE = ("Decides the stated rules for all values on every path of the analysed functions of the current source; trusts the clang front end, the models of "
        "the C++ standard library in lib/absint.py, and the assumptions listed in the evidence file. ")


def P(pid, title, statement, over, text, why, files, mech, technique=None, note="", na=None, observe=("return values and outputs of the public functions",), state=None):
    d = {"id": pid, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                     "observe_at": list(observe), "hook_needed": False}}
    if state:
        d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    d["_t"] = technique
    d["_n"] = note
    assert len(title) <= 80, (pid, len(title))
    PROPS.append(d)
    if na:
        NA[pid] = na


IO = "src/paimon/common/io/"
P("C03", "Input streams read exactly the requested existing bytes and track position",
  "Reading from an in-memory, windowed, buffered or typed input stream succeeds exactly when the requested bytes lie inside the stream, delivers those bytes from the "
  "current (or given) position, and moves the position by exactly the number of bytes read; positioned reads do not move it. "
  "A rejected read or seek returns an error, touches no byte outside the data or the caller's buffer, and leaves the position where it was.",
  ["inputs", "histories"], "all offsets, lengths, seek origins and stream lengths up to 2^62, from every reachable position, including wrapped streams that deliver fewer bytes",
  "the tests read a few short fixed files; offsets near the end, 32/64-bit overflow in the bounds arithmetic and failing or short wrapped streams are never exercised",
  [IO + "byte_array_input_stream.cpp", IO + "offset_input_stream.cpp", IO + "buffered_input_stream.cpp", IO + "data_input_stream.cpp"],
  [("bounds checks", IO + "offset_input_stream.cpp"), ("buffer refill and position bookkeeping", IO + "buffered_input_stream.cpp")], ABSINT)

P("C06", "Persistent codes, names and option keys keep their meaning",
  "Every row kind, file kind, file source, startup mode, commit kind and status code converts to its documented byte code, short string or name and back to itself, and every "
  "code or name outside the documented set is rejected or reported as unknown. Row kinds are classified as add (insert, update-after) or retract (update-before, delete). "
  "Option keys have their documented spelling and no two options share a key.",
  ["inputs", "configurations"], "all 256 byte codes, all strings, all option keys",
  "tests convert a handful of values in one direction; a swapped pair of codes that is written and read by the same build round-trips, but files of other writers are misread",
  ["src/paimon/common/types/row_kind.cpp", "src/paimon/core/manifest/file_kind.cpp", "src/paimon/core/manifest/file_source.cpp",
   "src/paimon/core/table/source/startup_mode.cpp", "src/paimon/core/snapshot.cpp", "src/paimon/common/defs.cpp", "src/paimon/common/utils/status.cpp"],
  [("conversion functions", "src/paimon/common/types/row_kind.h"), ("option keys", "src/paimon/common/defs.cpp")],
  "conditional constant propagation through the conversion functions, compared with frozen code tables")

P("C17", "Row-range operations are exact set operations",
  "Counting, intersecting, merging, excluding and comparing closed integer ranges agree with the set operations on the integers they contain: no integer is gained or lost, results "
  "are sorted and disjoint, and adjacent ranges are joined only on request. Grouping items by overlapping ranges puts exactly the transitively overlapping items together, every item once and in input "
  "order. Ordered bin packing keeps every item once and in order, in non-empty bins that exceed the target only when they hold a single item and are closed only when the next item does not fit.",
  ["inputs"], "all ranges with end points in [-2^60, 2^60] in every mutual position; lists of up to three ranges (two by two for list intersection), up to four items to pack",
  "tests use a few hand-picked ranges; touching, equal, nested and single-point ranges in every order are not enumerated",
  ["src/paimon/common/utils/range.cpp", "src/paimon/common/utils/range_helper.h", "src/paimon/common/utils/bin_packing.h"],
  [("range operations", "src/paimon/common/utils/range.cpp"), ("grouping", "src/paimon/common/utils/range_helper.h"), ("bin packing", "src/paimon/common/utils/bin_packing.h")], SHAPE)

exec(open(os.path.join(HERE, "meta_more.py")).read()) if os.path.exists(os.path.join(HERE, "meta_more.py")) else None


def main():
    PROPS.sort(key=lambda d: d["id"])
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for d in PROPS:
            f.write(json.dumps({k: v for k, v in d.items() if not k.startswith("_")}) + "\n")
    checks = []
    for d in PROPS:
        if d["id"] in NA:
            continue
        if not os.path.exists(os.path.join(HERE, "props", d["id"].lower() + ".py")):
            sys.exit("no module for " + d["id"])
        checks.append({"property": d["id"], "quick_cmd": "python3 run.py " + d["id"], "evidence_file": "evidence/%s.json" % d["id"],
                       "technique": d["_t"], "level": "other", "level_note": NOTE + d["_n"]})
    m = {"version": 1, "setup_cmd": "python3 lib/facts.py",
         "hooks": {"guard": "none", "enable": "no hooks: the checks analyse /repo's sources as they are", "source_commits": []},
         "checks": checks, "not_applicable": [{"property": k, "reason": v} for k, v in sorted(NA.items())],
         "notes": "Static analysis of /repo's current source on every run: tool/pextract.cpp (clang LibTooling) dumps the typed program, lib/absint.py interprets it abstractly, "
                  "props/*.py hold the rules. See DESIGN.md."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()

#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
NOTE = ("Bounded: histories of the models are enumerated exhaustively for small constants and replayed into the real containers, further histories are random "
        "(seeded); every recorded event is checked by TLC against the TLA+ specification. Trusts TLC, the harness and that the instrumented element, functor and allocator types stand for all conforming types.")
m = dict(version=1, setup_cmd="bash tools/setup.sh",
  checks=[dict(property=i, quick_cmd="python3 tools/check.py " + i, thorough_cmd="VERIF_TIER=thorough python3 tools/check.py " + i,
      technique="TLA+ specification checked with TLC; TLC-generated and random histories replayed into the real containers, recorded traces validated against the specification",
      level="model_checking", level_note=NOTE) for i in ids],
  not_applicable=[], notes="No hooks in /repo are needed: the public API exposes the abstract state. See DESIGN.md.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)

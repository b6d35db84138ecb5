#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed properties below."""
import json, os
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
ids = [json.loads(l)['id'] for l in open(os.path.join(ROOT, 'properties.jsonl'))]
HIST = "model-based random instruction histories on the real program, differential against a reference model, with shrinking"
TECH = {i: HIST for i in ['C%02d' % n for n in range(1, 14)] + ['C23']}
TECH.update({
  'C14': "generated builder inputs, round-trip through the readers against plain values, with shrinking",
  'C15': "generated constraint trees and contexts, differential against a direct evaluation of the formula",
  'C16': "generated account images (unknown types, spare space, legacy encodings), differential against an independent decoder",
})
TECH.update({
  'C17': "generated instructions built by every client style, differential against the instruction written by hand from the program's account list, executed by the real program",
  'C18': "generated mint descriptions, helper calls and JSON, executed on the real program and compared with the requested asset",
  'C19': "accounts from random instruction histories and damaged bytes, differential between the client's decoders and an independent decoder",
  'C20': "model-based random histories on the real proxy and asset programs, differential against a direct call of the asset program plus a model of what the proxy adds",
  'C21': "model-based random histories of creations and crossings on the real bridge and asset programs with stand-in token programs, against a reference model",
  'C22': "generated descriptions and program binaries (random layouts, damage), round-trip through the real compressor and parser",
})
NOTE = "random search: a fixed number of generated cases per tier and seed; evidence states how many were distinct and non-trivial. Bounds: small worlds (a few assets, buffers, groups and wallets), histories of up to 14 instructions, contents of up to a few kilobytes."
NA = {}
checks = [{"property": i, "quick_cmd": f"VERIF_TIER=quick ./check.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}",
           "technique": TECH[i], "level": "exploration", "level_note": NOTE} for i in ids if i in TECH]
na = [{"property": i, "reason": NA.get(i, "check under construction")} for i in ids if i not in TECH]
json.dump({"version": 1, "setup_cmd": "./check.sh --build", "checks": checks, "not_applicable": na},
          open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)

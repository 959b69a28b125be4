#!/usr/bin/env python3
"""Writes plan.json and MANIFEST.json (single source for both)."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
LIBREAL = "all of src/*.cc (container, promotions, collapse, serialisation, tables, C interface) compiled from /repo's working tree"
MEMSTUB = "memory allocator (global operator new, fails on command)"
TECH = "deterministic simulation with fault injection: seeded search over operation histories and fault schedules in one process, every choice recorded, checked against an executable reference model"
P = {}
def prop(id, runs, rule, stub, note, cap=60, thorough=40, variant='main', real=None, assume=None, level='exploration', technique=TECH):
    P[id] = dict(runs=runs, cap=cap, thorough=thorough, rule=rule, real=real or [LIBREAL], stub=stub, assume=assume or [], level=level, note=note, variant=variant, technique=technique)
exec(open(os.path.join(V, 'plan_src.py')).read())
json.dump({k: {x: y for x, y in v.items() if x not in ('note', 'technique')} for k, v in P.items()}, open(os.path.join(V, 'plan.json'), 'w'), indent=1)
json.dump({
  "version": 1, "setup_cmd": "python3 check.py build",
  "checks": [dict(property=k, quick_cmd=f"python3 check.py {k} quick", thorough_cmd=f"python3 check.py {k} thorough", technique=v['technique'], level=v['level'], level_note=v['note']) for k, v in P.items()],
  "not_applicable": NA,
  "notes": NOTES}, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)

#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from rules import CASES
root = os.path.dirname(here)
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
TECH = {
 'C01': 'runtime monitors wrapped around every parser node check restoration on failure',
 'C02': 'online checker of stream operation histories against an array-and-cursor model',
 'C03': 'drop-counting tokens and an accounting allocator sampled while streaming',
 'C04': 'instrumented token source counts polls; compared with the reference semantics',
 'C05': 'differential oracle: executable reference semantics (PEG interpreter) over generated programs',
 'C06': 'differential oracle: executable reference semantics over generated repetitions',
 'C07': 'metamorphic and differential monitoring, recovery on and off',
 'C08': 'error event lists compared with the reference semantics',
 'C09': 'differential oracle over choices with recovering alternatives',
 'C10': 'error lists of failed choices compared with the reference semantics',
 'C11': 'single-error oracle over choice-free programs',
 'C12': 'recorded step/closure events of strategies compared with the reference interpreter',
 'C13': 'reference scanner compared with scan events and errors',
 'C14': 'spans and locations observed in closures/errors recomputed from the token list',
 'C15': 'streamed items and tail checked against repeated parsing of the rest',
 'C16': 'metamorphic monitoring of structurally equivalent parsers, interleaved and nested use',
 'C17': 'call log of user closures compared with the reference semantics',
 'C18': 'entry points and conversions compared with one another on generated results',
 'C19': 'metamorphic monitoring over container representations',
 'C20': 'independent message composer compared with rendered errors',
 'C21': 'metamorphic monitoring over error and tracker types',
 'C22': 'step/poll counters as hang and scaling monitors, panic capture, hostile inputs',
 'C23': 'generated and regenerated EBNF parser and bootstrap compared with a hand-written one',
 'C24': 'live-token and heap accounting with fault injection, AddressSanitizer (Miri in thorough)',
 'C25': 'front ends compared with hand-written parsers',
}
NOTE = ("Every observed execution is judged by an oracle independent of the code under test; assurance extends to the generated "
        "cases only (deterministic in VERIF_SEED). Trusts rustc/std, the harness and its oracle.")
EXTRA = {
 'C22': ' Scaling is judged by counted token inspections, polls and tracked-token operations at two sizes, not by time.',
 'C24': ' Heap accounting is exact (all blocks allocated by the case must be gone); ASan sees only what instrumented code touches.',
 'C23': ' Uses the python3 bootstrap, rustfmt and the cached regex crate.',
}
claimed = [p for p in props if p['id'] in CASES or p['id'] in ('C23',) and os.path.exists(os.path.join(root, 'tools', 'ebnf.py'))]
na = [p for p in props if p not in claimed]
NA = {'C23': 'not built yet'}
m = dict(version=1, setup_cmd="python3 check.py --setup",
  checks=[dict(property=p['id'], quick_cmd=f"python3 check.py {p['id']} --tier quick", thorough_cmd=f"python3 check.py {p['id']} --tier thorough",
               technique=TECH[p['id']], level='exploration', level_note=NOTE + EXTRA.get(p['id'], '')) for p in claimed],
  not_applicable=[dict(property=p['id'], reason=NA[p['id']]) for p in na],
  notes="No hooks in /repo: the monitors use the public API (closures, error/tracker/container/scanner/parser traits, token sources and tokens) as observation points.")
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)

#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of checks (sa/run.py) and the notes below."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from sa.run import CHECKS
TYPESTATE = 'path-sensitive typestate analysis (abstract interpretation of MIR)'
NUM = 'abstract interpretation of MIR (linear relations, item-equality facts, loop invariants by widening)'
T = {
    'C01': TYPESTATE, 'C02': TYPESTATE, 'C03': TYPESTATE, 'C05': TYPESTATE, 'C30': TYPESTATE,
    'C04': 'effect analysis: who-may-call over every resolved call and function value in MIR',
    'C06': 'error-discipline typestate analysis of each library function (MIR)',
    'C09': 'relational (twin-run) abstract interpretation of MIR: reverse against forward with the sides exchanged',
    'C08': 'protocol composition of the compiled serialisers and deserialisers (abstract interpretation of MIR)',
    'C23': TYPESTATE, 'C17': TYPESTATE + ' with linear counters', 'C24': TYPESTATE + ' with linear counters',
    'C07': 'effect analysis: who-may-call, static-state and iteration-order rules over MIR',
    'C18': 'abstract interpretation of MIR for panics, with structural analysis of the regular expressions (which groups can have matched)',
    'C19': 'trace-partitioned abstract interpretation of MIR (loops unrolled: hunks with few lines), results compared with the marked lines',
    'C20': 'trace-partitioned abstract interpretation of MIR (loops unrolled: hunks with few lines), output pieces compared with the script',
    'C28': 'trace-partitioned abstract interpretation of MIR (loops unrolled) with a witness: an arbitrary common run of which nothing else is known',
    'C21': 'abstract interpretation of MIR (map-entry summaries, loop invariants by widening)',
}
N = {
    'C28': 'Bounded: every search in which the after range has at most 3 items that each have one place in the before range, or 2 items with up to two places (thorough: 4, 3 and 2 with three places), for all contents, positions and sizes of the inputs, plus one run of 130 items and one item with 130 places. Sound for those with respect to the library summaries in sa/models.py.',
    'C19': 'Bounded: every hunk with at most 5 body lines (6 thorough), for all line contents, header numbers and start indices. Sound for those with respect to the library summaries in sa/models.py.',
    'C20': 'Bounded: every sequence of kinds of change with at most 4 lines (5 thorough) and some longer ones, for all contents, positions and ends of the inputs. Sound for those with respect to the library summaries in sa/models.py.',
}
NA = {
    'C27': 'Round-trip equality of two whole programs over unbounded inputs; the statically decidable clauses are claimed separately as C10-C17 and C22. The composed statement needs an inductive proof about data, which no sound static rule here can deliver.',
}


def main():
    props = [json.loads(l)['id'] for l in open(os.path.join(ROOT, 'properties.jsonl'))]
    checks = []
    for p in props:
        if p in CHECKS:
            checks.append({'property': p, 'quick_cmd': f'python3 -m sa.run {p}', 'thorough_cmd': f'VERIF_TIER=thorough python3 -m sa.run {p}',
                           'evidence_file': f'evidence/{p}.json', 'technique': T.get(p, NUM), 'level': 'other',
                           'level_note': N.get(p, 'Sound with respect to the library summaries in sa/models.py for the obligations counted as proved; obligations the analysis cannot decide are counted as undecided in the evidence and raise no alarm.')})
    na = [{'property': p, 'reason': NA.get(p, 'no check yet')} for p in props if p not in CHECKS]
    m = {'version': 1, 'setup_cmd': 'python3 -c "from sa import mir; mir.load()"', 'checks': checks, 'not_applicable': na,
         'notes': 'All checks analyse the MIR of /repo\'s current working tree, dumped by driver/ (a rustc_private wrapper) under cargo +nightly check; nothing of /repo is executed. No hooks are needed in /repo.'}
    json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)


main()

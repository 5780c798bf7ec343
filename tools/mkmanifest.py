#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: one check per property."""
import json, os
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]

TRACE = 'TLA+ specification checked by TLC; recorded executions of the real code validated by TLC against it'
TECH = {
    'C12': TRACE + ', and pairs of runs compared through a memo specification',
    'C14': 'TLA+ model of the worker pool checked by TLC; runs under varied processors and the race detector validated by TLC',
    'C15': 'TLA+ specification of instance lives; histories of real calls validated by TLC',
    'C16': 'TLA+ memo specification; recorded runs in other company and order validated by TLC',
    'C17': 'TLA+ database specification; histories of the real database validated by TLC',
    'C18': 'TLA+ database specification; histories of the real database validated by TLC',
    'C21': 'TLA+ deque specification; linearisation of recorded concurrent histories searched by TLC, race detector',
    'C22': 'TLA+ file specification; runs of the built tool validated by TLC',
    'C23': 'TLA+ file specification; runs of the built tool validated by TLC',
    'C24': 'TLA+ specification of valid calls; outcomes of real calls validated by TLC',
    'C31': 'TLA+ state machine of the procedure, model checked by TLC on small worlds; recorded simplifications are behaviours of it (existence searched by TLC)',
    'C28': 'TLA+ reader specification; readings of real files validated by TLC',
}
COMMON = ('Every judged execution satisfies the property exactly (integer geometry evaluated by TLC); executions are generated, '
          'so inputs that no family produces are not covered. Trusted: TLC, the recorder, and exactness of the generated coordinates. ')
NOTE = {
    'C02': 'Distances compared exactly for coordinates up to 150 units; larger drawings only carry orientation clauses elsewhere.',
    'C07': 'Displacements are measured at proper crossings, to 1/20 of a grid unit.',
    'C08': 'Displacements are measured at proper crossings, to 1/20 of a grid unit.',
    'C11': 'Homotopy decided by reduced crossing words with vertical rays from each disjoint constraint.',
    'C14': 'Schedules are sampled by the Go scheduler; the pool design is explored exhaustively in the model.',
    'C21': 'Histories of 2 to 4 callers; the race detector watches longer ones.',
    'C31': 'Where more than five decisions depend on rounding nothing is claimed (about 1% of the inputs).',
    'C29': 'Lines whose decision depends on a tie (equal offsets, offset equal to the threshold) are skipped.',
}
checks = []
for p in props:
    i = p['id']
    checks.append(dict(property=i, quick_cmd='bash check.sh %s quick' % i, thorough_cmd='bash check.sh %s thorough' % i,
                       evidence_file='evidence/%s.json' % i, technique=TECH.get(i, TRACE), level='model_checking',
                       level_note=COMMON + NOTE.get(i, '')))
m = dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=[],
         notes='TLA+ with TLC (see DESIGN.md). No hooks in /repo: the checks observe the public interface of the packages and the built tool. '
               'Findings repaired in /repo are listed in known_findings.txt.')
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks))

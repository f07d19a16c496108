"""Writes MANIFEST.json from the catalog: python3 mkmanifest.py"""
import json
import subprocess

from dst.catalog import CATALOG

NA = {
    'C90': 'pure value containers: no schedule, clock, I/O, randomness or '
           'multi-party behaviour for a simulation to control; their use by '
           'the search is covered by C14 and C05',
    'C91': 'closed formulas of their arguments, without any nondeterminism; '
           'the costs and probabilities are checked where a search uses them '
           '(C01, C13, C14)',
    'C92': 'a deterministic function of one array (the seed only names an '
           'index); its use while loading networks is covered by C15',
    'C93': 'a deterministic function of its arguments; its use in results is '
           'covered by C01',
}
NOTE = {
    'C13': 'the random stream is dictated next to the acceptance thresholds',
}
TECH = ('deterministic simulation with fault injection (seeded search over '
        'schedules, random streams and faults; reference-model oracle)')
done = [p for p in sorted(CATALOG)]
props = [json.loads(l)['id'] for l in open('properties.jsonl')]
hooks = []
m = dict(
    version=1,
    setup_cmd='python3 -m dst.build',
    checks=[dict(property=p,
                 quick_cmd='python3 -m dst.check %s --tier quick' % p,
                 thorough_cmd='python3 -m dst.check %s --tier thorough' % p,
                 technique=TECH, level='exploration',
                 level_note=CATALOG[p]['rule'] + ('; ' + NOTE[p] if p in NOTE
                                                  else ''))
            for p in done],
    not_applicable=[dict(property=p, reason=NA[p]) for p in props
                    if p in NA],
    hooks=dict(guard='', enable='', source_commits=[]),
    notes='All seams are installed from outside (module-level names, '
    'random.Random, clocks, SharedMemory, joblib): /repo needs no hooks. '
    'known_findings.json lists the defects found.')
json.dump(m, open('MANIFEST.json', 'w'), indent=1)
open('MANIFEST.json', 'a').write('\n')

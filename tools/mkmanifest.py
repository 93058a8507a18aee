"""Writes MANIFEST.json from properties.jsonl. usage: python3 tools/mkmanifest.py"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = 'TLA+ specification checked with TLC; specification-generated cases run on the real code; every recorded call judged by TLC against the specification'
OWN = {
    'S01': 'TLA+ protocol model with an attacker (TLC); its behaviours replayed on the real code; recorded histories validated by TLC',
    'S02': 'TLA+ protocol model with an attacker (TLC); its behaviours replayed on the real code; recorded histories validated by TLC',
    'C22': 'TLA+ model of option builders and its heap refinement (TLC); its behaviours replayed on the real builders; recorded histories validated by TLC',
    'C24': 'TLA+ model of concurrent ceremonies (TLC); same calls in other orders, threads and interpreter modes, every call judged by TLC',
}
NOTE = ('Bounded: the models are checked exhaustively within the bounds in spec/*.cfg; the code is bound to them by judging calls of the real '
        'library, so what it assures of the code is the cases it ran (counts in the evidence), not a proof. Trusted: TLC, the harness\' own encoders, '
        'and the cryptography package as signature oracle.')
NA = {}


def main():
    with open(os.path.join(HERE, 'properties.jsonl')) as f:
        props = [json.loads(l)['id'] for l in f if l.strip()]
    m = {'version': 1, 'setup_cmd': 'sh bin/setup',
         'hooks': {'guard': 'none', 'enable': 'no hooks: the checks use the public interface of /repo as it is', 'source_commits': []},
         'checks': [{'property': p, 'quick_cmd': 'bin/check %s quick' % p, 'thorough_cmd': 'bin/check %s thorough' % p,
                     'evidence_file': 'evidence/%s.json' % p, 'technique': OWN.get(p, TECH), 'level': 'model_checking', 'level_note': NOTE}
                    for p in props if p not in NA],
         'not_applicable': [{'property': p, 'reason': NA[p]} for p in props if p in NA],
         'notes': 'Known findings and repaired defects: KNOWN_FINDINGS.txt'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()

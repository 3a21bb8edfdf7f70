import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = [json.loads(x)['id'] for x in open(os.path.join(ROOT, 'properties.jsonl'))]
TECH = 'TLA+ specification checked with TLC; its behaviours replayed into nrbf, and recorded runs of nrbf validated against it'
NOTE = ('Every message of the property\'s alphabets up to a bounded number of records is enumerated by TLC (which also checks the specification\'s invariants) '
        'and replayed; recorded runs on a seeded corpus aimed at the property are judged by TLC. Sound on what is explored, not a proof for all inputs. '
        'Trusts TLC and the projection of the public values to JSON.')
EXTRA = {
    'C01': ' Known findings: deep nesting overflows the stack, a huge run of nulls exhausts memory. Only crashes, panics (with overflow checks) and hangs count here.',
    'C10': ' Known findings: an object can be referenced only once, not if it is itself a member, and only in depth-first order.',
    'C17': ' Known findings: a root object that another record refers to or contains is rejected.',
    'C22': ' Sessions of several threads and of the build without the serde feature are checked against the same outcomes.',
    'C24': ' Errors that only name the expected record or the end say nothing that could be false; which of several broken rules is named is left open.',
    'C25': ' Texts written by serde for a target are read for what they name; what they say was expected instead is not judged, nor are texts that name nothing.',
    'C23': ' Times are processor time of the calling thread in an unoptimized build with generous limits (1 us and 1 KiB per byte or element): only what grows faster than the message is found.',
}
checks = []
for p in PROPS:
    checks.append(dict(property=p, quick_cmd='python3 check.py --property ' + p, thorough_cmd='VERIF_TIER=thorough python3 check.py --property ' + p,
                       technique=TECH, level='model_checking', level_note=NOTE + EXTRA.get(p, '')))
m = dict(version=1, setup_cmd='python3 setup.py', checks=checks, not_applicable=[],
         notes='No hooks: everything is observed through the public API. DESIGN.md explains the specification, known_findings.txt lists defects.')
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')

#!/usr/bin/env python3
# Writes MANIFEST.json from properties.jsonl and checks/checks.json.
import json, os
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
conf = json.load(open(R + '/checks/checks.json'))
props = [json.loads(l) for l in open(R + '/properties.jsonl')]
m = dict(version=1, setup_cmd='python3 tools/selftest.py', checks=[], not_applicable=[],
         notes='Every check is python3 run.py <ID>: it compiles checks/<ID>*.cpp with the engine of engine/ against the headers of /repo, with AddressSanitizer and UndefinedBehaviorSanitizer (C29: ThreadSanitizer; the programs that C31 generates are built plainly, with g++ and clang++), and searches generated cases. No hooks in /repo are needed. python3 run.py <ID> --replay <file> replays a reported violation.')
for p in props:
    c = conf.get(p['id'])
    if not c:
        m['not_applicable'].append(dict(property=p['id'], reason='The check of this property is not built yet.'))
        continue
    m['checks'].append(dict(property=p['id'], quick_cmd='python3 run.py ' + p['id'], thorough_cmd='VERIF_TIER=thorough python3 run.py ' + p['id'],
                            evidence_file='evidence/%s.json' % p['id'], technique=c.get('technique', 'property-based testing (choice-sequence generation and shrinking) against a reference model, under ASan/UBSan'),
                            level='exploration', level_note=c.get('level_note', 'Random search: a violation found is real and replays, absence is not established. Trusts the reference model in the harness, clang and the sanitizers.')))
json.dump(m, open(R + '/MANIFEST.json', 'w'), indent=1)
print(len(m['checks']), 'checks', len(m['not_applicable']), 'unclaimed')

#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the properties and the checks the harness registers."""
import json,subprocess,sys,os
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.chdir(here)
TECH=json.load(open('tools/techniques.json'))
ids=[json.loads(l)['id'] for l in open('properties.jsonl')]
done=[i for i in ids if i in TECH and os.path.exists(f'harness/{i.lower()}.go')]
m=dict(version=1,setup_cmd='bash setup.sh',checks=[],not_applicable=[],
 notes='No hooks: the monitors observe the public API, the callbacks the library offers (serializer, text converter, visibility test), the process and the command. Commits in /repo are repairs ("fix:") only; see known-findings.json and DESIGN.md.')
for i in ids:
    if i in done:
        m['checks'].append(dict(property=i,quick_cmd=f'bash run.sh {i} quick',thorough_cmd=f'bash run.sh {i} thorough',
          technique=TECH[i][0],level='exploration',level_note=TECH[i][1]))
    else:
        m['not_applicable'].append(dict(property=i,reason='check not built yet'))
json.dump(m,open('MANIFEST.json','w'),indent=1); open('MANIFEST.json','a').write('\n')

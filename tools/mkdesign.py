#!/usr/bin/env python3
"""Puts DESIGN.md together: the text parts, what a quick run costs, and which check catches which planted change."""
import json,os
os.chdir(os.path.dirname(os.path.abspath(__file__))+'/..')
out=open('tools/design_head.md').read()+'\n'+open('tools/design_props.md').read()
s=json.load(open('tools/sweep.json'))
out+='\n## Planted changes and what catches them\n\nEach lies in seeded/, compiles, passes the existing tests and has a demonstration. "caught" is the outcome of the\nquick check of its property (tools/sweep.sh).\n\n| change | property | what it breaks, and when | caught |\n|---|---|---|---|\n'
for k,v in s.items():
    if not os.path.exists(f'seeded/{k}/meta.json'): continue
    m=json.load(open(f'seeded/{k}/meta.json'))
    out+='| %s | %s | %s — %s | %s |\n'%(k,v['property'],m['what_it_breaks'].replace('|','/'),m['needs'].replace('|','/'),v['how'] if v['caught'] else '**missed**')
open('DESIGN.md','w').write(out)

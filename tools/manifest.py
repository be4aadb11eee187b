#!/usr/bin/env python3
"""Writes MANIFEST.json. Run: python3 tools/manifest.py"""
import json, os
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
CRATE = {'C01':'lexer','C02':'lexer','C06':'grammar','C07':'grammar','C08':'grammar','C09':'grammar'}
TECH = {
 'C01':'exhaustive enumeration of bounded token sets; complete product of the real automaton with a derivative model',
 'C02':'exhaustive enumeration of bounded token sets; every reachable product state checked for winner or tie',
 'C06':'exhaustive enumeration of bounded EBNF grammars; bounded language comparison of model and implementation',
 'C07':'exhaustive enumeration of bounded grammars; table compared cell by cell with a FIRST/FOLLOW model and executed',
 'C08':'exhaustive enumeration of bounded grammars; complete LR state spaces of an explicit model compared with the outcome',
 'C09':'exhaustive enumeration of bounded grammars and all token strings up to a bound, run on the real table',
}
NOTE = {}
props = [json.loads(l) for l in open('properties.jsonl')]
NA = {}
exec(open('tools/manifest_more.py').read()) if os.path.exists('tools/manifest_more.py') else None
checks = []
for p in props:
    i = p['id']
    if i in CRATE:
        checks.append({'property': i, 'quick_cmd': f'bash tools/check.sh {CRATE[i]} {i}', 'thorough_cmd': f'bash tools/check.sh {CRATE[i]} {i} --thorough',
          'evidence_file': f'evidence/{i}.json', 'technique': 'model checking: ' + TECH[i], 'level': 'model_checking',
          'level_note': NOTE.get(i, 'Exhaustive within the bounds stated in DESIGN.md and in the evidence; nothing is claimed beyond them. Every explored case runs on the real code.')})
    elif i not in NA:
        NA[i] = 'check not built yet'
m = {'version':1,'setup_cmd':'bash tools/setup.sh','hooks':{'guard':'none','enable':'no hooks are needed: the checks use the public interface of the crates and the command line','source_commits':[]},
 'checks':checks,'not_applicable':[{'property':k,'reason':v} for k,v in sorted(NA.items())]}
json.dump(m,open('MANIFEST.json','w'),indent=1); open('MANIFEST.json','a').write('\n')

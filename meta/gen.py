#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from meta/props.py (a development tool; no check runs it)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(H + '/properties.jsonl', 'w') as f:
    for p in props.P:
        d = {'id': p['id'], 'title': p['title'], 'statement': p['statement'],
             'quantifier': {'over': p.get('over', ['inputs']), 'text': p['quant']},
             'why_tests_cant': p['why'],
             'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}}
        assert len(d['title']) <= 80, d['title']
        f.write(json.dumps(d, ensure_ascii=False) + '\n')
checks, na = [], []
for p in props.P:
    if 'na' in p:
        na.append({'property': p['id'], 'reason': p['na']})
        continue
    checks.append({'property': p['id'], 'quick_cmd': 'python3-vt check.py ' + p['id'],
                   'thorough_cmd': 'VERIF_TIER=thorough python3-vt check.py ' + p['id'],
                   'evidence_file': 'evidence/%s.json' % p['id'],
                   'technique': p.get('technique', props.TECH), 'level': p.get('level', 'proof'),
                   'level_note': p['note'], **({'theorems': p['theorems']} if 'theorems' in p else {})})
json.dump({'version': 1, 'setup_cmd': 'python3-vt setup_check.py', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks in /repo: specifications live in /verif/specs and are compiled together with the '
                    'headers and sources of /repo on every run.'},
          open(H + '/MANIFEST.json', 'w'), indent=1, ensure_ascii=False)
print(len(checks), 'claimed', len(na), 'not applicable')


def design():
    import os
    here = os.path.dirname(os.path.abspath(__file__))
    s = open(here + '/DESIGN.in.md', encoding='utf-8').read()
    k = json.load(open(os.path.dirname(here) + '/known_findings.json'))
    t = '| property | commit and defect |\n|---|---|\n'
    for x in k:
        if x['status'] == 'fixed':
            t += '| %s | %s |\n' % (x['property'], x['what'].split(' ', 2)[2])
    s = s.replace('FINDTABLE\n', t)
    r = {}
    try:
        r = json.load(open(here + '/seed_results.json'))
    except FileNotFoundError:
        pass
    import importlib.util
    sp = importlib.util.spec_from_file_location('seeds', here + '/seeds.py')
    m = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(m)
    t = '| planted bug | what it breaks | caught by the check of its property |\n|---|---|---|\n'
    for x in m.SEEDS:
        t += '| %s | %s | %s |\n' % (x['id'], x['breaks'].replace('\n', ' '), r.get(x['id'], '?'))
    s = s.replace('SEEDTABLE\n', t)
    open(os.path.dirname(here) + '/DESIGN.md', 'w', encoding='utf-8').write(s)


design()

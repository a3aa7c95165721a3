#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and the per-property part of DESIGN.md from tools/props."""
import json, os, re, subprocess
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(HERE)
import sys; sys.path.insert(0, HERE)
import table
ps = [table.PROPS[k] for k in sorted(table.PROPS)]
with open(V + '/properties.jsonl', 'w') as f:
    for p in ps:
        assert len(p.title) <= 80, p.id
        assert p.over and all(o in 'schedules crash_points inputs programs histories configurations fault_sequences'.split() for o in p.over), p.id
        for x in p.files:
            assert os.path.exists('/repo/' + x), (p.id, x)
        f.write(json.dumps({'id': p.id, 'title': p.title, 'statement': p.statement, 'quantifier': {'over': p.over, 'text': p.quant}, 'why_tests_cant': p.why,
            'anchors': {'files': p.files, 'mechanism': [{'name': m, 'where': p.files[min(i, len(p.files) - 1)]} for i, m in enumerate(p.mech.split('; '))], 'observe_at': [h.name for h in p.quick + p.thorough], 'hook_needed': None}}) + '\n')
m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': [], 'not_applicable': [], 'notes': 'No hooks: harnesses use the crate\'s public API. Known findings and repaired defects: known_findings.txt.'}
for p in ps:
    if p.na:
        m['not_applicable'].append({'property': p.id, 'reason': p.na})
        continue
    assert p.quick, p.id
    m['checks'].append({'property': p.id, 'quick_cmd': f'python3 tools/check.py {p.id} quick', 'thorough_cmd': f'python3 tools/check.py {p.id} thorough',
        'evidence_file': f'evidence/{p.id}.json', 'technique': 'symbolic execution of the crate\'s LLVM IR, assertions decided by z3',
        'level': 'model_checking', 'level_note': 'Every value within the bounds is decided by the solver over the real compiled code, nothing outside them. ' + p.note + ' Bounds: ' + '; '.join(f'{h.name}: {h.bound}' for h in p.quick)})
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
d = []
for p in ps:
    d.append(f'### {p.id} {p.title}\n\n{p.statement}\n\n')
    if p.na:
        d.append(f'Not applicable: {p.na}\n\n'); continue
    d.append(f'Quantifies over: {p.quant} Tests cannot settle it: {p.why}\n\nCode: {", ".join(p.files)}.\n\n')
    for h in p.quick:
        d.append(f'- `{h.name}` (quick): {h.bound}\n')
    for h in p.thorough:
        d.append(f'- `{h.name}` (thorough): {h.bound}\n')
    if p.note:
        d.append(f'\n{p.note}\n')
    d.append('\n')
if os.path.exists(V + '/DESIGN.md'):
    s = open(V + '/DESIGN.md').read()
    a, b = '<!-- properties: generated by tools/gen.py -->\n', '<!-- end of properties -->'
    i, j = s.index(a) + len(a), s.index(b)
    open(V + '/DESIGN.md', 'w').write(s[:i] + '\n' + ''.join(d) + s[j:])
print(len(ps), 'properties,', len(m['checks']), 'claimed')

#!/usr/bin/env python3
"""The one table of properties: writes properties.jsonl and MANIFEST.json from it."""
import json, os, subprocess, importlib, sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
PROPS = []

def prop(id, bin, title, statement, over, text, why, files, mech, technique, note, state=None, observe=None, na=None):
    assert len(title) <= 80, (id, len(title))
    PROPS.append(dict(id=id, bin=bin, title=title, statement=statement, over=over, text=text, why=why, files=files,
                      mech=mech, technique=technique, note=note, state=state or [], observe=observe or [], na=na))

for m in sorted(f[:-3] for f in os.listdir(HERE) if f.startswith('p_') and f.endswith('.py')):
    importlib.import_module(m).define(prop)

with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        f.write(json.dumps(dict(
            id=p['id'], title=p['title'], statement=p['statement'],
            quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
            anchors=dict(files=p['files'],
                         state=[dict(name=a, meaning=b, where=c) for a, b, c in p['state']],
                         mechanism=[dict(name=a, where=b) for a, b in p['mech']],
                         observe_at=p['observe'], hook_needed=None))) + '\n')

bins = sorted({p['bin'] for p in PROPS if not p['na']})
manifest = dict(
    version=1,
    setup_cmd='bash tools/setup.sh ' + ' '.join(bins),
    checks=[dict(property=p['id'], quick_cmd=f"./check.sh {p['bin']} {p['id']}",
                 thorough_cmd=f"VERIF_TIER=thorough ./check.sh {p['bin']} {p['id']}",
                 evidence_file=f"evidence/{p['id']}.json", technique=p['technique'], level='exploration',
                 level_note=p['note']) for p in PROPS if not p['na']],
    not_applicable=[dict(property=p['id'], reason=p['na']) for p in PROPS if p['na']],
    notes='Generated by tools/props.py from the same table as properties.jsonl. No hooks: /repo is compiled as it is, '
          'from wrapper manifests in harness/wrap. known_findings.json lists defects found.')
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(manifest, f, indent=1)
    f.write('\n')
print(len(PROPS), 'properties,', len(manifest['checks']), 'checks, bins', bins)

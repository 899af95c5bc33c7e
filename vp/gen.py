"""writes properties.jsonl and MANIFEST.json from meta.py and props.py"""
import json, os, re, sys
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, HERE); sys.dont_write_bytecode = True
import meta, props
VERIF = os.path.dirname(HERE); REPO = '/repo'
def theorems(pid):
    out = []
    for k, u in props.P[pid]['units']:
        for h in u.get('harness', ()):
            f = os.path.join(HERE, 'harness', h + ('.rs' if k == 'verus' else '.dfy'))
            s = re.sub(r'//[^\n]*', '', open(f).read())
            out += [f'{h}::{n}' for n in re.findall(r'\b(?:proof fn|lemma|method)\s+(?:\{[^}]*\}\s*)*(vp_\w+)', s)]
    return list(dict.fromkeys(out))
checks = []; lines = []
for m in meta.M:
    assert len(m['title']) <= 80, (m['id'], len(m['title']))
    for f in m['files']: assert os.path.exists(os.path.join(REPO, f)), (m['id'], f)
    for x in m['mech']: assert os.path.exists(os.path.join(REPO, x['where'])), (m['id'], x)
    lines.append(json.dumps(dict(id=m['id'], title=m['title'], statement=m['statement'], quantifier=dict(over=m['over'], text=m['text']),
                                 why_tests_cant=m['why'], anchors=dict(files=m['files'], mechanism=m['mech']))))
    if m['id'] in props.P:
        c = dict(property=m['id'], quick_cmd=f"python3 vp/check.py {m['id']}", thorough_cmd=f"VERIF_TIER=thorough python3 vp/check.py {m['id']}",
                 technique=m['technique'], level=m['level'], level_note=m['note'].strip())
        if m['level'] == 'proof': c['theorems'] = theorems(m['id'])
        checks.append(c)
for n in meta.NA:
    if 'statement' in n:
        lines.append(json.dumps(dict(id=n['id'], title=n['title'], statement=n['statement'], quantifier=dict(over=n['over'], text=n['text']),
                                     why_tests_cant=n['why'], anchors=dict(files=n['files'], mechanism=[dict(name='implementation', where=n['files'][0])]))))
miss = [p for p in props.P if p not in {m['id'] for m in meta.M}]
if miss: print('no metadata:', miss)
open(os.path.join(VERIF, 'properties.jsonl'), 'w').write('\n'.join(lines) + '\n')
man = dict(version=1, setup_cmd='python3 vp/setup.py', checks=checks,
           not_applicable=[dict(property=n['id'], reason=n['reason']) for n in meta.NA] + [dict(property=m['id'], reason='no check yet') for m in meta.M if m['id'] not in props.P],
           notes='See DESIGN.md. No hooks were added to /repo: contracts are checked on a mechanical port (Verus) or in place (Dafny).')
json.dump(man, open(os.path.join(VERIF, 'MANIFEST.json'), 'w'), indent=1)
print(len(lines), 'properties', len(checks), 'checks')

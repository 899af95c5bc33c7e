"""Writes vp/allow.json: the unchecked assumptions of the pinned tree (run once, committed)."""
import json, os, sys, tempfile, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import tree, check, dfy
d = os.path.join(tree.REPO, 'Splinter/src')
fs = [os.path.relpath(os.path.join(a, f), d) for a, _, g in os.walk(d) for f in g if f.endswith('.rs') and not f.startswith('vp_')]
out = {'verus': check.scan_verus(d, fs), 'dafny': {}}
for l in open('/opt/vp/dafny-files.txt'):
    l = l.strip(); s = dfy.scan(os.path.join(tree.REPO, l))
    if s: out['dafny'][l] = s
json.dump(out, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'allow.json'), 'w'), indent=1, sort_keys=True)

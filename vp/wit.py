"""Concrete wrong steps (vp/harness/w_*.rs), tried only once an obligation has failed: each `vpwit_*` lemma gives a
pre-state, a post-state and a label in full and proves that the code accepts the step.  One that the verifier accepts
is a failing input of the property; on a tree that has it, none is provable."""
import os, re, shutil
import tree, vlib
HERE = os.path.dirname(os.path.abspath(__file__))

def texts(txt):
    """name -> source text of every vpwit_ function, and what precedes the first one"""
    ms = list(re.finditer(r'(?m)^(?:///[^\n]*\n)*(?:pub )?proof fn (vp(?:wit|fail)_\w+)', txt))
    ends = [m.start() for m in ms[1:]] + [len(txt)]
    out = {m[1]: txt[m.start():e] for m, e in zip(ms, ends)}
    return txt[:ms[0].start()], out

def run(work, h, closure, skip=(), timeout=200):
    """-> (accepted names, {name: text}, note)"""
    t = os.path.join(work, 'wit_' + h); shutil.rmtree(t, ignore_errors=True)
    tree.build(t, skip=skip)
    txt = open(os.path.join(HERE, 'harness', h + '.rs')).read()
    rel = re.search(r'^//@ in: *(\S+)', txt, re.M)[1]
    p = os.path.join(t, rel)
    if not os.path.exists(p): return [], {}, f'{rel} is gone'
    base = open(p).read()
    head, fns = texts(txt)
    mod = rel[:-3].replace('/', '::') + '::vp_h_' + h
    drop = set()
    for _ in range(4):
        body = ''
        for n, s in fns.items():
            if n in drop: s = re.sub(r'.', '', s)       # keep the line count
            body += s
        if not body.rstrip().endswith('}') or drop: body = body.rstrip() + '\n'
        if body.count('{') + head.count('{') > body.count('}') + head.count('}'): body += '}\n'
        open(p, 'w').write(base + f'\npub mod vp_h_{h} {{\n#![allow(unused_imports)]\nuse super::*;\n{head}{body}\n}}\n')
        vlib._fn_cache.clear()
        cl = closure(t, [rel])
        vlib.write_root(t, 'vp_wit.rs', cl)
        r = vlib.run_verus(t, 'vp_wit.rs', [mod], None, timeout=timeout, multiple=1)
        if r.compiled or r.timeout: break
        bad = {vlib.enclosing_fn(os.path.join(t, s[0]), s[1]) for e in r.errors for s in e['spans'][:1] if s[0] == rel}
        bad = {b for b in bad if b in fns}
        if not bad - drop: return [], {}, 'witnesses do not fit the text: ' + '; '.join(e['msg'][:80] for e in r.errors[:2])
        drop |= bad
    shutil.rmtree(t, ignore_errors=True)
    if not r.compiled: return [], {}, 'witnesses could not be tried'
    got = {f.rsplit('::', 1)[-1]: ok for f, ok in r.funcs.items() if f'vp_h_{h}::' in f}
    fails = [n for n in got if n.startswith('vpfail_')]
    if not fails or any(got[n] for n in fails): return [], {}, 'the assumptions of the witnesses are contradictory'
    helpers = [n for n in got if not n.startswith(('vpwit_', 'vpfail_'))]
    acc = [n for n, ok in got.items() if ok and n.startswith('vpwit_')]
    if any(not got[n] for n in helpers):    # a helper lemma that failed proves nothing to those that call it
        broken = [n for n in helpers if not got[n]]
        acc = [n for n in acc if not any(b in fns[n] for b in broken)]
    return acc, fns, ''

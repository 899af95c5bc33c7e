"""Running Verus on the ported tree: module closures, roots, results."""
import json, os, re, subprocess, time, sys, bisect
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import port
from port import strip_comments, match_brace, fn_body_open

PATH_RX = re.compile(r'\bcrate::((?:\w+::)*)(\{[^}]*\}|\w+)')

def mod_file(tree, comps):
    """deepest source file a module path names, or None"""
    for k in range(len(comps), 0, -1):
        for cand in ('/'.join(comps[:k]) + '.rs', '/'.join(comps[:k]) + '/mod.rs'):
            if os.path.exists(os.path.join(tree, cand)):
                return cand, comps[:k]
    return None

def deps(tree, rel):
    s = strip_comments(open(os.path.join(tree, rel)).read())
    out = set()
    for m in PATH_RX.finditer(s):
        pre = [x for x in m.group(1).split('::') if x]
        tails = re.findall(r'[\w:]+', m.group(2)) if m.group(2).startswith('{') else [m.group(2)]
        for t in tails:
            r = mod_file(tree, pre + t.split('::'))
            if r: out.add(r[0])
    base = rel[:-3]
    for m in re.finditer(r'^\s*(?:pub\s+)?mod\s+(\w+)\s*;', s, re.M):
        for cand in (base + '/' + m.group(1) + '.rs', os.path.dirname(rel) + '/' + m.group(1) + '.rs' if rel.endswith('mod.rs') else ''):
            if cand and os.path.exists(os.path.join(tree, cand)): out.add(cand)
    return out

LIB_DIRS = ('abstract_system', 'allocation_layer', 'betree', 'disk', 'journal', 'marshalling', 'spec', 'exec')
SEQ_DIRS = ('spec', 'trusted', 'implementation', 'marshalling', 'abstract_system', 'disk', 'journal')

def universe(tree, dirs):
    out = []
    for d in dirs:
        for dd, _, fs in os.walk(os.path.join(tree, d)):
            out += [os.path.relpath(os.path.join(dd, f), tree) for f in fs if f.endswith('.rs') and f != 'mod.rs']
    return out

_impl_cache = {}
def impl_targets(tree, rel):
    """(types defined, types given inherent impls) in a file"""
    k = os.path.join(tree, rel)
    st = os.stat(k).st_mtime_ns
    if k in _impl_cache and _impl_cache[k][0] == st: return _impl_cache[k][1]
    c = strip_comments(open(k).read())
    defs = set(re.findall(r'\b(?:struct|enum|trait)\s+(\w+)', c)) | set(re.findall(r'state_machine!\s*\{\s*(\w+)', c))
    imps = set()
    for m in re.finditer(r'^\s*(?:unsafe\s+)?impl\b\s*(<[^{]*?>)?\s*([\w:]+)[^{;]*\{', c, re.M):
        if re.search(r'\bfor\b', m.group(0)): continue
        p = m.group(2).split('::')
        t = p[-1]
        if t == 'State' and len(p) > 1: t = p[-2]
        imps.add(t)
    r = (defs, imps - defs)
    _impl_cache[k] = (st, r)
    return r

def closure(tree, files):
    """files a module set needs: imports, plus files of the same crate that
    give inherent impls to types defined in the set"""
    dirs = {f.split('/')[0] for f in files}
    uni = universe(tree, ('example',) if 'example' in dirs else SEQ_DIRS if dirs & {'implementation', 'trusted'} else LIB_DIRS)
    cur = _closure(tree, files)
    while True:
        defs = set()
        for f in cur: defs |= impl_targets(tree, f)[0]
        more = [g for g in uni if g not in cur and impl_targets(tree, g)[1] & defs and deps(tree, g) & cur]
        if not more: return cur
        cur = _closure(tree, list(cur) + more)

def _closure(tree, files):
    seen = set(); todo = [f for f in files]
    while todo:
        f = todo.pop()
        if f in seen: continue
        if not os.path.exists(os.path.join(tree, f)): continue
        seen.add(f)
        s = deps(tree, f)
        # a directory module file (`betree.rs`, `implementation/mod.rs`) contributes nothing itself
        for d in s:
            dd = d[:-3] if not d.endswith('/mod.rs') else d[:-7]
            if os.path.isdir(os.path.join(tree, dd)) and '/' not in dd: continue
            todo.append(d)
    return seen

def write_root(tree, name, files, extra=()):
    """crate root that contains exactly `files` (module structure mirrored)."""
    kids = {}
    nested = set()
    for f in files:
        for d in deps(tree, f):
            if d.startswith(f[:-3] + '/'): nested.add(d)    # declared by its parent
    for f in sorted(files):
        if f in nested or f == 'vp_lib.rs' or f[:-3] in extra: continue
        comps = f[:-3].split('/')
        kids.setdefault(tuple(comps[:-1]), []).append(comps[-1])
    r = '#![verifier::loop_isolation(false)]\n' + port.CRATE_ATTRS + '#![allow(non_snake_case)]\n'
    def emit(prefix, ind):
        t = ''
        for k in kids.get(prefix, []): t += ind + f'pub mod {k};\n'
        subs = sorted({p[len(prefix)] for p in kids if len(p) > len(prefix) and p[:len(prefix)] == prefix})
        for sname in subs:
            t += ind + f'pub mod {sname} {{\n' + emit(prefix + (sname,), ind + '  ') + ind + '}\n'
        return t
    r += emit((), '')
    r += 'vstd::prelude::verus!{ global size_of usize == 8; }\n'
    r += 'pub mod vp_lib;\n'
    for e in extra: r += f'pub mod {e};\n'
    open(os.path.join(tree, name), 'w').write(r)

class Result:
    def __init__(self):
        self.funcs = {}; self.errors = []; self.compiled = False
        self.verified = 0; self.nerr = 0; self.smt_ms = 0; self.wall = 0; self.timeout = False
        self.stderr = ''; self.rlimit_hit = False

_fn_cache = {}
def enclosing_fn(path, line):
    if path not in _fn_cache:
        try: s = open(path).read()
        except OSError: return None
        c = strip_comments(s)
        starts = [0]
        for m in re.finditer('\n', c): starts.append(m.end())
        fns = [(c.count('\n', 0, m.start()) + 1, m.group(1)) for m in re.finditer(r'\bfn\s+(\w+)', c)]
        trs = [(c.count('\n', 0, m.start()) + 1, m.group(2)) for m in
               re.finditer(r'\b(transition|init|readonly|property)!\s*\{\s*(\w+)', c)]
        _fn_cache[path] = sorted(fns + trs)
    best = None
    for l, n in _fn_cache[path]:
        if l <= line: best = n
        else: break
    return best

def run_verus(tree, root, modules=None, rlimit=None, extra=(), timeout=800, threads=8, multiple=4):
    args = [root, '--output-json', '--time-expanded', '--num-threads', str(threads), '--multiple-errors', str(multiple)]
    for m in modules or (): args += ['--verify-module', m]
    if rlimit: args += ['--rlimit', str(rlimit)]
    args += list(extra) + ['--', '--error-format=json'] if False else list(extra)
    args += ['--error-format=json']
    r = Result(); t0 = time.time()
    try:
        p = subprocess.run(port.verus_cmd(*args), cwd=tree, capture_output=True, text=True, timeout=timeout)
        out, err = p.stdout, p.stderr
    except subprocess.TimeoutExpired as e:
        r.timeout = True; r.wall = time.time() - t0; return r
    r.wall = time.time() - t0
    r.stderr = err
    try:
        js = json.loads(out[out.index('{'):])
    except ValueError:
        js = {}
    vr = js.get('verification-results', {})
    r.verified = vr.get('verified', 0) or 0; r.nerr = vr.get('errors', 0) or 0
    t = js.get('times-ms', {})
    smt = t.get('smt', {}) if isinstance(t, dict) else {}
    r.smt_ms = smt.get('total', 0) if isinstance(smt, dict) else 0
    for m in (smt.get('smt-run-module-times', []) if isinstance(smt, dict) else []):
        for f in m.get('function-breakdown', []):
            k = (f['function'])
            r.funcs[k] = r.funcs.get(k, True) and f['success']
    for line in err.split('\n'):
        if not line.startswith('{'): continue
        try: d = json.loads(line)
        except ValueError: continue
        if d.get('level') != 'error': continue
        spans = [(s['file_name'], s['line_start'], s.get('label') or '', (s.get('text') or [{}])[0].get('text', '').strip()) for s in d.get('spans', [])]
        r.errors.append(dict(msg=d.get('message', ''), spans=spans, code=(d.get('code') or {}).get('code')))
        if 'rlimit' in d.get('message', '').lower() or 'resource limit' in d.get('message', '').lower(): r.rlimit_hit = True
    r.compiled = bool(r.funcs) or (r.verified + r.nerr > 0) or (vr.get('success') is True)
    r.vr = vr
    return r

def fmt_errors(tree, r, n=10):
    out = []
    for e in r.errors[:n]:
        sp = ''
        for (f, l, lab, txt) in e['spans'][:3]:
            p = os.path.join(tree, f)
            sp += f'\n    {f}:{l} [{enclosing_fn(p, l)}] {lab} | {txt[:160]}'
        out.append(e['msg'][:300] + sp)
    return '\n'.join(out)

if __name__ == '__main__':
    import argparse
    a = argparse.ArgumentParser(); a.add_argument('tree'); a.add_argument('files', nargs='+')
    a.add_argument('-m', nargs='*'); a.add_argument('--rlimit'); a.add_argument('-n', type=int, default=12)
    a.add_argument('-x', nargs='*', default=[])
    a = a.parse_args()
    cl = closure(a.tree, a.files)
    write_root(a.tree, 'vp_tmp_root.rs', cl, a.x)
    mods = a.m if a.m is not None else [f[:-3].replace('/', '::') for f in a.files]
    r = run_verus(a.tree, 'vp_tmp_root.rs', mods, a.rlimit)
    print(len(cl), 'files;', 'compiled', r.compiled, 'verified', r.verified, 'errors', r.nerr, 'wall %.1f' % r.wall, 'funcs', len(r.funcs))
    print(fmt_errors(a.tree, r, a.n))

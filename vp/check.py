"""check.py <PROPERTY> [--keep]: decides one property against /repo's current working tree."""
import json, os, re, shutil, subprocess, sys, tempfile, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import tree, vlib, port, dfy
from port import strip_comments
VERIF = os.path.dirname(HERE)
REPO = tree.REPO
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')
if TIER not in ('quick', 'thorough'): TIER = 'quick'

ASSUME_KINDS = {
    'assume': r'\bassume\s*\(', 'admit': r'\badmit\s*\(', 'external_body': r'external_body\b',
    'external': r'verifier(?:::|\()external\b(?!_)', 'axiom': r'\baxiom\s+fn\b',
    'assume_specification': r'\bassume_specification\b', 'external_type': r'external_type_specification|external_fn_specification|external_trait_specification',
    'inline_false': r'\bspinoff_prover_never\b',
}

def scan_verus(tree_dir, files):
    out = {}
    for f in files:
        p = os.path.join(tree_dir, f)
        if not os.path.exists(p): continue
        c = strip_comments(open(p).read())
        for k, rx in ASSUME_KINDS.items():
            n = len(re.findall(rx, c))
            if n: out.setdefault(k, {})[f] = n
    return out

class Ctx:
    def __init__(self, pid, spec, keep=False):
        self.pid, self.spec, self.keep = pid, spec, keep
        self.work = tempfile.mkdtemp(prefix=f'vp_{pid}_')
        self.t0 = time.time()
        self.viol = []          # (title, detail, has_input)
        self.notes = []
        self.funcs = []         # functions whose obligations were discharged
        self.obl = 0; self.dis = 0; self.solver_ms = 0
        self.cmds = []; self.trusted = []; self.bounded = []
        self.backends = set()
        self.samples = []
        self._tree = None
    def violation(self, title, detail, has_input=False):
        self.viol.append((title, detail, has_input))
    def tree(self):
        if self._tree is None:
            self._tree = os.path.join(self.work, 'tree')
            self.ov = tree.build(self._tree, skip=getattr(self, 'skip', ()))
            if self.ov.lost: self.notes.append('proof hints without an anchor in the current tree: ' + ', '.join(self.ov.lost))
        return self._tree
    def cleanup(self):
        if not self.keep: shutil.rmtree(self.work, ignore_errors=True)
        else: print('kept', self.work)

def inject(ctx, h):
    """append harness module `h` (vp/harness/<h>.rs) to the file it names; returns module path"""
    t = ctx.tree()
    txt = open(os.path.join(HERE, 'harness', h + '.rs')).read()
    rel = re.search(r'^//@ in: *(\S+)', txt, re.M).group(1)
    p = os.path.join(t, rel)
    if not os.path.exists(p): return rel, None, txt
    mod = 'vp_h_' + h
    s = open(p).read()
    if f'pub mod {mod} ' not in s:
        s += f'\npub mod {mod} {{\n#![allow(unused_imports)]\nuse super::*;\n{txt}\n}}\n'
        open(p, 'w').write(s)
    return rel, rel[:-3].replace('/', '::') + '::' + mod, txt

EMPTY = os.path.join(HERE, 'empty_modules.json')
def file_modules(t, f):
    """the module of a file and the modules declared inside it (state machines, inline modules)"""
    m = f[:-3].replace('/', '::'); c = strip_comments(open(os.path.join(t, f)).read())
    out = [m]
    for x in re.finditer(r'\b(?:tokenized_)?state_machine!\s*[{(]\s*(\w+)|^\s*(?:pub\s+)?mod\s+(\w+)\s*\{', c, re.M):
        out.append(m + '::' + (x.group(1) or x.group(2)))
    return [x for x in out if '::vp_' not in x]

def run_mods(ctx, t, root, mods, rl, kw):
    """verus on exactly these modules; modules the verifier says hold nothing to verify are dropped"""
    empty = set(json.load(open(EMPTY))) if os.path.exists(EMPTY) else set()
    ms = [m for m in dict.fromkeys(mods) if m not in empty] or mods
    for _ in range(3):
        r = vlib.run_verus(t, root, ms, rl, **kw)
        miss = [e['msg'] for e in r.errors if 'could not find module' in e['msg']]
        if r.compiled or not miss: break
        avail = set(re.findall(r'^- (\S+)', miss[0], re.M))
        gone = [m for m in ms if m not in avail]
        if os.environ.get('VP_LEARN'):
            json.dump(sorted(empty | set(gone)), open(EMPTY, 'w'), indent=0); empty |= set(gone)
        ms = [m for m in ms if m in avail]
        if not ms: break
    return r, ms

def is_vf(name): return name.rsplit('::', 1)[-1].startswith('vpfail_')

def real_errs(t, r):
    return [e for e in r.errors if e['spans'] and not any((vlib.enclosing_fn(os.path.join(t, s[0]), s[1]) or '').startswith('vpfail_') for s in e['spans'])]

def run_driver(ctx, u):
    """bounded stand-in for this unit: True passed, False failing input reported, None could not run"""
    if not u.get('driver'): return None
    if 'drv' not in ctx.hw:
        import driver
        ctx.hw['drv'] = driver.unit(ctx, dict(what=u['driver'], k=u.get('k', 100)))
    return ctx.hw['drv']

def verus_unit(ctx, u):
    t = ctx.tree()
    files = [f for f in u['files'] if os.path.exists(os.path.join(t, f))]
    gone = [f for f in u['files'] if f not in files]
    if gone: ctx.notes.append('files no longer in the tree: ' + ', '.join(gone))
    mods = [m for f in files for m in file_modules(t, f)]
    hs = []; need = set(files)
    for h in u.get('harness', ()):
        rel, m, txt = inject(ctx, h)
        if m is None:
            ctx.violation(f'harness {h}: {rel} is gone', f'the file {rel} that carries the property is not in the tree'); continue
        hs.append((h, m, txt, rel)); need.add(rel)
    broad = u.get('broad', False)
    clo = (lambda: vlib.closure(t, sorted(need))) if broad else (lambda: vlib._closure(t, sorted(need)))
    cl = clo()
    root = f"vp_{ctx.pid}_{ctx.unit_no}.rs"
    vlib.write_root(t, root, cl)
    allmods = mods + [m for _, m, _, _ in hs]
    # files of nested modules are verified with --verify-module of their own
    kw = dict(timeout=u.get('timeout', 600))
    rl = u.get('rlimit')
    ctx.cmds.append(f'verus {root} ' + ' '.join('--verify-module ' + m for m in allmods))
    r, allmods = run_mods(ctx, t, root, allmods, rl, kw)
    if not r.compiled and not r.timeout and not broad:
        # a method may be implemented in a file no import leads to
        if os.environ.get('VP_LEARN'): print('LEARN broad needed', ctx.pid, ctx.unit_no)
        clo = lambda: vlib.closure(t, sorted(need))
        c2 = clo()
        if set(c2) != set(cl):
            cl = c2; vlib.write_root(t, root, cl)
            r, allmods = run_mods(ctx, t, root, allmods, rl, kw)
    if not r.compiled and not r.timeout:
        # a change outside the property's files may have broken the build: put those back to the committed baseline
        bad = sorted({s[0] for e in r.errors for s in e['spans'][:1]})
        inner = [b for b in bad if b in need or b == root or not os.path.exists(os.path.join(t, b))]
        ctx.notes.append('tree does not compile: ' + ', '.join(bad) + ' (' + '; '.join(e['msg'][:100] for e in r.errors[:2]) + ')')
        if bad and not inner and use_baseline(ctx, t, [c for c in cl if c not in need]):
            ctx.notes.append('retried with the baseline text of the modules outside this property')
            cl = clo(); vlib.write_root(t, root, cl)
            r, allmods = run_mods(ctx, t, root, allmods, rl, kw)
    if not r.compiled and not r.timeout and not getattr(ctx, 'skip', ()):
        # a hint may name something the current text no longer has: go on without hints in the files at fault
        ctx.skip = tuple(sorted({s[0] for e in r.errors for s in e['spans']})) or ('*',)
        ctx.notes.append('retried without proof hints in ' + ', '.join(ctx.skip))
        shutil.rmtree(ctx._tree, ignore_errors=True); ctx._tree = None
        return verus_unit(ctx, u)
    if r.timeout:
        run_driver(ctx, u)
        ctx.violation('verifier timeout', f'verus did not finish within {kw["timeout"]} s'); return
    if not r.compiled:
        run_driver(ctx, u)
        ctx.violation('the code no longer meets the verifier: ' + '; '.join(e['msg'][:120] for e in r.errors[:3]),
                      vlib.fmt_errors(t, r, 12) or r.stderr[-4000:]); return
    fails = {f for f, ok in r.funcs.items() if not ok and not is_vf(f)}
    errs = real_errs(t, r)
    tries = 0
    while (fails or errs) and tries < 2:
        tries += 1
        m2 = sorted(allmods)
        r2 = vlib.run_verus(t, root, m2, (rl or 10) * (4 if tries == 1 else 10), timeout=240, extra=('--smt-option', f'smt.random_seed={SEED + 16 + tries}'))
        if r2.timeout or not r2.compiled: break
        f2 = {f for f, ok in r2.funcs.items() if not ok and not is_vf(f)}
        e2 = real_errs(t, r2)
        r.smt_ms += r2.smt_ms
        # only a function the second run really reported as verified counts
        newf = {f for f in fails if not r2.funcs.get(f, False)}
        if not newf and not e2:
            for f in fails: r.funcs[f] = True
            ctx.notes.append(f'{len(fails)} function(s) needed a second solver configuration: ' + ', '.join(sorted(fails)[:5]))
        fails, errs, r.errors = newf, e2, (r2.errors if e2 else r.errors)
    drv = run_driver(ctx, u)
    soft = set()
    if fails and drv and not u.get('hard') and not getattr(ctx, 'skip', ()):
        # Functions that fail only because a hint took an `assume` of the repository away (or the hint no longer
        # fits the text): the proof is lost, not refuted; the bounded run of the real code stands in for them.
        soft = {f for f in fails if any(re.search(x + '$', f) for x in u.get('soft', ()))}
        raw = os.path.join(ctx.work, 'raw')
        if fails - soft:
            if not os.path.isdir(raw): tree.build(raw, overlay=False)
            rmods = [m for f in files for m in file_modules(raw, f)]
            rcl = vlib._closure(raw, sorted(files)); vlib.write_root(raw, root, rcl)
            r3, _ = run_mods(ctx, raw, root, rmods, (rl or 10) * 4, kw)
            if r3.compiled: soft |= {f for f in fails if r3.funcs.get(f) is True}
        if soft:
            ctx.notes.append('proof lost, bounded run stands in: ' + ', '.join(sorted(soft)))
            ctx.bounded.append(dict(kind='bounded: stands in for', functions=sorted(soft)))
            fails -= soft
            errs = [e for e in errs if not any((vlib.enclosing_fn(os.path.join(t, s[0]), s[1]) or '?') in {x.rsplit('::', 1)[-1] for x in soft} for s in e['spans'])]
    ctx.backends.add('verus (z3)')
    ctx.solver_ms += r.smt_ms
    good = [f for f, ok in r.funcs.items() if ok and not is_vf(f)]
    ctx.funcs += good; ctx.obl += len(good) + len(fails); ctx.dis += len(good)
    if fails or errs:
        r.errors = errs
        ctx.failed_fns = sorted(fails)
        ctx.violation('undischarged: ' + (', '.join(sorted(fails)[:6]) or errs[0]['msg'][:150]), vlib.fmt_errors(t, r, 12))
    if not good: ctx.violation('no obligation generated', 'verus reported no verified function for ' + ', '.join(allmods))
    # vacuity: every harness lemma must have been checked, every vpfail_ must have failed
    for h, m, txt, rel in hs:
        c = strip_comments(txt)
        for k in re.finditer(r'\bfn\s+(vp\w+)', c):
            n = k.group(1)
            hit = [f for f in r.funcs if f.endswith(m + '::' + n) or f.endswith('::' + n) and m.rsplit('::', 1)[-1] in f]
            if n.startswith('vpfail_'):
                if any(r.funcs[f] for f in hit) or not hit:
                    if not (fails or errs): ctx.violation(f'vacuous: {h}::{n} (ensures false) was accepted', 'the assumptions of the harness are contradictory')
            elif not hit and re.search(r'\b(?:proof|exec)?\s*fn\s+' + n + r'\b', c) and not re.search(r'\bspec\s+fn\s+' + n + r'\b|\baxiom\s+fn\s+' + n, c):
                if not (fails or errs or soft): ctx.violation(f'harness obligation {h}::{n} was not generated', '')
    # assumptions: the repository's own text must hold no more of them than the pinned tree did
    src = os.path.join(REPO, 'Splinter/src')
    sc = scan_verus(src, [f for f in cl])
    allow = json.load(open(os.path.join(HERE, 'allow.json'))).get('verus', {})
    for k, per in sc.items():
        a = allow.get(k, {})
        tot = sum(per.values()); lim = sum(a.get(f, 0) for f in set(cl))
        if tot > lim:
            new = [f'{f}: {n} (was {a.get(f,0)})' for f, n in per.items() if n > a.get(f, 0)]
            ctx.violation(f'new unchecked assumption ({k})', '; '.join(new))
    for k, per in scan_verus(t, [f for f in cl]).items():
        for f, n in per.items():
            if f in need: ctx.trusted.append(f'{n} {k} in Splinter/src/{f}')

def use_baseline(ctx, t, files):
    b = os.path.join(HERE, 'baseline')
    if not os.path.isdir(b): return False
    import hints
    src = os.path.join(ctx.work, 'basetree')
    if not os.path.isdir(src): tree.build(src, src=b)
    n = 0
    for f in files:
        if os.path.exists(os.path.join(src, f)):
            shutil.copy(os.path.join(src, f), os.path.join(t, f)); n += 1
    return n > 0

def load_known():
    p = os.path.join(VERIF, 'known_findings.json')
    return json.load(open(p)) if os.path.exists(p) else {'findings': [], 'fixed': []}

def witnesses(ctx):
    """an obligation failed: look for a concrete wrong step the current code accepts"""
    if not ctx.viol or any(v[2] for v in ctx.viol): return
    import wit
    t0 = time.time()
    for h in ctx.spec.get('wit', ()):
        if time.time() - t0 > 200: break
        try: acc, fns, note = wit.run(ctx.work, h, vlib._closure)
        except Exception as e: acc, fns, note = [], {}, f'{type(e).__name__}: {e}'
        if note: ctx.notes.append(f'witnesses {h}: {note}')
        for n in acc:
            d = ' '.join(re.findall(r'^/// ?(.*)', fns[n], re.M))
            ctx.violation(('the code ' if d.startswith('refuses') else 'the code accepts a wrong step: ') + d, f'proved for the current tree ({h}):\n' + fns[n].strip(), True)

def main():
    pid = sys.argv[1]; keep = '--keep' in sys.argv
    import props
    spec = props.P[pid]
    ctx = Ctx(pid, spec, keep)
    rc = 0
    try:
        for i, (kind, u) in enumerate(spec['units']):
            if TIER != 'thorough' and u.get('thorough'): continue
            ctx.unit_no = i; ctx.hw = {}
            if kind == 'verus': verus_unit(ctx, u)
            elif kind == 'dafny': dfy.unit(ctx, u)
            elif kind == 'driver':
                import driver; driver.unit(ctx, u)
            else: raise Exception('unknown unit ' + kind)
        witnesses(ctx)
        rc = report(ctx)
    finally:
        ctx.cleanup()
    sys.exit(rc)

def report(ctx):
    pid = ctx.pid
    known = load_known()
    viol = []
    for v in ctx.viol:
        k = [f for f in known['findings'] if f['property'] == pid and re.search(f['match'], v[0])]
        if k: print(f"KNOWN-FINDING: property={pid} {k[0]['what']}")
        else: viol.append(v)
    ev = dict(property=pid, tier=TIER, seed=SEED, level=ctx.spec.get('level', 'proof'),
              coverage=dict(obligations=ctx.obl, discharged=ctx.dis, checker_cmd='; '.join(ctx.cmds)[:6000] or 'none',
                            trusted_base=sorted(set(ctx.trusted)) + ctx.spec.get('trusted', []) + BASE_TRUST,
                            functions_under_contract=sorted(set(ctx.funcs)), back_ends=sorted(ctx.backends),
                            solver_time_s=round(ctx.solver_ms / 1000, 2)),
              assumptions=sorted(set(ctx.trusted)) + ctx.spec.get('trusted', []) + BASE_TRUST,
              wall_s=round(time.time() - ctx.t0, 2), violations=len(viol))
    if ctx.bounded: ev['coverage']['bounded_checks'] = ctx.bounded
    if ctx.notes: ev['coverage']['notes'] = ctx.notes
    if ctx.samples: ev['coverage']['samples'] = ctx.samples
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1)
    for n in ctx.notes: print('note:', n)
    print(f'{pid}: {ctx.dis}/{ctx.obl} obligations discharged, {len(set(ctx.funcs))} functions, {ev["wall_s"]} s, solver {ev["coverage"]["solver_time_s"]} s')
    for b in ctx.bounded: print('bounded:', json.dumps(b)[:300])
    if not viol: return 0
    rd = os.path.join(VERIF, 'replay'); os.makedirs(rd, exist_ok=True)
    rp = os.path.join(rd, f'{pid}.txt')
    has = any(v[2] for v in viol)
    with open(rp, 'w') as f:
        for title, detail, hi in viol:
            f.write(f'== {title}{" [failing input]" if hi else ""}\n{detail}\n\n')
    for title, detail, hi in viol: print('--', title, '\n' + '\n'.join(detail.split('\n')[:25]))
    print(f'VIOLATION property={pid} replay={rp}' + ('' if has else ' no-failing-input-found'))
    return 1

BASE_TRUST = ['the verifiers themselves (Verus 0.2026.09.13 with its Z3, vstd; Dafny 2.3.0 with Boogie and Z3), rustc, and the mechanical port (vp/port.py) where Verus is used']

if __name__ == '__main__': main()

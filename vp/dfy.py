"""Dafny units: verify files of /repo in place, plus harness files that include them."""
import json, os, re, subprocess, time
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))

def strip(s):
    s = re.sub(r'//[^\n]*', lambda m: ' ' * len(m.group(0)), s)
    return re.sub(r'/\*.*?\*/', lambda m: re.sub(r'[^\n]', ' ', m.group(0)), s, flags=re.S)

DECL = re.compile(r'^\s*(?:(?:static|ghost|protected|twostate|abstract|refines|inductive|linear|shared)\s+)*'
                  r'(lemma|method|function\s+method|predicate\s+method|function|predicate|constructor|module|class|datatype|type|newtype|const|trait|iterator|copredicate|colemma|import|export|var)\b', re.M)
def bodyless(src):
    """lemmas and methods declared without a body"""
    c = strip(src)
    c = re.sub(r'"(?:[^"\\\n]|\\.)*"', '""', c)
    ds = list(DECL.finditer(c)); out = []
    for i, m in enumerate(ds):
        if m.group(1) not in ('lemma', 'method', 'constructor'): continue
        seg = c[m.end(): ds[i+1].start() if i + 1 < len(ds) else len(c)]
        seg = re.sub(r'\{:[^{}]*\}', '', seg)
        n = re.match(r'\s*([\w\']+)', seg)
        body = False
        # the body is a brace group that follows a complete signature or clause: its first non-blank predecessor
        # is not an operator/keyword that continues an expression
        d = 0
        for k in re.finditer(r'[{}()\[\]]', seg):
            ch = k.group(0)
            if ch == '{':
                if d == 0:
                    pre = seg[:k.start()].rstrip()
                    if not re.search(r'(==|!=|<=|>=|<|>|&&|\|\||==>|<==>|\+|-|\*|!!|\bin|,|:=|:|\brequires|\bensures|\breads|\bmodifies|\bdecreases|\biset|\bmultiset|\bset|\bmap|\bthen|\belse|=>|!|\s\|)$', pre): body = True
                d += 1
            elif ch in '([': d += 1
            else: d -= 1
        if not body: out.append(n.group(1) if n else '?')
    return out

def scan(path):
    src = open(path).read(); c = strip(src)
    r = {'assume': len(re.findall(r'\bassume\b', c)), 'axiom': len(re.findall(r'\{:\s*axiom', c)),
         'extern': len(re.findall(r'\{:\s*extern', c)), 'verify_false': len(re.findall(r'\{:\s*verify\s+false', c)),
         'bodyless': len(bodyless(src))}
    return {k: v for k, v in r.items() if v}

def nlflag(repo, rel):
    try: mk = open(os.path.join(repo, 'Makefile')).read()
    except OSError: mk = ''
    return [] if ('build/' + rel[:-4] + '.verchk: NONLINEAR_FLAGS=') in mk else ['/noNLarith']

def dafny(args, timeout, cwd=None, idle=None):
    """runs dafny in its own process group; killed at the timeout or after `idle` seconds without output"""
    import tempfile, signal
    with tempfile.TemporaryFile() as out:
        p = subprocess.Popen(['dafny', '/nologo', *args], stdout=out, stderr=subprocess.STDOUT, cwd=cwd, start_new_session=True)
        t0 = time.time(); last = t0; size = 0; to = False
        try:
            while True:
                try: p.wait(timeout=0.3); break
                except subprocess.TimeoutExpired: pass
                n = os.fstat(out.fileno()).st_size; now = time.time()
                if n != size: size, last = n, now
                if now - t0 > timeout or (idle and now - last > idle): to = True; break
        finally:
            try: os.killpg(p.pid, signal.SIGKILL)
            except OSError: pass
            p.wait()
        out.seek(0)
        return out.read().decode(errors='replace'), to

def parse(o):
    procs = {}; cur = None; secs = 0.0; obls = 0
    for l in o.split('\n'):
        m = re.match(r'Verifying (\S+) \.\.\.', l)
        if m: cur = m.group(1); continue
        m = re.match(r'\s+\[([\d.]+) s, (\d+) proof obligations?\]\s+(.*)', l)
        if m and cur:
            procs[cur] = m.group(3).strip()
            secs += float(m.group(1)); obls += int(m.group(2)); cur = None
    errs = [l for l in o.split('\n') if re.search(r'\): (?:Error|Related|Timed|Verification)', l) or re.match(r'.*Error:? ', l) and '.dfy' in l]
    m = re.search(r'finished with (\d+) verified, (\d+) errors?', o)
    return dict(out=o, procs=procs, errs=errs, done=bool(m), verified=int(m.group(1)) if m else 0, nerr=int(m.group(2)) if m else -1,
                secs=secs, obls=obls)

def run(path, flags, rlimit=30000000, timeout=300, cwd=None, idle=None):
    t0 = time.time()
    o, to = dafny(['/trace', '/compile:0', f'/rlimit:{rlimit}', '/induction:1', *flags, path], timeout, cwd, idle)
    r = parse(o); r.update(wall=time.time() - t0, timeout=to)
    return r

def all_procs(path, flags, work):
    """names of every procedure that dafny would verify in this file"""
    import tempfile, glob
    d = tempfile.mkdtemp(dir=work)
    o, to = dafny(['/compile:0', '/noVerify', '/print:' + os.path.join(d, 'x.bpl'), *flags, path], 200)
    names = []
    for f in sorted(glob.glob(os.path.join(d, '*.bpl'))):
        for m in re.finditer(r'^implementation (?:\{[^}]*\}\s*)*([^\s(<]+)', open(f, errors='replace').read(), re.M): names.append(m.group(1))
    import shutil; shutil.rmtree(d, ignore_errors=True)
    return list(dict.fromkeys(names)), o

CONFIGS = [(30000000, []), (120000000, ['/proverOpt:O:smt.random_seed=17']), (120000000, ['/z3exe:/usr/local/bin/z3-new']), (120000000, ['/proverOpt:O:smt.case_split=3']),
           (200000000, ['NONL', '/proverOpt:O:smt.random_seed=5'])]
def run_procs(path, flags, procs, ex, seconds=60, configs=None, deadline=None):
    """each procedure in a verifier process of its own, over several solver configurations; status per procedure"""
    def one(p):
        last = 'no answer'; out = ''; secs = 0; ob = 0
        for rl, extra in (configs or CONFIGS):
            if deadline and time.time() > deadline: break
            fl = [x for x in flags if not (x == '/noNLarith' and 'NONL' in extra)] + [x for x in extra if x != 'NONL']
            r = run(path, fl + ['/proc:' + p], rlimit=rl, timeout=seconds)
            secs += r['secs']
            if r['procs'].get(p) == 'verified' and r['done']: return p, 'verified', '', secs, r['obls']
            last = r['procs'].get(p, 'no answer'); ob = r['obls']
            out = '\n'.join(r['errs'][:12]) or out
        return p, last, out, secs, ob
    return list(ex.map(one, procs))

def unit(ctx, u):
    from tree import REPO
    base = REPO
    if u.get('port'):
        import dport
        base = os.path.join(ctx.work, 'dtree')
        if not os.path.isdir(base):
            ctx.dropped = dport.tree(REPO, base)
    jobs = []
    skip = u.get('skip', {})          # file -> {proc regex: reason}: not claimed
    for f in u.get('files', ()):
        p = os.path.join(base, f)
        if not os.path.exists(p): ctx.notes.append('file no longer in the tree: ' + f); continue
        jobs.append((f, p, nlflag(REPO, f), u.get('only', {}).get(f)))
        if u.get('port') and ctx.dropped.get(f): ctx.trusted.append(f'not claimed in {f}: methods on linear data dropped by the port: ' + ', '.join(ctx.dropped[f]))
    for h in u.get('harness', ()):
        src = open(os.path.join(HERE, 'harness', h + '.dfy')).read().replace('@REPO@', base)
        p = os.path.join(ctx.work, h + '.dfy'); open(p, 'w').write(src)
        nl = [] if '//@ nonlinear' in src else ['/noNLarith']
        jobs.append(('harness/' + h, p, nl, None))
    split = set(u.get('split', ()))
    def skipped(f, k): return any(re.search(x, k) for x in skip.get(f, {}))
    def go(j):
        f, p, fl, only = j
        if f in split: return f, p, fl, None
        r = run(p, list(fl) + (['/proc:' + o for o in only] if only else []), timeout=u.get('timeout', 400), idle=u.get('idle', 75))
        return f, p, fl, r
    deadline = ctx.t0 + 780
    with ThreadPoolExecutor(max_workers=8) as ex: res = list(ex.map(go, jobs))
    ctx.backends.add('dafny 2.3.0 (boogie, z3)')
    total = 0; scanned = []
    for f, p, fl, r in res:
        ish = f.startswith('harness/'); only = u.get('only', {}).get(f)
        ctx.cmds.append('dafny ' + ' '.join(fl) + ' ' + f + (' (each procedure in a process of its own)' if f in split else ''))
        scanned.append((f, p))
        again = []
        if r is None or r['timeout']:
            names, o = all_procs(p, fl, ctx.work)
            if r is None:
                r = parse(o); r.update(timeout=False, done=bool(names) or 'finished with' in o)
            if only: names = [n for n in names if any(re.fullmatch(o.replace('*', '.*').replace('$', r'\$'), n) for o in only)]
            again = [n for n in names if n not in r['procs']]
            if names: r['done'] = True
        again += [k for k, s in r['procs'].items() if s != 'verified']
        again = [k for k in again if not skipped(f, k) and not (ish and 'vpfail_' in k)]
        if again and r['done'] or again and r['procs']:
            cfg = CONFIGS if len(again) <= 16 or f in split or r['timeout'] else CONFIGS[:2]
            with ThreadPoolExecutor(max_workers=8) as ex: rs = run_procs(p, fl, again, ex, u.get('seconds', 60), cfg, deadline)
            el = [l for l in r['errs'] if 'vpfail' not in l]; r['errs'] = []
            n = 0
            for k, st, errs, secs, ob in rs:
                r['procs'][k] = st; r['secs'] += secs
                if st != 'verified': r['errs'] += errs.split('\n')
                else: n += 1
            r['errs'] = r['errs'] or el
            if n and f not in split: ctx.notes.append(f'{f}: {n} procedure(s) discharged in a process of their own')
        b = {k: s for k, s in r['procs'].items() if s != 'verified' and not skipped(f, k) and not (ish and 'vpfail_' in k)}
        ctx.solver_ms += r['secs'] * 1000
        ok = [k for k, s in r['procs'].items() if s == 'verified']
        total += len(ok)
        ctx.obl += len(ok) + len(b); ctx.dis += len(ok)
        ctx.funcs += [f + ': ' + k for k in ok]
        if not r['done'] and not b:
            ctx.violation(f'{f}: not accepted by Dafny', '\n'.join(r['errs'][:20]) or r['out'][-3000:]); continue
        if b:
            ctx.violation(f'{f}: undischarged ' + ', '.join(sorted(b)[:6]), '\n'.join(r['errs'][:30]))
        if ish:
            for k, s in r['procs'].items():
                if 'vpfail_' in k and k.startswith('Impl$$') and s == 'verified': ctx.violation(f'vacuous: {f} {k} was accepted', '')
            want = set(re.findall(r'\b(?:lemma|method)\s+(?:\{[^}]*\}\s*)*(vp\w+)', strip(open(p).read())))
            have = ' '.join(r['procs'])
            if not b:
                for w in want:
                    if w not in have and w.replace('_', '__') not in have: ctx.violation(f'{f}: obligation {w} was not generated', '')
        for k, x in skip.get(f, {}).items():
            ctx.trusted.append(f'not claimed in {f}: {k} ({x})')
    if not total: ctx.violation('no obligation generated', '')
    allow = json.load(open(os.path.join(HERE, 'allow.json'))).get('dafny', {})
    tot = {}; lim = {}; new = []
    for f, p in scanned:
        if f.startswith('harness/'): continue
        s = scan(os.path.join(REPO, f)); a = allow.get(f, {})
        for k, v in s.items():
            tot[k] = tot.get(k, 0) + v
            ctx.trusted.append(f'{v} {k} in {f}')
            if v > a.get(k, 0): new.append((k, f'{f}: {v} (was {a.get(k, 0)})'))
        for k, v in a.items(): lim[k] = lim.get(k, 0) + v
    for k, v in tot.items():
        if v > lim.get(k, 0): ctx.violation(f'new unchecked assumption ({k})', '; '.join(x for kk, x in new if kk == k))

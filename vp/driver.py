"""Bounded stand-in: a concrete differential test of the marshalling code of the current tree.
The marshalling modules are compiled with `verus --no-verify --compile` from the ported /repo sources
(no proof hints) and driven against an oracle written independently in plain Rust (vp/driver/marsh.rs).
It never counts as proof; it supplies failing inputs and covers functions whose bodies the repository
protects with `assume(false)`."""
import os, re, shutil, subprocess, glob
import port, vlib
HERE = os.path.dirname(os.path.abspath(__file__))
V = '/opt/veriftools/verus'

def build(ctx, what=''):
    if hasattr(ctx, '_driver'): return ctx._driver
    import tree
    d = os.path.join(ctx.work, 'drv')
    port.port_tree(os.path.join(tree.REPO, 'Splinter/src'), d)
    root, main = ('bank_root.rs', 'bank.rs') if what == 'S17' else ('root.rs', 'marsh.rs')
    shutil.copy(os.path.join(HERE, 'driver', root), os.path.join(d, 'vp_root.rs'))
    shutil.copy(os.path.join(HERE, 'driver', main), os.path.join(d, 'vp_driver.rs'))
    shutil.copy(os.path.join(HERE, 'overlay/vp_lib.rs'), d)
    sm = (glob.glob(V + '/libstate_machines_macros.so') or glob.glob(V + '/libverus_state_machines_macros.so') or [''])[0]; bm = (glob.glob(V + '/libbuiltin_macros.so') or glob.glob(V + '/libverus_builtin_macros.so') or [''])[0]
    cmd = ['verus', '--no-verify', '--compile', '-C', 'opt-level=1', '-C', 'overflow-checks=on', '-o', 'drv',
           '--extern', f'builtin={V}/libverus_builtin.rlib', '--extern', 'builtin_macros=' + bm, '--extern', 'state_machines_macros=' + sm, 'vp_root.rs']
    ctx.cmds.append('verus --no-verify --compile vp_root.rs (driver)')
    try: r = subprocess.run(cmd, cwd=d, capture_output=True, text=True, timeout=300)
    except subprocess.TimeoutExpired: r = None
    exe = os.path.join(d, 'drv')
    ok = os.path.exists(exe)
    if not ok:
        ctx.notes.append('driver not built: ' + ' | '.join(re.findall(r'^error[^\n]*', r.stderr, re.M)[:4] if r else ['timeout']))
        if os.environ.get("VP_DEBUG"): print(r.stderr[:6000] if r else "")
        ctx.driver_err = r.stderr[-3000:] if r else 'timeout'
    ctx._driver = exe if ok else None
    return ctx._driver

def unit(ctx, u):
    """returns True: ran and passed, False: failing input, None: could not run"""
    from check import SEED, TIER
    exe = build(ctx, u['what'])
    if not exe: return None
    k = u.get('k', 4) * (20 if TIER == 'thorough' else 1)
    to = 400 if TIER == 'thorough' else 120
    try:
        r = subprocess.run([exe, u['what'], str(SEED), str(k)], cwd=ctx.work, capture_output=True, text=True, timeout=to)
        out, rc = r.stdout, r.returncode
    except subprocess.TimeoutExpired as e:
        out, rc = (e.stdout or b'').decode(errors='replace') if isinstance(e.stdout, bytes) else (e.stdout or ''), None
    fails = re.findall(r'^FAIL (.*)$', out, re.M)
    m = re.search(r'^CASES (\d+) FAILS (\d+)', out, re.M)
    ctx.bounded.append(dict(kind='bounded: concrete differential runs, not counted as proved', what=u['what'], cases=int(m.group(1)) if m else None, seed=SEED, size=k))
    if fails:
        ctx.violation('failing input: ' + fails[0][:300], '\n'.join(fails) + f'\nreplay: verus --no-verify --compile of the tree with vp/driver/*.rs, then ./drv {u["what"]} {SEED} {k}', True)
        return False
    if rc == 0 and m: return True
    if rc is None: ctx.notes.append('driver timeout'); return None
    ctx.violation(f'the driver died (exit {rc}) while running the code: ' + (r.stderr.strip().split('\n')[-1][:200] if r.stderr.strip() else 'no message'), (out[-1500:] + r.stderr[-1500:]) + f'\nreplay: ./drv {u["what"]} {SEED} {k}', True)
    return False

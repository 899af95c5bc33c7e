"""Builds the verification tree: ported /repo sources + proof overlay + property modules."""
import os, re, shutil, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import port
from port import strip_comments, match_brace, fn_body_open

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VP_REPO', '/repo')

def find_fns(s, name, impl=None):
    """list of (fn_offset, body_open, body_end) for functions called name"""
    c = strip_comments(s)
    out = []
    for m in re.finditer(r'\bfn\s+%s\b' % re.escape(name), c):
        b = fn_body_open(c, m.start())
        if b is None: continue
        if impl is not None:
            heads = list(re.finditer(r'^\s*(?:pub\s+)?(?:unsafe\s+)?(?:impl|trait)\b[^{;]*', c[:m.start()], re.M))
            if not heads or not re.search(impl, heads[-1].group(0), re.S): continue
        out.append((m.start(), b, match_brace(c, b)))
    return out

class Overlay:
    """Applies proof hints.  A hint only ever adds proof text, or replaces an
    `assume(..)` by a proof; it never touches executable statements."""
    def __init__(self, root):
        self.root = root; self.lost = []; self.applied = []; self.skip = ()
    def read(self, rel): return open(os.path.join(self.root, rel)).read()
    def write(self, rel, s): open(os.path.join(self.root, rel), 'w').write(s)
    def hint(self, rel, fn, text, at='start', impl=None, nth=0, optional=False):
        p = os.path.join(self.root, rel)
        tag = f'{rel}::{fn}@{at}'
        if rel in self.skip or '*' in self.skip: self.lost.append(tag); return False
        if not os.path.exists(p): self.lost.append(tag); return False
        s = self.read(rel)
        fs = find_fns(s, fn, impl)
        if not fs: self.lost.append(tag); return False
        for (f, b, e) in reversed(fs):
            if at == 'start':
                s = s[:b+1] + ' ' + text + s[b+1:]
            elif at == 'end':
                s = s[:e-1] + text + '\n' + s[e-1:]
            elif at == 'ensures':  # further postconditions; {r} is the name of the result
                h = strip_comments(s[f:b])
                r = re.search(r'->\s*\(\s*(\w+)\s*:', h)
                if '{r}' in text and not r:     # a plain result type: name the result
                    q = re.search(r'->\s*([A-Za-z_][\w:]*)\s*(?=requires|ensures|$)', h)
                    if q:
                        s = s[:f+q.start(1)] + f'(vp_r: {q.group(1)})' + s[f+q.end(1):]; b += len('(vp_r: )')
                        h = strip_comments(s[f:b]); r = re.search(r'->\s*\(\s*(\w+)\s*:', h)
                if '{r}' in text and not r: self.lost.append(tag); continue
                t = text.replace('{r}', r.group(1)) if r else text
                if re.search(r'\bensures\b', h):
                    q = b - (len(s[f:b]) - len(s[f:b].rstrip()))
                    c = '' if h.rstrip().endswith(',') else ','
                    s = s[:q] + c + ' ' + t + s[q:]
                else:
                    s = s[:b] + ' ensures ' + t + ' ' + s[b:]
            elif at == 'sig':      # spec clauses before the body
                s = s[:b] + text + ' ' + s[b:]
            else:
                kind, rx = at
                ms = list(re.finditer(rx, s[b:e]))
                if len(ms) <= nth:
                    if not optional: self.lost.append(tag)
                    continue
                m = ms[nth]
                if kind == 'before': s = s[:b+m.start()] + text + s[b+m.start():]
                elif kind == 'after': s = s[:b+m.end()] + text + s[b+m.end():]
                elif kind == 'replace': s = s[:b+m.start()] + text + s[b+m.end():]
            self.applied.append(tag)
        self.write(rel, s)
        return True
    def insert_items(self, rel, text):
        """put items at the start of the file's first verus! block"""
        p = os.path.join(self.root, rel)
        if not os.path.exists(p) or rel in self.skip or '*' in self.skip: self.lost.append(rel + '::items'); return
        s = self.read(rel)
        m = re.search(r'^\s*verus\s*!\s*\{', strip_comments(s), re.M)
        if not m: self.lost.append(rel + '::items'); return
        self.write(rel, s[:m.end()] + text + s[m.end():]); self.applied.append(rel + '::items')
    def file_sub(self, rel, rx, rep, count=1):
        s = self.read(rel); t, n = re.subn(rx, rep, s, count=count)
        if n == 0: self.lost.append(f'{rel}::{rx}')
        else: self.applied.append(f'{rel}::{rx}')
        self.write(rel, t)

def build(dst, src=None, overlay=True, modules=None, skip=()):
    modules = modules or {}
    src = src or os.path.join(REPO, 'Splinter/src')
    port.port_tree(src, dst)
    ovdir = os.path.join(HERE, 'overlay')
    ov = Overlay(dst); ov.skip = skip
    shutil.copy(os.path.join(ovdir, 'vp_lib.rs'), dst)
    if overlay:
        import hints
        hints.apply(ov)
    for root, base in (('vp_lib_root.rs', 'lib.rs'), ('vp_seq_root.rs', 'sequential_main.rs')):
        t = open(os.path.join(dst, base)).read()
        mods = [m.group(1) for m in re.finditer(r'^\s*(?:pub )?mod (\w+);', strip_comments(t), re.M)]
        mods.append('vp_lib')
        if overlay:
            for f in modules.get(root, ()):
                shutil.copy(os.path.join(ovdir, f + '.rs'), dst); mods.append(f)
        r = '#![verifier::loop_isolation(false)]\n' + port.CRATE_ATTRS + '#![allow(non_snake_case)]\n'
        r += ''.join(f'pub mod {m};\n' for m in mods)
        open(os.path.join(dst, root), 'w').write(r)
    return ov

if __name__ == '__main__':
    ov = build(sys.argv[1], modules=None)
    print('hints applied', len(ov.applied), 'lost', ov.lost)

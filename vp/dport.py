"""Mechanical port of /repo's Dafny sources from the linear-Dafny fork to Dafny 2.3: linearity is erased (as the fork itself does for verification),
sequence comprehensions become calls of a recursively defined function, inout parameters become in/out parameter pairs. Nothing else changes."""
import os, re, sys
TOK = re.compile(r'//[^\n]*|/\*.*?\*/|"(?:[^"\\\n]|\\.)*"', re.S)
def mask(s):
    return TOK.sub(lambda m: re.sub(r'[^\n]', ' ', m.group(0)) if m.group(0)[0] == '/' else '"' + ' ' * (len(m.group(0)) - 2) + '"', s)
SEQFN = '''
  function method vp_seq<E>(n: nat, f: int --> E) : (s: seq<E>)
    requires forall i | 0 <= i < n :: f.requires(i)
    reads set i, o | 0 <= i < n && o in f.reads(i) :: o
    decreases n
    ensures |s| == n
    ensures forall i | 0 <= i < n :: s[i] == f(i)
  { if n == 0 then [] else vp_seq(n - 1, f) + [f(n - 1)] }
'''
def modname(s, pos):
    """start of the body of the innermost module around pos"""
    c = mask(s); d = 0; stack = []
    for m in re.finditer(r'[{}]', c[:pos]):
        if m.group(0) == '{':
            pre = c[:m.start()]
            k = re.search(r'\bmodule\b[^;{}]*(?:\{:[^}]*\}[^;{}]*)*$', pre)
            stack.append(m.end() if k and not c.startswith('{:', m.start()) else None)
        elif stack: stack.pop()
    for x in reversed(stack):
        if x: return x
    return None
DECLRX = re.compile(r'^[ \t]*((?:(?:static|ghost|protected|twostate|refines)\s+)*(lemma|method|function\s+method|predicate\s+method|function|predicate|constructor|module|class|datatype|type|newtype|const|import|export))\b', re.M)
def close(c, i):
    o = c[i]; e = {'{': '}', '(': ')', '[': ']'}[o]; d = 0
    while i < len(c):
        if c[i] == o: d += 1
        elif c[i] == e:
            d -= 1
            if d == 0: return i + 1
        i += 1
    return len(c)
CONT = re.compile(r'(==|!=|<=|>=|<|>|&&|\|\||==>|<==>|\+|-|\*|!!|\bin|,|:=|:|\brequires|\bensures|\breads|\bmodifies|\bdecreases|\biset|\bmultiset|\bset|\bmap|\bimap|\bthen|\belse|=>|!|\s\||\bmethod|\blemma|\bfunction|\bpredicate)$')
def decl_end(c, start, limit):
    """(body start, end) of the method/function declared at start"""
    i = start
    while i < limit:
        ch = c[i]
        if ch == '{':
            if c[i+1] == ':' or CONT.search(c[start:i].rstrip()): i = close(c, i); continue
            return i, close(c, i)
        if ch in '([': i = close(c, i); continue
        if ch == '}': return i, i
        i += 1
    return limit, limit
def drop_linear_methods(s, names):
    """methods that take or return linear data are implementation code of the fork: dropped from the port (listed)"""
    c = mask(s); out = []
    ds = list(DECLRX.finditer(c))
    for k, m in enumerate(ds):
        if m.group(2) != 'method': continue
        lim = ds[k+1].start() if k + 1 < len(ds) else len(c)
        b, e = decl_end(c, m.end(), lim)
        sig = c[m.start():b]
        if re.search(r'\b(linear|shared|inout|lseq|glinear|gshared|maybe)\b', sig):
            out.append((m.start(), e)); names.append(re.match(r'\s*(?:\{[^}]*\}\s*)*([\w\']+)', c[m.end():]).group(1))
    for a, b in reversed(out): s = s[:a] + re.sub(r'[^\n]', ' ', s[a:b]) + s[b:]
    return s
HOIST = {'lib/Buckets/BucketFlushModel.i.dfy': ['singleMergeResult'], 'lib/Buckets/BucketsLib.i.dfy': ['Bucket'], 'BlockCacheSystem/SectorType.i.dfy': ['IndirectionTable'], 'BlockCacheSystem/BlockCache.i.dfy': ['Variables']}
def hoist_members(s, rel, names):
    """member functions of a datatype become module-level functions that take the value as their first argument"""
    for dt in HOIST.get(rel, ()):
        c = mask(s)
        m = re.search(r'\bdatatype\s+' + dt + r'\s*=\s*', c)
        if not m: continue
        i = m.end()
        while c[i] != '{' or c[i+1] == ':':
            if c[i] == '(' or c[i] == '{': i = close(c, i)
            else: i += 1
            if re.match(r'\s(predicate|function|method|lemma|datatype|type|const|import)\b', c[i:i+12]): i = None; break
        if i is None: continue
        pe = i; e = close(c, i)
        decl = c[m.end():pe]
        flds = set(re.findall(r'(\w+)\s*:(?!:)', decl)); ctors = set(re.findall(r'(?:^|\|)\s*(\w+)', decl))
        body = s[pe + 1: e - 1]; bc = mask(body)
        ds = list(re.finditer(r'\b(predicate method|function method|predicate|function)\s+(\w+)\s*\(', bc))
        mem = [d.group(2) for d in ds]; new = ''
        def self_(t):
            t = re.sub(r'(?<![\w.\'])(%s)(?![\w\'(])' % '|'.join(sorted(flds)), r'self.\1', t)
            t = re.sub(r'(?<![\w.\'])(%s)\?' % '|'.join(sorted(ctors)), r'self.\1?', t)
            t = re.sub(r'(?<![\w.\'])(%s)\(' % '|'.join(mem), r'self.\1(', t)
            return re.sub(r'\bthis\b', 'self', t)
        for j, d in enumerate(ds):
            lim = ds[j+1].start() if j + 1 < len(ds) else len(bc)
            b, en = decl_end(bc, d.end() - 1, lim)
            sig = TOK.sub(lambda x: '' if x.group(0)[0] == '/' else x.group(0), body[d.end():b]); bd = TOK.sub(lambda x: '' if x.group(0)[0] == '/' else x.group(0), body[b+1:en-1])
            pc = mask(sig); pend = close('(' + pc, 0) - 1
            new += '  %s %s_%s(self: %s%s%s%s{%s}\n' % (d.group(1), dt, d.group(2), dt, ', ' if pend > 1 else '', sig[:pend], self_(sig[pend:]), self_(bd))
        s = s[:pe] + '\n' + new + s[e:]
    return s
def split_top(t):
    out = []; d = 0; cur = ''
    for ch in t:
        if ch in '([{<': d += 1
        if ch in ')]}>': d -= 1
        if ch == ',' and d == 0: out.append(cur); cur = ''
        else: cur += ch
    if cur.strip(): out.append(cur)
    return out
def recv_start(c, dot):
    """start of the postfix expression that ends at c[dot] (exclusive)"""
    i = dot
    while True:
        j = i
        while j > 0 and c[j-1] in ')]':
            o = {')': '(', ']': '['}[c[j-1]]; e = c[j-1]; d = 0; k = j - 1
            while k >= 0:
                if c[k] == e: d += 1
                elif c[k] == o:
                    d -= 1
                    if d == 0: break
                k -= 1
            j = k
            if e == ')' : break
        k = j
        while k > 0 and (c[k-1].isalnum() or c[k-1] in "_'?"): k -= 1
        if c[k:j] in ('in', 'then', 'else', 'var', 'if', 'requires', 'ensures', 'invariant', 'assert', 'return', 'decreases', 'calc'): return j
        i = k
        if i > 0 and c[i-1] == '.' and c[i-2] != '.': i -= 1; continue
        if i > 0 and c[i-1] in ')]' and k < j: return i
        return i
def rewrite_calls(s):
    while True:
        c = mask(s)
        m = re.search(r'\.(%s)\(' % '|'.join(MEMBERS), c)
        if not m: return s
        r = recv_start(c, m.start())
        e = '' if c[m.end():].lstrip().startswith(')') else ', '
        s = s[:r] + MEMBERS[m.group(1)] + '_' + m.group(1) + '(' + s[r:m.start()] + e + s[m.end():]
# type annotations Dafny 2.3 needs where the fork infers the base type of a subset type
PATCH = {'lib/Buckets/TranslationLib.i.dfy': [(r'var newlcp := PivotLcp', 'var newlcp: seq<byte> := PivotLcp')]}
# Dafny 2.3 / Boogie reject a local that has the name of a let variable of an inlined predicate: rename the local
RENAME = {'BlockCacheSystem/JournalInterval.i.dfy': ['slice'], **{f: ['child', "child'", 'left', 'right', 'startKey', 'translatedbuckets'] for f in ('PivotBetree/PivotBetreeSpecWFNodes.i.dfy', 'PivotBetree/PivotBetreeSpecRefinement.i.dfy')}}
def rename_locals(s, names):
    for n in names:
        c = mask(s); ed = []
        ds = list(DECLRX.finditer(c))
        for k, m in enumerate(ds):
            if m.group(2) not in ('lemma', 'method'): continue
            lim = ds[k+1].start() if k + 1 < len(ds) else len(c)
            b, e = decl_end(c, m.end(), lim)
            if re.search(r'\bvar %s\s*(?::[^=;]*)?:=' % n, c[b:e]):
                ed += [(b + x.start(), b + x.end()) for x in re.finditer(r"(?<![\w.'])%s(?![\w'])" % n, c[b:e])]
        for a, b in reversed(ed): s = s[:a] + n.replace("'", '_p') + '_l' + s[b:]
    return s
CTORS = []     # every datatype of the tree: [(ctor, number of arguments)]
def index(texts):
    CTORS.clear()
    for s in texts:
        c = mask(s)
        for m in re.finditer(r'\bdatatype\s+(?:\{:[^}]*\}\s*)?\w+(?:\([^)]*\))?(?:<[^>=]*>)?\s*=', c):
            i = m.end(); cs = []
            while True:
                k = re.match(r'\s*\|?\s*(?:\{:[^}]*\}\s*)?(\w+)\s*', c[i:])
                if not k or k.group(1) in ('predicate', 'function', 'type', 'datatype', 'lemma', 'method', 'const', 'import', 'newtype', 'class', 'module', 'linear', 'static', 'ghost'): break
                j = i + k.end(); n = 0
                if j < len(c) and c[j] == '(':
                    e = close(c, j); n = len(split_top(c[j+1:e-1])); j = e
                cs.append((k.group(1), n)); i = j
                if not re.match(r'\s*\|', c[i:]): break
            CTORS.append(cs)
def expand_wild(s):
    """Dafny 2.3 has no wildcard case: one case per remaining constructor"""
    while True:
        c = mask(s)
        ms = list(re.finditer(r'\bcase\s+_\s*=>', c))
        done = False
        for m in reversed(ms):
            # enclosing match
            d = 0; i = m.start() - 1; names = []
            while i >= 0:
                if c[i] == '}': d += 1
                elif c[i] == '{':
                    if d == 0: break
                    d -= 1
                elif d == 0:
                    k = re.match(r'\bcase\s+(?:\w+\.)?(\w+)', c[i:i+80])
                    if k and (i == 0 or not c[i-1].isalnum()): names.append(k.group(1))
                i -= 1
            brace = i >= 0 and re.search(r'\bmatch\b[^{}]*$', c[:i])
            cand = [x for x in CTORS if set(names) <= {n for n, _ in x}]
            if not brace or not cand or not names: continue
            e = close(c, i) - 1
            body = s[m.end():e]
            rest = [(n, a) for n, a in cand[0] if n not in names]
            s = s[:m.start()] + ' '.join('case %s%s => %s' % (n, '(' + ', '.join('_' * a) + ')' if a else '', body.rstrip()) for n, a in rest) + s[e:]
            done = True; break
        if not done: return s
EMPTIED = {'lib/Lang/LinearSequence.s.dfy', 'lib/Lang/LinearSequence.i.dfy', 'lib/Lang/LinearMaybe.s.dfy'}
MEMBERS = {'bucketMap': 'singleMergeResult', 'flushedKeys': 'singleMergeResult', 'flushedMap': 'singleMergeResult', 'as_map': 'Bucket', 'hasEmptyLoc': 'IndirectionTable', 'IsLocAllocIndirectionTable': 'IndirectionTable', 'WriteAllocConditions': 'Variables', 'totalCacheSize': 'Variables'}
def empty_module(s):
    c = mask(s)
    for m in reversed(list(re.finditer(r'\bmodule\b[^{]*(?:\{:[^}]*\}[^{]*)*\{', c))):
        e = close(c, m.end() - 1); s = s[:m.end()] + ' }' + s[e:]
        c = mask(s)
    return s
def port(s, rel='', dropped=None):
    if rel in EMPTIED: s = empty_module(s)
    nm = []
    s = drop_linear_methods(s, nm)
    if dropped is not None and nm: dropped[rel] = nm
    s = hoist_members(s, rel, nm)
    s = rewrite_calls(s)
    s = expand_wild(s)
    s = rename_locals(s, RENAME.get(rel, ()))
    for a, b in PATCH.get(rel, ()): s = re.sub(a, b, s)
    c = mask(s)
    # seq comprehensions
    sites = [m for m in re.finditer(r'(?<![\w.])seq ?\((?=[^()]*[,(])', c)]
    mods = set()
    for m in sites:
        b = modname(s, m.start())
        if b is not None: mods.add(b)
    ed = [(m.start(), m.end(), 'vp_seq(') for m in sites] + [(b, b, SEQFN) for b in mods]
    for m in re.finditer(r'\b(linear|shared|glinear|gshared)\b(?=\s+[\w(])[ ]?', c): ed.append((m.start(), m.end(), ''))
    for m in re.finditer(r'\(00\)', c): ed.append((m.start(), m.end(), '(0)'))
    for a, b, r in sorted(ed, reverse=True): s = s[:a] + r + s[b:]
    return s
def tree(src, dst):
    dropped = {}; texts = {}
    for d, ds, fs in os.walk(src):
        ds[:] = [x for x in ds if x not in ('.git', 'build')]
        for f in fs:
            if f.endswith('.dfy'):
                r = os.path.relpath(os.path.join(d, f), src)
                texts[r] = open(os.path.join(d, f)).read()
    index(texts.values())
    for r, t in texts.items():
        o = os.path.join(dst, r)
        os.makedirs(os.path.dirname(o), exist_ok=True)
        open(o, 'w').write(port(t, r, dropped))
    return dropped
if __name__ == '__main__': tree('/repo', sys.argv[1])

"""Mechanical port of /repo/Splinter/src to the installed Verus.

Every rewrite here is purely syntactic, is applied to the CURRENT text of
/repo on every run, and never adds an assumption.  See DESIGN.md section
"What the extraction changes".
"""
import os, re, shutil, subprocess, json

VERUS_DIR = os.environ.get('VP_VERUS_DIR', '/opt/veriftools/verus')

def strip_comments(s):
    """Blank out comments and string literals, keeping offsets."""
    out = list(s); i = 0; n = len(s)
    while i < n:
        c = s[i]
        if s.startswith('//', i):
            j = s.find('\n', i); j = n if j < 0 else j
            for k in range(i, j): out[k] = ' '
            i = j
        elif s.startswith('/*', i):
            d = 1; j = i + 2
            while j < n and d:
                if s.startswith('/*', j): d += 1; j += 2
                elif s.startswith('*/', j): d -= 1; j += 2
                else: j += 1
            for k in range(i, j):
                if out[k] != '\n': out[k] = ' '
            i = j
        elif c == '"':
            j = i + 1
            while j < n and s[j] != '"':
                j += 2 if s[j] == '\\' else 1
            for k in range(i + 1, min(j, n)):
                if out[k] != '\n': out[k] = ' '
            i = j + 1
        elif c == "'":
            m = re.match(r"'(\\.[^']*|[^\\'])'", s[i:i+12])
            i += m.end() if m else 1
        else:
            i += 1
    return ''.join(out)

RENAMES = [
    (re.compile(r'\bSet\b(?=\s*(?:<|::|\())'), 'ISet'),
    (re.compile(r'\bMap\b'), 'IMap'),
    (re.compile(r'(?<![\w:])set!'), 'iset!'),
    (re.compile(r'(?<![\w:])map!'), 'imap!'),
    (re.compile(r'\bto_set\(\)'), 'to_iset()'),
    (re.compile(r'\bassert_maps_equal\b'), 'assert_imaps_equal'),
    (re.compile(r'\bassert_sets_equal\b'), 'assert_isets_equal'),
    (re.compile(r'\bvstd::(map|set|map_lib|set_lib)::'), r'vstd::i\1::'),
]

def rename_sets(s):
    for rx, rep in RENAMES:
        s = rx.sub(rep, s)
    def braces(m):
        return re.sub(r'(?<![:\w])(map|set|map_lib|set_lib)::', r'i\1::', m.group(0))
    s = re.sub(r'use vstd::\{[^}]*\}', braces, s)
    return s

def back_chain(s, i):
    """start offset of the postfix expression that ends at i"""
    j = i
    while True:
        k = j - 1
        while k >= 0 and s[k].isspace(): k -= 1
        if k >= 0 and s[k] in ')]':
            d = 0
            while True:
                if s[k] in ')]}': d += 1
                elif s[k] in '([{': d -= 1
                if d == 0 or k == 0: break
                k -= 1
            j = k
            kk = j - 1
            if kk >= 0 and (s[kk].isalnum() or s[kk] in '_)]'): continue
            if kk >= 0 and s[kk] == '.': j = kk; continue
            return j
        if k >= 0 and (s[k].isalnum() or s[k] == '_'):
            while k >= 0 and (s[k].isalnum() or s[k] == '_'): k -= 1
            j = k + 1
            if s[k] == '.' and k > 0 and s[k-1] != '.': j = k; continue
            if s[k-1:k+1] == '->': j = k - 1; continue
            if s[k-1:k+1] == '::': j = k - 1; continue
            return j
        return j

MULTISET_NAME = re.compile(r'(likes|(?<!summary)_aus|^aus|compact_add_betree|^delta|^singleton)$')
MULTISET_BY_FILE = {
    'implementation/ModelRefinement_v.rs': re.compile(r'^(requests|replies|sync_requests)$'),
    'trusted/KVStoreTrait_t.rs': re.compile(r'^(requests|replies|sync_requests)$'),
    'example/BankObligations_v.rs': re.compile(r'^(requests|replies|sync_requests)$'),
}

def multiset_dom(s, rel):
    out = []; p = 0
    extra = MULTISET_BY_FILE.get(rel)
    for m in re.finditer(r'\.dom\(\)(?!\.to_iset)', s):
        t = s[back_chain(s, m.start()):m.start()]
        if t.startswith('(') and t.endswith(')'):
            t = t[1:-1].replace('#[trigger]', '')
        while True:
            t2 = re.sub(r'\([^()]*\)', '\0', t).replace('\0', '')
            if t2 == t: break
            t = t2
        t = t.replace('#[trigger]', '')
        ids = re.findall(r'\w+', t)
        last = ids[-1] if ids else ''
        if last in ('remove', 'insert', 'sub', 'add', '1', '0') and len(ids) > 1:
            last = ids[-2]
        if MULTISET_NAME.search(last) or (extra and extra.search(last)):
            out.append(s[p:m.end()] + '.to_iset()'); p = m.end()
    out.append(s[p:])
    return ''.join(out)

def match_brace(s, i):
    """offset just past the brace group opening at s[i]; s must be comment-stripped"""
    pairs = {'{': '}', '(': ')', '[': ']'}
    d = 0
    while i < len(s):
        if s[i] in '{([': d += 1
        elif s[i] in '})]':
            d -= 1
            if d == 0: return i + 1
        i += 1
    raise ValueError('unbalanced')

def state_machine_selfless(s):
    """In state_machine!{..}: a proof fn whose first parameter is `pre: Self`
    and which returns a value becomes a `self` method (the installed macro
    emits an unqualified self-reference for such functions otherwise)."""
    pos = 0
    while True:
        c = strip_comments(s)
        m = re.compile(r'\bproof fn (\w+)\(\s*pre: Self,').search(c, pos)
        if not m: return s
        pos = m.end()
        pe = match_brace(c, c.index('(', m.start()))
        hdr = c[pe:pe+40]
        if not re.match(r'\s*->', hdr): continue
        b = c.index('\n    {', pe)
        e = match_brace(c, c.index('{', b))
        t = s[m.start():e].replace('pre: Self', 'self', 1)
        t = re.sub(r'\bpre\b', 'self', t)
        s = s[:m.start()] + t + s[e:]

def fn_body_open(c, i):
    """c: comment-stripped text, i: offset of `fn`.  Offset of the `{` that
    opens the function body, or None for a body-less declaration."""
    k = c.find('(', i)
    # skip generics
    k = match_brace(c, k)
    d = 0
    sawspec = False
    while k < len(c):
        ch = c[k]
        if ch == ';' and d == 0: return None
        if ch in '([': d += 1
        elif ch in ')]': d -= 1
        elif ch == '{' and d == 0:
            ls = c.rfind('\n', 0, k) + 1
            own = c[ls:k].strip() == ''
            seg = c[i:k]
            if not re.search(r'\b(requires|ensures|recommends|decreases|returns)\b', seg) or own:
                return k
            # `match x {` or `if c {` inside a specification clause, unless what
            # follows the group starts a new item
            e = match_brace(c, k)
            nxt = c[e:e+200].lstrip()
            if nxt == '' or nxt[0] in '}#' or re.match(r'(pub|fn|impl|proof|spec|exec|open|closed|broadcast|use|struct|enum|trait|mod|const|static|type|unsafe)\b', nxt):
                return k
            k = e; continue
        k += 1
    return None

VP_GROUP = 'broadcast use crate::vp_lib::vp_group;'

def add_broadcast(s):
    """make the (proved) vp_lib lemmas ambient: at module level of every
    verus! block, and in each proof function inside state_machine!"""
    c = strip_comments(s)
    ins = []
    for m in re.finditer(r'verus!\s*\{', c):
        ins.append(m.end())
    for m in re.finditer(r'state_machine!\s*\{', c):
        e = match_brace(c, c.index('{', m.start()))
        for f in re.finditer(r'(?:\bproof\s+|#\[inductive\([^\]]*\)\]\s*(?:#\[[^\]\n]*\]\s*)*(?:pub\s+)?)fn\s+\w+', c[m.start():e]):
            b = fn_body_open(c, m.start() + f.start() + f.group(0).rindex('fn'))
            if b is not None: ins.append(b + 1)
    for p in sorted(ins, reverse=True):
        s = s[:p] + ' ' + VP_GROUP + ' ' + s[p:]
    return s

BROADCAST_FILES = {'allocation_layer/' + x + '.rs' for x in (
    'AllocationBetreeRefinement_v', 'AllocationBranchBetree_v', 'AllocationJournal_v',
    'LikesBetree_v', 'Likes_v')}

CRATE_ATTRS = ('#![verifier::deprecated_postcondition_mut_ref_style(true)]\n'
               '#![verifier::exec_allows_no_decreases_clause]\n'
               '#![allow(unused)]\n')

def drop_literal_lets(s):
    """`let _ = 3;` binds nothing; in ghost code the literal has no type, so blank it out (offsets kept)"""
    return re.sub(r'\blet\s+_\s*=\s*\d+\s*;', lambda m: re.sub(r'[^\n]', ' ', m.group(0)), s)

BANK_TOKENS = '''
// what the tokens of the older macro showed when viewed: instance, key, value or count
pub struct VpElem<E> { pub instance: vstd::tokens::InstanceId, pub key: E, pub count: nat }
pub struct VpKv<K, V> { pub instance: vstd::tokens::InstanceId, pub key: K, pub value: V }
impl View for Bank::requests { type V = VpElem<Request>;
  open spec fn view(&self) -> VpElem<Request> { VpElem{ instance: self.instance_id(), key: self.element(), count: 1 } } }
impl View for Bank::replies { type V = VpElem<Reply>;
  open spec fn view(&self) -> VpElem<Reply> { VpElem{ instance: self.instance_id(), key: self.element(), count: 1 } } }
impl View for Bank::account_map { type V = VpKv<nat, nat>;
  open spec fn view(&self) -> VpKv<nat, nat> { VpKv{ instance: self.instance_id(), key: self.key(), value: self.value() } } }
'''

def port_bank(s, rel):
    """Splinter/src/example is a crate of its own; here it is a module of the one tree.  Its tokens are those of an
    older macro: a viewed token had fields, an initial map of tokens was a Map, an instance was compared itself."""
    s = re.sub(r'\bcrate::(?=[A-Z])', 'crate::example::', s)
    s = re.sub(r'(verus!\s*\{)', r'\1 use vstd::view::View; use vstd::tokens::*; ', s, count=1)
    s = s.replace('#[sharding(map)]', '#[sharding(imap)]')
    s = re.sub(r'(@\.instance\s*==\s*)([\w.@()\[\]]+)', lambda q: q.group(0) if q.group(2).endswith('@.instance') else q.group(1) + q.group(2) + '.id()', s)
    s = re.sub(r'(?<![\w.@)\]])([\w.@()\[\]]+)(\s*==\s*[\w.()\[\]]+@@?\.instance\b)',
               lambda q: q.group(0) if q.group(1).endswith('@.instance') else q.group(1) + '.id()' + q.group(2), s)
    s = re.sub(r'(?m)^(struct|fn main)\b', r'pub \1', s)
    m = re.search(r'let tracked \(\s*Tracked\(\w+\),\s*Tracked\((\w+)\)[^;]*?= Bank::Instance::initialize\([^;]*;', s)
    if m: s = s[:m.end()] + f' let tracked mut {m.group(1)} = {m.group(1)}.into_map();' + s[m.end():]
    if rel == 'example/Bank_v.rs': i = s.rindex('}'); s = s[:i] + BANK_TOKENS + s[i:]
    if rel == 'example/BankObligations_v.rs': s = add_broadcast(s)
    return s

def port_text(s, rel):
    s = drop_literal_lets(s)
    s = rename_sets(s)
    s = multiset_dom(s, rel)
    if rel == 'spec/ImplDisk_t.rs':
        s = re.sub(r'pub broadcast proof fn (page_count_equals|au_count_equals)', r'pub broadcast axiom fn \1', s)
    if 'state_machine!' in s:
        s = state_machine_selfless(s)
        # harnesses call the per-transition invariant proofs; the repository keeps most of them private
        s = re.sub(r'(#\[inductive\([^\]\n]*\)\][ \t]*\n[ \t]*(?:#\[[^\]\n]*\][ \t]*\n[ \t]*)*)(?:proof )?fn ', r'\1pub fn ', s)
    s = s.replace('let Tracked(out) = Tracked::assume_new()', 'let Tracked(out) = Tracked::<ID>::assume_new()')
    if rel in BROADCAST_FILES:
        s = add_broadcast(s)
    if re.match(r'example/[A-Z]', rel): s = port_bank(s, rel)
    if rel in ('lib.rs', 'sequential_main.rs'):
        if 'loop_isolation(false)' not in s:
            s = '#![verifier::loop_isolation(false)]\n' + s
        s = re.sub(r'(#!\[verifier::loop_isolation\(false\)\])', r'\1\n' + CRATE_ATTRS, s, count=1)
    return s

def port_tree(src, dst):
    shutil.rmtree(dst, ignore_errors=True)
    for d, dirs, files in os.walk(src):
        rd = os.path.relpath(d, src)
        for f in files:
            if not f.endswith('.rs'): continue
            p = os.path.join(d, f)
            if not os.path.exists(p): continue      # dangling symlink
            rel = os.path.normpath(os.path.join(rd, f))
            t = open(p).read()
            q = os.path.join(dst, rel)
            os.makedirs(os.path.dirname(q), exist_ok=True)
            open(q, 'w').write(port_text(t, rel))

def verus_cmd(*args):
    v = VERUS_DIR
    return ['verus', '--crate-type=lib',
            '--extern', f'builtin={v}/libverus_builtin.rlib',
            '--extern', f'builtin_macros={v}/libverus_builtin_macros.so',
            '--extern', f'state_machines_macros={v}/libverus_state_machines_macros.so', *args]

if __name__ == '__main__':
    import sys
    port_tree(sys.argv[1], sys.argv[2])

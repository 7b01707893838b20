"""Extracts the code of /repo into one Verus crate, splicing the contracts of /verif/contracts into it.

The function bodies are the repository's own text; every rewriting that is applied to them is a rule written down in
this file (GLOBAL_RULES) or in a contract file (`@@ rewrite`), applied by pattern, and counted in the report.
"""
import json
import os
import re
import sys
from rustlex import lex, apply_edits, Pat, find_pattern, rewrite, LexError

REPO_SRC = os.environ.get('SFV_SRC', '/repo/stable-fs/src')
CONTRACTS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'contracts')

# module path -> source file, in the order of emission
FILES = [
    ('error', 'error.rs'),
    ('filename_cache', 'filename_cache.rs'),
    ('runtime', 'runtime.rs'),
    ('runtime::types', 'runtime/types.rs'),
    ('runtime::fd', 'runtime/fd.rs'),
    ('runtime::file', 'runtime/file.rs'),
    ('runtime::dir', 'runtime/dir.rs'),
    ('runtime::structure_helpers', 'runtime/structure_helpers.rs'),
    ('storage', 'storage.rs'),
    ('storage::types', 'storage/types.rs'),
    ('storage::allocator', 'storage/allocator.rs'),
    ('storage::ptr_cache', 'storage/ptr_cache.rs'),
    ('storage::chunk_iterator', 'storage/chunk_iterator.rs'),
    ('storage::metadata_provider', 'storage/metadata_provider.rs'),
    ('storage::stable', 'storage/stable.rs'),
    ('storage::transient', 'storage/transient.rs'),
    ('fs', 'fs.rs'),
]

# the modules under contract
ENABLED = ['error', 'filename_cache', 'runtime', 'runtime::types', 'runtime::fd', 'runtime::file', 'runtime::dir',
           'runtime::structure_helpers', 'storage', 'storage::types', 'storage::allocator',
           'storage::ptr_cache', 'storage::chunk_iterator', 'storage::metadata_provider', 'storage::stable', 'storage::transient', 'fs']

# rules applied to every function body and constant, (name, pattern, replacement)
GLOBAL_RULES = [
    ('assert_eq to assert', 'assert_eq!($a, $b, $c)', 'assert!($a == $b)'),
    ('assert_eq to assert', 'assert_eq!($a, $b)', 'assert!($a == $b)'),
    ('map_err with a constant to match', '$e:post.map_err(|_| $x:any)',
     '(match $e { Ok(v_) => Ok(v_), Err(_) => Err($x) })'),
    ('range(a..=b) to range_incl(a, b)', '.range($a:any..=$b:any)', '.range_incl($a, $b)'),
]

# combinators with a closure, to the matches they stand for (not where the closure itself returns)
CLOSURE_RULES = [
    ('$e:post.is_some_and(|$x:any| $b:any)', '(match $e { Some($x) => { $b } None => false })'),
    ('$e:post.is_none_or(|$x:any| $b:any)', '(match $e { Some($x) => { $b } None => true })'),
    ('$e:post.is_ok_and(|$x:any| $b:any)', '(match $e { Ok($x) => { $b } Err(_) => false })'),
    ('$e:post.is_err_and(|$x:any| $b:any)', '(match $e { Err($x) => { $b } Ok(_) => false })'),
    ('$e:post.map_or($d, |$x:any| $b:any)', '(match $e { Some($x) => { $b } None => $d })'),
    ('$e:post.map_or_else(|| $d:any, |$x:any| $b:any)', '(match $e { Some($x) => { $b } None => { $d } })'),
    ('$e:post.ok_or_else(|| $b:any)', '(match $e { Some(v_) => Ok(v_), None => Err($b) })'),
    ('$e:post.unwrap_or_else(|| $b:any)', '(match $e { Some(v_) => v_, None => { $b } })'),
    ('$e:post.unwrap_or_else(|$x:any| $b:any)', '(match $e { Ok(v_) => v_, Err($x) => { $b } })'),
    ('$e:post.map_err(|$x:any| $b:any)', '(match $e { Ok(v_) => Ok(v_), Err($x) => Err($b) })'),
    ('$e:post.or_else(|| $b:any)', '(match $e { Some(v_) => Some(v_), None => { $b } })'),
    ('$e:post.then(|| $b:any)', '(if $e { Some($b) } else { None })'),
    ('$e:post.then_some($b)', '(if $e { Some($b) } else { None })'),
]


class ExtractError(Exception):
    pass


# ------------------------------------------------------------------------------------------------ contract files

class Contracts:
    def __init__(self):
        self.prelude = ''
        self.fns = {}       # name -> dict(tags, text)
        self.loops = {}     # (name, k) -> text
        self.hints = []     # (name, where, pattern, k, text)
        self.trusted = {}   # name -> dict(tags, text, reason)
        self.drops = {}     # name -> reason
        self.rewrites = []  # (name, from, to, optional)
        self.extras = {}    # impl/trait name -> text
        self.sigs = []      # (name, from, to)
        self.consts = {}    # name -> ensures text
        self.gen = []       # (name, source fn, [(from, to)])
        self.vias = {}      # name -> call of the copy
        self.module_extra = ''


def parse_contracts(path):
    c = Contracts()
    if not os.path.exists(path):
        return c
    cur, buf = None, []

    def flush():
        if cur is None:
            return
        body = '\n'.join(buf).strip('\n')
        parts = cur.split()
        kind = parts[0]
        if kind == 'prelude':
            c.prelude += body + '\n'
        elif kind == 'fn':
            m = re.search(r'\[([^\]]*)\]', cur)
            tags = m.group(1).replace(',', ' ').split() if m else []
            c.fns[parts[1]] = dict(tags=tags, text=body)
        elif kind == 'trusted':
            m = re.search(r'\[([^\]]*)\]', cur)
            tags = m.group(1).replace(',', ' ').split() if m else []
            reason = cur.split('--', 1)[1].strip() if '--' in cur else ''
            c.trusted[parts[1]] = dict(tags=tags, text=body, reason=reason)
        elif kind == 'loop':
            c.loops[(parts[1], int(parts[2]))] = body
        elif kind == 'hint':
            m = re.match(r'hint\s+(\S+)\s+(\S+)\s*(?:"(.*)")?\s*(?:#(\d+))?\s*$', cur)
            if not m:
                raise ExtractError(f'{path}: bad hint line {cur}')
            c.hints.append((m.group(1), m.group(2), m.group(3), int(m.group(4) or 1), body))
        elif kind == 'drop':
            reason = cur.split('--', 1)[1].strip() if '--' in cur else ''
            c.drops[cur.split('--', 1)[0].split(None, 1)[1].strip()] = reason
        elif kind in ('rewrite', 'rewrite?'):
            a, b = re.split(r'^=>[ \t]*$', body, maxsplit=1, flags=re.M)
            c.rewrites.append((parts[1], a.strip(), b.strip('\n'), kind.endswith('?')))
        elif kind == 'sig':
            a, b = body.split('=>', 1)
            c.sigs.append((parts[1], a.strip(), b.strip()))
        elif kind == 'extra':
            c.extras[cur.split(None, 1)[1].strip()] = body
        elif kind == 'const':
            c.consts[parts[1]] = body
        elif kind == 'copy':      # copy NEW SOURCE : a copy of a function under another name, with rewrites listed under NEW
            c.gen.append((parts[1], parts[2]))
        elif kind == 'via':       # via NAME : the body of a function of a trait is verified as its copy, the function itself calls the copy
            c.vias[parts[1]] = body
        elif kind == 'comment':
            pass
        else:
            raise ExtractError(f'{path}: unknown section {cur}')

    for line in open(path):
        line = line.rstrip('\n')
        if line.startswith('@@ '):
            flush()
            cur, buf = line[3:].strip(), []
        else:
            buf.append(line)
    flush()
    return c


# ------------------------------------------------------------------------------------------------ items

class Item:
    def __init__(self, **kw):
        self.__dict__.update(kw)


def skip_attrs(toks, i):
    attrs = []
    while i < len(toks) and toks[i].text == '#':
        j = i + 1
        if toks[j].text == '!':
            j += 1
        attrs.append((i, toks[j].match + 1))
        i = toks[j].match + 1
    return i, attrs


def attr_text(src, toks, a):
    return src[toks[a[0]].s:toks[a[1] - 1].e]


def parse_items(src, toks, lo, hi):
    items = []
    i = lo
    while i < hi:
        start = i
        i, attrs = skip_attrs(toks, i)
        if i >= hi:
            break
        at = [attr_text(src, toks, a) for a in attrs]
        head = i
        # visibility
        if toks[i].text == 'pub':
            i += 1
            if toks[i].text == '(':
                i = toks[i].match + 1
        vis_end = i
        while toks[i].text in ('unsafe', 'async', 'extern') or (toks[i].text == 'const' and toks[i + 1].text == 'fn'):
            i += 1
        k = toks[i].text
        it = Item(attrs=at, start=start, head=head, kw=i, vis_end=vis_end, kind=k, name=None)
        if k in ('use', 'static', 'const', 'type', 'extern'):
            j = i
            while toks[j].text != ';':
                j = toks[j].match + 1 if toks[j].kind == 'open' else j + 1
            it.end = j + 1
            it.name = toks[i + 1].text if k != 'use' else None
            if k in ('static', 'const') and it.name == 'mut':
                it.name = toks[i + 2].text
        elif k in ('struct', 'enum', 'trait', 'impl', 'mod', 'fn', 'union'):
            it.name = toks[i + 1].text if k != 'impl' else None
            j = i
            while toks[j].text not in ('{', ';'):
                j = toks[j].match + 1 if toks[j].kind == 'open' else j + 1
            if toks[j].text == ';':
                it.body = None
                it.end = j + 1
            else:
                it.body = (j, toks[j].match)
                it.end = toks[j].match + 1
        elif toks[i].kind == 'id' and toks[i + 1].text == '!':
            it.kind = 'macro'
            it.name = k
            j = i + 2
            if toks[j].kind == 'id':
                j += 1
            it.body = (j, toks[j].match)
            it.end = toks[j].match + 1
            if it.end < hi and toks[it.end].text == ';':
                it.end += 1
        else:
            raise ExtractError(f'cannot parse item at: {src[toks[i].s:toks[i].s + 80]!r}')
        items.append(it)
        i = it.end
    return items


def is_cfg_test(attrs):
    return any(re.match(r'#\s*\[\s*cfg\s*\(\s*test\s*\)\s*\]', a) for a in attrs)


def impl_names(src, toks, it):
    """('Type', None) or ('Type', 'Trait')"""
    i = it.kw + 1
    if toks[i].text == '<':
        d = 0
        while True:
            if toks[i].text == '<':
                d += 1
            elif toks[i].text == '>':
                d -= 1
            i += 1
            if d == 0:
                break
    names, last, d = [], None, 0
    j = i
    while j < it.body[0] and toks[j].text != 'where':
        t = toks[j]
        if t.text == '<':
            d += 1
        elif t.text == '>':
            d -= 1
        elif d == 0 and t.text == 'for':
            names.append(last)
            last = None
        elif d == 0 and t.kind == 'id':
            last = t.text
        j += 1
    names.append(last)
    if len(names) == 2:
        return names[1], names[0]
    return names[0], None


# ------------------------------------------------------------------------------------------------ statements

def block_statements(toks, lo, hi):
    """split the tokens of a block body into statements [(a, b)] (b exclusive)."""
    res = []
    i = lo
    while i < hi:
        a = i
        # leading attributes belong to the statement
        while i < hi and toks[i].text == '#':
            i = toks[i + 1].match + 1
        first = toks[i].text if i < hi else ''
        blocklike = first in ('if', 'for', 'while', 'loop', 'match', 'unsafe', '{') or (
            toks[i].kind == 'life' and i + 1 < hi and toks[i + 1].text == ':')
        done = False
        while i < hi:
            t = toks[i]
            if t.text == ';':
                i += 1
                done = True
                break
            if t.kind == 'open':
                i = t.match + 1
                if blocklike and t.text == '{':
                    if i < hi and toks[i].text == 'else':
                        continue
                    if i < hi and toks[i].text in ('.', '?'):
                        blocklike = False
                        continue
                    # binary operators after a block statement cannot continue it
                    done = True
                    break
                continue
            i += 1
        res.append((a, i))
        if not done and i >= hi:
            break
    return res


def all_blocks(toks, lo, hi):
    """all `{` blocks that hold statements within [lo, hi) (a heuristic: not struct literals / match bodies)"""
    out = []
    i = lo
    while i < hi:
        if toks[i].text == '{':
            out.append(i)
        i += 1
    return out


def innermost_statement(toks, body, ti):
    """(a, b) of the innermost statement containing token ti; struct literals and match arms are not blocks"""
    best = None
    lo, hi = body
    cur = (lo + 1, hi)
    while True:
        sts = block_statements(toks, *cur)
        st = next((s for s in sts if s[0] <= ti < s[1]), None)
        if st is None:
            return best
        best = st
        # descend into a block of this statement containing ti
        nxt = None
        j = st[0]
        while j < st[1]:
            if toks[j].kind == 'open':
                if j < ti < toks[j].match:
                    if toks[j].text == '{' and is_code_block(toks, j):
                        nxt = (j + 1, toks[j].match)
                        break
                    j += 1
                    continue
                j = toks[j].match + 1
                continue
            j += 1
        if nxt is None:
            return best
        cur = nxt


def is_code_block(toks, j):
    """is the `{` at j a block of statements (and not a struct literal, match body or macro group)?"""
    if j == 0:
        return True
    p = toks[j - 1]
    if p.text in ('=>', '{', '}', ';', 'else', 'loop', 'unsafe', '=', '(', ','):
        return True
    # look back for the keyword that owns the brace at this depth
    k = j - 1
    while k >= 0:
        t = toks[k]
        if t.kind == 'close':
            if t.text == '}':
                return False
            k = t.match - 1
            continue
        if t.kind == 'open' or t.text in (';', '=>'):
            return False
        if t.text in ('if', 'while', 'for', 'fn'):
            return True
        if t.text == 'match':
            return False
        if t.text == '|':
            return True
        k -= 1
    return False


def find_loops(toks, lo, hi):
    """loops in source order: (kw index, kind, body open index)"""
    out = []
    for i in range(lo, hi):
        t = toks[i]
        if t.kind == 'id' and t.text in ('while', 'loop', 'for'):
            if t.text == 'for' and toks[i + 1].text == '<':
                continue
            j = i + 1
            while toks[j].text != '{':
                j = toks[j].match + 1 if toks[j].kind == 'open' else j + 1
            out.append((i, t.text, j))
    return out


# ------------------------------------------------------------------------------------------------ functions

def loop_kind(toks, lp):
    i, kw, b = lp
    if kw == 'for':
        j = i
        while toks[j].text != 'in':
            j = toks[j].match + 1 if toks[j].kind == 'open' else j + 1
        return ' '.join(t.text for t in toks[i:j])
    return kw + (' let' if toks[i + 1].text == 'let' else '')


LOOPS_FILE = os.path.join(CONTRACTS, 'loops.json')
BASE_LOOPS = json.load(open(LOOPS_FILE)) if os.path.exists(LOOPS_FILE) else {}


class Report:
    def __init__(self):
        self.loops = {}         # fn -> the shapes of its loops (the loop contracts were written for those in loops.json)
        self.rules = {}
        self.fns = []           # dict(name, module, status, tags)
        self.lost = []          # (fn, what)
        self.dropped = []
        self.lines = []         # (start line, end line, fn full name)
        self.trusted = []

    def rule(self, name, n):
        if n:
            self.rules[name] = self.rules.get(name, 0) + n


def drop_cfg_test_stmts(text):
    toks = lex(text)
    edits = []
    i = 0
    while i < len(toks) - 1:
        if toks[i].text == '#' and toks[i + 1].text == '[':
            at = text[toks[i].s:toks[toks[i + 1].match].e]
            j = toks[i + 1].match + 1
            if is_cfg_test([at]):
                while toks[j].text != ';':
                    j = toks[j].match + 1 if toks[j].kind == 'open' else j + 1
                edits.append((toks[i].s, toks[j].e, ''))
                i = j + 1
                continue
            edits.append((toks[i].s, toks[j - 1].e, ''))
            i = j
            continue
        i += 1
    return apply_edits(text, edits)


def drop_trailing_commas(text):
    """`f(a, b,)` to `f(a, b)` (not in tuples of one element)"""
    toks = lex(text)
    edits = []
    for i, t in enumerate(toks):
        if t.kind == 'open' and t.text == '(' and toks[t.match - 1].text == ',' and i > 0 and toks[i - 1].kind == 'id':
            edits.append((toks[t.match - 1].s, toks[t.match - 1].e, ''))
    return apply_edits(text, edits)


def strip_comments(text):
    toks = lex(text)
    out, pos = [], 0
    for t in toks:
        gap = text[pos:t.s]
        out.append(re.sub(r'//[^\n]*', '', re.sub(r'/\*.*?\*/', '', gap, flags=re.S)))
        out.append(t.text)
        pos = t.e
    gap = text[pos:]
    out.append(re.sub(r'//[^\n]*', '', gap))
    return ''.join(out)


def desugar_let_chains(text, rep):
    """`if let P = E && C {A} else {B}` -> `if let P = E { if C {A} else {B} } else {B}`"""
    while True:
        toks = lex(text)
        hit = None
        for i, t in enumerate(toks):
            if t.text != 'if':
                continue
            # condition up to the block
            j = i + 1
            ands, has_let = [], False
            while toks[j].text != '{':
                if toks[j].text == '&&':
                    ands.append(j)
                if toks[j].text == 'let':
                    has_let = True
                j = toks[j].match + 1 if toks[j].kind == 'open' else j + 1
            if has_let and ands:
                hit = (i, j, ands)
                break
        if hit is None:
            return text
        i, j, ands = hit
        first_let = toks[i + 1].text == 'let'
        # split at the first && when the first clause is a let, else after all plain clauses before the let
        cut = ands[0]
        if not first_let:
            for a in ands:
                if toks[a + 1].text == 'let':
                    cut = a
                    break
        c1 = text[toks[i + 1].s:toks[cut - 1].e]
        c2 = text[toks[cut + 1].s:toks[j - 1].e]
        A = text[toks[j].s:toks[toks[j].match].e]
        end = toks[j].match
        B = ''
        if end + 1 < len(toks) and toks[end + 1].text == 'else':
            k = end + 2
            while toks[k].text == 'if':     # up to the end of the chain
                while toks[k].text != '{':
                    k = toks[k].match + 1 if toks[k].kind == 'open' else k + 1
                k = toks[k].match
                if k + 1 < len(toks) and toks[k + 1].text == 'else':
                    k += 2
                else:
                    break
            if toks[k].text == '{':
                k = toks[k].match
            rest = text[toks[end + 2].s:toks[k].e]
            B = ' else ' + (rest if toks[end + 2].text == '{' else '{ ' + rest + ' }')
            end = k
        new = f'if {c1} {{ if {c2} {A}{B} }}{B}'
        text = text[:toks[i].s] + new + text[toks[end].e:]
        rep.rule('let chain to nested if', 1)


def desugar_guards(text, rep):
    """`match E { P if G => A, rest }` -> `match E { P => if G { A } else { match E { rest } }, rest }`, with the value of E bound to a name
    where E is more than a place (the verifier loses what it knows of a `&mut` argument at a `return` in a match with guards)"""
    n = 0
    while True:
        toks = lex(text)
        hit = None
        for i, t in enumerate(toks):
            if t.text != 'match' or (i and toks[i - 1].text == '.'):
                continue
            j = i + 1
            while toks[j].text != '{':
                j = toks[j].match + 1 if toks[j].kind == 'open' else j + 1
            end = toks[j].match
            arms, k, ok = [], j + 1, True
            while k < end:
                s0, g, q = k, None, k
                while q < end and toks[q].text != '=>':
                    if toks[q].text == 'if' and g is None:
                        g = q
                    q = toks[q].match + 1 if toks[q].kind == 'open' else q + 1
                if q >= end:
                    ok = False
                    break
                b0 = q + 1
                if toks[b0].text == '{' and (toks[toks[b0].match + 1].text in (',', '}') or toks[toks[b0].match + 1].text not in ('.', '?')):
                    b1 = toks[b0].match + 1
                else:
                    b1 = b0
                    while b1 < end and toks[b1].text != ',':
                        b1 = toks[b1].match + 1 if toks[b1].kind == 'open' else b1 + 1
                pat = text[toks[s0].s:toks[(g or q) - 1].e]
                guard = text[toks[g + 1].s:toks[q - 1].e] if g is not None else None
                arms.append((pat, guard, text[toks[b0].s:toks[b1 - 1].e]))
                k = b1 + 1 if b1 < end and toks[b1].text == ',' else b1
            if ok and any(a[1] for a in arms):
                hit = (i, j, end, arms)
                break
        if hit is None:
            return text
        i, j, end, arms = hit
        scrut = text[toks[i + 1].s:toks[j - 1].e]
        place = all(x.kind not in ('open', 'close') and (x.text in ('.', '*', '&') or re.match(r'\w+$', x.text)) for x in toks[i + 1:j])
        pre = post = ''
        if not place:
            v = f'm{n}_'
            while v in text:
                n += 1
                v = f'm{n}_'
            pre, post, scrut = f'{{ let {v} = {scrut}; ', ' }', v

        def build(k):
            """the match after the guards of the arms before k have failed"""
            out = []
            for x, (pat, guard, body) in enumerate(arms):
                if guard is not None and x < k:
                    continue
                if guard is not None:
                    out.append(f'{pat} => if {guard} {{ {body} }} else {{ {build(x + 1)} }}')
                else:
                    if x >= k and pat.strip() == '_' and not out:
                        return body
                    out.append(f'{pat} => {{ {body} }}')
            return f'match {scrut} {{ ' + ' '.join(o + (',' if not o.endswith('}') else '') for o in out) + ' }'
        if len(arms) > 8:
            return text
        text = text[:toks[i].s] + pre + build(0) + post + text[toks[end].e:]
        rep.rule('match guard to if', 1)


class FnEmitter:
    def __init__(self, c, rep, module):
        self.c, self.rep, self.module = c, rep, module

    def emit(self, name, text, in_trait=False, in_trait_impl=False, alias=None):
        """text: `fn name(...) ... { ... }` or `...;` without attributes and visibility"""
        c, rep = self.c, self.rep
        full = f'{self.module}::{name}'
        if name in c.drops:
            rep.dropped.append((full, c.drops[name]))
            return ''
        status = 'unknown'
        tags = []
        spec = ''
        ext = ''
        forced = full in FORCE_TRUST
        if name in c.fns:
            status, tags, spec = 'contract', c.fns[name]['tags'], c.fns[name]['text']
        if name in c.trusted:
            status, tags, spec = 'trusted', c.trusted[name]['tags'], c.trusted[name]['text']
            ext = '#[verifier::external_body]\n'
            rep.trusted.append((full, c.trusted[name]['reason']))
        if forced:
            status = 'undecided'
            ext = '#[verifier::external_body]\n'
        if f'attr {name}' in c.extras and not ext:
            ext = c.extras[f'attr {name}'].strip() + '\n'
        text = strip_comments(text)
        text = drop_trailing_commas(drop_cfg_test_stmts(text))
        if alias:
            text = re.sub(r'\bfn\s+' + re.escape(alias[0]) + r'\b', 'fn ' + alias[1], text, count=1)
        # signature edits
        for n, a, b in c.sigs:
            if n == name:
                toks = lex(text)
                bo = next((i for i, t in enumerate(toks) if t.text in ('{', ';')), len(toks))
                m = next(find_pattern(text, toks, Pat(a), 0, bo), None)
                if m is None:
                    rep.lost.append((full, f'sig {a}'))
                else:
                    i, r, binds = m
                    out = b
                    for v in sorted(binds, key=len, reverse=True):
                        x, y = binds[v]
                        out = out.replace('$' + v, text[toks[x].s:toks[y - 1].e])
                    text = text[:toks[i].s] + out + text[toks[r - 1].e:]
                    rep.rule(f'signature of {name}', 1)
        toks = lex(text)
        bo = next((i for i, t in enumerate(toks) if t.text in ('{', ';') and
                   not any(toks[o].kind == 'open' and o < i < toks[o].match for o in range(i))), None)
        has_body = toks[bo].text == '{'
        if has_body and status == 'trusted':
            text = text[:toks[bo].s] + '{ unimplemented!() }'
        elif has_body and forced:
            text = text[:toks[bo].s] + '{ unimplemented!() }'
        elif has_body and name in c.vias:
            text = text[:toks[bo].s] + '{ ' + c.vias[name] + '\n}'
            rep.rule(f'{name}: the body is verified as its copy, which it calls', 1)
        elif has_body:
            body = text[toks[bo].s:]
            for rn, p, t in GLOBAL_RULES:
                body, k = rewrite(body, Pat(p), t)
                rep.rule(rn, k)
            for p, t in CLOSURE_RULES:
                body, k = rewrite(body, Pat(p), t, unless=('?', 'return'))
                rep.rule(f'{p} to a match', k)
            body = desugar_let_chains(body, rep)
            body = desugar_guards(body, rep)
            for n, p, t, opt in c.rewrites:
                if n == name or n == '*':
                    body, k = rewrite(body, Pat(p), t)
                    if k == 0 and n != '*' and not opt:
                        rep.lost.append((full, f'rewrite {p}'))
                    rep.rule(f'{name}: {p}  =>  {t}' if n != '*' else f'{p}  =>  {t}', k)
            text = text[:toks[bo].s] + body
        # loops and hints
        toks = lex(text)
        edits = []
        if has_body and status in ('contract', 'unknown'):
            bclose = toks[bo].match
            loops = find_loops(toks, bo + 1, bclose)
            for (n, k), inv in c.loops.items():
                if n != name:
                    continue
                if k > len(loops):
                    rep.lost.append((full, f'loop {k}'))
                    continue
                edits.append((toks[loops[k - 1][2]].s, toks[loops[k - 1][2]].s, '\n' + inv + '\n'))
            have = {k for (n, k) in c.loops if n == name}
            if have:
                kinds = [loop_kind(toks, x) for x in loops]
                rep.loops[full] = kinds
                base = BASE_LOOPS.get(full)
                if base is not None and base != kinds and status == 'contract':
                    rep.lost.append((full, f'its loops have another shape: {kinds}'))
            nmax = max(have) if have else 0
            if len(loops) > nmax:
                rep.lost.append((full, f'{len(loops)} loops, contracts for {nmax}')) if status == 'contract' else None
            variant = VARIANT.get(full, 0)
            for n, where, pat, k, htext in c.hints:
                if n != name:
                    continue
                pure = re.match(r'proof\s*\{', htext.strip()) and pure_block(htext)
                if variant >= 2 and pure and where in ('before', 'after', 'inside'):
                    if variant == 3:
                        continue
                    where = 'end'
                pos = self.anchor(text, toks, bo, loops, where, pat, k)
                if pos is None:
                    rep.lost.append((full, f'hint {where} {pat} #{k}'))
                    continue
                if where == 'end':
                    tail = self.tail(toks, bo)
                    if tail:        # the value is named, so that what the tail does has happened where the hint stands
                        if variant and pure:
                            ret = re.search(r'->\s*(Option|Result)\b', text[:toks[bo].s])
                            ok = {'Option': 'Some', 'Result': 'Ok'}[ret.group(1)] if ret else None
                            if ok:
                                htext = 'proof { if tail__ is %s { %s } }' % (ok, htext.strip()[5:].strip())
                        if not any(e[2] == 'let tail__ = ' for e in edits):
                            edits.append((toks[tail[0]].s, toks[tail[0]].s, 'let tail__ = '))
                            edits.append((toks[tail[1] - 1].e, toks[tail[1] - 1].e, ';\n'))
                            tails = [toks[tail[1] - 1].e]
                        edits.append((toks[tail[1] - 1].e, toks[tail[1] - 1].e, htext + '\n'))
                        continue
                edits.append((pos, pos, '\n' + htext + '\n'))
            if any(e[2] == 'let tail__ = ' for e in edits):
                edits.append((tails[0], tails[0], 'tail__'))
            if SMOKE:
                edits.append((toks[bo].e, toks[bo].e, '\nproof { assert(false); }\n'))
        # the named return value and the contract
        k = 0
        arrow = None
        depth_hi = bo
        i = 0
        while i < depth_hi:
            if toks[i].kind == 'open':
                i = toks[i].match + 1
                continue
            if toks[i].text == '->':
                arrow = i
            if toks[i].text == 'where':
                depth_hi = i
                break
            i += 1
        ret_end = depth_hi
        if arrow is not None:
            edits.append((toks[arrow + 1].s, toks[arrow + 1].s, '(r: '))
            edits.append((toks[ret_end - 1].e, toks[ret_end - 1].e, ')'))
        if spec:
            edits.append((toks[bo].s, toks[bo].s, '\n' + spec + '\n'))
        text = apply_edits(text, edits)
        rep.fns.append(dict(name=full, status=status, tags=tags, spec=spec, in_trait=in_trait, has_body=has_body))
        vis = '' if (in_trait or in_trait_impl) else 'pub '
        mark = f'//@FN {full}\n'
        return mark + ext + vis + text + f'\n//@END {full}\n'

    def tail(self, toks, bo):
        """the tail expression of a body when it may do something: more than names, constants and Ok / Err around them"""
        bclose = toks[bo].match
        sts = block_statements(toks, bo + 1, bclose)
        if not sts or toks[sts[-1][1] - 1].text == ';':
            return None
        part = toks[sts[-1][0]:sts[-1][1]]
        if all(t.text in ('Ok', 'Err', 'Some', '(', ')') or t.kind not in ('open', 'close') and re.match(r'^[\w]+$', t.text) for t in part):
            return None
        if part[0].text == 'for' or part[0].text == 'while':
            return None
        return sts[-1]

    def anchor(self, text, toks, bo, loops, where, pat, k):
        bclose = toks[bo].match
        if where == 'entry':
            return toks[bo].e
        if where == 'end':
            sts = block_statements(toks, bo + 1, bclose)
            if sts and toks[sts[-1][1] - 1].text != ';':
                return toks[sts[-1][0]].s
            return toks[bclose].s
        if where == 'bodyend':
            return toks[bclose].s
        if where.startswith('loop'):
            # loopK:start / loopK:end / loopK:before / loopK:after
            m = re.match(r'loop(\d+):(\w+)', where)
            n = int(m.group(1))
            if n > len(loops):
                return None
            kw, _, lb = loops[n - 1]
            if m.group(2) == 'start':
                return toks[lb].e
            if m.group(2) == 'end':
                return toks[toks[lb].match].s
            if m.group(2) == 'after':
                return toks[toks[lb].match].e
            if m.group(2) == 'before':
                st = innermost_statement(toks, (bo, bclose), kw)
                return toks[st[0]].s
        if where in ('before', 'after', 'inside'):
            p = Pat(pat)
            hits = list(find_pattern(text, toks, p, bo + 1, bclose))
            if len(hits) < k:
                return None
            i, r, _ = hits[k - 1]
            if where == 'inside':     # right after the pattern (which ends in `{`)
                return toks[r - 1].e
            st = innermost_statement(toks, (bo, bclose), i)
            if st is None:
                return None
            if where == 'before':
                return toks[st[0]].s
            return toks[st[1] - 1].e
        return None


def pure_block(htext):
    """the hint is one proof block and nothing else"""
    t = lex(htext)
    t = [x for x in t if x.kind != 'comment']
    i = next((j for j, x in enumerate(t) if x.text == '{'), None)
    if i is None or i != 1:
        return False
    m = t[i].match
    return m is not None and all(x.text == '' or x.kind == 'eof' for x in t[m + 1:])


# other places for the hints of a function, tried when its proof fails as it stands: 1 the hints at the end speak of the good outcome
# only, 2 the other proof blocks stand at the end as well, 3 they are left out
VARIANT = {}
FORCE_TRUST = set()
SMOKE = False


# ------------------------------------------------------------------------------------------------ emission

PATH_RULES = [
    (re.compile(r'(?<![:\w])ic_stable_structures\b'), 'crate::ic_stable_structures'),
    (re.compile(r'(?<![:\w])ic_cdk\b'), 'crate::ic_cdk'),
    (re.compile(r'(?<![:\w])std::collections\b'), 'crate::shim::collections'),
]


def flatten_std(text):
    """`use std::{a::X, b};` -> `use std::a::X; use std::b;`"""
    while True:
        m = re.search(r'\buse\s+std\s*::\s*\{', text)
        if not m:
            return text
        depth, i, parts, last = 1, m.end(), [], m.end()
        while depth:
            c = text[i]
            if c == '{':
                depth += 1
            elif c == '}':
                depth -= 1
            if (c == ',' and depth == 1) or depth == 0:
                parts.append(text[last:i].strip())
                last = i + 1
            i += 1
        text = text[:m.start()] + ' '.join('use std::%s;' % p for p in parts if p).rstrip(';') + text[i:]


def fix_paths(text):
    text = flatten_std(text)
    for rx, t in PATH_RULES:
        text = rx.sub(t, text)
    return text


def pubify_fields(src, toks, body, tuple_struct=False):
    """edits that make every field public"""
    edits = []
    i = body[0] + 1
    start = True
    angle = 0
    while i < body[1]:
        t = toks[i]
        if start:
            j, attrs = skip_attrs(toks, i)
            for a in attrs:
                edits.append((toks[a[0]].s, toks[a[1] - 1].e, ''))
            i = j
            if i >= body[1]:
                break
            if toks[i].text == 'pub':
                e = i
                if toks[i + 1].text == '(':
                    e = toks[i + 1].match
                edits.append((toks[i].s, toks[e].e, 'pub'))
                i = e + 1
            else:
                edits.append((toks[i].s, toks[i].s, 'pub '))
            start = False
            continue
        if t.text == '<':
            angle += 1
        elif t.text == '>':
            angle -= 1
        elif t.text == ',' and angle == 0:
            start = True
            i += 1
            continue
        i = t.match + 1 if t.kind == 'open' else i + 1
    return edits


def derive_impls(name, generics, derives, kind, c):
    out = []
    g, ga = generics
    if 'PartialEq' in derives:
        out.append(f'impl{g} crate::shim::PartialEqSpecImpl for {name}{ga} {{ open spec fn obeys_eq_spec() -> bool {{ true }} '
                   f'open spec fn eq_spec(&self, o: &{name}{ga}) -> bool {{ *self == *o }} }}\n'
                   f'impl{g} PartialEq for {name}{ga} {{ #[verifier::external_body] fn eq(&self, other: &{name}{ga}) -> (r: bool) '
                   f'{{ unimplemented!() }} }}\n')
    if 'Clone' in derives:
        out.append(f'impl{g} Clone for {name}{ga} {{ #[verifier::external_body] fn clone(&self) -> (r: {name}{ga}) '
                   f'ensures r == *self {{ unimplemented!() }} }}\n')
    if 'Debug' in derives:
        out.append(f'#[verifier::external] impl{g} core::fmt::Debug for {name}{ga} {{ '
                   'fn fmt(&self, f: &mut core::fmt::Formatter<\'_>) -> core::fmt::Result { unimplemented!() } }\n')
    if 'Copy' in derives:
        out.append(f'impl{g} Copy for {name}{ga} {{}}\n')
    if 'Default' in derives and f'derive Default {name}' in c.extras:
        out.append(f'impl{g} Default for {name}{ga} {{ #[verifier::external_body] fn default() -> (r: {name}{ga}) '
                   + c.extras[f'derive Default {name}'] + ' { unimplemented!() } }\n')
    return ''.join(out)


def bitflags(src, toks, it, rep):
    """struct from the text of the bitflags! macro"""
    body = src[toks[it.body[0]].e:toks[it.body[1]].s]
    t = lex(body)
    _, attrs = skip_attrs(t, 0)
    derives = ' '.join(attr_text(body, t, a) for a in attrs)
    m = re.search(r'struct\s+(\w+)\s*:\s*(\w+)\s*\{', body)
    name, ty = m.group(1), m.group(2)
    consts = re.findall(r'const\s+(\w+)\s*=\s*([^;]+);', strip_comments(body))
    out = [f'pub struct {name} {{ pub bits: {ty} }}\n', f'impl {name} {{\n']
    for n, v in consts:
        out.append(f'    pub const {n}: {name} = {name} {{ bits: {v.strip()} }};\n')
    out.append(f'''    pub open spec fn spec_has(self, o: {name}) -> bool {{ self.bits & o.bits == o.bits }}
    #[verifier::external_body]
    pub fn empty() -> (r: {name}) ensures r.bits == 0 {{ unimplemented!() }}
    #[verifier::external_body]
    pub fn contains(&self, o: {name}) -> (r: bool) ensures r == self.spec_has(o) {{ unimplemented!() }}
}}
''')
    d = re.findall(r'\w+', derives)
    out.append(derive_impls(name, ('', ''), [x for x in d if x in ('Clone', 'Copy', 'PartialEq')], 'struct', Contracts()))
    rep.rule('bitflags! struct', 1)
    rep.trusted.append((f'bitflags {name}', 'contains/empty as documented by the bitflags crate'))
    return ''.join(out)


def generics_of(src, toks, it):
    i = it.kw + 2
    if toks[i].text != '<':
        return '', ''
    d, j = 0, i
    while True:
        if toks[j].text == '<':
            d += 1
        elif toks[j].text == '>':
            d -= 1
        j += 1
        if d == 0:
            break
    g = src[toks[i].s:toks[j - 1].e]
    args = re.sub(r':\s*[^,>]+', '', g)
    return g, args


def emit_file(module, path, rep):
    src = open(os.path.join(REPO_SRC, path)).read()
    c = parse_contracts(os.path.join(CONTRACTS, path.replace('/', '__').replace('.rs', '.vc')))
    toks = lex(src)
    items = parse_items(src, toks, 0, len(toks))
    out = []
    em = FnEmitter(c, rep, module)
    seen = set()
    int_consts = {}

    def fn_text(it):
        return src[toks[it.vis_end].s:toks[it.end - 1].e]

    copies = {}
    for new, srcname in c.gen:
        copies.setdefault(srcname, []).append(new)

    apart = []

    def emit_fn(name, it, **kw):
        seen.add(name)
        t = em.emit(name, fn_text(it), **kw)
        for new in copies.get(name, []):
            seen.add(new)
            if '@' in name and '@' not in new:   # a copy of a function of a trait: a function of the type
                apart.append(em.emit(new, fn_text(it), alias=(it.name, new.split('::')[-1]), in_trait_impl=False))
                continue
            t += em.emit(new, fn_text(it), alias=(it.name, new.split('::')[-1]), **{**kw, 'in_trait_impl': kw.get('in_trait_impl')})
        return t

    for it in items:
        if is_cfg_test(it.attrs):
            continue
        k = it.kind
        if k == 'mod':
            continue
        if k == 'use':
            t = src[toks[it.head].s:toks[it.end - 1].e]
            key = 'use ' + re.sub(r'\s+', '', src[toks[it.kw + 1].s:toks[it.end - 1].s])
            if any(x.startswith('use ') and x[4:] in key for x in c.drops):
                continue
            out.append(re.sub(r'^(pub(\([^)]*\))?\s+)?use', 'pub use' if t.startswith('pub') else 'use', t) + '\n')
        elif k in ('const', 'static'):
            if it.name in c.drops:
                rep.dropped.append((f'{module}::{it.name}', c.drops[it.name]))
                continue
            t = strip_comments(src[toks[it.kw].s:toks[it.end - 1].e])
            m = re.match(r'const\s+(\w+)\s*:\s*([ui]\d+|usize)\s*=\s*(.*);$', t, re.S)
            if m:
                # constants used by a constant are replaced by their initializers
                init = re.sub(r'\b[A-Z][A-Z0-9_]*\b', lambda x: int_consts.get(x.group(), x.group()) if not m.group(3)[:x.start()].endswith('::') else x.group(), m.group(3))
                if init != m.group(3):
                    rep.rule('constants inlined into a constant', 1)
                t = f'const {m.group(1)}: {m.group(2)} = {init};'
                int_consts[m.group(1)] = f'({init})' if not re.fullmatch(r'\d+', init) else init + m.group(2)
            if it.name in c.consts:
                m = re.match(r'(const|static)\s+(\w+)\s*:\s*', t)
                # type up to the `=` at depth 0
                tt = lex(t)
                j = next(x for x in range(len(tt)) if tt[x].text == '=' and
                         not any(tt[o].kind == 'open' and o < x < tt[o].match for o in range(x)))
                ty = t[m.end():tt[j].s].strip()
                ex = t[tt[j].e:-1].strip()
                for n, p, to, opt in c.rewrites:
                    if n == it.name:
                        ex, kk = rewrite(ex, Pat(p), to)
                        if kk == 0 and not opt:
                            rep.lost.append((f'{module}::{it.name}', f'rewrite {p}'))
                        rep.rule(f'{it.name}: {p}  =>  {to}', kk)
                if not ex.startswith('{'):
                    ex = '{ ' + ex + ' }'
                out.append(f'//@FN {module}::{it.name}\npub exec {m.group(1)} {it.name}: {ty}\n{c.consts[it.name]}\n{ex}\n//@END {module}::{it.name}\n')
                rep.fns.append(dict(name=f'{module}::{it.name}', status='contract', tags=[], spec=c.consts[it.name], in_trait=False, has_body=True))
            else:
                out.append(('pub ' + t).replace('pub static', 'pub exec static') + '\n')
        elif k == 'type':
            out.append('pub ' + src[toks[it.kw].s:toks[it.end - 1].e] + '\n')
        elif k == 'macro':
            if it.name == 'bitflags':
                out.append(bitflags(src, toks, it, rep))
            else:
                raise ExtractError(f'{module}: macro {it.name}')
        elif k in ('struct', 'enum'):
            if it.name in c.drops:
                rep.dropped.append((f'{module}::{it.name}', c.drops[it.name]))
                continue
            edits = []
            if k == 'struct' and it.body:
                edits = pubify_fields(src, toks, it.body)
            else:
                # attributes of enum variants
                if it.body:
                    for x in range(it.body[0], it.body[1]):
                        if toks[x].text == '#':
                            edits.append((toks[x].s, toks[toks[x + 1].match].e, ''))
            base = toks[it.kw].s
            end = toks[it.end - 1].e
            ed = [(s - base, e - base, t) for s, e, t in edits]
            t = strip_comments(apply_edits(src[base:end], ed))
            for n, p, to, opt in c.rewrites:
                if n == it.name:
                    t, kk = rewrite(t, Pat(p), to)
                    if kk == 0 and not opt:
                        rep.lost.append((f'{module}::{it.name}', f'rewrite {p}'))
                    rep.rule(f'{it.name}: {p}  =>  {to}', kk)
            pre = c.extras.get(f'attr {it.name}', '')
            out.append(pre + '\npub ' + t + '\n')
            derives = []
            for a in it.attrs:
                m = re.match(r'#\s*\[\s*derive\s*\((.*)\)\s*\]', a, re.S)
                if m:
                    derives += re.findall(r'\w+', m.group(1))
            derives = [d for d in derives if f'derive {d} {it.name}' not in c.drops]
            if any(d in derives for d in ('PartialEq', 'Clone', 'Default')):
                rep.trusted.append((f'derive {module}::{it.name}', 'derived ' + ', '.join(d for d in derives if d in ('PartialEq', 'Clone', 'Default')) + ' have their documented meaning'))
            out.append(derive_impls(it.name, generics_of(src, toks, it), derives, k, c))
        elif k == 'fn':
            out.append(emit_fn(it.name, it))
        elif k == 'trait':
            if it.name in c.drops:
                continue
            t = [src[toks[it.kw].s:toks[it.body[0]].e], '\n', c.extras.get(it.name, ''), '\n']
            for m in parse_items(src, toks, it.body[0] + 1, it.body[1]):
                if m.kind != 'fn':
                    t.append(src[toks[m.head].s:toks[m.end - 1].e])
                    continue
                t.append(emit_fn(f'{it.name}::{m.name}', m, in_trait=True))
            out.append('pub ' + ''.join(t) + '}\n')
        elif k == 'impl':
            ty, tr = impl_names(src, toks, it)
            iname = f'{tr}@{ty}' if tr else ty
            if f'impl {iname}' in c.drops:
                rep.dropped.append((f'{module}::impl {iname}', c.drops[f'impl {iname}']))
                continue
            head = src[toks[it.kw].s:toks[it.body[0]].s]
            t = []
            hname = 'head ' + iname
            if hname in c.extras:
                head = c.extras[hname]
            t += [head, '{\n', c.extras.get(iname, '') if iname not in seen else '', '\n']
            seen.add(iname)
            for m in parse_items(src, toks, it.body[0] + 1, it.body[1]):
                if is_cfg_test(m.attrs):
                    continue
                if m.kind != 'fn':
                    if m.kind in ('const', 'type') and f'{iname}::{m.name}' in c.drops:
                        continue
                    tx = src[toks[m.kw].s:toks[m.end - 1].e]
                    t.append(('pub ' if not tr else '') + tx + '\n')
                    continue
                t.append(emit_fn(f'{iname}::{m.name}', m, in_trait_impl=bool(tr)))
            out.append(''.join(t) + '}\n')
            if apart:
                out.append(re.sub(r'(\bimpl\s*(?:<[^{]*?>\s*)?)[\w:]+(?:<[^{]*?>)?\s+for\s+', r'\1', head, count=1) + '{\n' + ''.join(apart) + '}\n')
                apart.clear()
        else:
            raise ExtractError(f'{module}: item {k}')
    # contracts that found no function
    for n in list(c.fns) + list(c.trusted):
        if n not in seen:
            rep.lost.append((f'{module}::{n}', 'function is gone'))
    text = fix_paths(''.join(out))
    return c.prelude, text


def extract(outpath, only=None):
    rep = Report()
    only = only or ENABLED
    mods = {}
    for module, path in FILES:
        if only and module not in only:
            continue
        pre, text = emit_file(module, path, rep)
        mods[module] = (pre, text)
    shim = open(os.path.join(CONTRACTS, 'shim.rs')).read()
    model = open(os.path.join(CONTRACTS, 'model.rs')).read()
    names = open(os.path.join(CONTRACTS, 'names.rs')).read()
    out = ['#![allow(unused_imports, dead_code, unused_variables, unused_mut, non_snake_case, unused_parens, unused_braces, unused_assignments, unreachable_code, unused_must_use, private_interfaces)]\n',
           'use vstd::prelude::*;\n', shim, '\n', model, '\n', names, '\n']

    def body(module):
        pre, text = mods.get(module, ('', ''))
        return ('#[allow(unused_imports)] use vstd::prelude::*;\n#[allow(unused_imports)] use crate::shim::*;\n#[allow(unused_imports)] use crate::model::*;\nverus! {\n'
                + pre + '\n' + text + '\n} // verus!\n')

    tops = {}
    for m, _ in FILES:
        if m in mods or any(x.startswith(m + '::') for x in mods):
            tops.setdefault(m.split('::')[0], []).append(m)
    for top, ms in tops.items():
        out.append(f'pub mod {top} {{\n')
        if top in mods:
            out.append(body(top))
        else:
            out.append('')
        for m in ms:
            if m != top:
                out.append(f'pub mod {m.split("::")[1]} {{\n' + body(m) + '}\n')
        out.append('}\n')
    if 'fs' not in mods:
        out.append('pub mod fs { pub use crate::runtime::types::*; pub use crate::storage::types::*; }\n')
    out.append('fn main() {}\n')
    text = ''.join(out)
    open(outpath, 'w').write(text)
    # line map
    stack, lines = [], []
    for n, line in enumerate(text.split('\n'), 1):
        if line.startswith('//@FN '):
            stack.append((line[6:], n))
        elif line.startswith('//@END '):
            f, s = stack.pop()
            lines.append((s, n, f))
    rep.lines = lines
    return rep


if __name__ == '__main__':
    only = None
    args = sys.argv[1:]
    out = args[0]
    if len(args) > 1:
        only = args[1].split(',')
    r = extract(out, only)
    for f, w in r.lost:
        print('LOST', f, w)
    for f in r.fns:
        if f['status'] == 'unknown':
            print('UNKNOWN', f['name'])

"""A small Rust lexer and token-tree helpers, enough to extract items and rewrite function bodies."""
import re

OPEN = {'(': ')', '[': ']', '{': '}'}
CLOSE = {')': '(', ']': '[', '}': '{'}
PUNCT = ['<<=', '>>=', '...', '..=', '::', '->', '=>', '==', '!=', '<=', '>=', '&&', '||', '+=', '-=', '*=', '/=',
         '%=', '^=', '&=', '|=', '<<', '..']


class Tok:
    __slots__ = ('kind', 'text', 's', 'e', 'match')

    def __init__(self, kind, text, s, e):
        self.kind, self.text, self.s, self.e, self.match = kind, text, s, e, None

    def __repr__(self):
        return f'{self.kind}:{self.text}'


class LexError(Exception):
    pass


IDENT = re.compile(r'(?:r#)?[A-Za-z_][A-Za-z0-9_]*')
NUM = re.compile(r'[0-9][0-9A-Za-z_]*(?:\.[0-9][0-9A-Za-z_]*)?')
RAWSTR = re.compile(r'b?r(#*)"')
CHAR = re.compile(r"b?'(?:\\(?:x[0-9a-fA-F]{2}|u\{[0-9a-fA-F_]+\}|.)|[^'\\])'", re.S)
LIFE = re.compile(r"'[A-Za-z_][A-Za-z0-9_]*")
STR = re.compile(r'b?"(?:\\.|[^"\\])*"', re.S)


def lex(src):
    toks = []
    i, n = 0, len(src)
    while i < n:
        c = src[i]
        if c.isspace():
            i += 1
            continue
        if src.startswith('//', i):
            j = src.find('\n', i)
            i = n if j < 0 else j
            continue
        if src.startswith('/*', i):
            d, j = 1, i + 2
            while j < n and d:
                if src.startswith('/*', j):
                    d += 1
                    j += 2
                elif src.startswith('*/', j):
                    d -= 1
                    j += 2
                else:
                    j += 1
            i = j
            continue
        m = RAWSTR.match(src, i)
        if m:
            end = '"' + m.group(1)
            j = src.find(end, m.end())
            if j < 0:
                raise LexError('raw string')
            j += len(end)
            toks.append(Tok('lit', src[i:j], i, j))
            i = j
            continue
        m = STR.match(src, i)
        if m:
            toks.append(Tok('lit', m.group(), i, m.end()))
            i = m.end()
            continue
        m = CHAR.match(src, i)
        if m:
            toks.append(Tok('lit', m.group(), i, m.end()))
            i = m.end()
            continue
        m = LIFE.match(src, i)
        if m:
            toks.append(Tok('life', m.group(), i, m.end()))
            i = m.end()
            continue
        m = IDENT.match(src, i)
        if m:
            toks.append(Tok('id', m.group(), i, m.end()))
            i = m.end()
            continue
        m = NUM.match(src, i)
        if m:
            # `0..x` and `x.0.y` must not swallow the dots
            t = m.group()
            toks.append(Tok('lit', t, i, m.end()))
            i = m.end()
            continue
        if c in OPEN:
            toks.append(Tok('open', c, i, i + 1))
            i += 1
            continue
        if c in CLOSE:
            toks.append(Tok('close', c, i, i + 1))
            i += 1
            continue
        for p in PUNCT:
            if src.startswith(p, i):
                toks.append(Tok('p', p, i, i + len(p)))
                i += len(p)
                break
        else:
            toks.append(Tok('p', c, i, i + 1))
            i += 1
    stack = []
    for k, t in enumerate(toks):
        if t.kind == 'open':
            stack.append(k)
        elif t.kind == 'close':
            if not stack or OPEN[toks[stack[-1]].text] != t.text:
                raise LexError(f'unbalanced {t.text} at {t.s}')
            o = stack.pop()
            toks[o].match = k
            t.match = o
    if stack:
        raise LexError('unbalanced open')
    return toks


def apply_edits(src, edits):
    """edits: list of (start, end, text); must not overlap (insertions at the same point keep their order)."""
    out, pos = [], 0
    for s, e, t in sorted(edits, key=lambda x: (x[0], x[1])):
        if s < pos:
            raise LexError(f'overlapping edits at {s}: {t[:60]!r}')
        out.append(src[pos:s])
        out.append(t)
        pos = e
    out.append(src[pos:])
    return ''.join(out)


# ---------------------------------------------------------------- patterns with metavariables
# `$x` matches a non-empty balanced token sequence (shortest), `$x:id` one identifier, `$x:tt` one token tree,
# `$x:e` a sequence without `;` at depth 0 and not crossing `=>`, `$x:post` a postfix expression to the left.

class Pat:
    def __init__(self, text):
        self.text = text
        t = text
        self.elems = []
        pos = 0
        for m in re.finditer(r'\$([a-z_]+[0-9]*)(?::(id|tt|e|post|any))?', t):
            self._lit(t[pos:m.start()])
            self.elems.append(('var', m.group(1), m.group(2) or 'e'))
            pos = m.end()
        self._lit(t[pos:])

    def _lit(self, s):
        # tolerant tokenising: brackets need not balance inside one literal part
        i = 0
        while i < len(s):
            if s[i].isspace():
                i += 1
                continue
            for rx in (STR, CHAR, LIFE, IDENT, NUM):
                m = rx.match(s, i)
                if m:
                    self.elems.append(('lit', m.group()))
                    i = m.end()
                    break
            else:
                for p in PUNCT:
                    if s.startswith(p, i):
                        self.elems.append(('lit', p))
                        i += len(p)
                        break
                else:
                    self.elems.append(('lit', s[i]))
                    i += 1


def _match(elems, ei, toks, ti, binds, hi):
    if ei == len(elems):
        return ti
    e = elems[ei]
    if e[0] == 'lit':
        if ti < hi and toks[ti].text == e[1]:
            return _match(elems, ei + 1, toks, ti + 1, binds, hi)
        return None
    _, name, kind = e
    if kind == 'id':
        if ti < hi and toks[ti].kind == 'id':
            if name in binds:
                a, b = binds[name]
                if toks[a].text != toks[ti].text or b != a + 1:
                    return None
                return _match(elems, ei + 1, toks, ti + 1, binds, hi)
            binds[name] = (ti, ti + 1)
            r = _match(elems, ei + 1, toks, ti + 1, binds, hi)
            if r is None:
                del binds[name]
            return r
        return None
    if kind == 'tt':
        if ti >= hi or toks[ti].kind == 'close':
            return None
        nx = toks[ti].match + 1 if toks[ti].kind == 'open' else ti + 1
        binds[name] = (ti, nx)
        r = _match(elems, ei + 1, toks, nx, binds, hi)
        if r is None:
            del binds[name]
        return r
    if kind == 'post':
        # a postfix expression: ident (:: ident | . ident | . lit | call | index | ? | ! call)*
        j = ti
        if j >= hi:
            return None
        if toks[j].kind in ('id', 'lit') or (toks[j].kind == 'open' and toks[j].text == '('):
            j = toks[j].match + 1 if toks[j].kind == 'open' else j + 1
        else:
            return None
        cands = [j]
        while j < hi:
            x = toks[j]
            if x.text in ('.', '::') and j + 1 < hi and toks[j + 1].kind in ('id', 'lit'):
                j += 2
            elif x.kind == 'open' and x.text in '([':
                j = x.match + 1
            elif x.text == '?':
                j += 1
            else:
                break
            cands.append(j)
        for c in cands:
            binds[name] = (ti, c)
            r = _match(elems, ei + 1, toks, c, binds, hi)
            if r is not None:
                return r
            del binds[name]
        return None
    # 'e' / 'any'
    j = ti
    while j < hi:
        t = toks[j]
        if t.kind == 'close':
            return None
        if kind == 'e' and t.text in (';', '=>'):
            return None
        j = t.match + 1 if t.kind == 'open' else j + 1
        binds[name] = (ti, j)
        r = _match(elems, ei + 1, toks, j, binds, hi)
        if r is not None:
            return r
        del binds[name]
    return None


def find_pattern(src, toks, pat, lo=0, hi=None):
    """yield (start tok, end tok, binds) of non-overlapping matches"""
    hi = len(toks) if hi is None else hi
    i = lo
    while i < hi:
        b = {}
        # a literal first element that continues a path or a field access must not match in the middle of it
        r = _match(pat.elems, 0, toks, i, b, hi)
        if r is not None and r > i and not (pat.elems[0][0] == 'var' and pat.elems[0][2] == 'post' and i > 0
                                            and toks[i - 1].text in ('.', '::')):
            yield i, r, b
            i = r
        else:
            i += 1


def rewrite(src, pat, tmpl, limit=50, unless=()):
    """replace every match of pat by tmpl; returns (new src, count). Re-lexes after each replacement, innermost last."""
    count = 0
    start_char = 0
    while count < limit:
        toks = lex(src)
        hit = None
        for i, r, b in find_pattern(src, toks, pat):
            if toks[i].s >= start_char and not any(toks[k].text in unless for x, y in b.values() for k in range(x, y)):
                hit = (i, r, b)
                break
        if hit is None:
            break
        i, r, b = hit
        out = tmpl
        for name in sorted(b, key=len, reverse=True):
            x, y = b[name]
            out = out.replace('$' + name, src[toks[x].s:toks[y - 1].e])
        src = src[:toks[i].s] + out + src[toks[r - 1].e:]
        start_char = toks[i].s + (0 if '$' in tmpl and pat_can_nest(pat, out) else len(out))
        count += 1
    return src, count


def pat_can_nest(pat, out):
    # the replacement may contain a further match only when it still matches strictly inside: continue after its start
    return False

"""A small Rust tokenizer and item finder.

Tokens keep the white space and comments that precede them, so that joining a
token list gives back the source text character for character.
"""
import re

_WS = re.compile(r'\s+')
_IDENT = re.compile(r"[A-Za-z_][A-Za-z0-9_]*")
_NUM = re.compile(r"0[xX][0-9a-fA-F_]+\w*|0[bB][01_]+\w*|0[oO][0-7_]+\w*|[0-9][0-9_]*(\.[0-9][0-9_]*)?([eE][+-]?[0-9_]+)?\w*")
_CHAR = re.compile(r"b?'(\\(x[0-9a-fA-F]{2}|u\{[0-9a-fA-F_]+\}|.)|[^'\\])'", re.S)
_LIFE = re.compile(r"'[A-Za-z_][A-Za-z0-9_]*")
_RAWSTR = re.compile(r'b?r(#*)"')
OPEN = {'(': ')', '[': ']', '{': '}'}
CLOSE = {')', ']', '}'}


class Tok:
    __slots__ = ('t', 'ws', 'line', 'kind')

    def __init__(self, t, ws, line, kind):
        self.t, self.ws, self.line, self.kind = t, ws, line, kind

    def __repr__(self):
        return self.t


class LexError(Exception):
    pass


def lex(src, line=1):
    toks, i, n = [], 0, len(src)
    ws = ''
    while i < n:
        m = _WS.match(src, i)
        if m:
            ws += m.group()
            line += m.group().count('\n')
            i = m.end()
            continue
        if src.startswith('//', i):
            j = src.find('\n', i)
            j = n if j < 0 else j
            ws += src[i:j]
            i = j
            continue
        if src.startswith('/*', i):
            d, j = 1, i + 2
            while d and j < n:
                if src.startswith('/*', j):
                    d, j = d + 1, j + 2
                elif src.startswith('*/', j):
                    d, j = d - 1, j + 2
                else:
                    j += 1
            ws += src[i:j]
            line += src[i:j].count('\n')
            i = j
            continue
        m = _RAWSTR.match(src, i)
        if m:
            end = src.find('"' + m.group(1), m.end())
            if end < 0:
                raise LexError('raw string')
            j = end + 1 + len(m.group(1))
            kind = 'str'
        elif src[i] == '"' or src.startswith('b"', i):
            j = i + (2 if src[i] == 'b' else 1)
            while j < n and src[j] != '"':
                j += 2 if src[j] == '\\' else 1
            j += 1
            kind = 'str'
        elif _CHAR.match(src, i):
            j = _CHAR.match(src, i).end()
            kind = 'char'
        elif _LIFE.match(src, i):
            j = _LIFE.match(src, i).end()
            kind = 'life'
        elif _IDENT.match(src, i):
            j = _IDENT.match(src, i).end()
            kind = 'id'
        elif src[i].isdigit():
            j = _NUM.match(src, i).end()
            # `0..n` must not swallow the dots
            kind = 'num'
        else:
            j = i + 1
            kind = 'p'
        toks.append(Tok(src[i:j], ws, line, kind))
        line += src[i:j].count('\n')
        ws = ''
        i = j
    return toks, ws


def text(toks):
    return ''.join(t.ws + t.t for t in toks)


def norm(toks):
    """Canonical one-space text of a token list (or source string)."""
    if isinstance(toks, str):
        toks = lex(toks)[0]
    return ' '.join(t.t for t in toks if True)


def match_close(toks, i):
    """Index of the bracket closing the one at i."""
    d = 0
    for j in range(i, len(toks)):
        t = toks[j]
        if t.kind == 'p':
            if t.t in OPEN:
                d += 1
            elif t.t in CLOSE:
                d -= 1
                if d == 0:
                    return j
    raise LexError('unbalanced at line %d' % toks[i].line)


def _skip_generics(toks, i):
    """toks[i] is '<'; index after the matching '>'."""
    d = 0
    while i < len(toks):
        t = toks[i].t
        if t == '<':
            d += 1
        elif t == '>' and toks[i - 1].t not in ('-', '='):
            d -= 1
            if d == 0:
                return i + 1
        i += 1
    raise LexError('generics')


class Item:
    """kind: fn | impl | struct | enum | trait | mod | other.
    toks[start:end] is the whole item (attributes included); head is the index
    of the first token after attributes and visibility."""

    def __init__(self, kind, name, toks, start, head, body, end, attrs):
        self.kind, self.name, self.toks = kind, name, toks
        self.start, self.head, self.body, self.end = start, head, body, end
        self.attrs = attrs

    @property
    def line(self):
        return self.toks[self.head].line

    def header(self):
        return self.toks[self.head:self.body if self.body is not None else self.end]

    def sig(self):
        return norm(self.header())


ITEM_KW = {'fn', 'impl', 'struct', 'enum', 'trait', 'mod', 'use', 'const', 'static', 'type', 'macro_rules', 'extern', 'union'}


def items(toks, i, end):
    """Items of toks[i:end] at nesting depth 0."""
    out = []
    while i < end:
        start = i
        attrs = []
        while i < end and toks[i].t == '#':
            j = i + 1
            if toks[j].t == '!':
                j += 1
            k = match_close(toks, j)
            attrs.append(norm(toks[i:k + 1]))
            i = k + 1
        if i >= end:
            break
        vis = i
        if toks[i].t == 'pub':
            i += 1
            if i < end and toks[i].t == '(':
                i = match_close(toks, i) + 1
        h = i
        quals = {'const', 'async', 'unsafe', 'extern'}
        j = i
        while j < end and (toks[j].t in quals or toks[j].kind == 'str') and j + 1 < end:
            if toks[j].t == 'const' and toks[j + 1].t != 'fn' and toks[j + 1].t not in quals:
                break
            j += 1
        kw = toks[j].t
        if kw not in ('fn', 'impl', 'trait', 'mod'):
            kw = toks[i].t
            j = i
        if kw == 'fn':
            name = toks[j + 1].t
            k, d = j, 0
            while k < end:
                if toks[k].t in ('(', '['):
                    k = match_close(toks, k)
                elif toks[k].t == '{':
                    break
                elif toks[k].t == ';':
                    break
                k += 1
            if toks[k].t == ';':
                out.append(Item('fn', name, toks, start, h, None, k + 1, attrs))
                i = k + 1
            else:
                e = match_close(toks, k)
                out.append(Item('fn', name, toks, start, h, k, e + 1, attrs))
                i = e + 1
        elif kw in ('impl', 'trait', 'mod', 'struct', 'enum', 'union'):
            k = j
            while k < end and toks[k].t not in ('{', ';'):
                if toks[k].t in ('(', '['):
                    k = match_close(toks, k)
                k += 1
            if kw == 'impl':
                name = norm(toks[j:k])
            else:
                name = toks[j + 1].t
            if k >= end or toks[k].t == ';':
                out.append(Item(kw, name, toks, start, h, None, min(k + 1, end), attrs))
                i = k + 1
            else:
                e = match_close(toks, k)
                out.append(Item(kw, name, toks, start, h, k, e + 1, attrs))
                i = e + 1
        else:
            # use/const/static/type/macro invocation
            k = i
            while k < end:
                if toks[k].t in OPEN:
                    k = match_close(toks, k)
                    if toks[k].t == '}' and kw not in ('use', 'const', 'static', 'type'):
                        k += 1
                        if k < end and toks[k].t == ';':
                            k += 1
                        break
                elif toks[k].t == ';':
                    k += 1
                    break
                k += 1
            nm = toks[i + 1].t if i + 1 < end else ''
            out.append(Item('other', kw + ' ' + nm, toks, start, h, None, k, attrs))
            i = max(k, i + 1)
    return out


class SourceFile:
    def __init__(self, path):
        self.path = path
        with open(path, encoding='utf-8') as f:
            self.src = f.read()
        self.toks, self.tail = lex(self.src)
        self.items = items(self.toks, 0, len(self.toks))

    def live(self, its):
        """Items not compiled out by cfg(test)."""
        return [i for i in its if not any('cfg ( test )' in a for a in i.attrs)]

    def find(self, path):
        """path: list of item descriptions, outermost first:
        'impl ... header', 'fn name', 'struct Name', 'enum Name', 'trait Name', 'const NAME'."""
        pool = self.live(self.items)
        cur = None
        for p in path:
            p = p.strip()
            want = norm(p)
            found = []
            for it in pool:
                if it.kind == 'impl' and want.startswith('impl'):
                    if _implkey(it.name) == _implkey(want):
                        found.append(it)
                elif it.kind == 'other':
                    if it.name == want:
                        found.append(it)
                elif it.kind + ' ' + it.name == want:
                    found.append(it)
            if want.startswith('impl') and len(found) > 1 and len(path) > 1:
                # several impl blocks with the same header: take the one holding the next item
                nxt = norm(path[path.index(p) + 1]) if p in path else None
                f2 = [it for it in found if any(c.kind + ' ' + c.name == nxt for c in self.children(it))]
                found = f2 or found
            if len(found) != 1:
                raise KeyError('%s: %s (%d matches)' % (self.path, p, len(found)))
            cur = found[0]
            pool = self.live(self.children(cur)) if cur.body is not None else []
        return cur

    def children(self, it):
        if it.kind in ('impl', 'trait', 'mod'):
            return items(self.toks, it.body + 1, it.end - 1)
        if it.kind == 'fn' and it.body is not None:
            return nested_fns(self.toks, it)
        return []


def _implkey(s):
    return s.replace(' ', '')


def nested_fns(toks, it):
    """fn items written directly inside the body of a fn."""
    out = []
    i = it.body + 1
    end = it.end - 1
    while i < end:
        t = toks[i]
        if t.t == 'fn' and toks[i + 1].kind == 'id' and toks[i - 1].t in ('{', '}', ';'):
            f = items(toks, i, end)[0]
            out.append(f)
            i = f.end
            continue
        if t.t in OPEN and t.t != '{':
            i = match_close(toks, i)
        i += 1
    return out


# ---- patterns ---------------------------------------------------------------

def lexpat(s):
    """Pattern tokens: literal tokens, ('id', name) for $name,
    ('seq', name) for $$name (a balanced, possibly empty token run)."""
    out = []
    parts = re.split(r'(\$\$?[A-Za-z_][A-Za-z0-9_]*)', s)
    for p in parts:
        if p.startswith('$$'):
            out.append(('seq', p[2:]))
        elif p.startswith('$'):
            out.append(('id', p[1:]))
        else:
            out.extend(('lit', t.t) for t in lex(p)[0])
    return out


def match_at(toks, i, end, pat, k, b):
    """Match pat[k:] at toks[i:]; returns (end index, bindings) or None."""
    while k < len(pat):
        kind, v = pat[k]
        if kind == 'seq':
            j = i
            while True:
                r = match_at(toks, j, end, pat, k + 1, dict(b))
                if r is not None:
                    prev = b.get(v)
                    if prev is None or norm(prev) == norm(toks[i:j]):
                        e, bb = r
                        bb[v] = toks[i:j]
                        return e, bb
                if j >= end or toks[j].t in CLOSE:
                    return None
                if toks[j].t in OPEN:
                    j = match_close(toks, j) + 1
                else:
                    j += 1
        if i >= end:
            return None
        if kind == 'lit':
            if toks[i].t != v:
                return None
        else:
            if toks[i].kind not in ('id', 'num'):
                return None
            if v in b:
                if norm(b[v]) != toks[i].t:
                    return None
            else:
                b = dict(b)
                b[v] = [toks[i]]
        i += 1
        k += 1
    return i, b


def find_all(toks, start, end, pat, b):
    out = []
    i = start
    while i < end:
        r = match_at(toks, i, end, pat, 0, dict(b))
        if r is not None and r[0] > i:
            out.append((i, r[0], r[1]))
            i = r[0]
        else:
            i += 1
    return out


def subst_text(s, b):
    def rep(m):
        n = m.group(1)
        if n in b:
            v = b[n]
            return v if isinstance(v, str) else text(v).strip()
        return m.group(0)
    return re.sub(r'\$\$?([A-Za-z_][A-Za-z0-9_]*)', rep, s)

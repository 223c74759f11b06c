"""Builds one Verus crate from a contract template (contracts/*.rs).

The template is Verus source (specs, lemmas, assumed contracts on dependencies)
with directive blocks.  Each block names an item of /repo/src; the item's text is
copied from the working tree token by token, and only ghost annotations plus the
rewrites listed in the block (and the global ones below) are applied.

  /*@fn FILE :: OUTER :: fn NAME
  @opt ...            name the result / rename / attribute / visibility
  @sub PAT ==> TEXT   rewrite (must match; `@sub?` may match nothing)
  @bind PAT           bind metavariables only
  @spec               contract text, put between the signature and the body
  @start | @end       ghost text at the start / end of the body
  @iter N NAME        `for x in E` -> `for x in NAME: E`   (N-th loop)
  @loop N             invariants of the N-th loop
  @desugar N NAME     `for` as `loop` over the iterator's next()
  @in N | @endin N    ghost text at the start / end of the N-th loop body
  @before PAT | @after PAT
  @*/

  /*@item FILE :: struct NAME   (copied verbatim, attributes dropped) @*/
  /*@head FILE :: impl ... @*/   copies an impl header (without the brace)
  /*@expect FILE :: ITEM
  text @*/                       the item's tokens must equal the text
"""
import os
import re
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from rustlex import *  # noqa

BLOCK = re.compile(r'/\*@(fn|cfn|item|head|expect)\b(.*?)@\*/', re.S)
DIRECTIVES = ('opt', 'sub', 'sub?', 'bind', 'spec', 'start', 'end', 'iter', 'loop', 'in', 'endin', 'afterloop', 'desugar', 'before', 'after', 'props')


class Lost(Exception):
    """An anchor of this item is not in the source any more."""


class FnBlock:
    def __init__(self, body):
        lines = body.split('\n')
        self.path = [p.strip() for p in lines[0].split(' :: ')]
        self.file = self.path[0]
        self.path = self.path[1:]
        self.dirs = []
        cur = None
        for ln in lines[1:]:
            m = re.match(r'\s*@([a-z]+\??)(\s+.*)?$', ln)
            if m and m.group(1) in DIRECTIVES:
                cur = [m.group(1), (m.group(2) or '').strip(), []]
                self.dirs.append(cur)
            elif cur is None:
                if ln.strip():
                    raise ValueError('text before directive in %s: %r' % (self.path, ln))
            else:
                cur[2].append(ln)
        for d in self.dirs:
            d[2] = '\n'.join(d[2])

    @property
    def id(self):
        return self.file + ' :: ' + ' :: '.join(self.path)

    def opts(self):
        o = {}
        for d, a, t in self.dirs:
            if d == 'opt':
                k, _, v = a.partition('=')
                o.setdefault(k.strip(), []).append(v.strip())
        return o


class Source:
    def __init__(self, root):
        self.root, self.cache = root, {}

    def file(self, f):
        if f not in self.cache:
            p = os.path.join(self.root, f)
            if not os.path.exists(p):
                raise Lost('no file %s' % f)
            try:
                self.cache[f] = SourceFile(p)
            except (LexError, IndexError) as e:
                raise Lost('cannot read %s: %s' % (f, e))
        return self.cache[f]

    def item(self, f, path):
        sf = self.file(f)
        try:
            return sf, sf.find(path)
        except (KeyError, LexError, IndexError) as e:
            raise Lost('item not found: %s' % e)


def strip_attrs(toks):
    out, i = [], 0
    while i < len(toks):
        if toks[i].t == '#' and i + 1 < len(toks) and toks[i + 1].t in ('[', '!'):
            j = i + 1 + (toks[i + 1].t == '!')
            i = match_close(toks, j) + 1
            continue
        out.append(toks[i])
        i += 1
    return out


def raw(s):
    return Tok(s, ' ', 0, 'raw')


def apply_sub(toks, pat, repl, b, count_req=True):
    hits = find_all(toks, 0, len(toks), lexpat(pat), b)
    if not hits:
        if count_req:
            raise Lost('pattern not found: ' + pat)
        return toks
    out, i = [], 0
    for s, e, bb in hits:
        out.extend(toks[i:s])
        new = lex(subst_text(repl, {**b, **bb}))[0]
        if new:
            new[0].ws = toks[s].ws
        out.extend(new)
        i = e
    out.extend(toks[i:])
    return out


GLOBAL_SUBS = [
    # A byte-consuming closure becomes a trait with one method (same call sites)
    ('FnMut ( u8 )', 'ByteSink'),
    ('crate :: classic_indexes :: Tag :: new', 'Tag :: new'),
    ('use std :: collections :: hash_map :: Entry ;', ''),
    ('js_sys :: Function', 'Function'),
    ('js_sys :: Object', 'JsObject'),
    ('js_sys :: Array', 'JsArray'),
    ('js_sys :: Reflect', 'JsReflect'),
    ('crate :: serialize :: serialize_string_with_limit', 'serialize_string_with_limit'),
]


def find_loops(toks, body):
    """Indices (keyword, brace) of loops after index `body`."""
    out = []
    for i in range(body + 1, len(toks)):
        t = toks[i]
        if t.kind == 'id' and t.t in ('while', 'for', 'loop'):
            if t.t == 'for' and toks[i + 1].t == '<':
                continue
            j = i + 1
            stop = 'in' if t.t == 'for' else '=' if toks[j].t == 'let' else None
            while stop and j < len(toks) and toks[j].t != stop:
                j = match_close(toks, j) + 1 if toks[j].t in OPEN else j + 1
            while j < len(toks):
                if toks[j].t in ('(', '['):
                    j = match_close(toks, j)
                elif toks[j].t == '{':
                    break
                j += 1
            out.append((i, j))
    return out


def desugar(btoks, n, name):
    """`for P in E { B }` as `let mut NAME = E; loop { let P = match NAME.step() { Some(v) => v, None => break }; B }`."""
    loops = find_loops(btoks, 0)
    if n > len(loops) or btoks[loops[n - 1][0]].t != 'for':
        raise Lost('loop %d is not a for loop' % n)
    kw, br = loops[n - 1]
    j = kw + 1
    while btoks[j].t != 'in':
        if btoks[j].t in OPEN:
            j = match_close(btoks, j)
        j += 1
    pat, expr = btoks[kw + 1:j], btoks[j + 1:br]
    first = lex(';')[0][0]
    first.kind = 'first'
    return (btoks[:kw] + lex('\nlet mut %s =' % name)[0] + expr + lex(';\nloop {')[0] + lex('\nlet')[0] + pat
            + lex(' = match %s.step() { Some(v) => v, None => break }' % name)[0] + [first] + btoks[br + 1:])


def emit_fn(blk, src, mode, degraded, vac):
    """Returns (text, info).  mode: normal | vac."""
    sf, it = src.item(blk.file, blk.path)
    o = blk.opts()
    toks = list(it.toks[it.start:it.end])
    # nested fns are hoisted (they have blocks of their own, or the item is lost)
    if it.body is not None:
        for nf in reversed(nested_fns(it.toks, it)):
            a, z = nf.start - it.start, nf.end - it.start
            toks = toks[:a] + toks[z:]
    toks = [Tok(t.t, t.ws, t.line, t.kind) for t in strip_attrs(toks)]
    if toks and toks[0].t == 'pub' and 'keepvis' not in o:
        k = 1
        if toks[1].t == '(':
            k = match_close(toks, 1) + 1
        toks = toks[k:]
    rewrites = []
    b = {}
    if find_all(toks, 0, len(toks), lexpat('Out : FnMut ( u8 )'), {}):
        h = find_all(toks, 0, len(toks), lexpat('$outparam : & mut Out'), {})
        if not h:
            raise Lost('no output parameter')
        b.update(h[0][2])
        p = b['outparam'][0].t
        nt = []
        for i, t in enumerate(toks):
            nt.append(t)
            if t.t == p and i + 1 < len(toks) and toks[i + 1].t == '(' and (i == 0 or toks[i - 1].t not in ('.', '|', '&')):
                nt.extend([Tok('.', '', t.line, 'p'), Tok('put', '', t.line, 'id')])
        if len(nt) != len(toks):
            rewrites.append('%s(x) -> %s.put(x)' % (p, p))
        toks = nt
    for pat, rep in GLOBAL_SUBS:
        n = apply_sub(toks, pat, rep, b, False)
        if len(n) != len(toks) or norm(n) != norm(toks):
            toks = n
    lost = None
    for d, a, t in blk.dirs:
        if d in ('sub', 'sub?'):
            pat, _, rep = (a + '\n' + t if t.strip() else a).partition('==>')
            try:
                n = apply_sub(toks, pat, rep, b, d == 'sub')
            except Lost as e:
                lost = lost or str(e)
                continue
            if norm(n) != norm(toks):
                rewrites.append(norm(pat.replace('$', '')) + ' -> ' + norm(rep.replace('$', '')))
            toks = n
        elif d == 'bind':
            h = find_all(toks, 0, len(toks), lexpat(a), b)
            if not h:
                lost = lost or ('pattern not found: ' + a)
                continue
            b = h[0][2]
    if lost and not degraded:
        raise Lost(lost)
    # locate body
    k = 0
    while toks[k].t not in ('{', ';'):
        if toks[k].t in ('(', '['):
            k = match_close(toks, k)
        k += 1
    body = k
    sig = toks[:body]
    if 'ret' in o:
        # name the result
        d = 0
        ar = None
        for i in range(len(sig)):
            if sig[i].t in OPEN:
                d += 1
            elif sig[i].t in CLOSE:
                d -= 1
            elif d == 0 and sig[i].t == '-' and sig[i + 1].t == '>':
                ar = i
        # the arrow after the parameter list only
        if ar is None:
            sig = sig + lex(' -> (%s: ())' % o['ret'][0])[0]
        else:
            w = ar + 2
            while w < len(sig) and sig[w].t != 'where':
                w += 1
            sig = sig[:ar + 2] + [raw('(' + o['ret'][0] + ':')] + sig[ar + 2:w] + [raw(')')] + sig[w:]
    if 'name' in o:
        for i in range(len(sig)):
            if sig[i].t == 'fn':
                sig[i + 1] = Tok(o['name'][0], ' ', 0, 'id')
                break
    if 'vis' in o:
        sig = [raw(o['vis'][0])] + sig
    spec = '\n'.join(subst_text(t, b) for d, a, t in blk.dirs if d == 'spec')
    if re.search(r'\$[A-Za-z_]', spec):
        raise Lost('unbound metavariable in contract: ' + spec.strip()[:80])
    attrs = '\n'.join(o.get('attr', []))
    head = '\n' + attrs + '\n' + text(sig).lstrip() + '\n' + spec + '\n'
    info = {'rewrites': rewrites, 'line': it.line, 'loops': 0, 'vac': 0, 'file': blk.file}
    if degraded:
        head = '\n#[verifier::external_body]' + '\n' + text(sig).lstrip().replace(' mut input :', ' input :') + '\n' + spec + '\n'
        return head + '{ unimplemented!() }\n', info
    btoks = toks[body:]
    for d, a, t in blk.dirs:
        if d == 'desugar':
            btoks = desugar(btoks, int(a.split()[0]), a.split()[1])
            rewrites.append('for loop written as loop over next()')
    loops = find_loops(btoks, 0)
    info['loops'] = len(loops)
    ins = {}   # index -> list of text inserted before btoks[index]

    def add(i, s):
        ins.setdefault(i, []).append(s)

    def loopn(a):
        n = int(a.split()[0])
        if n > len(loops):
            raise Lost('loop %d not found' % n)
        return loops[n - 1]
    nloops = o.get('loops')
    if nloops and int(nloops[0]) != len(loops):
        raise Lost('%d loops, %s expected' % (len(loops), nloops[0]))
    kinds = o.get('kinds')
    if kinds and kinds[0].split() != [btoks[kw].t for kw, _ in loops]:
        # the invariants are for that kind of loop (where it ends, and with what): they say nothing about another
        raise Lost('loops %s, %s expected' % (' '.join(btoks[kw].t for kw, _ in loops), kinds[0]))
    for d, a, t in blk.dirs:
        if d in ('bind', 'sub', 'sub?', 'opt', 'spec', 'props', 'desugar'):
            continue
        if d == 'start':
            add(1, subst_text(t, b))
        elif d == 'end':
            add(len(btoks) - 1, subst_text(t, b))
        elif d == 'iter':
            kw, br = loopn(a)
            j = kw + 1
            while btoks[j].t != 'in':
                if btoks[j].t in OPEN:
                    j = match_close(btoks, j)
                j += 1
                if j >= br:
                    raise Lost('loop %s is not a for loop' % a)
            add(j + 1, ' ' + a.split()[1] + ': ')
        elif d == 'loop':
            add(loopn(a)[1], '\n' + subst_text(t, b) + '\n')
        elif d == 'in':
            j = loopn(a)[1] + 1
            for q in range(j, len(btoks)):
                if btoks[q].kind == 'first':
                    j = q + 1
                    break
                if btoks[q].t in ('loop', 'for', 'while'):
                    break
            add(j, subst_text(t, b))
        elif d == 'endin':
            add(match_close(btoks, loopn(a)[1]), subst_text(t, b))
        elif d == 'afterloop':
            add(match_close(btoks, loopn(a)[1]) + 1, '\n' + subst_text(t, b) + '\n')
        elif d in ('before', 'after'):
            h = find_all(btoks, 0, len(btoks), lexpat(subst_text(a, b)), b)
            if not h:
                raise Lost('anchor not found: ' + a)
            s, e, bb = h[0]
            b.update(bb)
            add(s if d == 'before' else e, '\n' + subst_text(t, b) + '\n')
    if mode == 'vac' and 'novac' not in o:
        pts = [1] + [br + 1 for _, br in loops]
        for p in pts:
            ins.setdefault(p, []).append(' proof { if vac(%d) { assert(false); } } ' % (vac[0]))
            vac[0] += 1
            info['vac'] += 1
    parts = []
    for i, t in enumerate(btoks):
        if i in ins:
            parts.extend(ins[i])
        parts.append(t.ws + t.t)
    out = ''.join(parts)
    if re.search(r'\$[A-Za-z_]', out):
        raise Lost('unbound metavariable: ' + re.search(r'\$[A-Za-z_]\w*', out).group())
    return head + out.lstrip() + '\n', info


def widen(toks):
    """Makes a struct or enum and the fields of a struct public."""
    kw = next((k for k, t in enumerate(toks) if t.t in ('struct', 'enum')), None)
    if kw is None:
        return toks
    out = [Tok('pub', '', toks[0].line, 'id')] + ([] if toks[0].t == 'pub' else [])
    rest = toks[kw:]
    rest[0].ws = ' '
    if rest[0].t == 'enum':
        return out + rest
    k, angle = 1, 0
    while rest[k].t not in ('{', ';') and not (rest[k].t == '(' and angle == 0):
        angle += {'<': 1, '>': -1}.get(rest[k].t, 0)
        k += 1
    out += rest[:k + 1]
    if rest[k].t == ';':
        return out + rest[k + 1:]
    end = match_close(rest, k)
    k += 1
    fresh, angle = True, 0
    while k < end:
        t = rest[k]
        if fresh and t.t != ',':
            if t.t != 'pub':
                out.append(Tok('pub', t.ws, t.line, 'id'))
                t.ws = ' '
            fresh = False
        if t.t in OPEN:
            z = match_close(rest, k)
            out += rest[k:z + 1]
            k = z + 1
            continue
        angle += {'<': 1, '>': -1}.get(t.t, 0)
        out.append(t)
        if t.t == ',' and angle == 0:
            fresh = True
        k += 1
    return out + rest[end:]


class Crate:
    def __init__(self):
        self.text = ''
        self.items = []      # dicts: id, first, last (lines), status, info
        self.lost = {}       # id -> reason
        self.fatal = None


def assume_lemmas(s):
    return re.sub(r'^(?<!external_body\]\n)((?:pub )?(?:broadcast )?proof fn )', r'#[verifier::external_body] \1', s, flags=re.M)


def assemble(template, root, mode='normal', degraded=()):
    with open(template) as f:
        tpl = f.read()
    base = os.path.dirname(template)

    def inc(m):
        with open(os.path.join(base, m.group(2))) as f:
            s = f.read()
        # `include!`: contracts only, the bodies (and lemmas) are proved in another crate
        return assume_lemmas(s.replace('/*@fn ', '/*@cfn ')) if m.group(1) else s
    for _ in range(5):
        tpl = re.sub(r'^//@include(!?) (\S+)$', inc, tpl, flags=re.M)
    if mode == 'vac':
        tpl = assume_lemmas(tpl)    # proved by the other run; only reachability is asked here
    src = Source(root)
    c = Crate()
    out = []
    line = 1
    pos = 0
    vac = [0]

    def put(s):
        nonlocal line
        out.append(s)
        line += s.count('\n')
    for m in BLOCK.finditer(tpl):
        put(tpl[pos:m.start()])
        pos = m.end()
        kind, body = m.group(1), m.group(2).strip()
        try:
            if kind in ('fn', 'cfn'):
                blk = FnBlock(body)
                deg = blk.id in degraded or kind == 'cfn'
                try:
                    s, info = emit_fn(blk, src, mode, deg, vac)
                    status = 'elsewhere' if kind == 'cfn' else 'degraded' if deg else 'contract'
                except Lost as e:
                    c.lost[blk.id] = str(e)
                    s, info = emit_fn(blk, src, mode, True, vac)
                    status = 'lost'
                if s.count('external_body') and status == 'contract':
                    status = 'assumed'
                first = line
                put(s)
                c.items.append({'id': blk.id, 'first': first, 'last': line, 'status': status, 'info': info})
            elif kind in ('item', 'head'):
                lines = body.split('\n')
                path = [p.strip() for p in lines[0].split(' :: ')]
                sf, it = src.item(path[0], path[1:])
                if kind == 'head':
                    toks = strip_attrs(list(it.toks[it.head:it.body]))
                else:
                    toks = strip_attrs(list(it.toks[it.head:it.end]))
                toks = [Tok(t.t, t.ws, t.line, t.kind) for t in toks]
                for pat, rep in GLOBAL_SUBS:
                    toks = apply_sub(toks, pat, rep, {}, False)
                for ln in lines[1:]:
                    mm = re.match(r'\s*@sub(\??)\s+(.*)==>(.*)', ln)
                    if mm:
                        toks = apply_sub(toks, mm.group(2), mm.group(3), {}, not mm.group(1))
                if kind == 'item':
                    toks = widen(toks)
                put(text(toks).lstrip())
            elif kind == 'expect':
                first, _, rest = body.partition('\n')
                path = [p.strip() for p in first.split(' :: ')]
                sf, it = src.item(path[0], path[1:])
                have = norm(strip_attrs(list(it.toks[it.head:it.end])))
                if have != norm(rest):
                    raise Lost('%s differs from the text the contracts were written for' % first)
        except Lost as e:
            c.fatal = '%s: %s' % (body.split('\n')[0], e)
            return c
    put(tpl[pos:])
    c.text = ''.join(out)
    c.nvac = vac[0]
    return c


if __name__ == '__main__':
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('template')
    ap.add_argument('--root', default='/repo/src')
    ap.add_argument('--vac', action='store_true')
    ap.add_argument('-o')
    a = ap.parse_args()
    c = assemble(a.template, a.root, 'vac' if a.vac else 'normal')
    if c.fatal:
        print('FATAL', c.fatal)
        sys.exit(1)
    for k, v in c.lost.items():
        print('LOST', k, ':', v, file=sys.stderr)
    if a.o:
        open(a.o, 'w').write(c.text)
    else:
        print(c.text)

"""Generators: content trees, layouts, token soup, copy graphs. All choices come from a Source."""
from unicodedata import normalize
from engine import HarnessError
from white import adapt, lstrip, strip, JAVASCRIPT

WS = [' ', '', '  ', '\t', ' \t ', '\u00a0', '\u3000', '\x0b', '\x1f', '\u2028', '\x85', '\r']
TRAIL = ['', '', '', '', ' ', '\t', '\r', ' \u00a0', '\u2029', '  ']
INDENT = ['', '', '', ' ', '    ', '\t', '\u2003']

PLAIN_KEYS = ['a', 'b', 'c', 'd', 'key', 'Key', 'KEY', 'two words', 'ä', '名前', '1', 'a.b', 'x*', 'a b  c', '𝒳']
HARD_KEYS = ['a:b', ':', '=', 'a = b', '<', 'a<b', '<<', '#', '# a', '##', '>', '> x', '-', '--', '-- a', '|', '\\', '`', '``',
             'a`b', '`a', 'a`', '`a`', 'a``b', '.*', '(a|b)', '[x', '$', '^', 'a+', '\\d', '{2}', '.', '?', 'a\\', "it's",
             '<b>&amp;"', '&lt;', 'a|b', "'", '"', 'None', '...', 'a\tb', 'a\u00a0b', '`` `', 'a ` b', '1 | x', '%s', '{0}', '{key}', '__class__', 'elements',
             'aà', '\u200b', '\ufeff', 'e\u0301', '\ud7ff', '𐍈:𐍈', 'a\x0bb', 'a\rb', 'a\u2028b', 'a\x85 b']
WORDS = ['x', 'y', 'value', 'two words', '1', '0', 'true', 'ä ö', '日本', '😀', 'a  b', '- x', '> c', '# s', 'k: v', 'k = v', 'k < t', '| x', '\\ x', '-- a', '`q`',
         '<b>bold</b>', '&amp;', '"q"', "it's", 'a\\nb', '\\', '|', '...', '%d', '{}', 'None', 'a very long value that exceeds any excerpt', 'exactly14chars', 'exactly15chars_', 'tab\there', 'nb\u00a0sp',
         '\u200b', '𐍈', ':', '=', '<', '<<', '`', '>', '#', '-', '--', '---',
         'e\u0301', 'A\u030a', '\u00c5', '\u212b', 'ﬁ', 'İ', 'ß', 'ſ', '²', '\uac00', '\u1100\u1161', '\x00', '\x07', '\u202e', '\ufeff', 'x\ufeff', 'soft\u00adhyphen', '\u200d', '👩\u200d💻', 'a\u2060', '\u180e', '\x7f', '\ue000', '\ufffd', '\uffff',
         'http://example.org/?a=b&c#d', '$1', '\\1', '%(a)s', '{name}', '[key]', '\u2026', 'a\x0cb', 'a\rb', 'a\x0b:', 'a\u2028b', 'a\x85b', 'a\x1eb', '-0', '1e5', 'NaN']
ALPHABET = 'ab \t:=<>#-|\\`"\'&.*$^()[]{}äß\u00a0\u3000😀0'


WS, TRAIL, INDENT, PLAIN_KEYS, HARD_KEYS, WORDS = (adapt(x) for x in (WS, TRAIL, INDENT, PLAIN_KEYS, HARD_KEYS, WORDS))
SMALL_KEYS = [(12, 'a'), (10, 'b'), (6, 'c'), (2, 'key'), (1, 'a:b'), (1, '`x`'), (1, 'two words')]
if JAVASCRIPT:
    # names that objects have, numbers that come first in objects, patterns of replacements
    PLAIN_KEYS = PLAIN_KEYS + ['__proto__', 'constructor', '0', '10', '2']
    HARD_KEYS = HARD_KEYS + ['hasOwnProperty', 'toString', 'valueOf', '__proto__', 'length', '-1', '01', '$&', '$1', 'template', 'undefined', 'null']
    SMALL_KEYS = SMALL_KEYS + [(1, '__proto__'), (1, 'hasOwnProperty'), (1, '2'), (1, '10')]
    WORDS = WORDS + ['$&', "$'", '$`', 'undefined', 'null', '[object Object]', '__proto__']


def rarely_more(src, hi):
    """A bound on a number of things that is rarely much higher than usual."""
    return hi if not src.p(0.02) else src.pick([12, 30, 12, 30, 12, 30, 110])


def many(src, fn, lo, hi, more):
    """Like src.many, rarely with many more things than usual."""
    top = rarely_more(src, hi)
    if top == hi:
        return src.many(fn, lo, hi, more)
    return src.many(fn, top if src.p(0.7) else lo, top, 0.96)


def raw_text(src, hi=12, alphabet=ALPHABET):
    return ''.join(src.many(lambda: src.pick(alphabet), 0, hi, 0.85))


def key(src, hard=0.3):
    how = src.weighted((70, 'plain'), (int(100 * hard), 'hard'), (max(1, int(30 * hard)), 'random'))
    if how == 'plain':
        return src.pick(PLAIN_KEYS)
    if how == 'hard':
        return src.pick(HARD_KEYS)
    k = strip(raw_text(src))
    return k or 'k'


def value(src):
    how = src.weighted((180, 'word'), (60, 'random'), (2, 'long'))
    if how == 'word':
        return src.pick(WORDS)
    if how == 'long':
        v = (src.pick(WORDS) + src.pick([' ', '', '  '])) * src.pick([20, 60, 150])
        return strip(v) or 'v'
    v = strip(raw_text(src, 24))
    return v or 'v'


def comment_block(src):
    """[(indent, text or None)]; at least one line."""
    if src.p(0.02):
        # many lines, few of them with text
        return [(src.pick(['', ' ', '   ']), src.pick(WORDS + ['x', '.']) if src.p(0.12) else None) for _ in range(src.between(6, 24))]
    return many(src, lambda: (src.pick(['', ' ', '  ', '    ', '\t']), value(src) if not src.p(0.25) else None), 1, 5, 0.5)


def continuations(src, probability=0.25, hi=5):
    if not src.p(probability):
        return []
    return many(src, lambda: (src.p(0.5), value(src) if not src.p(0.3) else None), 1, hi, 0.55)


# ------------------------------------------------------------------ content trees

class Opts:
    def __init__(self, **kw):
        self.size = 14
        self.depth = 4
        self.keys = None            # function src -> key
        self.comments = 0.2
        self.conts = 0.2
        self.multi = 0.12
        self.copies = 0.0           # probability of copying
        self.deep = 0.5
        self.sections = 3
        self.unique = 0.0
        self.noise = 0.15
        self.__dict__.update(kw)


def small_keys(src):
    return src.weighted(*SMALL_KEYS)


def mixed_keys(src):
    return key(src, 0.25)


def body_line(src, k, dashes=2):
    how = src.weighted((4, 'v'), (2, 'raw'), (1, ''), (1, 'ws'), (1, 'near'))
    if how == 'v':
        return value(src)
    if how == 'raw':
        return src.pick(INDENT) + raw_text(src, 20) + src.pick(TRAIL)
    if how == 'ws':
        return src.pick(WS)
    if how == 'near':
        around = '-' * (dashes + src.pick([0, 1, -1, 2])) + src.pick([' ', ''])
        if k.startswith('-') and src.p(0.5):
            return around + strip(k.lstrip('-'))
        return src.pick(['-- ', '--- ', '---- ', '- ', '--', '\\-- ', '> -- ', around, around]) + (k if not src.p(0.2) else src.pick([k.swapcase(), k.upper(), k.lower(), k[:-1], k[1:], k + k, normalize('NFD', k), normalize('NFKC', k), k.replace(' ', '  ')])) + src.pick(['', 'x', ' x', '-', ' -', '.'])
    return ''


def is_terminator(line, dashes, k):
    s = lstrip(line)
    return s.startswith('-' * dashes) and not s[dashes:].startswith('-') and strip(s[dashes:]) == k


def multi_lines(src, k, dashes, hi=6):
    return [l for l in many(src, lambda: body_line(src, k, dashes), 0, hi, 0.6) if not is_terminator(l, dashes, k)]


class TreeGen:
    def __init__(self, src, o):
        self.src, self.o = src, o
        self.budget = src.between(1, o.size)
        self.depth = o.depth
        self.more = 0
        if o.size >= 5 and src.p(0.02):
            how = src.weighted((2, 'size'), (2, 'depth'))
            if how == 'size':
                self.budget = 3 * o.size
                self.more = 0.3
            else:
                self.depth = 12
        self.unique_used = {True: 0, False: 0}

    def make_key(self, section):
        src, o = self.src, self.o
        if o.unique and src.p(o.unique):
            n = self.unique_used[section]
            self.unique_used[section] += 1
            return ['u', 'U:', 'u`', '`u', 'u <', '=u', 'u.', '# u'][n % 8] + str(n), True
        return (o.keys or small_keys)(src), False

    def comment(self):
        return comment_block(self.src) if self.src.p(self.o.comments) else None

    def element(self, depth):
        src, o = self.src, self.o
        kinds = [(6, 'field'), (3, 'empty'), (4, 'list'), (4, 'fieldset')]
        if o.multi:
            kinds.append((max(1, int(20 * o.multi)), 'multi'))
        t = src.weighted(*kinds)
        k, unique = self.make_key(False)
        n = dict(t=t, k=k, c=self.comment(), u=unique)
        if t == 'field':
            n['v'] = value(src)
            n['conts'] = continuations(src, o.conts)
            if n['conts'] and src.p(0.3):
                n['v'] = None
        elif t == 'multi':
            n['dashes'] = src.weighted((60, 2), (20, 3), (10, 5), (1, 12), (1, 70))
            n['lines'] = multi_lines(src, k, n['dashes'])
        elif t == 'list':
            n['items'] = many(src, lambda: self.item(), 1, 5, 0.55)
        elif t == 'fieldset':
            n['entries'] = many(src, lambda: dict(self.item(), k=(o.keys or small_keys)(src)), 1, 5, 0.55)
        return n

    def item(self):
        src = self.src
        return dict(v=value(src) if not src.p(0.15) else None, conts=continuations(src, self.o.conts * 0.6), c=self.comment())

    def section(self, depth):
        k, unique = self.make_key(True)
        n = dict(t='section', k=k, c=self.comment(), u=unique)
        # the sections of a spire come one by one
        n['els'] = self.elements(depth + 1) if depth < 99 else [self.element(depth) for _ in range(self.src.between(0, 1))]
        return n

    def elements(self, depth):
        """Plain elements first (a section ends only where another section begins)."""
        src, o = self.src, self.o
        plain, sections = [], []
        while self.budget > 0 and src.p((0.6 if depth else 0.75) + self.more * 0.7):
            self.budget -= 1
            plain.append(self.element(depth))
        if depth < self.depth:
            while self.budget > 0 and len(sections) < 5 and src.p(o.sections / (o.sections + 2.0)):
                self.budget -= 1
                sections.append(self.section(depth))
        return plain + sections


def spire(g, els):
    """Sections in sections in sections, and then sections further up: many levels end at once."""
    src = g.src
    open_ = [els]
    for _ in range(src.between(3, 9)):
        n = g.section(99)
        open_[-1].append(n)
        open_.append(n['els'])
    for _ in range(src.between(1, 3)):
        level = src.i(len(open_))
        n = g.section(99)
        open_[level].append(n)
        del open_[level + 1:]
        open_.append(n['els'])


def tree(src, o):
    g = TreeGen(src, o)
    els = g.elements(0)
    if o.sections and o.depth > 2 and src.p(0.02):
        spire(g, els)
    if o.copies:
        add_copies(src, els, o)
    return dict(t='document', els=els)


def flatten(els):
    for e in els:
        yield e
        if e['t'] == 'section':
            yield from flatten(e['els'])


def add_copies(src, els, o):
    """Only resolvable copies: unique template keys, no cycles, compatible kinds."""
    every = list(flatten(els))
    plain = src.shuffled([e for e in every if e['t'] != 'section'])
    kind = {}
    for rank, e in enumerate(plain):
        kind[id(e)] = {'multi': 'field'}.get(e['t'], e['t'])
        if e['t'] not in ('empty', 'list', 'fieldset') or not src.p(o.copies if e['t'] != 'empty' else min(1, o.copies * 1.5)):
            continue
        pool = [t for t in plain[:rank] if t['u'] and (e['t'] == 'empty' or kind[id(t)] in (e['t'], 'empty'))]
        if not pool:
            continue
        t = src.pick(pool)
        e['tpl'] = t['k']
        if e['t'] == 'empty':
            kind[id(e)] = kind[id(t)]
        if not e['u'] and src.p(0.15):
            e['k'] = t['k']
    sections = [e for e in every if e['t'] == 'section']
    target = {}

    def reaches(a, b, seen):
        if a is b:
            return True
        if id(a) in seen:
            return False
        seen.add(id(a))
        nxt = [c for c in a['els'] if c['t'] == 'section']
        if id(a) in target:
            nxt.append(target[id(a)])
        return any(reaches(n, b, seen) for n in nxt)

    for e in src.shuffled(sections):
        if not src.p(o.copies):
            continue
        pool = [t for t in sections if t['u'] and t is not e and not reaches(t, e, set())]
        if not pool:
            continue
        t = src.pick(pool)
        target[id(e)] = t
        e['tpl'] = t['k']
        e['deep'] = src.p(o.deep)
        if not e['u'] and src.p(0.1):
            e['k'] = t['k']


# ------------------------------------------------------------------ rendering

def plain_ok(k, section):
    if section:
        return k[0] not in '`<#' and '<' not in k
    return k[0] not in '>#-`\\|:=<' and not any(c in k for c in ':=<')


def src_rare(src):
    return src.p(0.008)


class Layout:
    """free: any legal layout; tidy: canonical."""

    def __init__(self, src, free=True, noise=0.15):
        self.src, self.free, self.noise = src, free, noise
        self.out = []

    def ws(self):
        return self.src.pick(WS) if self.free and self.src.p(0.4) else ' '

    def ws1(self):
        return self.src.pick([w for w in WS if w]) if self.free and self.src.p(0.4) else ' '

    def line(self, content, continuation=False):
        if self.free and self.src.p(0.35):
            content = self.src.pick(INDENT) + content + self.src.pick(TRAIL)
        self.out.append(content)

    def blank(self):
        self.out.append(self.src.pick(['', '', ' ', '\t', '\r']))

    def gap(self, attached=True):
        """Noise between lines; if attached is False the following line takes no comment."""
        src = self.src
        while self.noise and src.p(self.noise):
            if src.p(0.4):
                for _ in range(src.between(1, 2)):
                    self.line('>' + self.ws() + (value(src) if src.p(0.8) else ''))
                if attached:
                    self.blank()
            else:
                self.blank()

    def key(self, k, section=False):
        src = self.src
        if plain_ok(k, section) and not (self.free and src.p(0.15)):
            return k
        run = 1
        while '`' * run in k:
            run += 1
        if run > 1 and self.free and src.p(0.4):
            # fewer, where what follows them in the key can not follow a key
            few = src.between(1, run - 1)
            after = [lstrip(k[i + few:]) for i in range(1, len(k)) if k.startswith('`' * few, i)]
            if not any(rest[:1] in (('<',) if section else (':', '=', '<')) for rest in after if rest):
                run = few
        if run > 1 and '`' * run in k:
            pass
        elif self.free and src.p(0.1):
            run += src.between(1, 2) if not src.p(0.03) else 12
        left = ' ' if k[0] == '`' else (self.ws() if self.free and src.p(0.3) else '')
        right = ' ' if k[-1] == '`' else (self.ws() if self.free and src.p(0.3) else '')
        return '`' * run + left + k + right + '`' * run

    def comment(self, block):
        if block:
            op_indent = self.src.pick(INDENT) if self.free and self.src.p(0.2) else ''
            for indent, text in block:
                self.out.append(op_indent + '>' + indent + (text or '') + (self.src.pick(TRAIL) if self.free else ''))

    def conts(self, conts):
        for spaced, text in conts:
            self.gap(attached=False)
            self.line(('\\' if spaced else '|') + (self.ws() + text if text is not None else ''))

    def element(self, n, depth):
        self.gap()
        self.comment(n['c'])
        t = n['t']
        if t == 'section':
            head = '#' * (depth + 1) + self.ws()
            k = n['k']
            if k[0] == '#':
                head += ' '
            head += self.key(k, True)
            if n.get('tpl') is not None:
                op = '<<' if n.get('deep') else '<'
                head += self.ws() + op + (self.ws1() if n['tpl'][0] == '<' else self.ws()) + n['tpl']
            self.line(head)
            for e in n['els']:
                self.element(e, depth + 1)
            return
        if t == 'multi':
            op = '-' * n['dashes']
            sep = lambda: ' ' if n['k'][0] == '-' else self.ws()
            self.line(op + sep() + n['k'])
            self.out.extend(n['lines'])
            self.line(op + sep() + n['k'])
            return
        if n.get('tpl') is not None:
            self.line(self.key(n['k']) + self.ws() + '<' + self.ws() + n['tpl'])
        else:
            v = n.get('v')
            self.line(self.key(n['k']) + self.ws() + ':' + (self.ws() + v if v is not None else ''))
        if t == 'field':
            self.conts(n['conts'])
        for item in n.get('items', ()):
            self.gap()
            self.comment(item['c'])
            # '-' followed by a dash needs a space in between
            v = item['v']
            self.line('-' + ('' if v is None else (' ' if v[0] == '-' else self.ws()) + v))
            self.conts(item['conts'])
        for entry in n.get('entries', ()):
            self.gap()
            self.comment(entry['c'])
            v = entry['v']
            self.line(self.key(entry['k']) + self.ws() + '=' + ('' if v is None else self.ws() + v))
            self.conts(entry['conts'])

    def document(self, spec):
        if self.free and self.noise and src_rare(self.src):
            self.out.extend([''] * self.src.pick([9, 97, 250, 996, 1030]))
        for e in spec['els']:
            self.element(e, 0)
        self.gap()
        text = '\n'.join(self.out)
        # a trailing comment or blank is noise as well
        if self.src.p(0.3):
            text += '\n'
        return text


def render(src, spec, free=True, noise=0.15):
    return Layout(src, free, noise).document(spec)


def document(src, **kw):
    o = Opts(**kw)
    return render(src, tree(src, o), free=not src.p(0.3), noise=o.noise if not src.p(0.3) else 0)


# expected reading of a content tree without copies (independent of any parser)

def canon(n):
    t = n['t']
    c = spec_comment(n.get('c'))
    if t == 'document':
        return dict(type='document', comment=None, elements=[canon(e) for e in n['els']])
    if t == 'section':
        return dict(type='section', key=n['k'], comment=c, elements=[canon(e) for e in n['els']])
    if t == 'empty':
        return dict(type='empty_element', key=n['k'], comment=c)
    if t == 'field':
        return dict(type='field', key=n['k'], comment=c, value=spec_value(n['v'], n['conts']))
    if t == 'multi':
        return dict(type='field', key=n['k'], comment=c, value='\n'.join(n['lines']) if n['lines'] else None)
    if t == 'list':
        return dict(type='list', key=n['k'], comment=c,
                    items=[dict(type='list_item', comment=spec_comment(i['c']), value=spec_value(i['v'], i['conts'])) for i in n['items']])
    return dict(type='fieldset', key=n['k'], comment=c,
                entries=[dict(type='fieldset_entry', key=i['k'], comment=spec_comment(i['c']), value=spec_value(i['v'], i['conts'])) for i in n['entries']])


def spec_value(first, conts):
    """Parts joined with nothing or one space, blanks contributing only their spacing."""
    parts = [(False, first)] + list(conts)
    out, space = None, False
    for spaced, text in parts:
        if out is None:
            out = text
            continue
        space = space or spaced
        if text is not None:
            out += (' ' if space else '') + text
            space = False
    return out


def spec_comment(block):
    if not block:
        return None
    lines = [(len(indent), text) for indent, text in block]
    if len(lines) == 1:
        return lines[0][1]
    while lines and lines[0][1] is None:
        del lines[0]
    while lines and lines[-1][1] is None:
        del lines[-1]
    if not lines:
        return None
    margin = min(n for n, t in lines if t is not None)
    return '\n'.join('' if t is None else ' ' * (n - margin) + t for n, t in lines)


# ------------------------------------------------------------------ line soup

def soup_line(src, keys=None):
    """Any single line, valid somewhere or not."""
    k = (keys or mixed_keys)
    t = src.weighted((4, 'field'), (2, 'empty'), (3, 'item'), (3, 'entry'), (2, 'direct'), (2, 'spaced'), (2, 'comment'), (2, 'blank'),
                     (3, 'section'), (1, 'multi'), (1, 'raw'), (1, 'escaped'))
    lay = Layout(src)
    w = lay.ws
    if t == 'field':
        s = lay.key(k(src)) + w() + ':' + w() + value(src)
    elif t == 'empty':
        s = lay.key(k(src)) + w() + ':'
    elif t == 'item':
        s = '-' + src.pick([' ', '', '\t', ' ']) + (value(src) if src.p(0.8) else '')
    elif t == 'entry':
        s = lay.key(k(src)) + w() + '=' + w() + (value(src) if src.p(0.8) else '')
    elif t == 'direct':
        s = '|' + w() + (value(src) if src.p(0.8) else '')
    elif t == 'spaced':
        s = '\\' + w() + (value(src) if src.p(0.8) else '')
    elif t == 'comment':
        s = '>' + w() + (value(src) if src.p(0.8) else '')
    elif t == 'blank':
        s = src.pick(WS)
    elif t == 'section':
        s = '#' * src.weighted((6, 1), (4, 2), (2, 3), (1, 5)) + w() + lay.key(k(src), True)
    elif t == 'multi':
        s = '-' * src.between(2, 4) + w() + k(src)
    elif t == 'escaped':
        s = '#' * src.weighted((3, 0), (1, 1), (1, 2)) + w() + '`' * src.between(1, 3) + raw_text(src, 8) + '`' * src.between(0, 3) + w() + src.pick([':', '=', '', ': x', 'x'])
    else:
        s = raw_text(src, 14)
    if src.p(0.3):
        s = src.pick(INDENT) + s + src.pick(TRAIL)
    return s


def copy_line(src, keys=None):
    k = keys or small_keys
    lay = Layout(src)
    if src.p(0.5):
        return lay.key(k(src)) + lay.ws() + '<' + lay.ws() + k(src)
    return '#' * src.weighted((5, 1), (2, 2), (1, 3)) + ' ' + lay.key(k(src), True) + lay.ws() + src.pick(['<', '<<']) + lay.ws1() + k(src)


def soup(src, hi=14, copies=False, keys=None):
    def one():
        if copies and src.p(0.25):
            return copy_line(src, keys)
        return soup_line(src, keys)
    return '\n'.join(src.many(one, 1, hi, 0.85))


def valid_lines(src, hi=16, depth=0, keys=None, copies=False):
    """A sequence of lines each of which is valid where it stands; returns (lines, state)."""
    k = keys or mixed_keys
    lay = Layout(src)
    w = lay.ws
    out = []
    state = dict(container=None, continuable=False, depth=0)

    def put(s):
        if src.p(0.3):
            s = src.pick(INDENT) + s + src.pick(TRAIL)
        out.append(s)

    def one():
        kinds = [(4, 'field'), (3, 'empty'), (2, 'comment'), (2, 'blank'), (3, 'section'), (1, 'multi')]
        if state['container'] in ('empty', 'list'):
            kinds.append((6, 'item'))
        if state['container'] in ('empty', 'fieldset'):
            kinds.append((6, 'entry'))
        if state['continuable']:
            kinds += [(3, 'direct'), (3, 'spaced')]
        if copies:
            kinds.append((4, 'copy'))
        t = src.weighted(*kinds)
        if t == 'copy':
            name = (keys or small_keys)(src)
            put(lay.key(name) + w() + '<' + w() + (name if src.p(0.3) else small_keys(src)))
            state.update(container='empty', continuable=False)
        elif t == 'field':
            v = value(src)
            put(lay.key(k(src)) + w() + ':' + w() + v)
            state.update(container='field', continuable=True)
        elif t == 'empty':
            put(lay.key(k(src)) + w() + ':')
            state.update(container='empty', continuable=True)
        elif t == 'item':
            v = value(src) if src.p(0.85) else ''
            put('-' + (' ' if v[:1] == '-' else w()) + v)
            state.update(container='list', continuable=True)
        elif t == 'entry':
            put(lay.key(k(src)) + w() + '=' + w() + (value(src) if src.p(0.85) else ''))
            state.update(container='fieldset', continuable=True)
        elif t in ('direct', 'spaced'):
            put(('|' if t == 'direct' else '\\') + w() + (value(src) if src.p(0.75) else ''))
            if state['container'] == 'empty':
                state['container'] = 'field'
        elif t == 'comment':
            put('>' + w() + (value(src) if src.p(0.8) else ''))
        elif t == 'blank':
            out.append(src.pick(WS))
        elif t == 'section':
            d = src.between(1, min(state['depth'] + 1, 5))
            d = state['depth'] + 2 - d if d <= state['depth'] + 1 else 1
            if src.p(0.15):
                d = state['depth'] + 1 if src.p(0.5) else src.between(1, state['depth'] + 1)
            name = k(src)
            put('#' * d + (' ' if name[0] == '#' else w()) + lay.key(name, True) + (lay.ws() + src.pick(['<', '<<']) + lay.ws1() + small_keys(src) if copies and src.p(0.4) else ''))
            state.update(container=None, continuable=False, depth=d)
        else:
            name = k(src)
            dashes = src.weighted((6, 2), (2, 3), (1, 4), (1, 5), (1, 9))
            sep = lambda: ' ' if name[0] == '-' else w()
            put('-' * dashes + sep() + name)
            out.extend(multi_lines(src, name, dashes, 4))
            put('-' * dashes + sep() + name)
            state.update(container=None, continuable=False)

    for _ in src.many(lambda: one(), 0, hi, 0.88):
        pass
    return out, state


def offending_line(src, state):
    """A line that breaks the grammar after the given state."""
    lay = Layout(src)
    options = ['invalid', 'escaped', 'multi', 'skip']
    if state['container'] not in ('empty', 'list'):
        options += ['item', 'item']
    if state['container'] not in ('empty', 'fieldset'):
        options += ['entry', 'entry']
    if not state['continuable']:
        options += ['cont', 'cont']
    t = src.pick(options)
    if t == 'invalid':
        s = src.pick(['x', 'a b', ':', ': x', '= x', '<', '< a', 'a <', '#', '##', '# <', '# < a', '--', '---', 'a', '# a <', '#a <<', '`a`', '`a` x', '`a`b: c', '*', '# `a` x', '"q"', '&', '<b>', '!'])
    elif t == 'escaped':
        s = '#' * src.weighted((4, 0), (1, 1), (1, 2)) + src.pick(['', ' ', '\t']) + src.pick(['`a', '``a`', '`a: b', '``a` = x', '```x``', '` a', '`<b', '`a < b'])
    elif t == 'multi':
        name = src.pick(['zz', 'unended', '( zz', 'z<b>', '-z', '- zz'])
        dashes = src.weighted((4, 2), (3, 3), (1, 5), (1, 9))
        s = '-' * dashes + (' ' if name[0] == '-' else src.pick([' ', ''])) + name
        if src.p(0.3):
            return '\n'.join([s] + multi_lines(src, name, dashes, 3))
    elif t == 'skip':
        s = '#' * (state['depth'] + src.between(2, 4)) + ' ' + lay.key(mixed_keys(src), True)
        if s.lstrip('#')[1:2] == '#':
            s = '#' * (state['depth'] + 2) + ' x'
    elif t == 'item':
        s = '-' + src.pick([' x', '', ' ', ' - x', 'x'])
    elif t == 'entry':
        s = lay.key(mixed_keys(src)) + lay.ws() + '=' + lay.ws() + (value(src) if src.p(0.7) else '')
    else:
        s = src.pick(['|', '\\']) + lay.ws() + (value(src) if src.p(0.7) else '')
    if src.p(0.3):
        s = src.pick(INDENT) + s + src.pick(TRAIL)
    return s


def mutate(src, text):
    """A few character or line edits."""
    for _ in range(src.between(1, 3)):
        lines = text.split('\n')
        k = src.i(len(lines))
        t = src.weighted((3, 'insert'), (3, 'delete'), (1, 'dupline'), (1, 'delline'), (1, 'swap'), (1, 'join'), (1, 'soup'))
        if t == 'insert':
            p = src.i(len(text) + 1)
            text = text[:p] + src.pick(ALPHABET + '\n') + text[p:]
        elif t == 'delete' and text:
            p = src.i(len(text))
            text = text[:p] + text[p + 1:]
        elif t == 'dupline':
            text = '\n'.join(lines[:k + 1] + lines[k:])
        elif t == 'delline':
            text = '\n'.join(lines[:k] + lines[k + 1:])
        elif t == 'swap' and len(lines) > 1:
            j = src.i(len(lines))
            lines[k], lines[j] = lines[j], lines[k]
            text = '\n'.join(lines)
        elif t == 'join':
            text = '\n'.join(lines[:k]) + ''.join(lines[k:k + 2]) + '\n'.join(lines[k + 2:])
        elif t == 'soup':
            text = '\n'.join(lines[:k] + [soup_line(src)] + lines[k:])
    return text


def copy_soup(src, hi=10):
    """Structured documents whose copies may or may not resolve."""
    keys = lambda s: s.weighted((8, 'a'), (8, 'b'), (6, 'c'), (4, 'd'), (3, 'e'))
    lay = Layout(src, free=src.p(0.3))
    out = []
    depth = 0

    def one():
        nonlocal depth
        t = src.weighted((5, 'copy'), (3, 'section'), (6, 'sectioncopy'), (2, 'plain'), (1, 'comment'))
        if t == 'comment':
            lay.line('> ' + value(src))
            return
        if t in ('section', 'sectioncopy'):
            d = src.between(1, min(depth + 1, 4))
            depth = d
            s = '#' * d + ' ' + lay.key(keys(src), True)
            if t == 'sectioncopy':
                s += lay.ws() + src.pick(['<', '<<']) + lay.ws() + keys(src)
            lay.line(s)
            return
        if t == 'copy':
            lay.line(lay.key(keys(src)) + lay.ws() + '<' + lay.ws() + keys(src))
            extra = src.weighted((5, None), (1, 'items'), (1, 'entries'))
        else:
            extra = src.weighted((3, 'field'), (2, None), (2, 'items'), (2, 'entries'), (1, 'multi'))
            k = keys(src)
            if extra == 'multi':
                lay.out.extend(['-- ' + k, value(src), '-- ' + k])
                return
            lay.line(lay.key(k) + ':' + (' ' + value(src) if extra == 'field' else ''))
        if extra == 'items':
            for _ in range(src.between(1, 2)):
                lay.line('- ' + value(src))
        elif extra == 'entries':
            for _ in range(src.between(1, 2)):
                lay.line(keys(src) + ' = ' + value(src))

    for _ in src.many(one, 1, hi, 0.85):
        pass
    return '\n'.join(lay.out)


def copy_ring(src):
    """A long chain of copies, of elements or of sections, in any order and perhaps closed to a ring (or into its middle)."""
    n = src.between(2, 10)
    lay = Layout(src, free=src.p(0.2))
    sections = src.p(0.5)
    names = ['k%d' % i for i in range(n)]
    closed = src.p(0.6)
    last = src.i(n) if closed else None
    extra = src.weighted((3, None), (1, 'items'), (1, 'entries')) if not sections else src.weighted((3, None), (1, 'field'), (2, 'section'))
    inner = sections and src.p(0.35)          # every section copies the next one into a section of its own
    order = list(range(n))
    for i in range(n - 1):
        j = i + src.i(n - i)
        order[i], order[j] = order[j], order[i]
    for i in order:
        to = names[i + 1] if i + 1 < n else names[last] if closed else None
        if sections:
            copy = '' if to is None else lay.ws() + ('<' if src.p(0.6) else '<<') + lay.ws() + to
            lay.line('# ' + lay.key(names[i], True) + ('' if inner else copy))
            if inner and copy:
                lay.line('## ' + src.pick(['x', 'y', 'x%d' % i]) + copy)
            if src.p(0.4):
                if extra == 'field':
                    lay.line(src.pick(['a', 'b']) + ': ' + value(src))
                elif extra == 'section' and not inner:
                    lay.line('## ' + src.pick(['a', 'b']))
                    lay.line(src.pick(['a', 'b']) + ': ' + value(src))
        else:
            lay.line(lay.key(names[i]) + (':' if to is None else lay.ws() + '<' + lay.ws() + to))
            if src.p(0.4):
                if extra == 'items':
                    lay.line('- ' + value(src))
                elif extra == 'entries':
                    lay.line(src.pick(['a', 'b']) + ' = ' + value(src))
    return '\n'.join(lay.out)


def any_text(src):
    """Arbitrary strings: from nearly valid to random unicode."""
    t = src.weighted((3, 'valid'), (3, 'mutated'), (3, 'soup'), (3, 'copies'), (2, 'chars'), (1, 'unicode'))
    if t == 'valid':
        return document(src, copies=0.4, unique=0.4, keys=mixed_keys)
    if t == 'mutated':
        return mutate(src, document(src, copies=0.3, unique=0.4, size=8))
    if t == 'soup':
        return soup(src, copies=True)
    if t == 'copies':
        return copy_soup(src) if src.p(0.75) else copy_ring(src)
    if t == 'chars':
        return raw_text(src, 60, ALPHABET + '\n\n\n\n:::##--')
    t = ''.join(chr(src.pick([src.i(128), src.i(0x3000), src.i(0x110000)])) for _ in range(src.between(0, 30)))
    # neighbouring surrogates are one character in JavaScript
    return t.encode('utf-16-le', 'surrogatepass').decode('utf-16-le', 'surrogatepass') if JAVASCRIPT else t


def key_pool_with(src, present):
    """A present key, or an absent one similar to present ones."""
    if present and src.p(0.75):
        return src.pick(present)
    base = src.pick(present) if present and src.p(0.6) else src.pick(PLAIN_KEYS)
    return src.pick([base + 'x', base.upper(), base.lower(), base[:-1] or 'q', ' ' + base, 'absent', '`' + base + '`', ''])

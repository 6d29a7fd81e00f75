"""P26: looking up positions."""
from common import *


def enclosing(doc, n):
    """The innermost element around a line that belongs to no element itself."""
    node = doc.root
    while True:
        inner = None
        for c in node.children:
            if c.line is not None and c.line < n and (c.kind == 'section' or n <= c.last_line()):
                inner = c
        # a section reaches to the beginning of the next section
        if node.kind in ('document', 'section') and inner is not None and inner.kind == 'section':
            later = [c for c in node.children if c.line > inner.line and c.line <= n]
            if later:
                inner = None
        if inner is None:
            return node
        node = inner


def token_at(tokens, index):
    best = None
    for name, (b, e) in tokens.items():
        if b <= index <= e and (best is None or b >= best[0]):
            best = (b, name)
    return best[1] if best else None


class P26(Prop):
    id = 'P26'
    quick = 25000
    rule = ('A case is a valid document with comments, continuations and copies, and up to sixteen positions in it (line starts and ends, token borders, anywhere) and positions outside. Each is looked up by index and by '
            'line and column; element, token, the accessors of the element and its own error selection are compared with the model. Non-trivial: a position in a line that belongs to an element.')
    assumptions = ['comment lines that belong to an element may be looked up as that element or as the enclosing one, with or without their token',
                   'columns lie within the line']

    def gen(self, src):
        text = rich_doc(src, size=9, comments=0.3, conts=0.35, noise=0.25, keys=src.pick([gen.small_keys, gen.mixed_keys]))
        doc, v = prepare(text)

        def one():
            info = src.pick(doc.lines)
            how = src.weighted((3, 'token'), (2, 'start'), (2, 'end'), (3, 'any'))
            if how == 'token' and info.tokens:
                b, e = src.pick(sorted(info.tokens.values()))
                return src.pick([b, e, max(info.begin, b - 1), min(info.end, e + 1)])
            if how == 'start':
                return info.begin
            if how == 'end':
                return info.end
            return src.between(0, len(text))
        return dict(text=text, positions=src.many(one, 1, 16, 0.9), empties=src.pick(['field', 'list', 'fieldset', 'empty']))

    def run(self, case, st):
        text = case['text']
        doc, v = prepare(text)
        views = written_views(v)
        for index in case['positions']:
            n = text.count('\n', 0, index)
            info = doc.lines[n]
            column = index - info.begin
            a = eno.enolib.lookup(text, index=index, locale=eno.PROBE)
            b = eno.enolib.lookup(text, line=n, column=column, locale=eno.PROBE)
            attached = info.attached
            allowed = [info.owner] if info.owner is not None else [enclosing(doc, n)]
            if attached is not None:
                allowed.append(attached)
            token = token_at(info.tokens, index)
            tokens = [token] if attached is None else [token, None]
            where = f'line {n + 1} column {column} (index {index})'
            found = []
            for how, r in (('index', a), ('line', b)):
                if set(r) != {'element', 'range'}:
                    fail('malformed answer', r)
                e = r['element']
                s = span(e.error('message'))
                node = next((x for x in allowed if eno.element_span(doc, x) == s and eno.norm_raw(e.raw()) == views[x].canon()), None)
                if node is None:
                    fail('wrong element looked up', f'by {how}: {where} gives {e.raw()} at {s}', f'expected {[views[x].canon() for x in allowed]}', repr(text))
                if r['range'] not in tokens:
                    fail('wrong token looked up', f'by {how}: {where} gives {r["range"]}', f'expected {tokens}', repr(text))
                found.append((node, r['range']))
                x = views[node]
                if x.kind != 'document':
                    kind = case['empties'] if x.kind == 'empty' else x.kind
                    name = {'item': 'list_item', 'entry': 'fieldset_entry'}.get(kind, kind)
                    if not getattr(e, 'yields_' + name)():
                        fail('element claims to be something else', name, e.raw())
                    content(getattr(e, 'to_' + name)(), x, kind)
            if found[0] != found[1]:
                fail('lookups by index and by line disagree', where, a, b, repr(text))
            st.label('line ' + str(info.type), 'token ' + str(token))
            if info.owner is not None:
                st.interesting()
        for bad in (dict(index=-1), dict(index=len(text) + 1), dict(line=-1, column=0), dict(line=len(doc.lines), column=0), dict(index=len(text) + 100), dict(line=len(doc.lines) + 5, column=3)):
            try:
                r = eno.enolib.lookup(text, locale=eno.PROBE, **bad)
            except IndexError:
                continue
            fail('position outside of the document is answered', bad, r)

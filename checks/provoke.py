"""Scenarios that provoke every kind of error, with the expected selection and marks of each."""
from common import *
from queries import MODES, any_key, matching, query
from values import SPANS, comment_span, key_spans, operator_end, value_span, VALUED
import values

BUILDERS = ['error', 'key_error', 'value_error', 'comment_error']


def typed_kind(v, kind):
    return kind if v.kind == 'empty' else v.kind


def reach_as(document, v, x, empties='field'):
    """The typed element for the view x."""
    path = path_of(x)
    if not path:
        return document
    if x.kind in ('item', 'entry'):
        parent = reach(document, path[:-2]).elements()[path[-2]]
        return (parent.to_list().items() if x.kind == 'item' else parent.to_fieldset().entries())[path[-1]]
    return eno.typed(reach(document, path[:-1]).elements()[path[-1]], typed_kind(x, empties))


def generate(src, doc, v):
    """A scenario that raises or builds an error on the document, as a JSON value."""
    views = list(v.walk())
    for _ in range(20):
        how = src.weighted((5, 'build'), (4, 'missing element'), (3, 'loader'), (3, 'missing value'), (2, 'missing comment'), (2, 'several'), (2, 'incompatible'), (1, 'convert'), (2, 'untouched'))
        x = src.pick(views)
        base = dict(do=how, path=path_of(x), empties=src.pick(['field', 'empty', 'list', 'fieldset']))
        kind = typed_kind(x, base['empties'])
        if how == 'build':
            what = src.pick(BUILDERS)
            if what == 'value_error' and kind not in VALUED:
                what = 'error'
            return dict(base, what=what, message=src.pick(['message', 'ü <b> "q" {0} %s', '']), function=src.p(0.4))
        if how == 'loader':
            what = src.pick(['key', 'comment', 'value'])
            if (what == 'key' and x.kind == 'document') or (what == 'comment' and x.comment is None) or (what == 'value' and (x.value is None or kind not in VALUED)):
                continue
            return dict(base, what=what, message=src.pick(['message', 'ü <b> "q" {0} %s']))
        if how == 'missing value':
            if kind not in VALUED or x.value is not None:
                continue
            return base
        if how == 'missing comment':
            if x.comment is not None:
                continue
            return base
        if how in ('missing element', 'several', 'incompatible'):
            if x.kind in ('document', 'section'):
                kinds = KINDS
            elif x.kind in ('fieldset', 'empty'):
                kinds, base['empties'] = ['fieldset_entry'], 'fieldset'
            else:
                continue
            kind = src.pick(kinds)
            key = any_key(src, x, 0.2)
            matches = matching(x, key)
            collection = False
            if how == 'missing element':
                if matches:
                    continue
            elif how == 'several':
                if len(matches) < 2:
                    continue
            else:
                if kind in ('element', 'fieldset_entry') or not matches or all(m.kind in COMPATIBLE[kind] for m in matches):
                    continue
                collection = len(matches) > 1 or src.p(0.3)
                if collection and kind == 'empty':
                    continue
            return dict(base, kind=kind, key=key, collection=collection, mode='required' if how == 'missing element' else src.pick(MODES))
        if how == 'convert':
            if x.kind in ('document', 'item', 'entry'):
                continue
            kind = src.pick([k for k in KINDS if k != 'element' and x.kind not in COMPATIBLE[k]])
            return dict(base, kind=kind)
        if how == 'untouched':
            if x.kind not in ('document', 'section', 'fieldset') or not x.children:
                continue
            return dict(base, message=src.pick([None, 'message', 'ü <b>']))
    return dict(do='build', path=[], empties='field', what='error', message='message', function=False)


def at(v, path):
    for i in path:
        v = v.children[i]
    return v


def run(sc, document, v):
    """Provokes the error of a scenario."""
    x = at(v, sc['path'])
    do = sc['do']
    if do == 'convert':
        e = reach(document, sc['path'][:-1]).elements()[sc['path'][-1]]
        return expect_error(getattr(e, 'to_' + sc['kind']))
    real = reach_as(document, v, x, sc['empties'])
    if do == 'build':
        message = (lambda _: sc['message']) if sc['function'] else sc['message']
        e = getattr(real, sc['what'])(message)
        if not isinstance(e, eno.ValidationError):
            fail('error builder returns something else', repr(e))
        return e
    if do == 'loader':
        def loader(_):
            raise ValueError(sc['message'])
        return expect_error(lambda: real.key(loader) if sc['what'] == 'key' else getattr(real, 'required_' + sc['what'])(loader))
    if do == 'missing value':
        return expect_error(real.required_string_value)
    if do == 'missing comment':
        return expect_error(real.required_string_comment)
    if do == 'untouched':
        args = [] if sc['message'] is None else [sc['message']]
        return expect_error(lambda: real.assert_all_touched(*args))
    if sc['collection']:
        fn = getattr(real, sc['kind'] + 's')
        return expect_error(lambda: fn() if sc['key'] is None else fn(sc['key']))
    return expect_error(lambda: query(real, sc['mode'], 'entry' if sc['kind'] == 'fieldset_entry' else sc['kind'], sc['key']))


def culprits(sc, v):
    """Views the error can be about."""
    x = at(v, sc['path'])
    do = sc['do']
    if do in ('several',):
        return matching(x, sc['key'])
    if do == 'incompatible':
        m = matching(x, sc['key'])
        return [c for c in m if c.kind not in COMPATIBLE[sc['kind']]] if sc['collection'] or len(m) == 1 else m
    if do == 'untouched':
        return [y for c in x.children for y in c.walk()]
    return [x]


def spans(sc, doc, v):
    """Acceptable selections."""
    x = at(v, sc['path'])
    node = x.node
    do = sc['do']
    if do == 'missing element':
        return [(0, 0) if node.kind == 'document' else (doc.lines[node.line].end,) * 2]
    if do == 'missing value':
        return [(operator_end(doc, node), end) for end in {doc.lines[node.line].end, doc.lines[node.last_line()].end}]
    if do == 'missing comment':
        return [(0, 0) if x.kind == 'document' else (doc.lines[node.line].begin,) * 2]
    part = sc['what'] if do == 'loader' else sc['what'].replace('_error', '') if do == 'build' and sc['what'] != 'error' else None
    if part:
        return SPANS[part](doc, x)
    return [eno.element_span(doc, c.node) for c in culprits(sc, v)]


def element_lines(c):
    return set(range(c.node.line, c.node.last_line() + 1))


def acceptable_marks(sc, doc, v):
    """[(emphasised, indicated, questioned)] alternatives; None where not specified."""
    x = at(v, sc['path'])
    node = x.node
    do = sc['do']
    everything = set(range(len(doc.lines)))
    if x.kind == 'document' and do in ('build', 'missing comment', 'loader'):
        return [(set(), set(), everything)]
    if do == 'missing comment':
        return [({node.line}, set(), set())]
    if do == 'missing value':
        return [({node.line}, None, set())]
    part = sc['what'] if do == 'loader' else sc['what'].replace('_error', '') if do == 'build' and sc['what'] != 'error' else None
    if part == 'key':
        heads = {node.line} if x.kind != 'item' else {node.parent.line, x.parent.node.line}
        return [({h}, set(), set()) for h in heads]
    if part == 'comment':
        lines = {c[2] for c in x.comment_lines or ()}
        return [(lines, {node.line}, set()) if lines else ({node.line}, set(), set())]
    if part == 'value' and x.copied:
        return [({node.line}, set(), set())]
    if part == 'value' and node.multiline and node.body:
        return [(set(node.body), set(), set())]
    return [({c.node.line}, element_lines(c) - {c.node.line}, set()) for c in culprits(sc, v)]


def check_marks(sc, doc, v, marks, e, strict=True):
    x = at(v, sc['path'])
    do = sc['do']
    by = {m: {n for n, k in marks.items() if k == m} for m in '>*?'}
    if do == 'missing element':
        marked = by['>'] | by['*'] | by['?']
        if not marked:
            fail('no line is marked', e.snippet)
        if x.kind != 'document' and (x.node.line not in marked or not marked <= element_lines(x)):
            fail('place of the missing element is not marked', e.snippet, doc.text)
        return
    if do in ('several',) or (do == 'incompatible' and not sc['collection'] and len(matching(x, sc['key'])) > 1):
        cands = culprits(sc, v)
        heads = {c.node.line for c in cands}
        lines = set().union(*[element_lines(c) for c in cands])
        nested = sum(len(element_lines(c)) for c in cands) != len(lines)
        if by['>'] | by['*'] != lines or by['?'] or not by['>'] or not by['>'] <= heads or (not nested and by['>'] != heads):
            fail('candidates are not marked', e.snippet, doc.text)
        return
    for want in acceptable_marks(sc, doc, v):
        if all(w is None or w == by[m] for w, m in zip(want, '>*?')):
            return
    fail('wrong lines marked', e.snippet, f'acceptable: {acceptable_marks(sc, doc, v)}', doc.text)

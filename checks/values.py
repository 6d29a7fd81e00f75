"""P15, P16, P17, P31: values, comments, loaders and representations."""
import re
from common import *
from queries import MODES, query
from white import JAVASCRIPT

VALUED = ('field', 'entry', 'item')


def as_field(pairs):
    """Empty elements are fields without value as well."""
    return [(r, v) for r, v in pairs if v.kind in VALUED]


def operator_end(doc, node):
    tok = node.tokens
    for name in ('template', 'element_operator', 'entry_operator', 'item_operator'):
        if name in tok:
            return tok[name][1]
    return doc.lines[node.line].end


def list_keys(v):
    """Keys a list item may be reported under: of the list it was obtained from or of the list it is written in."""
    return {v.parent.key, v.node.parent.key} if v.parent else {v.node.parent.key}


def check_missing_value(doc, e, v, kind=None):
    kind = kind or v.kind
    if kind == 'item':
        allowed = [expected_text('missing_list_item_value', k) for k in list_keys(v)]
    else:
        allowed = [expected_text('missing_fieldset_entry_value' if kind == 'entry' else 'missing_field_value', v.key)]
    if e.text not in allowed:
        fail('wrong error for a missing value', e.text, allowed)
    eno.check_error_shape(doc.text, e)
    node = v.node
    begin = operator_end(doc, node)
    ends = {doc.lines[node.line].end, doc.lines[node.last_line()].end}
    if span(e)[0] != begin or span(e)[1] not in ends:
        fail('wrong selection for a missing value', f'{span(e)} instead of {begin} to one of {ends}', doc.text)
    marks = eno.check_snippet(doc.text, eno.read_text_snippet(e.snippet))
    if marks.get(node.line) != '>':
        fail('element without value is not emphasised', e.snippet)


def check_missing_comment(doc, e, v):
    if e.text != 'missing_comment':
        fail('wrong error for a missing comment', e.text)
    eno.check_error_shape(doc.text, e)
    want = (0, 0) if v.kind == 'document' else (doc.lines[v.node.line].begin,) * 2
    if span(e) != want:
        fail('wrong selection for a missing comment', f'{span(e)} instead of {want}', doc.text)
    marks = eno.check_snippet(doc.text, eno.read_text_snippet(e.snippet))
    if v.kind == 'document':
        eno.check_marks(marks, questioned=range(len(doc.lines)))
    else:
        eno.check_marks(marks, [v.node.line], [], [])


def pairs_of(document, v, empties='field'):
    """(real, view, kind): every element; empties converted to a kind in turn."""
    out = []

    def section(s, w):
        els = s.elements()
        if len(els) != len(w.children):
            fail('wrong number of elements', f'{len(els)} instead of {len(w.children)} in {s!r}')
        for e, c in zip(els, w.children):
            kind = c.kind
            if kind == 'empty':
                kind = empties
            t = eno.typed(e, kind)
            out.append((t, c, kind))
            if c.kind == 'section':
                section(t, c)
            elif c.kind in ('list', 'fieldset'):
                inner = t.items() if c.kind == 'list' else t.entries()
                if len(inner) != len(c.children):
                    fail('wrong number of items or entries', f'{len(inner)} instead of {len(c.children)} in {t!r}')
                out.extend((i, n, n.kind) for i, n in zip(inner, c.children))
    out.append((document, v, 'document'))
    section(document, v)
    return out


class P15(Prop):
    id = 'P15'
    quick = 40000
    rule = ('A case is a valid document with copies, empty values, continuations and comments; every field (also empty elements as fields), entry, item, list and comment is read through the optional and the '
            'required accessors. Non-trivial: both a present and an absent value occur.')

    def gen(self, src):
        return dict(text=rich_doc(src, size=10, conts=0.4, comments=0.35), empties=src.pick(['field', 'list', 'fieldset', 'empty']))

    def run(self, case, st):
        doc, v = prepare(case['text'])
        present = absent = 0
        for real, w, kind in pairs_of(eno.parse(case['text']), v, case['empties']):
            if kind in VALUED:
                got = [real.optional_string_value(), real.optional_value(lambda x: x)]
                if got != [w.value, w.value]:
                    fail('optional value differs', got, w.value)
                for get in (real.required_string_value, lambda: real.required_value(lambda x: x)):
                    if w.value is None:
                        absent += 1
                        st.label(f'absent value of {kind}' + (' copy' if w.node.template else ''))
                        check_missing_value(doc, expect_error(get), w, kind)
                    else:
                        present += 1
                        if get() != w.value:
                            fail('required value differs', get(), w.value)
            if kind == 'list':
                values = [c.value for c in w.children]
                got = [real.optional_string_values(), real.optional_values(lambda x: x)]
                if got != [values, values]:
                    fail('optional values differ', got, values)
                for get in (real.required_string_values, lambda: real.required_values(lambda x: x)):
                    if None in values:
                        st.label('list with absent value')
                        e = expect_error(get)
                        cands = [c for c in w.children if c.value is None]
                        c = next((c for c in cands if operator_end(doc, c.node) == span(e)[0]), cands[0])
                        check_missing_value(doc, e, c)
                    elif get() != values:
                        fail('required values differ', get(), values)
            got = [real.optional_string_comment(), real.optional_comment(lambda x: x)]
            if got != [w.comment, w.comment]:
                fail('optional comment differs', got, w.comment)
            for get in (real.required_string_comment, lambda: real.required_comment(lambda x: x)):
                if w.comment is None:
                    check_missing_comment(doc, expect_error(get), w)
                else:
                    st.label('present comment')
                    if get() != w.comment:
                        fail('required comment differs', get(), w.comment)
        if present and absent:
            st.interesting()


class Foreign(Exception):
    pass


class ForeignBase(BaseException):
    pass


class SubValueError(ValueError):
    pass


FOREIGN = {c.__name__: c for c in (Foreign, ForeignBase, KeyError, IndexError, LookupError, TypeError, AttributeError, StopIteration, ZeroDivisionError, OverflowError, ArithmeticError,
                                   AssertionError, RuntimeError, NotImplementedError, RecursionError, OSError, NameError, EOFError, BufferError, MemoryError, Exception, Warning)}
HERE = {'from': {'column': 0, 'index': 0, 'line': 0}, 'to': {'column': 0, 'index': 0, 'line': 0}}
FOREIGN['ParseError'] = lambda m: eno.ParseError(m, m, HERE)
FOREIGN['ValidationError'] = lambda m: eno.ValidationError(m, m, HERE)


class Recorder:
    """A loader: remembers what it was called with and answers by plan."""

    def __init__(self, plan):
        self.plan, self.calls, self.raised, self.returned = plan, [], None, []

    def __len__(self):
        return 0 if self.plan.get('falsy') else 1

    def __call__(self, *args, **kwargs):
        if len(args) != 1 or kwargs:
            fail('loader called with other arguments', args, kwargs)
        self.calls.append(args[0])
        how = self.plan['how']
        if how == 'return' or len(self.calls) <= self.plan.get('after', 0):
            r = {'object': object, 'none': lambda: None, 'zero': lambda: 0, 'empty': lambda: '', 'list': list, 'false': lambda: False, 'undefined': lambda: eno.UNDEFINED}[self.plan['what']]()
            self.returned.append(r)
            return r
        if how == 'foreign':
            self.raised = FOREIGN[self.plan['cls']](self.plan['message'])
        elif self.plan['message'] is None:
            self.raised = ValueError()
        else:
            self.raised = {'ValueError': ValueError, 'Sub': SubValueError, 'Unicode': lambda m: UnicodeDecodeError('utf-8', b'x', 0, 1, m)}[self.plan['cls']](self.plan['message'])
        raise self.raised


def value_span(doc, v):
    """Selection of a value error."""
    node = v.node
    if v.copied:
        out = [eno.key_span(doc, node)]
        if v.kind == 'empty':
            # a copied empty element has no value anywhere: the place where its value would be
            out += [(b, doc.lines[node.line].end) for b in (node.tokens['template'][1], doc.lines[node.line].end)]
        return out
    if node.multiline:
        if not node.body:
            return [(doc.lines[node.line].end,) * 2]
        return [(doc.lines[node.body[0]].begin, doc.lines[node.body[-1]].end)]
    tok = node.tokens
    begin = tok['value'][0] if 'value' in tok else operator_end(doc, node)
    if node.continuations:
        return [(begin, doc.lines[node.continuations[-1][2]].end)]
    if 'value' in tok:
        return [(begin, tok['value'][1])]
    return [(begin, doc.lines[node.line].end)]


def comment_span(doc, v):
    lines = v.comment_lines
    if v.kind == 'document':
        return [(0, 0)]
    if not lines:
        return [(doc.lines[v.node.line].begin,) * 2]
    if len(lines) == 1:
        info = doc.lines[lines[0][2]]
        return [info.tokens['comment'] if 'comment' in info.tokens else (info.begin, info.end)]
    return [(doc.lines[lines[0][2]].begin, doc.lines[lines[-1][2]].end)]


def key_spans(doc, v):
    if v.kind == 'item':
        out = [eno.key_span(doc, v.node)]
        if v.parent:
            out.append(eno.key_span(doc, v.parent.node))
        return out
    return [eno.key_span(doc, v.node)]


SPANS = dict(value=value_span, comment=comment_span, key=key_spans)


def check_part_error(doc, e, v, part, message):
    """value_error, comment_error or key_error with a message."""
    if e.text != expected_text(part + '_error', message):
        fail('wrong error text', e.text, expected_text(part + '_error', message))
    eno.check_error_shape(doc.text, e)
    allowed = SPANS[part](doc, v)
    if span(e) not in allowed:
        fail(f'wrong selection of a {part} error', f'{span(e)} instead of {allowed}', e.snippet, doc.text)
    marks = eno.check_snippet(doc.text, eno.read_text_snippet(e.snippet))
    node = v.node
    if v.kind == 'document':
        eno.check_marks(marks, [], [], range(len(doc.lines)))
    elif part == 'key':
        heads = {node.line} if v.kind != 'item' else {node.parent.line, v.parent.node.line if v.parent else node.parent.line}
        got = {n for n, m in marks.items() if m == '>'}
        if not (len(got) == 1 and got <= heads) or any(m in '*?' for m in marks.values()):
            fail('wrong lines marked for a key error', e.snippet)
    elif part == 'comment':
        lines = [c[2] for c in v.comment_lines or ()]
        if lines:
            eno.check_marks(marks, lines, [node.line], [])
        else:
            eno.check_marks(marks, [node.line], [], [])
    elif v.copied:
        eno.check_marks(marks, [node.line], [], [])
    elif node.multiline and node.body:
        eno.check_marks(marks, node.body, [], [])
    else:
        eno.check_marks(marks, [node.line], range(node.line + 1, node.last_line() + 1), [])


def plan(src):
    p = dict(plan_kind(src))
    if src.p(0.1):
        p['falsy'] = True
    return p


def plan_kind(src):
    if JAVASCRIPT:
        # there is no other exception than the one that carries a message
        return src.weighted(
            (5, dict(how='return', what=src.pick(['object', 'none', 'undefined', 'zero', 'empty', 'list', 'false']))),
            (6, dict(how='value', cls='ValueError', message=src.pick(['bad', '', 'ü "quoted" {0} %s', 'line\nbreak', '<b>', 'value', '$& $1 😀', '__proto__']),
                     after=src.weighted((3, 0), (1, 1), (1, 2)), what='object')))
    return src.weighted(
        (5, dict(how='return', what=src.pick(['object', 'none', 'zero', 'empty', 'list', 'false']))),
        (4, dict(how='value', cls=src.pick(['ValueError', 'Sub', 'Unicode']), message=src.pick(['bad', '', None, 'ü "quoted" {0} %s', 'line\nbreak', '<b>', 'value']),
                 after=src.weighted((3, 0), (1, 1), (1, 2)), what='object')),
        (3, dict(how='foreign', cls=src.pick(sorted(FOREIGN)), message='other', after=src.weighted((3, 0), (1, 1)), what='object')))


class P16(Prop):
    id = 'P16'
    quick = 90000
    rule = ('A case is a valid document with copies and comments and up to eight accesses with a recording loader (value, values, key, comment; optional or required) that returns an arbitrary object, '
            'raises ValueError (subclasses, empty, odd messages; possibly only at a later item) or another exception. Non-trivial: a loader is called and raises.')

    def gen(self, src):
        text = rich_doc(src, size=8, conts=0.3, comments=0.35)
        return dict(text=text, accesses=src.many(lambda: dict(at=src.i(60), part=src.pick(['value', 'key', 'comment', 'values']), mode=src.pick(['optional', 'required']), plan=plan(src)), 1, 8, 0.8))

    def run(self, case, st):
        doc, v = prepare(case['text'])
        pairs = pairs_of(eno.parse(case['text']), v)
        for a in case['accesses']:
            part, mode = a['part'], a['mode']
            fitting = [p for p in pairs if part == 'comment' or (part == 'key' and p[2] != 'document') or (part == 'value' and p[2] in VALUED) or (part == 'values' and p[2] == 'list')]
            if not fitting:
                continue
            real, w, kind = fitting[a['at'] % len(fitting)]
            loader = Recorder(a['plan'])
            st.label(f'{mode} {part} {a["plan"]["how"]}')
            if part == 'key':
                texts, who = [w.parent.key if kind == 'item' else w.key], [w]
                alternatives = list_keys(w) if kind == 'item' else {w.key}
                ask = lambda: real.key(loader)
            elif part == 'comment':
                texts, who = [w.comment], [w]
                ask = lambda: getattr(real, mode + '_comment')(loader)
            elif part == 'value':
                texts, who = [w.value], [w]
                ask = lambda: getattr(real, mode + '_value')(loader)
            else:
                texts, who = [c.value for c in w.children], w.children
                ask = lambda: getattr(real, mode + '_values')(loader)
            error = result = None
            try:
                result = ask()
            except eno.ValidationError as x:
                error = x
            except (Exception, ForeignBase) as x:
                if x is not loader.raised:
                    raise
                error = x
            given = [t for t in texts if t is not None]
            ok = loader.calls == given[:len(loader.calls)] if part != 'key' else set(loader.calls) <= alternatives and len(loader.calls) < 2
            if not ok:
                fail('loader called with something else', loader.calls, given, a)
            if loader.raised is not None:
                st.interesting()
                st.label('raised ' + type(loader.raised).__name__)
                if error is None:
                    fail('exception of the loader is lost', a)
                if not isinstance(loader.raised, ValueError):
                    if error is not loader.raised:
                        fail('exception of the loader is replaced', repr(error), a)
                    continue
                if not isinstance(error, eno.ValidationError):
                    fail('ValueError of the loader escapes', a)
                culprits = [x for x, t in zip(who, texts) if t is not None]
                culprit = culprits[len(loader.calls) - 1]
                check_part_error(doc, error, culprit, 'value' if part == 'values' else part, str(loader.raised))
                continue
            if mode == 'required' and None in texts and part != 'key':
                if error is None:
                    fail('required access to something absent succeeds', a)
                if part == 'comment':
                    check_missing_comment(doc, error, w)
                else:
                    cands = [x for x in who if x.value is None]
                    c = next((c for c in cands if operator_end(doc, c.node) == span(error)[0]), cands[0])
                    check_missing_value(doc, error, c, 'item' if part == 'values' else kind)
                continue
            if error is not None:
                fail('unexpected error', str(error), a)
            if len(loader.calls) != len(given):
                fail('loader not called once per string', loader.calls, given, a)
            returned = iter(loader.returned)
            want = [None if t is None else next(returned) for t in texts]
            got = result if part == 'values' else [result]
            if len(got) != len(want) or any(x is not y for x, y in zip(got, want)):
                fail('result of the loader is changed', got, want, a)


NAMES = ['alpha', 'beta', 'gamma_2', 'upperCase', 'B2', 'x', 'élan', 'value', 'a_long_name']
LOADERS = [lambda x: ('A', x), lambda x: ('B', x), lambda x: x.upper(), lambda x: int(x), lambda x: None]


def _picky(x):
    if len(x) > 2:
        raise ValueError(f'{x} is too long')
    return x + '!'


def _broken(x):
    raise KeyError(x)


LOADERS += [_picky, _broken]


def outcome(fn):
    try:
        return ('result', fn())
    except (eno.ValidationError, eno.ParseError) as e:
        return (type(e).__name__, e.text, e.snippet, repr(e.selection))
    except KeyError as e:
        return ('KeyError', str(e))


class P17(Prop):
    id = 'P17'
    quick = 20000
    rule = ('A case is a sequence of registrations (function, dictionary, keyword; several at once; names registered again) and a document; after each registration the derived accessors of every element, item, '
            'entry and placeholder are compared with the generic accessors given the loader that a model of the registry holds. Non-trivial: a name is registered again or several loaders are known.')

    def gen(self, src):
        regs = src.many(lambda: [src.pick(['function', 'dict', 'keyword', 'two dicts', 'mixed', 'callable object'])] +
                        [[src.pick(NAMES[:3]) if src.p(0.6) else src.pick(NAMES), src.i(len(LOADERS))] for _ in range(src.between(1, 3))], 1, 4, 0.6)
        return dict(text=rich_doc(src, size=5, comments=0.3), registrations=regs, seed=src.i(1000))

    def register(self, how, pairs):
        def named(n, i):
            f = lambda x: LOADERS[i](x)
            f.__name__ = n
            return f
        register = eno.enolib.register
        last = {}
        if how == 'function':
            for n, i in pairs:
                register(named(n, i))
                last[n] = i
        elif how == 'callable object':
            class Loader:
                def __init__(self, n, i):
                    self.__name__, self.i = n, i

                def __call__(self, x):
                    return LOADERS[self.i](x)
            for n, i in pairs:
                last[n] = i
            register(*[Loader(n, i) for n, i in last.items()])
        elif how == 'dict':
            last = dict((n, i) for n, i in pairs)
            register({n: LOADERS[i] for n, i in last.items()})
        elif how == 'keyword':
            last = dict((n, i) for n, i in pairs)
            register(**{n: LOADERS[i] for n, i in last.items()})
        else:
            for n, i in pairs:
                last.setdefault(n, i)
            items = list(last.items())
            if how == 'two dicts':
                register(*[{n: LOADERS[i]} for n, i in items])
            else:
                n, i = items[0]
                register(named(n, i), **{n: LOADERS[i] for n, i in items[1:]})
        return last

    def run(self, case, st):
        doc, v = prepare(case['text'])
        document = eno.parse(case['text'])
        early = pairs_of(document, v)
        known = {}
        again = False
        for how, *pairs in case['registrations']:
            st.label(how)
            new = self.register(how, pairs)
            again = again or any(n in known for n in new)
            known.update(new)
        if again or len(known) > 1:
            st.interesting()
        for real, w, kind in early[case['seed'] % 2:]:
            for name, i in known.items():
                loader = LOADERS[i]
                pairs = [(f'optional_{name}_comment', 'optional_comment'), (f'required_{name}_comment', 'required_comment')]
                if kind != 'document':
                    pairs.append((f'{name}_key', 'key'))
                if kind in VALUED:
                    pairs += [(f'optional_{name}_value', 'optional_value'), (f'required_{name}_value', 'required_value')]
                if kind == 'list':
                    pairs += [(f'optional_{name}_values', 'optional_values'), (f'required_{name}_values', 'required_values')]
                for derived, generic in pairs:
                    a, b = outcome(lambda: getattr(real, derived)()), outcome(lambda: getattr(real, generic)(loader))
                    if a != b:
                        fail('registered accessor differs', f'{derived} of {real!r}: {a}', f'{generic}: {b}')
        absent = {k: getattr(document, k)('absent') for k in KINDS}
        absent['entry'] = absent['fieldset'].entry('absent')
        for kind, x in absent.items():
            for name in known:
                pairs = [(f'optional_{name}_comment', 'optional_string_comment'), (f'required_{name}_comment', 'required_string_comment'), (f'{name}_key', 'string_key')]
                if kind in ('field', 'entry'):
                    pairs += [(f'optional_{name}_value', 'optional_string_value'), (f'required_{name}_value', 'required_string_value')]
                if kind == 'list':
                    pairs += [(f'optional_{name}_values', 'optional_string_values'), (f'required_{name}_values', 'required_string_values')]
                for derived, generic in pairs:
                    a, b = outcome(lambda: getattr(x, derived)()), outcome(lambda: getattr(x, generic)())
                    if a != b:
                        fail('registered accessor of an absent element differs', f'{derived} of {x!r}: {a}', f'{generic}: {b}')


CLASS = dict(section='Section', field='Field', list='List', fieldset='Fieldset', empty='Empty', item='ListItem', entry='FieldsetEntry')


ABSENT = 'null' if JAVASCRIPT else 'None'


def utf16(s):
    """The code units of a string, as a string."""
    return ''.join(chr(int.from_bytes(s.encode('utf-16-le', 'surrogatepass')[k:k + 2], 'little')) for k in range(0, len(s.encode('utf-16-le', 'surrogatepass')), 2))


class P31(Prop):
    id = 'P31'
    quick = 120000
    rule = ('A case is a valid document with copies, multiline fields and values of any length; the representation of every element, ambiguous element, item, entry and of placeholders of every kind is read. '
            'Non-trivial: at least three elements.')

    def gen(self, src):
        return dict(text=rich_doc(src, size=8, multi=0.5, conts=0.3, keys=gen.mixed_keys), key=src.pick(['absent', 'ä b', '`', 'a:b', None]), empties=src.pick(['empty', 'field', 'list', 'fieldset']))

    def run(self, case, st):
        doc, v = prepare(case['text'])
        document = eno.parse(case['text'])
        n = 0
        for x in (y for y in sections_of(v)):
            for i, e in enumerate([] if JAVASCRIPT else reach(document, path_of(x)).elements()):
                r = self.text(e)
                if x.children[i].key not in r or 'Element' not in r:
                    fail('representation of an ambiguous element', r)
        for real, w, kind in pairs_of(document, v, case['empties']):
            n += 1
            r = self.text(real)
            st.label(kind)
            if kind == 'document':
                if 'document' not in r:
                    fail('kind not named', r)
            else:
                if not r.startswith(f'<class {CLASS[kind]} '):
                    fail('kind not named', r)
            if kind in ('section', 'field', 'list', 'fieldset', 'empty', 'entry') and f'key={w.key}' not in r and f'key="{w.key}"' not in r:
                fail('key not named', r, w.key)
            if kind in ('document', 'section', 'list', 'fieldset'):
                word = dict(document='elements', section='elements', list='items', fieldset='entries')[kind]
                if not r.endswith(f' {word}={len(w.children)}>'):
                    fail('number of elements wrong', r, len(w.children))
            if kind in VALUED:
                shown = r[:-1].split('value=', 1)
                value = w.value
                if kind != 'item':
                    shown = r[:-1].split(f'key={w.key} value=', 1)
                if len(shown) != 2:
                    fail('value not shown', r)
                shown = shown[1]
                esc = lambda s: s.replace('\n', '\\n')
                if JAVASCRIPT and value is not None:
                    value, shown = utf16(value), utf16(shown)
                if value is None:
                    ok = shown == ABSENT
                elif value == '':
                    ok = shown in ('', ABSENT)
                elif len(value) <= 14:
                    ok = shown == esc(value)
                    st.label('whole value')
                else:
                    ok = any(shown == esc(value[:k]) + '...' for k in range(1, 12))
                    st.label('cut value')
                if not ok:
                    fail('value shown wrongly', r, repr(value))
        if n > 3:
            st.interesting()
        for kind in KINDS:
            outer = 'absent' if case['key'] is None else case['key'] + ' absent'
            x = getattr(document, kind)(outer)
            self.placeholder(x, kind, outer)
            if kind == 'section':
                for k in KINDS:
                    self.placeholder(query(x, 'plain', k, case['key']), k, case['key'])
            if kind == 'fieldset':
                self.placeholder(query(x, 'plain', 'entry', case['key']), 'entry', case['key'])

    def placeholder(self, x, kind, key=None):
        r = self.text(x)
        name = 'SectionElement' if kind == 'element' else CLASS[kind]
        if not r.startswith(f'<class Missing{name}'):
            fail('representation of a placeholder', r)
        if key and f'key={key}' not in r:
            fail('key of a placeholder not named', r)
        if not key and 'key=' in r.replace('key=>', '').replace('key="">', '').replace('key=None>', ''):
            fail('placeholder without a key names one', r)

    def text(self, x):
        r = repr(x)
        if not r.startswith('<class ') or not r.endswith('>') or '\n' in r:
            fail('representation not on one line', repr(r))
        return r

"""P19, P20, P21, P27, P28, P30: histories of accesses, conversions, parents."""
import re
from common import *
from queries import MODES, any_key, matching, query
from values import pairs_of, VALUED, outcome
from white import JAVASCRIPT


def at(v, path):
    for i in path:
        v = v.children[i]
    return v


def empty_kind(case, path):
    return ['fieldset', 'list', 'field', 'empty'][(case['empties'] + sum(path)) % 4]


class P19(Prop):
    id = 'P19'
    quick = 40000
    rule = ('A case is a valid document with copies and nested sections and a history of up to twelve operations: switching the requirement on or off on any section or fieldset, and plain or required queries of '
            'absent and present elements anywhere. A model holds one flag per section and fieldset. Non-trivial: an absent element is queried plainly below a section or fieldset on which the requirement is in force.')

    def gen(self, src):
        text = rich_doc(src, size=10, sections=6, multi=0.02, comments=0.05, conts=0.05)
        doc, v = prepare(text)
        secs = sections_of(v)
        sets = [x for x in v.walk() if x.kind in ('fieldset', 'empty')]

        def one():
            how = src.weighted((4, 'query'), (3, 'toggle'), (3, 'entry'))
            if how == 'entry' and not sets:
                how = 'query'
            if how == 'toggle':
                s = src.pick(secs + [x for x in sets if src.p(0.3)])
                return dict(op='toggle', path=path_of(s), on=src.pick([True, True, None, False]))
            if how == 'entry':
                s = src.pick(sets)
                return dict(op='query', path=path_of(s), mode=src.pick(['plain', 'plain', 'required']), kind='entry', key=any_key(src, s, 0.15), how=src.i(4))
            s = src.pick(secs)
            return dict(op='query', path=path_of(s), mode=src.pick(['plain', 'plain', 'required']), kind=src.pick(KINDS), key='absent' if src.p(0.4) else any_key(src, s, 0.15), how=src.i(4))
        return dict(text=text, ops=src.many(one, 2, 12, 0.85))

    def navigate(self, document, v, path, how):
        real = document
        for i in path:
            c = v.children[i]
            kind = 'fieldset' if c.kind == 'empty' else c.kind
            same = [x for x in v.children if x.key == c.key]
            if how == 1 and len(same) == 1:
                real = query(real, 'required', kind, c.key)
            elif how == 2 and kind == 'section' and all(x.kind == 'section' for x in same):
                real = real.sections(c.key)[next(n for n, x in enumerate(same) if x is c)]
            elif how == 3 and len(same) == 1:
                real = query(real, 'plain', kind, c.key)
            else:
                real = eno.typed(real.elements()[i], kind)
            v = c
        return real

    def run(self, case, st):
        doc, v = prepare(case['text'])
        document = eno.parse(case['text'])
        required = {id(x): False for x in v.walk()}
        for op in case['ops']:
            s = at(v, op['path'])
            real = self.navigate(document, v, op['path'], op.get('how', 0))
            if op['op'] == 'toggle':
                fn = real.all_elements_required if s.kind in ('section', 'document') else real.all_entries_required
                fn() if op['on'] is None else fn(op['on'])
                for x in s.walk():
                    required[id(x)] = op['on'] is not False
                st.label('toggle ' + s.kind)
                continue
            kind, key, mode = op['kind'], op['key'], op['mode']
            matches = matching(s, key)
            ask = lambda: query(real, mode, kind, key)
            missing = 'fieldset_entry' if kind == 'entry' else kind
            if not matches:
                if required[id(s)]:
                    st.interesting()
                    st.label(f'required {kind} in {s.kind}')
                    check_missing(doc, expect_error(ask), missing, key, s)
                elif mode == 'required':
                    check_missing(doc, expect_error(ask), missing, key, s)
                else:
                    r = ask()
                    if r is None or r.optional_string_comment() is not None:
                        fail('no placeholder', repr(r))
                    check_missing(doc, expect_error(r.required_string_comment), missing, key, s)
            elif len(matches) > 1:
                e = expect_error(ask)
                if e.text != keyed('expected_single_' + missing, key):
                    fail('wrong error', e.text)
            elif kind == 'entry':
                r = ask()
                if (r.string_key(), r.optional_string_value()) != (matches[0].key, matches[0].value):
                    fail('wrong entry', r)
            elif matches[0].kind == 'empty' and kind not in ('fieldset', 'element'):
                continue
            elif matches[0].kind not in COMPATIBLE[kind]:
                e = expect_error(ask)
                if e.text != keyed('expected_' + kind, key):
                    fail('wrong error', e.text)
            elif kind != 'element':
                r = ask()
                if r.string_key() != matches[0].key:
                    fail('wrong element', r)
                if kind == 'field' and r.optional_string_value() != matches[0].value:
                    fail('wrong value', r)


class P20(Prop):
    id = 'P20'
    quick = 90000
    rule = ('A case is a valid document with copies and a history of up to fourteen operations: conversions, value/key/comment accesses, queries, touch() of ambiguous or typed elements, accesses that do not look at '
            'anything (raw, representation, error builders) and assertions on any section or fieldset with only, skip and messages. A model holds one touched flag per place in the document. '
            'Non-trivial: an assertion in whose scope some elements are touched and others are not, or all of at least two.')

    def gen(self, src):
        text = rich_doc(src, size=8, multi=0.05, comments=0.1, conts=0.05, copies=src.pick([0, 0.4, 0.7]))
        doc, v = prepare(text)
        views = list(v.walk())
        holders = [x for x in views if x.kind in ('document', 'section', 'fieldset')]

        def one(assertion=False):
            how = 'assert' if assertion else src.weighted((6, 'look'), (3, 'touch'), (2, 'convert'), (2, 'nothing'), (2, 'query'), (2, 'collect'), (1, 'entry'), (2, 'all values'), (4, 'assert'))
            if how == 'assert':
                s = src.pick(holders)
                keys = sorted({c.key for c in s.children}) + ['absent']
                some = lambda: src.many(lambda: src.pick(keys), 1, 3, 0.5) if src.p(0.25) else None
                return dict(op='assert', path=path_of(s), only=some(), skip=some(), message=src.pick([None, None, 'text', 'function']))
            if how == 'query':
                s = src.pick(sections_of(v))
                return dict(op='query', path=path_of(s), kind=src.pick(KINDS), key=any_key(src, s, 0.1), mode=src.pick(MODES))
            if how == 'collect':
                s = src.pick(sections_of(v))
                return dict(op='collect', path=path_of(s), kind=src.pick(self.COLLECTIONS), key=any_key(src, s, 0.4))
            fieldsets = [x for x in views if x.kind == 'fieldset']
            if how == 'entry' and fieldsets:
                s = src.pick(fieldsets)
                return dict(op='entry', path=path_of(s), key=any_key(src, s, 0.3), mode=src.pick(MODES + ['entries']))
            x = src.pick(views)
            if how == 'touch':
                return dict(op='touch', path=path_of(x), typed=src.p(0.5))
            if how == 'nothing':
                return dict(op='nothing', path=path_of(x), what=src.pick(['raw', 'repr', 'error', 'key_error', 'comment_error', 'value_error', 'parent']))
            if how == 'all values':
                # look at everything below one element, possibly except for something
                return dict(op='everything', path=path_of(x), but=src.i(12))
            return dict(op='look' if how == 'entry' else how, path=path_of(x), required=src.p(0.4), what=src.pick(['value', 'key', 'comment', 'comment loader', 'loader', 'key loader', 'number']))
        ops = src.many(one, 1, 13, 0.85)
        return dict(text=text, empties=src.i(4), ops=ops + [one(True)])

    COLLECTIONS = ['elements', 'fields', 'fieldsets', 'lists', 'sections']

    # model
    def mark(self, x):
        self.touched.add(id(x))

    def touch_all(self, x):
        for y in x.walk():
            self.mark(y)

    def get(self, document, case, path, typed=True):
        """The element at a path; everything it is obtained from has been queried."""
        v, real = self.v, document
        for n, i in enumerate(path):
            self.mark(v)
            c = v.children[i]
            if v.kind == 'list':
                real = real.items()[i]
            elif v.kind == 'fieldset':
                real = real.entries()[i]
            else:
                real = real.elements()[i]
                if n == len(path) - 1 and not typed:
                    return real, c
                real = eno.typed(real, empty_kind(case, path[:n + 1]) if c.kind == 'empty' else c.kind)
            v = c
        return real, v

    def run(self, case, st):
        doc, self.v = prepare(case['text'])
        document = eno.parse(case['text'])
        self.touched = set()
        for op in case['ops']:
            name, path = op['op'], op['path']
            if name == 'query':
                real, s = self.get(document, case, path)
                matches = matching(s, op['key'])
                if len(matches) == 1 and matches[0].kind == 'empty' and op['kind'] != 'element':
                    continue
                self.mark(s)
                try:
                    query(real, op['mode'], op['kind'], op['key'])
                except eno.ValidationError:
                    pass
            elif name == 'collect':
                real, s = self.get(document, case, path)
                if op['kind'] != 'elements' and any(m.kind == 'empty' for m in matching(s, op['key'])):
                    continue
                self.mark(s)
                try:
                    getattr(real, op['kind'])(*([] if op['key'] is None else [op['key']]))
                except eno.ValidationError:
                    pass
            elif name == 'entry':
                real, s = self.get(document, case, path)
                self.mark(s)
                try:
                    if op['mode'] == 'entries':
                        real.entries(*([] if op['key'] is None else [op['key']]))
                    else:
                        query(real, op['mode'], 'entry', op['key'])
                except eno.ValidationError:
                    pass
            elif name == 'touch':
                real, x = self.get(document, case, path, op['typed'])
                real.touch()
                self.touch_all(x)
            elif name == 'convert':
                self.get(document, case, path)
            elif name == 'look':
                real, x = self.get(document, case, path)
                self.look(real, x, op['what'], case, path, 'required_' if op['required'] else 'optional_')
            elif name == 'everything':
                top = at(self.v, path)
                for k, x in enumerate(list(top.walk())):
                    if k % 12 == op['but'] and k:
                        continue
                    real, _ = self.get(document, case, path_of(x))
                    self.look(real, x, ['key', 'comment', 'value'][k % 3], case, path_of(x))
            elif name == 'nothing':
                real, x = self.get(document, case, path)
                what = op['what']
                if what == 'raw':
                    real.raw()
                elif what == 'repr':
                    repr(real)
                elif what == 'parent':
                    real.parent()
                elif what != 'value_error' or hasattr(real, 'value_error'):
                    getattr(real, what)('message')
            else:
                self.check(doc, document, case, op, st)

    def look(self, real, x, what, case, path, mode='optional_'):
        if x.kind == 'document' and 'key' in what:
            return
        self.mark(x)
        if mode == 'required_' and what in ('value', 'loader') and x.kind == 'list':
            # the first item without a value ends it
            for c in x.children:
                self.mark(c)
                if c.value is None:
                    break
        try:
            self.access(real, x, what, mode)
        except eno.ValidationError:
            if mode == 'optional_':
                raise

    def access(self, real, x, what, mode):
        if what == 'number' and hasattr(real, 'length'):
            if real.length() != len(x.children):
                fail('wrong length', real.length(), x.canon())
        elif what == 'number' and (hasattr(real, 'entries') or hasattr(real, 'elements')):
            real.entries() if hasattr(real, 'entries') else real.elements()
        elif what in ('value', 'loader') and hasattr(real, 'optional_string_value'):
            getattr(real, mode + 'string_value')() if what == 'value' else getattr(real, mode + 'value')(lambda x: x)
        elif what in ('value', 'loader') and hasattr(real, 'optional_string_values'):
            getattr(real, mode + 'string_values')() if what == 'value' else getattr(real, mode + 'values')(lambda x: x)
            if mode == 'optional_':
                for c in x.children:
                    self.mark(c)
        elif what == 'comment':
            getattr(real, mode + 'string_comment')()
        elif what == 'comment loader':
            getattr(real, mode + 'comment')(lambda x: x)
        elif what == 'key':
            real.string_key()
        elif x.kind == 'document':
            real.elements()
        else:
            real.key(lambda x: x)

    def check(self, doc, document, case, op, st):
        real, s = self.get(document, case, op['path'])
        options = {}
        if op['only']:
            options['only'] = op['only']
        if op['skip']:
            options['skip'] = op['skip']
        calls = []

        def message(x):
            calls.append(eno.norm_raw(x.raw()))
            return 'from the function'
        m = op['message']
        args = [] if m is None else ['a message' if m == 'text' else message]
        scope = [x for c in s.children if not (op['skip'] and c.key in op['skip']) and not (op['only'] and c.key not in op['only']) for x in c.walk()]
        untouched = [x for x in scope if id(x) not in self.touched]
        st.label('assertion ' + ('fails' if untouched else 'holds'), 'with filter' if options else 'without filter')
        if (untouched and len(untouched) < len(scope)) or (not untouched and len(scope) > 1):
            st.interesting()
        if not untouched:
            real.assert_all_touched(*args, **options)
            return
        e = expect_error(lambda: real.assert_all_touched(*args, **options))
        want = {None: 'unexpected_element', 'text': 'a message', 'function': 'from the function'}[m]
        if e.text != want:
            fail('wrong text', e.text, want)
        eno.check_error_shape(doc.text, e)
        found = [x for x in untouched if eno.element_span(doc, x.node) == span(e)]
        if not found:
            fail('selected element is touched or out of scope', e.snippet, op, doc.text)
        eno.check_element_error(doc, e, found[0].node)
        if m == 'function':
            if len(calls) != 1:
                fail('message function called several times', calls)
            if calls[0] not in [x.canon() for x in found]:
                fail('message function called with another element', calls[0], [x.canon() for x in found])


class P21(Prop):
    id = 'P21'
    quick = 120000
    rule = ('A case is a valid document, an ambiguous element of it (from elements(), element() or lookup, incl. items and entries) and up to eight claims and conversions. Non-trivial: at least two conversions.')
    SECTION_KINDS = ['empty', 'field', 'fieldset', 'list', 'section']

    def gen(self, src):
        text = rich_doc(src, size=6, multi=0.1, comments=0.1)
        doc, v = prepare(text)
        how = src.pick(['elements', 'element', 'lookup line', 'lookup index'])
        views = [x for x in v.walk() if x.kind != 'document']
        if not views:
            raise Discard()
        emptyish = [x for x in views if x.kind == 'empty']
        if how.startswith('lookup'):
            x = src.pick(views)
        else:
            pool = [x for x in (emptyish if emptyish and src.p(0.5) else views) if x.kind not in ('item', 'entry')]
            x = src.pick(pool)
        kinds = self.SECTION_KINDS + (['list_item', 'fieldset_entry'] if how.startswith('lookup') else [])
        ops = src.many(lambda: [src.pick(['to', 'to', 'yields']), src.pick(kinds)], 1, 8, 0.8)
        return dict(text=text, path=path_of(x), how=how, ops=ops)

    def run(self, case, st):
        text = case['text']
        doc, v = prepare(text)
        x = at(v, case['path'])
        how = case['how']
        if how.startswith('lookup'):
            n = x.node
            x = written_views(v)[n]
            place = dict(line=n.line, column=0) if how == 'lookup line' else dict(index=doc.lines[n.line].end)
            real = eno.enolib.lookup(text, locale=eno.PROBE, **place)['element']
        else:
            document = eno.parse(text)
            section = reach(document, case['path'][:-1])
            siblings = [y for y in x.parent.children if y.key == x.key]
            if how == 'element' and len(siblings) == 1:
                real = section.element(x.key)
            else:
                real = section.elements()[case['path'][-1]]
        kind = {'item': 'list_item', 'entry': 'fieldset_entry'}.get(x.kind, x.kind)
        st.label('kind ' + kind, how)
        yielded = {}
        tries = 0
        for op, k in case['ops']:
            claim = getattr(real, 'yields_' + k)()
            compatible = kind in COMPATIBLE.get(k, (k,))
            if claim is not compatible and bool(claim) != compatible:
                fail('wrong claim', f'yields_{k} of a {kind}: {claim}')
            if op == 'yields':
                continue
            tries += 1
            convert = getattr(real, 'to_' + k)
            if k in yielded:
                if convert() is not yielded[k]:
                    fail('another object on repeated conversion', k)
                st.label('repeated')
            elif not compatible and not yielded:
                e = expect_error(convert)
                if e.text != 'expected_' + k:
                    fail('wrong error', e.text, 'expected_' + k)
                eno.check_element_error(doc, e, x.node)
                st.label('refused')
            elif yielded:
                try:
                    r = convert()
                except TypeError as e:
                    st.label('second kind')
                    if isinstance(e, eno.ValidationError):
                        raise
                    words = str(e).replace('_', ' ')
                    if JAVASCRIPT:
                        words = re.sub('[A-Z]', lambda m: ' ' + m[0].lower(), words)
                    for name in (next(iter(yielded)), k):
                        if not re.search(rf"\b{name.replace('_', ' ')}\b", words):
                            fail('type error does not name the kinds', str(e), next(iter(yielded)), k)
                except eno.ValidationError as e:
                    if compatible or e.text != 'expected_' + k:
                        fail('wrong error for a second kind', str(e))
                else:
                    fail('second conversion to a different kind succeeds', k, yielded)
            else:
                r = yielded[k] = convert()
            for name, r in yielded.items():
                content(r, x, {'list_item': 'item', 'fieldset_entry': 'entry'}.get(name, name))
        if tries > 1:
            st.interesting()


def only_plain(raw):
    if type(raw) is dict:
        for k, x in raw.items():
            if type(k) is not str:
                fail('raw form is not plain', repr(k))
            only_plain(x)
    elif type(raw) is list:
        for x in raw:
            only_plain(x)
    elif type(raw) is not str and raw is not None:
        fail('raw form is not plain', repr(raw))


class P27(Prop):
    id = 'P27'
    quick = 60000
    rule = ('A case is a valid document with copies and deep merges; raw() of the document and of every section, element, item and entry is compared with the model and with a walk through the accessors, before, between '
            'and after other accesses. Non-trivial: a document with copies.')

    def gen(self, src):
        return dict(text=rich_doc(src, size=12, copies=src.pick([0.3, 0.6, 0.9]), unique=0.6, sections=6), first=src.pick(['raw', 'walk', 'inner']), empties=src.pick(['empty', 'field', 'list', 'fieldset']))

    def run(self, case, st):
        doc, v = prepare(case['text'])
        want = v.canon()
        document = eno.parse(case['text'])

        def whole():
            r = document.raw()
            only_plain(r)
            if eno.norm_raw(r) != want:
                fail('raw form differs', f'raw:      {r}', f'expected: {want}', doc.text)

        def walk():
            got = eno.observe_section(document, True)
            if got != want:
                fail('accessors differ', f'read:     {got}', f'expected: {want}', doc.text)

        if case['first'] == 'raw':
            whole()
            whole()
            walk()
        elif case['first'] == 'walk':
            walk()
            whole()
        document = eno.parse(case['text'])
        for s in sections_of(v):
            for e, c in zip(reach(document, path_of(s)).elements(), s.children):
                if eno.norm_raw(e.raw()) != c.canon():
                    fail('raw form of an ambiguous element differs', e.raw(), c.canon())
        pairs = pairs_of(document, v, case['empties'])
        for _ in (1, 2):
            for real, x, kind in pairs:
                r = real.raw()
                only_plain(r)
                if eno.norm_raw(r) != x.canon():
                    fail('raw form of an element differs', f'raw:      {r}', f'expected: {x.canon()}', doc.text)
        whole()
        if doc.target:
            st.interesting()
        st.label('copies' if doc.target else 'no copies', 'merges' if doc.merged else 'no merges', 'first ' + case['first'])


def disturbed(src, text):
    """A document much like another one: same lines and keys, other values, dashes, comments or kinds here and there."""
    out = []
    for line in text.split('\n'):
        bare = line.strip()
        if bare.startswith('--'):
            line = line.replace('--', '---', 1)
        elif bare.startswith('> ') and src.p(0.5):
            line += ' changed'
        elif bare.startswith(('-', '|', '\\')) and src.p(0.5):
            line += 'x'
        elif (':' in line or '=' in line) and src.p(0.5):
            line += 'x' if src.p(0.7) else ''
        elif not bare and src.p(0.2):
            line = '> comment'
        out.append(line)
    return '\n'.join(out)


class P28(Prop):
    id = 'P28'
    quick = 36000
    rule = ('A case is a document and a history of up to ten operations on it (queries of all kinds, values, keys, comments, loaders, raw, representations, error builders, conversions, failing ones included), mixed with '
            'operations on a second parse of the same text and on another (often nearly equal) document under another locale and reporter. Every answer is compared with the answer of a freshly parsed document asked nothing else, '
            'and asked twice; in every eighth case also with the answer of a newly imported copy of the library that has seen no other document. Non-trivial: at least four operations with two different answers.')

    def gen(self, src):
        text = rich_doc(src, size=9)
        other = rich_doc(src, size=5) if src.p(0.4) else disturbed(src, text)
        doc, v = prepare(text)
        return dict(text=text, other=other, ops=self.operations(src, v), reporter=src.pick(['text', 'html', 'terminal']), locale=src.pick(['probe', 'en', 'de', 'es']),
                    other_locale=src.pick(['en', 'de', 'es']), other_reporter=src.pick(['text', 'html', 'terminal']), pristine=src.p(0.12), source=src.p(0.3))

    def operations(self, src, v, hi=10):
        views = list(v.walk())

        def one():
            how = src.weighted((4, 'query'), (4, 'read'), (2, 'raw'), (1, 'repr'), (2, 'error'), (1, 'collection'), (1, 'entries'))
            op = dict(op=how, on=src.weighted((6, 'same'), (1, 'twin'), (1, 'other')))
            if how in ('query', 'collection'):
                s = src.pick(sections_of(v))
                op.update(path=path_of(s), key=any_key(src, s), mode=src.pick(MODES), kind=src.pick(KINDS) if how == 'query' else src.pick(['elements', 'fields', 'fieldsets', 'lists', 'sections']))
            elif how == 'entries':
                sets = [x for x in views if x.kind == 'fieldset']
                if not sets:
                    return dict(op='raw', on='same', path=[], what=0)
                s = src.pick(sets)
                op.update(path=path_of(s), key=any_key(src, s), what=src.pick(['entry', 'optional_entry', 'required_entry', 'entries']))
            else:
                x = src.pick(views)
                op.update(path=path_of(x), what=src.i(12))
            return op
        return src.many(one, min(2, hi), hi, 0.88)

    def show(self, r):
        """A comparable form of an answer, by content."""
        if r is None or isinstance(r, (str, int, tuple, dict)):
            return r
        if isinstance(r, list):
            return [self.show(x) for x in r]
        if type(r).__name__ in ('ValidationError', 'ParseError'):
            return ('error', r.text, r.snippet, repr(r.selection))
        return (type(r).__name__, repr(r), r.raw())

    def execute(self, document, op, v):
        def go():
            x = v
            real = document
            for i in op['path']:
                c = x.children[i]
                if x.kind == 'list':
                    real = real.items()[i]
                elif x.kind == 'fieldset':
                    real = real.entries()[i]
                else:
                    real = real.elements()[i]
                    if c.kind != 'empty':
                        real = eno.typed(real, c.kind)
                x = c
            how = op['op']
            if how == 'query':
                return query(real, op['mode'], op['kind'], op['key'])
            if how == 'collection':
                fn = getattr(real, op['kind'])
                return fn() if op['key'] is None else fn(op['key'])
            if how == 'entries':
                fn = getattr(real, op['what'])
                return fn() if op['key'] is None else fn(op['key'])
            if how == 'raw':
                return real.raw()
            if how == 'repr':
                return repr(real)
            if how == 'error':
                name = ['error', 'key_error', 'comment_error', 'value_error'][op['what'] % 4]
                if name == 'value_error' and not hasattr(real, name):
                    name = 'error'
                return getattr(real, name)('message' if op['what'] < 8 else lambda y: f'message {y if isinstance(y, str) else ""}')
            names = ['optional_string_comment', 'required_string_comment', 'string_key', 'optional_string_value', 'required_string_value', 'optional_string_values', 'required_string_values',
                     'yields_field', 'length']
            names = [n for n in names if hasattr(real, n)]
            name = names[op['what'] % len(names)]
            if op['what'] >= 9 and 'string' in name:
                def loader(y):
                    if op['what'] == 11:
                        raise ValueError('no')
                    return ('loaded', y)
                if x.kind == 'document' and 'key' in name:
                    return None
                fn = real.key if name == 'string_key' else getattr(real, name.replace('_string', ''))
                return fn(loader)
            return getattr(real, name)()
        try:
            return ('answer', self.show(go()))
        except TypeError:
            return ('TypeError',)
        except Exception as e:
            if type(e).__name__ not in ('ValidationError', 'ParseError'):
                raise
            return (type(e).__name__, e.text, e.snippet, repr(e.selection))

    def run(self, case, st):
        doc, v = prepare(case['text'])
        other = None
        other_options = dict(locale=eno.LOCALES[case['other_locale']], reporter=eno.REPORTERS[case['other_reporter']], source='other.eno')
        try:
            other = eno.enolib.parse(case['other'], **other_options)
        except eno.ParseError:
            st.label('other document rejected')
        options = dict(reporter=eno.REPORTERS[case['reporter']], locale=eno.LOCALES.get(case['locale'], eno.PROBE), **({'source': 'this.eno'} if case['source'] else {}))
        if other:
            for op in case['ops']:
                try:
                    self.execute(other, op, v)
                except (IndexError, AttributeError):
                    pass
        shared = eno.parse(case['text'], **options)
        twin = eno.parse(case['text'], **options)
        answers = set()
        if case['pristine']:
            st.label('compared with an untouched copy of the library')
            module, reporters, messages = eno.pristine()
            fresh_options = dict(reporter=reporters[case['reporter']], locale=messages.get(case['locale'], eno.PROBE), **({'source': 'this.eno'} if case['source'] else {}))
            for op in case['ops']:
                want = self.execute(module.parse(case['text'], **fresh_options), op, v)
                got = self.execute(eno.parse(case['text'], **options), op, v)
                if got != want:
                    fail('answer depends on other documents', f'answer: {got}', f'in a process without other documents:  {want}', op, doc.text)
        for op in case['ops']:
            if op['on'] == 'other':
                if other:
                    other.raw()
                    eno.observe_section(eno.enolib.parse(case['other'], **other_options), True)
                    try:
                        query(other, 'required', op.get('kind') if op.get('kind') in KINDS else 'field', op.get('key'))
                    except (eno.ValidationError, TypeError):
                        pass
                continue
            got = self.execute(shared if op['on'] == 'same' else twin, op, v)
            want = self.execute(eno.parse(case['text'], **options), op, v)
            again = self.execute(shared if op['on'] == 'same' else twin, op, v)
            answers.add(repr(want))
            st.label(op['op'], want[0])
            for g in (got, again):
                if g != want and not (g == ('TypeError',) and self.on_empty(v, op)):
                    fail('answer depends on the history', f'answer: {g}', f'fresh:  {want}', op, doc.text)
        if len(case['ops']) >= 4 and len(answers) > 1:
            st.interesting()

    def on_empty(self, v, op):
        """Empty elements can be yielded as one kind only."""
        if op['op'] == 'query':
            return any(c.kind == 'empty' for c in matching(at(v, op['path']), op['key']))
        if op['op'] == 'collection':
            return any(c.kind == 'empty' for c in matching(at(v, op['path']), op['key']))
        return False


class P30(Prop):
    id = 'P30'
    quick = 60000
    rule = ('A case is a valid document with copies; the parent of every element, item and entry (in every way of obtaining it) and the chain of parents of every line looked up are compared with the model. '
            'Non-trivial: an element inside of a section, list or fieldset.')

    def gen(self, src):
        return dict(text=rich_doc(src, size=9, comments=0.1, copies=src.pick([0, 0.5, 0.8])), empties=src.pick(['empty', 'field', 'list', 'fieldset']), by=src.pick(['line', 'index']), lines=[src.i(40) for _ in range(4)])

    def run(self, case, st):
        text = case['text']
        doc, v = prepare(text)
        document = eno.parse(text)
        pairs = pairs_of(document, v, case['empties'])
        real_of = {id(x): real for real, x, _ in pairs}
        for real, x, kind in pairs:
            p = real.parent()
            if kind == 'document':
                if p is not None:
                    fail('parent of the document', repr(p))
                continue
            if x.parent.kind != 'document':
                st.interesting()
            if p is not real_of[id(x.parent)]:
                fail('parent is another object', f'{real!r} has parent {p!r}', f'obtained from {real_of[id(x.parent)]!r}', text)
            if real.parent() is not p:
                fail('parent changes', repr(real))
        # other ways of obtaining elements
        for s in sections_of(v):
            real = real_of[id(s)]
            for c in s.children:
                if sum(1 for y in s.children if y.key == c.key) == 1:
                    kind = case['empties'] if c.kind == 'empty' else c.kind
                    for mode in MODES:
                        if query(real, mode, kind, c.key).parent() is not real:
                            fail('parent of a queried element', c.key)
            kinds = {case['empties'] if c.kind == 'empty' else c.kind for c in s.children}
            if len(kinds) == 1 and kinds <= {'field', 'fieldset', 'list', 'section'}:
                for e in getattr(real, kinds.pop() + 's')():
                    if e.parent() is not real:
                        fail('parent of an element of a collection', repr(e))
        for t in [x for x in v.walk() if x.kind == 'fieldset']:
            real = real_of[id(t)]
            for c in t.children:
                if sum(1 for y in t.children if y.key == c.key) == 1 and real.required_entry(c.key).parent() is not real:
                    fail('parent of a queried entry', c.key)
        # lookup
        views = written_views(v)
        for n in case['lines']:
            n %= len(doc.lines)
            node = doc.lines[n].owner
            if node is None:
                continue
            place = dict(line=n, column=0) if case['by'] == 'line' else dict(index=doc.lines[n].end)
            real = eno.enolib.lookup(text, locale=eno.PROBE, **place)['element']
            x = views[node]
            kind = case['empties'] if x.kind == 'empty' else x.kind
            real = getattr(real, 'to_' + {'item': 'list_item', 'entry': 'fieldset_entry'}.get(kind, kind))()
            st.label('lookup ' + x.kind)
            while True:
                if eno.norm_raw(real.raw()) != x.canon():
                    fail('element or parent differs', f'{real.raw()}', f'expected {x.canon()}', text)
                real = real.parent()
                x = x.parent
                if x is None:
                    if real is not None:
                        fail('parent of the document', repr(real))
                    break
                if real is None:
                    fail('no parent', text)

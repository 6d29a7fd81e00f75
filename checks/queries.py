"""P12, P13, P14, P18: queries of sections, fieldsets and lists, present and absent."""
from common import *

CALLS = dict(plain='{}', optional='optional_{}', required='required_{}')
MODES = ['plain', 'optional', 'required']


def query(real, mode, kind, key):
    fn = getattr(real, CALLS[mode].format(kind))
    return fn() if key is None else fn(key)


def any_key(src, v, none=0.2):
    present = [c.key for c in v.children]
    if src.p(none):
        return None
    return gen.key_pool_with(src, present)


def matching(v, key):
    return [c for c in v.children if key is None or c.key == key]


def check_several(doc, e, matches):
    """Error about several elements: selects one of them, emphasises them all."""
    eno.check_error_shape(doc.text, e)
    spans = [eno.element_span(doc, m.node) for m in matches]
    if span(e) not in spans:
        fail('wrong selection', f'{span(e)} is none of the candidates {spans}', doc.text)
    marks = eno.check_snippet(doc.text, eno.read_text_snippet(e.snippet))
    heads = {m.node.line for m in matches}
    lines = set()
    for m in matches:
        lines |= set(range(m.node.line, m.node.last_line() + 1))
    got = {n for n, m in marks.items() if m != ' '}
    emphasised = {n for n, m in marks.items() if m == '>'}
    nested = sum(m.node.last_line() - m.node.line + 1 for m in matches) != len(lines)
    if got != lines or not emphasised <= heads or not emphasised or (not nested and emphasised != heads):
        fail('candidates are not marked', e.snippet, f'elements at lines {sorted(h + 1 for h in heads)}')


class P12(Prop):
    id = 'P12'
    quick = 40000
    rule = ('A case is a valid document with copies and up to four single element queries (plain, optional, required; six kinds; present, absent, similar, empty and no key) on random sections, '
            'each on a fresh parse. Non-trivial: a query on a section that has elements.')

    def gen(self, src):
        text = rich_doc(src, size=10)
        doc, v = prepare(text)
        secs = sections_of(v)

        def one():
            s = src.pick(secs)
            return dict(path=path_of(s), mode=src.pick(MODES), kind=src.pick(KINDS), key=any_key(src, s))
        return dict(text=text, queries=src.many(one, 1, 4, 0.6))

    def run(self, case, st):
        doc, v = prepare(case['text'])
        for q in case['queries']:
            s = v
            for i in q['path']:
                s = s.children[i]
            if s.children:
                st.interesting()
            document = eno.parse(case['text'])
            self.check(doc, s, reach(document, q['path']), q, st)
            self.check(doc, s, reach(eno.parse(case['text']), q['path']), q, st)

    def check(self, doc, s, real, q, st):
        kind, key, mode = q['kind'], q['key'], q['mode']
        matches = matching(s, key)
        how = 'none' if not matches else 'several' if len(matches) > 1 else 'one' if matches[0].kind in COMPATIBLE[kind] else 'incompatible'
        st.label(how, f'{mode} {kind}', 'keyless' if key is None else 'keyed')
        ask = lambda: query(real, mode, kind, key)
        if how == 'none':
            if mode == 'required':
                check_missing(doc, expect_error(ask), kind, key, s)
            elif mode == 'optional':
                r = ask()
                if r is not None:
                    fail('optional query of an absent element', repr(r))
            else:
                r = ask()
                if r is None or r.optional_string_comment() is not None:
                    fail('no placeholder', repr(r))
                check_missing(doc, expect_error(r.required_string_comment), kind, key, s)
        elif how == 'several':
            e = expect_error(ask)
            if e.text != keyed('expected_single_' + kind, key):
                fail('wrong error for several elements', e.text, keyed('expected_single_' + kind, key))
            check_several(doc, e, matches)
        elif how == 'incompatible':
            e = expect_error(ask)
            if e.text != keyed('expected_' + kind, key):
                fail('wrong error for an incompatible element', e.text, keyed('expected_' + kind, key))
            eno.check_element_error(doc, e, matches[0].node)
        else:
            r = ask()
            if r is None:
                fail('present element not returned', q)
            if kind == 'element':
                got = eno.observe(r)
                if got != matches[0].canon():
                    fail('content differs', f'read:     {got}', f'expected: {matches[0].canon()}')
            else:
                content(r, matches[0], kind)


class P13(Prop):
    id = 'P13'
    quick = 80000
    rule = ('A case is a valid document with copies and up to four collection queries (elements, fields, fieldsets, lists, sections; with present, absent, similar or no key) on random sections, '
            'each on a fresh parse. Non-trivial: a query that matches at least two elements.')
    KINDS = ['elements', 'fields', 'fieldsets', 'lists', 'sections']

    def gen(self, src):
        # homogeneous sections make collections of one kind succeed
        o = gen.Opts(size=10, copies=0.4 if src.p(0.7) else 0, unique=0.3, keys=gen.small_keys, sections=src.pick([1, 3, 6]))
        spec = gen.tree(src, o)
        if src.p(0.5):
            bias = src.pick(['field', 'list', 'fieldset'])
            spec['els'] = self.bias(src, spec['els'], bias, o)
        text = gen.render(src, spec, free=src.p(0.4), noise=0.05)
        doc, v = prepare(text)
        secs = sections_of(v)

        def one():
            s = src.pick(secs)
            kinds = {c.kind for c in s.children}
            kind = src.pick(self.KINDS)
            if src.p(0.5) and kinds:
                kind = {'empty': 'fields'}.get(s.children[0].kind, s.children[0].kind + 's')
            return dict(path=path_of(s), kind=kind, key=any_key(src, s, 0.45))
        return dict(text=text, queries=src.many(one, 1, 4, 0.6))

    def bias(self, src, els, t, o):
        """Drops most elements of other kinds."""
        out = []
        for e in els:
            if e['t'] == 'section':
                e['els'] = self.bias(src, e['els'], t, o)
            elif e['t'] not in (t, 'empty') and not e.get('u') and src.p(0.85):
                continue
            out.append(e)
        return out

    def run(self, case, st):
        doc, v = prepare(case['text'])
        for q in case['queries']:
            s = v
            for i in q['path']:
                s = s.children[i]
            document = eno.parse(case['text'])
            real = reach(document, q['path'])
            kind, key = q['kind'], q['key']
            matches = matching(s, key)
            single = kind[:-1]
            wrong = [m for m in matches if m.kind not in COMPATIBLE[single]]
            st.label(kind, 'incompatible' if wrong else f'matches {min(len(matches), 3)}')
            if len(matches) > 1:
                st.interesting()
            fn = getattr(real, kind)
            ask = (lambda: fn()) if key is None else (lambda: fn(key))
            if wrong:
                e = expect_error(ask)
                if e.text != keyed('expected_' + kind, key):
                    fail('wrong error for an incompatible element', e.text, keyed('expected_' + kind, key))
                node = next((m.node for m in wrong if eno.element_span(doc, m.node) == span(e)), None)
                if node is None:
                    fail('wrong selection', f'{span(e)} is no incompatible element', e.snippet, doc.text)
                eno.check_element_error(doc, e, node)
                continue
            got = ask()
            if len(got) != len(matches):
                fail('wrong number of elements', f'{len(got)} instead of {len(matches)}', q, doc.text)
            if len({id(g) for g in got}) != len(got):
                fail('an element is returned twice', q)
            for g, m in zip(got, matches):
                if single == 'element':
                    x = eno.observe(g)
                    if x != m.canon():
                        fail('content differs', f'read:     {x}', f'expected: {m.canon()}', q, doc.text)
                else:
                    content(g, m, single)


class P14(Prop):
    id = 'P14'
    quick = 80000
    rule = ('A case is a valid document with copies of fieldsets and lists, and queries on its fieldsets, lists and empty elements (entries, plain/optional/required entry with present, absent or no key; '
            'items, length, values). Non-trivial: some queried fieldset or list has at least two entries or items.')

    def gen(self, src):
        text = rich_doc(src, size=12, multi=0.02, comments=0.1, copies=src.pick([0, 0.5, 0.8]), keys=gen.small_keys)
        doc, v = prepare(text)
        targets = [x for x in v.walk() if x.kind in ('fieldset', 'list', 'empty')]
        if not targets:
            raise Discard()

        def one():
            t = src.pick(targets)
            q = dict(path=path_of(t))
            if t.kind == 'list' or (t.kind == 'empty' and src.p(0.5)):
                q['ask'] = src.pick(['items', 'length', 'optional_string_values', 'optional_values', 'required_string_values', 'required_values'])
            else:
                q['ask'] = src.pick(['entries', 'entry', 'optional_entry', 'required_entry'])
                q['key'] = any_key(src, t, 0.25)
            return q
        return dict(text=text, queries=src.many(one, 1, 4, 0.6))

    def run(self, case, st):
        doc, v = prepare(case['text'])
        for q in case['queries']:
            t = v
            for i in q['path']:
                t = t.children[i]
            st.label(f'{t.kind} {q["ask"]}')
            if len(t.children) >= 2:
                st.interesting()
            element = reach(eno.parse(case['text']), q['path'][:-1]).elements()[q['path'][-1]]
            if q['ask'] in ('items', 'length') or q['ask'].endswith('values'):
                self.check_list(doc, t, element.to_list(), q['ask'])
            else:
                self.check_fieldset(doc, t, element.to_fieldset(), q['ask'], q['key'], st)

    def check_list(self, doc, t, real, ask):
        values = [c.value for c in t.children]
        if ask == 'items':
            content(real, t, 'list')
            if real.length() != len(values):
                fail('wrong length', real.length(), values)
        elif ask == 'length':
            if real.length() != len(values):
                fail('wrong length', real.length(), values)
        elif ask.startswith('optional'):
            got = real.optional_string_values() if 'string' in ask else real.optional_values(lambda x: x)
            if got != values:
                fail('wrong values', got, values)
        else:
            get = real.required_string_values if 'string' in ask else lambda: real.required_values(lambda x: x)
            if None in values:
                e = expect_error(get)
                if not e.text.startswith('missing_list_item_value'):
                    fail('wrong error', e.text)
            elif get() != values:
                fail('wrong values', get(), values)

    def check_fieldset(self, doc, t, real, ask, key, st):
        matches = matching(t, key)

        def same(x, m):
            got = (x.string_key(), x.optional_string_value(), x.optional_string_comment())
            if got != (m.key, m.value, m.comment):
                fail('entry differs', got, (m.key, m.value, m.comment))
        if ask == 'entries':
            got = real.entries() if key is None else real.entries(key)
            if len(got) != len(matches) or len({id(g) for g in got}) != len(got):
                fail('wrong number of entries', got, [m.key for m in matches])
            for g, m in zip(got, matches):
                same(g, m)
            return
        fn = getattr(real, ask)
        get = lambda: fn() if key is None else fn(key)
        st.label(f'matches {min(len(matches), 2)}')
        if len(matches) > 1:
            e = expect_error(get)
            if e.text != keyed('expected_single_fieldset_entry', key):
                fail('wrong error for several entries', e.text)
            check_several(doc, e, matches)
        elif matches:
            same(get(), matches[0])
        elif ask == 'required_entry':
            check_missing(doc, expect_error(get), 'fieldset_entry', key, t)
        elif ask == 'optional_entry':
            if get() is not None:
                fail('optional query of an absent entry', get())
        else:
            r = get()
            if r is None or r.optional_string_value() is not None or r.optional_string_comment() is not None:
                fail('no placeholder', repr(r))
            check_missing(doc, expect_error(r.required_string_value), 'fieldset_entry', key, t)


NONE_ANSWERS = dict(
    common=['optional_string_comment', 'optional_comment'],
    value=['optional_string_value', 'optional_value'],
    section=['optional_' + k for k in KINDS],
    fieldset=['optional_entry'])
EMPTY_ANSWERS = dict(section=['elements', 'fields', 'fieldsets', 'lists', 'sections'], fieldset=['entries'],
                     list=['items', 'optional_string_values', 'optional_values'])
REQUIRED = dict(common=['required_string_comment', 'required_comment', 'string_key', 'key'],
                value=['required_string_value', 'required_value'], section=['required_' + k for k in KINDS], fieldset=['required_entry'])
NESTED = dict(section=KINDS, fieldset=['entry'], element=['to_empty', 'to_field', 'to_fieldset', 'to_list', 'to_section'])


def groups(kind):
    out = ['common']
    if kind in ('field', 'fieldset_entry'):
        out.append('value')
    if kind in ('section', 'fieldset', 'list', 'element'):
        out.append(kind)
    return out


def options(table, kind):
    return [x for g in groups(kind) for x in table.get(g, [])]


def never(_):
    fail('a loader is called for an absent element')


def call(x, name, key):
    """Calls a query of a placeholder with a key (or None for none) or loader where it takes one."""
    fn = getattr(x, name)
    if name.startswith('to_') or name == 'items' or 'string' in name:
        return fn()
    if name == 'key' or name.endswith(('_comment', '_value', '_values')):
        return fn(never)
    return fn() if key is None else fn(key)


class P18(Prop):
    id = 'P18'
    quick = 80000
    rule = ('A case is a valid document, a plain query of an absent element (or fieldset entry) and a chain of up to eight further plain queries and conversions on the placeholder, with optional, '
            'collection and required queries asked on the way. Non-trivial: a chain of at least two steps.')

    def gen(self, src):
        text = rich_doc(src, size=6, multi=0.02, comments=0.1)
        doc, v = prepare(text)
        fieldsets = [x for x in v.walk() if x.kind == 'fieldset' or x.kind == 'empty']
        key = lambda: src.pick(['a', 'b', 'absent', 'ä', '`', 'a:b', '', None])
        if fieldsets and src.p(0.3):
            t = src.pick(fieldsets)
            first = 'fieldset_entry'
        else:
            t = src.pick(sections_of(v))
            first = src.weighted((6, 'section'), (4, 'element'), (3, 'fieldset'), (1, 'field'), (1, 'list'), (1, 'empty'))
        k = src.pick(['absent', 'absent:', 'ABSENT `', ''] + ([None] if not t.children else []))
        steps = []
        kind = first
        while len(steps) < 8 and src.p(0.8):
            how = src.weighted((6, 'nested'), (2, 'none'), (2, 'empty'), (1, 'required'))
            table = dict(nested=NESTED, none=NONE_ANSWERS, empty=EMPTY_ANSWERS, required=REQUIRED)[how]
            names = options(table, kind)
            if not names:
                continue
            name = src.pick(names)
            if how == 'nested' and src.p(0.6):
                name = src.pick([n for n in names if 'section' in n or n == 'element'] or names)
            steps.append([how, name, key()])
            if how == 'nested':
                kind = 'fieldset_entry' if name == 'entry' else name.replace('to_', '')
        return dict(text=text, path=path_of(t), first=first, key=k, steps=steps, last=src.pick(options(REQUIRED, kind)), last_key=key())

    def run(self, case, st):
        text = case['text']
        doc, v = prepare(text)
        t = v
        for i in case['path']:
            t = t.children[i]
        document = eno.parse(text)
        first, k = case['first'], case['key']
        if first == 'fieldset_entry':
            real = reach(document, case['path'][:-1]).elements()[case['path'][-1]].to_fieldset()
            x = real.entry() if k is None else real.entry(k)
        else:
            x = query(reach(document, case['path']), 'plain', first, k)
        kinds = [first]
        trail = []

        def check_required(x, name, key):
            e = expect_error(lambda: call(x, name, key))
            allowed = [keyed('missing_' + kind, k) for kind in kinds]
            if e.text not in allowed:
                fail('wrong error through an absent element', e.text, f'expected {allowed[0]}', trail)
            check_missing(doc, e, next(kind for kind in kinds if keyed('missing_' + kind, k) == e.text), k, t)

        n = 0
        for how, name, key in case['steps']:
            trail.append((how, name, key))
            if how == 'nested':
                n += 1
                if kinds == ['element'] and name.startswith('to_'):
                    kinds = [name[3:]]
                x = call(x, name, key)
                if x is None:
                    fail('no placeholder', trail)
            elif how == 'none':
                r = call(x, name, key)
                if r is not None:
                    fail('optional query of an absent element', trail, repr(r))
            elif how == 'empty':
                r = call(x, name, key)
                if list(r) != []:
                    fail('collection of an absent element is not empty', trail, repr(r))
            else:
                check_required(x, name, key)
        trail.append(case['last'])
        check_required(x, case['last'], case['last_key'])
        st.label(f'chain {min(n, 4)}', f'first {first}')
        if n >= 2:
            st.interesting()

"""P01 - P11: parsing, layout, values, comments and copies."""
from common import *
import engine


class P01(Prop):
    id = 'P01'
    quick = 320000
    rule = ('A case is a text (valid document with copies, mutated document, line soup, copy graph, random characters or random unicode incl. '
            'surrogates), a reporter, a locale and a source label. Non-trivial: the text has at least two lines and is rejected or contains an element.')
    assumptions = ['nesting and copy chains stay far below the recursion limit of the interpreter, except in the recorded finding']

    def gen(self, src):
        return dict(text=gen.any_text(src), reporter=src.pick(['text', 'html', 'terminal']), locale=src.pick(['en', 'de', 'es']),
                    source=src.pick([None, 'file.eno', '<b>&"', 'ä ö']))

    def fixed(self):
        return [dict(text='# u << m\n## s\nx: 1\n## m\n### s < s', reporter='text', locale='en', source=None)] + \
            [dict(deep=d, text='', reporter='text', locale='en', source=None) for d in ('sections', 'section copies', 'element copies')] + \
            [dict(many=d, text='', reporter='text', locale='en', source=None) for d in ('comments', 'last comments', 'elements', 'entries', 'items')]

    def run(self, case, st):
        text = case['text']
        known = None
        if 'deep' in case:
            text = self.deep_text(case['deep'], (4000 if case['deep'] == 'sections' else 30000) if eno.JAVASCRIPT else 1500)
            known = next((k for k in engine.load_known() if k['property'] == ('P34' if eno.JAVASCRIPT else 'P01') and case['deep'] in k['cases']), None)
        if 'many' in case:
            return self.many(case['many'], st)
        try:
            self.check(case, text, st)
        except RecursionError:
            if known is None:
                raise
            st.label('known finding: recursion limit')

    def many(self, which, st, n=140000):
        # more of them than a call can have arguments
        text = {'comments': '> c\n' * n + '\na: b', 'last comments': 'a: b\n' + '> c\n' * n, 'elements': '# s\n' + 'a: b\n' * n,
                'entries': 'a:\n' + 'b = c\n' * n, 'items': 'a:\n' + '- c\n' * n}[which]
        document = eno.parse(text)
        got = len(document.section('s').elements() if which == 'elements' else document.fieldset('a').entries() if which == 'entries' else
                  document.list('a').items() if which == 'items' else document.elements())
        if got != (n if which in ('elements', 'entries', 'items') else 1):
            fail(f'{got} elements in a document with {n} {which}')
        st.label('many of a kind')

    def deep_text(self, which, n=1500):
        if which == 'sections':
            return '\n'.join('#' * (k + 1) + ' s' for k in range(n))
        if which == 'section copies':
            return '\n'.join(f'# s{k} < s{k + 1}' for k in range(n)) + f'\n# s{n}'
        return '\n'.join(f'e{k} < e{k + 1}' for k in range(n)) + f'\ne{n}: x'

    def check(self, case, text, st):
        try:
            document = eno.enolib.parse(text, locale=eno.LOCALES[case['locale']], reporter=eno.REPORTERS[case['reporter']], source=case['source'])
        except eno.ParseError as e:
            st.label('rejected', 'reporter ' + case['reporter'])
            for a in ('text', 'snippet', 'message'):
                if not isinstance(getattr(e, a), str) or not getattr(e, a):
                    fail('error without ' + a)
            if e.message != f'{e.text}\n\n{e.snippet}':
                fail('message is not text and snippet', e.message)
            if set(e.selection) != {'from', 'to'} or e.cursor != e.selection['from']:
                fail('malformed selection', e.selection, e.cursor)
            if '\n' in text:
                st.interesting()
            return
        raw = document.raw()
        if not isinstance(raw, dict) or raw.get('type') != 'document' or not isinstance(raw.get('elements'), list):
            fail('raw of a document is not a document', raw)
        st.label('accepted')
        if '\n' in text and raw['elements']:
            st.interesting()


class P02(Prop):
    id = 'P02'
    quick = 96000
    rule = ('A case is a document: a random sequence of lines each valid where it stands, or a rendered content tree, or line soup. The reference line '
            'scanner decides what it spells; raw() and a typed walk are compared with it. Non-trivial: accepted, with at least three elements.')

    def gen(self, src):
        t = src.weighted((6, 'lines'), (3, 'tree'), (2, 'soup'), (1, 'chars'))
        if t == 'lines':
            lines, _ = gen.valid_lines(src, 24, keys=src.pick([gen.mixed_keys, gen.small_keys]))
            text = '\n'.join(lines) + src.pick(['', '\n', '\n\n'])
        elif t == 'tree':
            text = gen.document(src, keys=gen.mixed_keys)
        elif t == 'soup':
            text = gen.soup(src, 5)
        else:
            text = gen.raw_text(src, 12, gen.ALPHABET + '\n::')
        return dict(text=text)

    def run(self, case, st):
        doc = ref.parse(case['text'])
        if doc.error or ref.resolve(doc) or doc.maybe_merge_cycle:
            st.label('not valid')
            return
        v = ref.view(doc)
        if doc.ambiguous:
            raise Discard()
        want = v.canon()
        document = eno.parse(case['text'])
        got = eno.norm_raw(document.raw())
        if got != want:
            fail('document read differently', f'raw:      {got}', f'expected: {want}', repr(case['text']))
        got = eno.observe_section(document, True)
        if got != want:
            fail('document read differently through accessors', f'accessors: {got}', f'expected:  {want}', repr(case['text']))
        doc_labels(doc, v, st)
        depth = max([n.depth for n in doc.nodes()])
        st.label(f'section depth {min(depth, 4)}')
        if sum(1 for _ in v.walk()) > 3:
            st.interesting()


class P03(Prop):
    id = 'P03'
    quick = 128000
    rule = ('A case is a valid prefix, an offending line and an arbitrary suffix, or line soup, or a mutated document. The reference line scanner decides '
            'the verdict, the kind, the line and the selection. Non-trivial: rejected with something before or after the offending line.')

    def gen(self, src):
        t = src.weighted((8, 'offend'), (3, 'soup'), (2, 'mutate'), (1, 'chars'))
        if t == 'offend':
            lines, state = gen.valid_lines(src, 10, copies=src.p(0.4))
            lines.append(gen.offending_line(src, state))
            text = '\n'.join(lines)
            if src.p(0.6):
                text += '\n' + gen.soup(src, 6)
            elif src.p(0.3):
                text += '\n'
        elif t == 'soup':
            text = gen.soup(src, 10)
        elif t == 'mutate':
            text = gen.mutate(src, gen.document(src, size=8, keys=gen.mixed_keys))
        else:
            text = gen.raw_text(src, 20, gen.ALPHABET + '\n::')
        return dict(text=text)

    def run(self, case, st):
        text = case['text']
        doc = ref.parse(text)
        try:
            eno.enolib.parse(text, locale=eno.PROBE)
            e = None
        except eno.ParseError as error:
            e = error
        if doc.error is None:
            st.label('valid')
            if e is not None and not ref.resolve(doc) and not doc.maybe_merge_cycle:
                fail('valid document rejected', e.message, repr(text))
            return
        p = doc.error
        st.label(p.kind)
        if e is None:
            fail('invalid document accepted', f'{p} expected', repr(text))
        if e.text != expected_text(p.kind, *p.args):
            fail('wrong problem reported', e.text, f'expected {expected_text(p.kind, *p.args)}', repr(text))
        eno.check_error_shape(text, e)
        if span(e) != (p.begin, p.end):
            fail('wrong selection', f'{span(e)} instead of {(p.begin, p.end)}', repr(text))
        marks = eno.check_snippet(text, eno.read_text_snippet(e.snippet))
        eno.check_marks(marks, [p.line])
        if len(doc.lines) > 1:
            st.interesting()


class SpecProp(Prop):
    """Cases are content trees with rendered texts; the tree itself is the expectation."""

    def run(self, case, st):
        want = gen.canon(case['spec'])
        for text in case['texts']:
            document = eno.parse(text)
            got = eno.norm_raw(document.raw())
            if got != want:
                fail('content differs', f'read:     {got}', f'expected: {want}', repr(text))
            got = eno.observe_section(document, True)
            if got != want:
                fail('content differs through accessors', f'read:     {got}', f'expected: {want}', repr(text))
        self.classify(case, want, st)


class P04(SpecProp):
    id = 'P04'
    quick = 64000
    rule = ('A case is a content tree of fields, empty elements, lists, fieldsets and sections with arbitrary keys and values, rendered in a tidy, a free, '
            'a second free and a CRLF layout; every rendering has to read back as the tree. Non-trivial: at least two elements and a key or value with a character that has a meaning in eno.')

    def gen(self, src):
        o = gen.Opts(keys=lambda s: gen.key(s, 0.6), conts=0, multi=0, comments=0.1)
        spec = gen.tree(src, o)
        texts = [gen.render(src, spec, free=False, noise=0), gen.render(src, spec), gen.render(src, spec)]
        texts.append(texts[src.i(3)].replace('\n', '\r\n') + src.pick(['', '\r\n', '\n', ' ', '\n\n']))
        return dict(spec=spec, texts=texts)

    def classify(self, case, want, st):
        n = len(list(gen.flatten(case['spec']['els'])))
        st.label(f'elements {min(n, 10)}')
        special = any(c in k['k'] for k in gen.flatten(case['spec']['els']) for c in ':=<>#-|\\`')
        if special:
            st.label('special key')
        if '`' in case['texts'][0]:
            st.label('escaped key')
        if n >= 2 and special:
            st.interesting()


class P05(SpecProp):
    id = 'P05'
    quick = 192000
    rule = ('A case is a document of fields, list items and fieldset entries with random direct/spaced, empty/non-empty continuations and blanks and comments '
            'between them; the expected value is folded from the generated parts. Non-trivial: some value has at least two continuations.')

    def gen(self, src):
        o = gen.Opts(conts=0.85, multi=0.05, comments=0.1, size=5, depth=1)
        spec = gen.tree(src, o)
        return dict(spec=spec, texts=[gen.render(src, spec, free=src.p(0.5), noise=0.3)])

    def classify(self, case, want, st):
        longest = 0
        for e in gen.flatten(case['spec']['els']):
            for c in [e] + e.get('items', []) + e.get('entries', []):
                conts = c.get('conts') or []
                longest = max(longest, len(conts))
                if any(t is None for _, t in conts):
                    st.label('empty continuation')
                if conts and c.get('v') is None:
                    st.label('no own value')
        st.label(f'continuations {longest}')
        if longest >= 2:
            st.interesting()


class P06(SpecProp):
    id = 'P06'
    quick = 216000
    rule = ('A case is a document of multiline fields with arbitrary keys, dash counts and body lines (values, whitespace, eno syntax, near-terminators, random text) '
            'between other elements. Non-trivial: a body of at least two lines.')

    def gen(self, src):
        o = gen.Opts(multi=2.0, keys=lambda s: gen.key(s, 0.5), size=5, depth=1, conts=0.1, comments=0.15)
        spec = gen.tree(src, o)
        text = gen.render(src, spec, free=src.p(0.6))
        if src.p(0.15):
            text = text.replace('\n', '\r\n')
            for e in gen.flatten(spec['els']):
                if e['t'] == 'multi':
                    e['lines'] = [l.replace('\n', '\r\n') + '\r' for l in e['lines']]
        return dict(spec=spec, texts=[text])

    def classify(self, case, want, st):
        for e in gen.flatten(case['spec']['els']):
            if e['t'] == 'multi':
                st.label(f'body lines {min(len(e["lines"]), 3)}', f'dashes {e["dashes"]}')
                if len(e['lines']) >= 2:
                    st.interesting()


class P07(SpecProp):
    id = 'P07'
    quick = 80000
    rule = ('A case is a document in which most elements, items and entries carry a comment block of random indentation and empty lines, with unattached comments in between. '
            'Non-trivial: a block of at least two lines.')

    def gen(self, src):
        o = gen.Opts(comments=0.7, size=6, depth=2, conts=0.3, multi=0.1)
        spec = gen.tree(src, o)
        return dict(spec=spec, texts=[gen.render(src, spec, free=src.p(0.5), noise=0.3)])

    def run(self, case, st):
        super().run(case, st)
        # required accessors and unknown comments
        document = eno.parse(case['texts'][0])
        doc = ref.parse(case['texts'][0])
        if doc.error:
            raise engine.HarnessError('spec renders an invalid document')
        v = ref.view(doc)
        for real, w in eno.align(document, v):
            if w.kind == 'document':
                continue
            if w.comment is None:
                e = expect_error(real.required_string_comment)
                if e.text != 'missing_comment':
                    fail('wrong error for a missing comment', e.text)
            elif real.required_string_comment() != w.comment:
                fail('required comment differs', real.required_string_comment(), w.comment)

    def classify(self, case, want, st):
        for e in gen.flatten(case['spec']['els']):
            for c in [e] + e.get('items', []) + e.get('entries', []):
                if c['c']:
                    st.label(f'comment lines {min(4, len(c["c"]))}')
                    if any(t is None for _, t in c['c']):
                        st.label('empty comment line')
                    if len(c['c']) > 1:
                        st.interesting()


class CopyProp(Prop):
    def run(self, case, st):
        text = case['text']
        doc, v = prepare(text)
        want = v.canon()
        order = case.get('order', 0)
        document = eno.parse(text)
        reads = [('raw', lambda: eno.norm_raw(document.raw())), ('accessors', lambda: eno.observe_section(document, True))]
        if order:
            reads.reverse()
        for how, read in reads + reads[:1]:
            got = read()
            if got != want:
                fail(f'copy read differently', f'{how}: {got}', f'expected: {want}', text)
        self.classify(doc, v, st)


class P08(CopyProp):
    id = 'P08'
    quick = 72000
    rule = ('A case is a document with resolvable copies of fields, multiline fields, lists, fieldsets and empty elements, in chains, before or after their templates, in and '
            'outside of sections. Non-trivial: at least one non-section copy.')

    def gen(self, src):
        text = gen.document(src, copies=0.75, unique=0.65, sections=src.pick([1, 3]), size=12, conts=0.15, comments=0.25)
        return dict(text=text, order=src.i(2))

    def classify(self, doc, v, st):
        n = 0
        for c, t in doc.target.items():
            if c.kind != 'section':
                n += 1
                st.label(f'copy of {t.kind}' + (' with own content' if c.children else ''))
                if t in doc.target:
                    st.label('chain')
                st.label('template before copy' if t.line < c.line else 'template after copy')
        if n:
            st.interesting()


class P09(CopyProp):
    id = 'P09'
    quick = 64000
    rule = ('A case is a document with resolvable (mostly shallow) section copies in chains, at several levels and in both orders, with overlapping keys. '
            'Non-trivial: at least one section copy whose template has elements.')

    def gen(self, src):
        text = gen.document(src, copies=0.7, unique=0.7, sections=8, deep=0.15, size=14, depth=3, conts=0.05, comments=0.2, multi=0.05)
        return dict(text=text, order=src.i(2))

    def classify(self, doc, v, st):
        for c, t in doc.target.items():
            if c.kind == 'section':
                st.label('deep' if c.deep else 'shallow', 'own elements' if c.children else 'no own elements',
                         'template before copy' if t.line < c.line else 'template after copy', f'level {min(c.depth, 3)}')
                if t in doc.target:
                    st.label('chain')
                if {e.key for e in c.children} & {e.key for e in t.children}:
                    st.label('overriding keys')
                if t.children:
                    st.interesting()


class P10(CopyProp):
    id = 'P10'
    quick = 72000
    rule = ('A case is a handful of top-level section trees over very few keys that copy one another deeply (or, for contrast, shallowly) in chains, in random document order. '
            'Non-trivial: at least one subsection is merged.')

    def gen(self, src):
        n = src.between(2, 4)
        o = gen.Opts(size=8, depth=4, conts=0, multi=0.03, comments=0.1, noise=0.05, sections=8,
                     keys=lambda s: s.weighted((6, 'a'), (5, 'b'), (3, 'c')))
        tops = []
        for k in range(n):
            g = gen.TreeGen(src, o)
            g.budget = src.between(1, 8)
            els = g.elements(1)
            tops.append(dict(t='section', k='ABCD'[k], c=g.comment(), u=True, els=els))
            if k and src.p(0.9):
                t = src.i(k)
                tops[k]['tpl'] = 'ABCD'[t]
                tops[k]['deep'] = src.p(0.8)
        # now and then a subsection copies one of the trees (no cycle: only earlier trees)
        for k in range(1, n):
            for e in gen.flatten(tops[k]['els']):
                if e['t'] == 'section' and src.p(0.06):
                    e['tpl'] = 'ABCD'[src.i(k)]
                    e['deep'] = src.p(0.5)
        return dict(text=gen.render(src, dict(els=src.shuffled(tops)), free=False, noise=0.05), order=src.i(2))

    def classify(self, doc, v, st):
        st.label(f'merged subsections {min(len(doc.merged), 3)}')
        for m in doc.merged:
            st.label(f'merge level {m.depth - 1}')
        if any(t in doc.target for c, t in doc.target.items()):
            st.label('chain')
        if doc.merged:
            st.interesting()


class P11(Prop):
    id = 'P11'
    quick = 160000
    rule = ('A case is a document with copies of elements and (nested) sections over few keys. The reference model enumerates every unresolvable copy: the document has to be '
            'rejected exactly if there is one, naming one of them. Non-trivial: at least two copies.')

    def gen(self, src):
        t = src.weighted((6, 'soup'), (3, 'valid'), (2, 'mutate'), (2, 'ring'))
        if t == 'soup':
            return dict(text=gen.copy_soup(src, 12))
        if t == 'ring':
            return dict(text=gen.copy_ring(src))
        text = gen.document(src, copies=0.7, unique=0.6, sections=6, size=9, conts=0.05, comments=0.1, multi=0.08)
        if t == 'mutate':
            lines = text.split('\n')
            copies = [i for i, l in enumerate(lines) if '<' in l]
            for _ in range(src.between(1, 2)):
                k = src.i(len(lines))
                how = src.weighted((3, 'retarget'), (2, 'dup'), (2, 'drop'), (1, 'add'))
                if how == 'retarget' and len(copies) > 1:
                    i, j = src.pick(copies), src.pick(copies)
                    if i < len(lines) and j < len(lines) and '<' in lines[i] and '<' in lines[j]:
                        lines[i] = lines[i].split('<')[0] + '<' + lines[j].split('<')[-1]
                elif how == 'dup':
                    lines.insert(src.i(len(lines) + 1), lines[k])
                elif how == 'drop' and len(lines) > 1:
                    del lines[k]
                elif how == 'add':
                    lines.insert(k, gen.copy_line(src))
            text = '\n'.join(lines)
        return dict(text=text)

    def run(self, case, st):
        text = case['text']
        doc = ref.parse(text)
        if doc.error:
            raise Discard()
        problems = ref.resolve(doc)
        try:
            eno.enolib.parse(text, locale=eno.PROBE)
            e = None
        except eno.ParseError as error:
            e = error
        copies = [n for n in doc.nodes() if n.template is not None]
        if len(copies) >= 2:
            st.interesting()
        for p in problems:
            st.label(p.kind)
        if not problems:
            st.label('resolvable' if copies else 'no copies')
            if e is not None:
                if doc.maybe_merge_cycle and e.text in [expected_text('cyclic_dependency', n.line + 1, n.template) for n in doc.maybe_merge_cycle]:
                    st.label('section merged into itself')
                    return
                fail('resolvable document rejected', e.message, text)
            return
        if e is None:
            fail('unresolvable copy accepted', problems, text)
        eno.check_error_shape(text, e)
        marks = eno.check_snippet(text, eno.read_text_snippet(e.snippet))
        allowed = list(problems)
        for n in doc.maybe_merge_cycle:
            allowed.append(ref.Problem('cyclic_dependency', n.line, *n.tokens['template'], args=(n.line + 1, n.template)))
        if any(p.kind == 'cyclic_dependency' for p in problems):
            for n in doc.cycle_members:
                allowed.append(ref.Problem('cyclic_dependency', n.line, *n.tokens['template'], args=(n.line + 1, n.template)))
        match = [p for p in allowed if e.text == expected_text(p.kind, *p.args) and span(e) == (p.begin, p.end)]
        if not match:
            fail('reported problem does not exist', e.text, f'selection {span(e)}', f'problems: {problems}', text)
        p = match[0]
        if marks.get(p.line) != '>':
            fail('problem not emphasised', e.snippet)
        if p.kind == 'two_or_more_templates_found':
            questioned = [n for n, m in marks.items() if m == '?']
            if len(questioned) < 2 or not set(questioned) <= set(p.related):
                fail('candidates not marked', e.snippet)

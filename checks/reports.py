"""P22, P23, P24, P25, P29: errors and their reports."""
import json
from common import *
import catalogue, engine, provoke


class ErrorProp(Prop):
    """Cases are errors: of a text that is rejected, or a scenario on a valid document."""
    size = 10
    pad = 0.35

    def gen(self, src):
        if src.p(0.4):
            t = src.weighted((5, 'offend'), (3, 'soup'), (2, 'copies'), (1, 'any'))
            if t == 'offend':
                lines, state = gen.valid_lines(src, 12, copies=src.p(0.3))
                lines.append(gen.offending_line(src, state))
                text = '\n'.join(lines)
                if src.p(0.6):
                    text += '\n' + gen.soup(src, 6)
            elif t == 'soup':
                text = gen.soup(src, 10, copies=True)
            elif t == 'copies':
                text = gen.copy_soup(src, 12) if src.p(0.8) else gen.copy_ring(src)
            else:
                text = gen.any_text(src)
            case = dict(text=text.replace('\x1b', ''), scenario=None)
        else:
            text = rich_doc(src, size=self.size, comments=0.3, conts=0.25, keys=gen.mixed_keys if src.p(0.5) else gen.small_keys)
            if src.p(self.pad):
                # spread the document out so that lines are omitted
                text = '\n' * src.between(0, 6) + text + '\n' * src.between(0, 6)
            doc, v = prepare(text)
            case = dict(text=text, scenario=provoke.generate(src, doc, v))
        case['source'] = src.pick([None, 'file.eno', 'dir/ä ö.eno', '<b>&"\'x</b>', '</pre><script>', 'a | b', '%s {0}'])
        return case

    def provoke(self, case, **options):
        """The error of a case, or None if its text is valid."""
        if case['scenario'] is None:
            try:
                eno.enolib.parse(case['text'], source=case['source'], **options)
            except eno.ParseError as e:
                return e
            return None
        doc, v = self.model(case)
        try:
            document = eno.enolib.parse(case['text'], source=case['source'], **options)
        except eno.ParseError as e:
            fail('valid document rejected', e.message)
        return provoke.run(case['scenario'], document, v)

    def model(self, case):
        if getattr(self, 'last', None) is None or self.last[0] != case['text']:
            self.last = (case['text'], prepare(case['text']))
        return self.last[1]

    def classify(self, case, st):
        sc = case['scenario']
        st.label('parse error' if sc is None else ' '.join(str(sc.get(k)) for k in ('do', 'what') if sc.get(k)))
        if case['text'].count('\n') >= 2:
            st.interesting()


class P22(ErrorProp):
    id = 'P22'
    quick = 120000
    rule = ('A case is a rejected text or a valid document with one scenario that raises or builds an error (builders, missing elements/values/comments, several, incompatible, conversions, loaders, untouched) on a random '
            'element. Position invariants hold for every error and the selection is the one the model derives for the scenario. Non-trivial: a text of at least three lines.')

    def run(self, case, st):
        e = self.provoke(case, locale=eno.PROBE)
        if e is None:
            raise Discard()
        eno.check_error_shape(case['text'], e)
        if case['scenario'] is not None:
            doc, v = self.model(case)
            want = provoke.spans(case['scenario'], doc, v)
            if span(e) not in want:
                fail('wrong selection', f'{span(e)} instead of {want}', case['scenario'], e.message, case['text'])
        else:
            doc = ref.parse(case['text'])
            if doc.error:
                if span(e) != (doc.error.begin, doc.error.end):
                    fail('wrong selection', f'{span(e)} instead of {doc.error}', e.message, case['text'])
            else:
                want = [(p.begin, p.end) for p in ref.resolve(doc)] + [n.tokens['template'] for n in doc.cycle_members | doc.maybe_merge_cycle]
                if want and span(e) not in want:
                    fail('wrong selection', f'{span(e)} instead of {want}', e.message, case['text'])
        self.classify(case, st)


class P23(ErrorProp):
    id = 'P23'
    quick = 120000
    rule = ('A case is an error as in P22. The snippet is read back line by line and compared with the document; marks are compared with those the model derives for the scenario. '
            'Non-trivial: a text of at least three lines.')

    def run(self, case, st):
        e = self.provoke(case, locale=eno.PROBE)
        if e is None:
            raise Discard()
        text = case['text']
        marks = eno.check_snippet(text, eno.read_text_snippet(e.snippet, case['source']))
        if case['scenario'] is not None:
            doc, v = self.model(case)
            provoke.check_marks(case['scenario'], doc, v, marks, e)
        else:
            doc = ref.parse(text)
            if doc.error:
                eno.check_marks(marks, [doc.error.line])
                if doc.error.kind != 'unterminated_multiline_field' and doc.error.kind != 'section_hierarchy_layer_skip':
                    eno.check_marks(marks, None, [], [])
            else:
                heads = {p.line for p in ref.resolve(doc)} | {n.line for n in doc.cycle_members | doc.maybe_merge_cycle}
                got = {n for n, m in marks.items() if m == '>'}
                if len(got) != 1 or not got <= heads:
                    fail('problem not emphasised', e.snippet, sorted(h + 1 for h in heads))
        if len(marks) < text.count('\n') + 1:
            st.label('with omission')
        self.classify(case, st)


class P24(ErrorProp):
    id = 'P24'
    quick = 40000
    rule = ('A case is an error as in P22 with a source label; it is provoked under the three reporters and the three reports are read back and compared. Non-trivial: a text of at least three lines.')
    assumptions = ['source labels contain no line breaks and neither labels nor documents contain the escape character of terminals']

    def run(self, case, st):
        source = case['source']
        errors = {n: self.provoke(case, locale=eno.PROBE, reporter=r) for n, r in eno.REPORTERS.items()}
        if errors['text'] is None:
            raise Discard()
        text = eno.read_text_snippet(errors['text'].snippet, source)
        for name, read in (('html', eno.read_html_snippet), ('terminal', eno.read_terminal_snippet)):
            e = errors[name]
            if e.text != errors['text'].text or e.selection != errors['text'].selection:
                fail('error depends on the reporter', e.text, errors['text'].text, e.selection)
            got = read(e.snippet, source)
            if got != text:
                fail(f'{name} report differs from the text report', f'{name}: {got}', f'text: {text}', e.snippet)
        self.classify(case, st)
        if any(c in case['text'] for c in '<&"'):
            st.label('document with markup characters')
        if source and any(c in source for c in '<&"'):
            st.label('source with markup characters')


CATALOGUE = catalogue.load()


class P25(ErrorProp):
    id = 'P25'
    quick = 60000
    rule = ('A case is an error as in P22, provoked under the shipped locales and under a probe locale whose texts name the message and its arguments; texts are compared with the translation catalogues of the repository. '
            'A fixed case compares every message of every locale. Non-trivial: a text of at least three lines.')

    def fixed(self):
        return [dict(message=m, args=a, text='', scenario=None, source=None) for m in sorted(CATALOGUE['en']) for a in (['1', 'two words'], ["it's {0} [KEY] %s <b>", '[LINE] \\ "ü"'], [7, ''])]

    def run(self, case, st):
        if 'message' in case:
            for name, locale in eno.LOCALES.items():
                entry = CATALOGUE[name][case['message']]
                got = getattr(locale, case['message'])
                if entry[1]:
                    got = got(*case['args'][:len(entry[1])])
                want = catalogue.render(entry, case['args'])
                if got != want:
                    fail('message differs from the catalogue', f'{name} {case["message"]}: {got}', f'expected: {want}')
            st.label('catalogue')
            return
        probe = self.provoke(case, locale=eno.PROBE)
        if probe is None:
            raise Discard()
        name, _, args = probe.text.partition('|')
        sc = case['scenario']
        literal = sc is not None and ((sc['do'] == 'build' and sc['what'] == 'error') or (sc['do'] == 'untouched' and sc['message'] is not None))
        shown = eno.read_text_snippet(probe.snippet, case['source'])
        for locale_name, locale in eno.LOCALES.items():
            e = self.provoke(case, locale=locale)
            want = probe.text if literal else catalogue.render(CATALOGUE[locale_name][name], json.loads(args) if args else [])
            if e.text != want:
                fail('text differs from the catalogue', f'{locale_name}: {e.text}', f'expected: {want}')
            if type(e) is not type(probe) or e.selection != probe.selection:
                fail('error depends on the locale', e.selection, probe.selection)
            got = eno.read_text_snippet(e.snippet, case['source'])
            if got != shown:
                fail('snippet depends on the locale', got, shown)
            header = e.snippet.split('\n')[0 if case['source'] is None else 2]
            for m in ('gutter_header', 'content_header'):
                if CATALOGUE[locale_name][m][0] not in header:
                    fail('header not translated', header)
        if not literal:
            st.label('message ' + name)
        self.classify(case, st)


class P29(Prop):
    id = 'P29'
    quick = 50000
    rule = ('A case is a valid document with copies and a set of error builders (element, value, key, comment) with a message or a message function, called on random elements, items, entries and the document. '
            'Text, selection, marks, the argument of the function and the absence of touches are checked. Non-trivial: a builder on an element below the document.')

    def gen(self, src):
        text = rich_doc(src, size=9, comments=0.35, conts=0.3)
        doc, v = prepare(text)
        views = list(v.walk())

        def one():
            x = src.pick(views)
            return dict(path=path_of(x), what=src.pick(provoke.BUILDERS), message=src.pick(['message', 'ü <b> {0} %s', '', 'two\nlines']), function=src.p(0.5))
        return dict(text=text, empties=src.pick(['field', 'empty', 'list', 'fieldset']), builds=src.many(one, 1, 5, 0.7))

    def run(self, case, st):
        doc, v = prepare(case['text'])
        for b in case['builds']:
            x = provoke.at(v, b['path'])
            kind = provoke.typed_kind(x, case['empties'])
            what = b['what']
            if what == 'value_error' and kind not in provoke.VALUED:
                continue
            real = provoke.reach_as(eno.parse(case['text']), v, x, case['empties'])
            calls = []

            def message(arg):
                calls.append(arg)
                return b['message']
            e = getattr(real, what)(message if b['function'] else b['message'])
            if not isinstance(e, eno.ValidationError):
                fail('error builder returns something else', repr(e))
            want = b['message'] if what == 'error' else expected_text(what, b['message'])
            if e.text != want:
                fail('wrong text', e.text, want)
            eno.check_error_shape(doc.text, e)
            sc = dict(do='build', path=b['path'], what=what)
            if span(e) not in provoke.spans(sc, doc, v):
                fail('wrong selection', f'{span(e)} instead of {provoke.spans(sc, doc, v)}', e.snippet, doc.text)
            provoke.check_marks(sc, doc, v, eno.check_snippet(doc.text, eno.read_text_snippet(e.snippet)), e)
            if b['function']:
                if len(calls) != 1:
                    fail('message function not called once', calls)
                if what == 'error':
                    if calls[0] is not real and eno.norm_raw(calls[0].raw()) != eno.norm_raw(real.raw()):
                        fail('message function called with another element', repr(calls[0]))
                elif what == 'key_error':
                    keys = {x.parent.key, x.node.parent.key} if x.kind == 'item' else {x.key}
                    if calls[0] not in keys:
                        fail('message function called with another key', calls, keys)
                elif calls[0] != (x.value if what == 'value_error' else x.comment):
                    fail('message function called with another text', calls, x.value, x.comment)
            st.label(f'{what} {kind}' + (' copy' if x.node.template else ''))
            if x.kind != 'document':
                st.interesting()
            # the element is still untouched
            if x.kind in ('document',):
                continue
            parent = real.parent()
            if x.kind == 'item':
                owner, holder = parent.parent(), x.parent
            else:
                owner, holder = parent, x
            siblings = [c for c in (x.parent.children if x.kind != 'item' else x.parent.parent.children) if c.key == holder.key]
            left = expect_error(lambda: owner.assert_all_touched(only=[holder.key]))
            allowed = [eno.element_span(doc, y.node) for c in siblings for y in c.walk()]
            if span(left) not in allowed:
                fail('wrong element untouched', left.snippet)

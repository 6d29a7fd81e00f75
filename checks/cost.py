"""P32: the effort of reading grows moderately with the document."""
import gc, os, re, sys, time
from common import *
import engine
from white import JAVASCRIPT

if JAVASCRIPT:
    import jseno
    jseno.COUNT_BLOCKS = True

UNITS = [' ', '\t', '`', '``', '#', '-', '--', '<', '<<', ':', '=', '|', '\\', '>', 'a', 'ab', ' a', 'a ', '` ', ' `', '`a', 'a`', ' <', '< ', ': ', ' :', '= ', '\r', '\x0b', 'é', '\u3000', ' - ', '# ']
ENDS = ['', 'x', ':', ' :', '=', '<', '< a', '`', '``', '#', 'x:', 'x: y', '- x', '`:', '-- x']
CPU_LIMIT = 3.0

PLAIN = ['k{i}: v', 'k: v', 'e{i}:', 'l{i}:\n- a\n- b', 'f{i}:\na = b\nc = d', '-- m{i}\nline\n\n-- m{i}', '> comment', '> comment\nk{i}: v', '', 'k{i}: v\n| w\n\\ x', '`k{i}`: v',
         'c{i} < T', 'c{i} < L', 'c{i} < F', '  spaced {i} :  value  ', 'l{i}:\n> comment\n- a\n| b', 'f{i}:\na = b\n\\ c', 'c{i} < L\n- own', 'c{i} < F\nown = x', 'd{i} < d{j}']
SECTIONS = ['# s{i}', '# s', '# s{i}\n## t\n### u', '# c{i} < S', '# c{i} << S', '# c{i} << S\n## u\nz: 1', '# c{i} < S\nown: 1', '## t{i}', '# `s{i}`', '# d{i} < d{j}']
LONG = [('L0:', '- item {i}', ''), ('F0:', 'e{i} = v', ''), ('F0:', 'e = v', ''), ('V:', '| v', ''), ('V: v', '\\ v', ''), ('-- M', 'line {i}', '-- M'), ('-- M', '--', '-- M'), ('-- M', '', '-- M'),
        ('', '> comment', 'x:'), ('', '>', 'x:'), ('L0:', '> c\n- i', ''), ('L0:\n- i', '| {i}', ''), ('F0:\na =', '\\ {i}', ''), ('X:', '', '| y'), ('L0:', '- \n', '')]
PREFIX = 'T: x\nL:\n- a\nF:\na = b\nd0: x'
SUFFIX = '# S\n## u\nx: y\n# d0'
OPS = ['parse', 'raw', 'walk', 'query', 'report', 'report html', 'report terminal', 'report root', 'lookup index', 'lookup line', 'touched', 'required', 'repr', 'touch', 'values', 'kinds', 'parents', 'missing', 'each', 'touched below', 'looked at']
SMALL, FACTOR, SLACK = 40, 8, 1.4
PADDING = ' x<ä' * 100
BULK, BULK_SLACK, BULK_LIMIT = 1000, 3, 0.4
WIDE = [('a: ', ''), ('a:\n- ', ''), ('a:\nb = ', ''), ('> ', '\na:'), ('>\n>', '\n> x\na:'), ('-- a\n', '\n-- a'), ('a:\n| ', '\n\\ x'), ('', ':'), ('`', '`: x'), ('# ', ''), ('# `', '`'), ('-- ', ''), ('a < ', ''), ('# a < ', ''),
        ('', ''), ('`', ''), ('# `', ''), ('', ' = x'), ('a', ''), ('a: b\n-', '')]
WIDE_UNITS = ['x', 'word ', 'a b', ': ', 'ä', '<', '`a', '\\', '😀 ', '&', 'x\n', '-- b\n', '\n', '.*', '(', '- x\n', '> x\n', '| x\n', 'b = c\n']


class Budget(Exception):
    pass


def cpu_time():
    return jseno.cpu_seconds() if JAVASCRIPT else time.process_time()


def steps(fn, limit=None):
    """The number of lines of the implementation that are run by fn: the same for every run."""
    if JAVASCRIPT:
        return jseno.blocks(fn)
    root = os.path.dirname(eno.enolib.__file__)
    count = 0

    def local(frame, event, arg):
        nonlocal count
        if event == 'line':
            count += 1
            if limit is not None and count > limit:
                raise Budget()
        return local

    def call(frame, event, arg):
        return local if frame.f_code.co_filename.startswith(root) else None
    sys.settrace(call)
    try:
        fn()
    except Budget:
        pass
    finally:
        sys.settrace(None)
    return count


BAD = ['!', '- x', '### x', '-- x', 'x < nowhere', '`x', 'T: again']


class P32(Prop):
    id = 'P32'
    quick = 9000
    thorough_factor = 30
    rule = ('A case is either a hostile text of up to 3000 characters (repetitions of tokens of the grammar between other tokens), that has to be parsed or rejected, reported and read within 3 s of CPU time (normal: below 0.3 s), '
            'or a document of repeated blocks and an operation on it (parsing, rejecting, reports, lookups, walking, queries, raw ...), whose number of executed lines of the implementation may grow at most 11.2-fold (plus 3000) when the '
            'repetitions grow 8-fold from 40 to 320, or a text of thousands of lines (half of them of 400 characters each, some with an unreadable line at the top) or with one very long part, whose CPU time may grow at most 24-fold when it gets 8 times as long (times below 0.4 s are not judged). Non-trivial: a hostile text of more than 800 characters, or a growing document that is parsed or rejected as constructed.')
    assumptions = ['the size of the output counts as size: documents whose copies repeat growing content in every copy are left out']

    def gen(self, src):
        if src.p(0.25):
            size = src.pick([900, 300, 1600, 2600])
            parts = []
            for _ in range(src.between(1, 3)):
                unit = ''.join(src.pick(UNITS) for _ in range(src.weighted((5, 1), (2, 2), (1, 3))))
                parts.append([unit, max(1, size // src.pick([1, 2, 4]) // len(unit))])
            return dict(start=src.pick(['', 'a', '# ', '#', '`', '-', '-- ', 'a: ', '> ', 'a:\n', '-- a\n', '# a <', '# `', 'a <']), parts=parts,
                        middle=src.pick(['', 'x', '\n', '`', ':']), end=src.pick(ENDS))
        if src.p(0.08):
            case = dict(op=src.pick(OPS), at=src.i(101), bulk=True)
            if src.p(0.6):
                case.update(wide=[*src.pick(WIDE), src.pick(WIDE_UNITS)], op=src.pick(['walk', 'parse', 'walk', 'report', 'report html', 'report terminal', 'lookup index', 'lookup line', 'repr', 'raw', 'parents']))
            elif src.p(0.6):
                case.update(long=src.i(len(LONG)), bad=None, padded=src.p(0.5))
                if src.p(0.3):
                    case.update(bad=src.pick(BAD), early=src.p(0.7))
                if case['padded']:
                    case['op'] = src.pick(['walk', 'parse', 'report', 'raw', 'lookup index', 'lookup line', 'report html', 'report terminal'])
            else:
                case.update(blocks=[src.pick(PLAIN[:-1] + SECTIONS[:-1]) for _ in range(src.between(1, 2))], bad=None)
            return case
        case = dict(blocks=[], op=src.pick(OPS), at=src.i(101), bad=src.pick(BAD) if src.p(0.45) else None)
        if case['bad'] is not None:
            case['early'] = src.p(0.3)
        how = src.weighted((3, 'plain'), (2, 'long'), (2, 'sections'))
        if how == 'long':
            case['long'] = src.i(len(LONG))
        else:
            case['blocks'] = [src.pick(PLAIN if how == 'plain' or src.p(0.5) else SECTIONS) for _ in range(src.between(1, 3))]
            if how == 'sections' and not any(b.startswith('#') for b in case['blocks']):
                case['blocks'].insert(0, src.pick(SECTIONS))
            if SECTIONS[-1] in case['blocks']:      # a chain of copies: own content would be repeated in every copy
                case['blocks'] = [b for b in case['blocks'] if b in (SECTIONS[-1], '# s{i}', '# s', '')]
        return case

    @staticmethod
    def text(case, n):
        if 'parts' in case:
            return case['start'] + case['middle'].join(u * k for u, k in case['parts']) + case['end']
        if 'wide' in case:
            start, end, unit = case['wide']
            return start + unit * (n * 24 // len(unit)) + end
        lines = [case['bad']] if case.get('early') else []
        lines.append(PREFIX)
        if 'long' in case:
            first, block, last = LONG[case['long']]
            if case.get('padded') and re.search(r'[\w}]$', block):
                block += PADDING
            lines.append(first)
            lines += [block.replace('{i}', str(i + 1)) for i in range(n)]
            lines.append(last)
        else:
            for i in range(n):
                lines += [b.replace('{i}', str(i + 1)).replace('{j}', str(i)) for b in case['blocks']]
        lines.append(SUFFIX)
        if case['bad'] is not None and not case.get('early'):
            lines.append(case['bad'])
        return '\n'.join(lines)

    def run(self, case, st):
        if 'parts' in case:
            return self.hostile(case, st)
        if case.get('bulk'):
            return self.bulk(case, st)
        small, large = self.text(case, SMALL), self.text(case, SMALL * FACTOR)
        doc = ref.parse(small)
        rejected = bool(doc.error or ref.resolve(doc))
        counts = []
        for text in (small, large):
            try:
                op = self.prepare_op(case['op'], case['at'], text, rejected)
            except eno.ParseError as e:
                fail('valid document rejected', e.message)
            limit = None if not counts else int(counts[0] * FACTOR * SLACK) + 3000
            counts.append(steps(op, limit))
        st.label('rejected' if rejected else case['op'], 'long element' if 'long' in case else 'sections' if any(b.startswith('#') for b in case['blocks']) else 'elements')
        st.interesting()
        if counts[1] > counts[0] * FACTOR * SLACK + 3000:
            fail('effort grows out of proportion', f'{counts[0]} steps for {SMALL} repetitions, more than {counts[1] - 1} for {SMALL * FACTOR}', small)

    def bulk(self, case, st):
        """CPU time for large documents: sees work that is done inside of single lines of the implementation."""
        small, large = self.text(case, BULK), self.text(case, BULK * FACTOR)
        doc = ref.parse(small)
        rejected = bool(doc.error or ref.resolve(doc))

        def measure(text):
            op = self.prepare_op(case['op'], case['at'], text, rejected)
            gc.collect()
            gc.disable()
            try:
                start = cpu_time()
                op()
                return cpu_time() - start
            finally:
                gc.enable()
        st.label('bulk', *(['bulk, padded'] if case.get('padded') else []))
        st.interesting()
        for attempt in range(4):
            try:
                few, many = measure(small), measure(large)
            except eno.ParseError as e:
                fail('valid document rejected', e.message)
            if many < BULK_LIMIT or many < few * FACTOR * BULK_SLACK:
                return
        fail('time grows out of proportion', f'{few:.3f} s for {len(small)} characters, {many:.3f} s for {len(large)}', repr(small[:200]))

    def prepare_op(self, op, at, text, rejected):
        if rejected or op == 'parse':
            def go():
                try:
                    eno.enolib.parse(text)
                except eno.ParseError:
                    pass
            return go
        reporter = eno.REPORTERS['html' if 'html' in op else 'terminal' if 'terminal' in op else 'text']
        if op == 'lookup index':
            return lambda: eno.enolib.lookup(text, index=len(text) * at // 100)
        if op == 'lookup line':
            return lambda: eno.enolib.lookup(text, line=text.count('\n') * at // 100, column=0)
        document = eno.enolib.parse(text, reporter=reporter)
        if op == 'raw':
            return document.raw
        if op == 'walk':
            return lambda: eno.observe_section(document, True)
        elements = document.elements()
        if op.startswith('report'):
            e = document if op.endswith('root') or not elements else elements[(len(elements) - 1) * at // 100]
            return lambda: e.error('message')

        def go():
            if op == 'query':
                for key in ('T', 'S', 'k', 'k1', 'none'):
                    for kind in ('element', 'field', 'section', 'list'):
                        try:
                            getattr(document, 'optional_' + kind)(key)
                        except (eno.ValidationError, TypeError):
                            pass
                    document.elements(key)
            elif op == 'touched':
                try:
                    document.assert_all_touched()
                except eno.ValidationError:
                    pass
                document.touch()
                document.assert_all_touched()
            elif op == 'required':
                document.all_elements_required()
            elif op == 'repr':
                repr(document)
                for e in elements:
                    repr(e)
            elif op == 'touch':
                document.touch()
            elif op == 'values':
                for e in elements:
                    e.optional_string_comment()
                    if e.yields_field():
                        e.to_field().optional_string_value()
                    elif e.yields_list():
                        e.to_list().optional_string_values()
            elif op == 'kinds':
                for e in elements:
                    e.yields_empty(), e.yields_section(), e.yields_fieldset(), e.string_key()
            elif op == 'parents':
                for e in elements:
                    if e.yields_section():
                        e.to_section().parent()
                    elif e.yields_fieldset():
                        e.to_fieldset().parent()
            elif op == 'each':
                for e in elements[:5]:
                    document.elements(e.string_key())
                for e in elements:
                    if e.yields_fieldset():
                        f = e.to_fieldset()
                        for entry in f.entries()[:5]:
                            f.entries(entry.string_key())
            elif op in ('touched below', 'looked at'):
                for e in elements:
                    if e.yields_section():
                        e = e.to_section()
                    elif e.yields_empty():
                        e = e.to_empty()
                    elif e.yields_list():
                        e = e.to_list()
                    elif e.yields_fieldset():
                        e = e.to_fieldset()
                    else:
                        e = e.to_field()
                    if op == 'looked at':
                        e.string_key()
                        if hasattr(e, 'items'):
                            e.optional_string_values()
                        elif hasattr(e, 'entries'):
                            for entry in e.entries():
                                entry.string_key()
                if op == 'touched below':
                    document.touch()
                try:
                    document.assert_all_touched()
                except eno.ValidationError:
                    pass
            elif op == 'missing':
                try:
                    document.required_field('none')
                except eno.ValidationError:
                    pass
        return go

    def hostile(self, case, st):
        text = self.text(case, 0)
        if len(text) > 3600:
            raise Discard()
        times = []
        for _ in range(3):
            start = cpu_time()
            try:
                document = eno.enolib.parse(text)
                document.raw()
                document.error('message')
                st.label('hostile, accepted')
            except eno.ParseError:
                st.label('hostile, rejected')
            times.append(cpu_time() - start)
            if times[-1] < CPU_LIMIT:
                break
        if len(text) > 800:
            st.interesting()
        if min(times) >= CPU_LIMIT:
            fail('no answer in reasonable time', f'{len(text)} characters take {min(times):.1f} s', repr(text[:200]))

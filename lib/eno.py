"""The implementation under test, reached through its public interface only."""
import os, sys
sys.dont_write_bytecode = True
sys.pycache_prefix = '/nonexistent/pycache'
sys.path.insert(0, os.path.join(os.environ.get('VERIF_REPO', '/repo'), 'python'))

import html.parser, json, re
from engine import Violation, HarnessError
from white import JAVASCRIPT, strip
import ref

if JAVASCRIPT:
    from jseno import Library, ParseError, ValidationError, Special, fresh, UNDEFINED
    enolib = Library(0)
    LOCALES = {n: Special('locale', n) for n in ('en', 'de', 'es')}
    REPORTERS = {n: Special('reporter', n) for n in ('text', 'html', 'terminal')}
else:
    import enolib
    from enolib import ParseError, ValidationError
    from enolib.messages import de, en, es
    from enolib.reporters import HtmlReporter, TerminalReporter, TextReporter
    LOCALES = dict(en=en, de=de, es=es)
    REPORTERS = dict(text=TextReporter, html=HtmlReporter, terminal=TerminalReporter)

CONSTANT_MESSAGES = '''content_header expected_empty expected_field expected_fields expected_fieldset expected_fieldset_entry
expected_fieldsets expected_list expected_list_item expected_lists expected_section expected_sections expected_single_element
expected_single_empty expected_single_field expected_single_fieldset expected_single_fieldset_entry expected_single_list
expected_single_section gutter_header missing_comment missing_element missing_empty missing_field missing_fieldset
missing_fieldset_entry missing_list missing_section unexpected_element'''.split()
MESSAGES_1 = '''comment_error expected_empty_with_key expected_field_with_key expected_fields_with_key expected_fieldset_with_key
expected_fieldsets_with_key expected_list_with_key expected_lists_with_key expected_section_with_key expected_sections_with_key
expected_single_element_with_key expected_single_empty_with_key expected_single_field_with_key
expected_single_fieldset_entry_with_key expected_single_fieldset_with_key expected_single_list_with_key
expected_single_section_with_key invalid_line key_error missing_element_for_continuation missing_element_with_key
missing_empty_with_key missing_field_value missing_field_with_key missing_fieldset_entry_value missing_fieldset_entry_with_key
missing_fieldset_for_fieldset_entry missing_fieldset_with_key missing_list_for_list_item missing_list_item_value
missing_list_with_key missing_section_with_key section_hierarchy_layer_skip two_or_more_templates_found
unterminated_escaped_key value_error'''.split()
MESSAGES_2 = 'cyclic_dependency non_section_element_not_found section_not_found unterminated_multiline_field'.split()


class Probe:
    """A locale whose texts name the message and its arguments, independent of any wording."""


def probe_constant(m):
    return 'Line' if m == 'gutter_header' else 'Content' if m == 'content_header' else m


for _m in CONSTANT_MESSAGES:
    setattr(Probe, _m, probe_constant(_m))
for _m in MESSAGES_1:
    setattr(Probe, _m, (lambda m: staticmethod(lambda a: f'{m}|{json.dumps([str(a)])}'))(_m))
for _m in MESSAGES_2:
    setattr(Probe, _m, (lambda m: staticmethod(lambda a, b: f'{m}|{json.dumps([str(a), str(b)])}'))(_m))
PROBE = Special('locale', 'probe') if JAVASCRIPT else Probe()


def expected_text(name, *args):
    """Text of a message under the probe locale."""
    return f'{name}|{json.dumps([str(a) for a in args])}' if args else name


def keyed(name, key):
    return expected_text(name) if key is None else expected_text(name + '_with_key', key)


def fail(kind, *info):
    raise Violation(kind, '\n'.join(i if isinstance(i, str) else repr(i) for i in info))


def parse(text, **options):
    """Parses a document that the model calls valid."""
    options.setdefault('locale', PROBE)
    try:
        return enolib.parse(text, **options)
    except ParseError as e:
        fail('valid document rejected', e.message, text)


def norm_raw(raw):
    """raw() with absent comments made explicit."""
    out = dict(raw)
    out.setdefault('comment', None)
    for k in ('elements', 'items', 'entries'):
        if k in out:
            out[k] = [norm_raw(r) for r in out[k]]
    return out


# -------------------------------------------------------------- typed walk

def observe(e):
    """Reads an element obtained without a kind through its accessors."""
    if e.yields_section():
        return observe_section(e.to_section())
    if e.yields_empty():
        x = e.to_empty()
        return dict(type='empty_element', key=x.string_key(), comment=x.optional_string_comment())
    if e.yields_field():
        x = e.to_field()
        return dict(type='field', key=x.string_key(), comment=x.optional_string_comment(), value=x.optional_string_value())
    if e.yields_list():
        x = e.to_list()
        return dict(type='list', key=x.string_key(), comment=x.optional_string_comment(),
                    items=[dict(type='list_item', comment=i.optional_string_comment(), value=i.optional_string_value()) for i in x.items()])
    if e.yields_fieldset():
        x = e.to_fieldset()
        return dict(type='fieldset', key=x.string_key(), comment=x.optional_string_comment(),
                    entries=[dict(type='fieldset_entry', key=i.string_key(), comment=i.optional_string_comment(),
                                  value=i.optional_string_value()) for i in x.entries()])
    fail('element yields nothing', repr(e))


def observe_section(s, document=False):
    out = dict(type='document' if document else 'section', comment=s.optional_string_comment())
    if not document:
        out['key'] = s.string_key()
    out['elements'] = [observe(e) for e in s.elements()]
    return out


# -------------------------------------------------------------- handles aligned with the model

class Handle:
    """A real element together with the model view it has to show."""

    def __init__(self, real, view, how):
        self.real, self.view, self.how = real, view, how


def typed(e, kind):
    return {'empty': e.to_empty, 'field': e.to_field, 'list': e.to_list, 'fieldset': e.to_fieldset, 'section': e.to_section}[kind]()


def align(document, view):
    """All (real, view) pairs of a document: sections, elements typed by their kind, items and entries."""
    out = [(document, view)]

    def section(s, v):
        els = s.elements()
        if len(els) != len(v.children):
            fail('wrong number of elements', f'{len(els)} instead of {len(v.children)} in {s!r}')
        for e, c in zip(els, v.children):
            t = typed(e, c.kind)
            out.append((t, c))
            if c.kind == 'section':
                section(t, c)
            elif c.kind in ('list', 'fieldset'):
                inner = t.items() if c.kind == 'list' else t.entries()
                if len(inner) != len(c.children):
                    fail('wrong number of items or entries', f'{len(inner)} instead of {len(c.children)} in {t!r}')
                out.extend(zip(inner, c.children))
    section(document, view)
    return out


# -------------------------------------------------------------- errors

def expect_error(fn, cls=ValidationError):
    """Calls fn, which has to raise cls; returns the error."""
    try:
        r = fn()
    except cls as e:
        return e
    except (ParseError, ValidationError) as e:
        fail('wrong class of error', type(e).__name__, str(e))
    fail('no error raised', repr(r))


def check_error_shape(text, e):
    """Invariants of every error: P22."""
    lines = text.split('\n')
    for a in ('text', 'snippet', 'message'):
        if not isinstance(getattr(e, a), str):
            fail('error without ' + a, repr(getattr(e, a)))
    if e.message != f'{e.text}\n\n{e.snippet}' or str(e) != e.message:
        fail('message is not text and snippet', e.message, e.text, e.snippet)
    sel = e.selection
    if set(sel) != {'from', 'to'}:
        fail('malformed selection', sel)
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l) + 1)
    for side in ('from', 'to'):
        c = sel[side]
        if set(c) != {'line', 'column', 'index'}:
            fail('malformed cursor', c)
        if not (0 <= c['line'] < len(lines)):
            fail('selected line does not exist', sel, text)
        if not (0 <= c['column'] <= len(lines[c['line']])):
            fail('selected column does not exist', sel, text)
        if starts[c['line']] + c['column'] != c['index']:
            fail('line and column disagree with index', sel, text)
    if sel['from']['index'] > sel['to']['index']:
        fail('selection ends before it begins', sel, text)
    if e.cursor != sel['from']:
        fail('cursor is not the begin of the selection', e.cursor, sel)


def span(e):
    return e.selection['from']['index'], e.selection['to']['index']


TEXT_LINE = re.compile(r'^ ([ >*?]) *(\d+) \| (.*)$', re.S)
TERMINAL_LINE = re.compile(r'^ ([ >*?]) +(\d+)  (.*)$', re.S)
ANSI = re.compile(r'\x1b\[\d+m')


def read_text_snippet(snippet, source=None):
    """[(mark, line number, content) or '...']"""
    parts = snippet.split('\n')
    if source is not None:
        if parts[0] != f'-- {source} --' or parts[1] != '':
            fail('source label not shown', snippet)
        parts = parts[2:]
    if ' | ' not in parts[0]:
        fail('snippet without header', snippet)
    return [read_line(TEXT_LINE, p, snippet) for p in parts[1:]]


def read_line(regex, p, snippet):
    if p.strip(' ') == '...':
        return '...'
    m = regex.match(p)
    if not m:
        fail('unreadable snippet line', repr(p), snippet)
    return m.group(1), int(m.group(2)), m.group(3)


def read_terminal_snippet(snippet, source=None):
    parts = ANSI.sub('', snippet).split('\n')
    if source:
        if source not in parts[0]:
            fail('source label not shown', snippet)
        parts = parts[1:]
    return [read_line(TERMINAL_LINE, p, snippet) for p in parts]


class HtmlLines(html.parser.HTMLParser):
    def __init__(self):
        super().__init__(convert_charrefs=True)
        self.stack, self.lines, self.loose = [], [], []

    def handle_starttag(self, tag, attrs):
        if tag not in ('div', 'pre'):
            fail('foreign markup in HTML report', tag, attrs)
        for name, v in attrs:
            if name != 'class' or not re.fullmatch(r'[a-z -]*', v or ''):
                fail('foreign attribute in HTML report', tag, attrs)
        cls = dict(attrs).get('class', '')
        self.stack.append((tag, cls.split()))
        if 'eno-report-line' in cls.split():
            self.lines.append([cls.split(), '', ''])

    def handle_endtag(self, tag):
        if not self.stack or self.stack[-1][0] != tag:
            fail('unbalanced HTML report', tag)
        self.stack.pop()

    def handle_data(self, data):
        cls = self.stack[-1][1] if self.stack else []
        if 'eno-report-gutter' in cls:
            self.lines[-1][1] += data
        elif 'eno-report-content' in cls:
            self.lines[-1][2] += data
        else:
            self.loose.append(data)

    def handle_comment(self, data):
        fail('foreign markup in HTML report', data)

    handle_decl = handle_pi = unknown_decl = handle_comment


HTML_MARKS = {'eno-report-line-emphasized': '>', 'eno-report-line-indicated': '*', 'eno-report-line-questioned': '?'}


def read_html_snippet(snippet, source=None):
    p = HtmlLines()
    p.feed(snippet)
    p.close()
    if p.stack:
        fail('unbalanced HTML report', snippet)
    loose = ''.join(p.loose)
    if source:
        if source not in loose:
            fail('source label not shown', snippet)
    out = []
    for cls, gutter, content in p.lines[1:]:
        if gutter.strip() == '...' and content == '...':
            out.append('...')
            continue
        marks = [HTML_MARKS[c] for c in cls if c in HTML_MARKS]
        if not gutter.strip().isdigit() or len(marks) > 1:
            fail('unreadable snippet line', repr((cls, gutter, content)), snippet)
        out.append((marks[0] if marks else ' ', int(gutter), content))
    return out


def check_snippet(text, shown):
    """P23: faithful lines, ascending, exactly the surroundings of the marked lines, one ellipsis per omission.
    Returns {line index: mark}."""
    lines = text.split('\n')
    marks = {}
    numbers = []
    previous = 0
    gap = False
    for entry in shown:
        if entry == '...':
            if gap:
                fail('two ellipses in a row', shown)
            gap = True
            continue
        mark, number, content = entry
        if number <= previous or number > len(lines):
            fail('line numbers wrong', shown, text)
        if gap != (number != previous + 1):
            fail('ellipsis missing or superfluous', shown, text)
        gap = False
        actual = lines[number - 1]
        if content != actual and not (content == '' and strip(actual) == ''):
            fail('snippet line differs from the document', f'{number}: {content!r} instead of {actual!r}', text)
        marks[number - 1] = mark
        previous = number
    if gap != (previous != len(lines)):
        fail('ellipsis missing or superfluous at the end', shown, text)
    marked = [n for n, m in marks.items() if m != ' ']
    if not marked:
        fail('no line is marked', shown)
    for n in range(len(lines)):
        near = any(abs(n - m) <= 2 for m in marked)
        if near != (n in marks):
            fail('line near a marked line is missing' if near else 'line far from any marked line is shown', f'line {n + 1}', shown, text)
    return marks


def check_marks(marks, emphasized=None, indicated=None, questioned=None):
    """Compares the marks of a snippet; None = not specified."""
    for want, mark in ((emphasized, '>'), (indicated, '*'), (questioned, '?')):
        if want is None:
            continue
        got = {n for n, m in marks.items() if m == mark}
        if got != set(want):
            fail('wrong lines marked', f'{mark}: {sorted(n + 1 for n in got)} instead of {sorted(n + 1 for n in want)}')


def element_span(doc, node):
    """Selection of a whole element as written."""
    if node.kind == 'document':
        return (0, 0)
    return doc.lines[node.line].begin, doc.lines[node.last_line()].end


def line_span(doc, n):
    return doc.lines[n].begin, doc.lines[n].end


def key_span(doc, node):
    if node.kind == 'document':
        return (0, 0)
    if node.kind == 'item':
        node = node.parent
    return node.tokens['key']


def check_element_error(doc, e, node, span_wanted=None):
    """Error on a whole element: selection and marks."""
    check_error_shape(doc.text, e)
    want = element_span(doc, node) if span_wanted is None else span_wanted
    if span(e) != want:
        fail('wrong selection', f'{span(e)} instead of {want}', e.message, doc.text)
    marks = check_snippet(doc.text, read_text_snippet(e.snippet))
    if node.kind == 'document':
        check_marks(marks, [], [], range(len(doc.lines)))
    else:
        check_marks(marks, [node.line], range(node.line + 1, node.last_line() + 1), [])


# ------------------------------------------------- a second, untouched copy

_CODE = {}


class _CachedLoader(__import__('importlib.machinery', fromlist=['x']).SourceFileLoader):
    def get_code(self, name):
        if name not in _CODE:
            _CODE[name] = super().get_code(name)
        return _CODE[name]


class _Finder:
    def find_spec(self, name, path=None, target=None):
        import importlib.machinery
        if name != 'enolib' and not name.startswith('enolib.'):
            return None
        spec = importlib.machinery.PathFinder.find_spec(name, path, target)
        if spec is not None and type(spec.loader) is importlib.machinery.SourceFileLoader:
            spec.loader = _CachedLoader(spec.loader.name, spec.loader.path)
        return spec


@ref.harness
def pristine():
    """The library imported anew: a copy that no other document has ever been given to."""
    if JAVASCRIPT:
        return fresh()
    import importlib
    names = [n for n in sys.modules if n == 'enolib' or n.startswith('enolib.')]
    held = {n: sys.modules.pop(n) for n in names}
    finder = _Finder()
    sys.meta_path.insert(0, finder)
    try:
        module = importlib.import_module('enolib')
        reporters = importlib.import_module('enolib.reporters')
        messages = {n: importlib.import_module(f'enolib.messages.{n}') for n in LOCALES}
    finally:
        sys.meta_path.remove(finder)
        for n in [n for n in sys.modules if n == 'enolib' or n.startswith('enolib.')]:
            del sys.modules[n]
        sys.modules.update(held)
    return module, dict(text=reporters.TextReporter, html=reporters.HtmlReporter, terminal=reporters.TerminalReporter), messages

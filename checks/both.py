"""P45: the Python and the JavaScript library side by side."""
from common import *
import html, re
import jseno
import enolib

JS = jseno.Library(0)
JS_LOCALES = {n: jseno.Special('locale', n) for n in ('en', 'de', 'es')}
JS_REPORTERS = {n: jseno.Special('reporter', n) for n in ('text', 'html', 'terminal')}
# blank in one of the languages only
BLANKS = str.maketrans('\x1c\x1d\x1e\x1f\x85\ufeff', '\u2003\u2004\u2005\u2006\u2007\u2060')
LOADERS = dict(same=lambda x: x, upper=lambda x: str(x).upper(), none=lambda x: None, length=lambda x: len(x or ''))


def picky(x):
    x = x or ''     # the document has no key
    if len(x) % 2:
        raise ValueError(f'{len(x)} is odd: <{x}> $& {{0}}')
    return x[::2]


def stubborn(x):
    raise ValueError('no')


LOADERS.update(picky=picky, stubborn=stubborn)
ANSI = re.compile('\x1b\\[[0-9;]*m')


def settle(text):
    """The text without anything that the languages treat differently on purpose. Keys that are numbers come first in objects of JavaScript: of several errors another one may be named."""
    text = re.sub('(?<![0-9A-Za-z])(?=[0-9]+(?![0-9A-Za-z]))', 'n', text)
    return text.translate(BLANKS).encode('utf-16-le', 'surrogatepass').decode('utf-16-le', 'surrogatepass')


def shown(snippet, reporter):
    """What a snippet says, without the ornaments in which the libraries differ."""
    if reporter == 'terminal':
        return ANSI.sub('', snippet)
    if reporter == 'html':
        snippet = re.sub(r'&#?\w+;', lambda m: f'&{html.unescape(m[0])};', snippet)
        return re.sub(r'^<div>(<pre.*</pre>)</div>$', r'\1', snippet.replace('</div>\n<div', '</div><div'), flags=re.S)
    return snippet


class P45(Prop):
    id = 'P45'
    thorough_factor = 40
    quick = 60000
    rule = ('A case is a text (valid, nearly valid, or arbitrary), a locale, a reporter and a source label, up to 14 calls of any public method (including accessors of two registered loaders) on any object obtained so far, and up to four lookups, '
            'made in both libraries. Non-trivial: a ParseError, or at least four calls with two different answers.')
    assumptions = ['the bridge (lib/jsbridge.js, lib/jseno.py) passes calls, callbacks, exceptions and identities on faithfully, and positions converted from UTF-16 units',
                   'characters that are white space in one of the languages only (U+001C - U+001F, U+0085, U+FEFF) and lone surrogates that pair up are left out of the texts, and keys that are numbers (which change the order of objects in JavaScript, and with it which of several errors is named); terminal snippets are compared without '
                   'colours, HTML ones without the element around them and line breaks between lines']

    def gen(self, src):
        text = settle(rich_doc(src, size=10) if src.p(0.6) else gen.any_text(src))
        keys = sorted({k.strip() for k in re.findall(r'^[ \t#]*`*([^`:=<\n]+?)`*[ \t]*(?:[:=<]|$)', text, re.M)} - {''})

        def call():
            return dict(at=src.i(12), method=src.i(60), key=settle(gen.key_pool_with(src, keys)), no_key=src.p(0.15), loader=src.pick(sorted(LOADERS)),
                        message=src.pick(['msg', '', 'ü <b> {0} $&', 'fn']), options=src.weighted((4, 'none'), (2, 'message'), (2, 'only'), (2, 'except')), these=[settle(gen.key_pool_with(src, keys)) for _ in range(src.between(0, 3))])

        def look():
            return dict(by=src.pick(['index', 'line']), a=src.i(1 << 20), b=src.i(1 << 20))
        return dict(text=text, locale=src.pick(['en', 'de', 'es']), reporter=src.weighted((3, 'text'), (1, 'html'), (1, 'terminal')), source=src.pick([None, None, 'a <b> & "c".eno']),
                    calls=src.many(call, 1, 14, 0.9), lookups=src.many(look, 0, 4, 0.6))

    def run(self, case, st):
        register()
        both = Both(case)
        both.step('parse', lambda: both.parse(0), lambda: both.parse(1))
        if not both.pairs:
            st.interesting()
            st.label('ParseError')
            return
        st.label('document')
        for c in case['calls']:
            x, y = both.pairs[c['at'] % len(both.pairs)]
            methods = METHODS.get(type(x))
            if methods is None:
                methods = METHODS[type(x)] = sorted((m for m in dir(x) if not m.startswith('_') and m != 'to_string' and callable(getattr(x, m))), key=lambda m: (m.startswith(('yields', 'string_')), m))
            m = methods[c['method'] % len(methods)]
            st.label(m)
            both.step(f'{type(x).__name__}.{m}', lambda: both.call(0, x, m, c), lambda: both.call(1, y, m, c), m)
        for l in case['lookups']:
            text = case['text']
            if l['by'] == 'index':
                at = dict(index=l['a'] % (len(text) + 3) - 1)
            else:
                lines = text.split('\n')
                line = l['a'] % (len(lines) + 2) - 1
                at = dict(line=line, column=l['b'] % ((len(lines[line]) if 0 <= line < len(lines) else 1) + 3) - 1)
            st.label('lookup')
            both.step(f'lookup {at}', lambda: enolib.lookup(text, **at), lambda: JS.lookup(text, **at))
        if len(case['calls']) > 3 and len(both.answers) > 1:
            st.interesting()


METHODS = {}
REGISTERED = set()


def register():
    """Loaders that both libraries have accessors for."""
    process = jseno.bridge().process
    for which in (process.pid, 'python'):
        if which not in REGISTERED:
            REGISTERED.add(which)
            (enolib if which == 'python' else JS).register(dict(picky=picky, upper_case=LOADERS['upper']))


class Both:
    """Objects of the one library with their counterparts of the other."""

    def __init__(self, case):
        self.case, self.pairs, self.twin, self.back, self.answers = case, [], {}, {}, set()
        self.history = []

    def parse(self, which):
        c = self.case
        options = dict(locale=(JS_LOCALES if which else eno.LOCALES)[c['locale']], reporter=(JS_REPORTERS if which else eno.REPORTERS)[c['reporter']])
        if c['source'] is not None:
            options['source'] = c['source']
        return (JS if which else enolib).parse(c['text'], **options)

    def call(self, which, real, m, c):
        fn = getattr(real, m)
        message = c['message']
        if message == 'fn':
            message = lambda e: f'about {e!r}' if e is None or isinstance(e, str) else f'about a {e._class if which else type(e).__name__} {e.string_key()}'
        if m in ('error', 'key_error', 'comment_error', 'value_error'):
            return fn(message)
        if m == 'assert_all_touched':
            these = c['these'] or [c['key']]    # an empty selection means everything to the one library and nothing to the other
            return fn(**({} if c['options'] == 'none' else dict(message=message) if c['options'] == 'message' else {'only' if c['options'] == 'only' else 'skip': these}))
        if m in ('key', 'optional_value', 'required_value', 'optional_values', 'required_values', 'optional_comment', 'required_comment'):
            return fn(LOADERS[c['loader']])
        if m in ('all_elements_required', 'all_entries_required'):
            return fn(False) if c['no_key'] else fn()
        if m in KEYED or m.split('_')[-1] in ('element', 'empty', 'field', 'fieldset', 'list', 'section', 'entry') and not m.startswith(('to_', 'yields_')):
            return fn() if c['no_key'] and 'entry' not in m else fn(c['key'])
        return fn()

    def step(self, what, one, other, m=None):
        self.history.append(what)
        a, b = self.outcome(one), self.outcome(other)
        self.same(a, b, m)
        self.answers.add(repr(a)[:80])

    def outcome(self, fn):
        try:
            return fn()
        except (eno.ParseError, eno.ValidationError, jseno.EnoError) as e:
            return e
        except IndexError:
            return 'IndexError'
        except TypeError as e:
            if 'already yielded' in str(e):
                return 'converted to another kind before'
            raise

    def same(self, a, b, m=None):
        if isinstance(a, (eno.ParseError, eno.ValidationError)):
            r = self.case['reporter']
            if not isinstance(b, jseno.EnoError) or type(a).__name__ != type(b).__name__:
                self.differ(a, b)
            for attribute in ('text', 'selection', 'cursor'):
                if getattr(a, attribute) != getattr(b, attribute):
                    self.differ(getattr(a, attribute), getattr(b, attribute), f'{attribute} of {a.text!r}')
            if shown(a.snippet, r) != shown(b.snippet, r):
                self.differ(shown(a.snippet, r), shown(b.snippet, r), 'snippets')
        elif isinstance(a, list):
            if not isinstance(b, list) or len(a) != len(b):
                self.differ(a, b)
            for x, y in zip(a, b):
                self.same(x, y)
        elif isinstance(a, dict) and type(b) is dict and any(map(is_object, a.values())):
            if set(a) != set(b):
                self.differ(a, b)
            for k in a:
                self.same(a[k], b[k])
        elif is_object(a):
            if not isinstance(b, jseno.Proxy) or type(a).__name__ != b._class:
                self.differ(a, b)
            if self.twin.setdefault(id(a), b._id) != b._id or self.back.setdefault(b._id, id(a)) != id(a):
                self.differ(a, b, 'an object that was another one before')
            if not any(x is a for x, _ in self.pairs):
                self.pairs.append((a, b))
        elif a != b or isinstance(a, bool) != isinstance(b, bool):
            self.differ(a, b)

    def differ(self, a, b, what=''):
        fail(f'the libraries differ {what}'.rstrip(), ' > '.join(self.history), f'Python:     {a!r}', f'JavaScript: {b!r}', self.case['text'])


KEYED = {'elements', 'fields', 'fieldsets', 'lists', 'sections', 'entries', 'empties'}


def is_object(x):
    return type(x).__module__.startswith('enolib')

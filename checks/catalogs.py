"""P46: the generator of the message catalogs (locales/generate.js), run in scratch copies."""
from common import *
import json, os, re, shutil, subprocess, tempfile
from engine import HarnessError

REPO = os.environ.get('VERIF_REPO', '/repo')
DRIVER = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib', 'standins', 'driver.js')
FILES = dict(javascript='javascript/lib/messages/{}.js', python='python/enolib/messages/{}.py', ruby='ruby/lib/enolib/messages/{}.rb', php='php/src/messages/{}.php')
LOCALES = ['en', 'de', 'en_gb', 'es', 'fr', 'pt_br', 'nl', 'xx']
WORDS = ['Key', 'Element', 'Missing', 'Line', 'Non-Section', 'A', 'Value', 'Empty', 'Two', 'Of-A-Kind', 'Zz', 'Copy', 'B-B', 'Wordy']
ARGUMENTS = ['KEY', 'LINE', 'KEYS', 'OLD KEY', 'SUB-KEY', 'X', 'MESSAGE', 'NEW OLD-KEY', 'lower', 'Mixed Case']
GROUPS = ['Parsing', 'Terminology', 'Reporting', 'Validation', 'Terminology Two', 'terminology', 'My Group']
SCRAPS = ['word', 'Zeile', "it's", 'ü', '→', 'a:b', '=', '- x', '> y', '[KEY]', '[OTHER]', '(', '/* */', '//', '%s', ';', "''", '&', '<b>', '|', '...', '100', '🎉', 'de la', '!', '?>', '[', ']', '~']
BAD_NAMES = ['lower', 'Two words', 'MiXed', 'Num8er', 'Double  Space', 'Non-section', 'UPPER', 'Trailing-', 'Ünder', 'Under_Score', 'A b', 'Full.', 'Key!', 'New\u00a0Space']


def camel(s):
    return re.sub('[ -](.)', lambda m: m[1].upper(), s.lower())


def snake(s):
    return re.sub('[ -]', '_', s).lower()


def render_spec(spec):
    out = ['> A note'] if spec['notes'] else []
    gap = [''] if spec['notes'] else []
    out += ['# Locales'] + gap + [f'{code}: {name}' for code, name in spec['locales']]
    out += gap + ['# Messages']
    for name, messages in spec['groups']:
        out += gap + [f'## {name}']
        for m in messages:
            if m['arguments']:
                out += [f'{m["name"]}:', m['comma'].join(m['arguments']) + ' = ' + m['text']]
            else:
                out += [f'{m["name"]}: {m["text"]}']
            if spec['notes']:
                out += gap
    bad = spec['bad']
    if bad == 'section':
        out += ['# Further', 'x: y']
    elif bad == 'value':
        out += ['## Last', 'Valueless:']
    elif bad == 'argument without message':
        out += ['## Last', 'Valueless:', 'KEY =']
    elif bad == 'two entries':
        out += ['## Last', 'Two Of Them:', 'KEY = one [KEY]', 'X = another [X]']
    elif bad == 'list':
        out += ['## Last', 'Listed:', '- one']
    elif bad == 'invalid':
        out += ['nothing that there is in the notation']
    elif bad == 'locale without name':
        out.insert(out.index('# Messages'), 'zz:')
    elif bad == 'no locales':
        out = [l for l in out if l != '# Locales' and not any(l == f'{c}: {n}' for c, n in spec['locales'])]
    elif bad == 'top-level field':
        out = ['Loose: field'] + out
    elif bad:
        kind, group, at, name = bad
        k = [i for i, l in enumerate(out) if l.startswith('## ')][group % len(spec['groups'])]
        heads = [i for i, l in enumerate(out) if i > k and re.match(r'[A-Z][A-Za-z -]*:', l)]
        until = next((i for i, l in enumerate(out) if i > k and l.startswith('## ')), len(out))
        heads = [i for i in heads if i < until]
        if kind == 'name':
            out.insert(heads[at % len(heads)] if heads else until, f'{name}: badly named')
        else:   # below one that belongs behind it
            out[until:until] = [f'Zzz Last: one', f'{name}: the other']
    return '\n'.join(out) + '\n'


def render_po(entries, style):
    out = []
    if style['header']:
        out += ['msgid ""', 'msgstr ""', '"Content-Type: text/plain; charset=UTF-8\\n"', '']
    for msgid, msgstr in entries:
        if style['comments']:
            out += ['#: somewhere', '# by a translator']
        if style['wrapped'] and len(msgid) > 4:
            out += ['msgid ""', f'"{msgid[:4]}"', f'"{msgid[4:]}"']
        else:
            out += [f'msgid "{msgid}"']
        if style['wrapped'] and len(msgstr) > 3:
            out += ['msgstr ""', f'"{msgstr[:3]}"', f'"{msgstr[3:]}"', '']
        else:
            out += [f'msgstr "{msgstr}"', '']
    return '\n'.join(out) + '\n'


def read_po(text):
    entries, field = [], None
    for line in text.split('\n'):
        m = re.match(r'\s*(msgid|msgstr)?\s*"(.*)"\s*$', line)
        if not m:
            if line.strip() and not line.lstrip().startswith('#'):
                fail('a line of a translation file that is none', repr(line), text)
            continue
        if m[1] == 'msgid':
            entries.append(['', ''])
        if m[1]:
            field = m[1]
        if not entries:
            fail('a text without an entry in a translation file', repr(line), text)
        entries[-1][field == 'msgstr'] += m[2]
    return [tuple(e) for e in entries if e[0]]


def updated(entries, spec, code):
    """What a translation file says after the generator has run; entries is None where there was no file."""
    known = dict(entries or [])
    out = []
    for _, messages in spec['groups']:
        for m in messages:
            t = known.get(m['text'], '') if entries is not None else ''
            out.append((m['text'], (m['text'] if code == 'en' else '') if not t.strip() else t))
    return out


def messages_of(spec):
    return [m for name, messages in spec['groups'] if name != 'Terminology' for m in messages]


def filled(translation, arguments):
    for i, a in enumerate(arguments):
        translation = translation.replace(f'[{a}]', f'<{i}>')
    return translation


def expected_catalog(spec, entries, language, code):
    t = dict(entries)
    out = {}
    for m in messages_of(spec):
        name = m['name']
        if language == 'javascript' or language == 'php' and m['arguments']:
            name = camel(name)
        elif language == 'python' or language == 'ruby' and m['arguments']:
            name = snake(name)
        else:
            name = snake(name).upper()
        out[name] = [len(m['arguments']), filled(t[m['text']], m['arguments'])] if m['arguments'] else t[m['text']]
    return out


def read_python(text):
    names = {}
    try:
        exec(compile(text, 'catalog', 'exec'), names)
        return {k: [v.__code__.co_argcount, v(*(f'<{i}>' for i in range(v.__code__.co_argcount)))] if callable(v) else v for k, v in names.items() if not k.startswith('__')}
    except Exception as e:
        fail('a catalog for Python that cannot be loaded', repr(e), text)


def read_ruby_or_php(text, language, code):
    title = code[:1].upper() + code[1:]
    out = {}
    if language == 'ruby':
        if not re.search(rf'^\s*module {title}\s*$', text, re.M):
            fail('no module for the locale', title, text)
        constant, function, hole = r"^\s*([A-Z]\w*)\s*=\s*'((?:[^'\\]|\\.)*)'", r'^\s*def self\.(\w+)\(([^)]*)\)\s*"((?:[^"\\]|\\.)*)"\s*end', r'#\{(\w+)\}'
    else:
        if not re.search(rf'^\s*class {title}\b', text, re.M) or not text.startswith('<?php'):
            fail('no class for the locale', title, text)
        constant, function, hole = r"^\s*const ([A-Z]\w*)\s*=\s*'((?:[^'\\]|\\.)*)';", r'^\s*public static function (\w+)\(([^)]*)\)\s*\{\s*return "((?:[^"\\]|\\.)*)";\s*\}', r'\{\$(\w+)\}'
    for m in re.finditer(constant, text, re.M):
        if m[1] in out:
            fail('a name twice', m[1], text)
        out[m[1]] = m[2].replace("\\'", "'")
    for m in re.finditer(function, text, re.M):
        if m[1] in out:
            fail('a name twice', m[1], text)
        parameters = [p.strip().lstrip('$') for p in m[2].split(',')]

        def fill(h):
            if h[1] not in parameters:
                fail('a placeholder for no parameter', h[1], text)
            return f'<{parameters.index(h[1])}>'
        out[m[1]] = [len(parameters), re.sub(hole, fill, m[3])]
    return out


def read_catalogs(result):
    """{language: {code: {name: text | [number of arguments, text]}}} of all the files there are"""
    out = {}
    for language, pattern in FILES.items():
        directory, suffix = pattern.split('{}')
        found = out[language] = {}
        for name, text in result['files'].items():
            if not name.startswith(directory) or name.endswith('/__init__.py'):
                continue
            code = name[len(directory):]
            if not code.endswith(suffix):
                fail('a file that does not belong among the catalogs', name)
            code = code[:-len(suffix)]
            if language == 'javascript':
                answers = result['javascript'][name[len(directory):]]
                if list(answers) != [code]:
                    fail('a catalog for JavaScript that is not the one of its locale', f'{name}: {answers}', text)
                found[code] = answers[code]
            elif language == 'python':
                found[code] = read_python(text)
            elif language == 'php':
                if code[:1] != code[:1].upper():
                    fail('a file of a class of another name', name)
                code = code[:1].lower() + code[1:]
                found[code] = read_ruby_or_php(text, language, code)
            else:
                found[code] = read_ruby_or_php(text, language, code)
    return out


def generate_in_scratch(steps):
    scratch = tempfile.mkdtemp(prefix='verif-catalogs-')
    try:
        # some levels down, so that a wrong step upwards stays inside
        copy = os.path.join(scratch, 'a/b/c/d/repo')
        os.makedirs(copy)
        for d in ('locales', 'javascript/lib', 'python/enolib/messages', 'ruby/lib/enolib/messages'):
            if os.path.isdir(os.path.join(REPO, d)):
                shutil.copytree(os.path.join(REPO, d), os.path.join(copy, d), ignore=shutil.ignore_patterns('__pycache__', 'node_modules'))
        for f in ('utilities.js', 'package.json', 'javascript/package.json'):
            if os.path.isfile(os.path.join(REPO, f)):
                shutil.copy(os.path.join(REPO, f), os.path.join(copy, f))
        with open(os.path.join(scratch, 'steps.json'), 'w') as f:
            json.dump(steps, f)
        result = os.path.join(scratch, 'result.json')
        try:
            p = subprocess.run(['node', '--max-old-space-size=500', DRIVER, copy, os.path.join(scratch, 'steps.json'), result], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60, cwd=scratch)
        except subprocess.TimeoutExpired:
            fail('the generator does not end', json.dumps(steps, ensure_ascii=False))
        if not os.path.exists(result):
            raise HarnessError(f'no result of the driver: {p.stdout[-2000:]}')
        with open(result) as f:
            return json.load(f)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


class P46(Prop):
    id = 'P46'
    quick = 2400
    thorough_factor = 30
    rule = ('A case is one to four runs of the generator, each after changes of the specification (messages, texts, arguments, groups, locales), of the translations, or after a mistake in the specification. '
            'Non-trivial: at least two locales and a translated message with an argument, or a rejected specification.')
    assumptions = ['lib/standins/driver.js stands in for the four packages of the registry that the generator uses and that are not installed (enotype, fs-extra, gettext-parser, speakingurl)',
                   'texts without quotation marks, backticks, backslashes, braces, $ and #; names that no language reserves; the catalogs for Ruby and PHP are read as text']

    def fixed(self):
        return [dict(own=True)]

    def gen(self, src):
        def scraps(arguments=()):
            pool = SCRAPS + [f'[{a}]' for a in arguments] * 4
            return ' '.join(src.many(lambda: src.pick(pool), 1, 6, 0.7))

        def message(taken):
            name = ' '.join(src.many(lambda: src.pick(WORDS), 1, 4, 0.5))
            if snake(name) in taken:
                return None
            taken.add(snake(name))
            arguments = []
            if src.p(0.5):
                for a in src.many(lambda: src.pick(ARGUMENTS), 1, 3, 0.4):
                    if snake(a) not in map(snake, arguments):
                        arguments.append(a)
            return dict(name=name, arguments=arguments, comma=src.pick([', ', ',', ' , ']), text=scraps(arguments))

        def group(taken, names):
            name = src.pick(GROUPS)
            if name in names:
                return None
            names.add(name)
            return [name, sorted(filter(None, src.many(lambda: message(taken), 0, 5, 0.75)), key=lambda m: m['name'])]

        def locale(codes):
            code = src.pick(LOCALES)
            if code in codes:
                return None
            codes.add(code)
            return [code, src.pick(['German', 'English', 'Português do Brasil'])]

        taken, names, codes = set(), set(), set()
        spec = dict(locales=list(filter(None, src.many(lambda: locale(codes), 1, 4, 0.7))) , groups=list(filter(None, src.many(lambda: group(taken, names), 1, 4, 0.7))), notes=src.p(0.4), bad=None)
        steps = []
        for n in range(src.between(1, 4)):
            spec = json.loads(json.dumps(spec))
            if n:
                for _ in range(src.between(0, 3)):
                    what = src.pick(['none', 'text', 'add', 'drop', 'locale', 'locale away', 'arguments', 'group'])
                    g = src.pick(spec['groups'])
                    if what == 'add':
                        m = message(taken)
                        if m:
                            g[1] = sorted(g[1] + [m], key=lambda m: m['name'])
                    elif what == 'group':
                        new = group(taken, names)
                        if new:
                            spec['groups'].insert(src.i(len(spec['groups']) + 1), new)
                    elif what == 'locale':
                        l = locale(codes)
                        if l:
                            spec['locales'].append(l)
                    elif what == 'locale away' and len(spec['locales']) > 1:
                        codes.discard(spec['locales'].pop(src.i(len(spec['locales'])))[0])
                    elif g[1]:
                        m = src.pick(g[1])
                        if what == 'text':
                            m['text'] = scraps(m['arguments'])
                        elif what == 'drop':
                            g[1].remove(m)
                            taken.discard(snake(m['name']))
                        elif what == 'arguments' and m['arguments']:
                            m['arguments'] = src.shuffled(m['arguments'])
            edits = []
            texts = [[m['text'], m['arguments']] for _, g in spec['groups'] for m in g]
            for code in LOCALES:
                if src.p(0.5 if n == 0 else 0.25):
                    translate = []
                    for text, arguments in texts:
                        if src.p(0.7):
                            translate.append([text, src.weighted((6, 'scraps'), (1, ''), (1, '  '), (1, 'spaces'))])
                            if translate[-1][1] == 'scraps':
                                translate[-1][1] = scraps(arguments)
                            elif translate[-1][1] == 'spaces':
                                translate[-1][1] = ' ' + scraps(arguments) + ' '
                    if src.p(0.2):
                        translate.insert(0, ['an obsolete text', 'obsolete'])
                    edits.append(dict(code=code, translate=translate, keep=src.p(0.8), style=dict(header=src.p(0.4), comments=src.p(0.3), wrapped=src.p(0.3)), backwards=src.p(0.3)))
            steps.append(dict(spec=spec, edits=edits))
        if src.p(0.25):
            bad = src.pick(['section', 'value', 'argument without message', 'two entries', 'list', 'invalid', 'locale without name', 'no locales', 'top-level field', 'name', 'name', 'order', 'order'])
            if bad == 'name':
                bad = [bad, src.i(4), src.i(5), src.pick(BAD_NAMES)]
            elif bad == 'order':
                bad = [bad, src.i(4), 0, src.pick(['Zzz Earlier', 'Abc', 'Zzz', 'Zzz Lasp', 'Zzz A-B'])]
            steps[-1]['spec']['bad'] = bad
        return dict(steps=steps)

    def run(self, case, st):
        if 'own' in case:
            return self.own(st)
        # en is left alone without a file of translations at its first run, and gets them at the second
        state = {'en': []}
        orders, expected = [], []
        for n, step in enumerate(case['steps']):
            spec = step['spec']
            orders.append({'locales/specification.eno': render_spec(spec)})
            if n == 0:
                for f in os.listdir(os.path.join(REPO, 'locales/translations')):
                    orders[0][f'locales/translations/{f}'] = None
                orders[0]['locales/translations/en.po'] = render_po([], dict(header=True, comments=False, wrapped=False))
            for e in step['edits']:
                entries = dict(state.get(e['code']) or [] if e['keep'] else [])
                entries.update(e['translate'])
                entries = list(entries.items())[::-1 if e['backwards'] else 1]
                state[e['code']] = entries
                orders[-1][f'locales/translations/{e["code"]}.po'] = render_po(entries, e['style'])
            before = {k: list(v) for k, v in state.items()}
            for code, _ in spec['locales']:
                state[code] = updated(state.get(code), spec, code)
            expected.append((before, {k: list(v) for k, v in state.items()}))
        results = generate_in_scratch(orders)
        previous = None
        for n, (step, (before, after), result) in enumerate(zip(case['steps'], expected, results)):
            where = f'run {n + 1}, specification:\n{orders[n]["locales/specification.eno"]}'
            spec = step['spec']
            self.translations(spec, before, after, result, where)
            if spec['bad']:
                self.rejected(spec, result, previous, where)
                st.label('rejected: ' + (spec['bad'] if isinstance(spec['bad'], str) else spec['bad'][0]))
                st.interesting()
                continue
            if result['failure']:
                fail('a valid specification is rejected', result['failure']['error'], where)
            catalogs = read_catalogs(result)
            codes = [code for code, _ in spec['locales']]
            for language, found in catalogs.items():
                if sorted(found) != sorted(codes):
                    fail(f'catalogs of other locales for {language}', f'{sorted(found)} instead of {sorted(codes)}', where)
                for code in codes:
                    want = expected_catalog(spec, after[code], language, code)
                    if found[code] != want:
                        names = sorted(k for k in {*found[code], *want} if found[code].get(k) != want.get(k))
                        fail(f'catalog {code} for {language} differs', *(f'{k}: {found[code].get(k)!r} instead of {want.get(k)!r}' for k in names[:5]), where)
                if language == 'javascript' and 'python/enolib/messages/__init__.py' not in result['files']:
                    fail('the catalogs for Python are no package', where)
            if len(codes) > 1 and any(isinstance(x, list) and x[1] for c in catalogs['python'].values() for x in c.values()):
                st.interesting()
            st.label(f'{len(codes)} locales', f'run {n + 1}')
            if any(s.strip() and dict(before.get(c) or []).get(m) == s for c in codes for m, s in after[c]):
                st.label('translation kept')
            previous = result
        if previous is None:
            return

    def translations(self, spec, before, after, result, where):
        files = {name[len('locales/translations/'):]: text for name, text in result['files'].items() if name.startswith('locales/translations/')}
        if not spec['bad'] and set(files) != {c + '.po' for c in after}:
            fail('other translation files', f'{sorted(files)} instead of {sorted(after)}', where)
        for code, want in after.items():
            if code + '.po' not in files:
                if code in before:
                    fail('a translation file is gone', code, where)
                continue
            got = read_po(files[code + '.po'])
            # blank translations and missing ones are the same to a rejected run
            if got == want or spec['bad'] and (got == before.get(code) or self.lossless(before.get(code), got)):
                continue
            fail('translations differ', f'{code}: {got}', f'instead of {want}', where)

    def lossless(self, before, got):
        """Nothing of what was translated has changed (a mistake in a specification may add to what it specifies)."""
        before = dict(before or [])
        return all(before.get(k, '') == v or not before.get(k, '').strip() for k, v in got)

    def rejected(self, spec, result, previous, where):
        if not result['failure']:
            fail('a mistaken specification is accepted', str(spec['bad']), where)
        if not isinstance(spec['bad'], str):
            if spec['bad'][3] not in (result['failure']['text'] or result['failure']['error']):
                fail('the message in question is not named', result['failure']['error'], where)
        now = {k: v for k, v in result['files'].items() if '/messages/' in k}
        if previous is not None:
            was = {k: v for k, v in previous['files'].items() if '/messages/' in k}
        else:
            was = committed()
        if now != was:
            fail('catalogs of a mistaken specification', f'changed: {sorted(k for k in {*now, *was} if now.get(k) != was.get(k))}', where)

    def own(self, st):
        result = generate_in_scratch([None, {}])
        before, after = result
        if after['failure']:
            fail("the repository's own specification is rejected", after['failure']['error'])
        for name, text in before['files'].items():
            if name.startswith('locales/translations/') and read_po(after['files'].get(name, '')) != read_po(text):
                fail('generating changes the translations', name)
        was, now = read_catalogs(before), read_catalogs(after)
        for language in ('javascript', 'python', 'ruby'):
            if set(was[language]) != set(now[language]):
                fail(f'other locales for {language}', f'{sorted(now[language])} instead of {sorted(was[language])}')
            for code in was[language]:
                a, b = was[language][code], now[language][code]
                if a != b:
                    fail(f'the catalog {code} for {language} is not the generated one', *(f'{k}: {a.get(k)!r}, generated: {b.get(k)!r}' for k in sorted({*a, *b}) if a.get(k) != b.get(k)))
        st.label("the repository's own")


def committed():
    out = {}
    for directory in ('javascript/lib/messages', 'python/enolib/messages', 'ruby/lib/enolib/messages'):
        full = os.path.join(REPO, directory)
        for name in os.listdir(full) if os.path.isdir(full) else []:
            if os.path.isfile(os.path.join(full, name)):
                with open(os.path.join(full, name)) as f:
                    out[f'{directory}/{name}'] = f.read()
    return out

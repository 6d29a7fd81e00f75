"""The message catalogue as the repository specifies it: locales/specification.eno and locales/translations/*.po."""
import os, re
from engine import harness

LOCALES_DIR = os.path.join(os.environ.get('VERIF_REPO', '/repo'), 'locales')


@harness
def load():
    """{locale: {message: (text with [ARG]s, [ARG, ...])}}"""
    messages = {}
    name = None
    group = None
    for line in open(os.path.join(LOCALES_DIR, 'specification.eno'), encoding='utf-8').read().split('\n'):
        if line.startswith('## '):
            group = line[3:].strip()
        elif group not in ('Reporting', 'Parsing', 'Validation') or not line.strip() or line.startswith('>'):
            continue
        else:
            plain = re.match(r'^([^:=]+?)\s*:\s*(.*)$', line)
            entry = re.match(r'^([A-Z, ]+?)\s*=\s*(.*)$', line)
            if entry:
                messages[name] = (entry[2], [a.strip() for a in entry[1].split(',')])
            elif plain:
                name = re.sub(r'[^a-z]+', '_', plain[1].lower())
                if plain[2]:
                    messages[name] = (plain[2], [])
    out = {}
    for locale in ('de', 'en', 'es'):
        text = open(os.path.join(LOCALES_DIR, 'translations', locale + '.po'), encoding='utf-8').read()
        unquote = lambda s: s.replace('\\"', '"').replace('\\\\', '\\')
        pairs = {unquote(a): unquote(b) for a, b in re.findall(r'^msgid "(.*)"\nmsgstr "(.*)"$', text, re.M)}
        out[locale] = {n: (pairs[t] or t, args) for n, (t, args) in messages.items()}
    return out


def render(entry, args):
    """Fills arguments in verbatim."""
    template, names = entry
    if not names:
        return template
    parts = re.split('(' + '|'.join(re.escape(f'[{n}]') for n in names) + ')', template)
    values = {f'[{n}]': str(a) for n, a in zip(names, args)}
    return ''.join(values.get(p, p) for p in parts)

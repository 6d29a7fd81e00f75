#!/usr/bin/env python3
"""Plants, verifies and evaluates the bugs in seeded/ (a tool for the author; no check uses it).

  seeded.py plant FILE.py     FILE defines BUGS, a list of dicts: id, property, edits [(file, old, new)], demo, needs, breaks
  seeded.py verify [ID...]    applies each patch in a scratch copy: tests pass, demo fails; demo passes without it
  seeded.py catch [-a] [ID...]  runs the check of the bug's property (-a: every check) against the patched copy
"""
import json, os, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.environ.get('SEEDED_DIR') or os.path.join(HERE, 'seeded')
PY = '/opt/venv/bin/python'
DEMO_SH = '''#!/bin/bash
# cwd: /repo after the build. Exit 0 when the property holds for the demonstrated case.
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD/python"
exec python3 "$(cd "$(dirname "$0")" && pwd)/demo.py"
'''
DEMO_JS = '''#!/bin/bash
# cwd: /repo after the build. Exit 0 when the property holds for the demonstrated case.
exec node "$(cd "$(dirname "$0")" && pwd)/demo.js"
'''
DEMO_JS_HEAD = '''const assert = require('assert');
const path = require('path');
const eno = require(path.join(process.cwd(), 'javascript', 'lib', 'main.js'));
const { ParseError, ValidationError } = require(path.join(process.cwd(), 'javascript', 'lib', 'error_types.js'));
'''
DEMO_CATALOGS = '''import json, os, re, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.abspath(__file__))


def generate(*steps):
    """Runs the generator of the catalogs in a scratch copy, after writing the files of each step."""
    scratch = tempfile.mkdtemp()
    try:
        copy = os.path.join(scratch, 'a/b/c/d/repo')
        os.makedirs(copy)
        for d in ('locales', 'javascript/lib', 'python/enolib/messages', 'ruby/lib/enolib/messages'):
            shutil.copytree(d, os.path.join(copy, d))
        for f in ('utilities.js', 'javascript/package.json'):
            shutil.copy(f, os.path.join(copy, f))
        orders, result = os.path.join(scratch, 'steps.json'), os.path.join(scratch, 'result.json')
        with open(orders, 'w') as f:
            json.dump(steps, f)
        subprocess.run(['node', os.path.join(HERE, 'driver.js'), copy, orders, result], check=True, cwd=scratch)
        with open(result) as f:
            return json.load(f)
    finally:
        shutil.rmtree(scratch)


SPEC, DE, EN, ES = 'locales/specification.eno', 'locales/translations/de.po', 'locales/translations/en.po', 'locales/translations/es.po'


def spec(messages, locales='de: German'):
    return f'# Locales\\n{locales}\\n# Messages\\n{messages}\\n'


def po(**translations):
    return ''.join(f'msgid "{k}"\\nmsgstr "{v}"\\n\\n' for k, v in translations.items())

'''
JEST_CONFIG = '''module.exports = {
  collectCoverageFrom: ["lib/**"], setupFilesAfterEnv: ['./jest.setup.js'],
  testRegex: '/specs/.*\\\\.spec\\\\.js$', snapshotFormat: { escapeString: true, printBasicPrototype: true }
};
'''


def sh(cmd, cwd=None, timeout=900, env=None):
    p = subprocess.run(cmd, cwd=cwd, timeout=timeout, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


class Copy:
    def __enter__(self):
        self.dir = tempfile.mkdtemp(prefix='seeded-', dir='/tmp')
        self.repo = os.path.join(self.dir, 'repo')
        shutil.copytree('/repo', self.repo, symlinks=True)
        return self.repo

    def __exit__(self, *a):
        shutil.rmtree(self.dir)


def tests(repo):
    env = dict(os.environ, PYTHONPATH=os.path.join(repo, 'python'), PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
    rc, out = sh([PY, '-c', 'import enolib; print(enolib.__file__)'], cwd=repo, env=env)
    assert repo in out, out
    rc, out = sh([PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '--ignore=tests/test_parse.py'], cwd=os.path.join(repo, 'python'), env=env)
    ok = rc == 0 and '380 passed' in out
    sh(['git', 'clean', '-fdq', 'python/tests'], cwd=repo)
    return ok, out


def specs(repo):
    """The specs of the JavaScript library, in a copy prepared for the jest that is installed here."""
    top = tempfile.mkdtemp(prefix='specs-', dir='/tmp')
    try:
        for part in ('javascript', 'specs', 'locales'):
            shutil.copytree(os.path.join(repo, part), os.path.join(top, part), symlinks=True)
        js = os.path.join(top, 'javascript')
        os.symlink('/opt/veriftools/node/node_modules', os.path.join(js, 'node_modules'))
        with open(os.path.join(js, 'jest.config.js'), 'w') as f:
            f.write(JEST_CONFIG)
        for folder, _, files in os.walk(os.path.join(js, 'specs')):
            for name in files:
                if name.endswith('.snap'):
                    path = os.path.join(folder, name)
                    text = open(path).read()
                    with open(path, 'w') as f:
                        f.write(text.replace('https://goo.gl/fbAQLP', 'https://jestjs.io/docs/snapshot-testing'))
        rc, out = sh(['npx', 'jest', '--ci', '--silent'], cwd=js)
        return rc == 0, '\n'.join(l for l in out.split('\n') if l.startswith(('Tests:', 'Snapshots:')) or '●' in l)[:600]
    finally:
        shutil.rmtree(top)


def demo(folder, repo):
    return sh(['bash', os.path.join(folder, 'demo.sh')], cwd=repo, timeout=300)


def plant(bug):
    folder = os.path.join(SEEDED, bug['id'])
    js = bug.get('js')
    lib = 'locales' if js == 'locales' else 'javascript/lib' if js else 'python/enolib'
    with Copy() as repo:
        base = sh(['git', 'rev-list', '--max-parents=0', 'HEAD'], cwd=repo)[1].strip()
        for file, old, new in bug['edits']:
            path = os.path.join(repo, lib, file)
            text = open(path).read()
            if text.count(old) != 1:
                return f'{file}: {text.count(old)} matches of {old!r}'
            open(path, 'w').write(text.replace(old, new))
        patch = subprocess.run(['git', 'diff', '--', lib], cwd=repo, stdout=subprocess.PIPE, text=True).stdout
        for file in {e[0] for e in bug['edits']}:
            original = sh(['git', 'show', f'{base}:{lib}/{file}'], cwd=repo)[1].split('\n')
            section = patch.split(f'+++ b/{lib}/{file}\n')[1].split('\ndiff --git')[0]
            removed = [l[1:] for l in section.split('\n') if l.startswith('-') and l[1:].strip()]
            foreign = [l for l in removed if l not in original]
            if foreign:
                return f'{file}: changes lines that are not original: {foreign}'
            if not removed:
                print(f'   note: {file}: only adds lines')
        ok, out = tests(repo)
        if not ok:
            return 'tests: ' + '\n'.join(out.split('\n')[-25:])
        if js:
            ok, out = specs(repo)
            if not ok:
                return 'specs: ' + out
        os.makedirs(folder, exist_ok=True)
        open(os.path.join(folder, 'patch.diff'), 'w').write(patch)
        open(os.path.join(folder, 'demo.sh'), 'w').write(DEMO_JS if js is True else DEMO_SH)
        os.chmod(os.path.join(folder, 'demo.sh'), 0o755)
        open(os.path.join(folder, 'demo.js' if js is True else 'demo.py'), 'w').write((DEMO_JS_HEAD if js is True else DEMO_CATALOGS if js == 'locales' else '') + bug['demo'].lstrip('\n'))
        if js == 'locales':
            shutil.copy(os.path.join(HERE, 'lib', 'standins', 'driver.js'), folder)
        json.dump(dict(property=bug['property'], needs=bug['needs'], what_it_breaks=bug['breaks']), open(os.path.join(folder, 'meta.json'), 'w'), indent=1)
        rc, out = demo(folder, repo)
        rc0, out0 = demo(folder, '/repo')
        if rc == 0 or rc0 != 0:
            shutil.rmtree(folder)
            return f'demo: patched {rc} unchanged {rc0}\n{out}\n{out0}'
    return None


def ids(args):
    return args or sorted(d for d in os.listdir(SEEDED) if os.path.isdir(os.path.join(SEEDED, d)))


def main():
    cmd, args = sys.argv[1], sys.argv[2:]
    if cmd == 'plant':
        scope = {}
        exec(open(args[0]).read(), scope)
        for bug in scope['BUGS']:
            if len(args) > 1 and bug['id'] not in args[1:]:
                continue
            problem = plant(bug)
            print(bug['id'], bug['property'], problem or 'planted', flush=True)
    elif cmd == 'verify':
        for id in ids(args):
            folder = os.path.join(SEEDED, id)
            with Copy() as repo:
                rc0, _ = demo(folder, repo)
                rc, out = sh(['git', 'apply', os.path.join(folder, 'patch.diff')], cwd=repo)
                if rc:
                    print(id, 'does not apply', out)
                    continue
                ok, _ = tests(repo)
                rc1, _ = demo(folder, repo)
                print(id, 'ok' if ok and rc0 == 0 and rc1 != 0 else f'BAD tests={ok} demo={rc0},{rc1}', flush=True)
    elif cmd == 'catch':
        every = '-a' in args
        args = [a for a in args if a != '-a']
        for id in ids(args):
            folder = os.path.join(SEEDED, id)
            own = json.load(open(os.path.join(folder, 'meta.json')))['property']
            with Copy() as repo:
                rc, out = sh(['git', 'apply', os.path.join(folder, 'patch.diff')], cwd=repo)
                assert rc == 0, out
                caught = []
                seed = os.environ.get('VERIF_SEED', '1')
                props = [f'P{n:02}' for n in range(1, 32)] if every else [own]
                kind = ''
                for p in props:
                    env = dict(os.environ, VERIF_REPO=repo, VERIF_SEED=seed, VERIF_TIER='quick', PYTHONHASHSEED='0')
                    rc, out = sh(['python3-vt', 'run.py', p], cwd=HERE, env=env)
                    if rc == 1 and f'VIOLATION property={p}' in out:
                        caught.append(p)
                    elif rc != 0:
                        caught.append(f'{p}?{rc}')
                    if p == own and rc:
                        kind = [l for l in out.split('\n') if l and not l.startswith(('P', 'KNOWN'))][:1]
                print(id, own, 'CAUGHT' if own in caught else 'MISSED', caught, kind, flush=True)


if __name__ == "__main__":
    main()

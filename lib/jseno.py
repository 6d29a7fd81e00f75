"""The JavaScript library behind the interface of the Python one: a node process per worker serves it.

Methods are called by their names in Python and reach JavaScript under their names there (optional_string_value ->
optionalStringValue); loaders and message functions are called back; exceptions become ParseError, ValidationError,
TypeError (thrown strings: misuse of the interface), IndexError (RangeError), RecursionError. Positions are converted
from UTF-16 code units to characters."""
import json, os, re, select, subprocess, sys, time, types, weakref
from engine import Discard, Hang, HarnessError, Violation

COUNT_BLOCKS = False
REPO = os.environ.get('VERIF_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))


class EnoError(Exception):
    def __init__(self, data, text):
        super().__init__(data['message'])
        self.text, self.snippet, self.message = data['text'], data['snippet'], data['message']
        self.selection = positions(data['selection'], text)
        self.cursor = positions(data['cursor'], text)

    def __str__(self):
        return self.message


class ParseError(EnoError):
    pass


class ValidationError(EnoError):
    pass


def astral(text):
    return text is not None and any(c > '\uffff' for c in text)


def units(s):
    """Length in UTF-16 code units."""
    return len(s) + sum(c > '\uffff' for c in s)


def from_units(text, index):
    """Position in characters of a position in UTF-16 code units."""
    k = n = 0
    while k < index and n < len(text):
        k += 2 if text[n] > '\uffff' else 1
        n += 1
    return n if k == index else n + (index - k)


def positions(value, text):
    if not isinstance(value, dict) or not astral(text):
        return value
    if set(value) == {'column', 'index', 'line'} and all(isinstance(x, int) for x in value.values()):
        lines = text.split('\n')
        line = lines[value['line']] if 0 <= value['line'] < len(lines) else ''
        return dict(column=from_units(line, value['column']), index=from_units(text, value['index']), line=value['line'])
    return {k: positions(v, text) for k, v in value.items()}


def camel(name):
    return re.sub(r'_+([^\W_])', lambda m: m[1].upper(), name)


def snake(name):
    return re.sub(r'[A-Z]', lambda m: '_' + m[0].lower(), name)


class Undefined:
    def __repr__(self):
        return 'undefined'


UNDEFINED = Undefined()
# their results mean nothing
PROCEDURES = {'touch', 'assert_all_touched', 'all_elements_required', 'all_entries_required'}


class Crash(Exception):
    """The node process died."""


class Bridge:
    ANSWER_S = 20.0

    def __init__(self):
        self.start()

    def start(self):
        import eno
        probe = dict(constants={camel(m): eno.probe_constant(m) for m in eno.CONSTANT_MESSAGES},
                     functions={camel(m): m for m in eno.MESSAGES_1 + eno.MESSAGES_2})
        self.process = subprocess.Popen(['node', '--max-old-space-size=1500', os.path.join(HERE, 'jsbridge.js'), REPO, json.dumps(probe), 'count' if COUNT_BLOCKS else ''],
                                        stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, close_fds=True)
        self.fd = self.process.stdout.fileno()
        self.buffer = b''
        self.free = []
        self.proxies = weakref.WeakValueDictionary()
        self.foreign = {}
        self.names = {}
        self.callbacks, self.lasting, self.keep = [], [], False
        self.pending = None
        self.depth = 0

    def stop(self):
        self.process.kill()
        self.process.wait()
        self.process.stdin.close()
        self.process.stdout.close()

    def cpu(self):
        with open(f'/proc/{self.process.pid}/stat') as f:
            fields = f.read().rsplit(')', 1)[1].split()
        return (int(fields[11]) + int(fields[12])) / os.sysconf('SC_CLK_TCK')

    def read(self):
        started = None
        while b'\n' not in self.buffer:
            ready, _, _ = select.select([self.fd], [], [], 2.0)
            if not ready:
                try:
                    now = self.cpu()
                except (OSError, IndexError, ValueError):
                    now = time.monotonic()
                if started is None:
                    started = now
                if now - started > self.ANSWER_S:
                    self.stop()
                    raise Hang()
                continue
            data = os.read(self.fd, 1 << 20)
            if not data:
                self.stop()
                raise Crash('the node process ended')
            self.buffer += data
        line, _, self.buffer = self.buffer.partition(b'\n')
        return json.loads(line)

    def write(self, message):
        data = json.dumps(message).encode()
        try:
            self.process.stdin.write(data + b'\n')
            self.process.stdin.flush()
        except (BrokenPipeError, ValueError):
            raise Crash('the node process ended')

    def encode(self, value):
        if value is None or isinstance(value, (str, int, float)):
            return value
        if isinstance(value, Proxy):
            return dict(o=value._id)
        if value is UNDEFINED:
            return dict(u=1)
        if isinstance(value, Special):
            return dict(special=[value._kind, value._name, value._which])
        if isinstance(value, (list, tuple)):
            return dict(l=[self.encode(v) for v in value])
        if isinstance(value, dict):
            return dict(d=[[k, self.encode(v)] for k, v in value.items()])
        if isinstance(value, Named):
            return dict(cb=self.remember(value.fn), name=value.name)
        if callable(value):
            return dict(cb=self.remember(value))
        raise HarnessError(f'cannot send {value!r}')

    def remember(self, fn):
        table = self.lasting if self.keep else self.callbacks
        table.append(fn)
        return (len(table) - 1) * 2 + self.keep

    def decode(self, value, text):
        if not isinstance(value, dict):
            return value
        if 'o' in value:
            p = self.proxies.get(value['o'])
            if p is None:
                p = Proxy(self, value['o'], value['c'], text)
                self.proxies[value['o']] = p
            p._times += 1
            return p
        if 'l' in value:
            return [self.decode(v, text) for v in value['l']]
        if 'd' in value:
            return {snake(k): self.decode(v, text) for k, v in value['d']}
        if 'e' in value:
            return self.error(value['e'], text)
        if 'f' in value:
            return self.foreign[value['f']]
        if 'u' in value:
            return UNDEFINED
        raise HarnessError(f'foreign value {value!r}')

    def error(self, data, text):
        return dict(ParseError=ParseError, ValidationError=ValidationError).get(data['c'], EnoError)(data, text)

    def ask(self, text=None, **message):
        """One call; serves callbacks on the way."""
        if self.process.poll() is not None or self.process.stdin.closed:
            self.start()
        if self.depth == 0:
            self.callbacks, self.foreign, self.pending = [], {}, None
        if 'a' in message:
            message['a'] = [self.encode(v) for v in message['a']]
        if self.free:
            message['free'], self.free = self.free, []
        self.depth += 1
        try:
            self.write(message)
            while True:
                answer = self.read()
                if 'k' not in answer:
                    break
                fn = (self.lasting if answer['k'] % 2 else self.callbacks)[answer['k'] // 2]
                try:
                    result = fn(*[self.decode(v, text) for v in answer['a']])
                    if result is None or isinstance(result, (str, int, float)):
                        reply = dict(r=result)
                    elif result is UNDEFINED:
                        reply = dict(r=dict(u=1))
                    else:
                        self.foreign[len(self.foreign)] = result
                        reply = dict(r=dict(f=len(self.foreign) - 1))
                except ValueError as e:
                    reply = dict(t=str(e))
                except (Crash, Hang):
                    raise
                except BaseException as e:
                    self.pending = e
                    reply = dict(t='exception of the other side')
                self.write(reply)
        except BaseException:
            if self.process.poll() is None:
                # the other side waits for something that never comes
                self.stop()
            self.depth = 1
            raise
        finally:
            self.depth -= 1
        if self.pending is not None:
            if self.depth == 0:
                pending, self.pending = self.pending, None
                raise pending
        if 'e' in answer:
            raise self.error(answer['e'], text)
        if 't' in answer:
            raise TypeError(answer['t'])
        if 'x' in answer:
            name, message, stack = answer['x']
            if name == 'RangeError' and 'call stack' in message:
                raise RecursionError(message)
            if name == 'RangeError':
                raise IndexError(message)
            raise RuntimeError(f'{name}: {message}\n{stack}')
        return self.decode(answer['r'], text)


_bridge = None
_owner = None


def bridge():
    """The bridge of this process."""
    global _bridge, _owner
    if _bridge is None or _owner != os.getpid():
        _bridge, _owner = Bridge(), os.getpid()
    return _bridge


class Special:
    """A locale or reporter of the other side."""

    def __init__(self, kind, name, which=0):
        self._kind, self._name, self._which = kind, name, which

    def __getattr__(self, name):
        if name.startswith('__') or self._kind != 'locale':
            raise AttributeError(name)

        def read(*args):
            return bridge().ask(m='message', w=self._which, n=self._name, k=camel(name), a=list(args))
        import eno
        return read() if name in eno.CONSTANT_MESSAGES else read


class Named:
    """A function that goes by a name."""

    def __init__(self, name, fn):
        self.name, self.fn = name, fn


class Proxy:
    __slots__ = ('_bridge', '_id', '_class', '_text', '_times', '__weakref__')

    def __init__(self, b, id, cls, text):
        self._bridge, self._id, self._class, self._text, self._times = b, id, cls, text, 0

    def __del__(self):
        self._bridge.free.append([self._id, self._times])

    def __repr__(self):
        s = self._bridge.ask(m='string', o=self._id, text=self._text)
        return f'<class {s[8:-1]}>' if s.startswith('[object ') and s.endswith(']') else s

    def __getattr__(self, name):
        if name.startswith('_'):
            raise AttributeError(name)
        names = self._bridge.names.get(self._class)
        if names is None:
            names = self._bridge.names[self._class] = set(self._bridge.ask(m='methods', o=self._id))
        method = camel(name)
        if method not in names:
            raise AttributeError(f'{self._class} has no {method}')
        return Method(self, name, method)


class Method:
    __slots__ = ('_proxy', '_name', '_method')

    def __init__(self, proxy, name, method):
        self._proxy, self._name, self._method = proxy, name, method

    def __call__(self, *args, **options):
        p = self._proxy
        if options:
            if self._name == 'assert_all_touched':
                options = {dict(skip='except').get(k, k): v for k, v in options.items()}
                if 'message' in options:
                    args += (options.pop('message'),)
            args += (options,) if options else ()
        while args and args[-1] is None:
            args = args[:-1]
        answer = p._bridge.ask(m='call', o=p._id, n=self._method, a=list(args), text=p._text)
        if self._name == 'raw':
            return snake_types(answer)
        if self._name in PROCEDURES and answer is UNDEFINED:
            return None
        return answer


def snake_types(raw):
    if isinstance(raw, dict):
        return {k: snake(v) if k == 'type' and isinstance(v, str) else snake_types(v) for k, v in raw.items()}
    return [snake_types(r) for r in raw] if isinstance(raw, list) else raw


def arguments(text, options):
    return [text] + ([options] if options else [])


class Library:
    """What the module enolib offers."""

    def __init__(self, which):
        self.which = which

    def parse(self, text, **options):
        return bridge().ask(m='parse', w=self.which, a=arguments(text, options), text=text)

    def lookup(self, text, index=None, line=None, column=None, **options):
        position = {}
        wide = astral(text)
        if index is not None:
            position['index'] = units(text[:index]) + max(0, index - len(text)) if wide and index >= 0 else index
        if line is not None:
            lines = text.split('\n')
            position.update(line=line, column=column)
            if wide and 0 <= line < len(lines) and column >= 0:
                position['column'] = units(lines[line][:column]) + max(0, column - len(lines[line]))
        answer = bridge().ask(m='lookup', w=self.which, a=[position] + arguments(text, options), text=text)
        if isinstance(answer.get('range'), str):
            answer['range'] = snake(answer['range'])
        return answer

    def register(self, *definitions, **keywords):
        out = [{camel(k): f for k, f in d.items()} if isinstance(d, dict) else Named(camel(d.__name__), d) for d in definitions]
        if keywords:
            out.append({camel(k): f for k, f in keywords.items()})
        b = bridge()
        b.names.clear()
        b.keep = True
        try:
            b.ask(m='register', w=self.which, a=out)
        finally:
            b.keep = False


def fresh():
    """The library loaded anew, with its locales and reporters."""
    b = bridge()
    b.names.clear()
    b.ask(m='load')
    return Library(1), {n: Special('reporter', n, 1) for n in ('text', 'html', 'terminal')}, {n: Special('locale', n, 1) for n in ('en', 'de', 'es')}


def cpu_seconds():
    return bridge().ask(m='cpu')


def blocks(fn):
    """The number of blocks of the library that are run by fn: the same for every run. Needs COUNT_BLOCKS."""
    bridge().ask(m='blocks')
    fn()
    return bridge().ask(m='blocks')

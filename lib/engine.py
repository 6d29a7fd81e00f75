"""Generated-input search: choice sequences, cases, shrinking, sharding, evidence.

A case is produced by `gen(src)` from a stream of small integer choices and is a plain
JSON value.  `run(case, st)` decides it: it returns normally when the property held and
raises Violation otherwise.  A failing choice sequence is shrunk (deleting and lowering
choices) and the shrunk case is written to a replay file which `--replay` runs without
any generator.  Every run is a pure function of the code under test and VERIF_SEED.
"""
import collections, hashlib, json, multiprocessing, os, random, resource, signal, sys, time, traceback
from white import JAVASCRIPT

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(Exception):
    def __init__(self, kind, message=''):
        super().__init__(f'{kind}: {message}')
        self.kind = kind
        self.message = message


class HarnessError(Exception):
    """A fault of the machinery itself; never reported as a violation."""


class Discard(Exception):
    """The generated case lies outside of the domain of the property."""


class Hang(BaseException):
    pass


def harness(fn):
    """Marks code of the reference model: its failures are harness errors."""
    def wrapped(*args, **kwargs):
        try:
            return fn(*args, **kwargs)
        except (HarnessError, Discard, Violation):
            raise
        except Exception:
            raise HarnessError(traceback.format_exc())
    wrapped.__name__ = fn.__name__
    return wrapped


class Source:
    MAX = 6000

    def __init__(self, rng=None, prefix=()):
        self.rng = rng
        self.prefix = prefix
        self.choices = []

    def i(self, n):
        """An integer in [0, n); 0 is the simplest."""
        if n <= 1:
            return 0
        pos = len(self.choices)
        if pos < len(self.prefix):
            value = min(self.prefix[pos], n - 1)
        elif self.rng is not None and pos < self.MAX:
            value = self.rng.randrange(n)
        else:
            value = 0
        self.choices.append(value)
        return value

    def p(self, probability):
        """True with the given probability; False is the simplest."""
        pos = len(self.choices)
        if pos < len(self.prefix):
            value = 1 if self.prefix[pos] else 0
        elif self.rng is not None and pos < self.MAX:
            value = 1 if self.rng.random() < probability else 0
        else:
            value = 0
        self.choices.append(value)
        return bool(value)

    def pick(self, seq):
        return seq[self.i(len(seq))]

    def weighted(self, *pairs):
        """pairs (weight, value), simplest first."""
        total = sum(w for w, _ in pairs)
        r = self.i(total)
        for w, v in pairs:
            if r < w:
                return v
            r -= w
        return pairs[0][1]

    def between(self, lo, hi):
        return lo + self.i(hi - lo + 1)

    def many(self, fn, lo=0, hi=10, more=0.7):
        out = []
        while len(out) < hi:
            if len(out) >= lo and not self.p(more):
                break
            out.append(fn())
        return out

    def shuffled(self, seq):
        seq = list(seq)
        for k in range(len(seq) - 1):
            j = k + self.i(len(seq) - k)
            seq[k], seq[j] = seq[j], seq[k]
        return seq


class Stats:
    def __init__(self):
        self.labels = collections.Counter()
        self.nontrivial = False
        self.current = None

    def label(self, *names):
        for n in names:
            self.current.add(n)

    def interesting(self):
        self.nontrivial = True


CASE_CPU_SECONDS = 20.0


def _alarm(_s, _f):
    raise Hang()


def decide(prop, case, st=None):
    """Runs one case. Returns None or a Violation."""
    st = st or Stats()
    st.current = set()
    st.nontrivial = False
    for attempt in (1, 2):
        signal.signal(signal.SIGVTALRM, _alarm)
        signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU_SECONDS)
        try:
            prop.run(case, st)
            return None
        except Violation as v:
            return v
        except (HarnessError, Discard):
            raise
        except Hang:
            if attempt == 2:
                return Violation('hang', f'no answer within {CASE_CPU_SECONDS} s of CPU time')
        except Exception as e:
            return Violation(f'unexpected {type(e).__name__}', traceback.format_exc())
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)


def generate(prop, src):
    try:
        return prop.gen(src)
    except (HarnessError, Discard):
        raise
    except Exception:
        raise HarnessError(traceback.format_exc())


def shrink(prop, choices, kind, budget_s):
    deadline = time.monotonic() + budget_s
    best = list(choices)
    seen = set()

    def attempt(cand):
        nonlocal best
        key = tuple(cand)
        if key in seen or time.monotonic() > deadline:
            return False
        seen.add(key)
        src = Source(prefix=cand)
        try:
            case = generate(prop, src)
            v = decide(prop, case)
        except (HarnessError, Discard):
            return False
        if v is None or v.kind != kind:
            return False
        new = src.choices
        while new and new[-1] == 0:
            new = new[:-1]
        if (len(new), new) < (len(best), best):
            best = list(new)
            return True
        return False

    attempt(best)
    improved = True
    while improved and time.monotonic() < deadline:
        improved = False
        size = max(1, len(best) // 2)
        while size >= 1 and time.monotonic() < deadline:
            k = 0
            while k < len(best):
                if attempt(best[:k] + best[k + size:]):
                    improved = True
                else:
                    k += max(1, size // 2) if size > 1 else 1
                if time.monotonic() > deadline:
                    break
            size //= 2
        for k in range(len(best)):
            if k >= len(best) or time.monotonic() > deadline:
                break
            if best[k] == 0:
                continue
            for value in (0, best[k] // 2, best[k] - 1):
                if k < len(best) and value < best[k] and attempt(best[:k] + [value] + best[k + 1:]):
                    improved = True
                    break
    src = Source(prefix=best)
    return generate(prop, src)


def digest(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).digest()[:10]


def shard(prop, seed, index, count, wall_s, shrink_s, conn):
    result = dict(evaluations=0, discarded=0, labels=collections.Counter(), distinct=set(), samples=[],
                  violation=None, error=None, timed_out=False)
    try:
        if not JAVASCRIPT:
            resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
        rng = random.Random(f'{seed}/{prop.id}/{index}')
        st = Stats()
        start = time.monotonic()
        fixed = prop.fixed() if index == 0 and hasattr(prop, 'fixed') else []
        n = 0
        while n < count or fixed:
            if time.monotonic() - start > wall_s:
                result['timed_out'] = True
                break
            if fixed:
                case, src = fixed.pop(0), None
            else:
                n += 1
                src = Source(random.Random(rng.getrandbits(64)))
                try:
                    case = generate(prop, src)
                except Discard:
                    result['discarded'] += 1
                    continue
            try:
                v = decide(prop, case, st)
            except Discard:
                result['discarded'] += 1
                continue
            result['evaluations'] += 1
            result['labels'].update(st.current)
            if st.nontrivial:
                d = digest(case)
                if d not in result['distinct']:
                    result['distinct'].add(d)
                    if len(result['samples']) < 3 and n % 7 == 3:
                        result['samples'].append(case)
            if v is not None:
                if src is not None:
                    case = shrink(prop, src.choices, v.kind, shrink_s)
                    v = decide(prop, case) or v
                result['violation'] = dict(case=case, kind=v.kind, message=v.message)
                break
    except (HarnessError, Discard) as e:
        result['error'] = str(e)
    except Exception:
        result['error'] = traceback.format_exc()
    conn.send(result)
    conn.close()


def load_known():
    out = []
    path = os.path.join(ROOT, 'known-findings.txt')
    if os.path.exists(path):
        for line in open(path):
            if line.startswith('finding:'):
                out.append(json.loads(line[len('finding:'):]))
    return out


def main(prop, argv):
    if '--replay' in argv:
        data = json.load(open(argv[argv.index('--replay') + 1]))
        try:
            v = decide(prop, data['case'])
        except (HarnessError, Discard) as e:
            print(e)
            return 2
        if v is None:
            print('property held on the replayed case')
            return 0
        print(f'{v.kind}\n{v.message}')
        print(f'VIOLATION property={prop.id} replay={argv[argv.index("--replay") + 1]}')
        return 1

    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    workers = 8
    total = prop.quick if tier == 'quick' else prop.quick * prop.thorough_factor
    scale = float(os.environ.get('VERIF_SCALE', '1'))
    total = max(workers, int(total * scale))
    wall_s = 420 if tier == 'quick' else 6 * 3600
    shrink_s = 40 if tier == 'quick' else 300
    started = time.monotonic()
    ctx = multiprocessing.get_context('fork')
    jobs = []
    for index in range(workers):
        recv, send = ctx.Pipe(False)
        p = ctx.Process(target=shard, args=(prop, seed, index, (total + workers - 1) // workers, wall_s, shrink_s, send))
        p.start()
        send.close()
        jobs.append((p, recv))
    results = []
    for p, recv in jobs:
        try:
            results.append(recv.recv())
        except EOFError:
            results.append(dict(error='a worker died', evaluations=0, discarded=0, labels={}, distinct=set(), samples=[], violation=None, timed_out=False))
        p.join()

    labels = collections.Counter()
    distinct = set()
    samples = []
    for r in results:
        labels.update(r['labels'])
        distinct |= r['distinct']
        samples.extend(r['samples'])
    evaluations = sum(r['evaluations'] for r in results)
    violations = [r['violation'] for r in results if r['violation']]
    errors = [r['error'] for r in results if r['error']]
    violations.sort(key=lambda v: (len(json.dumps(v['case'])), json.dumps(v['case'])))
    os.makedirs(os.path.join(ROOT, 'evidence', 'replay'), exist_ok=True)
    evidence = dict(
        property=prop.id, tier=tier, seed=seed, level='exploration',
        coverage=dict(evaluations=evaluations, distinct_nontrivial=len(distinct), rule=prop.rule,
                      samples=samples[:8],
                      discarded_outside_domain=sum(r['discarded'] for r in results),
                      classes={k: labels[k] for k in sorted(labels)},
                      stopped_by_wall_limit=any(r['timed_out'] for r in results),
                      workers=workers),
        assumptions=prop.assumptions,
        wall_s=round(time.monotonic() - started, 2),
        violations=len(violations))
    known = [k for k in load_known() if k['property'] == prop.id]
    for k in known:
        print(f"KNOWN-FINDING: property={prop.id} {k['what']}")
    with open(os.path.join(ROOT, 'evidence', f'{prop.id}.json'), 'w') as f:
        json.dump(evidence, f, indent=1, ensure_ascii=True)
        f.write('\n')
    print(f'{prop.id} {tier} seed={seed}: {evaluations} cases, {len(distinct)} distinct non-trivial, '
          f'{evidence["wall_s"]} s')
    if violations:
        v = violations[0]
        path = os.path.join('evidence', 'replay', f'{prop.id}.json')
        with open(os.path.join(ROOT, path), 'w') as f:
            json.dump(dict(property=prop.id, seed=seed, kind=v['kind'], message=v['message'], case=v['case']), f, indent=1)
            f.write('\n')
        print(f"{v['kind']}\n{v['message']}")
        print(f'VIOLATION property={prop.id} replay={path}')
        return 1
    if errors:
        print(errors[0])
        return 2
    return 0

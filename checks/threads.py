"""P33: documents that are handled at the same time do not disturb each other."""
import os, sys, threading
from common import *
import engine, state

P28 = state.P28


class Baton:
    """Lets several threads take turns after exactly given numbers of executed lines of the implementation."""

    def __init__(self, jobs, quanta):
        self.jobs, self.quanta = jobs, quanta
        self.results = [None] * len(jobs)
        self.turn = [threading.Semaphore(0) for _ in jobs]
        self.alive = list(range(len(jobs)))
        self.done = threading.Semaphore(0)
        self.next = 0
        self.left = 0
        self.switches = 0
        self.root = os.path.dirname(eno.enolib.__file__)

    def quantum(self):
        q = self.quanta[self.next % len(self.quanta)]
        self.next += 1
        return q

    def hand_over(self, me, leaving=False):
        i = self.alive.index(me)
        if leaving:
            del self.alive[i]
            if not self.alive:
                self.done.release()
                return
            other = self.alive[i % len(self.alive)]
        else:
            other = self.alive[(i + 1) % len(self.alive)]
        self.left = self.quantum()
        if other == me:
            return
        self.switches += 1
        self.turn[other].release()
        if not leaving:
            # a lock held by this thread may keep the other one from running: then both go on
            self.turn[me].acquire(timeout=2)

    def work(self, me):
        def local(frame, event, arg):
            if event == 'line':
                self.left -= 1
                if self.left <= 0:
                    self.hand_over(me)
            return local

        def call(frame, event, arg):
            return local if frame.f_code.co_filename.startswith(self.root) else None
        self.turn[me].acquire()
        sys.settrace(call)
        try:
            self.results[me] = ('done', self.jobs[me]())
        except BaseException as e:
            self.results[me] = ('raised', e)
        finally:
            sys.settrace(None)
            self.hand_over(me, leaving=True)

    def run(self):
        threads = [threading.Thread(target=self.work, args=(i,), daemon=True) for i in range(len(self.jobs))]
        for t in threads:
            t.start()
        self.left = self.quantum()
        self.turn[0].release()
        self.done.acquire()
        for t in threads:
            t.join()
        for kind, e in self.results:
            if kind == 'raised':
                raise e
        return [r for _, r in self.results]


class P33(Prop):
    id = 'P33'
    quick = 12000
    thorough_factor = 40
    rule = ('A case is two or three jobs (parsing a document, valid or not, under a locale, reporter and source label, and up to five operations on it) that are first run one after the other and then at the same time: in threads that take turns '
            'after generated numbers of executed lines, or one from inside of a loader or message function given to the other. Every job has to give the same answers. Non-trivial: at least three changes of turn, or a job run from inside another.')
    assumptions = ['every thread has its own documents: one document shared by several threads is left open']

    def gen(self, src):
        helper = P28()
        text = None

        def job(i):
            nonlocal text
            if text is not None and src.p(0.35):
                text = state.disturbed(src, text)
            elif src.p(0.15):
                text = gen.any_text(src)
            else:
                text = rich_doc(src, size=6)
            try:
                doc, v = prepare(text)
                ops = [o for o in helper.operations(src, v, src.between(1, 5)) if o['on'] != 'other'] if v else []
            except Discard:
                ops = []
            return dict(text=text, ops=ops, locale=src.pick(['probe', 'en', 'de', 'es']), reporter=src.pick(['text', 'html', 'terminal']), source=src.pick([None, 'one.eno', 'two.eno']))
        jobs = [job(i) for i in range(src.weighted((4, 2), (1, 3)))]
        nested = src.p(0.3)
        return dict(jobs=jobs, loaders=src.p(0.3), nested=src.between(1, 4) if nested else 0, first=src.i(src.pick([1, 8, 30])), quanta=[src.between(1, src.pick([30, 4, 150, 500])) for _ in range(src.between(1, 8))])

    def job(self, job, inside=None):
        """The answers of one job."""
        helper = P28()
        options = dict(locale=eno.LOCALES.get(job['locale'], eno.PROBE), reporter=eno.REPORTERS[job['reporter']], source=job['source'])
        try:
            document = eno.enolib.parse(job['text'], **options)
        except eno.ParseError as e:
            return [('rejected', e.message, repr(e.selection))]
        answers = [('accepted', repr(document.raw()))]
        doc = ref.parse(job['text'])
        v = None
        if job['ops']:
            doc, v = prepare(job['text'])
        for op in job['ops']:
            try:
                answers.append(helper.execute(document, op, v))
            except (IndexError, AttributeError) as e:
                answers.append(type(e).__name__)
        if inside is not None:
            answers.extend(self.callbacks(document, inside))
        return answers

    def callbacks(self, document, inside):
        """Calls that run inside() while they are at work."""
        out = []

        def through(x):
            inside()
            return ('loaded', x)

        def refuse(x):
            inside()
            raise ValueError(f'no {x}')

        def message(x):
            inside()
            return f'message {type(x).__name__}'

        def attempt(fn):
            try:
                r = fn()
            except eno.ValidationError as e:
                r = e
            out.append(P28().show(r))
        for e in document.elements()[:3]:
            attempt(lambda: e.error(message))
            attempt(lambda: e.comment_error(message))
            for loader in (through, refuse):
                attempt(lambda: e.key(loader))
                attempt(lambda: e.optional_comment(loader))
                attempt(lambda: e.required_comment(loader))
            if e.yields_empty() or e.yields_section():
                continue
            for loader in (through, refuse):
                if e.yields_field():
                    attempt(lambda: e.to_field().optional_value(loader))
                    attempt(lambda: e.to_field().required_value(loader))
                elif e.yields_list():
                    attempt(lambda: e.to_list().optional_values(loader))
                    attempt(lambda: e.to_list().required_values(loader))
                else:
                    attempt(lambda: [x.optional_value(loader) for x in e.to_fieldset().entries()])
                    attempt(lambda: [x.required_value(loader) for x in e.to_fieldset().entries()])
            if e.yields_field():
                attempt(lambda: e.to_field().value_error(message))
            elif e.yields_list():
                attempt(lambda: [x.value_error(message) for x in e.to_list().items()])
            else:
                attempt(lambda: [x.key_error(message) for x in e.to_fieldset().entries()])
        attempt(lambda: document.assert_all_touched(message))
        return out

    def run(self, case, st):
        jobs = case['jobs']
        if case['nested']:
            outer, others, first = jobs[0], jobs[1:], case.get('first', 0)
            alone = [self.job(j, lambda: None) for j in others]
            want = self.job(outer, lambda: None)
            calls = [0]

            def inside():
                calls[0] += 1
                if first < calls[0] <= first + case['nested']:
                    for j, a in zip(others, alone):
                        got = self.job(j, lambda: None)
                        if got != a:
                            self.differ(j, got, a, 'from inside of a callback')
            got = self.job(outer, inside)
            if got != want:
                self.differ(outer, got, want, 'with other documents handled in callbacks')
            st.label('nested' if calls[0] > first else 'nothing to nest')
            if calls[0] > first:
                st.interesting()
            return
        passing = lambda: None
        alone = [self.job(j, passing if case['loaders'] else None) for j in jobs]
        baton = Baton([lambda j=j: self.job(j, passing if case['loaders'] else None) for j in jobs], case['quanta'])
        together = baton.run()
        for j, got, want in zip(jobs, together, alone):
            if got != want:
                self.differ(j, got, want, 'in parallel')
        st.label(f'{len(jobs)} threads', 'many changes' if baton.switches > 20 else 'some changes' if baton.switches > 2 else 'few changes')
        for a in alone:
            st.label(a[0][0])
        if baton.switches > 2:
            st.interesting()

    def differ(self, job, got, want, how):
        for g, w in zip(got + [None] * len(want), want):
            if g != w:
                fail(f'other answer {how}', f'answer: {g}', f'alone:  {w}', job['text'])
        fail(f'other answer {how}', f'{len(got)} answers instead of {len(want)}')

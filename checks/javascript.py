"""P34 - P44: the JavaScript library. The checks of the Python library, driven through lib/jseno.py."""
from common import *
import parsing, positions, queries, reports, state, threads, values


class JavaScript(Prop):
    """Cases of several checks."""

    def __init__(self):
        self.checks = {name: cls() for _, name, cls in self.parts}
        self.rule = ('A case is a case of ' + ', '.join(f'{name} ({check.rule.rstrip(".")})' for name, check in self.checks.items()) +
                     ', put to the JavaScript library through lib/jsbridge.js, and non-trivial as stated for it.')
        self.assumptions = ['the bridge (lib/jsbridge.js, lib/jseno.py) passes calls, callbacks, exceptions and identities on faithfully, and positions '
                            'converted from UTF-16 units; lone surrogates, which would pair up there, are joined in the generated texts'] + \
            sorted({a for check in self.checks.values() for a in check.assumptions})

    def gen(self, src):
        name = src.weighted(*[(w, name) for w, name, _ in self.parts])
        return dict(part=name, case=self.checks[name].gen(src))

    def fixed(self):
        return [dict(part=name, case=case) for name, check in self.checks.items() if hasattr(check, 'fixed') for case in check.fixed()]

    def run(self, case, st):
        self.checks[case['part']].run(case['case'], st)
        st.label('as ' + case['part'])


class Nested(threads.P33):
    """There are no threads: other documents are handled from inside of callbacks."""
    rule = 'Two or three documents with operations on each, run one after the other, and from inside of a loader or message function of another. Non-trivial: a job is run from inside another'
    assumptions = []

    def gen(self, src):
        case = super().gen(src)
        case['nested'] = case['nested'] or 1 + len(case['quanta']) % 4
        return case


class P34(JavaScript):
    id = 'P34'
    quick = 160000
    parts = [(1, 'P01', parsing.P01)]


class P35(JavaScript):
    id = 'P35'
    quick = 60000
    parts = [(3, 'P02', parsing.P02), (2, 'P04', parsing.P04), (2, 'P05', parsing.P05), (3, 'P06', parsing.P06), (2, 'P07', parsing.P07)]


class P36(JavaScript):
    id = 'P36'
    quick = 160000
    parts = [(1, 'P03', parsing.P03)]


class P37(JavaScript):
    id = 'P37'
    quick = 50000
    parts = [(2, 'P08', parsing.P08), (2, 'P09', parsing.P09), (2, 'P10', parsing.P10), (3, 'P11', parsing.P11)]


class P38(JavaScript):
    id = 'P38'
    quick = 60000
    parts = [(3, 'P12', queries.P12), (2, 'P13', queries.P13), (2, 'P14', queries.P14), (3, 'P18', queries.P18), (3, 'P19', state.P19)]


class P39(JavaScript):
    id = 'P39'
    quick = 30000
    parts = [(2, 'P15', values.P15), (3, 'P16', values.P16), (1, 'P17', values.P17)]


class P40(JavaScript):
    id = 'P40'
    quick = 60000
    parts = [(1, 'P20', state.P20)]


class P41(JavaScript):
    id = 'P41'
    quick = 44000
    parts = [(3, 'P21', state.P21), (2, 'P27', state.P27), (1, 'P28', state.P28), (2, 'P30', state.P30), (2, 'P31', values.P31), (1, 'P33', Nested)]


class P42(JavaScript):
    id = 'P42'
    quick = 80000
    parts = [(3, 'P22', reports.P22), (3, 'P23', reports.P23), (2, 'P24', reports.P24), (2, 'P25', reports.P25), (2, 'P29', reports.P29)]


class P43(JavaScript):
    id = 'P43'
    quick = 20000
    parts = [(1, 'P26', positions.P26)]


class P44(JavaScript):
    id = 'P44'
    quick = 3000

    def __init__(self):
        import cost
        self.parts = [(1, 'P32', cost.P32)]
        super().__init__()

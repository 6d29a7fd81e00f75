from engine import Discard, Violation, harness
import gen, ref, eno
from eno import fail, keyed, expected_text, expect_error, span


class Prop:
    thorough_factor = 60
    assumptions = []

    def fixed_texts(self):
        return []


def prepare(text):
    """Model of a document in the domain: valid, copies resolvable, no doubly derived section."""
    doc = ref.parse(text)
    if doc.error or ref.resolve(doc) or doc.maybe_merge_cycle:
        raise Discard()
    v = ref.view(doc)
    if doc.ambiguous:
        raise Discard()
    return doc, v


def rich_doc(src, **kw):
    """A valid document with copies, comments, continuations and multiline fields."""
    o = dict(copies=0.4 if src.p(0.7) else 0, unique=0.45, keys=gen.small_keys if src.p(0.7) else gen.mixed_keys, sections=src.pick([3, 1, 6]))
    o.update(kw)
    return gen.document(src, **o)


COMPATIBLE = dict(element=('empty', 'field', 'list', 'fieldset', 'section'), empty=('empty',), field=('field', 'empty'),
                  fieldset=('fieldset', 'empty'), list=('list', 'empty'), section=('section',))
KINDS = ['field', 'element', 'fieldset', 'list', 'section', 'empty']


def sections_of(v):
    return [x for x in v.walk() if x.kind in ('document', 'section')]


def path_of(v):
    """Indices from the document down to a view."""
    out = []
    while v.parent is not None:
        out.append(next(i for i, c in enumerate(v.parent.children) if c is v))
        v = v.parent
    return out[::-1]


def reach(real, path):
    """Follows a path of element indices through sections."""
    for i in path:
        els = real.elements()
        if i >= len(els):
            fail('element missing', f'{len(els)} elements in {real!r}, index {i} expected')
        real = els[i].to_section()
    return real


def reach_element(document, v):
    """The real ambiguous element (of a section), entry or item for a view."""
    path = path_of(v)
    if v.kind in ('item', 'entry'):
        parent = reach(document, path[:-2]).elements()[path[-2]]
        inner = parent.to_list().items() if v.kind == 'item' else parent.to_fieldset().entries()
        return inner[path[-1]]
    return reach(document, path[:-1]).elements()[path[-1]]


def reach_typed(document, v):
    if v.kind == 'document':
        return document
    x = reach_element(document, v)
    return x if v.kind in ('item', 'entry') else eno.typed(x, v.kind)


def content(real, v, as_kind=None):
    """Compares a typed real element with its view, read as a kind."""
    kind = as_kind or v.kind
    want = v.canon()
    want['type'] = ref.RAW[kind]
    if v.kind == 'empty':
        if kind == 'field':
            want['value'] = None
        elif kind == 'list':
            want['items'] = []
        elif kind == 'fieldset':
            want['entries'] = []
    if kind == 'section' or kind == 'document':
        got = eno.observe_section(real, kind == 'document')
    else:
        got = dict(type=ref.RAW[kind], key=real.string_key() if kind != 'item' else None, comment=real.optional_string_comment())
        if kind == 'item':
            del got['key']
        if kind in ('field', 'item', 'entry'):
            got['value'] = real.optional_string_value()
        if kind == 'list':
            got['items'] = [dict(type='list_item', comment=i.optional_string_comment(), value=i.optional_string_value()) for i in real.items()]
        if kind == 'fieldset':
            got['entries'] = [dict(type='fieldset_entry', key=i.string_key(), comment=i.optional_string_comment(), value=i.optional_string_value()) for i in real.entries()]
    if got != want:
        fail('content differs', f'read:     {got}', f'expected: {want}')


def check_missing(doc, e, kind, key, parent):
    """Error about an absent element below the section/fieldset view parent."""
    if e.text != keyed('missing_' + kind, key):
        fail('wrong error for a missing element', e.text, f'expected {keyed("missing_" + kind, key)}')
    eno.check_error_shape(doc.text, e)
    node = parent.node
    want = (0, 0) if node.kind == 'document' else (doc.lines[node.line].end,) * 2
    if span(e) != want:
        fail('wrong selection for a missing element', f'{span(e)} instead of {want}', doc.text)


def doc_labels(doc, v, st):
    kinds = {x.kind for x in v.walk()}
    st.label(*('has ' + k for k in kinds if k != 'document'))
    if doc.target:
        st.label('has copies')
    if any(x.node.multiline for x in v.walk()):
        st.label('has multiline')
    if any(x.comment for x in v.walk()):
        st.label('has comments')


def written_views(v):
    """{node: the view at the place where the node is written}"""
    out = {}

    def visit(x):
        out[x.node] = x
        for c in x.children:
            if c.node.parent is x.node:
                visit(c)
    visit(v)
    return out

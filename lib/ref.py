"""Independent reference model of eno documents, written from the language rules.

It shares no code with the implementation: a hand written line scanner instead of the
implementation's one regular expression, a tree of Node objects instead of instructions,
and an eager resolution of copies into views instead of lazy merging.

parse(text) -> Doc with
  .error      None or Problem (the first offending line)
  .root       Node tree as written
  .lines      per line: LineInfo(begin, end, owner Node, tokens, type)
resolve(doc)  -> list of Problems (all of them), sets doc.maybe_merge_cycle: deep copies that may merge a section into itself
view(doc)     -> View tree: what a reader of the document has to see
"""
from engine import harness
from white import is_space


def ws(c):
    return is_space(c) and c != '\n'


class Problem:
    def __init__(self, kind, line, begin, end, args=(), related=()):
        self.kind, self.line, self.begin, self.end = kind, line, begin, end
        self.args = tuple(args)
        self.related = tuple(related)

    def __repr__(self):
        return f'{self.kind}@{self.line + 1}[{self.begin}:{self.end}]{self.args}'


class LineInfo:
    __slots__ = ('begin', 'end', 'owner', 'tokens', 'type', 'attached')

    def __init__(self, begin, end):
        self.begin, self.end = begin, end
        self.owner = None      # innermost element this line belongs to
        self.tokens = {}
        self.type = None
        self.attached = None   # comments: the element they are attached to


class Node:
    def __init__(self, kind, line, parent, key=None):
        self.kind = kind
        self.line = line
        self.parent = parent
        self.key = key
        self.tokens = {}
        self.comments = None       # [(column of the text or None, text or None, line)]
        self.template = None
        self.deep = False
        self.first = None          # own value part
        self.continuations = []    # [(spaced, text or None, line)]
        self.body = None           # multiline: [(begin, end)] of value lines
        self.end_line = None       # multiline: terminator line
        self.multiline = False
        self.children = []         # elements / items / entries as written
        self.depth = 0

    @property
    def is_section(self):
        return self.kind in ('section', 'document')

    def last_line(self):
        """Last line that belongs to the element as written."""
        if self.multiline:
            return self.end_line
        last = self.line if self.line is not None else 0
        if self.continuations:
            last = self.continuations[-1][2]
        if self.children:
            last = self.children[-1].last_line()
        return last

    def walk(self):
        yield self
        for c in self.children:
            yield from c.walk()


class Doc:
    def __init__(self, text):
        self.text = text
        self.error = None
        self.lines = []
        self.root = Node('document', None, None)
        self.problems = None
        self.ambiguous = False

    def nodes(self):
        return list(self.root.walk())


# ---------------------------------------------------------------- lines

def strip_span(text, b, e):
    while b < e and is_space(text[b]):
        b += 1
    while e > b and is_space(text[e - 1]):
        e -= 1
    return b, e


def scan_escaped(text, p, e, rest):
    """text[p] is a backtick. Finds the shortest key whose remainder satisfies rest(pos)."""
    q = p
    while q < e and text[q] == '`':
        q += 1
    run = q - p
    kb = q
    while kb < e and is_space(text[kb]):
        kb += 1
    if kb >= e:
        return None
    for ke in range(kb + 1, e):
        c = ke
        while c < e and is_space(text[c]):
            c += 1
        if text[c:min(c + run, e)] == '`' * run:
            after = rest(c + run)
            if after is not None:
                return (dict(escape_begin_operator=(p, q), key=(kb, ke), escape_end_operator=(c, c + run)), after)
    return None


def scan_line(text, b, e):
    """Returns (type, fields) for the line text[b:e], or None if it is not a line of eno."""
    p = b
    while p < e and is_space(text[p]):
        p += 1
    if p == e:
        return 'blank', {}
    c = text[p]

    def optional(name, q):
        vb, ve = strip_span(text, q, e)
        return {name: (vb, ve)} if vb < ve else {}

    if c == '|':
        return 'direct', dict(direct_line_continuation_operator=(p, p + 1), **optional('value', p + 1))
    if c == '\\':
        return 'spaced', dict(spaced_line_continuation_operator=(p, p + 1), **optional('value', p + 1))
    if c == '>':
        return 'comment', dict(comment_operator=(p, p + 1), **optional('comment', p + 1))
    if c == '-':
        q = p
        while q < e and text[q] == '-':
            q += 1
        if q - p == 1:
            return 'item', dict(item_operator=(p, q), **optional('value', q))
        key = optional('key', q)
        if not key:
            return None
        return 'multiline', dict(multiline_field_operator=(p, q), **key)
    if c == '#':
        q = p
        while q < e and text[q] == '#':
            q += 1
        op = dict(section_operator=(p, q))
        k = q
        while k < e and is_space(text[k]):
            k += 1
        if k == e or text[k] == '<':
            return None

        def rest(r):
            while r < e and is_space(text[r]):
                r += 1
            if r == e:
                return {}
            if text[r] != '<':
                return None
            name, width = ('deep_copy_operator', 2) if text[r:min(r + 2, e)] == '<<' else ('copy_operator', 1)
            template = optional('template', r + width)
            if not template:
                return None
            return {name: (r, r + width), **template}

        if text[k] == '`':
            found = scan_escaped(text, k, e, rest)
            return None if found is None else ('section', {**op, **found[0], **found[1]})
        lt = text.find('<', k, e)
        stop = e if lt < 0 else lt
        after = rest(stop)
        if after is None:
            return None
        return 'section', {**op, 'key': strip_span(text, k, stop), **after}

    def rest(r):
        while r < e and is_space(text[r]):
            r += 1
        if r == e:
            return None
        if text[r] == ':':
            return 'element', dict(element_operator=(r, r + 1), **optional('value', r + 1))
        if text[r] == '=':
            return 'entry', dict(entry_operator=(r, r + 1), **optional('value', r + 1))
        if text[r] == '<':
            template = optional('template', r + 1)
            if template:
                return 'copy', dict(copy_operator=(r, r + 1), **template)
        return None

    if c == '`':
        found = scan_escaped(text, p, e, rest)
        if found is None:
            return None
        keys, (kind, fields) = found
        return kind, {**keys, **fields}
    if c in ':=<':
        return None
    stop = p
    while stop < e and text[stop] not in ':=<':
        stop += 1
    after = rest(stop)
    if after is None:
        return None
    return after[0], {'key': strip_span(text, p, stop), **after[1]}


def invalid_problem(text, line, b, e):
    s = text[b:e]
    p = 0
    while p < len(s) and is_space(s[p]):
        p += 1
    while p < len(s) and s[p] == '#':
        p += 1
    while p < len(s) and is_space(s[p]):
        p += 1
    q = p
    while q < len(s) and s[q] == '`':
        q += 1
    if q > p and q < len(s) and '`' * (q - p) not in s[q:]:
        return Problem('unterminated_escaped_key', line, b + q, e, (line + 1,))
    return Problem('invalid_line', line, b, e, (line + 1,))


@harness
def parse(text):
    doc = Doc(text)
    pos = 0
    while True:
        nl = text.find('\n', pos)
        end = len(text) if nl < 0 else nl
        doc.lines.append(LineInfo(pos, end))
        if nl < 0:
            break
        pos = nl + 1
    lines = doc.lines
    root = doc.root
    stack = [root]          # open sections, index = depth
    container = None        # element that items/entries attach to
    continuable = None
    pending = []            # comment lines waiting for their element
    i = 0

    def fail(kind, line, args=None):
        info = lines[line]
        doc.error = Problem(kind, line, info.begin, info.end, (line + 1,) if args is None else args)
        return doc

    while i < len(lines):
        info = lines[i]
        scanned = scan_line(text, info.begin, info.end)
        if scanned is None:
            doc.error = invalid_problem(text, i, info.begin, info.end)
            return doc
        kind, tok = scanned
        info.type, info.tokens = kind, tok
        get = lambda name: text[tok[name][0]:tok[name][1]] if name in tok else None

        def attach(node):
            node.tokens = tok
            info.owner = node
            if pending:
                node.comments = list(pending)
                for c in pending:
                    lines[c[2]].attached = node
                pending.clear()

        if kind == 'blank':
            pending.clear()
        elif kind == 'comment':
            pending.append((tok['comment'][0] - info.begin if 'comment' in tok else None, get('comment'), i))
        elif kind in ('direct', 'spaced'):
            if continuable is None:
                return fail('missing_element_for_continuation', i)
            if continuable.kind == 'empty':
                continuable.kind = 'field'
            continuable.continuations.append((kind == 'spaced', get('value'), i))
            info.owner = continuable
            pending.clear()
        elif kind == 'item':
            if container is None or container.kind not in ('empty', 'list'):
                return fail('missing_list_for_list_item', i)
            container.kind = 'list'
            node = Node('item', i, container, container.key)
            node.first = get('value')
            attach(node)
            container.children.append(node)
            continuable = node
        elif kind == 'entry':
            if container is None or container.kind not in ('empty', 'fieldset'):
                return fail('missing_fieldset_for_fieldset_entry', i)
            container.kind = 'fieldset'
            node = Node('entry', i, container, get('key'))
            node.first = get('value')
            attach(node)
            container.children.append(node)
            continuable = node
        elif kind == 'element':
            node = Node('field' if 'value' in tok else 'empty', i, stack[-1], get('key'))
            node.first = get('value')
            attach(node)
            stack[-1].children.append(node)
            continuable = container = node
        elif kind == 'copy':
            node = Node('empty', i, stack[-1], get('key'))
            node.template = get('template')
            attach(node)
            stack[-1].children.append(node)
            continuable, container = None, node
        elif kind == 'section':
            depth = tok['section_operator'][1] - tok['section_operator'][0]
            if depth > len(stack):
                return fail('section_hierarchy_layer_skip', i)
            del stack[depth:]
            node = Node('section', i, stack[-1], get('key'))
            node.depth = depth
            node.template = get('template')
            node.deep = 'deep_copy_operator' in tok
            attach(node)
            stack[-1].children.append(node)
            stack.append(node)
            continuable = container = None
        elif kind == 'multiline':
            node = Node('field', i, stack[-1], get('key'))
            node.multiline = True
            dashes = get('multiline_field_operator')
            attach(node)
            j = i + 1
            while j < len(lines):
                b, e = lines[j].begin, lines[j].end
                p = b
                while p < e and is_space(text[p]):
                    p += 1
                q = p + len(dashes)
                if text[p:min(q, e)] == dashes and not (q < e and text[q] == '-'):
                    kb, ke = strip_span(text, q, e)
                    if text[kb:ke] == node.key:
                        break
                j += 1
            if j == len(lines):
                return fail('unterminated_multiline_field', i, (node.key, i + 1))
            node.body = []
            for k in range(i + 1, j):
                lines[k].owner = node
                lines[k].type = 'body'
                lines[k].tokens = dict(value=(lines[k].begin, lines[k].end))
                node.body.append(k)
            lines[j].owner = node
            lines[j].type = 'terminator'
            lines[j].tokens = dict(multiline_field_operator=(p, q), key=(kb, ke))
            node.end_line = j
            stack[-1].children.append(node)
            continuable = container = None
            i = j
        i += 1
    return doc


# ---------------------------------------------------------------- values and comments

def written_value(doc, node):
    if node.multiline:
        if not node.body:
            return None
        return doc.text[doc.lines[node.body[0]].begin:doc.lines[node.body[-1]].end]
    value = node.first
    space = False
    for spaced, text, _ in node.continuations:
        if value is None:
            value = text
            space = False
        elif text is None:
            space = space or spaced
        else:
            value += (' ' if spaced or space else '') + text
            space = False
    return value


def comment_text(comments):
    if not comments:
        return None
    texts = [(col, text) for col, text, _ in comments]
    while texts and texts[0][1] is None:
        texts.pop(0)
    while texts and texts[-1][1] is None:
        texts.pop()
    if not texts:
        return None
    if len(comments) == 1:
        return texts[0][1]
    margin = min(col for col, text in texts if text is not None)
    return '\n'.join('' if text is None else ' ' * (col - margin) + text for col, text in texts)


# ---------------------------------------------------------------- copies

class View:
    """What a reader sees: node is where it is written (error positions), children the effective ones."""

    def __init__(self, kind, key, value, comment, node, children=(), comment_lines=None):
        self.kind, self.key, self.value, self.comment, self.node = kind, key, value, comment, node
        self.children = list(children)
        self.comment_lines = comment_lines
        self.copied = False       # non-section copy without own items/entries
        self.parent = None

    def canon(self):
        d = dict(type=RAW[self.kind], comment=self.comment)
        if self.kind not in ('document', 'item'):
            d['key'] = self.key
        if self.kind in ('field', 'item', 'entry'):
            d['value'] = self.value
        if self.kind in CONTENT:
            d[CONTENT[self.kind]] = [c.canon() for c in self.children]
        return d

    def walk(self):
        yield self
        for c in self.children:
            yield from c.walk()

    def link(self):
        for c in self.children:
            c.parent = self
            c.link()
        return self


RAW = dict(document='document', empty='empty_element', field='field', list='list', item='list_item',
           fieldset='fieldset', entry='fieldset_entry', section='section')
CONTENT = dict(document='elements', section='elements', list='items', fieldset='entries')


@harness
def resolve(doc):
    """All copy problems of a valid document."""
    if doc.problems is not None:
        return doc.problems
    doc.problems = problems = []
    nodes = doc.nodes()
    elements = [n for n in nodes if n.kind not in ('document', 'item', 'entry')]

    def line_problem(kind, n, args, related=()):
        info = doc.lines[n.line]
        return Problem(kind, n.line, info.begin, info.end, args, related)

    templates = {}
    doc.target = {}
    for section in (False, True):
        pool = {}
        for n in elements:
            if (n.kind == 'section') == section and n.template != n.key:
                pool.setdefault(n.key, []).append(n)
        templates[section] = pool
        for n in elements:
            if (n.kind == 'section') == section and n.template is not None:
                found = pool.get(n.template, [])
                if not found:
                    problems.append(line_problem('section_not_found' if section else 'non_section_element_not_found', n, (n.line + 1, n.template)))
                elif len(found) > 1:
                    problems.append(line_problem('two_or_more_templates_found', n, (n.template,), [f.line for f in found]))
                else:
                    doc.target[n] = found[0]

    # cycles
    def edges(n):
        out = []
        if n in doc.target:
            out.append(doc.target[n])
        if n.kind == 'section':
            out.extend(c for c in n.children if c.kind == 'section')
        return out

    in_cycle = set()
    for n in elements:
        if n in doc.target:
            # reachable from its successors?
            seen, todo = set(), [doc.target[n]]
            while todo:
                m = todo.pop()
                if m is n:
                    in_cycle.add(n)
                    break
                if m in seen:
                    continue
                seen.add(m)
                todo.extend(edges(m))
    for n in in_cycle:
        b, e = n.tokens['template']
        problems.append(Problem('cyclic_dependency', n.line, b, e, (n.line + 1, n.template)))
    # members of a cycle that carry a copy themselves can be named as well, even if their copy leaves the cycle
    doc.cycle_members = set()
    for n in elements:
        if n.kind == 'section' and n.template is not None and n not in in_cycle:
            seen, todo = set(), list(edges(n))
            while todo:
                m = todo.pop()
                if m is n:
                    doc.cycle_members.add(n)
                    break
                if m in seen:
                    continue
                seen.add(m)
                todo.extend(edges(m))

    # deep copies that may merge a section into itself (superset): every section below a deep copy can depend on its template
    extra = {}
    for n in elements:
        if n.kind == 'section' and n.deep and n in doc.target:
            for s in n.walk():
                if s.kind == 'section':
                    extra.setdefault(s, []).append(doc.target[n])
    doc.maybe_merge_cycle = set()
    for n in elements:
        if n.kind == 'section' and n.deep and n in doc.target and n not in in_cycle:
            below = {s for s in n.walk() if s.kind == 'section' and s is not n}
            seen, todo = set(), [doc.target[n]]
            while todo:
                m = todo.pop()
                if m in below:
                    doc.maybe_merge_cycle.add(n)
                    break
                if m not in seen:
                    seen.add(m)
                    todo.extend(edges(m))
                    todo.extend(extra.get(m, ()))

    # kinds
    def kind(n):
        seen = set()
        while n.kind == 'empty' and n in doc.target and n not in seen:
            seen.add(n)
            n = doc.target[n]
        return n.kind

    for n in elements:
        if n.kind in ('list', 'fieldset') and n in doc.target:
            k = kind(doc.target[n])
            if k not in ('empty', n.kind):
                c = n.children[0]
                what = 'missing_fieldset_for_fieldset_entry' if n.kind == 'fieldset' else 'missing_list_for_list_item'
                problems.append(line_problem(what, c, (c.line + 1,)))
    return problems


@harness
def view(doc):
    """Effective tree of a valid document without copy problems."""
    assert doc.error is None and not resolve(doc)
    merge_targets = {}
    plain = {}

    def own_comment(n):
        return comment_text(n.comments)

    def non_section(n):
        """Node list of effective children, kind, value, and the node whose comments are seen."""
        if n in plain:
            return plain[n]
        t = doc.target.get(n)
        commenter = n if n.comments else None
        if t is None:
            r = (n.kind, written_value(doc, n) if n.kind == 'field' else None, list(n.children), commenter)
        else:
            tk, tv, tc, tcom = non_section(t)
            commenter = commenter or tcom
            if n.kind == 'empty':
                r = (tk, tv, tc, commenter)
            elif n.kind == 'list':
                r = ('list', None, tc + n.children, commenter)
            else:
                own = {c.key for c in n.children}
                r = ('fieldset', None, [c for c in tc if c.key not in own] + n.children, commenter)
        plain[n] = r
        return r

    def leaf(n):
        return View(n.kind, n.key, written_value(doc, n), own_comment(n), n, comment_lines=n.comments)

    def element(n):
        if n.kind == 'section':
            return build(section(n))
        k, v, children, commenter = non_section(n)
        out = View(k, n.key, v, comment_text(commenter.comments) if commenter else None, n,
                   [leaf(c) for c in children], commenter.comments if commenter else None)
        out.copied = n in doc.target and n.kind == 'empty'
        return out

    # a section as read: dict(node, commenter, elements=[Node or section dict])
    memo = {}

    def section(n):
        if n in memo:
            return memo[n]
        own = [section(c) if c.kind == 'section' else c for c in n.children]
        s = dict(node=n, commenter=n if n.comments else None, elements=own, copied=False)
        memo[n] = s
        if n in doc.target:
            s = memo[n] = combine(s, section(doc.target[n]), n.deep, n)
        return s

    def key_of(e):
        return e['node'].key if isinstance(e, dict) else e.key

    def combine(own, template, deep, owner):
        keys = {}
        for e in own['elements']:
            keys.setdefault(key_of(e), []).append(e)
        tkeys = {}
        for e in template['elements']:
            tkeys.setdefault(key_of(e), []).append(e)
        inherited = [e for e in template['elements'] if key_of(e) not in keys]
        mine = []
        for e in own['elements']:
            k = key_of(e)
            if deep and isinstance(e, dict) and len(keys[k]) == 1 and len(tkeys.get(k, [])) == 1 and isinstance(tkeys[k][0], dict):
                if e['node'] in doc.target:
                    doc.ambiguous = True      # two templates: documented as unresolved
                merge_targets.setdefault(e['node'], owner)
                e = combine(e, tkeys[k][0], True, owner)
            mine.append(e)
        return dict(node=own['node'], commenter=own['commenter'] or template['commenter'], elements=inherited + mine,
                    copied=not own['elements'])

    def build(s):
        n = s['node']
        out = View('section', n.key, None, comment_text(s['commenter'].comments) if s['commenter'] else None, n,
                   [build(e) if isinstance(e, dict) else element(e) for e in s['elements']],
                   s['commenter'].comments if s['commenter'] else None)
        out.copied = s['copied']
        return out

    top = [section(c) if c.kind == 'section' else c for c in doc.root.children]
    out = View('document', None, None, None, doc.root, [build(e) if isinstance(e, dict) else element(e) for e in top])
    # nested sections are read through their parent, whose memo already holds the combined form
    for n, t in doc.target.items():
        if t in merge_targets:
            doc.ambiguous = True              # the template itself changes by a deep merge elsewhere
    doc.merged = merge_targets
    return out.link()

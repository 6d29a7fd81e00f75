#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
A = 'python/enolib/'
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=[A + f for f in files],
                          mechanism=[dict(name=n, where=A + w) for n, w in mech],
                          observe_at=observe or [], hook_needed=None))
    if state:
        d['anchors']['state'] = [dict(name=n, meaning=m, where=A + w) for n, m, w in state]
    assert len(title) <= 80, (id, len(title))
    P.append(d)

prop('P01', 'Parsing any text yields a document or a ParseError, nothing else',
 'For every string whatsoever, parsing either returns a document or raises ParseError; no other exception escapes, whichever of the shipped reporters, locales and source labels is selected. A returned document can be converted to its raw representation, and a raised error carries a text, a snippet, a cursor, a selection and a message made of text and snippet.',
 ['inputs', 'configurations'], 'every string (including random unicode, token soup, near-valid documents, unterminated constructs, copy chains and cycles) x {text, HTML, terminal reporter} x {en, de, es} x {with, without source}',
 'The repository fuzzes only with uniformly random text and the default reporter, which practically never forms a multi-line document, a copy chain or an error under another reporter.',
 ['analyzer.py', 'grammar_regex.py', 'resolver.py', 'errors/parsing.py', 'reporters/terminal_reporter.py', 'context.py'],
 [('line loop and error tokenizer', 'analyzer.py:Analyzer.analyze'), ('copy resolution', 'resolver.py:Resolver.resolve'), ('error constructors', 'errors/parsing.py:Parsing')],
 ['enolib.parse'])

prop('P02', 'Every valid document is read line by line into exactly the tree it spells',
 'A document made of valid eno lines is accepted, and its elements have exactly the kinds, keys, values, order and section nesting that the line grammar assigns to each line on its own: fields, empty elements, lists, fieldsets, multiline fields and sections by operator depth. No line is dropped, duplicated, merged with a neighbouring line or attached to the wrong parent.',
 ['inputs'], 'every document over the eno line grammar: any sequence of valid lines, any operators, escaped and unescaped keys, blank lines, nesting depths and unicode whitespace',
 'Existing tests feed single lines or a few fixed documents; the grammar is one large regular expression plus a stateful loop whose interactions (which line follows which) are unbounded.',
 ['grammar_regex.py', 'analyzer.py', 'context.py'],
 [('unified line grammar', 'grammar_regex.py:Grammar.REGEX'), ('element attachment state', 'analyzer.py:Analyzer.analyze')],
 ['raw() of the document', 'typed accessors'],
 [('last continuable / last non-section element', 'what the next item, entry or continuation attaches to', 'analyzer.py'), ('depth', 'current section depth', 'analyzer.py')])

prop('P03', 'An invalid document is rejected at its first offending line, correctly named',
 'A document is rejected with a ParseError exactly when one of its lines breaks the grammar in its context, and the error describes the first such line: the right kind of problem, the right one-based line number, and a selection covering exactly the offending text. Kinds are: invalid line, unterminated escaped key, unterminated multiline field, list item without list, fieldset entry without fieldset, continuation without element, and skipped section depth.',
 ['inputs'], 'every document containing at least one offending line, at any position, after any valid prefix and before any suffix',
 'Each error kind is exercised by one or two fixed documents; the interaction of an error with arbitrary preceding state and trailing text is not.',
 ['analyzer.py', 'errors/parsing.py', 'errors/selections.py'],
 [('error tokenizer', 'analyzer.py:Analyzer._tokenize_error_context'), ('error constructors', 'errors/parsing.py:Parsing')],
 ['ParseError.text/.selection/.cursor'])

prop('P04', 'Content survives writing and reading back under any legal formatting',
 'Whatever keys and values an author writes, in any legal layout - indentation, spacing around operators, blank lines, backtick-escaped or plain keys, trailing whitespace, CRLF line ends, missing final newline - reading the document back yields exactly those keys and single-line values. Two layouts of the same content read back identically.',
 ['inputs'], 'every content tree of keys and values expressible in eno, and every legal layout of it',
 'Tests check spacing variants of a few single lines with fixed words; they cannot cover arbitrary keys (operators, backticks, unicode inside) or combinations of layout choices across a document.',
 ['grammar_regex.py', 'analyzer.py'],
 [('key escaping and whitespace trimming', 'grammar_regex.py:Grammar')],
 ['string_key, required_string_value, raw'])

prop('P05', 'Line continuations concatenate exactly as written',
 'The value of a field, list item or fieldset entry is its own value followed by every continuation in document order, a direct continuation joined with nothing and a spaced continuation with a single space; empty continuations add nothing themselves but an empty spaced one makes the next non-empty one spaced, and nothing is inserted before the first non-empty part. Blank lines and comments between continuations change nothing, and a value made only of empty parts is no value.',
 ['inputs'], 'every sequence of direct/spaced, empty/non-empty continuations with interleaved blanks and comments on every continuable kind of element',
 'A fixed list of short sequences is snapshot-tested on fields only.',
 ['analyzer.py', 'context.py'],
 [('continuation collection', 'analyzer.py:Analyzer.analyze'), ('value computation', 'context.py:Context.value')],
 ['optional_string_value'])

prop('P06', 'Multiline field content is preserved verbatim',
 'The value of a multiline field is exactly the text between its opening and its terminating line - every character, indentation, blank line and line that looks like other eno syntax - and None when there is no line in between. The field ends at the first line that repeats its operator with the same dash count and the same key, and nothing else ends it.',
 ['inputs'], 'every body text that does not contain the terminator, every key (including regular-expression metacharacters) and dash count',
 'Tests use a handful of plain bodies and plain keys.',
 ['analyzer.py', 'context.py'],
 [('terminator search', 'analyzer.py:Analyzer.analyze'), ('value slicing', 'context.py:Context.value')],
 ['required_string_value'])

prop('P07', 'Comments attach to the element that follows and keep their shape',
 'The comment of an element is the block of comment lines directly before it, without any blank line in between: leading and trailing empty comment lines are dropped, the common indentation of the block is removed and relative indentation and inner empty lines are kept; a single comment line is trimmed. Comments not directly followed by an element belong to no element and change nothing else in the document.',
 ['inputs'], 'every arrangement of comment lines, blank lines, indentation and element kinds',
 'Tests cover a few comment blocks per element kind; arbitrary indentation patterns and comment placements (between continuations, at the end, before blank lines) are not.',
 ['analyzer.py', 'context.py', 'elements/element_base.py'],
 [('comment association', 'analyzer.py:Analyzer.analyze'), ('dedentation', 'context.py:Context.comment')],
 ['optional_string_comment, required_string_comment, raw'])

prop('P08', 'Copied fields, lists and fieldsets read as if written out by hand',
 'An element that copies a non-section element reads exactly like its template: same kind, value, items, entries, and comment unless it has its own. A copied list followed by own items holds the template items then its own; a copied fieldset with own entries holds the template entries whose keys it does not redefine, then its own; chains of copies compose, the template is never altered, and template and copy may appear in either order.',
 ['inputs'], 'every document with non-section copies of any kind, in chains of any length, placed before or after the template, inside or outside sections',
 'One fixed document snapshot covers copying; orderings, chains and redefinition combinations are not covered.',
 ['resolver.py', 'context.py', 'elements/list.py', 'elements/fieldset.py'],
 [('consolidation', 'resolver.py:Resolver.consolidate_non_section_elements'), ('lazy merge', 'context.py:Context.items/entries')],
 ['items(), entries(), raw(), value and comment accessors'])

prop('P09', 'A copied section reads as the template plus its own overriding elements',
 'A section that copies another one holds the elements of the template (including what the template itself copies) whose keys it does not define, followed by its own elements, recursively through chains of copies and regardless of document order. Own elements replace all template elements with the same key, the comment is inherited unless there is an own one, and the template section itself stays unchanged.',
 ['inputs'], 'every document with shallow section copies, in chains, across nesting levels and in either document order',
 'Only a couple of fixed documents are snapshot-tested.',
 ['resolver.py', 'context.py', 'elements/section.py'],
 [('section consolidation', 'resolver.py:Resolver.consolidate_sections'), ('element instantiation', 'elements/section.py:Section._instantiate_elements')],
 ['elements(), raw(), typed accessors'])

prop('P10', 'Deep copies merge same-named subsections at every level',
 'With a deep copy, wherever section and template each hold exactly one element under a key and both are sections, the copy\'s subsection holds the template subsection\'s elements it does not define plus its own, recursively at every depth; everything else behaves as in a shallow copy. With a shallow copy a subsection defined in the copy is never merged. (A section that would get two templates, by its own copy and by a merge, is left open.)',
 ['inputs'], 'every pair of section trees combined by a deep (or, for contrast, shallow) copy, including chains whose subsections have a single template each',
 'One snapshot document has one deep copy; depth, multiplicity and kind mismatches are unbounded.',
 ['resolver.py', 'context.py', 'elements/section.py'],
 [('deep merge', 'resolver.py:Resolver.consolidate_sections')],
 ['elements(), raw()'])

prop('P11', 'Copies that cannot be resolved are rejected, and only those',
 'A document is rejected with a ParseError naming the problem exactly when some copy has no template of its kind, has two or more candidate templates, depends on itself directly or through other copies or through containment, or adds items or entries to a template of another kind. The verdict does not depend on the order in which elements appear, the reported problem is one that really exists in the document, and it points at a line taking part in it.',
 ['inputs'], 'every graph of copy relations (elements and nested sections), every document order',
 'Existing tests use one two-element document per error kind; longer chains, nested cycles and other orders take other paths.',
 ['resolver.py', 'errors/parsing.py'],
 [('template index', 'resolver.py:Resolver.index'), ('recursive resolution', 'resolver.py:Resolver.resolve_section/resolve_non_section_element')],
 ['ParseError.text/.selection'])

prop('P12', 'Querying a single element of a section keeps its contract',
 'Asking a section for one element, empty, field, fieldset, list or section - by key or, without a key, for the only one - returns that element with its content when exactly one exists and has a compatible kind; with several or with an incompatible kind it raises a ValidationError that says so. When none exists the required query raises the matching missing-element error, the optional query returns None, and the plain query returns a placeholder.',
 ['inputs'], 'every document, every section in it, every kind of query, every present or absent key, and no key',
 'Tests query small fixed documents; key multiplicity x kind x query variant x locale of the section is combinatorial.',
 ['elements/section.py', 'elements/section_element.py', 'errors/validation.py'],
 [('single-element queries', 'elements/section.py:Section._element/_empty/_field/_fieldset/_list/_section')],
 ['document and section query methods'])

prop('P13', 'Collection queries return all matching elements in document order',
 'Asking a section for its elements, fields, fieldsets, lists or sections returns every element of the section (or every one with the given key) exactly once, in order, and an unknown key gives an empty collection. When one of them has an incompatible kind, a ValidationError naming that expectation and selecting such an element is raised instead.',
 ['inputs'], 'every document, section, collection query, present or absent key, and no key',
 'Tests use two-element sections.',
 ['elements/section.py'],
 [('collection queries', 'elements/section.py:Section.elements/fields/fieldsets/lists/sections')],
 ['elements(), fields(), fieldsets(), lists(), sections()'])

prop('P14', 'Fieldset and list contents are returned completely and by key',
 'A fieldset returns all its entries in order, or those with a given key; a single-entry query returns the entry when exactly one matches, raises a ValidationError when several match, and for none raises, returns None or returns a placeholder depending on whether the query is required, optional or plain. A list returns all its items in order with a matching length, and empty elements behave as fieldsets without entries and lists without items.',
 ['inputs'], 'every fieldset/list (own, copied, extended, empty), every present or absent key and query variant',
 'Tests use one small fieldset and list.',
 ['elements/fieldset.py', 'elements/list.py'],
 [('entry queries', 'elements/fieldset.py:Fieldset._entry'), ('items', 'elements/list.py:List._items')],
 ['entries(), entry(), optional_entry(), required_entry(), items(), length(), *_values()'])

prop('P15', 'Required values are never silently missing and optional ones never raise',
 'For every field, fieldset entry and list item, the optional value accessors return the value or None, and the required ones return the same value or raise a ValidationError naming the element (the list, for items) and selecting the place after its operator. The same holds for comments, and for all values of a list at once.',
 ['inputs'], 'every value-carrying element of every document (own, multiline, continued, copied, empty) and every string accessor',
 'Tests check a present and a missing value on single-line elements.',
 ['elements/value_element_base.py', 'elements/field.py', 'elements/list.py', 'errors/validation.py'],
 [('value access', 'elements/value_element_base.py:ValueElementBase._value'), ('missing value error', 'errors/validation.py:Validation.missing_value')],
 ['required_/optional_ value and comment accessors'])

prop('P16', 'Loaders see the exact string once and failures become ValidationErrors',
 'A loader passed to a value, values, key or comment accessor is called exactly once per present string with exactly that string, and its result is returned untouched; for absent strings it is not called. A ValueError it raises becomes a ValidationError that carries its message and selects the value, key or comment in question, and any other exception passes through unchanged.',
 ['inputs', 'fault_sequences'], 'every element, accessor, loader result (including falsy ones) and loader failure',
 'Tests use one or two loaders on one element.',
 ['elements/element_base.py', 'elements/value_element_base.py', 'elements/list.py', 'errors/validation.py'],
 [('loader invocation', 'elements/value_element_base.py:_value, elements/element_base.py:_comment/key')],
 ['required_value, optional_value, *_values, key, *_comment'])

prop('P17', 'Registered loaders add accessors equal to passing the loader directly',
 'After registering a loader under a name - as function, dictionary or keyword argument - every element offers the accessors derived from that name, and each behaves exactly like the generic accessor given the same loader, including errors; on absent elements they behave like the string accessors. Registering several loaders, or one name again, never mixes them up.',
 ['inputs', 'histories'], 'every registration form and sequence of registrations, every element and accessor',
 'One test registers one loader and calls it on fixed documents.',
 ['register.py'],
 [('accessor installation', 'register.py:_register')],
 ['enolib.register and the generated accessors'])

prop('P18', 'Placeholders of absent elements answer consistently at any depth',
 'A query on an absent element can be chained to any depth without failing: optional accessors yield None, collections are empty, and nested plain queries yield placeholders again. As soon as something is required through such a chain, a ValidationError naming the outermost absent element, of the kind it was queried as (or converted to right away), is raised.',
 ['inputs', 'histories'], 'every chain of queries that starts at an absent element, in every document and section',
 'Tests cover only the textual representation and one or two accessors of placeholders.',
 ['elements/missing/missing_section.py', 'elements/missing/missing_element_base.py', 'elements/missing/missing_section_element.py', 'elements/section.py', 'elements/fieldset.py'],
 [('error delegation to the parent', 'elements/missing/missing_element_base.py:_missing_error, elements/section.py:_missing_error')],
 ['placeholder accessors'])

prop('P19', 'Requiring all elements makes every plain query of an absent one fail',
 'Once all elements of a section (or all entries of a fieldset) are required, every plain query of an absent element inside it, and inside every section and fieldset obtained below it before or afterwards, raises the matching missing-element ValidationError; switching the requirement off restores placeholders. Queries of present elements are unaffected.',
 ['inputs', 'histories'], 'every document and every sequence of switching the requirement on/off on any section or fieldset and querying before and after',
 'Tests switch the flag on an empty document only.',
 ['elements/section.py', 'elements/fieldset.py'],
 [('propagation', 'elements/section.py:Section.all_elements_required')],
 ['all_elements_required(), all_entries_required(), plain queries'],
 [('all elements required', 'flag inherited by sections and fieldsets below', 'elements/section.py')])

prop('P20', 'Touch assertions find exactly the elements nobody has looked at',
 'After any history of queries, asserting that everything was touched raises a ValidationError exactly when some element in scope (honouring only/skip and custom messages) has not been obtained and looked at, and the error selects such an untouched element; touching a section, list or fieldset covers everything below it. Touches of a copy never count for the template or for other copies.',
 ['inputs', 'histories'], 'every document and every sequence of queries, touches and assertions on its sections and fieldsets',
 'Tests touch one element in fixed documents; the property is about arbitrary access histories.',
 ['elements/section.py', 'elements/section_element.py', 'elements/fieldset.py', 'elements/list.py', 'elements/element_base.py'],
 [('untouched traversal', 'elements/section.py:Section._untouched, section_element.py:SectionElement._untouched')],
 ['assert_all_touched(), touch()'],
 [('touched', 'set when an element is accessed', 'elements/element_base.py')])

prop('P21', 'Ambiguous elements convert to exactly the kinds they claim to yield',
 'For an element obtained without a kind, conversion to a kind succeeds exactly when it claims to yield that kind, and then gives the same content as the typed query; otherwise a ValidationError states the expected kind. Repeating a conversion gives the same object, and a second conversion to a different kind is refused with a TypeError that names both kinds, and does not disturb the first.',
 ['inputs', 'histories'], 'every element kind (own or copied), every sequence of claims and conversions, for elements obtained from sections and from lookup',
 'Tests do not enumerate kinds x conversions x sequences.',
 ['elements/section_element.py', 'elements/element.py'],
 [('conversions', 'elements/section_element.py:to_*/yields_*')],
 ['element().to_*(), yields_*()'])

prop('P22', 'Every reported position is real and consistent',
 'Every error, however provoked, has a selection whose begin does not lie behind its end, whose line/column and absolute index denote the same existing place in the document, and whose cursor is its begin. The selection covers exactly the text the error is about: the line, key, value, comment, template or whole element.',
 ['inputs', 'configurations'], 'every parse error and every validation error reachable through the public accessors on any document',
 'Tests check line/column of a few errors in fixed documents and never the absolute index.',
 ['errors/selections.py', 'errors/validation.py', 'errors/parsing.py', 'error_types.py', 'analyzer.py'],
 [('selections', 'errors/selections.py'), ('token ranges', 'analyzer.py')],
 ['Error.selection, Error.cursor'])

prop('P23', 'Error snippets quote the document faithfully and mark the right lines',
 'In every text snippet each numbered line shows exactly that line of the document, numbers ascend and exist in the document, every line within two lines of a marked line is shown, and every omitted stretch is represented by exactly one ellipsis. The lines an error is about are marked: the reported element or line is emphasised and the remaining lines of the selection are indicated.',
 ['inputs'], 'every parse or validation error on any document (any size)',
 'Snippets are compared for a few short documents where hardly anything is omitted.',
 ['reporters/reporter.py', 'reporters/text_reporter.py', 'analyzer.py'],
 [('line index and tagging', 'reporters/reporter.py:Reporter'), ('snippet windowing', 'reporters/reporter.py:Reporter.snippet')],
 ['Error.snippet with the text reporter'])

prop('P24', 'HTML and terminal reports show the same lines as the text report, safely',
 'For the same error the HTML and the terminal report show the same lines with the same numbers, contents and marks as the text report; without its colour codes the terminal output contains every shown line verbatim. HTML reports escape everything that comes from the document or the source label, so that the only markup is the reporter\'s own, and the source label is shown in each.',
 ['inputs', 'configurations'], 'every error on any document (with markup characters in it) under every reporter, with and without a source label',
 'One fixed snapshot per reporter.',
 ['reporters/html_reporter.py', 'reporters/terminal_reporter.py', 'reporters/text_reporter.py', 'reporters/reporter.py'],
 [('rendering', 'reporters/html_reporter.py:HtmlReporter._markup, reporters/terminal_reporter.py:TerminalReporter._line')],
 ['Error.snippet under each reporter'])

prop('P25', 'All locales report the same errors with their own complete messages',
 'Switching the locale changes only the wording: the same input or access produces the same error with the same position and marks under every shipped locale, its text being that locale\'s translation with the line numbers, keys and messages filled in verbatim. Every shipped locale provides every message, as given in the translation catalogues of the repository.',
 ['inputs', 'configurations'], 'every message id x every locale x arbitrary argument strings; every error on any document x every locale',
 'Tests render the messages once with fixed arguments and never an error under a non-default locale.',
 ['messages/en.py', 'messages/de.py', 'messages/es.py', 'context.py', 'errors/parsing.py', 'errors/validation.py'],
 [('message catalogues', 'messages/*.py'), ('locale option', 'context.py:Context')],
 ['Error.text for each locale; locales/translations/*.po'])

prop('P26', 'Looking up a position returns the element and token that are really there',
 'For every position in a valid document, lookup by index and by line/column agree and return the innermost element the position\'s line belongs to, and the name of the token (key, value, operator, template...) that covers it, or none between tokens. Positions outside the document raise IndexError, every position inside is answered, and the returned element can be used like any other.',
 ['inputs'], 'every valid document x every index and every (line, column) in it, and positions outside',
 'Tests look up 9 positions of one document.',
 ['lookup.py', 'analyzer.py', 'elements/element.py'],
 [('positional search', 'lookup.py:check_*')],
 ['enolib.lookup'])

prop('P27', 'The raw representation and the accessors describe the same document',
 'The raw form of a document, section or element lists the same kinds, keys, values, comments and contents in the same order as walking it through the accessors, for copied and merged elements too; it consists only of plain dictionaries, lists, strings and None. Asking for it any number of times, before or after other accesses, changes nothing.',
 ['inputs', 'histories'], 'every valid document and every element in it, before and after arbitrary accesses',
 'Tests call raw() on a few single elements, never on copied sections.',
 ['context.py', 'elements/element_base.py'],
 [('raw', 'context.py:Context.raw'), ('typed walk', 'elements/')],
 ['raw() vs accessors'])

prop('P28', 'Answers do not depend on what was asked before or on other documents',
 'Each accessor answers the same whether it is the first access to a freshly parsed document or comes after any other sequence of accesses, reports and failed queries, and repeated queries return the same answer. Parsing the same text twice, or using other documents in between, never changes an answer.',
 ['histories', 'inputs'], 'every document and every interleaving of accesses on it and on other documents',
 'The library builds elements, values and merges lazily and caches them; tests use a fresh document per assertion.',
 ['context.py', 'elements/section.py', 'elements/fieldset.py', 'elements/list.py', 'resolver.py'],
 [('lazy construction and caching', 'context.py, elements/')],
 ['all accessors'],
 [('computed_* caches', 'lazily computed values, comments, items, entries', 'context.py')])

prop('P29', 'Errors built by the user point at the element they were built on',
 'Asking any element for an error, value error, key error or comment error returns - without raising and without touching the element - a ValidationError whose text contains the given message (or the result of the given function, called once with the element, value, key or comment), and whose selection is that element, value, key or comment.',
 ['inputs'], 'every element of every valid document (including copies, empty ones and the document itself), every error builder, string and function messages',
 'Tests build a few errors on simple elements.',
 ['elements/element_base.py', 'elements/value_element_base.py', 'errors/validation.py', 'errors/selections.py'],
 [('error builders', 'elements/element_base.py:error/key_error/comment_error, value_element_base.py:value_error')],
 ['error(), value_error(), key_error(), comment_error()'])

prop('P30', 'Every element leads back to the element it was obtained from',
 'The parent of any element obtained from a section, fieldset or list is that same section, fieldset or list, for copied content the copy rather than the template, and the parent of the document is None. For elements converted from a lookup the parent is the enclosing element in the document.',
 ['inputs'], 'every element of every valid document, reached through any accessor path or lookup',
 'parent() is not tested at all.',
 ['elements/section.py', 'elements/field.py', 'elements/empty.py', 'elements/fieldset.py', 'elements/fieldset_entry.py', 'elements/list.py', 'elements/list_item.py'],
 [('parent links', 'elements/*.py:parent')],
 ['parent()'])

prop('P31', 'Debug representations never fail and stay on one short line',
 'The textual representation of every element and placeholder can always be produced, names its kind and its key (when it has one), and tells the number of contained elements, entries or items, or an excerpt of at most 14 characters of the value (longer values being cut with dots), with line feeds shown escaped so that the representation stays on one line.',
 ['inputs'], 'every element and placeholder reachable in every valid document',
 'Tests check one representation per class with simple values.',
 ['elements/value_element_base.py', 'elements/section.py', 'elements/element.py', 'elements/missing/missing_element_base.py'],
 [('representations', 'elements/*.py:__repr__')],
 ['repr()'])

prop('P32', 'The cost of reading a document stays in proportion to its size',
 'When a document repeats its content (elements, items, entries, continuations, comments, sections, copies ...) n times as often, then parsing it, rejecting it, reporting an error on it, looking up a position, reading its raw form, walking, querying, touching and asserting it take about n times the effort and not more (output that itself grows faster, as chains of copies that repeat growing content, aside). No text of a few thousand characters, whatever its shape, takes longer than a moment to be read or rejected: there are no inputs that make the grammar backtrack without end.',
 ['inputs'], 'every text; every document made by repeating blocks, every operation on it',
 'Tests only read documents of a few lines; nothing in them depends on how the effort grows with the size of the input, and hostile lines do not occur.',
 ['grammar_regex.py', 'analyzer.py', 'resolver.py', 'lookup.py', 'reporters/reporter.py', 'elements/section.py', 'elements/fieldset.py', 'elements/list.py'],
 [('line grammar', 'grammar_regex.py, analyzer.py:analyze'), ('copy resolution', 'resolver.py'), ('index building', 'reporters/reporter.py:__init__'), ('lazy access', 'elements/section.py:elements/_untouched')],
 ['parse()', 'lookup()', 'ParseError', 'raw()', 'elements()', 'error()'])

prop('P33', 'Documents handled at the same time do not disturb each other',
 'Separate documents can be parsed, queried and reported on in parallel threads, or from inside of a loader or message function that is being called for another document, under different locales, reporters and source labels, and every one of them gives exactly the results (values, errors, texts, snippets, selections) it gives when it is handled alone, however the work interleaves.',
 ['schedules', 'histories'], 'every set of documents with its operations, every interleaving of the executed lines of the library, every nesting in callbacks',
 'Tests run one document after the other in one thread and never call the library from a loader.',
 ['context.py', 'analyzer.py', 'resolver.py', 'reporters/reporter.py', 'elements/element_base.py', 'elements/value_element_base.py', 'parse.py'],
 [('per-document state', 'context.py:Context'), ('parsing', 'parse.py, analyzer.py, resolver.py'), ('report building', 'reporters/*.py')],
 ['parse()', 'every accessor', 'error()', 'loaders'])

A = 'javascript/lib/'

prop('P34', 'JavaScript: parsing any text yields a document or a ParseError',
 'In the JavaScript library, for every string whatsoever, parsing either returns a document or throws a ParseError and nothing else, whichever of the shipped reporters, locales and source labels is selected and however many elements, entries, items or comments the document has. A returned document has a raw representation, and a thrown error carries a text, a snippet, a cursor, a selection and a message made of text and snippet.',
 ['inputs', 'configurations'], 'every string (including random unicode, token soup, near-valid documents, unterminated constructs, keys that are names of built-in object properties, copy chains and cycles) x {text, HTML, terminal reporter} x {en, de, es} x {with, without source}',
 'The JavaScript specs feed fixed documents and, in one place, uniformly random text with the default reporter; no spec has keys such as __proto__ or constructor, cycles through sections or many elements.',
 ['parse.js', 'analyze.js', 'grammar_matcher.js', 'resolve.js', 'context.js', 'errors/parsing.js', 'reporters/reporter.js', 'reporters/terminal_reporter.js'],
 [('line loop and error tokenizer', 'analyze.js:analyze, tokenizeErrorContext'), ('copy resolution', 'resolve.js:resolve'), ('error constructors', 'errors/parsing.js')],
 ['parse()', 'raw()', 'ParseError'])

prop('P35', 'JavaScript: a valid document reads as exactly the tree it spells',
 'In the JavaScript library, a document made of valid lines is accepted, and raw() and the accessors give exactly the elements the lines spell: kinds, keys (escaped or not), values, order and section nesting, in whatever legal layout they are written. Continuations are joined exactly as written (directly, or with one space, empty parts adding nothing), and multiline content is preserved verbatim up to the first line that repeats operator and key. Comments belong to the element that directly follows them and keep their relative indentation.',
 ['inputs'], 'every document over the line grammar, every content tree in every legal layout, every sequence of continuations, multiline body and comment block',
 'The specs test the grammar line by line and documents of a few lines; what follows on what, arbitrary keys and arbitrary content are unbounded.',
 ['analyze.js', 'grammar_matcher.js', 'context.js', 'elements/section.js', 'elements/field.js'],
 [('unified line grammar', 'grammar_matcher.js'), ('element attachment state', 'analyze.js:analyze'), ('value and comment computation', 'context.js:value, comment')],
 ['raw()', 'typed accessors', 'optionalStringValue(), optionalStringComment()'])

prop('P36', 'JavaScript: an invalid document is rejected at its first offending line',
 'In the JavaScript library a document is rejected with a ParseError exactly when one of its lines breaks the grammar in its context, and the error describes the first such line: the right kind of problem, the right line number, and a selection covering exactly the offending text. Kinds are: invalid line, unterminated escaped key, unterminated multiline field, list item without list, fieldset entry without fieldset, continuation without element, and skipped section depth.',
 ['inputs'], 'every document containing at least one offending line, at any position, after any valid prefix and before any suffix',
 'Each error kind is exercised by one or two fixed documents in the specs.',
 ['analyze.js', 'errors/parsing.js', 'errors/selections.js'],
 [('error tokenizer', 'analyze.js:tokenizeErrorContext'), ('error constructors', 'errors/parsing.js')],
 ['ParseError text, selection and cursor'])

prop('P37', 'JavaScript: copies read as written out, unresolvable ones are rejected',
 'In the JavaScript library an element that copies a field, list, fieldset or empty element reads exactly as if the template were written out at its place (a list followed by its own items, a fieldset by its own entries, which replace entries of the template with the same key), a section that copies another one reads as the elements of the template whose keys it does not define followed by its own, and a deep copy does the same at every level where section and template each hold exactly one element under a key and both are sections. Templates stay unchanged, comments are inherited unless there are own ones, chains compose, and the order in the document does not matter. A document is rejected because of a copy exactly when a template is missing or ambiguous, a copy depends on itself, or items or entries are added to a template of another kind, and the error names such a problem.',
 ['inputs'], 'every document with copies: chains, both document orders, sections and elements, shallow and deep, any override, missing and ambiguous templates and cycles of any length, also through sections',
 'The specs cover a handful of copy documents; resolution order, chains, overrides and cycles combine without bound.',
 ['resolve.js', 'context.js', 'analyze.js', 'errors/parsing.js', 'elements/section.js', 'elements/fieldset.js', 'elements/list.js'],
 [('copy resolution', 'resolve.js:resolve'), ('reading through mirrors and extensions', 'context.js:elements, entries, items, value'), ('index of templates', 'resolve.js:index, prepare')],
 ['raw()', 'typed accessors', 'ParseError'])

prop('P38', 'JavaScript: queries keep their contracts for present and absent elements',
 'In the JavaScript library every query of a section, fieldset or list - one element or all, by key or not, in its plain, optional and required form, and all elements, entries or items - returns exactly the matching elements in document order, or throws a ValidationError naming the violated expectation: several where one is expected, another kind than the queried one, none where one is required. A plain query of an absent element gives a placeholder that answers every further question as absent at any depth, an optional one gives null, and with allElementsRequired (which can be switched off again and is passed on to subsections and fieldsets) plain queries behave like required ones.',
 ['inputs', 'histories'], 'every document x every query with any key or none x every order of switching the requirement of all elements',
 'The specs check each accessor on one or two fixed documents; keys, kinds, multiplicities, copies and the order of calls combine without bound.',
 ['elements/section.js', 'elements/fieldset.js', 'elements/list.js', 'elements/section_element.js', 'elements/missing/missing_section.js', 'elements/missing/missing_fieldset.js', 'errors/validation.js'],
 [('element queries', 'elements/section.js:_field, _fields, _list, ...'), ('placeholders', 'elements/missing/*.js'), ('passing on the requirement', 'elements/section.js:allElementsRequired')],
 ['accessors of Section, Fieldset, List and their missing counterparts', 'ValidationError'])

prop('P39', 'JavaScript: values, keys and comments reach loaders exactly once and intact',
 'In the JavaScript library the required value, key and comment accessors never return null and the optional ones never throw for absence. A loader gets exactly the string that is there, is called exactly once per present value and never for an absent one, its result is returned unchanged, and an exception it throws becomes a ValidationError with its message, on the value, key or comment it was given. Accessors added by register() equal passing the same loader to the generic ones, for every kind of element and also for elements of documents parsed before.',
 ['inputs', 'histories', 'configurations'], 'every document x every accessor x loaders returning and throwing anything x histories of registrations',
 'The specs use a few fixed values with one loader each.',
 ['elements/value_element_base.js', 'elements/element_base.js', 'elements/list.js', 'elements/missing/missing_value_element_base.js', 'register.js', 'errors/validation.js'],
 [('value access', 'elements/value_element_base.js:_value'), ('key and comment access', 'elements/element_base.js:_comment, _key'), ('registration', 'register.js')],
 ['value, key and comment accessors', 'register()'])

prop('P40', 'JavaScript: touch assertions find exactly the elements nobody looked at',
 'In the JavaScript library, after any history of queries, conversions, touch() calls and assertions, assertAllTouched throws a ValidationError exactly when an element in its scope (with the given only, except and message) has not been looked at, and the error selects such an element and carries the given or default message. Touching a section, list or fieldset covers everything below it, and touches of a copy never count for the template or for other copies.',
 ['inputs', 'histories'], 'every document x every history of queries, conversions, touches and assertions with any only/except/message',
 'The specs assert after one or two fixed queries.',
 ['elements/section.js', 'elements/fieldset.js', 'elements/list.js', 'elements/section_element.js', 'elements/element_base.js', 'errors/validation.js'],
 [('touched flags', 'elements/*.js:_touched, touch'), ('assertions', 'elements/section.js:assertAllTouched, elements/fieldset.js:assertAllTouched')],
 ['assertAllTouched(), touch()'])

prop('P41', 'JavaScript: conversions, parents, raw forms and answers stay consistent',
 'In the JavaScript library an element obtained without a kind converts exactly to the kinds it claims to yield (a ValidationError states the expected kind otherwise), and every element leads back to the very element it was obtained from. raw() and the accessors describe the same document, answers do not depend on what was asked before nor on other documents, even when these are handled from inside of a loader or message function, and string representations never fail and stay on one line.',
 ['inputs', 'histories'], 'every document x every history of conversions, queries and representations on it and on other documents',
 'The specs convert single fixed elements and never ask twice in different orders.',
 ['elements/section_element.js', 'elements/element.js', 'elements/section.js', 'elements/fieldset.js', 'elements/list.js', 'context.js', 'elements/value_element_base.js'],
 [('conversions', 'elements/section_element.js:toField, toFieldset, ...; elements/element.js'), ('raw form', 'context.js:raw'), ('lazy elements', 'elements/section.js:_elements')],
 ['to*() and yields*()', 'parent()', 'raw()', 'toString()'])

prop('P42', 'JavaScript: errors and reports point at real text, faithfully quoted',
 'In the JavaScript library every selection and cursor of an error lies in the document, agrees in line, column and index, and covers what the error is about, also for errors built by the user with error(), keyError(), valueError() and commentError(). Snippets quote exactly the lines around the offending ones, with the right numbers and marks; HTML and terminal reports show the same lines as the text report, with everything from the document and the source label escaped in HTML. Every locale reports the same errors at the same places with its own messages.',
 ['inputs', 'configurations'], 'every document and error scenario x {text, HTML, terminal reporter} x {en, de, es} x {with, without source}',
 'The specs compare snapshots of a few fixed reports, most of them with one reporter and locale.',
 ['reporters/reporter.js', 'reporters/text_reporter.js', 'reporters/html_reporter.js', 'reporters/terminal_reporter.js', 'errors/selections.js', 'errors/parsing.js', 'errors/validation.js', 'elements/element_base.js', 'elements/value_element_base.js', 'messages/de.js', 'messages/en.js', 'messages/es.js'],
 [('tagging and printing of lines', 'reporters/reporter.js'), ('selections', 'errors/selections.js'), ('catalogues', 'messages/*.js')],
 ['ParseError and ValidationError: text, snippet, selection, cursor, message'])

prop('P43', 'JavaScript: looking up a position finds the element and token there',
 'In the JavaScript library, looking up any index or any line and column of a valid document returns the innermost element the line of that position belongs to and the name of the token (key, value, operator, comment ...) that covers it, and the answers by index and by line and column agree. Positions outside of the document throw.',
 ['inputs'], 'every valid document x every position inside and outside of it, by index and by line and column',
 'The specs snapshot the lookup of every position of one or two documents.',
 ['lookup.js', 'analyze.js'],
 [('element search', 'lookup.js:checkElementIndex, checkElementLine and their helpers'), ('token ranges', 'analyze.js')],
 ['lookup()'])

prop('P44', 'JavaScript: the cost of reading stays in proportion to the document',
 'In the JavaScript library, when a document repeats its content n times as often, then parsing, rejecting, reporting an error, looking up a position, reading the raw form, walking, querying, touching and asserting take about n times the effort and not more (output that itself grows faster aside). No text of a few thousand characters, whatever its shape, takes longer than a moment to be read or rejected.',
 ['inputs'], 'every text; every document made by repeating blocks, every operation on it',
 'The specs only read documents of a few lines, and hostile lines do not occur in them.',
 ['grammar_matcher.js', 'analyze.js', 'resolve.js', 'lookup.js', 'reporters/reporter.js', 'elements/section.js', 'elements/fieldset.js', 'elements/list.js'],
 [('line grammar', 'grammar_matcher.js, analyze.js:analyze'), ('copy resolution', 'resolve.js'), ('index building', 'reporters/reporter.js:constructor'), ('lazy access', 'elements/section.js')],
 ['parse()', 'lookup()', 'ParseError', 'raw()', 'elements()', 'error()'])

A = ''
prop('P45', 'The Python and the JavaScript library answer alike',
 'Given the same text, locale, reporter and source label, the Python and the JavaScript library both return a document or both reject the text, and the same calls on both - any public method of the document and of everything obtained from it, in any order, with the same keys, loaders, messages and options, as well as lookups - give the same strings, kinds of elements (the same object where the other one gives the same), raw forms, and errors of the same class with the same text, selection, cursor and quoted lines. Left out are: characters that only one of the languages regards as white space, keys that are numbers, debug representations, an empty selection of keys in assert_all_touched, and colours and outermost markup of snippets.',
 ['inputs', 'histories', 'configurations'], 'every text x {en, de, es} x {text, HTML, terminal reporter} x {with, without source} x every sequence of calls of public methods and lookups',
 'The shared specs compare both libraries with the same snapshots for a few fixed documents and calls each.',
 ['python/enolib/analyzer.py', 'python/enolib/resolver.py', 'python/enolib/lookup.py', 'python/enolib/context.py', 'python/enolib/elements/section.py', 'python/enolib/errors/validation.py', 'python/enolib/reporters/reporter.py',
  'javascript/lib/analyze.js', 'javascript/lib/resolve.js', 'javascript/lib/lookup.js', 'javascript/lib/context.js', 'javascript/lib/elements/section.js', 'javascript/lib/errors/validation.js', 'javascript/lib/reporters/reporter.js', 'specs/source.js'],
 [('reading', 'python/enolib/analyzer.py:Analyzer.analyze, javascript/lib/analyze.js:analyze'), ('queries', 'python/enolib/elements, javascript/lib/elements'), ('errors and reports', 'python/enolib/errors, javascript/lib/errors and the reporters of both')],
 ['parse()', 'lookup()', 'every public method of elements', 'ParseError and ValidationError'])

prop('P46', 'Message catalogs say what the specification and the translations say',
 'Running the catalog generator (locales/generate.js) on a specification brings the translation file of each specified locale up to date - it lists exactly the specified messages, in order, with every non-blank translation that it held before kept as it was and the others left blank (English gets the message itself once its file exists); files of other locales stay as they are - and writes for each specified locale, and for no other one, a catalog for JavaScript, PHP, Python and Ruby that holds exactly the messages outside of the group Terminology, under their names in the convention of the language, each giving its translation with all occurrences of [ARGUMENT] replaced by the arguments, taken in the specified order. Earlier runs, on other specifications, leave no trace beyond the translation files. A mistaken specification (a name not in title case, messages out of alphabetical order, a missing value, something unspecified beside the known sections, text that does not parse) is rejected and leaves all catalogs as they were. The committed catalogs for JavaScript, Python and Ruby are the ones of the committed specification and translations. Left out: quotation marks, backticks, backslashes, braces, $, # and line breaks in texts, names reserved in one of the languages.',
 ['inputs', 'histories'], 'every specification (locales, groups, messages, arguments) x all translation files x every history of changes to them, mistakes included, with a run after each',
 'The generator has no tests at all, and its results are only as good as the one specification it has been run on.',
 ['locales/generate.js', 'locales/generators/javascript.js', 'locales/generators/php.js', 'locales/generators/python.js', 'locales/generators/ruby.js', 'locales/specification.eno', 'utilities.js'],
 [('update of the translations', 'locales/generate.js:generate'), ('catalogs', 'locales/generators/*.js:messageFunction')],
 ['locales/translations/*.po', 'javascript/lib/messages', 'python/enolib/messages', 'ruby/lib/enolib/messages', 'php/src/messages'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for d in P:
        f.write(json.dumps(d, ensure_ascii=False) + '\n')
print(len(P))

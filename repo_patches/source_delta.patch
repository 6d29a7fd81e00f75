From 98b3410e2755bdf79057856803c738a0aca89ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:06 +0000
Subject: [PATCH 01/60] fix: keep every token of the grammar on its own line

---
 python/enolib/grammar_regex.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/enolib/grammar_regex.py b/python/enolib/grammar_regex.py
index 7f2486f..20a4420 100644
--- a/python/enolib/grammar_regex.py
+++ b/python/enolib/grammar_regex.py
@@ -57,7 +57,7 @@ class Grammar:
     # # `key` < template
     SECTION_KEY = f"(?:{SECTION_KEY_UNESCAPED}|{SECTION_KEY_ESCAPED})"
     SECTION_TEMPLATE = rf"(?:(<(?!<)|<<)[^\S\n]*{REQUIRED})?"
-    SECTION = rf"{SECTION_OPERATOR}\s*{SECTION_KEY}[^\S\n]*{SECTION_TEMPLATE}"
+    SECTION = rf"{SECTION_OPERATOR}[^\S\n]*{SECTION_KEY}[^\S\n]*{SECTION_TEMPLATE}"
     SECTION_COPY_OPERATOR_INDEX = 17
     SECTION_TEMPLATE_INDEX = 18
 
@@ -88,11 +88,11 @@ class Grammar:
     FIELDSET_ENTRY_VALUE_INDEX = 26
 
     # < template
-    COPY = rf"(<)\s*{REQUIRED}"
+    COPY = rf"(<)[^\S\n]*{REQUIRED}"
     COPY_OPERATOR_INDEX = 27
     TEMPLATE_INDEX = 28
 
-    LATE_DETERMINED = rf"{KEY}\s*(?:{ELEMENT_OR_FIELD}|{FIELDSET_ENTRY}|{COPY})"
+    LATE_DETERMINED = rf"{KEY}[^\S\n]*(?:{ELEMENT_OR_FIELD}|{FIELDSET_ENTRY}|{COPY})"
 
     NOT_EMPTY = f"(?:{EARLY_DETERMINED}|{LATE_DETERMINED})"
 
-- 
2.43.0


From e6b6de1f47fd107dc5611d4f18623140c3bb4331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:59 +0000
Subject: [PATCH 02/60] fix: return the elements of a copied section from the
 context

---
 python/enolib/context.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/enolib/context.py b/python/enolib/context.py
index 791c7f1..3d60428 100644
--- a/python/enolib/context.py
+++ b/python/enolib/context.py
@@ -59,7 +59,7 @@ class Context:
 
     def elements(self, section):
         if 'mirror' in section:
-            self.elements(section['mirror'])
+            return self.elements(section['mirror'])
         else:
             if not 'computed_elements' in section:
                 section['computed_elements_map'] = {}
-- 
2.43.0


From 754bc4e421d23cb1ea004e4324b6ae31b4653dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:01 +0000
Subject: [PATCH 03/60] fix: treat a single empty comment line as no comment

---
 python/enolib/context.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/enolib/context.py b/python/enolib/context.py
index 3d60428..7d37c68 100644
--- a/python/enolib/context.py
+++ b/python/enolib/context.py
@@ -21,7 +21,7 @@ class Context:
         if not 'computed_comment' in element:
             if 'comments' in element:
                 if len(element['comments']) == 1:
-                    element['computed_comment'] = element['comments'][0]['comment']
+                    element['computed_comment'] = element['comments'][0].get('comment')
                 else:
                     first_non_empty_line_index = None
                     shared_indent = math.inf
-- 
2.43.0


From f594640edcd43bcba6cc313af62d97f8cbcac593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:03 +0000
Subject: [PATCH 04/60] fix: return a placeholder for an absent fieldset entry

---
 python/enolib/elements/fieldset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/enolib/elements/fieldset.py b/python/enolib/elements/fieldset.py
index 6a644f8..ea820df 100644
--- a/python/enolib/elements/fieldset.py
+++ b/python/enolib/elements/fieldset.py
@@ -22,7 +22,7 @@ class Fieldset(ElementBase):
 
         return self._instantiated_entries_map if map else self._instantiated_entries
 
-    def _entry(self, key, *, required=False):
+    def _entry(self, key, *, required=None):
         self._touched = True
 
         if not key:
@@ -71,7 +71,7 @@ class Fieldset(ElementBase):
 
             self._instantiated_entries.extend(native_entries)
 
-    def _missingError(self, entry):
+    def _missing_error(self, entry):
         raise Validation.missing_element(self._context, entry._key, self._instruction, 'missing_fieldset_entry')
 
     def _untouched(self):
-- 
2.43.0


From 591bed09914b7c51502385aca4458d035f9723c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:04 +0000
Subject: [PATCH 05/60] fix: report untouched fieldset entries instead of
 failing

---
 python/enolib/elements/fieldset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/enolib/elements/fieldset.py b/python/enolib/elements/fieldset.py
index ea820df..2d8b37e 100644
--- a/python/enolib/elements/fieldset.py
+++ b/python/enolib/elements/fieldset.py
@@ -97,7 +97,7 @@ class Fieldset(ElementBase):
                     if callable(message):
                         message = message(entry)
 
-                    raise Validation.unexpected_element(self._context, message, entry['instruction'])
+                    raise Validation.unexpected_element(self._context, message, entry._instruction)
 
     def entries(self, key=None):
         self._touched = True
-- 
2.43.0


From f7eef6c4b1cb34e7f346fc3ddf4d837bf2a11f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:06 +0000
Subject: [PATCH 06/60] fix: pass all_elements_required on to yielded sections
 and fieldsets only

---
 python/enolib/elements/section.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/enolib/elements/section.py b/python/enolib/elements/section.py
index 9f95629..3a091af 100644
--- a/python/enolib/elements/section.py
+++ b/python/enolib/elements/section.py
@@ -265,9 +265,9 @@ class Section(ElementBase):
         self._all_elements_required = required
 
         for element in self._elements():
-            if element._instruction['type'] is InstructionType.SECTION and element._yielded:
+            if hasattr(element, '_section'):
                 element.to_section().all_elements_required(required)
-            elif element._instruction['type'] is InstructionType.FIELDSET and element._yielded:
+            elif hasattr(element, '_fieldset'):
                 element.to_fieldset().all_entries_required(required)
 
     def assert_all_touched(self, message=None, *, only=None, skip=None):
-- 
2.43.0


From dba5a42652a7204d590223441653bf0ef6c2186b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:28 +0000
Subject: [PATCH 07/60] fix: return the parent of sections and of elements
 without a stored parent

---
 python/enolib/elements/empty.py          | 2 +-
 python/enolib/elements/field.py          | 2 +-
 python/enolib/elements/fieldset_entry.py | 2 +-
 python/enolib/elements/list_item.py      | 2 +-
 python/enolib/elements/section.py        | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/python/enolib/elements/empty.py b/python/enolib/elements/empty.py
index 6147dd0..4f2cf7c 100644
--- a/python/enolib/elements/empty.py
+++ b/python/enolib/elements/empty.py
@@ -7,4 +7,4 @@ class Empty(ElementBase):
         return f"<class Empty key={self._instruction['key']}>"
 
     def parent(self):
-        return self._parent or section.Section(self._context, self._instruction.parent)
+        return self._parent or section.Section(self._context, self._instruction['parent'])
diff --git a/python/enolib/elements/field.py b/python/enolib/elements/field.py
index ba44871..e740099 100644
--- a/python/enolib/elements/field.py
+++ b/python/enolib/elements/field.py
@@ -36,7 +36,7 @@ class Field(ValueElementBase):
         return self._value(loader, required=False)
 
     def parent(self):
-        return self._parent or section.Section(self._context, self._instruction.parent)
+        return self._parent or section.Section(self._context, self._instruction['parent'])
 
     def required_string_value(self):
         return self._value(required=True)
diff --git a/python/enolib/elements/fieldset_entry.py b/python/enolib/elements/fieldset_entry.py
index e383624..6ab1540 100644
--- a/python/enolib/elements/fieldset_entry.py
+++ b/python/enolib/elements/fieldset_entry.py
@@ -7,4 +7,4 @@ class FieldsetEntry(ValueElementBase):
         return f"<class FieldsetEntry key={self._instruction['key']} value={self._print_value()}>"
 
     def parent(self):
-        return self._parent or fieldset.Fieldset(self._context, self._instruction.parent)
+        return self._parent or fieldset.Fieldset(self._context, self._instruction['parent'])
diff --git a/python/enolib/elements/list_item.py b/python/enolib/elements/list_item.py
index 62584e1..d6f4d9b 100644
--- a/python/enolib/elements/list_item.py
+++ b/python/enolib/elements/list_item.py
@@ -7,4 +7,4 @@ class ListItem(ValueElementBase):
         return f"<class ListItem value={self._print_value()}>"
 
     def parent(self):
-        return self._parent or list.List(self._context, self._instruction.parent)
+        return self._parent or list.List(self._context, self._instruction['parent'])
diff --git a/python/enolib/elements/section.py b/python/enolib/elements/section.py
index 3a091af..94042c3 100644
--- a/python/enolib/elements/section.py
+++ b/python/enolib/elements/section.py
@@ -382,7 +382,7 @@ class Section(ElementBase):
         return self._section(key, required=False)
 
     def parent(self):
-        if self._instruction['type'] is not InstructionType.DOCUMENT:
+        if self._instruction['type'] is InstructionType.DOCUMENT:
             return None
 
         return self._parent or Section(self._context, self._instruction['parent'])
-- 
2.43.0


From 8fc7e425f7a9de076cb49511ec39f213d2072fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:30 +0000
Subject: [PATCH 08/60] fix: allow optional single element queries without a
 key

---
 python/enolib/elements/section.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/python/enolib/elements/section.py b/python/enolib/elements/section.py
index 94042c3..fbaa034 100644
--- a/python/enolib/elements/section.py
+++ b/python/enolib/elements/section.py
@@ -363,22 +363,22 @@ class Section(ElementBase):
 
         return [cast(element) for element in elements]
 
-    def optional_element(self, key):
+    def optional_element(self, key=None):
         return self._element(key, required=False)
 
-    def optional_empty(self, key):
+    def optional_empty(self, key=None):
         return self._empty(key, required=False)
 
-    def optional_field(self, key):
+    def optional_field(self, key=None):
         return self._field(key, required=False)
 
-    def optional_fieldset(self, key):
+    def optional_fieldset(self, key=None):
         return self._fieldset(key, required=False)
 
-    def optional_list(self, key):
+    def optional_list(self, key=None):
         return self._list(key, required=False)
 
-    def optional_section(self, key):
+    def optional_section(self, key=None):
         return self._section(key, required=False)
 
     def parent(self):
-- 
2.43.0


From de349a5205250d4a67e825d961695f7775d974ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:31 +0000
Subject: [PATCH 09/60] fix: treat only None as no key in queries

---
 python/enolib/elements/fieldset.py |  4 ++--
 python/enolib/elements/section.py  | 22 +++++++++++-----------
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/python/enolib/elements/fieldset.py b/python/enolib/elements/fieldset.py
index 2d8b37e..f6d2a46 100644
--- a/python/enolib/elements/fieldset.py
+++ b/python/enolib/elements/fieldset.py
@@ -25,7 +25,7 @@ class Fieldset(ElementBase):
     def _entry(self, key, *, required=None):
         self._touched = True
 
-        if not key:
+        if key is None:
             entries = self._entries()
         else:
             entries_map = self._entries(True)
@@ -102,7 +102,7 @@ class Fieldset(ElementBase):
     def entries(self, key=None):
         self._touched = True
 
-        if not key:
+        if key is None:
             return self._entries()
         else:
             entries_map = self._entries(True)
diff --git a/python/enolib/elements/section.py b/python/enolib/elements/section.py
index fbaa034..b89ae5a 100644
--- a/python/enolib/elements/section.py
+++ b/python/enolib/elements/section.py
@@ -24,7 +24,7 @@ class Section(ElementBase):
     def _element(self, key, *, required=None):
         self._touched = True
 
-        if not key:
+        if key is None:
             elements = self._elements()
         else:
             elements_map = self._elements(True)
@@ -59,7 +59,7 @@ class Section(ElementBase):
     def _empty(self, key, *, required=None):
         self._touched = True
 
-        if not key:
+        if key is None:
             elements = self._elements()
         else:
             elements_map = self._elements(True)
@@ -91,7 +91,7 @@ class Section(ElementBase):
     def _field(self, key, *, required=None):
         self._touched = True
 
-        if not key:
+        if key is None:
             elements = self._elements()
         else:
             elements_map = self._elements(True)
@@ -125,7 +125,7 @@ class Section(ElementBase):
     def _fieldset(self, key, *, required=None):
         self._touched = True
 
-        if not key:
+        if key is None:
             elements = self._elements()
         else:
             elements_map = self._elements(True)
@@ -177,7 +177,7 @@ class Section(ElementBase):
     def _list(self, key, *, required=None):
         self._touched = True
 
-        if not key:
+        if key is None:
             elements = self._elements()
         else:
             elements_map = self._elements(True)
@@ -221,7 +221,7 @@ class Section(ElementBase):
     def _section(self, key, *, required=None):
         self._touched = True
 
-        if not key:
+        if key is None:
             elements = self._elements()
         else:
             elements_map = self._elements(True)
@@ -292,7 +292,7 @@ class Section(ElementBase):
     def elements(self, key=None):
         self._touched = True
 
-        if not key:
+        if key is None:
             return self._elements()
         else:
             elements_map = self._elements(True)
@@ -307,7 +307,7 @@ class Section(ElementBase):
     def fields(self, key=None):
         self._touched = True
 
-        if not key:
+        if key is None:
             elements = self._elements()
         else:
             elements_map = self._elements(True)
@@ -329,7 +329,7 @@ class Section(ElementBase):
     def fieldsets(self, key=None):
         self._touched = True
 
-        if not key:
+        if key is None:
             elements = self._elements()
         else:
             elements_map = self._elements(True)
@@ -349,7 +349,7 @@ class Section(ElementBase):
     def lists(self, key=None):
         self._touched = True
 
-        if not key:
+        if key is None:
             elements = self._elements()
         else:
             elements_map = self._elements(True)
@@ -411,7 +411,7 @@ class Section(ElementBase):
     def sections(self, key=None):
         self._touched = True
 
-        if not key:
+        if key is None:
             elements = self._elements()
         else:
             elements_map = self._elements(True)
-- 
2.43.0


From 05e3966662df6b6eca2589091fc46984f9ff6f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:56 +0000
Subject: [PATCH 10/60] fix: report unparsed lines and deep copies in the
 terminal reporter

---
 python/enolib/analyzer.py                    | 11 ++++-------
 python/enolib/reporters/terminal_reporter.py |  2 +-
 2 files changed, 5 insertions(+), 8 deletions(-)

diff --git a/python/enolib/analyzer.py b/python/enolib/analyzer.py
index 1bc611b..ae985d8 100644
--- a/python/enolib/analyzer.py
+++ b/python/enolib/analyzer.py
@@ -27,12 +27,10 @@ class Analyzer:
             if end_of_line_index == -1:
                 instruction = {
                     'ranges': { 'line': (self._index, len(self._context.input)) },
-                    'line': self._line
+                    'line': self._line,
+                    'type': InstructionType.UNPARSED
                 }
 
-                if first_instruction is not None:
-                    instruction['type'] = InstructionType.UNPARSED
-
                 self._context.line_count = self._line + 1
                 self._context.meta.append(instruction)
 
@@ -40,15 +38,14 @@ class Analyzer:
             else:
                 instruction = {
                     'ranges': { 'line': (self._index, end_of_line_index) },
-                    'line': self._line
+                    'line': self._line,
+                    'type': InstructionType.UNPARSED
                 }
 
                 self._context.meta.append(instruction)
 
                 if first_instruction is None:
                     first_instruction = instruction
-                else:
-                    instruction['type'] = InstructionType.UNPARSED
 
                 self._index = end_of_line_index + 1
                 self._line += 1
diff --git a/python/enolib/reporters/terminal_reporter.py b/python/enolib/reporters/terminal_reporter.py
index 4fb296c..8fb2c43 100644
--- a/python/enolib/reporters/terminal_reporter.py
+++ b/python/enolib/reporters/terminal_reporter.py
@@ -36,7 +36,7 @@ RANGE_STYLE = {
     'entry_operator': WHITE,
     'section_operator': WHITE,
     'copy_operator': WHITE,
-    'deepCopy_operator': WHITE,
+    'deep_copy_operator': WHITE,
     'multiline_field_operator': WHITE,
     'direct_line_continuation_operator': WHITE,
     'spaced_line_continuation_operator': WHITE,
-- 
2.43.0


From 5367f98334b14273d92ed4bc1ba5c032f558231e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:57 +0000
Subject: [PATCH 11/60] fix: report missing templates found along a chain of
 copies

---
 python/enolib/resolver.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/python/enolib/resolver.py b/python/enolib/resolver.py
index 17de161..650b1b2 100644
--- a/python/enolib/resolver.py
+++ b/python/enolib/resolver.py
@@ -89,6 +89,9 @@ class Resolver:
         if element in previous_elements:
             raise Parsing.cyclic_dependency(self._context, element, previous_elements)
 
+        if not 'template' in element['copy']:
+            raise Parsing.non_section_element_not_found(self._context, element)
+
         template = element['copy']['template']
 
         if 'copy' in template: # TODO: Maybe we change that to .unresolved everywhere ?
@@ -110,6 +113,9 @@ class Resolver:
             del section['deep_resolve']
 
         if 'copy' in section:
+            if not 'template' in section['copy']:
+                raise Parsing.section_not_found(self._context, section)
+
             template = section['copy']['template']
 
             if 'copy'in template or 'deep_resolve' in template:
-- 
2.43.0


From 93cec02c2a8bb0e8e93cf7cfdde1d099b9611d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:00 +0000
Subject: [PATCH 12/60] fix: report cyclic copies that run through sections
 inside of the cycle

---
 python/enolib/errors/parsing.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/python/enolib/errors/parsing.py b/python/enolib/errors/parsing.py
index 1c87b9b..16515c6 100644
--- a/python/enolib/errors/parsing.py
+++ b/python/enolib/errors/parsing.py
@@ -11,10 +11,7 @@ class Parsing:
         first_occurrence = instruction_chain.index(instruction)
         feedback_chain = instruction_chain[first_occurrence:]
 
-        if 'template' in feedback_chain[-1]:
-            copy_instruction = feedback_chain[-1]
-        elif 'template' in feedback_chain[0]:
-            copy_instruction = feedback_chain[0]
+        copy_instruction = next(element for element in [feedback_chain[-1], *feedback_chain] if 'template' in element)
 
         reporter = context.reporter(context)
 
-- 
2.43.0


From 215b1b0700862ae0d89a31f86e5b0d0cf3e5b84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:01 +0000
Subject: [PATCH 13/60] fix: convert looked up elements to fieldset entries and
 list items

---
 python/enolib/elements/element.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/enolib/elements/element.py b/python/enolib/elements/element.py
index 6b4239c..0638d89 100644
--- a/python/enolib/elements/element.py
+++ b/python/enolib/elements/element.py
@@ -11,7 +11,7 @@ class Element(SectionElement):
         return f"<class Element key={self._instruction['key']}>"
 
     def to_fieldset_entry(self):
-        if not self._fieldset_entry:
+        if not hasattr(self, '_fieldset_entry'):
             if self._instruction['type'] is not InstructionType.FIELDSET_ENTRY:
                 raise Validation.unexpected_element_type(self._context, None, self._instruction, 'expected_fieldset_entry')
 
@@ -20,7 +20,7 @@ class Element(SectionElement):
         return self._fieldset_entry
 
     def to_list_item(self):
-        if not self._list_item:
+        if not hasattr(self, '_list_item'):
             if self._instruction['type'] is not InstructionType.LIST_ITEM:
                 raise Validation.unexpected_element_type(self._context, None, self._instruction, 'expected_list_item')
 
-- 
2.43.0


From 8550ee1503f4441e10f3db8ffc638ed1af87ba93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:03 +0000
Subject: [PATCH 14/60] fix: do not report a line after the end of the document

---
 python/enolib/analyzer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/python/enolib/analyzer.py b/python/enolib/analyzer.py
index ae985d8..4e72d97 100644
--- a/python/enolib/analyzer.py
+++ b/python/enolib/analyzer.py
@@ -341,7 +341,11 @@ class Analyzer:
                 last_non_section_element = instruction
 
                 if not terminator_match:
-                    self._tokenize_error_context()
+                    if self._index > len(self._context.input):
+                        self._context.line_count = self._line
+                    else:
+                        self._tokenize_error_context()
+
                     raise Parsing.unterminated_multiline_field(self._context, instruction)
 
                 end_of_multiline_field_index = terminator_match.start()
-- 
2.43.0


From 3e32974caf21d3e114a5bc46d7bd3cf32e65106c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:04 +0000
Subject: [PATCH 15/60] fix: show the context lines after a report on the first
 line

---
 python/enolib/reporters/reporter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/enolib/reporters/reporter.py b/python/enolib/reporters/reporter.py
index b29a69a..4d28bc8 100644
--- a/python/enolib/reporters/reporter.py
+++ b/python/enolib/reporters/reporter.py
@@ -204,9 +204,9 @@ class Reporter:
                     continue
 
                 if(line + 2 < self._context.line_count and self._snippet[line + 2] is not None and self._snippet[line + 2] != DISPLAY or
-                   line - 2 > 0 and self._snippet[line - 2] is not None and self._snippet[line - 2] != DISPLAY or
+                   line - 2 >= 0 and self._snippet[line - 2] is not None and self._snippet[line - 2] != DISPLAY or
                    line + 1 < self._context.line_count and self._snippet[line + 1] is not None and self._snippet[line + 1] != DISPLAY or
-                   line - 1 > 0 and self._snippet[line - 1] is not None and self._snippet[line - 1] != DISPLAY):
+                   line - 1 >= 0 and self._snippet[line - 1] is not None and self._snippet[line - 1] != DISPLAY):
                     self._snippet[line] = DISPLAY
                 elif line + 3 < self._context.line_count and self._snippet[line + 3] is not None and self._snippet[line + 3] != DISPLAY:
                     self._snippet[line] = OMISSION
-- 
2.43.0


From 43071904e52a2516bd39d66ba15c3f7e874db99c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:19 +0000
Subject: [PATCH 16/60] fix: look up continuations of the last list item or
 fieldset entry

---
 python/enolib/lookup.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/enolib/lookup.py b/python/enolib/lookup.py
index 6b367eb..c97d12f 100644
--- a/python/enolib/lookup.py
+++ b/python/enolib/lookup.py
@@ -71,7 +71,7 @@ def check_fieldset_by_line(fieldset, line):
     if line == fieldset['line']:
         return { 'element': fieldset, 'instruction': fieldset }
 
-    if not 'entries' in fieldset or line > fieldset['entries'][-1]['line']:
+    if not 'entries' in fieldset:
         return False
 
     for entry in fieldset['entries']:
@@ -92,7 +92,7 @@ def check_fieldset_by_index(fieldset, index):
     if index <= fieldset['ranges']['line'][END]:
         return { 'element': fieldset, 'instruction': fieldset }
 
-    if not 'entries' in fieldset or index > fieldset['entries'][-1]['ranges']['line'][END]:
+    if not 'entries' in fieldset:
         return False
 
     for entry in fieldset['entries']:
@@ -113,7 +113,7 @@ def check_list_by_line(list, line):
     if line == list['line']:
         return { 'element': list, 'instruction': list }
 
-    if not 'items' in list or line > list['items'][-1]['line']:
+    if not 'items' in list:
         return False
 
     for item in list['items']:
@@ -134,7 +134,7 @@ def check_list_by_index(list, index):
     if index <= list['ranges']['line'][END]:
         return { 'element': list, 'instruction': list }
 
-    if not 'items' in list or index > list['items'][-1]['ranges']['line'][END]:
+    if not 'items' in list:
         return False
 
     for item in list['items']:
-- 
2.43.0


From 2bb7bc4ee5d169178a2b4e7d1dc7e3ab5e639b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:21 +0000
Subject: [PATCH 17/60] fix: look up tokens of comments by index as well as by
 line

---
 python/enolib/lookup.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/python/enolib/lookup.py b/python/enolib/lookup.py
index c97d12f..895808e 100644
--- a/python/enolib/lookup.py
+++ b/python/enolib/lookup.py
@@ -236,7 +236,10 @@ def lookup(input: str, *, column=None, index=None, line=None, **options):
     instruction = match['instruction']
 
     if not instruction:
-        instruction = next((i for i in context.meta if i['line'] == line), None)
+        if index is None:
+            instruction = next((i for i in context.meta if i['line'] == line), None)
+        else:
+            instruction = next((i for i in context.meta if i['ranges']['line'][BEGIN] <= index <= i['ranges']['line'][END]), None)
 
         if not instruction:
             return result
-- 
2.43.0


From df87ed59b9f4a61abd4c23dd1693d9f3013a795e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:23 +0000
Subject: [PATCH 18/60] fix: report key errors of list items on their list

---
 python/enolib/errors/validation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/enolib/errors/validation.py b/python/enolib/errors/validation.py
index 0cb62c1..bda328d 100644
--- a/python/enolib/errors/validation.py
+++ b/python/enolib/errors/validation.py
@@ -22,6 +22,9 @@ class Validation:
 
     @staticmethod
     def key_error(context, message, element):
+        if element['type'] is InstructionType.LIST_ITEM:
+            element = element['parent']
+
         return ValidationError(
             context.messages.key_error(message),
             context.reporter(context).report_line(element).snippet(),
-- 
2.43.0


From 45b1077a71ee079f7927c83d6e690fd45998f9a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:24 +0000
Subject: [PATCH 19/60] fix: build comment errors for elements without comments

---
 python/enolib/errors/selections.py  | 2 +-
 python/enolib/reporters/reporter.py | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/python/enolib/errors/selections.py b/python/enolib/errors/selections.py
index 099192e..fef8b33 100644
--- a/python/enolib/errors/selections.py
+++ b/python/enolib/errors/selections.py
@@ -41,7 +41,7 @@ def selection(instruction, range, position, *to):
     }
 
 def select_comments(element):
-    comments = element['comments']
+    comments = element.get('comments', [])
 
     if len(comments) == 1:
         if 'comment' in comments[0]:
diff --git a/python/enolib/reporters/reporter.py b/python/enolib/reporters/reporter.py
index 4d28bc8..91b0e00 100644
--- a/python/enolib/reporters/reporter.py
+++ b/python/enolib/reporters/reporter.py
@@ -151,6 +151,9 @@ class Reporter:
         return self
 
     def report_comments(self, element):
+        if not 'comments' in element:
+            return self.report_line(element)
+
         self._snippet[element['line']] = INDICATE
         for comment in element['comments']:
             self._snippet[comment['line']] = EMPHASIZE
-- 
2.43.0


From 8c36b71a9a38f1df44eaa09f73cba85b79a45c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:42 +0000
Subject: [PATCH 20/60] fix: answer key, comment and error queries on the
 document itself

---
 python/enolib/elements/element.py      | 2 +-
 python/enolib/elements/element_base.py | 3 +++
 python/enolib/errors/selections.py     | 9 +++++++++
 python/enolib/errors/validation.py     | 2 +-
 python/enolib/reporters/reporter.py    | 6 ++++++
 5 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/python/enolib/elements/element.py b/python/enolib/elements/element.py
index 0638d89..a61e42f 100644
--- a/python/enolib/elements/element.py
+++ b/python/enolib/elements/element.py
@@ -8,7 +8,7 @@ from .section_element import SectionElement
 class Element(SectionElement):
     # TODO: Revisit (also: missing in js implementation)
     def __repr__(self):
-        return f"<class Element key={self._instruction['key']}>"
+        return f"<class Element key={self._key()}>"
 
     def to_fieldset_entry(self):
         if not hasattr(self, '_fieldset_entry'):
diff --git a/python/enolib/elements/element_base.py b/python/enolib/elements/element_base.py
index c5d434a..98be538 100644
--- a/python/enolib/elements/element_base.py
+++ b/python/enolib/elements/element_base.py
@@ -30,6 +30,9 @@ class ElementBase:
         if self._instruction['type'] is InstructionType.LIST_ITEM:
             return self._instruction['parent']['key']
 
+        if self._instruction['type'] is InstructionType.DOCUMENT:
+            return None
+
         return self._instruction['key']
 
     def comment_error(self, message):
diff --git a/python/enolib/errors/selections.py b/python/enolib/errors/selections.py
index fef8b33..5c73246 100644
--- a/python/enolib/errors/selections.py
+++ b/python/enolib/errors/selections.py
@@ -41,6 +41,9 @@ def selection(instruction, range, position, *to):
     }
 
 def select_comments(element):
+    if element['type'] is InstructionType.DOCUMENT:
+        return DOCUMENT_BEGIN
+
     comments = element.get('comments', [])
 
     if len(comments) == 1:
@@ -54,9 +57,15 @@ def select_comments(element):
         return selection(element, 'line', BEGIN)
 
 def select_element(element):
+    if element['type'] is InstructionType.DOCUMENT:
+        return DOCUMENT_BEGIN
+
     return selection(element, 'line', BEGIN, last_in(element), 'line', END)
 
 def select_key(element):
+    if element['type'] is InstructionType.DOCUMENT:
+        return DOCUMENT_BEGIN
+
     return selection(element, 'key', BEGIN, END)
 
 def select_line(element):
diff --git a/python/enolib/errors/validation.py b/python/enolib/errors/validation.py
index bda328d..36ff53e 100644
--- a/python/enolib/errors/validation.py
+++ b/python/enolib/errors/validation.py
@@ -36,7 +36,7 @@ class Validation:
         return ValidationError(
             context.messages.missing_comment,
             context.reporter(context).report_line(element).snippet(), # TODO: Question-tag an empty line before an element with missing comment
-            selection(element, 'line', BEGIN)
+            DOCUMENT_BEGIN if element['type'] is InstructionType.DOCUMENT else selection(element, 'line', BEGIN)
         )
 
     @staticmethod
diff --git a/python/enolib/reporters/reporter.py b/python/enolib/reporters/reporter.py
index 91b0e00..a5aa440 100644
--- a/python/enolib/reporters/reporter.py
+++ b/python/enolib/reporters/reporter.py
@@ -161,6 +161,9 @@ class Reporter:
         return self
 
     def report_element(self, element):
+        if element['type'] is InstructionType.DOCUMENT:
+            return self
+
         self._snippet[element['line']] = EMPHASIZE
         self._tag_element(element, INDICATE)
 
@@ -174,6 +177,9 @@ class Reporter:
         return self
 
     def report_line(self, instruction):
+        if instruction['type'] is InstructionType.DOCUMENT:
+            return self
+
         self._snippet[instruction['line']] = EMPHASIZE
 
         return self
-- 
2.43.0


From 63fdbe9d4b1507a96fdaa527a0584b8cda95c890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:45 +0000
Subject: [PATCH 21/60] fix: escape the source label in HTML reports

---
 python/enolib/reporters/html_reporter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/enolib/reporters/html_reporter.py b/python/enolib/reporters/html_reporter.py
index e797b93..548a0fc 100644
--- a/python/enolib/reporters/html_reporter.py
+++ b/python/enolib/reporters/html_reporter.py
@@ -40,6 +40,6 @@ class HtmlReporter(Reporter):
         snippet = '\n'.join(self._line(line, tag) for line, tag in enumerate(self._snippet) if tag is not None)
 
         if self._context.source:
-            return f"<div><div>{self._context.source}</div><pre class=\"eno-report\">{columns_header}{snippet}</pre></div>"
+            return f"<div><div>{escape(self._context.source)}</div><pre class=\"eno-report\">{columns_header}{snippet}</pre></div>"
 
         return f"<pre class=\"eno-report\">{columns_header}{snippet}</pre>"
-- 
2.43.0


From 47ca34cd011152202122c39aa00dfeb181e37287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:46 +0000
Subject: [PATCH 22/60] fix: keep the representation of multiline values on one
 line

---
 python/enolib/elements/value_element_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/enolib/elements/value_element_base.py b/python/enolib/elements/value_element_base.py
index d2ea72f..ffc0cff 100644
--- a/python/enolib/elements/value_element_base.py
+++ b/python/enolib/elements/value_element_base.py
@@ -12,7 +12,7 @@ class ValueElementBase(ElementBase):
         if len(value) > 14:
             value = f"{value[0:11]}..."
 
-        return value.replace("\n", '\n')
+        return value.replace('\n', '\\n')
 
     def _value(self, loader=None, *, required):
         self._touched = True
-- 
2.43.0


From 6b91a7b6fbbcf3abb425b0298810d5cf68decfd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:48 +0000
Subject: [PATCH 23/60] fix: report missing empty elements as such

---
 python/enolib/elements/section.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/enolib/elements/section.py b/python/enolib/elements/section.py
index b89ae5a..54d6f1f 100644
--- a/python/enolib/elements/section.py
+++ b/python/enolib/elements/section.py
@@ -207,7 +207,9 @@ class Section(ElementBase):
         return element.to_list()
 
     def _missing_error(self, element):
-        if isinstance(element, missing_field.MissingField):
+        if isinstance(element, missing_empty.MissingEmpty):
+            raise Validation.missing_element(self._context, element._key, self._instruction, 'missing_empty')
+        elif isinstance(element, missing_field.MissingField):
             raise Validation.missing_element(self._context, element._key, self._instruction, 'missing_field')
         elif isinstance(element, missing_fieldset.MissingFieldset):
             raise Validation.missing_element(self._context, element._key, self._instruction, 'missing_fieldset')
-- 
2.43.0


From 2a09a8a5ffa250d5b754e7e2bea5812f86955735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:33 +0000
Subject: [PATCH 24/60] fix: report sections with copied fieldsets or empty
 elements inside

---
 python/enolib/reporters/reporter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/enolib/reporters/reporter.py b/python/enolib/reporters/reporter.py
index a5aa440..ca6992f 100644
--- a/python/enolib/reporters/reporter.py
+++ b/python/enolib/reporters/reporter.py
@@ -125,6 +125,8 @@ class Reporter:
         elif element['type'] is InstructionType.SECTION:
             return self._tag_section(element, tag)
 
+        return element['line'] + 1 if 'line' in element else 0
+
     def _tag_section(self, section, tag, recursive=True):
         scan_line = section['line'] + 1
 
-- 
2.43.0


From d1845c2c715955962f8d47c0c8cdbf171af6b959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:35 +0000
Subject: [PATCH 25/60] fix: show comments before an offending line in the
 report

---
 python/enolib/analyzer.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/python/enolib/analyzer.py b/python/enolib/analyzer.py
index 4e72d97..f64f0cf 100644
--- a/python/enolib/analyzer.py
+++ b/python/enolib/analyzer.py
@@ -18,7 +18,10 @@ class Analyzer:
 
         self._context.meta = []
 
-    def _tokenize_error_context(self):
+    def _tokenize_error_context(self, comments=None):
+        if comments is not None:
+            self._context.meta.extend(comments)
+
         first_instruction = None
 
         while True:
@@ -64,7 +67,7 @@ class Analyzer:
             match = Grammar.REGEX.search(self._context.input, self._index)
 
             if not match or match.start() != self._index:
-                instruction = self._tokenize_error_context()
+                instruction = self._tokenize_error_context(comments)
                 raise Parsing.invalid_line(self._context, instruction)
 
             instruction = {
@@ -130,7 +133,7 @@ class Analyzer:
                     instruction['value'] = value
 
                 if last_non_section_element is None:
-                    instruction = self._tokenize_error_context()
+                    instruction = self._tokenize_error_context(instruction.get('comments'))
                     raise Parsing.missing_list_for_list_item(self._context, instruction)
                 elif last_non_section_element['type'] is InstructionType.LIST:
                     last_non_section_element['items'].append(instruction)
@@ -138,7 +141,7 @@ class Analyzer:
                     last_non_section_element['items'] = [instruction]
                     last_non_section_element['type'] = InstructionType.LIST
                 else:
-                    instruction = self._tokenize_error_context()
+                    instruction = self._tokenize_error_context(instruction.get('comments'))
                     raise Parsing.missing_list_for_list_item(self._context, instruction)
 
                 instruction['parent'] = last_non_section_element
@@ -172,7 +175,7 @@ class Analyzer:
                     instruction['value'] = value
 
                 if last_non_section_element is None:
-                    instruction = self._tokenize_error_context()
+                    instruction = self._tokenize_error_context(instruction.get('comments'))
                     raise Parsing.missing_fieldset_for_fieldset_entry(self._context, instruction)
                 elif last_non_section_element['type'] is InstructionType.FIELDSET:
                     last_non_section_element['entries'].append(instruction)
@@ -180,7 +183,7 @@ class Analyzer:
                     last_non_section_element['entries'] = [instruction]
                     last_non_section_element['type'] = InstructionType.FIELDSET
                 else:
-                    instruction = self._tokenize_error_context()
+                    instruction = self._tokenize_error_context(instruction.get('comments'))
                     raise Parsing.missing_fieldset_for_fieldset_entry(self._context, instruction)
 
                 instruction['parent'] = last_non_section_element
@@ -189,7 +192,7 @@ class Analyzer:
             elif match.group(Grammar.SPACED_LINE_CONTINUATION_OPERATOR_INDEX) is not None:
 
                 if last_continuable_element is None:
-                    instruction = self._tokenize_error_context()
+                    instruction = self._tokenize_error_context(comments)
                     raise Parsing.missing_element_for_continuation(self._context, instruction)
 
                 instruction['spaced'] = True
@@ -217,7 +220,7 @@ class Analyzer:
             elif match.group(Grammar.DIRECT_LINE_CONTINUATION_OPERATOR_INDEX) is not None:
 
                 if last_continuable_element is None:
-                    instruction = self._tokenize_error_context()
+                    instruction = self._tokenize_error_context(comments)
                     raise Parsing.missing_element_for_continuation(self._context, instruction)
 
                 instruction['ranges']['direct_line_continuation_operator'] = match.span(Grammar.DIRECT_LINE_CONTINUATION_OPERATOR_INDEX)
@@ -265,7 +268,7 @@ class Analyzer:
 
                     instruction['parent'] = last_section['parent']
                 else:
-                    instruction = self._tokenize_error_context()
+                    instruction = self._tokenize_error_context(instruction.get('comments'))
                     raise Parsing.section_hierarchy_layer_skip(self._context, instruction, last_section)
 
                 instruction['parent']['elements'].append(instruction)
-- 
2.43.0


From 3ef934690da82227755683fb77a4467c23b5feb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:36 +0000
Subject: [PATCH 26/60] fix: list copied elements before own elements of a
 section

---
 python/enolib/elements/section.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/enolib/elements/section.py b/python/enolib/elements/section.py
index 54d6f1f..85fcadb 100644
--- a/python/enolib/elements/section.py
+++ b/python/enolib/elements/section.py
@@ -169,11 +169,13 @@ class Section(ElementBase):
                 return instance
 
             filtered = [element for element in section['elements'] if element['key'] not in self._instantiated_elements_map]
-            self._instantiated_elements.extend(instantiate_and_index(element) for element in filtered)  # TODO: Probably needs to come AFTER 'if 'extend' in section:' below because otherwise the order is incorrect?
+            native_elements = [instantiate_and_index(element) for element in filtered]
 
             if 'extend' in section:
                 self._instantiate_elements(section['extend'])
 
+            self._instantiated_elements.extend(native_elements)
+
     def _list(self, key, *, required=None):
         self._touched = True
 
-- 
2.43.0


From 111adeaad0d2f85289e8326eeca3b2678ff53ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:56 +0000
Subject: [PATCH 27/60] fix: deep merge with elements that a template section
 copies itself

---
 python/enolib/resolver.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/python/enolib/resolver.py b/python/enolib/resolver.py
index 650b1b2..2c622d8 100644
--- a/python/enolib/resolver.py
+++ b/python/enolib/resolver.py
@@ -63,7 +63,7 @@ class Resolver:
                 else:
                     merge_map[section_element['key']] = { 'section': section_element }
 
-            for section_element in template['elements']:
+            for section_element in self.elements(template):
                 if section_element['key'] in merge_map:
                     merger = merge_map[section_element['key']]
 
@@ -79,6 +79,18 @@ class Resolver:
                 if merger and 'template' in merger:
                     self.consolidate_sections(merger['section'], merger['template'], True)
 
+    def elements(self, section):
+        if 'mirror' in section:
+            return self.elements(section['mirror'])
+
+        if not 'extend' in section:
+            return section['elements']
+
+        own_keys = { element['key'] for element in section['elements'] }
+        copied_elements = [element for element in self.elements(section['extend']) if element['key'] not in own_keys]
+
+        return copied_elements + section['elements']
+
     def mirror(self, element, template):
         if 'mirror' in template:
             element['mirror'] = template['mirror']
-- 
2.43.0


From 755a13d7434a0fad7ffe7556382340b8e97da5dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:58 +0000
Subject: [PATCH 28/60] fix: touch the elements of a section that are not
 yielded yet as well

---
 python/enolib/elements/section_element.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/python/enolib/elements/section_element.py b/python/enolib/elements/section_element.py
index f9c25e9..52e5c89 100644
--- a/python/enolib/elements/section_element.py
+++ b/python/enolib/elements/section_element.py
@@ -14,7 +14,7 @@ class SectionElement(ElementBase):
 
     def _untouched(self):
         if not hasattr(self, '_yielded'):
-            return self._instruction
+            return False if hasattr(self, '_touch_yielded') else self._instruction
 
         if hasattr(self, '_empty') and not hasattr(self._empty, '_touched'):
             return self._instruction
@@ -42,6 +42,9 @@ class SectionElement(ElementBase):
             self._empty = empty.Empty(self._context, self._instruction, self._parent)
             self._yielded = InstructionType.EMPTY_ELEMENT
 
+            if hasattr(self, '_touch_yielded'):
+                self._empty.touch()
+
         return self._empty
 
     def to_field(self):
@@ -57,6 +60,9 @@ class SectionElement(ElementBase):
             self._field = field.Field(self._context, self._instruction, self._parent)
             self._yielded = InstructionType.FIELD
 
+            if hasattr(self, '_touch_yielded'):
+                self._field.touch()
+
         return self._field
 
     def to_fieldset(self):
@@ -70,6 +76,9 @@ class SectionElement(ElementBase):
             self._fieldset = fieldset.Fieldset(self._context, self._instruction, self._parent)
             self._yielded = InstructionType.FIELDSET
 
+            if hasattr(self, '_touch_yielded'):
+                self._fieldset.touch()
+
         return self._fieldset
 
     def to_list(self):
@@ -83,6 +92,9 @@ class SectionElement(ElementBase):
             self._list = list.List(self._context, self._instruction, self._parent)
             self._yielded =  InstructionType.LIST
 
+            if hasattr(self, '_touch_yielded'):
+                self._list.touch()
+
         return self._list
 
     def to_section(self):
@@ -93,11 +105,14 @@ class SectionElement(ElementBase):
             self._section = section.Section(self._context, self._instruction, self._parent)
             self._yielded = InstructionType.SECTION
 
+            if hasattr(self, '_touch_yielded'):
+                self._section.touch()
+
         return self._section
 
     def touch(self):
-        # TODO: Here and elsewhere: This needs to touch anyway; possibly not so small implications
         if not hasattr(self, '_yielded'):
+            self._touch_yielded = True
             return
 
         if hasattr(self, '_empty'):
-- 
2.43.0


From ef2739b1f71807ae5d59f0f8c54128dfb8ed807d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:43 +0000
Subject: [PATCH 29/60] fix: report deep copies that merge a section into
 itself as cyclic

---
 python/enolib/resolver.py | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/python/enolib/resolver.py b/python/enolib/resolver.py
index 2c622d8..2e79eef 100644
--- a/python/enolib/resolver.py
+++ b/python/enolib/resolver.py
@@ -41,7 +41,7 @@ class Resolver:
                   template['type'] is InstructionType.MULTILINE_FIELD_BEGIN):
                 raise Parsing.missing_list_for_list_item(self._context, element['items'][0])
 
-    def consolidate_sections(self, section, template, deep_merge):
+    def consolidate_sections(self, section, template, deep_merge, copy):
         if 'comments' in template and not 'comments' in section:
             section['comments'] = template['comments']
 
@@ -77,7 +77,30 @@ class Resolver:
 
             for merger in merge_map.values():
                 if merger and 'template' in merger:
-                    self.consolidate_sections(merger['section'], merger['template'], True)
+                    if self.depends_on(merger['template'], merger['section']):
+                        raise Parsing.cyclic_dependency(self._context, copy, [copy])
+
+                    self.consolidate_sections(merger['section'], merger['template'], True, copy)
+
+    def depends_on(self, section, dependency):
+        checked = set()
+        pending = [section]
+
+        while pending:
+            current = pending.pop()
+
+            if current is dependency:
+                return True
+
+            if id(current) in checked:
+                continue
+
+            checked.add(id(current))
+
+            pending.extend(current[relation] for relation in ('extend', 'mirror') if relation in current)
+            pending.extend(element for element in current['elements'] if element['type'] is InstructionType.SECTION)
+
+        return False
 
     def elements(self, section):
         if 'mirror' in section:
@@ -133,7 +156,7 @@ class Resolver:
             if 'copy'in template or 'deep_resolve' in template:
                 self.resolve_section(template, [*previous_sections, section])
 
-            self.consolidate_sections(section, template, 'deep_copy' in section)
+            self.consolidate_sections(section, template, 'deep_copy' in section, section)
 
             del section['copy']
 
-- 
2.43.0


From 6c7e0a4a93ab1fe10d0f6f8ee742832a358b947d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:21 +0000
Subject: [PATCH 30/60] fix: call loaders that are false in a boolean context

---
 python/enolib/elements/element_base.py       | 2 +-
 python/enolib/elements/field.py              | 2 +-
 python/enolib/elements/value_element_base.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/enolib/elements/element_base.py b/python/enolib/elements/element_base.py
index 98be538..cc2cdfb 100644
--- a/python/enolib/elements/element_base.py
+++ b/python/enolib/elements/element_base.py
@@ -18,7 +18,7 @@ class ElementBase:
             else:
                 return None
 
-        if not loader:
+        if loader is None:
             return comment
 
         try:
diff --git a/python/enolib/elements/field.py b/python/enolib/elements/field.py
index e740099..eeaa575 100644
--- a/python/enolib/elements/field.py
+++ b/python/enolib/elements/field.py
@@ -20,7 +20,7 @@ class Field(ValueElementBase):
 
         # TODO: Check if ValueError is 1) a valid pythonic approach 2) the best choice
 
-        if not loader:
+        if loader is None:
             return value
 
         try:
diff --git a/python/enolib/elements/value_element_base.py b/python/enolib/elements/value_element_base.py
index ffc0cff..6fa886f 100644
--- a/python/enolib/elements/value_element_base.py
+++ b/python/enolib/elements/value_element_base.py
@@ -27,7 +27,7 @@ class ValueElementBase(ElementBase):
 
         # TODO: Check if ValueError is 1) a valid pythonic approach 2) the best choice
 
-        if not loader:
+        if loader is None:
             return value
 
         try:
-- 
2.43.0


From 2753fd9639524b481b7865bda1a993ef4937e941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:55 +0000
Subject: [PATCH 31/60] fix: match lines where they begin only

A search for the next matching line ran through the whole rest of the
document, so that a rejected line of a few thousand spaces or backticks
took minutes.
---
 python/enolib/analyzer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/enolib/analyzer.py b/python/enolib/analyzer.py
index f64f0cf..a93dbbe 100644
--- a/python/enolib/analyzer.py
+++ b/python/enolib/analyzer.py
@@ -64,9 +64,9 @@ class Analyzer:
         last_section = self._context.document
 
         while self._index < len(self._context.input):
-            match = Grammar.REGEX.search(self._context.input, self._index)
+            match = Grammar.REGEX.match(self._context.input, self._index)
 
-            if not match or match.start() != self._index:
+            if not match:
                 instruction = self._tokenize_error_context(comments)
                 raise Parsing.invalid_line(self._context, instruction)
 
-- 
2.43.0


From b6a830029d11e1cddede9320b5f1ac51dac44242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:03 +0000
Subject: [PATCH 32/60] fix: do not match the space before the copy operator of
 sections twice

The whitespace behind the key of a section could be divided between two
parts of the grammar in every possible way, so that long runs of it in a
section took seconds to minutes.
---
 python/enolib/grammar_regex.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/enolib/grammar_regex.py b/python/enolib/grammar_regex.py
index 20a4420..37f15b3 100644
--- a/python/enolib/grammar_regex.py
+++ b/python/enolib/grammar_regex.py
@@ -56,8 +56,8 @@ class Grammar:
     # # key < template
     # # `key` < template
     SECTION_KEY = f"(?:{SECTION_KEY_UNESCAPED}|{SECTION_KEY_ESCAPED})"
-    SECTION_TEMPLATE = rf"(?:(<(?!<)|<<)[^\S\n]*{REQUIRED})?"
-    SECTION = rf"{SECTION_OPERATOR}[^\S\n]*{SECTION_KEY}[^\S\n]*{SECTION_TEMPLATE}"
+    SECTION_TEMPLATE = rf"(?:[^\S\n]*(<(?!<)|<<)[^\S\n]*{REQUIRED})?"
+    SECTION = rf"{SECTION_OPERATOR}[^\S\n]*{SECTION_KEY}{SECTION_TEMPLATE}"
     SECTION_COPY_OPERATOR_INDEX = 17
     SECTION_TEMPLATE_INDEX = 18
 
-- 
2.43.0


From 4a1fcc66853517456b9a62d5f239148e0e96fa2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:12 +0000
Subject: [PATCH 33/60] fix: keep every token of the grammar on its own line
 (JavaScript)

---
 javascript/lib/grammar_matcher.js | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/javascript/lib/grammar_matcher.js b/javascript/lib/grammar_matcher.js
index 437356f..2e478c2 100644
--- a/javascript/lib/grammar_matcher.js
+++ b/javascript/lib/grammar_matcher.js
@@ -52,7 +52,7 @@ exports.SECTION_KEY_ESCAPED_INDEX = 15;
 // # `key` <(<) template
 const SECTION_KEY = `(?:${SECTION_KEY_UNESCAPED}|${SECTION_KEY_ESCAPED})`;
 const SECTION_TEMPLATE = `(?:(<(?!<)|<<)[^\\S\\n]*${REQUIRED})?`;
-const SECTION = `${SECTION_OPERATOR}\\s*${SECTION_KEY}[^\\S\\n]*${SECTION_TEMPLATE}`;
+const SECTION = `${SECTION_OPERATOR}[^\\S\\n]*${SECTION_KEY}[^\\S\\n]*${SECTION_TEMPLATE}`;
 exports.SECTION_COPY_OPERATOR_INDEX = 16;
 exports.SECTION_TEMPLATE_INDEX = 17;
 
@@ -83,10 +83,10 @@ exports.FIELDSET_ENTRY_OPERATOR_INDEX = 23;
 exports.FIELDSET_ENTRY_VALUE_INDEX = 24;
 
 // < template
-const TEMPLATE = `<\\s*${REQUIRED}`;
+const TEMPLATE = `<[^\\S\\n]*${REQUIRED}`;
 exports.TEMPLATE_INDEX = 25;
 
-const LATE_DETERMINED = `${KEY}\\s*(?:${ELEMENT_OR_FIELD}|${FIELDSET_ENTRY}|${TEMPLATE})`;
+const LATE_DETERMINED = `${KEY}[^\\S\\n]*(?:${ELEMENT_OR_FIELD}|${FIELDSET_ENTRY}|${TEMPLATE})`;
 
 const NOT_EMPTY = `(?:${EARLY_DETERMINED}|${LATE_DETERMINED})`;
 
-- 
2.43.0


From 45a234441d8b25f81a226412a517971d1c6a145a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:46 +0000
Subject: [PATCH 34/60] fix: report all lines of unterminated multiline fields
 and none after them (JavaScript)

---
 javascript/lib/analyze.js | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/javascript/lib/analyze.js b/javascript/lib/analyze.js
index aff9c34..fa0d060 100644
--- a/javascript/lib/analyze.js
+++ b/javascript/lib/analyze.js
@@ -468,14 +468,20 @@ exports.analyze = function() {
           const endofLineIndex = this._input.indexOf('\n', index);
 
           if(endofLineIndex === -1) {
-            lastNonSectionElement.lines.push({
-              line: line,
-              ranges: {
-                line: [index, this._input.length],
-                value: [index, this._input.length]  // TODO: line range === value range, drop value range? (see how the custom terminal reporter eg. handles this for syntax coloring, then revisit)
-              },
-              type: MULTILINE_FIELD_VALUE
-            });
+            if(index <= this._input.length) {
+              lastNonSectionElement.lines.push({
+                line: line,
+                ranges: {
+                  line: [index, this._input.length],
+                  value: [index, this._input.length]  // TODO: line range === value range, drop value range? (see how the custom terminal reporter eg. handles this for syntax coloring, then revisit)
+                },
+                type: MULTILINE_FIELD_VALUE
+              });
+
+              line++;
+            }
+
+            this._lineCount = line;
 
             throw errors.unterminatedMultilineField(this, instruction);
           } else {
-- 
2.43.0


From f66166e7e2a20ed902ed5725dace9d1683baa955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:26 +0000
Subject: [PATCH 35/60] fix: show comments before an offending line in the
 report (JavaScript)

---
 javascript/lib/analyze.js | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/javascript/lib/analyze.js b/javascript/lib/analyze.js
index fa0d060..023c6b8 100644
--- a/javascript/lib/analyze.js
+++ b/javascript/lib/analyze.js
@@ -17,7 +17,11 @@ const {
   UNPARSED
 } = require('./constants.js');
 
-const tokenizeErrorContext = (context, index, line) => {
+const tokenizeErrorContext = (context, index, line, comments) => {
+  if(comments) {
+    context._meta.push(...comments);
+  }
+
   let firstInstruction = null;
 
   let endOfLineIndex;
@@ -90,7 +94,7 @@ exports.analyze = function() {
     const match = matcherRegex.exec(this._input);
 
     if(match === null) {
-      const instruction = tokenizeErrorContext(this, index, line);  // TODO: variable shadowing
+      instruction = tokenizeErrorContext(this, index, line, comments);
       throw errors.invalidLine(this, instruction);
     } else {
       instruction = {
@@ -177,7 +181,7 @@ exports.analyze = function() {
       }
 
       if(lastNonSectionElement === null) {
-        const instruction = tokenizeErrorContext(this, index, line);  // TODO: variable shadowing etc., generally whack
+        instruction = tokenizeErrorContext(this, index, line, instruction.comments);
         throw errors.missingListForListItem(this, instruction);
       } else if(lastNonSectionElement.type === LIST) {
         lastNonSectionElement.items.push(instruction);
@@ -185,7 +189,7 @@ exports.analyze = function() {
         lastNonSectionElement.items = [instruction];
         lastNonSectionElement.type = LIST;
       } else {
-        const instruction = tokenizeErrorContext(this, index, line);  // TODO: variable shadowing etc., generally whack
+        instruction = tokenizeErrorContext(this, index, line, instruction.comments);
         throw errors.missingListForListItem(this, instruction);
       }
 
@@ -237,7 +241,7 @@ exports.analyze = function() {
       }
 
       if(lastNonSectionElement === null) {
-        const instruction = tokenizeErrorContext(this, index, line);  // TODO: variable shadowing etc., generally whack
+        instruction = tokenizeErrorContext(this, index, line, instruction.comments);
         throw errors.missingFieldsetForFieldsetEntry(this, instruction);
       } else if(lastNonSectionElement.type === FIELDSET) {
         lastNonSectionElement.entries.push(instruction);
@@ -245,7 +249,7 @@ exports.analyze = function() {
         lastNonSectionElement.entries = [instruction];
         lastNonSectionElement.type = FIELDSET;
       } else {
-        const instruction = tokenizeErrorContext(this, index, line);  // TODO: variable shadowing etc., generally whack
+        instruction = tokenizeErrorContext(this, index, line, instruction.comments);
         throw errors.missingFieldsetForFieldsetEntry(this, instruction);
       }
 
@@ -255,7 +259,7 @@ exports.analyze = function() {
     } else if(match[matcher.SPACED_LINE_CONTINUATION_OPERATOR_INDEX] !== undefined) {
 
       if(lastContinuableElement === null) {
-        const instruction = tokenizeErrorContext(this, index, line);  // TODO: variable shadowing etc., generally whack
+        instruction = tokenizeErrorContext(this, index, line, comments);
         throw errors.missingElementForContinuation(this, instruction);
       }
 
@@ -290,7 +294,7 @@ exports.analyze = function() {
     } else if(match[matcher.DIRECT_LINE_CONTINUATION_OPERATOR_INDEX] !== undefined) {
 
       if(lastContinuableElement === null) {
-        const instruction = tokenizeErrorContext(this, index, line);  // TODO: variable shadowing etc., generally whack
+        instruction = tokenizeErrorContext(this, index, line, comments);
         throw errors.missingElementForContinuation(this, instruction);
       }
 
@@ -344,7 +348,7 @@ exports.analyze = function() {
 
         instruction.parent = lastSection.parent;
       } else {
-        const instruction = tokenizeErrorContext(this, index, line);  // TODO: variable shadowing etc., generally whack
+        instruction = tokenizeErrorContext(this, index, line, instruction.comments);
         throw errors.sectionHierarchyLayerSkip(this, instruction, lastSection);
       }
 
-- 
2.43.0


From 33d368e63308d28814a1b336e150071cbc223a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:31 +0000
Subject: [PATCH 36/60] fix: accept the names of object properties as keys
 (JavaScript)

---
 javascript/lib/analyze.js           |  8 ++++----
 javascript/lib/context.js           | 16 ++++++++--------
 javascript/lib/elements/fieldset.js | 10 +++++-----
 javascript/lib/elements/section.js  | 28 ++++++++++++++--------------
 javascript/lib/resolve.js           | 10 +++++-----
 5 files changed, 36 insertions(+), 36 deletions(-)

diff --git a/javascript/lib/analyze.js b/javascript/lib/analyze.js
index 023c6b8..3cacfdb 100644
--- a/javascript/lib/analyze.js
+++ b/javascript/lib/analyze.js
@@ -67,8 +67,8 @@ exports.analyze = function() {
 
   // TODO: Possibly flatten into two properties?
   this.copy = {
-    nonSectionElements: {},
-    sections: {}
+    nonSectionElements: Object.create(null),
+    sections: Object.create(null)
   };
 
   this._meta = [];
@@ -401,7 +401,7 @@ exports.analyze = function() {
 
         instruction.ranges.template = [templateIndex, templateIndex + instruction.template.length];
 
-        if(this.copy.sections.hasOwnProperty(instruction.template)) {
+        if(instruction.template in this.copy.sections) {
           this.copy.sections[instruction.template].targets.push(instruction);
         } else {
           this.copy.sections[instruction.template] = { targets: [instruction] };
@@ -548,7 +548,7 @@ exports.analyze = function() {
       lastContinuableElement = null;
       lastNonSectionElement = instruction;
 
-      if(this.copy.nonSectionElements.hasOwnProperty(instruction.template)) {
+      if(instruction.template in this.copy.nonSectionElements) {
         this.copy.nonSectionElements[instruction.template].targets.push(instruction);
       } else {
         this.copy.nonSectionElements[instruction.template] = { targets: [instruction] };
diff --git a/javascript/lib/context.js b/javascript/lib/context.js
index 403e2b5..3770165 100644
--- a/javascript/lib/context.js
+++ b/javascript/lib/context.js
@@ -89,11 +89,11 @@ class Context {
       return this.elements(section.mirror);
     } else {
       if(!section.hasOwnProperty('computedElements')) {
-        section.computedElementsMap = {};
+        section.computedElementsMap = Object.create(null);
         section.computedElements = section.elements;
 
         for(const element of section.computedElements) {
-          if(section.computedElementsMap.hasOwnProperty(element.key)) {
+          if(element.key in section.computedElementsMap) {
             section.computedElementsMap[element.key].push(element);
           } else {
             section.computedElementsMap[element.key] = [element];
@@ -102,13 +102,13 @@ class Context {
 
         if(section.hasOwnProperty('extend')) {
           const copiedElements = this.elements(section.extend).filter(element =>
-            !section.computedElementsMap.hasOwnProperty(element.key)
+            !(element.key in section.computedElementsMap)
           );
 
           section.computedElements = copiedElements.concat(section.computedElements);  // TODO: .push(...xy) somehow possible too? (but careful about order, which is relevant)
 
           for(const element of copiedElements) {
-            if(section.computedElementsMap.hasOwnProperty(element.key)) {
+            if(element.key in section.computedElementsMap) {
               section.computedElementsMap[element.key].push(element);
             } else {
               section.computedElementsMap[element.key] = [element];
@@ -126,11 +126,11 @@ class Context {
       return this.entries(fieldset.mirror);
     } else {
       if(!fieldset.hasOwnProperty('computedEntries')) {
-        fieldset.computedEntriesMap = {};
+        fieldset.computedEntriesMap = Object.create(null);
         fieldset.computedEntries = fieldset.entries;
 
         for(const entry of fieldset.computedEntries) {
-          if(fieldset.computedEntriesMap.hasOwnProperty(entry.key)) {
+          if(entry.key in fieldset.computedEntriesMap) {
             fieldset.computedEntriesMap[entry.key].push(entry);
           } else {
             fieldset.computedEntriesMap[entry.key] = [entry];
@@ -139,13 +139,13 @@ class Context {
 
         if(fieldset.hasOwnProperty('extend')) {
           const copiedEntries = this.entries(fieldset.extend).filter(entry =>
-            !fieldset.computedEntriesMap.hasOwnProperty(entry.key)
+            !(entry.key in fieldset.computedEntriesMap)
           );
 
           fieldset.computedEntries = copiedEntries.concat(fieldset.computedEntries); // TODO: .push(...xy) somehow possible too? (but careful about order, which is relevant)
 
           for(const entry of copiedEntries) {
-            if(fieldset.computedEntriesMap.hasOwnProperty(entry.key)) {
+            if(entry.key in fieldset.computedEntriesMap) {
               fieldset.computedEntriesMap[entry.key].push(entry);
             } else {
               fieldset.computedEntriesMap[entry.key] = [entry];
diff --git a/javascript/lib/elements/fieldset.js b/javascript/lib/elements/fieldset.js
index 4637693..9897e47 100644
--- a/javascript/lib/elements/fieldset.js
+++ b/javascript/lib/elements/fieldset.js
@@ -19,7 +19,7 @@ class Fieldset extends ElementBase {
   _entries(map = false) {
     if(!this.hasOwnProperty('_instantiatedEntries')) {
       this._instantiatedEntries = [];
-      this._instantiatedEntriesMap = {};
+      this._instantiatedEntriesMap = Object.create(null);
       this._instantiateEntries(this._instruction);
     }
 
@@ -34,7 +34,7 @@ class Fieldset extends ElementBase {
       entries = this._entries();
     } else {
       const entriesMap = this._entries(true);
-      entries = entriesMap.hasOwnProperty(key) ? entriesMap[key] : [];
+      entries = key in entriesMap ? entriesMap[key] : [];
     }
 
     if(entries.length === 0) {
@@ -63,11 +63,11 @@ class Fieldset extends ElementBase {
       this._instantiateEntries(fieldset.mirror);
     } else if(fieldset.hasOwnProperty('entries')) {
       const nativeEntries = fieldset.entries.filter(entry =>
-        !this._instantiatedEntriesMap.hasOwnProperty(entry.key)
+        !(entry.key in this._instantiatedEntriesMap)
       ).map(entry => {
         const instance = new fieldset_entry_module.FieldsetEntry(this._context, entry, this);
 
-        if(this._instantiatedEntriesMap.hasOwnProperty(entry.key)) {
+        if(entry.key in this._instantiatedEntriesMap) {
           this._instantiatedEntriesMap[entry.key].push(instance);
         } else {
           this._instantiatedEntriesMap[entry.key] = [instance];
@@ -152,7 +152,7 @@ class Fieldset extends ElementBase {
     } else {
       const entriesMap = this._entries(true);
 
-      if(!entriesMap.hasOwnProperty(key))
+      if(!(key in entriesMap))
         return [];
 
       return entriesMap[key];
diff --git a/javascript/lib/elements/section.js b/javascript/lib/elements/section.js
index e9ffed3..3d842b5 100644
--- a/javascript/lib/elements/section.js
+++ b/javascript/lib/elements/section.js
@@ -47,7 +47,7 @@ class Section extends ElementBase {
       elements = this._elements();
     } else {
       const elementsMap = this._elements(true);
-      elements = elementsMap.hasOwnProperty(key) ? elementsMap[key] : [];
+      elements = key in elementsMap ? elementsMap[key] : [];
     }
 
     if(elements.length === 0) {
@@ -74,7 +74,7 @@ class Section extends ElementBase {
   _elements(map = false) {
     if(!this.hasOwnProperty('_instantiatedElements')) {
       this._instantiatedElements = [];
-      this._instantiatedElementsMap = {};
+      this._instantiatedElementsMap = Object.create(null);
       this._instantiateElements(this._instruction);
     }
 
@@ -89,7 +89,7 @@ class Section extends ElementBase {
       elements = this._elements();
     } else {
       const elementsMap = this._elements(true);
-      elements = elementsMap.hasOwnProperty(key) ? elementsMap[key] : [];
+      elements = key in elementsMap ? elementsMap[key] : [];
     }
 
     if(elements.length === 0) {
@@ -126,7 +126,7 @@ class Section extends ElementBase {
       elements = this._elements();
     } else {
       const elementsMap = this._elements(true);
-      elements = elementsMap.hasOwnProperty(key) ? elementsMap[key] : [];
+      elements = key in elementsMap ? elementsMap[key] : [];
     }
 
     if(elements.length === 0) {
@@ -165,7 +165,7 @@ class Section extends ElementBase {
       elements = this._elements();
     } else {
       const elementsMap = this._elements(true);
-      elements = elementsMap.hasOwnProperty(key) ? elementsMap[key] : [];
+      elements = key in elementsMap ? elementsMap[key] : [];
     }
 
     if(elements.length === 0) {
@@ -200,11 +200,11 @@ class Section extends ElementBase {
     } else {
       this._instantiatedElements.push(
         ...section.elements.filter(element =>
-          !this._instantiatedElementsMap.hasOwnProperty(element.key)
+          !(element.key in this._instantiatedElementsMap)
         ).map(element => {
           const instance = new section_element_module.SectionElement(this._context, element, this);
 
-          if(this._instantiatedElementsMap.hasOwnProperty(element.key)) {
+          if(element.key in this._instantiatedElementsMap) {
             this._instantiatedElementsMap[element.key].push(instance);
           } else {
             this._instantiatedElementsMap[element.key] = [instance];
@@ -228,7 +228,7 @@ class Section extends ElementBase {
       elements = this._elements();
     } else {
       const elementsMap = this._elements(true);
-      elements = elementsMap.hasOwnProperty(key) ? elementsMap[key] : [];
+      elements = key in elementsMap ? elementsMap[key] : [];
     }
 
     if(elements.length === 0) {
@@ -280,7 +280,7 @@ class Section extends ElementBase {
       elements = this._elements();
     } else {
       const elementsMap = this._elements(true);
-      elements = elementsMap.hasOwnProperty(key) ? elementsMap[key] : [];
+      elements = key in elementsMap ? elementsMap[key] : [];
     }
 
     if(elements.length === 0) {
@@ -392,7 +392,7 @@ class Section extends ElementBase {
       return this._elements();
     } else {
       const elementsMap = this._elements(true);
-      return elementsMap.hasOwnProperty(key) ? elementsMap[key] : [];
+      return key in elementsMap ? elementsMap[key] : [];
     }
   }
 
@@ -414,7 +414,7 @@ class Section extends ElementBase {
       elements = this._elements();
     } else {
       const elementsMap = this._elements(true);
-      elements = elementsMap.hasOwnProperty(key) ? elementsMap[key] : [];
+      elements = key in elementsMap ? elementsMap[key] : [];
     }
 
     return elements.map(element => {
@@ -439,7 +439,7 @@ class Section extends ElementBase {
       elements = this._elements();
     } else {
       const elementsMap = this._elements(true);
-      elements = elementsMap.hasOwnProperty(key) ? elementsMap[key] : [];
+      elements = key in elementsMap ? elementsMap[key] : [];
     }
 
     return elements.map(element => {
@@ -462,7 +462,7 @@ class Section extends ElementBase {
       elements = this._elements();
     } else {
       const elementsMap = this._elements(true);
-      elements = elementsMap.hasOwnProperty(key) ? elementsMap[key] : [];
+      elements = key in elementsMap ? elementsMap[key] : [];
     }
 
     return elements.map(element => {
@@ -545,7 +545,7 @@ class Section extends ElementBase {
       elements = this._elements();
     } else {
       const elementsMap = this._elements(true);
-      elements = elementsMap.hasOwnProperty(key) ? elementsMap[key] : [];
+      elements = key in elementsMap ? elementsMap[key] : [];
     }
 
     return elements.map(element => {
diff --git a/javascript/lib/resolve.js b/javascript/lib/resolve.js
index d30e10a..39f9c53 100644
--- a/javascript/lib/resolve.js
+++ b/javascript/lib/resolve.js
@@ -60,10 +60,10 @@ const consolidateSections = (context, section, template, deepMerge) => {
 
     if(!deepMerge) return;
 
-    const mergeMap = {};
+    const mergeMap = Object.create(null);
 
     for(const elementInstruction of section.elements) {
-      if(elementInstruction.type !== SECTION || mergeMap.hasOwnProperty(elementInstruction.key)) {
+      if(elementInstruction.type !== SECTION || elementInstruction.key in mergeMap) {
         mergeMap[elementInstruction.key] = false; // non-mergable (no section or multiple sections with same key)
       } else {
         mergeMap[elementInstruction.key] = { section: elementInstruction };
@@ -71,7 +71,7 @@ const consolidateSections = (context, section, template, deepMerge) => {
     }
 
     for(const elementInstruction of template.elements) {
-      if(mergeMap.hasOwnProperty(elementInstruction.key)) {
+      if(elementInstruction.key in mergeMap) {
         const merger = mergeMap[elementInstruction.key];
 
         if(merger === false) continue;
@@ -150,7 +150,7 @@ const index = (context, section, indexNonSectionElements, indexSections) => {
       index(context, elementInstruction, indexNonSectionElements, indexSections);
 
       if(indexSections &&
-         context.copy.sections.hasOwnProperty(elementInstruction.key) &&
+         elementInstruction.key in context.copy.sections &&
          elementInstruction.key !== elementInstruction.template) {
         const copyData = context.copy.sections[elementInstruction.key];
 
@@ -160,7 +160,7 @@ const index = (context, section, indexNonSectionElements, indexSections) => {
         copyData.template = elementInstruction;
       }
     } else if(indexNonSectionElements &&
-              context.copy.nonSectionElements.hasOwnProperty(elementInstruction.key) &&
+              elementInstruction.key in context.copy.nonSectionElements &&
               elementInstruction.key !== elementInstruction.template) {
       const copyData = context.copy.nonSectionElements[elementInstruction.key];
 
-- 
2.43.0


From be9911cab97a230b79321c87162cb79339c3608a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:01 +0000
Subject: [PATCH 37/60] fix: report missing templates found along a chain of
 copies (JavaScript)

---
 javascript/lib/resolve.js | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/javascript/lib/resolve.js b/javascript/lib/resolve.js
index 39f9c53..2a095b9 100644
--- a/javascript/lib/resolve.js
+++ b/javascript/lib/resolve.js
@@ -106,6 +106,9 @@ const resolveNonSectionElement = (context, element, previousElements = []) => {
   if(previousElements.includes(element))
     throw errors.cyclicDependency(context, element, previousElements);
 
+  if(!element.copy.hasOwnProperty('template'))
+    throw errors.nonSectionElementNotFound(context, element);
+
   const template = element.copy.template;
 
   if(template.hasOwnProperty('copy')) { // TODO: Maybe we change that to .unresolved everywhere ?
@@ -132,6 +135,9 @@ const resolveSection = (context, section, previousSections = []) => {
   }
 
   if(section.hasOwnProperty('copy')) {
+    if(!section.copy.hasOwnProperty('template'))
+      throw errors.sectionNotFound(context, section);
+
     const template = section.copy.template;
 
     if(template.hasOwnProperty('copy') || template.hasOwnProperty('deepResolve')) {
-- 
2.43.0


From e22c7631c8498e417584706cdd789ff99ec9ffba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:09 +0000
Subject: [PATCH 38/60] fix: deep merge sections without a counterpart in the
 template (JavaScript)

---
 javascript/lib/resolve.js | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/javascript/lib/resolve.js b/javascript/lib/resolve.js
index 2a095b9..5dc65cd 100644
--- a/javascript/lib/resolve.js
+++ b/javascript/lib/resolve.js
@@ -85,10 +85,8 @@ const consolidateSections = (context, section, template, deepMerge) => {
     }
 
     for(const merger of Object.values(mergeMap)) {
-      if(merger === false) continue;
-      // TODO: merger.template can be undefined if a section is applicable for
-      //       merging but no matching merge template is present? (see python impl.)
-      //       Note: No spec in js impl. reported this so far, unlike in python impl.
+      if(merger === false || !merger.hasOwnProperty('template')) continue;
+
       consolidateSections(context, merger.section, merger.template, true);
     }
   }
-- 
2.43.0


From 102e5264ae51a34f69712b687a72509206639e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:17 +0000
Subject: [PATCH 39/60] fix: deep merge with elements that a template section
 copies itself (JavaScript)

---
 javascript/lib/resolve.js | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/javascript/lib/resolve.js b/javascript/lib/resolve.js
index 5dc65cd..b7d547b 100644
--- a/javascript/lib/resolve.js
+++ b/javascript/lib/resolve.js
@@ -46,6 +46,19 @@ const consolidateNonSectionElements = (context, element, template) => {
   }
 };
 
+// The elements of a section, including the ones it copies from its own template
+const allElements = section => {
+  if(section.hasOwnProperty('mirror'))
+    return allElements(section.mirror);
+
+  if(!section.hasOwnProperty('extend'))
+    return section.elements;
+
+  const ownKeys = new Set(section.elements.map(element => element.key));
+
+  return allElements(section.extend).filter(element => !ownKeys.has(element.key)).concat(section.elements);
+};
+
 const consolidateSections = (context, section, template, deepMerge) => {
   if(template.hasOwnProperty('comments') && !section.hasOwnProperty('comments')) {
     section.comments = template.comments;
@@ -70,7 +83,7 @@ const consolidateSections = (context, section, template, deepMerge) => {
       }
     }
 
-    for(const elementInstruction of template.elements) {
+    for(const elementInstruction of allElements(template)) {
       if(elementInstruction.key in mergeMap) {
         const merger = mergeMap[elementInstruction.key];
 
-- 
2.43.0


From e7fe3f010f47fec894bca60fea902755ac3dead2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:24 +0000
Subject: [PATCH 40/60] fix: report deep copies that merge a section into
 itself as cyclic (JavaScript)

---
 javascript/lib/resolve.js | 35 ++++++++++++++++++++++++++++++++---
 1 file changed, 32 insertions(+), 3 deletions(-)

diff --git a/javascript/lib/resolve.js b/javascript/lib/resolve.js
index b7d547b..b09ef7c 100644
--- a/javascript/lib/resolve.js
+++ b/javascript/lib/resolve.js
@@ -59,7 +59,33 @@ const allElements = section => {
   return allElements(section.extend).filter(element => !ownKeys.has(element.key)).concat(section.elements);
 };
 
-const consolidateSections = (context, section, template, deepMerge) => {
+// Whether a section is made up of another one, by copying it or by containing it
+const dependsOn = (section, dependency) => {
+  const checked = new Set();
+  const pending = [section];
+
+  while(pending.length > 0) {
+    const current = pending.pop();
+
+    if(current === dependency)
+      return true;
+
+    if(checked.has(current)) continue;
+
+    checked.add(current);
+
+    if(current.hasOwnProperty('extend')) pending.push(current.extend);
+    if(current.hasOwnProperty('mirror')) pending.push(current.mirror);
+
+    for(const element of current.elements) {
+      if(element.type === SECTION) pending.push(element);
+    }
+  }
+
+  return false;
+};
+
+const consolidateSections = (context, section, template, deepMerge, copy) => {
   if(template.hasOwnProperty('comments') && !section.hasOwnProperty('comments')) {
     section.comments = template.comments;
   }
@@ -100,7 +126,10 @@ const consolidateSections = (context, section, template, deepMerge) => {
     for(const merger of Object.values(mergeMap)) {
       if(merger === false || !merger.hasOwnProperty('template')) continue;
 
-      consolidateSections(context, merger.section, merger.template, true);
+      if(dependsOn(merger.template, merger.section))
+        throw errors.cyclicDependency(context, copy, [copy]);
+
+      consolidateSections(context, merger.section, merger.template, true, copy);
     }
   }
 };
@@ -155,7 +184,7 @@ const resolveSection = (context, section, previousSections = []) => {
       resolveSection(context, template, [...previousSections, section]);
     }
 
-    consolidateSections(context, section, template, section.deepCopy);
+    consolidateSections(context, section, template, section.deepCopy, section);
 
     delete section.copy;
   }
-- 
2.43.0


From 9fb4a8e8980afd4ac0145908701d02b95c8ce4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:31 +0000
Subject: [PATCH 41/60] fix: report cyclic copies that run through sections
 inside of the cycle (JavaScript)

---
 javascript/lib/errors/parsing.js | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/javascript/lib/errors/parsing.js b/javascript/lib/errors/parsing.js
index 444b3aa..6271864 100644
--- a/javascript/lib/errors/parsing.js
+++ b/javascript/lib/errors/parsing.js
@@ -20,15 +20,9 @@ exports.errors = {
     const firstOccurrence = instructionChain.indexOf(instruction);
     const feedbackChain = instructionChain.slice(firstOccurrence);
 
-    const firstInstruction = feedbackChain[0];
     const lastInstruction = feedbackChain[feedbackChain.length - 1];
 
-    let copyInstruction;
-    if(lastInstruction.hasOwnProperty('template')) {
-      copyInstruction = lastInstruction;
-    } else if(firstInstruction.hasOwnProperty('template')) {
-      copyInstruction = firstInstruction;
-    }
+    const copyInstruction = [lastInstruction, ...feedbackChain].find(element => element.hasOwnProperty('template'));
 
     const reporter = new context.reporter(context);
 
-- 
2.43.0


From 3e722793c7b10f33a97aa9a5075d8ae9d9f0b712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:00 +0000
Subject: [PATCH 42/60] fix: do not match the space before the copy operator of
 sections twice (JavaScript)

---
 javascript/lib/grammar_matcher.js | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/javascript/lib/grammar_matcher.js b/javascript/lib/grammar_matcher.js
index 2e478c2..5e04ad6 100644
--- a/javascript/lib/grammar_matcher.js
+++ b/javascript/lib/grammar_matcher.js
@@ -51,8 +51,8 @@ exports.SECTION_KEY_ESCAPED_INDEX = 15;
 // # key <(<) template
 // # `key` <(<) template
 const SECTION_KEY = `(?:${SECTION_KEY_UNESCAPED}|${SECTION_KEY_ESCAPED})`;
-const SECTION_TEMPLATE = `(?:(<(?!<)|<<)[^\\S\\n]*${REQUIRED})?`;
-const SECTION = `${SECTION_OPERATOR}[^\\S\\n]*${SECTION_KEY}[^\\S\\n]*${SECTION_TEMPLATE}`;
+const SECTION_TEMPLATE = `(?:[^\\S\\n]*(<(?!<)|<<)[^\\S\\n]*${REQUIRED})?`;
+const SECTION = `${SECTION_OPERATOR}[^\\S\\n]*${SECTION_KEY}${SECTION_TEMPLATE}`;
 exports.SECTION_COPY_OPERATOR_INDEX = 16;
 exports.SECTION_TEMPLATE_INDEX = 17;
 
-- 
2.43.0


From 8e9641ee6f4bba2d3d904ded5448491cec0d65f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:07 +0000
Subject: [PATCH 43/60] fix: list copied elements before own elements of a
 section (JavaScript)

---
 javascript/lib/elements/section.js | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/javascript/lib/elements/section.js b/javascript/lib/elements/section.js
index 3d842b5..3a337ea 100644
--- a/javascript/lib/elements/section.js
+++ b/javascript/lib/elements/section.js
@@ -198,25 +198,25 @@ class Section extends ElementBase {
     if(section.hasOwnProperty('mirror')) {
       this._instantiateElements(section.mirror);
     } else {
-      this._instantiatedElements.push(
-        ...section.elements.filter(element =>
-          !(element.key in this._instantiatedElementsMap)
-        ).map(element => {
-          const instance = new section_element_module.SectionElement(this._context, element, this);
-
-          if(element.key in this._instantiatedElementsMap) {
-            this._instantiatedElementsMap[element.key].push(instance);
-          } else {
-            this._instantiatedElementsMap[element.key] = [instance];
-          }
+      const nativeElements = section.elements.filter(element =>
+        !(element.key in this._instantiatedElementsMap)
+      ).map(element => {
+        const instance = new section_element_module.SectionElement(this._context, element, this);
+
+        if(element.key in this._instantiatedElementsMap) {
+          this._instantiatedElementsMap[element.key].push(instance);
+        } else {
+          this._instantiatedElementsMap[element.key] = [instance];
+        }
 
-          return instance;
-        })
-      );
+        return instance;
+      });
 
       if(section.hasOwnProperty('extend')) {
         this._instantiateElements(section.extend);
       }
+
+      this._instantiatedElements.push(...nativeElements);
     }
   }
 
-- 
2.43.0


From 1078af4303ef33e9df3636458b9fc05b3bb83a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:46 +0000
Subject: [PATCH 44/60] fix: convert looked up elements to fieldset entries
 (JavaScript)

---
 javascript/lib/elements/element.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/javascript/lib/elements/element.js b/javascript/lib/elements/element.js
index 786bd64..8a9c267 100644
--- a/javascript/lib/elements/element.js
+++ b/javascript/lib/elements/element.js
@@ -13,7 +13,7 @@ class Element extends SectionElement {
       if(this._instruction.type !== FIELDSET_ENTRY)
         throw errors.unexpectedElementType(this._context, null, this._instruction, 'expectedFieldsetEntry');
 
-      this._fieldsetEntry = new fieldset_entry_module.Fieldset(this._context, this._instruction); // TODO: parent missing? or: what if casting Element to Field (inherited from SectionElement) but does not have parent because originating from lookup? investigate
+      this._fieldsetEntry = new fieldset_entry_module.FieldsetEntry(this._context, this._instruction); // TODO: parent missing? or: what if casting Element to Field (inherited from SectionElement) but does not have parent because originating from lookup? investigate
     }
 
     return this._fieldsetEntry;
-- 
2.43.0


From 77352fdfa85f4cea537c2401fd29b12b62e29e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:53 +0000
Subject: [PATCH 45/60] fix: report missing empty elements as such (JavaScript)

---
 javascript/lib/elements/section.js | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/javascript/lib/elements/section.js b/javascript/lib/elements/section.js
index 3a337ea..1e054fb 100644
--- a/javascript/lib/elements/section.js
+++ b/javascript/lib/elements/section.js
@@ -259,7 +259,9 @@ class Section extends ElementBase {
 
   // TODO: Can probably be simplified again - e.g. pushed back into Missing* classes themselves - also check if MissingFieldsetEntry addition is made use of already
   _missingError(element) {
-    if(element instanceof missing_field_module.MissingField) {
+    if(element instanceof missing_empty_module.MissingEmpty) {
+      throw errors.missingElement(this._context, element._key, this._instruction, 'missingEmpty');
+    } else if(element instanceof missing_field_module.MissingField) {
       throw errors.missingElement(this._context, element._key, this._instruction, 'missingField');
     } else if(element instanceof missing_fieldset_module.MissingFieldset) {
       throw errors.missingElement(this._context, element._key, this._instruction, 'missingFieldset');
-- 
2.43.0


From e872f290627ce863cfad3c91de4bc4bab53fc6df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:01 +0000
Subject: [PATCH 46/60] fix: keep the representation of multiline values on one
 line (JavaScript)

---
 javascript/lib/elements/value_element_base.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/javascript/lib/elements/value_element_base.js b/javascript/lib/elements/value_element_base.js
index c00b045..accdd4c 100644
--- a/javascript/lib/elements/value_element_base.js
+++ b/javascript/lib/elements/value_element_base.js
@@ -13,7 +13,7 @@ class ValueElementBase extends ElementBase {
       value = value.substring(0, 11) + '...';
     }
 
-    return value.replace('\n', '\\n');
+    return value.replace(/\n/g, '\\n');
   }
 
   _value(loader, required) {
-- 
2.43.0


From cfa1137342d0f61e58064bd51241518bc5179286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:07 +0000
Subject: [PATCH 47/60] fix: escape the source label in HTML reports
 (JavaScript)

---
 javascript/lib/reporters/html_reporter.js | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/javascript/lib/reporters/html_reporter.js b/javascript/lib/reporters/html_reporter.js
index 3bb1a44..9f94891 100644
--- a/javascript/lib/reporters/html_reporter.js
+++ b/javascript/lib/reporters/html_reporter.js
@@ -15,11 +15,10 @@ const HTML_ESCAPE = {
   '<': '&lt;',
   '>': '&gt;',
   '"': '&quot;',
-  "'": '&#39;',
-  '/': '&#x2F;'
+  "'": '&#39;'
 };
 
-const escape = string => string.replace(/[&<>"'/]/g, c => HTML_ESCAPE[c]);
+const escape = string => string.replace(/[&<>"']/g, c => HTML_ESCAPE[c]);
 
 class HtmlReporter extends Reporter {
   _line(line, tag) {
@@ -62,7 +61,7 @@ class HtmlReporter extends Reporter {
                                  .filter(line => line !== undefined)
                                  .join('');
 
-    return `<div>${this._context.source ? `<div>${this._context.source}</div>` : ''}<pre class="eno-report">${columnsHeader}${snippet}</pre></div>`;
+    return `<div>${this._context.source ? `<div>${escape(this._context.source)}</div>` : ''}<pre class="eno-report">${columnsHeader}${snippet}</pre></div>`;
   }
 }
 
-- 
2.43.0


From 6258680802d67e750d86fc47a13d1875c40304c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:13 +0000
Subject: [PATCH 48/60] fix: look up continuations of the last list item or
 fieldset entry (JavaScript)

---
 javascript/lib/lookup.js | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/javascript/lib/lookup.js b/javascript/lib/lookup.js
index 915208c..083affb 100644
--- a/javascript/lib/lookup.js
+++ b/javascript/lib/lookup.js
@@ -86,9 +86,7 @@ const checkFieldsetByLine = (fieldset, line) => {
   if(line === fieldset.line)
     return { element: fieldset, instruction: fieldset };
 
-  if(!fieldset.hasOwnProperty('entries') ||
-     fieldset.entries.length === 0 ||
-     line > fieldset.entries[fieldset.entries.length - 1].line)
+  if(!fieldset.hasOwnProperty('entries'))
     return false;
 
   for(const entry of fieldset.entries) {
@@ -111,9 +109,7 @@ const checkFieldsetByIndex = (fieldset, index) => {
   if(index <= fieldset.ranges.line[END])
     return { element: fieldset, instruction: fieldset };
 
-  if(!fieldset.hasOwnProperty('entries') ||
-     fieldset.entries.length === 0 ||
-     index > fieldset.entries[fieldset.entries.length - 1].ranges.line[END])
+  if(!fieldset.hasOwnProperty('entries'))
     return false;
 
   for(const entry of fieldset.entries) {
@@ -136,8 +132,7 @@ const checkListByLine = (list, line) => {
   if(line === list.line)
     return { element: list, instruction: list };
 
-  if(!list.hasOwnProperty('items') ||
-     line > list.items[list.items.length - 1].line)
+  if(!list.hasOwnProperty('items'))
     return false;
 
   for(const item of list.items) {
@@ -160,8 +155,7 @@ const checkListByIndex = (list, index) => {
   if(index <= list.ranges.line[END])
     return { element: list, instruction: list };
 
-  if(!list.hasOwnProperty('items') ||
-     index > list.items[list.items.length - 1].ranges.line[END])
+  if(!list.hasOwnProperty('items'))
     return false;
 
   for(const item of list.items) {
-- 
2.43.0


From f2020beec87e4508b6d6cd23f2082006cb4f76ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:20 +0000
Subject: [PATCH 49/60] fix: look up tokens of comments by index as well as by
 line (JavaScript)

---
 javascript/lib/lookup.js | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/javascript/lib/lookup.js b/javascript/lib/lookup.js
index 083affb..43643a9 100644
--- a/javascript/lib/lookup.js
+++ b/javascript/lib/lookup.js
@@ -278,7 +278,11 @@ exports.lookup = (position, input, options = {}) => {
   let instruction = match.instruction;
 
   if(!instruction) {
-    instruction = context._meta.find(instruction => instruction.line === line);
+    if(index === undefined) {
+      instruction = context._meta.find(instruction => instruction.line === line);
+    } else {
+      instruction = context._meta.find(instruction => index >= instruction.ranges.line[BEGIN] && index <= instruction.ranges.line[END]);
+    }
 
     if(!instruction)
       return result;
-- 
2.43.0


From 39aa4145bc2c4ed64c1a87b39b7ecd7da5d9b2e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:25 +0000
Subject: [PATCH 50/60] fix: build errors for the document and comment errors
 for elements without comments (JavaScript)

---
 javascript/lib/errors/selections.js  | 31 ++++++++++++++++++++++------
 javascript/lib/errors/validation.js  |  2 +-
 javascript/lib/reporters/reporter.js |  9 ++++++++
 3 files changed, 35 insertions(+), 7 deletions(-)

diff --git a/javascript/lib/errors/selections.js b/javascript/lib/errors/selections.js
index 8efc04e..f03b4fa 100644
--- a/javascript/lib/errors/selections.js
+++ b/javascript/lib/errors/selections.js
@@ -1,5 +1,6 @@
 const {
   BEGIN,
+  DOCUMENT,
   END,
   FIELD,
   FIELDSET,
@@ -49,8 +50,16 @@ const selection = (instruction, range, position, ...to) => {
   };
 };
 
+const DOCUMENT_BEGIN = {
+  from: { column: 0, index: 0, line: 0 },
+  to: { column: 0, index: 0, line: 0 }
+};
+
 const selectComments = element => {
-  const { comments } = element;
+  if(element.type === DOCUMENT)
+    return DOCUMENT_BEGIN;
+
+  const { comments = [] } = element;
 
   if(comments.length === 1) {
     if(comments[0].hasOwnProperty('comment')) {
@@ -65,15 +74,25 @@ const selectComments = element => {
   }
 };
 
-exports.DOCUMENT_BEGIN = {
-  from: { column: 0, index: 0, line: 0 },
-  to: { column: 0, index: 0, line: 0 }
+const selectElement = element => {
+  if(element.type === DOCUMENT)
+    return DOCUMENT_BEGIN;
+
+  return selection(element, 'line', BEGIN, lastIn(element), 'line', END);
+};
+
+const selectKey = element => {
+  if(element.type === DOCUMENT)
+    return DOCUMENT_BEGIN;
+
+  return selection(element, 'key', BEGIN, END);
 };
 
+exports.DOCUMENT_BEGIN = DOCUMENT_BEGIN;
 exports.cursor = cursor;
 exports.selection = selection;
 exports.selectComments = selectComments;
-exports.selectElement = element => selection(element, 'line', BEGIN, lastIn(element), 'line', END);
-exports.selectKey = element => selection(element, 'key', BEGIN, END);
+exports.selectElement = selectElement;
+exports.selectKey = selectKey;
 exports.selectLine = element => selection(element, 'line', BEGIN, END);
 exports.selectTemplate = element => selection(element, 'template', BEGIN, END);
diff --git a/javascript/lib/errors/validation.js b/javascript/lib/errors/validation.js
index affcc32..9ef2543 100644
--- a/javascript/lib/errors/validation.js
+++ b/javascript/lib/errors/validation.js
@@ -42,7 +42,7 @@ exports.errors = {
     return new ValidationError(
       context.messages.missingComment,
       new context.reporter(context).reportLine(element).snippet(), // TODO: Question-tag an empty line before an element with missing comment
-      selection(element, 'line', BEGIN)
+      element.type === DOCUMENT ? DOCUMENT_BEGIN : selection(element, 'line', BEGIN)
     );
   },
 
diff --git a/javascript/lib/reporters/reporter.js b/javascript/lib/reporters/reporter.js
index e241794..9172874 100644
--- a/javascript/lib/reporters/reporter.js
+++ b/javascript/lib/reporters/reporter.js
@@ -181,6 +181,9 @@ class Reporter {
   }
 
   reportComments(element) {
+    if(!element.hasOwnProperty('comments'))
+      return this.reportLine(element);
+
     this._snippet[element.line] = INDICATE;
     for(const comment of element.comments) {
       this._snippet[comment.line] = EMPHASIZE;
@@ -190,6 +193,9 @@ class Reporter {
   }
 
   reportElement(element) {
+    if(element.type === DOCUMENT)
+      return this;
+
     this._snippet[element.line] = EMPHASIZE;
     this._tagElement(element, INDICATE);
 
@@ -206,6 +212,9 @@ class Reporter {
   }
 
   reportLine(instruction) {
+    if(instruction.type === DOCUMENT)
+      return this;
+
     this._snippet[instruction.line] = EMPHASIZE;
 
     return this;
-- 
2.43.0


From 10fee0aa69d9e97e04d62c3485e1fa2307e7aa9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:32 +0000
Subject: [PATCH 51/60] fix: report key errors of list items on their list
 (JavaScript)

---
 javascript/lib/errors/validation.js | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/javascript/lib/errors/validation.js b/javascript/lib/errors/validation.js
index 9ef2543..5a9fa17 100644
--- a/javascript/lib/errors/validation.js
+++ b/javascript/lib/errors/validation.js
@@ -31,6 +31,10 @@ exports.errors = {
   },
 
   keyError: (context, message, element) => {
+    if(element.type === LIST_ITEM) {
+      element = element.parent;
+    }
+
     return new ValidationError(
       context.messages.keyError(message),
       new context.reporter(context).reportLine(element).snippet(),
-- 
2.43.0


From 1841ff22f7b84556853cdb8b3b413f0061993eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:09 +0000
Subject: [PATCH 52/60] fix: report documents with copied fields, fieldsets and
 lists (JavaScript)

---
 javascript/lib/reporters/reporter.js | 2 +-
 javascript/lib/resolve.js            | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/javascript/lib/reporters/reporter.js b/javascript/lib/reporters/reporter.js
index 9172874..cebe445 100644
--- a/javascript/lib/reporters/reporter.js
+++ b/javascript/lib/reporters/reporter.js
@@ -131,7 +131,7 @@ class Reporter {
       return this._tagContinuations(element, tag);
     } else if(element.type === LIST) {
       return this._tagContinuables(element, 'items', tag);
-    } else if(element.type === FIELDSET && element.entries.length > 0) {
+    } else if(element.type === FIELDSET) {
       return this._tagContinuables(element, 'entries', tag);
     } else if(element.type === MULTILINE_FIELD_BEGIN) {
       for(const line of element.lines) {
diff --git a/javascript/lib/resolve.js b/javascript/lib/resolve.js
index b09ef7c..e0125ec 100644
--- a/javascript/lib/resolve.js
+++ b/javascript/lib/resolve.js
@@ -16,15 +16,19 @@ const consolidateNonSectionElements = (context, element, template) => {
   if(element.type === EMPTY_ELEMENT) {
     if(template.type === MULTILINE_FIELD_BEGIN) {
       element.type = FIELD;  // TODO: Revisit this - maybe should be MULTILINE_FIELD_COPY or something else - consider implications all around.
+      element.continuations = [];
       mirror(element, template);
     } else if(template.type === FIELD) {
       element.type = FIELD;
+      element.continuations = [];
       mirror(element, template);
     } else if(template.type === FIELDSET) {
       element.type = FIELDSET;
+      element.entries = [];
       mirror(element, template);
     } else if(template.type === LIST) {
       element.type = LIST;
+      element.items = [];
       mirror(element, template);
     }
   } else if(element.type === FIELDSET) {
-- 
2.43.0


From 2b2e65ab22abe5c08a1ff33132f7b6ae66295289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:16 +0000
Subject: [PATCH 53/60] fix: report all lines between the elements of a section
 (JavaScript)

---
 javascript/lib/reporters/reporter.js | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/javascript/lib/reporters/reporter.js b/javascript/lib/reporters/reporter.js
index cebe445..2dbdf18 100644
--- a/javascript/lib/reporters/reporter.js
+++ b/javascript/lib/reporters/reporter.js
@@ -149,6 +149,8 @@ class Reporter {
     } else if(element.type === SECTION) {
       return this._tagSection(element, tag);
     }
+
+    return element.type === DOCUMENT ? 0 : element.line + 1;
   }
 
   _tagSection(section, tag, recursive = true) {
-- 
2.43.0


From e104c58e2a4d627bca481b84ce9c50561ec1b2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:23 +0000
Subject: [PATCH 54/60] fix: report value errors of fields without an operator
 or value (JavaScript)

---
 javascript/lib/errors/validation.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/javascript/lib/errors/validation.js b/javascript/lib/errors/validation.js
index 5a9fa17..bf1af7c 100644
--- a/javascript/lib/errors/validation.js
+++ b/javascript/lib/errors/validation.js
@@ -150,7 +150,7 @@ exports.errors = {
         select.from = cursor(element, 'line', END);
       }
 
-      if(element.continuations.length > 0) {
+      if(element.hasOwnProperty('continuations') && element.continuations.length > 0) {
         select.to = cursor(element.continuations[element.continuations.length - 1], 'line', END);
       } else if(element.ranges.hasOwnProperty('value')) {
         select.to = cursor(element, 'value', END);
-- 
2.43.0


From 0b96c1c4a6de730703711172b484a4d4d80891d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:30 +0000
Subject: [PATCH 55/60] fix: pass allElementsRequired on to yielded sections
 and fieldsets only (JavaScript)

---
 javascript/lib/elements/section.js | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/javascript/lib/elements/section.js b/javascript/lib/elements/section.js
index 1e054fb..129cf5f 100644
--- a/javascript/lib/elements/section.js
+++ b/javascript/lib/elements/section.js
@@ -328,9 +328,9 @@ class Section extends ElementBase {
     this._allElementsRequired = required;
 
     for(const element of this._elements()) {
-      if(element._instruction.type === SECTION && element._yielded) {
+      if(element._section) {
         element.toSection().allElementsRequired(required);
-      } else if(element._instruction.type === FIELDSET && element._yielded) {
+      } else if(element._fieldset) {
         element.toFieldset().allEntriesRequired(required);
       }
     }
-- 
2.43.0


From d047e678c41feee3f97b662026c329f8dfe7d708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:37 +0000
Subject: [PATCH 56/60] fix: touch the elements of a section that are not
 yielded yet as well (JavaScript)

---
 javascript/lib/elements/section_element.js | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/javascript/lib/elements/section_element.js b/javascript/lib/elements/section_element.js
index ac2c2b1..800698c 100644
--- a/javascript/lib/elements/section_element.js
+++ b/javascript/lib/elements/section_element.js
@@ -20,7 +20,7 @@ const {
 class SectionElement extends ElementBase {
   _untouched() {
     if(!this._yielded)
-      return this._instruction;
+      return this._touchYielded ? false : this._instruction;
 
     if(this._empty && !this._empty._touched) return this._instruction;
     if(this._field && !this._field._touched) return this._instruction;
@@ -39,6 +39,8 @@ class SectionElement extends ElementBase {
 
       this._empty = new empty_module.Empty(this._context, this._instruction, this._parent);
       this._yielded = EMPTY_ELEMENT;
+
+      if(this._touchYielded) this._empty.touch();
     }
 
     return this._empty;
@@ -56,6 +58,8 @@ class SectionElement extends ElementBase {
 
       this._field = new field_module.Field(this._context, this._instruction, this._parent);
       this._yielded = FIELD;
+
+      if(this._touchYielded) this._field.touch();
     }
 
     return this._field;
@@ -71,6 +75,8 @@ class SectionElement extends ElementBase {
 
       this._fieldset = new fieldset_module.Fieldset(this._context, this._instruction, this._parent);
       this._yielded = FIELDSET;
+
+      if(this._touchYielded) this._fieldset.touch();
     }
 
     return this._fieldset;
@@ -86,6 +92,8 @@ class SectionElement extends ElementBase {
 
       this._list = new list_module.List(this._context, this._instruction, this._parent);
       this._yielded = LIST;
+
+      if(this._touchYielded) this._list.touch();
     }
 
     return this._list;
@@ -98,14 +106,18 @@ class SectionElement extends ElementBase {
 
       this._section = new section_module.Section(this._context, this._instruction, this._parent);
       this._yielded = SECTION;
+
+      if(this._touchYielded) this._section.touch();
     }
 
     return this._section;
   }
 
   touch() {
-    if(!this._yielded)  // TODO: Here we accutely would need the "marked touched below" with later repropagation mechanism
+    if(!this._yielded) {
+      this._touchYielded = true;
       return;
+    }
 
     if(this._empty) { this._empty._touched = true; }
     if(this._field) { this._field._touched = true; }
-- 
2.43.0


From 084daa1b00a95652ada9a0475b2be9e0696346fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:12 +0000
Subject: [PATCH 57/60] fix: report unterminated escaped keys with other line
 separators inside (JavaScript)

---
 javascript/lib/errors/parsing.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/javascript/lib/errors/parsing.js b/javascript/lib/errors/parsing.js
index 6271864..e8f7417 100644
--- a/javascript/lib/errors/parsing.js
+++ b/javascript/lib/errors/parsing.js
@@ -3,7 +3,7 @@ const { cursor, selectLine, selectTemplate } = require('./selections.js');
 const { ParseError } = require('../error_types.js');
 
 // ```key: value
-const UNTERMINATED_ESCAPED_KEY = /^\s*#*\s*(`+)(?!`)((?:(?!\1).)+)$/;
+const UNTERMINATED_ESCAPED_KEY = /^\s*#*\s*(`+)(?!`)((?:(?!\1)[^\n])+)$/;
 const unterminatedEscapedKey = (context, instruction, unterminated) => {
   const line = context._input.substring(instruction.ranges.line[BEGIN], instruction.ranges.line[END]);
   const selectionColumn = line.lastIndexOf(unterminated);
-- 
2.43.0


From 354c52f24a2eb9577601bc7f66537fce90bbca15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:07 +0000
Subject: [PATCH 58/60] fix: build comment errors for elements with an empty
 comment line (JavaScript)

---
 javascript/lib/errors/selections.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/javascript/lib/errors/selections.js b/javascript/lib/errors/selections.js
index f03b4fa..cbb05e5 100644
--- a/javascript/lib/errors/selections.js
+++ b/javascript/lib/errors/selections.js
@@ -62,7 +62,7 @@ const selectComments = element => {
   const { comments = [] } = element;
 
   if(comments.length === 1) {
-    if(comments[0].hasOwnProperty('comment')) {
+    if(comments[0].comment !== null) {
       return selection(comments[0], 'comment', BEGIN, END);
     } else {
       return selection(comments[0], 'line', BEGIN, END);
-- 
2.43.0


From ae77d7775b524e08e6ffdc4474f4eef9e7e3d2da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:08 +0000
Subject: [PATCH 59/60] fix: do not pass elements and comments as arguments,
 whose number is limited (JavaScript)

---
 javascript/lib/analyze.js           | 10 +++++-----
 javascript/lib/elements/fieldset.js |  2 +-
 javascript/lib/elements/section.js  |  2 +-
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/javascript/lib/analyze.js b/javascript/lib/analyze.js
index 3cacfdb..144459e 100644
--- a/javascript/lib/analyze.js
+++ b/javascript/lib/analyze.js
@@ -19,7 +19,7 @@ const {
 
 const tokenizeErrorContext = (context, index, line, comments) => {
   if(comments) {
-    context._meta.push(...comments);
+    comments.forEach(comment => context._meta.push(comment));
   }
 
   let firstInstruction = null;
@@ -108,7 +108,7 @@ exports.analyze = function() {
     if(match[matcher.EMPTY_LINE_INDEX] !== undefined) {
 
       if(comments) {
-        this._meta.push(...comments);
+        comments.forEach(comment => this._meta.push(comment));
         comments = null;
       }
 
@@ -286,7 +286,7 @@ exports.analyze = function() {
       }
 
       if(comments) {
-        this._meta.push(...comments);
+        comments.forEach(comment => this._meta.push(comment));
         comments = null;
       }
 
@@ -320,7 +320,7 @@ exports.analyze = function() {
       }
 
       if(comments) {
-        this._meta.push(...comments);
+        comments.forEach(comment => this._meta.push(comment));
         comments = null;
       }
 
@@ -588,6 +588,6 @@ exports.analyze = function() {
   this._lineCount = this._input[this._input.length - 1] === '\n' ? line + 1 : line;
 
   if(comments) {
-    this._meta.push(...comments);
+    comments.forEach(comment => this._meta.push(comment));
   }
 };
diff --git a/javascript/lib/elements/fieldset.js b/javascript/lib/elements/fieldset.js
index 9897e47..2a72c5d 100644
--- a/javascript/lib/elements/fieldset.js
+++ b/javascript/lib/elements/fieldset.js
@@ -80,7 +80,7 @@ class Fieldset extends ElementBase {
         this._instantiateEntries(fieldset.extend);
       }
 
-      this._instantiatedEntries.push(...nativeEntries);
+      nativeEntries.forEach(instance => this._instantiatedEntries.push(instance));
     }
   }
 
diff --git a/javascript/lib/elements/section.js b/javascript/lib/elements/section.js
index 129cf5f..3d04fb9 100644
--- a/javascript/lib/elements/section.js
+++ b/javascript/lib/elements/section.js
@@ -216,7 +216,7 @@ class Section extends ElementBase {
         this._instantiateElements(section.extend);
       }
 
-      this._instantiatedElements.push(...nativeElements);
+      nativeElements.forEach(instance => this._instantiatedElements.push(instance));
     }
   }
 
-- 
2.43.0


From 0c9bfef9b439a66eb849afb23b4c4ed35f7ec9ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:47:50 +0000
Subject: [PATCH 60/60] fix: fold continuations in time proportional to their
 length

---
 python/enolib/context.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/python/enolib/context.py b/python/enolib/context.py
index 7d37c68..d076319 100644
--- a/python/enolib/context.py
+++ b/python/enolib/context.py
@@ -177,19 +177,23 @@ class Context:
 
                 if 'continuations' in element:
                     unapplied_spacing = None
+                    parts = [] if element['computed_value'] is None else [element['computed_value']]
 
                     for continuation in element['continuations']:
-                        if element['computed_value'] is None:
+                        if not parts:
                             if 'value' in continuation:
-                                element['computed_value'] = continuation['value']
+                                parts.append(continuation['value'])
 
                             unapplied_spacing = None
                         elif not 'value' in continuation:
                             unapplied_spacing = unapplied_spacing or 'spaced' in continuation
                         elif 'spaced' in continuation or unapplied_spacing:
-                            element['computed_value'] += ' ' + continuation['value']
+                            parts.append(' ' + continuation['value'])
                             unapplied_spacing = None
                         else:
-                            element['computed_value'] += continuation['value']
+                            parts.append(continuation['value'])
+
+                    if parts:
+                        element['computed_value'] = ''.join(parts)
 
         return element['computed_value']
-- 
2.43.0


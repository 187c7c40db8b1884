From 4bb497cf3f08fecb3d2d4cf5b8b3928c90adc145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:20 +0000
Subject: [PATCH 01/48] fix: let a literal/Markup value be rendered more than
 once

---
 kajiki/util.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/kajiki/util.py b/kajiki/util.py
index bf91401..8a68bf6 100644
--- a/kajiki/util.py
+++ b/kajiki/util.py
@@ -58,7 +58,7 @@ class flattener(object):
         if type(self.iterator) == flattener:
             return self.iterator.accumulate_str()
         s = ''
-        iter_stack = [self.iterator]
+        iter_stack = [iter(self.iterator)]
         while iter_stack:
             try:
                 x = next(iter_stack[-1])
@@ -66,7 +66,7 @@ class flattener(object):
                 iter_stack.pop()
                 continue
             if type(x) == flattener:
-                iter_stack.append(x.iterator)
+                iter_stack.append(iter(x.iterator))
             elif x is None:
                 pass
             else:
@@ -84,7 +84,7 @@ class flattener(object):
 
 
 def literal(text):
-    return flattener(iter([text]))
+    return flattener([text])
 
 
 class NameGen(object):
-- 
2.43.0


From 20e35b200986642f8025b3605f59cf186ec49f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:27 +0000
Subject: [PATCH 02/48] fix: render Markup values passed to py:attrs instead of
 their object repr

---
 kajiki/template.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/kajiki/template.py b/kajiki/template.py
index 29f7555..ea3ea78 100644
--- a/kajiki/template.py
+++ b/kajiki/template.py
@@ -243,7 +243,10 @@ class _Template(object):
                 if mode.startswith('html') and k in HTML_EMPTY_ATTRS:
                     yield ' ' + k.lower()
                 else:
-                    yield ' %s="%s"' % (k, self._escape(v))
+                    v = self._escape(v)
+                    if isinstance(v, flattener):
+                        v = v.accumulate_str()
+                    yield ' %s="%s"' % (k, v)
 
     def _collect(self, it):
         result = []
-- 
2.43.0


From 94737d361f6ffa1ad54c2fdcd1eb0a4e705c98e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:31:43 +0000
Subject: [PATCH 03/48] fix: directives with nothing inside them render nothing
 instead of failing to compile

---
 kajiki/ir.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/kajiki/ir.py b/kajiki/ir.py
index 9163723..95823d4 100644
--- a/kajiki/ir.py
+++ b/kajiki/ir.py
@@ -55,8 +55,12 @@ class HierNode(Node):
     def __iter__(self):
         yield self
         yield IndentNode()
+        is_empty = True
         for x in self.body_iter():
             yield x
+            is_empty = False
+        if is_empty:  # In Python, a block without a body is a SyntaxError.
+            yield PassNode()
         yield DedentNode()
 
 
@@ -185,8 +189,12 @@ class CallNode(HierNode):
     def __iter__(self):
         yield self
         yield IndentNode()
+        is_empty = True
         for x in self.body_iter():
             yield x
+            is_empty = False
+        if is_empty:  # In Python, a block without a body is a SyntaxError.
+            yield PassNode()
         yield DedentNode()
         yield self.CallTail(self.call)
 
-- 
2.43.0


From e0f5827c163518b6bf5032b837e6c6ce49158449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:50 +0000
Subject: [PATCH 04/48] fix: a dollar sign inside a braced expression is part
 of that expression

---
 kajiki/xml_template.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kajiki/xml_template.py b/kajiki/xml_template.py
index 8615804..5fd4804 100644
--- a/kajiki/xml_template.py
+++ b/kajiki/xml_template.py
@@ -513,6 +513,9 @@ class _TextCompiler(object):
         source = self.source
         for mo in self._re_pattern.finditer(source):
             start = mo.start()
+            if start < self.pos:
+                # a dollar inside a braced expression that was already consumed
+                continue
             if start > self.pos:
                 yield self.text(source[self.pos:start])
             self.pos = start
-- 
2.43.0


From 3931df00f79eeb378182e805be4e3937922b8487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:54 +0000
Subject: [PATCH 05/48] fix: text templates: a dollar sign or tag inside an
 expression belongs to it

---
 kajiki/text.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kajiki/text.py b/kajiki/text.py
index 1cbe583..a985d43 100644
--- a/kajiki/text.py
+++ b/kajiki/text.py
@@ -78,6 +78,9 @@ class _Scanner(object):
         source = self.source
         for mo in _re_pattern.finditer(source):
             start = mo.start()
+            if start < self.pos:
+                # inside an expression or tag that was already consumed
+                continue
             if start > self.pos:
                 yield self.text(source[self.pos:start])
                 self.pos = start
-- 
2.43.0


From 5a3cb730907c4fcbd0f5635447736a711a2f2326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:24 +0000
Subject: [PATCH 06/48] fix: report the real template line of an invalid braced
 expression

---
 kajiki/xml_template.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/kajiki/xml_template.py b/kajiki/xml_template.py
index 5fd4804..f915731 100644
--- a/kajiki/xml_template.py
+++ b/kajiki/xml_template.py
@@ -556,7 +556,7 @@ class _TextCompiler(object):
                 # for example unclosed strings
                 raise XMLTemplateCompileError(
                     "Kajiki can't compile the python expression `%s`" % py_expr()[:-1],
-                    doc=self.doc, filename=self.filename, linen=self.lineno)
+                    doc=self.doc, filename=self.filename, linen=self.real_lineno)
             else:
                 # if the expression ends in a } then it may be valid
                 try:
@@ -565,14 +565,14 @@ class _TextCompiler(object):
                     # for example + operators with a single operand
                     raise XMLTemplateCompileError(
                         "Kajiki detected an invalid python expression `%s`" % py_expr()[:-1],
-                        doc=self.doc, filename=self.filename, linen=self.lineno)
+                        doc=self.doc, filename=self.filename, linen=self.real_lineno)
 
             py_text = py_expr(end - 1)
             self.pos = end
             return self.expr(py_text)
         else:
             raise XMLTemplateCompileError("Braced expression not terminated",
-                                          doc=self.doc, filename=self.filename, linen=self.lineno)
+                                          doc=self.doc, filename=self.filename, linen=self.real_lineno)
 
 
 class _Parser(sax.ContentHandler):
-- 
2.43.0


From a69872469678e5d27aa347742316027c5bb76cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:24 +0000
Subject: [PATCH 07/48] fix: only line feeds separate the lines of a braced
 expression

---
 kajiki/xml_template.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kajiki/xml_template.py b/kajiki/xml_template.py
index f915731..c94e564 100644
--- a/kajiki/xml_template.py
+++ b/kajiki/xml_template.py
@@ -549,7 +549,7 @@ class _TextCompiler(object):
             end = sum(
                 [self.pos, se.offset] +
                 [len(line) + 1
-                 for idx, line in enumerate(py_expr().splitlines())
+                 for idx, line in enumerate(py_expr().split('\n'))
                  if idx < se.lineno - 1]
             )
             if py_expr(end)[-1] != '}':
-- 
2.43.0


From cdd13333e092093c7befaa3abe99a9957df50717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:39 +0000
Subject: [PATCH 08/48] fix: Python code in braced expressions sees <, > and &
 instead of their entities

---
 kajiki/xml_template.py | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/kajiki/xml_template.py b/kajiki/xml_template.py
index c94e564..8065547 100644
--- a/kajiki/xml_template.py
+++ b/kajiki/xml_template.py
@@ -253,7 +253,8 @@ class _Compiler(object):
                             continue
                         assert isinstance(child, dom.Text)
                         for x in self._compile_text(child):
-                            if child.escaped:  # If user declared CDATA no escaping happened.
+                            # If user declared CDATA no escaping happened.
+                            if child.escaped and not isinstance(x, ir.ExprNode):
                                 x.text = unescape(x.text)
                             yield x
                     if self.mode == 'xml':  # Finish escaping
@@ -379,7 +380,8 @@ class _Compiler(object):
             # script and style should always be untranslatable.
             kwargs['node_type'] = ir.TextNode
 
-        tc = _TextCompiler(self.filename, node.data, node.lineno, compiler_instance=self, **kwargs)
+        tc = _TextCompiler(self.filename, node.data, node.lineno, compiler_instance=self,
+                           escaped=node.escaped, **kwargs)
         for x in tc:
             yield x
 
@@ -471,7 +473,8 @@ class _TextCompiler(object):
     instances and :class:`.ir.TextNode` instances accordingly.
     """
     def __init__(self, filename, source, lineno,
-                 node_type=make_text_node, in_html_attr=False, compiler_instance=None):
+                 node_type=make_text_node, in_html_attr=False, compiler_instance=None,
+                 escaped=False):
         self.filename = filename
         self.source = source
         self.orig_lineno = lineno
@@ -479,6 +482,7 @@ class _TextCompiler(object):
         self.pos = 0
         self.node_type = node_type
         self.in_html_attr = in_html_attr
+        self.escaped = escaped
         self.compiler_instance = compiler_instance
         self.doc = self.compiler_instance.doc
 
@@ -540,14 +544,20 @@ class _TextCompiler(object):
         # So, self.source can be something like `1+1=${1+1} ahah`
         # in this case this function gets called only once with self.pos equal to 6
         # this function must return the result of self.expr('1+1') and must set self.pos to 9
+        # The text of the template has its markup characters escaped,
+        # the Python code in it must not.
+        source = self.source[self.pos:]
+        if self.escaped:
+            source = sax.saxutils.unescape(source)
+        start = len(source) - len(source.lstrip())
+
         def py_expr(end=None):
-            return self.source[self.pos:end]
+            return source[start:end]
         try:
-            self.pos += len(py_expr()) - len(py_expr().lstrip())
             compile(py_expr(), 'find_}', 'eval')
         except SyntaxError as se:
             end = sum(
-                [self.pos, se.offset] +
+                [start, se.offset] +
                 [len(line) + 1
                  for idx, line in enumerate(py_expr().split('\n'))
                  if idx < se.lineno - 1]
@@ -567,12 +577,15 @@ class _TextCompiler(object):
                         "Kajiki detected an invalid python expression `%s`" % py_expr()[:-1],
                         doc=self.doc, filename=self.filename, linen=self.real_lineno)
 
-            py_text = py_expr(end - 1)
-            self.pos = end
-            return self.expr(py_text)
+            consumed = source[:end]
+            if self.escaped:
+                consumed = sax.saxutils.escape(consumed)
+            self.pos += len(consumed)
+            return self.expr(py_expr(end - 1))
         else:
             raise XMLTemplateCompileError("Braced expression not terminated",
-                                          doc=self.doc, filename=self.filename, linen=self.real_lineno)
+                                          doc=self.doc, filename=self.filename,
+                                          linen=self.real_lineno)
 
 
 class _Parser(sax.ContentHandler):
-- 
2.43.0


From 5a498bd039162104a7f3b30f4b47bc9ca353dfea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:23 +0000
Subject: [PATCH 09/48] fix: report an empty unterminated braced expression as
 a compile error

---
 kajiki/xml_template.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kajiki/xml_template.py b/kajiki/xml_template.py
index 8065547..3c96c15 100644
--- a/kajiki/xml_template.py
+++ b/kajiki/xml_template.py
@@ -562,7 +562,7 @@ class _TextCompiler(object):
                  for idx, line in enumerate(py_expr().split('\n'))
                  if idx < se.lineno - 1]
             )
-            if py_expr(end)[-1] != '}':
+            if not py_expr(end).endswith('}'):
                 # for example unclosed strings
                 raise XMLTemplateCompileError(
                     "Kajiki can't compile the python expression `%s`" % py_expr()[:-1],
-- 
2.43.0


From 373708e5a871b11c61290d1c0654b885b7d4d176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:07 +0000
Subject: [PATCH 10/48] fix: look for the doctype only before the root element

A doctype inside a comment or CDATA section was moved out of it, and a
template with an XML declaration but no doctype could not be parsed.
---
 kajiki/doctype.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/kajiki/doctype.py b/kajiki/doctype.py
index 66833d6..eba8844 100644
--- a/kajiki/doctype.py
+++ b/kajiki/doctype.py
@@ -79,6 +79,8 @@ class DocumentTypeDeclaration(object):
             return None
 
     REGEX = re.compile(r'<!DOCTYPE[^>]+>')  # This matches any DTD.
+    # What may come before a DTD; anywhere else it is just text.
+    PROLOG = re.compile('\ufeff?(?:\\s|<\\?.*?\\?>|<!--.*?-->)*', re.DOTALL)
 
 
 # Build the public DTDs dictionary
@@ -127,7 +129,8 @@ def extract_dtd(markup):
 
     Tries to find any DTD in the string *markup* and returns a tuple
     (dtd_string, position, markup_without_the_DTD). Note the first of
-    these values might be an empty string::
+    these values might be an empty string; *position* is then the place
+    where a DTD could be inserted::
 
         >>> markup = '''<!DOCTYPE HTML PUBLIC "-//W3C//DTD HTML 4.01 Transitional//EN"
         ...             "http://www.w3.org/TR/html4/loose.dtd">
@@ -145,8 +148,9 @@ def extract_dtd(markup):
         <!DOCTYPE HTML PUBLIC "-//W3C//DTD HTML 4.01 Transitional//EN"
             "http://www.w3.org/TR/html4/loose.dtd">
     """
-    match = DocumentTypeDeclaration.REGEX.search(markup)
+    position = DocumentTypeDeclaration.PROLOG.match(markup).end()
+    match = DocumentTypeDeclaration.REGEX.match(markup, position)
     if not match:
-        return '', 0, markup
+        return '', position, markup
     found = match.group()
-    return found, match.start(), markup.replace(found, '', 1)
+    return found, position, markup[:position] + markup[match.end():]
-- 
2.43.0


From 115961c036c35582c4456e1e8a9eca64bf4cdef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:10 +0000
Subject: [PATCH 11/48] fix: a doctype of several lines does not shift the line
 numbers after it

---
 kajiki/xml_template.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/kajiki/xml_template.py b/kajiki/xml_template.py
index 3c96c15..a344e8e 100644
--- a/kajiki/xml_template.py
+++ b/kajiki/xml_template.py
@@ -618,8 +618,9 @@ class _Parser(sax.ContentHandler):
         self._filename = filename
         # Store the original DTD in the document for the compiler to use later
         self._doc._dtd, position, source = extract_dtd(source)
-        # Use our own DTD just for XML parsing
-        self._source = source[:position] + self.DTD + source[position:]
+        # Use our own DTD just for XML parsing, as many lines long as the original
+        self._source = (source[:position] + self.DTD +
+                        '\n' * self._doc._dtd.count('\n') + source[position:])
         self._cdata_stack = []
 
     def parse(self):
-- 
2.43.0


From fdf9aac4e83ede9fb6dccc6ca95e864457a7780d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:07:11 +0000
Subject: [PATCH 12/48] fix: functions are inherited from all ancestors, not
 only from the parent

---
 kajiki/template.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/kajiki/template.py b/kajiki/template.py
index ea3ea78..d748e4d 100644
--- a/kajiki/template.py
+++ b/kajiki/template.py
@@ -59,6 +59,7 @@ class _Template(object):
     loader = None
     base_globals = None
     filename = None
+    _extended_by = None
 
     def __init__(self, context=None):
         if context is None:
@@ -151,16 +152,20 @@ class _Template(object):
                 continue
             if not isinstance(v, TplFunc):
                 continue
-            if k not in self.__globals__:
-                self.__globals__[k] = v
-            if not hasattr(self, k):
-                def _(k=k):
-                    '''Capture the 'k' variable in a closure'''
-                    def trampoline(*a, **kw):
-                        global parent
-                        return getattr(parent, k)(*a, **kw)
-                    return trampoline
-                setattr(self, k, TplFunc(_()).bind_instance(self))
+            heir = self  # and the templates that extend it, in their turn
+            while heir is not None:
+                if k not in heir.__globals__:
+                    heir.__globals__[k] = v
+                if not hasattr(heir, k):
+                    def _(k=k):
+                        '''Capture the 'k' variable in a closure'''
+                        def trampoline(*a, **kw):
+                            global parent
+                            return getattr(parent, k)(*a, **kw)
+                        return trampoline
+                    setattr(heir, k, TplFunc(_()).bind_instance(heir))
+                heir = heir._extended_by
+        p_inst._extended_by = self
         p_globals['child'] = self
         p_globals['local'] = p_inst
         p_globals['self'] = self.__globals__['self']
-- 
2.43.0


From 23e5ad057e84cc8c7d74d5c6ce3fcd498a940c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:12 +0000
Subject: [PATCH 13/48] fix: included and imported templates keep their own
 functions and can import others

---
 kajiki/ir.py       | 4 ++--
 kajiki/template.py | 4 ++++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/kajiki/ir.py b/kajiki/ir.py
index 95823d4..d1e37e3 100644
--- a/kajiki/ir.py
+++ b/kajiki/ir.py
@@ -114,7 +114,7 @@ class ImportNode(Node):
 
     def py(self):
         yield self.line(
-            'local.__kj__.import_(%r, %r, self.__globals__)' % (
+            'local.__kj__.import_(%r, %r, local.__globals__)' % (
                 self.tpl_name, self.alias))
 
 
@@ -125,7 +125,7 @@ class IncludeNode(Node):
 
     def py(self):
         yield self.line(
-            'yield local.__kj__.import_(%r, None, self.__globals__).__main__()' % (
+            'yield local.__kj__.import_(%r, None, local.__globals__).__main__()' % (
                 self.tpl_name))
 
 
diff --git a/kajiki/template.py b/kajiki/template.py
index d748e4d..581899a 100644
--- a/kajiki/template.py
+++ b/kajiki/template.py
@@ -207,6 +207,10 @@ class _Template(object):
         if alias is None:
             alias = self.loader.default_alias_for(name)
         r = gbls[alias] = tpl_cls(gbls)
+        # It sees the variables of this template, but its functions are its own.
+        r.__globals__['local'] = r
+        for k, _ in r.__methods__:
+            r.__globals__[k] = getattr(r, k)
         return r
 
     def _escape(self, value):
-- 
2.43.0


From 15669f15e18a00ea8551dce153ba1502385342d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:44 +0000
Subject: [PATCH 14/48] fix: text templates can be included and imported
 through a FileLoader

---
 kajiki/text.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kajiki/text.py b/kajiki/text.py
index a985d43..007d393 100644
--- a/kajiki/text.py
+++ b/kajiki/text.py
@@ -51,7 +51,8 @@ _re_pattern = re.compile(_pattern, re.VERBOSE | re.IGNORECASE | re.MULTILINE)
 
 
 def TextTemplate(source=None, filename=None, autoescape=False,
-                 encoding='utf-8'):
+                 encoding='utf-8', is_fragment=False):
+    # Templates are included with *is_fragment*; text has no doctype to leave out.
     assert source or filename, "You must either provide a *source* argument " \
         "or a *filename* argument to TextTemplate()."
     if source is None:
-- 
2.43.0


From b6d93a3f7f4434614dbbb267dd2e8dea1f19dd57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:08 +0000
Subject: [PATCH 15/48] fix: including a template does not redefine the
 variable named like its file

---
 kajiki/ir.py       |  2 +-
 kajiki/template.py | 11 ++++++++---
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/kajiki/ir.py b/kajiki/ir.py
index d1e37e3..c72265e 100644
--- a/kajiki/ir.py
+++ b/kajiki/ir.py
@@ -125,7 +125,7 @@ class IncludeNode(Node):
 
     def py(self):
         yield self.line(
-            'yield local.__kj__.import_(%r, None, local.__globals__).__main__()' % (
+            'yield local.__kj__.include(%r, local.__globals__).__main__()' % (
                 self.tpl_name))
 
 
diff --git a/kajiki/template.py b/kajiki/template.py
index 581899a..b066e08 100644
--- a/kajiki/template.py
+++ b/kajiki/template.py
@@ -81,6 +81,7 @@ class _Template(object):
             pop_switch=self._pop_switch,
             case=self._case,
             import_=self._import,
+            include=self._include,
             escape=self._escape,
             gettext=self._gettext,
             render_attrs=self._render_attrs,
@@ -196,6 +197,12 @@ class _Template(object):
         return obj == self._switch_stack[-1]
 
     def _import(self, name, alias, gbls):
+        if alias is None:
+            alias = self.loader.default_alias_for(name)
+        r = gbls[alias] = self._include(name, gbls)
+        return r
+
+    def _include(self, name, gbls):
         # Load template as a fragment to avoid extra <DOCTYPE> in included output.
         # Due to loader cache, this has the side effect that if the same
         # template is both included and used as a standalone page
@@ -204,9 +211,7 @@ class _Template(object):
         # Also there is no way to set a template as a fragment once loaded. 
         # So we can only do it through the loader.
         tpl_cls = self.loader.import_(name, is_fragment=True)
-        if alias is None:
-            alias = self.loader.default_alias_for(name)
-        r = gbls[alias] = tpl_cls(gbls)
+        r = tpl_cls(gbls)
         # It sees the variables of this template, but its functions are its own.
         r.__globals__['local'] = r
         for k, _ in r.__methods__:
-- 
2.43.0


From 3c11c9f63624ac2c681844e2af01b30603375142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:00 +0000
Subject: [PATCH 16/48] fix: a template whose file was removed is unknown
 instead of raising TypeError

---
 kajiki/loader.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/kajiki/loader.py b/kajiki/loader.py
index b120fa2..ffdf9a3 100644
--- a/kajiki/loader.py
+++ b/kajiki/loader.py
@@ -72,8 +72,9 @@ class FileLoader(Loader):
     def import_(self, name, *args, **kwargs):
         filename = self._filename(name)
         if self._reload and name in self.modules:
-            mtime = os.stat(filename).st_mtime
-            if mtime > self._timestamps.get(name, 0):
+            if filename is None:
+                del self.modules[name]  # the file is gone
+            elif os.stat(filename).st_mtime > self._timestamps.get(name, 0):
                 del self.modules[name]
         return super(FileLoader, self).import_(name, *args, **kwargs)
 
-- 
2.43.0


From 966f751a900271cef07fd7cc8c31333c6559d913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:00 +0000
Subject: [PATCH 17/48] fix: xml_autoblocks of a FileLoader also apply without
 force_mode

---
 kajiki/loader.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kajiki/loader.py b/kajiki/loader.py
index ffdf9a3..8aacb8c 100644
--- a/kajiki/loader.py
+++ b/kajiki/loader.py
@@ -101,6 +101,8 @@ class FileLoader(Loader):
                                *args, **options)
         else:
             ext = os.path.splitext(filename)[1][1:]
+            if self._xml_autoblocks and ext != 'txt':
+                options.setdefault('autoblocks', self._xml_autoblocks)
             return self.extension_map[ext](
                 source=None, filename=filename, *args, **options)
 
-- 
2.43.0


From 3d7daee54084305c0efae4b31bad16a18f6eed0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:22 +0000
Subject: [PATCH 18/48] fix: FileLoader reads text templates in the encoding it
 is given

---
 kajiki/loader.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/kajiki/loader.py b/kajiki/loader.py
index 8aacb8c..a6591a8 100644
--- a/kajiki/loader.py
+++ b/kajiki/loader.py
@@ -92,7 +92,7 @@ class FileLoader(Loader):
             raise IOError('Unknown template %r' % name)
         self._timestamps[name] = os.stat(filename).st_mtime
         if self._force_mode == 'text':
-            return TextTemplate(filename=filename,
+            return TextTemplate(filename=filename, encoding=encoding,
                 autoescape=self._autoescape_text, *args, **options)
         elif self._force_mode:
             return XMLTemplate(filename=filename,
@@ -101,7 +101,9 @@ class FileLoader(Loader):
                                *args, **options)
         else:
             ext = os.path.splitext(filename)[1][1:]
-            if self._xml_autoblocks and ext != 'txt':
+            if ext == 'txt':
+                options['encoding'] = encoding
+            elif self._xml_autoblocks:
                 options.setdefault('autoblocks', self._xml_autoblocks)
             return self.extension_map[ext](
                 source=None, filename=filename, *args, **options)
-- 
2.43.0


From 69528099f435de93f2eba540a71a8f33883093ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:44:33 +0000
Subject: [PATCH 19/48] fix: text templates: an else belongs to the innermost
 if or switch that is open

---
 kajiki/text.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/kajiki/text.py b/kajiki/text.py
index 007d393..235e05e 100644
--- a/kajiki/text.py
+++ b/kajiki/text.py
@@ -248,6 +248,8 @@ class _Parser(object):
         body = list(self._parse_body('end', 'else'))
         stoptok = body[-1]
         if stoptok.tagname == 'else':
+            # It must not end an enclosing if or case.
+            stoptok.tagname = 'if_else'
             self.push_tok(stoptok)
         return ir.IfNode(token.body, *body[:-1])
 
@@ -256,8 +258,11 @@ class _Parser(object):
         return ir.ForNode(token.body, *body[:-1])
 
     def _parse_switch(self, token):
-        body = list(self._parse_body('end'))
-        return ir.SwitchNode(token.body, *body[:-1])
+        body = list(self._parse_body('else', 'end'))
+        stoptok = body.pop()
+        if stoptok is not None and stoptok.tagname == 'else':
+            body.append(self._parse_else(stoptok))  # up to the end of the switch
+        return ir.SwitchNode(token.body, *body)
 
     def _parse_case(self, token):
         body = list(self._parse_body('case', 'else', 'end'))
@@ -269,6 +274,8 @@ class _Parser(object):
         body = list(self._parse_body('end'))
         return ir.ElseNode(*body[:-1])
 
+    _parse_if_else = _parse_else
+
     def _parse_extends(self, token):
         parts = shlex_split(token.body)
         fn = parts[0]
-- 
2.43.0


From ac401d128be5d4c24b73dbb853c3e1e0a64457c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:44:36 +0000
Subject: [PATCH 20/48] fix: text templates: white space between a switch and
 its first case is ignored

---
 kajiki/text.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kajiki/text.py b/kajiki/text.py
index 235e05e..325c94f 100644
--- a/kajiki/text.py
+++ b/kajiki/text.py
@@ -260,6 +260,8 @@ class _Parser(object):
     def _parse_switch(self, token):
         body = list(self._parse_body('else', 'end'))
         stoptok = body.pop()
+        while body and isinstance(body[0], ir.TextNode) and not body[0].text.strip():
+            del body[0]
         if stoptok is not None and stoptok.tagname == 'else':
             body.append(self._parse_else(stoptok))  # up to the end of the switch
         return ir.SwitchNode(token.body, *body)
-- 
2.43.0


From 71d50e50665f474be678082d387e2da4dde22d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:44:39 +0000
Subject: [PATCH 21/48] fix: text templates: {%- removes white space before a
 tag in the middle of a line too

---
 kajiki/text.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kajiki/text.py b/kajiki/text.py
index 325c94f..e509a7d 100644
--- a/kajiki/text.py
+++ b/kajiki/text.py
@@ -41,7 +41,7 @@ _pattern = r'''
     (?P<tag_bare>[a-z]+) | # %for, %end, etc.
     (?P<tag_bare_invalid>)
 )|
-^\s*{%-(?P<tag_begin_ljust>[a-z]+)|  # {%-for, {%-end, etc.
+(?:^\s*|[ \t]*){%-(?P<tag_begin_ljust>[a-z]+)|  # {%-for, {%-end, etc.
 {%(?:
     (?P<tag_begin>[a-z]+) | # {%for, {%end, etc.
     (?P<tag_begin_invalid>)
-- 
2.43.0


From 178f651090f45ed586d3c89d511605b1bcf0d065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:44:42 +0000
Subject: [PATCH 22/48] fix: text templates may end with a backslash or with
 -%}

---
 kajiki/text.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kajiki/text.py b/kajiki/text.py
index e509a7d..70af85c 100644
--- a/kajiki/text.py
+++ b/kajiki/text.py
@@ -152,7 +152,7 @@ class _Scanner(object):
         self.pos = end + 2
         if body.endswith('-'):
             body = body[:-1]
-            while self.source[self.pos] in ' \t':
+            while self.source[self.pos:self.pos + 1] in (' ', '\t'):
                 self.pos += 1
         return self.tag(tagname, body)
 
@@ -358,7 +358,7 @@ class _Tag(_Token):
 def _unescape_newlines(text):
     i = 0
     while i < len(text):
-        if text[i] == '\\':
+        if text[i] == '\\' and i + 1 < len(text):
             if text[i + 1] != '\n':
                 yield text[i + 1]
             i += 2
-- 
2.43.0


From 467355c101b41e482b8aebf5d9362d62b12e5915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:44:44 +0000
Subject: [PATCH 23/48] fix: text templates: find the end of any braced
 expression and refuse invalid ones

---
 kajiki/text.py | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/kajiki/text.py b/kajiki/text.py
index 70af85c..bb0ad91 100644
--- a/kajiki/text.py
+++ b/kajiki/text.py
@@ -157,15 +157,25 @@ class _Scanner(object):
         return self.tag(tagname, body)
 
     def _get_braced_expr(self):
+        source = self.source[self.pos:]
+        start = len(source) - len(source.lstrip())
+        source = source[start:]
         try:
-            compile(self.source[self.pos:], '', 'eval')
+            compile(source, '', 'eval')
         except SyntaxError as se:
-            end = self.pos + sum([se.offset] + [len(line) + 1
-                                                for idx, line in enumerate(self.source[self.pos:].splitlines())
-                                                if idx < se.lineno - 1])
-            text = self.source[self.pos:end - 1]
-            self.pos = end
-            return self.expr(text)
+            end = sum([se.offset] + [len(line) + 1
+                                     for idx, line in enumerate(source.split('\n'))
+                                     if idx < se.lineno - 1])
+            text = source[:end - 1]
+            try:
+                if source[end - 1:end] == '}' and compile(text, '', 'eval'):
+                    self.pos += start + end
+                    return self.expr(text)
+            except SyntaxError:
+                pass
+        raise kajiki.template.KajikiSyntaxError(
+            'Invalid or unterminated braced expression',
+            self.source, self.filename, self.lineno, 0)
 
 
 class _Parser(object):
-- 
2.43.0


From e5b08c3a199ab22e16cf55c41bb31453369f9ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:44:48 +0000
Subject: [PATCH 24/48] fix: blank lines in and before the code of a Python
 block

---
 kajiki/ir.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kajiki/ir.py b/kajiki/ir.py
index c72265e..4442258 100644
--- a/kajiki/ir.py
+++ b/kajiki/ir.py
@@ -430,6 +430,9 @@ class PythonNode(Node):
             text = text[2:]
         prefix = None
         for line in text.splitlines():
+            if not line.strip() and not line.startswith(prefix or ' '):
+                yield line  # a blank line may lack the indentation
+                continue
             if prefix is None:
                 rest = line.lstrip()
                 prefix = line[:len(line) - len(rest)]
-- 
2.43.0


From 8d59b0d4ef942d108ac107afe91022d679db525e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:51 +0000
Subject: [PATCH 25/48] fix: line numbers more than 127 lines apart, and lines
 that go back

Since Python 3.6 the line increments of co_lnotab are signed bytes.
---
 kajiki/lnotab.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/kajiki/lnotab.py b/kajiki/lnotab.py
index edffbd8..6306682 100644
--- a/kajiki/lnotab.py
+++ b/kajiki/lnotab.py
@@ -49,8 +49,12 @@ expand 300, 300 to 255, 255, 45, 45,
 '''
 
 from __future__ import (absolute_import, division, print_function)
+from sys import version_info
 from nine import IS_PYTHON2
 
+# Since Python 3.6 the line increments are signed.
+SIGNED = version_info >= (3, 6)
+
 if IS_PYTHON2:
     int2byte = chr
     byte2int = ord
@@ -64,24 +68,25 @@ else:
 
 def lnotab(pairs, first_lineno=0):
     """Yields byte integers representing the pairs of integers passed in."""
-    assert first_lineno <= pairs[0][1]
     cur_byte, cur_line = 0, first_lineno
     for byte_off, line_off in pairs:
         byte_delta = byte_off - cur_byte
         line_delta = line_off - cur_line
         assert byte_delta >= 0
-        assert line_delta >= 0
+        if line_delta < 0 and not SIGNED:
+            line_delta = 0
         while byte_delta > 255:
             yield 255  # byte
             yield 0   # line
             byte_delta -= 255
         yield byte_delta
-        while line_delta > 255:
-            yield 255  # line
+        while not -128 <= line_delta <= 127:
+            step = 127 if line_delta > 0 else -128
+            yield step & 255  # line
             yield 0   # byte
-            line_delta -= 255
-        yield line_delta
-        cur_byte, cur_line = byte_off, line_off
+            line_delta -= step
+        yield line_delta & 255
+        cur_byte, cur_line = byte_off, line_off if SIGNED else max(cur_line, line_off)
 
 
 def lnotab_string(pairs, first_lineno=0):
@@ -104,6 +109,8 @@ def lnotab_numbers(lnotab, first_lineno=0):
                 yield cur_byte, cur_line
                 last_line = cur_line
             cur_byte += byte_delta
+        if SIGNED and line_delta > 127:
+            line_delta -= 256
         cur_line += line_delta
     if cur_line != last_line:
         yield cur_byte, cur_line
-- 
2.43.0


From d65c03bc2c1b49a8d491f468f5db3bc6e1bb8933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:54 +0000
Subject: [PATCH 26/48] fix: tracebacks show the lines of functions and blocks
 and of the code after expressions of several lines

Functions are generated after the main code, whose last line they were given,
and every line break inside an expression shifted the lines that follow.
---
 kajiki/template.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/kajiki/template.py b/kajiki/template.py
index b066e08..d60a30a 100644
--- a/kajiki/template.py
+++ b/kajiki/template.py
@@ -331,10 +331,10 @@ def from_ir(ir_node, base_globals=None):
     py_text = '\n'.join(map(str, py_lines))
     py_linenos = []
     last_lineno = 0
-    for i, l in enumerate(py_lines):
-        lno = max(last_lineno, l._lineno or 0)
-        py_linenos.append((i + 1, lno))
-        last_lineno = lno
+    for l in py_lines:
+        last_lineno = lno = l._lineno or last_lineno
+        for i, _ in enumerate(str(l).split('\n')):  # expressions may have several lines
+            py_linenos.append((len(py_linenos) + 1, lno + i))
     dct = dict(kajiki=kajiki)
     try:
         exec(py_text, dct)
-- 
2.43.0


From 714213cf4d08bf9c3adb66c5822fafd9aad84039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:58 +0000
Subject: [PATCH 27/48] fix: tracebacks show the template for inner functions,
 call bodies and attributes too

---
 kajiki/template.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/kajiki/template.py b/kajiki/template.py
index d60a30a..02de82c 100644
--- a/kajiki/template.py
+++ b/kajiki/template.py
@@ -398,7 +398,10 @@ class TplFunc(object):
     def annotate_lnotab(self, filename, py_to_tpl, py_to_tpl_dct):
         if not py_to_tpl:
             return
-        code = self._func.__code__
+        self._func.__code__ = self._annotate_code(
+            self._func.__code__, filename, py_to_tpl_dct)
+
+    def _annotate_code(self, code, filename, py_to_tpl_dct):
         new_lnotab_numbers = []
         for bc_off, py_lno in lnotab.lnotab_numbers(
                 code.co_lnotab, code.co_firstlineno):
@@ -408,23 +411,25 @@ class TplFunc(object):
                 continue
             new_lnotab_numbers.append((bc_off, tpl_lno))
         if not new_lnotab_numbers:
-            return
+            return code
         new_firstlineno = py_to_tpl_dct.get(code.co_firstlineno, 0)
         new_lnotab = lnotab.lnotab_string(new_lnotab_numbers, new_firstlineno)
-        new_code = patch_code_file_lines(
-            code, filename, new_firstlineno, new_lnotab)
-        self._func.__code__ = new_code
-        return
+        # Also the functions inside this one
+        new_consts = tuple(
+            self._annotate_code(c, filename, py_to_tpl_dct)
+            if isinstance(c, types.CodeType) else c for c in code.co_consts)
+        return patch_code_file_lines(
+            code, filename, new_firstlineno, new_lnotab, new_consts)
 
 
 if IS_PYTHON2:
-    def patch_code_file_lines(code, filename, firstlineno, lnotab):
+    def patch_code_file_lines(code, filename, firstlineno, lnotab, consts):
         return types.CodeType(code.co_argcount,
                               code.co_nlocals,
                               code.co_stacksize,
                               code.co_flags,
                               code.co_code,
-                              code.co_consts,
+                              consts,
                               code.co_names,
                               code.co_varnames,
                               filename.encode('utf-8'),
@@ -434,7 +439,7 @@ if IS_PYTHON2:
                               code.co_freevars,
                               code.co_cellvars)
 else:
-    def patch_code_file_lines(code, filename, firstlineno, lnotab):
+    def patch_code_file_lines(code, filename, firstlineno, lnotab, consts):
         code_args = [code.co_argcount]
         if version_info >= (3, 8):
             code_args.append(code.co_posonlyargcount)
@@ -444,7 +449,7 @@ else:
             code.co_stacksize,
             code.co_flags,
             code.co_code,
-            code.co_consts,
+            consts,
             code.co_names,
             code.co_varnames,
             filename,
-- 
2.43.0


From 3e0ee38b858bf393012b816dc18f447c2bc9d3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:02 +0000
Subject: [PATCH 28/48] fix: a failing py:call is reported at its own line, not
 at the end of its body

---
 kajiki/ir.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kajiki/ir.py b/kajiki/ir.py
index 4442258..25a0c5f 100644
--- a/kajiki/ir.py
+++ b/kajiki/ir.py
@@ -196,7 +196,9 @@ class CallNode(HierNode):
         if is_empty:  # In Python, a block without a body is a SyntaxError.
             yield PassNode()
         yield DedentNode()
-        yield self.CallTail(self.call)
+        tail = self.CallTail(self.call)
+        tail.filename, tail.lineno = self.filename, self.lineno
+        yield tail
 
 
 class ForNode(HierNode):
-- 
2.43.0


From 61de64b8504baac59162762973a863fb61752a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:06 +0000
Subject: [PATCH 29/48] fix: text templates: line numbers of directives and
 after blank lines and expressions

---
 kajiki/text.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/kajiki/text.py b/kajiki/text.py
index bb0ad91..03f58c7 100644
--- a/kajiki/text.py
+++ b/kajiki/text.py
@@ -96,12 +96,14 @@ class _Scanner(object):
                 self.pos = mo.end()
                 yield self.text('$')
             elif groups['tag_bare'] is not None:
+                self.lineno += mo.group().count('\n')  # blank lines before it
                 self.pos = mo.end()
                 yield self._get_tag_bare(groups['tag_bare'])
             elif groups['tag_begin'] is not None:
                 self.pos = mo.end()
                 yield self._get_tag(groups['tag_begin'])
             elif groups['tag_begin_ljust'] is not None:
+                self.lineno += mo.group().count('\n')  # blank lines before it
                 self.pos = mo.end()
                 yield self._get_tag(groups['tag_begin_ljust'])
             elif groups['tag_bare_invalid'] is not None:
@@ -128,8 +130,9 @@ class _Scanner(object):
         return _Text(self.filename, self.lineno, text)
 
     def expr(self, text):
+        expr = _Expr(self.filename, self.lineno, text)
         self.lineno += text.count('\n')
-        return _Expr(self.filename, self.lineno, text)
+        return expr
 
     def tag(self, tagname, body):
         tag = _Tag(self.filename, self.lineno, tagname, body)
@@ -141,9 +144,10 @@ class _Scanner(object):
         if end == -1:
             end = len(self.source)
         body = self.source[self.pos:end]
-        self.lineno += 1
         self.pos = end + 1
-        return self.tag(tagname, body)
+        tag = self.tag(tagname, body)
+        self.lineno += 1
+        return tag
 
     def _get_tag(self, tagname):
         end = self.source.find('%}', self.pos)
@@ -169,6 +173,7 @@ class _Scanner(object):
             text = source[:end - 1]
             try:
                 if source[end - 1:end] == '}' and compile(text, '', 'eval'):
+                    self.lineno += self.source[self.pos:self.pos + start].count('\n')
                     self.pos += start + end
                     return self.expr(text)
             except SyntaxError:
@@ -224,7 +229,12 @@ class _Parser(object):
                         yield token
                         break
                     parser = getattr(self, '_parse_%s' % token.tagname)
-                    yield parser(token)
+                    lineno = token.lineno
+                    node = parser(token)
+                    if node is not None and not node.lineno:
+                        node.filename = token.filename
+                        node.lineno = lineno
+                    yield node
                 else:
                     msg = 'Parse error: %r unexpected' % token
                     assert False, msg
-- 
2.43.0


From 443fab9c2955a88343cdfef9d2a6e3c5d4d50bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:31 +0000
Subject: [PATCH 30/48] fix: line breaks at the start of a braced expression
 count as lines

---
 kajiki/xml_template.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/kajiki/xml_template.py b/kajiki/xml_template.py
index a344e8e..d3fecf9 100644
--- a/kajiki/xml_template.py
+++ b/kajiki/xml_template.py
@@ -581,6 +581,7 @@ class _TextCompiler(object):
             if self.escaped:
                 consumed = sax.saxutils.escape(consumed)
             self.pos += len(consumed)
+            self.lineno += source[:start].count('\n')
             return self.expr(py_expr(end - 1))
         else:
             raise XMLTemplateCompileError("Braced expression not terminated",
-- 
2.43.0


From dfe3b6ab3b3be39c32da0aebb8e66f09f981f617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:08 +0000
Subject: [PATCH 31/48] fix: errors quote the template as written, with its own
 doctype

---
 kajiki/xml_template.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kajiki/xml_template.py b/kajiki/xml_template.py
index d3fecf9..aa4cac1 100644
--- a/kajiki/xml_template.py
+++ b/kajiki/xml_template.py
@@ -617,6 +617,7 @@ class _Parser(sax.ContentHandler):
         self._els = []
         self._doc = dom.Document()
         self._filename = filename
+        self._doc._source = source  # as written, for error messages
         # Store the original DTD in the document for the compiler to use later
         self._doc._dtd, position, source = extract_dtd(source)
         # Use our own DTD just for XML parsing, as many lines long as the original
@@ -646,12 +647,11 @@ class _Parser(sax.ContentHandler):
         try:
             parser.parse(source)
         except SAXParseException as e:
-            exc = XMLTemplateParseError(e.getMessage(), self._source, self._filename,
+            exc = XMLTemplateParseError(e.getMessage(), self._doc._source, self._filename,
                                         e.getLineNumber(), e.getColumnNumber())
             exc.__cause__ = None
             raise exc
 
-        self._doc._source = self._source
         return self._doc
 
     # ContentHandler implementation
-- 
2.43.0


From d9571bf1e047acea3a268aef260533c1133e5b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:12 +0000
Subject: [PATCH 32/48] fix: only line breaks separate the lines that errors
 quote

---
 kajiki/template.py     | 2 +-
 kajiki/xml_template.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/kajiki/template.py b/kajiki/template.py
index 02de82c..f4fca0c 100644
--- a/kajiki/template.py
+++ b/kajiki/template.py
@@ -488,6 +488,6 @@ class KajikiSyntaxError(Exception):
             return ''
 
         try:
-            return source.splitlines()[linen]
+            return re.split('\r\n|\r|\n', source)[linen]
         except:
             return ''
diff --git a/kajiki/xml_template.py b/kajiki/xml_template.py
index aa4cac1..6d01381 100644
--- a/kajiki/xml_template.py
+++ b/kajiki/xml_template.py
@@ -945,7 +945,7 @@ class XMLTemplateError(Exception):
             return ''
 
         try:
-            return source.splitlines()[linen]
+            return re.split('\r\n|\r|\n', source)[linen]
         except:
             return ''
 
-- 
2.43.0


From c9a8f63cef920a9ad24c230bfcc8486d181b4c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:15 +0000
Subject: [PATCH 33/48] fix: report an unknown entity as a parse error with its
 line instead of KeyError

---
 kajiki/xml_template.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/kajiki/xml_template.py b/kajiki/xml_template.py
index 6d01381..600b05c 100644
--- a/kajiki/xml_template.py
+++ b/kajiki/xml_template.py
@@ -696,6 +696,10 @@ class _Parser(sax.ContentHandler):
             # itself, and we don't want to maintain a separate diff.
             # So just ensure we ask for entities always recorded with trailing semicolon.
             name += ';'
+        if name not in html5:
+            raise XMLTemplateParseError(
+                'undefined entity &' + name, self._doc._source, self._filename,
+                self._parser.getLineNumber(), self._parser.getColumnNumber())
         return self.characters(html5[name])
 
     def startElementNS(self, name, qname, attrs):  # pragma no cover
-- 
2.43.0


From 5f44cc9fa04368e1dc64dcbb1b622c6fa31dd717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:32 +0000
Subject: [PATCH 34/48] fix: CDATA sections directly inside a directive element

cdd1333 made them raise AttributeError.
---
 kajiki/xml_template.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kajiki/xml_template.py b/kajiki/xml_template.py
index 600b05c..8cfc4dc 100644
--- a/kajiki/xml_template.py
+++ b/kajiki/xml_template.py
@@ -381,7 +381,7 @@ class _Compiler(object):
             kwargs['node_type'] = ir.TextNode
 
         tc = _TextCompiler(self.filename, node.data, node.lineno, compiler_instance=self,
-                           escaped=node.escaped, **kwargs)
+                           escaped=getattr(node, 'escaped', False), **kwargs)
         for x in tc:
             yield x
 
-- 
2.43.0


From 1640301f67c376039029a9a4f5e81cfa67c65aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:14 +0000
Subject: [PATCH 35/48] fix: line numbers that go back by 128: PyPy reads that
 byte as positive

---
 kajiki/lnotab.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kajiki/lnotab.py b/kajiki/lnotab.py
index 6306682..57d6fdf 100644
--- a/kajiki/lnotab.py
+++ b/kajiki/lnotab.py
@@ -80,8 +80,8 @@ def lnotab(pairs, first_lineno=0):
             yield 0   # line
             byte_delta -= 255
         yield byte_delta
-        while not -128 <= line_delta <= 127:
-            step = 127 if line_delta > 0 else -128
+        while not -127 <= line_delta <= 127:
+            step = 127 if line_delta > 0 else -127  # PyPy takes -128 for 128
             yield step & 255  # line
             yield 0   # byte
             line_delta -= step
-- 
2.43.0


From 9cb5e86ba935e8c96de780fb673d660ed3ae9126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:57 +0000
Subject: [PATCH 36/48] fix: merge text also when a comment precedes the root
 element

Expressions of several lines were refused there.
---
 kajiki/xml_template.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kajiki/xml_template.py b/kajiki/xml_template.py
index 8cfc4dc..06e58a7 100644
--- a/kajiki/xml_template.py
+++ b/kajiki/xml_template.py
@@ -782,7 +782,7 @@ class _DomTransformer(object):
         Any other node (including CDATA TextNodes) splits runs of TextNodes.
         """
         if isinstance(tree, dom.Document):
-            cls._merge_text_nodes(tree.firstChild)
+            cls._merge_text_nodes(tree.documentElement)
             return tree
         if not isinstance(getattr(tree, 'tagName', None), basestring):
             return tree
-- 
2.43.0


From 7e0a6cba5dbbbd718de7990e94017e7aca393f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:26 +0000
Subject: [PATCH 37/48] fix: directives given as attributes also work when a
 comment precedes the root element

---
 kajiki/xml_template.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kajiki/xml_template.py b/kajiki/xml_template.py
index 06e58a7..de1848b 100644
--- a/kajiki/xml_template.py
+++ b/kajiki/xml_template.py
@@ -886,7 +886,7 @@ class _DomTransformer(object):
         receive the latter.
         """
         if isinstance(tree, dom.Document):
-            cls._expand_directives(tree.firstChild, tree)
+            cls._expand_directives(tree.documentElement, tree)
             return tree
         if not isinstance(getattr(tree, 'tagName', None), basestring):
             return tree
-- 
2.43.0


From 53be8212653fef22e8147c6aa1ff779503089ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:25 +0000
Subject: [PATCH 38/48] fix: evaluate the condition of py:strip once per
 element

It was evaluated again for every attribute and for the end tag, so a condition
whose value changes in between left tags without their counterpart.
---
 kajiki/xml_template.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/kajiki/xml_template.py b/kajiki/xml_template.py
index de1848b..065bbf1 100644
--- a/kajiki/xml_template.py
+++ b/kajiki/xml_template.py
@@ -23,6 +23,7 @@ from .entities import html5, unescape
 from .html_utils import (HTML_OPTIONAL_END_TAGS, HTML_REQUIRED_END_TAGS,
                          HTML_CDATA_TAGS)
 from .markup_template import QDIRECTIVES, QDIRECTIVES_DICT
+from .util import gen_name
 
 impl = dom.getDOMImplementation(' ')
 
@@ -219,7 +220,9 @@ class _Compiler(object):
             if guard == '':  # py:strip="" means yes, do strip the tag
                 guard = 'False'
             else:
-                guard = 'not (%s)' % guard
+                cond, guard = guard, gen_name()
+                yield ir.PythonNode(ir.TextNode(
+                    '%s = not (%s)' % (guard, cond)))
             node.removeAttribute('py:strip')
         yield ir.TextNode('<%s' % node.tagName, guard)
         for k, v in sorted(node.attributes.items()):
-- 
2.43.0


From a94130619617c2038d7d3ce641d14d345a19680e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:32 +0000
Subject: [PATCH 39/48] fix: blank lines at the start of a Python block do not
 set its indentation

---
 kajiki/ir.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kajiki/ir.py b/kajiki/ir.py
index 25a0c5f..0a52e3b 100644
--- a/kajiki/ir.py
+++ b/kajiki/ir.py
@@ -432,7 +432,8 @@ class PythonNode(Node):
             text = text[2:]
         prefix = None
         for line in text.splitlines():
-            if not line.strip() and not line.startswith(prefix or ' '):
+            if not line.strip() and (
+                    prefix is None or not line.startswith(prefix)):
                 yield line  # a blank line may lack the indentation
                 continue
             if prefix is None:
-- 
2.43.0


From a0195956e5c81e92776390e8ef7e2a3ac57dd40d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:06 +0000
Subject: [PATCH 40/48] fix: py:with restores every variable of a tuple
 assignment

---
 kajiki/ir.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kajiki/ir.py b/kajiki/ir.py
index 0a52e3b..8c13105 100644
--- a/kajiki/ir.py
+++ b/kajiki/ir.py
@@ -234,7 +234,8 @@ class WithNode(HierNode):
             assignments.append((lhs, rhs))
 
         self.vars = assignments
-        self.var_names = [l for l, _ in assignments]
+        self.var_names = [name for l, _ in assignments
+                          for name in re.findall(r'[^\s,()*]+', l)]
 
     def py(self):
         yield self.line(
-- 
2.43.0


From 01c7c31d81752d6367342da18e7abc4f656659d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:53 +0000
Subject: [PATCH 41/48] fix: keep the defaults of keyword-only parameters of
 template functions

---
 kajiki/template.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kajiki/template.py b/kajiki/template.py
index f4fca0c..019407c 100644
--- a/kajiki/template.py
+++ b/kajiki/template.py
@@ -391,6 +391,8 @@ class TplFunc(object):
             self._func.__defaults__,
             self._func.__closure__
         )
+        # Defaults of keyword-only parameters (Python 3)
+        func.__kwdefaults__ = getattr(self._func, '__kwdefaults__', None)
         return update_wrapper(
             lambda *a, **kw: flattener(func(*a, **kw)),
             func)
-- 
2.43.0


From 29779af631fdc2cb6df044cc8782e55f39e76af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:13:37 +0000
Subject: [PATCH 42/48] fix: functions, blocks and bodies that output nothing

A template function (or block, call body, or text template) whose content
outputs nothing, such as Python code or another function, was compiled to
an ordinary function instead of a generator: calling it raised
"TypeError: 'NoneType' object is not iterable".
---
 kajiki/ir.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/kajiki/ir.py b/kajiki/ir.py
index 8c13105..67594b3 100644
--- a/kajiki/ir.py
+++ b/kajiki/ir.py
@@ -41,6 +41,12 @@ class PassNode(Node):
         yield self.line('yield ""')
 
 
+class GeneratorNode(Node):
+    def py(self):
+        # Makes the function a generator even if its body yields nothing.
+        yield self.line('if False: yield')
+
+
 class HierNode(Node):
     '''Base for nodes that contain an indented Python block (def, for, if etc.)
     '''
@@ -154,12 +160,11 @@ class DefNode(HierNode):
     def __iter__(self):
         yield self
         yield IndentNode()
-        is_empty = True
         for x in self.body_iter():
             yield x
-            is_empty = False
-        if is_empty:  # In Python, a function without a body is a SyntaxError.
-            yield PassNode()  # Prevent creation of a function without a body
+        tail = GeneratorNode()
+        tail.filename, tail.lineno = self.filename, self.lineno
+        yield tail
         yield DedentNode()
 
 
@@ -189,12 +194,11 @@ class CallNode(HierNode):
     def __iter__(self):
         yield self
         yield IndentNode()
-        is_empty = True
         for x in self.body_iter():
             yield x
-            is_empty = False
-        if is_empty:  # In Python, a block without a body is a SyntaxError.
-            yield PassNode()
+        tail = GeneratorNode()
+        tail.filename, tail.lineno = self.filename, self.lineno
+        yield tail
         yield DedentNode()
         tail = self.CallTail(self.call)
         tail.filename, tail.lineno = self.filename, self.lineno
-- 
2.43.0


From 3d61ed649e36c7810598872bc6041320a7b397ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:22:56 +0000
Subject: [PATCH 43/48] fix: keep characters such as U+2028 in the strings of
 Python blocks

---
 kajiki/ir.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kajiki/ir.py b/kajiki/ir.py
index 67594b3..81f8e46 100644
--- a/kajiki/ir.py
+++ b/kajiki/ir.py
@@ -436,7 +436,8 @@ class PythonNode(Node):
         if text.startswith('#\n'):
             text = text[2:]
         prefix = None
-        for line in text.splitlines():
+        # Only the line breaks of Python; splitlines() knows more of them.
+        for line in re.split('\r\n?|\n', text):
             if not line.strip() and (
                     prefix is None or not line.startswith(prefix)):
                 yield line  # a blank line may lack the indentation
-- 
2.43.0


From 7aae1da64f56d6396ff7ac2e57de585b1325b3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:29 +0000
Subject: [PATCH 44/48] fix: Python blocks without statements

---
 kajiki/ir.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/kajiki/ir.py b/kajiki/ir.py
index 81f8e46..42a262d 100644
--- a/kajiki/ir.py
+++ b/kajiki/ir.py
@@ -64,7 +64,8 @@ class HierNode(Node):
         is_empty = True
         for x in self.body_iter():
             yield x
-            is_empty = False
+            if not isinstance(x, PythonNode):  # may be but a comment
+                is_empty = False
         if is_empty:  # In Python, a block without a body is a SyntaxError.
             yield PassNode()
         yield DedentNode()
@@ -423,7 +424,7 @@ class PythonNode(Node):
             assert isinstance(b, TextNode)
             blocks.append(b.text)
         text = ''.join(blocks)
-        if text[0] == '%':
+        if text.startswith('%'):
             self.module_level = True
             text = text[1:]
         self.lines = list(self._normalize(text))
-- 
2.43.0


From 18ed16d1e8f16ed821f7fadae5698a828513082b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:32 +0000
Subject: [PATCH 45/48] fix: keep backslashes in the Python blocks of text
 templates

---
 kajiki/text.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/kajiki/text.py b/kajiki/text.py
index 03f58c7..22ef41a 100644
--- a/kajiki/text.py
+++ b/kajiki/text.py
@@ -192,6 +192,7 @@ class _Parser(object):
         self.iterator = iter(self.tokenizer)
         self.autoescape = autoescape
         self._in_def = False
+        self._in_py = False
         self._is_child = False
 
     def parse(self):
@@ -201,7 +202,9 @@ class _Parser(object):
         return ir.TemplateNode(self.mod_py, defs)
 
     def text(self, token):
-        text = ''.join(_unescape_newlines(token.text))
+        text = token.text
+        if not self._in_py:
+            text = ''.join(_unescape_newlines(text))
         node = ir.TextNode(text)
         node.filename = token.filename
         node.lineno = token.lineno
@@ -325,7 +328,11 @@ class _Parser(object):
         if body:
             body = [ir.TextNode(body), None]
         else:
+            self._in_py = True
             body = list(self._parse_body('end'))
+            self._in_py = False
+            if body[0] is not None and body[0].text.startswith('\\\n'):
+                body[0].text = body[0].text[2:]
         node = ir.PythonNode(*body[:-1])
         if node.module_level:
             self.mod_py.append(node)
-- 
2.43.0


From 8385f1c723a8c444e5db962f46e16cf99e78ddf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:52 +0000
Subject: [PATCH 46/48] fix: module-level Python blocks of several lines in
 text templates

---
 kajiki/text.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kajiki/text.py b/kajiki/text.py
index 22ef41a..1545c0c 100644
--- a/kajiki/text.py
+++ b/kajiki/text.py
@@ -325,14 +325,16 @@ class _Parser(object):
 
     def _parse_py(self, token):
         body = token.body.strip()
-        if body:
+        if body not in ('', '%'):
             body = [ir.TextNode(body), None]
         else:
+            prefix = ir.TextNode(body)
             self._in_py = True
             body = list(self._parse_body('end'))
             self._in_py = False
             if body[0] is not None and body[0].text.startswith('\\\n'):
                 body[0].text = body[0].text[2:]
+            body.insert(0, prefix)
         node = ir.PythonNode(*body[:-1])
         if node.module_level:
             self.mod_py.append(node)
-- 
2.43.0


From e056c5ab24ca6053ab194858c1525ec44698a147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:21:12 +0000
Subject: [PATCH 47/48] fix: know the XHTML+RDFa doctype

---
 kajiki/doctype.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kajiki/doctype.py b/kajiki/doctype.py
index eba8844..11b87f2 100644
--- a/kajiki/doctype.py
+++ b/kajiki/doctype.py
@@ -62,8 +62,8 @@ class DocumentTypeDeclaration(object):
 
     @reify
     def regex(self):
-        return re.compile(str(self).replace(' ', r'\s+').replace('.', r'\.')
-            .replace('[', r'\[').replace(']', r'\]'), flags=re.IGNORECASE)
+        return re.compile(r'\s+'.join(map(re.escape, str(self).split(' '))),
+            flags=re.IGNORECASE)
 
     by_uri = dict()  # We store the public DTDs here.
 
-- 
2.43.0


From 195ce551638d21614a2e528dcb96e82e8bb405e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:45 +0000
Subject: [PATCH 48/48] fix: template functions that output other things than
 text, in attributes

---
 kajiki/util.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kajiki/util.py b/kajiki/util.py
index 8a68bf6..c128a77 100644
--- a/kajiki/util.py
+++ b/kajiki/util.py
@@ -7,6 +7,8 @@ import sys
 from random import randint
 from threading import local
 
+from nine import str
+
 
 def debug():  # pragma no cover
     def pm(etype, value, tb):
@@ -70,7 +72,7 @@ class flattener(object):
             elif x is None:
                 pass
             else:
-                s += x
+                s += str(x)
         return s
 
     def __iter__(self):
-- 
2.43.0


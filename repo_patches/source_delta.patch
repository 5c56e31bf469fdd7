From 2ec6f8510275656375f6260a8bf5d46222b3d079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:39 +0000
Subject: [PATCH 01/57] fix: skip $ found inside an expression that was already
 consumed (XML)

A $ inside a string literal of a braced expression, as in ${'$x'}, was
matched again after the expression had been consumed.
---
 kajiki/xml_template.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kajiki/xml_template.py b/kajiki/xml_template.py
index 8615804..afdccb2 100644
--- a/kajiki/xml_template.py
+++ b/kajiki/xml_template.py
@@ -513,6 +513,8 @@ class _TextCompiler(object):
         source = self.source
         for mo in self._re_pattern.finditer(source):
             start = mo.start()
+            if start < self.pos:
+                continue  # This $ is inside an expression already consumed.
             if start > self.pos:
                 yield self.text(source[self.pos:start])
             self.pos = start
-- 
2.43.0


From 4092e9ce2cf49ce86944e86450697dcff5cf2152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:39 +0000
Subject: [PATCH 02/57] fix: skip $ and tags found inside an expression or tag
 already consumed (text)

---
 kajiki/text.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kajiki/text.py b/kajiki/text.py
index 1cbe583..d6a4f03 100644
--- a/kajiki/text.py
+++ b/kajiki/text.py
@@ -78,6 +78,8 @@ class _Scanner(object):
         source = self.source
         for mo in _re_pattern.finditer(source):
             start = mo.start()
+            if start < self.pos:
+                continue  # Inside an expression or tag already consumed.
             if start > self.pos:
                 yield self.text(source[self.pos:start])
                 self.pos = start
-- 
2.43.0


From 80be8d6b56a0d8276302efa8fcd12e7e4707ea5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:00 +0000
Subject: [PATCH 03/57] fix: process the root element also when comments or
 instructions precede it

Directives on the root were left in the output when a comment came before
it, and a <?py ?> before the root (as in the documentation) was rejected.
---
 kajiki/xml_template.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/kajiki/xml_template.py b/kajiki/xml_template.py
index afdccb2..2950a19 100644
--- a/kajiki/xml_template.py
+++ b/kajiki/xml_template.py
@@ -116,11 +116,13 @@ class _Compiler(object):
             never be called twice or might lead to unexpected results.
         """
         templateNodes = [n for n in self.doc.childNodes if not isinstance(n, dom.Comment)]
-        if len(templateNodes) != 1:
+        if len([n for n in templateNodes if isinstance(n, dom.Element)]) != 1:
             raise XMLTemplateCompileError('expected a single root node in document',
                                           self.doc, self.filename, 0)
 
-        body = list(self._compile_node(templateNodes[0]))
+        body = []
+        for templateNode in templateNodes:
+            body.extend(self._compile_node(templateNode))
         # Never emit doctypes on fragments
         if not self.is_fragment and not self.is_child:
             if self.doc._dtd:
@@ -762,7 +764,8 @@ class _DomTransformer(object):
         Any other node (including CDATA TextNodes) splits runs of TextNodes.
         """
         if isinstance(tree, dom.Document):
-            cls._merge_text_nodes(tree.firstChild)
+            for child in list(tree.childNodes):
+                cls._merge_text_nodes(child)
             return tree
         if not isinstance(getattr(tree, 'tagName', None), basestring):
             return tree
@@ -866,7 +869,8 @@ class _DomTransformer(object):
         receive the latter.
         """
         if isinstance(tree, dom.Document):
-            cls._expand_directives(tree.firstChild, tree)
+            for child in list(tree.childNodes):
+                cls._expand_directives(child, tree)
             return tree
         if not isinstance(getattr(tree, 'tagName', None), basestring):
             return tree
-- 
2.43.0


From 949db991202daf9d2071ac3a7cf0258a14b9bb88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:40 +0000
Subject: [PATCH 04/57] fix: evaluate the condition of py:strip only once per
 element

It was evaluated separately for the start tag, for each attribute and for
the end tag, so an expression with side effects could give unbalanced tags.
---
 kajiki/xml_template.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/kajiki/xml_template.py b/kajiki/xml_template.py
index 2950a19..8c4ab25 100644
--- a/kajiki/xml_template.py
+++ b/kajiki/xml_template.py
@@ -23,6 +23,7 @@ from .entities import html5, unescape
 from .html_utils import (HTML_OPTIONAL_END_TAGS, HTML_REQUIRED_END_TAGS,
                          HTML_CDATA_TAGS)
 from .markup_template import QDIRECTIVES, QDIRECTIVES_DICT
+from .util import gen_name
 
 impl = dom.getDOMImplementation(' ')
 
@@ -221,7 +222,10 @@ class _Compiler(object):
             if guard == '':  # py:strip="" means yes, do strip the tag
                 guard = 'False'
             else:
-                guard = 'not (%s)' % guard
+                # Evaluate the condition only once, so that the start tag,
+                # the attributes and the end tag always agree.
+                condition, guard = guard, gen_name()
+                yield ir.PythonNode(ir.TextNode('%s = not (%s)' % (guard, condition)))
             node.removeAttribute('py:strip')
         yield ir.TextNode('<%s' % node.tagName, guard)
         for k, v in sorted(node.attributes.items()):
-- 
2.43.0


From 1185e154d0279fc48065328682e74e865ea69f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:10 +0000
Subject: [PATCH 05/57] fix: HTML entities in attribute values and unknown
 entities

Entities in attribute values were silently dropped (SAX does not report
skipped entities there) and unknown ones raised KeyError. Declare the HTML
entities the template uses, so that the XML parser handles all of them.
---
 kajiki/xml_template.py | 38 +++++++++++++++++---------------------
 1 file changed, 17 insertions(+), 21 deletions(-)

diff --git a/kajiki/xml_template.py b/kajiki/xml_template.py
index 8c4ab25..aebc264 100644
--- a/kajiki/xml_template.py
+++ b/kajiki/xml_template.py
@@ -587,18 +587,17 @@ class _Parser(sax.ContentHandler):
     converted into the intermediate representation and
     then to Python Code.
     """
-    DTD = '<!DOCTYPE kajiki SYSTEM "kajiki.dtd">'
+    DTD = '<!DOCTYPE kajiki [%s]>'
 
     def __init__(self, filename, source):
         """XML defines only a few entities; HTML defines many more.
         The XML parser errors out when it finds HTML entities, unless the
-        template contains a reference to an external DTD (in which case
-        skippedEntity() gets called, this is what we want). In other words,
-        we want to trick expat into parsing XML + HTML entities for us.
-        We wouldn't force our users to declare everyday HTML entities!
+        template declares them. We wouldn't force our users to declare
+        everyday HTML entities!
 
         So, for the parsing stage, we detect the doctype in the template and
-        replace it with our own; then in the compiling stage we put the
+        replace it with our own, which declares the HTML entities that appear
+        in the template; then in the compiling stage we put the
         user's doctype back in. The XML parser is thus tricked and nobody
         needs to know this implementation detail of Kajiki.
         """
@@ -611,9 +610,20 @@ class _Parser(sax.ContentHandler):
         # Store the original DTD in the document for the compiler to use later
         self._doc._dtd, position, source = extract_dtd(source)
         # Use our own DTD just for XML parsing
-        self._source = source[:position] + self.DTD + source[position:]
+        self._source = source[:position] + self._get_dtd(source) + source[position:]
         self._cdata_stack = []
 
+    @classmethod
+    def _get_dtd(cls, source):
+        """Return a doctype declaring the HTML entities used in *source*."""
+        entities = []
+        for name in sorted(set(re.findall(r'&(\w+);', source))):
+            # XML itself defines very few entities.
+            if name not in ('amp', 'lt', 'gt', 'quot', 'apos') and name + ';' in html5:
+                entities.append('<!ENTITY %s "%s">' % (
+                    name, ''.join('&#38;#%d;' % ord(char) for char in html5[name + ';'])))
+        return cls.DTD % ''.join(entities)
+
     def parse(self):
         """Parse an XML/HTML document to its DOM representation."""
         self._parser = parser = sax.make_parser()
@@ -674,20 +684,6 @@ class _Parser(sax.ContentHandler):
         node.lineno = self._parser.getLineNumber()
         self._els[-1].appendChild(node)
 
-    def skippedEntity(self, name):
-        # Deals with an HTML entity such as &nbsp; (XML itself defines very few entities.)
-
-        # The presence of a SYSTEM doctype makes expat say "hey, that MIGHT be
-        # a valid entity, better pass it along to sax and find out!"
-        # (Since expat is nonvalidating, it never reads the external doctypes.)
-        if name and name[-1] != ';':
-            # In entities.html5 sometimes the entities are recorded
-            # with/without semicolon. That list is copied from cPython
-            # itself, and we don't want to maintain a separate diff.
-            # So just ensure we ask for entities always recorded with trailing semicolon.
-            name += ';'
-        return self.characters(html5[name])
-
     def startElementNS(self, name, qname, attrs):  # pragma no cover
         raise NotImplementedError('startElementNS')
 
-- 
2.43.0


From 7c9c52a48eb7e41a27efd3fd1809037f0603faa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:25 +0000
Subject: [PATCH 06/57] fix: accept directives whose body is empty

An if, else, for, case or call without content (or with only a <!--! -->
comment in it) was a KajikiSyntaxError.
---
 kajiki/ir.py | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/kajiki/ir.py b/kajiki/ir.py
index 9163723..8c8dee4 100644
--- a/kajiki/ir.py
+++ b/kajiki/ir.py
@@ -52,10 +52,18 @@ class HierNode(Node):
         for x in optimize(flattener(map(flattener, self.body))):
             yield x
 
+    def block_iter(self):
+        is_empty = True
+        for x in self.body_iter():
+            yield x
+            is_empty = False
+        if is_empty:  # In Python, a block without a body is a SyntaxError.
+            yield PassNode()  # Prevent creation of a block without a body
+
     def __iter__(self):
         yield self
         yield IndentNode()
-        for x in self.body_iter():
+        for x in self.block_iter():
             yield x
         yield DedentNode()
 
@@ -147,17 +155,6 @@ class DefNode(HierNode):
         yield self.line(self.prefix)
         yield self.line('def %s:' % (self.decl))
 
-    def __iter__(self):
-        yield self
-        yield IndentNode()
-        is_empty = True
-        for x in self.body_iter():
-            yield x
-            is_empty = False
-        if is_empty:  # In Python, a function without a body is a SyntaxError.
-            yield PassNode()  # Prevent creation of a function without a body
-        yield DedentNode()
-
 
 class InnerDefNode(DefNode):
     prefix = '@__kj__.flattener.decorate'
@@ -185,7 +182,7 @@ class CallNode(HierNode):
     def __iter__(self):
         yield self
         yield IndentNode()
-        for x in self.body_iter():
+        for x in self.block_iter():
             yield x
         yield DedentNode()
         yield self.CallTail(self.call)
-- 
2.43.0


From edb7a682b99a84e383374a9ee4569231084064cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:29 +0000
Subject: [PATCH 07/57] fix: allow template functions that contain no output

A def, block or template made only of Python code or inner definitions
returned None instead of an iterator, so rendering raised TypeError.
---
 kajiki/util.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kajiki/util.py b/kajiki/util.py
index bf91401..11b41cc 100644
--- a/kajiki/util.py
+++ b/kajiki/util.py
@@ -46,6 +46,9 @@ class flattener(object):
     def __init__(self, iterator):
         while type(iterator) == flattener:
             iterator = iterator.iterator
+        if iterator is None:
+            # A template function that doesn't output anything isn't a generator.
+            iterator = iter(())
         self.iterator = iterator
 
     @classmethod
-- 
2.43.0


From f369ad9c43e7eb32a024238dd35462ab042fde71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:47 +0000
Subject: [PATCH 08/57] fix: text templates with a trailing backslash or ending
 in -%}

Both raised IndexError at compile time.
---
 kajiki/text.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kajiki/text.py b/kajiki/text.py
index d6a4f03..973650c 100644
--- a/kajiki/text.py
+++ b/kajiki/text.py
@@ -150,7 +150,7 @@ class _Scanner(object):
         self.pos = end + 2
         if body.endswith('-'):
             body = body[:-1]
-            while self.source[self.pos] in ' \t':
+            while self.source[self.pos:self.pos + 1] in (' ', '\t'):
                 self.pos += 1
         return self.tag(tagname, body)
 
@@ -347,7 +347,7 @@ class _Tag(_Token):
 def _unescape_newlines(text):
     i = 0
     while i < len(text):
-        if text[i] == '\\':
+        if text[i] == '\\' and i + 1 < len(text):
             if text[i + 1] != '\n':
                 yield text[i + 1]
             i += 2
-- 
2.43.0


From 192b1a623e55598a6d34b037d533b2de2b57b273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:15 +0000
Subject: [PATCH 09/57] fix: look for the DOCTYPE only where a document may
 have one

A template with an XML declaration but no DOCTYPE was rejected, because the
internal DTD was put before the declaration, and the text <!DOCTYPE ...>
inside a comment, CDATA section or script was taken for the template's own.
---
 kajiki/doctype.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/kajiki/doctype.py b/kajiki/doctype.py
index 66833d6..d137c5c 100644
--- a/kajiki/doctype.py
+++ b/kajiki/doctype.py
@@ -80,6 +80,10 @@ class DocumentTypeDeclaration(object):
 
     REGEX = re.compile(r'<!DOCTYPE[^>]+>')  # This matches any DTD.
 
+    # What can come before a DTD: white space, the XML declaration, processing
+    # instructions and comments.
+    PROLOG_REGEX = re.compile(r'(?:\s+|<\?.*?\?>|<!--.*?-->)*', flags=re.DOTALL)
+
 
 # Build the public DTDs dictionary
 for dtd in (
@@ -127,7 +131,8 @@ def extract_dtd(markup):
 
     Tries to find any DTD in the string *markup* and returns a tuple
     (dtd_string, position, markup_without_the_DTD). Note the first of
-    these values might be an empty string::
+    these values might be an empty string; then *position* is where a DTD
+    could be inserted::
 
         >>> markup = '''<!DOCTYPE HTML PUBLIC "-//W3C//DTD HTML 4.01 Transitional//EN"
         ...             "http://www.w3.org/TR/html4/loose.dtd">
@@ -145,8 +150,8 @@ def extract_dtd(markup):
         <!DOCTYPE HTML PUBLIC "-//W3C//DTD HTML 4.01 Transitional//EN"
             "http://www.w3.org/TR/html4/loose.dtd">
     """
-    match = DocumentTypeDeclaration.REGEX.search(markup)
+    position = DocumentTypeDeclaration.PROLOG_REGEX.match(markup).end()
+    match = DocumentTypeDeclaration.REGEX.match(markup, position)
     if not match:
-        return '', 0, markup
-    found = match.group()
-    return found, match.start(), markup.replace(found, '', 1)
+        return '', position, markup
+    return match.group(), position, markup[:position] + markup[match.end():]
-- 
2.43.0


From c982513ff128469bee929f1bdcf95be9e81963b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:01 +0000
Subject: [PATCH 10/57] fix: don't translate the markers of a CDATA section
 inside a directive

They were passed to gettext, and extracted, as if they were text.
---
 kajiki/xml_template.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/kajiki/xml_template.py b/kajiki/xml_template.py
index aebc264..63f54c6 100644
--- a/kajiki/xml_template.py
+++ b/kajiki/xml_template.py
@@ -266,10 +266,6 @@ class _Compiler(object):
                         yield ir.TextNode('/*]]>*/')
                 else:
                     for cn in node.childNodes:
-                        # Keep CDATA sections around if declared by user
-                        if getattr(cn, '_cdata', False):
-                            yield ir.TextNode(cn.data)
-                            continue
                         for x in self._compile_node(cn):
                             yield x
                 if not (self.mode.startswith('html')
@@ -380,6 +376,11 @@ class _Compiler(object):
     @annotate
     def _compile_text(self, node):
         """Compile text nodes to their intermediate representation"""
+        if getattr(node, '_cdata', False):
+            # Keep CDATA sections around if declared by user
+            yield ir.TextNode(node.data)
+            return
+
         kwargs = {}
         if node.parentNode and node.parentNode.tagName in HTML_CDATA_TAGS:
             # script and style should always be untranslatable.
-- 
2.43.0


From 9b5a56fff87e6cbdb0af3e2ccf0c61a613d46045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:17 +0000
Subject: [PATCH 11/57] fix: don't escape the code of expressions in text nodes

Text was escaped before the expressions in it were extracted, so any
${...} with >, & or < in it failed to compile (or changed its meaning).
---
 kajiki/xml_template.py | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/kajiki/xml_template.py b/kajiki/xml_template.py
index 63f54c6..2b3ab4a 100644
--- a/kajiki/xml_template.py
+++ b/kajiki/xml_template.py
@@ -19,7 +19,7 @@ from . import ir
 from . import template
 from .ddict import defaultdict
 from .doctype import DocumentTypeDeclaration, extract_dtd
-from .entities import html5, unescape
+from .entities import html5
 from .html_utils import (HTML_OPTIONAL_END_TAGS, HTML_REQUIRED_END_TAGS,
                          HTML_CDATA_TAGS)
 from .markup_template import QDIRECTIVES, QDIRECTIVES_DICT
@@ -252,15 +252,13 @@ class _Compiler(object):
                     # Special behaviour for <script>, <style> tags:
                     if self.mode == 'xml':  # Start escaping
                         yield ir.TextNode('/*<![CDATA[*/')
-                    # Need to unescape the contents of these tags
+                    # The contents of these tags are not escaped
                     for child in node.childNodes:
                         # CDATA for scripts and styles are automatically managed.
                         if getattr(child, '_cdata', False):
                             continue
                         assert isinstance(child, dom.Text)
-                        for x in self._compile_text(child):
-                            if child.escaped:  # If user declared CDATA no escaping happened.
-                                x.text = unescape(x.text)
+                        for x in self._compile_text(child, escape=False):
                             yield x
                     if self.mode == 'xml':  # Finish escaping
                         yield ir.TextNode('/*]]>*/')
@@ -374,7 +372,7 @@ class _Compiler(object):
             *self._compile_nop(node))
 
     @annotate
-    def _compile_text(self, node):
+    def _compile_text(self, node, escape=True):
         """Compile text nodes to their intermediate representation"""
         if getattr(node, '_cdata', False):
             # Keep CDATA sections around if declared by user
@@ -386,7 +384,8 @@ class _Compiler(object):
             # script and style should always be untranslatable.
             kwargs['node_type'] = ir.TextNode
 
-        tc = _TextCompiler(self.filename, node.data, node.lineno, compiler_instance=self, **kwargs)
+        tc = _TextCompiler(self.filename, node.data, node.lineno, compiler_instance=self,
+                           escape=escape and node.escaped, **kwargs)
         for x in tc:
             yield x
 
@@ -478,7 +477,8 @@ class _TextCompiler(object):
     instances and :class:`.ir.TextNode` instances accordingly.
     """
     def __init__(self, filename, source, lineno,
-                 node_type=make_text_node, in_html_attr=False, compiler_instance=None):
+                 node_type=make_text_node, in_html_attr=False, compiler_instance=None,
+                 escape=False):
         self.filename = filename
         self.source = source
         self.orig_lineno = lineno
@@ -487,10 +487,12 @@ class _TextCompiler(object):
         self.node_type = node_type
         self.in_html_attr = in_html_attr
         self.compiler_instance = compiler_instance
+        self.escape = escape
         self.doc = self.compiler_instance.doc
 
     def text(self, text):
-        node = self.node_type(text)
+        # Only the text is escaped, never the code of the expressions around it.
+        node = self.node_type(sax.saxutils.escape(text) if self.escape else text)
         node.lineno = self.real_lineno
         self.lineno += text.count('\n')
         return node
@@ -672,12 +674,9 @@ class _Parser(sax.ContentHandler):
         assert name == popped.tagName
 
     def characters(self, content):
-        should_escape = not self._cdata_stack
-        if should_escape:
-            content = sax.saxutils.escape(content)
         node = self._doc.createTextNode(content)
         node.lineno = self._parser.getLineNumber()
-        node.escaped = should_escape
+        node.escaped = not self._cdata_stack  # Must be escaped in the output?
         self._els[-1].appendChild(node)
 
     def processingInstruction(self, target, data):
-- 
2.43.0


From d680055227d74eabdbc6e504e391811e63b21c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:52 +0000
Subject: [PATCH 12/57] fix: allow a literal to be output more than once

literal() and Markup() returned a one-shot iterator, so that only the first
use of the same value was rendered, and one holding anything but a string
raised TypeError in an attribute.
---
 kajiki/util.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/kajiki/util.py b/kajiki/util.py
index 11b41cc..2ba1c15 100644
--- a/kajiki/util.py
+++ b/kajiki/util.py
@@ -7,6 +7,8 @@ import sys
 from random import randint
 from threading import local
 
+from nine import str
+
 
 def debug():  # pragma no cover
     def pm(etype, value, tb):
@@ -61,7 +63,7 @@ class flattener(object):
         if type(self.iterator) == flattener:
             return self.iterator.accumulate_str()
         s = ''
-        iter_stack = [self.iterator]
+        iter_stack = [iter(self.iterator)]
         while iter_stack:
             try:
                 x = next(iter_stack[-1])
@@ -69,11 +71,11 @@ class flattener(object):
                 iter_stack.pop()
                 continue
             if type(x) == flattener:
-                iter_stack.append(x.iterator)
+                iter_stack.append(iter(x.iterator))
             elif x is None:
                 pass
             else:
-                s += x
+                s += str(x)
         return s
 
     def __iter__(self):
@@ -87,7 +89,8 @@ class flattener(object):
 
 
 def literal(text):
-    return flattener(iter([text]))
+    # Not an iterator, so that the same literal can be output many times.
+    return flattener([text])
 
 
 class NameGen(object):
-- 
2.43.0


From 275f838ee2899e6c0ffc31da633c84b98495297b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:18 +0000
Subject: [PATCH 13/57] fix: safe content in attribute values

In py:attrs, a literal or the output of a function was rendered as the repr
of an object, and an object with __html__ could close the attribute. In an
ordinary attribute the output of a function was escaped twice.
---
 kajiki/template.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/kajiki/template.py b/kajiki/template.py
index 29f7555..dad9a51 100644
--- a/kajiki/template.py
+++ b/kajiki/template.py
@@ -243,19 +243,24 @@ class _Template(object):
                 if mode.startswith('html') and k in HTML_EMPTY_ATTRS:
                     yield ' ' + k.lower()
                 else:
-                    yield ' %s="%s"' % (k, self._escape(v))
+                    yield ' %s="%s"' % (k, self._escape_attr(v))
+
+    def _escape_attr(self, value):
+        """Escape a value for use inside a double-quoted attribute.
+
+        Content that was already escaped isn't escaped twice, but it must not
+        be able to close the attribute.
+        """
+        value = self._escape(value)
+        if isinstance(value, flattener):
+            value = value.accumulate_str()
+        return str(value).replace('<', '&lt;').replace('>', '&gt;') \
+            .replace('"', '&quot;')
 
     def _collect(self, it):
-        result = []
-        for part in it:
-            if part is None:
-                continue
-            if isinstance(part, flattener):
-                result.append(str(part.accumulate_str()))
-            else:
-                result.append(str(part))
+        result = [self._escape_attr(part) for part in it if part is not None]
         if result:
-            return ''.join(result)
+            return literal(''.join(result))
         else:
             return None
 
-- 
2.43.0


From 88a43e1e6873c15b05651ce5f3e4e5c8d94a92b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:22 +0000
Subject: [PATCH 14/57] fix: include and import of text templates through a
 FileLoader

TextTemplate did not accept the is_fragment argument that is always passed.
---
 kajiki/text.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kajiki/text.py b/kajiki/text.py
index 973650c..e906f35 100644
--- a/kajiki/text.py
+++ b/kajiki/text.py
@@ -51,7 +51,9 @@ _re_pattern = re.compile(_pattern, re.VERBOSE | re.IGNORECASE | re.MULTILINE)
 
 
 def TextTemplate(source=None, filename=None, autoescape=False,
-                 encoding='utf-8'):
+                 encoding='utf-8', is_fragment=False):
+    # *is_fragment* makes no difference for text, but loaders pass it to
+    # any kind of template when it is included or imported.
     assert source or filename, "You must either provide a *source* argument " \
         "or a *filename* argument to TextTemplate()."
     if source is None:
-- 
2.43.0


From 3e4f5b570f9b9569f8f3341657fa13c3ae6c36b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:52 +0000
Subject: [PATCH 15/57] fix: reload files whose modification time moved
 backwards or that are gone

Replacing a template by an older file was not noticed, and removing it gave
TypeError instead of the IOError for an unknown template.
---
 kajiki/loader.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kajiki/loader.py b/kajiki/loader.py
index b120fa2..f5f9e88 100644
--- a/kajiki/loader.py
+++ b/kajiki/loader.py
@@ -72,8 +72,10 @@ class FileLoader(Loader):
     def import_(self, name, *args, **kwargs):
         filename = self._filename(name)
         if self._reload and name in self.modules:
+            if filename is None:  # The file is gone.
+                raise IOError('Unknown template %r' % name)
             mtime = os.stat(filename).st_mtime
-            if mtime > self._timestamps.get(name, 0):
+            if mtime != self._timestamps.get(name, 0):
                 del self.modules[name]
         return super(FileLoader, self).import_(name, *args, **kwargs)
 
-- 
2.43.0


From eb4bb12735bd1294b3d9a0eb8936617aa54d102c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:55 +0000
Subject: [PATCH 16/57] fix: make FileLoader.import_ safe for use by several
 threads

Concurrent reloads of the same template could raise KeyError, or leave the
old version of a template cached with the time stamp of the new one.
---
 kajiki/loader.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/kajiki/loader.py b/kajiki/loader.py
index f5f9e88..1408cff 100644
--- a/kajiki/loader.py
+++ b/kajiki/loader.py
@@ -5,6 +5,7 @@ from __future__ import (absolute_import, division, print_function,
 from nine import basestring, itervalues
 import os
 import pkg_resources
+from threading import RLock
 
 
 class Loader(object):
@@ -49,6 +50,7 @@ class FileLoader(Loader):
             self.path = path.split(';')
         else:
             self.path = path
+        self._lock = RLock()
         self._timestamps = {}
         self._reload = reload
         self._force_mode = force_mode
@@ -70,14 +72,15 @@ class FileLoader(Loader):
         return None
 
     def import_(self, name, *args, **kwargs):
-        filename = self._filename(name)
-        if self._reload and name in self.modules:
-            if filename is None:  # The file is gone.
-                raise IOError('Unknown template %r' % name)
-            mtime = os.stat(filename).st_mtime
-            if mtime != self._timestamps.get(name, 0):
-                del self.modules[name]
-        return super(FileLoader, self).import_(name, *args, **kwargs)
+        with self._lock:
+            filename = self._filename(name)
+            if self._reload and name in self.modules:
+                if filename is None:  # The file is gone.
+                    raise IOError('Unknown template %r' % name)
+                mtime = os.stat(filename).st_mtime
+                if mtime != self._timestamps.get(name, 0):
+                    del self.modules[name]
+            return super(FileLoader, self).import_(name, *args, **kwargs)
 
     def _load(self, name, encoding='utf-8', *args, **kwargs):
         '''Text templates are read in text mode and XML templates are read in
-- 
2.43.0


From 7078acbab9cae1b5da1374728dc5beee0a69abd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:59 +0000
Subject: [PATCH 17/57] fix: record time stamps in the Pyramid loader

With auto_reload every call parsed the template again, because the time
stamps it compares with were never set.
---
 kajiki/integration/pyramid.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/kajiki/integration/pyramid.py b/kajiki/integration/pyramid.py
index b8a3779..6be494d 100644
--- a/kajiki/integration/pyramid.py
+++ b/kajiki/integration/pyramid.py
@@ -72,6 +72,7 @@ class PyramidKajikiLoader(Loader):
 
     def _load(self, name, *a, **kw):
         '''Called when the template actually needs to be (re)compiled.'''
+        self._timestamps[name] = stat(name).st_mtime
         return XMLTemplate(source=None, filename=name,
                            mode=self.mode, *a, **kw)
 
-- 
2.43.0


From 3610750d974e66b67e4b46a9ff9544e072f09f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:59 +0000
Subject: [PATCH 18/57] fix: missing import of basestring in the TurboGears 1
 plugin

---
 kajiki/integration/turbogears1.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kajiki/integration/turbogears1.py b/kajiki/integration/turbogears1.py
index 39a39b6..2f69ffd 100644
--- a/kajiki/integration/turbogears1.py
+++ b/kajiki/integration/turbogears1.py
@@ -14,6 +14,8 @@ other versions.
 
 """
 
+from nine import basestring
+
 from kajiki import PackageLoader
 from kajiki.xml_template import XMLTemplate
 
-- 
2.43.0


From fa274ad35e0e90631ba1cdb866d7c7544d48381a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:07 +0000
Subject: [PATCH 19/57] fix: functions inherited from a template more than one
 level up

A template could not call a function defined only by the parent of its
parent, neither by name nor through self and local.
---
 kajiki/template.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/kajiki/template.py b/kajiki/template.py
index dad9a51..0a85af1 100644
--- a/kajiki/template.py
+++ b/kajiki/template.py
@@ -59,6 +59,7 @@ class _Template(object):
     loader = None
     base_globals = None
     filename = None
+    _child = None  # The instance that extends this one.
 
     def __init__(self, context=None):
         if context is None:
@@ -151,16 +152,20 @@ class _Template(object):
                 continue
             if not isinstance(v, TplFunc):
                 continue
-            if k not in self.__globals__:
-                self.__globals__[k] = v
-            if not hasattr(self, k):
-                def _(k=k):
-                    '''Capture the 'k' variable in a closure'''
-                    def trampoline(*a, **kw):
-                        global parent
-                        return getattr(parent, k)(*a, **kw)
-                    return trampoline
-                setattr(self, k, TplFunc(_()).bind_instance(self))
+            heir = self
+            while heir is not None:
+                if k not in heir.__globals__:
+                    heir.__globals__[k] = v
+                if not hasattr(heir, k):
+                    def _(k=k):
+                        '''Capture the 'k' variable in a closure'''
+                        def trampoline(*a, **kw):
+                            global parent
+                            return getattr(parent, k)(*a, **kw)
+                        return trampoline
+                    setattr(heir, k, TplFunc(_()).bind_instance(heir))
+                heir = heir._child
+        p_inst._child = self
         p_globals['child'] = self
         p_globals['local'] = p_inst
         p_globals['self'] = self.__globals__['self']
-- 
2.43.0


From ed9d226973fa18b6eac69262b260922c7635232b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:24 +0000
Subject: [PATCH 20/57] fix: line numbers in the tracebacks of errors raised by
 templates

The line of any error in a py:def or py:block was reported as one past the
end of the main template, gaps of more than 127 lines and expressions that
span lines broke the line number table, and functions nested in others
lacked the file name. Let Python's own compiler build the table.
---
 kajiki/ir.py           |   4 +-
 kajiki/lnotab.py       | 109 -----------------------------------------
 kajiki/template.py     | 102 ++++++++++----------------------------
 kajiki/xml_template.py |   2 +
 4 files changed, 30 insertions(+), 187 deletions(-)
 delete mode 100644 kajiki/lnotab.py

diff --git a/kajiki/ir.py b/kajiki/ir.py
index 8c8dee4..d4f66b1 100644
--- a/kajiki/ir.py
+++ b/kajiki/ir.py
@@ -185,7 +185,9 @@ class CallNode(HierNode):
         for x in self.block_iter():
             yield x
         yield DedentNode()
-        yield self.CallTail(self.call)
+        tail = self.CallTail(self.call)
+        tail.filename, tail.lineno = self.filename, self.lineno
+        yield tail
 
 
 class ForNode(HierNode):
diff --git a/kajiki/lnotab.py b/kajiki/lnotab.py
deleted file mode 100644
index edffbd8..0000000
--- a/kajiki/lnotab.py
+++ /dev/null
@@ -1,109 +0,0 @@
-# -*- coding: utf-8 -*-
-
-'''Comment copied from Python/compile.c:
-
-All about a_lnotab.
-
-c_lnotab is an array of unsigned bytes disguised as a Python string.
-It is used to map bytecode offsets to source code line #s (when needed
-for tracebacks).
-
-The array is conceptually a list of
-    (bytecode offset increment, line number increment)
-pairs. The details are important and delicate, best illustrated by example:
-
-    byte code offset   source code line number
-       0                   1
-       6                   2
-      50                   7
-     350                 307
-     361                 308
-
-The first trick is that these numbers aren't stored, only the increments
-from one row to the next (this doesn't really work, but it's a start):
-
-    0, 1,  6, 1,  44, 5,  300, 300,  11, 1
-
-The second trick is that an unsigned byte can't hold negative values, or
-values larger than 255, so (a) there's a deep assumption that byte code
-offsets and their corresponding line #s both increase monotonically, and (b)
-if at least one column jumps by more than 255 from one row to the next, more
-than one pair is written to the table. In case #b, there's no way to know
-from looking at the table later how many were written.	That's the delicate
-part.  A user of c_lnotab desiring to find the source line number
-corresponding to a bytecode address A should do something like this
-
-    lineno = addr = 0
-    for addr_incr, line_incr in c_lnotab:
-        addr += addr_incr
-        if addr > A:
-            return lineno
-        lineno += line_incr
-
-In order for this to work, when the addr field increments by more than 255,
-the line # increment in each pair generated must be 0 until the remaining addr
-increment is < 256.  So, in the example above, assemble_lnotab (it used
-to be called com_set_lineno) should not (as was actually done until 2.2)
-expand 300, 300 to 255, 255, 45, 45,
-            but to 255,   0, 45, 255, 0, 45.
-'''
-
-from __future__ import (absolute_import, division, print_function)
-from nine import IS_PYTHON2
-
-if IS_PYTHON2:
-    int2byte = chr
-    byte2int = ord
-else:
-    def int2byte(i):
-        return bytes([i])
-
-    def byte2int(b):
-        return b
-
-
-def lnotab(pairs, first_lineno=0):
-    """Yields byte integers representing the pairs of integers passed in."""
-    assert first_lineno <= pairs[0][1]
-    cur_byte, cur_line = 0, first_lineno
-    for byte_off, line_off in pairs:
-        byte_delta = byte_off - cur_byte
-        line_delta = line_off - cur_line
-        assert byte_delta >= 0
-        assert line_delta >= 0
-        while byte_delta > 255:
-            yield 255  # byte
-            yield 0   # line
-            byte_delta -= 255
-        yield byte_delta
-        while line_delta > 255:
-            yield 255  # line
-            yield 0   # byte
-            line_delta -= 255
-        yield line_delta
-        cur_byte, cur_line = byte_off, line_off
-
-
-def lnotab_string(pairs, first_lineno=0):
-    return b"".join(int2byte(b) for b in lnotab(pairs, first_lineno))
-
-
-def byte_pairs(lnotab):
-    """Yield pairs of integers from a string."""
-    for i in range(0, len(lnotab), 2):
-        yield byte2int(lnotab[i]), byte2int(lnotab[i + 1])
-
-
-def lnotab_numbers(lnotab, first_lineno=0):
-    """Yields the byte, line offset pairs from a packed lnotab string."""
-    last_line = None
-    cur_byte, cur_line = 0, first_lineno
-    for byte_delta, line_delta in byte_pairs(lnotab):
-        if byte_delta:
-            if cur_line != last_line:
-                yield cur_byte, cur_line
-                last_line = cur_line
-            cur_byte += byte_delta
-        cur_line += line_delta
-    if cur_line != last_line:
-        yield cur_byte, cur_line
diff --git a/kajiki/template.py b/kajiki/template.py
index 0a85af1..2a9b328 100644
--- a/kajiki/template.py
+++ b/kajiki/template.py
@@ -2,10 +2,10 @@
 
 from __future__ import (absolute_import, division, print_function,
                         unicode_literals)
+import ast
 import re
 import types
-from nine import IS_PYTHON2, basestring, str, iteritems
-from sys import version_info
+from nine import basestring, str, iteritems
 
 try:
     from functools import update_wrapper
@@ -23,7 +23,6 @@ import kajiki
 from .util import flattener, literal
 from .html_utils import HTML_EMPTY_ATTRS
 from .ir import generate_python
-from . import lnotab
 from kajiki import i18n
 
 
@@ -269,11 +268,6 @@ class _Template(object):
         else:
             return None
 
-    @classmethod
-    def annotate_lnotab(cls, py_to_tpl):
-        for name, meth in cls.__methods__:
-            meth.annotate_lnotab(cls.filename, py_to_tpl, dict(py_to_tpl))
-
     def defined(self, name):
         """Check if a variable was provided to the template or not"""
         return name in self._context
@@ -322,15 +316,10 @@ def from_ir(ir_node, base_globals=None):
         base_globals = dict()
     py_lines = list(generate_python(ir_node))
     py_text = '\n'.join(map(str, py_lines))
-    py_linenos = []
-    last_lineno = 0
-    for i, l in enumerate(py_lines):
-        lno = max(last_lineno, l._lineno or 0)
-        py_linenos.append((i + 1, lno))
-        last_lineno = lno
     dct = dict(kajiki=kajiki)
     try:
-        exec(py_text, dct)
+        compile(py_text, '<string>', 'exec')
+        exec(_compile_with_linenos(py_text, py_lines, ir_node.filename), dct)
     except (SyntaxError, IndentationError) as e:  # pragma no cover
         raise KajikiSyntaxError(e.msg, py_text, e.filename, e.lineno, e.offset)
     tpl = dct['template']
@@ -338,10 +327,30 @@ def from_ir(ir_node, base_globals=None):
     tpl.base_globals.update(dct)
     tpl.py_text = py_text
     tpl.filename = ir_node.filename
-    tpl.annotate_lnotab(py_linenos)
     return tpl
 
 
+def _compile_with_linenos(py_text, py_lines, filename):
+    """Compile the Python code so that it refers to the lines of the template.
+
+    The code object of each function in it, nested ones included, gets the
+    *filename* of the template and the line numbers found in *py_lines*.
+    """
+    linenos = [1]  # Template line of each line of py_text, which count from 1
+    for py_line in py_lines:
+        lineno = py_line._lineno or linenos[-1]
+        # The code of an expression can span many lines
+        linenos.extend(
+            lineno + i for i in range(len(re.findall('\r\n?|\n', str(py_line))) + 1))
+    tree = compile(py_text, filename, 'exec', ast.PyCF_ONLY_AST)
+    for node in ast.walk(tree):
+        if hasattr(node, 'lineno'):
+            node.lineno = linenos[node.lineno]
+        if getattr(node, 'end_lineno', None):
+            node.end_lineno = max(node.lineno, linenos[node.end_lineno])
+    return compile(tree, filename, 'exec')
+
+
 class TplFunc(object):
     """A template function attached to a _Template.
 
@@ -388,67 +397,6 @@ class TplFunc(object):
             lambda *a, **kw: flattener(func(*a, **kw)),
             func)
 
-    def annotate_lnotab(self, filename, py_to_tpl, py_to_tpl_dct):
-        if not py_to_tpl:
-            return
-        code = self._func.__code__
-        new_lnotab_numbers = []
-        for bc_off, py_lno in lnotab.lnotab_numbers(
-                code.co_lnotab, code.co_firstlineno):
-            tpl_lno = py_to_tpl_dct.get(py_lno, None)
-            if tpl_lno is None:
-                print('ERROR LOOKING UP LINE #%d' % py_lno)
-                continue
-            new_lnotab_numbers.append((bc_off, tpl_lno))
-        if not new_lnotab_numbers:
-            return
-        new_firstlineno = py_to_tpl_dct.get(code.co_firstlineno, 0)
-        new_lnotab = lnotab.lnotab_string(new_lnotab_numbers, new_firstlineno)
-        new_code = patch_code_file_lines(
-            code, filename, new_firstlineno, new_lnotab)
-        self._func.__code__ = new_code
-        return
-
-
-if IS_PYTHON2:
-    def patch_code_file_lines(code, filename, firstlineno, lnotab):
-        return types.CodeType(code.co_argcount,
-                              code.co_nlocals,
-                              code.co_stacksize,
-                              code.co_flags,
-                              code.co_code,
-                              code.co_consts,
-                              code.co_names,
-                              code.co_varnames,
-                              filename.encode('utf-8'),
-                              code.co_name,
-                              firstlineno,
-                              lnotab,
-                              code.co_freevars,
-                              code.co_cellvars)
-else:
-    def patch_code_file_lines(code, filename, firstlineno, lnotab):
-        code_args = [code.co_argcount]
-        if version_info >= (3, 8):
-            code_args.append(code.co_posonlyargcount)
-        code_args.extend([
-            code.co_kwonlyargcount,
-            code.co_nlocals,
-            code.co_stacksize,
-            code.co_flags,
-            code.co_code,
-            code.co_consts,
-            code.co_names,
-            code.co_varnames,
-            filename,
-            code.co_name,
-            firstlineno,
-            lnotab,
-            code.co_freevars,
-            code.co_cellvars,
-        ])
-        return types.CodeType(*code_args)
-
 
 class KajikiSyntaxError(Exception):
     def __init__(self, msg, source, filename, linen, coln):
diff --git a/kajiki/xml_template.py b/kajiki/xml_template.py
index 2b3ab4a..135a6cc 100644
--- a/kajiki/xml_template.py
+++ b/kajiki/xml_template.py
@@ -337,6 +337,7 @@ class _Compiler(object):
         if not body:
             body = [ir.PassNode()]
         self.functions[decl] = body
+        self.function_lnos[decl] = node.lineno
         if self.is_child:
             parent_block = 'parent.' + fname
             body.insert(0,
@@ -358,6 +359,7 @@ class _Compiler(object):
             yield ir.InnerDefNode(node.getAttribute('function'), *body)
         else:
             self.functions[node.getAttribute('function')] = body
+            self.function_lnos[node.getAttribute('function')] = node.lineno
 
     @annotate
     def _compile_call(self, node):
-- 
2.43.0


From 1533fa467e06e5486db2d83a568aa7d628ed86d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:36 +0000
Subject: [PATCH 21/57] fix: line numbers of expressions and of compile errors
 in XML templates

Errors in expressions were reported without the line of the text they are
in, and line breaks in the DOCTYPE or after ${ were not counted.
---
 kajiki/xml_template.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/kajiki/xml_template.py b/kajiki/xml_template.py
index 135a6cc..ad64693 100644
--- a/kajiki/xml_template.py
+++ b/kajiki/xml_template.py
@@ -553,7 +553,9 @@ class _TextCompiler(object):
         def py_expr(end=None):
             return self.source[self.pos:end]
         try:
-            self.pos += len(py_expr()) - len(py_expr().lstrip())
+            leading = len(py_expr()) - len(py_expr().lstrip())
+            self.lineno += py_expr(self.pos + leading).count('\n')
+            self.pos += leading
             compile(py_expr(), 'find_}', 'eval')
         except SyntaxError as se:
             end = sum(
@@ -566,7 +568,7 @@ class _TextCompiler(object):
                 # for example unclosed strings
                 raise XMLTemplateCompileError(
                     "Kajiki can't compile the python expression `%s`" % py_expr()[:-1],
-                    doc=self.doc, filename=self.filename, linen=self.lineno)
+                    doc=self.doc, filename=self.filename, linen=self.real_lineno)
             else:
                 # if the expression ends in a } then it may be valid
                 try:
@@ -575,14 +577,14 @@ class _TextCompiler(object):
                     # for example + operators with a single operand
                     raise XMLTemplateCompileError(
                         "Kajiki detected an invalid python expression `%s`" % py_expr()[:-1],
-                        doc=self.doc, filename=self.filename, linen=self.lineno)
+                        doc=self.doc, filename=self.filename, linen=self.real_lineno)
 
             py_text = py_expr(end - 1)
             self.pos = end
             return self.expr(py_text)
         else:
             raise XMLTemplateCompileError("Braced expression not terminated",
-                                          doc=self.doc, filename=self.filename, linen=self.lineno)
+                                          doc=self.doc, filename=self.filename, linen=self.real_lineno)
 
 
 class _Parser(sax.ContentHandler):
@@ -614,8 +616,10 @@ class _Parser(sax.ContentHandler):
         self._filename = filename
         # Store the original DTD in the document for the compiler to use later
         self._doc._dtd, position, source = extract_dtd(source)
-        # Use our own DTD just for XML parsing
-        self._source = source[:position] + self._get_dtd(source) + source[position:]
+        # Use our own DTD just for XML parsing, with as many lines as the original
+        self._source = ''.join([
+            source[:position], self._get_dtd(source),
+            '\n' * self._doc._dtd.count('\n'), source[position:]])
         self._cdata_stack = []
 
     @classmethod
-- 
2.43.0


From 1da5c10bf7b6487dacc9027e0170339ba9cc00e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:23 +0000
Subject: [PATCH 22/57] fix: line numbers of errors in text templates

Directives had no line number of their own, and blank lines before a
directive were not counted.
---
 kajiki/text.py | 42 ++++++++++++++++++++++++++----------------
 1 file changed, 26 insertions(+), 16 deletions(-)

diff --git a/kajiki/text.py b/kajiki/text.py
index e906f35..a91863a 100644
--- a/kajiki/text.py
+++ b/kajiki/text.py
@@ -74,7 +74,7 @@ class _Scanner(object):
         self.filename = filename
         self.source = source
         self.lineno = 1
-        self.pos = 0
+        self._pos = 0
 
     def __iter__(self):
         source = self.source
@@ -119,42 +119,39 @@ class _Scanner(object):
         return self._pos
 
     def _set_pos(self, value):
-        assert value >= getattr(self, '_pos', 0)
+        assert value >= self._pos
+        # Keep *lineno* being the line of the current position.
+        self.lineno += self.source.count('\n', self._pos, value)
         self._pos = value
     pos = property(_get_pos, _set_pos)
 
     def text(self, text):
-        self.lineno += text.count('\n')
         return _Text(self.filename, self.lineno, text)
 
     def expr(self, text):
-        self.lineno += text.count('\n')
         return _Expr(self.filename, self.lineno, text)
 
     def tag(self, tagname, body):
-        tag = _Tag(self.filename, self.lineno, tagname, body)
-        self.lineno += tag.text.count('\n')
-        return tag
+        return _Tag(self.filename, self.lineno, tagname, body)
 
     def _get_tag_bare(self, tagname):
         end = self.source.find('\n', self.pos)
         if end == -1:
             end = len(self.source)
-        body = self.source[self.pos:end]
-        self.lineno += 1
+        tag = self.tag(tagname, self.source[self.pos:end])
         self.pos = end + 1
-        return self.tag(tagname, body)
+        return tag
 
     def _get_tag(self, tagname):
         end = self.source.find('%}', self.pos)
         assert end > 0
         body = self.source[self.pos:end]
+        tag = self.tag(tagname, body[:-1] if body.endswith('-') else body)
         self.pos = end + 2
         if body.endswith('-'):
-            body = body[:-1]
             while self.source[self.pos:self.pos + 1] in (' ', '\t'):
                 self.pos += 1
-        return self.tag(tagname, body)
+        return tag
 
     def _get_braced_expr(self):
         try:
@@ -163,9 +160,9 @@ class _Scanner(object):
             end = self.pos + sum([se.offset] + [len(line) + 1
                                                 for idx, line in enumerate(self.source[self.pos:].splitlines())
                                                 if idx < se.lineno - 1])
-            text = self.source[self.pos:end - 1]
+            expr = self.expr(self.source[self.pos:end - 1])
             self.pos = end
-            return self.expr(text)
+            return expr
 
 
 class _Parser(object):
@@ -173,6 +170,7 @@ class _Parser(object):
         self.tokenizer = tokenizer
         self.functions = defaultdict(list)
         self.functions['__main__()'] = []
+        self.function_lnos = {}
         self.mod_py = []  # module-level python blocks
         self.iterator = iter(self.tokenizer)
         self.autoescape = autoescape
@@ -182,7 +180,11 @@ class _Parser(object):
     def parse(self):
         body = list(self._parse_body())
         self.functions['__main__()'] = body[:-1]
-        defs = [ir.DefNode(k, *v) for k, v in iteritems(self.functions)]
+        defs = []
+        for k, v in iteritems(self.functions):
+            node = ir.DefNode(k, *v)
+            node.lineno = self.function_lnos.get(k)
+            defs.append(node)
         return ir.TemplateNode(self.mod_py, defs)
 
     def text(self, token):
@@ -214,7 +216,11 @@ class _Parser(object):
                         yield token
                         break
                     parser = getattr(self, '_parse_%s' % token.tagname)
-                    yield parser(token)
+                    node = parser(token)
+                    if node is not None:
+                        node.filename = token.filename
+                        node.lineno = token.lineno
+                    yield node
                 else:
                     msg = 'Parse error: %r unexpected' % token
                     assert False, msg
@@ -230,6 +236,7 @@ class _Parser(object):
             return ir.InnerDefNode(token.body, *body[:-1])
         else:
             self.functions[token.body.strip()] = body[:-1]
+            self.function_lnos[token.body.strip()] = token.lineno
             return None
 
     def _parse_call(self, token):
@@ -299,6 +306,8 @@ class _Parser(object):
             body = list(self._parse_body('end'))
         node = ir.PythonNode(*body[:-1])
         if node.module_level:
+            node.filename = token.filename
+            node.lineno = token.lineno
             self.mod_py.append(node)
             return None
         else:
@@ -309,6 +318,7 @@ class _Parser(object):
         decl = fname + '()'
         body = list(self._parse_body('end'))[:-1]
         self.functions[decl] = body
+        self.function_lnos[decl] = token.lineno
         if self._is_child:
             parent_block = 'parent.' + fname
             body.insert(0,
-- 
2.43.0


From e7f2d5259c6fbf733804397b2c554c8171dd302b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:27 +0000
Subject: [PATCH 23/57] fix: line numbers of errors in module-level code of XML
 templates

---
 kajiki/xml_template.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/kajiki/xml_template.py b/kajiki/xml_template.py
index ad64693..9b7945f 100644
--- a/kajiki/xml_template.py
+++ b/kajiki/xml_template.py
@@ -294,11 +294,12 @@ class _Compiler(object):
         of module wide code to be provided to be template.
         """
         body = ir.TextNode(node.data.strip())
-        node = ir.PythonNode(body)
-        if node.module_level:
-            self.mod_py.append(node)
+        py_node = ir.PythonNode(body)
+        if py_node.module_level:
+            self._anno(node, py_node)
+            self.mod_py.append(py_node)
         else:
-            yield node
+            yield py_node
 
     @annotate
     def _compile_import(self, node):
-- 
2.43.0


From faf501398a8d4365e30c9b4683aebdb00e99eb9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:57 +0000
Subject: [PATCH 24/57] fix: a switch with an else in a text template ends at
 its own end tag

The else consumed the end tag, so that the switch went on until the end tag
of whatever contained it.
---
 kajiki/text.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/kajiki/text.py b/kajiki/text.py
index a91863a..8ac83ae 100644
--- a/kajiki/text.py
+++ b/kajiki/text.py
@@ -263,8 +263,12 @@ class _Parser(object):
         return ir.ForNode(token.body, *body[:-1])
 
     def _parse_switch(self, token):
-        body = list(self._parse_body('end'))
-        return ir.SwitchNode(token.body, *body[:-1])
+        body = list(self._parse_body('end', 'else'))
+        stoptok = body.pop()
+        if stoptok is not None and stoptok.tagname == 'else':
+            # The tag that ends the else ends the switch, too.
+            body.append(self._parse_else(stoptok))
+        return ir.SwitchNode(token.body, *body)
 
     def _parse_case(self, token):
         body = list(self._parse_body('case', 'else', 'end'))
-- 
2.43.0


From 5ca68c21c7e15e5bc651b4a449d0e5188fe1efae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:31 +0000
Subject: [PATCH 25/57] fix: an else in a text template belongs to the
 innermost open if

An if with an else inside the body of another if, of a switch or of a case
was taken for the else of the outer directive.
---
 kajiki/text.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/kajiki/text.py b/kajiki/text.py
index 8ac83ae..ffcb102 100644
--- a/kajiki/text.py
+++ b/kajiki/text.py
@@ -176,6 +176,7 @@ class _Parser(object):
         self.autoescape = autoescape
         self._in_def = False
         self._is_child = False
+        self._else_of_if = None
 
     def parse(self):
         body = list(self._parse_body())
@@ -212,7 +213,8 @@ class _Parser(object):
                 elif isinstance(token, _Expr):
                     yield self.expr(token)
                 elif isinstance(token, _Tag):
-                    if token.tagname in stoptags:
+                    if token.tagname in stoptags and \
+                            token is not self._else_of_if:
                         yield token
                         break
                     parser = getattr(self, '_parse_%s' % token.tagname)
@@ -255,6 +257,8 @@ class _Parser(object):
         body = list(self._parse_body('end', 'else'))
         stoptok = body[-1]
         if stoptok.tagname == 'else':
+            # It follows this if in the same body, which it must not end.
+            self._else_of_if = stoptok
             self.push_tok(stoptok)
         return ir.IfNode(token.body, *body[:-1])
 
-- 
2.43.0


From c093d6ffb84c13fe1e90539946eee6dbc18d6edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:54 +0000
Subject: [PATCH 26/57] fix: import in a template that is extended by another
 one

The imported template was only known to the most derived template, so the
one that contains the import could not use it.
---
 kajiki/template.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/kajiki/template.py b/kajiki/template.py
index 2a9b328..5eb02c2 100644
--- a/kajiki/template.py
+++ b/kajiki/template.py
@@ -205,7 +205,10 @@ class _Template(object):
         tpl_cls = self.loader.import_(name, is_fragment=True)
         if alias is None:
             alias = self.loader.default_alias_for(name)
-        r = gbls[alias] = tpl_cls(gbls)
+        r = tpl_cls(gbls)
+        # *gbls* are the globals of the most derived template, but the import
+        # may be written in one that it extends.
+        gbls[alias] = self.__globals__[alias] = r
         return r
 
     def _escape(self, value):
-- 
2.43.0


From 5cbff33251f73b28eea7afec1aa671db52b3d6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:29 +0000
Subject: [PATCH 27/57] fix: included and imported templates use their own
 functions and parents

The globals of the including template took the place of everything of the
same name in the included template, local and self among them.  So an included
template called functions of the including one that happened to have the same
name as its own ones, and its blocks didn't override those of the template it
extends; with equal block names the recursion never ended.  Now these globals
only stand in for names that the included template doesn't have.
---
 kajiki/template.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/kajiki/template.py b/kajiki/template.py
index 5eb02c2..b52d6bf 100644
--- a/kajiki/template.py
+++ b/kajiki/template.py
@@ -87,6 +87,7 @@ class _Template(object):
             pop_with=self._pop_with,
             collect=self._collect,
         )
+        self._borrowed = set()  # names of globals of the including template
         self._switch_stack = []
         self._with_stack = []
         self.__globals__.update(context)
@@ -140,7 +141,7 @@ class _Template(object):
         p_globals = p_inst.__globals__
         # Find overrides
         for k, v in iteritems(self.__globals__):
-            if k == '__main__':
+            if k == '__main__' or k in self._borrowed:
                 continue
             if not isinstance(v, TplFunc):
                 continue
@@ -153,8 +154,9 @@ class _Template(object):
                 continue
             heir = self
             while heir is not None:
-                if k not in heir.__globals__:
+                if k not in heir.__globals__ or k in heir._borrowed:
                     heir.__globals__[k] = v
+                    heir._borrowed.discard(k)
                 if not hasattr(heir, k):
                     def _(k=k):
                         '''Capture the 'k' variable in a closure'''
@@ -164,6 +166,7 @@ class _Template(object):
                         return trampoline
                     setattr(heir, k, TplFunc(_()).bind_instance(heir))
                 heir = heir._child
+        p_inst._borrow(dict((k, self.__globals__[k]) for k in self._borrowed))
         p_inst._child = self
         p_globals['child'] = self
         p_globals['local'] = p_inst
@@ -205,12 +208,23 @@ class _Template(object):
         tpl_cls = self.loader.import_(name, is_fragment=True)
         if alias is None:
             alias = self.loader.default_alias_for(name)
-        r = tpl_cls(gbls)
+        # The template shares the context and the gettext function of this one.
+        # It can use the other globals, too, but its own ones come first.
+        r = tpl_cls(dict(self._context, gettext=gbls['gettext']))
+        r._borrow(self.__globals__)
+        r._borrow(gbls)
         # *gbls* are the globals of the most derived template, but the import
         # may be written in one that it extends.
         gbls[alias] = self.__globals__[alias] = r
         return r
 
+    def _borrow(self, gbls):
+        """Make globals of the including or derived template available."""
+        for k, v in iteritems(gbls):
+            if k not in self.__globals__ and k not in ('parent', 'child'):
+                self.__globals__[k] = v
+                self._borrowed.add(k)
+
     def _escape(self, value):
         """Returns the given HTML with ampersands, carets and quotes encoded."""
         if value is None or isinstance(value, flattener):
-- 
2.43.0


From e6a120d2e639c889399f9f8e399b5f03a6e12c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:17 +0000
Subject: [PATCH 28/57] fix: including a file doesn't replace the variable of
 the same name

After including title.html, the variable title of the including template
was the included template instead of what it was before.
---
 kajiki/ir.py       | 4 ++--
 kajiki/template.py | 6 ++++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/kajiki/ir.py b/kajiki/ir.py
index d4f66b1..bb92079 100644
--- a/kajiki/ir.py
+++ b/kajiki/ir.py
@@ -129,8 +129,8 @@ class IncludeNode(Node):
 
     def py(self):
         yield self.line(
-            'yield local.__kj__.import_(%r, None, self.__globals__).__main__()' % (
-                self.tpl_name))
+            'yield local.__kj__.import_(%r, None, self.__globals__, False)'
+            '.__main__()' % self.tpl_name)
 
 
 class ExtendNode(Node):
diff --git a/kajiki/template.py b/kajiki/template.py
index b52d6bf..32cd5f3 100644
--- a/kajiki/template.py
+++ b/kajiki/template.py
@@ -197,7 +197,7 @@ class _Template(object):
         """Check against current ``py:switch`` value."""
         return obj == self._switch_stack[-1]
 
-    def _import(self, name, alias, gbls):
+    def _import(self, name, alias, gbls, override=True):
         # Load template as a fragment to avoid extra <DOCTYPE> in included output.
         # Due to loader cache, this has the side effect that if the same
         # template is both included and used as a standalone page
@@ -215,7 +215,9 @@ class _Template(object):
         r._borrow(gbls)
         # *gbls* are the globals of the most derived template, but the import
         # may be written in one that it extends.
-        gbls[alias] = self.__globals__[alias] = r
+        for g in (gbls, self.__globals__):
+            if override or alias not in g:
+                g[alias] = r
         return r
 
     def _borrow(self, gbls):
-- 
2.43.0


From 2335c856911cda1572c305ebb5e7225086490842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:36 +0000
Subject: [PATCH 29/57] fix: attributes that have the same name except for the
 prefix

Of two attributes such as lang and xml:lang, or for and py:for, one was lost:
either the attribute or the directive.
---
 kajiki/xml_template.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kajiki/xml_template.py b/kajiki/xml_template.py
index 9b7945f..875ad93 100644
--- a/kajiki/xml_template.py
+++ b/kajiki/xml_template.py
@@ -672,7 +672,8 @@ class _Parser(sax.ContentHandler):
         el = self._doc.createElement(name)
         el.lineno = self._parser.getLineNumber()
         for k, v in attrs.items():
-            el.setAttribute(k, v)
+            # Tell the DOM about prefixes, otherwise py:for would replace for.
+            el.setAttributeNS(k.rpartition(':')[0] or None, k, v)
         self._els[-1].appendChild(el)
         self._els.append(el)
 
-- 
2.43.0


From 18af81bafad3cfb9a9bd2b2a0cabe6683c4d318b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:51 +0000
Subject: [PATCH 30/57] fix: py:with values that contain a semicolon and an
 equals sign

---
 kajiki/ir.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/kajiki/ir.py b/kajiki/ir.py
index bb92079..64d3e61 100644
--- a/kajiki/ir.py
+++ b/kajiki/ir.py
@@ -216,7 +216,11 @@ class WithNode(HierNode):
     def __init__(self, vars, *body):
         super(WithNode, self).__init__(body)
         assignments = []
-        matches = self.assignment_pattern.finditer(vars)
+        matches = []
+        for m in self.assignment_pattern.finditer(vars):
+            if matches and not self._is_complete(vars[matches[-1].start(1):m.start()]):
+                continue  # This semicolon is inside a string.
+            matches.append(m)
         for m1, m2 in window(chain(matches, [None]), 2):
             lhs = m1.group(1).strip()
             rhs = vars[m1.end():(m2.start() if m2 else len(vars))]
@@ -225,6 +229,14 @@ class WithNode(HierNode):
         self.vars = assignments
         self.var_names = [l for l, _ in assignments]
 
+    @staticmethod
+    def _is_complete(code):
+        try:
+            compile(code, '<py:with>', 'exec')
+        except SyntaxError:
+            return False
+        return True
+
     def py(self):
         yield self.line(
             'local.__kj__.push_with(locals(), [%s])' % (
-- 
2.43.0


From 4265b36f31da011c78bfeec6fe56f771d21be761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:34 +0000
Subject: [PATCH 31/57] fix: defaults of keyword-only arguments of template
 functions

---
 kajiki/template.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kajiki/template.py b/kajiki/template.py
index 32cd5f3..65c7232 100644
--- a/kajiki/template.py
+++ b/kajiki/template.py
@@ -412,6 +412,8 @@ class TplFunc(object):
             self._func.__defaults__,
             self._func.__closure__
         )
+        if getattr(self._func, '__kwdefaults__', None):
+            func.__kwdefaults__ = self._func.__kwdefaults__
         return update_wrapper(
             lambda *a, **kw: flattener(func(*a, **kw)),
             func)
-- 
2.43.0


From 5ba2d0138b60c266e7a308b0f35abc26e433ba56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:01 +0000
Subject: [PATCH 32/57] fix: recognize the DOCTYPE of XHTML+RDFa

---
 kajiki/doctype.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kajiki/doctype.py b/kajiki/doctype.py
index d137c5c..d5f1611 100644
--- a/kajiki/doctype.py
+++ b/kajiki/doctype.py
@@ -62,7 +62,7 @@ class DocumentTypeDeclaration(object):
 
     @reify
     def regex(self):
-        return re.compile(str(self).replace(' ', r'\s+').replace('.', r'\.')
+        return re.compile(str(self).replace('+', r'\+').replace(' ', r'\s+').replace('.', r'\.')
             .replace('[', r'\[').replace(']', r'\]'), flags=re.IGNORECASE)
 
     by_uri = dict()  # We store the public DTDs here.
-- 
2.43.0


From 2db5da3bdf60d8ca42d9059789809a9204becbf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:38 +0000
Subject: [PATCH 33/57] fix: no end tag for void elements with py:content in
 HTML modes

---
 kajiki/xml_template.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kajiki/xml_template.py b/kajiki/xml_template.py
index 875ad93..60a4ad4 100644
--- a/kajiki/xml_template.py
+++ b/kajiki/xml_template.py
@@ -244,7 +244,9 @@ class _Compiler(object):
         if content:
             yield ir.TextNode('>', guard)
             yield ir.ExprNode(content)
-            yield ir.TextNode('</%s>' % node.tagName, guard)
+            if not (self.mode.startswith('html')
+                    and node.tagName in HTML_OPTIONAL_END_TAGS):
+                yield ir.TextNode('</%s>' % node.tagName, guard)
         else:
             if node.childNodes:
                 yield ir.TextNode('>', guard)
-- 
2.43.0


From dfdb1e2bc2b7f09f53b231ba0ac54df3113f64a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:35 +0000
Subject: [PATCH 34/57] fix: {%- tags that are not the first thing in their
 line

---
 kajiki/text.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/kajiki/text.py b/kajiki/text.py
index ffcb102..77763ff 100644
--- a/kajiki/text.py
+++ b/kajiki/text.py
@@ -41,7 +41,7 @@ _pattern = r'''
     (?P<tag_bare>[a-z]+) | # %for, %end, etc.
     (?P<tag_bare_invalid>)
 )|
-^\s*{%-(?P<tag_begin_ljust>[a-z]+)|  # {%-for, {%-end, etc.
+(?:^\s*|[ \t]*){%-(?P<tag_begin_ljust>[a-z]+)|  # {%-for, {%-end, etc.
 {%(?:
     (?P<tag_begin>[a-z]+) | # {%for, {%end, etc.
     (?P<tag_begin_invalid>)
@@ -78,10 +78,8 @@ class _Scanner(object):
 
     def __iter__(self):
         source = self.source
-        for mo in _re_pattern.finditer(source):
+        for mo in self._matches():
             start = mo.start()
-            if start < self.pos:
-                continue  # Inside an expression or tag already consumed.
             if start > self.pos:
                 yield self.text(source[self.pos:start])
                 self.pos = start
@@ -115,6 +113,16 @@ class _Scanner(object):
         if self.pos != len(source):
             yield self.text(source[self.pos:])
 
+    def _matches(self):
+        """Find tags and expressions, but not inside those already consumed."""
+        pos = 0
+        while True:
+            mo = _re_pattern.search(self.source, max(pos, self.pos))
+            if mo is None:
+                return
+            pos = mo.end()
+            yield mo
+
     def _get_pos(self):
         return self._pos
 
-- 
2.43.0


From 6c1ddc7206d58141df1b6b28cae9d3ded2603d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:35 +0000
Subject: [PATCH 35/57] fix: % lines that end in a carriage return and a line
 feed

---
 kajiki/text.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kajiki/text.py b/kajiki/text.py
index 77763ff..90e2d1b 100644
--- a/kajiki/text.py
+++ b/kajiki/text.py
@@ -146,7 +146,7 @@ class _Scanner(object):
         end = self.source.find('\n', self.pos)
         if end == -1:
             end = len(self.source)
-        tag = self.tag(tagname, self.source[self.pos:end])
+        tag = self.tag(tagname, self.source[self.pos:end].rstrip('\r'))
         self.pos = end + 1
         return tag
 
-- 
2.43.0


From f7aa4844d3f5c4572a7b74dfb7c4c7fd4fe273ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:15 +0000
Subject: [PATCH 36/57] fix: expressions that are tuples without parentheses

---
 kajiki/ir.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/kajiki/ir.py b/kajiki/ir.py
index 64d3e61..d906d0e 100644
--- a/kajiki/ir.py
+++ b/kajiki/ir.py
@@ -20,6 +20,11 @@ def generate_python(ir):
             yield line.indent(cur_indent)
 
 
+def parenthesize(code):
+    """Allow a tuple that has no parentheses, like ${1, 2}."""
+    return '(%s)' % code if code.strip() else code
+
+
 class Node(object):
     def __init__(self):
         self.filename = '<string>'
@@ -261,7 +266,7 @@ class SwitchNode(HierNode):
         self.decl = decl
 
     def py(self):
-        yield self.line('local.__kj__.push_switch(%s)' % self.decl)
+        yield self.line('local.__kj__.push_switch(%s)' % parenthesize(self.decl))
         yield self.line('if False: pass')
 
     def __iter__(self):
@@ -277,7 +282,7 @@ class CaseNode(HierNode):
         self.decl = decl
 
     def py(self):
-        yield self.line('elif local.__kj__.case(%s):' % self.decl)
+        yield self.line('elif local.__kj__.case(%s):' % parenthesize(self.decl))
 
 
 class IfNode(HierNode):
@@ -336,9 +341,9 @@ class ExprNode(Node):
 
     def py(self):
         if self.safe:
-            yield self.line('yield %s' % self.text)
+            yield self.line('yield %s' % parenthesize(self.text))
         else:
-            yield self.line('yield self.__kj__.escape(%s)' % self.text)
+            yield self.line('yield self.__kj__.escape(%s)' % parenthesize(self.text))
 
 
 class AttrNode(HierNode):
@@ -399,7 +404,7 @@ class AttrsNode(Node):
         def _body():
             yield self.line(
                 'for %s in self.__kj__.render_attrs(%s, %r):' % (
-                    x, self.attrs, self.mode))
+                    x, parenthesize(self.attrs), self.mode))
             yield self.line('    yield %s' % x)
         if self.guard:
             yield self.line('if %s:' % self.guard)
-- 
2.43.0


From 1fbb9751cede26ab8497f9626caa1b6c30aa9a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:40 +0000
Subject: [PATCH 37/57] fix: end of expressions after strings with unusual line
 boundaries or with CRLF

---
 kajiki/text.py         | 5 ++---
 kajiki/util.py         | 8 ++++++++
 kajiki/xml_template.py | 9 ++-------
 3 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/kajiki/text.py b/kajiki/text.py
index 90e2d1b..a18cff0 100644
--- a/kajiki/text.py
+++ b/kajiki/text.py
@@ -29,6 +29,7 @@ del version_info
 
 import kajiki
 from . import ir
+from .util import error_position
 
 _pattern = r'''
 \$(?:
@@ -165,9 +166,7 @@ class _Scanner(object):
         try:
             compile(self.source[self.pos:], '', 'eval')
         except SyntaxError as se:
-            end = self.pos + sum([se.offset] + [len(line) + 1
-                                                for idx, line in enumerate(self.source[self.pos:].splitlines())
-                                                if idx < se.lineno - 1])
+            end = self.pos + error_position(self.source[self.pos:], se)
             expr = self.expr(self.source[self.pos:end - 1])
             self.pos = end
             return expr
diff --git a/kajiki/util.py b/kajiki/util.py
index 2ba1c15..2c84b2e 100644
--- a/kajiki/util.py
+++ b/kajiki/util.py
@@ -3,6 +3,7 @@
 from __future__ import (absolute_import, division, print_function,
                         unicode_literals)
 from collections import deque
+import re
 import sys
 from random import randint
 from threading import local
@@ -117,6 +118,13 @@ def gen_name(hint='_kj_'):
     return NameGen.gen(hint)
 
 
+def error_position(code, error):
+    """Return the index in *code* of the character that a SyntaxError points after."""
+    # Not splitlines(), which knows more line boundaries than Python code has.
+    lines = [0] + [m.end() for m in re.finditer('\r\n?|\n', code)]
+    return lines[error.lineno - 1] + error.offset
+
+
 def window(seq, n=2):
     """Return a sliding window of size ``n`` over an iterator"""
     l = deque((next(seq, None) for _ in range(n)), maxlen=n)
diff --git a/kajiki/xml_template.py b/kajiki/xml_template.py
index 60a4ad4..fb13f0f 100644
--- a/kajiki/xml_template.py
+++ b/kajiki/xml_template.py
@@ -23,7 +23,7 @@ from .entities import html5
 from .html_utils import (HTML_OPTIONAL_END_TAGS, HTML_REQUIRED_END_TAGS,
                          HTML_CDATA_TAGS)
 from .markup_template import QDIRECTIVES, QDIRECTIVES_DICT
-from .util import gen_name
+from .util import error_position, gen_name
 
 impl = dom.getDOMImplementation(' ')
 
@@ -561,12 +561,7 @@ class _TextCompiler(object):
             self.pos += leading
             compile(py_expr(), 'find_}', 'eval')
         except SyntaxError as se:
-            end = sum(
-                [self.pos, se.offset] +
-                [len(line) + 1
-                 for idx, line in enumerate(py_expr().splitlines())
-                 if idx < se.lineno - 1]
-            )
+            end = self.pos + error_position(py_expr(), se)
             if py_expr(end)[-1] != '}':
                 # for example unclosed strings
                 raise XMLTemplateCompileError(
-- 
2.43.0


From 52e20664daac7ea2d47356ae441612e6cb72c4c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:28 +0000
Subject: [PATCH 38/57] fix: reject invalid and unterminated expressions in
 text templates

---
 kajiki/text.py | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/kajiki/text.py b/kajiki/text.py
index a18cff0..8e2d6b8 100644
--- a/kajiki/text.py
+++ b/kajiki/text.py
@@ -163,13 +163,27 @@ class _Scanner(object):
         return tag
 
     def _get_braced_expr(self):
+        rest = self.source[self.pos:]
+        self.pos += len(rest) - len(rest.lstrip())
+        rest = rest.lstrip()
         try:
-            compile(self.source[self.pos:], '', 'eval')
+            compile(rest, '', 'eval')
         except SyntaxError as se:
-            end = self.pos + error_position(self.source[self.pos:], se)
-            expr = self.expr(self.source[self.pos:end - 1])
-            self.pos = end
-            return expr
+            end = error_position(rest, se)
+            code = rest[:end - 1]
+            try:
+                if rest[end - 1:end] == '}':
+                    compile(code, '', 'eval')
+                    expr = self.expr(code)
+                    self.pos += end
+                    return expr
+            except SyntaxError:
+                pass
+            msg = 'invalid Python expression'
+        else:
+            msg = 'Braced expression not terminated'
+        raise kajiki.template.KajikiSyntaxError(
+            msg, self.source, self.filename, self.lineno, 0)
 
 
 class _Parser(object):
-- 
2.43.0


From 134929e664ef1adbac4279e3421ddc297924302a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:19 +0000
Subject: [PATCH 39/57] fix: strings with ${ in py:content and py:attrs

---
 kajiki/xml_template.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/kajiki/xml_template.py b/kajiki/xml_template.py
index fb13f0f..a3a6923 100644
--- a/kajiki/xml_template.py
+++ b/kajiki/xml_template.py
@@ -229,15 +229,15 @@ class _Compiler(object):
             node.removeAttribute('py:strip')
         yield ir.TextNode('<%s' % node.tagName, guard)
         for k, v in sorted(node.attributes.items()):
-            tc = _TextCompiler(self.filename, v, node.lineno,
-                               ir.TextNode, in_html_attr=True, compiler_instance=self)
-            v = list(tc)
             if k == 'py:content':
                 content = node.getAttribute('py:content')
                 continue
             elif k == 'py:attrs':
                 attrs = node.getAttribute('py:attrs')
                 continue
+            tc = _TextCompiler(self.filename, v, node.lineno,
+                               ir.TextNode, in_html_attr=True, compiler_instance=self)
+            v = list(tc)
             yield ir.AttrNode(k, v, guard, self.mode)
         if attrs:
             yield ir.AttrsNode(attrs, guard, self.mode)
-- 
2.43.0


From e57c1c05404f04d7d50191040be98f37772128c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:35 +0000
Subject: [PATCH 40/57] fix: file that appears in an earlier directory of the
 path with the same modification time

---
 kajiki/loader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kajiki/loader.py b/kajiki/loader.py
index 1408cff..7fcb936 100644
--- a/kajiki/loader.py
+++ b/kajiki/loader.py
@@ -78,7 +78,7 @@ class FileLoader(Loader):
                 if filename is None:  # The file is gone.
                     raise IOError('Unknown template %r' % name)
                 mtime = os.stat(filename).st_mtime
-                if mtime != self._timestamps.get(name, 0):
+                if (filename, mtime) != self._timestamps.get(name):
                     del self.modules[name]
             return super(FileLoader, self).import_(name, *args, **kwargs)
 
@@ -94,7 +94,7 @@ class FileLoader(Loader):
         filename = self._filename(name)
         if filename is None:
             raise IOError('Unknown template %r' % name)
-        self._timestamps[name] = os.stat(filename).st_mtime
+        self._timestamps[name] = (filename, os.stat(filename).st_mtime)
         if self._force_mode == 'text':
             return TextTemplate(filename=filename,
                 autoescape=self._autoescape_text, *args, **options)
-- 
2.43.0


From 9aa0a9ea2a4411247c87d6aadfa9d96565bb802f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:21 +0000
Subject: [PATCH 41/57] fix: encoding argument when loading a file

---
 kajiki/loader.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/kajiki/loader.py b/kajiki/loader.py
index 7fcb936..12864bc 100644
--- a/kajiki/loader.py
+++ b/kajiki/loader.py
@@ -82,14 +82,13 @@ class FileLoader(Loader):
                     del self.modules[name]
             return super(FileLoader, self).import_(name, *args, **kwargs)
 
-    def _load(self, name, encoding='utf-8', *args, **kwargs):
-        '''Text templates are read in text mode and XML templates are read in
-        binary mode. Thus, the ``encoding`` argument is only used for reading
-        text template files.
-        '''
+    def _load(self, name, encoding=None, *args, **kwargs):
+        '''The ``encoding`` argument is used for reading the template file.'''
         from kajiki import XMLTemplate, TextTemplate
         options = self._template_options.copy()
         options.update(kwargs)
+        if encoding is not None:
+            options['encoding'] = encoding
 
         filename = self._filename(name)
         if filename is None:
-- 
2.43.0


From bfe873a9e409fd0def4471e1c8c66959f509f5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:16 +0000
Subject: [PATCH 42/57] fix: line numbers after long elements and of function
 headers

---
 kajiki/template.py     | 8 ++++++--
 kajiki/xml_template.py | 6 +++++-
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/kajiki/template.py b/kajiki/template.py
index 65c7232..1360b67 100644
--- a/kajiki/template.py
+++ b/kajiki/template.py
@@ -355,9 +355,13 @@ def _compile_with_linenos(py_text, py_lines, filename):
     The code object of each function in it, nested ones included, gets the
     *filename* of the template and the line numbers found in *py_lines*.
     """
+    # Code that doesn't belong to any line goes with what follows it.
+    starts = [py_line._lineno for py_line in py_lines]
+    for i in range(len(starts) - 2, -1, -1):
+        starts[i] = starts[i] or starts[i + 1]
     linenos = [1]  # Template line of each line of py_text, which count from 1
-    for py_line in py_lines:
-        lineno = py_line._lineno or linenos[-1]
+    for py_line, start in zip(py_lines, starts):
+        lineno = start or linenos[-1]
         # The code of an expression can span many lines
         linenos.extend(
             lineno + i for i in range(len(re.findall('\r\n?|\n', str(py_line))) + 1))
diff --git a/kajiki/xml_template.py b/kajiki/xml_template.py
index a3a6923..5f4cc27 100644
--- a/kajiki/xml_template.py
+++ b/kajiki/xml_template.py
@@ -270,7 +270,10 @@ class _Compiler(object):
                             yield x
                 if not (self.mode.startswith('html')
                         and node.tagName in HTML_OPTIONAL_END_TAGS):
-                    yield ir.TextNode('</%s>' % node.tagName, guard)
+                    end_tag = ir.TextNode('</%s>' % node.tagName, guard)
+                    end_tag.filename = self.filename
+                    end_tag.lineno = node.end_lineno
+                    yield end_tag
             elif node.tagName in HTML_REQUIRED_END_TAGS:
                 yield ir.TextNode('></%s>' % node.tagName, guard)
             else:
@@ -676,6 +679,7 @@ class _Parser(sax.ContentHandler):
 
     def endElement(self, name):
         popped = self._els.pop()
+        popped.end_lineno = self._parser.getLineNumber()
         assert name == popped.tagName
 
     def characters(self, content):
-- 
2.43.0


From 9dcd91a7574b0056b2eb62136626b766e13c9337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:12 +0000
Subject: [PATCH 43/57] fix: misplaced py:case/py:else and empty py:with were
 accepted or crashed the compiler

---
 kajiki/ir.py           |  5 ++---
 kajiki/xml_template.py | 33 ++++++++++++++++++++++++++++-----
 2 files changed, 30 insertions(+), 8 deletions(-)

diff --git a/kajiki/ir.py b/kajiki/ir.py
index d906d0e..0135507 100644
--- a/kajiki/ir.py
+++ b/kajiki/ir.py
@@ -2,10 +2,9 @@
 
 from __future__ import (absolute_import, division, print_function,
                         unicode_literals)
-from itertools import chain
 import re
 
-from .util import gen_name, flattener, window
+from .util import gen_name, flattener
 from nine import nine
 
 
@@ -226,7 +225,7 @@ class WithNode(HierNode):
             if matches and not self._is_complete(vars[matches[-1].start(1):m.start()]):
                 continue  # This semicolon is inside a string.
             matches.append(m)
-        for m1, m2 in window(chain(matches, [None]), 2):
+        for m1, m2 in zip(matches, matches[1:] + [None]):
             lhs = m1.group(1).strip()
             rhs = vars[m1.end():(m2.start() if m2 else len(vars))]
             assignments.append((lhs, rhs))
diff --git a/kajiki/xml_template.py b/kajiki/xml_template.py
index 5f4cc27..b145350 100644
--- a/kajiki/xml_template.py
+++ b/kajiki/xml_template.py
@@ -412,8 +412,14 @@ class _Compiler(object):
     @annotate
     def _compile_with(self, node):
         """Convert py:with nodes to their intermediate representation."""
-        yield ir.WithNode(node.getAttribute('vars'),
-                          *list(self._compile_nop(node)))
+        with_node = ir.WithNode(node.getAttribute('vars'),
+                                *list(self._compile_nop(node)))
+        if not with_node.vars:
+            raise XMLTemplateCompileError(
+                'py:with directive must contain at least an assignment',
+                doc=self.doc, filename=self.filename, linen=node.lineno
+            )
+        yield with_node
 
     @annotate
     def _compile_switch(self, node):
@@ -437,9 +443,23 @@ class _Compiler(object):
     @annotate
     def _compile_case(self, node):
         """Convert py:case nodes to their intermediate representation."""
+        if not self._is_in_switch(node):
+            raise XMLTemplateCompileError(
+                'py:case directive must be directly inside a py:switch',
+                doc=self.doc, filename=self.filename, linen=node.lineno
+            )
+
         yield ir.CaseNode(node.getAttribute('value'),
                           *list(self._compile_nop(node)))
 
+    @staticmethod
+    def _is_in_switch(node):
+        """Tell whether the DOM *node* is a child of a py:switch directive."""
+        # The body of directives is always inside a py:nop, see _DomTransformer.
+        parent = node.parentNode
+        return (getattr(parent, 'tagName', '') == 'py:nop' and
+                getattr(parent.parentNode, 'tagName', '') == 'py:switch')
+
     @annotate
     def _compile_if(self, node):
         """Convert py:if nodes to their intermediate representation."""
@@ -449,9 +469,12 @@ class _Compiler(object):
     @annotate
     def _compile_else(self, node):
         """Convert py:else nodes to their intermediate representation."""
-        if (getattr(node.parentNode, 'tagName', '') != 'py:nop' and
-                not node.parentNode.hasAttribute('py:switch') and
-                getattr(node.previousSibling, 'tagName', '') != 'py:if'):
+        previous = node.previousSibling
+        while (isinstance(previous, dom.Text) and not previous.data or
+               isinstance(previous, dom.Comment) and previous.data.startswith('!')):
+            previous = previous.previousSibling  # This outputs nothing
+        if (not self._is_in_switch(node) and
+                getattr(previous, 'tagName', '') != 'py:if'):
             raise XMLTemplateCompileError(
                 'py:else directive must be inside a py:switch or directly after py:if '
                 'without text or spaces in between',
-- 
2.43.0


From 1793d8fd844fad37cca39bc2c71c4b4f4b90817c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:03 +0000
Subject: [PATCH 44/57] fix: error messages showed the wrong line after
 characters like U+2028

---
 kajiki/template.py     | 2 +-
 kajiki/xml_template.py | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/kajiki/template.py b/kajiki/template.py
index 1360b67..8dd06cf 100644
--- a/kajiki/template.py
+++ b/kajiki/template.py
@@ -449,6 +449,6 @@ class KajikiSyntaxError(Exception):
             return ''
 
         try:
-            return source.splitlines()[linen]
+            return re.split('\r?\n', source)[linen]
         except:
             return ''
diff --git a/kajiki/xml_template.py b/kajiki/xml_template.py
index b145350..e6c7b7c 100644
--- a/kajiki/xml_template.py
+++ b/kajiki/xml_template.py
@@ -965,7 +965,8 @@ class XMLTemplateError(Exception):
             return ''
 
         try:
-            return source.splitlines()[linen]
+            # Don't use splitlines(), which knows more line ends than XML does
+            return re.split('\r\n?|\n', source)[linen]
         except:
             return ''
 
-- 
2.43.0


From 817e046d0f35130c21d633316dc6b45a9379b9b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:50:02 +0000
Subject: [PATCH 45/57] fix: malformed text templates raised AssertionError or
 AttributeError

---
 kajiki/text.py | 51 ++++++++++++++++++++++++++++++++------------------
 1 file changed, 33 insertions(+), 18 deletions(-)

diff --git a/kajiki/text.py b/kajiki/text.py
index 8e2d6b8..06981bc 100644
--- a/kajiki/text.py
+++ b/kajiki/text.py
@@ -106,11 +106,7 @@ class _Scanner(object):
             elif groups['tag_bare_invalid'] is not None:
                 continue
             else:
-                msg = 'Syntax error %s:%s' % (self.filename, self.lineno)
-                for i, line in enumerate(self.source.splitlines()):
-                    print('%3d %s' % (i + 1, line))
-                print(msg)
-                assert False, groups
+                raise self.error('Syntax error, invalid tag or expression')
         if self.pos != len(source):
             yield self.text(source[self.pos:])
 
@@ -134,6 +130,10 @@ class _Scanner(object):
         self._pos = value
     pos = property(_get_pos, _set_pos)
 
+    def error(self, msg, lineno=None):
+        return kajiki.template.KajikiSyntaxError(
+            msg, self.source, self.filename, lineno or self.lineno, 0)
+
     def text(self, text):
         return _Text(self.filename, self.lineno, text)
 
@@ -153,7 +153,8 @@ class _Scanner(object):
 
     def _get_tag(self, tagname):
         end = self.source.find('%}', self.pos)
-        assert end > 0
+        if end == -1:
+            raise self.error('Tag not terminated')
         body = self.source[self.pos:end]
         tag = self.tag(tagname, body[:-1] if body.endswith('-') else body)
         self.pos = end + 2
@@ -182,8 +183,7 @@ class _Scanner(object):
             msg = 'invalid Python expression'
         else:
             msg = 'Braced expression not terminated'
-        raise kajiki.template.KajikiSyntaxError(
-            msg, self.source, self.filename, self.lineno, 0)
+        raise self.error(msg)
 
 
 class _Parser(object):
@@ -222,6 +222,19 @@ class _Parser(object):
         node.lineno = token.lineno
         return node
 
+    def error(self, msg, token):
+        return self.tokenizer.error(msg, token.lineno)
+
+    def _split_args(self, token):
+        try:
+            parts = shlex_split(token.body)
+        except ValueError as e:
+            raise self.error(str(e), token)
+        if not (len(parts) == 1 or token.tagname == 'import' and
+                len(parts) == 3 and parts[1] == 'as'):
+            raise self.error('Invalid arguments of tag %s' % token.tagname, token)
+        return parts
+
     def push_tok(self, token):
         self.iterator = chain([token], self.iterator)
 
@@ -238,7 +251,9 @@ class _Parser(object):
                             token is not self._else_of_if:
                         yield token
                         break
-                    parser = getattr(self, '_parse_%s' % token.tagname)
+                    parser = getattr(self, '_parse_%s' % token.tagname, None)
+                    if parser is None:
+                        raise self.error('Unexpected tag %s' % token.tagname, token)
                     node = parser(token)
                     if node is not None:
                         node.filename = token.filename
@@ -265,7 +280,8 @@ class _Parser(object):
     def _parse_call(self, token):
         b = token.body.find('(')
         e = token.body.find(')', b)
-        assert e > b > -1
+        if not e > b > -1:
+            raise self.error('Invalid arguments of tag call', token)
         arglist = token.body[b:e + 1]
         call = token.body[e + 1:].strip()
         body = list(self._parse_body('end'))
@@ -277,6 +293,8 @@ class _Parser(object):
     def _parse_if(self, token):
         body = list(self._parse_body('end', 'else'))
         stoptok = body[-1]
+        if stoptok is None:
+            raise self.error('Tag if without end', token)
         if stoptok.tagname == 'else':
             # It follows this if in the same body, which it must not end.
             self._else_of_if = stoptok
@@ -298,6 +316,8 @@ class _Parser(object):
     def _parse_case(self, token):
         body = list(self._parse_body('case', 'else', 'end'))
         stoptok = body[-1]
+        if stoptok is None:
+            raise self.error('Tag case without end', token)
         self.push_tok(stoptok)
         return ir.CaseNode(token.body, *body[:-1])
 
@@ -306,25 +326,20 @@ class _Parser(object):
         return ir.ElseNode(*body[:-1])
 
     def _parse_extends(self, token):
-        parts = shlex_split(token.body)
-        fn = parts[0]
-        assert len(parts) == 1
+        fn = self._split_args(token)[0]
         self._is_child = True
         return ir.ExtendNode(fn)
 
     def _parse_import(self, token):
-        parts = shlex_split(token.body)
+        parts = self._split_args(token)
         fn = parts[0]
         if len(parts) > 1:
-            assert parts[1] == 'as'
             return ir.ImportNode(fn, parts[2])
         else:
             return ir.ImportNode(fn)
 
     def _parse_include(self, token):
-        parts = shlex_split(token.body)
-        fn = parts[0]
-        assert len(parts) == 1
+        fn = self._split_args(token)[0]
         return ir.IncludeNode(fn)
 
     def _parse_py(self, token):
-- 
2.43.0


From f168a8bc99c89cbe7abb86576bdb109e04ace5c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:21 +0000
Subject: [PATCH 46/57] fix: expressions in the code blocks of text templates
 raised AssertionError

---
 kajiki/text.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kajiki/text.py b/kajiki/text.py
index 06981bc..f3e7b38 100644
--- a/kajiki/text.py
+++ b/kajiki/text.py
@@ -348,6 +348,8 @@ class _Parser(object):
             body = [ir.TextNode(body), None]
         else:
             body = list(self._parse_body('end'))
+            if not all(isinstance(n, ir.TextNode) for n in body[:-1]):
+                raise self.error('Python code contains a tag or an expression', token)
         node = ir.PythonNode(*body[:-1])
         if node.module_level:
             node.filename = token.filename
-- 
2.43.0


From c32bf9feb82f6838ec98fca0ee05116adfd0beb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:14 +0000
Subject: [PATCH 47/57] fix: code blocks that are indented, empty, or contain
 blank lines or strings over several lines

---
 kajiki/ir.py | 63 +++++++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 53 insertions(+), 10 deletions(-)

diff --git a/kajiki/ir.py b/kajiki/ir.py
index 0135507..76624c5 100644
--- a/kajiki/ir.py
+++ b/kajiki/ir.py
@@ -3,6 +3,8 @@
 from __future__ import (absolute_import, division, print_function,
                         unicode_literals)
 import re
+import tokenize
+from io import StringIO
 
 from .util import gen_name, flattener
 from nine import nine
@@ -423,7 +425,7 @@ class PythonNode(Node):
             assert isinstance(b, TextNode)
             blocks.append(b.text)
         text = ''.join(blocks)
-        if text[0] == '%':
+        if text.startswith('%'):
             self.module_level = True
             text = text[1:]
         self.lines = list(self._normalize(text))
@@ -433,15 +435,56 @@ class PythonNode(Node):
             yield self.line(line)
 
     def _normalize(self, text):
-        if text.startswith('#\n'):
-            text = text[2:]
-        prefix = None
-        for line in text.splitlines():
-            if prefix is None:
-                rest = line.lstrip()
-                prefix = line[:len(line) - len(rest)]
-            assert line.startswith(prefix)
-            yield line[len(prefix):]
+        """Generate the logical lines of the code, without their common indentation.
+
+        The lines that continue a statement, which might be inside a string,
+        are left alone.
+        """
+        text = re.sub('\r\n?', '\n', text)
+        lines = []
+        # Don't use splitlines(), as strings may contain characters like U+2028
+        continued, opens_block = self._scan(text)
+        for i, line in enumerate(text.split('\n')):
+            if i in continued:
+                lines[-1] += '\n' + line
+            elif line.strip() and not line.lstrip().startswith('#'):
+                lines.append(line)
+        if not lines:
+            lines = ['pass']
+        indents = [len(line) - len(line.lstrip()) for line in lines]
+        common = min(indents)
+        if len(lines) > 1 and common == 0:
+            # The indentation of the first line of a <?py ?> gets lost
+            rest = min(indents[1:])
+            if not opens_block or indents[1] > rest:
+                lines[1:] = [line[rest:] for line in lines[1:]]
+        for line in lines:
+            yield line[common:]
+
+    @staticmethod
+    def _scan(text):
+        """Return the indexes of the lines that continue a statement, and
+        whether the first statement opens a block.
+        """
+        continued = set()
+        opens_block = None
+        start = last = None
+        # The indentation doesn't matter here
+        stripped = '\n'.join([line.lstrip() for line in text.split('\n')])
+        try:
+            for token in tokenize.generate_tokens(StringIO(stripped + '\n').readline):
+                if token[0] == tokenize.NEWLINE:
+                    continued.update(range(start or token[2][0], token[2][0]))
+                    if opens_block is None:
+                        opens_block = last == ':'
+                    start = None
+                elif token[0] not in (tokenize.NL, tokenize.COMMENT):
+                    last = token[1]
+                    if start is None:
+                        start = token[2][0]
+        except (tokenize.TokenError, SyntaxError):
+            pass  # The code will be found invalid when it is compiled
+        return continued, opens_block
 
 
 def optimize(iter_node):
-- 
2.43.0


From e66a556ac39fbb0d3513b9fc3f415b1843ad264f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:16 +0000
Subject: [PATCH 48/57] fix: backslashes in the code blocks of text templates
 were removed

---
 kajiki/text.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/kajiki/text.py b/kajiki/text.py
index f3e7b38..75f30fc 100644
--- a/kajiki/text.py
+++ b/kajiki/text.py
@@ -345,12 +345,17 @@ class _Parser(object):
     def _parse_py(self, token):
         body = token.body.strip()
         if body:
-            body = [ir.TextNode(body), None]
+            body = [ir.TextNode(body)]
         else:
-            body = list(self._parse_body('end'))
-            if not all(isinstance(n, ir.TextNode) for n in body[:-1]):
-                raise self.error('Python code contains a tag or an expression', token)
-        node = ir.PythonNode(*body[:-1])
+            # The backslashes in the code are none of our business.
+            body = []
+            for tok in self.iterator:
+                if isinstance(tok, _Tag) and tok.tagname == 'end':
+                    break
+                if not isinstance(tok, _Text):
+                    raise self.error('Python code contains a tag or an expression', token)
+                body.append(ir.TextNode(tok.text))
+        node = ir.PythonNode(*body)
         if node.module_level:
             node.filename = token.filename
             node.lineno = token.lineno
-- 
2.43.0


From 4c62356f2463fdf2f9f7f79cb65571953296d611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:56 +0000
Subject: [PATCH 49/57] fix: TurboGears 1 templates from strings raised a
 TypeError

---
 kajiki/integration/turbogears1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kajiki/integration/turbogears1.py b/kajiki/integration/turbogears1.py
index 2f69ffd..f235666 100644
--- a/kajiki/integration/turbogears1.py
+++ b/kajiki/integration/turbogears1.py
@@ -25,7 +25,7 @@ class ConfigurationError(ValueError):
 
 
 class XMLTemplateEnginePlugin(object):
-    template_class = XMLTemplate
+    template_class = staticmethod(XMLTemplate)  # This is a function
 
     def __init__(self, extra_vars_func=None, engine_options=None):
         engine_options = engine_options or {}
-- 
2.43.0


From df62196b3e3775949447e650b3cd86ee7abecd47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:56 +0000
Subject: [PATCH 50/57] fix: TurboGears 1 plugin without extra variables could
 not render

---
 kajiki/integration/turbogears1.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kajiki/integration/turbogears1.py b/kajiki/integration/turbogears1.py
index f235666..876beb5 100644
--- a/kajiki/integration/turbogears1.py
+++ b/kajiki/integration/turbogears1.py
@@ -76,5 +76,6 @@ class XMLTemplateEnginePlugin(object):
         if isinstance(template, basestring):
             template = self.load_template(template)
 
-        info.update(self.get_extra_vars())
+        if self.get_extra_vars:
+            info.update(self.get_extra_vars())
         return template(info)
-- 
2.43.0


From c672da653a644691ce10a84b95a96467a9df2f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:56 +0000
Subject: [PATCH 51/57] fix: XML templates could not begin with a byte order
 mark

---
 kajiki/doctype.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/kajiki/doctype.py b/kajiki/doctype.py
index d5f1611..d1452d5 100644
--- a/kajiki/doctype.py
+++ b/kajiki/doctype.py
@@ -80,9 +80,9 @@ class DocumentTypeDeclaration(object):
 
     REGEX = re.compile(r'<!DOCTYPE[^>]+>')  # This matches any DTD.
 
-    # What can come before a DTD: white space, the XML declaration, processing
-    # instructions and comments.
-    PROLOG_REGEX = re.compile(r'(?:\s+|<\?.*?\?>|<!--.*?-->)*', flags=re.DOTALL)
+    # What can come before a DTD: a byte order mark, white space, the XML
+    # declaration, processing instructions and comments.
+    PROLOG_REGEX = re.compile('\ufeff?' r'(?:\s+|<\?.*?\?>|<!--.*?-->)*', flags=re.DOTALL)
 
 
 # Build the public DTDs dictionary
-- 
2.43.0


From c301dd6af6dd39de0bf28c0d2187468c88af61b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:41 +0000
Subject: [PATCH 52/57] fix: PackageLoader looked for the files of loaded
 templates with reload off

---
 kajiki/loader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kajiki/loader.py b/kajiki/loader.py
index 12864bc..71e12fc 100644
--- a/kajiki/loader.py
+++ b/kajiki/loader.py
@@ -73,8 +73,8 @@ class FileLoader(Loader):
 
     def import_(self, name, *args, **kwargs):
         with self._lock:
-            filename = self._filename(name)
             if self._reload and name in self.modules:
+                filename = self._filename(name)
                 if filename is None:  # The file is gone.
                     raise IOError('Unknown template %r' % name)
                 mtime = os.stat(filename).st_mtime
-- 
2.43.0


From 591942a2b93f79b58cd86fd807d38369d0d1035f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:22:36 +0000
Subject: [PATCH 53/57] fix: the documented force_mode 'txt' rendered templates
 as XML

---
 kajiki/loader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kajiki/loader.py b/kajiki/loader.py
index 71e12fc..1b4290e 100644
--- a/kajiki/loader.py
+++ b/kajiki/loader.py
@@ -94,7 +94,7 @@ class FileLoader(Loader):
         if filename is None:
             raise IOError('Unknown template %r' % name)
         self._timestamps[name] = (filename, os.stat(filename).st_mtime)
-        if self._force_mode == 'text':
+        if self._force_mode in ('text', 'txt'):
             return TextTemplate(filename=filename,
                 autoescape=self._autoescape_text, *args, **options)
         elif self._force_mode:
-- 
2.43.0


From 2d141f9155b2855f5d8d4ce79d6d4b1342eecb6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:49 +0000
Subject: [PATCH 54/57] fix: a function that fails or isn't run to its end must
 not disturb py:switch and py:with elsewhere

The values were kept on stacks shared by all functions of the rendering. When
a function raised an exception that the caller handled, or when it was only
run in part or alternately with another one, what it had pushed was taken for
the value of the enclosing py:switch or py:with.
---
 kajiki/ir.py       | 30 +++++++++++++++++-------------
 kajiki/template.py | 21 +++++----------------
 2 files changed, 22 insertions(+), 29 deletions(-)

diff --git a/kajiki/ir.py b/kajiki/ir.py
index 76624c5..6d93b50 100644
--- a/kajiki/ir.py
+++ b/kajiki/ir.py
@@ -210,13 +210,13 @@ class WithNode(HierNode):
     assignment_pattern = re.compile(r'(?:^|;)\s*([^;=]+)=(?!=)', re.M)
 
     class WithTail(Node):
-        def __init__(self, var_names):
+        def __init__(self, var_names, saved):
             super(WithNode.WithTail, self).__init__()
             self.var_names = var_names
+            self.saved = saved
 
         def py(self):
-            yield self.line('(%s,) = local.__kj__.pop_with()' %
-                            (','.join(self.var_names),))
+            yield self.line('(%s,) = %s' % (','.join(self.var_names), self.saved))
             # yield self.line('if %s == (): del %s' % (v, v))
 
     def __init__(self, vars, *body):
@@ -234,6 +234,7 @@ class WithNode(HierNode):
 
         self.vars = assignments
         self.var_names = [l for l, _ in assignments]
+        self.saved = gen_name()  # Variable that holds the previous values
 
     @staticmethod
     def _is_complete(code):
@@ -245,8 +246,8 @@ class WithNode(HierNode):
 
     def py(self):
         yield self.line(
-            'local.__kj__.push_with(locals(), [%s])' % (
-                ','.join('"%s"' % k for k in self.var_names),))
+            '%s = local.__kj__.save_vars(locals(), [%s])' % (
+                self.saved, ','.join('"%s"' % k for k in self.var_names)))
         for k, v in self.vars:
             yield self.line('%s = %s' % (k, v))
 
@@ -254,36 +255,39 @@ class WithNode(HierNode):
         yield self
         for x in self.body_iter():
             yield x
-        yield self.WithTail(self.var_names)
+        yield self.WithTail(self.var_names, self.saved)
 
 
 class SwitchNode(HierNode):
-    class SwitchTail(Node):
-        def py(self):
-            yield self.line('local.__kj__.pop_switch()')
-
     def __init__(self, decl, *body):
         super(SwitchNode, self).__init__(body)
         self.decl = decl
+        # The value is in a local variable, as a stack shared with the other
+        # functions would depend on each of them running until its end.
+        self.subject = gen_name()
+        for node in self.body:
+            if isinstance(node, CaseNode):
+                node.subject = self.subject
 
     def py(self):
-        yield self.line('local.__kj__.push_switch(%s)' % parenthesize(self.decl))
+        yield self.line('%s = %s' % (self.subject, parenthesize(self.decl)))
         yield self.line('if False: pass')
 
     def __iter__(self):
         yield self
         for x in self.body_iter():
             yield x
-        yield self.SwitchTail()
 
 
 class CaseNode(HierNode):
+    subject = ''  # Name of the variable, assigned by the SwitchNode
+
     def __init__(self, decl, *body):
         super(CaseNode, self).__init__(body)
         self.decl = decl
 
     def py(self):
-        yield self.line('elif local.__kj__.case(%s):' % parenthesize(self.decl))
+        yield self.line('elif %s == %s:' % (parenthesize(self.decl), self.subject))
 
 
 class IfNode(HierNode):
diff --git a/kajiki/template.py b/kajiki/template.py
index 8dd06cf..78fbdda 100644
--- a/kajiki/template.py
+++ b/kajiki/template.py
@@ -51,7 +51,7 @@ class _Template(object):
         - ``Markup`` which marks the passed object as markup code and
           prevents escaping for its content.
         - ``__kj__`` which is a special object used by generated code
-          providing features like keeping track of py:with stack or
+          providing features like saving the variables of py:with
           or the gettext function used to translate text.
     """
     __methods__ = ()
@@ -83,13 +83,11 @@ class _Template(object):
             escape=self._escape,
             gettext=self._gettext,
             render_attrs=self._render_attrs,
-            push_with=self._push_with,
-            pop_with=self._pop_with,
+            save_vars=self._save_vars,
             collect=self._collect,
         )
         self._borrowed = set()  # names of globals of the including template
         self._switch_stack = []
-        self._with_stack = []
         self.__globals__.update(context)
         self.__globals__['_'] = self.__globals__['gettext']
         self.__globals__['value_of'] = self.__globals__.get
@@ -110,24 +108,15 @@ class _Template(object):
         """Used by the code generated by the template to translate static text"""
         return self.__globals__['gettext'](s)
 
-    def _push_with(self, locals_, vars):
+    def _save_vars(self, locals_, vars):
         """Enter a ``py:with`` block.
 
         When a ``py:with`` block is encountered, previous values
         of the variables assigned inside the ``py:with`` statement are
-        pushed on top of a stack by :class:`kajiki.ir.WithNode` so that
+        saved in a variable by :class:`kajiki.ir.WithNode` so that
         when the node is exited the previous values can be recovered.
         """
-        self._with_stack.append([locals_.get(k, ()) for k in vars])
-
-    def _pop_with(self):
-        """Exists a ``py:with`` block.
-
-        When a ``py:with`` block is exited the values stack is popped
-        and the head returned to :class:`kajiki.ir.WithNode` so that
-        it can set any previously existing variable to its old value.
-        """
-        return self._with_stack.pop()
+        return [locals_.get(k, ()) for k in vars]
 
     def _extend(self, parent):
         """
-- 
2.43.0


From 2f387203581800db257f37e780752407ba1067a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:20 +0000
Subject: [PATCH 55/57] fix: the unknown tag {%body%} of a text template must
 be a syntax error like any other

---
 kajiki/text.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kajiki/text.py b/kajiki/text.py
index 75f30fc..09dddff 100644
--- a/kajiki/text.py
+++ b/kajiki/text.py
@@ -252,7 +252,7 @@ class _Parser(object):
                         yield token
                         break
                     parser = getattr(self, '_parse_%s' % token.tagname, None)
-                    if parser is None:
+                    if parser is None or parser == self._parse_body:
                         raise self.error('Unexpected tag %s' % token.tagname, token)
                     node = parser(token)
                     if node is not None:
-- 
2.43.0


From 8d2a05eaac01d2bf3d23cd8d201501514ed78d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:23 +0000
Subject: [PATCH 56/57] fix: elements named py:text, py:comment, py:pi and
 py:node must not crash the compiler

---
 kajiki/xml_template.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/kajiki/xml_template.py b/kajiki/xml_template.py
index e6c7b7c..f517bd0 100644
--- a/kajiki/xml_template.py
+++ b/kajiki/xml_template.py
@@ -191,8 +191,11 @@ class _Compiler(object):
             return self._compile_block(node)
         elif node.tagName.startswith('py:'):
             # Handle directives
+            directive = node.tagName.split(':')[-1]
+            if directive in ('comment', 'node', 'pi', 'text'):
+                directive = 'xml'   # those compile other nodes, not elements
             compiler = getattr(
-                self, '_compile_%s' % node.tagName.split(':')[-1],
+                self, '_compile_%s' % directive,
                 self._compile_xml)
             return compiler(node)
         else:
-- 
2.43.0


From 308c3e67727e25dec9fc0da20a141a6e35e7d663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:45:15 +0000
Subject: [PATCH 57/57] fix: join lines that end in a backslash and CRLF in
 text templates

---
 kajiki/text.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kajiki/text.py b/kajiki/text.py
index 09dddff..337ae07 100644
--- a/kajiki/text.py
+++ b/kajiki/text.py
@@ -411,7 +411,9 @@ def _unescape_newlines(text):
     i = 0
     while i < len(text):
         if text[i] == '\\' and i + 1 < len(text):
-            if text[i + 1] != '\n':
+            if text[i + 1:i + 3] == '\r\n':
+                i += 1
+            elif text[i + 1] != '\n':
                 yield text[i + 1]
             i += 2
         else:
-- 
2.43.0


From 0defd499799bd58960bd2bba66c15757d17ee197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:50:59 +0000
Subject: [PATCH 01/46] fix: keep attribute replacements when a structure is
 inserted again

tal:replace="structure ..." combined with tal:attributes consumed the
attribute dictionary stored in the compiled program, so the second
rendering (or loop iteration) lost the attributes.  Work on a copy.
---
 src/zope/tal/talinterpreter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/zope/tal/talinterpreter.py b/src/zope/tal/talinterpreter.py
index 33187f8..3c7c8b1 100644
--- a/src/zope/tal/talinterpreter.py
+++ b/src/zope/tal/talinterpreter.py
@@ -82,7 +82,9 @@ class AltTALGenerator(TALGenerator):
 
     def replaceAttrs(self, attrlist, repldict):
         if self.enabled and self.repldict:
-            repldict = self.repldict
+            # The dictionary belongs to the compiled program and is consumed
+            # by the base class, so work on a copy.
+            repldict = self.repldict.copy()
             self.repldict = None
         return TALGenerator.replaceAttrs(self, attrlist, repldict)
 
-- 
2.43.0


From 85870675e995d2ebe82a323cce08402ef505fe0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:51:01 +0000
Subject: [PATCH 02/46] fix: leave macros behind when tal:on-error handles an
 error

An error raised while a macro was being expanded left the macro stack,
the in-use flag and the source file as they were inside the macro.
Later slots were then filled by the failed use, and failed uses counted
towards the nesting limit.
---
 src/zope/tal/talinterpreter.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/zope/tal/talinterpreter.py b/src/zope/tal/talinterpreter.py
index 3c7c8b1..eb8d704 100644
--- a/src/zope/tal/talinterpreter.py
+++ b/src/zope/tal/talinterpreter.py
@@ -996,6 +996,9 @@ class TALInterpreter:
     def do_onError_tal(self, stuff):
         (block, handler) = stuff
         state = self.saveState()
+        macroDepth = len(self.macroStack)
+        inUseDirective = self.inUseDirective
+        sourceFile = self.sourceFile
         self.stream = stream = self.StringIO()
         self._stream_write = stream.write
         try:
@@ -1009,6 +1012,12 @@ class TALInterpreter:
             try:
                 self.restoreState(state)
                 engine = self.engine
+                # Leave the macros that were being expanded.
+                del self.macroStack[macroDepth:]
+                self.inUseDirective = inUseDirective
+                if self.sourceFile != sourceFile:
+                    engine.setSourceFile(sourceFile)
+                    self.sourceFile = sourceFile
                 engine.beginScope()
                 error = engine.createErrorInfo(exc, self.position)
             finally:
-- 
2.43.0


From a1401b1ba9208d79b80a593f6c2f7101ea45221a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:51:02 +0000
Subject: [PATCH 03/46] fix: drop the translation unit's mapping when its
 content fails

An error inside i18n:translate that was handled by an enclosing
tal:on-error left the failed unit on the interpolation stack, so later
i18n:name values went to the wrong unit.
---
 src/zope/tal/talinterpreter.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/zope/tal/talinterpreter.py b/src/zope/tal/talinterpreter.py
index eb8d704..59b6685 100644
--- a/src/zope/tal/talinterpreter.py
+++ b/src/zope/tal/talinterpreter.py
@@ -733,16 +733,15 @@ class TALInterpreter:
             self.interpret(stuff[1])
         finally:
             self.popStream()
+            self.i18nStack.pop()
         # We only care about the evaluated contents if we need an implicit
-        # message id.  All other useful information will be in the i18ndict on
-        # the top of the i18nStack.
+        # message id.  All other useful information will be in the i18ndict.
         default = tmpstream.getvalue()
         if not msgid:
             if self.html and currentTag == "pre":
                 msgid = default
             else:
                 msgid = normalize(default)
-        self.i18nStack.pop()
         # See if there is was an i18n:data for msgid
         if len(stuff) > 2:
             obj = self.engine.evaluate(stuff[2])
-- 
2.43.0


From 1bb7737deea34ff03c2b325f23201687c1c09e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:51:04 +0000
Subject: [PATCH 04/46] fix: balance i18n:translate level for elements with
 tal:content

The level was incremented for every i18n:translate but only decremented
without tal:content, so a stray i18n:name later in the template was
accepted by the compiler and failed at rendering time.
---
 src/zope/tal/talgenerator.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/zope/tal/talgenerator.py b/src/zope/tal/talgenerator.py
index e3d29bb..3b73f5e 100644
--- a/src/zope/tal/talgenerator.py
+++ b/src/zope/tal/talgenerator.py
@@ -788,8 +788,9 @@ class TALGenerator:
         #
         # Still, we should emit insertTranslation opcode before i18nVariable
         # in case tal:content, i18n:translate and i18n:name in the same tag
-        if not content and msgid is not None:
-            self.emitTranslation(msgid, i18ndata)
+        if msgid is not None:
+            if not content:
+                self.emitTranslation(msgid, i18ndata)
             self.i18nLevel -= 1
         if optTag:
             self.emitOptTag(name, optTag, isend)
-- 
2.43.0


From ecadd03ec0b5596bd5263ad778d0e6b7371e0b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:51:05 +0000
Subject: [PATCH 05/46] fix: render empty tal: elements without attributes in
 XML

Minimizing the empty element was done after its start tag had been
optimized to plain text, which produced a malformed instruction.
---
 src/zope/tal/talgenerator.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/zope/tal/talgenerator.py b/src/zope/tal/talgenerator.py
index 3b73f5e..69651c4 100644
--- a/src/zope/tal/talgenerator.py
+++ b/src/zope/tal/talgenerator.py
@@ -255,11 +255,12 @@ class TALGenerator:
 
     def emitOptTag(self, name, optTag, isend):
         program = self.popProgram()  # block
-        start = self.popProgram()  # start tag
         if (isend or not program) and self.xml:
-            # Minimize empty element
-            start[-1] = ("startEndTag",) + start[-1][1:]
+            # Minimize empty element; this must be done before the start tag
+            # program is optimized, which can turn the tag into plain text.
+            self.program[-1] = ("startEndTag",) + self.program[-1][1:]
             isend = 1
+        start = self.popProgram()  # start tag
         cexpr = optTag[0]
         if cexpr:
             cexpr = self.compileExpression(optTag[0])
-- 
2.43.0


From fe623a87f6f5fa71503b686bbe71b53e05ff83bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:51:07 +0000
Subject: [PATCH 06/46] fix: translate boolean HTML attributes named only in
 i18n:attributes

There is no expression to evaluate for such attributes.
---
 src/zope/tal/talinterpreter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/zope/tal/talinterpreter.py b/src/zope/tal/talinterpreter.py
index 59b6685..abe2b58 100644
--- a/src/zope/tal/talinterpreter.py
+++ b/src/zope/tal/talinterpreter.py
@@ -488,7 +488,8 @@ class TALInterpreter:
         name, value, action = item[:3]
         ok = 1
         expr, xlat, msgid = item[3:]
-        if self.html and name.lower() in BOOLEAN_HTML_ATTRS:
+        if (expr is not None and self.html
+                and name.lower() in BOOLEAN_HTML_ATTRS):
             evalue = self.engine.evaluateBoolean(item[3])
             if evalue is self.Default:
                 if action == 'insert':  # Cancelled insert
-- 
2.43.0


From 99ec3f7b1eb4b060ac637ee386e52b877f930393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:51:09 +0000
Subject: [PATCH 07/46] fix: report where the error occurred to tal:on-error
 handlers

The error info was created after the position had been reset to the
element carrying tal:on-error.
---
 src/zope/tal/talinterpreter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/zope/tal/talinterpreter.py b/src/zope/tal/talinterpreter.py
index abe2b58..18e420d 100644
--- a/src/zope/tal/talinterpreter.py
+++ b/src/zope/tal/talinterpreter.py
@@ -1009,6 +1009,7 @@ class TALInterpreter:
         # handled.
         except BaseException:
             exc = sys.exc_info()[1]
+            position = self.position  # where the error occurred
             try:
                 self.restoreState(state)
                 engine = self.engine
@@ -1019,7 +1020,7 @@ class TALInterpreter:
                     engine.setSourceFile(sourceFile)
                     self.sourceFile = sourceFile
                 engine.beginScope()
-                error = engine.createErrorInfo(exc, self.position)
+                error = engine.createErrorInfo(exc, position)
             finally:
                 # Avoid traceback reference cycle due to the __traceback__
                 # attribute.
-- 
2.43.0


From 0cbf3a776d9621368cd1be94222bcafec4d5f7ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:51:11 +0000
Subject: [PATCH 08/46] fix: accept script elements with a valueless type
 attribute

---
 src/zope/tal/htmltalparser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/zope/tal/htmltalparser.py b/src/zope/tal/htmltalparser.py
index 1dd632a..ddc6212 100644
--- a/src/zope/tal/htmltalparser.py
+++ b/src/zope/tal/htmltalparser.py
@@ -194,7 +194,8 @@ class HTMLTALParser(HTMLParser):
         # Support for inline Python code.
         if tag == 'script':
             type_attr = [a for a in attrlist if a[0] == "type"]
-            if type_attr and type_attr[0][1].startswith('text/server-'):
+            if (type_attr
+                    and (type_attr[0][1] or '').startswith('text/server-')):
                 attrlist.remove(type_attr[0])
                 taldict = {'script': type_attr[0][1], 'omit-tag': ''}
         self.tagstack.append(tag)
-- 
2.43.0


From f10004872d1b8bad705ac9d649b3924f8e2fbd12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:51:12 +0000
Subject: [PATCH 09/46] fix: keep XML mode after inserting a structure into an
 XML template

The fragment was compiled in HTML mode.  Interpreting it switched the
rest of the rendering to HTML mode, so later macros were refused and
boolean attributes were evaluated.
---
 src/zope/tal/talinterpreter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zope/tal/talinterpreter.py b/src/zope/tal/talinterpreter.py
index 18e420d..fdf58fe 100644
--- a/src/zope/tal/talinterpreter.py
+++ b/src/zope/tal/talinterpreter.py
@@ -811,7 +811,7 @@ class TALInterpreter:
 
     def insertXMLStructure(self, text, repldict):
         from zope.tal.talparser import TALParser
-        gen = AltTALGenerator(repldict, self.engine, 0)
+        gen = AltTALGenerator(repldict, self.engine, 1)
         p = TALParser(gen)
         gen.enable(0)
         p.parseFragment('<!DOCTYPE foo PUBLIC "foo" "bar"><foo>')
-- 
2.43.0


From 0a196b432c1ada666c7cd5134abb9b67273bce88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:51:41 +0000
Subject: [PATCH 10/46] fix: warn about a message with and without a default
 instead of failing

Message extraction raised an AttributeError while formatting the
warning when one of the conflicting defaults was missing.
---
 src/zope/tal/talgettext.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/zope/tal/talgettext.py b/src/zope/tal/talgettext.py
index 08f621b..79a2e49 100644
--- a/src/zope/tal/talgettext.py
+++ b/src/zope/tal/talgettext.py
@@ -123,8 +123,8 @@ class POEngine(DummyEngine):
                     (msgid.encode('utf-8'),
                      self.file.encode('utf-8') + b':'
                      + str(position).encode('utf-8'),
-                     msgid.default.encode('utf-8'),
-                     existing_msgid.default.encode('utf-8'),
+                     (msgid.default or msgid).encode('utf-8'),
+                     (existing_msgid.default or msgid).encode('utf-8'),
                      references.encode('utf-8')))
         domain[msgid].append((self.file, position))
         return 'x'
-- 
2.43.0


From 0894ed71c0ddac092b2c52b0f87c15f5e96645f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:51:41 +0000
Subject: [PATCH 11/46] fix: keep the prefix used in the source when two
 prefixes share a URI

The prefix was looked up by namespace URI, so an attribute could be
written back with the prefix of another declaration, or with none.
---
 src/zope/tal/talparser.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/zope/tal/talparser.py b/src/zope/tal/talparser.py
index 38c740b..ec26383 100644
--- a/src/zope/tal/talparser.py
+++ b/src/zope/tal/talparser.py
@@ -41,6 +41,8 @@ class TALParser(XMLParser):
             code generator to use. If one is not given, a default will be used.
         """
         XMLParser.__init__(self, encoding)
+        # Names are reported with the prefix used in the source.
+        self.parser.namespace_prefixes = True
         if gen is None:
             gen = TALGenerator()
         self.gen = gen
@@ -124,11 +126,10 @@ class TALParser(XMLParser):
 
     def fixname(self, name):
         if ' ' in name:
-            uri, name = name.split(' ', 1)
-            prefix = self.nsDict[uri]
+            uri, name, *prefix = name.split(' ')
             prefixed = name
             if prefix:
-                prefixed = f"{prefix}:{name}"
+                prefixed = f"{prefix[0]}:{name}"
             ns = self._namespaces.get(uri, "x")
             return (prefixed, name, ns)
         return (name, name, None)
-- 
2.43.0


From 00a3f4b5c36caead25d3bb05e787ebb4dd650c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:51:41 +0000
Subject: [PATCH 12/46] fix: do not hide changed globals behind copied locals
 in the dummy engine

The outermost locals were the globals dictionary itself.  A scope that
set a local copied the globals too and did not see later setGlobal()
calls.
---
 src/zope/tal/dummyengine.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/zope/tal/dummyengine.py b/src/zope/tal/dummyengine.py
index 593e8b4..44c8a96 100644
--- a/src/zope/tal/dummyengine.py
+++ b/src/zope/tal/dummyengine.py
@@ -46,8 +46,11 @@ class DummyEngine:
             macros = {}
         self.macros = macros
         dict = {'nothing': None, 'default': Default}
-        self.locals = self.globals = dict
-        self.stack = [dict]
+        self.globals = dict
+        # Not shared with the globals: scopes copy the enclosing locals, and
+        # copies of globals would hide later changes by setGlobal().
+        self.locals = {}
+        self.stack = [self.locals]
         self.translationDomain = DummyTranslationDomain()
         self.useEngineAttrDicts = False
 
-- 
2.43.0


From 8e08588a9c07c62b9aa035eb2107dfcae5944cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:41:49 +0000
Subject: [PATCH 13/46] fix: drop names recorded by a failed on-error block
 from the translation mapping

A sub-element named with i18n:name inside an element whose failure was
handled by tal:on-error stayed in the mapping of the enclosing
translation, although its output had been discarded.
---
 src/zope/tal/talinterpreter.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/zope/tal/talinterpreter.py b/src/zope/tal/talinterpreter.py
index fdf58fe..42cbd37 100644
--- a/src/zope/tal/talinterpreter.py
+++ b/src/zope/tal/talinterpreter.py
@@ -999,6 +999,7 @@ class TALInterpreter:
         macroDepth = len(self.macroStack)
         inUseDirective = self.inUseDirective
         sourceFile = self.sourceFile
+        i18nNames = dict(self.i18nStack[-1][0]) if self.i18nStack else None
         self.stream = stream = self.StringIO()
         self._stream_write = stream.write
         try:
@@ -1019,6 +1020,11 @@ class TALInterpreter:
                 if self.sourceFile != sourceFile:
                     engine.setSourceFile(sourceFile)
                     self.sourceFile = sourceFile
+                if i18nNames is not None:
+                    # Forget the names given inside the failed block.
+                    i18ndict = self.i18nStack[-1][0]
+                    i18ndict.clear()
+                    i18ndict.update(i18nNames)
                 engine.beginScope()
                 error = engine.createErrorInfo(exc, position)
             finally:
-- 
2.43.0


From adc0e7df1514ef1e0435b3e922babe86ed141700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:57:04 +0000
Subject: [PATCH 14/46] fix: keep source annotations in place around on-error
 blocks

The first text of an on-error block was written without the pending
annotation, an annotation due after the block was put before it, and an
annotation written by a failed block was lost with the block's output.
---
 src/zope/tal/talinterpreter.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/zope/tal/talinterpreter.py b/src/zope/tal/talinterpreter.py
index 42cbd37..2315fdf 100644
--- a/src/zope/tal/talinterpreter.py
+++ b/src/zope/tal/talinterpreter.py
@@ -1000,8 +1000,10 @@ class TALInterpreter:
         inUseDirective = self.inUseDirective
         sourceFile = self.sourceFile
         i18nNames = dict(self.i18nStack[-1][0]) if self.i18nStack else None
+        pending = self._pending_source_annotation
         self.stream = stream = self.StringIO()
-        self._stream_write = stream.write
+        if not pending:
+            self._stream_write = stream.write
         try:
             self.interpret(block)
         # TODO: this should not catch ZODB.POSException.ConflictError.
@@ -1012,6 +1014,7 @@ class TALInterpreter:
             exc = sys.exc_info()[1]
             position = self.position  # where the error occurred
             try:
+                self._pending_source_annotation = pending
                 self.restoreState(state)
                 engine = self.engine
                 # Leave the macros that were being expanded.
@@ -1037,8 +1040,14 @@ class TALInterpreter:
             finally:
                 engine.endScope()
         else:
+            # The block is annotated already; what is pending comes after it.
+            pending = self._pending_source_annotation
+            self._pending_source_annotation = False
             self.restoreOutputState(state)
             self.stream_write(stream.getvalue())
+            if pending:
+                self._pending_source_annotation = True
+                self._stream_write = self._annotated_stream_write
     bytecode_handlers["onError"] = do_onError
 
     bytecode_handlers_tal = bytecode_handlers.copy()
-- 
2.43.0


From 9a513ac92efe13e90c6bf26effb42806908034cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:57:06 +0000
Subject: [PATCH 15/46] fix: do not annotate empty output

Inserting an empty text wrote the pending source annotation although no
markup of that source file followed.
---
 src/zope/tal/talinterpreter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zope/tal/talinterpreter.py b/src/zope/tal/talinterpreter.py
index 2315fdf..65cd502 100644
--- a/src/zope/tal/talinterpreter.py
+++ b/src/zope/tal/talinterpreter.py
@@ -308,7 +308,7 @@ class TALInterpreter:
 
     def _annotated_stream_write(self, s):
         idx = s.find('<?xml')
-        if idx >= 0 or s.isspace():
+        if idx >= 0 or not s or s.isspace():
             # Do not preprend comments in front of the <?xml?> declaration.
             end_of_doctype = s.find('?>', idx)
             if end_of_doctype > idx:
-- 
2.43.0


From 4e2449bd0259c1a4f323f767beba1bd61a6648bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:58:24 +0000
Subject: [PATCH 16/46] fix: let local variables take precedence in the dummy
 engine's getValue

evaluate() already did; getValue() returned a global of the same name,
so that the macroname restored after a macro could be the wrong one.
---
 src/zope/tal/dummyengine.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/zope/tal/dummyengine.py b/src/zope/tal/dummyengine.py
index 44c8a96..69b2913 100644
--- a/src/zope/tal/dummyengine.py
+++ b/src/zope/tal/dummyengine.py
@@ -87,10 +87,9 @@ class DummyEngine:
         self.globals[name] = value
 
     def getValue(self, name, default=None):
-        value = self.globals.get(name, default)
-        if value is default:
-            value = self.locals.get(name, default)
-        return value
+        if name in self.locals:
+            return self.locals[name]
+        return self.globals.get(name, default)
 
     def evaluate(self, expression):
         assert expression.startswith("$") and expression.endswith("$"), \
-- 
2.43.0


From ee5a4798124c72edb5db4ded7861382de2579afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:58:26 +0000
Subject: [PATCH 17/46] fix: keep variables set by inline code inside the
 current scope

The dummy engine updated the dictionary it still shared with the
enclosing scope, so the variables survived endScope().
---
 src/zope/tal/dummyengine.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/zope/tal/dummyengine.py b/src/zope/tal/dummyengine.py
index 69b2913..c5b2f6f 100644
--- a/src/zope/tal/dummyengine.py
+++ b/src/zope/tal/dummyengine.py
@@ -244,7 +244,8 @@ class DummyEngine:
         self.codeLocals = locals
         self.codeGlobals = globals
 
-        self.locals.update(locals)
+        for name, value in locals.items():
+            self.setLocal(name, value)
         self.globals.update(globals)
 
         return result.getvalue()
-- 
2.43.0


From 88f206d3d30aef8155ee8a40f0d8ebb9866941f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:00:05 +0000
Subject: [PATCH 18/46] fix: evaluate not: expressions in the dummy engine

The negated expression was passed on uncompiled and failed an assertion.
---
 src/zope/tal/dummyengine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zope/tal/dummyengine.py b/src/zope/tal/dummyengine.py
index c5b2f6f..b8a154d 100644
--- a/src/zope/tal/dummyengine.py
+++ b/src/zope/tal/dummyengine.py
@@ -107,7 +107,7 @@ class DummyEngine:
         if type in ("path", "var", "global", "local"):
             return self.evaluatePathOrVar(expr)
         if type == "not":
-            return not self.evaluate(expr)
+            return not self.evaluate(self.compile(expr))
         if type == "exists":
             return expr in self.locals or expr in self.globals
         if type == "python":
-- 
2.43.0


From 58e1d6993a91460aaf247bedf5476ca8330d5ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:01:38 +0000
Subject: [PATCH 19/46] fix: extract messages from templates with i18n:data

The placeholder the extraction engine returns for the data expression
was merged into the mapping, which failed with a ValueError.
---
 src/zope/tal/talgettext.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/zope/tal/talgettext.py b/src/zope/tal/talgettext.py
index 79a2e49..1d919f9 100644
--- a/src/zope/tal/talgettext.py
+++ b/src/zope/tal/talgettext.py
@@ -57,8 +57,8 @@ class POTALInterpreter(TALInterpreter):
         # If no i18n dict exists yet, create one.
         if i18ndict is None:
             i18ndict = {}
-        if obj:
-            i18ndict.update(obj)
+        # The values of i18n:data (obj) are not known during extraction.
+
         # Mmmh, it seems that sometimes the msgid is None; is that really
         # possible?
         if msgid is None:
-- 
2.43.0


From 78c1eb680bd2ef7193c43169078b77465b38808f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:01:39 +0000
Subject: [PATCH 20/46] fix: report the position of the translated element for
 its message

After rendering the element's content the current position was that of
the last element inside it.  Message extraction recorded that position,
and i18n:data was evaluated there.
---
 src/zope/tal/talinterpreter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/zope/tal/talinterpreter.py b/src/zope/tal/talinterpreter.py
index 65cd502..8791ead 100644
--- a/src/zope/tal/talinterpreter.py
+++ b/src/zope/tal/talinterpreter.py
@@ -728,6 +728,7 @@ class TALInterpreter:
         # Use a temporary stream to capture the interpretation of the
         # subnodes, which should /not/ go to the output stream.
         currentTag = self._currentTag
+        position = self.position
         tmpstream = self.StringIO()
         self.pushStream(tmpstream)
         try:
@@ -735,6 +736,8 @@ class TALInterpreter:
         finally:
             self.popStream()
             self.i18nStack.pop()
+        # The message belongs to this tag, not to the last one inside it.
+        self.do_setPosition(position)
         # We only care about the evaluated contents if we need an implicit
         # message id.  All other useful information will be in the i18ndict.
         default = tmpstream.getvalue()
-- 
2.43.0


From 0864e160ab07ec163916baf51587c2327e233fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:36:32 +0000
Subject: [PATCH 21/46] fix: Reject control attributes given twice on an XML
 element

In a document parsed as XML, a control attribute could be given twice on
an element of a control namespace, once with and once without a prefix.
The first one was dropped silently.  Report it like the HTML parser does.
---
 src/zope/tal/talparser.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/zope/tal/talparser.py b/src/zope/tal/talparser.py
index ec26383..2489dc0 100644
--- a/src/zope/tal/talparser.py
+++ b/src/zope/tal/talparser.py
@@ -19,6 +19,9 @@ from zope.tal.taldefs import XML_NS
 from zope.tal.taldefs import ZOPE_I18N_NS
 from zope.tal.taldefs import ZOPE_METAL_NS
 from zope.tal.taldefs import ZOPE_TAL_NS
+from zope.tal.taldefs import I18NError
+from zope.tal.taldefs import METALError
+from zope.tal.taldefs import TALError
 from zope.tal.talgenerator import TALGenerator
 from zope.tal.xmlparser import XMLParser
 
@@ -90,12 +93,21 @@ class TALParser(XMLParser):
             ns = keyns or namens  # default to tag namespace
             item = key, value
             if ns == 'metal':
+                if keybase in metaldict:
+                    raise METALError("duplicate METAL attribute " +
+                                     repr(keybase), self.getpos())
                 metaldict[keybase] = value
                 item = item + ("metal",)
             elif ns == 'tal':
+                if keybase in taldict:
+                    raise TALError("duplicate TAL attribute " +
+                                   repr(keybase), self.getpos())
                 taldict[keybase] = value
                 item = item + ("tal",)
             elif ns == 'i18n':
+                if keybase in i18ndict:
+                    raise I18NError("duplicate i18n attribute " +
+                                    repr(keybase), self.getpos())
                 i18ndict[keybase] = value
                 item = item + ('i18n',)
             fixedattrlist.append(item)
-- 
2.43.0


From e0611dff95a76048a48297843b0aa6384b42f549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:39:00 +0000
Subject: [PATCH 22/46] fix: Keep track of the output column over translations
 and inline code

Text written for a translation unit, a named part of one or a block of
inline code did not count for the current column.  Attributes of later
tags on the line were then wrapped too early or too late.
---
 src/zope/tal/talinterpreter.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/zope/tal/talinterpreter.py b/src/zope/tal/talinterpreter.py
index 8791ead..314134e 100644
--- a/src/zope/tal/talinterpreter.py
+++ b/src/zope/tal/talinterpreter.py
@@ -710,7 +710,7 @@ class TALInterpreter:
         i18ndict[varname] = value
         placeholder = '${%s}' % varname
         srepr.append(placeholder)
-        self._stream_write(placeholder)
+        self.stream_write(placeholder)
     bytecode_handlers['i18nVariable'] = do_i18nVariable
 
     def do_insertTranslation(self, stuff):
@@ -729,6 +729,7 @@ class TALInterpreter:
         # subnodes, which should /not/ go to the output stream.
         currentTag = self._currentTag
         position = self.position
+        col = self.col
         tmpstream = self.StringIO()
         self.pushStream(tmpstream)
         try:
@@ -736,6 +737,7 @@ class TALInterpreter:
         finally:
             self.popStream()
             self.i18nStack.pop()
+            self.col = col
         # The message belongs to this tag, not to the last one inside it.
         self.do_setPosition(position)
         # We only care about the evaluated contents if we need an implicit
@@ -756,7 +758,7 @@ class TALInterpreter:
         # translations.  OTOH, for implicit interpolation values, we don't
         # want to escape stuff like ${name} <= "<b>Timmy</b>".
         assert xlated_msgid is not None
-        self._stream_write(xlated_msgid)
+        self.stream_write(xlated_msgid)
     bytecode_handlers['insertTranslation'] = do_insertTranslation
 
     def do_insertStructure(self, stuff):
@@ -829,15 +831,17 @@ class TALInterpreter:
         lang, program = stuff
         # Use a temporary stream to capture the interpretation of the
         # subnodes, which should /not/ go to the output stream.
+        col = self.col
         tmpstream = self.StringIO()
         self.pushStream(tmpstream)
         try:
             self.interpret(program)
         finally:
             self.popStream()
+            self.col = col
         code = tmpstream.getvalue()
         output = self.engine.evaluateCode(lang, code)
-        self._stream_write(output)
+        self.stream_write(output)
     bytecode_handlers["evaluateCode"] = do_evaluateCode
 
     def do_loop(self, stuff):
-- 
2.43.0


From e172139093c7085fbae7234b491958871984a8cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:39:01 +0000
Subject: [PATCH 23/46] fix: Take line breaks in attribute values into account
 for wrapping

The length of an attribute with a line break in its value was taken as
if all of it was on the current line, so the column was wrong for the
attributes and tags after it.
---
 src/zope/tal/talinterpreter.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/zope/tal/talinterpreter.py b/src/zope/tal/talinterpreter.py
index 314134e..07ae84d 100644
--- a/src/zope/tal/talinterpreter.py
+++ b/src/zope/tal/talinterpreter.py
@@ -424,7 +424,8 @@ class TALInterpreter:
                     if not rendered:
                         continue
                 for s in rendered:
-                    slen = _len(s)
+                    lines = s.split("\n")
+                    slen = _len(lines[0])
                     if (wrap and
                         col >= align and
                             col + 1 + slen > wrap):
@@ -435,6 +436,8 @@ class TALInterpreter:
                         append(" ")
                         col = col + 1 + slen
                     append(s)
+                    if _len(lines) > 1:
+                        col = _len(lines[-1])
             append(end)
             col = col + endlen
         finally:
-- 
2.43.0


From d7ba4684ce680f89d2402eac1d3e91a68deeec78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:31:23 +0000
Subject: [PATCH 24/46] fix: Do not translate an attribute that has no value

An attribute named in i18n:attributes that is neither in the source tag
nor given a value led to a translation request for None.  The same
happened for a boolean HTML attribute that is true.
---
 src/zope/tal/talinterpreter.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/zope/tal/talinterpreter.py b/src/zope/tal/talinterpreter.py
index 07ae84d..1cd9354 100644
--- a/src/zope/tal/talinterpreter.py
+++ b/src/zope/tal/talinterpreter.py
@@ -513,9 +513,10 @@ class TALInterpreter:
 
         if ok:
             if xlat:
-                translated = self.translate(msgid or value, value)
-                if translated is not None:
-                    value = translated
+                if msgid or value is not None:
+                    translated = self.translate(msgid or value, value)
+                    if translated is not None:
+                        value = translated
             elif isinstance(value, I18nMessageTypes):
                 translated = self.translate(value)
                 if translated is not None:
-- 
2.43.0


From 7851c5caa077f373864b2b56689780f5bbfc37d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:54:10 +0000
Subject: [PATCH 25/46] fix: honour i18n:domain="default" inside another
 translation domain

---
 src/zope/tal/talgenerator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/zope/tal/talgenerator.py b/src/zope/tal/talgenerator.py
index 69651c4..3a915fc 100644
--- a/src/zope/tal/talgenerator.py
+++ b/src/zope/tal/talgenerator.py
@@ -24,7 +24,6 @@ from zope.tal.taldefs import I18NError
 from zope.tal.taldefs import METALError
 from zope.tal.taldefs import TALError
 from zope.tal.taldefs import parseSubstitution
-from zope.tal.translationcontext import DEFAULT_DOMAIN
 from zope.tal.translationcontext import TranslationContext
 
 
@@ -628,7 +627,8 @@ class TALGenerator:
             domain = i18ndict.get("domain") or self.i18nContext.domain
             source = i18ndict.get("source") or self.i18nContext.source
             target = i18ndict.get("target") or self.i18nContext.target
-            if (domain != DEFAULT_DOMAIN
+            if (i18ndict.get("domain")
+                or self.i18nContext.parent is not None
                 or source is not None
                     or target is not None):
                 self.i18nContext = TranslationContext(self.i18nContext,
-- 
2.43.0


From 218f35c38c404238c9f98756f4878f899ed368fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:00:09 +0000
Subject: [PATCH 26/46] fix: reject i18n:data with a structure keyword instead
 of failing an assertion

---
 src/zope/tal/talgenerator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/zope/tal/talgenerator.py b/src/zope/tal/talgenerator.py
index 3a915fc..dbfcc4e 100644
--- a/src/zope/tal/talgenerator.py
+++ b/src/zope/tal/talgenerator.py
@@ -356,8 +356,10 @@ class TALGenerator:
             self.emit('insertTranslation', msgid, program)
         else:
             key, expr = parseSubstitution(i18ndata)
+            if key != 'text':
+                raise I18NError("illegal i18n:data: %r" % i18ndata,
+                                self.position)
             cexpr = self.compileExpression(expr)
-            assert key == 'text'
             self.emit('insertTranslation', msgid, program, cexpr)
 
     def emitDefineMacro(self, macroName):
-- 
2.43.0


From 992bc01076c7500fd3d6cbacc1d8b36ba49b62b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:00:11 +0000
Subject: [PATCH 27/46] fix: decide by the named element whether white space of
 its text is kept

---
 src/zope/tal/talinterpreter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/zope/tal/talinterpreter.py b/src/zope/tal/talinterpreter.py
index 1cd9354..a3ef14d 100644
--- a/src/zope/tal/talinterpreter.py
+++ b/src/zope/tal/talinterpreter.py
@@ -680,7 +680,8 @@ class TALInterpreter:
                     self.interpret(program)
                 finally:
                     self.popStream()
-                if self.html and self._currentTag == "pre":
+                # The program begins with the tag of the named element.
+                if self.html and program[0][1][0] == "pre":
                     value = tmpstream.getvalue()
                 else:
                     value = normalize(tmpstream.getvalue())
-- 
2.43.0


From 86eae14cf6e80fcdd19978950b54501a740e1e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:00:27 +0000
Subject: [PATCH 28/46] fix: keep the position of an error that occurs inside
 an i18n:name element

---
 src/zope/tal/talinterpreter.py | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/src/zope/tal/talinterpreter.py b/src/zope/tal/talinterpreter.py
index a3ef14d..d1a3c46 100644
--- a/src/zope/tal/talinterpreter.py
+++ b/src/zope/tal/talinterpreter.py
@@ -673,20 +673,19 @@ class TALInterpreter:
             # The value is implicitly the contents of this tag, so we have to
             # evaluate the mini-program to get the value of the variable.
             state = self.saveState()
+            tmpstream = self.StringIO()
+            self.pushStream(tmpstream)
             try:
-                tmpstream = self.StringIO()
-                self.pushStream(tmpstream)
-                try:
-                    self.interpret(program)
-                finally:
-                    self.popStream()
-                # The program begins with the tag of the named element.
-                if self.html and program[0][1][0] == "pre":
-                    value = tmpstream.getvalue()
-                else:
-                    value = normalize(tmpstream.getvalue())
+                self.interpret(program)
             finally:
-                self.restoreState(state)
+                self.popStream()
+            # The program begins with the tag of the named element.
+            if self.html and program[0][1][0] == "pre":
+                value = tmpstream.getvalue()
+            else:
+                value = normalize(tmpstream.getvalue())
+            # An error is reported with the position where it occurred.
+            self.restoreState(state)
         else:
             # TODO: Seems like this branch not used anymore, we
             # need to remove it
-- 
2.43.0


From 7c4ede45df12344ca2b0c649cc23040df05b3f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:00:29 +0000
Subject: [PATCH 29/46] fix: treat a control attribute without value in HTML
 like one with an empty value

---
 src/zope/tal/htmltalparser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/zope/tal/htmltalparser.py b/src/zope/tal/htmltalparser.py
index ddc6212..c89d1ca 100644
--- a/src/zope/tal/htmltalparser.py
+++ b/src/zope/tal/htmltalparser.py
@@ -347,6 +347,8 @@ class HTMLTALParser(HTMLParser):
             ns = keyns or namens  # default to tag namespace
             if ns and ns != 'unknown':
                 item = (key, value, ns)
+                # No value counts as an empty one.
+                value = value or ''
             if ns == 'tal':
                 if keybase in taldict:
                     raise TALError("duplicate TAL attribute " +
-- 
2.43.0


From e76562f1c27717ac912a99d632686f6662940faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:00:56 +0000
Subject: [PATCH 30/46] fix: carry out the TAL statements of an element with
 inline code

---
 src/zope/tal/htmltalparser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zope/tal/htmltalparser.py b/src/zope/tal/htmltalparser.py
index c89d1ca..373be88 100644
--- a/src/zope/tal/htmltalparser.py
+++ b/src/zope/tal/htmltalparser.py
@@ -197,7 +197,7 @@ class HTMLTALParser(HTMLParser):
             if (type_attr
                     and (type_attr[0][1] or '').startswith('text/server-')):
                 attrlist.remove(type_attr[0])
-                taldict = {'script': type_attr[0][1], 'omit-tag': ''}
+                taldict.update({'script': type_attr[0][1], 'omit-tag': ''})
         self.tagstack.append(tag)
         self.gen.emitStartElement(tag, attrlist, taldict, metaldict, i18ndict,
                                   self.getpos())
-- 
2.43.0


From 153838d164e6cd2c6baa5807c457862f868f6fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:00:58 +0000
Subject: [PATCH 31/46] fix: report the position of a malformed tal:attributes
 argument

---
 src/zope/tal/taldefs.py      | 7 ++++---
 src/zope/tal/talgenerator.py | 3 ++-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/zope/tal/taldefs.py b/src/zope/tal/taldefs.py
index 1a7331d..4f76bb5 100644
--- a/src/zope/tal/taldefs.py
+++ b/src/zope/tal/taldefs.py
@@ -138,17 +138,18 @@ _attr_re = re.compile(r"\s*([^\s]+)\s+([^\s].*)\Z", re.S)
 _subst_re = re.compile(r"\s*(?:(text|structure)\s+)?(.*)\Z", re.S)
 
 
-def parseAttributeReplacements(arg, xml):
+def parseAttributeReplacements(arg, xml, position=(None, None)):
     attr_dict = {}
     for part in splitParts(arg):
         m = _attr_re.match(part)
         if not m:
-            raise TALError("Bad syntax in attributes: %r" % part)
+            raise TALError("Bad syntax in attributes: %r" % part, position)
         name, expr = m.groups()
         if not xml:
             name = name.lower()
         if name in attr_dict:
-            raise TALError("Duplicate attribute name in attributes: %r" % part)
+            raise TALError("Duplicate attribute name in attributes: %r" % part,
+                           position)
         attr_dict[name] = expr
     return attr_dict
 
diff --git a/src/zope/tal/talgenerator.py b/src/zope/tal/talgenerator.py
index dbfcc4e..155bb30 100644
--- a/src/zope/tal/talgenerator.py
+++ b/src/zope/tal/talgenerator.py
@@ -692,7 +692,8 @@ class TALGenerator:
         if attrsubst or i18nattrs:
             if attrsubst:
                 repldict = taldefs.parseAttributeReplacements(attrsubst,
-                                                              self.xml)
+                                                              self.xml,
+                                                              position)
             else:
                 repldict = {}
             if i18nattrs:
-- 
2.43.0


From b9aa0285e4d2b6c52b6725b42112a640e470d9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:00:59 +0000
Subject: [PATCH 32/46] fix: accept attributes of other namespaces on TAL,
 METAL and I18N elements in HTML

---
 src/zope/tal/htmltalparser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/zope/tal/htmltalparser.py b/src/zope/tal/htmltalparser.py
index 373be88..b86dcab 100644
--- a/src/zope/tal/htmltalparser.py
+++ b/src/zope/tal/htmltalparser.py
@@ -333,6 +333,8 @@ class HTMLTALParser(HTMLParser):
                 nsuri = self.nsdict.get(prefix)
                 if nsuri in self._namespaces:
                     return name, suffix, self._namespaces[nsuri]
+            # An attribute with a prefix is not one of the tag's namespace.
+            return name, name, 'unknown'
         return name, name, 0
 
     def process_ns(self, name, attrs):
-- 
2.43.0


From d14ce5fa3028725a6b0556274d406173b4b26497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:01:14 +0000
Subject: [PATCH 33/46] fix: put the translation of a self-closed HTML element
 into the element

---
 src/zope/tal/htmltalparser.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/zope/tal/htmltalparser.py b/src/zope/tal/htmltalparser.py
index b86dcab..a26d6b0 100644
--- a/src/zope/tal/htmltalparser.py
+++ b/src/zope/tal/htmltalparser.py
@@ -209,11 +209,12 @@ class HTMLTALParser(HTMLParser):
         self.scan_xmlns(attrs)
         tag, attrlist, taldict, metaldict, i18ndict \
             = self.process_ns(tag, attrs)
-        if "content" in taldict:
-            if tag in EMPTY_HTML_TAGS:
-                raise TALError(
-                    "empty HTML tags cannot use tal:content: %s" % repr(tag),
-                    self.getpos())
+        if tag in EMPTY_HTML_TAGS and "content" in taldict:
+            raise TALError(
+                "empty HTML tags cannot use tal:content: %s" % repr(tag),
+                self.getpos())
+        if ("content" in taldict
+                or "translate" in i18ndict and tag not in EMPTY_HTML_TAGS):
             self.gen.emitStartElement(tag, attrlist, taldict, metaldict,
                                       i18ndict, self.getpos())
             self.gen.emitEndElement(tag, implied=-1, position=self.getpos())
-- 
2.43.0


From fc5ba15304d8836fe8eb74dfdb5f29a0b6afde60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:01:29 +0000
Subject: [PATCH 34/46] fix: leave translation units as they are when TAL is
 disabled

---
 src/zope/tal/talinterpreter.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/zope/tal/talinterpreter.py b/src/zope/tal/talinterpreter.py
index d1a3c46..a3f5f93 100644
--- a/src/zope/tal/talinterpreter.py
+++ b/src/zope/tal/talinterpreter.py
@@ -668,6 +668,10 @@ class TALInterpreter:
                 self._writeText(text)
 
     def do_i18nVariable(self, stuff):
+        self.interpret(stuff[1])
+    bytecode_handlers['i18nVariable'] = do_i18nVariable
+
+    def do_i18nVariable_tal(self, stuff):
         varname, program, expression, structure = stuff
         if expression is None:
             # The value is implicitly the contents of this tag, so we have to
@@ -715,9 +719,12 @@ class TALInterpreter:
         placeholder = '${%s}' % varname
         srepr.append(placeholder)
         self.stream_write(placeholder)
-    bytecode_handlers['i18nVariable'] = do_i18nVariable
 
     def do_insertTranslation(self, stuff):
+        self.interpret(stuff[1])
+    bytecode_handlers['insertTranslation'] = do_insertTranslation
+
+    def do_insertTranslation_tal(self, stuff):
         i18ndict = {}
         srepr = []
         obj = None
@@ -763,7 +770,6 @@ class TALInterpreter:
         # want to escape stuff like ${name} <= "<b>Timmy</b>".
         assert xlated_msgid is not None
         self.stream_write(xlated_msgid)
-    bytecode_handlers['insertTranslation'] = do_insertTranslation
 
     def do_insertStructure(self, stuff):
         self.interpret(stuff[2])
@@ -1070,6 +1076,8 @@ class TALInterpreter:
     bytecode_handlers_tal["insertI18nStructure"] = do_insertI18nStructure_tal
     bytecode_handlers_tal["insertText"] = do_insertText_tal
     bytecode_handlers_tal["insertI18nText"] = do_insertI18nText_tal
+    bytecode_handlers_tal["i18nVariable"] = do_i18nVariable_tal
+    bytecode_handlers_tal["insertTranslation"] = do_insertTranslation_tal
     bytecode_handlers_tal["loop"] = do_loop_tal
     bytecode_handlers_tal["onError"] = do_onError_tal
     bytecode_handlers_tal["<attrAction>"] = attrAction_tal
-- 
2.43.0


From 981e0f159254a556aa7ade9cea6f69324c8b32ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:03:27 +0000
Subject: [PATCH 35/46] fix: render an i18n:name element in place when no
 translation unit is open

---
 src/zope/tal/talinterpreter.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/zope/tal/talinterpreter.py b/src/zope/tal/talinterpreter.py
index a3f5f93..d25e789 100644
--- a/src/zope/tal/talinterpreter.py
+++ b/src/zope/tal/talinterpreter.py
@@ -673,6 +673,10 @@ class TALInterpreter:
 
     def do_i18nVariable_tal(self, stuff):
         varname, program, expression, structure = stuff
+        if not self.i18nStack:
+            # No translation unit is open, so there is nothing to name.
+            self.interpret(program)
+            return
         if expression is None:
             # The value is implicitly the contents of this tag, so we have to
             # evaluate the mini-program to get the value of the variable.
-- 
2.43.0


From 03fba14bf7d4cfe8d1e223c22bead94fe7141974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:19:40 +0000
Subject: [PATCH 36/46] fix: show the METAL attributes of a macro whose element
 is replaced by its error handler

---
 src/zope/tal/talinterpreter.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/zope/tal/talinterpreter.py b/src/zope/tal/talinterpreter.py
index d25e789..99d782c 100644
--- a/src/zope/tal/talinterpreter.py
+++ b/src/zope/tal/talinterpreter.py
@@ -1017,7 +1017,7 @@ class TALInterpreter:
     def do_onError_tal(self, stuff):
         (block, handler) = stuff
         state = self.saveState()
-        macroDepth = len(self.macroStack)
+        entering = [macro.entering for macro in self.macroStack]
         inUseDirective = self.inUseDirective
         sourceFile = self.sourceFile
         i18nNames = dict(self.i18nStack[-1][0]) if self.i18nStack else None
@@ -1039,7 +1039,9 @@ class TALInterpreter:
                 self.restoreState(state)
                 engine = self.engine
                 # Leave the macros that were being expanded.
-                del self.macroStack[macroDepth:]
+                del self.macroStack[len(entering):]
+                for macro, was_entering in zip(self.macroStack, entering):
+                    macro.entering = was_entering
                 self.inUseDirective = inUseDirective
                 if self.sourceFile != sourceFile:
                     engine.setSourceFile(sourceFile)
-- 
2.43.0


From 561d1f40578270ccf4e0f23eb13afd12b6d6d6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:21:03 +0000
Subject: [PATCH 37/46] fix: ignore blank parts of i18n:attributes

---
 src/zope/tal/talgenerator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zope/tal/talgenerator.py b/src/zope/tal/talgenerator.py
index 155bb30..4404e4d 100644
--- a/src/zope/tal/talgenerator.py
+++ b/src/zope/tal/talgenerator.py
@@ -845,7 +845,7 @@ def _parseI18nAttributes(i18nattrs, position, xml):
     # Filter out empty items, eg:
     # i18n:attributes="value msgid; name msgid2;"
     # would result in 3 items where the last one is empty
-    attrs = [spec for spec in i18nattrs.split(";") if spec]
+    attrs = [spec for spec in i18nattrs.split(";") if spec.strip()]
     for spec in attrs:
         parts = spec.split()
         if len(parts) == 2:
-- 
2.43.0


From fd99a7a885fafe8747e2f18fd4808eea72fbe1a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:12:29 +0000
Subject: [PATCH 38/46] fix: restore the macro name after a handled error

---
 src/zope/tal/talinterpreter.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/zope/tal/talinterpreter.py b/src/zope/tal/talinterpreter.py
index 99d782c..8b8ab68 100644
--- a/src/zope/tal/talinterpreter.py
+++ b/src/zope/tal/talinterpreter.py
@@ -1019,6 +1019,7 @@ class TALInterpreter:
         state = self.saveState()
         entering = [macro.entering for macro in self.macroStack]
         inUseDirective = self.inUseDirective
+        macroName = self.engine.getValue('macroname')
         sourceFile = self.sourceFile
         i18nNames = dict(self.i18nStack[-1][0]) if self.i18nStack else None
         pending = self._pending_source_annotation
@@ -1039,7 +1040,9 @@ class TALInterpreter:
                 self.restoreState(state)
                 engine = self.engine
                 # Leave the macros that were being expanded.
-                del self.macroStack[len(entering):]
+                if len(self.macroStack) > len(entering):
+                    del self.macroStack[len(entering):]
+                    engine.setLocal('macroname', macroName)
                 for macro, was_entering in zip(self.macroStack, entering):
                     macro.entering = was_entering
                 self.inUseDirective = inUseDirective
-- 
2.43.0


From f54e2d90c032c3a8683465a991cd54c597e405f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:12:29 +0000
Subject: [PATCH 39/46] fix: take only the XML declaration for one when placing
 source annotations

---
 src/zope/tal/talinterpreter.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/zope/tal/talinterpreter.py b/src/zope/tal/talinterpreter.py
index 8b8ab68..0ff01d5 100644
--- a/src/zope/tal/talinterpreter.py
+++ b/src/zope/tal/talinterpreter.py
@@ -14,6 +14,7 @@
 """Interpreter for a pre-compiled TAL program.
 """
 import html
+import re
 import sys
 
 from zope.i18nmessageid import Message
@@ -46,6 +47,7 @@ BOOLEAN_HTML_ATTRS = frozenset([
 
 _nulljoin = ''.join
 _spacejoin = ' '.join
+_xml_declaration_match = re.compile(r'\s*<\?xml\s').match
 
 
 def normalize(text):
@@ -307,11 +309,10 @@ class TALInterpreter:
             self._stream_write = self.stream.write
 
     def _annotated_stream_write(self, s):
-        idx = s.find('<?xml')
-        if idx >= 0 or not s or s.isspace():
+        if _xml_declaration_match(s) or not s or s.isspace():
             # Do not preprend comments in front of the <?xml?> declaration.
-            end_of_doctype = s.find('?>', idx)
-            if end_of_doctype > idx:
+            end_of_doctype = s.find('?>')
+            if end_of_doctype >= 0:
                 self.stream.write(s[:end_of_doctype + 2])
                 s = s[end_of_doctype + 2:]
                 # continue
-- 
2.43.0


From e9c9082132880c9aaafae157e6da9ecebeb8b722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:48:34 +0000
Subject: [PATCH 40/46] fix: keep marked sections of HTML templates

Conditional sections such as <![if !IE]> and character data sections were
silently left out of the rendered output.
---
 src/zope/tal/htmltalparser.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/zope/tal/htmltalparser.py b/src/zope/tal/htmltalparser.py
index a26d6b0..d8330bf 100644
--- a/src/zope/tal/htmltalparser.py
+++ b/src/zope/tal/htmltalparser.py
@@ -302,6 +302,11 @@ class HTMLTALParser(HTMLParser):
     def handle_pi(self, data):
         self.gen.emitRawText("<?%s>" % data)
 
+    def unknown_decl(self, data):
+        # Conditional sections end with a single bracket.
+        conditional = data.lower().startswith(("if", "else", "endif"))
+        self.gen.emitRawText("<![%s]%s>" % (data, "" if conditional else "]"))
+
     # Internal thingies
 
     def scan_xmlns(self, attrs):
-- 
2.43.0


From 94160e261ad49cb895bbcc8ea1bd6cb6c3ad7750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:27:03 +0000
Subject: [PATCH 41/46] fix: ignore the encoding declared in a template given
 as text

A str was encoded as UTF-8 while expat went on to decode it as the XML
declaration says, garbling every character outside ASCII of a template
declaring any other encoding.
---
 src/zope/tal/xmlparser.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/zope/tal/xmlparser.py b/src/zope/tal/xmlparser.py
index f4891f9..84e1899 100644
--- a/src/zope/tal/xmlparser.py
+++ b/src/zope/tal/xmlparser.py
@@ -79,11 +79,8 @@ class XMLParser:
 
     def parseString(self, s):
         """Parse the given string."""
-        if isinstance(s, str):
-            # Expat cannot deal with str, only with
-            # bytes.  Also, its range of encodings is rather
-            # limited, UTF-8 is the safest bet here.
-            s = s.encode('utf-8')
+        # A declared encoding only matters for bytes; expat is told by
+        # pyexpat to ignore it when a str is passed.
         self.parser.Parse(s, 1)
 
     def parseURL(self, url):
-- 
2.43.0


From bf612d7d94d241c7feaa54bf95561fc6799e7da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:06:07 +0000
Subject: [PATCH 42/46] fix: keep source annotations out of message ids and
 inline code

Text captured for a translation unit, a named value or inline code was
given the pending annotation, so with source annotations on the message
was looked up under another id.
---
 src/zope/tal/talinterpreter.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/zope/tal/talinterpreter.py b/src/zope/tal/talinterpreter.py
index 0ff01d5..84758af 100644
--- a/src/zope/tal/talinterpreter.py
+++ b/src/zope/tal/talinterpreter.py
@@ -309,6 +309,11 @@ class TALInterpreter:
             self._stream_write = self.stream.write
 
     def _annotated_stream_write(self, s):
+        if self._stream_stack:
+            # Captured text is a message id, its default, the value of a
+            # name or inline code; the annotation is not part of it.
+            self.stream.write(s)
+            return
         if _xml_declaration_match(s) or not s or s.isspace():
             # Do not preprend comments in front of the <?xml?> declaration.
             end_of_doctype = s.find('?>')
-- 
2.43.0


From 6b53a4e5fef3033eb105c072a1510ec4589c1fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:31:18 +0000
Subject: [PATCH 43/46] fix: do not add a semicolon to references that have
 none

Text such as "AT&T" or "a=1&b=2" in an HTML template came out as "AT&T;"
or "a=1&b;=2".
---
 src/zope/tal/htmltalparser.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/zope/tal/htmltalparser.py b/src/zope/tal/htmltalparser.py
index d8330bf..825bd9c 100644
--- a/src/zope/tal/htmltalparser.py
+++ b/src/zope/tal/htmltalparser.py
@@ -284,11 +284,21 @@ class HTMLTALParser(HTMLParser):
         self.tagstack.pop()
         self.pop_xmlns()
 
+    def updatepos(self, i, j):
+        self.index = j  # where the next construct begins
+        return HTMLParser.updatepos(self, i, j)
+
     def handle_charref(self, name):
-        self.gen.emitRawText("&#%s;" % name)
+        self.emit_reference("&#" + name)
 
     def handle_entityref(self, name):
-        self.gen.emitRawText("&%s;" % name)
+        self.emit_reference("&" + name)
+
+    def emit_reference(self, text):
+        # The semicolon is optional, as in "AT&T" or "a=1&b=2".
+        if self.rawdata.startswith(";", self.index + len(text)):
+            text += ";"
+        self.gen.emitRawText(text)
 
     def handle_data(self, data):
         self.gen.emitRawText(data)
-- 
2.43.0


From 5a37e99c7b998b2d4f615ea247904581f32306a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:31:18 +0000
Subject: [PATCH 44/46] fix: go on parsing after an ampersand that begins no
 reference

After "&#" without a number the rest of an HTML template was taken for
text, so that its statements were not carried out, and "&x" at the end
lost its ampersand.
---
 src/zope/tal/htmltalparser.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/zope/tal/htmltalparser.py b/src/zope/tal/htmltalparser.py
index 825bd9c..6e85818 100644
--- a/src/zope/tal/htmltalparser.py
+++ b/src/zope/tal/htmltalparser.py
@@ -169,6 +169,15 @@ class HTMLTALParser(HTMLParser):
     def parseString(self, data):
         """Parse data in the given string."""
         self.feed(data)
+        rest = None
+        while self.rawdata and self.rawdata != rest:
+            # The base class stops at an "&" that might begin a reference.
+            rest = self.rawdata
+            if rest.startswith("&"):
+                self.handle_data("&")
+                self.updatepos(0, 1)
+                self.rawdata = rest[1:]
+            self.goahead(0)
         self.close()
         while self.tagstack:
             self.implied_endtag(self.tagstack[-1], 2)
-- 
2.43.0


From 8227564ca43441f9ea5675b158ec94ad06557bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:31:44 +0000
Subject: [PATCH 45/46] fix: find names with capitals in dummy translations

Placeholders are compared in lower case, but the names of the mapping were
not, and a placeholder without a value or a message without a mapping
raised KeyError or TypeError.
---
 src/zope/tal/dummyengine.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/zope/tal/dummyengine.py b/src/zope/tal/dummyengine.py
index b8a154d..c8fa9b6 100644
--- a/src/zope/tal/dummyengine.py
+++ b/src/zope/tal/dummyengine.py
@@ -320,8 +320,13 @@ class DummyTranslationDomain:
 
         self.appendMsgid(domain, (msgid, mapping))
 
+        # The case of the placeholders may have been changed above; those that
+        # stand for nothing in the mapping are left alone.
+        values = {name.lower(): value
+                  for name, value in (mapping or {}).items()}
+
         def repl(m):
-            return str(mapping[m.group(m.lastindex).lower()])
+            return str(values.get(m.group(m.lastindex).lower(), m.group()))
         cre = re.compile(r'\$(?:([_A-Za-z][-\w]*)|\{([_A-Za-z][-\w]*)\})')
         return cre.sub(repl, text)
 
-- 
2.43.0


From 0ed2ee60bd3e538032e39e75a1b3d045c7a08dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:40:14 +0000
Subject: [PATCH 46/46] fix: write to the stream given even if it is false in a
 test

---
 src/zope/tal/talinterpreter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/zope/tal/talinterpreter.py b/src/zope/tal/talinterpreter.py
index 84758af..10d5909 100644
--- a/src/zope/tal/talinterpreter.py
+++ b/src/zope/tal/talinterpreter.py
@@ -200,7 +200,9 @@ class TALInterpreter:
         self.Default = engine.getDefault()
         self._pending_source_annotation = False
         self._currentTag = ""
-        self._stream_stack = [stream or sys.stdout]
+        if stream is None:
+            stream = sys.stdout
+        self._stream_stack = [stream]
         self.popStream()
         self.debug = debug
         self.wrap = wrap
-- 
2.43.0


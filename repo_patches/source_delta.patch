From 8b7eff9f5d6e3a2494c03e2a377a9cf674d99ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:25 +0000
Subject: [PATCH 01/48] fix: analyse the else clause of a for loop that also
 has a body

---
 src/hypertag/core/ast.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hypertag/core/ast.py b/src/hypertag/core/ast.py
index d4a1419..67bc9b2 100644
--- a/src/hypertag/core/ast.py
+++ b/src/hypertag/core/ast.py
@@ -948,6 +948,7 @@ class NODES(object):
             self.expr.analyse(ctx)
             self.targets.analyse(ctx)
             if self.body: self.body.analyse(ctx)
+            if self.else_ and self.else_ is not self.body: self.else_.analyse(ctx)
 
         def translate(self, state):
             out = []
-- 
2.43.0


From 2d7379ad9fa60a3eaee5633b346549d3a05ca66b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:25 +0000
Subject: [PATCH 02/48] fix: do not lose a TypeError raised by a block (PyPy
 masks it when unpacking a generator)

---
 src/hypertag/core/ast.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypertag/core/ast.py b/src/hypertag/core/ast.py
index 67bc9b2..86c5cb7 100644
--- a/src/hypertag/core/ast.py
+++ b/src/hypertag/core/ast.py
@@ -449,7 +449,7 @@ class NODES(object):
             super(NODES.xblock, self).analyse(ctx)
 
         def translate(self, state):
-            margin, block = (c.translate(state) for c in self.children)
+            margin, block = [c.translate(state) for c in self.children]
             if not block: return margin
             
             append = (self.modifier == '...')
-- 
2.43.0


From 3ae738672f6b0a6edd73c83b46e16220c68fb68a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:51 +0000
Subject: [PATCH 03/48] fix: do not render the else clause of a body-less for
 loop once per item

---
 src/hypertag/core/ast.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hypertag/core/ast.py b/src/hypertag/core/ast.py
index 86c5cb7..8ec71ec 100644
--- a/src/hypertag/core/ast.py
+++ b/src/hypertag/core/ast.py
@@ -938,8 +938,8 @@ class NODES(object):
         
         def setup(self):
             self.targets, self.expr = self.children[:2]
-            self.body = self.children[2] if len(self.children) >= 3 else None
             self.else_ = self.children[-1] if self.children[-1].type == 'clause_else' else None
+            self.body = self.children[2] if len(self.children) >= 3 and self.children[2] is not self.else_ else None
             assert isinstance(self.expr, NODES.expression)
             assert self.targets.type == 'targets'
             # assert self.targets.type == 'var', 'Support for multiple targets in <for> not yet implemented'
@@ -948,7 +948,7 @@ class NODES(object):
             self.expr.analyse(ctx)
             self.targets.analyse(ctx)
             if self.body: self.body.analyse(ctx)
-            if self.else_ and self.else_ is not self.body: self.else_.analyse(ctx)
+            if self.else_: self.else_.analyse(ctx)
 
         def translate(self, state):
             out = []
-- 
2.43.0


From a81cd8d4a75d8422efdf276f9765ab8b15242d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:19 +0000
Subject: [PATCH 04/48] fix: embed a copy of DOM nodes in a @ block, so that
 the same body can be embedded at different places

---
 src/hypertag/core/ast.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hypertag/core/ast.py b/src/hypertag/core/ast.py
index 8ec71ec..3679f20 100644
--- a/src/hypertag/core/ast.py
+++ b/src/hypertag/core/ast.py
@@ -520,13 +520,13 @@ class NODES(object):
             return body
         
         def _as_sequence(self, body):
-            if isinstance(body, DOM): return body
-            if isinstance(body, DOM.Node): return DOM(body)
+            if isinstance(body, DOM): return body.copy()        # a copy, because the same nodes may be embedded (and laid out) more than once
+            if isinstance(body, DOM.Node): return DOM(body.copy())
             try:
                 body = list(body)
             except Exception as ex:
                 raise TypeErrorEx("embedded @-expression evaluates to %s instead of a DOM or DOM.Node or an iterable of DOM.Node's" % type(body), self)
-            return DOM(*body)
+            return DOM(*body).copy()
 
     class xblock_struct(node):
         tags = None         # <tags_expand> node
-- 
2.43.0


From 5ac48f3d5e7d7cc57df6918ccdccf3a2b8c2b587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:43 +0000
Subject: [PATCH 05/48] fix: expand a hypertag in its own copy of the state, so
 that attributes and local symbols don't leak between expansions

---
 src/hypertag/core/ast.py     | 7 ++-----
 src/hypertag/core/structs.py | 4 ++--
 2 files changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/hypertag/core/ast.py b/src/hypertag/core/ast.py
index 3679f20..f56b630 100644
--- a/src/hypertag/core/ast.py
+++ b/src/hypertag/core/ast.py
@@ -110,11 +110,7 @@ class ImportedHypertag(Hypertag):
         
     def expand(self, body, attrs, kwattrs, state, caller):
         
-        # module_state = State(self.module_state.values)          # module's terminal state is copied anew on every tag expansion
-
-        # module's terminal state is NOT copied on subsequent expansions, which means that
-        # stored values of local symbols may change after the call below;
-        # TODO: make sure that values of local variables are cleared after expansion of an <xblock_def> block
+        # expand() copies the module's terminal state, hence stored values of symbols don't change after the call below
         return self.hypertag.expand(body, attrs, kwattrs, self.module_state, caller)
 
 class EmbeddedHypertag:
@@ -617,6 +613,7 @@ class NODES(object):
             Translate the formal self.body in a given `state`, insert the actual `body` wherever necessary,
             and return as a DOM (not a string!) for possible further manipulation in other hypertags.
             """
+            state = state.copy()        # values of attributes and local symbols are only visible within this particular expansion
             dom_attrs = self._append_attrs(body, attrs, kwattrs, state, caller)         # extend `state` with actual values of tag attributes
             output = self.body.translate(state)
             output.set_indent(state.indentation)
diff --git a/src/hypertag/core/structs.py b/src/hypertag/core/structs.py
index 414101e..cdfcf45 100644
--- a/src/hypertag/core/structs.py
+++ b/src/hypertag/core/structs.py
@@ -378,8 +378,8 @@ class State:
         self.values[slot] = value
         
     def copy(self):
-        dup = State()
-        dup.values = self.values.copy()
+        dup = State(self.values)
+        dup.indentation = self.indentation
         return dup
         
     def update(self, values):
-- 
2.43.0


From e610e9763b75c1b7d2640d418089ed7db3f570cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:43 +0000
Subject: [PATCH 06/48] fix: make ** right-associative, like in Python

---
 src/hypertag/core/ast.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/hypertag/core/ast.py b/src/hypertag/core/ast.py
index f56b630..c40b20a 100644
--- a/src/hypertag/core/ast.py
+++ b/src/hypertag/core/ast.py
@@ -1575,7 +1575,14 @@ class NODES(object):
             return head, tail
     
     class xpow_expr(chain_expression):
-        """chain of power operators: ** """
+        """chain of power operators: ** (right-associative, like in Python)"""
+        def evaluate(self, state):
+            values = [expr.evaluate(state) for expr in self.children[0::2]]
+            res = values.pop()
+            for op, val in zip(reversed(self.children[1::2]), reversed(values)):
+                res = op.apply(val, res)
+            return res
+        
     class xterm(chain_expression):
         """chain of multiplicative operators: * / // %"""
     class xshift_expr(chain_expression):
-- 
2.43.0


From 48dec6c6fa2ea7674dedb47df08af4ed89118a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:53 +0000
Subject: [PATCH 07/48] fix: evaluate chained comparisons like in Python

---
 src/hypertag/core/ast.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/hypertag/core/ast.py b/src/hypertag/core/ast.py
index c40b20a..626639e 100644
--- a/src/hypertag/core/ast.py
+++ b/src/hypertag/core/ast.py
@@ -1655,6 +1655,16 @@ class NODES(object):
         "chain of comparison operators: < > == >= <= != in is, not in, is not"
         raise_null = False
         
+        def evaluate(self, state):
+            """x1 OP1 x2 OP2 x3 ... means: (x1 OP1 x2) and (x2 OP2 x3) ..., lazily and with a single evaluation of every operand, like in Python."""
+            left = self.children[0].evaluate(state)
+            for op, expr in zip(self.children[1::2], self.children[2::2]):
+                right = expr.evaluate(state)
+                res = op.apply(left, right)
+                if not res: break
+                left = right
+            return res
+        
     class xnot_test(expression):
         """not not not ..."""
         def evaluate(self, state):
-- 
2.43.0


From f12b52486ca809e48a0520d63e29808306862e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:02 +0000
Subject: [PATCH 08/48] fix: select() and skip() by attribute over nodes that
 have no attributes

---
 src/hypertag/core/dom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypertag/core/dom.py b/src/hypertag/core/dom.py
index 3073649..eb8c321 100644
--- a/src/hypertag/core/dom.py
+++ b/src/hypertag/core/dom.py
@@ -253,7 +253,7 @@ class DOM:
         if name is not None and (node.tag is None or node.tag.name != name): return False
         
         for a, v in attrs.items():
-            if a not in node.kwattrs: return False
+            if not node.kwattrs or a not in node.kwattrs: return False
             if v is not DOM.ATTR_DEFINED and node.kwattrs[a] != v: return False
 
         return True
-- 
2.43.0


From b3d7f2eb0c92e16a210f8d2dcdc1db72d5bec30f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:34 +0000
Subject: [PATCH 09/48] fix: do not expose a partially filled dict of built-ins
 to other threads

---
 src/hypertag/core/runtime.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/hypertag/core/runtime.py b/src/hypertag/core/runtime.py
index 17396f6..13c03e6 100644
--- a/src/hypertag/core/runtime.py
+++ b/src/hypertag/core/runtime.py
@@ -333,10 +333,11 @@ class Runtime:
         This typically means all general-purpose symbols + standard tags/variables specific for a target language.
         """
         if self._builtins is None:
-            self._builtins = {}
+            builtins = {}
             for path in self.BUILTINS:
                 module = self.import_module(path, RootModule(), None)
-                self._builtins.update(module.symbols)
+                builtins.update(module.symbols)
+            self._builtins = builtins               # set only when complete, for other threads that may be using this runtime
                 
         return dict(self._builtins)
         
-- 
2.43.0


From baf05b9c58f53fe8fdd6f8dc754d300ecd02ac55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:01 +0000
Subject: [PATCH 10/48] fix: import of scripts from folders that are not
 regular Python packages; set Module.package to a package path

---
 src/hypertag/core/runtime.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/hypertag/core/runtime.py b/src/hypertag/core/runtime.py
index 13c03e6..8674a53 100644
--- a/src/hypertag/core/runtime.py
+++ b/src/hypertag/core/runtime.py
@@ -248,15 +248,20 @@ class HyLoader(Loader):
             # 2. try the Python's standard import mechanism (importlib); must be applied to the parent package, not the script itself
             if not location and '.' in path:
                 package_name, filename = path.rsplit('.', 1)
-                pkg = importlib.import_module(package_name)                 # package_name is an absolute path, so referrer is not needed here
-                package_path = pkg.__file__
-                if package_path.endswith('.py'):
-                    package_path = os.path.dirname(package_path)            # truncate /__init__.py part of a package file path
+                try:
+                    pkg = importlib.import_module(package_name)             # package_name is an absolute path, so referrer is not needed here
+                except ModuleNotFoundError:
+                    pkg = None                                              # a folder that's not a Python package
+                package_path = getattr(pkg, '__file__', None)               # missing in namespace packages
                 
-                location = package_path + PATH_SEP + filename + self.SCRIPT_EXTENSION
-                python_path = package_path + '.' + filename
-                if location and not os.path.exists(location):
-                    location = python_path = None
+                if package_path:
+                    if package_path.endswith('.py'):
+                        package_path = os.path.dirname(package_path)        # truncate /__init__.py part of a package file path
+                    
+                    location = package_path + PATH_SEP + filename + self.SCRIPT_EXTENSION
+                    python_path = path
+                    if location and not os.path.exists(location):
+                        location = python_path = None
                 
             # 3. try using the process' current folder as a root
             if not location:
-- 
2.43.0


From f299485abe799ad984dd6850b5e22429f7d3e3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:41 +0000
Subject: [PATCH 11/48] fix: load every script once, also when it is imported
 through a package or a relative path

---
 src/hypertag/core/runtime.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hypertag/core/runtime.py b/src/hypertag/core/runtime.py
index 8674a53..511fafa 100644
--- a/src/hypertag/core/runtime.py
+++ b/src/hypertag/core/runtime.py
@@ -277,6 +277,7 @@ class HyLoader(Loader):
 
         if not location or not os.path.exists(location):
             return None
+        if location in self.cache: return self.cache[location]
         
         package = python_path.rsplit('.', 1)[0] if python_path else None
         
-- 
2.43.0


From 4cc14316c53fb47d573425e99d278b56e420dcc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:50 +0000
Subject: [PATCH 12/48] fix: report a circular import of scripts instead of
 recursing until the process crashes

---
 src/hypertag/core/runtime.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/hypertag/core/runtime.py b/src/hypertag/core/runtime.py
index 511fafa..bee9c2e 100644
--- a/src/hypertag/core/runtime.py
+++ b/src/hypertag/core/runtime.py
@@ -1,4 +1,5 @@
 import os, sys, importlib
+from threading import get_ident
 
 from hypertag.core.errors import ImportErrorEx, ModuleNotFoundEx
 from hypertag.core.grammar import MARK_VAR, MARK_TAG, VAR, TAG, TAGS
@@ -223,6 +224,7 @@ class HyLoader(Loader):
     def __init__(self, resolve = None):
         super(HyLoader, self).__init__()
         self.resolve = resolve
+        self.loading = set()            # (location, thread) pairs of the scripts that are being loaded now
 
     def load(self, path, referrer, runtime):
         
@@ -283,7 +285,15 @@ class HyLoader(Loader):
         
         script = open(location).read()
         
-        module = self.cache[location] = runtime.translate(script, location, package)
+        # a cycle of imports can't be resolved, because a module is fully translated before its symbols become available
+        task = (location, get_ident())
+        if task in self.loading: raise ImportErrorEx("circular import of a script (%s)" % location)
+        self.loading.add(task)
+        try:
+            module = self.cache[location] = runtime.translate(script, location, package)
+        finally:
+            self.loading.discard(task)
+        
         module.location = location
         module.package = package
         
-- 
2.43.0


From 21e1e6509b5c5d1ca173f8578b9b042b0746bcfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:10 +0000
Subject: [PATCH 13/48] fix: Django backend must not modify the caller's
 context (nor leak __file__ to the next template)

---
 src/hypertag/django/backend.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/hypertag/django/backend.py b/src/hypertag/django/backend.py
index 4058080..e8e356f 100644
--- a/src/hypertag/django/backend.py
+++ b/src/hypertag/django/backend.py
@@ -69,8 +69,7 @@ class Template:
         self.filename = filename
 
     def render(self, context=None, request=None):
-        if context is None:
-            context = {}
+        context = dict(context) if context else {}          # a copy, the caller's context must not be modified
         if request is not None:
             context['request'] = request
             context['csrf_input'] = csrf_input_lazy(request)
-- 
2.43.0


From 036ce6c0b96e2bb1171d91caa2487188364b72ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:10 +0000
Subject: [PATCH 14/48] fix: allow import of Django filters inside a Django
 project, where settings are already configured

---
 src/hypertag/django/filters.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/hypertag/django/filters.py b/src/hypertag/django/filters.py
index 23e1bc8..82de98b 100644
--- a/src/hypertag/django/filters.py
+++ b/src/hypertag/django/filters.py
@@ -23,8 +23,9 @@ from django.contrib.humanize.templatetags.humanize import register as __register
 ## for now, Django's default settings are always used in those filters that depend on them
 ##
 
-__settings__.configure()
-__django__.setup()
+if not __settings__.configured:             # in a Django project, settings have been configured already
+    __settings__.configure()
+    __django__.setup()
 
 
 globals().update(__register_humanize__.filters)
-- 
2.43.0


From 8e23e833e0146cb68eb8c2d750aa91e798169b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:19 +0000
Subject: [PATCH 15/48] fix: report the position where the failing construct
 begins, not where it ends

---
 src/hypertag/nifty/parsing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypertag/nifty/parsing.py b/src/hypertag/nifty/parsing.py
index 21f5ebb..af54a50 100755
--- a/src/hypertag/nifty/parsing.py
+++ b/src/hypertag/nifty/parsing.py
@@ -27,7 +27,7 @@ class ParserError(Exception):
         if node:
             self.node, self.pos, self.text = node, node.pos, node.text(self.MAXLEN)
         if self.pos:                                            # calculate the line number and column of self.pos, if possible
-            prefix = node.fulltext[:self.pos[1]]
+            prefix = node.fulltext[:self.pos[0]]
             self.line = prefix.count('\n') + 1
             self.column = len(prefix) - prefix.rfind('\n')
         msg = self.make_msg(msg) or msg
-- 
2.43.0


From fc9082983464997b7b26d7a57e99990738d5c51b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:27 +0000
Subject: [PATCH 16/48] fix: name the duplicate attribute and the position of a
 misplaced one in error messages

---
 src/hypertag/core/ast.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hypertag/core/ast.py b/src/hypertag/core/ast.py
index 626639e..26f13e9 100644
--- a/src/hypertag/core/ast.py
+++ b/src/hypertag/core/ast.py
@@ -569,7 +569,7 @@ class NODES(object):
             
             # check that attr names are unique
             if len(self.attr_names) < len(self.attrs):
-                raise SyntaxErrorEx("duplicate attribute '%s' in hypertag definition '%s'" % (duplicate(self.attrs), self.name), self)
+                raise SyntaxErrorEx("duplicate attribute '%s' in hypertag definition '%s'" % (duplicate(attr.name for attr in self.attrs), self.name), self)
             
             # pick body attribute (attr_body) and the remaining list of regular attributes (attr_regul)
             if self.attrs and self.attrs[0].body:
@@ -1151,7 +1151,7 @@ class NODES(object):
                 name = attr.name
                 expr = attr.expr
                 if name is None:
-                    if self.named: raise SyntaxErrorEx("positional argument follows keyword argument")
+                    if self.named: raise SyntaxErrorEx("positional argument follows keyword argument", attr)
                     self.unnamed.append(expr)
                 else:
                     # if name in self.named: raise SyntaxErrorEx("attribute '{name}' appears twice on attributes list of tag '{self.name}'", attr)
-- 
2.43.0


From bd9a09ff44b8d53d01e290e409b616ccd1ac25bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:58 +0000
Subject: [PATCH 17/48] fix: unpack the value assigned to a single target with
 a trailing comma; count unpacked values correctly

---
 src/hypertag/core/ast.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/hypertag/core/ast.py b/src/hypertag/core/ast.py
index 26f13e9..583b441 100644
--- a/src/hypertag/core/ast.py
+++ b/src/hypertag/core/ast.py
@@ -1031,9 +1031,14 @@ class NODES(object):
             return None
     
     class xtargets(node):
+        unpack = False              # True if the value must be unpacked, i.e., there was at least one ',' - like in Python
+        
+        def setup(self):
+            self.unpack = len(self.children) >= 2 or self.text().endswith(',')
+        
         def is_augmented(self):
             """True if self represents multiple targets (not a plain variable) to assign to."""
-            return len(self.children) >= 2 or self.children[0].type != 'var_def'
+            return self.unpack or self.children[0].type != 'var_def'
         
         def set_inplace(self):
             self.children[0].set_inplace()
@@ -1045,17 +1050,18 @@ class NODES(object):
         def assign(self, state, value):
             """Unpack `value` and assign to child targets."""
             N = len(self.children)
-            if N == 1:
+            if not self.unpack:
                 self.children[0].assign(state, value)
                 return
             
             # unpack and assign to multiple child targets
-            i = 0
-            for i, v in enumerate(value):               # raises TypeError if `value` is not iterable
-                if i >= N: raise ValueErrorEx("too many values to unpack (expected %s)" % N, self)
-                self.children[i].assign(state, v)
-            if i+1 < N:
-                raise ValueErrorEx("not enough values to unpack (expected %s, got %s)" % (N, i+1), self)
+            count = 0
+            for v in value:                             # raises TypeError if `value` is not iterable
+                if count >= N: raise ValueErrorEx("too many values to unpack (expected %s)" % N, self)
+                self.children[count].assign(state, v)
+                count += 1
+            if count < N:
+                raise ValueErrorEx("not enough values to unpack (expected %s, got %s)" % (N, count), self)
             
         def evaluate(self, state):
             assert len(self.children) == 1
-- 
2.43.0


From c8e06f2344e9fe77cef871b8da156301aaafedb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:30 +0000
Subject: [PATCH 18/48] fix: preserve newlines and whitespace inside values of
 expressions embedded in a text block

---
 src/hypertag/core/ast.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/hypertag/core/ast.py b/src/hypertag/core/ast.py
index 583b441..fb886d6 100644
--- a/src/hypertag/core/ast.py
+++ b/src/hypertag/core/ast.py
@@ -469,24 +469,27 @@ class NODES(object):
             state.indentation = ''
             
             lead = self.column          # horizontal position where the block's first line begins in the script
+            lines = [[' ' * lead] * 2]  # [source code, rendered text] of each line; in the headline, spaces are prepended to replace leading tag(s) and a marker character /|!
             try:
-                body = self._render_all(self.children, state)
-                # if body.startswith('\n'):
-                #     output = body[1:]                   # no headline? drop the leading newline
-                # else:
-                output = ' ' * lead + body          # in the headline, spaces are prepended to replace leading tag(s) and a marker character /|!
+                for child in self.children:
+                    if isinstance(child, NODES.line):
+                        lines[-1][0] += state.indentation + child.text()
+                        lines[-1][1] += child.render(state)
+                    else:
+                        lines += [['', ''] for _ in child.render(state)]        # a margin: \n's; or indent/dedent: empty string
             finally:
                 state.indentation = indent
 
-            sub_indent = get_indent(output)
+            # sub-indentation is calculated from the source code, values of expressions may contain newlines and whitespace that must be preserved
+            sub_indent = get_indent('\n'.join(source for source, _ in lines))
             sub_indent = sub_indent[:lead+1]        # max 1 initial space/tab after the lead is dropped; remaining sub-indentation is preserved in `output`
-            output = del_indent(output, sub_indent)
+            output = '\n'.join(text[len(sub_indent):] if source.startswith(sub_indent) else text for source, text in lines)
             # print('sub_indent: "{sub_indent}"')
 
             # if tail lines have shorter indent than the headline, drop all the lead + 1 space (gap)
             if len(sub_indent) < lead:
                 drop = lead - len(sub_indent)
-                if output[drop:drop+1] == ' ': drop += 1
+                if lines[0][0][lead:lead+1] == ' ': drop += 1
                 output = output[drop:]
                 
             # # drop the 1st line (headline) if empty
-- 
2.43.0


From 3beb896857ed2dddbab5bb1dde277519edf87eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:30 +0000
Subject: [PATCH 19/48] fix: a dot followed by space after an embedded
 $variable is plain text, not a member access

---
 src/hypertag/core/grammar.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/hypertag/core/grammar.py b/src/hypertag/core/grammar.py
index 06f2e19..4859a20 100644
--- a/src/hypertag/core/grammar.py
+++ b/src/hypertag/core/grammar.py
@@ -188,8 +188,8 @@ dict         =  '{' ws (dict_pair comma)* (dict_pair ws)? '}'
 dict_pair    =  expr_bitwise ws ':' ws expr                   # here, `expr_bitwise` is used instead of `expr` to avoid ambiguity with pipeline operator
 
 atom         =  literal / var_use / tag_use / subexpr / tuple / list / dict / set
-factor_var   =  var_use trailer* qualifier?                   # reduced form of `factor`: a variable with optional trailer, no spaces allowed
-factor_strict=  atom trailer* qualifier?                      # reduced form of `factor`: no spaces allowed before the trailer
+factor_var   =  var_use (!dot_space trailer)* qualifier?      # reduced form of `factor`: a variable with optional trailer, no spaces allowed
+factor_strict=  atom (!dot_space trailer)* qualifier?         # reduced form of `factor`: no spaces allowed before the trailer
 factor_filt  =  atom trailer_filt*                            # reduced form of `factor`: no function call () allowed; for use as filter function in `pipeline`
 factor       =  atom (ws trailer)* qualifier?                 # operators: () [] .
 
@@ -226,6 +226,7 @@ call         =  '(' ws (args ws)? ')'
 index        =  '[' subscript ']'               # handles atomic indices [i] and all types of [*:*:*] slices
 member       =  '.' ws name_id
 trailer      =  call / index / member
+dot_space    =  ~"\.[ \t]"                      # a dot followed by space is not a member access in factor_var/strict: in "Hi $x. How" it ends a sentence
 trailer_filt =  index / member                  # reduced form of `trailer` for use in `factor_filt` and `pipeline`
 
 partial_call =  '(' ws (args ws)? ')'
-- 
2.43.0


From bd295c7d181481aaa18c05a67be951e3efc7a9f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:48 +0000
Subject: [PATCH 20/48] fix: allow identifiers that start with True, False or
 None in expressions

---
 src/hypertag/core/grammar.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hypertag/core/grammar.py b/src/hypertag/core/grammar.py
index 4859a20..41b58b3 100644
--- a/src/hypertag/core/grammar.py
+++ b/src/hypertag/core/grammar.py
@@ -267,8 +267,8 @@ literal          =  number / string / boolean / none
 number_signed    =  ~"[+-]?" number
 number           =  ~"((\.\d+)|(\d+(\.\d*)?))([eE][+-]?\d+)?"      # the leading +- is added during expression construction (<neg>)
 #string           =  ~"'[^']*'" / ~'"[^"]*"'         # '...' or "..." string; no escaping of ' and " inside!
-boolean          =  'True' / 'False'
-none             =  'None'
+boolean          =  ~"(True|False)\\b"         # \\b is needed to not match a prefix of a longer identifier, like: Nonempty
+none             =  ~"None\\b"
 
 string           =  string_format / string_raw
 string_raw       =  ~"r'[^']*'" / ~'r"[^"]*"'         # '...' or "..." string; must not contain ' or " inside (no escaping available)
-- 
2.43.0


From 4769e4aedc3a1ee97b31253b61c667694dd1b30f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:00 +0000
Subject: [PATCH 21/48] fix: only spaces and tabs are indentation, leave other
 leading whitespace (NBSP) in text intact

---
 src/hypertag/core/ast.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypertag/core/ast.py b/src/hypertag/core/ast.py
index fb886d6..d2445ed 100644
--- a/src/hypertag/core/ast.py
+++ b/src/hypertag/core/ast.py
@@ -219,7 +219,7 @@ class Grammar(Parsimonious):
         for line in script:
             linenum += 1
             line = line.rstrip()                    # trailing whitespace removed
-            tail = line.lstrip()
+            tail = line.lstrip(' \t')               # only spaces and tabs make up indentation; any other leading whitespace (like NBSP) is text
             indent = line[: len(line) - len(tail)]
             
             if not tail and linenum <= total:       # only whitespace in line? add to the `margin`
-- 
2.43.0


From cfaf57a33fe24f73f749c9279ec079b7db6b8cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:21 +0000
Subject: [PATCH 22/48] fix: body of a hypertag in a chain of tags, with an
 outlined body, crashed or was laid out at a wrong indentation

---
 src/hypertag/core/ast.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hypertag/core/ast.py b/src/hypertag/core/ast.py
index d2445ed..75c8aef 100644
--- a/src/hypertag/core/ast.py
+++ b/src/hypertag/core/ast.py
@@ -1123,6 +1123,7 @@ class NODES(object):
         def apply_tags(self, state, body):
             """Wrap up the translated `body` (a DOM, not AST) with subsequent tags processed (expanded) in reverse order."""
             for tag in reversed(self.children):
+                for node in body: node.relative_indent(state.indentation)       # a hypertag may lay out the `body` at a different indentation
                 body = tag.translate_tag(state, body)
             return body
         
-- 
2.43.0


From 531230578983b8196cb5610e9ed32cfc8e4d7ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:21 +0000
Subject: [PATCH 23/48] fix: lay out an imported hypertag relative to the place
 of its occurrence (crashed inside a chain of tags)

---
 src/hypertag/core/ast.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/hypertag/core/ast.py b/src/hypertag/core/ast.py
index 75c8aef..98ac82c 100644
--- a/src/hypertag/core/ast.py
+++ b/src/hypertag/core/ast.py
@@ -111,7 +111,9 @@ class ImportedHypertag(Hypertag):
     def expand(self, body, attrs, kwattrs, state, caller):
         
         # expand() copies the module's terminal state, hence stored values of symbols don't change after the call below
-        return self.hypertag.expand(body, attrs, kwattrs, self.module_state, caller)
+        dom = self.hypertag.expand(body, attrs, kwattrs, self.module_state, caller)
+        dom.set_indent(state.indentation)           # place of occurrence has different indentation than the end of the module
+        return dom
 
 class EmbeddedHypertag:
     """
-- 
2.43.0


From 4b719ba3ca82117164fde1f0ca23aa0f4e96bbbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:14 +0000
Subject: [PATCH 24/48] fix: too deep nesting or recursion crashed the process
 on PyPy instead of raising RecursionError

---
 src/hypertag/core/runtime.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/hypertag/core/runtime.py b/src/hypertag/core/runtime.py
index bee9c2e..f0c284e 100644
--- a/src/hypertag/core/runtime.py
+++ b/src/hypertag/core/runtime.py
@@ -14,8 +14,9 @@ PATH_SEP = os.path.sep
 #####
 
 # set Python's global recursion limit to at least MIN_RECURSION_LIMIT to avoid RecursionError
-# when parsing deeply nested scripts
-MIN_RECURSION_LIMIT = 20000
+# when parsing deeply nested scripts; in PyPy, the limit is a size of the stack (in units of 768 bytes)
+# and it must fit in a typical stack of 8MB, otherwise too deep recursion crashes the process
+MIN_RECURSION_LIMIT = 10000 if sys.implementation.name == 'pypy' else 20000
 sys.setrecursionlimit(max(sys.getrecursionlimit(), MIN_RECURSION_LIMIT))
 
 
-- 
2.43.0


From 8c343fffdd763f51bf7b4b472d0aa2dd4ec14f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:58 +0000
Subject: [PATCH 25/48] fix: an unbounded tuple with a single element and a
 trailing comma evaluates to a tuple

---
 src/hypertag/core/ast.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypertag/core/ast.py b/src/hypertag/core/ast.py
index 98ac82c..0f4d066 100644
--- a/src/hypertag/core/ast.py
+++ b/src/hypertag/core/ast.py
@@ -1956,7 +1956,7 @@ class HypertagAST(BaseTree):
     # nodes that will be replaced with their child if there is exactly 1 child AFTER rewriting of all children;
     # they must have a corresponding x... node class, because pruning is done after rewriting, not before
     _compact_ = "factor_filt factor_strict factor_var factor pow_expr term arith_expr shift_expr and_expr xor_expr or_expr concat_expr " \
-                "pipeline comparison not_test and_test or_test ifelse_test expr_tuple " \
+                "pipeline comparison not_test and_test or_test ifelse_test " \
                 "block_struct"
 
     _reduce_anonym_ = True      # reduce all anonymous nodes, i.e., nodes generated by unnamed expressions, typically groupings (...)
-- 
2.43.0


From b4dc0cb27da0d1292710807fe444b294bbbffa5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:40 +0000
Subject: [PATCH 26/48] fix: x!=y without a space before the operator is a
 comparison, not a qualifier followed by a syntax error

---
 src/hypertag/core/grammar.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/hypertag/core/grammar.py b/src/hypertag/core/grammar.py
index 41b58b3..7dfb168 100644
--- a/src/hypertag/core/grammar.py
+++ b/src/hypertag/core/grammar.py
@@ -48,8 +48,8 @@ targets          =  target (comma target)* (ws ',')?            # result object
 target           =  ('(' ws targets ws ')') / var_def           # left side of assignment: a variable, or a tuple of variables/sub-tuples
 var_def          =  name_id ''                                  # definition (assignment) of a variable
 
-tail_for         =  (expr_factor generic_control) / (expr_augment body_control?)
-tail_if          =  (expr_factor generic_control) / (expr         body_control?)         # expr may contain hanging operators (/|) hence it can't be followed by generic_control which may contain /| as a text block marker
+tail_for         =  (expr_factor !not_equal generic_control) / (expr_augment body_control?)
+tail_if          =  (expr_factor !not_equal generic_control) / (expr         body_control?)         # expr may contain hanging operators (/|) hence it can't be followed by generic_control which may contain /| as a text block marker
 
 ###  DEFINITION BLOCKS
 
@@ -191,7 +191,7 @@ atom         =  literal / var_use / tag_use / subexpr / tuple / list / dict / se
 factor_var   =  var_use (!dot_space trailer)* qualifier?      # reduced form of `factor`: a variable with optional trailer, no spaces allowed
 factor_strict=  atom (!dot_space trailer)* qualifier?         # reduced form of `factor`: no spaces allowed before the trailer
 factor_filt  =  atom trailer_filt*                            # reduced form of `factor`: no function call () allowed; for use as filter function in `pipeline`
-factor       =  atom (ws trailer)* qualifier?                 # operators: () [] .
+factor       =  atom (ws trailer)* (!not_equal qualifier)?    # operators: () [] .
 
 pow_expr     =  factor (ws op_power ws factor)*
 term         =  pow_expr (ws op_multiplic ws pow_expr)*       # operators: * / // percent
@@ -233,6 +233,7 @@ partial_call =  '(' ws (args ws)? ')'
 filter       =  factor_filt partial_call?       # no space is allowed between the function and its arguments
 
 qualifier    =  ~"[\?!]"                        # ? means that None/empty(false)/exceptions shall be converted to '' ... ! means that empty (false) value triggers exception
+not_equal    =  '!='                            # "!=" directly after an operand, x!=y, is a comparison not a qualifier
 # obligatory   =  '!'
 # optional     =  '?'
 
-- 
2.43.0


From 9b76ae77a559be87f933c64229e94e3fd8443601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:49 +0000
Subject: [PATCH 27/48] fix: a slice of a DOM contained a nested list instead
 of nodes, which crashed rendering and embedding

---
 src/hypertag/core/dom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypertag/core/dom.py b/src/hypertag/core/dom.py
index eb8c321..13f1dcb 100644
--- a/src/hypertag/core/dom.py
+++ b/src/hypertag/core/dom.py
@@ -95,7 +95,7 @@ class DOM:
         if isinstance(pos, int):
             return self.nodes[pos]
         if isinstance(pos, (int, slice)):
-            return DOM(self.nodes[pos], _strict = False)
+            return DOM(*self.nodes[pos], _strict = False)
         # if isinstance(pos, (str, Tag)):
         return self.select(pos)
     
-- 
2.43.0


From 7db6ef7a4f7adf99f89f338662ede35b8bfd0e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:11 +0000
Subject: [PATCH 28/48] fix: an even number of negations (not not x) evaluates
 to a boolean, like in Python

---
 src/hypertag/core/ast.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypertag/core/ast.py b/src/hypertag/core/ast.py
index 0f4d066..0309884 100644
--- a/src/hypertag/core/ast.py
+++ b/src/hypertag/core/ast.py
@@ -1683,7 +1683,7 @@ class NODES(object):
             assert len(self.children) >= 2 and all(c.type == 'not' for c in self.children[:-1])
             neg = not (len(self.children) % 2)              # check parity of 'children' to see if negation appears even or odd no. of times
             val = self.children[-1].evaluate(state)
-            return not val if neg else val
+            return not val if neg else bool(val)
     
     class xand_test(simple_chain_expression):
         "chain of logical 'and' operators. Lazy evaluation: if false item is encountered, it's returned without evaluation of subsequent items"
-- 
2.43.0


From eed2f17ab533da5084e4a02a23f2c673fc2c5d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:10 +0000
Subject: [PATCH 29/48] fix: x!==y is still a qualifier followed by a
 comparison

---
 src/hypertag/core/grammar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypertag/core/grammar.py b/src/hypertag/core/grammar.py
index 7dfb168..5d1f861 100644
--- a/src/hypertag/core/grammar.py
+++ b/src/hypertag/core/grammar.py
@@ -233,7 +233,7 @@ partial_call =  '(' ws (args ws)? ')'
 filter       =  factor_filt partial_call?       # no space is allowed between the function and its arguments
 
 qualifier    =  ~"[\?!]"                        # ? means that None/empty(false)/exceptions shall be converted to '' ... ! means that empty (false) value triggers exception
-not_equal    =  '!='                            # "!=" directly after an operand, x!=y, is a comparison not a qualifier
+not_equal    =  ~"!=(?!=)"                      # "!=" directly after an operand, x!=y, is a comparison not a qualifier; but x!==y is a qualifier and "=="
 # obligatory   =  '!'
 # optional     =  '?'
 
-- 
2.43.0


From 4d6584d4ed24ae9898fbdbf8c9655758ed7e5da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:36 +0000
Subject: [PATCH 30/48] fix: DOM.alter() visited nodes in the opposite order
 than documented

---
 src/hypertag/core/dom.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hypertag/core/dom.py b/src/hypertag/core/dom.py
index 13f1dcb..cb53d1b 100644
--- a/src/hypertag/core/dom.py
+++ b/src/hypertag/core/dom.py
@@ -174,13 +174,13 @@ class DOM:
         the input node itself can also be returned.
         The alter() function returns self.
         """
-        if order == 'preorder':
+        if order == 'postorder':
             for node in self.nodes: node.alter(transform, skip, order)
         
         new_nodes  = itertools.chain(*(transform(node) for node in self.nodes))
         self.nodes = self._flatten(new_nodes)
         
-        if order == 'postorder':
+        if order == 'preorder':
             for node in self.nodes: node.alter(transform, skip, order)
 
         return self
-- 
2.43.0


From 4cda030687cae7d90f0abef5da1c9d3c62914f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:10 +0000
Subject: [PATCH 31/48] fix: imports in a script whose __file__ is a path
 relative to the current folder

---
 src/hypertag/core/runtime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypertag/core/runtime.py b/src/hypertag/core/runtime.py
index f0c284e..113fc16 100644
--- a/src/hypertag/core/runtime.py
+++ b/src/hypertag/core/runtime.py
@@ -231,7 +231,7 @@ class HyLoader(Loader):
         
         # whenever possible, python package path (python_path) of the module is inferred, so that its `package` can be set
         location = python_path = None
-        ref_root = os.path.dirname(referrer.filename) if referrer.filename else None
+        ref_root = os.path.dirname(os.path.abspath(referrer.filename)) if referrer.filename else None
         
         # relative import path is always resolved relative to the referrer's folder
         if path[:1] == '.':
-- 
2.43.0


From 1a8635c91452a0a25578b93f65f35596b01f01f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:10 +0000
Subject: [PATCH 32/48] fix: relative import in a script with an empty
 __package__ (of a top-level module) raised a bare TypeError

---
 src/hypertag/core/runtime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypertag/core/runtime.py b/src/hypertag/core/runtime.py
index 113fc16..e34102b 100644
--- a/src/hypertag/core/runtime.py
+++ b/src/hypertag/core/runtime.py
@@ -28,7 +28,7 @@ def join_path(base, path, sep = '.', ext = None):
     in the result instead of dots, in the `path` part of the output string. If `ext` is provided,
     it is appended as a file extension of the output path; it should start with a dot '.'.
     """
-    if base is None: return None
+    if not base: return None            # an empty base is the package of a top-level Python module
     
     orig_base = base
     orig_path = path
-- 
2.43.0


From 1f97eb75f5aca9708bd731fdb1502c09fad8d418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:16 +0000
Subject: [PATCH 33/48] fix: DOM tree() misprinted or crashed on a tuple given
 as a positional attribute

---
 src/hypertag/core/dom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypertag/core/dom.py b/src/hypertag/core/dom.py
index cb53d1b..82b7993 100644
--- a/src/hypertag/core/dom.py
+++ b/src/hypertag/core/dom.py
@@ -355,7 +355,7 @@ class DOM:
             heading = str(name)
             
             for attr in self.attrs or []:
-                heading += " %s" % attr
+                heading += " %s" % (attr,)
             for key, attr in (self.kwattrs or {}).items():
                 heading += " %s=%s" % (key, attr)
                 
-- 
2.43.0


From b5f453220d95a9fb410d42d5c697a1c1faabdc67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:20 +0000
Subject: [PATCH 34/48] fix: internal INDENT/DEDENT characters don't appear in
 error messages

---
 src/hypertag/core/errors.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/hypertag/core/errors.py b/src/hypertag/core/errors.py
index 9497321..24fa658 100644
--- a/src/hypertag/core/errors.py
+++ b/src/hypertag/core/errors.py
@@ -14,15 +14,17 @@ class HError(ParserError):
             dedents = prefix.count(symbols['DEDENT_S']) + prefix.count(symbols['DEDENT_T'])
             indent  = indents - dedents
             column  = indent + self.column
+            text    = ''.join(char for char in self.text if char not in symbols.values())       # INDENT/DEDENT characters are internal
         else:
             column  = None
+            text    = self.text
         
         line = self.line - 1 if self.line else self.line
         
         if self.node and self.node.tree.filename:
-            return msg + " in '%s', line %s, column %s (%s)" % (self.node.tree.filename, line, column, self.text)
+            return msg + " in '%s', line %s, column %s (%s)" % (self.node.tree.filename, line, column, text)
         else:
-            return msg + " at line %s, column %s (%s)" % (line, column, self.text)
+            return msg + " at line %s, column %s (%s)" % (line, column, text)
 
 
 # class HBaseException(BaseException):
-- 
2.43.0


From c4e0af0245293141a20b9fc35bf191820cd66dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:02 +0000
Subject: [PATCH 35/48] fix: scripts were read from files in the encoding of
 the locale instead of UTF-8

---
 src/hypertag/core/runtime.py   | 3 ++-
 src/hypertag/django/backend.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/hypertag/core/runtime.py b/src/hypertag/core/runtime.py
index e34102b..1674fb7 100644
--- a/src/hypertag/core/runtime.py
+++ b/src/hypertag/core/runtime.py
@@ -284,7 +284,8 @@ class HyLoader(Loader):
         
         package = python_path.rsplit('.', 1)[0] if python_path else None
         
-        script = open(location).read()
+        with open(location, encoding = 'utf-8') as f:                           # regardless of the locale
+            script = f.read()
         
         # a cycle of imports can't be resolved, because a module is fully translated before its symbols become available
         task = (location, get_ident())
diff --git a/src/hypertag/django/backend.py b/src/hypertag/django/backend.py
index e8e356f..6ebc422 100644
--- a/src/hypertag/django/backend.py
+++ b/src/hypertag/django/backend.py
@@ -49,7 +49,8 @@ class Hypertag(BaseEngine):
         tried = []
         for template_file in self.iter_template_filenames(template_name):
             try:
-                script = open(template_file, 'rt').read()
+                with open(template_file, 'rt', encoding = 'utf-8') as f:
+                    script = f.read()
                 return Template(self.engine, script, template_file)
 
             except FileNotFoundError:
-- 
2.43.0


From 442fe2a863113055f2651bf63eccd6ebe94e61a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:02 +0000
Subject: [PATCH 36/48] fix: a malformed escape sequence in a string raised a
 bare UnicodeDecodeError

---
 src/hypertag/core/ast.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/hypertag/core/ast.py b/src/hypertag/core/ast.py
index 0309884..3e28ff4 100644
--- a/src/hypertag/core/ast.py
+++ b/src/hypertag/core/ast.py
@@ -1805,7 +1805,10 @@ class NODES(object):
     class xtext_quot(static):
         r"""In `text_quot1` and `text_quot2` productions, Python's escape characters (\n \t \x.. etc.) must be decoded."""
         def setup(self):
-            self.value = decode_escapes(self.text())
+            try:
+                self.value = decode_escapes(self.text())
+            except UnicodeDecodeError as ex:
+                raise SyntaxErrorEx("invalid escape sequence in a string, %s" % ex.reason, self)
         
     class xtext_quot1(xtext_quot): pass
     class xtext_quot2(xtext_quot): pass
-- 
2.43.0


From da2039d885412d5625fcf93792222e2484939457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:02 +0000
Subject: [PATCH 37/48] fix: a control block with an inline comment and no body
 was a syntax error, also reported for later errors

---
 src/hypertag/core/grammar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypertag/core/grammar.py b/src/hypertag/core/grammar.py
index 5d1f861..b212838 100644
--- a/src/hypertag/core/grammar.py
+++ b/src/hypertag/core/grammar.py
@@ -90,7 +90,7 @@ pass             =  'pass'
 generic_control  =  (ws body_text) / body_control               # like body_control, but additionally allows full-text body
 generic_struct   =  (ws body_text) / body_struct                # like body_struct, but additionally allows full-text body
 
-body_control     =  (ws mark_struct inline_comment? tail_blocks?) / (inline_comment? tail_blocks)
+body_control     =  (ws mark_struct inline_comment? tail_blocks?) / (inline_comment tail_blocks?) / tail_blocks
 body_struct      =  (ws mark_struct)? ((ws headline) / inline_comment)? tail_blocks?       # this rule matches empty string '' (!)
 
 body_text        =  block_verbat / block_normal / block_markup / block_embed
-- 
2.43.0


From e861af5d122ad025a8d3ca9a11a35f0d25841deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:02 +0000
Subject: [PATCH 38/48] fix: an "else" clause without a body raised
 AssertionError

---
 src/hypertag/core/ast.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hypertag/core/ast.py b/src/hypertag/core/ast.py
index 3e28ff4..d8e5784 100644
--- a/src/hypertag/core/ast.py
+++ b/src/hypertag/core/ast.py
@@ -906,8 +906,8 @@ class NODES(object):
         
     class xclause_else(node):
         def translate(self, state):
-            assert len(self.children) == 1
-            return self.children[0].translate(state)
+            assert len(self.children) <= 1
+            return self.children[0].translate(state) if self.children else DOM()
         
     class xblock_while(control_block):
         # def _analyse_branches(self, ctx):
-- 
2.43.0


From 39b7fa2011231199678a7b48f178c76d37eb4834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:58 +0000
Subject: [PATCH 39/48] fix: a list passed as a repeated attribute was extended
 in place instead of raising TypeError

---
 src/hypertag/core/ast.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypertag/core/ast.py b/src/hypertag/core/ast.py
index d8e5784..c23f516 100644
--- a/src/hypertag/core/ast.py
+++ b/src/hypertag/core/ast.py
@@ -1201,7 +1201,7 @@ class NODES(object):
             for name, expr in self.named:
                 value = expr.evaluate(state)
                 if name in named:
-                    named[name] += ' ' + value       # = '{named[name]} {value}'
+                    named[name] = named[name] + ' ' + value       # = '{named[name]} {value}'
                 else:
                     named[name] = value
                     
-- 
2.43.0


From bc444a76fb38c8584a9a3147cdf45c44d23602a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:58 +0000
Subject: [PATCH 40/48] fix: a hypertag called as a function inside a text
 block was laid out at a wrong indentation

---
 src/hypertag/core/ast.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/hypertag/core/ast.py b/src/hypertag/core/ast.py
index c23f516..0029857 100644
--- a/src/hypertag/core/ast.py
+++ b/src/hypertag/core/ast.py
@@ -132,8 +132,10 @@ class EmbeddedHypertag:
         
     def __call__(self, body_string = None, *attrs, **kwattrs):
         
-        body = DOM.Text(text_type(body_string)) if body_string is not None else DOM()
-        dom  = self.hypertag.expand(body, attrs, kwattrs, self.state, self.caller)
+        body  = DOM.Text(text_type(body_string)) if body_string is not None else DOM()
+        state = self.state.copy()
+        state.indentation = '\n'            # indentation is temporarily reset to '' if the call is made inside a text block
+        dom   = self.hypertag.expand(body, attrs, kwattrs, state, self.caller)
         dom.set_indent('')
         return dom.render()
 
-- 
2.43.0


From ab4d00c16c06248f0eb4d0a76599115c548f7173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:58 +0000
Subject: [PATCH 41/48] fix: a tag or hypertag called as a function received
 its body as a single node instead of a DOM

---
 src/hypertag/core/ast.py | 2 +-
 src/hypertag/core/tag.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hypertag/core/ast.py b/src/hypertag/core/ast.py
index 0029857..9284974 100644
--- a/src/hypertag/core/ast.py
+++ b/src/hypertag/core/ast.py
@@ -132,7 +132,7 @@ class EmbeddedHypertag:
         
     def __call__(self, body_string = None, *attrs, **kwattrs):
         
-        body  = DOM.Text(text_type(body_string)) if body_string is not None else DOM()
+        body  = DOM.text(text_type(body_string)) if body_string is not None else DOM()
         state = self.state.copy()
         state.indentation = '\n'            # indentation is temporarily reset to '' if the call is made inside a text block
         dom   = self.hypertag.expand(body, attrs, kwattrs, state, self.caller)
diff --git a/src/hypertag/core/tag.py b/src/hypertag/core/tag.py
index c28ea7d..8663168 100644
--- a/src/hypertag/core/tag.py
+++ b/src/hypertag/core/tag.py
@@ -40,7 +40,7 @@ class Tag:
         without an intermediate DOM. This method can be used as a shortcut inside Hypertag expressions
         to skip DOM creation entirely.
         """
-        body = DOM.Text(text_type(body_string)) if body_string is not None else DOM()
+        body = DOM.text(text_type(body_string)) if body_string is not None else DOM()
         return self.expand(body, attrs, kwattrs)
         
 
-- 
2.43.0


From 030cca488b56b1e66faa0f9360d3a9173ea210fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:39 +0000
Subject: [PATCH 42/48] fix: truth value of an expression without a qualifier
 is not tested

---
 src/hypertag/core/ast.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hypertag/core/ast.py b/src/hypertag/core/ast.py
index 9284974..839c715 100644
--- a/src/hypertag/core/ast.py
+++ b/src/hypertag/core/ast.py
@@ -1309,6 +1309,7 @@ class NODES(object):
                 if self.qualifier == '?': return ''
                 else: raise
             
+            if not self.qualifier: return val           # truth value is only checked if needed: the check may be costly or not supported by `val`
             if val: return val
             
             # `val` is false ... check qualifiers to undertake appropriate action
-- 
2.43.0


From 2947921a66e4adb65cc8cfa7637f82bddcb00d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:39 +0000
Subject: [PATCH 43/48] fix: result of a comparison is not tested for truth
 unless followed by another one

---
 src/hypertag/core/ast.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/hypertag/core/ast.py b/src/hypertag/core/ast.py
index 839c715..8add596 100644
--- a/src/hypertag/core/ast.py
+++ b/src/hypertag/core/ast.py
@@ -1673,10 +1673,11 @@ class NODES(object):
         def evaluate(self, state):
             """x1 OP1 x2 OP2 x3 ... means: (x1 OP1 x2) and (x2 OP2 x3) ..., lazily and with a single evaluation of every operand, like in Python."""
             left = self.children[0].evaluate(state)
-            for op, expr in zip(self.children[1::2], self.children[2::2]):
+            res  = True
+            for i, (op, expr) in enumerate(zip(self.children[1::2], self.children[2::2])):
+                if i and not res: break                 # truth value of the last result is not checked: it may be undefined, like in numpy arrays
                 right = expr.evaluate(state)
                 res = op.apply(left, right)
-                if not res: break
                 left = right
             return res
         
-- 
2.43.0


From 5e85e49b5feb12cbc62986121b58df0eab40debc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:39 +0000
Subject: [PATCH 44/48] fix: truth value of operands of and/or is tested once

---
 src/hypertag/core/ast.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hypertag/core/ast.py b/src/hypertag/core/ast.py
index 8add596..67456e5 100644
--- a/src/hypertag/core/ast.py
+++ b/src/hypertag/core/ast.py
@@ -1696,7 +1696,7 @@ class NODES(object):
             res = self.children[0].evaluate(state)
             for expr in self.children[1:]:
                 if not res: return res
-                res = res and expr.evaluate(state)
+                res = expr.evaluate(state)
             return res
     class xor_test(simple_chain_expression):
         "chain of logical 'or' operators. Lazy evaluation: if true item is encountered, it's returned without evaluation of subsequent items"
@@ -1705,7 +1705,7 @@ class NODES(object):
             res = self.children[0].evaluate(state)
             for expr in self.children[1:]:
                 if res: return res
-                res = res or expr.evaluate(state)
+                res = expr.evaluate(state)
             return res
     
     class xifelse_test(expression):
-- 
2.43.0


From 35a8ffeb9a2256fcf7160d1e2b6ebca12d6a558b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:33 +0000
Subject: [PATCH 45/48] fix: a script that re-assigns a built-in variable
 exports it, like any other variable

---
 src/hypertag/core/ast.py     | 5 +++++
 src/hypertag/core/structs.py | 1 +
 2 files changed, 6 insertions(+)

diff --git a/src/hypertag/core/ast.py b/src/hypertag/core/ast.py
index 67456e5..5d64de4 100644
--- a/src/hypertag/core/ast.py
+++ b/src/hypertag/core/ast.py
@@ -398,6 +398,10 @@ class NODES(object):
             position = ctx.position()
             for c in self.children: c.analyse(ctx)
             self.slots_out = ctx.asdict(position)           # pull newly defined top-level symbols from the tree
+            
+            # a built-in variable that's re-assigned on the top level is defined by this document, as well
+            for symbol, slot in self.slots_in.items():
+                if slot.reassigned: self.slots_out.setdefault(symbol, slot)
 
         def translate(self, state):
             """
@@ -1406,6 +1410,7 @@ class NODES(object):
             if self.write:
                 if slot and slot.depth == ctx.regular_depth:    # TODO: check this and decide what semantics to choose (!)
                     self.slot_write = slot
+                    slot.reassigned = True
                 else:
                     self.slot_write = Slot(symbol, ctx)
                     ctx.push(symbol, self.slot_write)
diff --git a/src/hypertag/core/structs.py b/src/hypertag/core/structs.py
index cdfcf45..7471b84 100644
--- a/src/hypertag/core/structs.py
+++ b/src/hypertag/core/structs.py
@@ -423,6 +423,7 @@ class Slot:
     primary = None      # 1st definition of this symbol, if self represents a re-assignment (override)
     depth   = None      # ctx.regular_depth of this slot, for correct identification of re-assignments that occur
                         # at the same depth (in the same namespace)
+    reassigned = False  # True if there's a re-assignment of this slot in the document, at the same depth
     
     def __init__(self, symbol, ctx):
         assert len(symbol) >= 2 and symbol[0] in '$%'
-- 
2.43.0


From c16636fa430d9ae9e5e55a0071308dfd849247c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:21 +0000
Subject: [PATCH 46/48] fix: a qualified embedding, {expr}? or {expr}!, is
 accepted as an unnamed attribute and a default value

---
 src/hypertag/core/ast.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/hypertag/core/ast.py b/src/hypertag/core/ast.py
index 5d64de4..78eee07 100644
--- a/src/hypertag/core/ast.py
+++ b/src/hypertag/core/ast.py
@@ -1251,10 +1251,11 @@ class NODES(object):
             
     class xattr_def(attribute):
         def setup(self):
-            assert 1 <= len(self.children) <= 2
+            assert 1 <= len(self.children) <= 3
             self.name = self.children[0].value          # <name_xml>
-            if len(self.children) == 2:
+            if len(self.children) >= 2:
                 self.expr = self.children[1]
+            # there can be a qualifier as self.children[2]; its existence is already taken into account by self.children[1]
             
     # in-occurrence attributes:  xattr_named, xattr_unnamed, xattr_short
     
@@ -1267,8 +1268,9 @@ class NODES(object):
             
     class xattr_unnamed(attribute):
         def setup(self):
-            assert len(self.children) == 1
+            assert 1 <= len(self.children) <= 2
             self.expr = self.children[0]
+            # there can be a qualifier as self.children[1]; its existence is already taken into account by self.children[0]
             
     class xattr_short(attribute):
         def setup(self):
-- 
2.43.0


From 242a08e4babe76ac59c1ca8c8f97154ba6e5b3bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:31:03 +0000
Subject: [PATCH 47/48] fix: context variables named 'self' and 'builtins' can
 be passed to render()

---
 src/hypertag/core/ast.py     |  3 ++-
 src/hypertag/core/runtime.py | 14 ++++++++------
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/hypertag/core/ast.py b/src/hypertag/core/ast.py
index 78eee07..6a9eb30 100644
--- a/src/hypertag/core/ast.py
+++ b/src/hypertag/core/ast.py
@@ -2073,8 +2073,9 @@ class HypertagAST(BaseTree):
         self.root.predefine(builtins)
         self.root.analyse(ctx)
         
-    def translate(self, __builtins__ = None, __tags__ = None, **variables):
+    def translate(__self__, __builtins__ = None, __tags__ = None, **variables):
         
+        self = __self__                     # names of arguments must not collide with names of `variables`
         if __builtins__ is None:
             __builtins__ = self.runtime.import_builtins()
         self.context = self.make_context(__tags__, variables)
diff --git a/src/hypertag/core/runtime.py b/src/hypertag/core/runtime.py
index 1674fb7..4d28e28 100644
--- a/src/hypertag/core/runtime.py
+++ b/src/hypertag/core/runtime.py
@@ -113,10 +113,11 @@ class HyModule(Module):
     symbols = None      # dict of output symbols produced during script parsing, {name: value}
     state   = None      # local State at the end of translation; needed when hypertags from this module are to be expanded
     
-    def translate(self, builtins, __tags__, **variables):
-    
+    def translate(__self__, __builtins__, __tags__, **variables):
+        # names of arguments must not collide with names of `variables`
+        self = __self__
         ast = HypertagAST(self.script, self)
-        self.dom, self.symbols, self.state = ast.translate(builtins, __tags__, **variables)
+        self.dom, self.symbols, self.state = ast.translate(__builtins__, __tags__, **variables)
         return self
         
     
@@ -370,9 +371,10 @@ class Runtime:
 
         raise ModuleNotFoundEx("import path not found '%s', try setting __package__ or __file__ when calling render()" % path, ast_node)
         
-    def translate(self, __script__, __file__ = None, __package__ = None, __tags__ = None, **variables):
+    def translate(__self__, __script__, __file__ = None, __package__ = None, __tags__ = None, **variables):
         """Parse a given script, translate to a DOM tree, and return wrapped up in a HyModule instance."""
         
+        self = __self__                     # names of arguments must not collide with names of `variables`
         builtins = self.import_builtins()
         builtins[VAR('__file__')]    = __file__
         builtins[VAR('__package__')] = __package__
@@ -382,9 +384,9 @@ class Runtime:
         
         return module
         
-    def render(self, __script__, __file__ = None, __package__ = None, __tags__ = None, **variables):
+    def render(__self__, __script__, __file__ = None, __package__ = None, __tags__ = None, **variables):
         
-        module = self.translate(__script__, __file__, __package__, __tags__, **variables)
+        module = __self__.translate(__script__, __file__, __package__, __tags__, **variables)
         return module.dom.render()
         
 
-- 
2.43.0


From 123914de6fc4231b2b18436143cb33a5fbb18a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:29:02 +0000
Subject: [PATCH 48/48] fix: an import of a missing Python module is not
 remembered by the loader

---
 src/hypertag/core/runtime.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hypertag/core/runtime.py b/src/hypertag/core/runtime.py
index 4d28e28..cfdf31a 100644
--- a/src/hypertag/core/runtime.py
+++ b/src/hypertag/core/runtime.py
@@ -156,7 +156,8 @@ class Loader:
         if location is None: return None
         if location in self.cache: return self.cache[location]
         
-        module = self.cache[location] = self._read(location, runtime)
+        module = self._read(location, runtime)
+        if module is not None: self.cache[location] = module            # a missing module may appear later
         return module
 
     def _find(self, path, referrer):
-- 
2.43.0


From 67f43ed9196d96b2d318c596ca6248dfa2c31c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:13 +0000
Subject: [PATCH 01/73] fix: accept attributes without a value

---
 gopher_render/_parser.py    | 3 ++-
 gopher_render/_selectors.py | 3 +++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index 66a705d..d9051c0 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -51,7 +51,8 @@ class TagParser(object):
 
     def __extract_classes(self):
         if 'class' in self.attrs:
-            self.attrs['class'] = self.attrs['class'].split()
+            # The value is None for an attribute without one: <p class>
+            self.attrs['class'] = (self.attrs['class'] or '').split()
             return self.attrs['class']
         return []
 
diff --git a/gopher_render/_selectors.py b/gopher_render/_selectors.py
index de6e5fa..2ce728e 100644
--- a/gopher_render/_selectors.py
+++ b/gopher_render/_selectors.py
@@ -143,6 +143,9 @@ def _attribute_matches(tag, selector):
             # The class attribute is split during parsing, so have to rejoin
             # it for ease of comparison
             attr_val = " ".join(attr_val)
+        if attr_val is None:
+            # An attribute without a value has an empty one.
+            attr_val = ""
         if selector.operator == '=':
             return attr_val == selector.value
         if selector.operator == '~=':
-- 
2.43.0


From a3530101da98744a8fd8800f63ceeb2923c631e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:51 +0000
Subject: [PATCH 02/73] fix: do not show None as the target of links without
 one

---
 gopher_render/_parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index d9051c0..39c0c70 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -120,12 +120,12 @@ class LinkParser(TagParser):
         if tag == 'a':
             # If set, this will be used as the link description
             self.title = self.attrs.get('title', None)
-            self.href = self.attrs.get('href', None)
+            self.href = self.attrs.get('href', None) or ''
             self.gopher_link = self._parse_href()
         elif tag == 'img':
             # If set, this will be used as the link description
             self.title = self.attrs.get('alt', None)
-            self.href = self.attrs.get('src', None)
+            self.href = self.attrs.get('src', None) or ''
             self.gopher_link = self._parse_href()
 
     # TODO: This needs a lot more work to be comprehensive
-- 
2.43.0


From 817e9bd3c1f76b24da2d5c55fada8c1641d026d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:51 +0000
Subject: [PATCH 03/73] fix: do not fail on malformed link targets

---
 gopher_render/_parser.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index 39c0c70..89205c1 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -152,7 +152,17 @@ class LinkParser(TagParser):
         Parse the href of the link and return a dictionary containing the
         elements of a gophermap link
         """
-        parsed = urlparse(self.href)
+        try:
+            parsed = urlparse(self.href)
+            parsed.port
+        except ValueError:
+            # Not a valid URL: pass it on as it is, like an unknown protocol
+            return dict(
+                type='h',
+                selector="URL:{}".format(self.href),
+                host=self._context['gopher_host'],
+                port=self._context['gopher_port'],
+            )
         if parsed.scheme in ("http", "https"):
             return dict(
                 type='h',
-- 
2.43.0


From d3e34cf8e2bf76490b885423cc1c6c040c7c3e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:51 +0000
Subject: [PATCH 04/73] fix: default the port and host of gopher links

---
 gopher_render/_parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index 89205c1..cc878c0 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -175,8 +175,8 @@ class LinkParser(TagParser):
             return dict(
                 type=self._guess_type(parsed.path),
                 selector=parsed.path,
-                host=parsed.hostname,
-                port=parsed.port,
+                host=parsed.hostname or self._context['gopher_host'],
+                port=70 if parsed.port is None else parsed.port,
             )
         elif parsed.scheme == '':
             # Relative URL - interpret as a relative gopher link
-- 
2.43.0


From 89a5baaea5faf4ef23e6d9d4b2ad39f5097572d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:51 +0000
Subject: [PATCH 05/73] fix: guess gopher item types from the last path
 component

---
 gopher_render/_parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index cc878c0..3bcb767 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -130,7 +130,8 @@ class LinkParser(TagParser):
 
     # TODO: This needs a lot more work to be comprehensive
     def _guess_type(self, path):
-        p = path.rpartition('.')
+        # Only the last component: a directory name can contain a dot too
+        p = path.rpartition('/')[2].rpartition('.')
         if p[0] == "":
             # No file extension, so gopher menu?
             return 1
-- 
2.43.0


From fc176edcc35c957b226ab891bb8af7ae98818100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:25 +0000
Subject: [PATCH 06/73] fix: render after_block links that are not inside any
 element

---
 gopher_render/_parser.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index 3bcb767..56a0d29 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -298,6 +298,10 @@ class DocumentParser(object):
     """
     def __init__(self):
         self.children = []
+        self.pending_links = []
+
+    def add_pending_link(self, link):
+        self.pending_links.append(link)
 
     def tag_children(self):
         """
@@ -310,6 +314,7 @@ class DocumentParser(object):
 
     def reset(self):
         self.children = []
+        self.pending_links = []
 
 
 RendererMapping = namedtuple('RendererMapping', 'selector, renderer')
@@ -615,6 +620,11 @@ class GopherHTMLParser(HTMLParser):
         for t in self.tree.children:
             self._parsed.append(t.render(self._box))
 
+        if len(self.tree.pending_links) > 0:
+            self._parsed.append("\n")
+            for l in self.tree.pending_links:
+                self._parsed.append(l.link_render(self._box))
+
         if self._link_placement == 'footer' and len(self._footer_pending_links) > 0:
             self._parsed.append("\n")
             for l in self._footer_pending_links:
-- 
2.43.0


From f101ab5d9541d56c4c4f9b91811fdc1747cd240f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:25 +0000
Subject: [PATCH 07/73] fix: render footer entries of images whatever the
 placement of links

---
 gopher_render/_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index 56a0d29..026f834 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -625,7 +625,7 @@ class GopherHTMLParser(HTMLParser):
             for l in self.tree.pending_links:
                 self._parsed.append(l.link_render(self._box))
 
-        if self._link_placement == 'footer' and len(self._footer_pending_links) > 0:
+        if len(self._footer_pending_links) > 0:
             self._parsed.append("\n")
             for l in self._footer_pending_links:
                 self._parsed.append(l.link_render(self._box))
-- 
2.43.0


From 358e7068b988d0c22aab399821404b42dde95bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:25 +0000
Subject: [PATCH 08/73] fix: pass the configured settings to link renderers

---
 gopher_render/_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index 026f834..3ca7754 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -238,9 +238,9 @@ class LinkParser(TagParser):
             renderer = self.link_renderer
             renderer_settings = self.link_renderer_settings
 
-        render_inst = renderer(self, **render_context)
         if renderer_settings is not None:
             render_context['settings'] = renderer_settings
+        render_inst = renderer(self, **render_context)
 
         try:
             box = render_inst.box
-- 
2.43.0


From 183a484cd8235f2a74e26f2274df43401cbaab4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:25 +0000
Subject: [PATCH 09/73] fix: show the alternative text in image references

---
 gopher_render/_parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index 3ca7754..384a7c4 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -213,6 +213,8 @@ class LinkParser(TagParser):
     # original location, unless 'link_placement' is 'inline', in which case
     # link rendering occurs in the original location.
     def render(self, box):
+        # The reference may show the title too, not only the entry
+        self._context.setdefault('title', self.title)
         placement = self._context['image_placement'] if self.tag == 'img' else self._context['link_placement']
         if placement != 'inline':
             return super().render(box)
-- 
2.43.0


From 9927a94344dd4f59a6309a1528b8c6bb6fc278d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:51 +0000
Subject: [PATCH 10/73] fix: close all void elements, not only br and img

---
 gopher_render/_parser.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index 384a7c4..b9c55e9 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -23,6 +23,13 @@ from .rendering import DefinitionListRenderer, DefinitionListTermHeaderRenderer,
 from .rendering import AnsiEscapeCodeRenderer
 
 
+# Elements that never have any content, and no end tag
+VOID_ELEMENTS = (
+    'area', 'base', 'br', 'col', 'embed', 'hr', 'img', 'input', 'link', 'meta',
+    'param', 'source', 'track', 'wbr',
+)
+
+
 # TODO: Maybe this class should do more actual parsing? Or just rename to Tag
 class TagParser(object):
 
@@ -30,7 +37,7 @@ class TagParser(object):
         self.tag = tag
         self.parent = parent
         self.children = []
-        self.closed = tag in ('br', 'img')
+        self.closed = tag in VOID_ELEMENTS
         self.attrs = {}
         self.classes = []
         self.id = None
@@ -536,8 +543,8 @@ class GopherHTMLParser(HTMLParser):
             self.tree.append(t)
 
     def handle_endtag(self, tag):
-        if tag in ('br', 'img'):
-            # br and img tags are inherently self-closing, so if we encounter an end tag
+        if tag in VOID_ELEMENTS:
+            # These tags are inherently self-closing, so if we encounter an end tag
             # we can just ignore it. I believe <br/> produces endtag calls.
             return
         top = self._get_top()
-- 
2.43.0


From 5050382722ff0e0a14d5b38d3a07fb28ca9160e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:52 +0000
Subject: [PATCH 11/73] fix: keep track of preformatted text by the open
 elements

A stray or nested end tag, or a reset, left the flag in the wrong state.
---
 gopher_render/_parser.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index b9c55e9..55a7402 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -478,7 +478,6 @@ class GopherHTMLParser(HTMLParser):
         self._extracted_link_renderer_map = RendererMap(self.extracted_link_renderers)
         self._next_link_number = 1
         self._footer_pending_links = []
-        self._in_pre = False
         self._optimise = optimise
 
     def _get_top(self):
@@ -489,6 +488,9 @@ class GopherHTMLParser(HTMLParser):
                 t = None
         return t
 
+    def _in_pre(self):
+        return any(t.tag == 'pre' for t in self._tag_stack)
+
     def _get_renderer(self, tag):
         renderer = self._renderer_map.get_for_tag(tag)
         if not renderer:
@@ -508,8 +510,6 @@ class GopherHTMLParser(HTMLParser):
     def handle_starttag(self, tag, attrs):
         parent = self._get_top() or self.tree
         t = None
-        if tag == 'pre':
-            self._in_pre = True
         if tag in ('a', 'img'):
             t = LinkParser(
                 tag,
@@ -548,8 +548,6 @@ class GopherHTMLParser(HTMLParser):
             # we can just ignore it. I believe <br/> produces endtag calls.
             return
         top = self._get_top()
-        if tag == 'pre':
-            self._in_pre = False
         if not top:
             print("Unsupported or mismatched end tag, ignoring: " + tag)
             return
@@ -573,7 +571,7 @@ class GopherHTMLParser(HTMLParser):
         #     if len(data) == 0 or data.isspace():
         #         return
         parent = self._get_top()
-        d = DataParser(parent, data, in_pre=self._in_pre)
+        d = DataParser(parent, data, in_pre=self._in_pre())
         if parent:
             parent.children.append(d)
         else:
-- 
2.43.0


From e0cf281e731bf177931e72269d5f16fe90f7ef8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:30 +0000
Subject: [PATCH 12/73] fix: render text independently of how it is split up
 when it is fed

---
 gopher_render/_parser.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index 55a7402..8cee105 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -392,6 +392,7 @@ class GopherHTMLParser(HTMLParser):
         self._parsed = []
         self.parsed = ""
         self._tag_stack = []
+        self._pending_data = []
         self.tree = DocumentParser()
         #self._width = width
         if box:
@@ -508,6 +509,7 @@ class GopherHTMLParser(HTMLParser):
         return renderer
 
     def handle_starttag(self, tag, attrs):
+        self._add_pending_data()
         parent = self._get_top() or self.tree
         t = None
         if tag in ('a', 'img'):
@@ -552,6 +554,7 @@ class GopherHTMLParser(HTMLParser):
             print("Unsupported or mismatched end tag, ignoring: " + tag)
             return
         if top.tag == tag:
+            self._add_pending_data()
             top.closed = True
         else:
             # TODO: Consider instead just accepting mismatched tags and closing the top tag?
@@ -562,6 +565,15 @@ class GopherHTMLParser(HTMLParser):
             self._tag_stack.pop()
 
     def handle_data(self, data):
+        # Text that is fed in pieces, or that has comments in it, arrives here
+        # in pieces, but its whitespace can only be handled as a whole.
+        self._pending_data.append(data)
+
+    def _add_pending_data(self):
+        if len(self._pending_data) == 0:
+            return
+        data = "".join(self._pending_data)
+        self._pending_data = []
         # Ignore any whitespace data on its own, unless in a pre tag
         # Pretty printed html includes a lot of this.
         # Removing ths because it removes significant whitespace between
@@ -613,6 +625,7 @@ class GopherHTMLParser(HTMLParser):
 
     def close(self):
         super().close()
+        self._add_pending_data()
         # Compile the parsed string
         # Anything being left in _tag_stack probably indicates an unclosed tag...
         # Pop everything off anyway and add any root tags to the tree.
@@ -658,6 +671,7 @@ class GopherHTMLParser(HTMLParser):
         self._parsed = []
         self.parsed = ""
         self._tag_stack = []
+        self._pending_data = []
         self.tree = DocumentParser()
         self._next_link_number = 1
         self._footer_pending_links = []
-- 
2.43.0


From 48996d07fff6dd76e0fb5c0f9563276ae3de578c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:31 +0000
Subject: [PATCH 13/73] fix: report ignored end tags on stderr

The command prints the rendered document on stdout.
---
 gopher_render/_parser.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index 8cee105..70d478d 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -1,4 +1,5 @@
 import re
+import sys
 from html.parser import HTMLParser
 from urllib.parse import urlparse
 from collections import namedtuple
@@ -551,14 +552,14 @@ class GopherHTMLParser(HTMLParser):
             return
         top = self._get_top()
         if not top:
-            print("Unsupported or mismatched end tag, ignoring: " + tag)
+            print("Unsupported or mismatched end tag, ignoring: " + tag, file=sys.stderr)
             return
         if top.tag == tag:
             self._add_pending_data()
             top.closed = True
         else:
             # TODO: Consider instead just accepting mismatched tags and closing the top tag?
-            print("Unsupported or mismatched end tag, ignoring: " + tag)
+            print("Unsupported or mismatched end tag, ignoring: " + tag, file=sys.stderr)
         if top.closed:
             # TODO: This will have to determine if links should be rendered
             # after the closed tag if link_placement is 'after_block'
-- 
2.43.0


From 60384da1ea9242ce5c859dd54b19fc99dd6eb506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:59 +0000
Subject: [PATCH 14/73] fix: do not repeat the document when a parser is closed
 again

---
 gopher_render/_parser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index 70d478d..40660a6 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -638,6 +638,7 @@ class GopherHTMLParser(HTMLParser):
         # Walk the tree and assign renderers.
         self._assign_renderers(self.tree.children)
 
+        self._parsed = []
         for t in self.tree.children:
             self._parsed.append(t.render(self._box))
 
-- 
2.43.0


From 4c2db2508fc0eca63a41534e2dcb5b130f017f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:59 +0000
Subject: [PATCH 15/73] fix: apply the settings of every base class

Settings equal to those of a class further up were left out, so that they did
not override what came in between.
---
 gopher_render/rendering.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index 7ea2f0a..66bd5fb 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -303,8 +303,7 @@ class Renderer(metaclass=_RendererMeta):
         all_bases = []
         for klass in all_classes[::-1]:
             if hasattr(klass, 'settings'):
-                if klass.settings not in all_bases:
-                    all_bases.append(klass.settings)
+                all_bases.append(klass.settings)
         for base in all_bases:
             s.update(base)
 
-- 
2.43.0


From 4dc1fed10fbe0f5dacdcd2c4a3c2c3ee3b91980d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:43 +0000
Subject: [PATCH 16/73] fix: compare attributes with the value in the selector,
 not with its token

---
 gopher_render/_selectors.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/gopher_render/_selectors.py b/gopher_render/_selectors.py
index 2ce728e..90c4539 100644
--- a/gopher_render/_selectors.py
+++ b/gopher_render/_selectors.py
@@ -146,19 +146,21 @@ def _attribute_matches(tag, selector):
         if attr_val is None:
             # An attribute without a value has an empty one.
             attr_val = ""
+        # cssselect provides the token, not the string
+        value = selector.value.value
         if selector.operator == '=':
-            return attr_val == selector.value
+            return attr_val == value
         if selector.operator == '~=':
             split_val = attr_val.split()
-            return selector.value in split_val
+            return value in split_val
         if selector.operator == '|=':
-            return attr_val == selector.value or attr_val.startswith("{}-".format(selector.value))
+            return attr_val == value or attr_val.startswith("{}-".format(value))
         if selector.operator == '^=':
-            return attr_val.startswith(selector.value)
+            return attr_val.startswith(value)
         if selector.operator == '$=':
-            return attr_val.endswith(selector.value)
+            return attr_val.endswith(value)
         if selector.operator == '*=':
-            return selector.value in attr_val
+            return value in attr_val
     return False
 
 
-- 
2.43.0


From 7557db506d06462a2af109488cd5863fadb98b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:44 +0000
Subject: [PATCH 17/73] fix: do not match tags with selectors of
 pseudo-elements or empty substrings

---
 gopher_render/_selectors.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gopher_render/_selectors.py b/gopher_render/_selectors.py
index 90c4539..db274d9 100644
--- a/gopher_render/_selectors.py
+++ b/gopher_render/_selectors.py
@@ -155,6 +155,9 @@ def _attribute_matches(tag, selector):
             return value in split_val
         if selector.operator == '|=':
             return attr_val == value or attr_val.startswith("{}-".format(value))
+        if selector.operator in ('^=', '$=', '*=') and value == "":
+            # By definition, these match nothing
+            return False
         if selector.operator == '^=':
             return attr_val.startswith(value)
         if selector.operator == '$=':
@@ -330,6 +333,9 @@ def tag_matches(tag, selector):
     matched = False
     best_specificity = None
     for s in selector:
+        if s.pseudo_element is not None:
+            # Not a part of the tag that could be rendered differently
+            continue
         is_match = _selector_matches(tag, s.parsed_tree)
         if is_match:
             if _more_specific(s.specificity(), best_specificity):
-- 
2.43.0


From ed61ec439c1440cd04ee1b8fb8e26390e88f1898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:45 +0000
Subject: [PATCH 18/73] fix: match the series and the indexes below one of
 nth-child selectors

A series like 2n or odd failed with a ValueError, and 0 counted from the end.
---
 gopher_render/_selectors.py | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/gopher_render/_selectors.py b/gopher_render/_selectors.py
index db274d9..672ea11 100644
--- a/gopher_render/_selectors.py
+++ b/gopher_render/_selectors.py
@@ -10,6 +10,7 @@ from cssselect.parser import (
     Attrib,
     Hash,
     CombinedSelector,
+    parse_series,
 )
 
 
@@ -183,18 +184,26 @@ def _combination_matches(tag, selector):
 
 # Pseudo Classes
 
+def _in_series(position, selector):
+    # The argument is a number, or a series like '2n+1', 'odd' or 'even'
+    try:
+        a, b = parse_series(selector.arguments)
+    except ValueError:
+        return False
+    if a == 0:
+        return position == b
+    n, remainder = divmod(position - b, a)
+    return n >= 0 and remainder == 0
+
+
 def _nth_child_matches(tag, selector):
     if not hasattr(tag, 'parent') or tag.parent is None:
         return False
     if hasattr(tag, 'data'):
         return False
-    # A lot of ways this could fail!
-    # TODO: Apparently this can take arguments like 'odd', 'even', '5n' (every 5th element)
-    n = int(selector.arguments[0].value)
     tag_children = tag.parent.tag_children()
-    if n > len(tag_children):
-        return False
-    return tag_children[n - 1] is tag and _selector_matches(tag, selector.selector)
+    position = tag_children.index(tag) + 1
+    return _in_series(position, selector) and _selector_matches(tag, selector.selector)
 
 
 def _nth_last_child_matches(tag, selector):
@@ -202,13 +211,9 @@ def _nth_last_child_matches(tag, selector):
         return False
     if hasattr(tag, 'data'):
         return False
-    # A lot of ways this could fail!
-    # TODO: Apparently this can take arguments like 'odd', 'even', '5n' (every 5th element)
-    n = int(selector.arguments[0].value)
     tag_children = tag.parent.tag_children()
-    if n > len(tag_children):
-        return False
-    return tag_children[-n] is tag and _selector_matches(tag, selector.selector)
+    position = len(tag_children) - tag_children.index(tag)
+    return _in_series(position, selector) and _selector_matches(tag, selector.selector)
 
 
 def _first_child_matches(tag, selector):
-- 
2.43.0


From 1f5d337ce9c096ddfe56c28c2ea2d1cb1ae7a2ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:17 +0000
Subject: [PATCH 19/73] fix: number list items without counting the text
 between them

---
 gopher_render/rendering.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index 66bd5fb..3ba7cfd 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -1091,7 +1091,9 @@ class OrderedListItemRenderer(ListItemRenderer):
         super().__init__(tag, **kwargs)
 
     def _get_ordinal(self, tag, start_index, step):
-        return (tag.parent.children.index(tag) * step) + start_index
+        # Only the items count, not the whitespace between them
+        items = [t for t in tag.parent.children if t.tag == tag.tag]
+        return (items.index(tag) * step) + start_index
 
 
 class DefinitionListRenderer(BlockRenderer):
-- 
2.43.0


From d449d3ac455d4871419c9fb040ce13db02cbb20e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:18 +0000
Subject: [PATCH 20/73] fix: number list items by the settings configured for
 them

The template was built from the defaults, before the configured settings were
applied, and was then replaced by the unnumbered configured one.
---
 gopher_render/rendering.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index 3ba7cfd..2e33f8e 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -1076,11 +1076,12 @@ class OrderedListItemRenderer(ListItemRenderer):
         step=1,
     )
 
-    def __init__(self, tag, **kwargs):
+    def _adjust_settings(self):
+        super()._adjust_settings()
         # Determine the ordinal and prepare a template based on it before the
         # box gets generated, otherwise the width will be incorrect.
         self.order = self._get_ordinal(
-            tag,
+            self.tag,
             self.settings.start_index,
             self.settings.step,
         )
@@ -1088,7 +1089,6 @@ class OrderedListItemRenderer(ListItemRenderer):
             self.order,
             '{}'
         )
-        super().__init__(tag, **kwargs)
 
     def _get_ordinal(self, tag, start_index, step):
         # Only the items count, not the whitespace between them
-- 
2.43.0


From abedc2c54c7f08fda9f33e6317b845ddc22d46c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:19 +0000
Subject: [PATCH 21/73] fix: apply ANSI fonts and the palette colour 0

---
 gopher_render/rendering.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index 2e33f8e..d3161d0 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -1320,12 +1320,12 @@ class AnsiEscapeCodeRenderer(InlineRenderer):
 
         # Fonts
         if settings.font is not None:
-            enable.append(ANSI_ESCAPE_SEQUENCE.format(setting.font + ANSI_FONT_OFFSET))
+            enable.append(ANSI_ESCAPE_SEQUENCE.format(settings.font + ANSI_FONT_OFFSET))
             if not normalise:
                 disable.append(ANSI_ESCAPE_SEQUENCE.format(0 + ANSI_FONT_OFFSET))
 
         # Colours
-        if settings.foreground_colour:
+        if settings.foreground_colour is not None:
             enable.append(
                 ANSI_ESCAPE_SEQUENCE.format(
                     _get_sequence_for_colour(
@@ -1336,7 +1336,7 @@ class AnsiEscapeCodeRenderer(InlineRenderer):
             if not normalise:
                 # Default foreground
                 disable.append(ANSI_ESCAPE_SEQUENCE.format(39))
-        if settings.background_colour:
+        if settings.background_colour is not None:
             enable.append(
                 ANSI_ESCAPE_SEQUENCE.format(
                     _get_sequence_for_colour(
-- 
2.43.0


From 7527e8e428fbbb35c22e181d64b48ef12a884ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:23 +0000
Subject: [PATCH 22/73] fix: fit the borders and padding of nested blocks into
 their parents

---
 gopher_render/rendering.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index d3161d0..028438f 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -180,21 +180,23 @@ class Box(object):
     def padded_width():
         doc = "The width of the element including the padding."
         def fget(self):
-            # This has to include the width of the local line template
-            # but exclude any added by further up the hierarchy.
+            # This has to include the width of the local line template and
+            # padding but exclude any added by further up the hierarchy.
             return self.width - (
                 self.total_margin[BoxSide.LEFT] + self.total_margin[BoxSide.RIGHT] +
+                self.total_padding[BoxSide.LEFT] + self.total_padding[BoxSide.RIGHT] +
                 self.total_border[BoxSide.LEFT] + self.total_border[BoxSide.RIGHT] +
                 (self.total_line_template_padding - self.line_template_padding)
-            )
+            ) + self.padding[BoxSide.LEFT] + self.padding[BoxSide.RIGHT]
         return locals()
     padded_width = property(**padded_width())
 
     def bordered_width():
-        doc = "The width of the element including the padding."
+        doc = "The width of the element including the padding and the border."
         def fget(self):
-            return self.width - (
-                self.total_margin[BoxSide.LEFT] + self.total_margin[BoxSide.RIGHT]
+            return (
+                self.padded_width +
+                self.border[BoxSide.LEFT] + self.border[BoxSide.RIGHT]
             )
         return locals()
     bordered_width = property(**bordered_width())
-- 
2.43.0


From 3924d74a0cb790ed9b9f6e46ef337e7cc36a59cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:24 +0000
Subject: [PATCH 23/73] fix: centre headers within the line templates around
 them

---
 gopher_render/rendering.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index 028438f..a9ec691 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -500,7 +500,8 @@ class HeaderRenderer(BlockRenderer):
         capitalize_func = capitalize if settings.capitalized else _noop
         spread_func = spread if settings.spread > 0 else _noop
         box = self.box
-        width = box.inner_width
+        # Exclude the line templates of any blocks around the header
+        width = box.inner_width_excluding_line_template
         inner = settings.template.format(
             spread_func(
                 capitalize_func(
-- 
2.43.0


From 31d7e03aad131081597d1f91a4f3ecb466681cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:29 +0000
Subject: [PATCH 24/73] fix: wrap text as though there were no ANSI escape
 codes in it

---
 gopher_render/_textwrap.py | 69 ++++++++++++++++++++++++++++++++++----
 1 file changed, 63 insertions(+), 6 deletions(-)

diff --git a/gopher_render/_textwrap.py b/gopher_render/_textwrap.py
index 17a3cab..6e41019 100644
--- a/gopher_render/_textwrap.py
+++ b/gopher_render/_textwrap.py
@@ -20,6 +20,12 @@ _escape_regex = regex = re.compile(
     """, re.VERBOSE
 )
 
+# Any escape codes
+_escapes_regex = re.compile(r"(?:\x1b\[[;\d]*m)*")
+
+# A single visible character, along with any escape codes before it
+_character_regex = re.compile(_escapes_regex.pattern + ".", re.DOTALL)
+
 def _len(obj):
     if not isinstance(obj, str):
         return len(obj)
@@ -27,12 +33,61 @@ def _len(obj):
     return len(actual)
 
 
+def _strip(text):
+    return _escape_regex.sub("", text)
+
+
+def _cut(text, length):
+    """
+    Cut text in two after the provided number of visible characters.
+
+    Escape codes where it is cut are kept with a word in preference to
+    whitespace, and with the first of two words.
+    """
+    end = 0
+    for _ in range(length):
+        end = _character_regex.match(text, end).end()
+    if not text[:end].endswith((" ", "\t", "\n")):
+        end = _escapes_regex.match(text, end).end()
+    return text[:end], text[end:]
+
+
 class AnsiAwareTextWrapper(TextWrapper):
     """
     This TextWrapper subclass ignores ANSI escape sequences when determining
-    the length of wrapped lines.
+    the length of wrapped lines, and where to break them.
     """
 
+    def _split(self, text):
+        if len(text) == _len(text):
+            return super()._split(text)
+        chunks = []
+        for chunk in super()._split(_strip(text)):
+            chunk, text = _cut(text, len(chunk))
+            chunks.append(chunk)
+        if chunks:
+            chunks[-1] += text
+        return chunks
+
+    def _fix_sentence_endings(self, chunks):
+        fixed = [_strip(chunk) for chunk in chunks]
+        super()._fix_sentence_endings(fixed)
+        for i, chunk in enumerate(fixed):
+            if len(chunk) > _len(chunks[i]):
+                chunks[i] = chunks[i].replace(" ", chunk)
+
+    def _handle_long_word(self, reversed_chunks, cur_line, cur_len, width):
+        # Let the base class break the word without any escape sequences
+        chunk = reversed_chunks.pop()
+        reversed_chunks.append(_strip(chunk))
+        handled = len(cur_line)
+        remaining = len(reversed_chunks)
+        super()._handle_long_word(reversed_chunks, cur_line, cur_len, width)
+        if len(cur_line) > handled:
+            cur_line[-1], chunk = _cut(chunk, len(cur_line[-1]))
+        if len(reversed_chunks) == remaining:
+            reversed_chunks[-1] = chunk
+
     def _wrap_chunks(self, chunks):
         """
         An exact reimplementation of the method from the base class, but using
@@ -72,8 +127,9 @@ class AnsiAwareTextWrapper(TextWrapper):
 
             # First chunk on line is whitespace -- drop it, unless this
             # is the very beginning of the text (ie. no lines started yet).
-            if self.drop_whitespace and chunks[-1].strip() == '' and lines:
-                del chunks[-1]
+            # Any escape codes in it belong at the end of the previous line.
+            if self.drop_whitespace and _strip(chunks[-1]).strip() == '' and lines:
+                lines[-1] += "".join(_escape_regex.findall(chunks.pop()))
 
             while chunks:
                 l = _len(chunks[-1])
@@ -93,10 +149,11 @@ class AnsiAwareTextWrapper(TextWrapper):
                 self._handle_long_word(chunks, cur_line, cur_len, width)
                 cur_len = sum(map(_len, cur_line))
 
-            # If the last chunk on this line is all whitespace, drop it.
-            if self.drop_whitespace and cur_line and cur_line[-1].strip() == '':
+            # If the last chunk on this line is all whitespace, drop it, but
+            # not any escape codes in it.
+            if self.drop_whitespace and cur_line and _strip(cur_line[-1]).strip() == '':
                 cur_len -= _len(cur_line[-1])
-                del cur_line[-1]
+                cur_line[-1:] = _escape_regex.findall(cur_line[-1])
 
             if cur_line:
                 if (self.max_lines is None or
-- 
2.43.0


From 2db7bba4416edc381289844f561828229acb8859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:43 +0000
Subject: [PATCH 25/73] fix: justify, border and underline text by its visible
 length

---
 gopher_render/rendering.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index a9ec691..92d7342 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -14,13 +14,12 @@ def full_justify(text, width, *args, **kwargs):
     lines = textwrap.wrap(text, width, *args, **kwargs)
     out_lines = []
     for line in lines[:-1]:
-        orig_len = len(line)
         ls = line.lstrip()
-        indent = ' ' * (orig_len - len(ls))
-        padding_spaces = width - orig_len
+        indent = ' ' * (len(line) - len(ls))
+        padding_spaces = width - textwrap._len(line)
         rs = ls.rstrip()
         #padding_spaces = len(ls) - len(rs)
-        if padding_spaces == 0:
+        if padding_spaces <= 0:
             out_lines.append(line)
             continue
         words = rs.split(' ')
@@ -58,16 +57,24 @@ def center_justify(text, width, *args, **kwargs):
     return '\n'.join(centered)
 
 
+def _pad(text, pad, width, *args, **kwargs):
+    # ANSI escape codes do not take up any of the width, so pad something else
+    # that has the length of the visible text.
+    stand_in = '\0' * textwrap._len(text)
+    padded = pad(stand_in, width, *args, **kwargs)
+    return padded.replace(stand_in, text) if stand_in else text + padded
+
+
 def center(text, width, *args, **kwargs):
     if not width:
         return _noop(text)
-    return text.center(width, *args, **kwargs)
+    return _pad(text, str.center, width, *args, **kwargs)
 
 
 def right(text, width, *args, **kwargs):
     if not width:
         return _noop(text)
-    return text.rjust(width, *args, **kwargs)
+    return _pad(text, str.rjust, width, *args, **kwargs)
 
 
 justifications = {
@@ -444,7 +451,7 @@ class BlockRenderer(Renderer):
                 borders[BoxSide.LEFT],
                 ' ' * box.padding[BoxSide.LEFT],
                 l,
-                ' ' * (box.padded_width - (box.padding[BoxSide.LEFT] + len(l))),
+                ' ' * (box.padded_width - (box.padding[BoxSide.LEFT] + textwrap._len(l))),
                 borders[BoxSide.RIGHT]
             ) for l in lines
         ]
@@ -513,7 +520,7 @@ class HeaderRenderer(BlockRenderer):
         )
         underline = ""
         if settings['underlined']:
-            underline_len = width if settings.underline_full else len(inner)
+            underline_len = width if settings.underline_full else textwrap._len(inner)
             underline = "{}".format(settings.underline_char * underline_len, width)
             return "{}\n{}".format(
                 center_func(inner, width),
-- 
2.43.0


From d566d15dda79407e0b64eccd2ee209af01e65942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:48 +0000
Subject: [PATCH 26/73] fix: keep ANSI escape codes whole when capitalising or
 spreading text

---
 gopher_render/_textwrap.py | 15 +++++++++++++++
 gopher_render/rendering.py | 11 +++++++++--
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/gopher_render/_textwrap.py b/gopher_render/_textwrap.py
index 6e41019..6a23fbc 100644
--- a/gopher_render/_textwrap.py
+++ b/gopher_render/_textwrap.py
@@ -52,6 +52,21 @@ def _cut(text, length):
     return text[:end], text[end:]
 
 
+def _split_characters(text):
+    """
+    Split text into its visible characters, along with any escape codes before
+    each of them, and after the last of them.
+    """
+    if _len(text) == 0:
+        return [text]
+    escape = r"\x1b\[[;\d]*m"
+    return re.findall(
+        r"(?:{0})*(?!{0}).(?:(?:{0})+\Z)?".format(escape),
+        text,
+        re.DOTALL
+    )
+
+
 class AnsiAwareTextWrapper(TextWrapper):
     """
     This TextWrapper subclass ignores ANSI escape sequences when determining
diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index 92d7342..c1bc0f5 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -1,5 +1,6 @@
 from . import _textwrap as textwrap
 import inspect
+import re
 
 from ._namedict import namedict
 
@@ -90,12 +91,18 @@ justifications = {
 # should probably match the method name
 # TODO: Should may deal with casing the same way as the justifications...
 def capitalize(text):
-    return text.upper()
+    # ANSI escape codes have to remain in lower case
+    return re.sub(
+        r"\x1b\[[;\d]*M",
+        lambda escape: escape.group().lower(),
+        text.upper()
+    )
 
 
 def spread(text, spread_char, count):
     s = spread_char * count
-    return s.join(text)
+    # ANSI escape codes have to remain in one piece
+    return s.join(textwrap._split_characters(text))
 
 
 class BoxSide:
-- 
2.43.0


From ef76ce3a42ce90a577c317f40ea16ca99741d8b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:01 +0000
Subject: [PATCH 27/73] fix: render blocks that are too deeply nested to have
 any width

---
 gopher_render/rendering.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index c1bc0f5..f33183f 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -171,12 +171,13 @@ class Box(object):
         Block content should be wrapped to this width.
         """
         def fget(self):
-            return self.width - (
+            # There is always room for something, however deeply nested
+            return max(1, self.width - (
                 self.total_margin[BoxSide.LEFT] + self.total_margin[BoxSide.RIGHT] +
                 self.total_padding[BoxSide.LEFT] + self.total_padding[BoxSide.RIGHT] +
                 self.total_border[BoxSide.LEFT] + self.total_border[BoxSide.RIGHT] +
                 self.total_line_template_padding
-            )
+            ))
         return locals()
     inner_width_excluding_line_template = property(**inner_width_excluding_line_template())
 
-- 
2.43.0


From f647fb2132d4e8df59ab94c0c0f42f4aa0a6d6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:33 +0000
Subject: [PATCH 28/73] fix: shorten link descriptions by their visible length

---
 gopher_render/rendering.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index f33183f..c60526d 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -105,6 +105,14 @@ def spread(text, spread_char, count):
     return s.join(textwrap._split_characters(text))
 
 
+def truncate(text, length):
+    if textwrap._len(text) <= length:
+        return text
+    start, rest = textwrap._cut(text, length)
+    # Whatever ANSI escape codes started has to end too
+    return "{}...{}".format(start, "".join(textwrap._escape_regex.findall(rest)))
+
+
 class BoxSide:
     TOP = 0
     RIGHT = 1
@@ -756,10 +764,7 @@ class ExtractedLinkRenderer(BlockRenderer):
 
         # TODO: Surely this truncation should be optional?
         max_link_description = settings.max_link_description
-        trimming = len(content) > max_link_description
-        content = content.strip()[:max_link_description]
-        if trimming:
-            content = "{}...".format(content)
+        content = truncate(content.strip(), max_link_description)
 
         if output_format == 'gophermap':
             description = title if title is not None else content
@@ -867,10 +872,8 @@ class ExtractedImageLinkRenderer(BlockRenderer):
 
         # TODO: Surely this truncation should be optional?
         max_link_description = settings.max_link_description
-        trimming = len(title) > max_link_description
-        trimmed_title = title.strip()[:max_link_description]
-        if trimming:
-            trimmed_title = "{}...".format(trimmed_title)
+        trimmed_title = truncate(title.strip(), max_link_description)
+        trimming = trimmed_title != title.strip()
 
         if output_format == 'gophermap':
             description = trimmed_title
-- 
2.43.0


From e95412c0cd6c0d54377b085a7817b397f3557e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:33 +0000
Subject: [PATCH 29/73] fix: keep tabs and newlines out of the fields of
 gophermap lines

---
 gopher_render/_parser.py   | 9 +++++++--
 gopher_render/rendering.py | 6 ++++--
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index 40660a6..7b3343d 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -128,14 +128,19 @@ class LinkParser(TagParser):
         if tag == 'a':
             # If set, this will be used as the link description
             self.title = self.attrs.get('title', None)
-            self.href = self.attrs.get('href', None) or ''
+            self.href = self._clean_href(self.attrs.get('href', None))
             self.gopher_link = self._parse_href()
         elif tag == 'img':
             # If set, this will be used as the link description
             self.title = self.attrs.get('alt', None)
-            self.href = self.attrs.get('src', None) or ''
+            self.href = self._clean_href(self.attrs.get('src', None))
             self.gopher_link = self._parse_href()
 
+    def _clean_href(self, href):
+        # Newlines and tabs are not a part of URLs, but can be used in an
+        # attribute to break up long ones
+        return re.sub('[\t\r\n]', '', href or '')
+
     # TODO: This needs a lot more work to be comprehensive
     def _guess_type(self, path):
         # Only the last component: a directory name can contain a dot too
diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index c60526d..a6efc44 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -771,7 +771,8 @@ class ExtractedLinkRenderer(BlockRenderer):
             gopher_link = self.context['gopher_link']
             link_ref = self.context["link_reference"]
             return settings.gophermap_template.format(
-                description=super()._inner_render(description),
+                # Tabs and newlines would end the field or the line
+                description=" ".join(super()._inner_render(description).split()),
                 link_reference=link_ref,
                 selector=gopher_link['selector'],
                 type=gopher_link['type'],
@@ -880,7 +881,8 @@ class ExtractedImageLinkRenderer(BlockRenderer):
             gopher_link = self.context['gopher_link']
             link_ref = self.context["link_reference"]
             return settings.gophermap_template.format(
-                description=super()._inner_render(description),
+                # Tabs and newlines would end the field or the line
+                description=" ".join(super()._inner_render(description).split()),
                 link_reference=link_ref,
                 selector=gopher_link['selector'],
                 type=gopher_link['type'],
-- 
2.43.0


From 167e0e5e6656225126d788679b364de51a481e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:51 +0000
Subject: [PATCH 30/73] fix: do not indent the links in the footer of a
 gophermap

---
 gopher_render/_parser.py | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index 7b3343d..7f3bf4b 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -647,24 +647,23 @@ class GopherHTMLParser(HTMLParser):
         for t in self.tree.children:
             self._parsed.append(t.render(self._box))
 
-        if len(self.tree.pending_links) > 0:
-            self._parsed.append("\n")
-            for l in self.tree.pending_links:
-                self._parsed.append(l.link_render(self._box))
-
-        if len(self._footer_pending_links) > 0:
-            self._parsed.append("\n")
-            for l in self._footer_pending_links:
-                self._parsed.append(l.link_render(self._box))
-
-        # TODO: Some variation here within our box model:
-        # Gophermap links should definitely not be indented, but this naively
-        # indents everything. If link placement is footer this should be easy
-        # enough to avoid, but for inter-block links it will be troublesome.
+        links = []
+        for pending_links in (self.tree.pending_links, self._footer_pending_links):
+            if len(pending_links) > 0:
+                links.append("\n")
+                for l in pending_links:
+                    links.append(l.link_render(self._box))
+
+        # TODO: Gophermap links should definitely not be indented, but for
+        # inter-block links it will be troublesome.
         # Could perhaps identify the points where links need to be inserted
         # and indent everything around them separately.
         # Addition of padding and border to box model complicate this even further
-        indented = self._indent_body()
+        if self._output_format == 'gophermap':
+            indented = self._indent_body() + "".join(links)
+        else:
+            self._parsed.extend(links)
+            indented = self._indent_body()
         self.parsed = "{}{}{}".format(
             "\n" * self._box.margin[BoxSide.TOP],
             indented,
-- 
2.43.0


From c4bd00a24c1da1a2c5b412d3c00c9fe5942287d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:22 +0000
Subject: [PATCH 31/73] fix: render blocks on lines of their own, without
 whitespace around them

---
 gopher_render/_parser.py | 55 +++++++++++++++++++++++++++++++++++++---
 1 file changed, 51 insertions(+), 4 deletions(-)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index 7f3bf4b..af9040b 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -31,6 +31,46 @@ VOID_ELEMENTS = (
 )
 
 
+def _is_block(tag):
+    return (
+        tag.tag is not None and
+        isinstance(tag.renderer, type) and
+        issubclass(tag.renderer, BlockRenderer)
+    )
+
+
+def _is_line_break(tag):
+    return tag.tag == 'br' or _is_block(tag)
+
+
+def _join_children(children, rendered_children, in_block):
+    """
+    Join what was rendered for the children of a tag, which may be a block.
+
+    Every block is kept on lines of its own, and the whitespace between
+    the text and the start or end of a line is removed.
+    """
+    joined = ""
+    after_block = False
+    last = len(children) - 1
+    for i, (c, r) in enumerate(zip(children, rendered_children)):
+        if c.tag is None and not c.in_pre:
+            if _is_line_break(children[i - 1]) if i > 0 else in_block:
+                r = r.lstrip(' ')
+            if _is_line_break(children[i + 1]) if i < last else in_block:
+                r = r.rstrip(' ')
+        if r == "":
+            continue
+        block = _is_block(c)
+        if (block or after_block) and not (
+            joined == "" or joined.endswith('\n') or r.startswith('\n')
+        ):
+            joined += '\n'
+        joined += r
+        after_block = block
+    return joined
+
+
 # TODO: Maybe this class should do more actual parsing? Or just rename to Tag
 class TagParser(object):
 
@@ -96,6 +136,9 @@ class TagParser(object):
             rendered_children.append(
                 c.render(box)
             )
+        rendered_children = [
+            _join_children(self.children, rendered_children, _is_block(self))
+        ]
 
         if len(self._pending_links):
             rendered_children.append('\n')
@@ -271,14 +314,15 @@ class LinkParser(TagParser):
             )
 
         return render_inst.render(
-            "".join(rendered_children)
+            _join_children(self.children, rendered_children, _is_block(self))
         )
 
 
 class DataParser(TagParser):
     def __init__(self, parent, data, **context):
         super().__init__(None, parent, None, **context)
-        if not context['in_pre']:
+        self.in_pre = context['in_pre']
+        if not self.in_pre:
             # This attempts to remove extraneous formatting internal to the data
             # but does not remove whitespace from the start or end of the data
             # because it may be followed or preceeded by a tag that depends on
@@ -643,9 +687,12 @@ class GopherHTMLParser(HTMLParser):
         # Walk the tree and assign renderers.
         self._assign_renderers(self.tree.children)
 
-        self._parsed = []
+        rendered_children = []
         for t in self.tree.children:
-            self._parsed.append(t.render(self._box))
+            rendered_children.append(t.render(self._box))
+        self._parsed = [
+            _join_children(self.tree.children, rendered_children, True)
+        ]
 
         links = []
         for pending_links in (self.tree.pending_links, self._footer_pending_links):
-- 
2.43.0


From a4e4cf0726aa8dea9c754efc9c9b50f4647f6175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:34 +0000
Subject: [PATCH 32/73] fix: keep the line breaks and blocks within list items
 and definitions

---
 gopher_render/_parser.py   |  4 ++--
 gopher_render/rendering.py | 12 ++++++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index af9040b..e343ff3 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -490,8 +490,8 @@ class GopherHTMLParser(HTMLParser):
             'li:first-child': (None, dict(
                 margin=[0,0,0,0]
             )),
-            # TODO: The need for this is unfortunate...
-            'li > ol > li:first-child, li > ul > li:first-child': (None, dict(
+            # The items around a nested list provide the margin below it
+            'li > ol, li > ul': (None, dict(
                 margin=[1,0,0,0]
             )),
 
diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index a6efc44..c2fcba5 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -1080,7 +1080,11 @@ class ListItemRenderer(BlockRenderer):
         width = self.box.inner_width_excluding_line_template
         # TODO: Is a block or line template useful here?
         inner = capitalize_func(content)
-        justified = justify_func(inner, width, **justify_args)
+        # Only reflow within lines: keep line breaks, and the blocks within the item
+        justified = "\n".join([
+            justify_func(line, width, **justify_args)
+            for line in inner.strip("\n").split("\n")
+        ])
         just_split = justified.split("\n")
         template = self.settings.line_template
         # The template only applies for the first line in this case, the rest
@@ -1197,7 +1201,11 @@ class DefinitionListItemRenderer(BlockRenderer):
         width = self.box.inner_width_excluding_line_template
         # TODO: Is a block or line template useful here?
         inner = capitalize_func(content)
-        justified = justify_func(inner, width, **justify_args)
+        # Only reflow within lines: keep line breaks, and the blocks within the item
+        justified = "\n".join([
+            justify_func(line, width, **justify_args)
+            for line in inner.strip("\n").split("\n")
+        ])
         just_split = justified.split("\n")
         template = self.settings.line_template
         # The template only applies for the first line in this case, the rest
-- 
2.43.0


From 62aa93469d0387faaf69ffd45a1d14ff7501073f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:46 +0000
Subject: [PATCH 33/73] fix: write the rendered text to the destination file

---
 gopher_render/cli.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gopher_render/cli.py b/gopher_render/cli.py
index c17e14f..9b69722 100644
--- a/gopher_render/cli.py
+++ b/gopher_render/cli.py
@@ -63,8 +63,8 @@ def main():
     parser.feed(source_text)
     parser.close()
 
-    #with open(args.destination, 'w') as out_file:
-    #    out_file.write(parser.parsed)
+    with open(args.destination, 'w') as out_file:
+        out_file.write(parser.parsed)
 
     print(parser.parsed)
 
-- 
2.43.0


From 02978c4685e42e869e160d3f61702efd428530ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:08 +0000
Subject: [PATCH 34/73] fix: render to the width that the parser was created
 with

---
 gopher_render/_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index e343ff3..138a81a 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -450,7 +450,7 @@ class GopherHTMLParser(HTMLParser):
         else:
             # TODO: Maybe a default top margin as well?
             self._box = Box(
-                width=67
+                width=width
             )
         self._output_format = output_format
         self._link_placement = link_placement
-- 
2.43.0


From adfab87aa3a0363ae7b6c6390ef250301f099481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:18 +0000
Subject: [PATCH 35/73] fix: write image links in gophermaps without padding or
 margins

---
 gopher_render/rendering.py | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index c2fcba5..fed8130 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -903,6 +903,31 @@ class ExtractedImageLinkRenderer(BlockRenderer):
                 **keywords
             )
 
+    def _outer_render(self, content):
+        output_format = self.context['output_format']
+        if output_format == "gophermap":
+            # A left margin would not be acceptable for gophermap links, so only
+            # apply the top and bottom margins, if any.
+            box = self.box
+            return "{}{}{}".format(
+                '\n' * box.margin[BoxSide.TOP],
+                content,
+                '\n' * box.margin[BoxSide.BOTTOM],
+            )
+        return super()._outer_render(content)
+
+    def render(self, content):
+        output_format = self.context['output_format']
+        if output_format == "gophermap":
+            # A border would not be acceptable for gophermap links, so skip
+            # that render step.
+            return self._outer_render(
+                self._inner_render(
+                    content
+                )
+            )
+        return super().render(content)
+
 
 # TODO: i tags should also have a renderer for icons
 class EmRenderer(InlineRenderer):
-- 
2.43.0


From b5570978b00e94f39499f020e31eff4a85d2e0f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:19 +0000
Subject: [PATCH 36/73] fix: apply the background colours of the github theme

---
 gopher_render/code_themes/github.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/gopher_render/code_themes/github.py b/gopher_render/code_themes/github.py
index ac50b88..d82bb0a 100644
--- a/gopher_render/code_themes/github.py
+++ b/gopher_render/code_themes/github.py
@@ -23,20 +23,20 @@ _NAVY = "#000080"
 
 renderers = {
     ".highlight .c": (AnsiEscapeCodeRenderer, { "foreground_colour": "#999988", "italic": True }),
-    ".highlight .err": (AnsiEscapeCodeRenderer, { "foreground_colour": "#a61717", "background-colour": "#e3d2d2", }),
+    ".highlight .err": (AnsiEscapeCodeRenderer, { "foreground_colour": "#a61717", "background_colour": "#e3d2d2", }),
     ".highlight .k": (AnsiEscapeCodeRenderer, { "bold": True }),
     ".highlight .o": (AnsiEscapeCodeRenderer, { "bold": True }),
     ".highlight .cm": (AnsiEscapeCodeRenderer, { "foreground_colour": "#999988", "italic": True }),
     ".highlight .cp": (AnsiEscapeCodeRenderer, { "foreground_colour": "#999999", "bold": True }),
     ".highlight .c1": (AnsiEscapeCodeRenderer, { "foreground_colour": "#999988", "italic": True }),
     ".highlight .cs": (AnsiEscapeCodeRenderer, { "foreground_colour": "#999999", "bold": True, "italic": True }),
-    ".highlight .gd": (AnsiEscapeCodeRenderer, { "foreground_colour": "#000000", "background-colour": "#ffdddd", }),
-    ".highlight .gd .x": (AnsiEscapeCodeRenderer, { "foreground_colour": "#000000", "background-colour": "#ffaaaa", }),
+    ".highlight .gd": (AnsiEscapeCodeRenderer, { "foreground_colour": "#000000", "background_colour": "#ffdddd", }),
+    ".highlight .gd .x": (AnsiEscapeCodeRenderer, { "foreground_colour": "#000000", "background_colour": "#ffaaaa", }),
     ".highlight .ge": (AnsiEscapeCodeRenderer, { "italic": True }),
     ".highlight .gr": (AnsiEscapeCodeRenderer, { "foreground_colour": "#aa0000", }),
     ".highlight .gh": (AnsiEscapeCodeRenderer, { "foreground_colour": "#999999", }),
-    ".highlight .gi": (AnsiEscapeCodeRenderer, { "foreground_colour": "#000000", "background-colour": "#ddffdd", }),
-    ".highlight .gi .x": (AnsiEscapeCodeRenderer, { "foreground_colour": "#000000", "background-colour": "#aaffaa", }),
+    ".highlight .gi": (AnsiEscapeCodeRenderer, { "foreground_colour": "#000000", "background_colour": "#ddffdd", }),
+    ".highlight .gi .x": (AnsiEscapeCodeRenderer, { "foreground_colour": "#000000", "background_colour": "#aaffaa", }),
     ".highlight .go": (AnsiEscapeCodeRenderer, { "foreground_colour": "#888888", }),
     ".highlight .gp": (AnsiEscapeCodeRenderer, { "foreground_colour": "#555555", }),
     ".highlight .gs": (AnsiEscapeCodeRenderer, { "bold": True }),
@@ -83,5 +83,5 @@ renderers = {
     ".highlight .vg": (AnsiEscapeCodeRenderer, { "foreground_colour": _TEAL }),
     ".highlight .vi": (AnsiEscapeCodeRenderer, { "foreground_colour": _TEAL }),
     ".highlight .il": (AnsiEscapeCodeRenderer, { "foreground_colour": "#009999", }),
-    ".highlight .gc": (AnsiEscapeCodeRenderer, { "foreground_colour": "#999", "background-colour": "#EAF2F5", }),
+    ".highlight .gc": (AnsiEscapeCodeRenderer, { "foreground_colour": "#999", "background_colour": "#EAF2F5", }),
 }
-- 
2.43.0


From 351eb7ecd6c0dd379f6f7cfb79e2bc539154cf07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:25 +0000
Subject: [PATCH 37/73] fix: do not style the line breaks around styled content

---
 gopher_render/rendering.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index fed8130..2c75527 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -1408,8 +1408,14 @@ class AnsiEscapeCodeRenderer(InlineRenderer):
         if normalise:
             disable.append(ANSI_ESCAPE_SEQUENCE.format(0))
 
-        return "{}{}{}".format(
+        # Line breaks around the content are not styled, so that they are still
+        # recognised as line breaks by whatever contains it.
+        styled = inner.strip("\n")
+        start, end = inner.split(styled, 1) if styled else ("", inner)
+        return "{}{}{}{}{}".format(
+            start,
             "".join(enable),
-            inner,
-            "".join(disable)
+            styled,
+            "".join(disable),
+            end
         )
-- 
2.43.0


From db895b590befdae838448dfcb8aa60838677861b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:21 +0000
Subject: [PATCH 38/73] fix: apply the settings of rules to elements with the
 default renderer too

---
 gopher_render/_parser.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index 138a81a..8a5e0d4 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -390,7 +390,7 @@ class RendererMap(object):
             selector = cssselect.parse(key)
             self._map.append(RendererMapping(selector, renderer_dict[key]))
 
-    def get_for_tag(self, tag):
+    def get_for_tag(self, tag, default=None):
         all_matches = []
         for mapping in self._map:
             match, specificity = tag_matches(tag, mapping.selector)
@@ -416,7 +416,14 @@ class RendererMap(object):
             if s is not None:
                 renderer_settings.update(s)
         if not renderer:
-            return None
+            if default is None:
+                return None
+            # The settings that matched apply to the default renderer too
+            try:
+                renderer = default[0]
+                renderer_settings = dict(default[1] or {}, **renderer_settings)
+            except TypeError:
+                renderer = default
         return (renderer, renderer_settings)
 
 
@@ -543,10 +550,7 @@ class GopherHTMLParser(HTMLParser):
         return any(t.tag == 'pre' for t in self._tag_stack)
 
     def _get_renderer(self, tag):
-        renderer = self._renderer_map.get_for_tag(tag)
-        if not renderer:
-            renderer = self._default_renderer
-        return renderer
+        return self._renderer_map.get_for_tag(tag, self._default_renderer)
 
     def _get_extracted_link_renderer(self, tag):
         try:
-- 
2.43.0


From 524f61b8d5f56f0cdfae9656fd9ede729a97f930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:32 +0000
Subject: [PATCH 39/73] fix: show the entries of images inside links that are
 placed inline

---
 gopher_render/_parser.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index 8a5e0d4..79571b7 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -312,9 +312,20 @@ class LinkParser(TagParser):
             rendered_children.append(
                 c.render(box)
             )
+        rendered_children = [
+            _join_children(self.children, rendered_children, _is_block(self))
+        ]
+
+        # The links inside an extracted link have been rendered in its place
+        if placement == "inline" and len(self._pending_links):
+            rendered_children.append('\n')
+            for l in self._pending_links:
+                rendered_children.append(
+                    l.link_render(box)
+                )
 
         return render_inst.render(
-            _join_children(self.children, rendered_children, _is_block(self))
+            "".join(rendered_children)
         )
 
 
-- 
2.43.0


From 581023c306f3e428835bf903ae506e7286456907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:46 +0000
Subject: [PATCH 40/73] fix: end the block, not inline elements, with the
 entries of links placed after blocks

---
 gopher_render/_parser.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index 79571b7..e0be8f6 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -107,6 +107,9 @@ class TagParser(object):
     def add_pending_link(self, link):
         self._pending_links.append(link)
 
+    def clear_pending_links(self):
+        self._pending_links = []
+
     def assign_renderer(self, renderer):
         try:
             self.renderer = renderer[0]
@@ -373,6 +376,9 @@ class DocumentParser(object):
     def add_pending_link(self, link):
         self.pending_links.append(link)
 
+    def clear_pending_links(self):
+        self.pending_links = []
+
     def tag_children(self):
         """
         Return only the children that represent tags (i.e. exclude any DataParsers)
@@ -592,8 +598,6 @@ class GopherHTMLParser(HTMLParser):
             placement = self._image_placement if tag == 'img' else self._link_placement
             if placement == 'footer':
                 self._footer_pending_links.append(t)
-            elif placement == 'after_block':
-                parent.add_pending_link(t)
             if placement != 'inline':
                 self._next_link_number += 1
         else:
@@ -665,7 +669,7 @@ class GopherHTMLParser(HTMLParser):
             for l in lines
         ])
 
-    def _assign_renderers(self, tags):
+    def _assign_renderers(self, tags, block):
         for tag in tags:
             renderer = self._get_renderer(tag)
             if tag.tag in ('a', 'img'):
@@ -674,10 +678,17 @@ class GopherHTMLParser(HTMLParser):
                         self._get_extracted_link_renderer(tag)
                     )
                 )
+                placement = self._image_placement if tag.tag == 'img' else self._link_placement
+                if placement == 'after_block':
+                    block.add_pending_link(tag)
             else:
                 tag.assign_renderer(renderer)
 
-            self._assign_renderers(tag.children)
+            tag.clear_pending_links()
+            self._assign_renderers(
+                tag.children,
+                tag if _is_block(tag) else block
+            )
 
     def _optimise_parsed(self):
         """
@@ -700,7 +711,8 @@ class GopherHTMLParser(HTMLParser):
                 self.tree.append(t)
 
         # Walk the tree and assign renderers.
-        self._assign_renderers(self.tree.children)
+        self.tree.clear_pending_links()
+        self._assign_renderers(self.tree.children, self.tree)
 
         rendered_children = []
         for t in self.tree.children:
-- 
2.43.0


From 68b71c685fbb213a15d343dc24d34e8e17ff8775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:20 +0000
Subject: [PATCH 41/73] fix: keep escape codes that have no text of their own
 on the line

---
 gopher_render/_textwrap.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gopher_render/_textwrap.py b/gopher_render/_textwrap.py
index 6a23fbc..d87f875 100644
--- a/gopher_render/_textwrap.py
+++ b/gopher_render/_textwrap.py
@@ -82,6 +82,8 @@ class AnsiAwareTextWrapper(TextWrapper):
             chunks.append(chunk)
         if chunks:
             chunks[-1] += text
+        else:
+            chunks = [text]
         return chunks
 
     def _fix_sentence_endings(self, chunks):
-- 
2.43.0


From 1745e6cefc74be114c1f68de83beece844207164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:25 +0000
Subject: [PATCH 42/73] fix: do not give escape codes in leading whitespace a
 line of their own

---
 gopher_render/_textwrap.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/gopher_render/_textwrap.py b/gopher_render/_textwrap.py
index d87f875..b4ee448 100644
--- a/gopher_render/_textwrap.py
+++ b/gopher_render/_textwrap.py
@@ -152,7 +152,8 @@ class AnsiAwareTextWrapper(TextWrapper):
                 l = _len(chunks[-1])
 
                 # Can at least squeeze this chunk onto the current line.
-                if cur_len + l <= width:
+                # That is always so if nothing of it is visible.
+                if l == 0 or cur_len + l <= width:
                     cur_line.append(chunks.pop())
                     cur_len += l
 
@@ -171,6 +172,10 @@ class AnsiAwareTextWrapper(TextWrapper):
             if self.drop_whitespace and cur_line and _strip(cur_line[-1]).strip() == '':
                 cur_len -= _len(cur_line[-1])
                 cur_line[-1:] = _escape_regex.findall(cur_line[-1])
+                # They are not a line of their own
+                if chunks and _len("".join(cur_line)) == 0:
+                    chunks[-1] = "".join(cur_line) + chunks[-1]
+                    cur_line = []
 
             if cur_line:
                 if (self.max_lines is None or
-- 
2.43.0


From 352dd11f851c723795944ebbc1cdbf951e6f25dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:10 +0000
Subject: [PATCH 43/73] fix: keep escape codes after whitespace that is dropped

---
 gopher_render/_textwrap.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/gopher_render/_textwrap.py b/gopher_render/_textwrap.py
index b4ee448..36d6708 100644
--- a/gopher_render/_textwrap.py
+++ b/gopher_render/_textwrap.py
@@ -104,6 +104,8 @@ class AnsiAwareTextWrapper(TextWrapper):
             cur_line[-1], chunk = _cut(chunk, len(cur_line[-1]))
         if len(reversed_chunks) == remaining:
             reversed_chunks[-1] = chunk
+        elif chunk:
+            cur_line[-1] += chunk
 
     def _wrap_chunks(self, chunks):
         """
@@ -173,9 +175,13 @@ class AnsiAwareTextWrapper(TextWrapper):
                 cur_len -= _len(cur_line[-1])
                 cur_line[-1:] = _escape_regex.findall(cur_line[-1])
                 # They are not a line of their own
-                if chunks and _len("".join(cur_line)) == 0:
-                    chunks[-1] = "".join(cur_line) + chunks[-1]
-                    cur_line = []
+                if _len("".join(cur_line)) == 0:
+                    if lines:
+                        lines[-1] += "".join(cur_line)
+                        cur_line = []
+                    elif chunks:
+                        chunks[-1] = "".join(cur_line) + chunks[-1]
+                        cur_line = []
 
             if cur_line:
                 if (self.max_lines is None or
-- 
2.43.0


From bdf17f37cb98721abada5b845f090f8899249202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:00 +0000
Subject: [PATCH 44/73] fix: keep the indent of justified lines that have
 escape codes in it

---
 gopher_render/rendering.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index 2c75527..f16e4bb 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -15,8 +15,9 @@ def full_justify(text, width, *args, **kwargs):
     lines = textwrap.wrap(text, width, *args, **kwargs)
     out_lines = []
     for line in lines[:-1]:
-        ls = line.lstrip()
-        indent = ' ' * (len(line) - len(ls))
+        # The indent may have ANSI escape codes in it
+        visible = textwrap._strip(line)
+        indent, ls = textwrap._cut(line, len(visible) - len(visible.lstrip()))
         padding_spaces = width - textwrap._len(line)
         rs = ls.rstrip()
         #padding_spaces = len(ls) - len(rs)
-- 
2.43.0


From ba89cc1294e7764b5cd0f6f885f940aebdbac2c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:52 +0000
Subject: [PATCH 45/73] fix: do not wrap the text of blocks that have no width
 left, which takes forever when nested deeper

---
 gopher_render/rendering.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index f16e4bb..5d4af4a 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -180,13 +180,12 @@ class Box(object):
         Block content should be wrapped to this width.
         """
         def fget(self):
-            # There is always room for something, however deeply nested
-            return max(1, self.width - (
+            return self.width - (
                 self.total_margin[BoxSide.LEFT] + self.total_margin[BoxSide.RIGHT] +
                 self.total_padding[BoxSide.LEFT] + self.total_padding[BoxSide.RIGHT] +
                 self.total_border[BoxSide.LEFT] + self.total_border[BoxSide.RIGHT] +
                 self.total_line_template_padding
-            ))
+            )
         return locals()
     inner_width_excluding_line_template = property(**inner_width_excluding_line_template())
 
@@ -642,6 +641,9 @@ class ParagraphRenderer(BlockRenderer):
                 justify_args[textwrap_arg] = settings[textwrap_arg]
 
         width = self.box.inner_width_excluding_line_template
+        if width < 1:
+            # Nested too deeply for any room to be left to wrap the text in
+            justify_func = _noop
         # TODO: Is a block or line template useful here?
         inner = capitalize_func(content)
         #template = settings['template']
@@ -1104,6 +1106,9 @@ class ListItemRenderer(BlockRenderer):
                 justify_args[textwrap_arg] = settings[textwrap_arg]
 
         width = self.box.inner_width_excluding_line_template
+        if width < 1:
+            # Nested too deeply for any room to be left to wrap the text in
+            justify_func = _noop
         # TODO: Is a block or line template useful here?
         inner = capitalize_func(content)
         # Only reflow within lines: keep line breaks, and the blocks within the item
@@ -1225,6 +1230,9 @@ class DefinitionListItemRenderer(BlockRenderer):
                 justify_args[textwrap_arg] = settings[textwrap_arg]
 
         width = self.box.inner_width_excluding_line_template
+        if width < 1:
+            # Nested too deeply for any room to be left to wrap the text in
+            justify_func = _noop
         # TODO: Is a block or line template useful here?
         inner = capitalize_func(content)
         # Only reflow within lines: keep line breaks, and the blocks within the item
-- 
2.43.0


From 7938091d12b47c6929bd1eca9669356f52390fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:30 +0000
Subject: [PATCH 46/73] fix: render the contents of extracted links only once,
 in their place

---
 gopher_render/_parser.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index e0be8f6..9fa8c0a 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -90,6 +90,7 @@ class TagParser(object):
         self.renderer_settings = None
         self._context = context
         self._pending_links = []
+        self.content = ""
 
     def tag_children(self):
         """
@@ -142,6 +143,7 @@ class TagParser(object):
         rendered_children = [
             _join_children(self.children, rendered_children, _is_block(self))
         ]
+        self.content = rendered_children[0]
 
         if len(self._pending_links):
             rendered_children.append('\n')
@@ -303,6 +305,10 @@ class LinkParser(TagParser):
             render_context['settings'] = renderer_settings
         render_inst = renderer(self, **render_context)
 
+        if placement != "inline":
+            # The contents have been rendered in their original location
+            return render_inst.render(self.content)
+
         try:
             box = render_inst.box
         except AttributeError:
@@ -319,13 +325,12 @@ class LinkParser(TagParser):
             _join_children(self.children, rendered_children, _is_block(self))
         ]
 
-        # The links inside an extracted link have been rendered in its place
-        if placement == "inline" and len(self._pending_links):
+        if len(self._pending_links):
             rendered_children.append('\n')
-            for l in self._pending_links:
-                rendered_children.append(
-                    l.link_render(box)
-                )
+        for l in self._pending_links:
+            rendered_children.append(
+                l.link_render(box)
+            )
 
         return render_inst.render(
             "".join(rendered_children)
-- 
2.43.0


From efce4c6936cbabc44dbb65910c59cffcd51e442c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:16 +0000
Subject: [PATCH 47/73] fix: take the settings of a mixin class only once, in
 its own place in the hierarchy

---
 gopher_render/rendering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index 5d4af4a..ce166d8 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -327,7 +327,7 @@ class Renderer(metaclass=_RendererMeta):
         all_classes = inspect.getmro(cls)
         all_bases = []
         for klass in all_classes[::-1]:
-            if hasattr(klass, 'settings'):
+            if 'settings' in vars(klass):
                 all_bases.append(klass.settings)
         for base in all_bases:
             s.update(base)
-- 
2.43.0


From adc3b96e8650ef424619af2975852420ae6c60aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:16 +0000
Subject: [PATCH 48/73] fix: keep what is written to settings that a renderer
 replaced with a dictionary

---
 gopher_render/rendering.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index ce166d8..576c3c2 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -351,6 +351,8 @@ class Renderer(metaclass=_RendererMeta):
             s = super().__getattribute__(name)
             if not isinstance(s, namedict):
                 s = namedict(s)
+                # Keep it, or whatever is written to it would be lost
+                self.settings = s
             return s
         return super().__getattribute__(name)
 
-- 
2.43.0


From d41fc76ac53ea04ca9d75f4e328c6ce448bb9ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:22 +0000
Subject: [PATCH 49/73] fix: take any white space around a line break as one
 separator

Carriage returns and form feeds were kept, and non-breaking spaces next to a
line break were lost.
---
 gopher_render/_parser.py | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index 9fa8c0a..a984d95 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -349,16 +349,7 @@ class DataParser(TagParser):
             # This produces different results than how browsers handle whitespace.
             # However, the paragraph renderer will also strip whitespace from the
             # start and end of its content, minimising the impact of this.
-            data_split = data.split('\n')
-            if len(data_split) > 1:
-                data_stripped = []
-                data_stripped.append(data_split[0].rstrip())
-                if len(data_split) > 2:
-                    data_stripped.extend([l.strip() for l in data_split[1:-1]])
-                data_stripped.append(data_split[-1].lstrip())
-                data_split = data_stripped
-            data = ' '.join(data_split)
-            data = re.sub('[ \t]+', ' ', data)
+            data = re.sub('[ \t\n\r\f]+', ' ', data)
         self.data = data
         self.closed = True
 
-- 
2.43.0


From 4ab42d2380c48fc1807954c996b0fb5f4009bf5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:28 +0000
Subject: [PATCH 50/73] fix: leave the code of a paragraph alone with white
 space around it too

---
 gopher_render/rendering.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index 576c3c2..11f31b2 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -611,6 +611,8 @@ class ParagraphRenderer(BlockRenderer):
         return None
 
     def _skip(self, children):
+        # Ignoring the whitespace around the element, which is not rendered
+        children = [c for c in children if c.tag is not None or c.data.strip(' ')]
         return len(children) == 1 and children[0].tag in ['code', 'pre']
 
     def _inner_render(self, content):
-- 
2.43.0


From 8bda01ca68e877d41269e559f127a5673bd31a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:03 +0000
Subject: [PATCH 51/73] fix: provide the main function that the console script
 imports

---
 gopher_render/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gopher_render/__main__.py b/gopher_render/__main__.py
index a59b396..9ae637f 100644
--- a/gopher_render/__main__.py
+++ b/gopher_render/__main__.py
@@ -1,4 +1,4 @@
+from .cli import main
 
 if __name__ == "__main__":
-    from .cli import main
     main()
-- 
2.43.0


From 9a48825d2d2803376b400bb0472266dc1970826d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:02 +0000
Subject: [PATCH 52/73] fix: do not repeat equal escape codes in shortened link
 descriptions, which doubles them with every nested link

---
 gopher_render/rendering.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index 11f31b2..9947c32 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -110,8 +110,10 @@ def truncate(text, length):
     if textwrap._len(text) <= length:
         return text
     start, rest = textwrap._cut(text, length)
-    # Whatever ANSI escape codes started has to end too
-    return "{}...{}".format(start, "".join(textwrap._escape_regex.findall(rest)))
+    # Whatever ANSI escape codes started has to end too, for which only the last
+    # of equal ones matters
+    escapes = textwrap._escape_regex.findall(rest)[::-1]
+    return "{}...{}".format(start, "".join(list(dict.fromkeys(escapes))[::-1]))
 
 
 class BoxSide:
-- 
2.43.0


From 1a00a24edaed163c2827904df23d0788fdfcd41d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:07 +0000
Subject: [PATCH 53/73] fix: take only line feeds and carriage returns for line
 ends, not form feeds and other separators within text

---
 gopher_render/_parser.py   |  4 ++--
 gopher_render/rendering.py | 17 ++++++++++++++---
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index a984d95..1356ea5 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -7,7 +7,7 @@ import cssselect
 
 from ._selectors import tag_matches, Specificity
 
-from .rendering import full_justify
+from .rendering import full_justify, _split_lines
 
 from .rendering import Box, BoxSide
 from .rendering import Renderer, InlineRenderer, BlockRenderer
@@ -659,7 +659,7 @@ class GopherHTMLParser(HTMLParser):
     def _indent_body(self):
         box = self._box
         parsed = "".join(self._parsed)
-        lines = parsed.splitlines(keepends=True)
+        lines = _split_lines(parsed, keepends=True)
         return "".join([
             "{}{}".format(' ' * self._box.margin[BoxSide.LEFT], l)
             for l in lines
diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index 9947c32..8217a87 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -11,6 +11,17 @@ def _noop(text, *args, **kwargs):
     return text
 
 
+def _split_lines(text, keepends=False):
+    """
+    Split text into lines like str.splitlines, but not at characters that are
+    line boundaries only for Python, e.g. form feeds.
+    """
+    lines = re.findall(r"[^\r\n]*(?:\r\n|\r|\n)|[^\r\n]+", text)
+    if keepends:
+        return lines
+    return [l.rstrip("\r\n") for l in lines]
+
+
 def full_justify(text, width, *args, **kwargs):
     lines = textwrap.wrap(text, width, *args, **kwargs)
     out_lines = []
@@ -443,7 +454,7 @@ class BlockRenderer(Renderer):
     def _outer_render(self, content):
         box = self.box
         # Not sure if splitlines of split('\n') is best here
-        lines = content.splitlines(keepends=True)
+        lines = _split_lines(content, keepends=True)
         indented = "".join([
             "{}{}".format(' ' * box.margin[BoxSide.LEFT], l)
             for l in lines
@@ -710,7 +721,7 @@ class PreRenderer(BlockRenderer):
     def _inner_render(self, content):
         settings = self.settings
 
-        lines = content.splitlines()
+        lines = _split_lines(content)
         formatted = []
         for line in lines:
             formatted.append(
@@ -1035,7 +1046,7 @@ class BlockQuoteRenderer(BlockRenderer):
 
         width = self.box.inner_width
 
-        content_split = content.splitlines()
+        content_split = _split_lines(content)
         template = self.settings.line_template
 
         return "\n".join(
-- 
2.43.0


From 6cee9e13490858d2365e970cb676e11b1988e6e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:21 +0000
Subject: [PATCH 54/73] fix: do not number or list links inside elements that
 are not rendered

---
 gopher_render/_parser.py | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index 1356ea5..e344ade 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -10,7 +10,7 @@ from ._selectors import tag_matches, Specificity
 from .rendering import full_justify, _split_lines
 
 from .rendering import Box, BoxSide
-from .rendering import Renderer, InlineRenderer, BlockRenderer
+from .rendering import Renderer, NonRenderer, InlineRenderer, BlockRenderer
 from .rendering import HeaderRenderer, MarkdownHeaderRenderer
 from .rendering import ParagraphRenderer, BlockQuoteRenderer
 from .rendering import CodeRenderer, PreRenderer
@@ -39,6 +39,10 @@ def _is_block(tag):
     )
 
 
+def _is_suppressed(tag):
+    return isinstance(tag.renderer, type) and issubclass(tag.renderer, NonRenderer)
+
+
 def _is_line_break(tag):
     return tag.tag == 'br' or _is_block(tag)
 
@@ -184,6 +188,9 @@ class LinkParser(TagParser):
             self.href = self._clean_href(self.attrs.get('src', None))
             self.gopher_link = self._parse_href()
 
+    def set_reference(self, number):
+        self._context['link_reference'] = number
+
     def _clean_href(self, href):
         # Newlines and tabs are not a part of URLs, but can be used in an
         # attribute to break up long ones
@@ -587,15 +594,9 @@ class GopherHTMLParser(HTMLParser):
                 output_format=self._output_format,
                 link_placement=self._link_placement,
                 image_placement=self._image_placement,
-                link_reference=self._next_link_number,
                 gopher_host=self._gopher_host,
                 gopher_port=self._gopher_port,
             )
-            placement = self._image_placement if tag == 'img' else self._link_placement
-            if placement == 'footer':
-                self._footer_pending_links.append(t)
-            if placement != 'inline':
-                self._next_link_number += 1
         else:
             t = TagParser(
                 tag,
@@ -665,7 +666,7 @@ class GopherHTMLParser(HTMLParser):
             for l in lines
         ])
 
-    def _assign_renderers(self, tags, block):
+    def _assign_renderers(self, tags, block, suppressed=False):
         for tag in tags:
             renderer = self._get_renderer(tag)
             if tag.tag in ('a', 'img'):
@@ -674,16 +675,23 @@ class GopherHTMLParser(HTMLParser):
                         self._get_extracted_link_renderer(tag)
                     )
                 )
+                tag.set_reference(self._next_link_number)
                 placement = self._image_placement if tag.tag == 'img' else self._link_placement
-                if placement == 'after_block':
-                    block.add_pending_link(tag)
+                # There is no reference to a link inside a suppressed element
+                if placement != 'inline' and not suppressed:
+                    self._next_link_number += 1
+                    if placement == 'footer':
+                        self._footer_pending_links.append(tag)
+                    else:
+                        block.add_pending_link(tag)
             else:
                 tag.assign_renderer(renderer)
 
             tag.clear_pending_links()
             self._assign_renderers(
                 tag.children,
-                tag if _is_block(tag) else block
+                tag if _is_block(tag) else block,
+                suppressed or _is_suppressed(tag)
             )
 
     def _optimise_parsed(self):
@@ -708,6 +716,8 @@ class GopherHTMLParser(HTMLParser):
 
         # Walk the tree and assign renderers.
         self.tree.clear_pending_links()
+        self._next_link_number = 1
+        self._footer_pending_links = []
         self._assign_renderers(self.tree.children, self.tree)
 
         rendered_children = []
-- 
2.43.0


From 2df8b9dd7f20391e4ca771dbe605deb3943bed5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:24 +0000
Subject: [PATCH 55/73] fix: match element and attribute names and series in
 selectors whatever their case

---
 gopher_render/_selectors.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/gopher_render/_selectors.py b/gopher_render/_selectors.py
index 672ea11..d1b0cc9 100644
--- a/gopher_render/_selectors.py
+++ b/gopher_render/_selectors.py
@@ -10,6 +10,7 @@ from cssselect.parser import (
     Attrib,
     Hash,
     CombinedSelector,
+    Token,
     parse_series,
 )
 
@@ -24,7 +25,10 @@ def _element_matches(tag, element):
     if hasattr(tag, 'data'):
         return False
     # element.element will be None for the universal selector ('*')
-    return tag.tag == element.element or element.element is None
+    if element.element is None:
+        return True
+    # The names of elements are not case-sensitive in HTML
+    return tag.tag == element.element.lower()
 
 
 def _hash_matches(tag, hash):
@@ -136,11 +140,13 @@ def _attribute_matches(tag, selector):
     # not handled here.
     # There are also options related to how to compare the values case-wise
     # but that is apparently not handled by cssselect.
-    if selector.attrib in tag.attrs:
+    # The names of attributes are not case-sensitive in HTML
+    attrib = selector.attrib.lower()
+    if attrib in tag.attrs:
         if selector.operator == 'exists':
             return True
-        attr_val = tag.attrs[selector.attrib]
-        if selector.attrib == 'class':
+        attr_val = tag.attrs[attrib]
+        if attrib == 'class':
             # The class attribute is split during parsing, so have to rejoin
             # it for ease of comparison
             attr_val = " ".join(attr_val)
@@ -185,9 +191,13 @@ def _combination_matches(tag, selector):
 # Pseudo Classes
 
 def _in_series(position, selector):
-    # The argument is a number, or a series like '2n+1', 'odd' or 'even'
+    # The argument is a number, or a series like '2n+1', 'odd' or 'even', which
+    # is not case-sensitive
     try:
-        a, b = parse_series(selector.arguments)
+        a, b = parse_series([
+            Token(token.type, token.value.lower(), token.pos)
+            for token in selector.arguments
+        ])
     except ValueError:
         return False
     if a == 0:
-- 
2.43.0


From 2741722f596a5440c210f2fd86c206a0689be615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:18 +0000
Subject: [PATCH 56/73] fix: escape codes are not columns when expanding tabs

---
 gopher_render/_textwrap.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/gopher_render/_textwrap.py b/gopher_render/_textwrap.py
index 36d6708..f2a5bbf 100644
--- a/gopher_render/_textwrap.py
+++ b/gopher_render/_textwrap.py
@@ -73,6 +73,22 @@ class AnsiAwareTextWrapper(TextWrapper):
     the length of wrapped lines, and where to break them.
     """
 
+    def _munge_whitespace(self, text):
+        # Escape codes are not columns, so let the base class expand tabs only
+        # where there are none
+        if self.expand_tabs and len(text) != _len(text):
+            expanded = []
+            column = 0
+            for piece in re.split(r"([\t\r\n])", text):
+                if piece == "\t":
+                    piece = ""
+                    if self.tabsize > 0:
+                        piece = " " * (self.tabsize - column % self.tabsize)
+                expanded.append(piece)
+                column = 0 if piece in ("\r", "\n") else column + _len(piece)
+            text = "".join(expanded)
+        return super()._munge_whitespace(text)
+
     def _split(self, text):
         if len(text) == _len(text):
             return super()._split(text)
-- 
2.43.0


From 7f397c7624e29da3ce016fdaf0bbce2dea585472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:04 +0000
Subject: [PATCH 57/73] fix: white space at the start of styled text is
 stripped like any other

A paragraph or link description that starts with a styled element whose text
starts with a space was indented by that space, and wrapped accordingly.
---
 gopher_render/_textwrap.py | 15 +++++++++++++++
 gopher_render/rendering.py |  4 ++--
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/gopher_render/_textwrap.py b/gopher_render/_textwrap.py
index f2a5bbf..c4f393c 100644
--- a/gopher_render/_textwrap.py
+++ b/gopher_render/_textwrap.py
@@ -37,6 +37,21 @@ def _strip(text):
     return _escape_regex.sub("", text)
 
 
+def _strip_whitespace(text):
+    """
+    Strip text like str.strip, whether or not there are escape codes around the
+    whitespace. The escape codes remain.
+    """
+    visible = _strip(text)
+    start, text = _cut(text, len(visible) - len(visible.lstrip()))
+    text, end = _cut(text, len(visible.strip()))
+    return "{}{}{}".format(
+        "".join(_escape_regex.findall(start)),
+        text,
+        "".join(_escape_regex.findall(end)),
+    )
+
+
 def _cut(text, length):
     """
     Cut text in two after the provided number of visible characters.
diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index 8217a87..f315b24 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -669,7 +669,7 @@ class ParagraphRenderer(BlockRenderer):
         for chunk in inner_split:
             # I think we can safely strip here because the paragraph renderer
             # is expected to reformat its contents...
-            j = justify_func(chunk.strip(), width, **justify_args)
+            j = justify_func(textwrap._strip_whitespace(chunk), width, **justify_args)
             justified.append(j)
         justified = '\n'.join(justified)
         just_split = justified.split("\n")
@@ -784,7 +784,7 @@ class ExtractedLinkRenderer(BlockRenderer):
 
         # TODO: Surely this truncation should be optional?
         max_link_description = settings.max_link_description
-        content = truncate(content.strip(), max_link_description)
+        content = truncate(textwrap._strip_whitespace(content), max_link_description)
 
         if output_format == 'gophermap':
             description = title if title is not None else content
-- 
2.43.0


From a5abe994e14f9ebbba5d92d5ec98bbaa278d07b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:30 +0000
Subject: [PATCH 58/73] fix: white space around escape codes is collapsed in
 gophermap descriptions

The description of a link with styled text in it kept several spaces where the
same text without the style has one.
---
 gopher_render/_textwrap.py | 12 ++++++++++++
 gopher_render/rendering.py |  4 ++--
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/gopher_render/_textwrap.py b/gopher_render/_textwrap.py
index c4f393c..a826e50 100644
--- a/gopher_render/_textwrap.py
+++ b/gopher_render/_textwrap.py
@@ -52,6 +52,18 @@ def _strip_whitespace(text):
     )
 
 
+def _collapse_whitespace(text):
+    """
+    Replace whitespace with single spaces, and remove it from both ends, whether
+    or not there are escape codes in it. The escape codes remain.
+    """
+    return re.sub(
+        r"\s(?:\s|\x1b\[[;\d]*m)*",
+        lambda whitespace: " " + "".join(_escape_regex.findall(whitespace.group())),
+        _strip_whitespace(text)
+    )
+
+
 def _cut(text, length):
     """
     Cut text in two after the provided number of visible characters.
diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index f315b24..946b59c 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -792,7 +792,7 @@ class ExtractedLinkRenderer(BlockRenderer):
             link_ref = self.context["link_reference"]
             return settings.gophermap_template.format(
                 # Tabs and newlines would end the field or the line
-                description=" ".join(super()._inner_render(description).split()),
+                description=textwrap._collapse_whitespace(super()._inner_render(description)),
                 link_reference=link_ref,
                 selector=gopher_link['selector'],
                 type=gopher_link['type'],
@@ -902,7 +902,7 @@ class ExtractedImageLinkRenderer(BlockRenderer):
             link_ref = self.context["link_reference"]
             return settings.gophermap_template.format(
                 # Tabs and newlines would end the field or the line
-                description=" ".join(super()._inner_render(description).split()),
+                description=textwrap._collapse_whitespace(super()._inner_render(description)),
                 link_reference=link_ref,
                 selector=gopher_link['selector'],
                 type=gopher_link['type'],
-- 
2.43.0


From 79c2e68bcf6424b5603a0cce97371bbb853676e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:37 +0000
Subject: [PATCH 59/73] fix: styled elements without content are not styled

The escape codes of an empty element, or one with only a line break in it, made
the line before the break count as a line with text.
---
 gopher_render/rendering.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index 946b59c..ad380ce 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -1437,7 +1437,10 @@ class AnsiEscapeCodeRenderer(InlineRenderer):
         # Line breaks around the content are not styled, so that they are still
         # recognised as line breaks by whatever contains it.
         styled = inner.strip("\n")
-        start, end = inner.split(styled, 1) if styled else ("", inner)
+        if not styled:
+            # There is nothing to style
+            return inner
+        start, end = inner.split(styled, 1)
         return "{}{}{}{}{}".format(
             start,
             "".join(enable),
-- 
2.43.0


From 5b38b0c38908049b36d59ac0e6e977e04221ff9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:50 +0000
Subject: [PATCH 60/73] fix: keep semicolons in the selectors of gopher links

---
 gopher_render/_parser.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index e344ade..2552778 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -1,7 +1,7 @@
 import re
 import sys
 from html.parser import HTMLParser
-from urllib.parse import urlparse
+from urllib.parse import urlsplit
 from collections import namedtuple
 import cssselect
 
@@ -222,7 +222,8 @@ class LinkParser(TagParser):
         elements of a gophermap link
         """
         try:
-            parsed = urlparse(self.href)
+            # A semicolon is a part of the path
+            parsed = urlsplit(self.href)
             parsed.port
         except ValueError:
             # Not a valid URL: pass it on as it is, like an unknown protocol
-- 
2.43.0


From fcc0efe4346169e1bad4a839bb15ea9a283eb84b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:51 +0000
Subject: [PATCH 61/73] fix: escape codes and braces in line templates do not
 count towards their width

---
 gopher_render/rendering.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index ad380ce..313b9f5 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -135,8 +135,8 @@ class BoxSide:
 
 
 def _get_template_width(template):
-    # TODO: This needs to be more sophisticated
-    return len(template) - 2
+    # ANSI escape codes do not take up any width
+    return textwrap._len(template.format(""))
 
 
 class Box(object):
-- 
2.43.0


From 10a8c8a3e77dcd8238b9d196f1fafab87b100334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:52 +0000
Subject: [PATCH 62/73] fix: escape codes in borders do not take up any width

---
 gopher_render/rendering.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index 313b9f5..7ad1299 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -425,7 +425,7 @@ class BlockRenderer(Renderer):
         super().__init__(tag, **kwargs)
         # TODO: What if None, or wrong length?
         border = self.settings.border
-        self._border_width = [ len(b) for b in border ]
+        self._border_width = [ textwrap._len(b) for b in border ]
         self.box = self._generate_box()
 
     def _generate_box(self):
@@ -498,10 +498,10 @@ class BlockRenderer(Renderer):
             padded.extend([vertical_pad] * box.padding[BoxSide.BOTTOM])
 
         if box.border[BoxSide.TOP] > 0:
-            for c in borders[BoxSide.TOP][::-1]:
+            for c in textwrap._split_characters(borders[BoxSide.TOP])[::-1]:
                 padded.insert(0, c * box.bordered_width)
         if box.border[BoxSide.BOTTOM] > 0:
-            for c in borders[BoxSide.BOTTOM]:
+            for c in textwrap._split_characters(borders[BoxSide.BOTTOM]):
                 padded.append(c * box.bordered_width)
 
         return "\n".join(padded)
-- 
2.43.0


From 8e2485ee02b71365786eee4a7c3f7b48e4460ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:54 +0000
Subject: [PATCH 63/73] fix: decorate every line of a heading with line breaks

---
 gopher_render/rendering.py | 31 ++++++++++++++-----------------
 1 file changed, 14 insertions(+), 17 deletions(-)

diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index 7ad1299..799f583 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -540,25 +540,22 @@ class HeaderRenderer(BlockRenderer):
         box = self.box
         # Exclude the line templates of any blocks around the header
         width = box.inner_width_excluding_line_template
-        inner = settings.template.format(
-            spread_func(
-                capitalize_func(
-                    super()._inner_render(content)
-                ),
-                settings.spread_char,
-                settings.spread
-            )
-        )
-        underline = ""
+        # There can be line breaks in the heading
+        lines = settings.template.format(
+            "\n".join([
+                spread_func(
+                    capitalize_func(line),
+                    settings.spread_char,
+                    settings.spread
+                ) for line in super()._inner_render(content).split("\n")
+            ])
+        ).split("\n")
         if settings['underlined']:
-            underline_len = width if settings.underline_full else textwrap._len(inner)
-            underline = "{}".format(settings.underline_char * underline_len, width)
-            return "{}\n{}".format(
-                center_func(inner, width),
-                center_func(underline, width),
+            underline_len = width if settings.underline_full else max(
+                [textwrap._len(line) for line in lines]
             )
-        else:
-            return center_func(inner, width)
+            lines.append(settings.underline_char * underline_len)
+        return "\n".join([center_func(line, width) for line in lines])
 
 
 class MarkdownHeaderRenderer(HeaderRenderer):
-- 
2.43.0


From 1d56ba3c5925b1438016aa53b3cea5b2187f6c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:55 +0000
Subject: [PATCH 64/73] fix: ordered list items lost their text with the
 template of unordered ones

---
 gopher_render/rendering.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index 799f583..bb1932d 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -1157,7 +1157,12 @@ class OrderedListItemRenderer(ListItemRenderer):
             self.settings.start_index,
             self.settings.step,
         )
-        self.settings.line_template = self.settings.line_template.format(
+        template = self.settings.line_template
+        if template.format(self.order, "x") == template.format(self.order, ""):
+            # There is only a place for the content, e.g. because the template
+            # is from a rule for the items of all lists
+            return
+        self.settings.line_template = template.format(
             self.order,
             '{}'
         )
-- 
2.43.0


From 2e9d6015b488cc98c40972c4f5c49dbe6e99b156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:56 +0000
Subject: [PATCH 65/73] fix: braces in the templates of ordered list items

---
 gopher_render/rendering.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index bb1932d..486f87d 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -1162,10 +1162,10 @@ class OrderedListItemRenderer(ListItemRenderer):
             # There is only a place for the content, e.g. because the template
             # is from a rule for the items of all lists
             return
-        self.settings.line_template = template.format(
-            self.order,
-            '{}'
-        )
+        # What comes out is a template again, in which braces are doubled
+        numbered = template.format(self.order, '\0')
+        numbered = numbered.replace('{', '{{').replace('}', '}}')
+        self.settings.line_template = numbered.replace('\0', '{}')
 
     def _get_ordinal(self, tag, start_index, step):
         # Only the items count, not the whitespace between them
-- 
2.43.0


From 45868049c353831b2d5dd46529058cb31099642c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:20 +0000
Subject: [PATCH 66/73] fix: gophermap links after blocks were wrapped,
 indented and prefixed like text

---
 gopher_render/_parser.py | 75 ++++++++++++++++++++++++++++++++++++----
 1 file changed, 69 insertions(+), 6 deletions(-)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index 2552778..bc79737 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -75,6 +75,49 @@ def _join_children(children, rendered_children, in_block):
     return joined
 
 
+class MenuLines(object):
+    """
+    Keeps the links of a gophermap that are rendered inside blocks.
+
+    Whatever the blocks do to their lines, e.g. wrap or indent them, a link has
+    to remain a line of its own as it is. A single character that is not in the
+    document stands for it until the document is complete.
+    """
+
+    def __init__(self, characters):
+        # From the end of the private use areas
+        self._markers = (
+            chr(c) for c in range(0x10fffd, 0xeffff, -1) if chr(c) not in characters
+        )
+        self._rendered = {}
+
+    def add(self, rendered):
+        marker = next(self._markers)
+        self._rendered[marker] = rendered
+        return marker
+
+    def remove_from(self, text):
+        if len(self._rendered) == 0:
+            return text
+        return "".join([c for c in text if c not in self._rendered])
+
+    def restore_in(self, text):
+        """
+        Replace every line that a marker is on with the links it stands for.
+        """
+        if len(self._rendered) == 0:
+            return text
+        lines = []
+        for line in text.split('\n'):
+            links = [self._rendered[c] for c in line if c in self._rendered]
+            if links:
+                line = "".join(links)
+                if line.endswith('\n'):
+                    line = line[:-1]
+            lines.append(line)
+        return '\n'.join(lines)
+
+
 # TODO: Maybe this class should do more actual parsing? Or just rename to Tag
 class TagParser(object):
 
@@ -153,7 +196,7 @@ class TagParser(object):
             rendered_children.append('\n')
         for l in self._pending_links:
             rendered_children.append(
-                l.link_render(box)
+                l.block_link_render(box)
             )
 
         return render_inst.render(
@@ -188,8 +231,9 @@ class LinkParser(TagParser):
             self.href = self._clean_href(self.attrs.get('src', None))
             self.gopher_link = self._parse_href()
 
-    def set_reference(self, number):
+    def set_reference(self, number, menu_lines):
         self._context['link_reference'] = number
+        self._menu_lines = menu_lines
 
     def _clean_href(self, href):
         # Newlines and tabs are not a part of URLs, but can be used in an
@@ -289,6 +333,15 @@ class LinkParser(TagParser):
             return super().render(box)
         return self.link_render(box)
 
+    def block_link_render(self, box):
+        """
+        Render an extracted link at the end of a block.
+        """
+        rendered = self.link_render(box)
+        if self._context['output_format'] != 'gophermap' or rendered == "":
+            return rendered
+        return "{}\n".format(self._menu_lines.add(rendered))
+
     def link_render(self, box):
         """
         Render an extracted link.
@@ -315,7 +368,9 @@ class LinkParser(TagParser):
 
         if placement != "inline":
             # The contents have been rendered in their original location
-            return render_inst.render(self.content)
+            return render_inst.render(
+                self._menu_lines.remove_from(self.content)
+            )
 
         try:
             box = render_inst.box
@@ -337,7 +392,7 @@ class LinkParser(TagParser):
             rendered_children.append('\n')
         for l in self._pending_links:
             rendered_children.append(
-                l.link_render(box)
+                l.block_link_render(box)
             )
 
         return render_inst.render(
@@ -557,6 +612,8 @@ class GopherHTMLParser(HTMLParser):
         self._extracted_link_renderer_map = RendererMap(self.extracted_link_renderers)
         self._next_link_number = 1
         self._footer_pending_links = []
+        self._characters = set()
+        self._menu_lines = MenuLines(self._characters)
         self._optimise = optimise
 
     def _get_top(self):
@@ -585,6 +642,8 @@ class GopherHTMLParser(HTMLParser):
 
     def handle_starttag(self, tag, attrs):
         self._add_pending_data()
+        for name, value in attrs:
+            self._characters.update(value or "")
         parent = self._get_top() or self.tree
         t = None
         if tag in ('a', 'img'):
@@ -641,6 +700,7 @@ class GopherHTMLParser(HTMLParser):
             return
         data = "".join(self._pending_data)
         self._pending_data = []
+        self._characters.update(data)
         # Ignore any whitespace data on its own, unless in a pre tag
         # Pretty printed html includes a lot of this.
         # Removing ths because it removes significant whitespace between
@@ -676,7 +736,7 @@ class GopherHTMLParser(HTMLParser):
                         self._get_extracted_link_renderer(tag)
                     )
                 )
-                tag.set_reference(self._next_link_number)
+                tag.set_reference(self._next_link_number, self._menu_lines)
                 placement = self._image_placement if tag.tag == 'img' else self._link_placement
                 # There is no reference to a link inside a suppressed element
                 if placement != 'inline' and not suppressed:
@@ -719,6 +779,7 @@ class GopherHTMLParser(HTMLParser):
         self.tree.clear_pending_links()
         self._next_link_number = 1
         self._footer_pending_links = []
+        self._menu_lines = MenuLines(self._characters)
         self._assign_renderers(self.tree.children, self.tree)
 
         rendered_children = []
@@ -741,7 +802,7 @@ class GopherHTMLParser(HTMLParser):
         # and indent everything around them separately.
         # Addition of padding and border to box model complicate this even further
         if self._output_format == 'gophermap':
-            indented = self._indent_body() + "".join(links)
+            indented = self._menu_lines.restore_in(self._indent_body()) + "".join(links)
         else:
             self._parsed.extend(links)
             indented = self._indent_body()
@@ -762,3 +823,5 @@ class GopherHTMLParser(HTMLParser):
         self.tree = DocumentParser()
         self._next_link_number = 1
         self._footer_pending_links = []
+        self._characters = set()
+        self._menu_lines = MenuLines(self._characters)
-- 
2.43.0


From ab755a47c5db402f32166eba16776d10ea7715af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:20 +0000
Subject: [PATCH 67/73] fix: class attributes were split at characters that are
 no whitespace in HTML, and compared as rejoined

---
 gopher_render/_parser.py    |  6 +++++-
 gopher_render/_selectors.py | 10 ++++++----
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index bc79737..c2740c7 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -128,6 +128,8 @@ class TagParser(object):
         self.closed = tag in VOID_ELEMENTS
         self.attrs = {}
         self.classes = []
+        # The class attribute as it is written
+        self.class_value = ""
         self.id = None
         if attrs is not None:
             self.attrs = dict(attrs)
@@ -148,7 +150,9 @@ class TagParser(object):
     def __extract_classes(self):
         if 'class' in self.attrs:
             # The value is None for an attribute without one: <p class>
-            self.attrs['class'] = (self.attrs['class'] or '').split()
+            # Unlike str.split(), only the whitespace of HTML separates classes
+            self.class_value = self.attrs['class'] or ""
+            self.attrs['class'] = re.findall(r'[^ \t\n\r\f]+', self.class_value)
             return self.attrs['class']
         return []
 
diff --git a/gopher_render/_selectors.py b/gopher_render/_selectors.py
index d1b0cc9..9b22501 100644
--- a/gopher_render/_selectors.py
+++ b/gopher_render/_selectors.py
@@ -1,3 +1,5 @@
+import re
+
 import cssselect
 from cssselect.parser import (
     Selector,
@@ -147,9 +149,9 @@ def _attribute_matches(tag, selector):
             return True
         attr_val = tag.attrs[attrib]
         if attrib == 'class':
-            # The class attribute is split during parsing, so have to rejoin
-            # it for ease of comparison
-            attr_val = " ".join(attr_val)
+            # The class attribute is split during parsing, but it is compared
+            # as it is written
+            attr_val = getattr(tag, 'class_value', " ".join(attr_val))
         if attr_val is None:
             # An attribute without a value has an empty one.
             attr_val = ""
@@ -158,7 +160,7 @@ def _attribute_matches(tag, selector):
         if selector.operator == '=':
             return attr_val == value
         if selector.operator == '~=':
-            split_val = attr_val.split()
+            split_val = re.findall(r'[^ \t\n\r\f]+', attr_val)
             return value in split_val
         if selector.operator == '|=':
             return attr_val == value or attr_val.startswith("{}-".format(value))
-- 
2.43.0


From 81c7b5ddd62b3b33de4adcc2b4e69f4d36e8b85b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:36 +0000
Subject: [PATCH 68/73] fix: tabs in the text of gophermaps made menu items out
 of it

---
 gopher_render/_parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index c2740c7..113cbc3 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -806,6 +806,8 @@ class GopherHTMLParser(HTMLParser):
         # and indent everything around them separately.
         # Addition of padding and border to box model complicate this even further
         if self._output_format == 'gophermap':
+            # Only links have tabs
+            self._parsed = [t.expandtabs() for t in self._parsed]
             indented = self._menu_lines.restore_in(self._indent_body()) + "".join(links)
         else:
             self._parsed.extend(links)
-- 
2.43.0


From 5fd2ae7aad656ccde6d1eae8e8df30e51fb595d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:24 +0000
Subject: [PATCH 69/73] fix: preformatted text and other blocks within list
 items, definitions and paragraphs were wrapped again

---
 gopher_render/_parser.py   | 38 +++++++++++++++++++++++--------
 gopher_render/rendering.py | 46 +++++++++++++++++++++++++-------------
 2 files changed, 59 insertions(+), 25 deletions(-)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index 113cbc3..8ef75c9 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -53,8 +53,12 @@ def _join_children(children, rendered_children, in_block):
 
     Every block is kept on lines of its own, and the whitespace between
     the text and the start or end of a line is removed.
+
+    Returns the numbers of the lines that belong to blocks, as well.
     """
     joined = ""
+    line_number = 0
+    block_lines = set()
     after_block = False
     last = len(children) - 1
     for i, (c, r) in enumerate(zip(children, rendered_children)):
@@ -70,9 +74,18 @@ def _join_children(children, rendered_children, in_block):
             joined == "" or joined.endswith('\n') or r.startswith('\n')
         ):
             joined += '\n'
+            line_number += 1
+        first = line_number
+        line_number += r.count('\n')
+        if block:
+            # At either end there can be the rest of a line of text
+            block_lines.update(range(
+                first + 1 if r.startswith('\n') else first,
+                line_number if r.endswith('\n') else line_number + 1
+            ))
         joined += r
         after_block = block
-    return joined
+    return joined, block_lines
 
 
 class MenuLines(object):
@@ -140,6 +153,8 @@ class TagParser(object):
         self._context = context
         self._pending_links = []
         self.content = ""
+        # Numbers of the lines of the content that were laid out by blocks
+        self.block_lines = set()
 
     def tag_children(self):
         """
@@ -191,10 +206,12 @@ class TagParser(object):
             rendered_children.append(
                 c.render(box)
             )
-        rendered_children = [
-            _join_children(self.children, rendered_children, _is_block(self))
-        ]
-        self.content = rendered_children[0]
+        self.content, self.block_lines = _join_children(
+            self.children,
+            rendered_children,
+            _is_block(self)
+        )
+        rendered_children = [self.content]
 
         if len(self._pending_links):
             rendered_children.append('\n')
@@ -388,9 +405,12 @@ class LinkParser(TagParser):
             rendered_children.append(
                 c.render(box)
             )
-        rendered_children = [
-            _join_children(self.children, rendered_children, _is_block(self))
-        ]
+        content, self.block_lines = _join_children(
+            self.children,
+            rendered_children,
+            _is_block(self)
+        )
+        rendered_children = [content]
 
         if len(self._pending_links):
             rendered_children.append('\n')
@@ -790,7 +810,7 @@ class GopherHTMLParser(HTMLParser):
         for t in self.tree.children:
             rendered_children.append(t.render(self._box))
         self._parsed = [
-            _join_children(self.tree.children, rendered_children, True)
+            _join_children(self.tree.children, rendered_children, True)[0]
         ]
 
         links = []
diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index 486f87d..300f95e 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -471,6 +471,18 @@ class BlockRenderer(Renderer):
         # and allow derived classes to do more sophisticated things.
         return content
 
+    def _reflow(self, content, reflow_line, first_line=0):
+        """
+        Reflow the lines of the content, which may start at a line of the whole.
+
+        The blocks within it have laid out their own lines, which are kept.
+        """
+        block_lines = self.tag.block_lines
+        return "\n".join([
+            line if i in block_lines else reflow_line(line)
+            for i, line in enumerate(content.split("\n"), first_line)
+        ])
+
     def _border_render(self, content):
         box = self.box
         settings = self.settings
@@ -661,14 +673,14 @@ class ParagraphRenderer(BlockRenderer):
         # TODO: Is a block or line template useful here?
         inner = capitalize_func(content)
         #template = settings['template']
-        inner_split = inner.split('\n')
-        justified = []
-        for chunk in inner_split:
-            # I think we can safely strip here because the paragraph renderer
-            # is expected to reformat its contents...
-            j = justify_func(textwrap._strip_whitespace(chunk), width, **justify_args)
-            justified.append(j)
-        justified = '\n'.join(justified)
+        # I think we can safely strip here because the paragraph renderer
+        # is expected to reformat its contents...
+        justified = self._reflow(
+            inner,
+            lambda chunk: justify_func(
+                textwrap._strip_whitespace(chunk), width, **justify_args
+            )
+        )
         just_split = justified.split("\n")
         template = self.settings.line_template
         return "\n".join(
@@ -1126,10 +1138,11 @@ class ListItemRenderer(BlockRenderer):
         # TODO: Is a block or line template useful here?
         inner = capitalize_func(content)
         # Only reflow within lines: keep line breaks, and the blocks within the item
-        justified = "\n".join([
-            justify_func(line, width, **justify_args)
-            for line in inner.strip("\n").split("\n")
-        ])
+        justified = self._reflow(
+            inner.strip("\n"),
+            lambda line: justify_func(line, width, **justify_args),
+            first_line=len(inner) - len(inner.lstrip("\n"))
+        )
         just_split = justified.split("\n")
         template = self.settings.line_template
         # The template only applies for the first line in this case, the rest
@@ -1255,10 +1268,11 @@ class DefinitionListItemRenderer(BlockRenderer):
         # TODO: Is a block or line template useful here?
         inner = capitalize_func(content)
         # Only reflow within lines: keep line breaks, and the blocks within the item
-        justified = "\n".join([
-            justify_func(line, width, **justify_args)
-            for line in inner.strip("\n").split("\n")
-        ])
+        justified = self._reflow(
+            inner.strip("\n"),
+            lambda line: justify_func(line, width, **justify_args),
+            first_line=len(inner) - len(inner.lstrip("\n"))
+        )
         just_split = justified.split("\n")
         template = self.settings.line_template
         # The template only applies for the first line in this case, the rest
-- 
2.43.0


From 011be31067d1fe6b6b06d3438fb2e0e3a22b53ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:21 +0000
Subject: [PATCH 70/73] fix: links placed after headings stood inside the
 heading's template

---
 gopher_render/_parser.py   |  4 ++--
 gopher_render/rendering.py | 14 ++++++++++++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index 8ef75c9..222b156 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -405,12 +405,12 @@ class LinkParser(TagParser):
             rendered_children.append(
                 c.render(box)
             )
-        content, self.block_lines = _join_children(
+        self.content, self.block_lines = _join_children(
             self.children,
             rendered_children,
             _is_block(self)
         )
-        rendered_children = [content]
+        rendered_children = [self.content]
 
         if len(self._pending_links):
             rendered_children.append('\n')
diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index 300f95e..b15d5a4 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -483,6 +483,15 @@ class BlockRenderer(Renderer):
             for i, line in enumerate(content.split("\n"), first_line)
         ])
 
+    def _split_links(self, content):
+        """
+        Split the links that were placed after the block from its content.
+        """
+        if not content.startswith(self.tag.content):
+            return content, ""
+        length = len(self.tag.content)
+        return content[:length], content[length:]
+
     def _border_render(self, content):
         box = self.box
         settings = self.settings
@@ -552,6 +561,7 @@ class HeaderRenderer(BlockRenderer):
         box = self.box
         # Exclude the line templates of any blocks around the header
         width = box.inner_width_excluding_line_template
+        text, links = self._split_links(super()._inner_render(content))
         # There can be line breaks in the heading
         lines = settings.template.format(
             "\n".join([
@@ -559,7 +569,7 @@ class HeaderRenderer(BlockRenderer):
                     capitalize_func(line),
                     settings.spread_char,
                     settings.spread
-                ) for line in super()._inner_render(content).split("\n")
+                ) for line in text.split("\n")
             ])
         ).split("\n")
         if settings['underlined']:
@@ -567,7 +577,7 @@ class HeaderRenderer(BlockRenderer):
                 [textwrap._len(line) for line in lines]
             )
             lines.append(settings.underline_char * underline_len)
-        return "\n".join([center_func(line, width) for line in lines])
+        return "\n".join([center_func(line, width) for line in lines]) + links
 
 
 class MarkdownHeaderRenderer(HeaderRenderer):
-- 
2.43.0


From aab895559a4c07a04e67594c6cfeb9f2a1b8143f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:21 +0000
Subject: [PATCH 71/73] fix: the targets of links placed after capitalized
 blocks were turned into capitals

---
 gopher_render/rendering.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index b15d5a4..6eb72db 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -681,7 +681,8 @@ class ParagraphRenderer(BlockRenderer):
             # Nested too deeply for any room to be left to wrap the text in
             justify_func = _noop
         # TODO: Is a block or line template useful here?
-        inner = capitalize_func(content)
+        text, links = self._split_links(content)
+        inner = capitalize_func(text) + links
         #template = settings['template']
         # I think we can safely strip here because the paragraph renderer
         # is expected to reformat its contents...
@@ -1146,7 +1147,8 @@ class ListItemRenderer(BlockRenderer):
             # Nested too deeply for any room to be left to wrap the text in
             justify_func = _noop
         # TODO: Is a block or line template useful here?
-        inner = capitalize_func(content)
+        text, links = self._split_links(content)
+        inner = capitalize_func(text) + links
         # Only reflow within lines: keep line breaks, and the blocks within the item
         justified = self._reflow(
             inner.strip("\n"),
@@ -1276,7 +1278,8 @@ class DefinitionListItemRenderer(BlockRenderer):
             # Nested too deeply for any room to be left to wrap the text in
             justify_func = _noop
         # TODO: Is a block or line template useful here?
-        inner = capitalize_func(content)
+        text, links = self._split_links(content)
+        inner = capitalize_func(text) + links
         # Only reflow within lines: keep line breaks, and the blocks within the item
         justified = self._reflow(
             inner.strip("\n"),
-- 
2.43.0


From e7bfc846987ed7a096a13efcb0d0b2a6250044bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:52 +0000
Subject: [PATCH 72/73] fix: preformatted text in plain elements within list
 items, definitions and paragraphs was wrapped again

---
 gopher_render/_parser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index 222b156..0ed6eaa 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -83,6 +83,9 @@ def _join_children(children, rendered_children, in_block):
                 first + 1 if r.startswith('\n') else first,
                 line_number if r.endswith('\n') else line_number + 1
             ))
+        elif r == c.content:
+            # Nothing was added to the blocks within it
+            block_lines.update(first + n for n in c.block_lines)
         joined += r
         after_block = block
     return joined, block_lines
-- 
2.43.0


From 5a69f50f96949ae9b63ff8ab40f46079f1b5f0ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:39 +0000
Subject: [PATCH 73/73] fix: text on the lines of blocks within inline elements
 was not wrapped

---
 gopher_render/_parser.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index 0ed6eaa..7bd4671 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -83,9 +83,11 @@ def _join_children(children, rendered_children, in_block):
                 first + 1 if r.startswith('\n') else first,
                 line_number if r.endswith('\n') else line_number + 1
             ))
-        elif r == c.content:
-            # Nothing was added to the blocks within it
-            block_lines.update(first + n for n in c.block_lines)
+        elif line_number - first == c.content.count('\n'):
+            # Blocks within an inline element, which share the first and last line
+            block_lines.update(
+                first + n for n in c.block_lines if 0 < n < line_number - first
+            )
         joined += r
         after_block = block
     return joined, block_lines
-- 
2.43.0


From e545029ba4dd70a86504e857b439e0fb13a3b363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:22 +0000
Subject: [PATCH 01/34] fix: attr_escape() must terminate the &quot; reference

---
 creole/emitter/creol2html_emitter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/creole/emitter/creol2html_emitter.py b/creole/emitter/creol2html_emitter.py
index f2da5d4..1618abb 100644
--- a/creole/emitter/creol2html_emitter.py
+++ b/creole/emitter/creol2html_emitter.py
@@ -149,7 +149,7 @@ class HtmlEmitter:
         return escape(text)
 
     def attr_escape(self, text):
-        return self.html_escape(text).replace('"', '&quot')
+        return self.html_escape(text).replace('"', '&quot;')
 
     # *_emit methods for emitting nodes of the document:
 
-- 
2.43.0


From 97c8134a3612549cdb4d9c306557b06ab6e1782b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:42 +0000
Subject: [PATCH 02/34] fix: escape the headlines in the anchors and entries of
 the table of contents

---
 creole/emitter/creol2html_emitter.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/creole/emitter/creol2html_emitter.py b/creole/emitter/creol2html_emitter.py
index 1618abb..c3df050 100644
--- a/creole/emitter/creol2html_emitter.py
+++ b/creole/emitter/creol2html_emitter.py
@@ -65,7 +65,9 @@ class TableOfContent:
         """Convert a python nested list like the one representing the toc to an html equivalent."""
         indent = "\t" * level
         if isinstance(nested_headlines, str):
-            return f'{indent}<li><a href="#{nested_headlines}">{nested_headlines}</a></li>\n'
+            text = escape(nested_headlines)
+            anchor = text.replace('"', '&quot;')
+            return f'{indent}<li><a href="#{anchor}">{text}</a></li>\n'
         elif isinstance(nested_headlines, list):
             html = f'{indent}<ul>\n'
             for elt in nested_headlines:
@@ -248,7 +250,7 @@ class HtmlEmitter:
         if self.toc is not None:
             self.toc.add_headline(node.level, node.content)
             # add link attribute for toc navigation
-            header = f'<a name="{self.html_escape(node.content)}">{header}</a>'
+            header = f'<a name="{self.attr_escape(node.content)}">{header}</a>'
 
         header += "\n"
         return header
-- 
2.43.0


From 0ce9339c2b3da7d181e456e6978b5674ca45e685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:22 +0000
Subject: [PATCH 03/34] fix: escape the error text and the returned object in
 macro error notices

---
 creole/emitter/creol2html_emitter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/creole/emitter/creol2html_emitter.py b/creole/emitter/creol2html_emitter.py
index c3df050..f1742e0 100644
--- a/creole/emitter/creol2html_emitter.py
+++ b/creole/emitter/creol2html_emitter.py
@@ -323,7 +323,7 @@ class HtmlEmitter:
         try:
             result = macro(**macro_kwargs)
         except TypeError as err:
-            msg = f"Macro '{macro_name}' error: {err}"
+            msg = f"Macro '{macro_name}' error: {self.html_escape(str(err))}"
             exc_info = sys.exc_info()
             if self.verbose > 1:
                 if self.verbose > 2:
@@ -350,14 +350,14 @@ class HtmlEmitter:
             return self.error(msg, exc_info)
         except Exception as err:
             return self.error(
-                f"Macro '{macro_name}' error: {err}",
+                f"Macro '{macro_name}' error: {self.html_escape(str(err))}",
                 exc_info=sys.exc_info()
             )
 
         if not isinstance(result, str):
             msg = f"Macro '{macro_name}' doesn't return a unicode string!"
             if self.verbose > 1:
-                msg += f" - returns: {result!r}, type {type(result)!r}"
+                msg += self.html_escape(f" - returns: {result!r}, type {type(result)!r}")
             return self.error(msg)
 
         if node.kind == "macro_block":
-- 
2.43.0


From 6e4b06fdb52c310faf522c4f4a8bbabd12ab5bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:26 +0000
Subject: [PATCH 04/34] fix: escape the image target that is used as title

---
 creole/emitter/creol2html_emitter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/creole/emitter/creol2html_emitter.py b/creole/emitter/creol2html_emitter.py
index f1742e0..2e46696 100644
--- a/creole/emitter/creol2html_emitter.py
+++ b/creole/emitter/creol2html_emitter.py
@@ -275,7 +275,7 @@ class HtmlEmitter:
                 if "|" in text:
                     title, size_str = text.split("|", 1)
                     if not title:
-                        title = target
+                        title = self.attr_escape(target)
                     w_str, h_str = size_str.split("x", 1)
                     width = int(w_str.strip())
                     height = int(h_str.strip())
-- 
2.43.0


From e9b4ae9e32e30eefee95f996bc14b7bd3bfec2bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:30 +0000
Subject: [PATCH 05/34] fix: report a <<toc>> depth that is not a number
 instead of failing on the next headline

---
 creole/emitter/creol2html_emitter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/creole/emitter/creol2html_emitter.py b/creole/emitter/creol2html_emitter.py
index 2e46696..8aabfd0 100644
--- a/creole/emitter/creol2html_emitter.py
+++ b/creole/emitter/creol2html_emitter.py
@@ -27,9 +27,11 @@ class TableOfContent:
         if self._created:
             return "&lt;&lt;toc&gt;&gt;"
 
-        self._created = True
         if depth is not None:
+            if not isinstance(depth, int):
+                raise TypeError(f"depth must be a number, not {depth!r}")
             self.max_depth = depth
+        self._created = True
 
         return '<<toc>>'
 
-- 
2.43.0


From 82d4c67965017feaea474e98f75fc4b60e3cf4c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:35 +0000
Subject: [PATCH 06/34] fix: the <<toc>> depth must hold for headlines before
 the <<toc>>, too

---
 creole/emitter/creol2html_emitter.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/creole/emitter/creol2html_emitter.py b/creole/emitter/creol2html_emitter.py
index 8aabfd0..668eef9 100644
--- a/creole/emitter/creol2html_emitter.py
+++ b/creole/emitter/creol2html_emitter.py
@@ -37,10 +37,9 @@ class TableOfContent:
 
     def add_headline(self, level, content):
         """Add the current header to the toc."""
-        if self.max_depth is None or level <= self.max_depth:
-            self.headlines.append(
-                (level, content)
-            )
+        self.headlines.append(
+            (level, content)
+        )
 
     def flat_list2nest_list(self, flat_list):
         # this func code based on borrowed code from EyDu, Thanks!
@@ -81,7 +80,11 @@ class TableOfContent:
 
     def emit(self, document):
         """Emit the toc where the <<toc>> macro was."""
-        nested_headlines = self.flat_list2nest_list(self.headlines)
+        # The depth is known here for the headlines before the <<toc>>, too.
+        nested_headlines = self.flat_list2nest_list([
+            (level, content) for level, content in self.headlines
+            if self.max_depth is None or level <= self.max_depth
+        ])
         html = self.nested_headlines2html(nested_headlines)
 
         # FIXME: We should not use <p> here, because it doesn't match
-- 
2.43.0


From 41841f0704a16bce19a90e8f483caa37fc33a931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:55 +0000
Subject: [PATCH 07/34] fix: don't store the TableOfContent in the macros of
 the caller

---
 creole/emitter/creol2html_emitter.py | 37 ++++++++++++++--------------
 1 file changed, 19 insertions(+), 18 deletions(-)

diff --git a/creole/emitter/creol2html_emitter.py b/creole/emitter/creol2html_emitter.py
index 668eef9..024a4f5 100644
--- a/creole/emitter/creol2html_emitter.py
+++ b/creole/emitter/creol2html_emitter.py
@@ -120,18 +120,16 @@ class HtmlEmitter:
             # The document has no <<toc>>
             self.toc = None
         else:
-            if isinstance(self.macros, dict):
-                if "toc" in self.macros:
-                    self.toc = self.macros["toc"]
-                else:
-                    self.toc = TableOfContent()
-                    self.macros["toc"] = self.toc
+            # Don't store the TableOfContent in the given macros: The caller
+            # can use them for more than one document.
+            try:
+                self.toc = self._get_macro("toc")
+            except (KeyError, AttributeError):
+                self.toc = TableOfContent()
             else:
-                try:
-                    self.toc = getattr(self.macros, "toc")
-                except AttributeError:
-                    self.toc = TableOfContent()
-                    self.macros.toc = self.toc
+                if not hasattr(self.toc, "add_headline"):
+                    # a own "toc" macro that is not a TableOfContent
+                    self.toc = None
 
         if verbose is None:
             self.verbose = 1
@@ -145,6 +143,12 @@ class HtmlEmitter:
 
         self.strict = strict
 
+    def _get_macro(self, name):
+        if isinstance(self.macros, dict):
+            return self.macros[name]
+        else:
+            return getattr(self.macros, name)
+
     def get_text(self, node):
         """Try to emit whatever text is in the node."""
         try:
@@ -308,15 +312,12 @@ class HtmlEmitter:
         macro_kwargs["text"] = text
 
         exc_info = None
-        if isinstance(self.macros, dict):
-            try:
-                macro = self.macros[macro_name]
-            except KeyError:
-                exc_info = sys.exc_info()
+        if macro_name == "toc" and self.toc is not None:
+            macro = self.toc
         else:
             try:
-                macro = getattr(self.macros, macro_name)
-            except AttributeError:
+                macro = self._get_macro(macro_name)
+            except (KeyError, AttributeError):
                 exc_info = sys.exc_info()
 
         if macro is None:
-- 
2.43.0


From 63ff4fd5d52f01d2584d7ec5992616ff2e1c7498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:20 +0000
Subject: [PATCH 08/34] fix: a TypeError subclass raised by a macro must not
 break the verbose=2 notice

---
 creole/emitter/creol2html_emitter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/creole/emitter/creol2html_emitter.py b/creole/emitter/creol2html_emitter.py
index 024a4f5..732c372 100644
--- a/creole/emitter/creol2html_emitter.py
+++ b/creole/emitter/creol2html_emitter.py
@@ -346,12 +346,12 @@ class HtmlEmitter:
                     try:
                         sourceline = inspect.getsourcelines(macro)[0][0].strip()
                     except OSError as err:
-                        evalue = etype(
+                        evalue = TypeError(
                             f"{evalue} (error getting sourceline: {err} from {filename})"
                         )
                     else:
-                        evalue = etype(f"{evalue} (sourceline: {sourceline!r} from {filename})")
-                    exc_info = etype, evalue, etb
+                        evalue = TypeError(f"{evalue} (sourceline: {sourceline!r} from {filename})")
+                    exc_info = TypeError, evalue, etb
 
             return self.error(msg, exc_info)
         except Exception as err:
-- 
2.43.0


From a364371e9e459111342bdd00d1781d17e136c8f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:25 +0000
Subject: [PATCH 09/34] fix: a stray end tag must not drop the rest of the
 document

---
 creole/parser/html_parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/creole/parser/html_parser.py b/creole/parser/html_parser.py
index 0b8e171..61b229c 100644
--- a/creole/parser/html_parser.py
+++ b/creole/parser/html_parser.py
@@ -246,9 +246,9 @@ class HtmlParser(HTMLParser):
         if tag in ("ul", "ol"):
             self.__list_level -= 1
 
-        if tag in BLOCK_TAGS or self.cur is None:
+        if tag in BLOCK_TAGS:
             self._go_up()
-        else:
+        elif self.cur.parent is not None:
             self.cur = self.cur.parent
 
     # -------------------------------------------------------------------------
-- 
2.43.0


From e3e91c268c2249bd9ea50416ab4563cd5c928d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:30 +0000
Subject: [PATCH 10/34] fix: close the html parser, so that the text at the end
 of the document is not lost

---
 creole/parser/html_parser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/creole/parser/html_parser.py b/creole/parser/html_parser.py
index 61b229c..ccabbac 100644
--- a/creole/parser/html_parser.py
+++ b/creole/parser/html_parser.py
@@ -154,6 +154,7 @@ class HtmlParser(HTMLParser):
             print("-" * 79)
 
         HTMLParser.feed(self, data)
+        self.close()  # handle buffered data at the end, too
 
         return self.root
 
-- 
2.43.0


From cfd00aee02aaf044b8f7468109c201b7c4e08508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:34 +0000
Subject: [PATCH 11/34] fix: unknown and out of range character references must
 not break the conversion

---
 creole/html_tools/deentity.py | 10 +++++++---
 creole/shared/base_emitter.py | 18 +++++++++++-------
 2 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/creole/html_tools/deentity.py b/creole/html_tools/deentity.py
index 16a7dfa..6350b2b 100644
--- a/creole/html_tools/deentity.py
+++ b/creole/html_tools/deentity.py
@@ -14,8 +14,8 @@ from html import entities
 
 entities_rules = '|'.join([
     r"(&\#(?P<number>\d+);)",
-    r"(&\#x(?P<hex>[a-fA-F0-9]+);)",
-    r"(&(?P<named>[a-zA-Z]+);)",
+    r"(&\#[xX](?P<hex>[a-fA-F0-9]+);)",
+    r"(&(?P<named>[a-zA-Z][a-zA-Z0-9]*);)",
 ])
 # print(entities_rules)
 entities_regex = re.compile(
@@ -68,7 +68,11 @@ class Deentity:
             for name, text in groups.items():
                 if text is not None:
                     replace_method = getattr(self, f'replace_{name}')
-                    return replace_method(text)
+                    try:
+                        return replace_method(text)
+                    except (KeyError, ValueError, OverflowError):
+                        # unknown entity or not a unicode number
+                        return match.group(0)
 
             # Should never happen:
             raise RuntimeError("deentitfy re rules wrong!")
diff --git a/creole/shared/base_emitter.py b/creole/shared/base_emitter.py
index 35d7f88..0e2fcaa 100644
--- a/creole/shared/base_emitter.py
+++ b/creole/shared/base_emitter.py
@@ -69,13 +69,17 @@ class BaseEmitter:
         """
         entity = node.content
 
-        if entity.startswith("x"):
-            # entity in hex
-            hex_no = entity[1:]
-            return self.deentity.replace_hex(hex_no)
-        else:
-            # entity as a unicode number
-            return self.deentity.replace_number(entity)
+        try:
+            if entity.startswith(("x", "X")):
+                # entity in hex
+                hex_no = entity[1:]
+                return self.deentity.replace_hex(hex_no)
+            else:
+                # entity as a unicode number
+                return self.deentity.replace_number(entity)
+        except (ValueError, OverflowError):
+            # not a unicode number
+            return f"&#{entity};"
 
     # --------------------------------------------------------------------------
 
-- 
2.43.0


From 9b9a250d973963d78a17aca2d6909243580ddb70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:08 +0000
Subject: [PATCH 12/34] fix: links without href, images without src and
 attributes without value must not break the conversion

---
 creole/emitter/html2creole_emitter.py   | 2 +-
 creole/emitter/html2markdown_emitter.py | 6 +++++-
 creole/emitter/html2rest_emitter.py     | 6 +++++-
 creole/emitter/html2textile_emitter.py  | 6 +++++-
 creole/parser/html_parser.py            | 7 +++++++
 5 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/creole/emitter/html2creole_emitter.py b/creole/emitter/html2creole_emitter.py
index d745fe3..d2daa02 100644
--- a/creole/emitter/html2creole_emitter.py
+++ b/creole/emitter/html2creole_emitter.py
@@ -108,7 +108,7 @@ class CreoleEmitter(BaseEmitter):
             return f"[[{url}|{link_text}]]"
 
     def img_emit(self, node):
-        src = node.attrs["src"]
+        src = node.attrs.get("src", "")
 
         if src.split(':')[0] == 'data':
             return ""
diff --git a/creole/emitter/html2markdown_emitter.py b/creole/emitter/html2markdown_emitter.py
index b9bf8a0..def7e84 100644
--- a/creole/emitter/html2markdown_emitter.py
+++ b/creole/emitter/html2markdown_emitter.py
@@ -150,6 +150,10 @@ class MarkdownEmitter(BaseEmitter):
     def a_emit(self, node: DocNode):
         link_text = self.emit_children(node)
 
+        if 'href' not in node.attrs:
+            # e.g.: <a name="anchor-one">foo</a>
+            return link_text
+
         url = quote_link(node.attrs['href'])
 
         title = node.attrs.get('title')
@@ -159,7 +163,7 @@ class MarkdownEmitter(BaseEmitter):
             return f'[{link_text}]({url})'
 
     def img_emit(self, node: DocNode):
-        src = quote_link(node.attrs['src'])
+        src = quote_link(node.attrs.get('src', ''))
 
         title = node.attrs.get('title')
         alt = node.attrs.get('alt', '')
diff --git a/creole/emitter/html2rest_emitter.py b/creole/emitter/html2rest_emitter.py
index 64891ca..985abbf 100644
--- a/creole/emitter/html2rest_emitter.py
+++ b/creole/emitter/html2rest_emitter.py
@@ -203,6 +203,10 @@ class ReStructuredTextEmitter(BaseEmitter):
 
     def a_emit(self, node):
         link_text = self.emit_children(node)
+        if "href" not in node.attrs:
+            # e.g.: <a name="anchor-one">foo</a>
+            return link_text
+
         url = node.attrs["href"]
 
         old_url = self._get_old_substitution(self._used_substitution_links, link_text, url)
@@ -224,7 +228,7 @@ class ReStructuredTextEmitter(BaseEmitter):
             return f"`{link_text} <{url}>`_"
 
     def img_emit(self, node):
-        src = node.attrs["src"]
+        src = node.attrs.get("src", "")
 
         if src.split(':')[0] == 'data':
             return ""
diff --git a/creole/emitter/html2textile_emitter.py b/creole/emitter/html2textile_emitter.py
index 89623d4..24c6dd6 100644
--- a/creole/emitter/html2textile_emitter.py
+++ b/creole/emitter/html2textile_emitter.py
@@ -96,11 +96,15 @@ class TextileEmitter(BaseEmitter):
 
     def a_emit(self, node):
         link_text = self.emit_children(node)
+        if "href" not in node.attrs:
+            # e.g.: <a name="anchor-one">foo</a>
+            return link_text
+
         url = node.attrs["href"]
         return f'"{link_text}":{url}'
 
     def img_emit(self, node):
-        src = node.attrs["src"]
+        src = node.attrs.get("src", "")
 
         if src.split(':')[0] == 'data':
             return ""
diff --git a/creole/parser/html_parser.py b/creole/parser/html_parser.py
index ccabbac..6137843 100644
--- a/creole/parser/html_parser.py
+++ b/creole/parser/html_parser.py
@@ -180,12 +180,18 @@ class HtmlParser(HTMLParser):
 
     # -------------------------------------------------------------------------
 
+    def _clean_attrs(self, attrs):
+        # The value of an attribute without a value is None, e.g.: <img alt>
+        return [(name, value or "") for name, value in attrs]
+
     def handle_starttag(self, tag, attrs):
         self.debug_msg("starttag", f"{tag!r} atts: {attrs}")
 
         if tag in IGNORE_TAGS:
             return
 
+        attrs = self._clean_attrs(attrs)
+
         headline = headline_tag_re.match(tag)
         if headline:
             self.cur = DocNode(
@@ -220,6 +226,7 @@ class HtmlParser(HTMLParser):
 
     def handle_startendtag(self, tag, attrs):
         self.debug_msg("startendtag", f"{tag!r} atts: {attrs}")
+        attrs = self._clean_attrs(attrs)
         attr_dict = dict(attrs)
         if tag in (self._block_placeholder, self._inline_placeholder):
             id = int(attr_dict["id"])
-- 
2.43.0


From d3235d9a7f88dac66946a3c92457ab22628ed861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:12 +0000
Subject: [PATCH 13/34] fix: html2markdown must accept links that are not a
 valid URL

---
 creole/emitter/html2markdown_emitter.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/creole/emitter/html2markdown_emitter.py b/creole/emitter/html2markdown_emitter.py
index def7e84..8dd5397 100644
--- a/creole/emitter/html2markdown_emitter.py
+++ b/creole/emitter/html2markdown_emitter.py
@@ -24,8 +24,11 @@ def quote_link(uri):
     >>> quote_link('https://foo.tld/a image.png?bar=1#anchor')
     'https://foo.tld/a%20image.png?bar=1#anchor'
     """
-    scheme, netloc, url, params, query, fragment = urlparse(uri)
-    url = quote(url)
+    try:
+        scheme, netloc, url, params, query, fragment = urlparse(uri)
+        url = quote(url)
+    except ValueError:  # e.g.: 'http://[foo'
+        return uri
     return urlunparse(ParseResult(scheme, netloc, url, params, query, fragment))
 
 
-- 
2.43.0


From 0cd55215ba37c70f1d8a7242179ef4a7232c18fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:19 +0000
Subject: [PATCH 14/34] fix: table cells outside of tables, nested tables and
 content outside of the cells

---
 creole/emitter/html2markdown_emitter.py | 26 +++++----------
 creole/emitter/html2rest_emitter.py     |  7 ++--
 creole/shared/base_emitter.py           | 44 +++++++++++++++++--------
 3 files changed, 43 insertions(+), 34 deletions(-)

diff --git a/creole/emitter/html2markdown_emitter.py b/creole/emitter/html2markdown_emitter.py
index 8dd5397..63229d4 100644
--- a/creole/emitter/html2markdown_emitter.py
+++ b/creole/emitter/html2markdown_emitter.py
@@ -48,23 +48,15 @@ class MarkdownEmitter(BaseEmitter):
 
     # --------------------------------------------------------------------------
     def table_emit(self, node):
-        self._table = MarkupTable(head_prefix='', debug_msg=self.debug_msg)
-        self.emit_children(node)
-        content = self._table.get_markdown_table()
-        return f'\n{content}\n'
-
-    def tr_emit(self, node):
-        self._table.add_tr()
-        self.emit_children(node)
-        return ''
-
-    def th_emit(self, node):
-        self._table.add_th(self.emit_children(node))
-        return ''
-
-    def td_emit(self, node):
-        self._table.add_td(self.emit_children(node))
-        return ''
+        table = MarkupTable(head_prefix='', debug_msg=self.debug_msg)
+        content = self._fill_table(node, table)
+        return f'\n{content}{table.get_markdown_table()}\n'
+
+    def _emit_cell(self, node):
+        # a table row must be one line
+        lines = [line.strip() for line in self.emit_children(node).split('\n')]
+        return ' '.join(line for line in lines if line)
+
     # --------------------------------------------------------------------------
 
     def blockdata_pre_emit(self, node: DocNode):
diff --git a/creole/emitter/html2rest_emitter.py b/creole/emitter/html2rest_emitter.py
index 985abbf..3a71fc1 100644
--- a/creole/emitter/html2rest_emitter.py
+++ b/creole/emitter/html2rest_emitter.py
@@ -286,11 +286,10 @@ class ReStructuredTextEmitter(BaseEmitter):
         """
         http://docutils.sourceforge.net/docs/ref/rst/restructuredtext.html#tables
         """
-        self._table = MarkupTable(
+        table = MarkupTable(
             head_prefix="",
             auto_width=True,
             debug_msg=self.debug_msg
         )
-        self.emit_children(node)
-        content = self._table.get_rest_table()
-        return f"{content}\n\n"
+        content = self._fill_table(node, table)
+        return f"{content}{table.get_rest_table()}\n\n"
diff --git a/creole/shared/base_emitter.py b/creole/shared/base_emitter.py
index 0e2fcaa..75f2606 100644
--- a/creole/shared/base_emitter.py
+++ b/creole/shared/base_emitter.py
@@ -34,6 +34,7 @@ class BaseEmitter:
         self.deentity = Deentity()  # for replacing html entities
         self._inner_list = ""
         self._mask_linebreak = False
+        self._table = None  # the MarkupTable of the current table
 
     # --------------------------------------------------------------------------
 
@@ -128,20 +129,32 @@ class BaseEmitter:
 
     # --------------------------------------------------------------------------
 
+    def _fill_table(self, node, table):
+        """
+        Put the cells of the table node into the given MarkupTable.
+        Returns the content outside of the cells, e.g. of <caption>
+        """
+        outer_table = self._table
+        self._table = table
+        content = self.emit_children(node).strip()
+        self._table = outer_table
+        if content:
+            content = f"{content}\n\n"
+        return content
+
     def table_emit(self, node):
-        self._table = MarkupTable(
+        table = MarkupTable(
             head_prefix=self.table_head_prefix,
             auto_width=self.table_auto_width,
             debug_msg=self.debug_msg
         )
-        self.emit_children(node)
-        content = self._table.get_table_markup()
-        return f"{content}\n"
+        content = self._fill_table(node, table)
+        return f"{content}{table.get_table_markup()}\n"
 
     def tr_emit(self, node):
-        self._table.add_tr()
-        self.emit_children(node)
-        return ""
+        if self._table is not None:
+            self._table.add_tr()
+        return self.emit_children(node)
 
     def _escape_linebreaks(self, text):
         text = text.strip()
@@ -152,16 +165,21 @@ class BaseEmitter:
         content = content.strip("\\")
         return content
 
+    def _emit_cell(self, node):
+        return self._escape_linebreaks(self.emit_children(node))
+
     def th_emit(self, node):
-        content = self.emit_children(node)
-        content = self._escape_linebreaks(content)
-        self._table.add_th(content)
+        if self._table is None:
+            # a cell outside of a table
+            return self._emit_content(node)
+        self._table.add_th(self._emit_cell(node))
         return ""
 
     def td_emit(self, node):
-        content = self.emit_children(node)
-        content = self._escape_linebreaks(content)
-        self._table.add_td(content)
+        if self._table is None:
+            # a cell outside of a table
+            return self._emit_content(node)
+        self._table.add_td(self._emit_cell(node))
         return ""
 
     # --------------------------------------------------------------------------
-- 
2.43.0


From 14e37bb5f6b06436b4b000680b005068aca0110b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:23 +0000
Subject: [PATCH 15/34] fix: table rows with a different number of cells must
 not lose cells

---
 README.md                     |  8 ++++----
 README.rst                    | 18 +++++++++---------
 creole/shared/markup_table.py |  5 +++++
 3 files changed, 18 insertions(+), 13 deletions(-)

diff --git a/README.md b/README.md
index 047689f..5c33262 100644
--- a/README.md
+++ b/README.md
@@ -21,10 +21,10 @@ Existing converters:
 
 The creole2html part based on the creole markup parser and emitter from the MoinMoin project by Radomir Dopieralski and Thomas Waldmann.
 
-| ![Build Status on github](https://github.com/jedie/python-creole/workflows/test/badge.svg?branch=master "Build Status on github") |
-| ![Coverage Status on coveralls.io](https://coveralls.io/repos/jedie/python-creole/badge.svg "Coverage Status on coveralls.io")    |
-| ![Status on landscape.io](https://landscape.io/github/jedie/python-creole/main/landscape.svg "Status on landscape.io")            |
-| ![PyPi version](https://badge.fury.io/py/python-creole.svg "PyPi version")                                                        |
+| ![Build Status on github](https://github.com/jedie/python-creole/workflows/test/badge.svg?branch=master "Build Status on github") |                                                                                                          |
+| ![Coverage Status on coveralls.io](https://coveralls.io/repos/jedie/python-creole/badge.svg "Coverage Status on coveralls.io")    | [coveralls.io/r/jedie/python-creole](https://coveralls.io/r/jedie/python-creole)                         |
+| ![Status on landscape.io](https://landscape.io/github/jedie/python-creole/main/landscape.svg "Status on landscape.io")            | [landscape.io/github/jedie/python-creole/master](https://landscape.io/github/jedie/python-creole/master) |
+| ![PyPi version](https://badge.fury.io/py/python-creole.svg "PyPi version")                                                        | [pypi.org/project/python-creole/](https://pypi.org/project/python-creole/)                               |
 
 # install
 
diff --git a/README.rst b/README.rst
index 4f70129..bdadc7e 100644
--- a/README.rst
+++ b/README.rst
@@ -27,15 +27,15 @@ Existing converters:
 
 The creole2html part based on the creole markup parser and emitter from the MoinMoin project by Radomir Dopieralski and Thomas Waldmann.
 
-+-----------------------------------+
-| |Build Status on github|          |
-+-----------------------------------+
-| |Coverage Status on coveralls.io| |
-+-----------------------------------+
-| |Status on landscape.io|          |
-+-----------------------------------+
-| |PyPi version|                    |
-+-----------------------------------+
++-----------------------------------+---------------------------------------------------+
+| |Build Status on github|          |                                                   |
++-----------------------------------+---------------------------------------------------+
+| |Coverage Status on coveralls.io| | `coveralls.io/r/jedie/python-creole`_             |
++-----------------------------------+---------------------------------------------------+
+| |Status on landscape.io|          | `landscape.io/github/jedie/python-creole/master`_ |
++-----------------------------------+---------------------------------------------------+
+| |PyPi version|                    | `pypi.org/project/python-creole/`_                |
++-----------------------------------+---------------------------------------------------+
 
 .. |Build Status on github| image:: https://github.com/jedie/python-creole/workflows/test/badge.svg?branch=master
 .. |Coverage Status on coveralls.io| image:: https://coveralls.io/repos/jedie/python-creole/badge.svg
diff --git a/creole/shared/markup_table.py b/creole/shared/markup_table.py
index 70611c2..e699017 100644
--- a/creole/shared/markup_table.py
+++ b/creole/shared/markup_table.py
@@ -50,6 +50,11 @@ class MarkupTable:
                 line_cells.append(cell)
             cells.append(line_cells)
 
+        # Fill up short rows, so that every row has the same number of cells
+        column_count = max(map(len, cells), default=0)
+        for line_cells in cells:
+            line_cells.extend([""] * (column_count - len(line_cells)))
+
         # Build a list of max len for every column
         widths = [max(map(len, col)) for col in zip(*cells)]
 
-- 
2.43.0


From 71e0d2145e0c70288296bd765932254943dd6a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:48 +0000
Subject: [PATCH 16/34] fix: unknown tags named like a internal node or like a
 headline must not break the conversion

---
 creole/emitter/html2markdown_emitter.py |  5 ++---
 creole/parser/html_parser.py            |  2 +-
 creole/shared/base_emitter.py           | 13 +++++++++++++
 3 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/creole/emitter/html2markdown_emitter.py b/creole/emitter/html2markdown_emitter.py
index 63229d4..dcce758 100644
--- a/creole/emitter/html2markdown_emitter.py
+++ b/creole/emitter/html2markdown_emitter.py
@@ -169,14 +169,13 @@ class MarkdownEmitter(BaseEmitter):
 
     # --------------------------------------------------------------------------
 
-    def list_emit(self, node: DocNode):
+    def ul_emit(self, node: DocNode):
         content = self.emit_children(node)
         if node.level == 1:
             return f'\n{content}\n'
         return content
 
-    ul_emit = list_emit
-    ol_emit = list_emit
+    ol_emit = ul_emit
 
     def li_emit(self, node: DocNode):
         list_level = node.level
diff --git a/creole/parser/html_parser.py b/creole/parser/html_parser.py
index 6137843..f5bf1c2 100644
--- a/creole/parser/html_parser.py
+++ b/creole/parser/html_parser.py
@@ -35,7 +35,7 @@ inline_re = re.compile(r'''
 ''', re.VERBOSE | re.UNICODE)
 
 
-headline_tag_re = re.compile(r"h(\d)", re.UNICODE)
+headline_tag_re = re.compile(r"h([1-6])$", re.UNICODE)
 
 # ------------------------------------------------------------------------------
 
diff --git a/creole/shared/base_emitter.py b/creole/shared/base_emitter.py
index 75f2606..fa37c4f 100644
--- a/creole/shared/base_emitter.py
+++ b/creole/shared/base_emitter.py
@@ -14,6 +14,13 @@ from creole.shared.markup_table import MarkupTable
 from creole.shared.unknown_tags import transparent_unknown_nodes
 
 
+# Kinds of the nodes that the parser creates by itself. A html tag can have the same name:
+INTERNAL_KINDS = (
+    "document", "headline", "data", "charref", "entityref",
+    "blockdata_pre", "blockdata_pass", "inlinedata_pre",
+)
+
+
 class BaseEmitter:
     """
     Build from a document_tree (html2creole.parser.HtmlParser instance) a
@@ -233,6 +240,12 @@ class BaseEmitter:
         method_name = f"{node.kind}_emit"
         emit_method = getattr(self, method_name, None)
 
+        if node.kind in INTERNAL_KINDS and (
+            node.content is None and node.level is None and node is not self.root
+        ):
+            # A tag with the name of a internal node kind, e.g.: <data>
+            emit_method = None
+
         if emit_method:
             content = emit_method(node)
             if not isinstance(content, str):
-- 
2.43.0


From 4293a20b22e5a490b37030824ba28523b5ba7426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:52 +0000
Subject: [PATCH 17/34] fix: <blockdata /> and <inlinedata /> tags in the html
 source must not break the conversion

---
 creole/parser/html_parser.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/creole/parser/html_parser.py b/creole/parser/html_parser.py
index f5bf1c2..229637b 100644
--- a/creole/parser/html_parser.py
+++ b/creole/parser/html_parser.py
@@ -74,6 +74,11 @@ class HtmlParser(HTMLParser):
     # placeholder html tag for pre cutout areas:
     _block_placeholder = "blockdata"
     _inline_placeholder = "inlinedata"
+    _placeholder_kinds = {
+        ("blockdata", "pre"): "blockdata_pre",
+        ("blockdata", "pass"): "blockdata_pass",
+        ("inlinedata", "pre"): "inlinedata_pre",
+    }
 
     def __init__(self, debug=False):
         super().__init__(convert_charrefs=False)
@@ -229,16 +234,16 @@ class HtmlParser(HTMLParser):
         attrs = self._clean_attrs(attrs)
         attr_dict = dict(attrs)
         if tag in (self._block_placeholder, self._inline_placeholder):
-            id = int(attr_dict["id"])
-#            block_type = attr_dict["type"]
-            DocNode(
-                f"{tag}_{attr_dict['type']}",
-                self.cur,
-                content=self.blockdata[id],
-                #                attrs = attr_dict
-            )
-        else:
-            DocNode(tag, self.cur, None, attrs)
+            try:
+                content = self.blockdata[int(attr_dict["id"])]
+                kind = self._placeholder_kinds[tag, attr_dict["type"]]
+            except (KeyError, IndexError, ValueError):
+                pass  # not created by _pre_cut()
+            else:
+                DocNode(kind, self.cur, content=content)
+                return
+
+        DocNode(tag, self.cur, None, attrs)
 
     def handle_endtag(self, tag):
         if tag in IGNORE_TAGS:
-- 
2.43.0


From 4db41d18fa199883ff5a76910f2e6c12f7141d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:57 +0000
Subject: [PATCH 18/34] fix: html2markdown must accept list items outside of
 lists

---
 creole/emitter/html2markdown_emitter.py | 10 +++++-----
 creole/parser/html_parser.py            |  2 +-
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/creole/emitter/html2markdown_emitter.py b/creole/emitter/html2markdown_emitter.py
index dcce758..a9207ec 100644
--- a/creole/emitter/html2markdown_emitter.py
+++ b/creole/emitter/html2markdown_emitter.py
@@ -181,13 +181,13 @@ class MarkdownEmitter(BaseEmitter):
         list_level = node.level
 
         list_node = node.parent
-        list_kind = list_node.kind
-        if list_kind == 'ul':
-            prefix = '*'
-        elif list_kind == 'ol':
+        while list_node is not self.root and list_node.kind not in ('ul', 'ol'):
+            list_node = list_node.parent
+
+        if list_node.kind == 'ol':
             prefix = '1.'
         else:
-            raise NotImplementedError(f'List type: {list_kind}')
+            prefix = '*'
 
         indent = '  ' * (list_level - 1)
 
diff --git a/creole/parser/html_parser.py b/creole/parser/html_parser.py
index 229637b..6707f98 100644
--- a/creole/parser/html_parser.py
+++ b/creole/parser/html_parser.py
@@ -256,7 +256,7 @@ class HtmlParser(HTMLParser):
 
         self.debug_msg("starttag", f"{self.get_starttag_text()!r}")
 
-        if tag in ("ul", "ol"):
+        if tag in ("ul", "ol") and self.__list_level > 0:
             self.__list_level -= 1
 
         if tag in BLOCK_TAGS:
-- 
2.43.0


From dc8102ed549bcac1c8a1915d21fc831a08d3a6c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:30 +0000
Subject: [PATCH 19/34] fix: html2markdown must keep the whole text of
 <pre><code> and must not turn on debug

---
 creole/emitter/html2markdown_emitter.py | 32 ++++++++++++++++---------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/creole/emitter/html2markdown_emitter.py b/creole/emitter/html2markdown_emitter.py
index a9207ec..24b95b7 100644
--- a/creole/emitter/html2markdown_emitter.py
+++ b/creole/emitter/html2markdown_emitter.py
@@ -63,24 +63,34 @@ class MarkdownEmitter(BaseEmitter):
         """pre block -> with newline at the end"""
         return f'```{self.deentity.replace_all(node.content)}```\n'
 
+    def _get_text(self, node: DocNode):
+        """the text of all child nodes without any markup"""
+        if node.kind == 'data' and node.content is not None:
+            return node.content
+        elif node.content is not None:  # entityref, charref
+            return self.emit_node(node)
+        return ''.join(self._get_text(child) for child in node.children)
+
     def inlinedata_pre_emit(self, node: DocNode):
         """a pre inline block -> no newline at the end"""
         pre_content = node.content
 
         if pre_content.endswith('</code>'):
             # TODO: The parser should parse this!
-            p = HtmlParser(debug=True)
+            p = HtmlParser()
             root_node: DocNode = p.feed(pre_content, preprocess=False)
-            code_node: DocNode = root_node.children[0]
-            code = self.deentity.replace_all(code_node.children[0].content)
-
-            class_value = code_node.attrs.get('class')
-            if class_value:
-                if class_value.startswith('language-'):
-                    language = class_value.partition('-')[2]
-                    return f'\n```{language}{code}```\n'
-
-            return f'\n```{code}```\n'
+            nodes = root_node.children
+            if len(nodes) == 1 and nodes[0].kind == 'code':
+                code_node: DocNode = nodes[0]
+                code = self._get_text(code_node)
+
+                class_value = code_node.attrs.get('class')
+                if class_value:
+                    if class_value.startswith('language-'):
+                        language = class_value.partition('-')[2]
+                        return f'\n```{language}{code}```\n'
+
+                return f'\n```{code}```\n'
 
         return f'\n```{self.deentity.replace_all(pre_content)}```\n'
 
-- 
2.43.0


From b27384299b6be4c88165986056d9b1cfe80b66d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:35 +0000
Subject: [PATCH 20/34] fix: html2rest list items after a nested list must keep
 their marker

---
 creole/emitter/html2rest_emitter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/creole/emitter/html2rest_emitter.py b/creole/emitter/html2rest_emitter.py
index 3a71fc1..a35b469 100644
--- a/creole/emitter/html2rest_emitter.py
+++ b/creole/emitter/html2rest_emitter.py
@@ -266,8 +266,10 @@ class ReStructuredTextEmitter(BaseEmitter):
         return result
 
     def _list_emit(self, node, list_type):
+        outer_markup = self._list_markup
         self._list_markup = list_type
         content = self.emit_children(node)
+        self._list_markup = outer_markup
 
         if node.level == 1:
             # FIXME: This should be made ​​easier and better
-- 
2.43.0


From cdd4111f6ade5811dafcffff12e6c07d5dfcc5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:40 +0000
Subject: [PATCH 21/34] fix: html2rest must define a reference with an empty
 target only once

---
 creole/emitter/html2rest_emitter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/creole/emitter/html2rest_emitter.py b/creole/emitter/html2rest_emitter.py
index a35b469..ca7676b 100644
--- a/creole/emitter/html2rest_emitter.py
+++ b/creole/emitter/html2rest_emitter.py
@@ -213,14 +213,14 @@ class ReStructuredTextEmitter(BaseEmitter):
 
         if self._should_do_substitution(node):
             # make a hyperlink reference
-            if not old_url:
+            if old_url is None:
                 # new substitution
                 self._substitution_data.append(
                     f".. _{link_text}: {url}"
                 )
             return f"`{link_text}`_"
 
-        if old_url:
+        if old_url is not None:
             # reuse a existing substitution
             return f"`{link_text}`_"
         else:
@@ -246,7 +246,7 @@ class ReStructuredTextEmitter(BaseEmitter):
         old_src = self._get_old_substitution(
             self._used_substitution_images, substitution_text, src
         )
-        if not old_src:
+        if old_src is None:
             self._substitution_data.append(
                 f".. |{substitution_text}| image:: {src}"
             )
-- 
2.43.0


From bd2a5d5023654e306e95884d9a8b811ca182cc7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:18 +0000
Subject: [PATCH 22/34] fix: html2rest must not write reference definitions
 into a paragraph

---
 creole/emitter/html2rest_emitter.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/creole/emitter/html2rest_emitter.py b/creole/emitter/html2rest_emitter.py
index ca7676b..f05d906 100644
--- a/creole/emitter/html2rest_emitter.py
+++ b/creole/emitter/html2rest_emitter.py
@@ -80,7 +80,13 @@ class ReStructuredTextEmitter(BaseEmitter):
 
     def document_emit(self, node):
         self.last = node
-        result = self.emit_children(node)
+        result = ""
+        for child in node.children:
+            if self._substitution_data and (not result or result.endswith("\n\n")):
+                # The block data must not be put inside of a paragraph
+                result += f"{self._get_block_data()}\n\n"
+            result += self.emit_node(child)
+
         if self._substitution_data:
             # add rest at the end
             if not result.endswith("\n\n"):
@@ -88,14 +94,6 @@ class ReStructuredTextEmitter(BaseEmitter):
             result += f"{self._get_block_data()}\n\n"
         return result
 
-    def emit_node(self, node):
-        result = ""
-        if self._substitution_data and node.parent == self.root:
-            result += f"{self._get_block_data()}\n\n"
-
-        result += super().emit_node(node)
-        return result
-
     def p_emit(self, node):
         return f"{self.emit_children(node)}\n\n"
 
-- 
2.43.0


From 5556cc08c671173b727a6a45c80464fc3d80bfe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:22 +0000
Subject: [PATCH 23/34] fix: command line tools must keep the destination file
 if the conversion fails

---
 creole/cmdline.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/creole/cmdline.py b/creole/cmdline.py
index 18d9074..78afdf5 100644
--- a/creole/cmdline.py
+++ b/creole/cmdline.py
@@ -49,10 +49,13 @@ class CreoleCLI:
         )
 
         with codecs.open(sourcefile, "r", encoding=encoding) as infile:
-            with codecs.open(destination, "w", encoding=encoding) as outfile:
-                content = infile.read()
-                converted = self.convert_func(content)
-                outfile.write(converted)
+            content = infile.read()
+
+        # Don't touch the destination file before everything is converted and encoded
+        converted = codecs.encode(self.convert_func(content), encoding)
+
+        with open(destination, "wb") as outfile:
+            outfile.write(converted)
         print(f"done. {destination!r} created.")
 
 
-- 
2.43.0


From a37d8d5c42f570e8621cbea19638423b3a3aebcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:26 +0000
Subject: [PATCH 24/34] fix: the README update must accept only what the README
 check accepts

---
 creole/setup_utils.py | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/creole/setup_utils.py b/creole/setup_utils.py
index 2b716ea..78a37b6 100644
--- a/creole/setup_utils.py
+++ b/creole/setup_utils.py
@@ -162,19 +162,15 @@ def update_rst_readme(package_root, filename='README.creole'):
     rest_readme = _generate_rst_readme(creole_readme_path=creole_readme_path)
 
     # Check if content was changed
-    changed = False
-    with rest_readme_path.open('r') as f:
-        for new_line, old_line in zip(rest_readme.splitlines(), f):
-            if new_line.rstrip() != old_line.rstrip():
-                changed = True
-                break
+    content = rest_readme_path.read_text(encoding='UTF-8')
+    changed = not content or content.rsplit('\n', 4)[0] != rest_readme
 
     if not changed:
         # The existing README.rst is up-to-date: Don't change the timestamp
         print('nothing changed, ok.')
         return rest_readme_path
 
-    with rest_readme_path.open('w') as f:
+    with rest_readme_path.open('w', encoding='UTF-8') as f:
         f.write(rest_readme)
 
         # Add a note about generation with modification time from source:
@@ -210,19 +206,15 @@ def update_markdown_readme(package_root, filename='README.creole'):
     markdown_readme = _generate_markdown_readme(creole_readme_path=creole_readme_path)
 
     # # Check if content was changed
-    changed = False
-    with markdown_readme_path.open('r') as f:
-        for new_line, old_line in zip(markdown_readme.splitlines(), f):
-            if new_line.rstrip() != old_line.rstrip():
-                changed = True
-                break
+    content = markdown_readme_path.read_text(encoding='UTF-8')
+    changed = not content or content.rsplit('\n', 4)[0] != markdown_readme
 
     if not changed:
         # The existing README.rst is up-to-date: Don't change the timestamp
         print('nothing changed, ok.')
         return markdown_readme_path
 
-    with markdown_readme_path.open('w') as f:
+    with markdown_readme_path.open('w', encoding='UTF-8') as f:
         f.write(markdown_readme)
 
         # Add a note about generation with modification time from source:
-- 
2.43.0


From 8220328c229087964e7db54ea5d149c6ad55e1b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:54 +0000
Subject: [PATCH 25/34] fix: get_long_description() must pass unknown_emit to
 html2rest()

---
 creole/setup_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/creole/setup_utils.py b/creole/setup_utils.py
index 78a37b6..48b0d7e 100644
--- a/creole/setup_utils.py
+++ b/creole/setup_utils.py
@@ -77,7 +77,7 @@ def get_long_description(package_root, filename='README.creole', raise_errors=No
         # convert html to ReSt
         long_description_rest = html2rest(
             long_description_html,
-            emitter_kwargs={'unknown_emit': unknown_emit}
+            unknown_emit=unknown_emit
         )
     except Exception:
         if raise_errors:
-- 
2.43.0


From 0a4f6c2f1ee878fd82748047f36afef6ba8587ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:42 +0000
Subject: [PATCH 26/34] fix: table cells without end tag must keep their order

---
 creole/emitter/html2markdown_emitter.py |  2 +-
 creole/parser/html_parser.py            | 19 +++++++++++++++++++
 creole/shared/base_emitter.py           | 10 +++++++++-
 3 files changed, 29 insertions(+), 2 deletions(-)

diff --git a/creole/emitter/html2markdown_emitter.py b/creole/emitter/html2markdown_emitter.py
index 24b95b7..be05e7c 100644
--- a/creole/emitter/html2markdown_emitter.py
+++ b/creole/emitter/html2markdown_emitter.py
@@ -54,7 +54,7 @@ class MarkdownEmitter(BaseEmitter):
 
     def _emit_cell(self, node):
         # a table row must be one line
-        lines = [line.strip() for line in self.emit_children(node).split('\n')]
+        lines = [line.strip() for line in self._emit_cell_children(node).split('\n')]
         return ' '.join(line for line in lines if line)
 
     # --------------------------------------------------------------------------
diff --git a/creole/parser/html_parser.py b/creole/parser/html_parser.py
index 6707f98..3a4c1c6 100644
--- a/creole/parser/html_parser.py
+++ b/creole/parser/html_parser.py
@@ -74,6 +74,12 @@ class HtmlParser(HTMLParser):
     # placeholder html tag for pre cutout areas:
     _block_placeholder = "blockdata"
     _inline_placeholder = "inlinedata"
+    # start tag -> open elements that end there, e.g.: <td>one<td>two
+    _implied_end_tags = {
+        "td": ("td", "th"),
+        "th": ("td", "th"),
+        "tr": ("td", "th", "tr"),
+    }
     _placeholder_kinds = {
         ("blockdata", "pre"): "blockdata_pre",
         ("blockdata", "pass"): "blockdata_pass",
@@ -185,6 +191,16 @@ class HtmlParser(HTMLParser):
 
     # -------------------------------------------------------------------------
 
+    def _close_implied(self, tag):
+        """
+        Close the open table cell and row, if the end tags are omitted.
+        """
+        node = self.cur
+        while node.parent is not None and node.kind != "table":
+            if node.kind in self._implied_end_tags[tag]:
+                self.cur = node.parent
+            node = node.parent
+
     def _clean_attrs(self, attrs):
         # The value of an attribute without a value is None, e.g.: <img alt>
         return [(name, value or "") for name, value in attrs]
@@ -197,6 +213,9 @@ class HtmlParser(HTMLParser):
 
         attrs = self._clean_attrs(attrs)
 
+        if tag in self._implied_end_tags:
+            self._close_implied(tag)
+
         headline = headline_tag_re.match(tag)
         if headline:
             self.cur = DocNode(
diff --git a/creole/shared/base_emitter.py b/creole/shared/base_emitter.py
index fa37c4f..80643cb 100644
--- a/creole/shared/base_emitter.py
+++ b/creole/shared/base_emitter.py
@@ -172,8 +172,16 @@ class BaseEmitter:
         content = content.strip("\\")
         return content
 
+    def _emit_cell_children(self, node):
+        # A cell can contain other cells only in a own table
+        outer_table = self._table
+        self._table = None
+        content = self.emit_children(node)
+        self._table = outer_table
+        return content
+
     def _emit_cell(self, node):
-        return self._escape_linebreaks(self.emit_children(node))
+        return self._escape_linebreaks(self._emit_cell_children(node))
 
     def th_emit(self, node):
         if self._table is None:
-- 
2.43.0


From 899d7c0e9b0d8fd97a8f3cead9d1f1da681ac7f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:10 +0000
Subject: [PATCH 27/34] fix: a table end tag must close the rows and cells of
 the table

---
 creole/parser/html_parser.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/creole/parser/html_parser.py b/creole/parser/html_parser.py
index 3a4c1c6..8e343a8 100644
--- a/creole/parser/html_parser.py
+++ b/creole/parser/html_parser.py
@@ -201,6 +201,18 @@ class HtmlParser(HTMLParser):
                 self.cur = node.parent
             node = node.parent
 
+    def _close_table(self):
+        """
+        Close the current table with all elements that are still open in it.
+        """
+        node = self.cur
+        while node.parent is not None and node.kind != "table":
+            node = node.parent
+        if node.parent is not None:
+            self.cur = node.parent
+        else:
+            self._go_up()
+
     def _clean_attrs(self, attrs):
         # The value of an attribute without a value is None, e.g.: <img alt>
         return [(name, value or "") for name, value in attrs]
@@ -278,7 +290,9 @@ class HtmlParser(HTMLParser):
         if tag in ("ul", "ol") and self.__list_level > 0:
             self.__list_level -= 1
 
-        if tag in BLOCK_TAGS:
+        if tag == "table":
+            self._close_table()
+        elif tag in BLOCK_TAGS:
             self._go_up()
         elif self.cur.parent is not None:
             self.cur = self.cur.parent
-- 
2.43.0


From 50ca447c377eb97aff20b2455f5c0fe82239b469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:02 +0000
Subject: [PATCH 28/34] fix: the text after a <hr> start tag must not be lost

---
 creole/parser/html_parser.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/creole/parser/html_parser.py b/creole/parser/html_parser.py
index 8e343a8..bb981d2 100644
--- a/creole/parser/html_parser.py
+++ b/creole/parser/html_parser.py
@@ -239,8 +239,8 @@ class HtmlParser(HTMLParser):
             if tag in ("ul", "ol"):
                 self.__list_level += 1
             self.cur = DocNode(tag, self.cur, None, attrs, level=self.__list_level)
-        elif tag in ("img", "br"):
-            # Work-a-round if img or br  tag is not marked as startendtag:
+        elif tag in ("img", "br", "hr"):
+            # Work-a-round if img, br or hr tag is not marked as startendtag:
             # wrong: <img src="/image.jpg"> doesn't work if </img> not exist
             # right: <img src="/image.jpg" />
             DocNode(tag, self.cur, None, attrs)
@@ -282,7 +282,7 @@ class HtmlParser(HTMLParser):
 
         self.debug_msg("endtag", f"{tag!r}")
 
-        if tag == "br":  # handled in starttag
+        if tag in ("br", "hr"):  # handled in starttag
             return
 
         self.debug_msg("starttag", f"{self.get_starttag_text()!r}")
-- 
2.43.0


From db580fad54d17eb80891350c5c842a2a951a6bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:21 +0000
Subject: [PATCH 29/34] fix: empty <li /> tags must not break the conversion

---
 creole/parser/html_parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/creole/parser/html_parser.py b/creole/parser/html_parser.py
index bb981d2..3d544ee 100644
--- a/creole/parser/html_parser.py
+++ b/creole/parser/html_parser.py
@@ -274,7 +274,8 @@ class HtmlParser(HTMLParser):
                 DocNode(kind, self.cur, content=content)
                 return
 
-        DocNode(tag, self.cur, None, attrs)
+        level = self.__list_level if tag in ("li", "ul", "ol") else None
+        DocNode(tag, self.cur, None, attrs, level=level)
 
     def handle_endtag(self, tag):
         if tag in IGNORE_TAGS:
-- 
2.43.0


From 5c2ce56ec49cbd1c2a66801cfbfdb84802da338d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:21 +0000
Subject: [PATCH 30/34] fix: a end tag must close the element with the same
 name

---
 creole/parser/html_parser.py | 43 +++++++++---------------------------
 1 file changed, 11 insertions(+), 32 deletions(-)

diff --git a/creole/parser/html_parser.py b/creole/parser/html_parser.py
index 3d544ee..bcd788c 100644
--- a/creole/parser/html_parser.py
+++ b/creole/parser/html_parser.py
@@ -11,7 +11,7 @@ import warnings
 from html.parser import HTMLParser
 
 from creole.html_tools.strip_html import strip_html
-from creole.parser.html_parser_config import BLOCK_TAGS, IGNORE_TAGS
+from creole.parser.html_parser_config import IGNORE_TAGS
 from creole.shared.document_tree import DebugList, DocNode
 
 
@@ -171,26 +171,6 @@ class HtmlParser(HTMLParser):
 
     # -------------------------------------------------------------------------
 
-    def _upto(self, node, kinds):
-        """
-        Look up the tree to the first occurence
-        of one of the listed kinds of nodes or root.
-        Start at the node node.
-        """
-        while node is not None and node.parent is not None:
-            node = node.parent
-            if node.kind in kinds:
-                break
-
-        return node
-
-    def _go_up(self):
-        kinds = list(BLOCK_TAGS) + ["document"]
-        self.cur = self._upto(self.cur, kinds)
-        self.debug_msg("go up to", self.cur)
-
-    # -------------------------------------------------------------------------
-
     def _close_implied(self, tag):
         """
         Close the open table cell and row, if the end tags are omitted.
@@ -201,17 +181,21 @@ class HtmlParser(HTMLParser):
                 self.cur = node.parent
             node = node.parent
 
-    def _close_table(self):
+    def _close(self, tag):
         """
-        Close the current table with all elements that are still open in it.
+        Close the open element with all elements that are still open in it.
+        A end tag without a start tag in the same table cell is ignored.
         """
+        kind = "headline" if headline_tag_re.match(tag) else tag
         node = self.cur
-        while node.parent is not None and node.kind != "table":
+        while node.parent is not None and node.kind != kind:
+            if node.kind == "table" or (
+                node.kind in ("td", "th") and tag not in ("td", "th", "tr", "table")
+            ):
+                return
             node = node.parent
         if node.parent is not None:
             self.cur = node.parent
-        else:
-            self._go_up()
 
     def _clean_attrs(self, attrs):
         # The value of an attribute without a value is None, e.g.: <img alt>
@@ -291,12 +275,7 @@ class HtmlParser(HTMLParser):
         if tag in ("ul", "ol") and self.__list_level > 0:
             self.__list_level -= 1
 
-        if tag == "table":
-            self._close_table()
-        elif tag in BLOCK_TAGS:
-            self._go_up()
-        elif self.cur.parent is not None:
-            self.cur = self.cur.parent
+        self._close(tag)
 
     # -------------------------------------------------------------------------
 
-- 
2.43.0


From 584d6e907a8899305c0d320427bf3a0332f840f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:46 +0000
Subject: [PATCH 31/34] fix: a <pre> area inside of a <pre> area must not get
 lost

---
 creole/parser/html_parser.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/creole/parser/html_parser.py b/creole/parser/html_parser.py
index bcd788c..9c80438 100644
--- a/creole/parser/html_parser.py
+++ b/creole/parser/html_parser.py
@@ -35,6 +35,11 @@ inline_re = re.compile(r'''
 ''', re.VERBOSE | re.UNICODE)
 
 
+# Both in one pass, so that nothing is cut out of a area that is cut out
+pre_re = re.compile(
+    f"{block_re.pattern}|{inline_re.pattern}", re.VERBOSE | re.UNICODE | re.MULTILINE
+)
+
 headline_tag_re = re.compile(r"h([1-6])$", re.UNICODE)
 
 # ------------------------------------------------------------------------------
@@ -142,8 +147,7 @@ class HtmlParser(HTMLParser):
         data = raw_data.strip()
         if preprocess:
             # cut out <pre> and <tt> areas block tag areas
-            data = block_re.sub(self._pre_cut_out, data)
-            data = inline_re.sub(self._pre_cut_out, data)
+            data = pre_re.sub(self._pre_cut_out, data)
 
             # Delete whitespace from html code
             data = strip_html(data)
-- 
2.43.0


From dd4028c31d1ad0298cc51b181a7a4e7cace6f367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:02 +0000
Subject: [PATCH 32/34] fix: a macro error at verbose=2 must not raise when the
 macro's source can't be looked up

inspect.getsourcelines() raises TypeError for a macro that wraps a built-in
and ValueError for a __wrapped__ loop; getfile() raises OSError for classes
without a source file.
---
 creole/emitter/creol2html_emitter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/creole/emitter/creol2html_emitter.py b/creole/emitter/creol2html_emitter.py
index 732c372..fad8f91 100644
--- a/creole/emitter/creol2html_emitter.py
+++ b/creole/emitter/creol2html_emitter.py
@@ -340,12 +340,12 @@ class HtmlEmitter:
                 import inspect
                 try:
                     filename = inspect.getfile(macro)
-                except TypeError:
+                except (TypeError, OSError):
                     pass
                 else:
                     try:
                         sourceline = inspect.getsourcelines(macro)[0][0].strip()
-                    except OSError as err:
+                    except (OSError, TypeError, ValueError, IndexError) as err:
                         evalue = TypeError(
                             f"{evalue} (error getting sourceline: {err} from {filename})"
                         )
-- 
2.43.0


From 8aeb21a0da88742fc40214f9891cab27fc8407ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:13 +0000
Subject: [PATCH 33/34] fix: recognise links, macros, images and nowiki with a
 bar in table heads, too

---
 creole/parser/creol2html_parser.py | 4 ++--
 creole/parser/creol2html_rules.py  | 6 ++----
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/creole/parser/creol2html_parser.py b/creole/parser/creol2html_parser.py
index dd31a44..13c4589 100644
--- a/creole/parser/creol2html_parser.py
+++ b/creole/parser/creol2html_parser.py
@@ -319,12 +319,12 @@ class CreoleParser:
 
         for m in self.cell_re.finditer(row):
             cell = m.group('cell')
-            if cell:
+            if not m.group('head'):
                 text = cell.strip()
                 self.cur = DocNode('table_cell', tr)
                 self.text = None
             else:
-                text = m.group('head').strip('= ')
+                text = cell.strip('= ')
                 self.cur = DocNode('table_head', tr)
                 self.text = DocNode('text', self.cur, "")
             self.parse_inline(text)
diff --git a/creole/parser/creol2html_rules.py b/creole/parser/creol2html_rules.py
index 07754c9..db0ccbc 100644
--- a/creole/parser/creol2html_rules.py
+++ b/creole/parser/creol2html_rules.py
@@ -179,10 +179,8 @@ class SpecialRules:
     # For splitting table cells:
     cell = r'''
             \| \s*
-            (
-                (?P<head> [=][^|]+ ) |
-                (?P<cell> (  %s | [^|])+ )
-            ) \s*
+            (?P<head> = (?= [^|]) )?
+            (?P<cell> (  %s | [^|])+ ) \s*
         ''' % '|'.join([
         InlineRules.link,
         InlineRules.macro_inline, InlineRules.macro_tag,
-- 
2.43.0


From 3c7661bb54b74e768983edbd90a95587398738d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:13 +0000
Subject: [PATCH 34/34] fix: a nowiki text with }} in a table cell must not be
 read as an image

---
 creole/parser/creol2html_rules.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/creole/parser/creol2html_rules.py b/creole/parser/creol2html_rules.py
index db0ccbc..2246ad9 100644
--- a/creole/parser/creol2html_rules.py
+++ b/creole/parser/creol2html_rules.py
@@ -184,8 +184,8 @@ class SpecialRules:
         ''' % '|'.join([
         InlineRules.link,
         InlineRules.macro_inline, InlineRules.macro_tag,
-        InlineRules.image,
-        InlineRules.pre_inline
+        InlineRules.pre_inline,
+        InlineRules.image
     ])
 
     # For pre escaping, in creole 1.0 done with ~:
-- 
2.43.0


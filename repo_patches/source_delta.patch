From 94a3794677c69b2d3fcaa91348ad7ec4041498ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:41 +0000
Subject: [PATCH 01/90] fix: SRT compile crashed with StopIteration when no
 strings are given

---
 openformats/formats/srt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openformats/formats/srt.py b/openformats/formats/srt.py
index bd1f371..9e65a2b 100644
--- a/openformats/formats/srt.py
+++ b/openformats/formats/srt.py
@@ -146,7 +146,7 @@ class SrtHandler(Handler):
         transcriber = Transcriber(template)
         template = transcriber.source
         stringset = iter(stringset)
-        string = next(stringset)
+        string = next(stringset, None)
 
         for start, subtitle_section in self.\
                 _generate_split_subtitles(template):
@@ -158,7 +158,7 @@ class SrtHandler(Handler):
             second_newline = subtitle_section.index('\n', first_newline + 1)
             hash_position = second_newline + 1
 
-            if (subtitle_section[
+            if (string is not None and subtitle_section[
                     hash_position:
                     hash_position + len(string.template_replacement)
                     ] == string.template_replacement):
-- 
2.43.0


From 2aa2c213da3b9b050991d5bae552b405619dd6dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:09 +0000
Subject: [PATCH 02/90] fix: template cleanup corrupted JSON keys and metadata
 that look like leftover commas

---
 openformats/formats/json.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/openformats/formats/json.py b/openformats/formats/json.py
index abf7321..ba44215 100644
--- a/openformats/formats/json.py
+++ b/openformats/formats/json.py
@@ -542,7 +542,18 @@ class JsonHandler(Handler):
             '{"a": "b", ,"c": "d"}' -> '{"a": "b", "c": "d"}'
             '{, "a": "b", "c": "d"}' -> '{"a": "b", "c": "d"}'
             '["a", , "b"]' -> '["a", "b"]'
+
+        The contents of JSON strings (keys, values) are left alone.
         """
+        # Hide strings, they may contain text that looks like leftovers
+        literals = []
+
+        def hide(match):
+            literals.append(match.group())
+            return '""'
+
+        compiled = re.sub(r'"(?:\\.|[^"\\])*"', hide, compiled, flags=re.DOTALL)
+
         while True:
             # First key-value of a dict was removed
             match = re.search(r"{\s*,", compiled)
@@ -587,7 +598,9 @@ class JsonHandler(Handler):
             # No substitutions happened, break
             break
 
-        return compiled
+        # Put the strings back
+        literals = iter(literals)
+        return re.sub(r'""', lambda _: next(literals), compiled)
 
     def _get_next_string(self):
         try:
-- 
2.43.0


From 012b9ba6c936991f00b52a45bd5fc8f6fb20dce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:18 +0000
Subject: [PATCH 03/90] fix: valid ICU plural rejected when one form's text
 contains another form verbatim

---
 openformats/utils/icu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openformats/utils/icu.py b/openformats/utils/icu.py
index fe089cc..7f58979 100644
--- a/openformats/utils/icu.py
+++ b/openformats/utils/icu.py
@@ -347,7 +347,7 @@ class ICUParser(object):
         # Replace all matches with spaces in the given string.
         remaining_str = serialized_strings
         for match in all_matches:
-            remaining_str = remaining_str.replace(match[0], '')
+            remaining_str = remaining_str.replace(match[0], '', 1)
 
         # Then make sure all whitespace is removed as well
         # Special characters may be present with double backslashes,
-- 
2.43.0


From 105857647a84c759dc92b0c7ddf734db4a695bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:19 +0000
Subject: [PATCH 04/90] fix: CHROME_V3 extracted blank messages as strings

---
 openformats/formats/json.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/openformats/formats/json.py b/openformats/formats/json.py
index ba44215..bf04dd2 100644
--- a/openformats/formats/json.py
+++ b/openformats/formats/json.py
@@ -1548,6 +1548,8 @@ class ChromeI18nHandlerV3(Handler):
             )
             if not isinstance(message, six.string_types):
                 continue
+            if not message.strip():
+                continue
             if not isinstance(description, six.string_types):
                 description = None
 
@@ -1612,6 +1614,10 @@ class ChromeI18nHandlerV3(Handler):
             if not isinstance(message_hash, six.string_types):
                 continue
 
+            # Blank message, no string was extracted from it, skip
+            if not message_hash.strip():
+                continue
+
             # We have found a message
 
             # Message hash doesn't not match next string from stringset,
-- 
2.43.0


From 70b78239fe4804f42730725b7cd13d106c6f9974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:19 +0000
Subject: [PATCH 05/90] fix: STRUCTURED_JSON template sync deleted blank
 entries and objects without strings

---
 openformats/formats/json.py | 120 ++++++++++++++++--------------------
 1 file changed, 54 insertions(+), 66 deletions(-)

diff --git a/openformats/formats/json.py b/openformats/formats/json.py
index bf04dd2..1bb4162 100644
--- a/openformats/formats/json.py
+++ b/openformats/formats/json.py
@@ -1180,9 +1180,9 @@ class StructuredJsonHandler(JsonHandler):
 
         - We match by OpenString.template_replacement (hash), not by key.
         - For dict roots: walk nested dicts and drop leaf objects with
-          mismatching "string".
+          mismatching "string", along with the containers this empties.
         - For list roots: treat each list item as a dict-root, dropping
-          items that end up with no kept leaves.
+          items that this empties.
         """
         self.stringset = list(stringset)
         self.stringset_index = 0
@@ -1197,90 +1197,78 @@ class StructuredJsonHandler(JsonHandler):
             except IndexError:
                 return None
 
-        def walk_dict(node):
+        def keep_leaf(string_value):
             """
-            Recursively traverse a DumbJson dict node.
-
-            Returns True if this node (or any of its descendants) contains at
-            least one *kept* leaf. Otherwise returns False so the caller can
-            prune the whole section.
+            Decide if a leaf object must be kept; consumes the string that
+            matches it.
             """
-            if node.type != dict:
-                return False
-
-            has_kept_leaf = False
-
-            for _, key_pos, value, _ in node:
-                if not (isinstance(value, DumbJson) and value.type == dict):
-                    continue
-
-                # Decide if this object is a *leaf* (direct "string" field)
-                is_leaf = any(
-                    child_key == self.STRING_KEY for child_key, _, _, _ in value
-                )
-
-                transcriber.copy_until(key_pos - 1)
-                transcriber.mark_section_start()
-
-                if is_leaf:
-                    ((string_value, _),) = value.find_children(self.STRING_KEY)
+            if not isinstance(string_value, six.string_types) or (
+                not string_value.strip()
+            ):
+                # Not something a string was extracted from
+                return True
 
-                    current = next_string()
-                    keep = False
+            current = next_string()
+            if current is None:
+                return False
 
-                    if current is not None:
-                        templ = current.template_replacement
+            templ = current.template_replacement
+            if current.pluralized:
+                # hash embedded inside ICU plural string
+                keep = templ in string_value
+            else:
+                # plain hash
+                keep = string_value == templ
+            if keep:
+                self.stringset_index += 1
+            return keep
 
-                        if current.pluralized:
-                            # hash embedded inside ICU plural string
-                            if templ in string_value:
-                                keep = True
-                        else:
-                            # plain hash
-                            if string_value == templ:
-                                keep = True
+        def walk(node):
+            """
+            Recursively traverse a DumbJson node.
 
-                    transcriber.copy_until(value.end + 1)
-                    transcriber.mark_section_end()
+            Returns True if anything in this node is kept (or there was nothing
+            in it to begin with). Otherwise returns False so the caller can
+            prune the whole section.
+            """
+            children = list(node)
+            keep_node = not children
 
-                    if keep:
-                        has_kept_leaf = True
-                        self.stringset_index += 1
-                    else:
-                        transcriber.remove_section()
+            for child in children:
+                if node.type == dict:
+                    _, position, value, _ = child
+                    position -= 1
                 else:
-                    # Nested dict – recurse
-                    child_has_kept = walk_dict(value)
-
-                    transcriber.copy_until(value.end + 1)
-                    transcriber.mark_section_end()
-
-                    if child_has_kept:
-                        has_kept_leaf = True
-                    else:
-                        transcriber.remove_section()
-
-            return has_kept_leaf
+                    value, position = child
 
-        if parsed.type == dict:
-            walk_dict(parsed)
-        elif parsed.type == list:
-            # List-root: each item is a dict-root
-            for value, _ in parsed:
+                # Only objects can hold strings; lists are supported only as
+                # the root of the document
                 if not isinstance(value, DumbJson) or value.type != dict:
+                    keep_node = True
                     continue
 
-                transcriber.copy_until(value.start)
+                transcriber.copy_until(position)
                 transcriber.mark_section_start()
 
-                has_kept = walk_dict(value)
+                # Decide if this object is a *leaf* (direct "string" field)
+                ((string_value, _),) = value.find_children(self.STRING_KEY)
+                if string_value:
+                    keep_child = keep_leaf(string_value)
+                else:
+                    keep_child = walk(value)
 
                 transcriber.copy_until(value.end + 1)
                 transcriber.mark_section_end()
 
-                if not has_kept:
+                if keep_child:
+                    keep_node = True
+                else:
                     transcriber.remove_section()
 
+            return keep_node
+
+        walk(parsed)
+
         transcriber.copy_until(len(source))
         compiled = transcriber.get_destination()
         return self._clean_empties(compiled)
-- 
2.43.0


From 0af033393ca5e39325337860a3909b17a26de10e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:23 +0000
Subject: [PATCH 06/90] fix: valid JSON numbers with exponents crashed the
 positional reader

---
 openformats/utils/json.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openformats/utils/json.py b/openformats/utils/json.py
index f8b8a50..de76f47 100644
--- a/openformats/utils/json.py
+++ b/openformats/utils/json.py
@@ -242,7 +242,7 @@ class DumbJson(object):
             r'{_float}|{integer}'.format(
                 dict_list_string=r'[{\["]',
                 true_false_null=r'true|false|null',
-                e_notation=r'-?\d+e-?\d+',
+                e_notation=r'-?\d+(?:\.\d+)?[eE][+-]?\d+',
                 _float=r'-?\d+\.\d+',
                 integer=r'-?\d+',
             )
-- 
2.43.0


From c2f6d2827b3605cd56033ad3e4098cfdcb50344f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:23 +0000
Subject: [PATCH 07/90] fix: ARB files with list values or non-text metadata
 crashed the parser

---
 openformats/formats/json.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/openformats/formats/json.py b/openformats/formats/json.py
index 1bb4162..233b801 100644
--- a/openformats/formats/json.py
+++ b/openformats/formats/json.py
@@ -669,12 +669,15 @@ class ArbHandler(JsonHandler):
             elif key.startswith("@"):
                 if key.endswith(".type") and value != "text":
                     self.existing_keys.add(key)
+                elif not isinstance(value, six.text_type):
+                    # Only strings can describe a string
+                    pass
                 elif key.endswith(".context"):
                     self.metadata[key] = value
                 elif key.endswith(".description"):
                     self.metadata[key] = value
 
-            if isinstance(value, DumbJson):
+            if isinstance(value, DumbJson) and value.type == dict:
                 self._find_keys(value, key)
             else:
                 pass
-- 
2.43.0


From f1452f9c0200a468630eee44a82b54c944763133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:23 +0000
Subject: [PATCH 08/90] fix: CHROME file with a top-level message value crashed
 the parser

---
 openformats/formats/json.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openformats/formats/json.py b/openformats/formats/json.py
index 233b801..adbae0b 100644
--- a/openformats/formats/json.py
+++ b/openformats/formats/json.py
@@ -1417,7 +1417,7 @@ class ChromeI18nHandler(JsonHandler):
         key_split = key.split(".")
         try:
             return self.json_dict[key_split[0]]["description"]
-        except KeyError:
+        except (KeyError, TypeError):
             return ""
 
     def _copy_until_and_remove_section(self, pos):
-- 
2.43.0


From 72da314ae96f3416e4ef5b1eda754b9b77773d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:23 +0000
Subject: [PATCH 09/90] fix: STRUCTURED_JSON crashed on root list strings and
 non-text metadata

---
 openformats/formats/json.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/openformats/formats/json.py b/openformats/formats/json.py
index adbae0b..bfb1d3c 100644
--- a/openformats/formats/json.py
+++ b/openformats/formats/json.py
@@ -100,6 +100,7 @@ class JsonHandler(Handler):
                                 string_value, (six.binary_type, six.text_type)
                             ):
                                 if string_value.strip():
+                                    self._validate_metadata(value, key_position)
                                     openstring = self._create_openstring(key, value)
 
                                     if openstring:
@@ -138,7 +139,7 @@ class JsonHandler(Handler):
                 else:
                     key = f"{nest}..{index}.."
                 if isinstance(item, (six.binary_type, six.text_type)):
-                    if not item.strip():
+                    if not item.strip() or self.name == "STRUCTURED_JSON":
                         continue
 
                     openstring = self._create_openstring(key, item, item_position)
@@ -831,6 +832,20 @@ class StructuredJsonHandler(JsonHandler):
         self.transcriber.copy_to_end()
         return self.transcriber.get_destination()
 
+    def _validate_metadata(self, payload_dict, key_position):
+        metadata_keys = (self.CONTEXT_KEY, self.DEVELOPER_COMMENT_KEY)
+        for metadata_key, (value, _) in zip(
+            metadata_keys, payload_dict.find_children(*metadata_keys)
+        ):
+            if value is not None and not isinstance(value, six.text_type):
+                # Need this for line number
+                self.transcriber.copy_until(key_position)
+                raise ParseError(
+                    "Invalid {} value in line {}".format(
+                        metadata_key, self.transcriber.line_number
+                    )
+                )
+
     def _compile_value(self, value, template_value, value_position, skip=False):
         value = template_value if skip else value
 
-- 
2.43.0


From 3b765d11df6d0a0b0f6c118813cfe7c8004d0de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:16 +0000
Subject: [PATCH 10/90] fix: strings added to a JSON list had the escapes of
 their key doubled

---
 openformats/formats/json.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/openformats/formats/json.py b/openformats/formats/json.py
index bfb1d3c..1d9b968 100644
--- a/openformats/formats/json.py
+++ b/openformats/formats/json.py
@@ -385,10 +385,7 @@ class JsonHandler(Handler):
         return f'"{self._unescape_key(os.key)}": "{os.template_replacement}"'
 
     def _make_added_entry_for_list(self, os):
-        return json.dumps(
-            {self._unescape_key(os.key): os.template_replacement},
-            ensure_ascii=False,
-        )
+        return f'{{"{self._unescape_key(os.key)}": "{os.template_replacement}"}}'
 
     def _insert(self, parsed, is_real_stringset):
         if parsed.type == dict:
@@ -1372,9 +1369,11 @@ class StructuredJsonHandler(JsonHandler):
               }
             }
         """
-        container = {self._unescape_key(os.key): self._build_structured_payload(os)}
+        container = {"": self._build_structured_payload(os)}
+        entry = json.dumps(container, ensure_ascii=False, indent=2)
 
-        return json.dumps(container, ensure_ascii=False, indent=2)
+        # The key is already escaped, it should go in as it is
+        return entry.replace('""', f'"{self._unescape_key(os.key)}"', 1)
 
 
 class ChromeI18nHandler(JsonHandler):
-- 
2.43.0


From 91b39dbe8f8b845b0fe37763cc00724991cde6e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:16 +0000
Subject: [PATCH 11/90] fix: strings added to an emptied DOS JSON file were
 written with UNIX newlines

---
 openformats/formats/json.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/openformats/formats/json.py b/openformats/formats/json.py
index 1d9b968..3d65b92 100644
--- a/openformats/formats/json.py
+++ b/openformats/formats/json.py
@@ -16,6 +16,7 @@ from openformats.strings import OpenString
 from openformats.transcribers import Transcriber
 from openformats.utils.icu import ICUCompiler, ICUParser
 from openformats.utils.json import DumbJson, escape, unescape
+from openformats.utils.newlines import force_newline_type
 
 try:
     from StringIO import StringIO
@@ -301,7 +302,9 @@ class JsonHandler(Handler):
         had_items = bool(items)
 
         if not had_items and container_type == dict:
-            return self._compile_empty_template(stringset)
+            return force_newline_type(
+                self._compile_empty_template(stringset), transcriber.newline_type
+            )
 
         # Detect style
         multiline = "\n" in source[parsed.start : parsed.end + 1]
-- 
2.43.0


From 5f82d0af967ab14fa5c16c2191b5bfb305219780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:48 +0000
Subject: [PATCH 12/90] fix: removing the first item of a JSON list written
 right after the bracket removed the bracket

---
 openformats/formats/json.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/openformats/formats/json.py b/openformats/formats/json.py
index 3d65b92..99c4fb2 100644
--- a/openformats/formats/json.py
+++ b/openformats/formats/json.py
@@ -479,7 +479,10 @@ class JsonHandler(Handler):
         at_least_one = not bool(list(parsed))
 
         for value, value_position in parsed:
-            self.transcriber.copy_until(value_position - 1)
+            start = value_position
+            if isinstance(value, (six.binary_type, six.text_type)):
+                start -= 1  # Include the opening quote
+            self.transcriber.copy_until(start)
             self.transcriber.mark_section_start()
 
             tmp_at_least_one = self._insert_item(
-- 
2.43.0


From a8553b3096083005488447bb72528cea3c32ecfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:02 +0000
Subject: [PATCH 13/90] fix: Android comments no longer leak past blank strings
 and unknown tags

---
 openformats/formats/android.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/openformats/formats/android.py b/openformats/formats/android.py
index 1b45dd2..3450480 100644
--- a/openformats/formats/android.py
+++ b/openformats/formats/android.py
@@ -68,7 +68,7 @@ class AndroidHandler(Handler):
         parsed = DumbXml(source, resources_tag_position)
         XMLUtils.validate_no_text_characters(self.transcriber, parsed)
         XMLUtils.validate_no_tail_characters(self.transcriber, parsed)
-        children_iterator = parsed.find_children(
+        handled_tags = (
             self.STRING,
             self.STRING_ARRAY,
             self.STRING_PLURAL,
@@ -76,10 +76,13 @@ class AndroidHandler(Handler):
         )
         stringset = []
         self.existing_hashes = {}
-        for child in children_iterator:
-            strings = self._handle_child(child)
-            if strings is not None:
-                stringset.extend(strings)
+        for child in parsed:
+            if child.tag in handled_tags:
+                strings = self._handle_child(child)
+                if strings is not None:
+                    stringset.extend(strings)
+            if child.tag != DumbXml.COMMENT:
+                # A comment only belongs to the tag that follows it
                 self.current_comment = u""
 
         self.transcriber.copy_until(len(source))
-- 
2.43.0


From c9d84586b07678ac5fd6d6363c17271fb9072a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:02 +0000
Subject: [PATCH 14/90] fix: Android files without <resources> are rejected
 with a ParseError

---
 openformats/formats/android.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/openformats/formats/android.py b/openformats/formats/android.py
index 3450480..5d3e7aa 100644
--- a/openformats/formats/android.py
+++ b/openformats/formats/android.py
@@ -7,7 +7,7 @@ import six
 
 from openformats.utils.compat import ensure_unicode
 
-from ..exceptions import RuleError
+from ..exceptions import ParseError, RuleError
 from ..handlers import Handler
 from ..strings import OpenString
 from ..transcribers import Transcriber
@@ -63,7 +63,9 @@ class AndroidHandler(Handler):
 
         source = self.transcriber.source
         # Skip XML info declaration
-        resources_tag_position = source.index(self.PARSE_START)
+        resources_tag_position = source.find(self.PARSE_START)
+        if resources_tag_position == -1:
+            raise ParseError(u"No <resources> tag found in file")
 
         parsed = DumbXml(source, resources_tag_position)
         XMLUtils.validate_no_text_characters(self.transcriber, parsed)
-- 
2.43.0


From dc5873094c502b099eb5c07dd2371689db641432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:33 +0000
Subject: [PATCH 15/90] fix: Android compile detects the newline type of the
 whole template

---
 openformats/formats/android.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/openformats/formats/android.py b/openformats/formats/android.py
index 5d3e7aa..0842268 100644
--- a/openformats/formats/android.py
+++ b/openformats/formats/android.py
@@ -367,12 +367,11 @@ class AndroidHandler(Handler):
 
     def compile(self, template, stringset, is_source=True, language_info=None,
                 **kwargs):
-        resources_tag_position = template.index(self.PARSE_START)
-
-        self.transcriber = Transcriber(template[resources_tag_position:])
+        self.transcriber = Transcriber(template)
         source = self.transcriber.source
 
-        parsed = DumbXml(source)
+        resources_tag_position = source.index(self.PARSE_START)
+        parsed = DumbXml(source, resources_tag_position)
 
         # Check against 'tools:locale' attribute
         if language_info is not None and 'tools:locale' in parsed.attrib:
@@ -403,10 +402,7 @@ class AndroidHandler(Handler):
             self._compile_child(child)
 
         self.transcriber.copy_until(len(source))
-        compiled = (template[:resources_tag_position] +
-                    self.transcriber.get_destination())
-
-        return compiled
+        return self.transcriber.get_destination()
 
     def _compile_child(self, child):
         """Do basic checks on the child and assigns the appropriate method to
-- 
2.43.0


From 6b4d12abaeb711009de922ab32f41c7eb9c136ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:02 +0000
Subject: [PATCH 16/90] fix: Android compile no longer removes blank entries
 and foreign tags

---
 openformats/formats/android.py | 43 ++++++++++++++++++++++------------
 1 file changed, 28 insertions(+), 15 deletions(-)

diff --git a/openformats/formats/android.py b/openformats/formats/android.py
index 0842268..3fcd28b 100644
--- a/openformats/formats/android.py
+++ b/openformats/formats/android.py
@@ -386,20 +386,21 @@ class AndroidHandler(Handler):
 
         # This is needed in case the first tag is skipped to retain
         # the file's formating
-        first_tag_position = parsed.text_position + len(parsed.text)
-        self.transcriber.copy_until(first_tag_position)
+        if parsed.text_position is not None:
+            first_tag_position = parsed.text_position + len(parsed.text)
+            self.transcriber.copy_until(first_tag_position)
 
-        children_iterator = parsed.find_children(
-            self.STRING,
-            self.STRING_ARRAY,
-            self.STRING_PLURAL
-        )
+        handled_tags = (self.STRING, self.STRING_ARRAY, self.STRING_PLURAL)
 
         self.is_source = is_source
         self.stringset = iter(stringset)
         self.next_string = self._get_next_string()
-        for child in children_iterator:
-            self._compile_child(child)
+        for child in parsed:
+            if child.tag in handled_tags:
+                self._compile_child(child)
+            elif child.tag != DumbXml.COMMENT:
+                # Not something we extract strings from, keep it
+                self.transcriber.copy_until(child.end)
 
         self.transcriber.copy_until(len(source))
         return self.transcriber.get_destination()
@@ -437,10 +438,13 @@ class AndroidHandler(Handler):
             self.transcriber.copy_until(child.end)
             self.transcriber.mark_section_end()
             self.next_string = self._get_next_string()
-        elif not child.text:
-            # In the case of a string-array we don't want to skip an
-            # empty array element that was initially empty.
-            pass
+        elif self._is_blank(child):
+            # We don't want to skip an element (of a string-array or not) that
+            # was initially empty.
+            self.transcriber.copy_until(child.tail_position)
+            self.transcriber.mark_section_start()
+            self.transcriber.copy_until(child.end)
+            self.transcriber.mark_section_end()
         else:
             self._skip_tag(child)
 
@@ -457,8 +461,8 @@ class AndroidHandler(Handler):
         """
         item_iterator = list(child.find_children(self.STRING_ITEM))
 
-        # If placeholder (has no children) skip
-        if len(item_iterator) == 0:
+        # If placeholder (has no children or only empty ones) skip
+        if all(self._is_blank(item_tag) for item_tag in item_iterator):
             self.transcriber.copy_until(child.end)
             return
 
@@ -493,6 +497,7 @@ class AndroidHandler(Handler):
         """
         # If placeholder (has empty children) skip
         if len(list(child.find_children(self.STRING_ITEM))):
+            self.transcriber.copy_until(child.end)
             return
 
         if self._should_compile(child):
@@ -522,6 +527,14 @@ class AndroidHandler(Handler):
         else:
             self._skip_tag(child)
 
+    @staticmethod
+    def _is_blank(tag):
+        """Checks if the tag has nothing to translate in it.
+
+        :returns: True if the tag is empty or only has whitespace else False.
+        """
+        return not (tag.content or u'').strip()
+
     def _should_compile(self, child):
         """Checks if the current child should be compiled.
 
-- 
2.43.0


From 46293b01c61045a9f2e515b1396eee8481544a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:32 +0000
Subject: [PATCH 17/90] fix: Android strings of different tags can no longer
 end up with the same identity

---
 openformats/formats/android.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openformats/formats/android.py b/openformats/formats/android.py
index 3fcd28b..8445d57 100644
--- a/openformats/formats/android.py
+++ b/openformats/formats/android.py
@@ -256,7 +256,8 @@ class AndroidHandler(Handler):
             }
         ):
             if (name, product) in self.existing_hashes:
-                if child.tag in self.existing_hashes[(name, product)]:
+                if (child.tag in self.existing_hashes[(name, product)] or
+                        (name, product + child.tag) in self.existing_hashes):
                     format_dict = {
                         'name': name,
                         'child_tag': child.tag
-- 
2.43.0


From 1229999bd4f8f8d86eb4a15ee96535e7cd7e147f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:09 +0000
Subject: [PATCH 18/90] fix: AndroidUnescaped no longer crashes on self-closing
 tags

---
 openformats/formats/android_unescaped.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/openformats/formats/android_unescaped.py b/openformats/formats/android_unescaped.py
index 76c77ce..cd2f2aa 100644
--- a/openformats/formats/android_unescaped.py
+++ b/openformats/formats/android_unescaped.py
@@ -41,6 +41,9 @@ class AndroidUnescapedHandler(AndroidHandler):
 
     @staticmethod
     def _check_unescaped_characters_in_simple_string(text):
+        if text is None:
+            # Self-closing tag, there is nothing to check
+            return
         try:
             protected_string, _ = AndroidUnescapedHandler._protect_inline_tags(text)
         except Exception as e:
-- 
2.43.0


From 1ae4e05be3bb8c3527c2a9cb00332b5cd5fa4917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:49 +0000
Subject: [PATCH 19/90] fix: stringsdict files without <dict> or with empty
 <key/> or format tags no longer crash the parser

---
 openformats/formats/stringsdict.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/openformats/formats/stringsdict.py b/openformats/formats/stringsdict.py
index 26f6565..a79198f 100644
--- a/openformats/formats/stringsdict.py
+++ b/openformats/formats/stringsdict.py
@@ -8,7 +8,7 @@ import six
 
 from openformats.utils.compat import ensure_unicode
 
-from ..exceptions import RuleError
+from ..exceptions import ParseError, RuleError
 from ..handlers import Handler
 from ..strings import OpenString
 from ..transcribers import Transcriber
@@ -63,7 +63,9 @@ class StringsDictHandler(Handler):
         self.order_counter = itertools.count()
         source = self.transcriber.source
         # Skip xml info declaration
-        dict_tag_position = source.index(self.PARSE_START)
+        dict_tag_position = source.find(self.PARSE_START)
+        if dict_tag_position == -1:
+            raise ParseError(u"No <dict> tag found in file")
 
         parsed = NewDumbXml(source, dict_tag_position)
         XMLUtils.validate_no_text_characters(self.transcriber, parsed)
@@ -146,7 +148,7 @@ class StringsDictHandler(Handler):
             value_tag = self._get_key_value(dict_iterator, key_child)
             if secondary_key == self.KEY_FORMAT:
                 matches = re.match(ensure_unicode(self.VALUE_CONTENT_RE),
-                                   value_tag.content)
+                                   value_tag.content or u"")
                 if matches is not None:
                     # The prefix and the suffix are relative to the FIRST
                     # variable
@@ -341,7 +343,7 @@ class StringsDictHandler(Handler):
                 context={'tag': key_tag.tag}
             )
 
-        key_content = key_tag.content
+        key_content = key_tag.content or u""
         if main_key:
             if key_content in self.main_keys:
                 message = (
-- 
2.43.0


From de4af4b7b6a5106df49cc84aaf8d4cc469b2374f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:56 +0000
Subject: [PATCH 20/90] fix: stringsdict compile detects the newline type of
 the whole template

---
 openformats/formats/stringsdict.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/openformats/formats/stringsdict.py b/openformats/formats/stringsdict.py
index a79198f..a81576e 100644
--- a/openformats/formats/stringsdict.py
+++ b/openformats/formats/stringsdict.py
@@ -383,12 +383,11 @@ class StringsDictHandler(Handler):
     """ Compile Methods """
 
     def compile(self, template, stringset, **kwargs):
-        dict_tag_position = template.index(self.PARSE_START)
-
-        self.transcriber = Transcriber(template[dict_tag_position:])
+        self.transcriber = Transcriber(template)
         source = self.transcriber.source
 
-        parsed = NewDumbXml(source)
+        dict_tag_position = source.index(self.PARSE_START)
+        parsed = NewDumbXml(source, dict_tag_position)
         dict_iterator = parsed.find_children(self.DICT)
 
         self.stringset = iter(stringset)
@@ -397,10 +396,7 @@ class StringsDictHandler(Handler):
             self._compile_dict(dict_tag)
 
         self.transcriber.copy_until(len(source))
-        compiled = template[:dict_tag_position] +\
-            self.transcriber.get_destination()
-
-        return compiled
+        return self.transcriber.get_destination()
 
     def _compile_dict(self, dict_tag):
         """Compiles the `dict` tags that contains the translations.
-- 
2.43.0


From e9de42add1964a829bdf06f5c4650b5954c96551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:04 +0000
Subject: [PATCH 21/90] fix: stringsdict inlines the text around a variable
 only where it ends up in the variable's own strings

---
 openformats/formats/stringsdict.py | 40 ++++++++++++++----------------
 1 file changed, 19 insertions(+), 21 deletions(-)

diff --git a/openformats/formats/stringsdict.py b/openformats/formats/stringsdict.py
index a81576e..de25cbe 100644
--- a/openformats/formats/stringsdict.py
+++ b/openformats/formats/stringsdict.py
@@ -148,8 +148,16 @@ class StringsDictHandler(Handler):
             value_tag = self._get_key_value(dict_iterator, key_child)
             if secondary_key == self.KEY_FORMAT:
                 matches = re.match(ensure_unicode(self.VALUE_CONTENT_RE),
-                                   value_tag.content or u"")
-                if matches is not None:
+                                   value_tag.content or u"", re.DOTALL)
+                # Only inline the prefix and the suffix if the variable they
+                # surround follows, otherwise they would get lost
+                following_keys = (
+                    tag.content
+                    for tag in dict_tag.find_children(self.KEY)
+                    if tag.position > value_tag.position
+                )
+                if (matches is not None and
+                        matches.group("variable") in following_keys):
                     # The prefix and the suffix are relative to the FIRST
                     # variable
                     text_extras = {
@@ -157,6 +165,12 @@ class StringsDictHandler(Handler):
                         "prefix": matches.group("prefix"),
                         "suffix": matches.group("suffix"),
                     }
+                    # Leave only the variable in the value
+                    self.transcriber.copy_until(value_tag.text_position)
+                    self.transcriber.skip(len(text_extras["prefix"]))
+                    self.transcriber.copy_until(value_tag.content_end -
+                                                len(text_extras["suffix"]))
+                    self.transcriber.skip(len(text_extras["suffix"]))
                 # If the key is the one of the stringsdict defaults skip it
                 continue
 
@@ -185,23 +199,7 @@ class StringsDictHandler(Handler):
         """
         dict_iterator = self._handle_dict(dict_tag)
 
-        # If inline-replacement [1] is required, the first step is to remove
-        # the prefix and the suffix from the original string.
-        if extras is not None:
-            # This isolates the part of the source file between the main key
-            # and the plural rules, so we only replace the value of the
-            # NSStringLocalizedFormatKey value
-            text = self.transcriber.source[
-                self.transcriber.ptr:dict_tag.position
-            ]
-            text = text.replace(u'<string>{}'.format(extras['prefix']),
-                                u'<string>', 1)
-            text = text.replace(u'{}</string>'.format(extras['suffix']),
-                                u'</string>', 1)
-            self.transcriber.add(text)
-            self.transcriber.skip_until(dict_tag.position)
-        else:
-            self.transcriber.copy_until(dict_tag.position)
+        self.transcriber.copy_until(dict_tag.position)
 
         # Save the line in which the plural rule starts to associate it with
         # the openstring object. This is used later for generating helpful
@@ -230,7 +228,7 @@ class StringsDictHandler(Handler):
             if extras is not None and extras["variable"] == secondary_key:
                 content = u"{prefix}{content}{suffix}".format(
                     prefix=extras["prefix"],
-                    content=value_tag.content,
+                    content=value_tag.content or u"",
                     suffix=extras["suffix"],
                 )
             else:
@@ -240,7 +238,7 @@ class StringsDictHandler(Handler):
             # If empty <string> tag keep it. It is either a placeholder which
             # should be kept or it is missing plurals and we will raise a
             # ParseError on self._create_string.
-            if value_tag.content and value_tag.content.strip() != "":
+            if content and content.strip() != "":
                 self.transcriber.skip_until(value_tag.end)
             else:
                 self.transcriber.copy_until(value_tag.tail_position)
-- 
2.43.0


From 74e669452a14d52096d20932b98722705124e8f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:11 +0000
Subject: [PATCH 22/90] fix: stringsdict files no longer gain whitespace every
 time they are parsed and compiled

---
 openformats/formats/stringsdict.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/openformats/formats/stringsdict.py b/openformats/formats/stringsdict.py
index de25cbe..fd50436 100644
--- a/openformats/formats/stringsdict.py
+++ b/openformats/formats/stringsdict.py
@@ -211,6 +211,8 @@ class StringsDictHandler(Handler):
             )
 
         strings_dict = {}
+        # Whether the placeholders must be separated from what precedes them
+        separator_missing = False
         for key_tag in dict_iterator:
             key_content = self._handle_key(key_tag)
             value_tag = self._get_key_value(dict_iterator, key_tag)
@@ -218,6 +220,7 @@ class StringsDictHandler(Handler):
             # Skip key-value pairs that don't include any translatable content
             if key_content in [self.KEY_SPEC, self.KEY_VALUE]:
                 self.transcriber.copy_until(value_tag.tail_position)
+                separator_missing = True
                 continue
 
             # Get rule number from the key content
@@ -252,8 +255,9 @@ class StringsDictHandler(Handler):
         )
 
         if openstring is not None:
+            self.transcriber.skip_until(value_tag.end)
             self.transcriber.add(u''.join([
-                key_tag.tail,
+                key_tag.tail if separator_missing else u'',
                 self.PLACEHOLDER_KEY,
                 key_tag.tail,
                 self.PLACEHOLDER_STRING.format(
-- 
2.43.0


From 1dbab0c4ddc218eb15ad0ec7d19a4cfff87c90e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:48 +0000
Subject: [PATCH 23/90] fix: stringsdict rejects a variable defined twice under
 the same key

---
 openformats/formats/stringsdict.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/openformats/formats/stringsdict.py b/openformats/formats/stringsdict.py
index fd50436..dc8379e 100644
--- a/openformats/formats/stringsdict.py
+++ b/openformats/formats/stringsdict.py
@@ -288,6 +288,17 @@ class StringsDictHandler(Handler):
             }
         )
         if string_not_empty:
+            if (main_key, secondary_key) in self.existing_hashes:
+                XMLUtils.raise_error(
+                    self.transcriber,
+                    tag,
+                    u"Duplicate key ({secondary_key}) in ({main_key}) found "
+                    u"on line {line_number}",
+                    context={'main_key': main_key,
+                             'secondary_key': secondary_key,
+                             'line_number': line_number}
+                )
+            self.existing_hashes.add((main_key, secondary_key))
             openstring = OpenString(
                 main_key,
                 strings_dict,
-- 
2.43.0


From 8abe3ea4426ea8972226243bfe956db9962d7b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:55 +0000
Subject: [PATCH 24/90] fix: stringsdict rejects repeated plural rules instead
 of losing a form

---
 openformats/formats/stringsdict.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/openformats/formats/stringsdict.py b/openformats/formats/stringsdict.py
index dc8379e..57a3c97 100644
--- a/openformats/formats/stringsdict.py
+++ b/openformats/formats/stringsdict.py
@@ -225,6 +225,14 @@ class StringsDictHandler(Handler):
 
             # Get rule number from the key content
             rule_number = self._validate_plural(key_content, key_tag)
+            if rule_number in strings_dict:
+                XMLUtils.raise_error(
+                    self.transcriber,
+                    key_tag,
+                    u"The plural <key> tag on line {line_number} contains "
+                    u"a repeated plural rule: `{rule}`",
+                    context={'rule': key_content}
+                )
             # If inline-replacement [1] is needed, and we now process the FIRST
             # variable, we apply the prefix and the suffix to each of the
             # plural rules
-- 
2.43.0


From f8b4be4703c009595d7a21ed177f5a9ae93d3bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:01 +0000
Subject: [PATCH 25/90] fix: Android rejects repeated plural quantities instead
 of losing a form

---
 openformats/formats/android.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/openformats/formats/android.py b/openformats/formats/android.py
index 8445d57..9b65a0c 100644
--- a/openformats/formats/android.py
+++ b/openformats/formats/android.py
@@ -164,6 +164,14 @@ class AndroidHandler(Handler):
         for item_tag in item_iterator:
             if item_tag.tag != DumbXml.COMMENT:
                 rule_number = self._validate_plural_item(item_tag)
+                if rule_number in string_rules_text:
+                    XMLUtils.raise_error(
+                        self.transcriber,
+                        item_tag,
+                        u"The `quantity` attribute on line {line_number} "
+                        u"contains a repeated plural: `{rule}`",
+                        context={'rule': item_tag.attrib['quantity']}
+                    )
                 string_rules_text[rule_number] = item_tag.content
 
         name, product = self._get_child_attributes(child)
-- 
2.43.0


From fb9438c189cf8b2bd257d1385d88fcf9cfc9e9b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:59 +0000
Subject: [PATCH 26/90] fix: customizable XML finds the root tag of files with
 DOS newlines

---
 openformats/formats/customizable_xml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openformats/formats/customizable_xml.py b/openformats/formats/customizable_xml.py
index a00cb77..d41129d 100644
--- a/openformats/formats/customizable_xml.py
+++ b/openformats/formats/customizable_xml.py
@@ -130,7 +130,7 @@ class CustomizableXMLHandler(Handler):
         source = transcriber.source
 
         # Everything starts at the root tag
-        root_tag_pos = self._get_root_node_pos(content)
+        root_tag_pos = self._get_root_node_pos(source)
         parsed = NewDumbXml(source, root_tag_pos)
         stringset = []
 
-- 
2.43.0


From 4a4172ff0f5b988ab0bcb2e1b2a2ade6b79d7484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:05 +0000
Subject: [PATCH 27/90] fix: customizable XML sections without a name are
 rejected with a ParseError

---
 openformats/formats/customizable_xml.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/openformats/formats/customizable_xml.py b/openformats/formats/customizable_xml.py
index d41129d..c057c88 100644
--- a/openformats/formats/customizable_xml.py
+++ b/openformats/formats/customizable_xml.py
@@ -151,6 +151,13 @@ class CustomizableXMLHandler(Handler):
                     if not tag.content:
                         continue
 
+                    if self.section_id_name not in section_tag.attrib:
+                        raise ParseError(
+                            'Missing "{key}" attribute in <{section}> '
+                            'node'.format(key=self.section_id_name,
+                                          section=self.section_name)
+                        )
+
                     key = self._get_key(string_tag, tag)
                     string = OpenString(
                         key,
-- 
2.43.0


From 492de2a399ddc7abd3b1d49a86136a7483273168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:12 +0000
Subject: [PATCH 28/90] fix: customizable XML compile detects the newline type
 of the whole template

---
 openformats/formats/customizable_xml.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/openformats/formats/customizable_xml.py b/openformats/formats/customizable_xml.py
index c057c88..0a85e7c 100644
--- a/openformats/formats/customizable_xml.py
+++ b/openformats/formats/customizable_xml.py
@@ -198,12 +198,11 @@ class CustomizableXMLHandler(Handler):
         :rtype: str
         :raise ParseError: if the root node is not found in `template`
         """
-        root_tag_pos = self._get_root_node_pos(template)
-
-        self.transcriber = Transcriber(template[root_tag_pos:])
+        self.transcriber = Transcriber(template)
         source = self.transcriber.source
 
-        parsed = NewDumbXml(source)
+        root_tag_pos = self._get_root_node_pos(source)
+        parsed = NewDumbXml(source, root_tag_pos)
         string_iterator = parsed.find_descendants(self.string_name)
 
         self.stringset = iter(stringset)
@@ -213,11 +212,7 @@ class CustomizableXMLHandler(Handler):
             self._compile_string(string_tag)
 
         self.transcriber.copy_to_end()
-        compiled = (
-            template[:root_tag_pos] + self.transcriber.get_destination()
-        )
-
-        return compiled
+        return self.transcriber.get_destination()
 
     def _compile_string(self, string_tag):
         """Use the given `string_tag` in order to update the template,
-- 
2.43.0


From f7ef2445fce9e5830fa8126af5831b8fcb7e68b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:49 +0000
Subject: [PATCH 29/90] fix: customizable XML leaves blank, self-closing and
 foreign tags alone when compiling

---
 openformats/formats/customizable_xml.py | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/openformats/formats/customizable_xml.py b/openformats/formats/customizable_xml.py
index 0a85e7c..84cbd07 100644
--- a/openformats/formats/customizable_xml.py
+++ b/openformats/formats/customizable_xml.py
@@ -148,7 +148,7 @@ class CustomizableXMLHandler(Handler):
 
                 for tag in all_tags:
                     # No translatable content found, move on
-                    if not tag.content:
+                    if not (tag.content or '').strip():
                         continue
 
                     if self.section_id_name not in section_tag.attrib:
@@ -203,13 +203,13 @@ class CustomizableXMLHandler(Handler):
 
         root_tag_pos = self._get_root_node_pos(source)
         parsed = NewDumbXml(source, root_tag_pos)
-        string_iterator = parsed.find_descendants(self.string_name)
-
         self.stringset = iter(stringset)
         self.next_string = self._get_next_string()
 
-        for string_tag in string_iterator:
-            self._compile_string(string_tag)
+        # Visit the same tags that were visited during parsing
+        for section_tag in parsed.find_children(self.section_name):
+            for string_tag in section_tag.find_children(self.string_name):
+                self._compile_string(string_tag)
 
         self.transcriber.copy_to_end()
         return self.transcriber.get_destination()
@@ -228,21 +228,20 @@ class CustomizableXMLHandler(Handler):
               <variant context="b">Yet another string</variant>
             </string>
         """
-        # Copy until "<string key="..." ...>"
-        self.transcriber.copy_until(string_tag.text_position)
-
         base_and_variants = string_tag.find_children(
             self.base_string_name, self.variant_string_name,
         )
         for translatable_str_node in base_and_variants:
+            # Leave the XML nodes that had nothing to translate as they are
+            if not (translatable_str_node.content or '').strip():
+                continue
+
             # Copy until "<base>" or "<variant>"
             self.transcriber.copy_until(translatable_str_node.text_position)
 
-            # Only consume the current translation if the XML node has text
-            if translatable_str_node.text:
-                # Add the translation
-                self.transcriber.add(self.next_string.string)
-                self.next_string = self._get_next_string()
+            # Add the translation
+            self.transcriber.add(self.next_string.string)
+            self.next_string = self._get_next_string()
 
             # Skip the hash placeholder
             self.transcriber.skip_until(translatable_str_node.content_end)
-- 
2.43.0


From 13c65b42104a96924a7684cc600bb6927ebb313e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:01 +0000
Subject: [PATCH 30/90] fix: PO compile is not thrown off by strings that are
 not in the template

---
 openformats/formats/po.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/openformats/formats/po.py b/openformats/formats/po.py
index 82f51c1..7bc6d81 100644
--- a/openformats/formats/po.py
+++ b/openformats/formats/po.py
@@ -264,14 +264,24 @@ class PoHandler(Handler):
         return six.text_type("\n".join(result))
 
     def compile(self, template, stringset, **kwargs):
-        stringset = iter(stringset)
-        next_string = next(stringset, None)
-
         if isinstance(template, polib.POFile):
             po = template
         else:
             po = polib.pofile(template)
 
+        # Strings that are not in the template, eg fuzzy ones, must not get in
+        # the way of the ones that follow
+        placeholders = set()
+        for entry in po:
+            placeholders.add(entry.msgstr)
+            placeholders.add(entry.msgstr_plural.get("0"))
+        stringset = (
+            string
+            for string in stringset
+            if string.template_replacement in placeholders
+        )
+        next_string = next(stringset, None)
+
         for i, entry in enumerate(po):
             if next_string is not None:
                 is_plural = True if entry.msgid_plural.strip() else False
-- 
2.43.0


From 0b1c33c71f40aff36e093c746be2ee5422a5ec14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:18 +0000
Subject: [PATCH 31/90] fix: PO handler no longer modifies the template object
 it is given

---
 openformats/formats/po.py | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/openformats/formats/po.py b/openformats/formats/po.py
index 7bc6d81..fd2516d 100644
--- a/openformats/formats/po.py
+++ b/openformats/formats/po.py
@@ -1,6 +1,6 @@
 import itertools
 import re
-from copy import copy
+from copy import deepcopy
 
 import polib
 import six
@@ -238,6 +238,16 @@ class PoHandler(Handler):
             "fuzzy": "fuzzy" in entry.flags,
         }
 
+    @staticmethod
+    def _load_template(template):
+        """Get the PO file of a template, which may be one already.
+
+        The caller's template is never modified.
+        """
+        if isinstance(template, polib.POFile):
+            return deepcopy(template)
+        return polib.pofile(template)
+
     @staticmethod
     def pofile_to_str(po_file):
         """
@@ -264,10 +274,7 @@ class PoHandler(Handler):
         return six.text_type("\n".join(result))
 
     def compile(self, template, stringset, **kwargs):
-        if isinstance(template, polib.POFile):
-            po = template
-        else:
-            po = polib.pofile(template)
+        po = self._load_template(template)
 
         # Strings that are not in the template, eg fuzzy ones, must not get in
         # the way of the ones that follow
@@ -308,10 +315,7 @@ class PoHandler(Handler):
         iterator = iter(stringset)
         next_string = next(iterator, None)
 
-        if isinstance(template, polib.POFile):
-            po = template
-        else:
-            po = polib.pofile(template)
+        po = self._load_template(template)
 
         indexes_to_remove = []
         matched_count = 0
@@ -344,10 +348,7 @@ class PoHandler(Handler):
         if not remaining:
             return template
 
-        if isinstance(template, polib.POFile):
-            po = template
-        else:
-            po = polib.pofile(template)
+        po = self._load_template(template)
 
         for os in remaining:
             entry = self._make_added_entry(os)
-- 
2.43.0


From 23931e85ab2d7688b95eb3d59c02b5b6ead25ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:29 +0000
Subject: [PATCH 32/90] fix: PO keys with backslashes before a colon are split
 into their msgids again

---
 openformats/formats/po.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/openformats/formats/po.py b/openformats/formats/po.py
index fd2516d..5d75b32 100644
--- a/openformats/formats/po.py
+++ b/openformats/formats/po.py
@@ -362,7 +362,7 @@ class PoHandler(Handler):
 
     @staticmethod
     def _unescape_key(part: str) -> str:
-        return part.replace("\\:", ":").replace("\\\\", "\\")
+        return re.sub(r"\\([\\:])", r"\1", part)
 
     def _split_key_to_msgids(self, key) -> tuple[str, str]:
         """
@@ -371,10 +371,12 @@ class PoHandler(Handler):
         """
         # find first *unescaped* colon
         separation_index = None
+        is_escaped = False
         for i, ch in enumerate(key):
-            if ch == ":" and (i == 0 or key[i - 1] != "\\"):
+            if ch == ":" and not is_escaped:
                 separation_index = i
                 break
+            is_escaped = ch == "\\" and not is_escaped
 
         if separation_index is None:
             msgid_escaped = key
-- 
2.43.0


From 0a3edf6e3ba0f3c00845f0f5fca70a3175d23477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:36 +0000
Subject: [PATCH 33/90] fix: ICU plural rules that merely end in a known rule
 are rejected

---
 openformats/utils/icu.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/openformats/utils/icu.py b/openformats/utils/icu.py
index 7f58979..a365888 100644
--- a/openformats/utils/icu.py
+++ b/openformats/utils/icu.py
@@ -291,7 +291,9 @@ class ICUParser(object):
 
         # Make sure the plurality rules are valid
         # If not, an error will be raised
-        if len(valid_matches) != len(all_matches):
+        if [match[0] for match in valid_matches] != [
+            match[0] for match in all_matches
+        ]:
             self._handle_invalid_plural_format(
                 serialized_strings, any_plural_item, key, value
             )
-- 
2.43.0


From 0bba92cbf456876ba89abe24a174401f4bb1681f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:45 +0000
Subject: [PATCH 34/90] fix: ICU plurals with repeated or no rules are rejected
 with a ParseError

---
 openformats/utils/icu.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/openformats/utils/icu.py b/openformats/utils/icu.py
index a365888..3fd64d5 100644
--- a/openformats/utils/icu.py
+++ b/openformats/utils/icu.py
@@ -298,6 +298,12 @@ class ICUParser(object):
                 serialized_strings, any_plural_item, key, value
             )
 
+        if len(valid_matches) == 0:
+            raise ParseError(
+                'No plural rules found in pluralized entry with key: {}, '
+                'value: "{}"'.format(key, value)
+            )
+
         # Create a list of tuples [(plurality_str, content_with_braces)]
         all_strings_list = [
             self._parse_plural_content(match[0])
@@ -306,6 +312,12 @@ class ICUParser(object):
 
         icu_string = ICUString(key, all_strings_list, pluralized=True)
 
+        if len(icu_string.strings_by_rule) != len(all_strings_list):
+            raise ParseError(
+                'Every plural rule must be given exactly once in pluralized '
+                'entry with key: {}, value: "{}"'.format(key, value)
+            )
+
         # ICU's message format contains an arbitrary string at the beginning.
         # We need to include that in the template, because otherwise we won't
         # have enough information to recreate it in the compilation phase.
-- 
2.43.0


From 5878939f6c8856c6482012cb59e94bae5e1d379b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:46 +0000
Subject: [PATCH 35/90] fix: ICU plurals followed by further text are kept
 whole instead of losing that text for translation

---
 openformats/utils/icu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openformats/utils/icu.py b/openformats/utils/icu.py
index 3fd64d5..2560134 100644
--- a/openformats/utils/icu.py
+++ b/openformats/utils/icu.py
@@ -199,7 +199,7 @@ class ICUParser(object):
         """
         matches = re.match(
             ensure_unicode(
-                r'\s*{\s*([A-Za-z-_\d]+)\s*,\s*([A-Za-z_]+)\s*,\s*(.*)}\s*'
+                r'\s*{\s*([A-Za-z-_\d]+)\s*,\s*([A-Za-z_]+)\s*,\s*(.*)}(?:\s|\\n|\\t)*$'
             ),
             value
         )
-- 
2.43.0


From 13fcd41b5425aa469fcbdecefa62fdacda8d7732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:55 +0000
Subject: [PATCH 36/90] fix: ICU plural rules may follow an escaped newline
 directly

---
 openformats/utils/icu.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openformats/utils/icu.py b/openformats/utils/icu.py
index 2560134..af5024f 100644
--- a/openformats/utils/icu.py
+++ b/openformats/utils/icu.py
@@ -276,8 +276,9 @@ class ICUParser(object):
         # Therefore, we also match any <alphanumeric> {<content>} string
         # and see if there are differences compared to the valid results
         # we got above.
+        # An escaped newline or tab right before the rule is not part of it.
         any_plural_item = (
-            pyparsing.Word('=' + pyparsing.alphanums) +
+            pyparsing.Regex(r'(?<!\\)[=A-Za-z0-9]+') +
             pyparsing.nestedExpr('{', '}', ignoreExpr=pyparsing.Literal("'"))
         )
 
-- 
2.43.0


From 22c29fa00bb799c2e641caad1a679210570e2ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:29 +0000
Subject: [PATCH 37/90] fix: unescaping a JSON string with a lone surrogate no
 longer crashes

---
 openformats/utils/json.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/openformats/utils/json.py b/openformats/utils/json.py
index de76f47..a7ef2aa 100644
--- a/openformats/utils/json.py
+++ b/openformats/utils/json.py
@@ -398,7 +398,11 @@ def _unescape_generator(string):
             # Surrogates: https://unicode.org/faq/utf_bom.html#utf16-2
             if 0xd800 <= ord(unescaped) <= 0xdfff:
                 unicode_escaped = string[ptr:ptr+12]
-                escaped = json.loads('"' + unicode_escaped + '"')
+                try:
+                    escaped = json.loads('"' + unicode_escaped + '"')
+                except ValueError:
+                    # Not followed by its other half
+                    escaped = u''
                 if len(escaped) == 1:
                     yield escaped
                     ptr += 12
-- 
2.43.0


From 41b50457798c70004f4cdc2a058994316ff26a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:44 +0000
Subject: [PATCH 38/90] fix: an XML tag left open at the end of the document is
 a syntax error, not an IndexError

---
 openformats/utils/xml.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/openformats/utils/xml.py b/openformats/utils/xml.py
index 9f1ca87..1967c72 100644
--- a/openformats/utils/xml.py
+++ b/openformats/utils/xml.py
@@ -557,6 +557,11 @@ class NewDumbXml(object):
 
         start = self.text_position + len(self.text)
         while True:
+            if start + 1 >= len(self.source):
+                raise DumbXmlSyntaxError(
+                    u"Tag '{}' not closed on line {}".
+                    format(self.tag, self._find_line_number())
+                )
             if self.source[start + 1] == self.FORWARD_SLASH:
                 # We found the closing tag
                 self._content_end = start
-- 
2.43.0


From 1a7479c8c74c623486f285c42933b3ebfabbc041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:44 +0000
Subject: [PATCH 39/90] fix: whitespace before the equals sign is not part of
 an XML attribute's name

---
 openformats/utils/xml.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openformats/utils/xml.py b/openformats/utils/xml.py
index 1967c72..3d677b2 100644
--- a/openformats/utils/xml.py
+++ b/openformats/utils/xml.py
@@ -462,7 +462,8 @@ class NewDumbXml(object):
                     # <a b="c" ... >
                     #        ^
                     status = None
-                    self._attributes.append((key_position, u''.join(key),
+                    self._attributes.append((key_position,
+                                             u''.join(key).rstrip(),
                                              value_position, u''.join(value)))
                 else:
                     # <a b="cde" ... >
-- 
2.43.0


From 1a919d2fbc319d4428ea6c5498c91c46e03cf042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:26 +0000
Subject: [PATCH 40/90] fix: escaping a text that closes the temporary wrapper
 tag no longer loses the rest

---
 openformats/utils/xml.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/openformats/utils/xml.py b/openformats/utils/xml.py
index 3d677b2..65b0562 100644
--- a/openformats/utils/xml.py
+++ b/openformats/utils/xml.py
@@ -29,6 +29,9 @@ def escape(string, inline_tags, escape_text):
     wrapped_text = transcriber.source
     try:
         root = NewDumbXml(wrapped_text)
+        if root.tail_position != len(wrapped_text):
+            # `string` closes the temporary tag
+            return escape_text(string)
         _escape_tag(root, transcriber, inline_tags, escape_text)
     except DumbXmlSyntaxError:
         # If opening-closing tags do not match within text, revert to the
-- 
2.43.0


From 99673d24e136f1dd46e6459a2664bbbad60c3123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:26 +0000
Subject: [PATCH 41/90] fix: Android escaping only treats an at-sign at the
 start of the string specially

---
 openformats/formats/android.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/openformats/formats/android.py b/openformats/formats/android.py
index 9b65a0c..25f1e13 100644
--- a/openformats/formats/android.py
+++ b/openformats/formats/android.py
@@ -613,18 +613,18 @@ class AndroidHandler(Handler):
         """
 
         def _escape_text(string):
-            # If the string starts with an at-sign that doesn't identify
-            # another string, then we need to escape it using a leading
-            # backslash
-            if string.startswith(u'@') and not string.startswith(u'@string/'):
-                string = string.replace(u'@', u'\\@', 1)
             return string.\
                 replace(DumbXml.DOUBLE_QUOTES,
                         u''.join([DumbXml.BACKSLASH, DumbXml.DOUBLE_QUOTES])).\
                 replace(DumbXml.SINGLE_QUOTE,
                         u''.join([DumbXml.BACKSLASH, DumbXml.SINGLE_QUOTE]))
 
-        return xml_escape(string, AndroidHandler.INLINE_TAGS, _escape_text)
+        escaped = xml_escape(string, AndroidHandler.INLINE_TAGS, _escape_text)
+        # If the string starts with an at-sign that doesn't identify another
+        # string, then we need to escape it using a leading backslash
+        if string.startswith(u'@') and not string.startswith(u'@string/'):
+            escaped = DumbXml.BACKSLASH + escaped
+        return escaped
 
     @staticmethod
     def unescape(string):
-- 
2.43.0


From e6d7e8b730d6880cbe8fd86210f2238350fbf838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:26 +0000
Subject: [PATCH 42/90] fix: ANDROID_UNESCAPED escaped a leading at-sign twice
 and left the '<' of foreign tags

---
 openformats/formats/android_unescaped.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/openformats/formats/android_unescaped.py b/openformats/formats/android_unescaped.py
index cd2f2aa..e4567a7 100644
--- a/openformats/formats/android_unescaped.py
+++ b/openformats/formats/android_unescaped.py
@@ -2,7 +2,7 @@ import re
 from hashlib import md5
 from openformats.exceptions import ParseError
 from openformats.formats.android import AndroidHandler
-from ..utils.xml import NewDumbXml as DumbXml
+from ..utils.xml import DumbXmlSyntaxError, NewDumbXml as DumbXml
 
 
 class AndroidUnescapedHandler(AndroidHandler):
@@ -74,6 +74,8 @@ class AndroidUnescapedHandler(AndroidHandler):
         protected_tags = {}
         wrapped_text = f"<x>{text}</x>"
         parsed = DumbXml(wrapped_text)
+        if parsed.tail_position != len(wrapped_text):
+            raise DumbXmlSyntaxError("The text closes a tag it has not opened")
         children_iterator = parsed.find_children()
 
         for child in children_iterator:
@@ -170,13 +172,15 @@ class AndroidUnescapedHandler(AndroidHandler):
                 # escape all special characters. One case of these errors is the
                 # presence of '<' symbols without corresponding closing tags, causing
                 # parsing errors.
-                string = AndroidHandler.escape(string)
+                string = AndroidUnescapedHandler._escape_quotes(string)
                 string = AndroidUnescapedHandler.escape_special_characters(string)
                 string = string.replace("<", "&lt;")
                 return string
 
-            string = AndroidHandler.escape(string)
+            string = AndroidUnescapedHandler._escape_quotes(string)
             string = AndroidUnescapedHandler.escape_special_characters(string)
+            # All inline tags are protected, so this doesn't start a tag
+            string = string.replace("<", "&lt;")
             return AndroidUnescapedHandler._unprotect_inline_tags(
                 string, protected_tags
             )
@@ -185,6 +189,14 @@ class AndroidUnescapedHandler(AndroidHandler):
             string, _escape, is_escape=True
         )
 
+    @staticmethod
+    def _escape_quotes(string):
+        escaped = AndroidHandler.escape(string)
+        if string.startswith("@") and escaped.startswith(DumbXml.BACKSLASH):
+            # `escape_special_characters` takes care of all at-signs
+            escaped = escaped[1:]
+        return escaped
+
     @staticmethod
     def unescape(string):
 
-- 
2.43.0


From ef63c391252a61e3f55675ab1f49de83602436b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:35 +0000
Subject: [PATCH 43/90] fix: JSON escaping left control characters that JSON
 does not allow in a string

---
 openformats/utils/json.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/openformats/utils/json.py b/openformats/utils/json.py
index a7ef2aa..186cfd4 100644
--- a/openformats/utils/json.py
+++ b/openformats/utils/json.py
@@ -329,6 +329,9 @@ def _escape_generator(string):
         elif symbol == DumbJson.TAB:
             yield DumbJson.BACKSLASH
             yield u't'
+        elif symbol < u' ':
+            # The rest of the control characters
+            yield u'\\u{:04x}'.format(ord(symbol))
         else:
             yield symbol
 
-- 
2.43.0


From c06d47ea7b9cbc5497e5b97ae26fb727ede5381b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:52 +0000
Subject: [PATCH 44/90] fix: VTT timing errors name the line of the timings,
 with or without an identifier

---
 openformats/formats/vtt.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/openformats/formats/vtt.py b/openformats/formats/vtt.py
index 05c2799..3b06974 100644
--- a/openformats/formats/vtt.py
+++ b/openformats/formats/vtt.py
@@ -71,6 +71,7 @@ class VttHandler(Handler):
         identifier = "\n".join(src_strings[:timings_index])
 
         # timings
+        line_number = self.transcriber.line_number + timings_index
         timings_parse_error = False
         try:
             splitted = timings.split(None, 3)
@@ -85,20 +86,20 @@ class VttHandler(Handler):
                 timings_parse_error = True
         if timings_parse_error:
             raise ParseError(
-                f"Timings on line {self.transcriber.line_number + 1} "
+                f"Timings on line {line_number} "
                 "don't follow '[start] --> [end] (position)' pattern"
             )
         try:
             start = self._format_timing(start)
         except ValueError:
             raise ParseError(
-                f"Problem with start of timing at line {self.transcriber.line_number + 1}: '{start}'"
+                f"Problem with start of timing at line {line_number}: '{start}'"
             )
         try:
             end = self._format_timing(end)
         except ValueError:
             raise ParseError(
-                f"Problem with end of timing at line {self.transcriber.line_number + 1}: '{end}'"
+                f"Problem with end of timing at line {line_number}: '{end}'"
             )
 
         # Content
-- 
2.43.0


From eb90d553df06dd6508f4bbe0357d438031c7a257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:45 +0000
Subject: [PATCH 45/90] fix: YAML texts are written in a style that reads back
 as the same string

Plain texts that look like numbers, booleans or null, block scalars with
leading spaces or at unusual indentation, and block texts with characters the
block styles cannot hold came back as something else.
---
 openformats/formats/yaml/yaml.py | 85 +++++++++++++++++++++++++-------
 1 file changed, 66 insertions(+), 19 deletions(-)

diff --git a/openformats/formats/yaml/yaml.py b/openformats/formats/yaml/yaml.py
index 0e4c729..a6ec0f2 100644
--- a/openformats/formats/yaml/yaml.py
+++ b/openformats/formats/yaml/yaml.py
@@ -6,8 +6,11 @@ import re
 import six
 from yaml.constructor import SafeConstructor
 from yaml.emitter import Emitter
+from yaml.nodes import ScalarNode
+from yaml.resolver import Resolver
 
 from openformats.exceptions import ParseError
+from openformats.formats.yaml.constants import YAML_STRING_ID
 from openformats.formats.yaml.utils import (TxYamlDumper, TxYamlLoader,
                                             YamlGenerator, yaml)
 from openformats.handlers import Handler
@@ -43,6 +46,9 @@ class YamlHandler(Handler):
 
     language_code = None
 
+    # line breaks that, unless escaped, are read as if they were a `\n`
+    FOLDED_BREAKS = u'[\r\x85\u2028\u2029]'
+
     def parse(self, content, **kwargs):
         """ Parses the given YAML content to create stringset and template
 
@@ -331,14 +337,17 @@ class YamlHandler(Handler):
         """
         return yaml_data
 
-    def _write_styled_literal(self, string):
+    def _write_styled_literal(self, string, parent_column=None):
         """ Produce a properly formatted YAML string
 
         Properly format translation string based on string's style
-        on the original source file using yaml.emitter.Emitter class.
+        on the original source file using yaml.emitter.Emitter class. If the
+        style can't represent the translation, double quotes are used.
 
         Args:
             string: An OpenString instance
+            parent_column: The indentation of the key or list item the string
+                belongs to, if known
 
         Returns:
             The formatted string.
@@ -349,6 +358,10 @@ class YamlHandler(Handler):
         stream = StringIO()
         emitter = Emitter(stream, allow_unicode=True)
         indent = self.indent * (len(string.key.split('.')) + self.extra_indent)
+        if parent_column is not None:
+            indent = max(indent, parent_column + 1)
+            # block styles may need to mention their relative indentation
+            emitter.best_indent = indent - parent_column
         emitter.indent = indent
         # set best_width to `float(inf)` so that long strings are not broken
         # into multiple lines
@@ -358,29 +371,61 @@ class YamlHandler(Handler):
 
         style = string.flags.split(':')[-1]
 
-        if style == '"':
+        if re.search(self.FOLDED_BREAKS, string.string):
             emitter.write_double_quoted(string.string)
-        elif style == '\'':
-            if analysis.allow_single_quoted:
-                emitter.write_single_quoted(string.string)
-            else:
-                emitter.write_double_quoted(string.string)
-        elif style == '':
-            if analysis.allow_block_plain and analysis.allow_flow_plain:
-                emitter.write_plain(string.string)
+        elif style == '\'' and analysis.allow_single_quoted:
+            emitter.write_single_quoted(string.string)
+        elif (style == '' and analysis.allow_block_plain and
+                analysis.allow_flow_plain and
+                (string.context or self._is_plain_string(string.string))):
+            emitter.write_plain(string.string)
+        elif (style in ('|', '>') and emitter.best_indent < 10 and
+                self._is_block_string(string.string, analysis)):
+            if style == '|':
+                emitter.write_literal(string.string)
             else:
-                emitter.write_double_quoted(string.string)
-        elif style == '|':
-            emitter.write_literal(string.string)
-        elif style == '>':
-            emitter.write_folded(string.string)
+                emitter.write_folded(string.string)
+        else:
+            emitter.write_double_quoted(string.string)
 
         translation = emitter.stream.getvalue() or string.string
-        if translation.startswith(">-") and not translation.endswith("\n"):
+        if style in ('|', '>') and not translation.endswith("\n"):
             translation += "\n"
         emitter.stream.close()
         return translation
 
+    def _is_plain_string(self, text):
+        """ Whether `text` is read as a string when written without quotes, as
+        opposed to a number, a boolean, null etc """
+        tag = Resolver().resolve(ScalarNode, text, (True, False))
+        return tag == YAML_STRING_ID
+
+    def _is_block_string(self, text, analysis):
+        """ Whether `text` can be written as a literal or a folded block. The
+        emitter avoids blocks with trailing spaces, but only those at the end
+        of a line that isn't the last or of a blank line are ambiguous. """
+        return analysis.allow_block or (analysis.allow_single_quoted and
+                                        not analysis.multiline and
+                                        text.strip() != '')
+
+    def _get_parent_column(self, template, position):
+        """ Get the indentation of the key or list item that has its value at
+        a position of the template.
+
+        Returns:
+            The number of columns or None if the value is not on the same line
+            as its key or list item
+        """
+        line = template[template.rfind('\n', 0, position) + 1:position]
+        # Ignore anchors and tags
+        line = re.sub(ensure_unicode(r'(?:[&!]\S*\s+)+$'), '', line)
+        prefix = re.match(ensure_unicode(r' *(?:- +)*'), line).group()
+        if len(prefix) < len(line):
+            return len(prefix)
+        elif '-' in prefix:
+            return prefix.rindex('-')
+        return None
+
     def _compile_from_template(self, template, stringset, **kwargs):
         """ Compiles translation file from template
 
@@ -394,11 +439,13 @@ class YamlHandler(Handler):
         template = transcriber.source
 
         for string in stringset:
+            hash_position = template.index(string.template_replacement)
             if string.pluralized:
                 translation = self._compile_pluralized(string)
             else:
-                translation = self._write_styled_literal(string)
-            hash_position = template.index(string.template_replacement)
+                translation = self._write_styled_literal(
+                    string, self._get_parent_column(template, hash_position)
+                )
             transcriber.copy_until(hash_position)
             # The context contains custom tags. If it exists, we must prepend
             # it and apply a space afterwards so it doesn't get merged with the
-- 
2.43.0


From 6f2f3264c1d8681b9f775393b124aaf6aa1ba784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:41 +0000
Subject: [PATCH 46/90] fix: YAML plurals are written in their styles and
 indentation so that they read back

Plurals ending in a block scalar swallowed the next key, lost or gained a final
newline, broke files indented by four spaces and flow plurals written without
the exact spacing; documents without a root mapping crashed.
---
 openformats/formats/yaml/yaml.py      |  60 ++++++++----
 openformats/formats/yaml/yaml_i18n.py | 136 ++++++++++----------------
 2 files changed, 94 insertions(+), 102 deletions(-)

diff --git a/openformats/formats/yaml/yaml.py b/openformats/formats/yaml/yaml.py
index a6ec0f2..db4bdb5 100644
--- a/openformats/formats/yaml/yaml.py
+++ b/openformats/formats/yaml/yaml.py
@@ -75,6 +75,7 @@ class YamlHandler(Handler):
         """
         template = []
         stringset = []
+        self._content = content
         # The first argument of the add_constructor method is the tag you want
         # to handle. If you provide None as an argument, all the unknown tags
         # will be handled by the constructor specified in the second argument.
@@ -355,9 +356,32 @@ class YamlHandler(Handler):
         if string.flags is None:
             return string.string
 
+        indent = self.indent * (len(string.key.split('.')) + self.extra_indent)
+        return self._write_literal(
+            string.string, string.flags.split(':')[-1], indent,
+            parent_column, tagged=bool(string.context)
+        )
+
+    def _write_literal(self, text, style, indent, parent_column=None,
+                       tagged=False, flow=True):
+        """ Write a text in a YAML style, or in double quotes if the style
+        can't represent it
+
+        Args:
+            text: The text to write
+            style: The YAML style: one of '', '\'', '"', '|' and '>'
+            indent: The indentation of the lines after the first
+            parent_column: The indentation of the key or list item the text
+                belongs to, if known
+            tagged: Whether the text has a tag, so that it can't be mistaken
+                for a number etc
+            flow: Whether the text may stand inside a flow collection
+
+        Returns:
+            The formatted string.
+        """
         stream = StringIO()
         emitter = Emitter(stream, allow_unicode=True)
-        indent = self.indent * (len(string.key.split('.')) + self.extra_indent)
         if parent_column is not None:
             indent = max(indent, parent_column + 1)
             # block styles may need to mention their relative indentation
@@ -367,28 +391,26 @@ class YamlHandler(Handler):
         # into multiple lines
         emitter.best_width = float('inf')
 
-        analysis = emitter.analyze_scalar(string.string)
-
-        style = string.flags.split(':')[-1]
+        analysis = emitter.analyze_scalar(text)
 
-        if re.search(self.FOLDED_BREAKS, string.string):
-            emitter.write_double_quoted(string.string)
+        if re.search(self.FOLDED_BREAKS, text):
+            emitter.write_double_quoted(text)
         elif style == '\'' and analysis.allow_single_quoted:
-            emitter.write_single_quoted(string.string)
+            emitter.write_single_quoted(text)
         elif (style == '' and analysis.allow_block_plain and
-                analysis.allow_flow_plain and
-                (string.context or self._is_plain_string(string.string))):
-            emitter.write_plain(string.string)
+                (analysis.allow_flow_plain or not flow) and
+                (tagged or self._is_plain_string(text))):
+            emitter.write_plain(text)
         elif (style in ('|', '>') and emitter.best_indent < 10 and
-                self._is_block_string(string.string, analysis)):
+                self._is_block_string(text, analysis)):
             if style == '|':
-                emitter.write_literal(string.string)
+                emitter.write_literal(text)
             else:
-                emitter.write_folded(string.string)
+                emitter.write_folded(text)
         else:
-            emitter.write_double_quoted(string.string)
+            emitter.write_double_quoted(text)
 
-        translation = emitter.stream.getvalue() or string.string
+        translation = emitter.stream.getvalue() or text
         if style in ('|', '>') and not translation.endswith("\n"):
             translation += "\n"
         emitter.stream.close()
@@ -441,7 +463,8 @@ class YamlHandler(Handler):
         for string in stringset:
             hash_position = template.index(string.template_replacement)
             if string.pluralized:
-                translation = self._compile_pluralized(string)
+                translation = self._compile_pluralized(string, template,
+                                                       hash_position)
             else:
                 translation = self._write_styled_literal(
                     string, self._get_parent_column(template, hash_position)
@@ -507,8 +530,9 @@ class YamlHandler(Handler):
         indent = indent.replace('\t', ' ' * 4)
         return len(indent)
 
-    def _compile_pluralized(self, string):
-        """ Prepare a pluralized string to be added to the template
+    def _compile_pluralized(self, string, template=u'', position=0):
+        """ Prepare a pluralized string to be added to a position of the
+        template
         """
         raise NotImplementedError
 
diff --git a/openformats/formats/yaml/yaml_i18n.py b/openformats/formats/yaml/yaml_i18n.py
index 876f8b8..dc14a47 100644
--- a/openformats/formats/yaml/yaml_i18n.py
+++ b/openformats/formats/yaml/yaml_i18n.py
@@ -7,7 +7,6 @@ import six
 
 from openformats.exceptions import ParseError
 from openformats.formats.yaml import YamlHandler
-from openformats.formats.yaml.utils import yaml
 
 
 class I18nYamlHandler(YamlHandler):
@@ -67,6 +66,10 @@ class I18nYamlHandler(YamlHandler):
         return True
 
     def _get_yaml_data_to_parse(self, yaml_data):
+        if not yaml_data:
+            return yaml_data
+        if not isinstance(yaml_data, dict):
+            raise ParseError("YAML file does not contain a root key.")
         keys = list(six.iterkeys(yaml_data))
         if len(keys) > 1:
             raise ParseError("YAML file contains more than one root keys.")
@@ -105,90 +108,57 @@ class I18nYamlHandler(YamlHandler):
                 pass
         return {}
 
-    def _compile_pluralized(self, string):
+    def _compile_pluralized(self, string, template=u'', position=0):
         # Retrieve the styles of the plural rules that are stored in the
         # string's flag
-        plural_styles_json = self._get_plural_styles(string)
+        plural_styles = self._get_plural_styles(string)
+        # If a translation contains a rule that does not exist in the source
+        # language, then we inherit the style from the 'other' rule
+        default_rule = self.get_rule_number('other')
+        default_style = plural_styles.get(six.text_type(default_rule), u'')
+        flow = 'flow' in string.flags
+
+        # The placeholder of a block stands at the column of the plural's key
+        # and the rules one level deeper
+        if flow:
+            levels = len(string.key.split('.')) + self.extra_indent
+            column = levels * self.indent
+        else:
+            column = (position - template.rfind('\n', 0, position) - 1 +
+                      self.indent)
 
         plurals = []
         for rule, translation in six.iteritems(string.string):
-            # If a translation contains a rule that does not exist in the
-            # source language, then we inherit the style from the singular
-            # version
-            default_rule = self.get_rule_number('other')
-            default_style = plural_styles_json.get(six.text_type(default_rule),
-                                                   u'')
-            plural_style = plural_styles_json.get(six.text_type(rule),
-                                                  default_style)
-            # Dump a Python dictionary that contains a single plural rule as a
-            # single YAML rule and preserve the string's style
-            plural = yaml.safe_dump(
-                {self.get_rule_string(rule): translation},
-                default_flow_style=False,
-                default_style=plural_style,
-                allow_unicode=True,
-                width=float('inf'),
-            )
-            if isinstance(plural, six.binary_type):
-                plural = plural.decode('utf8')
-            # The safe_dump method places quotes around the keys too, which are
-            # unnecessary. Remove them using the regular expression below. By
-            # default, the safe_dump method wraps the keys in double quotes
-            key_wrap = plural_style if plural_style == "'" else '"'
-            try:
-                plural = re.sub(
-                    '^{style}(\w+){style}:'.format(style=key_wrap),
-                    '\g<1>:',
-                    plural
-                )
-            except re.error:
-                pass
-            # The safe_dump method appends a dash in the folded and literal
-            # styles. We need to remove it for consistency between the compiled
-            # file and the original one
-            if plural_style in ['|', '>']:
-                plural = plural.replace('|-', '|').replace('>-', '>')
-            plurals.append(plural)
-
-        # Calculate the indentation we need to prepend to each line of the
-        # plural rules
-        indentation_levels = len(string.key.split('.')) + self.extra_indent
-        indent = " " * indentation_levels * self.indent
-        plural_entry = self._indent_plurals(plurals, indent, flow='flow' in string.flags)
-
-        # Hash replacement in template is already indented in the template
-        # so for the first line we need to keep on one level of indentation
-        if 'flow' in string.flags:
-            return plural_entry[(len(indent)):]
-        else:
-            return plural_entry[(len(indent) - self.indent):]
-
-    def _indent_plurals(self, plurals, indentation, flow=False):
-        """Apply the correct indentation to a set of plural rules.
-        Slightly different rules for when handling plurals in regular yaml
-        syntax vs when handling in flow syntax"""
-        # First apply the indentation to the literal values that start in a new
-        # line. We need to search for newline characters followed by a number
-        # of spaces.
-        try:
-            plurals = [
-                re.sub('\n(\s+)', '\n{}\g<1>'.format(indentation), line)
-                for line in plurals
-            ]
-        except re.error:
-            pass
-        # Apply the indentation to the beginning of each plural rule
-        joined = u''.join([
-            u"{indentation}{line}".format(indentation=indentation,
-                                          line=line[:-1] + ',' + line[-1:] if flow and i != len(plurals) else line)
-            for i, line in enumerate(plurals, start=1)
-        ])
-        # strip trailing comma
+            style = plural_styles.get(six.text_type(rule), default_style)
+            literal = self._write_literal(translation, style,
+                                          column + self.indent, column,
+                                          flow=flow)
+            plurals.append(u'{}: {}'.format(self.get_rule_string(rule),
+                                            literal))
+
         if flow:
-            joined = joined[:-1]
-        # Remove trailing newlines since there is already one after each
-        # pluralized string on the template
-        return joined.strip('\n')
+            separator = u',\n' + u' ' * column
+            return separator.join(plural.rstrip('\n') for plural in plurals)
+
+        lines = [
+            plural if plural.endswith('\n') else plural + '\n'
+            for plural in plurals
+        ]
+        entry = u''.join(u' ' * column + line for line in lines)
+        # The first line is already partly indented
+        entry = entry[column - self.indent:]
+        # Unless a block style ended the original one, there already is a
+        # newline after the string on the template
+        rest = template[position + len(string.template_replacement):]
+        if rest[:1] in ('\n', '\r') or not self._ends_in_block(plural_styles):
+            entry = entry[:-1]
+        return entry
+
+    @staticmethod
+    def _ends_in_block(plural_styles):
+        """ Whether the last rule of a plural has the literal or the folded
+        style, which include the newline after the string """
+        return list(six.itervalues(plural_styles))[-1:] in (['|'], ['>'])
 
     def _parse_pluralized_leaf_node(self, node, parent_key, style=[],
                                     pluralized=False):
@@ -210,7 +180,7 @@ class I18nYamlHandler(YamlHandler):
             A dictionary representing the parsed leaf node
         """
         value, styles = self._parse_pluralized_value(node.value)
-        start = self._find_pluralized_start_pos(node.value) if node.style =='flow' else node.start
+        start = self._find_pluralized_start_pos(node) if node.style =='flow' else node.start
         end = self._find_pluralized_end_pos(node.value)
         style.append(node.style or '')
         # Append the plural styles dictionary to the string's style using a
@@ -246,10 +216,8 @@ class I18nYamlHandler(YamlHandler):
         # }
         # we want to return exactly where 'bcd' starts,
         # so that template generation picks up both the indentation and the {.
-        # So 1) we get the top-most element: bcd.
-        # 2) We get it's start position (where 'efg' starts).
-        # 3) We move back len('bcd") + len(' ') + len(':') from it.
-        return min([entry.start - len(name) - 2 for name, entry in six.iteritems(node)])
+        return re.compile(r'\{?(?:\s|#.*)*').match(self._content,
+                                                  node.start).end()
 
     def _parse_pluralized_value(self, node):
         """ Parses input value into an OpenString pluralized value
-- 
2.43.0


From 12da21c7690eeaa4124dee3f4c395276245cbd98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:08 +0000
Subject: [PATCH 47/90] fix: custom tags of YAML list items are kept, duplicate
 number keys are named

---
 openformats/formats/yaml/utils.py | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/openformats/formats/yaml/utils.py b/openformats/formats/yaml/utils.py
index 22826dc..4c263d6 100644
--- a/openformats/formats/yaml/utils.py
+++ b/openformats/formats/yaml/utils.py
@@ -158,6 +158,17 @@ class TxYamlLoader(yaml.SafeLoader):
                         tag,
                         re.IGNORECASE)
 
+    def _get_custom_tag(self, node):
+        """
+        Get the custom tag of a node, without the exclamation mark, or `None`
+        """
+        tag = None
+        if hasattr(node, 'tag') and self._is_custom_tag(node.tag):
+            tag = six.text_type(node.tag)
+            # remove the exclamation mark from the tag
+            tag = tag[1:] if tag.startswith('!') else tag
+        return tag
+
     def construct_mapping(self, node, deep=True):
         """
         Override `yaml.SafeLoader.construct_mapping` to return for each item
@@ -222,14 +233,7 @@ class TxYamlLoader(yaml.SafeLoader):
                 style = value_node.style
 
             # Setup the node's tag
-            tag = None
-            if (
-                hasattr(value_node, 'tag')
-                and self._is_custom_tag(value_node.tag)
-            ):
-                tag = six.text_type(value_node.tag)
-                # remove the exclamation mark from the tag
-                tag = tag[1:] if tag.startswith('!') else tag
+            tag = self._get_custom_tag(value_node)
 
             value = Node(value, start, end, style, tag)
             pairs.append((key, value))
@@ -248,7 +252,9 @@ class TxYamlLoader(yaml.SafeLoader):
 
         if len(duplicates):
             duplicates_list = list(duplicates)
-            error_duplicate_keys = ', '.join(key for key in duplicates_list)
+            error_duplicate_keys = ', '.join(
+                six.text_type(key) for key in duplicates_list
+            )
             raise ParseError(
                 "Duplicate keys found ({})".format(error_duplicate_keys)
             )
@@ -290,7 +296,8 @@ class TxYamlLoader(yaml.SafeLoader):
                 values.append(Node(value, start, end, style, None))
             else:
                 style = value_node.style
-                values.append(Node(value, start, end, style, None))
+                tag = self._get_custom_tag(value_node)
+                values.append(Node(value, start, end, style, tag))
         return values
 
     def _calculate_block_end_pos(self, start, end):
-- 
2.43.0


From 19ca8f383a784fc3829e80e8eafc6881693b47c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:52 +0000
Subject: [PATCH 48/90] fix: generating YAML without a template works for lists
 with missing items, root lists and number keys

Anchors written after a tag or separated by other white space are handled and
block scalars keep their tag.
---
 openformats/formats/yaml/utils.py             | 104 +++++++++---------
 openformats/formats/yaml/yaml_representers.py |   6 +-
 2 files changed, 58 insertions(+), 52 deletions(-)

diff --git a/openformats/formats/yaml/utils.py b/openformats/formats/yaml/utils.py
index 4c263d6..82272b2 100644
--- a/openformats/formats/yaml/utils.py
+++ b/openformats/formats/yaml/utils.py
@@ -126,13 +126,14 @@ class TxYamlLoader(yaml.SafeLoader):
                 # 'key: &anchor' should be interpreted as 'key:', ie the value
                 # should be ignored
                 return node
-            anchor_value = self.stream[
-                node.start_mark.index:node.end_mark.index
-            ].split(' ', 1)[1]
-            leading_spaces = len(anchor_value) - len(anchor_value.lstrip(' '))
-
-            node.start_mark.index = node.end_mark.index - len(anchor_value) \
-                + leading_spaces
+            # skip the anchor and whatever stands before it
+            properties = re.compile(ensure_unicode(r'(?:!\S*\s+)?&\S+\s+'))
+            start = node.start_mark.index
+            end = properties.match(self.stream, start).end()
+            if self.stream[start] == '!' and self._is_custom_tag(node.tag):
+                # a tag in front of the anchor isn't part of the string
+                node.tag = YAML_STRING_ID
+            node.start_mark.index = end
             return node
 
     def _is_custom_tag(self, tag):
@@ -338,6 +339,8 @@ class YamlGenerator(object):
 
     def __init__(self, handler):
         self.handler = handler
+        # items of lists by the id of the list and their original index
+        self._list_items = {}
 
     def generate_yaml_dict(self, stringset):
         """
@@ -350,6 +353,11 @@ class YamlGenerator(object):
             An YAML serializable OrderedDict instance.
         """
         yaml_dict = OrderedDict()
+        if stringset and all(
+            self._parse_list_index_key(se.key.split('.')[0])[1]
+            for se in stringset
+        ):
+            yaml_dict = BlockList()
         for se in stringset:
             keys = se.key.split('.')
             flags = se.flags.split(':')
@@ -455,50 +463,46 @@ class YamlGenerator(object):
                 - "test 2"
             ```
         """
-        yaml_dict = parent_dict
-        entry = translation_string
-        if len(keys) == 1:
-            key = self._parse_int_key(keys[0])
-            yaml_dict[key] = self._get_styled_string(entry, styles[-1],
-                                                     tag=tag)
-            return
-
-        for i, key in enumerate(keys[:-1]):
-            is_last = i == (len(keys) - 2)
-            next_key = keys[i+1]
-
-            key = self._parse_int_key(key)
-            key, is_list = self._parse_list_index_key(key)
-            next_key, next_is_list = self._parse_list_index_key(next_key)
-
-            if is_list:
-                index = key
-
-            if not is_list:
-                if key in yaml_dict:
-                    yaml_dict = yaml_dict.get(key)
-                else:
-                    if next_is_list:
-                        yaml_dict[key] = self._create_list_node(styles[i])
-                    else:
-                        yaml_dict[key] = self._create_dict_node(styles[i])
-                    yaml_dict = yaml_dict[key]
+        node = parent_dict
+        for i, key in enumerate(keys):
+            index, is_item = self._parse_list_index_key(key)
+            if is_item and isinstance(node, list):
+                key = index
             else:
-                if index < len(yaml_dict):
-                    yaml_dict = yaml_dict[index]
-                else:
-                    if next_is_list:
-                        yaml_dict.append(self._create_list_node(styles[i]))
-                    else:
-                        yaml_dict.append(self._create_dict_node(styles[i]))
-                    yaml_dict = yaml_dict[index]
-            if is_last:
-                if next_is_list:
-                    yaml_dict.append(self._get_styled_string(entry,
-                                                             styles[-1]))
-                else:
-                    yaml_dict[next_key] = self._get_styled_string(entry,
-                                                                  styles[-1])
+                key = self._parse_int_key(key)
+            if i == len(keys) - 1:
+                child = self._get_styled_string(
+                    translation_string, styles[-1],
+                    tag=tag if len(keys) == 1 else None
+                )
+            elif self._get_child(node, key) is not None:
+                node = self._get_child(node, key)
+                continue
+            else:
+                _, next_is_list = self._parse_list_index_key(keys[i + 1])
+                create_node = (self._create_list_node if next_is_list
+                               else self._create_dict_node)
+                child = create_node(styles[i])
+            self._add_child(node, key, child)
+            node = child
+
+    def _get_child(self, node, key):
+        """ Get the item of a list or dictionary that was added for a key.
+
+        The items of the list whose translations are missing aren't added, so
+        the index of an item in the key may differ from its position.
+        """
+        if isinstance(node, list):
+            return self._list_items.get((id(node), key))
+        return node.get(key)
+
+    def _add_child(self, node, key, child):
+        """ Add an item to a list or dictionary """
+        if isinstance(node, list):
+            self._list_items[(id(node), key)] = child
+            node.append(child)
+        else:
+            node[key] = child
 
     def _create_list_node(self, style):
         if style == 'block':
diff --git a/openformats/formats/yaml/yaml_representers.py b/openformats/formats/yaml/yaml_representers.py
index 857d1c6..bc1273b 100644
--- a/openformats/formats/yaml/yaml_representers.py
+++ b/openformats/formats/yaml/yaml_representers.py
@@ -19,11 +19,13 @@ def unicode_representer(dumper, data):
 
 
 def folded_unicode_representer(dumper, data):
-    return dumper.represent_scalar(YAML_STRING_ID, data, style='>')
+    tag = getattr(data, 'tag', YAML_STRING_ID)
+    return dumper.represent_scalar(tag, data, style='>')
 
 
 def literal_unicode_representer(dumper, data):
-    return dumper.represent_scalar(YAML_STRING_ID, data, style='|')
+    tag = getattr(data, 'tag', YAML_STRING_ID)
+    return dumper.represent_scalar(tag, data, style='|')
 
 
 def double_quoted_unicode_representer(dumper, data):
-- 
2.43.0


From ff77123a9c2677df72ad3a2c08748f1e69a2a6b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:26 +0000
Subject: [PATCH 49/90] fix: a comment at the end of a YAML line is not the
 next string's comment

---
 openformats/formats/yaml/yaml.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/openformats/formats/yaml/yaml.py b/openformats/formats/yaml/yaml.py
index db4bdb5..12155a4 100644
--- a/openformats/formats/yaml/yaml.py
+++ b/openformats/formats/yaml/yaml.py
@@ -303,6 +303,11 @@ class YamlHandler(Handler):
 
     def _find_comment(self, content, start, end):
         """ Finds comment lines that precede a part of the YAML structure """
+        if start and content[start - 1] != '\n':
+            # The rest of the line belongs to the previous string
+            start = content.find('\n', start, end)
+            if start == -1:
+                return ''
         lines = [
             line.strip()
             for line in content[start:end].split('\n')
-- 
2.43.0


From 3987cb1464adba1b5147db574e788717eef2ab82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:17 +0000
Subject: [PATCH 50/90] fix: YAML keys that end up with the same identity are
 reported as duplicates

---
 openformats/formats/yaml/yaml.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/openformats/formats/yaml/yaml.py b/openformats/formats/yaml/yaml.py
index 12155a4..b6fa010 100644
--- a/openformats/formats/yaml/yaml.py
+++ b/openformats/formats/yaml/yaml.py
@@ -75,6 +75,7 @@ class YamlHandler(Handler):
         """
         template = []
         stringset = []
+        hashes = set()
         self._content = content
         # The first argument of the add_constructor method is the tag you want
         # to handle. If you provide None as an argument, all the unknown tags
@@ -107,6 +108,11 @@ class YamlHandler(Handler):
             string_object = OpenString(
                 key, value, context=tag or '', flags=style, order=order,
             )
+            if string_object.string_hash in hashes:
+                raise ParseError(
+                    u"Duplicate keys found ({})".format(key)
+                )
+            hashes.add(string_object.string_hash)
             stringset.append(string_object)
             order += 1
             template.append(u"{}{}".format(content[end:start],
-- 
2.43.0


From 2a2d3fc8fd4bba6d81d104ab7ea1cc9370285e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:51 +0000
Subject: [PATCH 51/90] fix: YAML plurals leave the newline after a block
 scalar on the template

---
 openformats/formats/yaml/yaml_i18n.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/openformats/formats/yaml/yaml_i18n.py b/openformats/formats/yaml/yaml_i18n.py
index dc14a47..06892e9 100644
--- a/openformats/formats/yaml/yaml_i18n.py
+++ b/openformats/formats/yaml/yaml_i18n.py
@@ -147,19 +147,12 @@ class I18nYamlHandler(YamlHandler):
         entry = u''.join(u' ' * column + line for line in lines)
         # The first line is already partly indented
         entry = entry[column - self.indent:]
-        # Unless a block style ended the original one, there already is a
-        # newline after the string on the template
+        # There already is a newline after the string on the template
         rest = template[position + len(string.template_replacement):]
-        if rest[:1] in ('\n', '\r') or not self._ends_in_block(plural_styles):
+        if rest[:1] in ('\n', '\r') or not plurals[-1].endswith('\n'):
             entry = entry[:-1]
         return entry
 
-    @staticmethod
-    def _ends_in_block(plural_styles):
-        """ Whether the last rule of a plural has the literal or the folded
-        style, which include the newline after the string """
-        return list(six.itervalues(plural_styles))[-1:] in (['|'], ['>'])
-
     def _parse_pluralized_leaf_node(self, node, parent_key, style=[],
                                     pluralized=False):
         """Parse a leaf node in yaml_dict.
@@ -202,7 +195,13 @@ class I18nYamlHandler(YamlHandler):
 
         # End position for pluralized string should be the end position of
         # the last plural element and not the end position of the parent node.
-        return max([entry.end for entry in six.itervalues(node)])
+        end = max([entry.end for entry in six.itervalues(node)])
+        # The newline after a block style is left on the template
+        if self._content[end - 1] == '\n':
+            end -= 1
+            if self._content[end - 1] == '\r':
+                end -= 1
+        return end
 
     def _find_pluralized_start_pos(self, node):
         """ Calculate start position of pluralized string """
-- 
2.43.0


From b9da1ba34ff86fc73d1a270df7d651139eb17831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:49 +0000
Subject: [PATCH 52/90] fix: the indentation of a YAML string after a block
 scalar is that of its own line

---
 openformats/formats/yaml/yaml.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/openformats/formats/yaml/yaml.py b/openformats/formats/yaml/yaml.py
index b6fa010..a98b7fc 100644
--- a/openformats/formats/yaml/yaml.py
+++ b/openformats/formats/yaml/yaml.py
@@ -450,6 +450,8 @@ class YamlHandler(Handler):
             as its key or list item
         """
         line = template[template.rfind('\n', 0, position) + 1:position]
+        # Strings in a block style include the end of their line
+        line = re.split(ensure_unicode(r'[0-9a-f]{32}_(?:tr|pl)'), line)[-1]
         # Ignore anchors and tags
         line = re.sub(ensure_unicode(r'(?:[&!]\S*\s+)+$'), '', line)
         prefix = re.match(ensure_unicode(r' *(?:- +)*'), line).group()
-- 
2.43.0


From fc598f686f7076655c32d62a78d900f6cd6d2b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:35 +0000
Subject: [PATCH 53/90] fix: deeply indented YAML block scalars keep their
 style

---
 openformats/formats/yaml/yaml.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/openformats/formats/yaml/yaml.py b/openformats/formats/yaml/yaml.py
index a98b7fc..e64091a 100644
--- a/openformats/formats/yaml/yaml.py
+++ b/openformats/formats/yaml/yaml.py
@@ -395,7 +395,9 @@ class YamlHandler(Handler):
         emitter = Emitter(stream, allow_unicode=True)
         if parent_column is not None:
             indent = max(indent, parent_column + 1)
-            # block styles may need to mention their relative indentation
+            # block styles may need to mention their relative indentation,
+            # which has to be a single digit
+            indent = min(indent, parent_column + 9)
             emitter.best_indent = indent - parent_column
         emitter.indent = indent
         # set best_width to `float(inf)` so that long strings are not broken
@@ -412,7 +414,7 @@ class YamlHandler(Handler):
                 (analysis.allow_flow_plain or not flow) and
                 (tagged or self._is_plain_string(text))):
             emitter.write_plain(text)
-        elif (style in ('|', '>') and emitter.best_indent < 10 and
+        elif (style in ('|', '>') and
                 self._is_block_string(text, analysis)):
             if style == '|':
                 emitter.write_literal(text)
-- 
2.43.0


From 9f6191e2139f03adb2a04e7d9ff1eaa1e8c50ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:54 +0000
Subject: [PATCH 54/90] fix: the indentation of a YAML file is not taken from
 an empty line

---
 openformats/formats/yaml/yaml.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/openformats/formats/yaml/yaml.py b/openformats/formats/yaml/yaml.py
index e64091a..ea57e9c 100644
--- a/openformats/formats/yaml/yaml.py
+++ b/openformats/formats/yaml/yaml.py
@@ -533,15 +533,13 @@ class YamlHandler(Handler):
         Returns:
             The number of spaces.
         """
-        # Match all whitespace characters after first `:` (end of first  key).
-        # Stops on first non whitespace character.
+        # Match the whitespace characters before the first thing, other than
+        # blank lines and comments, after first `:` (end of first  key).
         indent_pattern = re.compile(
-            ensure_unicode(r':\r?\n(?P<indent>[ \t\n]+)')
+            ensure_unicode(r':\r?\n(?:[ \t]*(?:#.*)?\r?\n)*(?P<indent>[ \t]+)')
         )
         m = indent_pattern.search(template)
         indent = m.groups('indent')[0] if m else ' ' * 2
-        # keep only last line
-        indent = indent.splitlines()[-1]
         indent = indent.replace('\t', ' ' * 4)
         return len(indent)
 
-- 
2.43.0


From 82bab2762a41c41b87c512bdc225abc8ff635f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:04 +0000
Subject: [PATCH 55/90] fix: the last rule of a YAML plural does not take the
 blank line after it

---
 openformats/formats/yaml/yaml_i18n.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/openformats/formats/yaml/yaml_i18n.py b/openformats/formats/yaml/yaml_i18n.py
index 06892e9..9c84639 100644
--- a/openformats/formats/yaml/yaml_i18n.py
+++ b/openformats/formats/yaml/yaml_i18n.py
@@ -127,9 +127,16 @@ class I18nYamlHandler(YamlHandler):
             column = (position - template.rfind('\n', 0, position) - 1 +
                       self.indent)
 
+        rest = template[position + len(string.template_replacement):]
+        blank_follows = re.match(r'\r?\n[ \t]*\r?\n', rest)
+
         plurals = []
         for rule, translation in six.iteritems(string.string):
             style = plural_styles.get(six.text_type(rule), default_style)
+            if (len(plurals) == len(string.string) - 1 and blank_follows and
+                    translation.endswith('\n\n')):
+                # A block would take the blank line as a part of the text
+                style = u'"'
             literal = self._write_literal(translation, style,
                                           column + self.indent, column,
                                           flow=flow)
@@ -148,7 +155,6 @@ class I18nYamlHandler(YamlHandler):
         # The first line is already partly indented
         entry = entry[column - self.indent:]
         # There already is a newline after the string on the template
-        rest = template[position + len(string.template_replacement):]
         if rest[:1] in ('\n', '\r') or not plurals[-1].endswith('\n'):
             entry = entry[:-1]
         return entry
-- 
2.43.0


From 84259b2d3d815570abae0f1b4480e80594c56003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:25 +0000
Subject: [PATCH 56/90] fix: YAML generated without a template keeps line
 breaks other than newlines

---
 openformats/formats/yaml/constants.py | 3 +++
 openformats/formats/yaml/utils.py     | 5 ++++-
 openformats/formats/yaml/yaml.py      | 8 +++-----
 3 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/openformats/formats/yaml/constants.py b/openformats/formats/yaml/constants.py
index 4abea3f..28c576b 100644
--- a/openformats/formats/yaml/constants.py
+++ b/openformats/formats/yaml/constants.py
@@ -4,3 +4,6 @@ YAML_STRING_ID = u'tag:yaml.org,2002:str'
 YAML_LIST_ID = u'tag:yaml.org,2002:seq'
 YAML_DICT_ID = u'tag:yaml.org,2002:map'
 YAML_BINARY_ID = u'tag:yaml.org,2002:binary'
+
+# line breaks that, unless escaped, are read as if they were a `\n`
+YAML_FOLDED_BREAKS = u'[\r\x85\u2028\u2029]'
diff --git a/openformats/formats/yaml/utils.py b/openformats/formats/yaml/utils.py
index 82272b2..64aa4af 100644
--- a/openformats/formats/yaml/utils.py
+++ b/openformats/formats/yaml/utils.py
@@ -10,7 +10,7 @@ from yaml.constructor import ConstructorError
 from openformats.exceptions import ParseError
 from openformats.utils.compat import ensure_unicode
 
-from .constants import YAML_BINARY_ID, YAML_STRING_ID
+from .constants import YAML_BINARY_ID, YAML_FOLDED_BREAKS, YAML_STRING_ID
 from .yaml_representee_classes import (BlockList, BlockStyleOrderedDict,
                                        FlowList, FlowStyleOrderedDict,
                                        double_quoted_unicode, folded_unicode,
@@ -393,6 +393,9 @@ class YamlGenerator(object):
             or double_quoted_unicode.
         """
         obj = translation_string
+        if obj and re.search(YAML_FOLDED_BREAKS, obj):
+            # only double quotes can tell these from a `\n`
+            style = '"'
         if style == '|':
             obj = literal_unicode(obj, tag=tag)
         elif style == '>':
diff --git a/openformats/formats/yaml/yaml.py b/openformats/formats/yaml/yaml.py
index ea57e9c..6f3b277 100644
--- a/openformats/formats/yaml/yaml.py
+++ b/openformats/formats/yaml/yaml.py
@@ -10,7 +10,8 @@ from yaml.nodes import ScalarNode
 from yaml.resolver import Resolver
 
 from openformats.exceptions import ParseError
-from openformats.formats.yaml.constants import YAML_STRING_ID
+from openformats.formats.yaml.constants import (YAML_FOLDED_BREAKS,
+                                                YAML_STRING_ID)
 from openformats.formats.yaml.utils import (TxYamlDumper, TxYamlLoader,
                                             YamlGenerator, yaml)
 from openformats.handlers import Handler
@@ -46,9 +47,6 @@ class YamlHandler(Handler):
 
     language_code = None
 
-    # line breaks that, unless escaped, are read as if they were a `\n`
-    FOLDED_BREAKS = u'[\r\x85\u2028\u2029]'
-
     def parse(self, content, **kwargs):
         """ Parses the given YAML content to create stringset and template
 
@@ -406,7 +404,7 @@ class YamlHandler(Handler):
 
         analysis = emitter.analyze_scalar(text)
 
-        if re.search(self.FOLDED_BREAKS, text):
+        if re.search(YAML_FOLDED_BREAKS, text):
             emitter.write_double_quoted(text)
         elif style == '\'' and analysis.allow_single_quoted:
             emitter.write_single_quoted(text)
-- 
2.43.0


From cfd9bcddeb241fad10f7d39badc6ed76f47f50dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:00 +0000
Subject: [PATCH 57/90] fix: the root tag of an XML file is not looked for
 inside comments

---
 openformats/formats/android.py          |  8 ++++++--
 openformats/formats/customizable_xml.py | 10 ++++++----
 openformats/formats/stringsdict.py      |  8 ++++++--
 openformats/utils/xmlutils.py           | 18 ++++++++++++++++++
 4 files changed, 36 insertions(+), 8 deletions(-)

diff --git a/openformats/formats/android.py b/openformats/formats/android.py
index 25f1e13..5b8330f 100644
--- a/openformats/formats/android.py
+++ b/openformats/formats/android.py
@@ -63,7 +63,9 @@ class AndroidHandler(Handler):
 
         source = self.transcriber.source
         # Skip XML info declaration
-        resources_tag_position = source.find(self.PARSE_START)
+        resources_tag_position = XMLUtils.find_tag_start(
+            source, self.PARSE_START
+        )
         if resources_tag_position == -1:
             raise ParseError(u"No <resources> tag found in file")
 
@@ -379,7 +381,9 @@ class AndroidHandler(Handler):
         self.transcriber = Transcriber(template)
         source = self.transcriber.source
 
-        resources_tag_position = source.index(self.PARSE_START)
+        resources_tag_position = XMLUtils.find_tag_start(
+            source, self.PARSE_START
+        )
         parsed = DumbXml(source, resources_tag_position)
 
         # Check against 'tools:locale' attribute
diff --git a/openformats/formats/customizable_xml.py b/openformats/formats/customizable_xml.py
index 84cbd07..3d6c897 100644
--- a/openformats/formats/customizable_xml.py
+++ b/openformats/formats/customizable_xml.py
@@ -7,7 +7,7 @@ from ..handlers import Handler
 from ..strings import OpenString
 from ..transcribers import Transcriber
 from ..utils.xml import NewDumbXml
-from ..utils.xmlutils import reraise_syntax_as_parse_errors
+from ..utils.xmlutils import XMLUtils, reraise_syntax_as_parse_errors
 
 
 # These are the default values of the tags and attributes
@@ -256,14 +256,16 @@ class CustomizableXMLHandler(Handler):
         :rtype: int
         :raise ParseError: if the root node is not found
         """
-        try:
-            return string.index('<{}'.format(self.root_name))
-        except ValueError:
+        position = XMLUtils.find_tag_start(
+            string, '<{}'.format(self.root_name)
+        )
+        if position == -1:
             raise ParseError(
                 'Root node "<{root}>" not found'.format(
                     root=self.root_name,
                 )
             )
+        return position
 
     def _get_key(self, string_tag, tag):
         """Return the key that corresponds to a given translatable string.
diff --git a/openformats/formats/stringsdict.py b/openformats/formats/stringsdict.py
index 57a3c97..c0e8c32 100644
--- a/openformats/formats/stringsdict.py
+++ b/openformats/formats/stringsdict.py
@@ -63,7 +63,9 @@ class StringsDictHandler(Handler):
         self.order_counter = itertools.count()
         source = self.transcriber.source
         # Skip xml info declaration
-        dict_tag_position = source.find(self.PARSE_START)
+        dict_tag_position = XMLUtils.find_tag_start(
+            source, self.PARSE_START
+        )
         if dict_tag_position == -1:
             raise ParseError(u"No <dict> tag found in file")
 
@@ -407,7 +409,9 @@ class StringsDictHandler(Handler):
         self.transcriber = Transcriber(template)
         source = self.transcriber.source
 
-        dict_tag_position = source.index(self.PARSE_START)
+        dict_tag_position = XMLUtils.find_tag_start(
+            source, self.PARSE_START
+        )
         parsed = NewDumbXml(source, dict_tag_position)
         dict_iterator = parsed.find_children(self.DICT)
 
diff --git a/openformats/utils/xmlutils.py b/openformats/utils/xmlutils.py
index 5f0accc..cb47c28 100644
--- a/openformats/utils/xmlutils.py
+++ b/openformats/utils/xmlutils.py
@@ -1,3 +1,5 @@
+import re
+
 import six
 
 from ..exceptions import ParseError
@@ -18,6 +20,22 @@ def reraise_syntax_as_parse_errors(func):
 class XMLUtils(object):
     """Contains utility methods for parsing/compiling xml based files."""
 
+    @staticmethod
+    def find_tag_start(source, start):
+        """Finds the first tag that isn't a part of a comment.
+
+        :param source: The content to search.
+        :param start: The start of the tag, eg `<resources`.
+        :returns: The position of the tag or -1 if there isn't one.
+        """
+        pattern = re.compile(
+            u'<!--.*?-->|({}(?=[\\s/>]))'.format(re.escape(start)), re.DOTALL
+        )
+        for match in pattern.finditer(source):
+            if match.group(1):
+                return match.start()
+        return -1
+
     @staticmethod
     def raise_error(transcriber, tag, message, context=None):
         """Raises a ParseError with an appropriate message.
-- 
2.43.0


From f3b12e8cb7fa804a1531b0b831fea671d90454e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:18 +0000
Subject: [PATCH 58/90] fix: ARB replaces the locale the file declares, however
 it is spelled, and no other

---
 openformats/formats/json.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/openformats/formats/json.py b/openformats/formats/json.py
index 99c4fb2..c7ce8d7 100644
--- a/openformats/formats/json.py
+++ b/openformats/formats/json.py
@@ -752,13 +752,15 @@ class ArbHandler(JsonHandler):
         stringset = list(stringset)
 
         if language_info is not None:
-            match = re.search(r"(\"@@locale\"\s*:\s*\")([A-Z_a-z]*)\"", template)
-            if match:
-                template = "{}{}{}".format(
-                    template[: match.start(2)],
-                    language_info["code"],
-                    template[match.end(2) :],
-                )
+            # Only the root level declares the locale of the file
+            for key, _, value, value_position in DumbJson(template):
+                if key == "@@locale" and isinstance(value, six.text_type):
+                    template = "{}{}{}".format(
+                        template[:value_position],
+                        language_info["code"],
+                        template[value_position + len(value) :],
+                    )
+                    break
 
         return self._replace_translations(template, stringset, True)
 
-- 
2.43.0


From 36a59944f0ced6cc4e0a444ca68b306c7dda15de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:13 +0000
Subject: [PATCH 59/90] fix: STRUCTURED_JSON writes metadata next to values of
 any type and layout, and only to entries that were extracted

---
 openformats/formats/json.py | 234 ++++++++++++++++--------------------
 1 file changed, 103 insertions(+), 131 deletions(-)

diff --git a/openformats/formats/json.py b/openformats/formats/json.py
index c7ce8d7..8d19fca 100644
--- a/openformats/formats/json.py
+++ b/openformats/formats/json.py
@@ -827,6 +827,10 @@ class StructuredJsonHandler(JsonHandler):
     CHARACTER_LIMIT_KEY = "character_limit"
     STRUCTURE_FIELDS = {CONTEXT_KEY, DEVELOPER_COMMENT_KEY, CHARACTER_LIMIT_KEY}
 
+    # The context of a string may have changed since the template was made, so
+    # its placeholder isn't necessarily `template_replacement`
+    PLACEHOLDER = re.compile(r"[0-9a-f]{32}_(?:tr|pl)")
+
     def compile(self, template, translations, **kwargs):
         self.translations = iter(translations)
         self.transcriber = Transcriber(template)
@@ -851,139 +855,107 @@ class StructuredJsonHandler(JsonHandler):
                     )
                 )
 
-    def _compile_value(self, value, template_value, value_position, skip=False):
-        value = template_value if skip else value
-
-        if value is not None:
-            if value == "" and template_value is None:
-                self.transcriber.add("null")
-            else:
-                if template_value is None:
-                    self.transcriber.add(f'"{value}"')
-                else:
-                    self.transcriber.add(f"{value}")
-        else:
-            self.transcriber.add("null")
+    def _compile_recursively(self, current_part):
+        """Compile the parts of the template that strings were extracted from,
+        going through it the same way `_extract` does.
+        """
+        if current_part.type == list:
+            for item, _ in current_part:
+                if isinstance(item, DumbJson):
+                    self._compile_recursively(item)
+            return
 
-        self.transcriber.skip(len(f"{template_value}"))
-        self.transcriber.copy_until(value_position + len(f"{template_value}") + 1)
+        for _, _, value, _ in current_part:
+            if not isinstance(value, DumbJson) or value.type != dict:
+                continue
+            ((string_value, _),) = value.find_children(self.STRING_KEY)
+            if not string_value:
+                self._compile_recursively(value)
+            elif self.PLACEHOLDER.search(string_value):
+                translation = next(self.translations, None)
+                if translation is not None:
+                    self._compile_entry(value, translation)
+
+    def _compile_entry(self, entry, translation):
+        """Write a translation and its metadata to its entry in the template."""
+        source = self.transcriber.source
+        missing_fields = [
+            self.CONTEXT_KEY,
+            self.CHARACTER_LIMIT_KEY,
+            self.DEVELOPER_COMMENT_KEY,
+        ]
+        for key, key_position, value, value_position in entry:
+            start, end = self._get_literal_span(source, value, value_position)
+            literal = source[start:end]
+            if key == self.STRING_KEY:
+                string = translation.string
+                if translation.pluralized:
+                    start_icu, end_icu = self.PLACEHOLDER.search(value).span()
+                    string = "{}{}{}".format(
+                        value[:start_icu],
+                        ICUCompiler().serialize_strings(string, delimiter=" "),
+                        value[end_icu:],
+                    )
+                literal = f'"{string}"'
+            elif key in self.STRUCTURE_FIELDS:
+                if key in missing_fields:
+                    missing_fields.remove(key)
+                literal = self._get_metadata_literal(
+                    getattr(translation, key), literal
+                )
+            self.transcriber.copy_until(start)
+            self.transcriber.add(literal)
+            self.transcriber.skip_until(end)
+
+        # Add the rest of the metadata in the same layout as the last field
+        separator_start = key_position - 1
+        while source[separator_start - 1].isspace():
+            separator_start -= 1
+        line_separator = source[separator_start : key_position - 1]
+        key_value_separator = source[key_position + len(key) + 1 : start]
+        for field in missing_fields:
+            value = getattr(translation, field)
+            if value is not None and value != "":
+                self.transcriber.add(
+                    ',{}"{}"{}{}'.format(
+                        line_separator,
+                        field,
+                        key_value_separator,
+                        self._get_metadata_literal(value),
+                    )
+                )
 
-    def _compile_recursively(self, current_part):
-        if isinstance(current_part, DumbJson):
-            if current_part.type == list:
-                for value, value_position in current_part:
-                    self._compile_recursively(value)
-            if current_part.type == dict:
-                (value, _) = current_part.find_children(self.STRING_KEY)[0]
-                if not value:
-                    for key, key_position, value, value_position in current_part:
-                        self.transcriber.copy_until(key_position - 1)
-                        self.transcriber.copy_until(value_position)
-                        self._compile_recursively(value)
-                else:
-                    (value, _) = current_part.find_children(self.STRING_KEY)[0]
-                    if not value.strip():
-                        translation = OpenString("", value)
-                        skip = True
-                    else:
-                        translation = next(self.translations, None)
-                        skip = False
-
-                    context_added = False
-                    character_limit_added = False
-                    developer_comments_added = False
-
-                    line_separator = None
-                    key_value_separator = None
-                    for key, key_position, value, value_position in current_part:
-                        prev_position_end = self.transcriber.ptr
-                        line_separator = current_part.source[
-                            prev_position_end + 1 : key_position - 1
-                        ]
-                        key_value_separator = current_part.source[
-                            key_position + len(key) : value_position - 1
-                        ]
-                        self.transcriber.copy_until(key_position - 1)
-                        self.transcriber.copy_until(value_position)
-                        if key == self.CONTEXT_KEY and translation:
-                            context = translation.context
-                            self._compile_value(
-                                self.escape(context), value, value_position, skip=skip
-                            )
-                            context_added = True
-                        elif key == self.DEVELOPER_COMMENT_KEY and translation:
-                            developer_comment = translation.developer_comment
-                            self._compile_value(
-                                self.escape(developer_comment),
-                                value,
-                                value_position,
-                                skip=skip,
-                            )
-                            developer_comments_added = True
-                        elif key == self.CHARACTER_LIMIT_KEY and translation:
-                            character_limit = translation.character_limit
-                            self._compile_value(
-                                character_limit, value, value_position, skip=skip
-                            )
-                            character_limit_added = True
-                        elif key == self.STRING_KEY and translation:
-                            if translation.pluralized:
-                                string_replacement = ICUCompiler().serialize_strings(
-                                    translation.string, delimiter=" "
-                                )
-                                string_replacement = value.replace(
-                                    translation.template_replacement,
-                                    string_replacement,
-                                )
-                            else:
-                                string_replacement = translation.string
-                            self._compile_value(
-                                string_replacement, value, value_position
-                            )
-                        elif not isinstance(value, DumbJson):
-                            self.transcriber.copy_until(
-                                value_position + len(f"{value}") + 1
-                            )
-
-                    extra_elements = []
-                    if not context_added and translation and translation.context:
-                        extra_elements.append(
-                            '"{}{}"{}"'.format(
-                                "context",
-                                key_value_separator,
-                                self.escape(translation.context),
-                            )
-                        )
-                    if (
-                        not character_limit_added
-                        and translation
-                        and translation.character_limit
-                    ):
-                        extra_elements.append(
-                            '"{}{}{}'.format(
-                                "character_limit",
-                                key_value_separator,
-                                translation.character_limit,
-                            )
-                        )
-                    if (
-                        not developer_comments_added
-                        and translation
-                        and translation.developer_comment
-                    ):
-                        extra_elements.append(
-                            '"{}{}"{}"'.format(
-                                "developer_comment",
-                                key_value_separator,
-                                self.escape(translation.developer_comment),
-                            )
-                        )
-                    if extra_elements:
-                        self.transcriber.add(
-                            ","
-                            + line_separator
-                            + ("," + line_separator).join(extra_elements)
-                        )
+    @staticmethod
+    def _get_literal_span(source, value, value_position):
+        """Find where the literal of a value starts and ends in the source.
+
+        :param str source: the source of the template
+        :param value: the value, as returned by DumbJson
+        :param int value_position: the position of the value, as returned by
+            DumbJson
+        :return: the positions of the first and after the last character
+        :rtype: tuple
+        """
+        if isinstance(value, DumbJson):
+            return value_position, value.end + 1
+        if isinstance(value, six.text_type):
+            return value_position - 1, value_position + len(value) + 1
+        match = re.compile(r"[^\s,\]}]+").match(source, value_position)
+        return value_position, match.end()
+
+    def _get_metadata_literal(self, value, template_literal=None):
+        """Get the JSON literal for a metadata value, which is the one that is
+        already on the template, if that means the same.
+        """
+        if template_literal is not None:
+            template_value = json.loads(template_literal)
+            if template_value == value or (
+                template_value in (None, "") and value in (None, "")
+            ):
+                return template_literal
+        if isinstance(value, six.text_type):
+            return f'"{self.escape(value)}"'
+        return json.dumps(value)
 
     def _create_openstring(self, key, payload_dict):
         """Return a new OpenString based on the given key and payload_dict
-- 
2.43.0


From 08cfd80d88d099f9e98037e812b2037e2c3fece8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:22 +0000
Subject: [PATCH 60/90] fix: PO plural forms with an invalid index are rejected
 with a parse error

---
 openformats/formats/po.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/openformats/formats/po.py b/openformats/formats/po.py
index 5d75b32..608506f 100644
--- a/openformats/formats/po.py
+++ b/openformats/formats/po.py
@@ -88,9 +88,17 @@ class PoHandler(Handler):
             string_data.update(self._get_metadata(entry))
 
             if pluralized:
-                msgstrs = {
-                    int(key): value for key, value in entry.msgstr_plural.items()
-                }
+                try:
+                    msgstrs = {
+                        int(key): value for key, value in entry.msgstr_plural.items()
+                    }
+                except ValueError:
+                    raise ParseError(
+                        (
+                            "Invalid plural index found on the entry with msgid "
+                            "'{}' and msgid_plural '{}'"
+                        ).format(entry.msgid, entry.msgid_plural)
+                    )
             else:
                 msgstrs = {5: entry.msgstr}
 
-- 
2.43.0


From 37242686ce62da1feaad6d5e4caf28916e4d839d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:43 +0000
Subject: [PATCH 61/90] fix: YAML keys of binary type do not crash the parser

---
 openformats/formats/yaml/yaml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openformats/formats/yaml/yaml.py b/openformats/formats/yaml/yaml.py
index 6f3b277..60557c7 100644
--- a/openformats/formats/yaml/yaml.py
+++ b/openformats/formats/yaml/yaml.py
@@ -218,7 +218,7 @@ class YamlHandler(Handler):
         Returns:
             A string similar to parent_key with key appended to it.
         """
-        if not isinstance(key, (six.binary_type, six.text_type)):
+        if not isinstance(key, six.text_type):
             # Int keys are stored in < and > around it, so it can be reverted
             # on int again on compiling.
             key = u'<{}>'.format(key)
-- 
2.43.0


From 47b506127a3f4211012f6c5983b9301c1988a69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:32 +0000
Subject: [PATCH 62/90] fix: PO content that is the name of a file is not
 replaced by that file

---
 openformats/formats/po.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/openformats/formats/po.py b/openformats/formats/po.py
index 608506f..9447397 100644
--- a/openformats/formats/po.py
+++ b/openformats/formats/po.py
@@ -35,7 +35,7 @@ class PoHandler(Handler):
 
     def parse(self, source, is_source=False):
         try:
-            po = polib.pofile(source)
+            po = self._read(source)
         except Exception as e:
             raise ParseError("Error while validating PO file syntax: {}".format(e))
         existing_keys = set()
@@ -254,7 +254,13 @@ class PoHandler(Handler):
         """
         if isinstance(template, polib.POFile):
             return deepcopy(template)
-        return polib.pofile(template)
+        return PoHandler._read(template)
+
+    @staticmethod
+    def _read(content):
+        # polib reads the file a content names if there is one, no file's name
+        # ends in a newline
+        return polib.pofile(content if content.endswith("\n") else content + "\n")
 
     @staticmethod
     def pofile_to_str(po_file):
-- 
2.43.0


From 54645201265d5c97c0db33d4820cc069122889c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:43 +0000
Subject: [PATCH 63/90] fix: adjacent runs of office documents are always
 separated by markers

A last run next to a run that carries no marker of its own (the second run
of a link at the end of a paragraph, or text after a white-space-only run)
was merged into it: compiling the document moved its text into the run
before, and a link lost its text altogether.
---
 openformats/formats/office_open_xml/parser.py | 11 +++++++++--
 openformats/formats/pptx.py                   | 13 ++++++++++---
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/openformats/formats/office_open_xml/parser.py b/openformats/formats/office_open_xml/parser.py
index d1aeff0..bc4929e 100644
--- a/openformats/formats/office_open_xml/parser.py
+++ b/openformats/formats/office_open_xml/parser.py
@@ -91,6 +91,7 @@ class OfficeOpenXmlHandler(object):
 
         open_hyperlink = None
         leading_spaces = 0
+        undelimited = False
         for index, text_element in enumerate(text_elements):
             text = text_element.text
             # skip text elements that contain no text
@@ -109,19 +110,25 @@ class OfficeOpenXmlHandler(object):
             except MissingParentError:
                 continue
 
-            if all([
+            wrapped = all([
                 text_elements_count == 2,
                 not hyperlink_url or hyperlink_url == open_hyperlink
             ]) or all([
                 index > 0,
                 index < text_elements_count - 1,
                 not hyperlink_url or hyperlink_url == open_hyperlink
-            ]):
+            ]) or all([
+                # nothing else would separate it from the previous text
+                undelimited,
+                hyperlink_url == open_hyperlink
+            ])
+            if wrapped:
                 # skip surrounding text with tags if:
                 #   * first element
                 #   * last element
                 #   * opening hyperlink (we will add the tx tag later)
                 text = u'<tx>{}</tx>'.format(text)
+            undelimited = not wrapped
 
             if hyperlink_url and not open_hyperlink:
                 # open an a tag
diff --git a/openformats/formats/pptx.py b/openformats/formats/pptx.py
index 642715c..7fd561f 100644
--- a/openformats/formats/pptx.py
+++ b/openformats/formats/pptx.py
@@ -421,7 +421,8 @@ class PptxHandlerV2(PptxHandler):
 
         text_elements_count = len(text_elements)
 
-        open_hyperlink = None        
+        open_hyperlink = None
+        undelimited = False
         for index, text_element in enumerate(text_elements):
             text = text_element.text            
 
@@ -432,19 +433,25 @@ class PptxHandlerV2(PptxHandler):
             except MissingParentError:
                 continue
 
-            if all([
+            wrapped = all([
                 text_elements_count == 2,
                 not hyperlink_url or hyperlink_url == open_hyperlink
             ]) or all([
                 index > 0,
                 index < text_elements_count - 1,
                 not hyperlink_url or hyperlink_url == open_hyperlink
-            ]):
+            ]) or all([
+                # nothing else would separate it from the previous text
+                undelimited,
+                hyperlink_url == open_hyperlink
+            ])
+            if wrapped:
                 # skip surrounding text with tags if:
                 #   * first element
                 #   * last element
                 #   * opening hyperlink (we will add the tx tag later)
                 text = u'<tx>{}</tx>'.format(text)
+            undelimited = not wrapped
 
             if hyperlink_url and not open_hyperlink:
                 # open an a tag
-- 
2.43.0


From 58a128157463ade0815bab7bda604235fef31ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:30 +0000
Subject: [PATCH 64/90] fix: white space between the runs of office documents
 is kept

Several white-space-only runs in a row, white space in front of a field,
and white-space-only runs replaced by the translation's own spaces lost or
gained spaces; text was appended to fields; empty runs of PPTX_V2 shifted
the parts of a translation.
---
 openformats/formats/office_open_xml/parser.py | 29 +++++++++++--------
 openformats/formats/pptx.py                   | 11 +++++--
 2 files changed, 26 insertions(+), 14 deletions(-)

diff --git a/openformats/formats/office_open_xml/parser.py b/openformats/formats/office_open_xml/parser.py
index bc4929e..1cfb018 100644
--- a/openformats/formats/office_open_xml/parser.py
+++ b/openformats/formats/office_open_xml/parser.py
@@ -99,17 +99,18 @@ class OfficeOpenXmlHandler(object):
             if not text.strip():
                 leading_spaces += len(text) - len(text.strip())
                 continue
-            else:
-                text = u"".join([u" "*leading_spaces, text])
-                leading_spaces = 0
 
             try:
                 hyperlink_url = cls.get_hyperlink_url(
                     text_element, rels_soup
                 )
             except MissingParentError:
+                leading_spaces = 0
                 continue
 
+            text = u"".join([u" "*leading_spaces, text])
+            leading_spaces = 0
+
             wrapped = all([
                 text_elements_count == 2,
                 not hyperlink_url or hyperlink_url == open_hyperlink
@@ -191,7 +192,7 @@ class OfficeOpenXmlHandler(object):
 
         added_hl_text_elements = defaultdict(list)
         deleted_hl_text_elements = defaultdict(list)
-        empty_text_element = None
+        empty_text_elements = []
         elements_for_removal = []
         last_element = None
 
@@ -208,16 +209,19 @@ class OfficeOpenXmlHandler(object):
             # detect text elements that contain no text
             # and remove leading whitespace from the next string
             if not text.strip():
-                leading_spaces = len(text) - len(text.strip())
-                empty_text_element = text_element
+                leading_spaces += len(text) - len(text.strip())
+                empty_text_elements.append(text_element)
                 continue
 
-            last_element = text_element
             try:
                 hyperlink_url = cls.get_hyperlink_url(text_element, rels_soup)
             except MissingParentError:
+                leading_spaces = 0
+                empty_text_elements = []
                 continue
 
+            last_element = text_element
+
             # the text parts of the translation are less that the
             # text parts of the document, so we will just remove
             # any exceeding part from the document
@@ -229,13 +233,14 @@ class OfficeOpenXmlHandler(object):
                 translation = six.text_type(translation_part)
                 translation_hyperlink_url = cls.get_translation_hyperlink(translation_part)
 
-                if not translation[:leading_spaces].strip():
+                leading_text = translation[:leading_spaces]
+                if len(leading_text) == leading_spaces \
+                        and not leading_text.strip():
                     translation = translation[leading_spaces:]
-                    leading_spaces = 0
                 else:
-                    if empty_text_element:
-                        elements_for_removal.append(empty_text_element)
-                        empty_text_element = None
+                    elements_for_removal.extend(empty_text_elements)
+                leading_spaces = 0
+                empty_text_elements = []
 
                 text_element.clear()
                 text_element.insert(0, translation)
diff --git a/openformats/formats/pptx.py b/openformats/formats/pptx.py
index 7fd561f..5b33bc1 100644
--- a/openformats/formats/pptx.py
+++ b/openformats/formats/pptx.py
@@ -424,7 +424,9 @@ class PptxHandlerV2(PptxHandler):
         open_hyperlink = None
         undelimited = False
         for index, text_element in enumerate(text_elements):
-            text = text_element.text            
+            text = text_element.text
+            if not text:
+                continue
 
             try:
                 hyperlink_url = cls.get_hyperlink_url(
@@ -523,12 +525,17 @@ class PptxHandlerV2(PptxHandler):
             cls.set_rtl_orientation(paragraph)
 
         for _, text_element in enumerate(text_elements):
-            last_element = text_element
+            # empty text elements have no part in the string
+            if not text_element.text:
+                continue
+
             try:
                 hyperlink_url = cls.get_hyperlink_url(text_element, rels_soup)
             except MissingParentError:
                 continue
 
+            last_element = text_element
+
             # the text parts of the translation are less that the
             # text parts of the document, so we will just remove
             # any exceeding part from the document
-- 
2.43.0


From 0f969689b9ccacfcafa891caa7f607060ba016e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:43 +0000
Subject: [PATCH 65/90] fix: white space and unbalanced markers of office
 translations lose no text

BeautifulSoup collapses white-space-only texts; a closing marker that closes
nothing, ']]>' and text that starts like a marker lost the text around them.
---
 openformats/formats/docx.py                   |  4 +-
 openformats/formats/office_open_xml/parser.py | 50 ++++++++++++++-----
 openformats/formats/pptx.py                   |  8 +--
 3 files changed, 43 insertions(+), 19 deletions(-)

diff --git a/openformats/formats/docx.py b/openformats/formats/docx.py
index 1f8a8ba..d0ed883 100644
--- a/openformats/formats/docx.py
+++ b/openformats/formats/docx.py
@@ -292,7 +292,7 @@ class DocxHandler(Handler, OfficeOpenXmlHandler):
         """
         docx = DocxFile(content)
 
-        soup = BeautifulSoup(docx.get_document(), 'xml')
+        soup = self._get_soup(docx.get_document())
         rels_soup = BeautifulSoup(docx.get_document_rels(), 'xml')
 
         stringset = []
@@ -316,7 +316,7 @@ class DocxHandler(Handler, OfficeOpenXmlHandler):
             string.string_hash: string for string in stringset
         }
         docx = DocxFile(template)
-        soup = BeautifulSoup(docx.get_document(), 'xml')
+        soup = self._get_soup(docx.get_document())
         rels_soup = BeautifulSoup(docx.get_document_rels(), 'xml')
         is_rtl = kwargs.get('is_rtl', False)
 
diff --git a/openformats/formats/office_open_xml/parser.py b/openformats/formats/office_open_xml/parser.py
index 1cfb018..12b3641 100644
--- a/openformats/formats/office_open_xml/parser.py
+++ b/openformats/formats/office_open_xml/parser.py
@@ -1,3 +1,5 @@
+import re
+
 import six
 from copy import copy
 
@@ -66,19 +68,41 @@ class OfficeOpenXmlHandler(object):
                     if format:
                         text_element.insert_before(format)
 
-    @staticmethod
-    def _escape_xml(translation):
+    MARKER_PATTERN = re.compile(
+        r"""(</tx>|<tx(?:\s+(?:"[^"]*"|'[^']*'|[^<>"'])*)?/?>)"""
+    )
+
+    @classmethod
+    def _escape_xml(cls, translation):
         """ Do escaping: BeautifulSoup doesn't like unescaped '&' or '<' in its
-            input. We do expect some '<tx>' and `</tx>` so we first replace
-            these tags to placeholders, do the escaping and restore them.
+            input. We do expect some '<tx>' and `</tx>` so we leave these tags
+            and only drop the closing ones that don't close anything, as
+            the text after them would be lost.
         """
-        return translation.\
-            replace(u"<tx", u"__TX__OPENING__TAG__").\
-            replace(u"</tx>", u"__TX__CLOSING__TAG__").\
-            replace(u"&", "&amp;").\
-            replace(u"<", "&lt;").\
-            replace(u"__TX__OPENING__TAG__", u"<tx").\
-            replace(u"__TX__CLOSING__TAG__", u"</tx>")
+        def escape(text):
+            return text.replace(u"&", u"&amp;").replace(u"<", u"&lt;")
+
+        depth = 0
+        result = []
+        for part in cls.MARKER_PATTERN.split(translation):
+            if part == u"</tx>":
+                if depth > 0:
+                    depth -= 1
+                    result.append(part)
+            elif cls.MARKER_PATTERN.match(part):
+                if not part.endswith(u"/>"):
+                    depth += 1
+                result.append(part[0] + escape(part[1:]))
+            else:
+                result.append(escape(part).replace(u">", u"&gt;"))
+        return u"".join(result)
+
+    @staticmethod
+    def _get_soup(content):
+        """ Parse some XML without changing the white space of its texts. """
+        return BeautifulSoup(
+            content, 'xml', preserve_whitespace_tags={'t', 'wrapper'}
+        )
 
     @classmethod
     def parse_paragraph(cls, paragraph, rels_soup):
@@ -186,8 +210,8 @@ class OfficeOpenXmlHandler(object):
         translation_string = stringset[txid].string
         escaped_translation_string = cls._escape_xml(translation_string)
 
-        translation_soup = BeautifulSoup(
-            u'<wrapper>{}</wrapper>'.format(escaped_translation_string), 'xml',
+        translation_soup = cls._get_soup(
+            u'<wrapper>{}</wrapper>'.format(escaped_translation_string)
         ).find_all(text=True)
 
         added_hl_text_elements = defaultdict(list)
diff --git a/openformats/formats/pptx.py b/openformats/formats/pptx.py
index 5b33bc1..2a08f1c 100644
--- a/openformats/formats/pptx.py
+++ b/openformats/formats/pptx.py
@@ -362,7 +362,7 @@ class PptxHandler(Handler, OfficeOpenXmlHandler):
 
         for slide in pptx.get_slides():
             notes_slide = pptx.is_notes_slide(slide)
-            soup = BeautifulSoup(pptx.get_slide(slide), 'xml')
+            soup = self._get_soup(pptx.get_slide(slide))
             rels_soup = BeautifulSoup(pptx.get_slide_rels(slide), 'xml')
 
             for parent in soup.find_all(['p:sp', 'p:graphicFrame']):
@@ -389,7 +389,7 @@ class PptxHandler(Handler, OfficeOpenXmlHandler):
         pptx = PptxFile(template)
         is_rtl = kwargs.get('is_rtl', False)
         for slide in pptx.get_slides():
-            soup = BeautifulSoup(pptx.get_slide(slide), 'xml')
+            soup = self._get_soup(pptx.get_slide(slide))
             rels_soup = BeautifulSoup(pptx.get_slide_rels(slide), 'xml')
 
             for parent in soup.find_all(['p:sp', 'p:graphicFrame']):
@@ -510,8 +510,8 @@ class PptxHandlerV2(PptxHandler):
         translation_string = stringset[txid].string
         escaped_translation_string = cls._escape_xml(translation_string)
 
-        translation_soup = BeautifulSoup(
-            u'<wrapper>{}</wrapper>'.format(escaped_translation_string), 'xml',
+        translation_soup = cls._get_soup(
+            u'<wrapper>{}</wrapper>'.format(escaped_translation_string)
         ).find_all(text=True)
 
         added_hl_text_elements = defaultdict(list)
-- 
2.43.0


From 38f00ee81c83b91ddcc6e44953129a9ca9ebc5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:50 +0000
Subject: [PATCH 66/90] fix: links of office documents are removed and added
 without losing text

Removing a run of a DOCX link removed the whole link with the text of its
other runs, removing a link over two runs unwrapped the paragraph, adding a
link to a PPTX run without properties crashed.
---
 openformats/formats/docx.py | 21 +++++++++++++--------
 openformats/formats/pptx.py | 10 +++++++---
 2 files changed, 20 insertions(+), 11 deletions(-)

diff --git a/openformats/formats/docx.py b/openformats/formats/docx.py
index d0ed883..d9ca57b 100644
--- a/openformats/formats/docx.py
+++ b/openformats/formats/docx.py
@@ -206,9 +206,10 @@ class DocxHandler(Handler, OfficeOpenXmlHandler):
 
     @classmethod
     def create_hyperlink_url(cls, element, document_rels, url):
-        max_rid = max([
-            int(re.findall(r'\d+', e["Id"])[0])
+        max_rid = max([0] + [
+            int(number)
             for e in document_rels.find_all(attrs={"Id": True})
+            for number in re.findall(r'\d+', e["Id"])
         ])
 
         rid = "rId{}".format(max_rid+1)
@@ -229,16 +230,20 @@ class DocxHandler(Handler, OfficeOpenXmlHandler):
 
     @classmethod
     def remove_hyperlink(cls, text_element):
-        text_element.parent.parent.unwrap()
+        # several text elements may share the hyperlink
+        hyperlink = text_element.find_parent('w:hyperlink')
+        if hyperlink is not None:
+            hyperlink.unwrap()
 
     @classmethod
     def remove_text_element(cls, text_element):
-        if text_element.find_parent('w:r') is not None:
-            run_parent = text_element.find_parent('w:r').parent
-            if run_parent.name == 'hyperlink':
-                return text_element.find_parent('w:hyperlink').decompose()
+        hyperlink = text_element.find_parent('w:hyperlink')
+        text_element.decompose()
 
-        return text_element.decompose()
+        # keep the hyperlink if it has anything else to show
+        if hyperlink is not None and \
+                not hyperlink.find(['w:t', 'w:drawing', 'w:pict']):
+            hyperlink.decompose()
 
     @classmethod
     def set_rtl_orientation(cls, paragraph):
diff --git a/openformats/formats/pptx.py b/openformats/formats/pptx.py
index 2a08f1c..f0cff2f 100644
--- a/openformats/formats/pptx.py
+++ b/openformats/formats/pptx.py
@@ -302,9 +302,10 @@ class PptxHandler(Handler, OfficeOpenXmlHandler):
         if cls.get_hyperlink_url(element, document_rels):
             cls.set_hyperlink_url(element, document_rels, url)
         else:
-            max_rid = max([
-                int(re.findall(r'\d+', e["Id"])[0])
+            max_rid = max([0] + [
+                int(number)
                 for e in document_rels.find_all(attrs={"Id": True})
+                for number in re.findall(r'\d+', e["Id"])
             ])
 
             rid = "rId{}".format(max_rid+1)
@@ -320,7 +321,10 @@ class PptxHandler(Handler, OfficeOpenXmlHandler):
                 "a:hlinkClick",
                 **{"r:id": rid}
             )
-            element.parent.rPr.append(hyperlink)
+            run = element.find_parent('a:r')
+            if run.rPr is None:
+                run.insert(0, document_rels.new_tag("rPr", nsprefix="a"))
+            run.rPr.append(hyperlink)
 
     @classmethod
     def remove_hyperlink(cls, text_element):
-- 
2.43.0


From c523b1b3c3027ded3d575b86a7083a4b3253b47d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:00 +0000
Subject: [PATCH 67/90] fix: formats of office runs with equal texts are
 swapped with their links

---
 openformats/formats/office_open_xml/parser.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/openformats/formats/office_open_xml/parser.py b/openformats/formats/office_open_xml/parser.py
index 12b3641..1169f54 100644
--- a/openformats/formats/office_open_xml/parser.py
+++ b/openformats/formats/office_open_xml/parser.py
@@ -42,23 +42,24 @@ class OfficeOpenXmlHandler(object):
             added_hl_text_elements.keys(),
             deleted_hl_text_elements.keys()
         ):
-            replacements = {}
+            # a list, because elements with equal contents are equal
+            replacements = []
             for index, e in enumerate(added_hl_text_elements[added_url]):
                 if 0 <= index < len(deleted_hl_text_elements[deleted_url]):
                     deleted_format = deleted_hl_text_elements[deleted_url][index].parent.rPr
                 else:
                     deleted_format = deleted_hl_text_elements[deleted_url][-1].parent.rPr
                 deleted_format = copy(deleted_format)
-                replacements[e] = deleted_format
+                replacements.append((e, deleted_format))
             for index, e in enumerate(deleted_hl_text_elements[deleted_url]):
                 if 0 <= index < len(added_hl_text_elements[added_url]):
                     added_format = added_hl_text_elements[added_url][index].parent.rPr
                 else:
                     added_format = added_hl_text_elements[added_url][-1].parent.rPr
                 added_format = copy(added_format)
-                replacements[e] = added_format
+                replacements.append((e, added_format))
 
-            for text_element, format in six.iteritems(replacements):
+            for text_element, format in replacements:
                 if text_element.parent.rPr:
                     if format:
                         text_element.parent.rPr.replaceWith(format)
-- 
2.43.0


From 0de0030d078a8e31782c1831ad7252404d3a940b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:14 +0000
Subject: [PATCH 68/90] fix: texts of spreadsheets survive white space, quotes
 and apostrophes

White-space-only and empty runs of a cell shifted or lost the other runs'
texts, links with apostrophes and quotes in HYPERLINK formulas lost text or
broke the formula, the rest of a formula and its shown value got lost or
stayed untranslated, a workbook without shared strings crashed.
---
 openformats/formats/xlsx_unstructured.py | 116 +++++++++++++++--------
 1 file changed, 75 insertions(+), 41 deletions(-)

diff --git a/openformats/formats/xlsx_unstructured.py b/openformats/formats/xlsx_unstructured.py
index f3a0f48..0aa729a 100644
--- a/openformats/formats/xlsx_unstructured.py
+++ b/openformats/formats/xlsx_unstructured.py
@@ -125,10 +125,14 @@ class XlsxFile(object):
                 "id": sheet_item["id"]
             }
 
-        shared_strings_path_internal = content_types_soup.find(
+        shared_strings_item = content_types_soup.find(
             attrs={'ContentType': self.SHARED_STRINGS_CONTENT_TYPE}
-        )["PartName"]
-        self._shared_strings_path = "{}{}".format(self.__tmp_folder, shared_strings_path_internal)
+        )
+        self._shared_strings_path = None
+        if shared_strings_item:
+            self._shared_strings_path = "{}{}".format(
+                self.__tmp_folder, shared_strings_item["PartName"]
+            )
 
     def get_workbook_path(self):
         return self._workbook_path
@@ -176,11 +180,18 @@ class XlsxFile(object):
             f.write(content.encode(formatter=UnsortedAttributes()).decode())
 
     def get_shared_strings_content(self):
+        # a workbook without texts has no shared strings
+        if self.get_shared_strings_path() is None:
+            return ""
+
         with open(self.get_shared_strings_path(), "r") as f:
             shared_strings_content = f.read()
         return shared_strings_content
 
     def set_shared_strings_content(self, content):
+        if self.get_shared_strings_path() is None:
+            return
+
         with open(self.get_shared_strings_path(), "w") as f:
             f.write(content.encode(formatter=UnsortedAttributes()).decode())
 
@@ -200,10 +211,26 @@ class XlsxFile(object):
         return result
 
 
+HYPERLINK_PATTERN = re.compile(
+    r'HYPERLINK\("((?:[^"]|"")*)","((?:[^"]|"")*)"\)'
+)
+
+
+def unquote(string):
+    """ The contents of a string of a formula """
+    return string.replace('""', '"')
+
+
+def quote(string):
+    """ The opposite of `unquote` """
+    return string.replace('"', '""')
+
+
 def wrap(string, hyperlink=None):
     href = ""
     if hyperlink:
-        href = " href='{}'".format(hyperlink)
+        quote = '"' if "'" in hyperlink else "'"
+        href = " href={}{}{}".format(quote, hyperlink, quote)
     return "<tx{}>{}</tx>".format(href, string)
 
 
@@ -236,7 +263,7 @@ class XlsxUnstructuredHandler(Handler, OfficeOpenXmlHandler):
 
         sheet_names = self._extract_sheet_names(xlsx)
 
-        shared_strings_soup = BeautifulSoup(xlsx.get_shared_strings_content(), "xml")
+        shared_strings_soup = self._get_soup(xlsx.get_shared_strings_content())
         shared_strings = shared_strings_soup.find_all("si")
 
         extracted_strings = {}
@@ -254,7 +281,7 @@ class XlsxUnstructuredHandler(Handler, OfficeOpenXmlHandler):
             sheet_index += 1
             sheet_name = sheet_names[sheet_index].string
 
-            sheet_soup = BeautifulSoup(xlsx.get_sheet_content(sheet), "xml")
+            sheet_soup = self._get_soup(xlsx.get_sheet_content(sheet))
             sheet_rels_soup = None
             if xlsx.has_rels(sheet):
                 sheet_rels_soup = BeautifulSoup(xlsx.get_sheet_rels_content(sheet), "xml")
@@ -319,10 +346,10 @@ class XlsxUnstructuredHandler(Handler, OfficeOpenXmlHandler):
                     sheet_text_cell.f,
                 ]):
                     link_content = sheet_text_cell.f.text
-                    match = re.search(r'HYPERLINK\("(.*?)","(.*?)"\)', link_content)
+                    match = HYPERLINK_PATTERN.search(link_content)
                     link, text = match.groups() if match else (None, None)
                     if link and text:
-                        string = wrap(text, link)
+                        string = wrap(unquote(text), unquote(link))
                 else:
                     t_strings = find_string_from.find_all("t")
                     t_strings_len = len(t_strings)
@@ -371,28 +398,27 @@ class XlsxUnstructuredHandler(Handler, OfficeOpenXmlHandler):
 
     @staticmethod
     def _prepare_string(input_list, n):
-        cleaned_strings = []
-        spaces = 0
-        for i, string in enumerate(input_list):
-            tmp_string = string
-            if len(string.strip()) == 0:
-                continue
-            elif len(string) > 0 and not string.strip():
-                spaces = len(string)
-            else:
-                if spaces:
-                    spaces_text = {spaces * " "}
-                    if len(cleaned_strings) > 0:
-                        tmp_string = "{}{}".format(spaces_text, string)
-                    else:
-                        tmp_string = "{}{}".format(string, spaces_text)
-                    spaces=0
-            if len(cleaned_strings) >= n:
-                cleaned_strings[-1] += tmp_string
+        parts = list(input_list)
+        # white space between the parts that the document doesn't have
+        # belongs to the part after it, or to the last one
+        index = 0
+        while len(parts) > n and index < len(parts):
+            if not parts[index].strip():
+                spaces = parts.pop(index)
+                if index < len(parts):
+                    parts[index] = spaces + parts[index]
+                elif parts:
+                    parts[-1] += spaces
+                else:
+                    parts.append(spaces)
+                    break
             else:
-                cleaned_strings.append(tmp_string)
+                index += 1
+
+        if len(parts) > n > 0:
+            parts[n - 1:] = ["".join(parts[n - 1:])]
 
-        return cleaned_strings
+        return parts
 
     def _compile_workbook(self, xlsx, stringset):
         workbook_soup = BeautifulSoup(
@@ -420,12 +446,12 @@ class XlsxUnstructuredHandler(Handler, OfficeOpenXmlHandler):
         }
         xlsx = XlsxFile(template)
 
-        shared_strings_soup = BeautifulSoup(xlsx.get_shared_strings_content(), "xml")
+        shared_strings_soup = self._get_soup(xlsx.get_shared_strings_content())
         shared_strings = shared_strings_soup.find_all("si")
 
         self._compile_workbook(xlsx, stringset)
         for sheet in xlsx.get_sheets():
-            sheet_soup = BeautifulSoup(xlsx.get_sheet_content(sheet), "xml")
+            sheet_soup = self._get_soup(xlsx.get_sheet_content(sheet))
             sheet_rels_soup = None
             if xlsx.has_rels(sheet):
                 sheet_rels_soup = BeautifulSoup(
@@ -495,8 +521,8 @@ class XlsxUnstructuredHandler(Handler, OfficeOpenXmlHandler):
                 - <tx>part1</tx><tx>part2</tx>
                 - <tx href='app.transifex.com'><tx>part1</tx><tx>part2</tx></tx>
                 """
-                translation_soup = BeautifulSoup(
-                    u'<wrapper>{}</wrapper>'.format(escaped_translation_string), 'xml',
+                translation_soup = self._get_soup(
+                    u'<wrapper>{}</wrapper>'.format(escaped_translation_string)
                 )
                 translation_hyperlink = translation_soup.find(
                     lambda tag: tag.has_attr("href")
@@ -521,21 +547,29 @@ class XlsxUnstructuredHandler(Handler, OfficeOpenXmlHandler):
                     sheet_text_cell.f,
                 ]):
                     link_content = sheet_text_cell.f.text
-                    match = re.search(r'HYPERLINK\("(.*?)","(.*?)"\)', link_content)
+                    match = HYPERLINK_PATTERN.search(link_content)
                     link, text = match.groups() if match else (None, None)
                     if link and text:
                         translation = "".join(translation_parts)
                         if target_url:
-                            sheet_text_cell.f.string = (
-                                f'HYPERLINK("{target_url}","{translation}")'
-                            )
-                        else:
-                            sheet_text_cell.f.string = (
-                                f'HYPERLINK("{link}","{translation}")'
-                            )
+                            link = quote(target_url)
+                        sheet_text_cell.f.string = "".join([
+                            link_content[:match.start()],
+                            f'HYPERLINK("{link}","{quote(translation)}")',
+                            link_content[match.end():],
+                        ])
+                        # the value that is shown until it's calculated again
+                        if sheet_text_cell.v and \
+                                sheet_text_cell.v.text == unquote(text):
+                            sheet_text_cell.v.string = translation
 
                 else:
-                    t_strings = replace_string_to.find_all("t")
+                    # empty elements have no part in the string
+                    t_strings = [
+                        t_string
+                        for t_string in replace_string_to.find_all("t")
+                        if t_string.text
+                    ]
                     t_strings_len = len(t_strings)
 
                     translation_parts_cleaned = self._prepare_string(
-- 
2.43.0


From 084fcb1dd1cf5f230557088bb585a2d6e7bf8d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:24 +0000
Subject: [PATCH 69/90] fix: compiled spreadsheets have no invalid attributes

---
 openformats/formats/xlsx_unstructured.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openformats/formats/xlsx_unstructured.py b/openformats/formats/xlsx_unstructured.py
index 0aa729a..74c3ac8 100644
--- a/openformats/formats/xlsx_unstructured.py
+++ b/openformats/formats/xlsx_unstructured.py
@@ -331,6 +331,7 @@ class XlsxUnstructuredHandler(Handler, OfficeOpenXmlHandler):
 
                 if cell_hyper_link and shared_string_element:
                     sheet_text_cell.v.replace_with(copy.copy(shared_string_element))
+                    sheet_text_cell.si.attrs.pop("txid", None)
                     sheet_text_cell.si.name = "is"
                     find_string_from = sheet_text_cell
                     sheet_text_cell.attrs["t"] = "inlineStr"
@@ -461,7 +462,7 @@ class XlsxUnstructuredHandler(Handler, OfficeOpenXmlHandler):
             if is_rtl is not None:
                 sheet_view = sheet_soup.find("sheetView")
                 if sheet_view:
-                    sheet_view.attrs["rightToLeft"] = is_rtl
+                    sheet_view.attrs["rightToLeft"] = "1" if is_rtl else "0"
 
             sheet_text_cells = sheet_soup.find_all(
                 "c",
-- 
2.43.0


From 2bbcc21e60e7f1da93929b41680178f09104b293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:39 +0000
Subject: [PATCH 70/90] fix: packages of office documents are kept whole and
 their temporary data is always removed

A document that could not be parsed or compiled left its temporary folder
behind. Members called like the temporary file of the package were lost, and
members whose names lead out of the folder were replaced with the file of the
host that has that name.
---
 openformats/formats/docx.py                   | 54 +++++++++----------
 .../formats/office_open_xml/package.py        | 33 ++++++++++++
 openformats/formats/pptx.py                   | 54 +++++++++----------
 openformats/formats/xlsx_unstructured.py      | 52 +++++++-----------
 4 files changed, 101 insertions(+), 92 deletions(-)
 create mode 100644 openformats/formats/office_open_xml/package.py

diff --git a/openformats/formats/docx.py b/openformats/formats/docx.py
index d9ca57b..23b845f 100644
--- a/openformats/formats/docx.py
+++ b/openformats/formats/docx.py
@@ -5,11 +5,11 @@ import re
 import shutil
 import tempfile
 import uuid
-from zipfile import ZIP_DEFLATED, ZipFile
 
 import six
 from bs4 import BeautifulSoup
 from openformats.handlers import Handler
+from openformats.formats.office_open_xml.package import pack, unpack
 from openformats.formats.office_open_xml.parser import OfficeOpenXmlHandler
 
 
@@ -88,17 +88,14 @@ class DocxFile(object):
             tempfile.gettempdir(), uuid.uuid4().hex
         )
         os.mkdir(self.__tmp_folder)
+        try:
+            self.__load(content)
+        except Exception:
+            self.delete()
+            raise
 
-        docx_path = '{}/{}.docx'.format(self.__tmp_folder, 'in')
-        with io.open(docx_path, 'wb') as f:
-            f.write(content)
-
-        with ZipFile(docx_path, 'r') as z:
-            z.extractall(self.__tmp_folder)
-
-        self.__filelist = z.namelist()
-
-        os.remove(docx_path)
+    def __load(self, content):
+        self.__files = unpack(content, self.__tmp_folder)
 
         base_rels_path = '{}/{}'.format(self.__tmp_folder, '_rels/.rels')
         with io.open(base_rels_path, 'r') as f:
@@ -157,18 +154,7 @@ class DocxFile(object):
             f.write(document_rels)
 
     def compress(self):
-        docx_path = '{}/{}.docx'.format(self.__tmp_folder, 'out')
-
-        with ZipFile(docx_path, "w", compression=ZIP_DEFLATED) as z:
-            for filename in self.__filelist:
-                z.write(os.path.join(self.__tmp_folder, filename), filename)
-
-        with io.open(docx_path, 'rb') as f:
-            result = f.read()
-
-        os.remove(docx_path)
-
-        return result
+        return pack(self.__files)
 
     def delete(self):
         shutil.rmtree(self.__tmp_folder)
@@ -296,7 +282,12 @@ class DocxHandler(Handler, OfficeOpenXmlHandler):
         compilation takes place.
         """
         docx = DocxFile(content)
+        try:
+            return self._parse(docx)
+        finally:
+            docx.delete()
 
+    def _parse(self, docx):
         soup = self._get_soup(docx.get_document())
         rels_soup = BeautifulSoup(docx.get_document_rels(), 'xml')
 
@@ -312,18 +303,23 @@ class DocxHandler(Handler, OfficeOpenXmlHandler):
 
         docx.set_document(six.text_type(soup))
 
-        template = docx.compress()
-        docx.delete()
-        return template, stringset
+        return docx.compress(), stringset
 
     def compile(self, template, stringset, **kwargs):
         stringset = {
             string.string_hash: string for string in stringset
         }
         docx = DocxFile(template)
+        try:
+            return self._compile(
+                docx, stringset, is_rtl=kwargs.get('is_rtl', False)
+            )
+        finally:
+            docx.delete()
+
+    def _compile(self, docx, stringset, is_rtl):
         soup = self._get_soup(docx.get_document())
         rels_soup = BeautifulSoup(docx.get_document_rels(), 'xml')
-        is_rtl = kwargs.get('is_rtl', False)
 
         for paragraph in soup.find_all('w:p'):
             self.compile_paragraph(
@@ -337,6 +333,4 @@ class DocxHandler(Handler, OfficeOpenXmlHandler):
         docx.set_document(six.text_type(soup))
         docx.set_document_rels(six.text_type(rels_soup))
 
-        result = docx.compress()
-        docx.delete()
-        return result
+        return docx.compress()
diff --git a/openformats/formats/office_open_xml/package.py b/openformats/formats/office_open_xml/package.py
new file mode 100644
index 0000000..4c4fb3c
--- /dev/null
+++ b/openformats/formats/office_open_xml/package.py
@@ -0,0 +1,33 @@
+import io
+from zipfile import ZIP_DEFLATED, ZipFile
+
+
+def unpack(content, folder):
+    """ Extract the members of a package
+
+    :param content: The contents of the package
+    :param folder: The folder to extract its members to
+    :return: A list of the names of the members and of the files they were
+        extracted to. The one doesn't always follow from the other, eg for
+        names that lead out of the folder.
+    """
+    with ZipFile(io.BytesIO(content), 'r') as z:
+        return [
+            (filename, z.extract(filename, folder))
+            for filename in z.namelist()
+        ]
+
+
+def pack(files):
+    """ The opposite of `unpack` """
+    result = io.BytesIO()
+    with ZipFile(result, "w", compression=ZIP_DEFLATED) as z:
+        for filename, path in files:
+            if filename.endswith("/"):
+                z.writestr(filename, b"")
+                continue
+
+            with io.open(path, 'rb') as f:
+                z.writestr(filename, f.read())
+
+    return result.getvalue()
diff --git a/openformats/formats/pptx.py b/openformats/formats/pptx.py
index f0cff2f..e703642 100644
--- a/openformats/formats/pptx.py
+++ b/openformats/formats/pptx.py
@@ -5,12 +5,12 @@ import re
 import shutil
 import tempfile
 import uuid
-from zipfile import ZIP_DEFLATED, ZipFile
 
 import six
 from bs4 import BeautifulSoup
 from openformats.handlers import Handler
 from openformats.exceptions import MissingParentError
+from openformats.formats.office_open_xml.package import pack, unpack
 from openformats.formats.office_open_xml.parser import OfficeOpenXmlHandler
 from openformats.strings import OpenString
 from collections import defaultdict
@@ -92,17 +92,14 @@ class PptxFile(object):
             tempfile.gettempdir(), uuid.uuid4().hex
         )
         os.mkdir(self.__tmp_folder)
+        try:
+            self.__load(content)
+        except Exception:
+            self.delete()
+            raise
 
-        pptx_path = '{}/{}.pptx'.format(self.__tmp_folder, 'in')
-        with io.open(pptx_path, 'wb') as f:
-            f.write(content)
-
-        with ZipFile(pptx_path, 'r') as z:
-            z.extractall(self.__tmp_folder)
-
-        self.__filelist = z.namelist()
-
-        os.remove(pptx_path)
+    def __load(self, content):
+        self.__files = unpack(content, self.__tmp_folder)
 
         content_types_path = '{}/{}'.format(
             self.__tmp_folder, '[Content_Types].xml'
@@ -200,18 +197,7 @@ class PptxFile(object):
             f.write(content)
 
     def compress(self):
-        pptx_path = '{}/{}.pptx'.format(self.__tmp_folder, 'out')
-
-        with ZipFile(pptx_path, "w", compression=ZIP_DEFLATED) as z:
-            for filename in self.__filelist:
-                z.write(os.path.join(self.__tmp_folder, filename), filename)
-
-        with io.open(pptx_path, 'rb') as f:
-            result = f.read()
-
-        os.remove(pptx_path)
-
-        return result
+        return pack(self.__files)
 
     def delete(self):
         shutil.rmtree(self.__tmp_folder)
@@ -360,7 +346,12 @@ class PptxHandler(Handler, OfficeOpenXmlHandler):
         compilation takes place.
         """
         pptx = PptxFile(content)
+        try:
+            return self._parse(pptx)
+        finally:
+            pptx.delete()
 
+    def _parse(self, pptx):
         stringset = []
         order = itertools.count()
 
@@ -382,16 +373,21 @@ class PptxHandler(Handler, OfficeOpenXmlHandler):
 
             pptx.set_slide(slide, six.text_type(soup))
 
-        template = pptx.compress()
-        pptx.delete()
-        return template, stringset
+        return pptx.compress(), stringset
 
     def compile(self, template, stringset, **kwargs):
         stringset = {
             string.string_hash: string for string in stringset
         }
         pptx = PptxFile(template)
-        is_rtl = kwargs.get('is_rtl', False)
+        try:
+            return self._compile(
+                pptx, stringset, is_rtl=kwargs.get('is_rtl', False)
+            )
+        finally:
+            pptx.delete()
+
+    def _compile(self, pptx, stringset, is_rtl):
         for slide in pptx.get_slides():
             soup = self._get_soup(pptx.get_slide(slide))
             rels_soup = BeautifulSoup(pptx.get_slide_rels(slide), 'xml')
@@ -405,9 +401,7 @@ class PptxHandler(Handler, OfficeOpenXmlHandler):
             pptx.set_slide(slide, six.text_type(soup))
             pptx.set_slide_rels(slide, six.text_type(rels_soup))
 
-        result = pptx.compress()
-        pptx.delete()
-        return result
+        return pptx.compress()
 
 class PptxHandlerV2(PptxHandler):
     """
diff --git a/openformats/formats/xlsx_unstructured.py b/openformats/formats/xlsx_unstructured.py
index 74c3ac8..64dd087 100644
--- a/openformats/formats/xlsx_unstructured.py
+++ b/openformats/formats/xlsx_unstructured.py
@@ -7,12 +7,12 @@ import shutil
 import tempfile
 from uuid import uuid4
 
-from zipfile import ZipFile, ZIP_DEFLATED
 
 from bs4 import BeautifulSoup
 from bs4.dammit import EntitySubstitution
 from bs4.formatter import XMLFormatter
 
+from openformats.formats.office_open_xml.package import pack, unpack
 from openformats.formats.office_open_xml.parser import OfficeOpenXmlHandler
 from openformats.handlers import Handler
 from openformats.strings import OpenString
@@ -53,20 +53,12 @@ class XlsxFile(object):
     def __init__(self, content):
         self.__tmp_folder = "{}/{}".format(tempfile.gettempdir(), uuid4().hex)
         os.mkdir(self.__tmp_folder)
-
-        input_path = self.__tmp_folder + "in.xlsx"
-
-        with io.open(input_path, 'wb') as f:
-            f.write(content)
-
-        with ZipFile(input_path, 'r') as z:
-            z.extractall(self.__tmp_folder)
-
-        os.remove(input_path)
-
-        self.__filelist = z.namelist()
-
-        self._parse()
+        try:
+            self.__files = unpack(content, self.__tmp_folder)
+            self._parse()
+        except Exception:
+            self.delete()
+            raise
 
     def _parse(self):
         """
@@ -199,16 +191,7 @@ class XlsxFile(object):
         shutil.rmtree(self.__tmp_folder)
 
     def compress(self):
-        output_path = self.__tmp_folder + "/out.xlsx"
-        with ZipFile(output_path, "w", compression=ZIP_DEFLATED) as z:
-            for filename in self.__filelist:
-                z.write(os.path.join(self.__tmp_folder, filename), filename)
-
-        with io.open(output_path, 'rb') as f:
-            result = f.read()
-
-        os.remove(output_path)
-        return result
+        return pack(self.__files)
 
 
 HYPERLINK_PATTERN = re.compile(
@@ -258,7 +241,12 @@ class XlsxUnstructuredHandler(Handler, OfficeOpenXmlHandler):
 
     def parse(self, content, **kwargs):
         xlsx = XlsxFile(content)
+        try:
+            return self._parse(xlsx)
+        finally:
+            xlsx.delete()
 
+    def _parse(self, xlsx):
         order = itertools.count()
 
         sheet_names = self._extract_sheet_names(xlsx)
@@ -392,10 +380,7 @@ class XlsxUnstructuredHandler(Handler, OfficeOpenXmlHandler):
             open_string.order = next(order)
             all_strings.append(open_string)
 
-        template = xlsx.compress()
-
-        xlsx.delete()
-        return template, all_strings
+        return xlsx.compress(), all_strings
 
     @staticmethod
     def _prepare_string(input_list, n):
@@ -446,7 +431,12 @@ class XlsxUnstructuredHandler(Handler, OfficeOpenXmlHandler):
             string.string_hash: string for string in stringset
         }
         xlsx = XlsxFile(template)
+        try:
+            return self._compile(xlsx, stringset, is_rtl)
+        finally:
+            xlsx.delete()
 
+    def _compile(self, xlsx, stringset, is_rtl):
         shared_strings_soup = self._get_soup(xlsx.get_shared_strings_content())
         shared_strings = shared_strings_soup.find_all("si")
 
@@ -594,7 +584,5 @@ class XlsxUnstructuredHandler(Handler, OfficeOpenXmlHandler):
             if xlsx.has_rels(sheet):
                 xlsx.set_sheet_rels_content(sheet, sheet_rels_soup)
 
-        result = xlsx.compress()
-        xlsx.delete()
-        return result
+        return xlsx.compress()
 
-- 
2.43.0


From 3044ed0bca65dda5384729b150e164f894a721ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:39 +0000
Subject: [PATCH 71/90] fix: DOCX files whose document has no relationships are
 accepted

---
 openformats/formats/docx.py | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/openformats/formats/docx.py b/openformats/formats/docx.py
index 23b845f..063928c 100644
--- a/openformats/formats/docx.py
+++ b/openformats/formats/docx.py
@@ -83,6 +83,11 @@ class DocxFile(object):
     ```
     """
 
+    NO_RELS = (
+        '<Relationships xmlns='
+        '"http://schemas.openxmlformats.org/package/2006/relationships"/>'
+    )
+
     def __init__(self, content):
         self.__tmp_folder = "{}/{}".format(
             tempfile.gettempdir(), uuid.uuid4().hex
@@ -122,6 +127,9 @@ class DocxFile(object):
             self.__tmp_folder, document_folder, document_file
         )
         self.__document_rels = None
+        if not os.path.exists(self.__document_rels_path):
+            # a document that doesn't refer to anything
+            self.__document_rels = self.NO_RELS
 
     def get_document(self):
         if self.__document is None:
@@ -150,9 +158,23 @@ class DocxFile(object):
     def set_document_rels(self, document_rels):
         self.__document_rels = document_rels
 
+        if not os.path.exists(self.__document_rels_path):
+            if "<Relationship " not in document_rels:
+                return
+            self.__add_document_rels()
+
         with io.open(self.__document_rels_path, 'w') as f:
             f.write(document_rels)
 
+    def __add_document_rels(self):
+        folder = os.path.dirname(self.__document_rels_path)
+        if not os.path.exists(folder):
+            os.mkdir(folder)
+        self.__files.append((
+            os.path.relpath(self.__document_rels_path, self.__tmp_folder),
+            self.__document_rels_path,
+        ))
+
     def compress(self):
         return pack(self.__files)
 
-- 
2.43.0


From d9ba3e781f261e345d0a823d26d275cfc76608d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:43 +0000
Subject: [PATCH 72/90] fix: parts of office documents are read and written as
 UTF-8 whatever the locale

---
 openformats/formats/docx.py              | 10 +++++-----
 openformats/formats/pptx.py              | 10 +++++-----
 openformats/formats/xlsx_unstructured.py | 18 +++++++++---------
 3 files changed, 19 insertions(+), 19 deletions(-)

diff --git a/openformats/formats/docx.py b/openformats/formats/docx.py
index 063928c..0655bcb 100644
--- a/openformats/formats/docx.py
+++ b/openformats/formats/docx.py
@@ -103,7 +103,7 @@ class DocxFile(object):
         self.__files = unpack(content, self.__tmp_folder)
 
         base_rels_path = '{}/{}'.format(self.__tmp_folder, '_rels/.rels')
-        with io.open(base_rels_path, 'r') as f:
+        with io.open(base_rels_path, 'r', encoding='utf-8') as f:
             base_rels = f.read()
 
         if base_rels.startswith("\ufeff"):
@@ -133,7 +133,7 @@ class DocxFile(object):
 
     def get_document(self):
         if self.__document is None:
-            with io.open(self.__document_path, 'r') as f:
+            with io.open(self.__document_path, 'r', encoding='utf-8') as f:
                 self.__document = f.read()
 
             if self.__document.startswith("\ufeff"):
@@ -145,12 +145,12 @@ class DocxFile(object):
     def set_document(self, document):
         self.__document = document
 
-        with io.open(self.__document_path, 'w') as f:
+        with io.open(self.__document_path, 'w', encoding='utf-8') as f:
             f.write(document)
 
     def get_document_rels(self):
         if self.__document_rels is None:
-            with io.open(self.__document_rels_path, 'r') as f:
+            with io.open(self.__document_rels_path, 'r', encoding='utf-8') as f:
                 self.__document_rels = f.read()
 
         return self.__document_rels
@@ -163,7 +163,7 @@ class DocxFile(object):
                 return
             self.__add_document_rels()
 
-        with io.open(self.__document_rels_path, 'w') as f:
+        with io.open(self.__document_rels_path, 'w', encoding='utf-8') as f:
             f.write(document_rels)
 
     def __add_document_rels(self):
diff --git a/openformats/formats/pptx.py b/openformats/formats/pptx.py
index e703642..de7240c 100644
--- a/openformats/formats/pptx.py
+++ b/openformats/formats/pptx.py
@@ -104,7 +104,7 @@ class PptxFile(object):
         content_types_path = '{}/{}'.format(
             self.__tmp_folder, '[Content_Types].xml'
         )
-        with io.open(content_types_path, 'r') as f:
+        with io.open(content_types_path, 'r', encoding='utf-8') as f:
             content_types = f.read()
 
         slide_content_type = 'application/vnd.openxmlformats-officedocument.presentationml.slide+xml'  # noqa
@@ -169,7 +169,7 @@ class PptxFile(object):
 
     def get_slide(self, slide):
         if self.__slides[slide]['slide']['content'] is None:
-            with io.open(self.__slides[slide]['slide']['path'], 'r') as f:
+            with io.open(self.__slides[slide]['slide']['path'], 'r', encoding='utf-8') as f:
                 self.__slides[slide]['slide']['content'] = f.read()
 
         return self.__slides[slide]['slide']['content']
@@ -180,12 +180,12 @@ class PptxFile(object):
     def set_slide(self, slide, content):
         self.__slides[slide]['slide']['content'] = content
 
-        with io.open(self.__slides[slide]['slide']['path'], 'w') as f:
+        with io.open(self.__slides[slide]['slide']['path'], 'w', encoding='utf-8') as f:
             f.write(content)
 
     def get_slide_rels(self, slide):
         if self.__slides[slide]['rels']['content'] is None:
-            with io.open(self.__slides[slide]['rels']['path'], 'r') as f:
+            with io.open(self.__slides[slide]['rels']['path'], 'r', encoding='utf-8') as f:
                 self.__slides[slide]['rels']['content'] = f.read()
 
         return self.__slides[slide]['rels']['content']
@@ -193,7 +193,7 @@ class PptxFile(object):
     def set_slide_rels(self, slide, content):
         self.__slides[slide]['rels']['content'] = content
 
-        with io.open(self.__slides[slide]['rels']['path'], 'w') as f:
+        with io.open(self.__slides[slide]['rels']['path'], 'w', encoding='utf-8') as f:
             f.write(content)
 
     def compress(self):
diff --git a/openformats/formats/xlsx_unstructured.py b/openformats/formats/xlsx_unstructured.py
index 64dd087..fd0e900 100644
--- a/openformats/formats/xlsx_unstructured.py
+++ b/openformats/formats/xlsx_unstructured.py
@@ -73,7 +73,7 @@ class XlsxFile(object):
         </c>
         """
         content_types_file_path = "{}/{}".format(self.__tmp_folder, self.CONTENT_TYPES)
-        with io.open(content_types_file_path, "r") as f:
+        with io.open(content_types_file_path, "r", encoding="utf-8") as f:
             content_types_file = f.read()
         content_types_soup = BeautifulSoup(content_types_file,'xml')
 
@@ -142,33 +142,33 @@ class XlsxFile(object):
         return self._comment_paths
 
     def get_workbook_content(self):
-        with open(self.get_workbook_path(), "r") as f:
+        with open(self.get_workbook_path(), "r", encoding="utf-8") as f:
             workbook_content = f.read()
         return workbook_content
 
     def set_workbook_content(self, content):
-        with open(self.get_workbook_path(), "w") as f:
+        with open(self.get_workbook_path(), "w", encoding="utf-8") as f:
             f.write(content.encode(formatter=UnsortedAttributes()).decode())
 
     def get_sheet_content(self, sheet):
-        with open(self.get_sheet(sheet)["path"], "r") as f:
+        with open(self.get_sheet(sheet)["path"], "r", encoding="utf-8") as f:
             sheet_content = f.read()
         return sheet_content
 
     def set_sheet_content(self, sheet, content):
-        with open(self.get_sheet(sheet)["path"], "w") as f:
+        with open(self.get_sheet(sheet)["path"], "w", encoding="utf-8") as f:
             f.write(content.encode(formatter=UnsortedAttributes()).decode())
 
     def has_rels(self, sheet):
         return os.path.exists(self.get_sheet(sheet)["rels_path"])
 
     def get_sheet_rels_content(self, sheet):
-        with open(self.get_sheet(sheet)["rels_path"], "r") as f:
+        with open(self.get_sheet(sheet)["rels_path"], "r", encoding="utf-8") as f:
             sheet_rels = f.read()
         return sheet_rels
 
     def set_sheet_rels_content(self, sheet, content):
-        with open(self.get_sheet(sheet)["rels_path"], "w") as f:
+        with open(self.get_sheet(sheet)["rels_path"], "w", encoding="utf-8") as f:
             f.write(content.encode(formatter=UnsortedAttributes()).decode())
 
     def get_shared_strings_content(self):
@@ -176,7 +176,7 @@ class XlsxFile(object):
         if self.get_shared_strings_path() is None:
             return ""
 
-        with open(self.get_shared_strings_path(), "r") as f:
+        with open(self.get_shared_strings_path(), "r", encoding="utf-8") as f:
             shared_strings_content = f.read()
         return shared_strings_content
 
@@ -184,7 +184,7 @@ class XlsxFile(object):
         if self.get_shared_strings_path() is None:
             return
 
-        with open(self.get_shared_strings_path(), "w") as f:
+        with open(self.get_shared_strings_path(), "w", encoding="utf-8") as f:
             f.write(content.encode(formatter=UnsortedAttributes()).decode())
 
     def delete(self):
-- 
2.43.0


From e3f38e6e0fbdcff1c7842c8cf76936de569b8c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:21 +0000
Subject: [PATCH 73/90] fix: Markdown: place strings after the parts that are
 not translated

---
 openformats/formats/github_markdown.py    | 87 +++++++++++++++++------
 openformats/formats/github_markdown_v2.py | 66 ++++++++---------
 2 files changed, 95 insertions(+), 58 deletions(-)

diff --git a/openformats/formats/github_markdown.py b/openformats/formats/github_markdown.py
index 0e58bfe..006cc0d 100644
--- a/openformats/formats/github_markdown.py
+++ b/openformats/formats/github_markdown.py
@@ -35,10 +35,11 @@ def string_handler(token, template):
     if key == 'block_code':
         lines = string.split('\n')
         line = lines[0]
-        spaces = re.findall(
-            ensure_unicode(r'\n( *){}').format(re.escape(line)),
-            template
-        )[0]
+        match_code_line = re.search(
+            ensure_unicode(r'^( *){}').format(re.escape(line)),
+            template, re.M
+        )
+        spaces = match_code_line.group(1) if match_code_line else ''
         if spaces:
             string = ''
             for line in lines:
@@ -53,7 +54,7 @@ def string_handler(token, template):
     # Drop # chars from beginning of the string
     match_header_line = re.search(ensure_unicode(r'^#+\s'), string)
     if match_header_line:
-        return string.replace(match_header_line.group(), '')
+        return string[match_header_line.end():]
 
     # Extract Text from `[Text]: link` or `"[Text]: link"` lines
     match_reference = re.search(ensure_unicode(r'^"?\[([^\[^\]]+)\]:.+"?$'), string)
@@ -75,6 +76,33 @@ def string_handler(token, template):
     return string
 
 
+def find_string(token, string, template, pos):
+    """
+    Find the place of an extracted string in the template.
+    Parameters:
+    token: The token the string was extracted from, see `string_handler`.
+    string: The return value of `string_handler` for the token.
+    template: the template of the resource
+    pos: where the part of the template that follows the previous token starts
+
+    returns: the index of the string, or -1 if it does not appear in the
+             template, and the index where the token ends
+    """
+    raw = token[0].strip('\n')
+    start = template.find(raw, pos)
+    # The parser may have altered the whitespace of the token
+    end = pos if start == -1 else start + len(raw)
+    if not string:
+        return -1, end
+
+    if start == -1 or string not in raw:
+        start = pos
+    start = template.find(string, start)
+    if start == -1:
+        return -1, pos
+    return start, max(start + len(string), end)
+
+
 class TxBlockLexer(BlockLexer):
 
     md_stringset = []
@@ -146,11 +174,16 @@ class GithubMarkdownHandler(OrderedCompilerMixin, Handler):
     def yaml_parser(self, yaml_header):
         # TODO: This is a temporary solution. Yaml header should be parsed
         # with an actual yaml parser when it is implemented in openformats
+        # (string, type, index in the header) tuples
         yaml_strings = []
         block = False
         block_string = ''
         indent = 0
-        for line in yaml_header.splitlines():
+        line_end = 0
+        for line in yaml_header.splitlines(True):
+            line_start = line_end
+            line_end += len(line)
+            line = line.splitlines()[0]
             # ignore comments
             if line.startswith('#'):
                 continue
@@ -161,7 +194,7 @@ class GithubMarkdownHandler(OrderedCompilerMixin, Handler):
                     block_string += '\n'
                     continue
                 else:
-                    yaml_strings.append((block_string, None))
+                    yaml_strings.append((block_string, None, block_start))
                     block_string = ''
                     block = False
             key_value = line.split(':', 1)
@@ -175,8 +208,10 @@ class GithubMarkdownHandler(OrderedCompilerMixin, Handler):
                                            key_value[0]).
                                  group(0))
                     block = True
+                    block_start = line_end
                     continue
-                yaml_strings.append((value, None))
+                value_start = line_start + len(key_value[0]) + 1
+                yaml_strings.append((value, None, value_start))
         return yaml_strings
 
     def parse(self, content, **kwargs):
@@ -203,6 +238,8 @@ class GithubMarkdownHandler(OrderedCompilerMixin, Handler):
             yaml_header_content = yml_header.group()
             md_content = content[len(yaml_header_content):]
             yaml_stringset = self.yaml_parser(yaml_header_content)
+            # What follows the header starts after all of it
+            yaml_stringset.append(('', None, len(yaml_header_content)))
         else:
             md_content = content
 
@@ -217,18 +254,24 @@ class GithubMarkdownHandler(OrderedCompilerMixin, Handler):
 
         order = 0
         curr_pos = 0
-        for string in (yaml_stringset + block.md_stringset):
-            string = string_handler(string, template)
-            if string and string in template[curr_pos:]:
-                string_object = OpenString(six.text_type(order),
-                                           string,
-                                           order=order)
-                order += 1
-                stringset.append(string_object)
-                # Keep track of the index of the last replaced hash
-                template = template[:curr_pos] + template[curr_pos:].replace(
-                    string, string_object.template_replacement, 1
-                )
-                curr_pos = template.find(string_object.template_replacement)
-                curr_pos = curr_pos + len(string_object.template_replacement)
+        for token in (yaml_stringset + block.md_stringset):
+            if len(token) > 2:
+                # The place of the token in the header is known
+                curr_pos = token[2] + len(template) - len(content)
+                token = token[:2]
+            string = string_handler(token, template[curr_pos:])
+            start, end = find_string(token, string, template, curr_pos)
+            if start == -1:
+                curr_pos = end
+                continue
+            string_object = OpenString(six.text_type(order),
+                                       string,
+                                       order=order)
+            order += 1
+            stringset.append(string_object)
+            # Keep track of the index after the token
+            replacement = string_object.template_replacement
+            template = (template[:start] + replacement +
+                        template[start + len(string):])
+            curr_pos = end - len(string) + len(replacement)
         return force_newline_type(template, newline_type), stringset
diff --git a/openformats/formats/github_markdown_v2.py b/openformats/formats/github_markdown_v2.py
index d0dc40f..fb61757 100644
--- a/openformats/formats/github_markdown_v2.py
+++ b/openformats/formats/github_markdown_v2.py
@@ -7,7 +7,9 @@ import unicodedata
 from mistune import Markdown
 from yaml.reader import Reader
 
-from openformats.formats.github_markdown import TxBlockLexer, string_handler
+from openformats.formats.github_markdown import (
+    TxBlockLexer, find_string, string_handler
+)
 from openformats.formats.yaml import YamlHandler
 from openformats.utils.compat import ensure_unicode
 
@@ -117,45 +119,37 @@ class GithubMarkdownHandlerV2(OrderedCompilerMixin, Handler):
         block_label_string = ("|").join(self.SUPPORTED_BLOCK_LABELS)
         block_pattern = rf'^\s*>\s{{0,4}}\[!({block_label_string})\]'
 
-        for string in block.md_stringset:
-            string = string_handler(string, md_template)
+        for token in block.md_stringset:
+            string = string_handler(token, md_template[curr_pos:])
             # Ignore any string that does not appear in the template,
             # We do this to avoid parsing strings that are not properly
             # handled by the Markdown library, such as ```code``` blocks
-            if string and (
-                bool(re.match(block_pattern, string))
-                or string in md_template[curr_pos:]
-            ):
+            if string and bool(re.match(block_pattern, string)):
                 # Special handling for [!NOTE] blocks
-                if bool(re.match(block_pattern, string)):
-                    start, end = self.find_fuzzy_substring(
-                        string, md_template, curr_pos
-                    )
-                    if start is not None and end is not None:
-                        string_object = OpenString(
-                            six.text_type(order), string, order=order
-                        )
-                        order += 1
-                        stringset.append(string_object)
-                        md_template = (
-                            md_template[:start] + string_object.template_replacement
-                            + md_template[end:]
-                        )
-                        curr_pos = start + len(string_object.template_replacement)
-                elif string in md_template[curr_pos:]:
-                    string_object = OpenString(
-                        six.text_type(order), string, order=order
-                    )
-                    order += 1
-                    stringset.append(string_object)
-                    # Keep track of the index of the last replaced hash
-                    md_template = (
-                        md_template[:curr_pos] + md_template[curr_pos:].replace(
-                            string, string_object.template_replacement, 1)
-                    )
-
-                    curr_pos = md_template.find(string_object.template_replacement)
-                    curr_pos = curr_pos + len(string_object.template_replacement)
+                match = self.find_fuzzy_substring(
+                    string, md_template, curr_pos
+                )
+                if match is None:
+                    continue
+                start, end = match
+                token_end = end
+            else:
+                start, token_end = find_string(
+                    token, string, md_template, curr_pos
+                )
+                if start == -1:
+                    curr_pos = token_end
+                    continue
+                end = start + len(string)
+            string_object = OpenString(
+                six.text_type(order), string, order=order
+            )
+            order += 1
+            stringset.append(string_object)
+            # Keep track of the index after the token
+            replacement = string_object.template_replacement
+            md_template = md_template[:start] + replacement + md_template[end:]
+            curr_pos = token_end - (end - start) + len(replacement)
 
         template = yaml_template + seperator + md_template
         return force_newline_type(template, newline_type), stringset
-- 
2.43.0


From 67ee74d149363a732d1c515910ed597fb3550291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:21 +0000
Subject: [PATCH 74/90] fix: Markdown v2: compile without changing the caller's
 strings

---
 openformats/formats/github_markdown_v2.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/openformats/formats/github_markdown_v2.py b/openformats/formats/github_markdown_v2.py
index fb61757..f100ecb 100644
--- a/openformats/formats/github_markdown_v2.py
+++ b/openformats/formats/github_markdown_v2.py
@@ -1,5 +1,6 @@
 from __future__ import absolute_import, unicode_literals
 
+import copy
 import re
 
 import six
@@ -54,6 +55,8 @@ class GithubMarkdownHandlerV2(OrderedCompilerMixin, Handler):
         for openstring in stringset:
             tr_string = openstring.string
             if self._is_yaml_string(openstring):
+                # The caller's string must not be modified
+                openstring = copy.deepcopy(openstring)
                 self._escape_invalid_chars(openstring)
                 tr_string = self._transform_yaml_string(openstring)
 
-- 
2.43.0


From 3058dbe7399d13735bf661236f7f9e251d239781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:56 +0000
Subject: [PATCH 75/90] fix: Markdown v2: keep the white space at the end of
 alerts

---
 openformats/formats/github_markdown_v2.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/openformats/formats/github_markdown_v2.py b/openformats/formats/github_markdown_v2.py
index f100ecb..64a1ff8 100644
--- a/openformats/formats/github_markdown_v2.py
+++ b/openformats/formats/github_markdown_v2.py
@@ -127,7 +127,12 @@ class GithubMarkdownHandlerV2(OrderedCompilerMixin, Handler):
             # Ignore any string that does not appear in the template,
             # We do this to avoid parsing strings that are not properly
             # handled by the Markdown library, such as ```code``` blocks
-            if string and bool(re.match(block_pattern, string)):
+            start, token_end = find_string(
+                token, string, md_template, curr_pos
+            )
+            if start != -1:
+                end = start + len(string)
+            elif string and bool(re.match(block_pattern, string)):
                 # Special handling for [!NOTE] blocks
                 match = self.find_fuzzy_substring(
                     string, md_template, curr_pos
@@ -137,13 +142,8 @@ class GithubMarkdownHandlerV2(OrderedCompilerMixin, Handler):
                 start, end = match
                 token_end = end
             else:
-                start, token_end = find_string(
-                    token, string, md_template, curr_pos
-                )
-                if start == -1:
-                    curr_pos = token_end
-                    continue
-                end = start + len(string)
+                curr_pos = token_end
+                continue
             string_object = OpenString(
                 six.text_type(order), string, order=order
             )
-- 
2.43.0


From d16b5f92f0a7e809049974eff9f1d100af3d4b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:42 +0000
Subject: [PATCH 76/90] fix: Markdown v2: write front matter values that read
 back as the same text

---
 openformats/formats/github_markdown_v2.py | 38 ++++++++++++++++++-----
 1 file changed, 30 insertions(+), 8 deletions(-)

diff --git a/openformats/formats/github_markdown_v2.py b/openformats/formats/github_markdown_v2.py
index 64a1ff8..9a0c6bf 100644
--- a/openformats/formats/github_markdown_v2.py
+++ b/openformats/formats/github_markdown_v2.py
@@ -1,12 +1,13 @@
 from __future__ import absolute_import, unicode_literals
 
-import copy
 import re
 
 import six
 import unicodedata
 from mistune import Markdown
+from yaml.nodes import ScalarNode
 from yaml.reader import Reader
+from yaml.resolver import Resolver
 
 from openformats.formats.github_markdown import (
     TxBlockLexer, find_string, string_handler
@@ -55,10 +56,12 @@ class GithubMarkdownHandlerV2(OrderedCompilerMixin, Handler):
         for openstring in stringset:
             tr_string = openstring.string
             if self._is_yaml_string(openstring):
-                # The caller's string must not be modified
-                openstring = copy.deepcopy(openstring)
-                self._escape_invalid_chars(openstring)
-                tr_string = self._transform_yaml_string(openstring)
+                # A new string, the caller's one must not be modified
+                yaml_string = OpenString(
+                    openstring.key, self._transform_yaml_string(openstring)
+                )
+                self._escape_invalid_chars(yaml_string)
+                tr_string = yaml_string.string
 
             hash_position = template.index(openstring.template_replacement)
             transcriber.copy_until(hash_position)
@@ -273,7 +276,19 @@ class GithubMarkdownHandlerV2(OrderedCompilerMixin, Handler):
         """
         should_wrap, quote_char = self._should_wrap_in_quotes(openstring)
         if should_wrap:
-            string = self._wrap_in_quotes(openstring.string, quote_char)
+            string = openstring.string
+            block = openstring.flags[-1:] in ('|', '>')
+            if self.NEWLINE in string and not block:
+                # Newlines can only be escaped inside double quotes
+                quote_char = self.DOUBLE_QUOTES
+            if quote_char == self.DOUBLE_QUOTES and not block:
+                string = (
+                    string.replace(self.BACKSLASH, self.BACKSLASH * 2)
+                    .replace('\r\n', self.NEWLINE)
+                    .replace(self.NEWLINE, r'\n')
+                    .replace('\t', r'\t')
+                )
+            string = self._wrap_in_quotes(string, quote_char)
         else:
             string = openstring.string
 
@@ -326,8 +341,8 @@ class GithubMarkdownHandlerV2(OrderedCompilerMixin, Handler):
             return False, openstring.flags
 
         # If single or double quote flags appear, wrap it.
-        if openstring.flags in [self.DOUBLE_QUOTES, self.SINGLE_QUOTE]:
-            return True, openstring.flags
+        if openstring.flags[-1:] in [self.DOUBLE_QUOTES, self.SINGLE_QUOTE]:
+            return True, openstring.flags[-1:]
 
         string = openstring.string.strip()
 
@@ -374,6 +389,13 @@ class GithubMarkdownHandlerV2(OrderedCompilerMixin, Handler):
             string.startswith(self.AMPERSAND),
             string.startswith(self.DASH),
             string.startswith(self.AT_SIGN),
+            # Other characters that a plain scalar can't start with
+            string[:1] in tuple('!%,>`{}]') or string[:2] == '? ',
+            # Characters that end a plain scalar inside a flow collection
+            'flow' in openstring.flags and any(c in string for c in ',[]{}'),
+            # Values that would not be read back as text
+            Resolver().resolve(ScalarNode, string, (True, False))
+            != Resolver.DEFAULT_SCALAR_TAG,
             (
                 string.startswith(self.BRACKET_LEFT)
                 and not string.endswith(self.BRACKET_RIGHT)
-- 
2.43.0


From a384993fbca3e21b6f71c132149212bde32a8992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:15 +0000
Subject: [PATCH 77/90] fix: Markdown v2: escaped characters of the front
 matter are hexadecimal

---
 openformats/formats/github_markdown_v2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openformats/formats/github_markdown_v2.py b/openformats/formats/github_markdown_v2.py
index 9a0c6bf..7e4cbee 100644
--- a/openformats/formats/github_markdown_v2.py
+++ b/openformats/formats/github_markdown_v2.py
@@ -237,7 +237,7 @@ class GithubMarkdownHandlerV2(OrderedCompilerMixin, Handler):
                 escaped = match.group()
                 # From a string like '\u0008' get everything after `\u`
                 # and convert it to a character based on its int value
-                char = six.unichr(int(escaped[2:]))
+                char = six.unichr(int(escaped[2:], 16))
                 if Reader.NON_PRINTABLE.match(char):
                     string = '{before}{repl}{after}'.format(
                         before=string[:match.start()],
-- 
2.43.0


From 50dd6324138d721c77b45b13af4b5ece367446a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:35 +0000
Subject: [PATCH 78/90] fix: Markdown v2: front matter values with outer white
 space or Unicode line breaks are quoted

---
 openformats/formats/github_markdown_v2.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/openformats/formats/github_markdown_v2.py b/openformats/formats/github_markdown_v2.py
index 7e4cbee..3912509 100644
--- a/openformats/formats/github_markdown_v2.py
+++ b/openformats/formats/github_markdown_v2.py
@@ -31,6 +31,8 @@ class GithubMarkdownHandlerV2(OrderedCompilerMixin, Handler):
     DOUBLE_QUOTES = '"'
     SINGLE_QUOTE = u"'"
     NEWLINE = '\n'
+    # What the YAML spec takes for the end of a line
+    LINE_BREAKS = '\n\x85\u2028\u2029'
     COLON = ':'
     ASTERISK = '*'
     AMPERSAND = '&'
@@ -275,10 +277,14 @@ class GithubMarkdownHandlerV2(OrderedCompilerMixin, Handler):
         :rtype: str
         """
         should_wrap, quote_char = self._should_wrap_in_quotes(openstring)
+        block = openstring.flags[-1:] in ('|', '>')
+        stripped = openstring.string.strip(' \t\r' + self.LINE_BREAKS)
+        if not should_wrap and not block and openstring.string != stripped:
+            # White space around a plain scalar is not part of it
+            should_wrap, quote_char = True, self.DOUBLE_QUOTES
         if should_wrap:
             string = openstring.string
-            block = openstring.flags[-1:] in ('|', '>')
-            if self.NEWLINE in string and not block:
+            if not block and any(c in string for c in self.LINE_BREAKS):
                 # Newlines can only be escaped inside double quotes
                 quote_char = self.DOUBLE_QUOTES
             if quote_char == self.DOUBLE_QUOTES and not block:
@@ -287,6 +293,9 @@ class GithubMarkdownHandlerV2(OrderedCompilerMixin, Handler):
                     .replace('\r\n', self.NEWLINE)
                     .replace(self.NEWLINE, r'\n')
                     .replace('\t', r'\t')
+                    .replace('\x85', r'\N')
+                    .replace('\u2028', r'\L')
+                    .replace('\u2029', r'\P')
                 )
             string = self._wrap_in_quotes(string, quote_char)
         else:
@@ -382,7 +391,7 @@ class GithubMarkdownHandlerV2(OrderedCompilerMixin, Handler):
 
         # If needs wrapping due to special characters, wrap in double quotes
         should_wrap = any([
-            self.NEWLINE in string[:-1],
+            any(c in string[:-1] for c in self.LINE_BREAKS),
             self.COLON in string,
             self.HASHTAG in string,
             string.startswith(self.ASTERISK),
-- 
2.43.0


From bd2c2b5d59db9aff0c97f7cee7f8d2059959ba7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:41 +0000
Subject: [PATCH 79/90] fix: strings added to STRUCTURED_JSON keep the Unicode
 line breaks of their metadata

---
 openformats/formats/json.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openformats/formats/json.py b/openformats/formats/json.py
index 8d19fca..45072b8 100644
--- a/openformats/formats/json.py
+++ b/openformats/formats/json.py
@@ -1317,7 +1317,7 @@ class StructuredJsonHandler(JsonHandler):
         value_literal = json.dumps(payload, ensure_ascii=False, indent=2)
 
         # Optional cosmetic tab indent after the first line
-        lines = value_literal.splitlines()
+        lines = value_literal.split("\n")
         if len(lines) > 1:
             lines = [lines[0]] + ["\t" + line for line in lines[1:]]
         value_literal = "\n".join(lines)
-- 
2.43.0


From 81bf56e08a31aaf03390d3139bbd6710b0c5157d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:24 +0000
Subject: [PATCH 80/90] fix: BETA_ANDROID dropped the end of plurals that are
 on a line with other content

The width of the line's indent and tail was skipped after the placeholder
although nothing of them had been replaced.
---
 openformats/formats/beta_android.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/openformats/formats/beta_android.py b/openformats/formats/beta_android.py
index 1a32fac..e7df3a8 100644
--- a/openformats/formats/beta_android.py
+++ b/openformats/formats/beta_android.py
@@ -358,9 +358,7 @@ class BetaAndroidHandler(Handler):
                             rule=self.get_rule_string(rule), string=value
                         )
                     )
-                self.transcriber.skip(indent_length +
-                                      len(next_string.template_replacement) +
-                                      tail_length)
+                self.transcriber.skip(len(next_string.template_replacement))
 
             # finish up by copying until the end of </plurals>
             self.transcriber.copy_until(plurals_offset +
-- 
2.43.0


From 88c49dac44c1bfb361128bda69fbe49961be0af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:24 +0000
Subject: [PATCH 81/90] fix: BETA_ANDROID repeated the rest of a string or
 array after a comment inside of it

The comment was found again after the tag had been handled and moved the
transcriber back.
---
 openformats/formats/beta_android.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/openformats/formats/beta_android.py b/openformats/formats/beta_android.py
index e7df3a8..fa3f855 100644
--- a/openformats/formats/beta_android.py
+++ b/openformats/formats/beta_android.py
@@ -45,6 +45,9 @@ class BetaAndroidHandler(Handler):
         last_comment = ""
         for tag, offset in resources_tag.find(("string-array", "string",
                                                "plurals", DumbXml.COMMENT)):
+            if offset < self.transcriber.ptr:
+                # Inside of a tag that has already been handled
+                continue
             if self._should_ignore(tag):
                 last_comment = ""
                 continue
-- 
2.43.0


From 5ad2ab016e53314b8cc6261b646a6dcb11ddd939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:39 +0000
Subject: [PATCH 82/90] fix: BETA_ANDROID removed blank strings when compiling

They are not extracted, so they are no strings without a translation; the
other Android handlers leave them in place as well.
---
 openformats/formats/beta_android.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/openformats/formats/beta_android.py b/openformats/formats/beta_android.py
index fa3f855..61c61a1 100644
--- a/openformats/formats/beta_android.py
+++ b/openformats/formats/beta_android.py
@@ -227,6 +227,9 @@ class BetaAndroidHandler(Handler):
                                                "plurals")):
             if self._should_ignore(tag):
                 continue
+            if tag.name != "string-array" and self._is_blank(tag):
+                # Was not extracted
+                continue
             if tag.name == "string":
                 self._compile_string(tag, offset)
             elif tag.name == "string-array":
@@ -256,6 +259,14 @@ class BetaAndroidHandler(Handler):
 
         return compiled
 
+    @staticmethod
+    def _is_blank(tag):
+        """ Whether `tag` is one that `parse` finds no string in. """
+        if tag.name == "plurals":
+            items = [item for item, _ in tag.find("item")]
+            return any(item.inner.strip() == "" for item in items)
+        return tag.inner.strip() == ""
+
     def _compile_string(self, string_tag, string_offset):
         try:
             next_string = self._stringset[self._stringset_index]
@@ -282,6 +293,9 @@ class BetaAndroidHandler(Handler):
         self.transcriber.copy_until(string_array_offset +
                                     string_array_tag.inner_offset)
         for item_tag, item_offset in string_array_tag.find("item"):
+            if self._is_blank(item_tag):
+                # Was not extracted
+                continue
             try:
                 next_string = self._stringset[self._stringset_index]
             except IndexError:
-- 
2.43.0


From e9554b37c07ea4890b6f13707ba3f1315f5e4f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:15 +0000
Subject: [PATCH 83/90] fix: BETA_ANDROID removed arrays that had no items in
 the source

---
 openformats/formats/beta_android.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/openformats/formats/beta_android.py b/openformats/formats/beta_android.py
index 61c61a1..415689c 100644
--- a/openformats/formats/beta_android.py
+++ b/openformats/formats/beta_android.py
@@ -223,8 +223,11 @@ class BetaAndroidHandler(Handler):
 
         resources_tag = DumbXml(self.source)
 
+        had_items = []  # whether each <string-array> had items to begin with
         for tag, offset in resources_tag.find(("string", "string-array",
                                                "plurals")):
+            if tag.name == "string-array":
+                had_items.append(any(tag.find("item")))
             if self._should_ignore(tag):
                 continue
             if tag.name != "string-array" and self._is_blank(tag):
@@ -238,13 +241,13 @@ class BetaAndroidHandler(Handler):
                 self._compile_plurals(tag, offset)
         self.transcriber.copy_until(len(self.source))
 
-        # Lets do another pass to clear empty <string-array>s
+        # Lets do another pass to clear <string-array>s that became empty
         self.transcriber = Transcriber(self.transcriber.get_destination())
         self.source = self.transcriber.source
         resources_tag = DumbXml(self.source)
-        for string_array_tag, string_array_offset in resources_tag.find(
-                "string-array"):
-            if (string_array_tag.inner and
+        for had_item, (string_array_tag, string_array_offset) in zip(
+                had_items, resources_tag.find("string-array")):
+            if (had_item and
                     len(list(string_array_tag.find("item"))) == 0):
                 self.transcriber.copy_until(string_array_offset)
                 self.transcriber.skip(len(string_array_tag.content))
-- 
2.43.0


From 46f3a58f23ee705d695802f883a69417383e0fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:14 +0000
Subject: [PATCH 84/90] fix: BETA_ANDROID repeated text after an array item
 with attributes

The length of the item's opening tag was counted twice.
---
 openformats/formats/beta_android.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/openformats/formats/beta_android.py b/openformats/formats/beta_android.py
index 415689c..f0d3d1a 100644
--- a/openformats/formats/beta_android.py
+++ b/openformats/formats/beta_android.py
@@ -147,8 +147,7 @@ class BetaAndroidHandler(Handler):
             # orld</item>   <it...
             #            ^
             self.transcriber.copy_until(
-                string_array_offset + item_offset + item_tag.inner_offset +
-                len(item_tag.content)
+                string_array_offset + item_offset + len(item_tag.content)
             )
 
         # </item>  </string-array>
-- 
2.43.0


From b2f486684c12610d6ff686b7bbebcc3f4574d296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:10 +0000
Subject: [PATCH 85/90] fix: DOCX paragraph properties have to come first

---
 openformats/formats/docx.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openformats/formats/docx.py b/openformats/formats/docx.py
index 0655bcb..1851edb 100644
--- a/openformats/formats/docx.py
+++ b/openformats/formats/docx.py
@@ -260,7 +260,7 @@ class DocxHandler(Handler, OfficeOpenXmlHandler):
 
         if len(ppr_tags) == 0:
             pPr = soup.new_tag("w:pPr")
-            paragraph.append(pPr)
+            paragraph.insert(0, pPr)
             ppr_tags = [pPr]
 
         for ppr_tag in ppr_tags:
-- 
2.43.0


From ba20f6a72dfd9bf70e54937d5375217977b63fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:10 +0000
Subject: [PATCH 86/90] fix: DOCX tables that are marked as left to right

---
 openformats/formats/docx.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/openformats/formats/docx.py b/openformats/formats/docx.py
index 1851edb..e180162 100644
--- a/openformats/formats/docx.py
+++ b/openformats/formats/docx.py
@@ -286,8 +286,12 @@ class DocxHandler(Handler, OfficeOpenXmlHandler):
             tblPr = soup.new_tag("w:tblPr")
             tbl.insert(0, tblPr)
 
-        if tblPr.find("w:bidiVisual") is None:
+        bidi_visual = tblPr.find("w:bidiVisual")
+        if bidi_visual is None:
             tblPr.append(soup.new_tag("w:bidiVisual"))
+        else:
+            # it may be there to say "off"
+            bidi_visual.attrs.pop("w:val", None)
 
     def parse(self, content, **kwargs):
         """
-- 
2.43.0


From 394ba5eea66461b9b845befdf205ab4ac1c9f4f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:10 +0000
Subject: [PATCH 87/90] fix: XLSX sheets lost their direction when no direction
 was given

---
 openformats/formats/xlsx_unstructured.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openformats/formats/xlsx_unstructured.py b/openformats/formats/xlsx_unstructured.py
index fd0e900..15c016a 100644
--- a/openformats/formats/xlsx_unstructured.py
+++ b/openformats/formats/xlsx_unstructured.py
@@ -426,7 +426,7 @@ class XlsxUnstructuredHandler(Handler, OfficeOpenXmlHandler):
 
 
     def compile(self, template, stringset, **kwargs):
-        is_rtl = kwargs.get('is_rtl', False)
+        is_rtl = kwargs.get('is_rtl')
         stringset = {
             string.string_hash: string for string in stringset
         }
-- 
2.43.0


From f7d3742239803c3a3fcdbb078dcefdcbb4d79597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:10 +0000
Subject: [PATCH 88/90] fix: XLSX direction of all the views of a sheet

---
 openformats/formats/xlsx_unstructured.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/openformats/formats/xlsx_unstructured.py b/openformats/formats/xlsx_unstructured.py
index 15c016a..f3848ea 100644
--- a/openformats/formats/xlsx_unstructured.py
+++ b/openformats/formats/xlsx_unstructured.py
@@ -450,8 +450,7 @@ class XlsxUnstructuredHandler(Handler, OfficeOpenXmlHandler):
                 )
 
             if is_rtl is not None:
-                sheet_view = sheet_soup.find("sheetView")
-                if sheet_view:
+                for sheet_view in sheet_soup.find_all("sheetView"):
                     sheet_view.attrs["rightToLeft"] = "1" if is_rtl else "0"
 
             sheet_text_cells = sheet_soup.find_all(
-- 
2.43.0


From f86281e66783b1c31b95c1075b9c8599ef908418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:10 +0000
Subject: [PATCH 89/90] fix: XLSX cells without a value crashed compile

---
 openformats/formats/xlsx_unstructured.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/openformats/formats/xlsx_unstructured.py b/openformats/formats/xlsx_unstructured.py
index f3848ea..78f9153 100644
--- a/openformats/formats/xlsx_unstructured.py
+++ b/openformats/formats/xlsx_unstructured.py
@@ -485,6 +485,7 @@ class XlsxUnstructuredHandler(Handler, OfficeOpenXmlHandler):
                     not txid,
                     sheet_text_cell.has_attr("t"),
                     sheet_text_cell.attrs["t"] == 's',
+                    sheet_text_cell.v,
                 ]):
                     shared_string_index = int(sheet_text_cell.v.text)
                     shared_string_element = shared_strings[shared_string_index]
-- 
2.43.0


From 40c635bb520b0010b4a9e1972ebba74ed682fd08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:10 +0000
Subject: [PATCH 90/90] fix: XLSX strings named the wrong sheets

---
 openformats/formats/xlsx_unstructured.py | 34 +++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/openformats/formats/xlsx_unstructured.py b/openformats/formats/xlsx_unstructured.py
index 78f9153..9bd6d5d 100644
--- a/openformats/formats/xlsx_unstructured.py
+++ b/openformats/formats/xlsx_unstructured.py
@@ -2,6 +2,7 @@ import copy
 import io
 import itertools
 import os
+import posixpath
 import re
 import shutil
 import tempfile
@@ -81,6 +82,7 @@ class XlsxFile(object):
             attrs={'ContentType': self.WORKBOOK_CONTENT_TYPE}
         )['PartName']
         self._workbook_path = "{}{}".format(self.__tmp_folder, workbook_path_internal)
+        self._workbook_path_internal = workbook_path_internal
 
         comment_paths_internal = {
             comment["PartName"]
@@ -129,6 +131,33 @@ class XlsxFile(object):
     def get_workbook_path(self):
         return self._workbook_path
 
+    def get_sheet_names(self):
+        """ The names of the sheets by the paths of their parts
+
+        Sheets don't have to be in the order of the numbers of their parts and
+        there may be other kinds of sheets among them, like charts.
+        """
+        rels_path = "{}{}".format(
+            self.__tmp_folder, get_rels_path(self._workbook_path_internal)
+        )
+        if not os.path.exists(rels_path):
+            return {}
+        with io.open(rels_path, "r", encoding="utf-8") as f:
+            rels_soup = BeautifulSoup(f.read(), "xml")
+        targets = {
+            relationship.attrs["Id"]: posixpath.join(
+                posixpath.dirname(self._workbook_path_internal),
+                relationship.attrs["Target"],
+            )
+            for relationship in rels_soup.find_all("Relationship")
+        }
+        workbook_soup = BeautifulSoup(self.get_workbook_content(), "xml")
+        return {
+            posixpath.normpath(targets[sheet["r:id"]]): sheet["name"]
+            for sheet in workbook_soup.find_all("sheet")
+            if sheet.get("r:id") in targets
+        }
+
     def get_sheets(self):
         return self._sheets
 
@@ -250,6 +279,7 @@ class XlsxUnstructuredHandler(Handler, OfficeOpenXmlHandler):
         order = itertools.count()
 
         sheet_names = self._extract_sheet_names(xlsx)
+        sheet_names_by_path = xlsx.get_sheet_names()
 
         shared_strings_soup = self._get_soup(xlsx.get_shared_strings_content())
         shared_strings = shared_strings_soup.find_all("si")
@@ -267,7 +297,9 @@ class XlsxUnstructuredHandler(Handler, OfficeOpenXmlHandler):
         sheet_index = -1
         for sheet, sheet_details in xlsx.get_sheets().items():
             sheet_index += 1
-            sheet_name = sheet_names[sheet_index].string
+            sheet_name = sheet_names_by_path.get(sheet)
+            if sheet_name is None:
+                sheet_name = sheet_names[sheet_index].string
 
             sheet_soup = self._get_soup(xlsx.get_sheet_content(sheet))
             sheet_rels_soup = None
-- 
2.43.0


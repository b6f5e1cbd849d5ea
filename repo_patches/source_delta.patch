From f252a827ec28775c6c866357f8ef4f47ec8a9676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:42 +0000
Subject: [PATCH 01/58] fix: don't crash on a fenced code block that is only an
 opening fence

---
 markflow/formatters/fenced_code_block.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/markflow/formatters/fenced_code_block.py b/markflow/formatters/fenced_code_block.py
index a975e48..5eb67a3 100644
--- a/markflow/formatters/fenced_code_block.py
+++ b/markflow/formatters/fenced_code_block.py
@@ -56,7 +56,7 @@ class MarkdownFencedCodeBlock(MarkdownSection):
 
     @property
     def first_line(self) -> Optional[str]:
-        if len(self.lines) == 2:
+        if len(self.lines) <= 2:
             return None
         else:
             return self.lines[1].strip()
-- 
2.43.0


From 34cfa1cbbec664339e6762ea0d11a9a28af5a0fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:03 +0000
Subject: [PATCH 02/58] fix: keep the last line of a fenced code block that is
 never closed

---
 markflow/formatters/fenced_code_block.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/markflow/formatters/fenced_code_block.py b/markflow/formatters/fenced_code_block.py
index 5eb67a3..4a26981 100644
--- a/markflow/formatters/fenced_code_block.py
+++ b/markflow/formatters/fenced_code_block.py
@@ -54,6 +54,16 @@ class MarkdownFencedCodeBlock(MarkdownSection):
             self.lines[0].strip().lstrip(self.fence_char)
         )
 
+    @property
+    def closed(self) -> bool:
+        # A block that runs to the end of its container doesn't need a closing fence
+        last_line = self.lines[-1].strip()
+        return (
+            len(self.lines) > 1
+            and len(last_line) >= self.fence_count
+            and not last_line.strip(self.fence_char)
+        )
+
     @property
     def first_line(self) -> Optional[str]:
         if len(self.lines) <= 2:
@@ -70,7 +80,8 @@ class MarkdownFencedCodeBlock(MarkdownSection):
 
     def reformatted(self, width: Number = 88) -> str:
         fence = self.fence_char * self.fence_count
-        new_lines = [fence + self.language] + self.lines[1:-1] + [fence]
+        content = self.lines[1:-1] if self.closed else self.lines[1:]
+        new_lines = [fence + self.language] + content + [fence]
         return "\n".join([line.rstrip() for line in new_lines])
 
     def __repr__(self) -> str:
-- 
2.43.0


From 1603c5f15a72f0e55447460ba7e45570d47a6819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:05 +0000
Subject: [PATCH 03/58] fix: let a fenced code block be closed by a fence
 longer than its opening

---
 markflow/detectors/fenced_code_block.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/markflow/detectors/fenced_code_block.py b/markflow/detectors/fenced_code_block.py
index 8fa2066..a4143fb 100644
--- a/markflow/detectors/fenced_code_block.py
+++ b/markflow/detectors/fenced_code_block.py
@@ -128,7 +128,7 @@ def split_fenced_code_block(
 
     for index, line in indexed_line_generator:
         fenced_code_block.append(line)
-        if line.strip() == full_fence:
+        if line.strip().startswith(full_fence) and not line.strip().strip(fence):
             if get_indent(line) > 3 + fence_indent:
                 logger.warning(
                     "Detected that the fence on line %d is over indented per the "
-- 
2.43.0


From e3f9ce6be072dea4b9b0f202819a1629d5a66df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:39 +0000
Subject: [PATCH 04/58] fix: don't treat a line that starts with inline code as
 a fenced code block

---
 markflow/detectors/_lines.py            | 3 ++-
 markflow/detectors/fenced_code_block.py | 6 ++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/markflow/detectors/_lines.py b/markflow/detectors/_lines.py
index f9bbae0..eed5899 100644
--- a/markflow/detectors/_lines.py
+++ b/markflow/detectors/_lines.py
@@ -102,7 +102,8 @@ def is_fenced_code_block_start_line(line: str) -> bool:
     """
     for fence in FENCED_CODE_BLOCK_FENCE_CHARACTERS:
         if line.strip().startswith(fence * 3):
-            return True
+            # Otherwise, inline code would be interpreted as the start of a block
+            return fence != "`" or fence not in line.strip().lstrip(fence)
     return False
 
 
diff --git a/markflow/detectors/fenced_code_block.py b/markflow/detectors/fenced_code_block.py
index a4143fb..e1ef8a2 100644
--- a/markflow/detectors/fenced_code_block.py
+++ b/markflow/detectors/fenced_code_block.py
@@ -22,6 +22,7 @@ import logging
 from typing import List, Tuple
 
 from .._utils import get_indent
+from ._lines import is_fenced_code_block_start_line
 
 logger = logging.getLogger(__name__)
 
@@ -115,14 +116,15 @@ def split_fenced_code_block(
     indexed_line_generator = enumerate(lines)
 
     index, line = next(indexed_line_generator)
+    if not is_fenced_code_block_start_line(line):
+        return fenced_code_block, remaining_lines
+
     for fence in FENCES:
         if line.strip().startswith(fence * 3):
             count = len(line.lstrip()) - len(line.lstrip().lstrip(fence))
             fence_indent = get_indent(line)
             full_fence = fence * count
             break
-    else:
-        return fenced_code_block, remaining_lines
 
     fenced_code_block.append(line)
 
-- 
2.43.0


From 909a4125442e6e18349c422b2128860ee3e874b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:58 +0000
Subject: [PATCH 05/58] fix: follow code blocks that start on a list entry's
 line or have other fences inside

---
 markflow/formatters/lists.py | 35 ++++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/markflow/formatters/lists.py b/markflow/formatters/lists.py
index edfb4c4..f1a3f93 100644
--- a/markflow/formatters/lists.py
+++ b/markflow/formatters/lists.py
@@ -8,6 +8,7 @@ import string
 from typing import List
 
 from .._utils import get_indent, redirect_info_logs_to_debug, truncate_str
+from ..detectors._lines import is_fenced_code_block_start_line
 from ..typing import Number
 from .base import MarkdownSection
 
@@ -21,7 +22,6 @@ MARKER_REGEX = re.compile(
     r")"
     r"($| )"  # End of line or space
 )
-CODE_BLOCK_FENCES = "`~"
 REPR_CONTENT_LEN = 20
 
 
@@ -58,24 +58,29 @@ def _list_marker_end_pos(line: str) -> int:
 
 
 def _split_list(lines: List[str]) -> List[List[str]]:
-    in_code_block = False
-    code_block_end = ""
+    # The marker of the code block we are in
+    code_block_marker = ""
 
     list_entries: List[List[str]] = []
     max_indent = _list_marker_end_pos(lines[0])
     for line in lines:
-        if any(line.lstrip().startswith(f * 3) for f in CODE_BLOCK_FENCES):
-            code_block_symbol = line.lstrip()[0]
-            code_block_marker_length = len(line.lstrip()) - len(
-                line.lstrip(code_block_symbol)
-            )
-            code_block_marker = code_block_marker_length * code_block_symbol
-            if in_code_block:
-                if code_block_end == code_block_marker:
-                    in_code_block = False
-            else:
-                in_code_block = True
-                code_block_end = code_block_marker
+        in_code_block = bool(code_block_marker)
+        if in_code_block:
+            end_line = line.strip()
+            if end_line.startswith(code_block_marker) and not end_line.strip(
+                code_block_marker[0]
+            ):
+                code_block_marker = ""
+        else:
+            # Code blocks can start on the same line as the entry they are in.
+            content = line
+            while MARKER_REGEX.match(content):
+                content = content[_list_marker_end_pos(content) :]
+            content = content.strip()
+            if is_fenced_code_block_start_line(content):
+                code_block_marker = content[
+                    : len(content) - len(content.lstrip(content[0]))
+                ]
 
         if MARKER_REGEX.match(line) and not in_code_block:
             line_indent = get_indent(line)
-- 
2.43.0


From 981733eccb102dbd75743d26eb16fd568b1741d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:14 +0000
Subject: [PATCH 06/58] fix: don't crash on text that starts with a period

---
 markflow/_utils/textwrap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/markflow/_utils/textwrap.py b/markflow/_utils/textwrap.py
index c4f15e9..0b5b55a 100644
--- a/markflow/_utils/textwrap.py
+++ b/markflow/_utils/textwrap.py
@@ -89,7 +89,7 @@ def code_split(
     else:
         remaining_text = text[last_end:]
         if (
-            remaining_text
+            split_text
             and remaining_text.startswith(".")
             and not remaining_text.startswith("..")
         ):
@@ -176,7 +176,7 @@ def link_split(
 
     remaining_text = text[last_end:]
     if (
-        remaining_text
+        split_text
         and remaining_text.startswith(".")
         and not remaining_text.startswith("..")
     ):
-- 
2.43.0


From 9ffcee21edd26c3e579123c302dd93ee698a25c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:16 +0000
Subject: [PATCH 07/58] fix: keep the end of links whose text has another link
 or image in it

---
 markflow/_utils/textwrap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/markflow/_utils/textwrap.py b/markflow/_utils/textwrap.py
index 0b5b55a..cf80ec0 100644
--- a/markflow/_utils/textwrap.py
+++ b/markflow/_utils/textwrap.py
@@ -162,11 +162,11 @@ def link_split(
 
         leading_spaces.append(False)
         if "](" in match.group():
-            split_link = match.group().split("](")
+            split_link = match.group().rsplit("](", maxsplit=1)
             split_text.append(split_link[0].strip() + "](")
             split_text.append(split_link[1].strip())
         else:
-            split_link = match.group().split("][")
+            split_link = match.group().rsplit("][", maxsplit=1)
             split_text.append(split_link[0].strip() + "][")
             split_text.append(split_link[1].strip())
 
-- 
2.43.0


From 903a5d1e1f13ee43c68c2689d1dc228a47c3b183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:18 +0000
Subject: [PATCH 08/58] fix: don't duplicate text that looks like a part of two
 links

---
 markflow/_utils/textwrap.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/markflow/_utils/textwrap.py b/markflow/_utils/textwrap.py
index cf80ec0..65c5b64 100644
--- a/markflow/_utils/textwrap.py
+++ b/markflow/_utils/textwrap.py
@@ -137,6 +137,9 @@ def link_split(
     # Each iteration of this for loop operates on non-link text followed by
     # link text.
     for match in matches:
+        if match.start() < last_end:
+            # This text is already a part of the previous link
+            continue
         non_link_text = text[last_end : match.start()]
         if non_link_text.strip():
             if (
-- 
2.43.0


From 5487b60333f4afc38f9703e3e43d056e007ced9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:36 +0000
Subject: [PATCH 09/58] fix: don't wrap text in the middle of a word that
 inline code or a link is a part of

---
 markflow/_utils/textwrap.py | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/markflow/_utils/textwrap.py b/markflow/_utils/textwrap.py
index 65c5b64..456d3bd 100644
--- a/markflow/_utils/textwrap.py
+++ b/markflow/_utils/textwrap.py
@@ -9,9 +9,34 @@ HTML_NEWLINE_REGEX = re.compile(r"<br ?/?>")
 URL_REGEX = re.compile(r"[^\s\]\)]*\[[^\[]+\]\([^\)]+\)[^\s\[\(]*")
 
 
+def can_break(previous_word: str, word: str, leading_space: bool) -> bool:
+    """Indicates whether a line can be broken between two words
+
+    Breaking the line is the same as adding a space, so this can't be done between words
+    that aren't separated by one, except for the places where it doesn't get rendered.
+    """
+    return bool(
+        leading_space
+        or previous_word.endswith(("](", "]["))
+        or HTML_NEWLINE_REGEX.match(previous_word)
+        or HTML_NEWLINE_REGEX.match(word)
+    )
+
+
 def join(split_text: List[str], leading_spaces: List[bool], width: Number) -> str:
-    new_split_text = [""]
+    unbreakable_text: List[str] = []
+    unbreakable_leading_spaces: List[bool] = []
+    previous_word = ""
     for word, leading_space in zip(split_text, leading_spaces):
+        if unbreakable_text and not can_break(previous_word, word, leading_space):
+            unbreakable_text[-1] += f" {word}" if leading_space else word
+        else:
+            unbreakable_text.append(word)
+            unbreakable_leading_spaces.append(leading_space)
+        previous_word = word
+
+    new_split_text = [""]
+    for word, leading_space in zip(unbreakable_text, unbreakable_leading_spaces):
         if leading_space and new_split_text[-1]:
             potential_new_string = f"{new_split_text[-1]} {word}"
         else:
-- 
2.43.0


From b1a6530bbde39ec99f5318049fbc2dab5015ac2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:53 +0000
Subject: [PATCH 10/58] fix: don't wrap text where the next line would become
 another type of section

---
 markflow/_utils/textwrap.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/markflow/_utils/textwrap.py b/markflow/_utils/textwrap.py
index 456d3bd..3ab5b37 100644
--- a/markflow/_utils/textwrap.py
+++ b/markflow/_utils/textwrap.py
@@ -3,6 +3,13 @@ from typing import List, Tuple
 
 from markflow.typing import Number
 
+# Words that would be the start of another section if they were moved to a new line
+BLOCK_START_REGEX = re.compile(
+    r"[>#|]"  # Block quotes, ATX headings, and tables
+    r"|~~~|```(?!.*`)"  # Fenced code blocks
+    r"|([*+-]|[0-9]+[.)])$"  # Lists
+    r"|(=+|-+|\*+|_+)$"  # Setext headings and thematic breaks
+)
 INLINE_CODE_MARKER_REGEX = re.compile(r"(((?!<\\)`)+)")
 FOOTNOTE_REGEX = re.compile(r"[^\s\]\)]*\[[^\[]+\]\[[^\]]+\][^\s\[\(]*")
 HTML_NEWLINE_REGEX = re.compile(r"<br ?/?>")
@@ -14,7 +21,10 @@ def can_break(previous_word: str, word: str, leading_space: bool) -> bool:
 
     Breaking the line is the same as adding a space, so this can't be done between words
     that aren't separated by one, except for the places where it doesn't get rendered.
+    It also can't be done if the second one would no longer be text on a new line.
     """
+    if BLOCK_START_REGEX.match(word):
+        return False
     return bool(
         leading_space
         or previous_word.endswith(("](", "]["))
-- 
2.43.0


From 1e4019d7fa5d03ab95aa01dcaca148352ed17d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:01 +0000
Subject: [PATCH 11/58] fix: don't crash on a paragraph at the end of a file
 that ends with two spaces

---
 markflow/detectors/paragraph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/markflow/detectors/paragraph.py b/markflow/detectors/paragraph.py
index 4abf9f9..0670aad 100644
--- a/markflow/detectors/paragraph.py
+++ b/markflow/detectors/paragraph.py
@@ -106,7 +106,7 @@ def split_paragraph_ignoring_setext(
                 # ToDo: This should be handled in `wrap` as a double space is always a
                 #  newline in any section type.
                 if tail[0].endswith("  "):
-                    remaining_lines = next(tail_lines_generator)
+                    remaining_lines = next(tail_lines_generator, [])
                     break
             else:
                 remaining_lines = tail
-- 
2.43.0


From d4cad6c79a823aa05cac9f47182522cff753dd80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:37 +0000
Subject: [PATCH 12/58] fix: detect link reference definitions without a title
 on the last line of a file

---
 markflow/detectors/link_reference_definition.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/markflow/detectors/link_reference_definition.py b/markflow/detectors/link_reference_definition.py
index 3bb2ec0..5787d96 100644
--- a/markflow/detectors/link_reference_definition.py
+++ b/markflow/detectors/link_reference_definition.py
@@ -84,11 +84,7 @@ def split_link_reference_definition(
         title_text = url_and_title[1]
     elif len(url_and_title) == 1:
         # Only the label and URL are on the first line
-        try:
-            index, line = next(indexed_line_generator)
-            title_text = line
-        except StopIteration:
-            title_text = ""
+        index, title_text = next(indexed_line_generator, (index + 1, ""))
         is_complete = True
     else:
         # Just the label was on the first line
@@ -110,9 +106,8 @@ def split_link_reference_definition(
             return link_reference_definition, remaining_lines
         elif len(line.split(maxsplit=1)) == 1:
             # Only the URL is on the second line
-            index, line = next(indexed_line_generator)
+            index, title_text = next(indexed_line_generator, (index + 1, ""))
             is_complete = True
-            title_text = line
         else:
             # The URL and possible title (or part of it) are on the second line
             title_text = line.split(maxsplit=1)[1]
-- 
2.43.0


From 0e9d417749d6ecf0c1bed3f1c714440f15ed1dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:39 +0000
Subject: [PATCH 13/58] fix: don't treat the text after a link reference
 definition as its title if it has no end

---
 markflow/detectors/link_reference_definition.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/markflow/detectors/link_reference_definition.py b/markflow/detectors/link_reference_definition.py
index 5787d96..01dca84 100644
--- a/markflow/detectors/link_reference_definition.py
+++ b/markflow/detectors/link_reference_definition.py
@@ -119,14 +119,17 @@ def split_link_reference_definition(
 
     if quotation_character in QUOTATION_CHARACTERS:
         closing_regex = re.compile(r"(?<!\\)(\\\\)*{}".format(quotation_character))
-        for index, line in itertools.chain(
+        for title_index, line in itertools.chain(
             [(index, title_text[1:])], indexed_line_generator
         ):
+            if title_index != index and not line.strip():
+                # Titles can't have blank lines in them
+                break
             match = closing_regex.search(line.rstrip())
             if match:
                 if match.end() == len(line.rstrip()):
                     is_complete = True
-                    index += 1
+                    index = title_index + 1
                 break
 
     if is_complete:
-- 
2.43.0


From 0dce0b2267a76583d7add0f9a16cab32c10b88bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:41 +0000
Subject: [PATCH 14/58] fix: keep the label and link of a definition whose
 title moves to the next line

---
 markflow/formatters/link_reference_definition.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/markflow/formatters/link_reference_definition.py b/markflow/formatters/link_reference_definition.py
index c3248b2..2281005 100644
--- a/markflow/formatters/link_reference_definition.py
+++ b/markflow/formatters/link_reference_definition.py
@@ -105,7 +105,7 @@ class MarkdownLinkReferenceDefinition(MarkdownSection):
                 lines = str_.splitlines()
                 str_ = "\n".join(lines[:-1] + [wrap(lines[-1] + " " + title, width)])
             else:
-                str_ = "\n" + wrap(title, width)
+                str_ += "\n" + wrap(title, width)
         else:
             str_ += "\n" + wrap(title, width)
 
-- 
2.43.0


From 194b665ab015f053a2084a204779c63f40d5e4ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:01 +0000
Subject: [PATCH 15/58] fix: keep links and titles on their own line if their
 text is also on the line before

---
 markflow/formatters/link_reference_definition.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/markflow/formatters/link_reference_definition.py b/markflow/formatters/link_reference_definition.py
index 2281005..fae2a6f 100644
--- a/markflow/formatters/link_reference_definition.py
+++ b/markflow/formatters/link_reference_definition.py
@@ -81,16 +81,16 @@ class MarkdownLinkReferenceDefinition(MarkdownSection):
         self.lines.append(line)
 
     def reformatted(self, width: Number = 88) -> str:
-        # Last index indicates that last line we checked for content
-        last_index = 0
+        # The content of the line the link is on
+        link_line = self.lines[0].split("]:", maxsplit=1)[1].strip()
         str_ = f"[{self.name}]:"
         if not self.link:
             return str_
 
-        if self.link in self.lines[last_index]:
+        if link_line:
             str_ += f" {self.link}"
         else:
-            last_index = 1
+            link_line = self.lines[1].strip()
             str_ += f"\n{self.link}"
 
         title = self.title
@@ -99,7 +99,7 @@ class MarkdownLinkReferenceDefinition(MarkdownSection):
 
         # We don't naively wrap link reference definitions because they are allowed to
         # overflow lines (the label and url portions).
-        if title.split()[0] in self.lines[last_index]:
+        if link_line != self.link:
             # Our title was on the line with our link
             if len(title.split()[0]) + len(str_.splitlines()[-1]) <= width:
                 lines = str_.splitlines()
-- 
2.43.0


From ee80c3e64d6d4eaddc8843999eb52f7d3b00e595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:26 +0000
Subject: [PATCH 16/58] fix: keep table cells with escaped pipes and those not
 followed by a pipe

---
 markflow/formatters/table.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/markflow/formatters/table.py b/markflow/formatters/table.py
index 10b859e..c406aa7 100644
--- a/markflow/formatters/table.py
+++ b/markflow/formatters/table.py
@@ -1,6 +1,7 @@
 import enum
 import math
 import re
+from typing import List
 
 from ..exceptions import MarkdownFormatException
 from ..typing import Number
@@ -35,6 +36,15 @@ def right_align(text: str, width: int) -> str:
     return f"{' ' * padding}{text}"
 
 
+def split_row(line: str) -> List[str]:
+    # The first cell is always empty as tables start with a divider
+    cells = [cell.strip() for cell in COLUMN_DIVIDER_REGEX.split(line.strip())[1:]]
+    # The divider at the end of the line is optional
+    if cells and not cells[-1]:
+        cells.pop()
+    return cells
+
+
 class MarkdownTable(MarkdownSection):
     def append(self, line: str) -> None:
         self.lines.append(line)
@@ -45,13 +55,10 @@ class MarkdownTable(MarkdownSection):
             if i == 1:
                 # Skip the divider line
                 continue
-            cols = COLUMN_DIVIDER_REGEX.split(line)[1:-1]
-            cols = [col.strip() for col in cols]
-            column_widths.append(tuple(len(col) for col in cols))
+            column_widths.append(tuple(len(col) for col in split_row(line)))
 
         column_alignments = []
-        for divider in self.lines[1].strip()[1:-1].split("|"):
-            divider = divider.strip()
+        for divider in split_row(self.lines[1]):
             if divider.startswith(":") and divider.endswith(":"):
                 column_alignments.append(Alignment.CENTER)
             elif divider.startswith(":"):
@@ -77,12 +84,11 @@ class MarkdownTable(MarkdownSection):
 
         new_lines = []
         # First line is headers. We'll center them.
-        headers = COLUMN_DIVIDER_REGEX.split(self.lines[0])[1:-1]
+        headers = split_row(self.lines[0])
         header_strings = []
         for header, width, alignment in zip(
             headers, new_column_widths, column_alignments
         ):
-            header = header.strip()
             if alignment == Alignment.CENTER:
                 header_strings.append(f" {center_align(header, width)} ")
             elif alignment == Alignment.LEFT:
@@ -111,9 +117,8 @@ class MarkdownTable(MarkdownSection):
         for line in self.lines[2:]:
             columns = []
             for column, width, alignment in zip(
-                line.split("|")[1:-1], new_column_widths, column_alignments
+                split_row(line), new_column_widths, column_alignments
             ):
-                column = column.strip()
                 if alignment == Alignment.CENTER:
                     columns.append(f" {center_align(column, width)} ")
                 elif alignment == Alignment.LEFT:
-- 
2.43.0


From bb0faa0ff770aa94683e275a5408fef58f9aaf2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:48 +0000
Subject: [PATCH 17/58] fix: reject tables whose header isn't followed by a
 divider for all of its columns

---
 markflow/formatters/table.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/markflow/formatters/table.py b/markflow/formatters/table.py
index c406aa7..dde8226 100644
--- a/markflow/formatters/table.py
+++ b/markflow/formatters/table.py
@@ -10,6 +10,7 @@ from .base import MarkdownSection
 __all__ = ["MarkdownTable"]
 
 COLUMN_DIVIDER_REGEX = re.compile(r"(?<!\\)" r"\|")  # Ignore escaped |
+COLUMN_ALIGNMENT_REGEX = re.compile(r":?-+:?$")
 
 
 class Alignment(enum.Enum):
@@ -50,6 +51,16 @@ class MarkdownTable(MarkdownSection):
         self.lines.append(line)
 
     def reformatted(self, width: Number = 88) -> str:
+        header_column_count = len(split_row(self.lines[0]))
+        dividers = split_row(self.lines[1]) if len(self.lines) > 1 else []
+        if len(dividers) != header_column_count or not all(
+            COLUMN_ALIGNMENT_REGEX.match(divider) for divider in dividers
+        ):
+            raise MarkdownFormatException(
+                f"Line {self.line_index + 1} begins a table, but it is not followed by "
+                f"a line that divides each of its columns from its header"
+            )
+
         column_widths = []
         for i, line in enumerate(self.lines):
             if i == 1:
@@ -58,7 +69,7 @@ class MarkdownTable(MarkdownSection):
             column_widths.append(tuple(len(col) for col in split_row(line)))
 
         column_alignments = []
-        for divider in split_row(self.lines[1]):
+        for divider in dividers:
             if divider.startswith(":") and divider.endswith(":"):
                 column_alignments.append(Alignment.CENTER)
             elif divider.startswith(":"):
@@ -68,7 +79,6 @@ class MarkdownTable(MarkdownSection):
             else:
                 column_alignments.append(Alignment.NONE)
 
-        header_column_count = len(column_widths[0])
         for i, column_width in enumerate(column_widths[1:], start=2):
             if len(column_width) != header_column_count:
                 raise MarkdownFormatException(
-- 
2.43.0


From b1230b1a76b67cf1fe84b4a2dd84b2f6a65cdabf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:50 +0000
Subject: [PATCH 18/58] fix: write valid dividers for centered columns of a
 table that are empty

---
 markflow/formatters/table.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/markflow/formatters/table.py b/markflow/formatters/table.py
index dde8226..af4bb56 100644
--- a/markflow/formatters/table.py
+++ b/markflow/formatters/table.py
@@ -86,7 +86,8 @@ class MarkdownTable(MarkdownSection):
                     f"(expected: {header_column_count}, actual: {len(column_width)})"
                 )
 
-        new_column_widths = [0 for _ in column_widths[0]]
+        # The divider of an empty column still needs a dash
+        new_column_widths = [1 for _ in column_widths[0]]
         for widths in column_widths:
             for i, width in enumerate(widths):
                 if width > new_column_widths[i]:
-- 
2.43.0


From 8fe3bcd550596d6230cb3b9c310b884a8556b504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:06 +0000
Subject: [PATCH 19/58] fix: don't treat thematic breaks with spaces between
 their characters as lists

---
 markflow/detectors/_lines.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/markflow/detectors/_lines.py b/markflow/detectors/_lines.py
index eed5899..89b7e3b 100644
--- a/markflow/detectors/_lines.py
+++ b/markflow/detectors/_lines.py
@@ -159,8 +159,11 @@ def is_bullet_list_start_line(line: str) -> bool:
     Returns:
         True if the line is could start a bullet list. False otherwise.
     """
-    return not is_indented_code_block_start_line(line) and bool(
-        BULLET_LIST_START_REGEX.search(line)
+    return (
+        not is_indented_code_block_start_line(line)
+        # Thematic breaks take precedence
+        and not is_thematic_break_line(line)
+        and bool(BULLET_LIST_START_REGEX.search(line))
     )
 
 
-- 
2.43.0


From 043977d91e705580afe380f9c126a665c033fb1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:08 +0000
Subject: [PATCH 20/58] fix: don't shorten thematic breaks to less than three
 characters

---
 markflow/formatters/thematic_break.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/markflow/formatters/thematic_break.py b/markflow/formatters/thematic_break.py
index 763f373..fab18bb 100644
--- a/markflow/formatters/thematic_break.py
+++ b/markflow/formatters/thematic_break.py
@@ -43,7 +43,8 @@ class MarkdownThematicBreak(MarkdownSection):
                     f"Invalid width {repr(width)} passed. How did you manage this?"
                 )
         else:
-            return self.char * width
+            # Anything shorter wouldn't be a thematic break
+            return self.char * max(width, 3)
 
     def __repr__(self) -> str:
         return f"<{self.__class__.__name__}: char={repr(self.char)}>"
-- 
2.43.0


From c0c7835cea0f77a531aee74ae040d61e65091477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:30 +0000
Subject: [PATCH 21/58] fix: don't allow longer lines in block quotes that are
 indented

---
 markflow/formatters/block_quote.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/markflow/formatters/block_quote.py b/markflow/formatters/block_quote.py
index f3cc4ff..9f25fa9 100644
--- a/markflow/formatters/block_quote.py
+++ b/markflow/formatters/block_quote.py
@@ -36,8 +36,6 @@ class MarkdownBlockQuote(MarkdownSection):
         self.lines.append(line)
 
     def reformatted(self, width: Number = 88) -> str:
-        indent = len(self.lines[0].lstrip()) - len(self.lines[0])
-
         depth = 0
         fully_quoted_lines = []
         for line in self.lines:
@@ -70,8 +68,8 @@ class MarkdownBlockQuote(MarkdownSection):
                 restripped_lines += [line[1:] if line and line[0] == " " else line]
             stripped_lines = restripped_lines
 
-        sub_width = width - indent - 1
-        prefix = " " * indent + ">"
+        sub_width = width - 1
+        prefix = ">"
         if has_space:
             sub_width -= 1
             prefix += " "
-- 
2.43.0


From bbf4abdb1b0a94d7d0a02a6c63bdc49696ac3ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:32 +0000
Subject: [PATCH 22/58] fix: keep hard line breaks in block quotes

---
 markflow/formatters/block_quote.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/markflow/formatters/block_quote.py b/markflow/formatters/block_quote.py
index 9f25fa9..a7df85e 100644
--- a/markflow/formatters/block_quote.py
+++ b/markflow/formatters/block_quote.py
@@ -77,7 +77,10 @@ class MarkdownBlockQuote(MarkdownSection):
         # ToDo (jmholla): Issues with leading > in paragraphs will be handled by a later
         #  change.
         text = _reformat_markdown(stripped_lines, width=sub_width)
-        text = "\n".join((prefix + line).strip() for line in text.splitlines())
+        # Trailing spaces that are still there are hard line breaks
+        text = "\n".join(
+            prefix + line if line else prefix.rstrip() for line in text.splitlines()
+        )
 
         return text
 
-- 
2.43.0


From f436116966d03c0c2f15f0d609ab676466608510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:56 +0000
Subject: [PATCH 23/58] fix: don't leave a trailing space after headings
 without any text

---
 markflow/formatters/atx_heading.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/markflow/formatters/atx_heading.py b/markflow/formatters/atx_heading.py
index 5bce961..196d07f 100644
--- a/markflow/formatters/atx_heading.py
+++ b/markflow/formatters/atx_heading.py
@@ -64,7 +64,7 @@ class MarkdownATXHeading(MarkdownSection):
                 "corrected.",
                 self.line_index + 1,
             )
-        return "#" * self.depth + " " + self.content
+        return ("#" * self.depth + " " + self.content).rstrip()
 
     def __repr__(self) -> str:
         return (
-- 
2.43.0


From a6d8cc31bd1cc6ace27fdccb84c4ada1e17b70f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:58 +0000
Subject: [PATCH 24/58] fix: don't leave a trailing space after list entries
 without any text

---
 markflow/formatters/lists.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/markflow/formatters/lists.py b/markflow/formatters/lists.py
index f1a3f93..1ee9123 100644
--- a/markflow/formatters/lists.py
+++ b/markflow/formatters/lists.py
@@ -137,6 +137,9 @@ class MarkdownBulletList(MarkdownSection):
                 + " "
                 + ("\n" + toplevel_indent * " ").join(reformatted_entry.split("\n"))
             )
+            if not any(line.strip() for line in entry):
+                # There's nothing after the marker
+                reformatted_entry = reformatted_entry.rstrip()
             reformatted_entries.append(reformatted_entry)
 
         return "\n".join(reformatted_entries)
@@ -183,6 +186,9 @@ class MarkdownOrderedList(MarkdownSection):
                 + ". "
                 + ("\n" + toplevel_indent * " ").join(reformatted_entry.split("\n"))
             )
+            if not any(line.strip() for line in entry):
+                # There's nothing after the marker
+                reformatted_entry = reformatted_entry.rstrip()
             reformatted_entries.append(reformatted_entry)
 
         return "\n".join(reformatted_entries)
-- 
2.43.0


From a25c7f61b027258b65630ed80abafec3d9efa978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:00 +0000
Subject: [PATCH 25/58] fix: restore the logging level constants if formatting
 a nested section fails

---
 markflow/_utils/_utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/markflow/_utils/_utils.py b/markflow/_utils/_utils.py
index 1a9ebd4..4aec769 100644
--- a/markflow/_utils/_utils.py
+++ b/markflow/_utils/_utils.py
@@ -30,5 +30,7 @@ def truncate_str(str_: str, length: int) -> str:
 def redirect_info_logs_to_debug() -> Iterator[None]:
     old_info = logging.INFO
     logging.INFO = logging.DEBUG
-    yield
-    logging.INFO = old_info
+    try:
+        yield
+    finally:
+        logging.INFO = old_info
-- 
2.43.0


From ce81d9884c7ef4ff5a518ee29341f7fd70b79398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:18 +0000
Subject: [PATCH 26/58] fix: leave the level of the logger as it was before the
 second pass

---
 markflow/reformat_markdown.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/markflow/reformat_markdown.py b/markflow/reformat_markdown.py
index 61582d8..710d5a5 100644
--- a/markflow/reformat_markdown.py
+++ b/markflow/reformat_markdown.py
@@ -87,12 +87,14 @@ def reformat_markdown_text(text: str, width: Number = 88) -> str:
         The reformatted Markdown text
     """
     new_text = _reformat_markdown_text(text, width)
-    level = logger.getEffectiveLevel()
+    level = logger.level
     # Mute logging during second pass since it means nothing to the user.
-    if level > logging.DEBUG:
+    if logger.getEffectiveLevel() > logging.DEBUG:
         logger.setLevel(logging.ERROR)
-    new_new_text = _reformat_markdown_text(new_text, width)
-    logger.setLevel(level)
+    try:
+        new_new_text = _reformat_markdown_text(new_text, width)
+    finally:
+        logger.setLevel(level)
     if new_new_text != new_text:
         raise ReformatInconsistentException(
             "Reformat of reformatted code results in different text. Please open a bug "
-- 
2.43.0


From c30dae072ae30eb551ffe0b28c3fabca9e028649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:57 +0000
Subject: [PATCH 27/58] fix: don't merge the language of a fenced code block
 with its fence

---
 markflow/formatters/fenced_code_block.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/markflow/formatters/fenced_code_block.py b/markflow/formatters/fenced_code_block.py
index 4a26981..223d2c4 100644
--- a/markflow/formatters/fenced_code_block.py
+++ b/markflow/formatters/fenced_code_block.py
@@ -80,8 +80,12 @@ class MarkdownFencedCodeBlock(MarkdownSection):
 
     def reformatted(self, width: Number = 88) -> str:
         fence = self.fence_char * self.fence_count
+        language = self.language
+        if language.startswith(self.fence_char):
+            # Otherwise, it would be a part of the fence
+            language = " " + language
         content = self.lines[1:-1] if self.closed else self.lines[1:]
-        new_lines = [fence + self.language] + content + [fence]
+        new_lines = [fence + language] + content + [fence]
         return "\n".join([line.rstrip() for line in new_lines])
 
     def __repr__(self) -> str:
-- 
2.43.0


From 17aef21f964efc01937ef088ecd1a35c0a357a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:03 +0000
Subject: [PATCH 28/58] fix: keep the last line of an indented code block in
 the block

It was detected as its own section, so if it looked like a fence, the rest of the file
became code.
---
 markflow/detectors/indented_code_block.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/markflow/detectors/indented_code_block.py b/markflow/detectors/indented_code_block.py
index b9322cd..a92d236 100644
--- a/markflow/detectors/indented_code_block.py
+++ b/markflow/detectors/indented_code_block.py
@@ -44,7 +44,7 @@ def split_indented_code_block(
             if not line.strip():
                 continue
             elif get_indent(line) >= 4:
-                close_index = index
+                close_index = index + 1
             else:
                 break
 
-- 
2.43.0


From 64d83bf7f0be26d1308ea0d5697521603a4ba05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:05 +0000
Subject: [PATCH 29/58] fix: don't write to output files if just checking

---
 markflow/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/markflow/__main__.py b/markflow/__main__.py
index 39f0c6b..597d808 100644
--- a/markflow/__main__.py
+++ b/markflow/__main__.py
@@ -300,7 +300,7 @@ def _reformat_files(args: argparse.Namespace) -> int:
             else:
                 print_markdown(f"would reformat {input_path}")
         else:
-            if output_path != input_path:
+            if output_path != input_path and not args.check:
                 output_path.write_text(new_contents)
             files_left_unchanged += 1
 
-- 
2.43.0


From 05fd6f514e8a409c2889a47daa90b37978998a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:06 +0000
Subject: [PATCH 30/58] fix: notice that newlines of files need to be changed

---
 markflow/__main__.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/markflow/__main__.py b/markflow/__main__.py
index 597d808..e4e2dff 100644
--- a/markflow/__main__.py
+++ b/markflow/__main__.py
@@ -1,4 +1,5 @@
 import argparse
+import io
 import logging
 import math
 import pathlib
@@ -277,7 +278,9 @@ def _reformat_files(args: argparse.Namespace) -> int:
     files_left_unchanged = 0
     files_changed = 0
     for input_path, output_path in zip(args.paths, output_paths):
-        old_contents = input_path.read_text()
+        # Don't translate newlines or we'd never notice that they need to be changed
+        with input_path.open(newline="") as input_file:
+            old_contents = input_file.read()
         try:
             new_contents = reformat_markdown_text(old_contents, args.line_length)
         except RuntimeError as runtime_error:
@@ -372,6 +375,10 @@ def main(argv: List[str]) -> int:
             print_markdown("**No path provided. Nothing to do.**")
             return 0
         else:
+            if isinstance(sys.stdin, io.TextIOWrapper):
+                # Don't translate newlines or we'd never notice that they need to be
+                # changed
+                sys.stdin.reconfigure(newline="")
             return _reformat_stdin(args, sys.stdin)
     else:
         return _reformat_files(args)
-- 
2.43.0


From bec76304a2c07688dc92abb437e7c3c5ebab66b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:09 +0000
Subject: [PATCH 31/58] fix: don't turn a thematic break after a paragraph into
 a setext heading's underlining

---
 markflow/reformat_markdown.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/markflow/reformat_markdown.py b/markflow/reformat_markdown.py
index 710d5a5..dc229f4 100644
--- a/markflow/reformat_markdown.py
+++ b/markflow/reformat_markdown.py
@@ -65,6 +65,18 @@ def _reformat_markdown_text(text: str, width: Number = 88, line_index: int = 0)
             formatters.append(
                 FORMATTERS[MarkdownSectionEnum.BLANK_LINE](line_index, [""])
             )
+        if (
+            section_type == MarkdownSectionEnum.THEMATIC_BREAK
+            and last_section_type == MarkdownSectionEnum.PARAGRAPH
+            and section_content[0].lstrip().startswith("-")
+        ):
+            # Without its spaces, it would be the underlining of a setext heading
+            logger.warning(
+                f"Adding a new line before thematic break on line {line_index + 1}"
+            )
+            formatters.append(
+                FORMATTERS[MarkdownSectionEnum.BLANK_LINE](line_index, [""])
+            )
         formatters.append(formatter)
         line_index += len(section_content)
 
-- 
2.43.0


From 7bc8c54e81aa3549ad5835e0e54c3f8afd21d141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:30 +0000
Subject: [PATCH 32/58] fix: don't wrap after a first word that would be
 another section on its own

---
 markflow/_utils/textwrap.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/markflow/_utils/textwrap.py b/markflow/_utils/textwrap.py
index 3ab5b37..e25c990 100644
--- a/markflow/_utils/textwrap.py
+++ b/markflow/_utils/textwrap.py
@@ -38,7 +38,11 @@ def join(split_text: List[str], leading_spaces: List[bool], width: Number) -> st
     unbreakable_leading_spaces: List[bool] = []
     previous_word = ""
     for word, leading_space in zip(split_text, leading_spaces):
-        if unbreakable_text and not can_break(previous_word, word, leading_space):
+        if unbreakable_text and (
+            not can_break(previous_word, word, leading_space)
+            # The first word would be another section if it were alone on its line
+            or (len(unbreakable_text) == 1 and BLOCK_START_REGEX.match(previous_word))
+        ):
             unbreakable_text[-1] += f" {word}" if leading_space else word
         else:
             unbreakable_text.append(word)
-- 
2.43.0


From 4f521c22b4199373ff62661d312a401ce303e082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:32 +0000
Subject: [PATCH 33/58] fix: don't expect that the newlines of any STDIN can be
 reconfigured

---
 markflow/__main__.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/markflow/__main__.py b/markflow/__main__.py
index e4e2dff..e51c9ff 100644
--- a/markflow/__main__.py
+++ b/markflow/__main__.py
@@ -1,5 +1,4 @@
 import argparse
-import io
 import logging
 import math
 import pathlib
@@ -375,7 +374,7 @@ def main(argv: List[str]) -> int:
             print_markdown("**No path provided. Nothing to do.**")
             return 0
         else:
-            if isinstance(sys.stdin, io.TextIOWrapper):
+            if hasattr(sys.stdin, "reconfigure"):
                 # Don't translate newlines or we'd never notice that they need to be
                 # changed
                 sys.stdin.reconfigure(newline="")
-- 
2.43.0


From 33d1db912d84a0b5e49918cf3a45d51703670519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:17 +0000
Subject: [PATCH 34/58] fix: let lists start with an entry without any text

---
 markflow/detectors/_lines.py    | 28 ++++++++++++++++++++++++++--
 markflow/detectors/paragraph.py |  9 ++++++++-
 markflow/formatters/lists.py    | 29 +++++++++++------------------
 3 files changed, 45 insertions(+), 21 deletions(-)

diff --git a/markflow/detectors/_lines.py b/markflow/detectors/_lines.py
index 89b7e3b..af5b58f 100644
--- a/markflow/detectors/_lines.py
+++ b/markflow/detectors/_lines.py
@@ -16,13 +16,13 @@ BULLET_LIST_START_REGEX = re.compile(
     r"*"  # Asterisk list marker
     r"+"  # Plus list marker
     r"-"  # Dash list marker
-    r"] "  # Lists need a space after their identifier
+    r"]( |$)"  # Lists need a space after their identifier unless the entry is empty
 )
 ORDERED_LIST_START_REGEX = re.compile(
     r"^\s*"  # Leading spaces are OK and often expected
     r"("
     r"[0-9]+\."  # Numeric list marker
-    r") "  # Lists need a space after their identifier
+    r")( |$)"  # Lists need a space after their identifier unless the entry is empty
 )
 THEMATIC_BREAK_CHARACTERS = ["*", "_", "-"]
 
@@ -124,6 +124,30 @@ def is_indented_code_block_start_line(line: str) -> bool:
     return bool(line.strip()) and get_indent(line) >= 4
 
 
+def is_empty_list_entry_line(line: str) -> bool:
+    """Evaluates whether a line is only a list marker
+
+    These can start lists, but, unlike other list entries, not in the middle of a
+    paragraph.
+
+    Examples:
+        ```
+        *
+        1.
+        ```
+
+    Args:
+        line: The line to evaluate
+
+    Returns:
+        True if the line is a list entry without any text. False otherwise.
+    """
+    return bool(
+        BULLET_LIST_START_REGEX.fullmatch(line.rstrip())
+        or ORDERED_LIST_START_REGEX.fullmatch(line.rstrip())
+    )
+
+
 def is_ordered_list_start_line(line: str) -> bool:
     """Evaluates whether a line could start an ordered list
 
diff --git a/markflow/detectors/paragraph.py b/markflow/detectors/paragraph.py
index 0670aad..c7f1620 100644
--- a/markflow/detectors/paragraph.py
+++ b/markflow/detectors/paragraph.py
@@ -1,6 +1,10 @@
 from typing import Generator, List, Tuple
 
-from ._lines import is_paragraph_start_line, is_setext_underline
+from ._lines import (
+    is_empty_list_entry_line,
+    is_paragraph_start_line,
+    is_setext_underline,
+)
 from .atx_heading import split_atx_heading
 from .blank_line import split_blank_line
 from .block_quote import split_block_quote
@@ -28,6 +32,9 @@ def _is_paragraph_continuation_text(lines: List[str], line_offset: int = 0) -> b
     Returns:
         True if the first line would continue the paragraph. False otherwise.
     """
+    if is_empty_list_entry_line(lines[0]):
+        # Could still be the underlining of a setext heading
+        return not is_setext_underline(lines[0])
     for splitter in [
         split_atx_heading,
         split_blank_line,
diff --git a/markflow/formatters/lists.py b/markflow/formatters/lists.py
index 1ee9123..4c68715 100644
--- a/markflow/formatters/lists.py
+++ b/markflow/formatters/lists.py
@@ -132,15 +132,11 @@ class MarkdownBulletList(MarkdownSection):
                 reformatted_entry = _reformat_markdown(
                     entry, width - toplevel_indent
                 ).rstrip("\n")
-            reformatted_entry = (
-                self.marker
-                + " "
-                + ("\n" + toplevel_indent * " ").join(reformatted_entry.split("\n"))
-            )
-            if not any(line.strip() for line in entry):
-                # There's nothing after the marker
-                reformatted_entry = reformatted_entry.rstrip()
-            reformatted_entries.append(reformatted_entry)
+            first_line, *other_lines = reformatted_entry.split("\n")
+            # There might be nothing after the marker
+            entry_lines = [f"{self.marker} {first_line}" if first_line else self.marker]
+            entry_lines += [toplevel_indent * " " + line for line in other_lines]
+            reformatted_entries.append("\n".join(entry_lines))
 
         return "\n".join(reformatted_entries)
 
@@ -181,15 +177,12 @@ class MarkdownOrderedList(MarkdownSection):
                 reformatted_entry = _reformat_markdown(
                     entry, width - toplevel_indent
                 ).rstrip("\n")
-            reformatted_entry = (
-                str(entry_number)
-                + ". "
-                + ("\n" + toplevel_indent * " ").join(reformatted_entry.split("\n"))
-            )
-            if not any(line.strip() for line in entry):
-                # There's nothing after the marker
-                reformatted_entry = reformatted_entry.rstrip()
-            reformatted_entries.append(reformatted_entry)
+            first_line, *other_lines = reformatted_entry.split("\n")
+            # There might be nothing after the marker
+            marker = f"{entry_number}."
+            entry_lines = [f"{marker} {first_line}" if first_line else marker]
+            entry_lines += [toplevel_indent * " " + line for line in other_lines]
+            reformatted_entries.append("\n".join(entry_lines))
 
         return "\n".join(reformatted_entries)
 
-- 
2.43.0


From 306fc2fb2561d82fb406e9987e9c74dcb9427456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:17 +0000
Subject: [PATCH 35/58] fix: only keep the second word on the first line if the
 first word needs it

---
 markflow/_utils/textwrap.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/markflow/_utils/textwrap.py b/markflow/_utils/textwrap.py
index e25c990..c837905 100644
--- a/markflow/_utils/textwrap.py
+++ b/markflow/_utils/textwrap.py
@@ -41,7 +41,10 @@ def join(split_text: List[str], leading_spaces: List[bool], width: Number) -> st
         if unbreakable_text and (
             not can_break(previous_word, word, leading_space)
             # The first word would be another section if it were alone on its line
-            or (len(unbreakable_text) == 1 and BLOCK_START_REGEX.match(previous_word))
+            or (
+                len(unbreakable_text) == 1
+                and BLOCK_START_REGEX.match(unbreakable_text[0])
+            )
         ):
             unbreakable_text[-1] += f" {word}" if leading_space else word
         else:
-- 
2.43.0


From bebd2b29449bd85134a3e626327563f57775f494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:59 +0000
Subject: [PATCH 36/58] fix: wrap titles of links that look like a heading

---
 markflow/_utils/textwrap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/markflow/_utils/textwrap.py b/markflow/_utils/textwrap.py
index c837905..4512784 100644
--- a/markflow/_utils/textwrap.py
+++ b/markflow/_utils/textwrap.py
@@ -43,7 +43,7 @@ def join(split_text: List[str], leading_spaces: List[bool], width: Number) -> st
             # The first word would be another section if it were alone on its line
             or (
                 len(unbreakable_text) == 1
-                and BLOCK_START_REGEX.match(unbreakable_text[0])
+                and BLOCK_START_REGEX.fullmatch(unbreakable_text[0])
             )
         ):
             unbreakable_text[-1] += f" {word}" if leading_space else word
-- 
2.43.0


From 0f77ce3c986ee8cb5d21eddfcd10eaad5a5b8d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:00 +0000
Subject: [PATCH 37/58] fix: indent the entries of an ordered list by the width
 of their own number

Otherwise, if the number of digits changes within the list, the first entries are
indented too much, which changes code blocks in them.
---
 markflow/formatters/lists.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/markflow/formatters/lists.py b/markflow/formatters/lists.py
index 4c68715..d779392 100644
--- a/markflow/formatters/lists.py
+++ b/markflow/formatters/lists.py
@@ -167,12 +167,12 @@ class MarkdownOrderedList(MarkdownSection):
 
     def reformatted(self, width: Number = 88) -> str:
         list_entries = _split_list(self.lines)
-        # '99. '
-        toplevel_indent = len(str(self.first_number + len(list_entries) - 1)) + 2
         dedented_entries = _dedent_entries(list_entries)
 
         reformatted_entries: List[str] = []
         for entry_number, entry in enumerate(dedented_entries, start=self.first_number):
+            # '99. '
+            toplevel_indent = len(str(entry_number)) + 2
             with redirect_info_logs_to_debug():
                 reformatted_entry = _reformat_markdown(
                     entry, width - toplevel_indent
-- 
2.43.0


From 191dfe9dd13eaace0390d3211020f153925449b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:14 +0000
Subject: [PATCH 38/58] fix: limit the length of nested lines that start at the
 line length or after it

---
 markflow/_utils/_utils.py          |  8 ++++++++
 markflow/formatters/block_quote.py | 10 +++++++---
 markflow/formatters/lists.py       | 11 ++++++++---
 3 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/markflow/_utils/_utils.py b/markflow/_utils/_utils.py
index 4aec769..704c272 100644
--- a/markflow/_utils/_utils.py
+++ b/markflow/_utils/_utils.py
@@ -2,8 +2,11 @@ import contextlib
 import logging
 from typing import Iterator
 
+from ..typing import Number
+
 __all__ = [
     "get_indent",
+    "get_nested_width",
     "truncate_str",
     "redirect_info_logs_to_debug",
 ]
@@ -15,6 +18,11 @@ def get_indent(line: str) -> int:
     return len(line) - len(line.lstrip())
 
 
+def get_nested_width(width: Number, indent: int) -> Number:
+    # Non-positive widths are infinite, so they can't be what we end up with
+    return max(width - indent, 1) if width > 0 else width
+
+
 def truncate_str(str_: str, length: int) -> str:
     if len(str_) <= length:
         pass
diff --git a/markflow/formatters/block_quote.py b/markflow/formatters/block_quote.py
index a7df85e..2eee52b 100644
--- a/markflow/formatters/block_quote.py
+++ b/markflow/formatters/block_quote.py
@@ -2,7 +2,12 @@ import logging
 import re
 from typing import List
 
-from .._utils import get_indent, redirect_info_logs_to_debug, truncate_str
+from .._utils import (
+    get_indent,
+    get_nested_width,
+    redirect_info_logs_to_debug,
+    truncate_str,
+)
 from ..detectors._lines import is_explicit_block_quote_line
 from ..typing import Number
 from .base import MarkdownSection
@@ -68,11 +73,10 @@ class MarkdownBlockQuote(MarkdownSection):
                 restripped_lines += [line[1:] if line and line[0] == " " else line]
             stripped_lines = restripped_lines
 
-        sub_width = width - 1
         prefix = ">"
         if has_space:
-            sub_width -= 1
             prefix += " "
+        sub_width = get_nested_width(width, len(prefix))
 
         # ToDo (jmholla): Issues with leading > in paragraphs will be handled by a later
         #  change.
diff --git a/markflow/formatters/lists.py b/markflow/formatters/lists.py
index d779392..d6e1dfb 100644
--- a/markflow/formatters/lists.py
+++ b/markflow/formatters/lists.py
@@ -7,7 +7,12 @@ import re
 import string
 from typing import List
 
-from .._utils import get_indent, redirect_info_logs_to_debug, truncate_str
+from .._utils import (
+    get_indent,
+    get_nested_width,
+    redirect_info_logs_to_debug,
+    truncate_str,
+)
 from ..detectors._lines import is_fenced_code_block_start_line
 from ..typing import Number
 from .base import MarkdownSection
@@ -130,7 +135,7 @@ class MarkdownBulletList(MarkdownSection):
         for entry in dedented_entries:
             with redirect_info_logs_to_debug():
                 reformatted_entry = _reformat_markdown(
-                    entry, width - toplevel_indent
+                    entry, get_nested_width(width, toplevel_indent)
                 ).rstrip("\n")
             first_line, *other_lines = reformatted_entry.split("\n")
             # There might be nothing after the marker
@@ -175,7 +180,7 @@ class MarkdownOrderedList(MarkdownSection):
             toplevel_indent = len(str(entry_number)) + 2
             with redirect_info_logs_to_debug():
                 reformatted_entry = _reformat_markdown(
-                    entry, width - toplevel_indent
+                    entry, get_nested_width(width, toplevel_indent)
                 ).rstrip("\n")
             first_line, *other_lines = reformatted_entry.split("\n")
             # There might be nothing after the marker
-- 
2.43.0


From 7d882fedf27218100482d14476af6405a54da083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:15 +0000
Subject: [PATCH 39/58] fix: don't recurse forever on block quotes indented by
 anything but spaces

---
 markflow/detectors/block_quote.py  | 2 +-
 markflow/formatters/block_quote.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/markflow/detectors/block_quote.py b/markflow/detectors/block_quote.py
index c624cbc..8768e52 100644
--- a/markflow/detectors/block_quote.py
+++ b/markflow/detectors/block_quote.py
@@ -15,7 +15,7 @@ from .ordered_list import split_ordered_list
 from .table import split_table
 from .thematic_break import split_thematic_break
 
-LEADING_QUOTE_MARKER = re.compile(r"^ {0,3}>")
+LEADING_QUOTE_MARKER = re.compile(r"^\s{0,3}>")
 
 
 def _is_paragraph_continuation_text(lines: List[str], line_offset: int = 0) -> bool:
diff --git a/markflow/formatters/block_quote.py b/markflow/formatters/block_quote.py
index 2eee52b..6144585 100644
--- a/markflow/formatters/block_quote.py
+++ b/markflow/formatters/block_quote.py
@@ -16,7 +16,7 @@ __all__ = ["MarkdownBlockQuote"]
 
 REPR_CONTENT_LEN = 20
 NON_ESCAPED_QUOTE_MARKER = re.compile(r"(?<= )>")
-LEADING_QUOTE_MARKER = re.compile(r"^ {0,3}>")
+LEADING_QUOTE_MARKER = re.compile(r"^\s{0,3}>")
 
 logger = logging.getLogger(__name__)
 
-- 
2.43.0


From 5ca74c29bbd86d0b078094e2320ded050e043d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:16 +0000
Subject: [PATCH 40/58] fix: don't wrap text before four or more backticks that
 would be a fence

---
 markflow/_utils/textwrap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/markflow/_utils/textwrap.py b/markflow/_utils/textwrap.py
index 4512784..79dca32 100644
--- a/markflow/_utils/textwrap.py
+++ b/markflow/_utils/textwrap.py
@@ -6,7 +6,7 @@ from markflow.typing import Number
 # Words that would be the start of another section if they were moved to a new line
 BLOCK_START_REGEX = re.compile(
     r"[>#|]"  # Block quotes, ATX headings, and tables
-    r"|~~~|```(?!.*`)"  # Fenced code blocks
+    r"|~~~|```+[^`]*$"  # Fenced code blocks
     r"|([*+-]|[0-9]+[.)])$"  # Lists
     r"|(=+|-+|\*+|_+)$"  # Setext headings and thematic breaks
 )
-- 
2.43.0


From 7672df75b57b74f9ba8d0132b41abf9a95bda9fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:23 +0000
Subject: [PATCH 41/58] fix: don't wrap text whose first words are a thematic
 break with spaces

---
 markflow/_utils/textwrap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/markflow/_utils/textwrap.py b/markflow/_utils/textwrap.py
index 79dca32..8686e11 100644
--- a/markflow/_utils/textwrap.py
+++ b/markflow/_utils/textwrap.py
@@ -8,7 +8,7 @@ BLOCK_START_REGEX = re.compile(
     r"[>#|]"  # Block quotes, ATX headings, and tables
     r"|~~~|```+[^`]*$"  # Fenced code blocks
     r"|([*+-]|[0-9]+[.)])$"  # Lists
-    r"|(=+|-+|\*+|_+)$"  # Setext headings and thematic breaks
+    r"|(=+|(- *)+|(\* *)+|(_ *)+)$"  # Setext headings and thematic breaks
 )
 INLINE_CODE_MARKER_REGEX = re.compile(r"(((?!<\\)`)+)")
 FOOTNOTE_REGEX = re.compile(r"[^\s\]\)]*\[[^\[]+\]\[[^\]]+\][^\s\[\(]*")
-- 
2.43.0


From 60cc6df56f558e94a484152a3b60b43ba2ea0f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:10 +0000
Subject: [PATCH 42/58] fix: find files in directories whose names have
 brackets or asterisks

---
 markflow/_argparse.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/markflow/_argparse.py b/markflow/_argparse.py
index adfe12c..4eff9a0 100644
--- a/markflow/_argparse.py
+++ b/markflow/_argparse.py
@@ -122,6 +122,8 @@ class AddMarkdownFilesInDirOrPathsAction(argparse.Action):
             if value.is_file():
                 expanded_paths.append(value)
             else:
-                markdown_paths = glob.glob(str(value / "**" / "*.md"), recursive=True)
+                # The directory's own name isn't a pattern
+                pattern = os.path.join(glob.escape(str(value)), "**", "*.md")
+                markdown_paths = glob.glob(pattern, recursive=True)
                 expanded_paths += [pathlib.Path(path) for path in markdown_paths]
         setattr(namespace, self.dest, expanded_paths)
-- 
2.43.0


From b7e3fe932c35e7e8c2164549d2864cc547f2ba90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:12 +0000
Subject: [PATCH 43/58] fix: don't reject directories that have a directory
 with the name of a Markdown file

---
 markflow/_argparse.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/markflow/_argparse.py b/markflow/_argparse.py
index 4eff9a0..5596f1b 100644
--- a/markflow/_argparse.py
+++ b/markflow/_argparse.py
@@ -125,5 +125,7 @@ class AddMarkdownFilesInDirOrPathsAction(argparse.Action):
                 # The directory's own name isn't a pattern
                 pattern = os.path.join(glob.escape(str(value)), "**", "*.md")
                 markdown_paths = glob.glob(pattern, recursive=True)
-                expanded_paths += [pathlib.Path(path) for path in markdown_paths]
+                expanded_paths += [
+                    pathlib.Path(path) for path in markdown_paths if os.path.isfile(path)
+                ]
         setattr(namespace, self.dest, expanded_paths)
-- 
2.43.0


From 15427fd61031ff0314e6080327eefaed77d23321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:16 +0000
Subject: [PATCH 44/58] fix: don't take exponential time to format deeply
 nested block quotes

---
 markflow/detectors/block_quote.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/markflow/detectors/block_quote.py b/markflow/detectors/block_quote.py
index 8768e52..df2a77b 100644
--- a/markflow/detectors/block_quote.py
+++ b/markflow/detectors/block_quote.py
@@ -135,9 +135,8 @@ def split_block_quote(
             block_quote += [remaining_lines[0]]
             remaining_lines = remaining_lines[1:]
 
-        check_for_continuation = _block_quote_ends_with_paragraph(block_quote)
-
-        if check_for_continuation:
+        # Parsing the quote takes time that would double with every level
+        if remaining_lines and _block_quote_ends_with_paragraph(block_quote):
             first_line = True
             while remaining_lines and _is_paragraph_continuation_text(
                 remaining_lines, line_offset
-- 
2.43.0


From 85fc4d80fc606e530935a7a2693d52d8b2f05331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:41 +0000
Subject: [PATCH 45/58] fix: don't treat numbers of more than nine digits as
 list markers

---
 markflow/detectors/_lines.py | 2 +-
 markflow/formatters/lists.py | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/markflow/detectors/_lines.py b/markflow/detectors/_lines.py
index af5b58f..d795174 100644
--- a/markflow/detectors/_lines.py
+++ b/markflow/detectors/_lines.py
@@ -21,7 +21,7 @@ BULLET_LIST_START_REGEX = re.compile(
 ORDERED_LIST_START_REGEX = re.compile(
     r"^\s*"  # Leading spaces are OK and often expected
     r"("
-    r"[0-9]+\."  # Numeric list marker
+    r"[0-9]{1,9}\."  # Numeric list marker
     r")( |$)"  # Lists need a space after their identifier unless the entry is empty
 )
 THEMATIC_BREAK_CHARACTERS = ["*", "_", "-"]
diff --git a/markflow/formatters/lists.py b/markflow/formatters/lists.py
index d6e1dfb..ce8b38a 100644
--- a/markflow/formatters/lists.py
+++ b/markflow/formatters/lists.py
@@ -23,11 +23,13 @@ MARKER_REGEX = re.compile(
     r"\*|"  # Asterisk list marker
     r"-|"  # Dash list marker
     r"\+|"  # Plus list marker
-    r"[0-9]+\."  # Numeric list marker
+    r"[0-9]{1,9}\."  # Numeric list marker
     r")"
     r"($| )"  # End of line or space
 )
 REPR_CONTENT_LEN = 20
+# Longer numbers aren't list markers
+MAX_NUMBER = 999999999
 
 
 def _reformat_markdown(lines: List[str], width: Number) -> str:
@@ -176,6 +178,7 @@ class MarkdownOrderedList(MarkdownSection):
 
         reformatted_entries: List[str] = []
         for entry_number, entry in enumerate(dedented_entries, start=self.first_number):
+            entry_number = min(entry_number, MAX_NUMBER)
             # '99. '
             toplevel_indent = len(str(entry_number)) + 2
             with redirect_info_logs_to_debug():
-- 
2.43.0


From 1cbd1d765d20736bf5f369d1861129f134d864cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:38 +0000
Subject: [PATCH 46/58] fix: don't take exponential time to format block quotes
 in block quotes

Whether a quote ends with a paragraph was found out again for each of its levels,
and paragraphs found out where a quote ends just to see that it starts.
---
 markflow/detectors/block_quote.py | 9 ++++++---
 markflow/detectors/paragraph.py   | 6 ++++--
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/markflow/detectors/block_quote.py b/markflow/detectors/block_quote.py
index df2a77b..6cb575d 100644
--- a/markflow/detectors/block_quote.py
+++ b/markflow/detectors/block_quote.py
@@ -1,4 +1,5 @@
 import re
+from functools import lru_cache
 from typing import List, Tuple
 
 from .._utils import redirect_info_logs_to_debug
@@ -81,7 +82,9 @@ def _is_paragraph_continuation_text(lines: List[str], line_offset: int = 0) -> b
     return True
 
 
-def _block_quote_ends_with_paragraph(block_quote_lines: List[str]) -> bool:
+@lru_cache(maxsize=1024)
+def _block_quote_ends_with_paragraph(block_quote_lines: Tuple[str, ...]) -> bool:
+    # Cached since each level of nested quotes asks the same about the ones inside of it
     # Avoid circular imports
     from ..parser import MarkdownSectionEnum, parse_markdown
 
@@ -93,7 +96,7 @@ def _block_quote_ends_with_paragraph(block_quote_lines: List[str]) -> bool:
         ending_section_type, ending_section_content = parse_markdown(parsing_lines)[-1]
 
     if ending_section_type == MarkdownSectionEnum.BLOCK_QUOTE:
-        return _block_quote_ends_with_paragraph(ending_section_content)
+        return _block_quote_ends_with_paragraph(tuple(ending_section_content))
     elif ending_section_type == MarkdownSectionEnum.PARAGRAPH:
         return True
     else:
@@ -136,7 +139,7 @@ def split_block_quote(
             remaining_lines = remaining_lines[1:]
 
         # Parsing the quote takes time that would double with every level
-        if remaining_lines and _block_quote_ends_with_paragraph(block_quote):
+        if remaining_lines and _block_quote_ends_with_paragraph(tuple(block_quote)):
             first_line = True
             while remaining_lines and _is_paragraph_continuation_text(
                 remaining_lines, line_offset
diff --git a/markflow/detectors/paragraph.py b/markflow/detectors/paragraph.py
index c7f1620..aa111a3 100644
--- a/markflow/detectors/paragraph.py
+++ b/markflow/detectors/paragraph.py
@@ -2,12 +2,12 @@ from typing import Generator, List, Tuple
 
 from ._lines import (
     is_empty_list_entry_line,
+    is_explicit_block_quote_line,
     is_paragraph_start_line,
     is_setext_underline,
 )
 from .atx_heading import split_atx_heading
 from .blank_line import split_blank_line
-from .block_quote import split_block_quote
 from .bullet_list import split_bullet_list
 from .fenced_code_block import split_fenced_code_block
 from .ordered_list import split_ordered_list
@@ -32,13 +32,15 @@ def _is_paragraph_continuation_text(lines: List[str], line_offset: int = 0) -> b
     Returns:
         True if the first line would continue the paragraph. False otherwise.
     """
+    if is_explicit_block_quote_line(lines[0]):
+        # Finding out where the quote ends would take time that doubles with every line
+        return False
     if is_empty_list_entry_line(lines[0]):
         # Could still be the underlining of a setext heading
         return not is_setext_underline(lines[0])
     for splitter in [
         split_atx_heading,
         split_blank_line,
-        split_block_quote,
         split_bullet_list,
         split_fenced_code_block,
         split_ordered_list,
-- 
2.43.0


From 24f6131c82a0939b086c767e60491b44c56bf097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:39 +0000
Subject: [PATCH 47/58] fix: find the end of block quotes with lazy lines

All lines after a lazy one were taken for a part of its paragraph, even if they
started with > and ended it.
---
 markflow/detectors/block_quote.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/markflow/detectors/block_quote.py b/markflow/detectors/block_quote.py
index 6cb575d..23be7a6 100644
--- a/markflow/detectors/block_quote.py
+++ b/markflow/detectors/block_quote.py
@@ -141,8 +141,10 @@ def split_block_quote(
         # Parsing the quote takes time that would double with every level
         if remaining_lines and _block_quote_ends_with_paragraph(tuple(block_quote)):
             first_line = True
-            while remaining_lines and _is_paragraph_continuation_text(
-                remaining_lines, line_offset
+            while (
+                remaining_lines
+                and not is_explicit_block_quote_line(remaining_lines[0])
+                and _is_paragraph_continuation_text(remaining_lines, line_offset)
             ):
                 if first_line:
                     first_line = False
-- 
2.43.0


From 5e100fc54365c6361a56083bae437fd8be22e04a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:39 +0000
Subject: [PATCH 48/58] fix: name the document's lines in messages about nested
 sections

---
 markflow/formatters/block_quote.py |  8 +++++---
 markflow/formatters/lists.py       | 12 ++++++++----
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/markflow/formatters/block_quote.py b/markflow/formatters/block_quote.py
index 6144585..749a677 100644
--- a/markflow/formatters/block_quote.py
+++ b/markflow/formatters/block_quote.py
@@ -21,13 +21,13 @@ LEADING_QUOTE_MARKER = re.compile(r"^\s{0,3}>")
 logger = logging.getLogger(__name__)
 
 
-def _reformat_markdown(lines: List[str], width: Number) -> str:
+def _reformat_markdown(lines: List[str], width: Number, line_index: int) -> str:
     # Prevents issues from circular imports. Since this module would already be loaded
     # whenever we call this function, we know it's cached.
     from ..reformat_markdown import _reformat_markdown_text
 
     with redirect_info_logs_to_debug():
-        text = _reformat_markdown_text("\n".join(lines) + "\n", width)
+        text = _reformat_markdown_text("\n".join(lines) + "\n", width, line_index)
 
     return text
 
@@ -80,7 +80,9 @@ class MarkdownBlockQuote(MarkdownSection):
 
         # ToDo (jmholla): Issues with leading > in paragraphs will be handled by a later
         #  change.
-        text = _reformat_markdown(stripped_lines, width=sub_width)
+        text = _reformat_markdown(
+            stripped_lines, width=sub_width, line_index=self.line_index
+        )
         # Trailing spaces that are still there are hard line breaks
         text = "\n".join(
             prefix + line if line else prefix.rstrip() for line in text.splitlines()
diff --git a/markflow/formatters/lists.py b/markflow/formatters/lists.py
index ce8b38a..7a7a515 100644
--- a/markflow/formatters/lists.py
+++ b/markflow/formatters/lists.py
@@ -32,13 +32,13 @@ REPR_CONTENT_LEN = 20
 MAX_NUMBER = 999999999
 
 
-def _reformat_markdown(lines: List[str], width: Number) -> str:
+def _reformat_markdown(lines: List[str], width: Number, line_index: int) -> str:
     # Prevents issues from circular imports. Since this module would already be loaded
     # whenever we call this function, we know it's cached.
     from ..reformat_markdown import _reformat_markdown_text
 
     with redirect_info_logs_to_debug():
-        text = _reformat_markdown_text("\n".join(lines) + "\n", width)
+        text = _reformat_markdown_text("\n".join(lines) + "\n", width, line_index)
 
     return text
 
@@ -134,11 +134,13 @@ class MarkdownBulletList(MarkdownSection):
         dedented_entries = _dedent_entries(list_entries)
 
         reformatted_entries: List[str] = []
+        line_index = self.line_index
         for entry in dedented_entries:
             with redirect_info_logs_to_debug():
                 reformatted_entry = _reformat_markdown(
-                    entry, get_nested_width(width, toplevel_indent)
+                    entry, get_nested_width(width, toplevel_indent), line_index
                 ).rstrip("\n")
+            line_index += len(entry)
             first_line, *other_lines = reformatted_entry.split("\n")
             # There might be nothing after the marker
             entry_lines = [f"{self.marker} {first_line}" if first_line else self.marker]
@@ -177,14 +179,16 @@ class MarkdownOrderedList(MarkdownSection):
         dedented_entries = _dedent_entries(list_entries)
 
         reformatted_entries: List[str] = []
+        line_index = self.line_index
         for entry_number, entry in enumerate(dedented_entries, start=self.first_number):
             entry_number = min(entry_number, MAX_NUMBER)
             # '99. '
             toplevel_indent = len(str(entry_number)) + 2
             with redirect_info_logs_to_debug():
                 reformatted_entry = _reformat_markdown(
-                    entry, get_nested_width(width, toplevel_indent)
+                    entry, get_nested_width(width, toplevel_indent), line_index
                 ).rstrip("\n")
+            line_index += len(entry)
             first_line, *other_lines = reformatted_entry.split("\n")
             # There might be nothing after the marker
             marker = f"{entry_number}."
-- 
2.43.0


From e2ae0c634daa04187eefdc38a728afc3485292b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:31 +0000
Subject: [PATCH 49/58] fix: name the right lines in warnings about fences and
 definitions

---
 markflow/detectors/block_quote.py             | 21 +++++++++++++------
 .../detectors/link_reference_definition.py    |  2 +-
 markflow/parser.py                            | 10 ++++++---
 markflow/reformat_markdown.py                 |  2 +-
 4 files changed, 24 insertions(+), 11 deletions(-)

diff --git a/markflow/detectors/block_quote.py b/markflow/detectors/block_quote.py
index 23be7a6..71fe45f 100644
--- a/markflow/detectors/block_quote.py
+++ b/markflow/detectors/block_quote.py
@@ -83,7 +83,9 @@ def _is_paragraph_continuation_text(lines: List[str], line_offset: int = 0) -> b
 
 
 @lru_cache(maxsize=1024)
-def _block_quote_ends_with_paragraph(block_quote_lines: Tuple[str, ...]) -> bool:
+def _block_quote_ends_with_paragraph(
+    block_quote_lines: Tuple[str, ...], line_offset: int
+) -> bool:
     # Cached since each level of nested quotes asks the same about the ones inside of it
     # Avoid circular imports
     from ..parser import MarkdownSectionEnum, parse_markdown
@@ -93,10 +95,14 @@ def _block_quote_ends_with_paragraph(block_quote_lines: Tuple[str, ...]) -> bool
         parsing_lines.append(LEADING_QUOTE_MARKER.sub("", line))
 
     with redirect_info_logs_to_debug():
-        ending_section_type, ending_section_content = parse_markdown(parsing_lines)[-1]
+        sections = parse_markdown(parsing_lines, line_offset)
+    ending_section_type, ending_section_content = sections[-1]
 
     if ending_section_type == MarkdownSectionEnum.BLOCK_QUOTE:
-        return _block_quote_ends_with_paragraph(tuple(ending_section_content))
+        line_offset += len(block_quote_lines) - len(ending_section_content)
+        return _block_quote_ends_with_paragraph(
+            tuple(ending_section_content), line_offset
+        )
     elif ending_section_type == MarkdownSectionEnum.PARAGRAPH:
         return True
     else:
@@ -139,12 +145,16 @@ def split_block_quote(
             remaining_lines = remaining_lines[1:]
 
         # Parsing the quote takes time that would double with every level
-        if remaining_lines and _block_quote_ends_with_paragraph(tuple(block_quote)):
+        if remaining_lines and _block_quote_ends_with_paragraph(
+            tuple(block_quote), line_offset
+        ):
             first_line = True
             while (
                 remaining_lines
                 and not is_explicit_block_quote_line(remaining_lines[0])
-                and _is_paragraph_continuation_text(remaining_lines, line_offset)
+                and _is_paragraph_continuation_text(
+                    remaining_lines, line_offset + len(block_quote)
+                )
             ):
                 if first_line:
                     first_line = False
@@ -154,7 +164,6 @@ def split_block_quote(
                         break
                 block_quote += [remaining_lines[0]]
                 remaining_lines = remaining_lines[1:]
-                line_offset += 1
         else:
             break
 
diff --git a/markflow/detectors/link_reference_definition.py b/markflow/detectors/link_reference_definition.py
index 01dca84..e812ae5 100644
--- a/markflow/detectors/link_reference_definition.py
+++ b/markflow/detectors/link_reference_definition.py
@@ -99,7 +99,7 @@ def split_link_reference_definition(
             logger.warning(
                 "The text on line %d seems to be a link reference definition, but it "
                 "does not contain a link. We will be treating it as if it were.",
-                index,  # We are just pass where the issue exists
+                line_offset + 1,
             )
             link_reference_definition = [lines[0]]
             remaining_lines = lines[1:]
diff --git a/markflow/parser.py b/markflow/parser.py
index f57bb01..474fb9b 100644
--- a/markflow/parser.py
+++ b/markflow/parser.py
@@ -53,14 +53,18 @@ SPLITTERS: List[Tuple[MarkdownSectionEnum, SplitFunc]] = [
 ]
 
 
-def parse_markdown(lines: List[str]) -> List[Tuple[MarkdownSectionEnum, List[str]]]:
+def parse_markdown(
+    lines: List[str], line_offset: int = 0
+) -> List[Tuple[MarkdownSectionEnum, List[str]]]:
     sections: List[Tuple[MarkdownSectionEnum, List[str]]] = []
     remaining_lines = lines
-    current_line = 1
+    current_line = line_offset + 1
 
     while remaining_lines:
         for section_type, splitter in SPLITTERS:
-            section_content, remaining_lines = splitter(remaining_lines)
+            section_content, remaining_lines = splitter(
+                remaining_lines, current_line - 1
+            )
             if section_content:
                 content_length = len(section_content)
                 if content_length > 1:
diff --git a/markflow/reformat_markdown.py b/markflow/reformat_markdown.py
index dc229f4..8026561 100644
--- a/markflow/reformat_markdown.py
+++ b/markflow/reformat_markdown.py
@@ -42,7 +42,7 @@ FORMATTERS: Dict[MarkdownSectionEnum, Type[MarkdownSection]] = {
 
 
 def _reformat_markdown_text(text: str, width: Number = 88, line_index: int = 0) -> str:
-    sections = parse_markdown(text.splitlines())
+    sections = parse_markdown(text.splitlines(), line_index)
 
     formatters = []
     last_section_type = MarkdownSectionEnum.INVALID
-- 
2.43.0


From 88e7e179ba4f32fb94268162094fa4f600e16dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:13 +0000
Subject: [PATCH 50/58] fix: don't change the level of informational logs of
 other threads

---
 markflow/_utils/_utils.py     | 15 ++++++++++++---
 markflow/reformat_markdown.py |  3 ++-
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/markflow/_utils/_utils.py b/markflow/_utils/_utils.py
index 704c272..dfbdd19 100644
--- a/markflow/_utils/_utils.py
+++ b/markflow/_utils/_utils.py
@@ -1,11 +1,13 @@
 import contextlib
 import logging
+import threading
 from typing import Iterator
 
 from ..typing import Number
 
 __all__ = [
     "get_indent",
+    "get_info_level",
     "get_nested_width",
     "truncate_str",
     "redirect_info_logs_to_debug",
@@ -13,6 +15,9 @@ __all__ = [
 
 ELLIPSIS = "..."
 
+# The level of informational logs is set for each thread on its own
+_thread_state = threading.local()
+
 
 def get_indent(line: str) -> int:
     return len(line) - len(line.lstrip())
@@ -34,11 +39,15 @@ def truncate_str(str_: str, length: int) -> str:
     return str_
 
 
+def get_info_level() -> int:
+    return getattr(_thread_state, "info_level", logging.INFO)
+
+
 @contextlib.contextmanager
 def redirect_info_logs_to_debug() -> Iterator[None]:
-    old_info = logging.INFO
-    logging.INFO = logging.DEBUG
+    old_level = get_info_level()
+    _thread_state.info_level = logging.DEBUG
     try:
         yield
     finally:
-        logging.INFO = old_info
+        _thread_state.info_level = old_level
diff --git a/markflow/reformat_markdown.py b/markflow/reformat_markdown.py
index 8026561..e0f3e15 100644
--- a/markflow/reformat_markdown.py
+++ b/markflow/reformat_markdown.py
@@ -1,6 +1,7 @@
 import logging
 from typing import Dict, Type
 
+from ._utils import get_info_level
 from .exceptions import ReformatInconsistentException
 from .formatters import (
     MarkdownATXHeading,
@@ -54,7 +55,7 @@ def _reformat_markdown_text(text: str, width: Number = 88, line_index: int = 0)
             log_text = f"Lines {line_index + 1}-{line_index + content_length}"
         else:
             log_text = f"Line {line_index + 1}"
-        logger.info("%s: %s", log_text, repr(formatter))
+        logger.log(get_info_level(), "%s: %s", log_text, repr(formatter))
         if (
             section_type == MarkdownSectionEnum.SETEXT_HEADING
             and last_section_type == MarkdownSectionEnum.BLOCK_QUOTE
-- 
2.43.0


From 2ae9f2c5af81dc3c243cce3f29959a43fdb340a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:28 +0000
Subject: [PATCH 51/58] fix: mute all logs during the second pass, also in
 several threads

---
 markflow/_utils/_utils.py     | 27 +++++++++++++++++++++++++++
 markflow/reformat_markdown.py |  9 ++-------
 2 files changed, 29 insertions(+), 7 deletions(-)

diff --git a/markflow/_utils/_utils.py b/markflow/_utils/_utils.py
index dfbdd19..256c268 100644
--- a/markflow/_utils/_utils.py
+++ b/markflow/_utils/_utils.py
@@ -9,6 +9,7 @@ __all__ = [
     "get_indent",
     "get_info_level",
     "get_nested_width",
+    "mute_logs",
     "truncate_str",
     "redirect_info_logs_to_debug",
 ]
@@ -18,6 +19,12 @@ ELLIPSIS = "..."
 # The level of informational logs is set for each thread on its own
 _thread_state = threading.local()
 
+# All loggers of this package inherit the level of this one
+_package_logger = logging.getLogger("markflow")
+_muting_lock = threading.Lock()
+_muting_count = 0
+_unmuted_level = logging.NOTSET
+
 
 def get_indent(line: str) -> int:
     return len(line) - len(line.lstrip())
@@ -51,3 +58,23 @@ def redirect_info_logs_to_debug() -> Iterator[None]:
         yield
     finally:
         _thread_state.info_level = old_level
+
+
+@contextlib.contextmanager
+def mute_logs() -> Iterator[None]:
+    """Only let errors be logged unless debugging. Several threads may do so at once."""
+    global _muting_count
+    global _unmuted_level
+    with _muting_lock:
+        if not _muting_count:
+            _unmuted_level = _package_logger.level
+            if _package_logger.getEffectiveLevel() > logging.DEBUG:
+                _package_logger.setLevel(logging.ERROR)
+        _muting_count += 1
+    try:
+        yield
+    finally:
+        with _muting_lock:
+            _muting_count -= 1
+            if not _muting_count:
+                _package_logger.setLevel(_unmuted_level)
diff --git a/markflow/reformat_markdown.py b/markflow/reformat_markdown.py
index e0f3e15..cc7af63 100644
--- a/markflow/reformat_markdown.py
+++ b/markflow/reformat_markdown.py
@@ -1,7 +1,7 @@
 import logging
 from typing import Dict, Type
 
-from ._utils import get_info_level
+from ._utils import get_info_level, mute_logs
 from .exceptions import ReformatInconsistentException
 from .formatters import (
     MarkdownATXHeading,
@@ -100,14 +100,9 @@ def reformat_markdown_text(text: str, width: Number = 88) -> str:
         The reformatted Markdown text
     """
     new_text = _reformat_markdown_text(text, width)
-    level = logger.level
     # Mute logging during second pass since it means nothing to the user.
-    if logger.getEffectiveLevel() > logging.DEBUG:
-        logger.setLevel(logging.ERROR)
-    try:
+    with mute_logs():
         new_new_text = _reformat_markdown_text(new_text, width)
-    finally:
-        logger.setLevel(level)
     if new_new_text != new_text:
         raise ReformatInconsistentException(
             "Reformat of reformatted code results in different text. Please open a bug "
-- 
2.43.0


From 47bf8d1663db0043d6012e05fb7ee2645e58c7e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:42 +0000
Subject: [PATCH 52/58] fix: report files by their actual names

Names with Markdown in them, e.g. __init__.md, were rendered.
---
 markflow/__main__.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/markflow/__main__.py b/markflow/__main__.py
index e51c9ff..ac6faa2 100644
--- a/markflow/__main__.py
+++ b/markflow/__main__.py
@@ -63,6 +63,10 @@ def print_markdown(markdown_text: str) -> None:
     console.print(rich.markdown.Markdown(markdown_text))
 
 
+def escape_markdown(text: str) -> str:
+    return re.sub(r"([!-/:-@\[-`{-~])", r"\\\1", text)
+
+
 def parse_args(argv: List[str]) -> argparse.Namespace:
     parser = argparse.ArgumentParser(
         description="Make your Markdown sparkle.", add_help=False
@@ -298,9 +302,9 @@ def _reformat_files(args: argparse.Namespace) -> int:
             files_changed += 1
             if not args.check:
                 output_path.write_text(new_contents)
-                print_markdown(f"**reformatted {input_path}**")
+                print_markdown(f"**reformatted {escape_markdown(str(input_path))}**")
             else:
-                print_markdown(f"would reformat {input_path}")
+                print_markdown(f"would reformat {escape_markdown(str(input_path))}")
         else:
             if output_path != input_path and not args.check:
                 output_path.write_text(new_contents)
-- 
2.43.0


From 1b4795504b3de28ad3945b64b5cb09ecf3bed6fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:30 +0000
Subject: [PATCH 53/58] fix: name the file that a malformed table is in

---
 markflow/__main__.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/markflow/__main__.py b/markflow/__main__.py
index ac6faa2..3df93b8 100644
--- a/markflow/__main__.py
+++ b/markflow/__main__.py
@@ -286,17 +286,15 @@ def _reformat_files(args: argparse.Namespace) -> int:
             old_contents = input_file.read()
         try:
             new_contents = reformat_markdown_text(old_contents, args.line_length)
-        except RuntimeError as runtime_error:
-            if args.write_renders and isinstance(
-                runtime_error, ReformatInconsistentException
-            ):
+        except (MarkdownFormatException, RuntimeError) as error:
+            if args.write_renders and isinstance(error, ReformatInconsistentException):
                 _write_renders(input_path, output_path, args.line_length)
             # Add file information to our exception
             new_args = []
-            new_args.append(runtime_error.args[0] + f" (file: {str(input_path)})")
-            for arg in runtime_error.args[1:]:
+            new_args.append(error.args[0] + f" (file: {str(input_path)})")
+            for arg in error.args[1:]:
                 new_args.append(arg)
-            runtime_error.args = tuple(new_args)
+            error.args = tuple(new_args)
             raise
         if new_contents != old_contents:
             files_changed += 1
-- 
2.43.0


From 4b6cabf2c74b0a847c9458b423ffd774051a01df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:51 +0000
Subject: [PATCH 54/58] fix: don't turn text into a link reference definition
 by wrapping it

---
 markflow/_utils/textwrap.py | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/markflow/_utils/textwrap.py b/markflow/_utils/textwrap.py
index 8686e11..8a7842f 100644
--- a/markflow/_utils/textwrap.py
+++ b/markflow/_utils/textwrap.py
@@ -10,6 +10,12 @@ BLOCK_START_REGEX = re.compile(
     r"|([*+-]|[0-9]+[.)])$"  # Lists
     r"|(=+|(- *)+|(\* *)+|(_ *)+)$"  # Setext headings and thematic breaks
 )
+# Text that would be a link reference definition if a line ended after it. The title is
+# optional.
+DEFINITION_REGEX = re.compile(
+    r"(\[[^\]]{1,999}\]:\s*[^\s]+)"
+    r"(\s+(\"([^\"\\]|\\.)*\"|'([^'\\]|\\.)*')(?=\s|$))?"
+)
 INLINE_CODE_MARKER_REGEX = re.compile(r"(((?!<\\)`)+)")
 FOOTNOTE_REGEX = re.compile(r"[^\s\]\)]*\[[^\[]+\]\[[^\]]+\][^\s\[\(]*")
 HTML_NEWLINE_REGEX = re.compile(r"<br ?/?>")
@@ -33,13 +39,37 @@ def can_break(previous_word: str, word: str, leading_space: bool) -> bool:
     )
 
 
+def get_definition_lengths(text: str) -> List[int]:
+    """Get where text must not be split so that it doesn't become a definition
+
+    Args:
+        text: The text to evaluate
+
+    Returns:
+        The number of non-whitespace characters before each of these places
+    """
+    match = DEFINITION_REGEX.match(text)
+    if not match or match.end() == len(text):
+        return []
+    ends = [match.end(1), match.end()]
+    return [len("".join(text[:end].split())) for end in ends]
+
+
 def join(split_text: List[str], leading_spaces: List[bool], width: Number) -> str:
+    definition_lengths = get_definition_lengths(
+        "".join(
+            f" {word}" if leading_space else word
+            for word, leading_space in zip(split_text, leading_spaces)
+        )
+    )
     unbreakable_text: List[str] = []
     unbreakable_leading_spaces: List[bool] = []
     previous_word = ""
+    length = 0
     for word, leading_space in zip(split_text, leading_spaces):
         if unbreakable_text and (
             not can_break(previous_word, word, leading_space)
+            or length in definition_lengths
             # The first word would be another section if it were alone on its line
             or (
                 len(unbreakable_text) == 1
@@ -51,6 +81,7 @@ def join(split_text: List[str], leading_spaces: List[bool], width: Number) -> st
             unbreakable_text.append(word)
             unbreakable_leading_spaces.append(leading_space)
         previous_word = word
+        length += len("".join(word.split()))
 
     new_split_text = [""]
     for word, leading_space in zip(unbreakable_text, unbreakable_leading_spaces):
-- 
2.43.0


From c3515e6c2dd6e37644145cbfede8eb7eb9345643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:17 +0000
Subject: [PATCH 55/58] fix: keep the space between two links

---
 markflow/_utils/textwrap.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/markflow/_utils/textwrap.py b/markflow/_utils/textwrap.py
index 8a7842f..4b95eaa 100644
--- a/markflow/_utils/textwrap.py
+++ b/markflow/_utils/textwrap.py
@@ -234,7 +234,11 @@ def link_split(
             if not leading_spaces:
                 leading_spaces.append(leading_space)
             else:
-                leading_spaces.append(False)
+                # A space between two links is rendered. We only drop it when there is
+                # a word glued to the front of the second one.
+                leading_spaces.append(
+                    bool(non_link_text) and not match.group()[0].isalnum()
+                )
 
         leading_spaces.append(False)
         if "](" in match.group():
-- 
2.43.0


From a6777cc13bae9aa6fdd8cb0927de67b47d86b24e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:42 +0000
Subject: [PATCH 56/58] fix: treat tabs in indentation as stops of four columns

---
 markflow/_utils/_utils.py    |  6 +++++-
 markflow/detectors/_lines.py |  4 ++--
 markflow/formatters/lists.py | 32 ++++++++++++++++++++++++--------
 3 files changed, 31 insertions(+), 11 deletions(-)

diff --git a/markflow/_utils/_utils.py b/markflow/_utils/_utils.py
index 256c268..1ba5f64 100644
--- a/markflow/_utils/_utils.py
+++ b/markflow/_utils/_utils.py
@@ -6,6 +6,7 @@ from typing import Iterator
 from ..typing import Number
 
 __all__ = [
+    "TAB_STOP",
     "get_indent",
     "get_info_level",
     "get_nested_width",
@@ -15,6 +16,7 @@ __all__ = [
 ]
 
 ELLIPSIS = "..."
+TAB_STOP = 4
 
 # The level of informational logs is set for each thread on its own
 _thread_state = threading.local()
@@ -27,7 +29,9 @@ _unmuted_level = logging.NOTSET
 
 
 def get_indent(line: str) -> int:
-    return len(line) - len(line.lstrip())
+    """Return the number of columns before the text of a line"""
+    leading_space = line[: len(line) - len(line.lstrip())]
+    return len(leading_space.expandtabs(TAB_STOP))
 
 
 def get_nested_width(width: Number, indent: int) -> Number:
diff --git a/markflow/detectors/_lines.py b/markflow/detectors/_lines.py
index d795174..ebe8c8b 100644
--- a/markflow/detectors/_lines.py
+++ b/markflow/detectors/_lines.py
@@ -16,13 +16,13 @@ BULLET_LIST_START_REGEX = re.compile(
     r"*"  # Asterisk list marker
     r"+"  # Plus list marker
     r"-"  # Dash list marker
-    r"]( |$)"  # Lists need a space after their identifier unless the entry is empty
+    r"]( |\t|$)"  # Lists need a space after their identifier unless the entry is empty
 )
 ORDERED_LIST_START_REGEX = re.compile(
     r"^\s*"  # Leading spaces are OK and often expected
     r"("
     r"[0-9]{1,9}\."  # Numeric list marker
-    r")( |$)"  # Lists need a space after their identifier unless the entry is empty
+    r")( |\t|$)"  # Lists need a space after their identifier unless the entry is empty
 )
 THEMATIC_BREAK_CHARACTERS = ["*", "_", "-"]
 
diff --git a/markflow/formatters/lists.py b/markflow/formatters/lists.py
index 7a7a515..f42d8d1 100644
--- a/markflow/formatters/lists.py
+++ b/markflow/formatters/lists.py
@@ -8,6 +8,7 @@ import string
 from typing import List
 
 from .._utils import (
+    TAB_STOP,
     get_indent,
     get_nested_width,
     redirect_info_logs_to_debug,
@@ -25,7 +26,7 @@ MARKER_REGEX = re.compile(
     r"\+|"  # Plus list marker
     r"[0-9]{1,9}\."  # Numeric list marker
     r")"
-    r"($| )"  # End of line or space
+    r"($| |\t)"  # End of line, space, or tab
 )
 REPR_CONTENT_LEN = 20
 # Longer numbers aren't list markers
@@ -64,12 +65,27 @@ def _list_marker_end_pos(line: str) -> int:
     return match.end(1)
 
 
+def _list_marker_end_column(line: str) -> int:
+    """Return the number of columns before the end of a list marker"""
+    return get_indent(line) + _list_marker_end_pos(line.lstrip())
+
+
+def _dedent(line: str, columns: int) -> str:
+    """Remove up to that many columns of leading white space"""
+    column = 0
+    while column < columns and line[:1].isspace():
+        column += TAB_STOP - column % TAB_STOP if line[0] == "\t" else 1
+        line = line[1:]
+    # The rest of a tab
+    return (column - columns) * " " + line
+
+
 def _split_list(lines: List[str]) -> List[List[str]]:
     # The marker of the code block we are in
     code_block_marker = ""
 
     list_entries: List[List[str]] = []
-    max_indent = _list_marker_end_pos(lines[0])
+    max_indent = _list_marker_end_column(lines[0])
     for line in lines:
         in_code_block = bool(code_block_marker)
         if in_code_block:
@@ -91,7 +107,7 @@ def _split_list(lines: List[str]) -> List[List[str]]:
 
         if MARKER_REGEX.match(line) and not in_code_block:
             line_indent = get_indent(line)
-            list_indent = _list_marker_end_pos(line)
+            list_indent = _list_marker_end_column(line)
             if line_indent <= max_indent:
                 max_indent = list_indent
                 list_entries.append([line])
@@ -107,11 +123,11 @@ def _dedent_entries(list_entries: List[List[str]]) -> List[List[str]]:
     #  *read*
     dedented_entries: List[List[str]] = []
     for entry in list_entries:
-        indent = _list_marker_end_pos(entry[0]) + 1
-        dedented_entries.append([entry[0][indent:]])
-        for line in entry[1:]:
-            dedented_entry = line[:indent].lstrip() + line[indent:]
-            dedented_entries[-1].append(dedented_entry)
+        marker_end = _list_marker_end_column(entry[0])
+        first_line = marker_end * " " + entry[0][_list_marker_end_pos(entry[0]) :]
+        dedented_entries.append(
+            [_dedent(line, marker_end + 1) for line in [first_line] + entry[1:]]
+        )
     return dedented_entries
 
 
-- 
2.43.0


From 356be955c829c86a27792eb3fa50f40d40540074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:13 +0000
Subject: [PATCH 57/58] fix: don't turn text into a table by wrapping it

---
 markflow/_utils/textwrap.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/markflow/_utils/textwrap.py b/markflow/_utils/textwrap.py
index 4b95eaa..dfb69d1 100644
--- a/markflow/_utils/textwrap.py
+++ b/markflow/_utils/textwrap.py
@@ -9,6 +9,7 @@ BLOCK_START_REGEX = re.compile(
     r"|~~~|```+[^`]*$"  # Fenced code blocks
     r"|([*+-]|[0-9]+[.)])$"  # Lists
     r"|(=+|(- *)+|(\* *)+|(_ *)+)$"  # Setext headings and thematic breaks
+    r"|:?-[-:|]*$"  # Dividers of tables
 )
 # Text that would be a link reference definition if a line ended after it. The title is
 # optional.
-- 
2.43.0


From 55695f2b16695982e20f1e026f5fe6447b7bb6ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:16 +0000
Subject: [PATCH 58/58] fix: keep line breaks made by a backslash

---
 markflow/_utils/_utils.py       | 12 ++++++++++++
 markflow/_utils/textwrap.py     |  6 ++++--
 markflow/detectors/paragraph.py |  5 +++--
 3 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/markflow/_utils/_utils.py b/markflow/_utils/_utils.py
index 1ba5f64..3aafe52 100644
--- a/markflow/_utils/_utils.py
+++ b/markflow/_utils/_utils.py
@@ -7,6 +7,8 @@ from ..typing import Number
 
 __all__ = [
     "TAB_STOP",
+    "ends_with_backslash",
+    "ends_with_hard_break",
     "get_indent",
     "get_info_level",
     "get_nested_width",
@@ -28,6 +30,16 @@ _muting_count = 0
 _unmuted_level = logging.NOTSET
 
 
+def ends_with_backslash(text: str) -> bool:
+    """Indicates whether text ends with a backslash that isn't escaped"""
+    return (len(text) - len(text.rstrip("\\"))) % 2 == 1
+
+
+def ends_with_hard_break(line: str) -> bool:
+    """Indicates whether the text on the next line is rendered on a new line"""
+    return line.endswith("  ") or ends_with_backslash(line)
+
+
 def get_indent(line: str) -> int:
     """Return the number of columns before the text of a line"""
     leading_space = line[: len(line) - len(line.lstrip())]
diff --git a/markflow/_utils/textwrap.py b/markflow/_utils/textwrap.py
index dfb69d1..472baa7 100644
--- a/markflow/_utils/textwrap.py
+++ b/markflow/_utils/textwrap.py
@@ -1,6 +1,7 @@
 import re
 from typing import List, Tuple
 
+from markflow._utils import ends_with_backslash
 from markflow.typing import Number
 
 # Words that would be the start of another section if they were moved to a new line
@@ -28,9 +29,10 @@ def can_break(previous_word: str, word: str, leading_space: bool) -> bool:
 
     Breaking the line is the same as adding a space, so this can't be done between words
     that aren't separated by one, except for the places where it doesn't get rendered.
-    It also can't be done if the second one would no longer be text on a new line.
+    It also can't be done if the second one would no longer be text on a new line, or if
+    the first one would make the line break a rendered one.
     """
-    if BLOCK_START_REGEX.match(word):
+    if BLOCK_START_REGEX.match(word) or ends_with_backslash(previous_word):
         return False
     return bool(
         leading_space
diff --git a/markflow/detectors/paragraph.py b/markflow/detectors/paragraph.py
index aa111a3..8cf2832 100644
--- a/markflow/detectors/paragraph.py
+++ b/markflow/detectors/paragraph.py
@@ -1,5 +1,6 @@
 from typing import Generator, List, Tuple
 
+from .._utils import ends_with_hard_break
 from ._lines import (
     is_empty_list_entry_line,
     is_explicit_block_quote_line,
@@ -103,7 +104,7 @@ def split_paragraph_ignoring_setext(
     if is_paragraph_start_line(lines[0]):
         # ToDo: This should be handled in `wrap` as a double space is always a newline
         #  in any section type. Also add indents while you're there.
-        if lines[0].endswith("  "):
+        if ends_with_hard_break(lines[0]):
             return [lines[0]], lines[1:]
         paragraph_lines.append(lines[0])
         tail_lines_generator = list_tail_generator(lines[1:])
@@ -114,7 +115,7 @@ def split_paragraph_ignoring_setext(
                 paragraph_lines.append(tail[0])
                 # ToDo: This should be handled in `wrap` as a double space is always a
                 #  newline in any section type.
-                if tail[0].endswith("  "):
+                if ends_with_hard_break(tail[0]):
                     remaining_lines = next(tail_lines_generator, [])
                     break
             else:
-- 
2.43.0


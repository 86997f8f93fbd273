From b13128ab85f95f6262409ebfe631f8b38f767f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:45:32 +0000
Subject: [PATCH 01/20] fix: use a separate exit stack per document when fixing
 source files

The exit stack was shared by all documents of a pipeline, when processing
documents concurrently finishing one document removed the temporary source
file of the other documents.
---
 .../auto_annotate_figure.py                       |  8 +++-----
 .../auto_annotate_fulltext.py                     |  7 +++----
 .../auto_annotate_utils.py                        | 15 +++++++++------
 3 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/sciencebeam_trainer_grobid_tools/auto_annotate_figure.py b/sciencebeam_trainer_grobid_tools/auto_annotate_figure.py
index 8a14e86..d08d431 100644
--- a/sciencebeam_trainer_grobid_tools/auto_annotate_figure.py
+++ b/sciencebeam_trainer_grobid_tools/auto_annotate_figure.py
@@ -3,7 +3,7 @@ from __future__ import absolute_import
 import argparse
 import logging
 import os
-from contextlib import contextmanager
+from contextlib import ExitStack, contextmanager
 from tempfile import TemporaryDirectory
 from typing import Iterator, List
 
@@ -132,10 +132,8 @@ class AnnotatePipelineFactory(AbstractAnnotatePipelineFactory):
                 self.tag_to_tei_path_mapping[field] = 'note[@type="%s"]' % field
         self.annotator_config.use_sub_annotations = True
 
-    def get_final_source_url(self, source_url: str) -> str:
-        final_source_url_context = get_fixed_source_url(source_url)
-        self.file_exit_stack.push(final_source_url_context)
-        return final_source_url_context.__enter__()  # pylint: disable=no-member
+    def get_final_source_url(self, source_url: str, file_exit_stack: ExitStack) -> str:
+        return file_exit_stack.enter_context(get_fixed_source_url(source_url))
 
     def get_annotator(self, source_url: str):
         target_xml_path = self.get_target_xml_for_source_file(source_url)
diff --git a/sciencebeam_trainer_grobid_tools/auto_annotate_fulltext.py b/sciencebeam_trainer_grobid_tools/auto_annotate_fulltext.py
index 97bb52e..a12f682 100644
--- a/sciencebeam_trainer_grobid_tools/auto_annotate_fulltext.py
+++ b/sciencebeam_trainer_grobid_tools/auto_annotate_fulltext.py
@@ -2,6 +2,7 @@ from __future__ import absolute_import
 
 import argparse
 import logging
+from contextlib import ExitStack
 from typing import List
 
 from .core.annotation.annotator import AbstractAnnotator, Annotator
@@ -213,10 +214,8 @@ class AnnotatePipelineFactory(AbstractAnnotatePipelineFactory):
         self.expand_to_previous_untagged_lines = opt.expand_to_previous_untagged_lines
         self.expand_to_following_untagged_lines = opt.expand_to_following_untagged_lines
 
-    def get_final_source_url(self, source_url: str) -> str:
-        final_source_url_context = get_fixed_source_url(source_url)
-        self.file_exit_stack.push(final_source_url_context)
-        return final_source_url_context.__enter__()  # pylint: disable=no-member
+    def get_final_source_url(self, source_url: str, file_exit_stack: ExitStack) -> str:
+        return file_exit_stack.enter_context(get_fixed_source_url(source_url))
 
     def get_annotator(self, source_url: str):
         target_xml_path = self.get_target_xml_for_source_file(source_url)
diff --git a/sciencebeam_trainer_grobid_tools/auto_annotate_utils.py b/sciencebeam_trainer_grobid_tools/auto_annotate_utils.py
index 4666bd2..21c01ff 100644
--- a/sciencebeam_trainer_grobid_tools/auto_annotate_utils.py
+++ b/sciencebeam_trainer_grobid_tools/auto_annotate_utils.py
@@ -599,7 +599,6 @@ class AbstractAnnotatePipelineFactory(ABC):
                 line_number_ratio_threshold=opt.min_line_number_ratio,
             )
         )
-        self.file_exit_stack = ExitStack()
 
     @abstractmethod
     def get_annotator(self, source_url: str):
@@ -642,17 +641,21 @@ class AbstractAnnotatePipelineFactory(ABC):
             target_annotations=target_annotations
         )
 
-    def get_final_source_url(self, source_url: str) -> str:
+    def get_final_source_url(
+            self,
+            source_url: str,
+            file_exit_stack: ExitStack) -> str:  # pylint: disable=unused-argument
         return source_url
 
     def auto_annotate(self, source_url: str):
-        with self.file_exit_stack:
-            self._auto_annotate(source_url)
+        # using a separate exit stack per document, documents may be processed concurrently
+        with ExitStack() as file_exit_stack:
+            self._auto_annotate(source_url, file_exit_stack)
 
-    def _auto_annotate(self, source_url: str):
+    def _auto_annotate(self, source_url: str, file_exit_stack: ExitStack):
         try:
             output_xml_path = self.get_tei_xml_output_file_for_source_file(source_url)
-            final_source_url = self.get_final_source_url(source_url)
+            final_source_url = self.get_final_source_url(source_url, file_exit_stack)
             annotator = self.get_annotator(final_source_url)
             annotate_structured_document(
                 final_source_url,
-- 
2.43.0


From 17b97004e5265ef90ea28c499430eac123066278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:45:59 +0000
Subject: [PATCH 02/20] fix: make the line number gap and ratio options
 effective

--max-line-number-gap was accepted but never passed to the annotator,
--min-line-number-ratio was parsed as str and failed when compared.
---
 sciencebeam_trainer_grobid_tools/auto_annotate_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sciencebeam_trainer_grobid_tools/auto_annotate_utils.py b/sciencebeam_trainer_grobid_tools/auto_annotate_utils.py
index 21c01ff..4e5e0ea 100644
--- a/sciencebeam_trainer_grobid_tools/auto_annotate_utils.py
+++ b/sciencebeam_trainer_grobid_tools/auto_annotate_utils.py
@@ -237,7 +237,7 @@ def add_annotation_pipeline_arguments(
         ])
     )
     line_no_group.add_argument(
-        '--min-line-number-ratio', type=str,
+        '--min-line-number-ratio', type=float,
         default=DEFAULT_LINE_NUMBER_RATIO_THRESHOLD,
         help=' '.join([
             'minimum ratio of line number candidates vs non-line number tokens',
@@ -596,6 +596,7 @@ class AbstractAnnotatePipelineFactory(ABC):
             use_line_number_annotator=opt.use_line_number_annotator,
             line_number_annotator_config=TextLineNumberAnnotatorConfig(
                 min_line_number=opt.min_line_numbers_per_page,
+                max_line_number_gap=opt.max_line_number_gap,
                 line_number_ratio_threshold=opt.min_line_number_ratio,
             )
         )
-- 
2.43.0


From c88d4a55ac51c3be36a1fbd29df976319fb69d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:46:07 +0000
Subject: [PATCH 03/20] fix: report the unrecognised root tag instead of
 failing with an AttributeError

The xml mapping is a dict and does not have a sections method.
---
 .../annotation/target_annotation.py                             | 2 +-
 .../core/annotation/target_annotation.py                        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sciencebeam_trainer_grobid_tools/annotation/target_annotation.py b/sciencebeam_trainer_grobid_tools/annotation/target_annotation.py
index 35ff79e..d57ab13 100644
--- a/sciencebeam_trainer_grobid_tools/annotation/target_annotation.py
+++ b/sciencebeam_trainer_grobid_tools/annotation/target_annotation.py
@@ -78,7 +78,7 @@ def is_wildcard_children_xpaths(children_xpaths: List[str]) -> bool:
 def xml_root_to_target_annotations(xml_root, xml_mapping):
     if xml_root.tag not in xml_mapping:
         raise Exception("unrecognised tag: {} (available: {})".format(
-            xml_root.tag, xml_mapping.sections())
+            xml_root.tag, list(xml_mapping.keys()))
         )
 
     mapping = xml_mapping[xml_root.tag]
diff --git a/sciencebeam_trainer_grobid_tools/core/annotation/target_annotation.py b/sciencebeam_trainer_grobid_tools/core/annotation/target_annotation.py
index 9b9449a..e53e338 100644
--- a/sciencebeam_trainer_grobid_tools/core/annotation/target_annotation.py
+++ b/sciencebeam_trainer_grobid_tools/core/annotation/target_annotation.py
@@ -330,7 +330,7 @@ def extract_sub_annotations(parent_node, sub_xpaths, mapping, parent_key):
 def xml_root_to_target_annotations(xml_root, xml_mapping):
     if xml_root.tag not in xml_mapping:
         raise Exception("unrecognised tag: {} (available: {})".format(
-            xml_root.tag, xml_mapping.sections())
+            xml_root.tag, list(xml_mapping.keys()))
         )
 
     mapping = xml_mapping[xml_root.tag]
-- 
2.43.0


From f184db2e5a5fb7354f3d2957cfeb8912ab2ab1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:47:06 +0000
Subject: [PATCH 04/20] fix: do not repeat preceding lines when removing
 untagged tokens

The list of tokens to keep was shared by all of the lines, every line of a
multi-line document included the tokens of all of the lines.
---
 .../structured_document/grobid_training_tei.py                  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py b/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py
index 42754dc..1c480d3 100644
--- a/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py
+++ b/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py
@@ -706,9 +706,9 @@ class GrobidTrainingTeiStructuredDocument(AbstractStructuredDocument):
 
     def remove_all_untagged(self):
         updated_lines = []
-        current_result_line_tokens = []
         output_enabled = True
         for line in self._lines:
+            current_result_line_tokens = []
             for token in line.tokens:
                 if isinstance(token, TeiSpace):
                     if output_enabled:
-- 
2.43.0


From 9b447845a0460663cc571e7b98ce1f808d730bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:47:13 +0000
Subject: [PATCH 05/20] fix: do not repeat the text of additional container
 nodes

The lines are read from all container nodes, but only the first container
node was cleared before writing all of the lines to it.
---
 .../structured_document/grobid_training_tei.py       | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py b/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py
index 1c480d3..56b7400 100644
--- a/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py
+++ b/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py
@@ -538,14 +538,16 @@ def _updated_tei_with_lines(
         container_node_path: str = 'text/front',
         namespaces: Dict[str, str] = None):
     updated_root = copy.deepcopy(original_root)
-    container_node = updated_root.find(container_node_path, namespaces=namespaces)
-    get_logger().debug('container_node: %s', container_node)
-    if container_node is None:
+    container_nodes = updated_root.findall(container_node_path, namespaces=namespaces)
+    get_logger().debug('container_nodes: %s', container_nodes)
+    if not container_nodes:
         raise RuntimeError('container node path not found: %s (namespaces=%s) (has %s)' % (
             container_node_path, namespaces, list(updated_root)
         ))
-    container_node.clear()
-    _lines_to_tei(container_node, lines, tag_to_tei_path_mapping)
+    # the lines include the text of all container nodes
+    for container_node in container_nodes:
+        container_node.clear()
+    _lines_to_tei(container_nodes[0], lines, tag_to_tei_path_mapping)
     return updated_root
 
 
-- 
2.43.0


From ad1fbeb021ca47c01cbf1ffa3b8110a44391eaa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:47:35 +0000
Subject: [PATCH 06/20] fix: restore the original tags after annotating sub
 tags only

The saved tag was replaced by the current tag, an explicitly set tag was
cleared before annotating sub tags and not restored afterwards.
---
 sciencebeam_trainer_grobid_tools/annotation/sub_tag_annotator.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/sciencebeam_trainer_grobid_tools/annotation/sub_tag_annotator.py b/sciencebeam_trainer_grobid_tools/annotation/sub_tag_annotator.py
index e214e7b..f103867 100644
--- a/sciencebeam_trainer_grobid_tools/annotation/sub_tag_annotator.py
+++ b/sciencebeam_trainer_grobid_tools/annotation/sub_tag_annotator.py
@@ -43,7 +43,6 @@ class SubTagOnlyAnnotator(SimpleMatchingAnnotator):
         super().annotate(structured_document)
         # restore original tags (but now with auto-annotated sub-tags)
         for token, preserved_tag in token_preserved_tags:
-            preserved_tag = structured_document.get_tag_or_preserved_tag(token)
             LOGGER.debug('restoring preserved tag: %r -> %r', token, preserved_tag)
             structured_document.set_tag_only(token, preserved_tag)
         return structured_document
-- 
2.43.0


From e4f9da6fcdaa625b12ac386dbde6b09f660b6538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:48:04 +0000
Subject: [PATCH 07/20] fix: close the requested element after closing its
 unclosed children

Text following the end tag was moved inside the element that should have been closed.
---
 sciencebeam_trainer_grobid_tools/utils/xml.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sciencebeam_trainer_grobid_tools/utils/xml.py b/sciencebeam_trainer_grobid_tools/utils/xml.py
index 9c76fed..f684942 100644
--- a/sciencebeam_trainer_grobid_tools/utils/xml.py
+++ b/sciencebeam_trainer_grobid_tools/utils/xml.py
@@ -207,6 +207,7 @@ class FixingHtmlParser(HTMLParser):
                 tag, self._current_tag
             )
             self._close_current_element()
+        self._close_current_element()
 
     def handle_data(self, data):
         LOGGER.debug('endtag: data=%r', data)
-- 
2.43.0


From 9a63791427472f6cdc43467d1e0c07c25736e224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:48:04 +0000
Subject: [PATCH 08/20] fix: support attributes without value when fixing xml

quoteattr failed because the html parser is passing None for those attributes.
---
 sciencebeam_trainer_grobid_tools/utils/xml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sciencebeam_trainer_grobid_tools/utils/xml.py b/sciencebeam_trainer_grobid_tools/utils/xml.py
index f684942..523f7f2 100644
--- a/sciencebeam_trainer_grobid_tools/utils/xml.py
+++ b/sciencebeam_trainer_grobid_tools/utils/xml.py
@@ -173,7 +173,7 @@ class FixingHtmlParser(HTMLParser):
         LOGGER.debug('starttag: tag=%r, attrs=%s', tag, attrs)
         self.buffer.write(f'<{tag}')
         for key, value in attrs:
-            quoted_value = xml.sax.saxutils.quoteattr(value)
+            quoted_value = xml.sax.saxutils.quoteattr(value or '')
             self.buffer.write(f' {key}={quoted_value}')
         self.buffer.write('>')
         self.tag_stack.append(tag)
-- 
2.43.0


From 7214f92fca6f2c3ec3eaea00ff45d922ae3d0472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:48:04 +0000
Subject: [PATCH 09/20] fix: support xml with encoding declaration when fixing
 xml

lxml raises a ValueError for unicode strings with an encoding declaration,
the full text could not be annotated for valid documents having one.
---
 sciencebeam_trainer_grobid_tools/utils/xml.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sciencebeam_trainer_grobid_tools/utils/xml.py b/sciencebeam_trainer_grobid_tools/utils/xml.py
index 523f7f2..211a60d 100644
--- a/sciencebeam_trainer_grobid_tools/utils/xml.py
+++ b/sciencebeam_trainer_grobid_tools/utils/xml.py
@@ -222,7 +222,8 @@ class FixingHtmlParser(HTMLParser):
 def get_fixed_xml_str(xml_str: str) -> str:
     try:
         # return passed in xml if it is valid
-        etree.fromstring(xml_str)
+        # (lxml does not support encoding declarations in unicode strings)
+        etree.fromstring(xml_str.encode('utf-8'))
         LOGGER.debug('passed in xml is valid, returning as is')
         return xml_str
     except etree.XMLSyntaxError:
-- 
2.43.0


From 8309559a25849aa9098256f2258b478acb24bf10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:29 +0000
Subject: [PATCH 10/20] fix: look for the right double quote matching a left
 double quote

The left quote was moved out of the title although the title included the
matching right quote.
---
 sciencebeam_trainer_grobid_tools/fix_jats_xml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sciencebeam_trainer_grobid_tools/fix_jats_xml.py b/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
index f3b4917..f34a1f1 100644
--- a/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
+++ b/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
@@ -72,7 +72,7 @@ LEFT_QUOTE_CHARS = {'"', SpecialChars.LSQUO, SpecialChars.LDQUO}
 RIGHT_BY_LEFT_QUOTE_CHAR = {
     '"': '"',
     SpecialChars.LSQUO: SpecialChars.RSQUO,
-    SpecialChars.LDQUO: SpecialChars.RSQUO
+    SpecialChars.LDQUO: SpecialChars.RDQUO
 }
 
 
-- 
2.43.0


From ef14d80e87aeb1298d5aecd60e1e98a7e586024c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:29 +0000
Subject: [PATCH 11/20] fix: keep children and text following the replaced
 element

Removing the element also removed its tail and children.
---
 sciencebeam_trainer_grobid_tools/fix_jats_xml.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sciencebeam_trainer_grobid_tools/fix_jats_xml.py b/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
index f34a1f1..bc42358 100644
--- a/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
+++ b/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
@@ -222,6 +222,9 @@ def add_text_to_tail_prefix(current: etree.Element, text: str):
 
 def replace_element_with_text(current: etree.Element, text: str):
     add_text_to_previous(current, text)
+    for child in list(current):
+        current.addprevious(child)
+    add_text_to_previous(current, current.tail or '')
     current.getparent().remove(current)
 
 
-- 
2.43.0


From 6005937ec43ff684efa112b283a343d02c9be2f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:29 +0000
Subject: [PATCH 12/20] fix: do not move text past the children of the
 annotated element

The text following the match was moved after the element, changing the
order of the text if the element has got children.
---
 sciencebeam_trainer_grobid_tools/fix_jats_xml.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sciencebeam_trainer_grobid_tools/fix_jats_xml.py b/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
index bc42358..d78cd83 100644
--- a/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
+++ b/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
@@ -416,6 +416,9 @@ def change_annotation_to_matching_text(
         replace_element_with_text(element, text)
         return
     start, end = start_end
+    if len(element):
+        # do not move text past the children
+        end = len(text)
     matching_text = text[start:end]
     LOGGER.debug('matching: %s (%r, %s)', start_end, matching_text, find_start_end_fn.__name__)
     element.text = matching_text
-- 
2.43.0


From 93d996c7e331d7bbb073a54af32d6c17eca5a79f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:29 +0000
Subject: [PATCH 13/20] fix: keep the order of the text when adding a sibling
 element

The new element was inserted after the tail (and children) of the element
the text was taken from.
---
 sciencebeam_trainer_grobid_tools/fix_jats_xml.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sciencebeam_trainer_grobid_tools/fix_jats_xml.py b/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
index d78cd83..1b221d2 100644
--- a/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
+++ b/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
@@ -233,6 +233,9 @@ def add_next_sibling_element(element: etree.Element, new_element: etree.Element)
         element.getparent().index(element) + 1,
         new_element
     )
+    # the tail of the element should follow the new element
+    new_element.tail = (new_element.tail or '') + (element.tail or '')
+    element.tail = None
 
 
 def add_next_sibling_elements(element: etree.Element, new_elements: List[etree.Element]):
@@ -454,7 +457,7 @@ def add_annotation_to_element_text_if_matching(
         create_element_fn(matching_text),
         tail=text[end:]
     )
-    if as_next_sibling:
+    if as_next_sibling and not len(element):
         add_next_sibling_element(element, new_element)
     else:
         element.insert(0, new_element)
@@ -545,7 +548,7 @@ def split_url(url: str) -> List[str]:
 def fix_ext_link(reference_element: etree.Element):
     for child_element in list(reference_element.xpath(JatsXpaths.EXT_LINK)):
         text = child_element.text
-        if not text:
+        if not text or len(child_element):
             continue
         href = child_element.attrib.get(XLINK_HREF)
         hrefs = split_url(text)
-- 
2.43.0


From 0ae964b0b8116c43be5366cbbb9aba8646d4eb66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:29 +0000
Subject: [PATCH 14/20] fix: do not fail for doi without preceding text or
 without direct text

The reference could not be fixed if the doi was the first node, and the
text of nested elements was lost.
---
 sciencebeam_trainer_grobid_tools/fix_jats_xml.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sciencebeam_trainer_grobid_tools/fix_jats_xml.py b/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
index 1b221d2..4d0e98d 100644
--- a/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
+++ b/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
@@ -630,13 +630,15 @@ def fix_doi(reference_element: etree.Element):
 def replace_doi_annotation_with_ext_link_if_url(reference_element: etree.Element):
     for doi_element in reference_element.xpath(JatsXpaths.DOI):
         previous_text = get_previous_text(doi_element)
+        if not previous_text:
+            continue
         start_end = find_doi_url_prefix_valid_start_end(previous_text)
         if not start_end:
             LOGGER.debug('not matching doi url prefix: %r', previous_text)
             continue
         start, _ = start_end
         matching_doi_url_prefix = previous_text[start:]
-        doi_url = matching_doi_url_prefix + doi_element.text
+        doi_url = matching_doi_url_prefix + get_text_content(doi_element)
         LOGGER.debug('matching doi url prefix: %s (%r)', start_end, matching_doi_url_prefix)
         set_previous_text(doi_element, previous_text[:start])
         doi_element.getparent().replace(
-- 
2.43.0


From ce52ab8feac331c5f6dc7f3d5fc5c08d8dd5ce1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:30 +0000
Subject: [PATCH 15/20] fix: return chunked matching blocks relative to the
 haystack

The chunked matching blocks (and the blocks used to calculate the ratio)
were relative to the window rather than the haystack, resulting in
unrelated text to be annotated.
---
 sciencebeam_trainer_grobid_tools/utils/fuzzy.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/sciencebeam_trainer_grobid_tools/utils/fuzzy.py b/sciencebeam_trainer_grobid_tools/utils/fuzzy.py
index 4596f99..a61b58a 100644
--- a/sciencebeam_trainer_grobid_tools/utils/fuzzy.py
+++ b/sciencebeam_trainer_grobid_tools/utils/fuzzy.py
@@ -392,6 +392,8 @@ def get_str_left_strided_matching_blocks_chunks(
         ):
             start_index += stride
             continue
+        # the matching blocks are relative to the window, make them relative to the haystack
+        matching_blocks = get_offset_matching_blocks(matching_blocks, a_offset=start_index)
         if (
             get_matching_blocks_b_gap_ratio(
                 haystack, needle, matching_blocks, isjunk=isjunk
@@ -456,12 +458,7 @@ def get_str_left_strided_matching_blocks_chunks(
                 )
                 for remaining_matching_blocks in remaining_matching_blocks_chunks
             ]
-        if not start_index:
-            return [matching_blocks]
-        return [[
-            (ai + start_index, bi, size)
-            for ai, bi, size in matching_blocks
-        ]]
+        return [matching_blocks]
     return []
 
 
-- 
2.43.0


From 5ce1c3b0455a2c0fb284afcb1510e5bf7006e945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:30 +0000
Subject: [PATCH 16/20] fix: search for the remaining needle after the first
 matching chunk

The offset within the needle was used as an offset within the haystack,
resulting in the remaining text to match text before the first chunk.
---
 sciencebeam_trainer_grobid_tools/utils/fuzzy.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sciencebeam_trainer_grobid_tools/utils/fuzzy.py b/sciencebeam_trainer_grobid_tools/utils/fuzzy.py
index a61b58a..391f026 100644
--- a/sciencebeam_trainer_grobid_tools/utils/fuzzy.py
+++ b/sciencebeam_trainer_grobid_tools/utils/fuzzy.py
@@ -425,7 +425,9 @@ def get_str_left_strided_matching_blocks_chunks(
                     first_chunk_matching_blocks, 1
                 )
                 remaining_needle = needle[first_chunk_needle_end:]
-                remaining_start_index = start_index + first_chunk_needle_end
+                remaining_start_index = get_matching_blocks_end_offset(
+                    first_chunk_matching_blocks, 0
+                )
             else:
                 assert last_chunk_matching_blocks
                 first_chunk_needle_start = get_required_matching_blocks_start_offset(
-- 
2.43.0


From a2ad62ac4429d7ca363f41bdd1dd95ae2a0564ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:18 +0000
Subject: [PATCH 17/20] fix: keep token index when matching sub annotations in
 lower case

Converting the joined text to lower case may change its length, the
index ranges would then select the wrong tokens.
---
 .../annotation/simple_matching_annotator.py                | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sciencebeam_trainer_grobid_tools/annotation/simple_matching_annotator.py b/sciencebeam_trainer_grobid_tools/annotation/simple_matching_annotator.py
index 90a53ca..3d67f3b 100644
--- a/sciencebeam_trainer_grobid_tools/annotation/simple_matching_annotator.py
+++ b/sciencebeam_trainer_grobid_tools/annotation/simple_matching_annotator.py
@@ -526,8 +526,11 @@ class SimpleMatchingAnnotator(AbstractAnnotator):
         LOGGER.debug('processing sub annotations: %s', sub_annotations)
         tokens = list(text.iter_tokens_between(index_range))
         LOGGER.debug('sub_tokens: %s', tokens)
-        sub_text = SequencesText([SequenceWrapper(structured_document, tokens)])
-        sub_text_str = str(sub_text).lower()
+        # converting each token (rather than the joined text) to keep the index of the tokens
+        sub_text = SequencesText([
+            SequenceWrapper(structured_document, tokens, str_filter_f=str.lower)
+        ])
+        sub_text_str = str(sub_text)
         LOGGER.debug('sub_text_str: %r', sub_text_str)
         for sub_annotation in sub_annotations:
             sub_tag_name = sub_annotation.name
-- 
2.43.0


From f70bd4081664e42e81d40e62432f62851eb7e44f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:08 +0000
Subject: [PATCH 18/20] fix: keep the text following the container element in
 place

---
 .../structured_document/grobid_training_tei.py              | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py b/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py
index 56b7400..23c545f 100644
--- a/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py
+++ b/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py
@@ -314,7 +314,9 @@ def _iter_extract_lines_from_element(
         line_buffer.reset_next_tag()
     else:
         line_buffer.reset_next_sub_tag()
-    line_buffer.append_text(parent_element.tail)
+    if current_path:
+        # the text following the container element is not part of it
+        line_buffer.append_text(parent_element.tail)
 
 
 def _iter_extract_lines_from_container_elements(
@@ -546,7 +548,7 @@ def _updated_tei_with_lines(
         ))
     # the lines include the text of all container nodes
     for container_node in container_nodes:
-        container_node.clear()
+        container_node.clear(keep_tail=True)
     _lines_to_tei(container_nodes[0], lines, tag_to_tei_path_mapping)
     return updated_root
 
-- 
2.43.0


From 8810298d70a1c6a5e8d607ba85a152c3e60d811e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:26 +0000
Subject: [PATCH 19/20] fix: keep the attributes of the container element

---
 .../structured_document/grobid_training_tei.py                  | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py b/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py
index 23c545f..3ce2232 100644
--- a/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py
+++ b/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py
@@ -548,7 +548,9 @@ def _updated_tei_with_lines(
         ))
     # the lines include the text of all container nodes
     for container_node in container_nodes:
+        container_attrib = dict(container_node.attrib)
         container_node.clear(keep_tail=True)
+        container_node.attrib.update(container_attrib)
     _lines_to_tei(container_nodes[0], lines, tag_to_tei_path_mapping)
     return updated_root
 
-- 
2.43.0


From 32844472b1e7aacdb6c474c9a6cd52303d53ce16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:27 +0000
Subject: [PATCH 20/20] fix: release the worker threads if copying a file fails

---
 .../download_source_files.py                  | 28 +++++++++----------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/sciencebeam_trainer_grobid_tools/download_source_files.py b/sciencebeam_trainer_grobid_tools/download_source_files.py
index 1b61985..c499243 100644
--- a/sciencebeam_trainer_grobid_tools/download_source_files.py
+++ b/sciencebeam_trainer_grobid_tools/download_source_files.py
@@ -331,21 +331,21 @@ def run(args):
     LOGGER.debug('target_output_file_list: %s', target_output_file_list)
 
     pool = ThreadPool(args.threads)
+    try:
+        copy_files(
+            document_file_list.absolute_file_list,
+            document_output_file_list.absolute_file_list,
+            pool=pool
+        )
 
-    copy_files(
-        document_file_list.absolute_file_list,
-        document_output_file_list.absolute_file_list,
-        pool=pool
-    )
-
-    copy_files(
-        target_file_list.absolute_file_list,
-        target_output_file_list.absolute_file_list,
-        pool=pool
-    )
-
-    pool.close()
-    pool.join()
+        copy_files(
+            target_file_list.absolute_file_list,
+            target_output_file_list.absolute_file_list,
+            pool=pool
+        )
+    finally:
+        pool.close()
+        pool.join()
 
 
 def main(argv=None):
-- 
2.43.0


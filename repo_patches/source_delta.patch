From ff04138f83b57c04f698e63bc06fb54c642866c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:17 +0000
Subject: [PATCH 01/15] fix: do not share the exit stack of temporary source
 files between worker threads

---
 .../auto_annotate_figure.py                      |  8 +++-----
 .../auto_annotate_fulltext.py                    |  7 +++----
 .../auto_annotate_utils.py                       | 16 ++++++++++------
 3 files changed, 16 insertions(+), 15 deletions(-)

diff --git a/sciencebeam_trainer_grobid_tools/auto_annotate_figure.py b/sciencebeam_trainer_grobid_tools/auto_annotate_figure.py
index 8a14e86..d08d431 100644
--- a/sciencebeam_trainer_grobid_tools/auto_annotate_figure.py
+++ b/sciencebeam_trainer_grobid_tools/auto_annotate_figure.py
@@ -3,7 +3,7 @@ from __future__ import absolute_import
 import argparse
 import logging
 import os
-from contextlib import contextmanager
+from contextlib import ExitStack, contextmanager
 from tempfile import TemporaryDirectory
 from typing import Iterator, List
 
@@ -132,10 +132,8 @@ class AnnotatePipelineFactory(AbstractAnnotatePipelineFactory):
                 self.tag_to_tei_path_mapping[field] = 'note[@type="%s"]' % field
         self.annotator_config.use_sub_annotations = True
 
-    def get_final_source_url(self, source_url: str) -> str:
-        final_source_url_context = get_fixed_source_url(source_url)
-        self.file_exit_stack.push(final_source_url_context)
-        return final_source_url_context.__enter__()  # pylint: disable=no-member
+    def get_final_source_url(self, source_url: str, file_exit_stack: ExitStack) -> str:
+        return file_exit_stack.enter_context(get_fixed_source_url(source_url))
 
     def get_annotator(self, source_url: str):
         target_xml_path = self.get_target_xml_for_source_file(source_url)
diff --git a/sciencebeam_trainer_grobid_tools/auto_annotate_fulltext.py b/sciencebeam_trainer_grobid_tools/auto_annotate_fulltext.py
index 97bb52e..a12f682 100644
--- a/sciencebeam_trainer_grobid_tools/auto_annotate_fulltext.py
+++ b/sciencebeam_trainer_grobid_tools/auto_annotate_fulltext.py
@@ -2,6 +2,7 @@ from __future__ import absolute_import
 
 import argparse
 import logging
+from contextlib import ExitStack
 from typing import List
 
 from .core.annotation.annotator import AbstractAnnotator, Annotator
@@ -213,10 +214,8 @@ class AnnotatePipelineFactory(AbstractAnnotatePipelineFactory):
         self.expand_to_previous_untagged_lines = opt.expand_to_previous_untagged_lines
         self.expand_to_following_untagged_lines = opt.expand_to_following_untagged_lines
 
-    def get_final_source_url(self, source_url: str) -> str:
-        final_source_url_context = get_fixed_source_url(source_url)
-        self.file_exit_stack.push(final_source_url_context)
-        return final_source_url_context.__enter__()  # pylint: disable=no-member
+    def get_final_source_url(self, source_url: str, file_exit_stack: ExitStack) -> str:
+        return file_exit_stack.enter_context(get_fixed_source_url(source_url))
 
     def get_annotator(self, source_url: str):
         target_xml_path = self.get_target_xml_for_source_file(source_url)
diff --git a/sciencebeam_trainer_grobid_tools/auto_annotate_utils.py b/sciencebeam_trainer_grobid_tools/auto_annotate_utils.py
index 4666bd2..ed58d20 100644
--- a/sciencebeam_trainer_grobid_tools/auto_annotate_utils.py
+++ b/sciencebeam_trainer_grobid_tools/auto_annotate_utils.py
@@ -599,7 +599,6 @@ class AbstractAnnotatePipelineFactory(ABC):
                 line_number_ratio_threshold=opt.min_line_number_ratio,
             )
         )
-        self.file_exit_stack = ExitStack()
 
     @abstractmethod
     def get_annotator(self, source_url: str):
@@ -642,17 +641,22 @@ class AbstractAnnotatePipelineFactory(ABC):
             target_annotations=target_annotations
         )
 
-    def get_final_source_url(self, source_url: str) -> str:
+    def get_final_source_url(
+            self,
+            source_url: str,
+            file_exit_stack: ExitStack) -> str:  # pylint: disable=unused-argument
         return source_url
 
     def auto_annotate(self, source_url: str):
-        with self.file_exit_stack:
-            self._auto_annotate(source_url)
+        # the exit stack belongs to a single source file,
+        # it must not be shared between worker threads
+        with ExitStack() as file_exit_stack:
+            self._auto_annotate(source_url, file_exit_stack)
 
-    def _auto_annotate(self, source_url: str):
+    def _auto_annotate(self, source_url: str, file_exit_stack: ExitStack):
         try:
             output_xml_path = self.get_tei_xml_output_file_for_source_file(source_url)
-            final_source_url = self.get_final_source_url(source_url)
+            final_source_url = self.get_final_source_url(source_url, file_exit_stack)
             annotator = self.get_annotator(final_source_url)
             annotate_structured_document(
                 final_source_url,
-- 
2.43.0


From 9d4e1f4b2304868d944a467449c51817b1d063af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:23 +0000
Subject: [PATCH 02/15] fix: remove_all_untagged repeated the tokens of
 previous lines

---
 .../structured_document/grobid_training_tei.py                  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py b/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py
index 42754dc..1c480d3 100644
--- a/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py
+++ b/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py
@@ -706,9 +706,9 @@ class GrobidTrainingTeiStructuredDocument(AbstractStructuredDocument):
 
     def remove_all_untagged(self):
         updated_lines = []
-        current_result_line_tokens = []
         output_enabled = True
         for line in self._lines:
+            current_result_line_tokens = []
             for token in line.tokens:
                 if isinstance(token, TeiSpace):
                     if output_enabled:
-- 
2.43.0


From c1ed142a8a394166fd8b08c230bf80eb05696a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:47 +0000
Subject: [PATCH 03/15] fix: decompress local compressed input files the same
 way as remote ones

---
 sciencebeam_trainer_grobid_tools/utils/io.py | 22 ++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/sciencebeam_trainer_grobid_tools/utils/io.py b/sciencebeam_trainer_grobid_tools/utils/io.py
index b6756ad..02d2522 100644
--- a/sciencebeam_trainer_grobid_tools/utils/io.py
+++ b/sciencebeam_trainer_grobid_tools/utils/io.py
@@ -6,12 +6,26 @@ from shutil import copyfileobj
 from tempfile import TemporaryDirectory
 from typing import BinaryIO, Callable, Iterator, Union
 
+from apache_beam.io.filesystem import CompressionTypes
 from apache_beam.io.filesystems import FileSystems
 
 
 T_BinaryIO_Open_Function = Callable[[], BinaryIO]
 
 
+def is_compressed_filename(filename: str) -> bool:
+    return (
+        CompressionTypes.detect_compression_type(filename)
+        != CompressionTypes.UNCOMPRESSED
+    )
+
+
+def strip_compression_ext(filename: str) -> str:
+    if is_compressed_filename(filename):
+        return os.path.splitext(filename)[0]
+    return filename
+
+
 @contextmanager
 def auto_download_input_file(
     file_url_or_open_fn: Union[str, T_BinaryIO_Open_Function]
@@ -23,12 +37,16 @@ def auto_download_input_file(
     else:
         open_fn = file_url_or_open_fn
 
-    if file_url and '://' not in file_url:
+    if file_url and '://' not in file_url and not is_compressed_filename(file_url):
         yield file_url
         return
     with TemporaryDirectory(suffix='-input') as temp_dir:
         if file_url:
-            temp_file = os.path.join(temp_dir, os.path.basename(file_url))
+            # Note: FileSystems.open transparently handles compression based on the file extension
+            temp_file = os.path.join(
+                temp_dir,
+                strip_compression_ext(os.path.basename(file_url))
+            )
             open_fn = partial(FileSystems.open, file_url)
         else:
             temp_file = os.path.join(temp_dir, 'temp.file')
-- 
2.43.0


From 2545f142ac69465eebcdad620f03188ca9ab85de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:12 +0000
Subject: [PATCH 04/15] fix: only publish output files once they are complete

---
 .../download_source_files.py                  |  4 ++-
 .../fix_jats_xml.py                           |  8 +++--
 .../grobid_training_tei.py                    |  7 ++--
 sciencebeam_trainer_grobid_tools/utils/io.py  | 35 ++++++++++++++++++-
 4 files changed, 44 insertions(+), 10 deletions(-)

diff --git a/sciencebeam_trainer_grobid_tools/download_source_files.py b/sciencebeam_trainer_grobid_tools/download_source_files.py
index 1b61985..4be6eb9 100644
--- a/sciencebeam_trainer_grobid_tools/download_source_files.py
+++ b/sciencebeam_trainer_grobid_tools/download_source_files.py
@@ -15,6 +15,8 @@ from sciencebeam_utils.utils.file_list import (
 
 from sciencebeam_utils.tools.check_file_list import map_file_list_to_file_exists
 
+from .utils.io import create_output_file
+
 
 LOGGER = logging.getLogger(__name__)
 
@@ -249,7 +251,7 @@ def copy_file(source_filename, output_filename):
     )
     with FileSystems.open(source_filename) as source_fp:
         mkdirs_if_not_exists(os.path.dirname(output_filename))
-        with FileSystems.create(output_filename) as output_fp:
+        with create_output_file(output_filename) as output_fp:
             copyfileobj(source_fp, output_fp)
 
 
diff --git a/sciencebeam_trainer_grobid_tools/fix_jats_xml.py b/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
index f3b4917..db64c8c 100644
--- a/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
+++ b/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
@@ -16,7 +16,6 @@ from sciencebeam_utils.beam_utils.main import (
     add_cloud_args,
     process_cloud_args
 )
-from sciencebeam_utils.beam_utils.io import save_file_content
 
 from sciencebeam_utils.utils.file_path import (
     relative_path
@@ -32,7 +31,10 @@ from sciencebeam_utils.utils.file_list import load_file_list
 from sciencebeam_utils.utils.progress_logger import logging_tqdm
 
 from sciencebeam_trainer_grobid_tools.utils.xml import parse_xml
-from sciencebeam_trainer_grobid_tools.utils.io import auto_download_input_file
+from sciencebeam_trainer_grobid_tools.utils.io import (
+    auto_download_input_file,
+    save_output_file_content
+)
 
 from sciencebeam_trainer_grobid_tools.auto_annotate_utils import (
     add_debug_argument,
@@ -843,7 +845,7 @@ def fix_jats_xml_file(input_file: str, output_file: str, log_file_enabled: bool
         xml_declaration=True,
         encoding=tree.docinfo.encoding
     )
-    save_file_content(output_file, output_bytes)
+    save_output_file_content(output_file, output_bytes)
 
 
 class FixJatsProcessor:
diff --git a/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py b/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py
index 1c480d3..405ba3e 100644
--- a/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py
+++ b/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py
@@ -12,10 +12,6 @@ from apache_beam.io.filesystems import FileSystems
 from lxml import etree
 from lxml.builder import E
 
-from sciencebeam_utils.beam_utils.io import (
-    save_file_content
-)
-
 from sciencebeam_utils.utils.xml import (
     set_or_remove_attrib
 )
@@ -31,6 +27,7 @@ from sciencebeam_trainer_grobid_tools.core.structured_document import (
     strip_tag_prefix
 )
 
+from sciencebeam_trainer_grobid_tools.utils.io import save_output_file_content
 from sciencebeam_trainer_grobid_tools.utils.string import is_blank
 
 
@@ -742,4 +739,4 @@ def save_grobid_training_tei_structured_document(
         xml = etree.tostring(grobid_training_tei_structured_document.root)
     except Exception as e:
         raise RuntimeError('failed to convert to xml for %s due to %s' % (filename, e)) from e
-    save_file_content(filename, xml)
+    save_output_file_content(filename, xml)
diff --git a/sciencebeam_trainer_grobid_tools/utils/io.py b/sciencebeam_trainer_grobid_tools/utils/io.py
index 02d2522..9eb0bf0 100644
--- a/sciencebeam_trainer_grobid_tools/utils/io.py
+++ b/sciencebeam_trainer_grobid_tools/utils/io.py
@@ -1,5 +1,6 @@
 import os
-from contextlib import contextmanager
+import uuid
+from contextlib import contextmanager, suppress
 from functools import partial
 from pathlib import Path
 from shutil import copyfileobj
@@ -9,6 +10,8 @@ from typing import BinaryIO, Callable, Iterator, Union
 from apache_beam.io.filesystem import CompressionTypes
 from apache_beam.io.filesystems import FileSystems
 
+from sciencebeam_utils.beam_utils.io import mkdirs_if_not_exists
+
 
 T_BinaryIO_Open_Function = Callable[[], BinaryIO]
 
@@ -55,3 +58,33 @@ def auto_download_input_file(
             with open(temp_file, mode='wb') as temp_fp:
                 copyfileobj(source, temp_fp)
         yield temp_file
+
+
+@contextmanager
+def create_output_file(output_url: str) -> Iterator[BinaryIO]:
+    """
+    Opens the file to write to, it will only appear under its name once it is complete.
+    The content will be compressed based on the file extension of the output.
+    """
+    # the name must not match any of the input file patterns (e.g. `*.tei.xml*`)
+    temp_url = FileSystems.join(
+        FileSystems.split(output_url)[0],
+        '.%s.part' % uuid.uuid4().hex
+    )
+    try:
+        with FileSystems.create(
+            temp_url,
+            compression_type=CompressionTypes.detect_compression_type(output_url)
+        ) as output_fp:
+            yield output_fp
+        FileSystems.rename([temp_url], [output_url])
+    except BaseException:
+        with suppress(Exception):
+            FileSystems.delete([temp_url])
+        raise
+
+
+def save_output_file_content(output_url: str, data: bytes):
+    mkdirs_if_not_exists(FileSystems.split(output_url)[0])
+    with create_output_file(output_url) as output_fp:
+        output_fp.write(data)
-- 
2.43.0


From 17804953669bd70d2d02065e25dbbd111fed8806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:53:00 +0000
Subject: [PATCH 05/15] fix: keep the line breaks of documents in the TEI
 namespace

---
 .../structured_document/grobid_training_tei.py            | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py b/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py
index 405ba3e..9e31482 100644
--- a/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py
+++ b/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py
@@ -29,6 +29,7 @@ from sciencebeam_trainer_grobid_tools.core.structured_document import (
 
 from sciencebeam_trainer_grobid_tools.utils.io import save_output_file_content
 from sciencebeam_trainer_grobid_tools.utils.string import is_blank
+from sciencebeam_trainer_grobid_tools.utils.tei_xml import TEI_NS
 
 
 LOGGER = logging.getLogger(__name__)
@@ -274,6 +275,11 @@ def has_direct_text(element: etree.Element) -> bool:
     return False
 
 
+def _is_line_break(element: etree.Element) -> bool:
+    # the elements of some models (e.g. references) are in the TEI namespace
+    return element.tag in {TeiTagNames.LB, '{%s}%s' % (TEI_NS, TeiTagNames.LB)}
+
+
 def _iter_extract_lines_from_element(
         parent_element: etree.Element,
         line_buffer: LineBuffer,
@@ -294,7 +300,7 @@ def _iter_extract_lines_from_element(
     LOGGER.debug('current_path: %s', current_path)
 
     for child_element in parent_element:
-        if child_element.tag == TeiTagNames.LB:
+        if _is_line_break(child_element):
             yield line_buffer.flush()
 
         child_path = current_path + [_node_to_tag_expression(child_element)]
-- 
2.43.0


From 18e947482ad7086911c558a2e40421500dac404b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:23 +0000
Subject: [PATCH 06/15] fix: complete the current copies when a download is
 interrupted

---
 .../download_source_files.py                  | 28 ++++++++++---------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/sciencebeam_trainer_grobid_tools/download_source_files.py b/sciencebeam_trainer_grobid_tools/download_source_files.py
index 4be6eb9..9974f16 100644
--- a/sciencebeam_trainer_grobid_tools/download_source_files.py
+++ b/sciencebeam_trainer_grobid_tools/download_source_files.py
@@ -334,20 +334,22 @@ def run(args):
 
     pool = ThreadPool(args.threads)
 
-    copy_files(
-        document_file_list.absolute_file_list,
-        document_output_file_list.absolute_file_list,
-        pool=pool
-    )
-
-    copy_files(
-        target_file_list.absolute_file_list,
-        target_output_file_list.absolute_file_list,
-        pool=pool
-    )
+    try:
+        copy_files(
+            document_file_list.absolute_file_list,
+            document_output_file_list.absolute_file_list,
+            pool=pool
+        )
 
-    pool.close()
-    pool.join()
+        copy_files(
+            target_file_list.absolute_file_list,
+            target_output_file_list.absolute_file_list,
+            pool=pool
+        )
+    finally:
+        # the current copies are completed, they would otherwise be stopped half way (Ctrl-C)
+        pool.terminate()
+        pool.join()
 
 
 def main(argv=None):
-- 
2.43.0


From b3033aa378299c3115a0359b45efea001cdca752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:20 +0000
Subject: [PATCH 07/15] fix: JATS fixer overwrites its sources if the output
 path is spelled differently

The output file was compared with the source file by name only. With the
output path pointing to the source location by another spelling (relative
path, '/.', symbolic link), the sources were replaced by the fixed files.
---
 sciencebeam_trainer_grobid_tools/fix_jats_xml.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/sciencebeam_trainer_grobid_tools/fix_jats_xml.py b/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
index db64c8c..4307ab0 100644
--- a/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
+++ b/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
@@ -848,6 +848,13 @@ def fix_jats_xml_file(input_file: str, output_file: str, log_file_enabled: bool
     save_output_file_content(output_file, output_bytes)
 
 
+def is_same_file(file_1: str, file_2: str) -> bool:
+    if '://' in file_1 or '://' in file_2:
+        return file_1 == file_2
+    # the same local file can be spelled differently (e.g. relative or via a symbolic link)
+    return os.path.realpath(file_1) == os.path.realpath(file_2)
+
+
 class FixJatsProcessor:
     def __init__(self, opt: argparse.Namespace):
         self.num_workers = opt.num_workers
@@ -875,7 +882,7 @@ class FixJatsProcessor:
     def process_source_file(self, source_file: str):
         try:
             output_file = self.get_output_file_for_source_file(source_file)
-            assert output_file != source_file
+            assert not is_same_file(output_file, source_file)
             fix_jats_xml_file(source_file, output_file, log_file_enabled=self.log_file_enabled)
         except Exception as exc:
             raise RuntimeError('failed to process %r due to %r' % (source_file, exc)) from exc
-- 
2.43.0


From 46668864aa3f974774065bd935443033b801a5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:23 +0000
Subject: [PATCH 08/15] fix: fixing a reference drops the text following a
 removed annotation

An identifier annotation that does not contain an identifier is replaced by its
text, but the text following it was removed as well (the tail of the element).
---
 sciencebeam_trainer_grobid_tools/fix_jats_xml.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sciencebeam_trainer_grobid_tools/fix_jats_xml.py b/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
index 4307ab0..ae75a1b 100644
--- a/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
+++ b/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
@@ -223,7 +223,8 @@ def add_text_to_tail_prefix(current: etree.Element, text: str):
 
 
 def replace_element_with_text(current: etree.Element, text: str):
-    add_text_to_previous(current, text)
+    # Note: removing the element would otherwise also remove the text following it
+    add_text_to_previous(current, text + (current.tail or ''))
     current.getparent().remove(current)
 
 
-- 
2.43.0


From 4c9fe25ffd30768fc3a441ec13da7d7a9e2d6d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:23 +0000
Subject: [PATCH 09/15] fix: fixing a reference reorders text when adding a
 sibling annotation

An annotation found in a comment, or the additional links of a joined link, were
added after the text following the comment or link, rather than before it.
---
 sciencebeam_trainer_grobid_tools/fix_jats_xml.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sciencebeam_trainer_grobid_tools/fix_jats_xml.py b/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
index ae75a1b..4bc5289 100644
--- a/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
+++ b/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
@@ -229,6 +229,9 @@ def replace_element_with_text(current: etree.Element, text: str):
 
 
 def add_next_sibling_element(element: etree.Element, new_element: etree.Element):
+    # Note: the text following the element belongs after the new element
+    new_element.tail = (new_element.tail or '') + (element.tail or '')
+    element.tail = None
     element.getparent().insert(
         element.getparent().index(element) + 1,
         new_element
-- 
2.43.0


From d624b5450022188d6d8ed288de704c78da9d0033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:53 +0000
Subject: [PATCH 10/15] fix: JATS fixer fails on references with an empty DOI
 element

An empty <pub-id pub-id-type="doi"/> made the whole run fail.
---
 sciencebeam_trainer_grobid_tools/fix_jats_xml.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sciencebeam_trainer_grobid_tools/fix_jats_xml.py b/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
index 4bc5289..acd35d5 100644
--- a/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
+++ b/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
@@ -626,6 +626,8 @@ def fix_doi(reference_element: etree.Element):
 
 def replace_doi_annotation_with_ext_link_if_url(reference_element: etree.Element):
     for doi_element in reference_element.xpath(JatsXpaths.DOI):
+        if not doi_element.text or len(doi_element):
+            continue
         previous_text = get_previous_text(doi_element)
         start_end = find_doi_url_prefix_valid_start_end(previous_text)
         if not start_end:
-- 
2.43.0


From 8c944177bfaf84271583a3d431bfdea75eeb675a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:53 +0000
Subject: [PATCH 11/15] fix: fixing a reference drops or reorders nested text
 of an annotation

The child elements of an annotation that is replaced by its text were removed,
and text moved out of an annotation ended up behind its child elements.
---
 sciencebeam_trainer_grobid_tools/fix_jats_xml.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/sciencebeam_trainer_grobid_tools/fix_jats_xml.py b/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
index acd35d5..4b2d114 100644
--- a/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
+++ b/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
@@ -223,8 +223,11 @@ def add_text_to_tail_prefix(current: etree.Element, text: str):
 
 
 def replace_element_with_text(current: etree.Element, text: str):
+    add_text_to_previous(current, text)
+    for child_element in list(current):
+        current.addprevious(child_element)
     # Note: removing the element would otherwise also remove the text following it
-    add_text_to_previous(current, text + (current.tail or ''))
+    add_text_to_previous(current, current.tail or '')
     current.getparent().remove(current)
 
 
@@ -419,6 +422,9 @@ def change_annotation_to_matching_text(
         replace_element_with_text(element, text)
         return
     start, end = start_end
+    if len(element):
+        # the remaining text needs to stay before the child elements
+        end = len(text)
     matching_text = text[start:end]
     LOGGER.debug('matching: %s (%r, %s)', start_end, matching_text, find_start_end_fn.__name__)
     element.text = matching_text
@@ -440,7 +446,7 @@ def add_annotation_to_element_text_if_matching(
         create_element_fn: Callable[[str], etree.Element],
         as_next_sibling: bool = False) -> bool:
     text = element.text
-    if not text:
+    if not text or (as_next_sibling and len(element)):
         return False
     start_end = find_start_end_fn(text)
     if not start_end:
-- 
2.43.0


From 2bca655b6c6efa9c70ded5a843948b146aa8664d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:22 +0000
Subject: [PATCH 12/15] fix: documents without any of the target values fail
 the checks rather than the run

is_structured_document_passing_checks raised an error if the target XML
contained none of the configured fields, the document was neither published
nor moved to the failed output.
---
 sciencebeam_trainer_grobid_tools/annotation/checks.py          | 2 +-
 sciencebeam_trainer_grobid_tools/auto_annotate_segmentation.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sciencebeam_trainer_grobid_tools/annotation/checks.py b/sciencebeam_trainer_grobid_tools/annotation/checks.py
index 2b05d30..71e3d93 100644
--- a/sciencebeam_trainer_grobid_tools/annotation/checks.py
+++ b/sciencebeam_trainer_grobid_tools/annotation/checks.py
@@ -143,7 +143,7 @@ def is_structured_document_passing_checks(
     require_matching_fields = set(require_matching_fields or set()) | set(required_fields or set())
     if not require_matching_fields:
         return True
-    if not target_annotations:
+    if target_annotations is None:
         raise RuntimeError('target_annotations required')
     required_value_by_name = get_required_target_value_by_name(
         target_annotations=target_annotations,
diff --git a/sciencebeam_trainer_grobid_tools/auto_annotate_segmentation.py b/sciencebeam_trainer_grobid_tools/auto_annotate_segmentation.py
index 4dfe9f1..8ec1cc3 100644
--- a/sciencebeam_trainer_grobid_tools/auto_annotate_segmentation.py
+++ b/sciencebeam_trainer_grobid_tools/auto_annotate_segmentation.py
@@ -119,7 +119,7 @@ def is_segmentation_structured_document_passing_checks(
     require_matching_fields = set(require_matching_fields or set()) | set(required_fields or set())
     if not require_matching_fields:
         return True
-    if not target_annotations:
+    if target_annotations is None:
         raise RuntimeError('target_annotations required')
     required_value_by_name = get_required_target_value_by_name(
         target_annotations=target_annotations,
-- 
2.43.0


From 1d89fc068b2ab06193961f621db220ac68d498fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:04 +0000
Subject: [PATCH 13/15] fix: keep the case of element and attribute names when
 repairing malformed sources

The HTML parser converts all names to lower case, in the output the whole
document (e.g. teiHeader), not only the malformed part, was affected.
---
 sciencebeam_trainer_grobid_tools/utils/xml.py | 22 ++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/sciencebeam_trainer_grobid_tools/utils/xml.py b/sciencebeam_trainer_grobid_tools/utils/xml.py
index 9c76fed..456b7d2 100644
--- a/sciencebeam_trainer_grobid_tools/utils/xml.py
+++ b/sciencebeam_trainer_grobid_tools/utils/xml.py
@@ -1,5 +1,6 @@
 import logging
 import os
+import re
 import xml.sax.saxutils
 from contextlib import contextmanager
 from html.parser import HTMLParser
@@ -160,6 +161,9 @@ def get_xpath_text(root: etree.Element, xpath: str, delimiter: str = ' ', **kwar
     return delimiter.join(get_xpath_text_list(root, xpath, **kwargs))
 
 
+ATTRIBUTE_REGEX = re.compile(r'''([^\s/>=]+)(?:\s*=\s*('[^']*'|"[^"]*"|[^\s>]*))?''')
+
+
 class FixingHtmlParser(HTMLParser):
     def __init__(self, *args, **kwargs):
         super().__init__(*args, **kwargs)
@@ -169,7 +173,19 @@ class FixingHtmlParser(HTMLParser):
     def error(self, message):
         raise RuntimeError('parser error: %r' % message)
 
+    def _get_case_sensitive_tag_and_attrs(self, tag, attrs):
+        # html names are not case sensitive, the html parser converts them to lower case
+        starttag_text = self.get_starttag_text()
+        attribute_names = [
+            match.group(1)
+            for match in ATTRIBUTE_REGEX.finditer(starttag_text, 1 + len(tag))
+        ]
+        if [name.lower() for name in attribute_names] == [name for name, _ in attrs]:
+            attrs = list(zip(attribute_names, [value for _, value in attrs]))
+        return starttag_text[1:1 + len(tag)], attrs
+
     def handle_starttag(self, tag, attrs):
+        tag, attrs = self._get_case_sensitive_tag_and_attrs(tag, attrs)
         LOGGER.debug('starttag: tag=%r, attrs=%s', tag, attrs)
         self.buffer.write(f'<{tag}')
         for key, value in attrs:
@@ -191,17 +207,17 @@ class FixingHtmlParser(HTMLParser):
         if not self.tag_stack:
             LOGGER.warning('attempting to close element without any open elements, tag=%r', tag)
             return
-        if tag == self._current_tag:
+        if tag == self._current_tag.lower():
             self._close_current_element()
             return
-        if tag not in self.tag_stack:
+        if tag not in [open_tag.lower() for open_tag in self.tag_stack]:
             LOGGER.warning(
                 'end tag tag=%r not matching any open element, closing tag=%r',
                 tag, self._current_tag
             )
             self._close_current_element()
             return
-        while tag != self._current_tag:
+        while tag != self._current_tag.lower():
             LOGGER.warning(
                 'end tag tag=%r not matching immediate open element, first closing tag=%r',
                 tag, self._current_tag
-- 
2.43.0


From fc46c24885d0bc108634e4d430210d079ce59ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:42:34 +0000
Subject: [PATCH 14/15] fix: keep the attributes of the annotated container
 element

e.g. the language of the text element (xml:lang) was dropped.
---
 .../structured_document/grobid_training_tei.py                  | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py b/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py
index 9e31482..eb27cb5 100644
--- a/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py
+++ b/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py
@@ -547,7 +547,9 @@ def _updated_tei_with_lines(
         raise RuntimeError('container node path not found: %s (namespaces=%s) (has %s)' % (
             container_node_path, namespaces, list(updated_root)
         ))
+    container_attrib = dict(container_node.attrib)
     container_node.clear()
+    container_node.attrib.update(container_attrib)
     _lines_to_tei(container_node, lines, tag_to_tei_path_mapping)
     return updated_root
 
-- 
2.43.0


From 8152ef5504eec734fba22a48ff58d08159600ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:18 +0000
Subject: [PATCH 15/15] fix: documents with several containers have the text of
 all of them in the first and again in the others

---
 .../grobid_training_tei.py                    | 31 ++++++++++++-------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py b/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py
index eb27cb5..9514ec8 100644
--- a/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py
+++ b/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py
@@ -116,8 +116,9 @@ class TeiSpace(TeiText):
 
 
 class TeiLine(object):
-    def __init__(self, tokens: List[TeiText]):
+    def __init__(self, tokens: List[TeiText], container_index: int = 0):
         self.tokens = tokens
+        self.container_index = container_index
         self.non_space_tokens = [t for t in tokens if not isinstance(t, TeiSpace)]
         for token in tokens:
             token.line = self
@@ -326,14 +327,17 @@ def _iter_extract_lines_from_container_elements(
     line_buffer = LineBuffer()
     current_path: List[str] = []
 
-    for container_element in container_elements:
+    for container_index, container_element in enumerate(container_elements):
         lines = _iter_extract_lines_from_element(
             container_element, line_buffer, current_path, **kwargs
         )
         for line in lines:
+            line.container_index = container_index
             yield line
         if line_buffer:
-            yield line_buffer.flush()
+            line = line_buffer.flush()
+            line.container_index = container_index
+            yield line
 
 
 def _get_tag_attrib_name(scope, level: Optional[T_Tag_Level]):
@@ -541,16 +545,18 @@ def _updated_tei_with_lines(
         container_node_path: str = 'text/front',
         namespaces: Dict[str, str] = None):
     updated_root = copy.deepcopy(original_root)
-    container_node = updated_root.find(container_node_path, namespaces=namespaces)
-    get_logger().debug('container_node: %s', container_node)
-    if container_node is None:
+    container_nodes = updated_root.findall(container_node_path, namespaces=namespaces)
+    get_logger().debug('container_nodes: %s', container_nodes)
+    if not container_nodes:
         raise RuntimeError('container node path not found: %s (namespaces=%s) (has %s)' % (
             container_node_path, namespaces, list(updated_root)
         ))
-    container_attrib = dict(container_node.attrib)
-    container_node.clear()
-    container_node.attrib.update(container_attrib)
-    _lines_to_tei(container_node, lines, tag_to_tei_path_mapping)
+    for container_index, container_node in enumerate(container_nodes):
+        container_attrib = dict(container_node.attrib)
+        container_node.clear()
+        container_node.attrib.update(container_attrib)
+        container_lines = [line for line in lines if line.container_index == container_index]
+        _lines_to_tei(container_node, container_lines, tag_to_tei_path_mapping)
     return updated_root
 
 
@@ -724,7 +730,10 @@ class GrobidTrainingTeiStructuredDocument(AbstractStructuredDocument):
                     continue
                 current_result_line_tokens.append(token)
             if current_result_line_tokens:
-                updated_lines.append(TeiLine(current_result_line_tokens))
+                updated_lines.append(TeiLine(
+                    current_result_line_tokens,
+                    container_index=line.container_index
+                ))
         self._lines = updated_lines
 
     def __repr__(self):
-- 
2.43.0


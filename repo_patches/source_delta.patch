From 721c0fb37897adee1d907614160970f92cc7c64d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:28 +0000
Subject: [PATCH 01/65] fix: write the second container relative to its own
 start

Blocks and offsets of the second (64-bit) container were written relative to
the beginning of the file, so a configuration of two containers was built
into a file whose first container was overwritten.
---
 src/v8unpack/container.py     | 2 +-
 src/v8unpack/container_doc.py | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/v8unpack/container.py b/src/v8unpack/container.py
index 23ec4c6..c7bb5fd 100644
--- a/src/v8unpack/container.py
+++ b/src/v8unpack/container.py
@@ -241,7 +241,7 @@ class Container:
                 doc.write_block(f, doc_size=doc_size, offset=self.header_size)
             else:
                 f.seek(0)
-                next_block_offset = file_size(self.file)
+                next_block_offset = file_size(self.file) - self.offset
                 doc.write_block(io.BytesIO(f.read(self.index_block_size)),
                                 doc_size=doc_size, offset=self.header_size,
                                 min_block_size=self.index_block_size,
diff --git a/src/v8unpack/container_doc.py b/src/v8unpack/container_doc.py
index 1c0b601..ffc7acd 100644
--- a/src/v8unpack/container_doc.py
+++ b/src/v8unpack/container_doc.py
@@ -142,10 +142,11 @@ class Document:
         :return: смещение записанных данных (байт)
         :rtype: int
         """
+        # смещения внутри контейнера отсчитываются от его начала
         if offset is not None:
-            self.container.file.seek(offset)
+            self.container.file.seek(self.container.offset + offset)
         else:
-            offset = file_size(self.container.file)
+            offset = file_size(self.container.file) - self.container.offset
         block_size = file_size(data)
         min_block_size = max(min_block_size, block_size)
         if not next_block_offset:
-- 
2.43.0


From 77f9b76667eb1bb85aa32ee6cc759eb9c5977d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:51 +0000
Subject: [PATCH 02/65] fix: find the end of a container by its blocks

The size of a container was guessed from the sizes of its documents, which is
wrong for documents split over several blocks and for tables of contents in a
short block: such files were rejected or their second container was lost.
---
 src/v8unpack/container.py     |  4 ----
 src/v8unpack/container_doc.py | 13 ++-----------
 2 files changed, 2 insertions(+), 15 deletions(-)

diff --git a/src/v8unpack/container.py b/src/v8unpack/container.py
index c7bb5fd..59eac0f 100644
--- a/src/v8unpack/container.py
+++ b/src/v8unpack/container.py
@@ -164,19 +164,16 @@ class Container:
         :return: словарь файлов в контейнере
         :rtype: OrderedDict
         """
-        size = 0
         # Первый документ после заголовка содержит оглавление
         doc = Document(self)
         doc_data = doc.read(file, self.header_size, self.index_block_size)
         table_of_contents = [unpack(f'2{self.index_fmt}', x) for x in
                              doc_data.split(pack(self.index_fmt, self.end_marker))[:-1]]
-        self.size += self.header_size + doc.full_size
 
         files = collections.OrderedDict()
         for file_description_offset, file_data_offset in table_of_contents:
             doc = Document(self)
             doc_data = doc.read(file, file_description_offset)
-            self.size += doc.full_size
             fmt = ''.join(['QQi', str(doc.data_size - calcsize('QQi')), 's'])
             file_description = unpack(fmt, doc_data)
             # Из описания формата длина имени файла определяется точно, поэтому, теоретически, мусора быть не должно
@@ -186,7 +183,6 @@ class Container:
 
             doc = Document(self)
             file_data = doc.read_chunk(file, file_data_offset, self.default_block_size)
-            self.size += doc.full_size
 
             inner_file = File(name, doc.data_size, self.parse_datetime(file_description[0]),
                               self.parse_datetime(file_description[1]), file_data)
diff --git a/src/v8unpack/container_doc.py b/src/v8unpack/container_doc.py
index ffc7acd..7b48e84 100644
--- a/src/v8unpack/container_doc.py
+++ b/src/v8unpack/container_doc.py
@@ -2,7 +2,6 @@
 import collections
 import datetime
 import io
-import math
 import os
 import tempfile
 import zlib
@@ -25,7 +24,6 @@ BUFFER_CHUNK_SIZE = 512
 class Document:
     def __init__(self, container):
         self.container = container
-        self.full_size = 0  # include all header size
         self.data_size = 0
 
     def read(self, file, offset, min_block_size=0):
@@ -65,15 +63,6 @@ class Document:
         :return: генератор чтения данных документа
         """
         header_block = self.read_block(file, offset)
-        doc_size = max(header_block.doc_size, min_block_size)
-        if doc_size > header_block.current_block_size:
-            self.full_size = doc_size + math.ceil(
-                header_block.doc_size / header_block.current_block_size) * min_block_size
-            if min_block_size == self.container.index_block_size:
-                self.full_size += self.container.index_block_size
-        else:
-            self.full_size = doc_size + self.container.block_header_size
-
         if header_block is None:
             return
         else:
@@ -112,6 +101,8 @@ class Document:
         doc_size = int(header[1], 16)
         current_block_size = int(header[3], 16)
         next_block_offset = int(header[5], 16)
+        # контейнер заканчивается там, где заканчивается самый дальний из его блоков
+        self.container.size = max(self.container.size, offset + header_size + current_block_size)
 
         if max_data_length is None:
             max_data_length = min(current_block_size, doc_size)
-- 
2.43.0


From bcac59b4e5c800dc83fb134150ea09b065d49631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:33 +0000
Subject: [PATCH 03/65] fix: do not append an empty block after a chained table
 of contents

The surplus block made the end of the first container differ from what its
reader sees, so a second container after more than 42 files was not found.
---
 src/v8unpack/container.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v8unpack/container.py b/src/v8unpack/container.py
index 59eac0f..ae94dc1 100644
--- a/src/v8unpack/container.py
+++ b/src/v8unpack/container.py
@@ -243,7 +243,7 @@ class Container:
                                 min_block_size=self.index_block_size,
                                 next_block_offset=next_block_offset)
                 self.file.seek(0, os.SEEK_END)
-                for i in range(1, total_blocks):
+                for i in range(1, total_blocks - 1):
                     # 31 - длина заголовка блока
                     next_block_offset += self.index_block_size + self.block_header_size
                     doc.write_block(io.BytesIO(f.read(self.index_block_size)), doc_size=0,
-- 
2.43.0


From e3b3ae2b77770dfc0e82fe8e795658a89cd1d353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:55 +0000
Subject: [PATCH 04/65] fix: do not take a truncated container for a complete
 one

A document that ended before its declared size and a deflate stream without
its end were written out as far as they went, and the extraction reported
success with part of the data missing.
---
 src/v8unpack/container_doc.py    | 36 ++++++++++++++++++--------------
 src/v8unpack/container_reader.py |  8 +++++--
 2 files changed, 26 insertions(+), 18 deletions(-)

diff --git a/src/v8unpack/container_doc.py b/src/v8unpack/container_doc.py
index 7b48e84..1fe7061 100644
--- a/src/v8unpack/container_doc.py
+++ b/src/v8unpack/container_doc.py
@@ -10,6 +10,7 @@ from struct import pack
 # -*- coding: utf-8 -*-
 from struct import unpack
 
+from .ext_exception import ExtException
 from .helper import file_size
 
 Header = collections.namedtuple('Header', 'first_empty_block_offset, default_block_size, count_files')
@@ -63,20 +64,21 @@ class Document:
         :return: генератор чтения данных документа
         """
         header_block = self.read_block(file, offset)
-        if header_block is None:
-            return
-        else:
-            yield header_block.doc_size
-            yield header_block.data
-
-            left_bytes = header_block.doc_size - len(header_block.data)
-            next_block_offset = header_block.next_block_offset
-
-            while left_bytes > 0 and next_block_offset != self.container.end_marker:
-                block = self.read_block(file, next_block_offset, left_bytes)
-                left_bytes -= len(block.data)
-                yield block.data
-                next_block_offset = block.next_block_offset
+        yield header_block.doc_size
+        yield header_block.data
+
+        left_bytes = header_block.doc_size - len(header_block.data)
+        next_block_offset = header_block.next_block_offset
+
+        while left_bytes > 0:
+            if next_block_offset == self.container.end_marker:
+                raise ExtException(message='Контейнер поврежден', detail=f'документ {offset:x} обрывается')
+            block = self.read_block(file, next_block_offset, left_bytes)
+            if not block.data:
+                raise ExtException(message='Контейнер поврежден', detail=f'пустой блок {next_block_offset:x}')
+            left_bytes -= len(block.data)
+            yield block.data
+            next_block_offset = block.next_block_offset
 
     def read_block(self, file, offset, max_data_length=None):
         """
@@ -94,8 +96,8 @@ class Document:
         file.seek(offset + self.container.offset)
         header_size = self.container.block_header_size
         buff = file.read(header_size)
-        if not buff:
-            return
+        if len(buff) != header_size:
+            raise ExtException(message='Контейнер поврежден', detail=f'нет блока {offset:x}')
         header = unpack(self.container.block_header_fmt, buff)
 
         doc_size = int(header[1], 16)
@@ -110,6 +112,8 @@ class Document:
         data_size = min(current_block_size, max_data_length)
 
         data = file.read(data_size)
+        if len(data) != data_size:
+            raise ExtException(message='Контейнер поврежден', detail=f'блок {offset:x} обрывается')
 
         return Block(doc_size, current_block_size, next_block_offset, data)
 
diff --git a/src/v8unpack/container_reader.py b/src/v8unpack/container_reader.py
index 3b94b88..ac08ff2 100644
--- a/src/v8unpack/container_reader.py
+++ b/src/v8unpack/container_reader.py
@@ -92,11 +92,15 @@ def decompress_file_and_extract(params):
                         if buf == b'':
                             break
                     data = decompressor.decompress(buf)
+                    if data == b'':
+                        if decompressor.eof:
+                            break
+                        continue
                     if file_is_container is None:
                         file_is_container = data[0:4] == b'\xFF\xFF\xFF\x7F'
-                    if data == b'':
-                        break
                     dest.write(data)
+                if src.tell() and not decompressor.eof:
+                    raise EOFError('архив обрывается')
 
         # Каждый файл внутри контейнера может быть контейнером
         # Для проверки является ли файл контейнером проверим первые 4 бита
-- 
2.43.0


From bdb611e5d88421a76ea2d6fa9fae18d62859e732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:25 +0000
Subject: [PATCH 05/65] fix: find the pages of an includr form area under its
 include name

---
 src/v8unpack/organizer_form_elem.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/v8unpack/organizer_form_elem.py b/src/v8unpack/organizer_form_elem.py
index 0c2978f..a17ce33 100644
--- a/src/v8unpack/organizer_form_elem.py
+++ b/src/v8unpack/organizer_form_elem.py
@@ -188,12 +188,12 @@ class OrganizerFormElem:
                     if child:
                         cls._append_area_data(child, old_path, root_data, data, append_path)
 
-            pages = data.pop(f'{path}/-pages-', None)
+            pages = data.pop(f'{_path}/-pages-', None)
             if pages is not None:
                 new_path = f'{append_path}/{_path}/-pages-' if append_path else f'{_path}/-pages-'
                 root_data[new_path] = pages
                 for name in pages:
-                    old_path = f'{path}/{name}'
+                    old_path = f'{_path}/{name}'
                     new_path = f'{append_path}/{_path}/{name}' if append_path else f'{_path}/{name}'
                     try:
                         root_data[new_path] = data.pop(old_path)
-- 
2.43.0


From 6ed5bb4cda9f535aeda7349cd84a1eb12d47078d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:25 +0000
Subject: [PATCH 06/65] fix: do not break long quoted strings into base64 lines

A quoted ASCII string of more than 64 characters passed the lenient
base64 test and got line breaks inserted every 64 characters.
---
 src/v8unpack/json_container_decoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v8unpack/json_container_decoder.py b/src/v8unpack/json_container_decoder.py
index c560d0e..ee451ff 100644
--- a/src/v8unpack/json_container_decoder.py
+++ b/src/v8unpack/json_container_decoder.py
@@ -333,7 +333,7 @@ class JsonContainerDecoder:
                 else:
                     j = len(elem)
                     is_base64 = False
-                    if j > 64:  # base64 нужно переносить
+                    if j > 64 and elem[0] != '"':  # base64 нужно переносить, строки в кавычках - нет
                         try:
                             b64decode(elem)
                             is_base64 = True
-- 
2.43.0


From f38e75016b534a841d32bcf1e77e673934828e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:28 +0000
Subject: [PATCH 07/65] fix: keep decoding a brace file whose blob is not its
 second value

The test for a file that is one blob did not look where the blob
stands, so an object header holding a blob could not be extracted.
---
 src/v8unpack/json_container_decoder.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/v8unpack/json_container_decoder.py b/src/v8unpack/json_container_decoder.py
index ee451ff..c47dcbc 100644
--- a/src/v8unpack/json_container_decoder.py
+++ b/src/v8unpack/json_container_decoder.py
@@ -152,7 +152,8 @@ class JsonContainerDecoder:
             self.current_value = ''
             if line.startswith('{#base64'):
                 # это скорее всего файл целиком из двоичных данных
-                if len(self.data) == 1 and len(self.data[0]) == 2 and self.data[0][0] == '1':
+                if len(self.data) == 1 and len(self.data[0]) == 2 and self.data[0][0] == '1' \
+                        and self.data[0][1] is self.current_object:
                     raise BigBase64()
                 self.mode = Mode.READ_B64
                 self.decode_b64_line(line, 1)
-- 
2.43.0


From e46acb6a90fa37e523a2111c8b21418a6532137b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:50 +0000
Subject: [PATCH 08/65] fix: keep the text after an unmatched region end

---
 src/v8unpack/organizer_code.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/v8unpack/organizer_code.py b/src/v8unpack/organizer_code.py
index 19f0c2a..0d87565 100644
--- a/src/v8unpack/organizer_code.py
+++ b/src/v8unpack/organizer_code.py
@@ -52,9 +52,10 @@ class OrganizerCode:
                                 _path.append('')
 
                         elif _line.startswith('#КонецОбласти'):
-                            if _path[-1]:  # кончилась include область
-                                _include_path.pop()
-                            _path.pop()
+                            if len(_path) > 1:  # у лишнего #КонецОбласти нет своей области
+                                if _path[-1]:  # кончилась include область
+                                    _include_path.pop()
+                                _path.pop()
                             self.code_areas[_include_path[-1]]['data'] += line
                         else:
                             self.code_areas[_include_path[-1]]['data'] += line
-- 
2.43.0


From f6b547976bd328fd70d8065567da74332752fab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:50 +0000
Subject: [PATCH 09/65] fix: keep the files of other versions when extracting
 with descent

---
 src/v8unpack/organizer_file.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/v8unpack/organizer_file.py b/src/v8unpack/organizer_file.py
index db2b2c9..1232ff7 100644
--- a/src/v8unpack/organizer_file.py
+++ b/src/v8unpack/organizer_file.py
@@ -17,7 +17,8 @@ class OrganizerFile:
         print(f'{"Организуем код":30}')
         tasks_code_file = []
         tasks_form_elem = []
-        helper.clear_dir(dest_dir)
+        if descent is None:  # с descent в папке назначения лежат файлы других версий
+            helper.clear_dir(dest_dir)
         cls._unpack(src_dir, os.path.abspath(dest_dir), '', tasks_code_file, tasks_form_elem, index,
                     descent)
         helper.run_in_pool(cls.unpack_code_file, tasks_code_file, pool=pool,
-- 
2.43.0


From e814bc7ba5cc9323ece37d058e7f659b11e82dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:03 +0000
Subject: [PATCH 10/65] fix: version the form element files when extracting
 with descent

---
 src/v8unpack/helper.py              |  5 +++++
 src/v8unpack/organizer_file.py      |  3 ++-
 src/v8unpack/organizer_form_elem.py | 29 +++++++++++++++++++++--------
 3 files changed, 28 insertions(+), 9 deletions(-)

diff --git a/src/v8unpack/helper.py b/src/v8unpack/helper.py
index 109a329..61eb844 100644
--- a/src/v8unpack/helper.py
+++ b/src/v8unpack/helper.py
@@ -154,6 +154,11 @@ def encode_header(meta_obj, header: list):
         header[2] = str_encode(f"{prefix}{obj['name']}")
 
 
+def is_inside(path: str, root: str) -> bool:
+    path, root = os.path.abspath(path), os.path.abspath(root)
+    return path == root or path.startswith(os.path.join(root, ''))
+
+
 def clear_dir(path: str) -> None:
     shutil.rmtree(path, ignore_errors=True)
     makedirs(path, exist_ok=True)
diff --git a/src/v8unpack/organizer_file.py b/src/v8unpack/organizer_file.py
index 1232ff7..a9f1c75 100644
--- a/src/v8unpack/organizer_file.py
+++ b/src/v8unpack/organizer_file.py
@@ -41,7 +41,8 @@ class OrganizerFile:
                 if entry.endswith('.bsl'):
                     tasks_code_file.append((src_dir, path, entry, dest_dir, index, descent))
                 elif entry.endswith('.elem.json'):
-                    tasks_form_elem.append((src_dir, path, entry, dest_dir, index, descent))
+                    tasks_form_elem.append((src_dir, path, entry, dest_dir, index, descent,
+                                            cls.unpack_get_descent_filename))
                 else:
                     src_path = os.path.join(src_dir, path)
                     cls.unpack_file(src_path, entry, dest_dir, path, entry, index, descent)
diff --git a/src/v8unpack/organizer_form_elem.py b/src/v8unpack/organizer_form_elem.py
index a17ce33..5faec3b 100644
--- a/src/v8unpack/organizer_form_elem.py
+++ b/src/v8unpack/organizer_form_elem.py
@@ -13,12 +13,12 @@ class OrganizerFormElem:
 
     @classmethod
     def unpack(cls, params):
-        src_dir, path, file_name, dest_dir, index, descent = params
+        src_dir, path, file_name, dest_dir, index, descent, unpack_get_descent_filename = params
         areas = {}
         elements = helper.json_read(os.path.join(src_dir, path), file_name)
         cls._unpack_get_areas(elements['tree'], '', elements['data'], areas)
         areas['root'] = elements
-        cls._unpack_write_areas(src_dir, path, file_name, dest_dir, index, descent, areas)
+        cls._unpack_write_areas(src_dir, path, file_name, dest_dir, index, descent, areas, unpack_get_descent_filename)
 
     @staticmethod
     def is_area(name):
@@ -107,8 +107,13 @@ class OrganizerFormElem:
         except Exception as err:
             raise ExtException(parent=err)
 
-    @staticmethod
-    def _unpack_write_areas(src_dir, path, file_name, dest_dir, index, descent, areas):
+    @classmethod
+    def equal_elem_file(cls, src_path, src_file_name, src_data, near_descent_path, near_descent_file_name):
+        return helper.json_read(near_descent_path, near_descent_file_name) == src_data
+
+    @classmethod
+    def _unpack_write_areas(cls, src_dir, path, file_name, dest_dir, index, descent, areas,
+                            unpack_get_descent_filename):
         try:
             for elem in areas:
                 if elem == 'root':
@@ -119,7 +124,12 @@ class OrganizerFormElem:
                         file_extension=file_name[-9::])
                 dest_path = os.path.abspath(os.path.join(dest_dir, dest_entry_path))
 
-                helper.json_write(areas[elem], dest_path, dest_file_name)
+                if helper.is_inside(dest_path, dest_dir):  # файлы вне папки исходников не версионируются
+                    dest_path, dest_file_name = unpack_get_descent_filename(
+                        None, None, areas[elem], dest_path, dest_file_name, descent, cls.equal_elem_file)
+
+                if dest_file_name:
+                    helper.json_write(areas[elem], dest_path, dest_file_name)
         except Exception as err:
             raise ExtException(
                 parent=err,
@@ -134,7 +144,7 @@ class OrganizerFormElem:
         elements = helper.json_read(os.path.join(src_dir, src_path), src_file_name)
         try:
             cls._pack_get_areas(src_dir, src_path, src_file_name, elements['tree'], '', elements['data'],
-                                index_code_areas, descent)
+                                index_code_areas, descent, pack_get_descent_filename)
         except Exception as err:
             raise ExtException(parent=err, message='Ошибка сборки элементов формы',
                                detail=f'{os.path.join(src_path, src_file_name)}')
@@ -147,7 +157,8 @@ class OrganizerFormElem:
         return elem_class.get_class_form_elem(elem_type)
 
     @classmethod
-    def _pack_get_areas(cls, src_dir, src_path, file_name, tree, path, root_data, index_code_areas, descent):
+    def _pack_get_areas(cls, src_dir, src_path, file_name, tree, path, root_data, index_code_areas, descent,
+                        pack_get_descent_filename):
         for elem in tree:
             try:
                 name: str = elem['name']
@@ -158,6 +169,8 @@ class OrganizerFormElem:
                     _path, _file_name = OrganizerCode.parse_include_path(
                         area_name, src_path, file_name, index_code_areas, descent, file_extension=file_name[-9::])
                     _src_abs_path = os.path.abspath(os.path.join(src_dir, _path))
+                    if helper.is_inside(_src_abs_path, src_dir):
+                        _src_abs_path, _file_name = pack_get_descent_filename(_src_abs_path, _file_name, descent)
 
                     include_elements = helper.json_read(_src_abs_path, _file_name)
                     cls._append_area_data(include_elements['tree'], name, root_data, include_elements['data'],
@@ -167,7 +180,7 @@ class OrganizerFormElem:
                 child = elem.get('child')
                 if child:
                     cls._pack_get_areas(src_dir, src_path, file_name, child, new_path, root_data, index_code_areas,
-                                        descent)
+                                        descent, pack_get_descent_filename)
             except Exception as err:
                 raise ExtException(parent=err, message='Ошибка сборки области формы', detail=elem['name'])
 
-- 
2.43.0


From 1c746ccface27b12580c8964af30543a88ed172d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:17 +0000
Subject: [PATCH 11/65] fix: do not take a sibling folder for the folder of the
 sources

---
 src/v8unpack/organizer_code.py | 4 ++--
 src/v8unpack/organizer_file.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/v8unpack/organizer_code.py b/src/v8unpack/organizer_code.py
index 0d87565..70db570 100644
--- a/src/v8unpack/organizer_code.py
+++ b/src/v8unpack/organizer_code.py
@@ -80,7 +80,7 @@ class OrganizerCode:
         try:
             data = ''
             _src_abs_path = os.path.abspath(os.path.join(src_dir, path))
-            if _src_abs_path.startswith(src_dir) or os.path.normcase(path).find(normcase_src) >= 0:
+            if helper.is_inside(_src_abs_path, src_dir) or os.path.normcase(path).find(normcase_src) >= 0:
                 _src_abs_path, file_name = pack_get_descent_filename(_src_abs_path, file_name, descent)
 
             with open(os.path.join(_src_abs_path, file_name), 'r', encoding='utf-8') as file:
@@ -101,7 +101,7 @@ class OrganizerCode:
                             _path, _file_name = cls.parse_include_path(include_path, path, file_name, index_code_areas,
                                                                        descent)
                             _src_abs_path = os.path.abspath(os.path.join(src_dir, _path))
-                            if _src_abs_path.startswith(src_dir) or os.path.normcase(_path).find(normcase_src) >= 0:
+                            if helper.is_inside(_src_abs_path, src_dir) or os.path.normcase(_path).find(normcase_src) >= 0:
                                 _path, _file_name = pack_get_descent_filename(_src_abs_path, _file_name, descent)
                             data += cls.pack_file(src_dir, _path, _file_name, index_code_areas, descent,
                                                   pack_get_descent_filename, current_dynamic_directive)
diff --git a/src/v8unpack/organizer_file.py b/src/v8unpack/organizer_file.py
index a9f1c75..656ed75 100644
--- a/src/v8unpack/organizer_file.py
+++ b/src/v8unpack/organizer_file.py
@@ -64,7 +64,7 @@ class OrganizerFile:
             src_full_path = os.path.join(src_path, src_file_name)
 
             # файлы вне папки исходников не версионируются
-            if dest_full_path.startswith(dest_dir) or os.path.normcase(dest_entry_path).find('\\src\\') >= 0:
+            if helper.is_inside(dest_full_path, dest_dir) or os.path.normcase(dest_entry_path).find('\\src\\') >= 0:
                 descent_full_dest_path, descent_file_name = cls.unpack_get_descent_filename(src_path, src_file_name,
                                                                                             None,
                                                                                             dest_full_path,
@@ -94,7 +94,7 @@ class OrganizerFile:
                     _file['path'], _file['file_name'] = OrganizerCode.parse_include_path(
                         elem, path, file_name, index.get('Области include') if index else None, descent)
                 _file['dest_path'] = os.path.abspath(os.path.join(dest_dir, _file['path']))
-                if _file['dest_path'].startswith(dest_dir) or os.path.normcase(_file['path']).find('\\src\\') >= 0:
+                if helper.is_inside(_file['dest_path'], dest_dir) or os.path.normcase(_file['path']).find('\\src\\') >= 0:
                     descent_full_dest_path, descent_file_name = cls.unpack_get_descent_filename(
                         None, None, _file['data'], _file['dest_path'], _file['file_name'], descent,
                         cls.equal_code_file)
-- 
2.43.0


From c25eeb3f3400b9ae7e46effdd88173fd70000cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:09 +0000
Subject: [PATCH 12/65] fix: do not take a file with a similar name for a
 version of the file

---
 src/v8unpack/helper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/v8unpack/helper.py b/src/v8unpack/helper.py
index 61eb844..b25bc58 100644
--- a/src/v8unpack/helper.py
+++ b/src/v8unpack/helper.py
@@ -372,8 +372,8 @@ def get_near_descent_file_name(path, file_name, descent):
                 is_without_descent = True
                 continue
 
-            if len(_entity) - 1 != size:
-                continue
+            if len(_entity) - 1 != size or _entity[:-2] != name[:-1] or _entity[-1] != endswith:
+                continue  # другой файл с похожим именем
             full_path = os.path.join(path, entity)
             if os.path.isfile(full_path):
                 try:
-- 
2.43.0


From 9b4995df07aab617139558098fae5bf5b840e6bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:12 +0000
Subject: [PATCH 13/65] fix: keep a file whose name holds a number with leading
 zeros

---
 src/v8unpack/helper.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/v8unpack/helper.py b/src/v8unpack/helper.py
index b25bc58..57a7e9f 100644
--- a/src/v8unpack/helper.py
+++ b/src/v8unpack/helper.py
@@ -401,7 +401,8 @@ def remove_descent_from_filename(file_name):
         if str(int(_descent)) == _descent:
             return '.'.join(_name)
     except Exception:
-        return file_name
+        pass
+    return file_name
 
 
 def makedirs(name, exist_ok=False):
-- 
2.43.0


From a74f4cd526c651c22e4959c9ab029895115928ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:57 +0000
Subject: [PATCH 14/65] fix: keep an include area named by a file alone beside
 its module with descent

---
 src/v8unpack/organizer_code.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v8unpack/organizer_code.py b/src/v8unpack/organizer_code.py
index 70db570..f714115 100644
--- a/src/v8unpack/organizer_code.py
+++ b/src/v8unpack/organizer_code.py
@@ -132,6 +132,6 @@ class OrganizerCode:
         if size_tmp > 1:
             tmp = ['..' if elem == '' else elem for elem in tmp[:-1]]
             _path = os.path.join(_path, *tmp)
-        if _path == '..':
+        if size_tmp == 1:  # указано только имя файла - он лежит рядом с исходным, в том числе с descent
             _path = path
         return _path, _file_name
-- 
2.43.0


From fc21cbcf6f1883f19c567fe997d2800bd9d8c731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:29 +0000
Subject: [PATCH 15/65] fix: choose the container by its number, not by the
 order of the directory

---
 src/v8unpack/decoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v8unpack/decoder.py b/src/v8unpack/decoder.py
index 445971c..8f9b812 100644
--- a/src/v8unpack/decoder.py
+++ b/src/v8unpack/decoder.py
@@ -196,7 +196,7 @@ def encode(src_dir, dest_dir, *, pool=None, options=None, file_name=None):
 
 
 def decode(src_dir, dest_dir, *, pool=None, options=None):
-    containers = os.listdir(src_dir)
+    containers = sorted(os.listdir(src_dir))  # порядок файлов в каталоге не определен
     containers_count = len(containers)
     if containers_count not in [1, 2]:
         raise NotImplementedError(f'Количество контейнеров {containers_count}')
-- 
2.43.0


From 1898f71edd096f2c0e4072f9e1de14e54848344d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:48 +0000
Subject: [PATCH 16/65] fix: make the archive of the first container the same
 on every extraction

---
 src/v8unpack/decoder.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/v8unpack/decoder.py b/src/v8unpack/decoder.py
index 8f9b812..f956f1d 100644
--- a/src/v8unpack/decoder.py
+++ b/src/v8unpack/decoder.py
@@ -1,5 +1,6 @@
 import os
 import shutil
+import zipfile
 from datetime import datetime
 
 from . import helper
@@ -204,4 +205,18 @@ def decode(src_dir, dest_dir, *, pool=None, options=None):
     _src_dir = os.path.join(src_dir, containers[-1])
     Decoder.decode(_src_dir, dest_dir, pool=pool, options=options)
     if containers_count == 2:
-        shutil.make_archive(os.path.join(dest_dir, 'dummy'), 'zip', os.path.join(src_dir, '0'))
+        pack_dummy(os.path.join(src_dir, '0'), os.path.join(dest_dir, 'dummy.zip'))
+
+
+def pack_dummy(src_dir, file_name):
+    # время и порядок файлов не должны попадать в архив, иначе он меняется при каждой разборке
+    with zipfile.ZipFile(file_name, 'w', zipfile.ZIP_DEFLATED) as archive:
+        for path, dirs, files in os.walk(src_dir):
+            dirs.sort()
+            for name in dirs:
+                archive.writestr(zipfile.ZipInfo(os.path.relpath(os.path.join(path, name), src_dir) + '/'), '')
+            for name in sorted(files):
+                with open(os.path.join(path, name), 'rb') as file:
+                    archive.writestr(zipfile.ZipInfo(os.path.relpath(os.path.join(path, name), src_dir)), file.read(),
+                                     compress_type=zipfile.ZIP_DEFLATED)
+
-- 
2.43.0


From 368f502cefdfe3f57e722c35cad8164898f37a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:02 +0000
Subject: [PATCH 17/65] fix: keep a module stored without its text

---
 src/v8unpack/MetaObject/__init__.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/v8unpack/MetaObject/__init__.py b/src/v8unpack/MetaObject/__init__.py
index f7e9ce2..4b1f855 100644
--- a/src/v8unpack/MetaObject/__init__.py
+++ b/src/v8unpack/MetaObject/__init__.py
@@ -296,21 +296,16 @@ class MetaObject:
                 continue
             if os.path.isdir(_obj_code_dir):
                 self.header[f'code_info_{code_name}'] = helper.brace_file_read(_obj_code_dir, 'info')
-                try:
-                    self.code[code_name], encoding = self.read_raw_code(_obj_code_dir, 'text',
-                                                                        uncomment_directive=uncomment_directive)
-                    self.header[f'code_encoding_{code_name}'] = encoding  # можно безболезненно поменять на utf-8-sig
-                except FileNotFoundError as err:
+                self.code[code_name], encoding = self.read_raw_code(_obj_code_dir, 'text',
+                                                                    uncomment_directive=uncomment_directive)
+                self.header[f'code_encoding_{code_name}'] = encoding  # можно безболезненно поменять на utf-8-sig
+                if self.code[code_name] is None:
                     # todo могут быть зашифрованные модули тогда файл будет # image.json - зашифрованный контент
-                    not_encrypted = True
                     for encrypted_type in self.encrypted_types:
                         if os.path.isfile(os.path.join(_obj_code_dir, encrypted_type)):
                             self.code[code_name] = helper.bin_read(_obj_code_dir, encrypted_type)
                             self.header[f'code_encoding_{code_name}'] = encrypted_type
-                            not_encrypted = False
                             break
-                    if not_encrypted:
-                        raise err from err
             else:
                 code_file_name = f'{self.header["uuid"]}.{self.ext_code[code_name]}'
                 self.code[code_name], encoding = self.read_raw_code(src_dir, code_file_name,
@@ -358,7 +353,8 @@ class MetaObject:
                 helper.makedirs(_code_dir)
                 helper.brace_file_write(self.header[f'code_info_{code_name}'], _code_dir, 'info')
                 if encoding in self.encrypted_types:
-                    helper.bin_write(self.code[code_name], _code_dir, 'text')
+                    # зашифрованный модуль лежит в image, в text - текст в неизвестной кодировке
+                    helper.bin_write(self.code[code_name], _code_dir, 'image' if encoding == 'image' else 'text')
                 else:
                     self.write_raw_code(self.code[code_name], _code_dir, 'text', encoding=encoding,
                                         comment_directive=comment_directive)
-- 
2.43.0


From 4041985d57cdd2af1adbfadf89fce2ea00503b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:22 +0000
Subject: [PATCH 18/65] fix: do not put the byte order mark of an included file
 into the module

---
 src/v8unpack/organizer_code.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v8unpack/organizer_code.py b/src/v8unpack/organizer_code.py
index f714115..0351d90 100644
--- a/src/v8unpack/organizer_code.py
+++ b/src/v8unpack/organizer_code.py
@@ -83,7 +83,7 @@ class OrganizerCode:
             if helper.is_inside(_src_abs_path, src_dir) or os.path.normcase(path).find(normcase_src) >= 0:
                 _src_abs_path, file_name = pack_get_descent_filename(_src_abs_path, file_name, descent)
 
-            with open(os.path.join(_src_abs_path, file_name), 'r', encoding='utf-8') as file:
+            with open(os.path.join(_src_abs_path, file_name), 'r', encoding='utf-8-sig') as file:
                 line = file.readline()
                 while line:
                     _line = line.strip()
-- 
2.43.0


From 829132863fad8be47a0e9fbbe21ce0528a6eb663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:22 +0000
Subject: [PATCH 19/65] fix: keep the line after an include area on its own
 line

---
 src/v8unpack/organizer_code.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/v8unpack/organizer_code.py b/src/v8unpack/organizer_code.py
index 0351d90..80c35fa 100644
--- a/src/v8unpack/organizer_code.py
+++ b/src/v8unpack/organizer_code.py
@@ -90,6 +90,8 @@ class OrganizerCode:
                     if _line:
                         if _line.startswith('//DynamicDirective') and dynamic_directive:
                             line = f'{dynamic_directive} {line}'
+                    if data and data[-1] != '\n':  # строка после области не должна прилипнуть к её коду
+                        data += '\n'
                     data += line
                     if _line and _line[0] == '#':
                         if cls.is_area(_line):
-- 
2.43.0


From 97fd9cbd95959ddb1de16d071cb5b5edf39fcb9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:40 +0000
Subject: [PATCH 20/65] fix: keep the module and the form when an include area
 is named root

---
 src/v8unpack/organizer_code.py      | 4 ++--
 src/v8unpack/organizer_file.py      | 2 +-
 src/v8unpack/organizer_form_elem.py | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/v8unpack/organizer_code.py b/src/v8unpack/organizer_code.py
index 80c35fa..dec3614 100644
--- a/src/v8unpack/organizer_code.py
+++ b/src/v8unpack/organizer_code.py
@@ -21,9 +21,9 @@ class OrganizerCode:
     def unpack(cls, params):
         src_dir, path, file_name, dest_dir, index, descent = params
         self = cls()
-        self.code_areas = {'root': dict(data='')}
+        self.code_areas = {None: dict(data='')}  # None - сам модуль
         _path = ['']
-        _include_path = ['root']
+        _include_path = [None]
         with open(os.path.join(src_dir, path, file_name), 'r', encoding='utf-8-sig') as file:
             line = file.readline()
             while line:
diff --git a/src/v8unpack/organizer_file.py b/src/v8unpack/organizer_file.py
index 656ed75..d705ac0 100644
--- a/src/v8unpack/organizer_file.py
+++ b/src/v8unpack/organizer_file.py
@@ -86,7 +86,7 @@ class OrganizerFile:
             code_areas = OrganizerCode.unpack(params)
             for elem in code_areas:
                 _file = code_areas[elem]
-                if elem == 'root':
+                if elem is None:
                     _file['path'], _file['file_name'] = get_dest_path(dest_dir, path, file_name, index, descent)
                 else:
                     if _file['area_type'] == 'includr':
diff --git a/src/v8unpack/organizer_form_elem.py b/src/v8unpack/organizer_form_elem.py
index 5faec3b..be1f366 100644
--- a/src/v8unpack/organizer_form_elem.py
+++ b/src/v8unpack/organizer_form_elem.py
@@ -17,7 +17,7 @@ class OrganizerFormElem:
         areas = {}
         elements = helper.json_read(os.path.join(src_dir, path), file_name)
         cls._unpack_get_areas(elements['tree'], '', elements['data'], areas)
-        areas['root'] = elements
+        areas[None] = elements  # None - сама форма
         cls._unpack_write_areas(src_dir, path, file_name, dest_dir, index, descent, areas, unpack_get_descent_filename)
 
     @staticmethod
@@ -116,7 +116,7 @@ class OrganizerFormElem:
                             unpack_get_descent_filename):
         try:
             for elem in areas:
-                if elem == 'root':
+                if elem is None:
                     dest_entry_path, dest_file_name = get_dest_path(dest_dir, path, file_name, index, descent)
                 else:
                     dest_entry_path, dest_file_name = OrganizerCode.parse_include_path(
-- 
2.43.0


From 20f62d437fbd2870953c2b3485463121709e4e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:15 +0000
Subject: [PATCH 21/65] fix: look for an include area named by a file alone
 where the extraction puts it

---
 src/v8unpack/organizer_code.py      | 10 ++++++----
 src/v8unpack/organizer_form_elem.py |  8 ++++----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/v8unpack/organizer_code.py b/src/v8unpack/organizer_code.py
index dec3614..9fdbc93 100644
--- a/src/v8unpack/organizer_code.py
+++ b/src/v8unpack/organizer_code.py
@@ -70,12 +70,13 @@ class OrganizerCode:
     def pack(cls, params):
         src_dir, src_path, src_file_name, dest_dir, dest_path, dest_file_name, index_code_areas, \
         descent, pack_get_descent_filename = params
-        data = cls.pack_file(src_dir, src_path, src_file_name, index_code_areas, descent, pack_get_descent_filename)
+        data = cls.pack_file(src_dir, src_path, src_file_name, index_code_areas, descent, pack_get_descent_filename,
+                             module_path=dest_path)
         helper.txt_write(data, os.path.join(dest_dir, dest_path), dest_file_name)
 
     @classmethod
     def pack_file(cls, src_dir, path, file_name, index_code_areas, descent, pack_get_descent_filename,
-                  dynamic_directive=None):
+                  dynamic_directive=None, *, module_path):
         normcase_src = os.path.normcase('\\src\\')
         try:
             data = ''
@@ -100,13 +101,14 @@ class OrganizerCode:
 
                             current_dynamic_directive = area_name_parts[1] if len(area_name_parts) > 1 else dynamic_directive
 
-                            _path, _file_name = cls.parse_include_path(include_path, path, file_name, index_code_areas,
+                            _path, _file_name = cls.parse_include_path(include_path, module_path, file_name, index_code_areas,
                                                                        descent)
                             _src_abs_path = os.path.abspath(os.path.join(src_dir, _path))
                             if helper.is_inside(_src_abs_path, src_dir) or os.path.normcase(_path).find(normcase_src) >= 0:
                                 _path, _file_name = pack_get_descent_filename(_src_abs_path, _file_name, descent)
                             data += cls.pack_file(src_dir, _path, _file_name, index_code_areas, descent,
-                                                  pack_get_descent_filename, current_dynamic_directive)
+                                                  pack_get_descent_filename, current_dynamic_directive,
+                                                  module_path=module_path)
                     line = file.readline()
                 return data
         except ExtException as err:
diff --git a/src/v8unpack/organizer_form_elem.py b/src/v8unpack/organizer_form_elem.py
index be1f366..b33087e 100644
--- a/src/v8unpack/organizer_form_elem.py
+++ b/src/v8unpack/organizer_form_elem.py
@@ -143,7 +143,7 @@ class OrganizerFormElem:
             descent, pack_get_descent_filename = params
         elements = helper.json_read(os.path.join(src_dir, src_path), src_file_name)
         try:
-            cls._pack_get_areas(src_dir, src_path, src_file_name, elements['tree'], '', elements['data'],
+            cls._pack_get_areas(src_dir, dest_path, src_file_name, elements['tree'], '', elements['data'],
                                 index_code_areas, descent, pack_get_descent_filename)
         except Exception as err:
             raise ExtException(parent=err, message='Ошибка сборки элементов формы',
@@ -157,7 +157,7 @@ class OrganizerFormElem:
         return elem_class.get_class_form_elem(elem_type)
 
     @classmethod
-    def _pack_get_areas(cls, src_dir, src_path, file_name, tree, path, root_data, index_code_areas, descent,
+    def _pack_get_areas(cls, src_dir, dest_path, file_name, tree, path, root_data, index_code_areas, descent,
                         pack_get_descent_filename):
         for elem in tree:
             try:
@@ -167,7 +167,7 @@ class OrganizerFormElem:
                 if area_type:
                     area_name = name[8:]
                     _path, _file_name = OrganizerCode.parse_include_path(
-                        area_name, src_path, file_name, index_code_areas, descent, file_extension=file_name[-9::])
+                        area_name, dest_path, file_name, index_code_areas, descent, file_extension=file_name[-9::])
                     _src_abs_path = os.path.abspath(os.path.join(src_dir, _path))
                     if helper.is_inside(_src_abs_path, src_dir):
                         _src_abs_path, _file_name = pack_get_descent_filename(_src_abs_path, _file_name, descent)
@@ -179,7 +179,7 @@ class OrganizerFormElem:
                     continue
                 child = elem.get('child')
                 if child:
-                    cls._pack_get_areas(src_dir, src_path, file_name, child, new_path, root_data, index_code_areas,
+                    cls._pack_get_areas(src_dir, dest_path, file_name, child, new_path, root_data, index_code_areas,
                                         descent, pack_get_descent_filename)
             except Exception as err:
                 raise ExtException(parent=err, message='Ошибка сборки области формы', detail=elem['name'])
-- 
2.43.0


From e3da4aaa5f3f3aa24137c14763fe9795b7eac1b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:15 +0000
Subject: [PATCH 22/65] fix: find the form areas of a form whose own file was
 renamed or versioned

---
 src/v8unpack/organizer_form_elem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v8unpack/organizer_form_elem.py b/src/v8unpack/organizer_form_elem.py
index b33087e..1deb22b 100644
--- a/src/v8unpack/organizer_form_elem.py
+++ b/src/v8unpack/organizer_form_elem.py
@@ -143,7 +143,7 @@ class OrganizerFormElem:
             descent, pack_get_descent_filename = params
         elements = helper.json_read(os.path.join(src_dir, src_path), src_file_name)
         try:
-            cls._pack_get_areas(src_dir, dest_path, src_file_name, elements['tree'], '', elements['data'],
+            cls._pack_get_areas(src_dir, dest_path, dest_file_name, elements['tree'], '', elements['data'],
                                 index_code_areas, descent, pack_get_descent_filename)
         except Exception as err:
             raise ExtException(parent=err, message='Ошибка сборки элементов формы',
-- 
2.43.0


From 6b5d0c3eecb9ff0e329810fdfdb9c27e1a775d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:28 +0000
Subject: [PATCH 23/65] fix: do not lose a directive or the indent before
 //DynamicDirective

---
 src/v8unpack/organizer_code.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/v8unpack/organizer_code.py b/src/v8unpack/organizer_code.py
index 9fdbc93..b27af30 100644
--- a/src/v8unpack/organizer_code.py
+++ b/src/v8unpack/organizer_code.py
@@ -24,6 +24,7 @@ class OrganizerCode:
         self.code_areas = {None: dict(data='')}  # None - сам модуль
         _path = ['']
         _include_path = [None]
+        _directive = [None]
         with open(os.path.join(src_dir, path, file_name), 'r', encoding='utf-8-sig') as file:
             line = file.readline()
             while line:
@@ -31,8 +32,9 @@ class OrganizerCode:
                     _line = line.strip()
                     dynamic_directive_index = line.rfind(' //DynamicDirective')
                     if dynamic_directive_index >= 0:
-                        if line.find('&') >= 0:
-                            line = line[dynamic_directive_index + 1:]
+                        # сборщик вернет только директиву, действующую внутри include области
+                        if _line.startswith('&') and _directive[-1]:
+                            line = line[:line.find('&')] + line[dynamic_directive_index + 1:]
                     if _line and _line[0] == '#':
                         if _line.startswith('#Область'):
                             area_type = cls.is_area(_line)
@@ -46,6 +48,7 @@ class OrganizerCode:
                                 self.code_areas[_include_path[-1]]['data'] += line
                                 self.code_areas[key] = dict(data='', area_type=area_type)
                                 _include_path.append(key)
+                                _directive.append(area_name_parts[1] if len(area_name_parts) > 1 else _directive[-1])
                                 _path.append(key)
                             else:
                                 self.code_areas[_include_path[-1]]['data'] += line
@@ -55,6 +58,7 @@ class OrganizerCode:
                             if len(_path) > 1:  # у лишнего #КонецОбласти нет своей области
                                 if _path[-1]:  # кончилась include область
                                     _include_path.pop()
+                                    _directive.pop()
                                 _path.pop()
                             self.code_areas[_include_path[-1]]['data'] += line
                         else:
@@ -90,7 +94,7 @@ class OrganizerCode:
                     _line = line.strip()
                     if _line:
                         if _line.startswith('//DynamicDirective') and dynamic_directive:
-                            line = f'{dynamic_directive} {line}'
+                            line = line.replace('//', f'{dynamic_directive} //', 1)  # сохраняя отступ
                     if data and data[-1] != '\n':  # строка после области не должна прилипнуть к её коду
                         data += '\n'
                     data += line
-- 
2.43.0


From 843390a6679f88b1021fc9fc9c22e22ef290183c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:11 +0000
Subject: [PATCH 24/65] fix: build an older version when some files exist only
 for newer ones

---
 src/v8unpack/organizer_file.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/v8unpack/organizer_file.py b/src/v8unpack/organizer_file.py
index d705ac0..c80ccbe 100644
--- a/src/v8unpack/organizer_file.py
+++ b/src/v8unpack/organizer_file.py
@@ -266,8 +266,11 @@ class OrganizerFile:
                               index_code_areas, descent)
                     continue
                 _src_path = os.path.join(src_dir, path)
-                descent_full_src_path, descent_file_name = cls.pack_get_descent_filename(
-                    _src_path, entry, descent)
+                try:
+                    descent_full_src_path, descent_file_name = cls.pack_get_descent_filename(
+                        _src_path, entry, descent)
+                except FileNotFoundError:  # файл есть только в более новых версиях
+                    continue
                 if os.path.isfile(os.path.normcase(os.path.join(dest_dir, path, entry))):
                     # если файл уже есть, значит он был переопределен в индексе и делать ничего не надо
                     continue
-- 
2.43.0


From a4db71d68657606d9ee59fb52684065e869f1148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:11 +0000
Subject: [PATCH 25/65] fix: let the index override a module that is also among
 the sources, whatever the order of the workers

---
 src/v8unpack/organizer_file.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/v8unpack/organizer_file.py b/src/v8unpack/organizer_file.py
index c80ccbe..c4aaf51 100644
--- a/src/v8unpack/organizer_file.py
+++ b/src/v8unpack/organizer_file.py
@@ -145,7 +145,9 @@ class OrganizerFile:
             if index:
                 cls._pack_index(src_dir, dest_dir, tasks_code_file, tasks_form_elem, index, index_code_areas, [''],
                                 descent)
-            cls._pack(src_dir, dest_dir, '', tasks_code_file, tasks_form_elem, index, index_code_areas, descent)
+            index_tasks = {(task[4], task[5]) for task in tasks_code_file + tasks_form_elem}
+            cls._pack(src_dir, dest_dir, '', tasks_code_file, tasks_form_elem, index, index_code_areas, descent,
+                      index_tasks)
             helper.run_in_pool(OrganizerCode.pack, tasks_code_file, pool=pool, title=f'{"Собираем код из файлов":30}')
             helper.run_in_pool(OrganizerFormElem.pack, tasks_form_elem, pool=pool,
                                title=f'{"Собираем элементы форм":30}')
@@ -253,7 +255,8 @@ class OrganizerFile:
         return os.listdir(os.path.join(src_dir, path))
 
     @classmethod
-    def _pack(cls, src_dir, dest_dir, path, tasks_code_file, tasks_form_elem, index, index_code_areas, descent=None):
+    def _pack(cls, src_dir, dest_dir, path, tasks_code_file, tasks_form_elem, index, index_code_areas, descent=None,
+              index_tasks=()):
         if path:
             helper.makedirs(os.path.join(dest_dir, path), exist_ok=True)
         entries = cls.list_descent_dir(src_dir, path, descent)
@@ -263,7 +266,7 @@ class OrganizerFile:
 
                 if os.path.isdir(os.path.normcase(src_entry_path)):
                     cls._pack(src_dir, dest_dir, os.path.join(path, entry), tasks_code_file, tasks_form_elem, index,
-                              index_code_areas, descent)
+                              index_code_areas, descent, index_tasks)
                     continue
                 _src_path = os.path.join(src_dir, path)
                 try:
@@ -271,7 +274,8 @@ class OrganizerFile:
                         _src_path, entry, descent)
                 except FileNotFoundError:  # файл есть только в более новых версиях
                     continue
-                if os.path.isfile(os.path.normcase(os.path.join(dest_dir, path, entry))):
+                if (path, entry) in index_tasks \
+                        or os.path.isfile(os.path.normcase(os.path.join(dest_dir, path, entry))):
                     # если файл уже есть, значит он был переопределен в индексе и делать ничего не надо
                     continue
                 if entry.endswith('.bsl'):
-- 
2.43.0


From d90347c58a983af0a48c50e953ca8357efedbd22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:11 +0000
Subject: [PATCH 26/65] fix: do not take a file from the folder of * when the
 index keeps it in place

---
 src/v8unpack/organizer_file.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/v8unpack/organizer_file.py b/src/v8unpack/organizer_file.py
index c4aaf51..6a4aa03 100644
--- a/src/v8unpack/organizer_file.py
+++ b/src/v8unpack/organizer_file.py
@@ -211,6 +211,7 @@ class OrganizerFile:
                 if entry == 'Области include':
                     continue
                 if not index[entry]:
+                    completed_entry.append(entry)  # остается на месте, * его тоже не касается
                     continue
                 if entry.startswith("*"):
                     all_path = index[entry]
-- 
2.43.0


From 6a221b0f3bae57edfba45f776109acced49a22e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:11 +0000
Subject: [PATCH 27/65] fix: list the folder of * relative to the sources, not
 to the current directory

---
 src/v8unpack/organizer_file.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/v8unpack/organizer_file.py b/src/v8unpack/organizer_file.py
index 6a4aa03..1e6d1b3 100644
--- a/src/v8unpack/organizer_file.py
+++ b/src/v8unpack/organizer_file.py
@@ -215,7 +215,7 @@ class OrganizerFile:
                     continue
                 if entry.startswith("*"):
                     all_path = index[entry]
-                    all_files = os.listdir(all_path)
+                    all_files = os.listdir(os.path.join(src_dir, '..', '' if descent is None else '..', all_path))
                     excluded = entry.split('-')[1:]
                     for file_name in all_files:
                         # пропускаем все что были до
@@ -224,7 +224,8 @@ class OrganizerFile:
                         if file_name in excluded:
                             continue
                         file_path = os.path.join(all_path, file_name)
-                        if not os.path.isfile(os.path.normcase(file_path)):
+                        if not os.path.isfile(os.path.normcase(os.path.join(
+                                src_dir, '..', '' if descent is None else '..', file_path))):
                             continue
                         cls._pack_index_elem(file_name, src_dir, dest_dir, tasks_code_file, tasks_form_elem, file_path,
                                              index_code_areas, path, descent)
-- 
2.43.0


From bcd172e4fb8534a2b24064c22d134c96d19a24f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:56 +0000
Subject: [PATCH 28/65] fix: ordinary form with an unknown element type could
 not be built

---
 src/v8unpack/MetaDataObject/Form/FormCore.py                   | 3 +++
 .../MetaDataObject/Form/FormElements27/FormElements27.py       | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/src/v8unpack/MetaDataObject/Form/FormCore.py b/src/v8unpack/MetaDataObject/Form/FormCore.py
index 1ed03de..3c0479a 100644
--- a/src/v8unpack/MetaDataObject/Form/FormCore.py
+++ b/src/v8unpack/MetaDataObject/Form/FormCore.py
@@ -195,6 +195,9 @@ class FormCore(SimpleNameFolder):
                 form_element_decoder(self).decode(src_dir, dest_dir, dest_path, self.form[0][0])
             except Exception as err:
                 self.form = json.loads(backup)
+                # форма остаётся целой в описании, части которые успели разобрать не нужны
+                self.params, self.props, self.commands = [], [], []
+                self.elements_tree, self.elements_data = [], {}
                 pass  # todo если какие то елементы формы не разбираются, не прерываем
                 # raise ExtException(parent=err, message='Ошибка при разборе формы')
 
diff --git a/src/v8unpack/MetaDataObject/Form/FormElements27/FormElements27.py b/src/v8unpack/MetaDataObject/Form/FormElements27/FormElements27.py
index 5bff79c..a58b3ac 100644
--- a/src/v8unpack/MetaDataObject/Form/FormElements27/FormElements27.py
+++ b/src/v8unpack/MetaDataObject/Form/FormElements27/FormElements27.py
@@ -102,6 +102,8 @@ class FormElements27:
             # if raw_data[index_element_count] == 'Дочерние элементы отдельно':
             # elements = helper.json_read(src_dir, f'{file_name}.elements802.json')
             elements = helper.json_read(src_dir, f'{file_name}.elem.json')
+            if not elements['data']:  # форму не удалось разобрать на элементы, она целиком в описании
+                return raw_data
             self.form.props = elements['props']
             self.form.elements_data = elements['data']
             self.form.elements_tree = elements['tree']
-- 
2.43.0


From 00d197b06eea7a44a86cfaf8376416f47ae9d9e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:36 +0000
Subject: [PATCH 29/65] fix: an emptied group, table or property of a managed
 form was written with a placeholder

---
 .../MetaDataObject/Form/FormElements4/FormElement.py     | 3 ++-
 src/v8unpack/MetaDataObject/Form/FormElements4/Group.py  | 9 +++------
 src/v8unpack/MetaDataObject/Form/FormElements4/Table.py  | 9 +++------
 3 files changed, 8 insertions(+), 13 deletions(-)

diff --git a/src/v8unpack/MetaDataObject/Form/FormElements4/FormElement.py b/src/v8unpack/MetaDataObject/Form/FormElements4/FormElement.py
index 9506912..735e67c 100644
--- a/src/v8unpack/MetaDataObject/Form/FormElements4/FormElement.py
+++ b/src/v8unpack/MetaDataObject/Form/FormElements4/FormElement.py
@@ -355,7 +355,8 @@ class FormProps(_FormRoot):
         if pattern and len(pattern) > 1 and pattern[1][0] == '"#"' and \
                 pattern[1][1] == 'Родитель' and form.form.parent_container_uuid:
             pattern[1][1] = form.form.parent_container_uuid
-        if data.get('child'):
+        if data.get('child') or raw_data[cls.child_offset] == 'отдельно':
+            data['child'] = data.get('child') or []
             child_count = len(data['child'])
             raw_data[cls.child_offset] = str(child_count)
             childs = []
diff --git a/src/v8unpack/MetaDataObject/Form/FormElements4/Group.py b/src/v8unpack/MetaDataObject/Form/FormElements4/Group.py
index 33b38d2..6e1faaa 100644
--- a/src/v8unpack/MetaDataObject/Form/FormElements4/Group.py
+++ b/src/v8unpack/MetaDataObject/Form/FormElements4/Group.py
@@ -32,14 +32,11 @@ class Group(FormElement):
     @classmethod
     def encode(cls, form, path, data):
         try:
-            try:
-                child = data['child']
-            except KeyError:
-                child = []
+            child = data.get('child') or []
             raw_data = super().encode(form, path, data)
-            if not child:
-                return raw_data
             index = calc_offset([(3, 1), (1, 1), (17, 0)], raw_data)
+            if not child and raw_data[index] != 'Дочерние элементы отдельно':
+                return raw_data
             name_for_child = f"include_{data['name'][8:]}" if data['name'][:8] == 'includr_' else data['name']
             new_path = f"{path}/{name_for_child}" if path else name_for_child
             cls.encode_list(form, child, raw_data, index, new_path)
diff --git a/src/v8unpack/MetaDataObject/Form/FormElements4/Table.py b/src/v8unpack/MetaDataObject/Form/FormElements4/Table.py
index 739930d..995c5e0 100644
--- a/src/v8unpack/MetaDataObject/Form/FormElements4/Table.py
+++ b/src/v8unpack/MetaDataObject/Form/FormElements4/Table.py
@@ -41,13 +41,8 @@ class Table(FormElement):
     @classmethod
     def encode(cls, form, path, data):
         try:
-            try:
-                child = data['child']
-            except KeyError:
-                child = []
+            child = data.get('child') or []
             raw_data = super().encode(form, path, data)
-            if not child:
-                return raw_data
             cls.encode_columns(form, child, raw_data, data, f"{path}")
             return raw_data
         except Exception as err:
@@ -59,6 +54,8 @@ class Table(FormElement):
             index = calc_offset([
                 (4, 1), (50, 2), (7, 0)
             ], raw_data)
+            if not child and raw_data[index] != 'Дочерние элементы отдельно':
+                return
             cls.encode_list(form, child, raw_data, index, f"{path}/{data['name']}" if path else data['name'])
         except Exception as err:
             raise ExtException(parent=err)
\ No newline at end of file
-- 
2.43.0


From bc48b0365f9aeabd7270100fda3fc7a4343e5632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:52 +0000
Subject: [PATCH 30/65] fix: name of a form item addition with its own
 visibility

---
 src/v8unpack/MetaDataObject/Form/FormElements4/ItemAddition.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v8unpack/MetaDataObject/Form/FormElements4/ItemAddition.py b/src/v8unpack/MetaDataObject/Form/FormElements4/ItemAddition.py
index d9376f1..15c93b3 100644
--- a/src/v8unpack/MetaDataObject/Form/FormElements4/ItemAddition.py
+++ b/src/v8unpack/MetaDataObject/Form/FormElements4/ItemAddition.py
@@ -5,4 +5,4 @@ from v8unpack.helper import calc_offset
 class ItemAddition(FormElement):
     @classmethod
     def get_name_node_offset(cls, raw_data):
-        return calc_offset([(3, 1), (3, 0)], raw_data)
+        return calc_offset([(3, 1), (1, 1), (2, 0)], raw_data)
-- 
2.43.0


From a85b0081d68012d3c80be2aa9714c73c3114393a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:57 +0000
Subject: [PATCH 31/65] fix: group of a managed form whose name contains
 includr_ could not be built

---
 src/v8unpack/MetaDataObject/Form/FormElements4/Group.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/v8unpack/MetaDataObject/Form/FormElements4/Group.py b/src/v8unpack/MetaDataObject/Form/FormElements4/Group.py
index 6e1faaa..4fdfa22 100644
--- a/src/v8unpack/MetaDataObject/Form/FormElements4/Group.py
+++ b/src/v8unpack/MetaDataObject/Form/FormElements4/Group.py
@@ -24,8 +24,8 @@ class Group(FormElement):
 
         data = super().decode(form, path, raw_data)
         index = calc_offset([(3, 1), (1, 1), (17, 0)], raw_data)
-        new_path = f"{path}/{data['name']}" if path else data['name']
-        new_path = new_path.replace('includr_', 'include_')
+        name_for_child = f"include_{data['name'][8:]}" if data['name'][:8] == 'includr_' else data['name']
+        new_path = f"{path}/{name_for_child}" if path else name_for_child
         data['child'] = cls.decode_list(form, raw_data, index, new_path)
         return data
 
-- 
2.43.0


From dd8114f5497accaa4445a5407e21585f577d836f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:34 +0000
Subject: [PATCH 32/65] fix: auto_include of an ordinary form cut data sources
 that are attributes of an attribute

---
 .../MetaDataObject/Form/FormElements27/FormElement.py         | 2 +-
 .../MetaDataObject/Form/FormElements27/FormElements27.py      | 4 ++--
 src/v8unpack/MetaDataObject/Form/FormElements27/Panel.py      | 2 ++
 3 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/v8unpack/MetaDataObject/Form/FormElements27/FormElement.py b/src/v8unpack/MetaDataObject/Form/FormElements27/FormElement.py
index c65415c..9eda7f2 100644
--- a/src/v8unpack/MetaDataObject/Form/FormElements27/FormElement.py
+++ b/src/v8unpack/MetaDataObject/Form/FormElements27/FormElement.py
@@ -126,7 +126,7 @@ class FormElement:
                 prop_index = form.props_index.get(prop)
                 if not prop_index:
                     raise ExtException(message='Отсутствует свойство', detail=prop)
-                form.field_data_source.append((elem_id, prop_index))
+                form.field_data_source.append((elem_id, prop_index, elem_data.get('prop_path', [])))
 
             # type_index = elem_data.get('type_index')
             # if type_index:
diff --git a/src/v8unpack/MetaDataObject/Form/FormElements27/FormElements27.py b/src/v8unpack/MetaDataObject/Form/FormElements27/FormElements27.py
index a58b3ac..a354ef8 100644
--- a/src/v8unpack/MetaDataObject/Form/FormElements27/FormElements27.py
+++ b/src/v8unpack/MetaDataObject/Form/FormElements27/FormElements27.py
@@ -91,9 +91,9 @@ class FormElements27:
 
     def fill_datasource(self, raw_data):
         raw_data.append(str(len(self.field_data_source)))
-        for elem_id, prop_id in self.field_data_source:
+        for elem_id, prop_id, prop_path in self.field_data_source:
             raw_data.append(
-                [str(elem_id), ['1', [str(prop_id)]]]
+                [str(elem_id), [str(1 + len(prop_path)), [str(prop_id)], *prop_path]]
             )
 
     def encode(self, src_dir, file_name, version, raw_data, path=''):
diff --git a/src/v8unpack/MetaDataObject/Form/FormElements27/Panel.py b/src/v8unpack/MetaDataObject/Form/FormElements27/Panel.py
index f1da6e9..22258e6 100644
--- a/src/v8unpack/MetaDataObject/Form/FormElements27/Panel.py
+++ b/src/v8unpack/MetaDataObject/Form/FormElements27/Panel.py
@@ -71,6 +71,8 @@ class Panel(FormElement):
                 prop = self.form.props_index.get(elem_data['id'])
                 if prop:
                     self.elements_data[elem_id]['prop'] = prop['name']
+                    if len(prop['index']) > 2:  # источник данных - реквизит реквизита
+                        self.elements_data[elem_id]['prop_path'] = prop['index'][2:]
 
             return elem_tree, None, elem_id
         except Exception as err:
-- 
2.43.0


From c6d03e2fdf4c6c9cae0d4b318e53c062a58f2dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:41 +0000
Subject: [PATCH 33/65] fix: properties of a managed form were damaged when one
 of them could not be read

---
 src/v8unpack/MetaDataObject/Form/FormElements4/FormElement.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/v8unpack/MetaDataObject/Form/FormElements4/FormElement.py b/src/v8unpack/MetaDataObject/Form/FormElements4/FormElement.py
index 735e67c..6e83a1c 100644
--- a/src/v8unpack/MetaDataObject/Form/FormElements4/FormElement.py
+++ b/src/v8unpack/MetaDataObject/Form/FormElements4/FormElement.py
@@ -1,3 +1,4 @@
+from copy import deepcopy
 from enum import Enum
 
 from v8unpack import helper
@@ -265,6 +266,7 @@ class _FormRoot:
             if len(raw_data) <= cls.index:
                 return
             items = raw_data[cls.index]
+            backup = deepcopy(items)
             index_element_count = 1
             element_count = int(items[index_element_count])
             if not element_count:
@@ -277,7 +279,7 @@ class _FormRoot:
             del items[index_element_count + 1:index_element_count + 1 + element_count]
             return result
         except Exception as err:
-            pass
+            raw_data[cls.index] = backup  # список не разобран, часть его элементов уже могла быть изменена
 
     @classmethod
     def encode_list(cls, form, src_dir, file_name, version, raw_data):
-- 
2.43.0


From 40d710db9b55153603154268d98e4efc0cfb6aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:06 +0000
Subject: [PATCH 34/65] fix: build into a file given by its bare name

---
 src/v8unpack/container_writer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v8unpack/container_writer.py b/src/v8unpack/container_writer.py
index 7a70aa2..d66aa37 100644
--- a/src/v8unpack/container_writer.py
+++ b/src/v8unpack/container_writer.py
@@ -30,7 +30,7 @@ def build(src_dir, filename, nested=False):
     """
     begin = datetime.now()
     print(f'{"Запаковываем бинарник":30}:', end="")
-    helper.makedirs(os.path.dirname(filename), exist_ok=True)
+    helper.makedirs(os.path.dirname(os.path.abspath(filename)), exist_ok=True)
 
     containers = os.listdir(src_dir)
     _src_dir = containers[-1]
-- 
2.43.0


From 5e1742e1963c5c2a95fda28dac6dfa7fd3f9a90a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:06 +0000
Subject: [PATCH 35/65] fix: an empty index makes extract and build do nothing
 and report success

---
 src/v8unpack/v8unpack.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/v8unpack/v8unpack.py b/src/v8unpack/v8unpack.py
index 4bd1cc6..20996ca 100644
--- a/src/v8unpack/v8unpack.py
+++ b/src/v8unpack/v8unpack.py
@@ -25,8 +25,6 @@ def extract(in_filename: str, out_dir_name: str, *, temp_dir=None, index=None, p
         print(f"saby v8unpack {__version__}")
 
         index = check_index(index)
-        if not index and index is not None:
-            return
 
         print(f"Начали")
 
@@ -79,8 +77,6 @@ def build(in_dir_name: str, out_file_name: str, *, temp_dir=None, index=None,
         print(f"saby v8unpack {__version__}")
 
         index = check_index(index)
-        if not index and index is not None:
-            return
 
         print(f"Начали")
 
-- 
2.43.0


From bdff2c791e127a983a1488868e78e26c695f2785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:09 +0000
Subject: [PATCH 36/65] fix: file names inside a container can lead out of the
 folder it is extracted to

---
 src/v8unpack/container.py | 3 ++-
 src/v8unpack/helper.py    | 6 ++++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/v8unpack/container.py b/src/v8unpack/container.py
index ae94dc1..368e6b0 100644
--- a/src/v8unpack/container.py
+++ b/src/v8unpack/container.py
@@ -14,7 +14,7 @@ from struct import unpack
 from tqdm import tqdm
 
 from .container_doc import Document
-from .helper import clear_dir, file_size
+from .helper import check_file_name, clear_dir, file_size
 
 Header = collections.namedtuple('Header', 'first_empty_block_offset, default_block_size, count_files')
 Block = collections.namedtuple('Block', 'doc_size, current_block_size, next_block_offset, data')
@@ -92,6 +92,7 @@ class Container:
 
     @staticmethod
     def extract_file(filename, file_obj, path, deflate=False, recursive=False):
+        check_file_name(filename)
         file_path = os.path.join(path, filename)
         with open(file_path, 'wb') as f:
             if deflate:
diff --git a/src/v8unpack/helper.py b/src/v8unpack/helper.py
index 57a7e9f..053ff28 100644
--- a/src/v8unpack/helper.py
+++ b/src/v8unpack/helper.py
@@ -159,6 +159,12 @@ def is_inside(path: str, root: str) -> bool:
     return path == root or path.startswith(os.path.join(root, ''))
 
 
+def check_file_name(name: str) -> None:
+    # имена приходят из бинарника, файл с таким именем не должен оказаться вне своей папки
+    if name in ('', '.', '..') or os.path.basename(name) != name:
+        raise ExtException(message='Недопустимое имя файла', detail=repr(name))
+
+
 def clear_dir(path: str) -> None:
     shutil.rmtree(path, ignore_errors=True)
     makedirs(path, exist_ok=True)
-- 
2.43.0


From 6175e71e6ac17832f6dcef5efe8c550d8c72bbb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:09 +0000
Subject: [PATCH 37/65] fix: the name of an object can lead out of the folder
 of the sources

---
 src/v8unpack/helper.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/v8unpack/helper.py b/src/v8unpack/helper.py
index 053ff28..bd49996 100644
--- a/src/v8unpack/helper.py
+++ b/src/v8unpack/helper.py
@@ -125,6 +125,8 @@ def decode_header(meta_obj, header: list, *, id_in_separate_file=True):
     if prefix and obj['name'].startswith(prefix):
         obj['name'] = obj['name'][len(prefix):]
         header[2] = str_encode(obj['name'])
+    if obj['name']:
+        check_file_name(obj['name'])
     obj['name2'] = {}
     count_locale = int(header[3][0])
     for i in range(count_locale):
-- 
2.43.0


From 967b0232db70e66e734891dd94ef4e670ceebf75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:09 +0000
Subject: [PATCH 38/65] fix: a slash in the name of an area leads anywhere in
 the file system

---
 src/v8unpack/organizer_code.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/v8unpack/organizer_code.py b/src/v8unpack/organizer_code.py
index b27af30..5073d0b 100644
--- a/src/v8unpack/organizer_code.py
+++ b/src/v8unpack/organizer_code.py
@@ -127,6 +127,8 @@ class OrganizerCode:
 
     @staticmethod
     def parse_include_path(include_path, path, file_name, index_code_areas, descent=None, *, file_extension='bsl'):
+        if os.path.basename(include_path) != include_path:
+            raise ExtException(message='Недопустимое имя области', detail=f'{path} {file_name} {include_path}')
         if index_code_areas and include_path in index_code_areas:
             include_path = index_code_areas[include_path]
         tmp = include_path.split('_')
-- 
2.43.0


From ce9267917c726a8e00de729f42086612e515bdbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:41 +0000
Subject: [PATCH 39/65] fix: extraction with a prefix strips names the build
 does not restore

---
 src/v8unpack/MetaDataObject/__init__.py           | 1 +
 src/v8unpack/MetaDataObject/core/IncludeSimple.py | 3 +++
 src/v8unpack/MetaObject/__init__.py               | 1 +
 src/v8unpack/helper.py                            | 4 +++-
 4 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/v8unpack/MetaDataObject/__init__.py b/src/v8unpack/MetaDataObject/__init__.py
index d0ef541..ebf00f3 100644
--- a/src/v8unpack/MetaDataObject/__init__.py
+++ b/src/v8unpack/MetaDataObject/__init__.py
@@ -51,6 +51,7 @@ class MetaDataObject(MetaObject):
             header_data = cls.brace_file_read(src_dir, file_name)
             self = cls.get_handler(header_data, options)
             self.parent_container_uuid = parent_container_uuid
+            self.top_level = not os.path.dirname(dest_path)
             # self = cls()
             # if parent_type:
             #     self.title = parent_type
diff --git a/src/v8unpack/MetaDataObject/core/IncludeSimple.py b/src/v8unpack/MetaDataObject/core/IncludeSimple.py
index 7d047e6..d6c25d5 100644
--- a/src/v8unpack/MetaDataObject/core/IncludeSimple.py
+++ b/src/v8unpack/MetaDataObject/core/IncludeSimple.py
@@ -1,3 +1,5 @@
+import os
+
 from ...MetaDataObject import MetaDataObject
 from ...ext_exception import ExtException
 
@@ -19,6 +21,7 @@ class IncludeSimple(MetaDataObject):
     def decode_internal_include(cls, parent, header_data, src_dir, dest_dir, dest_path, options):
         try:
             self = cls(options=options)
+            self.top_level = not os.path.dirname(dest_path)
             self.decode_header(header_data)
             self.set_write_decode_mode(dest_dir, dest_path)
             self.decode_code(src_dir)
diff --git a/src/v8unpack/MetaObject/__init__.py b/src/v8unpack/MetaObject/__init__.py
index 4b1f855..7658db0 100644
--- a/src/v8unpack/MetaObject/__init__.py
+++ b/src/v8unpack/MetaObject/__init__.py
@@ -27,6 +27,7 @@ class MetaObject:
         self.name = None
         self.container_uuid = None
         self.parent_container_uuid = None
+        self.top_level = False
         self.code = {}
         self.file_list = []
         self.obj_version = obj_version
diff --git a/src/v8unpack/helper.py b/src/v8unpack/helper.py
index bd49996..10035cf 100644
--- a/src/v8unpack/helper.py
+++ b/src/v8unpack/helper.py
@@ -122,8 +122,10 @@ def decode_header(meta_obj, header: list, *, id_in_separate_file=True):
 
     prefix = meta_obj.options.get('prefix', '')
     obj['name'] = str_decode(header[2])
-    if prefix and obj['name'].startswith(prefix):
+    # при сборке префикс получают только собственные объекты верхнего уровня
+    if prefix and meta_obj.top_level and (len(header) < 6 or header[5] == '0') and obj['name'].startswith(prefix):
         obj['name'] = obj['name'][len(prefix):]
+        check_file_name(obj['name'])
         header[2] = str_encode(obj['name'])
     if obj['name']:
         check_file_name(obj['name'])
-- 
2.43.0


From 143d825bb88b5f0abd341b2768b7652ecfd7204c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:03 +0000
Subject: [PATCH 40/65] fix: the version option is ignored by the extraction

---
 src/v8unpack/MetaObject/Configuration.py          | 2 ++
 src/v8unpack/MetaObject/ConfigurationExtension.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/v8unpack/MetaObject/Configuration.py b/src/v8unpack/MetaObject/Configuration.py
index bc88c1f..1594f26 100644
--- a/src/v8unpack/MetaObject/Configuration.py
+++ b/src/v8unpack/MetaObject/Configuration.py
@@ -54,6 +54,8 @@ class Configuration(MetaObject):
         self.header['versions'] = helper.brace_file_read(src_dir, 'versions')
         # shutil.copy2(os.path.join(src_dir, 'versions.json'), os.path.join(dest_dir, 'versions.json'))
 
+        if version is None:
+            version = self.get_options('version')
         if version is None:
             self.header['compatibility_version'] = self.header['header'][0][3][1][1][26]
         else:
diff --git a/src/v8unpack/MetaObject/ConfigurationExtension.py b/src/v8unpack/MetaObject/ConfigurationExtension.py
index 0c93808..0a49bac 100644
--- a/src/v8unpack/MetaObject/ConfigurationExtension.py
+++ b/src/v8unpack/MetaObject/ConfigurationExtension.py
@@ -31,6 +31,8 @@ class ConfigurationExtension(Configuration):
         _form_header = self.get_decode_header(self.header['header'])
         helper.decode_header(self, _form_header, id_in_separate_file=False)
         product_version = self.header['header'][0][3][1][1][15]
+        if version is None:
+            version = self.get_options('version')
         if version is None:
             self.header['compatibility_version'] = self.header['header'][0][3][1][1][43]
         else:
-- 
2.43.0


From d6d6e2ee40f5717af38221c132bcecf098d44520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:56 +0000
Subject: [PATCH 41/65] fix: the product version of one build leaks into the
 next through the options

---
 src/v8unpack/v8unpack.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/v8unpack/v8unpack.py b/src/v8unpack/v8unpack.py
index 20996ca..9af92fd 100644
--- a/src/v8unpack/v8unpack.py
+++ b/src/v8unpack/v8unpack.py
@@ -20,8 +20,7 @@ from .version import __version__
 def extract(in_filename: str, out_dir_name: str, *, temp_dir=None, index=None, processes=None, options=None):
     try:
         begin0 = datetime.now()
-        if options is None:
-            options = dict()
+        options = dict(options) if options else {}  # при работе дополняются, переданное не меняем
         print(f"saby v8unpack {__version__}")
 
         index = check_index(index)
@@ -71,8 +70,7 @@ def build(in_dir_name: str, out_file_name: str, *, temp_dir=None, index=None,
           options=None, processes: int = None):
     try:
         begin0 = datetime.now()
-        if options is None:
-            options = {}
+        options = dict(options) if options else {}  # иначе версия продукта попадёт в следующую сборку
 
         print(f"saby v8unpack {__version__}")
 
-- 
2.43.0


From 953f87259cbc131bd5714ac2ea238be8d3ecec9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:58 +0000
Subject: [PATCH 42/65] fix: placeholders stay in the product when all nested
 objects are removed with auto_include

---
 src/v8unpack/MetaDataObject/__init__.py           | 2 +-
 src/v8unpack/MetaObject/Configuration.py          | 4 ++--
 src/v8unpack/MetaObject/ConfigurationExtension.py | 4 ++--
 src/v8unpack/MetaObject/ExternalDataProcessor.py  | 4 ++--
 4 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/v8unpack/MetaDataObject/__init__.py b/src/v8unpack/MetaDataObject/__init__.py
index ebf00f3..a2fd2fe 100644
--- a/src/v8unpack/MetaDataObject/__init__.py
+++ b/src/v8unpack/MetaDataObject/__init__.py
@@ -155,7 +155,7 @@ class MetaDataObject(MetaObject):
             self.name = self.header['name']
             self.uuid = data_id['uuid']
             self.obj_version = self.header['obj_version']
-            if include_index:
+            if include_index or self.get_options('auto_include'):
                 self.fill_header_includes(include_index)  # todo dynamic index
             self.encode_object(src_dir, src_file_name, dest_dir)
             self.write_encode_object(dest_dir)
diff --git a/src/v8unpack/MetaObject/Configuration.py b/src/v8unpack/MetaObject/Configuration.py
index 1594f26..417d41a 100644
--- a/src/v8unpack/MetaObject/Configuration.py
+++ b/src/v8unpack/MetaObject/Configuration.py
@@ -116,8 +116,8 @@ class Configuration(MetaObject):
             except KeyError:
                 pass
 
-        if include_index and self.get_options('auto_include'):
-            self.fill_header_includes(include_index)  # todo dynamic index
+        if self.get_options('auto_include'):
+            self.fill_header_includes(include_index or {})  # todo dynamic index
 
         helper.brace_file_write(self.header["root"], dest_dir, 'root')
         file_list.append('root')
diff --git a/src/v8unpack/MetaObject/ConfigurationExtension.py b/src/v8unpack/MetaObject/ConfigurationExtension.py
index 0a49bac..49457f4 100644
--- a/src/v8unpack/MetaObject/ConfigurationExtension.py
+++ b/src/v8unpack/MetaObject/ConfigurationExtension.py
@@ -86,8 +86,8 @@ class ConfigurationExtension(Configuration):
 
             helper.check_version(__version__, self.header.get('v8unpack', ''))
 
-            if include_index and self.get_options('auto_include'):
-                self.fill_header_includes(include_index)
+            if self.get_options('auto_include'):
+                self.fill_header_includes(include_index or {})
 
             # self.header['copyinfo'][2] = b64encode(bytes.fromhex(self.header['copyinfo'][2]+md5().digest().hex())).decode()
             root = [
diff --git a/src/v8unpack/MetaObject/ExternalDataProcessor.py b/src/v8unpack/MetaObject/ExternalDataProcessor.py
index fa3b75f..b3955d1 100644
--- a/src/v8unpack/MetaObject/ExternalDataProcessor.py
+++ b/src/v8unpack/MetaObject/ExternalDataProcessor.py
@@ -73,8 +73,8 @@ class ExternalDataProcessor(MetaObject):
 
             self.set_product_info(src_dir, file_name)
 
-            if include_index and self.get_options('auto_include'):
-                self.fill_header_includes(include_index)
+            if self.get_options('auto_include'):
+                self.fill_header_includes(include_index or {})
 
             helper.brace_file_write(self.encode_root(), dest_dir, 'root')
             file_list.append('root')
-- 
2.43.0


From 09623853557077d98cef7e357f5964742b60ba75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:02 +0000
Subject: [PATCH 43/65] fix: the first object of a type is built but not listed
 with auto_include

---
 src/v8unpack/MetaObject/__init__.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/v8unpack/MetaObject/__init__.py b/src/v8unpack/MetaObject/__init__.py
index 7658db0..433a096 100644
--- a/src/v8unpack/MetaObject/__init__.py
+++ b/src/v8unpack/MetaObject/__init__.py
@@ -151,12 +151,7 @@ class MetaObject:
             _metadata = include[i + 3]
             if isinstance(_metadata, str):  # лежит идентификатор типа режим auto_include
                 metadata_type = MetaDataTypes[_metadata]
-                internal_data = include_index.get(_metadata, [])
-
-                include_objects = sorted(internal_data, key=lambda d: d[1])
-                include_objects = list(map(lambda d: d[2], include_objects))
-
-                include[i + 3] = [metadata_type.value, str(len(include_objects)), *include_objects]
+                include[i + 3] = self.get_include_objects(metadata_type, include_index.get(_metadata, []))
 
                 internal_data = include_index.get(metadata_type)
                 if not internal_data:
@@ -172,6 +167,9 @@ class MetaObject:
                 internal_data = include_index.get(metadata_type.name)
                 if not internal_data:
                     return
+                if not _count_obj and self.get_options('auto_include'):  # объектов этого типа раньше не было
+                    include[i + 3] = self.get_include_objects(metadata_type, internal_data)
+                    return
                 # данные простых объектов пришли из внешних файлов и нужно поместить из в объект
                 internal_data_uuid = {}
                 for i, elem in enumerate(internal_data):
@@ -189,6 +187,11 @@ class MetaObject:
         except Exception as err:
             raise ExtException(parent=err)
 
+    @staticmethod
+    def get_include_objects(metadata_type, include_data):
+        include_objects = [elem[2] for elem in sorted(include_data, key=lambda d: d[1])]
+        return [metadata_type.value, str(len(include_objects)), *include_objects]
+
     def encode_includes(self, src_dir, file_name, dest_dir, parent_id):
         tasks = []
         includes = []
-- 
2.43.0


From e4353e90303eafa23cffaa2b48ade4874e6832fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:12 +0000
Subject: [PATCH 44/65] fix: update_index cannot be called as documented,
 without the target folder

---
 src/v8unpack/index.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v8unpack/index.py b/src/v8unpack/index.py
index dde9dda..6ae467f 100644
--- a/src/v8unpack/index.py
+++ b/src/v8unpack/index.py
@@ -26,7 +26,7 @@ def get_from_index(index: dict, path: str, file_name: str):
         )
 
 
-def update_index(src_dir: str, index_file_name: str, dest_dir: str):
+def update_index(src_dir: str, index_file_name: str, dest_dir: str = None):
     def _update_index(_src_dir, _index, _dest_dir, _path):
         entries = os.listdir(os.path.join(_src_dir, _path))
         for entry in entries:
-- 
2.43.0


From 09ea717c52d988ac00dc5e3ddec222039109677e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:12 +0000
Subject: [PATCH 45/65] fix: the number 0 in a file name is taken for a version

---
 src/v8unpack/helper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v8unpack/helper.py b/src/v8unpack/helper.py
index 10035cf..135d279 100644
--- a/src/v8unpack/helper.py
+++ b/src/v8unpack/helper.py
@@ -408,7 +408,7 @@ def remove_descent_from_filename(file_name):
         if len(_name) < 3:
             return file_name
         _descent = _name.pop(-2)
-        if str(int(_descent)) == _descent:
+        if str(int(_descent)) == _descent and _descent != '0':  # 0 - не версия, а номер файла (Role.0.c1brace)
             return '.'.join(_name)
     except Exception:
         pass
-- 
2.43.0


From 0b6a32c11a664928cb883c112a2404f19b55cf4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:25 +0000
Subject: [PATCH 46/65] fix: a failed extraction or build leaves its temporary
 folder and workers behind

---
 src/v8unpack/v8unpack.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/v8unpack/v8unpack.py b/src/v8unpack/v8unpack.py
index 9af92fd..8a55322 100644
--- a/src/v8unpack/v8unpack.py
+++ b/src/v8unpack/v8unpack.py
@@ -18,6 +18,8 @@ from .version import __version__
 
 
 def extract(in_filename: str, out_dir_name: str, *, temp_dir=None, index=None, processes=None, options=None):
+    pool = None
+    clear_temp_dir = False
     try:
         begin0 = datetime.now()
         options = dict(options) if options else {}  # при работе дополняются, переданное не меняем
@@ -31,7 +33,6 @@ def extract(in_filename: str, out_dir_name: str, *, temp_dir=None, index=None, p
 
         if descent is None:
             helper.clear_dir(os.path.normpath(out_dir_name))
-        clear_temp_dir = False
         if temp_dir is None:
             clear_temp_dir = True
             temp_dir = tempfile.mkdtemp()
@@ -63,11 +64,17 @@ def extract(in_filename: str, out_dir_name: str, *, temp_dir=None, index=None, p
         if clear_temp_dir:
             shutil.rmtree(temp_dir, ignore_errors=True)
     except Exception as err:
+        if pool is not None:
+            pool.terminate()
+        if clear_temp_dir:
+            shutil.rmtree(temp_dir, ignore_errors=True)
         raise ExtException(parent=err) from None
 
 
 def build(in_dir_name: str, out_file_name: str, *, temp_dir=None, index=None,
           options=None, processes: int = None):
+    pool = None
+    clear_temp_dir = False
     try:
         begin0 = datetime.now()
         options = dict(options) if options else {}  # иначе версия продукта попадёт в следующую сборку
@@ -78,7 +85,6 @@ def build(in_dir_name: str, out_file_name: str, *, temp_dir=None, index=None,
 
         print(f"Начали")
 
-        clear_temp_dir = False
         if temp_dir is None:
             clear_temp_dir = True
             temp_dir = tempfile.mkdtemp()
@@ -112,6 +118,10 @@ def build(in_dir_name: str, out_file_name: str, *, temp_dir=None, index=None,
         print(f'{"Готово":30}: {end - begin0}')
 
     except Exception as err:
+        if pool is not None:
+            pool.terminate()
+        if clear_temp_dir:
+            shutil.rmtree(temp_dir, ignore_errors=True)
         raise ExtException(parent=err) from None
 
 
-- 
2.43.0


From 1012c851b20c91553db864ec44524a1163b4cd98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:25 +0000
Subject: [PATCH 47/65] fix: the processes option of the command line is
 ignored

---
 src/v8unpack/v8unpack.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/v8unpack/v8unpack.py b/src/v8unpack/v8unpack.py
index 8a55322..6889911 100644
--- a/src/v8unpack/v8unpack.py
+++ b/src/v8unpack/v8unpack.py
@@ -265,20 +265,20 @@ def main():
     try:
         if args.E is not None:
             extract(os.path.abspath(args.E[0]), os.path.abspath(args.E[1]),
-                    index=args.index, temp_dir=args.temp, options=options)
+                    index=args.index, temp_dir=args.temp, processes=args.processes, options=options)
             return
 
         if args.B is not None:
             build(os.path.abspath(args.B[0]), os.path.abspath(args.B[1]),
-                  index=args.index, temp_dir=args.temp, options=options)
+                  index=args.index, temp_dir=args.temp, processes=args.processes, options=options)
             return
 
         if args.BA is not None:
-            build_all(args.BA[0], args.index)
+            build_all(args.BA[0], args.index, processes=args.processes)
             return
 
         if args.EA is not None:
-            extract_all(args.EA[0], args.index)
+            extract_all(args.EA[0], args.index, processes=args.processes)
             return
 
         if args.I is not None:
-- 
2.43.0


From 0c2e3b4d3ec407b580a475c5302ef8cb5db75dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:16 +0000
Subject: [PATCH 48/65] fix: a payload named .json or .bsl by the comment of
 its object replaces the description of the object

---
 src/v8unpack/helper.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/v8unpack/helper.py b/src/v8unpack/helper.py
index 135d279..00d573d 100644
--- a/src/v8unpack/helper.py
+++ b/src/v8unpack/helper.py
@@ -338,7 +338,8 @@ def get_extension_from_comment(comment: str) -> str:
     res = 'bin'
     if comment:
         ext = comment.split(" ")[-1]
-        if len(ext) < 6 and ext.isalnum():
+        # эти расширения заняты описаниями, модулями и неразобранными данными самого объекта
+        if len(ext) < 6 and ext.isalnum() and ext.lower() not in ('json', 'bsl', 'c1b64'):
             return ext
     return res
 
-- 
2.43.0


From 733c4364b8388c8bfb929b87ebf9bbef0c480f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:17 +0000
Subject: [PATCH 49/65] fix: a common picture without data loses its file in a
 build

---
 src/v8unpack/MetaDataObject/CommonPicture.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/v8unpack/MetaDataObject/CommonPicture.py b/src/v8unpack/MetaDataObject/CommonPicture.py
index 3f1c8e9..8a86fb9 100644
--- a/src/v8unpack/MetaDataObject/CommonPicture.py
+++ b/src/v8unpack/MetaDataObject/CommonPicture.py
@@ -36,8 +36,9 @@ class CommonPicture(Simple):
         try:
             bin_data = helper.bin_read(src_dir, f'{file_name}.{extension}')
             self.header['info'][0][2][0][0] += b64encode(bin_data).decode(encoding='utf-8')
+        except FileNotFoundError:
+            pass
+        if self.header.get('info'):
             file_name = f'{self.header["uuid"]}.0'
             helper.brace_file_write(self.header['info'], dest_dir, file_name)
             self.file_list.append(file_name)
-        except FileNotFoundError:
-            pass
-- 
2.43.0


From 54de7b72f08bc0e159b75a90b5b20b1817f22766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:11 +0000
Subject: [PATCH 50/65] fix: options given as 0 or an empty string on the
 command line are ignored

--descent 0 stands for the base version (docs/history.md, 0.12.4), but was dropped as if it had not been given,
and the folder of the sources was cleared.
---
 src/v8unpack/v8unpack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v8unpack/v8unpack.py b/src/v8unpack/v8unpack.py
index 6889911..c602692 100644
--- a/src/v8unpack/v8unpack.py
+++ b/src/v8unpack/v8unpack.py
@@ -259,7 +259,7 @@ def main():
     options_name = ['prefix', 'auto_include', 'descent', 'version']
     for elem in options_name:
         value = getattr(args, elem, None)
-        if value:
+        if value is not None and value is not False:
             options[elem] = value
 
     try:
-- 
2.43.0


From 1c9b35c0f65cb17c0bcccd247a21dfc31e31e3e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:46 +0000
Subject: [PATCH 51/65] fix: the pages of an empty panel inside an include area
 stay in the file of the form

A form that reads the area with includr_ was built with its own outdated pages or not at all.
---
 src/v8unpack/organizer_form_elem.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/v8unpack/organizer_form_elem.py b/src/v8unpack/organizer_form_elem.py
index 1deb22b..114ce8b 100644
--- a/src/v8unpack/organizer_form_elem.py
+++ b/src/v8unpack/organizer_form_elem.py
@@ -88,7 +88,7 @@ class OrganizerFormElem:
                     except Exception:
                         raise KeyNotFound(message='Не найден элемент формы', detail=old_path)
                     child = elem.get('child')
-                    if child:
+                    if child is not None:
                         cls._pop_area_data(child, old_path, root_data, data, remove_path)
 
             pages = root_data.pop(f'{path}/-pages-', None)
@@ -198,7 +198,7 @@ class OrganizerFormElem:
                     except Exception:
                         raise KeyNotFound(message='Не найден элемент формы', detail=old_path)
                     child = elem.get('child')
-                    if child:
+                    if child is not None:
                         cls._append_area_data(child, old_path, root_data, data, append_path)
 
             pages = data.pop(f'{_path}/-pages-', None)
-- 
2.43.0


From 668da7a92b52a5d5218607fb2a3544e4509bcc36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:30 +0000
Subject: [PATCH 52/65] fix: a failed extraction or build could wait for ever
 for its workers

Pool.terminate() kills a worker that may hold the lock of the queue the pool itself then needs; the workers are
left to finish their tasks instead.
---
 src/v8unpack/v8unpack.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/v8unpack/v8unpack.py b/src/v8unpack/v8unpack.py
index c602692..dd24b6f 100644
--- a/src/v8unpack/v8unpack.py
+++ b/src/v8unpack/v8unpack.py
@@ -65,7 +65,7 @@ def extract(in_filename: str, out_dir_name: str, *, temp_dir=None, index=None, p
             shutil.rmtree(temp_dir, ignore_errors=True)
     except Exception as err:
         if pool is not None:
-            pool.terminate()
+            helper.close_pool(pool)  # terminate может зависнуть, если рабочий процесс держит очередь
         if clear_temp_dir:
             shutil.rmtree(temp_dir, ignore_errors=True)
         raise ExtException(parent=err) from None
@@ -119,7 +119,7 @@ def build(in_dir_name: str, out_file_name: str, *, temp_dir=None, index=None,
 
     except Exception as err:
         if pool is not None:
-            pool.terminate()
+            helper.close_pool(pool)  # terminate может зависнуть, если рабочий процесс держит очередь
         if clear_temp_dir:
             shutil.rmtree(temp_dir, ignore_errors=True)
         raise ExtException(parent=err) from None
-- 
2.43.0


From a0d52cfeed4122c4ac3c09c7933eb15eaf38f5da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:30 +0000
Subject: [PATCH 53/65] fix: a TypeError instead of the reason when the
 temporary folder cannot be made

The cleaning up after the failure met a temporary folder without a name.
---
 src/v8unpack/v8unpack.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/v8unpack/v8unpack.py b/src/v8unpack/v8unpack.py
index dd24b6f..a2b8773 100644
--- a/src/v8unpack/v8unpack.py
+++ b/src/v8unpack/v8unpack.py
@@ -34,8 +34,8 @@ def extract(in_filename: str, out_dir_name: str, *, temp_dir=None, index=None, p
         if descent is None:
             helper.clear_dir(os.path.normpath(out_dir_name))
         if temp_dir is None:
-            clear_temp_dir = True
             temp_dir = tempfile.mkdtemp()
+            clear_temp_dir = True
         helper.clear_dir(os.path.normpath(temp_dir))
 
         dir_stage0 = os.path.join(temp_dir, 'decode_stage_0')
@@ -86,8 +86,8 @@ def build(in_dir_name: str, out_file_name: str, *, temp_dir=None, index=None,
         print(f"Начали")
 
         if temp_dir is None:
-            clear_temp_dir = True
             temp_dir = tempfile.mkdtemp()
+            clear_temp_dir = True
         helper.clear_dir(os.path.normpath(temp_dir))
 
         dir_stage0 = os.path.join(temp_dir, 'encode_stage_0')
-- 
2.43.0


From b51a75dd8e523c202b915d1799fe1bc7f5544c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:53 +0000
Subject: [PATCH 54/65] fix: files that cannot be removed are passed off as
 part of the new result

clear_dir ignored every error, also for a folder reached through a link, and old files stayed among the new ones.
---
 src/v8unpack/helper.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/v8unpack/helper.py b/src/v8unpack/helper.py
index 00d573d..d0ad02f 100644
--- a/src/v8unpack/helper.py
+++ b/src/v8unpack/helper.py
@@ -171,6 +171,9 @@ def check_file_name(name: str) -> None:
 
 def clear_dir(path: str) -> None:
     shutil.rmtree(path, ignore_errors=True)
+    for root, _, files in os.walk(path):  # не удалилось, но и за новый результат выдавать нельзя
+        for file in files:
+            os.remove(os.path.join(root, file))
     makedirs(path, exist_ok=True)
 
 
-- 
2.43.0


From 15574b25bf1bba344ec78f9b585565fb0404accf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:33 +0000
Subject: [PATCH 55/65] fix: a table of contents that ends inside an entry
 loses its last file silently

---
 src/v8unpack/container.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/v8unpack/container.py b/src/v8unpack/container.py
index 368e6b0..78d2324 100644
--- a/src/v8unpack/container.py
+++ b/src/v8unpack/container.py
@@ -14,6 +14,7 @@ from struct import unpack
 from tqdm import tqdm
 
 from .container_doc import Document
+from .ext_exception import ExtException
 from .helper import check_file_name, clear_dir, file_size
 
 Header = collections.namedtuple('Header', 'first_empty_block_offset, default_block_size, count_files')
@@ -168,8 +169,10 @@ class Container:
         # Первый документ после заголовка содержит оглавление
         doc = Document(self)
         doc_data = doc.read(file, self.header_size, self.index_block_size)
-        table_of_contents = [unpack(f'2{self.index_fmt}', x) for x in
-                             doc_data.split(pack(self.index_fmt, self.end_marker))[:-1]]
+        *entries, rest = doc_data.split(pack(self.index_fmt, self.end_marker))
+        if rest.strip(b'\x00'):
+            raise ExtException(message='Контейнер поврежден', detail='оглавление обрывается')
+        table_of_contents = [unpack(f'2{self.index_fmt}', x) for x in entries]
 
         files = collections.OrderedDict()
         for file_description_offset, file_data_offset in table_of_contents:
-- 
2.43.0


From 4490852fa678f027b2072e5f0c18217a09896806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:01 +0000
Subject: [PATCH 56/65] fix: an object whose identifiers are lost is left out
 of the product silently

---
 src/v8unpack/MetaDataObject/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/v8unpack/MetaDataObject/__init__.py b/src/v8unpack/MetaDataObject/__init__.py
index a2fd2fe..2bf5bbf 100644
--- a/src/v8unpack/MetaDataObject/__init__.py
+++ b/src/v8unpack/MetaDataObject/__init__.py
@@ -123,9 +123,11 @@ class MetaDataObject(MetaObject):
             # self = cls.get_handler(header_data, options)
             try:
                 data_id = helper.json_read(src_dir, f'{src_file_name}.id.json')
-                header = helper.json_read(src_dir, f'{src_file_name}.json')
             except FileNotFoundError:
+                if os.path.isfile(os.path.join(src_dir, f'{src_file_name}.json')):
+                    raise  # описание объекта есть, но не полностью
                 return None, None
+            header = helper.json_read(src_dir, f'{src_file_name}.json')
             self = cls.get_handler(header['header'], options)
             self.header = header
             self.encode_ids(data_id)
-- 
2.43.0


From 18b759e1141ebb817a3957db58f18b5eff9f68a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:31 +0000
Subject: [PATCH 57/65] fix: commands whose folder is lost leave their
 identifiers in the product instead of an error

---
 src/v8unpack/MetaDataObject/__init__.py |  3 +--
 src/v8unpack/MetaObject/__init__.py     | 12 ++++++++++++
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/v8unpack/MetaDataObject/__init__.py b/src/v8unpack/MetaDataObject/__init__.py
index 2bf5bbf..9374415 100644
--- a/src/v8unpack/MetaDataObject/__init__.py
+++ b/src/v8unpack/MetaDataObject/__init__.py
@@ -157,8 +157,7 @@ class MetaDataObject(MetaObject):
             self.name = self.header['name']
             self.uuid = data_id['uuid']
             self.obj_version = self.header['obj_version']
-            if include_index or self.get_options('auto_include'):
-                self.fill_header_includes(include_index)  # todo dynamic index
+            self.fill_header_includes(include_index or {})  # todo dynamic index
             self.encode_object(src_dir, src_file_name, dest_dir)
             self.write_encode_object(dest_dir)
             return dict(
diff --git a/src/v8unpack/MetaObject/__init__.py b/src/v8unpack/MetaObject/__init__.py
index 433a096..148aed0 100644
--- a/src/v8unpack/MetaObject/__init__.py
+++ b/src/v8unpack/MetaObject/__init__.py
@@ -166,6 +166,10 @@ class MetaObject:
                     return
                 internal_data = include_index.get(metadata_type.name)
                 if not internal_data:
+                    if _count_obj and isinstance(_metadata[2], str) and self.is_internal_type(metadata_type):
+                        # вместо описаний вложенных объектов остались бы их идентификаторы
+                        raise ExtException(message='Не найдены данные внутреннего типа',
+                                           detail=f"{metadata_type.name} {_metadata[2]}")
                     return
                 if not _count_obj and self.get_options('auto_include'):  # объектов этого типа раньше не было
                     include[i + 3] = self.get_include_objects(metadata_type, internal_data)
@@ -187,6 +191,14 @@ class MetaObject:
         except Exception as err:
             raise ExtException(parent=err)
 
+    @staticmethod
+    def is_internal_type(metadata_type):
+        try:
+            handler = helper.get_class_metadata_object(metadata_type.name)
+        except Exception:
+            return False  # разбор таких объектов не поддержан, они остались на своём месте
+        return hasattr(handler, 'decode_internal_include')
+
     @staticmethod
     def get_include_objects(metadata_type, include_data):
         include_objects = [elem[2] for elem in sorted(include_data, key=lambda d: d[1])]
-- 
2.43.0


From 75b9bad33816d79005c6dd566ec6744f08b722dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:20 +0000
Subject: [PATCH 58/65] fix: a directive in the first line of a module is not
 commented for platforms without directives

---
 src/v8unpack/MetaObject/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/v8unpack/MetaObject/__init__.py b/src/v8unpack/MetaObject/__init__.py
index 148aed0..60030ca 100644
--- a/src/v8unpack/MetaObject/__init__.py
+++ b/src/v8unpack/MetaObject/__init__.py
@@ -17,8 +17,8 @@ class MetaObject:
     _obj_name = None
 
     re_meta_data_obj = re.compile('^[^.]+\.json$')
-    directive_1c_uncomment = re.compile('(?P<n>\\n)(?P<d>#Область|#КонецОбласти|&НаСервере|&НаКлиенте)')
-    directive_1c_comment = re.compile('(?P<n>\\n)(?P<c>// v8unpack )(?P<d>[#|&])')
+    directive_1c_uncomment = re.compile('(?P<n>^\ufeff?|\\n)(?P<d>#Область|#КонецОбласти|&НаСервере|&НаКлиенте)')
+    directive_1c_comment = re.compile('(?P<n>^\ufeff?|\\n)(?P<c>// v8unpack )(?P<d>[#|&])')
 
     def __init__(self, *, meta_obj_class=None, obj_version='803', options=None):
         self.meta_obj_class = meta_obj_class
-- 
2.43.0


From dfd5e390aa1cacf6d2c78f8a4c2f1b81af6428c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:26 +0000
Subject: [PATCH 59/65] fix: a form without contents of its own gets an empty
 part, and an ordinary one loses its second part

---
 src/v8unpack/MetaDataObject/Form/FormCore.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/v8unpack/MetaDataObject/Form/FormCore.py b/src/v8unpack/MetaDataObject/Form/FormCore.py
index 3c0479a..688b269 100644
--- a/src/v8unpack/MetaDataObject/Form/FormCore.py
+++ b/src/v8unpack/MetaDataObject/Form/FormCore.py
@@ -77,6 +77,8 @@ class FormCore(SimpleNameFolder):
             else:
                 self.decode_form0_from_file(_code_dir, file_name)
                 pass
+        else:
+            self.form.append([])  # место .0, чтобы на него не попало содержимое .1
 
     def decode_form1(self, src_dir):
         try:
@@ -303,7 +305,7 @@ class FormCore(SimpleNameFolder):
             else:
                 helper.brace_file_write(self.encode_header(), dest_dir, self.header["uuid"])
                 self.file_list.append(self.header["uuid"])
-                if self.form:
+                if self.form and self.form[0]:  # у формы может не быть своих данных
                     file_name = f'{self.header["uuid"]}.0'
                     helper.brace_file_write(self.form[0], dest_dir, file_name)
                     self.file_list.append(file_name)
-- 
2.43.0


From 4b6f5e11f120dd6fe06077ebc5cade8a0338358e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:39 +0000
Subject: [PATCH 60/65] fix: a module whose text is missing from the product is
 extracted as an empty one

---
 src/v8unpack/MetaDataObject/Form/FormCore.py | 2 ++
 src/v8unpack/MetaObject/__init__.py          | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/v8unpack/MetaDataObject/Form/FormCore.py b/src/v8unpack/MetaDataObject/Form/FormCore.py
index 688b269..9f7265e 100644
--- a/src/v8unpack/MetaDataObject/Form/FormCore.py
+++ b/src/v8unpack/MetaDataObject/Form/FormCore.py
@@ -90,6 +90,8 @@ class FormCore(SimpleNameFolder):
     def decode_form0_from_dir(self, src_dir):
         self.form.append(helper.brace_file_read(src_dir, 'form'))
         self.code['obj'], encoding = self.read_raw_code(src_dir, 'module', uncomment_directive=True)
+        if self.code['obj'] is None:
+            raise ExtException(message='Не найден текст модуля формы', detail=os.path.basename(src_dir))
         self.header['code_encoding_obj'] = encoding  # можно безболезненно поменять на utf-8-sig
         self.header[f'code_info_obj'] = 1
 
diff --git a/src/v8unpack/MetaObject/__init__.py b/src/v8unpack/MetaObject/__init__.py
index 60030ca..0aeab2b 100644
--- a/src/v8unpack/MetaObject/__init__.py
+++ b/src/v8unpack/MetaObject/__init__.py
@@ -322,6 +322,8 @@ class MetaObject:
                             self.code[code_name] = helper.bin_read(_obj_code_dir, encrypted_type)
                             self.header[f'code_encoding_{code_name}'] = encrypted_type
                             break
+                    else:
+                        raise ExtException(message='Не найден текст модуля', detail=os.path.basename(_obj_code_dir))
             else:
                 code_file_name = f'{self.header["uuid"]}.{self.ext_code[code_name]}'
                 self.code[code_name], encoding = self.read_raw_code(src_dir, code_file_name,
-- 
2.43.0


From 1117288a0d8992e3f341298ac1486b3d7c5e2460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:02 +0000
Subject: [PATCH 61/65] fix: a folder inside a nested container could not be
 packed: its data file was already closed

---
 src/v8unpack/container.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v8unpack/container.py b/src/v8unpack/container.py
index 78d2324..5ae090b 100644
--- a/src/v8unpack/container.py
+++ b/src/v8unpack/container.py
@@ -205,7 +205,7 @@ class Container:
                 with tempfile.TemporaryFile() as tmp2:
                     _container = Container()
                     _container.build(tmp2, file_path, nested=True)
-                self.add_file(tmp2, file_name, inflate=not nested)
+                    self.add_file(tmp2, file_name, inflate=not nested)
             else:
                 with open(file_path, 'rb') as entry_file:
                     self.add_file(entry_file, file_name, inflate=not nested)
-- 
2.43.0


From cd1fae6ddce7e5445908ac2a390090aad728e4cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:05 +0000
Subject: [PATCH 62/65] fix: packing a container with compression wrote the
 files without block headers and failed

---
 src/v8unpack/container.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/v8unpack/container.py b/src/v8unpack/container.py
index 5ae090b..1833eab 100644
--- a/src/v8unpack/container.py
+++ b/src/v8unpack/container.py
@@ -271,7 +271,9 @@ class Container:
 
         doc = Document(self)
         if inflate:
-            data_doc_offset = doc.compress(fd, self.file)
+            with tempfile.TemporaryFile() as compressed:
+                doc.compress(fd, compressed)
+                data_doc_offset = doc.write(compressed, min_block_size=self.default_block_size)
         else:
             data_doc_offset = doc.write(fd, min_block_size=self.default_block_size)
 
-- 
2.43.0


From 334707ace31b350390e4064ce781241ba2591ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:58 +0000
Subject: [PATCH 63/65] fix: a nested container was left packed when its first
 decompressed piece was shorter than its mark

---
 src/v8unpack/container_reader.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/v8unpack/container_reader.py b/src/v8unpack/container_reader.py
index ac08ff2..cb128a3 100644
--- a/src/v8unpack/container_reader.py
+++ b/src/v8unpack/container_reader.py
@@ -78,7 +78,6 @@ def decompress_file_and_extract(params):
     src_folder, filename, dest_folder = params
     src_path = os.path.join(src_folder, filename)
     dest_path = os.path.join(dest_folder, filename)
-    file_is_container = None
 
     # wbits = -15 т.к. у архивированных файлов нет заголовков
     decompressor = zlib.decompressobj(-15)
@@ -96,8 +95,6 @@ def decompress_file_and_extract(params):
                         if decompressor.eof:
                             break
                         continue
-                    if file_is_container is None:
-                        file_is_container = data[0:4] == b'\xFF\xFF\xFF\x7F'
                     dest.write(data)
                 if src.tell() and not decompressor.eof:
                     raise EOFError('архив обрывается')
@@ -106,6 +103,10 @@ def decompress_file_and_extract(params):
         # Для проверки является ли файл контейнером проверим первые 4 бита
         # Способ проверки ненадежный - нужно придумать что-то другое
 
+        # (первая порция распакованных данных может быть короче)
+        with open(dest_path, 'rb') as dest:
+            file_is_container = dest.read(4) == b'\xFF\xFF\xFF\x7F'
+
         if file_is_container:
             temp_filename = dest_path + ".temp"
             os.rename(dest_path, temp_filename)
-- 
2.43.0


From 8ab02cb0e469719f0afd0b23d2c53580510506b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:34 +0000
Subject: [PATCH 64/65] fix: a binary template whose data are #data: lost its
 first bytes, an empty one its file

---
 src/v8unpack/MetaDataObject/Template.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/v8unpack/MetaDataObject/Template.py b/src/v8unpack/MetaDataObject/Template.py
index db5bfac..d5dfb86 100644
--- a/src/v8unpack/MetaDataObject/Template.py
+++ b/src/v8unpack/MetaDataObject/Template.py
@@ -124,12 +124,17 @@ class Template2(Simple):
                     os.path.join(self.new_dest_dir, f'{self.new_dest_file_name}')
                 )
             return
-        if data[0][1] and data[0][1][0]:
-            self.data = b64decode(data[0][1][0][8:])
-            data[0][1][0] = '"данные в отдельном файле"'
-            if write:
-                extension = helper.get_extension_from_comment(self.header['comment'])
-                helper.bin_write(self.data, self.new_dest_dir, f'{self.new_dest_file_name}.{extension}')
+        value = data[0][1] if len(data) == 1 and len(data[0]) == 2 and data[0][0] == '1' else None
+        if not isinstance(value, list) or len(value) != 1 or not str(value[0]).startswith('#base64:'):
+            # у данных другой вид (#data: или пусто), из одного содержимого файл не собрать
+            shutil.copy2(os.path.join(src_dir, filename),
+                         os.path.join(self.new_dest_dir, f'{self.new_dest_file_name}.c1b64'))
+            return
+        self.data = b64decode(value[0][8:])
+        value[0] = '"данные в отдельном файле"'
+        if write:
+            extension = helper.get_extension_from_comment(self.header['comment'])
+            helper.bin_write(self.data, self.new_dest_dir, f'{self.new_dest_file_name}.{extension}')
 
     def decode_html_data(self, src_dir, dest_dir, write):
         self._decode_html_data(src_dir, dest_dir, self.new_dest_file_name)
-- 
2.43.0


From d38ecfce70a0355c4ea8376bd0547fc74c83d458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:32:36 +0000
Subject: [PATCH 65/65] fix: files named in the index after * were taken from
 its folder by a build

---
 src/v8unpack/organizer_file.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/v8unpack/organizer_file.py b/src/v8unpack/organizer_file.py
index 1e6d1b3..53d8f16 100644
--- a/src/v8unpack/organizer_file.py
+++ b/src/v8unpack/organizer_file.py
@@ -205,21 +205,19 @@ class OrganizerFile:
     def _pack_index(cls, src_dir: str, dest_dir: str, tasks_code_file: list, tasks_form_elem, index: dict,
                     index_code_areas: dict, path: list,
                     descent=None):
-        completed_entry = []
         for entry in index:
             try:
                 if entry == 'Области include':
                     continue
                 if not index[entry]:
-                    completed_entry.append(entry)  # остается на месте, * его тоже не касается
-                    continue
+                    continue  # остается на месте, * его тоже не касается
                 if entry.startswith("*"):
                     all_path = index[entry]
                     all_files = os.listdir(os.path.join(src_dir, '..', '' if descent is None else '..', all_path))
                     excluded = entry.split('-')[1:]
                     for file_name in all_files:
-                        # пропускаем все что были до
-                        if file_name in completed_entry:
+                        # пропускаем все что указаны сами, до * или после (так их дописывает -I)
+                        if file_name in index:
                             continue
                         if file_name in excluded:
                             continue
@@ -238,7 +236,6 @@ class OrganizerFile:
                     path.pop()
                     pass
                 elif isinstance(index[entry], str):
-                    completed_entry.append(entry)
                     cls._pack_index_elem(entry, src_dir, dest_dir, tasks_code_file, tasks_form_elem, index[entry],
                                          index_code_areas, path, descent)
                 else:
-- 
2.43.0


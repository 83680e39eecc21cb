From 11283dcc193bea46a420742340f62feaa765f26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:39 +0000
Subject: [PATCH 01/66] fix: keep the temporary file of a nested directory open
 while it is added to the container

---
 src/v8unpack/container.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v8unpack/container.py b/src/v8unpack/container.py
index 23ec4c6..e69a56e 100644
--- a/src/v8unpack/container.py
+++ b/src/v8unpack/container.py
@@ -205,7 +205,7 @@ class Container:
                 with tempfile.TemporaryFile() as tmp2:
                     _container = Container()
                     _container.build(tmp2, file_path, nested=True)
-                self.add_file(tmp2, file_name, inflate=not nested)
+                    self.add_file(tmp2, file_name, inflate=not nested)
             else:
                 with open(file_path, 'rb') as entry_file:
                     self.add_file(entry_file, file_name, inflate=not nested)
-- 
2.43.0


From 43a34e7fed7f6d8407663a6047e0e5740fd5714a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:12 +0000
Subject: [PATCH 02/66] fix: find the end of a container by its blocks instead
 of estimating document sizes

---
 src/v8unpack/container.py     |  4 ----
 src/v8unpack/container_doc.py | 22 ++++++++++++----------
 2 files changed, 12 insertions(+), 14 deletions(-)

diff --git a/src/v8unpack/container.py b/src/v8unpack/container.py
index e69a56e..a04f705 100644
--- a/src/v8unpack/container.py
+++ b/src/v8unpack/container.py
@@ -164,19 +164,16 @@ class Container:
         :return: словарь файлов в контейнере
         :rtype: OrderedDict
         """
-        size = 0
         # Первый документ после заголовка содержит оглавление
         doc = Document(self)
         doc_data = doc.read(file, self.header_size, self.index_block_size)
         table_of_contents = [unpack(f'2{self.index_fmt}', x) for x in
                              doc_data.split(pack(self.index_fmt, self.end_marker))[:-1]]
-        self.size += self.header_size + doc.full_size
 
         files = collections.OrderedDict()
         for file_description_offset, file_data_offset in table_of_contents:
             doc = Document(self)
             doc_data = doc.read(file, file_description_offset)
-            self.size += doc.full_size
             fmt = ''.join(['QQi', str(doc.data_size - calcsize('QQi')), 's'])
             file_description = unpack(fmt, doc_data)
             # Из описания формата длина имени файла определяется точно, поэтому, теоретически, мусора быть не должно
@@ -186,7 +183,6 @@ class Container:
 
             doc = Document(self)
             file_data = doc.read_chunk(file, file_data_offset, self.default_block_size)
-            self.size += doc.full_size
 
             inner_file = File(name, doc.data_size, self.parse_datetime(file_description[0]),
                               self.parse_datetime(file_description[1]), file_data)
diff --git a/src/v8unpack/container_doc.py b/src/v8unpack/container_doc.py
index 1c0b601..848410f 100644
--- a/src/v8unpack/container_doc.py
+++ b/src/v8unpack/container_doc.py
@@ -2,7 +2,6 @@
 import collections
 import datetime
 import io
-import math
 import os
 import tempfile
 import zlib
@@ -25,7 +24,6 @@ BUFFER_CHUNK_SIZE = 512
 class Document:
     def __init__(self, container):
         self.container = container
-        self.full_size = 0  # include all header size
         self.data_size = 0
 
     def read(self, file, offset, min_block_size=0):
@@ -65,14 +63,6 @@ class Document:
         :return: генератор чтения данных документа
         """
         header_block = self.read_block(file, offset)
-        doc_size = max(header_block.doc_size, min_block_size)
-        if doc_size > header_block.current_block_size:
-            self.full_size = doc_size + math.ceil(
-                header_block.doc_size / header_block.current_block_size) * min_block_size
-            if min_block_size == self.container.index_block_size:
-                self.full_size += self.container.index_block_size
-        else:
-            self.full_size = doc_size + self.container.block_header_size
 
         if header_block is None:
             return
@@ -89,6 +79,15 @@ class Document:
                 yield block.data
                 next_block_offset = block.next_block_offset
 
+            # блоки цепочки без данных тоже занимают место в контейнере
+            passed = set()
+            while next_block_offset != self.container.end_marker and next_block_offset not in passed:
+                passed.add(next_block_offset)
+                block = self.read_block(file, next_block_offset, 0)
+                if block is None:
+                    break
+                next_block_offset = block.next_block_offset
+
     def read_block(self, file, offset, max_data_length=None):
         """
         Считывает блок данных из контейнера.
@@ -113,6 +112,9 @@ class Document:
         current_block_size = int(header[3], 16)
         next_block_offset = int(header[5], 16)
 
+        # контейнер заканчивается там, где заканчивается самый дальний из его блоков
+        self.container.size = max(self.container.size, offset + header_size + current_block_size)
+
         if max_data_length is None:
             max_data_length = min(current_block_size, doc_size)
 
-- 
2.43.0


From e47ad4eebe21a875cd8e57fe87f41d72fe60989f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:12 +0000
Subject: [PATCH 03/66] fix: read container directories whose files have no
 data block

---
 src/v8unpack/container.py     | 5 ++---
 src/v8unpack/container_doc.py | 2 ++
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/v8unpack/container.py b/src/v8unpack/container.py
index a04f705..c30e4c6 100644
--- a/src/v8unpack/container.py
+++ b/src/v8unpack/container.py
@@ -9,7 +9,7 @@ import zlib
 from datetime import datetime, timedelta
 from struct import pack, calcsize
 # -*- coding: utf-8 -*-
-from struct import unpack
+from struct import unpack, iter_unpack
 
 from tqdm import tqdm
 
@@ -167,8 +167,7 @@ class Container:
         # Первый документ после заголовка содержит оглавление
         doc = Document(self)
         doc_data = doc.read(file, self.header_size, self.index_block_size)
-        table_of_contents = [unpack(f'2{self.index_fmt}', x) for x in
-                             doc_data.split(pack(self.index_fmt, self.end_marker))[:-1]]
+        table_of_contents = [entry[:2] for entry in iter_unpack(f'3{self.index_fmt}', doc_data)]
 
         files = collections.OrderedDict()
         for file_description_offset, file_data_offset in table_of_contents:
diff --git a/src/v8unpack/container_doc.py b/src/v8unpack/container_doc.py
index 848410f..85fcf11 100644
--- a/src/v8unpack/container_doc.py
+++ b/src/v8unpack/container_doc.py
@@ -62,6 +62,8 @@ class Document:
         :type offset: int
         :return: генератор чтения данных документа
         """
+        if offset == self.container.end_marker:  # у документа нет данных
+            return
         header_block = self.read_block(file, offset)
 
         if header_block is None:
-- 
2.43.0


From 03f87d59fd60b3c100cb86fa986e8a1a0eb87a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:12 +0000
Subject: [PATCH 04/66] fix: write the second container with offsets relative
 to its own start

---
 src/v8unpack/container.py     | 2 +-
 src/v8unpack/container_doc.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/v8unpack/container.py b/src/v8unpack/container.py
index c30e4c6..f2d6ee0 100644
--- a/src/v8unpack/container.py
+++ b/src/v8unpack/container.py
@@ -236,7 +236,7 @@ class Container:
                 doc.write_block(f, doc_size=doc_size, offset=self.header_size)
             else:
                 f.seek(0)
-                next_block_offset = file_size(self.file)
+                next_block_offset = file_size(self.file) - self.offset
                 doc.write_block(io.BytesIO(f.read(self.index_block_size)),
                                 doc_size=doc_size, offset=self.header_size,
                                 min_block_size=self.index_block_size,
diff --git a/src/v8unpack/container_doc.py b/src/v8unpack/container_doc.py
index 85fcf11..1568969 100644
--- a/src/v8unpack/container_doc.py
+++ b/src/v8unpack/container_doc.py
@@ -147,9 +147,9 @@ class Document:
         :rtype: int
         """
         if offset is not None:
-            self.container.file.seek(offset)
+            self.container.file.seek(offset + self.container.offset)
         else:
-            offset = file_size(self.container.file)
+            offset = file_size(self.container.file) - self.container.offset
         block_size = file_size(data)
         min_block_size = max(min_block_size, block_size)
         if not next_block_offset:
-- 
2.43.0


From 327ec908730f2d204fbef4aa8aa23293028728e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:12 +0000
Subject: [PATCH 05/66] fix: take the main container by its number, not by
 directory listing order

---
 src/v8unpack/decoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v8unpack/decoder.py b/src/v8unpack/decoder.py
index 445971c..63e423b 100644
--- a/src/v8unpack/decoder.py
+++ b/src/v8unpack/decoder.py
@@ -196,7 +196,7 @@ def encode(src_dir, dest_dir, *, pool=None, options=None, file_name=None):
 
 
 def decode(src_dir, dest_dir, *, pool=None, options=None):
-    containers = os.listdir(src_dir)
+    containers = sorted(os.listdir(src_dir))
     containers_count = len(containers)
     if containers_count not in [1, 2]:
         raise NotImplementedError(f'Количество контейнеров {containers_count}')
-- 
2.43.0


From faf19a0e7718c7012fb78c2804d37284e1527f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:17 +0000
Subject: [PATCH 06/66] fix: wrap only genuine base64 values when writing
 bracket files

---
 src/v8unpack/json_container_decoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v8unpack/json_container_decoder.py b/src/v8unpack/json_container_decoder.py
index c560d0e..1935b63 100644
--- a/src/v8unpack/json_container_decoder.py
+++ b/src/v8unpack/json_container_decoder.py
@@ -335,7 +335,7 @@ class JsonContainerDecoder:
                     is_base64 = False
                     if j > 64:  # base64 нужно переносить
                         try:
-                            b64decode(elem)
+                            b64decode(elem, validate=True)
                             is_base64 = True
                         except ValueError:
                             pass
-- 
2.43.0


From 3157203ae42c3abce86d9f9e3945234e79e6a1e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:48 +0000
Subject: [PATCH 07/66] fix: take pages of a read-only shared panel from the
 area file

---
 src/v8unpack/organizer_form_elem.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/v8unpack/organizer_form_elem.py b/src/v8unpack/organizer_form_elem.py
index 0c2978f..a17ce33 100644
--- a/src/v8unpack/organizer_form_elem.py
+++ b/src/v8unpack/organizer_form_elem.py
@@ -188,12 +188,12 @@ class OrganizerFormElem:
                     if child:
                         cls._append_area_data(child, old_path, root_data, data, append_path)
 
-            pages = data.pop(f'{path}/-pages-', None)
+            pages = data.pop(f'{_path}/-pages-', None)
             if pages is not None:
                 new_path = f'{append_path}/{_path}/-pages-' if append_path else f'{_path}/-pages-'
                 root_data[new_path] = pages
                 for name in pages:
-                    old_path = f'{path}/{name}'
+                    old_path = f'{_path}/{name}'
                     new_path = f'{append_path}/{_path}/{name}' if append_path else f'{_path}/{name}'
                     try:
                         root_data[new_path] = data.pop(old_path)
-- 
2.43.0


From 42ff69b280cbb367e6db610fe99e9c1b27f3fec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:18 +0000
Subject: [PATCH 08/66] fix: accept module text with more region ends than
 region starts

---
 src/v8unpack/organizer_code.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/v8unpack/organizer_code.py b/src/v8unpack/organizer_code.py
index 19f0c2a..d8b7040 100644
--- a/src/v8unpack/organizer_code.py
+++ b/src/v8unpack/organizer_code.py
@@ -54,7 +54,8 @@ class OrganizerCode:
                         elif _line.startswith('#КонецОбласти'):
                             if _path[-1]:  # кончилась include область
                                 _include_path.pop()
-                            _path.pop()
+                            if len(_path) > 1:  # лишний конец области ничего не закрывает
+                                _path.pop()
                             self.code_areas[_include_path[-1]]['data'] += line
                         else:
                             self.code_areas[_include_path[-1]]['data'] += line
-- 
2.43.0


From 1ce960006cc224e4f43082277442b1998e91ffea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:03 +0000
Subject: [PATCH 09/66] fix: write an area without a folder beside the file
 that holds its marks

---
 src/v8unpack/organizer_code.py | 3 ++-
 src/v8unpack/organizer_file.py | 6 ++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/v8unpack/organizer_code.py b/src/v8unpack/organizer_code.py
index d8b7040..ff25f18 100644
--- a/src/v8unpack/organizer_code.py
+++ b/src/v8unpack/organizer_code.py
@@ -44,7 +44,8 @@ class OrganizerCode:
                                 #     raise Exception(
                                 #         f'В {path}{file_name} ссылка на один и тот же файл у разных областей {key}')
                                 self.code_areas[_include_path[-1]]['data'] += line
-                                self.code_areas[key] = dict(data='', area_type=area_type)
+                                parent = self.code_areas.get(key, {}).get('parent', _include_path[-1])
+                                self.code_areas[key] = dict(data='', area_type=area_type, parent=parent)
                                 _include_path.append(key)
                                 _path.append(key)
                             else:
diff --git a/src/v8unpack/organizer_file.py b/src/v8unpack/organizer_file.py
index db2b2c9..ec983fd 100644
--- a/src/v8unpack/organizer_file.py
+++ b/src/v8unpack/organizer_file.py
@@ -87,10 +87,12 @@ class OrganizerFile:
                 if elem == 'root':
                     _file['path'], _file['file_name'] = get_dest_path(dest_dir, path, file_name, index, descent)
                 else:
+                    # область без папки лежит рядом с файлом, в котором она описана, там её ищет сборка
+                    _file['path'], _file['file_name'] = OrganizerCode.parse_include_path(
+                        elem, code_areas[_file['parent']]['path'], file_name,
+                        index.get('Области include') if index else None, descent)
                     if _file['area_type'] == 'includr':
                         continue
-                    _file['path'], _file['file_name'] = OrganizerCode.parse_include_path(
-                        elem, path, file_name, index.get('Области include') if index else None, descent)
                 _file['dest_path'] = os.path.abspath(os.path.join(dest_dir, _file['path']))
                 if _file['dest_path'].startswith(dest_dir) or os.path.normcase(_file['path']).find('\\src\\') >= 0:
                     descent_full_dest_path, descent_file_name = cls.unpack_get_descent_filename(
-- 
2.43.0


From a04466447dd3b5a2d9c2be7161108966ad23c211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:35 +0000
Subject: [PATCH 10/66] fix: look up wildcard folders of an index relative to
 the sources, not the working directory

---
 src/v8unpack/organizer_file.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/v8unpack/organizer_file.py b/src/v8unpack/organizer_file.py
index ec983fd..4cdb9ab 100644
--- a/src/v8unpack/organizer_file.py
+++ b/src/v8unpack/organizer_file.py
@@ -212,7 +212,9 @@ class OrganizerFile:
                     continue
                 if entry.startswith("*"):
                     all_path = index[entry]
-                    all_files = os.listdir(all_path)
+                    # пути в индексе указаны относительно родителя папки с исходниками
+                    all_full_path = os.path.join(src_dir, '..', '' if descent is None else '..', all_path)
+                    all_files = os.listdir(all_full_path)
                     excluded = entry.split('-')[1:]
                     for file_name in all_files:
                         # пропускаем все что были до
@@ -221,7 +223,7 @@ class OrganizerFile:
                         if file_name in excluded:
                             continue
                         file_path = os.path.join(all_path, file_name)
-                        if not os.path.isfile(os.path.normcase(file_path)):
+                        if not os.path.isfile(os.path.normcase(os.path.join(all_full_path, file_name))):
                             continue
                         cls._pack_index_elem(file_name, src_dir, dest_dir, tasks_code_file, tasks_form_elem, file_path,
                                              index_code_areas, path, descent)
-- 
2.43.0


From 0614a32157583469bba1a675d1b5f28de6268ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:26 +0000
Subject: [PATCH 11/66] fix: an explicit or empty index entry is not overridden
 by a wildcard on build

---
 src/v8unpack/organizer_file.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/v8unpack/organizer_file.py b/src/v8unpack/organizer_file.py
index 4cdb9ab..a74df06 100644
--- a/src/v8unpack/organizer_file.py
+++ b/src/v8unpack/organizer_file.py
@@ -222,6 +222,9 @@ class OrganizerFile:
                             continue
                         if file_name in excluded:
                             continue
+                        # явная запись важнее "*", пустая оставляет файл на месте
+                        if file_name in index:
+                            continue
                         file_path = os.path.join(all_path, file_name)
                         if not os.path.isfile(os.path.normcase(os.path.join(all_full_path, file_name))):
                             continue
-- 
2.43.0


From 7fdb60a1722dc67ef4c30a8b0e14e070674cc8b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:56 +0000
Subject: [PATCH 12/66] fix: write an element area without a folder beside the
 relocated form file

---
 src/v8unpack/organizer_form_elem.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/v8unpack/organizer_form_elem.py b/src/v8unpack/organizer_form_elem.py
index a17ce33..0a03944 100644
--- a/src/v8unpack/organizer_form_elem.py
+++ b/src/v8unpack/organizer_form_elem.py
@@ -110,12 +110,14 @@ class OrganizerFormElem:
     @staticmethod
     def _unpack_write_areas(src_dir, path, file_name, dest_dir, index, descent, areas):
         try:
+            root_path, root_file_name = get_dest_path(dest_dir, path, file_name, index, descent)
             for elem in areas:
                 if elem == 'root':
-                    dest_entry_path, dest_file_name = get_dest_path(dest_dir, path, file_name, index, descent)
+                    dest_entry_path, dest_file_name = root_path, root_file_name
                 else:
+                    # область без папки лежит рядом с файлом формы, там её ищет сборка
                     dest_entry_path, dest_file_name = OrganizerCode.parse_include_path(
-                        elem, path, elem, index.get('Области include') if index else None, descent,
+                        elem, root_path, elem, index.get('Области include') if index else None, descent,
                         file_extension=file_name[-9::])
                 dest_path = os.path.abspath(os.path.join(dest_dir, dest_entry_path))
 
-- 
2.43.0


From c21b46b83d208ac37e4e5353bb99f7b4c1769053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:21 +0000
Subject: [PATCH 13/66] fix: match versioned file names exactly in inheritance
 mode

---
 src/v8unpack/helper.py | 68 +++++++++++++++++++-----------------------
 1 file changed, 30 insertions(+), 38 deletions(-)

diff --git a/src/v8unpack/helper.py b/src/v8unpack/helper.py
index 109a329..c63152f 100644
--- a/src/v8unpack/helper.py
+++ b/src/v8unpack/helper.py
@@ -349,54 +349,46 @@ def get_descent_file_name(file_name, descent):
 
 
 def get_near_descent_file_name(path, file_name, descent):
-    name: list = file_name.split('.')
-    startswith = '.'.join(name[0:-1])
-    endswith = name[-1]
-    size = len(name)
     is_without_descent = False
     try:
         entities = os.listdir(path)
     except FileNotFoundError:
         makedirs(path, exist_ok=True)
         entities = []
-    descents = []
+    near_descent = None
+    near_file_name = ''
     for entity in entities:
-        if entity.startswith(startswith) and entity.endswith(endswith):
-            _entity = entity.split('.')
-            if entity == file_name:
-                is_without_descent = True
-                continue
-
-            if len(_entity) - 1 != size:
-                continue
-            full_path = os.path.join(path, entity)
-            if os.path.isfile(full_path):
-                try:
-                    descents.append(int(_entity[-2]))
-                except ValueError:  # если во втором разряде не число, значит не наш вариант
-                    pass
-    if not descents:
-        if is_without_descent:
-            return path, file_name
-        return '', ''
-    descents = sorted(descents, reverse=True, key=lambda x: 0 if x > descent else x)
-    if descents[0] > descent:
-        if is_without_descent:
-            return path, file_name
-        return '', ''
-    return path, f'{startswith}.{descents[0]}.{endswith}'
+        if entity == file_name:
+            is_without_descent = True
+            continue
+        _file_name, _descent = split_descent_file_name(entity)
+        if _file_name != file_name or _descent > descent:
+            continue
+        if os.path.isfile(os.path.join(path, entity)) and (near_descent is None or _descent > near_descent):
+            near_descent = _descent
+            near_file_name = entity
+    if near_file_name:
+        return path, near_file_name
+    if is_without_descent:
+        return path, file_name
+    return '', ''
+
+
+def split_descent_file_name(file_name):
+    """
+    Возвращает имя файла без номера версии и номер версии, 0 если имя файла без номера версии
+    """
+    name = file_name.split('.')
+    if len(name) > 1:
+        descent = name.pop(-2)
+        # версия 0 пишется без суффикса, поэтому 0 это часть имени файла, например Role.0.c1brace
+        if descent.isdecimal() and descent != '0' and str(int(descent)) == descent:
+            return '.'.join(name), int(descent)
+    return file_name, 0
 
 
 def remove_descent_from_filename(file_name):
-    _name = file_name.split('.')
-    try:
-        if len(_name) < 3:
-            return file_name
-        _descent = _name.pop(-2)
-        if str(int(_descent)) == _descent:
-            return '.'.join(_name)
-    except Exception:
-        return file_name
+    return split_descent_file_name(file_name)[0]
 
 
 def makedirs(name, exist_ok=False):
-- 
2.43.0


From abf9979ef278041fc4d1169ae57045bc3040c36b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:24 +0000
Subject: [PATCH 14/66] fix: keep the files of other versions when extracting
 in inheritance mode

---
 src/v8unpack/organizer_file.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/v8unpack/organizer_file.py b/src/v8unpack/organizer_file.py
index a74df06..808eb8e 100644
--- a/src/v8unpack/organizer_file.py
+++ b/src/v8unpack/organizer_file.py
@@ -17,7 +17,10 @@ class OrganizerFile:
         print(f'{"Организуем код":30}')
         tasks_code_file = []
         tasks_form_elem = []
-        helper.clear_dir(dest_dir)
+        if descent is None:
+            helper.clear_dir(dest_dir)
+        else:  # в режиме с descent в папке лежат файлы других версий
+            helper.makedirs(dest_dir, exist_ok=True)
         cls._unpack(src_dir, os.path.abspath(dest_dir), '', tasks_code_file, tasks_form_elem, index,
                     descent)
         helper.run_in_pool(cls.unpack_code_file, tasks_code_file, pool=pool,
-- 
2.43.0


From 92da2dd533a7463e225bdb9d489f87d7fcdc934a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:27 +0000
Subject: [PATCH 15/66] fix: build an earlier version when a later one has
 added files

---
 src/v8unpack/organizer_file_ce.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/v8unpack/organizer_file_ce.py b/src/v8unpack/organizer_file_ce.py
index e6c9f04..cea454c 100644
--- a/src/v8unpack/organizer_file_ce.py
+++ b/src/v8unpack/organizer_file_ce.py
@@ -54,7 +54,9 @@ class OrganizerFileCE(OrganizerFile):
             if os.path.isdir(full_path):
                 result.append(entry)
             else:
-                entry = helper.remove_descent_from_filename(entry)
+                entry, entry_descent = helper.split_descent_file_name(entry)
+                if entry_descent > descent:  # файл появился в более поздней версии
+                    continue
                 if entry not in _index:
                     _index[entry] = 1
                     result.append(entry)
-- 
2.43.0


From 70e53bef4a867f9304d1602c4e312682f4037a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:51 +0000
Subject: [PATCH 16/66] fix: an area without a folder stays beside its module
 in inheritance mode

---
 src/v8unpack/organizer_code.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/v8unpack/organizer_code.py b/src/v8unpack/organizer_code.py
index ff25f18..e4d4075 100644
--- a/src/v8unpack/organizer_code.py
+++ b/src/v8unpack/organizer_code.py
@@ -127,12 +127,12 @@ class OrganizerCode:
         if size_tmp == 0:
             raise Exception(f'{path} {file_name} в include не указан путь')
         _file_name = f'{tmp[-1]}.{file_extension}'
+        if size_tmp == 1:  # область без папки лежит рядом с файлом, в котором она описана
+            return path, _file_name
         _path = '..'  # include не должен лежать внутри папки с исходниками
         if descent is not None:
             _path = os.path.join(_path, '..')
         if size_tmp > 1:
             tmp = ['..' if elem == '' else elem for elem in tmp[:-1]]
             _path = os.path.join(_path, *tmp)
-        if _path == '..':
-            _path = path
         return _path, _file_name
-- 
2.43.0


From c02ab6ac3edec545e17f3e3276024795886027c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:55 +0000
Subject: [PATCH 17/66] fix: do not version files of a folder whose name only
 starts as the sources folder

---
 src/v8unpack/helper.py         | 4 ++++
 src/v8unpack/organizer_code.py | 4 ++--
 src/v8unpack/organizer_file.py | 4 ++--
 3 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/v8unpack/helper.py b/src/v8unpack/helper.py
index c63152f..55e20c7 100644
--- a/src/v8unpack/helper.py
+++ b/src/v8unpack/helper.py
@@ -391,6 +391,10 @@ def remove_descent_from_filename(file_name):
     return split_descent_file_name(file_name)[0]
 
 
+def is_inside_dir(path, dir_name):
+    return path == dir_name or path.startswith(os.path.join(dir_name, ''))
+
+
 def makedirs(name, exist_ok=False):
     for i in range(3):
         try:
diff --git a/src/v8unpack/organizer_code.py b/src/v8unpack/organizer_code.py
index e4d4075..88c3d18 100644
--- a/src/v8unpack/organizer_code.py
+++ b/src/v8unpack/organizer_code.py
@@ -81,7 +81,7 @@ class OrganizerCode:
         try:
             data = ''
             _src_abs_path = os.path.abspath(os.path.join(src_dir, path))
-            if _src_abs_path.startswith(src_dir) or os.path.normcase(path).find(normcase_src) >= 0:
+            if helper.is_inside_dir(_src_abs_path, src_dir) or os.path.normcase(path).find(normcase_src) >= 0:
                 _src_abs_path, file_name = pack_get_descent_filename(_src_abs_path, file_name, descent)
 
             with open(os.path.join(_src_abs_path, file_name), 'r', encoding='utf-8') as file:
@@ -102,7 +102,7 @@ class OrganizerCode:
                             _path, _file_name = cls.parse_include_path(include_path, path, file_name, index_code_areas,
                                                                        descent)
                             _src_abs_path = os.path.abspath(os.path.join(src_dir, _path))
-                            if _src_abs_path.startswith(src_dir) or os.path.normcase(_path).find(normcase_src) >= 0:
+                            if helper.is_inside_dir(_src_abs_path, src_dir) or os.path.normcase(_path).find(normcase_src) >= 0:
                                 _path, _file_name = pack_get_descent_filename(_src_abs_path, _file_name, descent)
                             data += cls.pack_file(src_dir, _path, _file_name, index_code_areas, descent,
                                                   pack_get_descent_filename, current_dynamic_directive)
diff --git a/src/v8unpack/organizer_file.py b/src/v8unpack/organizer_file.py
index 808eb8e..4a950ac 100644
--- a/src/v8unpack/organizer_file.py
+++ b/src/v8unpack/organizer_file.py
@@ -65,7 +65,7 @@ class OrganizerFile:
             src_full_path = os.path.join(src_path, src_file_name)
 
             # файлы вне папки исходников не версионируются
-            if dest_full_path.startswith(dest_dir) or os.path.normcase(dest_entry_path).find('\\src\\') >= 0:
+            if helper.is_inside_dir(dest_full_path, dest_dir) or os.path.normcase(dest_entry_path).find('\\src\\') >= 0:
                 descent_full_dest_path, descent_file_name = cls.unpack_get_descent_filename(src_path, src_file_name,
                                                                                             None,
                                                                                             dest_full_path,
@@ -97,7 +97,7 @@ class OrganizerFile:
                     if _file['area_type'] == 'includr':
                         continue
                 _file['dest_path'] = os.path.abspath(os.path.join(dest_dir, _file['path']))
-                if _file['dest_path'].startswith(dest_dir) or os.path.normcase(_file['path']).find('\\src\\') >= 0:
+                if helper.is_inside_dir(_file['dest_path'], dest_dir) or os.path.normcase(_file['path']).find('\\src\\') >= 0:
                     descent_full_dest_path, descent_file_name = cls.unpack_get_descent_filename(
                         None, None, _file['data'], _file['dest_path'], _file['file_name'], descent,
                         cls.equal_code_file)
-- 
2.43.0


From 9beecac8c7c79be6ff3fdc3ed10365c67d143b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:05 +0000
Subject: [PATCH 18/66] fix: version form element files in inheritance mode
 like all other files

---
 src/v8unpack/organizer_file.py      |  3 ++-
 src/v8unpack/organizer_form_elem.py | 31 +++++++++++++++++++++--------
 2 files changed, 25 insertions(+), 9 deletions(-)

diff --git a/src/v8unpack/organizer_file.py b/src/v8unpack/organizer_file.py
index 4a950ac..5aba835 100644
--- a/src/v8unpack/organizer_file.py
+++ b/src/v8unpack/organizer_file.py
@@ -43,7 +43,8 @@ class OrganizerFile:
                 if entry.endswith('.bsl'):
                     tasks_code_file.append((src_dir, path, entry, dest_dir, index, descent))
                 elif entry.endswith('.elem.json'):
-                    tasks_form_elem.append((src_dir, path, entry, dest_dir, index, descent))
+                    tasks_form_elem.append((src_dir, path, entry, dest_dir, index, descent,
+                                            cls.unpack_get_descent_filename))
                 else:
                     src_path = os.path.join(src_dir, path)
                     cls.unpack_file(src_path, entry, dest_dir, path, entry, index, descent)
diff --git a/src/v8unpack/organizer_form_elem.py b/src/v8unpack/organizer_form_elem.py
index 0a03944..449b2ce 100644
--- a/src/v8unpack/organizer_form_elem.py
+++ b/src/v8unpack/organizer_form_elem.py
@@ -13,12 +13,13 @@ class OrganizerFormElem:
 
     @classmethod
     def unpack(cls, params):
-        src_dir, path, file_name, dest_dir, index, descent = params
+        src_dir, path, file_name, dest_dir, index, descent, unpack_get_descent_filename = params
         areas = {}
         elements = helper.json_read(os.path.join(src_dir, path), file_name)
         cls._unpack_get_areas(elements['tree'], '', elements['data'], areas)
         areas['root'] = elements
-        cls._unpack_write_areas(src_dir, path, file_name, dest_dir, index, descent, areas)
+        cls._unpack_write_areas(src_dir, path, file_name, dest_dir, index, descent, areas,
+                                unpack_get_descent_filename)
 
     @staticmethod
     def is_area(name):
@@ -108,7 +109,12 @@ class OrganizerFormElem:
             raise ExtException(parent=err)
 
     @staticmethod
-    def _unpack_write_areas(src_dir, path, file_name, dest_dir, index, descent, areas):
+    def equal_elem_file(src_path, src_file_name, src_data, near_descent_path, near_descent_file_name):
+        return helper.json_read(near_descent_path, near_descent_file_name) == src_data
+
+    @classmethod
+    def _unpack_write_areas(cls, src_dir, path, file_name, dest_dir, index, descent, areas,
+                            unpack_get_descent_filename):
         try:
             root_path, root_file_name = get_dest_path(dest_dir, path, file_name, index, descent)
             for elem in areas:
@@ -121,7 +127,12 @@ class OrganizerFormElem:
                         file_extension=file_name[-9::])
                 dest_path = os.path.abspath(os.path.join(dest_dir, dest_entry_path))
 
-                helper.json_write(areas[elem], dest_path, dest_file_name)
+                if helper.is_inside_dir(dest_path, dest_dir):
+                    dest_path, dest_file_name = unpack_get_descent_filename(
+                        None, None, areas[elem], dest_path, dest_file_name, descent, cls.equal_elem_file)
+
+                if dest_file_name:
+                    helper.json_write(areas[elem], dest_path, dest_file_name)
         except Exception as err:
             raise ExtException(
                 parent=err,
@@ -135,8 +146,8 @@ class OrganizerFormElem:
             descent, pack_get_descent_filename = params
         elements = helper.json_read(os.path.join(src_dir, src_path), src_file_name)
         try:
-            cls._pack_get_areas(src_dir, src_path, src_file_name, elements['tree'], '', elements['data'],
-                                index_code_areas, descent)
+            cls._pack_get_areas(src_dir, src_path, dest_file_name, elements['tree'], '', elements['data'],
+                                index_code_areas, descent, pack_get_descent_filename)
         except Exception as err:
             raise ExtException(parent=err, message='Ошибка сборки элементов формы',
                                detail=f'{os.path.join(src_path, src_file_name)}')
@@ -149,7 +160,8 @@ class OrganizerFormElem:
         return elem_class.get_class_form_elem(elem_type)
 
     @classmethod
-    def _pack_get_areas(cls, src_dir, src_path, file_name, tree, path, root_data, index_code_areas, descent):
+    def _pack_get_areas(cls, src_dir, src_path, file_name, tree, path, root_data, index_code_areas, descent,
+                        pack_get_descent_filename):
         for elem in tree:
             try:
                 name: str = elem['name']
@@ -161,6 +173,9 @@ class OrganizerFormElem:
                         area_name, src_path, file_name, index_code_areas, descent, file_extension=file_name[-9::])
                     _src_abs_path = os.path.abspath(os.path.join(src_dir, _path))
 
+                    if helper.is_inside_dir(_src_abs_path, src_dir):
+                        _src_abs_path, _file_name = pack_get_descent_filename(_src_abs_path, _file_name, descent)
+
                     include_elements = helper.json_read(_src_abs_path, _file_name)
                     cls._append_area_data(include_elements['tree'], name, root_data, include_elements['data'],
                                           cls.get_old_path(elem, path), area_type)
@@ -169,7 +184,7 @@ class OrganizerFormElem:
                 child = elem.get('child')
                 if child:
                     cls._pack_get_areas(src_dir, src_path, file_name, child, new_path, root_data, index_code_areas,
-                                        descent)
+                                        descent, pack_get_descent_filename)
             except Exception as err:
                 raise ExtException(parent=err, message='Ошибка сборки области формы', detail=elem['name'])
 
-- 
2.43.0


From 9d6a41524b1b2ab1f2c827713009fbce816947b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:41 +0000
Subject: [PATCH 19/66] fix: bind a button to a form command only if the link
 is to that command

---
 .../MetaDataObject/Form/FormElements4/FormElement.py         | 5 ++++-
 .../MetaDataObject/Form/FormElements4/FormElements4.py       | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/v8unpack/MetaDataObject/Form/FormElements4/FormElement.py b/src/v8unpack/MetaDataObject/Form/FormElements4/FormElement.py
index 9506912..803be3c 100644
--- a/src/v8unpack/MetaDataObject/Form/FormElements4/FormElement.py
+++ b/src/v8unpack/MetaDataObject/Form/FormElements4/FormElement.py
@@ -75,7 +75,10 @@ class FormElement:
             if command_link_offset is not None:
                 command_link = raw_data[command_link_offset]
                 if command_link and int(command_link[0]):
-                    command = form.commands_index.get(command_link[0])
+                    form_command = form.commands_index.get(command_link[0])
+                    # такой же номер может быть у стандартной команды или команды другого объекта
+                    if form_command and form_command['raw'][1] == command_link:
+                        command = form_command['name']
 
             if not isinstance(name, str) or not name:
                 raise ExtException(message='form elem name not string')
diff --git a/src/v8unpack/MetaDataObject/Form/FormElements4/FormElements4.py b/src/v8unpack/MetaDataObject/Form/FormElements4/FormElements4.py
index 10c8b9c..ef35026 100644
--- a/src/v8unpack/MetaDataObject/Form/FormElements4/FormElements4.py
+++ b/src/v8unpack/MetaDataObject/Form/FormElements4/FormElements4.py
@@ -41,7 +41,7 @@ class FormElements4:
         self.commands_index = {}
         if self.form.commands:
             for command in self.form.commands:
-                self.commands_index[command['id']] = command['name']
+                self.commands_index[command['id']] = command
 
     def create_prop_index_by_name(self):
         self.props_index = {}
-- 
2.43.0


From 8cb513dd6a7b258c4ca2ede9ef2e40a84df64e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:44 +0000
Subject: [PATCH 20/66] fix: read the name of an element addition from its
 place

---
 src/v8unpack/MetaDataObject/Form/FormElements4/ItemAddition.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v8unpack/MetaDataObject/Form/FormElements4/ItemAddition.py b/src/v8unpack/MetaDataObject/Form/FormElements4/ItemAddition.py
index d9376f1..15c93b3 100644
--- a/src/v8unpack/MetaDataObject/Form/FormElements4/ItemAddition.py
+++ b/src/v8unpack/MetaDataObject/Form/FormElements4/ItemAddition.py
@@ -5,4 +5,4 @@ from v8unpack.helper import calc_offset
 class ItemAddition(FormElement):
     @classmethod
     def get_name_node_offset(cls, raw_data):
-        return calc_offset([(3, 1), (3, 0)], raw_data)
+        return calc_offset([(3, 1), (1, 1), (2, 0)], raw_data)
-- 
2.43.0


From 74948896b346748067391cb7eaba5c86e8b88f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:02 +0000
Subject: [PATCH 21/66] fix: take only the beginning of a group name for the
 mark of a read-only area

---
 src/v8unpack/MetaDataObject/Form/FormElements4/Group.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/v8unpack/MetaDataObject/Form/FormElements4/Group.py b/src/v8unpack/MetaDataObject/Form/FormElements4/Group.py
index 33b38d2..8aff13d 100644
--- a/src/v8unpack/MetaDataObject/Form/FormElements4/Group.py
+++ b/src/v8unpack/MetaDataObject/Form/FormElements4/Group.py
@@ -24,8 +24,8 @@ class Group(FormElement):
 
         data = super().decode(form, path, raw_data)
         index = calc_offset([(3, 1), (1, 1), (17, 0)], raw_data)
-        new_path = f"{path}/{data['name']}" if path else data['name']
-        new_path = new_path.replace('includr_', 'include_')
+        name_for_child = f"include_{data['name'][8:]}" if data['name'][:8] == 'includr_' else data['name']
+        new_path = f"{path}/{name_for_child}" if path else name_for_child
         data['child'] = cls.decode_list(form, raw_data, index, new_path)
         return data
 
-- 
2.43.0


From 576af4dec8787bbdf4af05fe1503e95df4995556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:14 +0000
Subject: [PATCH 22/66] fix: do not take a numbered part of something else for
 a form attribute

---
 src/v8unpack/MetaDataObject/Form/FormElements4/FormElement.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/v8unpack/MetaDataObject/Form/FormElements4/FormElement.py b/src/v8unpack/MetaDataObject/Form/FormElements4/FormElement.py
index 803be3c..e8e73e4 100644
--- a/src/v8unpack/MetaDataObject/Form/FormElements4/FormElement.py
+++ b/src/v8unpack/MetaDataObject/Form/FormElements4/FormElement.py
@@ -60,6 +60,9 @@ class FormElement:
                     prop_src = form.props_index
                     for i in range(int(prop_link[0])):
                         prop_id = prop_link[i + 1][0]
+                        if len(prop_link[i + 1]) > 1:  # номер не реквизита формы
+                            prop = None
+                            break
                         try:
                             prop_name = prop_src[prop_id]['name']
                             prop_src = prop_src[prop_id]['child']
-- 
2.43.0


From ee85866c443c83dabcca6cad10f75df1e39ccb00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:15 +0000
Subject: [PATCH 23/66] fix: keep attributes, commands and parameters of a form
 in place if one has an unknown layout

---
 .../MetaDataObject/Form/FormElements4/FormElement.py        | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/v8unpack/MetaDataObject/Form/FormElements4/FormElement.py b/src/v8unpack/MetaDataObject/Form/FormElements4/FormElement.py
index e8e73e4..299643b 100644
--- a/src/v8unpack/MetaDataObject/Form/FormElements4/FormElement.py
+++ b/src/v8unpack/MetaDataObject/Form/FormElements4/FormElement.py
@@ -1,3 +1,4 @@
+import copy
 from enum import Enum
 
 from v8unpack import helper
@@ -278,7 +279,10 @@ class _FormRoot:
 
             result = []
             for i in range(element_count):
-                result.append(cls.decode(form, items[i + index_element_count + 1]))
+                # копия, чтобы форма осталась целой, если что-то не разберется
+                result.append(cls.decode(form, copy.deepcopy(items[i + index_element_count + 1])))
+                if not isinstance(result[-1]['name'], str):
+                    raise ExtException(message='name not string', detail=cls.__name__)
             items[index_element_count] = 'Дочерние элементы отдельно'
             del items[index_element_count + 1:index_element_count + 1 + element_count]
             return result
-- 
2.43.0


From 15fee679e33713c77aad085a6e66c3fa60e5cd77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:23 +0000
Subject: [PATCH 24/66] fix: build sources with an empty shared area beside the
 form

---
 src/v8unpack/organizer_form_elem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v8unpack/organizer_form_elem.py b/src/v8unpack/organizer_form_elem.py
index 449b2ce..f8c7d08 100644
--- a/src/v8unpack/organizer_form_elem.py
+++ b/src/v8unpack/organizer_form_elem.py
@@ -162,7 +162,7 @@ class OrganizerFormElem:
     @classmethod
     def _pack_get_areas(cls, src_dir, src_path, file_name, tree, path, root_data, index_code_areas, descent,
                         pack_get_descent_filename):
-        for elem in tree:
+        for elem in tree or []:  # область может быть пустой
             try:
                 name: str = elem['name']
                 new_path = cls.get_old_path(elem, path, name)
-- 
2.43.0


From c87962670f9bffc9b158c7178588f01a50face4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:02 +0000
Subject: [PATCH 25/66] fix: replace only directive lines marked as dynamic and
 keep their indent

---
 src/v8unpack/organizer_code.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/v8unpack/organizer_code.py b/src/v8unpack/organizer_code.py
index 88c3d18..1e9199a 100644
--- a/src/v8unpack/organizer_code.py
+++ b/src/v8unpack/organizer_code.py
@@ -30,9 +30,9 @@ class OrganizerCode:
                 try:
                     _line = line.strip()
                     dynamic_directive_index = line.rfind(' //DynamicDirective')
-                    if dynamic_directive_index >= 0:
-                        if line.find('&') >= 0:
-                            line = line[dynamic_directive_index + 1:]
+                    if dynamic_directive_index >= 0 and _line.startswith('&'):
+                        indent = line[:line.find('&')]
+                        line = indent + line[dynamic_directive_index + 1:]
                     if _line and _line[0] == '#':
                         if _line.startswith('#Область'):
                             area_type = cls.is_area(_line)
@@ -90,7 +90,8 @@ class OrganizerCode:
                     _line = line.strip()
                     if _line:
                         if _line.startswith('//DynamicDirective') and dynamic_directive:
-                            line = f'{dynamic_directive} {line}'
+                            indent = line[:line.find('/')]
+                            line = f'{indent}{dynamic_directive} {line[len(indent):]}'
                     data += line
                     if _line and _line[0] == '#':
                         if cls.is_area(_line):
-- 
2.43.0


From 33463fe8ef65f12f75911aef22cde2242c5cd574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:20 +0000
Subject: [PATCH 26/66] fix: uncomment on extraction only directives that the
 build comments

---
 src/v8unpack/MetaObject/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v8unpack/MetaObject/__init__.py b/src/v8unpack/MetaObject/__init__.py
index f7e9ce2..0888a48 100644
--- a/src/v8unpack/MetaObject/__init__.py
+++ b/src/v8unpack/MetaObject/__init__.py
@@ -18,7 +18,7 @@ class MetaObject:
 
     re_meta_data_obj = re.compile('^[^.]+\.json$')
     directive_1c_uncomment = re.compile('(?P<n>\\n)(?P<d>#Область|#КонецОбласти|&НаСервере|&НаКлиенте)')
-    directive_1c_comment = re.compile('(?P<n>\\n)(?P<c>// v8unpack )(?P<d>[#|&])')
+    directive_1c_comment = re.compile('(?P<n>\\n)(?P<c>// v8unpack )(?P<d>#Область|#КонецОбласти|&НаСервере|&НаКлиенте)')
 
     def __init__(self, *, meta_obj_class=None, obj_version='803', options=None):
         self.meta_obj_class = meta_obj_class
-- 
2.43.0


From fae98ea8138a90a474bee45645e6ba78c5a9b0ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:28 +0000
Subject: [PATCH 27/66] fix: build ordinary forms that could not be split into
 elements

---
 .../MetaDataObject/Form/FormElements27/FormElements27.py        | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/v8unpack/MetaDataObject/Form/FormElements27/FormElements27.py b/src/v8unpack/MetaDataObject/Form/FormElements27/FormElements27.py
index 5bff79c..5d024cd 100644
--- a/src/v8unpack/MetaDataObject/Form/FormElements27/FormElements27.py
+++ b/src/v8unpack/MetaDataObject/Form/FormElements27/FormElements27.py
@@ -105,6 +105,8 @@ class FormElements27:
             self.form.props = elements['props']
             self.form.elements_data = elements['data']
             self.form.elements_tree = elements['tree']
+            if not self.form.elements_data:  # форму не удалось разобрать, она осталась целиком
+                return raw_data
             self.FormProps.encode_list(self.form, raw_data[2][2])
             self.create_prop_index_by_name()
             self.Panel.encode(self, '', None, dict(raw=raw_data[1][2]))
-- 
2.43.0


From 24132d4075b70ac827a700dc780a135f5fa3567a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:03 +0000
Subject: [PATCH 28/66] fix: keep the whole data path of elements of ordinary
 forms in automatic mode

---
 .../MetaDataObject/Form/FormElements27/FormElement.py         | 2 +-
 .../MetaDataObject/Form/FormElements27/FormElements27.py      | 4 ++--
 src/v8unpack/MetaDataObject/Form/FormElements27/Panel.py      | 2 ++
 3 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/v8unpack/MetaDataObject/Form/FormElements27/FormElement.py b/src/v8unpack/MetaDataObject/Form/FormElements27/FormElement.py
index c65415c..df685aa 100644
--- a/src/v8unpack/MetaDataObject/Form/FormElements27/FormElement.py
+++ b/src/v8unpack/MetaDataObject/Form/FormElements27/FormElement.py
@@ -126,7 +126,7 @@ class FormElement:
                 prop_index = form.props_index.get(prop)
                 if not prop_index:
                     raise ExtException(message='Отсутствует свойство', detail=prop)
-                form.field_data_source.append((elem_id, prop_index))
+                form.field_data_source.append((elem_id, [[prop_index]] + elem_data.get('prop_path', [])))
 
             # type_index = elem_data.get('type_index')
             # if type_index:
diff --git a/src/v8unpack/MetaDataObject/Form/FormElements27/FormElements27.py b/src/v8unpack/MetaDataObject/Form/FormElements27/FormElements27.py
index 5d024cd..182d176 100644
--- a/src/v8unpack/MetaDataObject/Form/FormElements27/FormElements27.py
+++ b/src/v8unpack/MetaDataObject/Form/FormElements27/FormElements27.py
@@ -91,9 +91,9 @@ class FormElements27:
 
     def fill_datasource(self, raw_data):
         raw_data.append(str(len(self.field_data_source)))
-        for elem_id, prop_id in self.field_data_source:
+        for elem_id, prop_path in self.field_data_source:
             raw_data.append(
-                [str(elem_id), ['1', [str(prop_id)]]]
+                [str(elem_id), [str(len(prop_path)), *prop_path]]
             )
 
     def encode(self, src_dir, file_name, version, raw_data, path=''):
diff --git a/src/v8unpack/MetaDataObject/Form/FormElements27/Panel.py b/src/v8unpack/MetaDataObject/Form/FormElements27/Panel.py
index f1da6e9..ca313b7 100644
--- a/src/v8unpack/MetaDataObject/Form/FormElements27/Panel.py
+++ b/src/v8unpack/MetaDataObject/Form/FormElements27/Panel.py
@@ -71,6 +71,8 @@ class Panel(FormElement):
                 prop = self.form.props_index.get(elem_data['id'])
                 if prop:
                     self.elements_data[elem_id]['prop'] = prop['name']
+                    if prop['index'][2:]:  # данные - часть реквизита
+                        self.elements_data[elem_id]['prop_path'] = prop['index'][2:]
 
             return elem_tree, None, elem_id
         except Exception as err:
-- 
2.43.0


From 0c700759886b57375a93764c3e10ec1aca4cc6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:47 +0000
Subject: [PATCH 29/66] fix: keep the default element of ordinary forms in
 automatic mode

---
 .../Form/FormElements27/FormElements27.py     | 20 +++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/v8unpack/MetaDataObject/Form/FormElements27/FormElements27.py b/src/v8unpack/MetaDataObject/Form/FormElements27/FormElements27.py
index 182d176..511b9a1 100644
--- a/src/v8unpack/MetaDataObject/Form/FormElements27/FormElements27.py
+++ b/src/v8unpack/MetaDataObject/Form/FormElements27/FormElements27.py
@@ -49,10 +49,29 @@ class FormElements27:
             self.create_prop_index_by_elem_id(form_data[2][3])
 
             elements_tree, elements_data, elements_id = self.Panel.decode(self, '', form_data[1][2])
+            if self.auto_include:
+                self.default_elem_id_to_name(form_data[1][1], elements_data)
             return elements_tree, elements_data
         except Exception as err:
             raise ExtException(parent=err)
 
+    @staticmethod
+    def default_elem_id_to_name(raw_data, elements_data):
+        # элементы будут перенумерованы, поэтому элемент по умолчанию храним по имени
+        if len(raw_data) > 2:
+            for name, data in elements_data.items():
+                if isinstance(data, dict) and 'id' in data and data['id'] == raw_data[2]:
+                    raw_data[2] = name
+                    return
+
+    def default_elem_name_to_id(self, raw_data):
+        if len(raw_data) > 2:
+            data = self.elements_data.get(raw_data[2])
+            if data:
+                raw_data[2] = data['raw'][1]
+            elif not str(raw_data[2]).isdigit():  # такого элемента больше нет
+                raw_data[2] = '4294967295'
+
     def create_prop_index_by_elem_id(self, raw_data):
         try:
             self.props_index = {}
@@ -111,6 +130,7 @@ class FormElements27:
             self.create_prop_index_by_name()
             self.Panel.encode(self, '', None, dict(raw=raw_data[1][2]))
             if self.auto_include:
+                self.default_elem_name_to_id(raw_data[1][1])
                 raw_data[2][3] = []
                 self.fill_datasource(raw_data[2][3])
             return raw_data
-- 
2.43.0


From 432a0346f1aa5ebe271448026a69493dbef0d70a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:27 +0000
Subject: [PATCH 30/66] fix: a picture without data was lost on build

---
 src/v8unpack/MetaDataObject/CommonPicture.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/v8unpack/MetaDataObject/CommonPicture.py b/src/v8unpack/MetaDataObject/CommonPicture.py
index 3f1c8e9..8a86fb9 100644
--- a/src/v8unpack/MetaDataObject/CommonPicture.py
+++ b/src/v8unpack/MetaDataObject/CommonPicture.py
@@ -36,8 +36,9 @@ class CommonPicture(Simple):
         try:
             bin_data = helper.bin_read(src_dir, f'{file_name}.{extension}')
             self.header['info'][0][2][0][0] += b64encode(bin_data).decode(encoding='utf-8')
+        except FileNotFoundError:
+            pass
+        if self.header.get('info'):
             file_name = f'{self.header["uuid"]}.0'
             helper.brace_file_write(self.header['info'], dest_dir, file_name)
             self.file_list.append(file_name)
-        except FileNotFoundError:
-            pass
-- 
2.43.0


From cf898fd589a1b74aeaf143b09fe0f0d0181721f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:26 +0000
Subject: [PATCH 31/66] fix: a comment ending in json, bsl or c1b64 made the
 data file replace or pose as a file of the object

---
 src/v8unpack/helper.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/v8unpack/helper.py b/src/v8unpack/helper.py
index 55e20c7..1b55329 100644
--- a/src/v8unpack/helper.py
+++ b/src/v8unpack/helper.py
@@ -323,7 +323,8 @@ def get_extension_from_comment(comment: str) -> str:
     res = 'bin'
     if comment:
         ext = comment.split(" ")[-1]
-        if len(ext) < 6 and ext.isalnum():
+        # под этими расширениями рядом лежат файлы самого объекта
+        if len(ext) < 6 and ext.isalnum() and ext.lower() not in ('json', 'bsl', 'c1b64'):
             return ext
     return res
 
-- 
2.43.0


From 9246e674a33c8a9d3f4125e2aa955f1d7ade694e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:41 +0000
Subject: [PATCH 32/66] fix: protected modules were lost on extraction and
 built under another name

---
 src/v8unpack/MetaObject/__init__.py | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/src/v8unpack/MetaObject/__init__.py b/src/v8unpack/MetaObject/__init__.py
index 0888a48..9b1b8c5 100644
--- a/src/v8unpack/MetaObject/__init__.py
+++ b/src/v8unpack/MetaObject/__init__.py
@@ -296,21 +296,16 @@ class MetaObject:
                 continue
             if os.path.isdir(_obj_code_dir):
                 self.header[f'code_info_{code_name}'] = helper.brace_file_read(_obj_code_dir, 'info')
-                try:
-                    self.code[code_name], encoding = self.read_raw_code(_obj_code_dir, 'text',
-                                                                        uncomment_directive=uncomment_directive)
-                    self.header[f'code_encoding_{code_name}'] = encoding  # можно безболезненно поменять на utf-8-sig
-                except FileNotFoundError as err:
-                    # todo могут быть зашифрованные модули тогда файл будет # image.json - зашифрованный контент
-                    not_encrypted = True
+                self.code[code_name], encoding = self.read_raw_code(_obj_code_dir, 'text',
+                                                                    uncomment_directive=uncomment_directive)
+                self.header[f'code_encoding_{code_name}'] = encoding  # можно безболезненно поменять на utf-8-sig
+                if self.code[code_name] is None:
+                    # могут быть зашифрованные модули тогда файл будет image - зашифрованный контент
                     for encrypted_type in self.encrypted_types:
                         if os.path.isfile(os.path.join(_obj_code_dir, encrypted_type)):
                             self.code[code_name] = helper.bin_read(_obj_code_dir, encrypted_type)
                             self.header[f'code_encoding_{code_name}'] = encrypted_type
-                            not_encrypted = False
                             break
-                    if not_encrypted:
-                        raise err from err
             else:
                 code_file_name = f'{self.header["uuid"]}.{self.ext_code[code_name]}'
                 self.code[code_name], encoding = self.read_raw_code(src_dir, code_file_name,
@@ -358,7 +353,8 @@ class MetaObject:
                 helper.makedirs(_code_dir)
                 helper.brace_file_write(self.header[f'code_info_{code_name}'], _code_dir, 'info')
                 if encoding in self.encrypted_types:
-                    helper.bin_write(self.code[code_name], _code_dir, 'text')
+                    # bin - текст, который не удалось прочитать, остальное - имя файла с зашифрованным контентом
+                    helper.bin_write(self.code[code_name], _code_dir, 'text' if encoding == 'bin' else encoding)
                 else:
                     self.write_raw_code(self.code[code_name], _code_dir, 'text', encoding=encoding,
                                         comment_directive=comment_directive)
-- 
2.43.0


From 3fd7c429fe1f6f44c0b04b6eb3a156c686aeaf6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:40 +0000
Subject: [PATCH 33/66] fix: an ordinary form whose module is valid in no known
 encoding could not be built

---
 src/v8unpack/MetaDataObject/Form/FormCore.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/v8unpack/MetaDataObject/Form/FormCore.py b/src/v8unpack/MetaDataObject/Form/FormCore.py
index 1ed03de..7caa91a 100644
--- a/src/v8unpack/MetaDataObject/Form/FormCore.py
+++ b/src/v8unpack/MetaDataObject/Form/FormCore.py
@@ -343,8 +343,11 @@ class FormCore(SimpleNameFolder):
             helper.makedirs(_code_dir, exist_ok=True)
             helper.brace_file_write(self.form[0], _code_dir, 'form')
             _encoding = self.header.get('code_encoding_obj', 'utf-8-sig')
-            self.write_raw_code(self.code.get('obj', ''), _code_dir, 'module', encoding=_encoding,
-                                comment_directive=True)
+            _code = self.code.get('obj', '')
+            if _encoding in self.encrypted_types:
+                helper.bin_write(_code, _code_dir, 'module')
+            else:
+                self.write_raw_code(_code, _code_dir, 'module', encoding=_encoding, comment_directive=True)
 
     @classmethod
     def get_last_level_array(cls, data):
-- 
2.43.0


From 0203bc42ccca6d3402b5b482c748ac01b4aa22b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:10 +0000
Subject: [PATCH 34/66] fix: --version is applied on extraction of
 configurations and extensions

---
 src/v8unpack/MetaObject/Configuration.py          | 1 +
 src/v8unpack/MetaObject/ConfigurationExtension.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/v8unpack/MetaObject/Configuration.py b/src/v8unpack/MetaObject/Configuration.py
index bc88c1f..dcb0bd4 100644
--- a/src/v8unpack/MetaObject/Configuration.py
+++ b/src/v8unpack/MetaObject/Configuration.py
@@ -54,6 +54,7 @@ class Configuration(MetaObject):
         self.header['versions'] = helper.brace_file_read(src_dir, 'versions')
         # shutil.copy2(os.path.join(src_dir, 'versions.json'), os.path.join(dest_dir, 'versions.json'))
 
+        version = self.get_options('version', version)
         if version is None:
             self.header['compatibility_version'] = self.header['header'][0][3][1][1][26]
         else:
diff --git a/src/v8unpack/MetaObject/ConfigurationExtension.py b/src/v8unpack/MetaObject/ConfigurationExtension.py
index 0c93808..eeb4d00 100644
--- a/src/v8unpack/MetaObject/ConfigurationExtension.py
+++ b/src/v8unpack/MetaObject/ConfigurationExtension.py
@@ -31,6 +31,7 @@ class ConfigurationExtension(Configuration):
         _form_header = self.get_decode_header(self.header['header'])
         helper.decode_header(self, _form_header, id_in_separate_file=False)
         product_version = self.header['header'][0][3][1][1][15]
+        version = self.get_options('version', version)
         if version is None:
             self.header['compatibility_version'] = self.header['header'][0][3][1][1][43]
         else:
-- 
2.43.0


From 78350da4b63b40ac292c1a949c8439546b1ab55f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:13 +0000
Subject: [PATCH 35/66] fix: a build no longer leaves its product version in
 the caller's options

---
 src/v8unpack/v8unpack.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/v8unpack/v8unpack.py b/src/v8unpack/v8unpack.py
index 4bd1cc6..c76f915 100644
--- a/src/v8unpack/v8unpack.py
+++ b/src/v8unpack/v8unpack.py
@@ -20,8 +20,7 @@ from .version import __version__
 def extract(in_filename: str, out_dir_name: str, *, temp_dir=None, index=None, processes=None, options=None):
     try:
         begin0 = datetime.now()
-        if options is None:
-            options = dict()
+        options = dict(options) if options else {}  # дополняется при разборке
         print(f"saby v8unpack {__version__}")
 
         index = check_index(index)
@@ -73,8 +72,7 @@ def build(in_dir_name: str, out_file_name: str, *, temp_dir=None, index=None,
           options=None, processes: int = None):
     try:
         begin0 = datetime.now()
-        if options is None:
-            options = {}
+        options = dict(options) if options else {}  # дополняется при сборке
 
         print(f"saby v8unpack {__version__}")
 
-- 
2.43.0


From e0948395cff0cac393190902dabbf637c843da45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:29 +0000
Subject: [PATCH 36/66] fix: a generated index no longer overrides wildcards
 and nested index files

---
 src/v8unpack/index.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/v8unpack/index.py b/src/v8unpack/index.py
index dde9dda..2d49c23 100644
--- a/src/v8unpack/index.py
+++ b/src/v8unpack/index.py
@@ -27,7 +27,11 @@ def get_from_index(index: dict, path: str, file_name: str):
 
 
 def update_index(src_dir: str, index_file_name: str, dest_dir: str):
-    def _update_index(_src_dir, _index, _dest_dir, _path):
+    def _is_known(_index, entry):
+        # перечислен сам файл или все файлы папки, кроме указанных исключений
+        return any(key == entry or key.startswith('*') and entry not in key.split('-')[1:] for key in _index)
+
+    def _update_index(_src_dir, _index, _known, _dest_dir, _path):
         entries = os.listdir(os.path.join(_src_dir, _path))
         for entry in entries:
             entry = remove_descent_from_filename(entry)
@@ -35,9 +39,9 @@ def update_index(src_dir: str, index_file_name: str, dest_dir: str):
             if os.path.isdir(os.path.join(_src_dir, new_path)):
                 if entry not in _index:
                     _index[entry] = {}
-                _update_index(_src_dir, _index[entry], _dest_dir, new_path)
+                _update_index(_src_dir, _index[entry], _known.get(entry) or {}, _dest_dir, new_path)
             else:
-                if entry not in _index:
+                if not _is_known(_index, entry) and not _is_known(_known, entry):
                     _index[entry] = os.path.join(_dest_dir, _path, entry) if _dest_dir else ''
         pass
 
@@ -47,7 +51,10 @@ def update_index(src_dir: str, index_file_name: str, dest_dir: str):
     except FileNotFoundError:
         index = {}
 
-    _update_index(src_dir, index, dest_dir, '')
+    # то, что уже описано во вложенных индексных файлах, в основном не повторяем
+    known = helper.update_dict({}, *[helper.load_json(elem) for elem in index.get('index.json') or []])
+
+    _update_index(src_dir, index, known, dest_dir, '')
     with open(index_file_name, 'w+', encoding='utf-8') as f:
         json.dump(index, f, ensure_ascii=False, indent=2)
 
-- 
2.43.0


From 7530d139d987cbbd7fd949923a0f2a6ed331824c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:04 +0000
Subject: [PATCH 37/66] fix: numbers in the names Configuration.9.json,
 Configuration.802.bsl and alike are not taken for versions

---
 src/v8unpack/helper.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/v8unpack/helper.py b/src/v8unpack/helper.py
index 1b55329..ee0764a 100644
--- a/src/v8unpack/helper.py
+++ b/src/v8unpack/helper.py
@@ -1,6 +1,7 @@
 import copy
 import json
 import os
+import re
 import shutil
 import time
 import uuid
@@ -375,10 +376,16 @@ def get_near_descent_file_name(path, file_name, descent):
     return '', ''
 
 
+# число в имени этих файлов не номер версии, см. Configuration.ext_code и Configuration._obj_info
+re_own_number = re.compile(r'Configuration\.(802\.bsl|(4|8|9|10)\.json)')
+
+
 def split_descent_file_name(file_name):
     """
     Возвращает имя файла без номера версии и номер версии, 0 если имя файла без номера версии
     """
+    if re_own_number.fullmatch(file_name):
+        return file_name, 0
     name = file_name.split('.')
     if len(name) > 1:
         descent = name.pop(-2)
-- 
2.43.0


From 44a0fcf95abe0a91fe8d0e27a66b9a186c83bc6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:23 +0000
Subject: [PATCH 38/66] fix: extraction and build with an empty index no longer
 do nothing

---
 src/v8unpack/v8unpack.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/v8unpack/v8unpack.py b/src/v8unpack/v8unpack.py
index c76f915..2f5c0ad 100644
--- a/src/v8unpack/v8unpack.py
+++ b/src/v8unpack/v8unpack.py
@@ -24,8 +24,6 @@ def extract(in_filename: str, out_dir_name: str, *, temp_dir=None, index=None, p
         print(f"saby v8unpack {__version__}")
 
         index = check_index(index)
-        if not index and index is not None:
-            return
 
         print(f"Начали")
 
@@ -77,8 +75,6 @@ def build(in_dir_name: str, out_file_name: str, *, temp_dir=None, index=None,
         print(f"saby v8unpack {__version__}")
 
         index = check_index(index)
-        if not index and index is not None:
-            return
 
         print(f"Начали")
 
-- 
2.43.0


From 5cc337a6a360801752f91c9e55cae76afe1341cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:37 +0000
Subject: [PATCH 39/66] fix: an index entry that is a folder in one index file
 and a file in another is always reported

---
 src/v8unpack/helper.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/v8unpack/helper.py b/src/v8unpack/helper.py
index ee0764a..553f780 100644
--- a/src/v8unpack/helper.py
+++ b/src/v8unpack/helper.py
@@ -443,6 +443,12 @@ def _update_dict(base, new, _path=''):
                             detail=f'{type(base[element])} in {_path}.{element}',
                             dump={'value': str(base[element])}
                         )
+                elif isinstance(base[element], dict) and new[element] is not None:
+                    raise ExtException(
+                        message='type mismatch',
+                        detail=f'{type(new[element])} in {_path}.{element}',
+                        dump={'value': str(new[element])}
+                    )
                 elif isinstance(new[element], list):
                     base[element].extend(new[element])
                     # base[element] = ArrayHelper.unique_extend(base[element], new[element])
-- 
2.43.0


From 81f9ea7cbc44085ed6c986a4dca99a01f7729511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:11 +0000
Subject: [PATCH 40/66] fix: the option prefix without a value no longer puts
 None before names

---
 src/v8unpack/helper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v8unpack/helper.py b/src/v8unpack/helper.py
index 553f780..7349faf 100644
--- a/src/v8unpack/helper.py
+++ b/src/v8unpack/helper.py
@@ -151,7 +151,7 @@ def encode_header(meta_obj, header: list):
     header[1][2] = obj['uuid']
     # если собирается с параметром префикс и это объект верхнего уровня и это не заимствованный объект
     if options and meta_obj.parent_id.find('/') == -1 and (len(header) < 6 or header[5] == '0'):
-        prefix = options.get('prefix', '')
+        prefix = options.get('prefix') or ''
         header[2] = str_encode(f"{prefix}{obj['name']}")
 
 
-- 
2.43.0


From d6fe396466974094011be39e5135546dccd61d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:15 +0000
Subject: [PATCH 41/66] fix: extraction removes the prefix from names of own
 top-level objects only

---
 src/v8unpack/MetaDataObject/__init__.py           |  1 +
 src/v8unpack/MetaDataObject/core/IncludeSimple.py |  3 +++
 src/v8unpack/MetaObject/__init__.py               |  1 +
 src/v8unpack/helper.py                            | 10 ++++++----
 4 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/v8unpack/MetaDataObject/__init__.py b/src/v8unpack/MetaDataObject/__init__.py
index d0ef541..2899ef5 100644
--- a/src/v8unpack/MetaDataObject/__init__.py
+++ b/src/v8unpack/MetaDataObject/__init__.py
@@ -51,6 +51,7 @@ class MetaDataObject(MetaObject):
             header_data = cls.brace_file_read(src_dir, file_name)
             self = cls.get_handler(header_data, options)
             self.parent_container_uuid = parent_container_uuid
+            self.is_top_level = not os.path.dirname(dest_path)
             # self = cls()
             # if parent_type:
             #     self.title = parent_type
diff --git a/src/v8unpack/MetaDataObject/core/IncludeSimple.py b/src/v8unpack/MetaDataObject/core/IncludeSimple.py
index 7d047e6..6f5c7eb 100644
--- a/src/v8unpack/MetaDataObject/core/IncludeSimple.py
+++ b/src/v8unpack/MetaDataObject/core/IncludeSimple.py
@@ -1,3 +1,5 @@
+import os
+
 from ...MetaDataObject import MetaDataObject
 from ...ext_exception import ExtException
 
@@ -19,6 +21,7 @@ class IncludeSimple(MetaDataObject):
     def decode_internal_include(cls, parent, header_data, src_dir, dest_dir, dest_path, options):
         try:
             self = cls(options=options)
+            self.is_top_level = not os.path.dirname(dest_path)
             self.decode_header(header_data)
             self.set_write_decode_mode(dest_dir, dest_path)
             self.decode_code(src_dir)
diff --git a/src/v8unpack/MetaObject/__init__.py b/src/v8unpack/MetaObject/__init__.py
index 9b1b8c5..87f78a6 100644
--- a/src/v8unpack/MetaObject/__init__.py
+++ b/src/v8unpack/MetaObject/__init__.py
@@ -15,6 +15,7 @@ class MetaObject:
     _unknown_binary = None
     _obj_info = None
     _obj_name = None
+    is_top_level = False  # объект метаданных первого уровня
 
     re_meta_data_obj = re.compile('^[^.]+\.json$')
     directive_1c_uncomment = re.compile('(?P<n>\\n)(?P<d>#Область|#КонецОбласти|&НаСервере|&НаКлиенте)')
diff --git a/src/v8unpack/helper.py b/src/v8unpack/helper.py
index 7349faf..42acfe3 100644
--- a/src/v8unpack/helper.py
+++ b/src/v8unpack/helper.py
@@ -121,11 +121,13 @@ def decode_header(meta_obj, header: list, *, id_in_separate_file=True):
     except (ValueError, IndexError):
         raise ValueError('Заголовок определен не верно')
 
-    prefix = meta_obj.options.get('prefix', '')
     obj['name'] = str_decode(header[2])
-    if prefix and obj['name'].startswith(prefix):
-        obj['name'] = obj['name'][len(prefix):]
-        header[2] = str_encode(obj['name'])
+    # префикс есть только у объектов верхнего уровня, которые не заимствованы
+    if meta_obj.is_top_level and (len(header) < 6 or header[5] == '0'):
+        prefix = meta_obj.options.get('prefix') or ''
+        if obj['name'].startswith(prefix) and obj['name'] != prefix:
+            obj['name'] = obj['name'][len(prefix):]
+            header[2] = str_encode(obj['name'])
     obj['name2'] = {}
     count_locale = int(header[3][0])
     for i in range(count_locale):
-- 
2.43.0


From a7ed19f9872d498f1e6d489b5ce54da7899360a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:50 +0000
Subject: [PATCH 42/66] fix: auto_include lists no objects when all sources of
 a kind are deleted

---
 src/v8unpack/MetaDataObject/__init__.py           | 4 ++--
 src/v8unpack/MetaObject/Configuration.py          | 4 ++--
 src/v8unpack/MetaObject/ConfigurationExtension.py | 4 ++--
 src/v8unpack/MetaObject/ExternalDataProcessor.py  | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/v8unpack/MetaDataObject/__init__.py b/src/v8unpack/MetaDataObject/__init__.py
index 2899ef5..ef9de74 100644
--- a/src/v8unpack/MetaDataObject/__init__.py
+++ b/src/v8unpack/MetaDataObject/__init__.py
@@ -155,8 +155,8 @@ class MetaDataObject(MetaObject):
             self.name = self.header['name']
             self.uuid = data_id['uuid']
             self.obj_version = self.header['obj_version']
-            if include_index:
-                self.fill_header_includes(include_index)  # todo dynamic index
+            if include_index or self.get_options('auto_include'):
+                self.fill_header_includes(include_index or {})  # todo dynamic index
             self.encode_object(src_dir, src_file_name, dest_dir)
             self.write_encode_object(dest_dir)
             return dict(
diff --git a/src/v8unpack/MetaObject/Configuration.py b/src/v8unpack/MetaObject/Configuration.py
index dcb0bd4..e5a518c 100644
--- a/src/v8unpack/MetaObject/Configuration.py
+++ b/src/v8unpack/MetaObject/Configuration.py
@@ -115,8 +115,8 @@ class Configuration(MetaObject):
             except KeyError:
                 pass
 
-        if include_index and self.get_options('auto_include'):
-            self.fill_header_includes(include_index)  # todo dynamic index
+        if self.get_options('auto_include'):
+            self.fill_header_includes(include_index or {})  # todo dynamic index
 
         helper.brace_file_write(self.header["root"], dest_dir, 'root')
         file_list.append('root')
diff --git a/src/v8unpack/MetaObject/ConfigurationExtension.py b/src/v8unpack/MetaObject/ConfigurationExtension.py
index eeb4d00..e832d32 100644
--- a/src/v8unpack/MetaObject/ConfigurationExtension.py
+++ b/src/v8unpack/MetaObject/ConfigurationExtension.py
@@ -85,8 +85,8 @@ class ConfigurationExtension(Configuration):
 
             helper.check_version(__version__, self.header.get('v8unpack', ''))
 
-            if include_index and self.get_options('auto_include'):
-                self.fill_header_includes(include_index)
+            if self.get_options('auto_include'):
+                self.fill_header_includes(include_index or {})
 
             # self.header['copyinfo'][2] = b64encode(bytes.fromhex(self.header['copyinfo'][2]+md5().digest().hex())).decode()
             root = [
diff --git a/src/v8unpack/MetaObject/ExternalDataProcessor.py b/src/v8unpack/MetaObject/ExternalDataProcessor.py
index fa3b75f..b3955d1 100644
--- a/src/v8unpack/MetaObject/ExternalDataProcessor.py
+++ b/src/v8unpack/MetaObject/ExternalDataProcessor.py
@@ -73,8 +73,8 @@ class ExternalDataProcessor(MetaObject):
 
             self.set_product_info(src_dir, file_name)
 
-            if include_index and self.get_options('auto_include'):
-                self.fill_header_includes(include_index)
+            if self.get_options('auto_include'):
+                self.fill_header_includes(include_index or {})
 
             helper.brace_file_write(self.encode_root(), dest_dir, 'root')
             file_list.append('root')
-- 
2.43.0


From 5f59640f3041021012381a18ec3f806c286720a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:05 +0000
Subject: [PATCH 43/66] fix: auto_include lists objects of a kind that had none
 at extraction

---
 src/v8unpack/MetaObject/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/v8unpack/MetaObject/__init__.py b/src/v8unpack/MetaObject/__init__.py
index 87f78a6..638c986 100644
--- a/src/v8unpack/MetaObject/__init__.py
+++ b/src/v8unpack/MetaObject/__init__.py
@@ -172,6 +172,10 @@ class MetaObject:
                 internal_data = include_index.get(metadata_type.name)
                 if not internal_data:
                     return
+                if not _count_obj and self.get_options('auto_include'):  # при разборе объектов этого типа не было
+                    include_objects = [d[2] for d in sorted(internal_data, key=lambda d: d[1])]
+                    include[i + 3] = [_metadata_type_uuid, str(len(include_objects)), *include_objects]
+                    return
                 # данные простых объектов пришли из внешних файлов и нужно поместить из в объект
                 internal_data_uuid = {}
                 for i, elem in enumerate(internal_data):
-- 
2.43.0


From c8ab82ebde6474bb30e87aa3edca9a0c2c4d6fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:41 +0000
Subject: [PATCH 44/66] fix: a container whose blocks are cut short or missing
 is refused instead of read with less data

---
 src/v8unpack/container_doc.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/v8unpack/container_doc.py b/src/v8unpack/container_doc.py
index 1568969..151c5d0 100644
--- a/src/v8unpack/container_doc.py
+++ b/src/v8unpack/container_doc.py
@@ -10,6 +10,7 @@ from struct import pack
 # -*- coding: utf-8 -*-
 from struct import unpack
 
+from .ext_exception import ExtException
 from .helper import file_size
 
 Header = collections.namedtuple('Header', 'first_empty_block_offset, default_block_size, count_files')
@@ -67,7 +68,7 @@ class Document:
         header_block = self.read_block(file, offset)
 
         if header_block is None:
-            return
+            raise ExtException(message='Контейнер поврежден или обрезан', detail=f'нет блока по смещению {offset}')
         else:
             yield header_block.doc_size
             yield header_block.data
@@ -77,10 +78,16 @@ class Document:
 
             while left_bytes > 0 and next_block_offset != self.container.end_marker:
                 block = self.read_block(file, next_block_offset, left_bytes)
+                if block is None:
+                    break
                 left_bytes -= len(block.data)
                 yield block.data
                 next_block_offset = block.next_block_offset
 
+            if left_bytes > 0:
+                raise ExtException(message='Контейнер поврежден или обрезан',
+                                   detail=f'документу по смещению {offset} не хватает {left_bytes} байт')
+
             # блоки цепочки без данных тоже занимают место в контейнере
             passed = set()
             while next_block_offset != self.container.end_marker and next_block_offset not in passed:
-- 
2.43.0


From 62a2df0f8880c43687f99fe065bcaaf90242abf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:00 +0000
Subject: [PATCH 45/66] fix: a member whose compressed data is cut short is
 refused instead of unpacked in part

---
 src/v8unpack/container_reader.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/v8unpack/container_reader.py b/src/v8unpack/container_reader.py
index 3b94b88..83c9d5b 100644
--- a/src/v8unpack/container_reader.py
+++ b/src/v8unpack/container_reader.py
@@ -97,6 +97,8 @@ def decompress_file_and_extract(params):
                     if data == b'':
                         break
                     dest.write(data)
+                if not decompressor.eof and src.tell():  # документ без данных не сжимается
+                    raise EOFError('сжатые данные обрезаны')
 
         # Каждый файл внутри контейнера может быть контейнером
         # Для проверки является ли файл контейнером проверим первые 4 бита
-- 
2.43.0


From a4337176012432153a7804efe09f74c994689a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:14 +0000
Subject: [PATCH 46/66] fix: a bracket text that ends before its brackets are
 closed is refused instead of read in part

---
 src/v8unpack/json_container_decoder.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/v8unpack/json_container_decoder.py b/src/v8unpack/json_container_decoder.py
index 1935b63..7653994 100644
--- a/src/v8unpack/json_container_decoder.py
+++ b/src/v8unpack/json_container_decoder.py
@@ -122,6 +122,10 @@ class JsonContainerDecoder:
                 #     path=self.path
                 # )
             )
+        if self.path:
+            raise ExtException(
+                message="Ошибка при разборе скобкофайла",
+                detail=f'{os.path.basename(self.src_dir)}/{self.file_name} закончен раньше, чем закрыты все скобки')
         if not self.data:
             return ''
         return self.data
-- 
2.43.0


From f8f7567d9a03a7b05aaf6c67978edc26883e954b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:07 +0000
Subject: [PATCH 47/66] fix: a failed extraction or build stops its processes
 and removes its temporary folder

---
 src/v8unpack/v8unpack.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/v8unpack/v8unpack.py b/src/v8unpack/v8unpack.py
index 2f5c0ad..c77c72e 100644
--- a/src/v8unpack/v8unpack.py
+++ b/src/v8unpack/v8unpack.py
@@ -17,7 +17,17 @@ from .index import update_index
 from .version import __version__
 
 
+def abort(pool, temp_dir):
+    """Останавливает процессы и убирает за собой временную папку, если работа прервана ошибкой"""
+    if pool is not None:
+        pool.terminate()
+        pool.join()
+    if temp_dir is not None:
+        shutil.rmtree(temp_dir, ignore_errors=True)
+
+
 def extract(in_filename: str, out_dir_name: str, *, temp_dir=None, index=None, processes=None, options=None):
+    clear_temp_dir, pool = False, None
     try:
         begin0 = datetime.now()
         options = dict(options) if options else {}  # дополняется при разборке
@@ -63,11 +73,13 @@ def extract(in_filename: str, out_dir_name: str, *, temp_dir=None, index=None, p
         if clear_temp_dir:
             shutil.rmtree(temp_dir, ignore_errors=True)
     except Exception as err:
+        abort(pool, temp_dir if clear_temp_dir else None)
         raise ExtException(parent=err) from None
 
 
 def build(in_dir_name: str, out_file_name: str, *, temp_dir=None, index=None,
           options=None, processes: int = None):
+    clear_temp_dir, pool = False, None
     try:
         begin0 = datetime.now()
         options = dict(options) if options else {}  # дополняется при сборке
@@ -112,6 +124,7 @@ def build(in_dir_name: str, out_file_name: str, *, temp_dir=None, index=None,
         print(f'{"Готово":30}: {end - begin0}')
 
     except Exception as err:
+        abort(pool, temp_dir if clear_temp_dir else None)
         raise ExtException(parent=err) from None
 
 
-- 
2.43.0


From 2034ba9589552605cd9c141aad0362bfea41c628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:10 +0000
Subject: [PATCH 48/66] fix: stale files of an output folder that is a link are
 cleared as well

---
 src/v8unpack/helper.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/v8unpack/helper.py b/src/v8unpack/helper.py
index 42acfe3..d0cc289 100644
--- a/src/v8unpack/helper.py
+++ b/src/v8unpack/helper.py
@@ -158,6 +158,7 @@ def encode_header(meta_obj, header: list):
 
 
 def clear_dir(path: str) -> None:
+    path = os.path.realpath(path)  # если вместо папки ссылка, чистим то, на что она указывает
     shutil.rmtree(path, ignore_errors=True)
     makedirs(path, exist_ok=True)
 
-- 
2.43.0


From 4ab56863147b8b1b1ec4bae481e22d7182358710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:07 +0000
Subject: [PATCH 49/66] fix: a module or form file listed in an index is not
 overwritten by a leftover copy among the sources

---
 src/v8unpack/organizer_file.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/v8unpack/organizer_file.py b/src/v8unpack/organizer_file.py
index 5aba835..565544b 100644
--- a/src/v8unpack/organizer_file.py
+++ b/src/v8unpack/organizer_file.py
@@ -149,7 +149,10 @@ class OrganizerFile:
             if index:
                 cls._pack_index(src_dir, dest_dir, tasks_code_file, tasks_form_elem, index, index_code_areas, [''],
                                 descent)
-            cls._pack(src_dir, dest_dir, '', tasks_code_file, tasks_form_elem, index, index_code_areas, descent)
+            # собираются из файлов, указанных в индексе
+            indexed = {(task[4], task[5]) for task in (*tasks_code_file, *tasks_form_elem)}
+            cls._pack(src_dir, dest_dir, '', tasks_code_file, tasks_form_elem, index, index_code_areas, descent,
+                      indexed)
             helper.run_in_pool(OrganizerCode.pack, tasks_code_file, pool=pool, title=f'{"Собираем код из файлов":30}')
             helper.run_in_pool(OrganizerFormElem.pack, tasks_form_elem, pool=pool,
                                title=f'{"Собираем элементы форм":30}')
@@ -262,7 +265,8 @@ class OrganizerFile:
         return os.listdir(os.path.join(src_dir, path))
 
     @classmethod
-    def _pack(cls, src_dir, dest_dir, path, tasks_code_file, tasks_form_elem, index, index_code_areas, descent=None):
+    def _pack(cls, src_dir, dest_dir, path, tasks_code_file, tasks_form_elem, index, index_code_areas, descent=None,
+              indexed=()):
         if path:
             helper.makedirs(os.path.join(dest_dir, path), exist_ok=True)
         entries = cls.list_descent_dir(src_dir, path, descent)
@@ -272,12 +276,12 @@ class OrganizerFile:
 
                 if os.path.isdir(os.path.normcase(src_entry_path)):
                     cls._pack(src_dir, dest_dir, os.path.join(path, entry), tasks_code_file, tasks_form_elem, index,
-                              index_code_areas, descent)
+                              index_code_areas, descent, indexed)
                     continue
                 _src_path = os.path.join(src_dir, path)
                 descent_full_src_path, descent_file_name = cls.pack_get_descent_filename(
                     _src_path, entry, descent)
-                if os.path.isfile(os.path.normcase(os.path.join(dest_dir, path, entry))):
+                if os.path.isfile(os.path.normcase(os.path.join(dest_dir, path, entry))) or (path, entry) in indexed:
                     # если файл уже есть, значит он был переопределен в индексе и делать ничего не надо
                     continue
                 if entry.endswith('.bsl'):
-- 
2.43.0


From 562c63793ab4d7739150297e5e8095289f6703e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:10 +0000
Subject: [PATCH 50/66] fix: --descent 0 on the command line is no longer taken
 for extraction and build without inheritance

---
 src/v8unpack/v8unpack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v8unpack/v8unpack.py b/src/v8unpack/v8unpack.py
index c77c72e..0a86ddb 100644
--- a/src/v8unpack/v8unpack.py
+++ b/src/v8unpack/v8unpack.py
@@ -262,7 +262,7 @@ def main():
     options_name = ['prefix', 'auto_include', 'descent', 'version']
     for elem in options_name:
         value = getattr(args, elem, None)
-        if value:
+        if value or elem == 'descent' and value is not None:  # 0 - базовая версия
             options[elem] = value
 
     try:
-- 
2.43.0


From dd22dbe3fe148e63b69ed8a1fa37a72a0405542d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:14 +0000
Subject: [PATCH 51/66] fix: --processes of the command line is passed on

---
 src/v8unpack/v8unpack.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/v8unpack/v8unpack.py b/src/v8unpack/v8unpack.py
index 0a86ddb..33d79fe 100644
--- a/src/v8unpack/v8unpack.py
+++ b/src/v8unpack/v8unpack.py
@@ -268,20 +268,20 @@ def main():
     try:
         if args.E is not None:
             extract(os.path.abspath(args.E[0]), os.path.abspath(args.E[1]),
-                    index=args.index, temp_dir=args.temp, options=options)
+                    index=args.index, temp_dir=args.temp, options=options, processes=args.processes)
             return
 
         if args.B is not None:
             build(os.path.abspath(args.B[0]), os.path.abspath(args.B[1]),
-                  index=args.index, temp_dir=args.temp, options=options)
+                  index=args.index, temp_dir=args.temp, options=options, processes=args.processes)
             return
 
         if args.BA is not None:
-            build_all(args.BA[0], args.index)
+            build_all(args.BA[0], args.index, processes=args.processes)
             return
 
         if args.EA is not None:
-            extract_all(args.EA[0], args.index)
+            extract_all(args.EA[0], args.index, processes=args.processes)
             return
 
         if args.I is not None:
-- 
2.43.0


From ab65f95d360890ac34bfe8afe865dc731e3d260d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:11 +0000
Subject: [PATCH 52/66] fix: pages of an empty panel inside a shared area go to
 the area file with it

---
 src/v8unpack/organizer_form_elem.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/v8unpack/organizer_form_elem.py b/src/v8unpack/organizer_form_elem.py
index f8c7d08..580ea2b 100644
--- a/src/v8unpack/organizer_form_elem.py
+++ b/src/v8unpack/organizer_form_elem.py
@@ -89,7 +89,7 @@ class OrganizerFormElem:
                     except Exception:
                         raise KeyNotFound(message='Не найден элемент формы', detail=old_path)
                     child = elem.get('child')
-                    if child:
+                    if child is not None:  # у пустой панели есть страницы
                         cls._pop_area_data(child, old_path, root_data, data, remove_path)
 
             pages = root_data.pop(f'{path}/-pages-', None)
@@ -202,7 +202,7 @@ class OrganizerFormElem:
                     except Exception:
                         raise KeyNotFound(message='Не найден элемент формы', detail=old_path)
                     child = elem.get('child')
-                    if child:
+                    if child is not None:
                         cls._append_area_data(child, old_path, root_data, data, append_path)
 
             pages = data.pop(f'{_path}/-pages-', None)
-- 
2.43.0


From 7afd10cf19f12923e664e15e7891b7e0acbcf1b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:15 +0000
Subject: [PATCH 53/66] fix: a panel whose name only holds includr is not taken
 for a read-only area

---
 .../MetaDataObject/Form/FormElements27/Panel.py  | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/v8unpack/MetaDataObject/Form/FormElements27/Panel.py b/src/v8unpack/MetaDataObject/Form/FormElements27/Panel.py
index ca313b7..bb12b06 100644
--- a/src/v8unpack/MetaDataObject/Form/FormElements27/Panel.py
+++ b/src/v8unpack/MetaDataObject/Form/FormElements27/Panel.py
@@ -1,3 +1,5 @@
+import re
+
 from .FormElement import FormElement, FormItemTypes
 from v8unpack.helper import calc_offset
 from v8unpack import helper
@@ -32,6 +34,11 @@ class Panel(FormElement):
             id.append(name)
         return '/'.join(id)
 
+    @staticmethod
+    def area_path(path):
+        # в пути детей includr не используется
+        return re.sub(r'(^|/)includr_', r'\1include_', path)
+
     def add_elem(self, page, path, name, elem_data, elem_raw_data):
         def get_page_name():
             if page and self.pages:
@@ -89,7 +96,7 @@ class Panel(FormElement):
                 self.form = form
                 self.form.props_index = form.form.props_index
                 elem, elem_data, elem_id = super().decode(form, path, elem_raw_data)
-                new_path = elem_id.replace('includr_', 'include_')
+                new_path = self.area_path(elem_id)
                 self.decode_pages(new_path, elem_raw_data[1 + is_child][1])
                 self.decode_elements(new_path, elem_raw_data[-1])
                 elem['child'] = self.elements_tree
@@ -358,8 +365,7 @@ class Panel(FormElement):
             except Exception as err:
                 raise ExtException(parent=err)
 
-        _path = path
-        _path = path.replace('includr_', 'include_')
+        _path = self.area_path(path)
         pages_offset = self.pages_offset(raw_data)
         try:
             pages_raw_data = raw_data[pages_offset]
@@ -436,7 +442,7 @@ class Panel(FormElement):
     def encode_elements(self, path, raw_data):
 
         try:
-            _path = path.replace('includr_', 'include_')
+            _path = self.area_path(path)
             _id = [_path] if _path else []
             self.anchored = {'1': [], '2': [], '3': [], '4': []}
             result = []
@@ -477,7 +483,7 @@ class Panel(FormElement):
                 elem_raw_data = elem[-3]
                 elem_id = elem[1]
                 offset = 6
-                _path = path.replace('includr', 'include')
+                _path = self.area_path(path)
                 for anchor_border in range(6):
                     border = 1 if anchor_border > 3 else anchor_border
                     for j in range(1, 3):
-- 
2.43.0


From 63216d3bff0ade93744007b51882a5c65e381e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:23 +0000
Subject: [PATCH 54/66] fix: a group, table or attribute that lost all its
 children is built empty

---
 .../MetaDataObject/Form/FormElements4/FormElement.py       | 7 ++++---
 src/v8unpack/MetaDataObject/Form/FormElements4/Group.py    | 7 +------
 src/v8unpack/MetaDataObject/Form/FormElements4/Table.py    | 7 +------
 3 files changed, 6 insertions(+), 15 deletions(-)

diff --git a/src/v8unpack/MetaDataObject/Form/FormElements4/FormElement.py b/src/v8unpack/MetaDataObject/Form/FormElements4/FormElement.py
index 299643b..2f73e68 100644
--- a/src/v8unpack/MetaDataObject/Form/FormElements4/FormElement.py
+++ b/src/v8unpack/MetaDataObject/Form/FormElements4/FormElement.py
@@ -365,12 +365,13 @@ class FormProps(_FormRoot):
         if pattern and len(pattern) > 1 and pattern[1][0] == '"#"' and \
                 pattern[1][1] == 'Родитель' and form.form.parent_container_uuid:
             pattern[1][1] = form.form.parent_container_uuid
-        if data.get('child'):
-            child_count = len(data['child'])
+        if data.get('child') or raw_data[cls.child_offset] == "отдельно":
+            child_list = data.get('child') or []  # все дочерние реквизиты могли удалить
+            child_count = len(child_list)
             raw_data[cls.child_offset] = str(child_count)
             childs = []
             for i in range(child_count):
-                child = data['child'][i]
+                child = child_list[i]
                 childs.append(child['raw'])
             raw_data[cls.child_offset + 1: cls.child_offset + 1] = childs
         return raw_data
diff --git a/src/v8unpack/MetaDataObject/Form/FormElements4/Group.py b/src/v8unpack/MetaDataObject/Form/FormElements4/Group.py
index 8aff13d..2f09168 100644
--- a/src/v8unpack/MetaDataObject/Form/FormElements4/Group.py
+++ b/src/v8unpack/MetaDataObject/Form/FormElements4/Group.py
@@ -32,13 +32,8 @@ class Group(FormElement):
     @classmethod
     def encode(cls, form, path, data):
         try:
-            try:
-                child = data['child']
-            except KeyError:
-                child = []
+            child = data.get('child') or []  # все дочерние элементы могли удалить
             raw_data = super().encode(form, path, data)
-            if not child:
-                return raw_data
             index = calc_offset([(3, 1), (1, 1), (17, 0)], raw_data)
             name_for_child = f"include_{data['name'][8:]}" if data['name'][:8] == 'includr_' else data['name']
             new_path = f"{path}/{name_for_child}" if path else name_for_child
diff --git a/src/v8unpack/MetaDataObject/Form/FormElements4/Table.py b/src/v8unpack/MetaDataObject/Form/FormElements4/Table.py
index 739930d..d55b545 100644
--- a/src/v8unpack/MetaDataObject/Form/FormElements4/Table.py
+++ b/src/v8unpack/MetaDataObject/Form/FormElements4/Table.py
@@ -41,13 +41,8 @@ class Table(FormElement):
     @classmethod
     def encode(cls, form, path, data):
         try:
-            try:
-                child = data['child']
-            except KeyError:
-                child = []
+            child = data.get('child') or []  # все дочерние элементы могли удалить
             raw_data = super().encode(form, path, data)
-            if not child:
-                return raw_data
             cls.encode_columns(form, child, raw_data, data, f"{path}")
             return raw_data
         except Exception as err:
-- 
2.43.0


From 9e0ee76795a143909c070525efb6e6ada6ce0ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:23 +0000
Subject: [PATCH 55/66] fix: a container member whose name is a path is
 refused, not written outside of the folder

---
 src/v8unpack/container.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/v8unpack/container.py b/src/v8unpack/container.py
index f2d6ee0..8e82160 100644
--- a/src/v8unpack/container.py
+++ b/src/v8unpack/container.py
@@ -14,6 +14,7 @@ from struct import unpack, iter_unpack
 from tqdm import tqdm
 
 from .container_doc import Document
+from .ext_exception import ExtException
 from .helper import clear_dir, file_size
 
 Header = collections.namedtuple('Header', 'first_empty_block_offset, default_block_size, count_files')
@@ -92,6 +93,8 @@ class Container:
 
     @staticmethod
     def extract_file(filename, file_obj, path, deflate=False, recursive=False):
+        if os.path.basename(filename) != filename or filename in ('.', '..'):  # имя - это путь за пределы папки
+            raise ExtException(message='Недопустимое имя файла в контейнере', detail=filename)
         file_path = os.path.join(path, filename)
         with open(file_path, 'wb') as f:
             if deflate:
-- 
2.43.0


From 68cc28b04d23d60a7558a997b5a8106d3579a4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:23 +0000
Subject: [PATCH 56/66] fix: a metadata object whose name is a path is refused,
 not written outside of the folder

---
 src/v8unpack/MetaDataObject/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/v8unpack/MetaDataObject/__init__.py b/src/v8unpack/MetaDataObject/__init__.py
index ef9de74..05543d6 100644
--- a/src/v8unpack/MetaDataObject/__init__.py
+++ b/src/v8unpack/MetaDataObject/__init__.py
@@ -201,6 +201,9 @@ class MetaDataObject(MetaObject):
             return int(root[0])
 
     def set_write_decode_mode(self, dest_dir, dest_path):
+        name = self.header['name']
+        if os.path.basename(name) != name or name in ('.', '..'):  # имя - это путь за пределы папки
+            raise ExtException(message='Недопустимое имя объекта метаданных', detail=name)
         self.new_dest_path = os.path.join(dest_path, self.header['name'])
         self.new_dest_dir = os.path.join(dest_dir, self.new_dest_path)
         self.new_dest_file_name = self.get_obj_name()
-- 
2.43.0


From 4adaf3102465a5c06e57ccb5e1ff6c753f97fb32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:23 +0000
Subject: [PATCH 57/66] fix: an empty encrypted module can be built

---
 src/v8unpack/MetaObject/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/v8unpack/MetaObject/__init__.py b/src/v8unpack/MetaObject/__init__.py
index 638c986..f4a693b 100644
--- a/src/v8unpack/MetaObject/__init__.py
+++ b/src/v8unpack/MetaObject/__init__.py
@@ -337,8 +337,8 @@ class MetaObject:
                         self.code[code_name] = helper.bin_read(src_dir, f'{file_name}.{code_name}.{encoding}')
                     else:
                         self.code[code_name] = helper.txt_read(src_dir, f'{file_name}.{code_name}.bsl')
-                except FileNotFoundError:
-                    self.code[code_name] = ''
+                except FileNotFoundError:  # пустые модули не выгружаются
+                    self.code[code_name] = b'' if encoding in self.encrypted_types else ''
 
     def write_encode_code(self, dest_dir, *, comment_directive=False):
         for code_name in self.code:
-- 
2.43.0


From d4b5fa0e5d138b84135bbb7b03179c43d63def20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:23 +0000
Subject: [PATCH 58/66] fix: after an error the processes finish their tasks,
 terminating them could hang

---
 src/v8unpack/v8unpack.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/v8unpack/v8unpack.py b/src/v8unpack/v8unpack.py
index 33d79fe..51425fc 100644
--- a/src/v8unpack/v8unpack.py
+++ b/src/v8unpack/v8unpack.py
@@ -18,10 +18,9 @@ from .version import __version__
 
 
 def abort(pool, temp_dir):
-    """Останавливает процессы и убирает за собой временную папку, если работа прервана ошибкой"""
-    if pool is not None:
-        pool.terminate()
-        pool.join()
+    """Дожидается завершения процессов и убирает за собой временную папку, если работа прервана ошибкой"""
+    if pool is not None:  # не terminate, он зависает, если процесс остановлен во время передачи результата
+        helper.close_pool(pool)
     if temp_dir is not None:
         shutil.rmtree(temp_dir, ignore_errors=True)
 
-- 
2.43.0


From 2ab41505b04f4204716b8f244bd459d39fe82200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:59 +0000
Subject: [PATCH 59/66] fix: an element that was taken out of the form is not
 its default element

---
 .../MetaDataObject/Form/FormElements27/FormElements27.py   | 7 ++++---
 src/v8unpack/MetaDataObject/Form/FormElements27/Panel.py   | 1 +
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/v8unpack/MetaDataObject/Form/FormElements27/FormElements27.py b/src/v8unpack/MetaDataObject/Form/FormElements27/FormElements27.py
index 511b9a1..a9ca3a8 100644
--- a/src/v8unpack/MetaDataObject/Form/FormElements27/FormElements27.py
+++ b/src/v8unpack/MetaDataObject/Form/FormElements27/FormElements27.py
@@ -13,6 +13,7 @@ class FormElements27:
         self.props_index = {}
         self.last_elem_id = 1
         self.field_data_source = []
+        self.elements_index = {}
 
     @property
     def options(self):
@@ -66,9 +67,9 @@ class FormElements27:
 
     def default_elem_name_to_id(self, raw_data):
         if len(raw_data) > 2:
-            data = self.elements_data.get(raw_data[2])
-            if data:
-                raw_data[2] = data['raw'][1]
+            elem_id = self.elements_index.get(raw_data[2])
+            if elem_id:
+                raw_data[2] = elem_id
             elif not str(raw_data[2]).isdigit():  # такого элемента больше нет
                 raw_data[2] = '4294967295'
 
diff --git a/src/v8unpack/MetaDataObject/Form/FormElements27/Panel.py b/src/v8unpack/MetaDataObject/Form/FormElements27/Panel.py
index bb12b06..fda61e3 100644
--- a/src/v8unpack/MetaDataObject/Form/FormElements27/Panel.py
+++ b/src/v8unpack/MetaDataObject/Form/FormElements27/Panel.py
@@ -344,6 +344,7 @@ class Panel(FormElement):
                 elem_raw_data[1 + is_child][1] = self.encode_anchor_index(elem_raw_data[1 + is_child][1])
                 # super().encode(form, path, raw_data)
             form.field_data_source += self.field_data_source
+            form.elements_index.update(self.elements_index)
             return elem_id, elem_raw_data
         except Exception as err:
             raise ExtException(parent=err)
-- 
2.43.0


From bf590c51ac4bc9ef28e4e7be8a91a5c5837834c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:49 +0000
Subject: [PATCH 60/66] fix: a managed form whose elements could not be parsed
 can be built

---
 .../MetaDataObject/Form/FormElements4/FormElement.py     | 3 ++-
 .../MetaDataObject/Form/FormElements4/FormElements4.py   | 9 +++++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/v8unpack/MetaDataObject/Form/FormElements4/FormElement.py b/src/v8unpack/MetaDataObject/Form/FormElements4/FormElement.py
index 2f73e68..d68fde4 100644
--- a/src/v8unpack/MetaDataObject/Form/FormElements4/FormElement.py
+++ b/src/v8unpack/MetaDataObject/Form/FormElements4/FormElement.py
@@ -296,7 +296,8 @@ class _FormRoot:
         raw_data = raw_data[cls.index]
         result = []
         index_element_count = 1
-        if raw_data[index_element_count] == 'Дочерние элементы отдельно':
+        # раздел, который не удалось разобрать, остался целиком
+        if raw_data[index_element_count:index_element_count + 1] == ['Дочерние элементы отдельно']:
             items = getattr(form.form, cls.name)  # helper.json_read(src_dir, f'{file_name}.{cls.name}{version}.json')
             if items:
                 for item in items:
diff --git a/src/v8unpack/MetaDataObject/Form/FormElements4/FormElements4.py b/src/v8unpack/MetaDataObject/Form/FormElements4/FormElements4.py
index ef35026..eecc42b 100644
--- a/src/v8unpack/MetaDataObject/Form/FormElements4/FormElements4.py
+++ b/src/v8unpack/MetaDataObject/Form/FormElements4/FormElements4.py
@@ -119,7 +119,12 @@ class FormElements4:
 
     def encode_elements(self, src_dir, file_name, dest_dir, raw_data):
         try:
-            index = self.get_form_elem_index(raw_data)
+            try:
+                index = self.get_form_elem_index(raw_data)
+            except ExtException:
+                if self.form.elements_tree:
+                    raise
+                return  # элементы не удалось разобрать, они остались в форме целиком
             root_data = raw_data[1]
 
             # index_panel_count = index[1]
@@ -128,7 +133,7 @@ class FormElements4:
             #     self.command_panels = helper.json_read(src_dir, f'{file_name}.panels{version}.json')
 
             index_root_element_count = index[0]
-            if root_data[index_root_element_count] == 'Дочерние элементы отдельно':
+            if root_data[index_root_element_count:index_root_element_count + 1] == ['Дочерние элементы отдельно']:
                 # root_data[index_root_element_count] = str(len(self.elements_tree))
                 FormElement.encode_list(self, self.form.elements_tree, root_data, index_root_element_count)
         except Exception as err:
-- 
2.43.0


From a50c6684680baf00e67d82970acf4e1640ef5271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:54 +0000
Subject: [PATCH 61/66] fix: a managed form without a form file does not get
 one on build

---
 src/v8unpack/MetaDataObject/Form/FormCore.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v8unpack/MetaDataObject/Form/FormCore.py b/src/v8unpack/MetaDataObject/Form/FormCore.py
index 7caa91a..fe73334 100644
--- a/src/v8unpack/MetaDataObject/Form/FormCore.py
+++ b/src/v8unpack/MetaDataObject/Form/FormCore.py
@@ -300,7 +300,7 @@ class FormCore(SimpleNameFolder):
             else:
                 helper.brace_file_write(self.encode_header(), dest_dir, self.header["uuid"])
                 self.file_list.append(self.header["uuid"])
-                if self.form:
+                if self.form and self.form[0]:
                     file_name = f'{self.header["uuid"]}.0'
                     helper.brace_file_write(self.form[0], dest_dir, file_name)
                     self.file_list.append(file_name)
-- 
2.43.0


From dd82c84ba8711b0105f6e576732e41a345656b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:15 +0000
Subject: [PATCH 62/66] fix: a block cut short in the middle of a chain is
 refused

---
 src/v8unpack/container_doc.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/v8unpack/container_doc.py b/src/v8unpack/container_doc.py
index 151c5d0..7010109 100644
--- a/src/v8unpack/container_doc.py
+++ b/src/v8unpack/container_doc.py
@@ -130,6 +130,9 @@ class Document:
         data_size = min(current_block_size, max_data_length)
 
         data = file.read(data_size)
+        if len(data) < data_size:
+            raise ExtException(message='Контейнер поврежден или обрезан',
+                               detail=f'блоку по смещению {offset} не хватает {data_size - len(data)} байт')
 
         return Block(doc_size, current_block_size, next_block_offset, data)
 
-- 
2.43.0


From ce15164e603682b1fcb76a57bf98045f395953ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:51:07 +0000
Subject: [PATCH 63/66] fix: nested containers are unpacked without working
 files beside other members

---
 src/v8unpack/container.py        | 14 +++++++-------
 src/v8unpack/container_reader.py | 15 ++++++++-------
 2 files changed, 15 insertions(+), 14 deletions(-)

diff --git a/src/v8unpack/container.py b/src/v8unpack/container.py
index 8e82160..9e3bc5b 100644
--- a/src/v8unpack/container.py
+++ b/src/v8unpack/container.py
@@ -118,13 +118,13 @@ class Container:
             if f.read(4) == b'\xFF\xFF\xFF\x7F':
                 file_is_container = True
         if file_is_container:
-            temp_name = file_path + '.tmp'
-            os.rename(file_path, temp_name)
-            with open(temp_name, 'rb') as f:
-                _container = Container()
-                _container.read(f)
-                _container.extract(file_path, recursive=True)
-            os.remove(temp_name)
+            # рядом может лежать файл с любым именем, поэтому временный файл не создаем
+            with open(file_path, 'rb') as f:
+                container_data = io.BytesIO(f.read())
+            os.remove(file_path)
+            _container = Container()
+            _container.read(container_data)
+            _container.extract(file_path, recursive=True)
 
     def read_header(self, file):
         """
diff --git a/src/v8unpack/container_reader.py b/src/v8unpack/container_reader.py
index 83c9d5b..72bde54 100644
--- a/src/v8unpack/container_reader.py
+++ b/src/v8unpack/container_reader.py
@@ -1,4 +1,5 @@
 # -*- coding: utf-8 -*-
+import io
 import os
 import zlib
 from datetime import datetime
@@ -105,13 +106,13 @@ def decompress_file_and_extract(params):
         # Способ проверки ненадежный - нужно придумать что-то другое
 
         if file_is_container:
-            temp_filename = dest_path + ".temp"
-            os.rename(dest_path, temp_filename)
-            with open(temp_filename, 'rb') as f:
-                container = Container()
-                container.read(f)
-                container.extract(dest_path, recursive=True)
-            os.remove(temp_filename)
+            # рядом может лежать файл с любым именем, поэтому временный файл не создаем
+            with open(dest_path, 'rb') as f:
+                container_data = io.BytesIO(f.read())
+            os.remove(dest_path)
+            container = Container()
+            container.read(container_data)
+            container.extract(dest_path, recursive=True)
 
     except Exception as err:
         raise ExtException(
-- 
2.43.0


From 7240f2f93a1d1323f89591ac377fd3fca3ea6c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:15:28 +0000
Subject: [PATCH 64/66] fix: the cause of an error is kept when an outer error
 has its own message or detail

---
 src/v8unpack/ext_exception.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/v8unpack/ext_exception.py b/src/v8unpack/ext_exception.py
index 4e01249..6bc4f9d 100644
--- a/src/v8unpack/ext_exception.py
+++ b/src/v8unpack/ext_exception.py
@@ -68,7 +68,10 @@ class ExtException(Exception):
                             self.dump[key] = value
                 if not message:
                     self.message = parent.message
-                    self.detail = parent.detail
+                    if parent.detail and detail:  # уточнение не заменяет причину, но и не теряется
+                        self.detail = f'{parent.detail} {detail}'
+                    else:
+                        self.detail = parent.detail or detail
                     self.code = parent.code
                 if not self.dump:
                     self.dump = parent.dump
@@ -110,11 +113,15 @@ class ExtException(Exception):
         if parent.stack:
             self.stack.extend(parent.stack)
 
-        if not parent.action or (self.stack and self.stack[-1].get('action') == parent.action):
+        replaced = self.new_msg and bool(parent.message)  # сообщение родителя заменено своим и остается только в стеке
+        same_action = not parent.action or bool(self.stack and self.stack[-1].get('action') == parent.action)
+        if same_action and not replaced:
             return
 
-        stack1 = dict(action=parent.action)
-        if parent.new_msg:
+        stack1 = {}
+        if not same_action:
+            stack1['action'] = parent.action
+        if parent.new_msg or replaced:
             stack1['message'] = parent.message
             if parent.detail:
                 stack1['detail'] = parent.detail
-- 
2.43.0


From f80aede6aa29ab249ab60308e9553882abb74e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:22:42 +0000
Subject: [PATCH 65/66] fix: a product cut before an empty last block of a
 chain is refused

---
 src/v8unpack/container_doc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/v8unpack/container_doc.py b/src/v8unpack/container_doc.py
index 7010109..49a6bb9 100644
--- a/src/v8unpack/container_doc.py
+++ b/src/v8unpack/container_doc.py
@@ -94,7 +94,8 @@ class Document:
                 passed.add(next_block_offset)
                 block = self.read_block(file, next_block_offset, 0)
                 if block is None:
-                    break
+                    raise ExtException(message='Контейнер поврежден или обрезан',
+                                       detail=f'нет блока по смещению {next_block_offset}')
                 next_block_offset = block.next_block_offset
 
     def read_block(self, file, offset, max_data_length=None):
-- 
2.43.0


From c2aca5709b8f907aa9f3a65babc7db1b784e0285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:40:33 +0000
Subject: [PATCH 66/66] fix: files of the first container whose names hold two
 dots in a row are built back

---
 src/v8unpack/decoder.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/v8unpack/decoder.py b/src/v8unpack/decoder.py
index 63e423b..d66f44a 100644
--- a/src/v8unpack/decoder.py
+++ b/src/v8unpack/decoder.py
@@ -1,5 +1,6 @@
 import os
 import shutil
+import zipfile
 from datetime import datetime
 
 from . import helper
@@ -179,7 +180,8 @@ def encode(src_dir, dest_dir, *, pool=None, options=None, file_name=None):
         dummy_path = os.path.join(src_dir, 'dummy.zip')
         if os.path.isfile(dummy_path):
             helper.clear_dir(container_dest_dir)
-            shutil.unpack_archive(dummy_path, container_dest_dir)
+            with zipfile.ZipFile(dummy_path) as dummy:
+                dummy.extractall(container_dest_dir)
             return os.path.join(dest_dir, '1')
         return container_dest_dir
 
-- 
2.43.0


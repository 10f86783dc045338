From c77a8e321f95aaa0038a911231317930db3ce9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:15 +0000
Subject: [PATCH 01/51] fix: write the second container of a file with offsets
 relative to its own start

---
 src/v8unpack/container.py     | 5 +++--
 src/v8unpack/container_doc.py | 4 ++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/v8unpack/container.py b/src/v8unpack/container.py
index 23ec4c6..be608dd 100644
--- a/src/v8unpack/container.py
+++ b/src/v8unpack/container.py
@@ -238,10 +238,11 @@ class Container:
             doc = Document(self)
 
             if total_blocks == 1:
-                doc.write_block(f, doc_size=doc_size, offset=self.header_size)
+                doc.write_block(f, doc_size=doc_size, offset=self.header_size,
+                                min_block_size=self.index_block_size)
             else:
                 f.seek(0)
-                next_block_offset = file_size(self.file)
+                next_block_offset = file_size(self.file) - self.offset
                 doc.write_block(io.BytesIO(f.read(self.index_block_size)),
                                 doc_size=doc_size, offset=self.header_size,
                                 min_block_size=self.index_block_size,
diff --git a/src/v8unpack/container_doc.py b/src/v8unpack/container_doc.py
index 1c0b601..2d29962 100644
--- a/src/v8unpack/container_doc.py
+++ b/src/v8unpack/container_doc.py
@@ -143,9 +143,9 @@ class Document:
         :rtype: int
         """
         if offset is not None:
-            self.container.file.seek(offset)
+            self.container.file.seek(offset + self.container.offset)
         else:
-            offset = file_size(self.container.file)
+            offset = file_size(self.container.file) - self.container.offset
         block_size = file_size(data)
         min_block_size = max(min_block_size, block_size)
         if not next_block_offset:
-- 
2.43.0


From d530f5fd686232ddd421110c8b07d73a188d9706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:15 +0000
Subject: [PATCH 02/51] fix: add a nested container before its temporary file
 is closed

---
 src/v8unpack/container.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v8unpack/container.py b/src/v8unpack/container.py
index be608dd..2dddeec 100644
--- a/src/v8unpack/container.py
+++ b/src/v8unpack/container.py
@@ -205,7 +205,7 @@ class Container:
                 with tempfile.TemporaryFile() as tmp2:
                     _container = Container()
                     _container.build(tmp2, file_path, nested=True)
-                self.add_file(tmp2, file_name, inflate=not nested)
+                    self.add_file(tmp2, file_name, inflate=not nested)
             else:
                 with open(file_path, 'rb') as entry_file:
                     self.add_file(entry_file, file_name, inflate=not nested)
-- 
2.43.0


From 7694fe335ca31aaab874d2b02d0b428af2aa6c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:15 +0000
Subject: [PATCH 03/51] fix: decode entry names as utf-16-le, the way they are
 written

---
 src/v8unpack/container.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v8unpack/container.py b/src/v8unpack/container.py
index 2dddeec..41d943f 100644
--- a/src/v8unpack/container.py
+++ b/src/v8unpack/container.py
@@ -182,7 +182,7 @@ class Container:
             # Из описания формата длина имени файла определяется точно, поэтому, теоретически, мусора быть не должно
             # По факту имя часто имеет в конце мусор, который чаще всего состоит из последовательности \x00 n-раз,
             # но иногда бывают и другие символы после \x00. Поэтому применяем вот такой костыль:
-            name = file_description[3].decode('utf-16').partition('\x00')[0]
+            name = file_description[3].decode('utf-16-le').partition('\x00')[0]
 
             doc = Document(self)
             file_data = doc.read_chunk(file, file_data_offset, self.default_block_size)
-- 
2.43.0


From 4760befae7e6cbf0a35dd5d3c4ffde71ade8a8a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:51 +0000
Subject: [PATCH 04/51] fix: refuse container entries whose name is a path

---
 src/v8unpack/container.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/v8unpack/container.py b/src/v8unpack/container.py
index 41d943f..4e00577 100644
--- a/src/v8unpack/container.py
+++ b/src/v8unpack/container.py
@@ -92,6 +92,8 @@ class Container:
 
     @staticmethod
     def extract_file(filename, file_obj, path, deflate=False, recursive=False):
+        if filename in ('', '.', '..') or os.path.basename(filename) != filename:
+            raise ValueError(f'Недопустимое имя файла в контейнере: {filename!r}')
         file_path = os.path.join(path, filename)
         with open(file_path, 'wb') as f:
             if deflate:
-- 
2.43.0


From 8af7aa7e125e0b93950d7b91cca1c6806e01aa9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:35 +0000
Subject: [PATCH 05/51] fix: report a truncated container instead of returning
 shortened data

---
 src/v8unpack/container_doc.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/v8unpack/container_doc.py b/src/v8unpack/container_doc.py
index 2d29962..d97780b 100644
--- a/src/v8unpack/container_doc.py
+++ b/src/v8unpack/container_doc.py
@@ -89,6 +89,9 @@ class Document:
                 yield block.data
                 next_block_offset = block.next_block_offset
 
+            if left_bytes > 0:
+                raise BufferError('Container document is incomplete')
+
     def read_block(self, file, offset, max_data_length=None):
         """
         Считывает блок данных из контейнера.
@@ -119,6 +122,8 @@ class Document:
         data_size = min(current_block_size, max_data_length)
 
         data = file.read(data_size)
+        if len(data) < data_size:
+            raise BufferError('Container is truncated')
 
         return Block(doc_size, current_block_size, next_block_offset, data)
 
-- 
2.43.0


From e88b44c5050c095ba4332139503f95e7a6f66cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:43 +0000
Subject: [PATCH 06/51] fix: do not wrap long quoted strings as if they were
 base64

---
 src/v8unpack/json_container_decoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v8unpack/json_container_decoder.py b/src/v8unpack/json_container_decoder.py
index c560d0e..1935b63 100644
--- a/src/v8unpack/json_container_decoder.py
+++ b/src/v8unpack/json_container_decoder.py
@@ -335,7 +335,7 @@ class JsonContainerDecoder:
                     is_base64 = False
                     if j > 64:  # base64 нужно переносить
                         try:
-                            b64decode(elem)
+                            b64decode(elem, validate=True)
                             is_base64 = True
                         except ValueError:
                             pass
-- 
2.43.0


From fc318302ff13e8c23af57a9e7d4809d4c7ccb294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:43 +0000
Subject: [PATCH 07/51] fix: drop the dot of the txt extension when a text file
 is put back

---
 src/v8unpack/json_container_decoder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/v8unpack/json_container_decoder.py b/src/v8unpack/json_container_decoder.py
index 1935b63..7f26aff 100644
--- a/src/v8unpack/json_container_decoder.py
+++ b/src/v8unpack/json_container_decoder.py
@@ -447,12 +447,12 @@ def _encode(src_dir, dest_dir, tasks):
                     encoding = helper.detect_by_bom(src_entry_path, 'utf-8')
                     try:
                         with open(src_entry_path, 'r', encoding=encoding) as entry_file:
-                            with open(dest_entry_path[:-3], 'w', encoding=encoding) as f:
+                            with open(dest_entry_path[:-4], 'w', encoding=encoding) as f:
                                 f.write(entry_file.read())
                     except UnicodeDecodeError:
                         encoding = 'windows-1251'
                         with open(src_entry_path, 'r', encoding=encoding) as entry_file:
-                            with open(dest_entry_path[:-3], 'w', encoding=encoding) as f:
+                            with open(dest_entry_path[:-4], 'w', encoding=encoding) as f:
                                 f.write(entry_file.read())
                 elif extension == 'bin' or extension == 'c1b64':
                     shutil.copy2(
-- 
2.43.0


From 0fe4f07b8b65f7f66c3571868b76e7a0b446b940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:04 +0000
Subject: [PATCH 08/51] fix: keep the module when an include area is named root

---
 src/v8unpack/organizer_code.py | 4 ++--
 src/v8unpack/organizer_file.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/v8unpack/organizer_code.py b/src/v8unpack/organizer_code.py
index 19f0c2a..b762f93 100644
--- a/src/v8unpack/organizer_code.py
+++ b/src/v8unpack/organizer_code.py
@@ -21,9 +21,9 @@ class OrganizerCode:
     def unpack(cls, params):
         src_dir, path, file_name, dest_dir, index, descent = params
         self = cls()
-        self.code_areas = {'root': dict(data='')}
+        self.code_areas = {None: dict(data='')}  # None - код вне include областей
         _path = ['']
-        _include_path = ['root']
+        _include_path = [None]
         with open(os.path.join(src_dir, path, file_name), 'r', encoding='utf-8-sig') as file:
             line = file.readline()
             while line:
diff --git a/src/v8unpack/organizer_file.py b/src/v8unpack/organizer_file.py
index db2b2c9..6eaae34 100644
--- a/src/v8unpack/organizer_file.py
+++ b/src/v8unpack/organizer_file.py
@@ -84,7 +84,7 @@ class OrganizerFile:
             code_areas = OrganizerCode.unpack(params)
             for elem in code_areas:
                 _file = code_areas[elem]
-                if elem == 'root':
+                if elem is None:
                     _file['path'], _file['file_name'] = get_dest_path(dest_dir, path, file_name, index, descent)
                 else:
                     if _file['area_type'] == 'includr':
-- 
2.43.0


From 817b1fe7f7c82d00620c491fc737cfb08e0c3a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:04 +0000
Subject: [PATCH 09/51] fix: write an include area even if the module also
 reads it with includr

---
 src/v8unpack/organizer_code.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/v8unpack/organizer_code.py b/src/v8unpack/organizer_code.py
index b762f93..5ef7712 100644
--- a/src/v8unpack/organizer_code.py
+++ b/src/v8unpack/organizer_code.py
@@ -39,6 +39,8 @@ class OrganizerCode:
                             if area_type:
                                 area_name_parts = _line[17:].strip().split(' //')
                                 key = area_name_parts[0]
+                                if area_type == 'includr':  # не затираем одноименную область include
+                                    key = f'includr_{key}'
 
                                 # if key in self.code_areas:
                                 #     raise Exception(
-- 
2.43.0


From 6b8eee4b09d2b84de79543897062f39ad720c69a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:08 +0000
Subject: [PATCH 10/51] fix: look for an include area without a path where
 unpacking puts it

---
 src/v8unpack/organizer_code.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/v8unpack/organizer_code.py b/src/v8unpack/organizer_code.py
index 5ef7712..86dec47 100644
--- a/src/v8unpack/organizer_code.py
+++ b/src/v8unpack/organizer_code.py
@@ -71,12 +71,13 @@ class OrganizerCode:
     def pack(cls, params):
         src_dir, src_path, src_file_name, dest_dir, dest_path, dest_file_name, index_code_areas, \
         descent, pack_get_descent_filename = params
-        data = cls.pack_file(src_dir, src_path, src_file_name, index_code_areas, descent, pack_get_descent_filename)
+        data = cls.pack_file(src_dir, src_path, src_file_name, index_code_areas, descent, pack_get_descent_filename,
+                             module_path=dest_path)
         helper.txt_write(data, os.path.join(dest_dir, dest_path), dest_file_name)
 
     @classmethod
     def pack_file(cls, src_dir, path, file_name, index_code_areas, descent, pack_get_descent_filename,
-                  dynamic_directive=None):
+                  dynamic_directive=None, module_path=None):
         normcase_src = os.path.normcase('\\src\\')
         try:
             data = ''
@@ -99,13 +100,16 @@ class OrganizerCode:
 
                             current_dynamic_directive = area_name_parts[1] if len(area_name_parts) > 1 else dynamic_directive
 
-                            _path, _file_name = cls.parse_include_path(include_path, path, file_name, index_code_areas,
-                                                                       descent)
+                            # область без пути лежит рядом с модулем, куда её и положила разборка
+                            _path, _file_name = cls.parse_include_path(
+                                include_path, path if module_path is None else module_path, file_name,
+                                index_code_areas, descent)
                             _src_abs_path = os.path.abspath(os.path.join(src_dir, _path))
                             if _src_abs_path.startswith(src_dir) or os.path.normcase(_path).find(normcase_src) >= 0:
                                 _path, _file_name = pack_get_descent_filename(_src_abs_path, _file_name, descent)
                             data += cls.pack_file(src_dir, _path, _file_name, index_code_areas, descent,
-                                                  pack_get_descent_filename, current_dynamic_directive)
+                                                  pack_get_descent_filename, current_dynamic_directive,
+                                                  module_path)
                     line = file.readline()
                 return data
         except ExtException as err:
-- 
2.43.0


From 00310105ef52d18f356519187dede32e63d33767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:29 +0000
Subject: [PATCH 11/51] fix: keep the files of other versions when unpacking
 with descent

---
 src/v8unpack/organizer_file.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/v8unpack/organizer_file.py b/src/v8unpack/organizer_file.py
index 6eaae34..1daf0dc 100644
--- a/src/v8unpack/organizer_file.py
+++ b/src/v8unpack/organizer_file.py
@@ -17,7 +17,10 @@ class OrganizerFile:
         print(f'{"Организуем код":30}')
         tasks_code_file = []
         tasks_form_elem = []
-        helper.clear_dir(dest_dir)
+        if descent is None:
+            helper.clear_dir(dest_dir)
+        else:  # в папке лежат файлы других версий
+            helper.makedirs(dest_dir, exist_ok=True)
         cls._unpack(src_dir, os.path.abspath(dest_dir), '', tasks_code_file, tasks_form_elem, index,
                     descent)
         helper.run_in_pool(cls.unpack_code_file, tasks_code_file, pool=pool,
-- 
2.43.0


From 6f5dec5cfffd5341930b0dceb48237e882aec546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:29 +0000
Subject: [PATCH 12/51] fix: do not take a file with a similar name for a
 version of the file

---
 src/v8unpack/helper.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/v8unpack/helper.py b/src/v8unpack/helper.py
index 109a329..aaab05c 100644
--- a/src/v8unpack/helper.py
+++ b/src/v8unpack/helper.py
@@ -367,12 +367,14 @@ def get_near_descent_file_name(path, file_name, descent):
                 is_without_descent = True
                 continue
 
-            if len(_entity) - 1 != size:
+            if len(_entity) - 1 != size or _entity[:-2] + _entity[-1:] != name:
                 continue
             full_path = os.path.join(path, entity)
             if os.path.isfile(full_path):
                 try:
-                    descents.append(int(_entity[-2]))
+                    _descent = int(_entity[-2])
+                    if str(_descent) == _entity[-2]:
+                        descents.append(_descent)
                 except ValueError:  # если во втором разряде не число, значит не наш вариант
                     pass
     if not descents:
-- 
2.43.0


From 6c410e66fd3138015e328526079f93a37fb90df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:29 +0000
Subject: [PATCH 13/51] fix: keep a file name whose middle part is not a
 version number

---
 src/v8unpack/helper.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/v8unpack/helper.py b/src/v8unpack/helper.py
index aaab05c..67b7613 100644
--- a/src/v8unpack/helper.py
+++ b/src/v8unpack/helper.py
@@ -398,7 +398,8 @@ def remove_descent_from_filename(file_name):
         if str(int(_descent)) == _descent:
             return '.'.join(_name)
     except Exception:
-        return file_name
+        pass
+    return file_name
 
 
 def makedirs(name, exist_ok=False):
-- 
2.43.0


From f0bbd99c23dda52e6fd773a718ca656f61e515e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:29 +0000
Subject: [PATCH 14/51] fix: do not replace a file excepted in the index with
 one from the shared folder

---
 src/v8unpack/organizer_file.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/v8unpack/organizer_file.py b/src/v8unpack/organizer_file.py
index 1daf0dc..f292c33 100644
--- a/src/v8unpack/organizer_file.py
+++ b/src/v8unpack/organizer_file.py
@@ -210,6 +210,7 @@ class OrganizerFile:
                 if entry == 'Области include':
                     continue
                 if not index[entry]:
+                    completed_entry.append(entry)
                     continue
                 if entry.startswith("*"):
                     all_path = index[entry]
-- 
2.43.0


From 1f57e64526c06956245150e5655bd958ba81a4ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:23 +0000
Subject: [PATCH 15/51] fix: build a module named in the index from there only

---
 src/v8unpack/organizer_file.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/v8unpack/organizer_file.py b/src/v8unpack/organizer_file.py
index f292c33..756d1d0 100644
--- a/src/v8unpack/organizer_file.py
+++ b/src/v8unpack/organizer_file.py
@@ -146,7 +146,13 @@ class OrganizerFile:
             if index:
                 cls._pack_index(src_dir, dest_dir, tasks_code_file, tasks_form_elem, index, index_code_areas, [''],
                                 descent)
-            cls._pack(src_dir, dest_dir, '', tasks_code_file, tasks_form_elem, index, index_code_areas, descent)
+            # файлы переопределенные в индексе из папки исходников не берем
+            overridden = {(task[4], task[5]) for task in tasks_code_file + tasks_form_elem}
+            src_code_file = []
+            src_form_elem = []
+            cls._pack(src_dir, dest_dir, '', src_code_file, src_form_elem, index, index_code_areas, descent)
+            tasks_code_file.extend(task for task in src_code_file if (task[4], task[5]) not in overridden)
+            tasks_form_elem.extend(task for task in src_form_elem if (task[4], task[5]) not in overridden)
             helper.run_in_pool(OrganizerCode.pack, tasks_code_file, pool=pool, title=f'{"Собираем код из файлов":30}')
             helper.run_in_pool(OrganizerFormElem.pack, tasks_form_elem, pool=pool,
                                title=f'{"Собираем элементы форм":30}')
-- 
2.43.0


From 0b97425f7ca42488bd34bed612293bf8ec8313de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:23 +0000
Subject: [PATCH 16/51] fix: list the folder of a * index entry where its files
 are read from

---
 src/v8unpack/organizer_file.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/v8unpack/organizer_file.py b/src/v8unpack/organizer_file.py
index 756d1d0..2568c94 100644
--- a/src/v8unpack/organizer_file.py
+++ b/src/v8unpack/organizer_file.py
@@ -220,7 +220,13 @@ class OrganizerFile:
                     continue
                 if entry.startswith("*"):
                     all_path = index[entry]
-                    all_files = os.listdir(all_path)
+                    all_full_path = os.path.join(
+                        src_dir,
+                        '..',
+                        '' if descent is None else '..',  # в режиме с descent корень находится на уровень выше
+                        all_path
+                    )
+                    all_files = os.listdir(all_full_path)
                     excluded = entry.split('-')[1:]
                     for file_name in all_files:
                         # пропускаем все что были до
@@ -229,7 +235,7 @@ class OrganizerFile:
                         if file_name in excluded:
                             continue
                         file_path = os.path.join(all_path, file_name)
-                        if not os.path.isfile(os.path.normcase(file_path)):
+                        if not os.path.isfile(os.path.normcase(os.path.join(all_full_path, file_name))):
                             continue
                         cls._pack_index_elem(file_name, src_dir, dest_dir, tasks_code_file, tasks_form_elem, file_path,
                                              index_code_areas, path, descent)
-- 
2.43.0


From 5597aad6e4bbb69d611ef8595b8aae7aa803b57a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:23 +0000
Subject: [PATCH 17/51] fix: do not treat a folder beside the sources as part
 of them because of a common name start

---
 src/v8unpack/helper.py         | 4 ++++
 src/v8unpack/organizer_code.py | 4 ++--
 src/v8unpack/organizer_file.py | 4 ++--
 3 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/v8unpack/helper.py b/src/v8unpack/helper.py
index 67b7613..dff6a08 100644
--- a/src/v8unpack/helper.py
+++ b/src/v8unpack/helper.py
@@ -328,6 +328,10 @@ def get_extension_from_comment(comment: str) -> str:
     return res
 
 
+def is_inside(path: str, folder: str) -> bool:
+    return os.path.join(path, '').startswith(os.path.join(folder, ''))
+
+
 def check_version(v8_version: str, src_version: str) -> None:
     _v8 = v8_version.split(".")
     _src = src_version.split(".")
diff --git a/src/v8unpack/organizer_code.py b/src/v8unpack/organizer_code.py
index 86dec47..6240916 100644
--- a/src/v8unpack/organizer_code.py
+++ b/src/v8unpack/organizer_code.py
@@ -82,7 +82,7 @@ class OrganizerCode:
         try:
             data = ''
             _src_abs_path = os.path.abspath(os.path.join(src_dir, path))
-            if _src_abs_path.startswith(src_dir) or os.path.normcase(path).find(normcase_src) >= 0:
+            if helper.is_inside(_src_abs_path, src_dir) or os.path.normcase(path).find(normcase_src) >= 0:
                 _src_abs_path, file_name = pack_get_descent_filename(_src_abs_path, file_name, descent)
 
             with open(os.path.join(_src_abs_path, file_name), 'r', encoding='utf-8') as file:
@@ -105,7 +105,7 @@ class OrganizerCode:
                                 include_path, path if module_path is None else module_path, file_name,
                                 index_code_areas, descent)
                             _src_abs_path = os.path.abspath(os.path.join(src_dir, _path))
-                            if _src_abs_path.startswith(src_dir) or os.path.normcase(_path).find(normcase_src) >= 0:
+                            if helper.is_inside(_src_abs_path, src_dir) or os.path.normcase(_path).find(normcase_src) >= 0:
                                 _path, _file_name = pack_get_descent_filename(_src_abs_path, _file_name, descent)
                             data += cls.pack_file(src_dir, _path, _file_name, index_code_areas, descent,
                                                   pack_get_descent_filename, current_dynamic_directive,
diff --git a/src/v8unpack/organizer_file.py b/src/v8unpack/organizer_file.py
index 2568c94..7fa600f 100644
--- a/src/v8unpack/organizer_file.py
+++ b/src/v8unpack/organizer_file.py
@@ -65,7 +65,7 @@ class OrganizerFile:
             src_full_path = os.path.join(src_path, src_file_name)
 
             # файлы вне папки исходников не версионируются
-            if dest_full_path.startswith(dest_dir) or os.path.normcase(dest_entry_path).find('\\src\\') >= 0:
+            if helper.is_inside(dest_full_path, dest_dir) or os.path.normcase(dest_entry_path).find('\\src\\') >= 0:
                 descent_full_dest_path, descent_file_name = cls.unpack_get_descent_filename(src_path, src_file_name,
                                                                                             None,
                                                                                             dest_full_path,
@@ -95,7 +95,7 @@ class OrganizerFile:
                     _file['path'], _file['file_name'] = OrganizerCode.parse_include_path(
                         elem, path, file_name, index.get('Области include') if index else None, descent)
                 _file['dest_path'] = os.path.abspath(os.path.join(dest_dir, _file['path']))
-                if _file['dest_path'].startswith(dest_dir) or os.path.normcase(_file['path']).find('\\src\\') >= 0:
+                if helper.is_inside(_file['dest_path'], dest_dir) or os.path.normcase(_file['path']).find('\\src\\') >= 0:
                     descent_full_dest_path, descent_file_name = cls.unpack_get_descent_filename(
                         None, None, _file['data'], _file['dest_path'], _file['file_name'], descent,
                         cls.equal_code_file)
-- 
2.43.0


From b150673fd9c7ba85f3ed3f9e4ceb21e4e4f986ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:23 +0000
Subject: [PATCH 18/51] fix: keep form elements per version in descent mode,
 like the other files

---
 src/v8unpack/organizer_file.py      |  2 +-
 src/v8unpack/organizer_form_elem.py | 15 +++++++++++----
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/v8unpack/organizer_file.py b/src/v8unpack/organizer_file.py
index 7fa600f..89ded57 100644
--- a/src/v8unpack/organizer_file.py
+++ b/src/v8unpack/organizer_file.py
@@ -43,7 +43,7 @@ class OrganizerFile:
                 if entry.endswith('.bsl'):
                     tasks_code_file.append((src_dir, path, entry, dest_dir, index, descent))
                 elif entry.endswith('.elem.json'):
-                    tasks_form_elem.append((src_dir, path, entry, dest_dir, index, descent))
+                    tasks_form_elem.append((src_dir, path, entry, dest_dir, index, descent, cls))
                 else:
                     src_path = os.path.join(src_dir, path)
                     cls.unpack_file(src_path, entry, dest_dir, path, entry, index, descent)
diff --git a/src/v8unpack/organizer_form_elem.py b/src/v8unpack/organizer_form_elem.py
index 0c2978f..f5ef241 100644
--- a/src/v8unpack/organizer_form_elem.py
+++ b/src/v8unpack/organizer_form_elem.py
@@ -1,3 +1,4 @@
+import json
 import os
 
 from . import helper
@@ -13,12 +14,12 @@ class OrganizerFormElem:
 
     @classmethod
     def unpack(cls, params):
-        src_dir, path, file_name, dest_dir, index, descent = params
+        src_dir, path, file_name, dest_dir, index, descent, organizer = params
         areas = {}
         elements = helper.json_read(os.path.join(src_dir, path), file_name)
         cls._unpack_get_areas(elements['tree'], '', elements['data'], areas)
         areas['root'] = elements
-        cls._unpack_write_areas(src_dir, path, file_name, dest_dir, index, descent, areas)
+        cls._unpack_write_areas(src_dir, path, file_name, dest_dir, index, descent, areas, organizer)
 
     @staticmethod
     def is_area(name):
@@ -108,7 +109,7 @@ class OrganizerFormElem:
             raise ExtException(parent=err)
 
     @staticmethod
-    def _unpack_write_areas(src_dir, path, file_name, dest_dir, index, descent, areas):
+    def _unpack_write_areas(src_dir, path, file_name, dest_dir, index, descent, areas, organizer):
         try:
             for elem in areas:
                 if elem == 'root':
@@ -118,6 +119,12 @@ class OrganizerFormElem:
                         elem, path, elem, index.get('Области include') if index else None, descent,
                         file_extension=file_name[-9::])
                 dest_path = os.path.abspath(os.path.join(dest_dir, dest_entry_path))
+                if elem == 'root' and helper.is_inside(dest_path, dest_dir):
+                    data = json.dumps(areas[elem], ensure_ascii=False, indent=2)
+                    dest_path, dest_file_name = organizer.unpack_get_descent_filename(
+                        None, None, data, dest_path, dest_file_name, descent, organizer.equal_code_file)
+                    if not dest_file_name:
+                        continue
 
                 helper.json_write(areas[elem], dest_path, dest_file_name)
         except Exception as err:
@@ -133,7 +140,7 @@ class OrganizerFormElem:
             descent, pack_get_descent_filename = params
         elements = helper.json_read(os.path.join(src_dir, src_path), src_file_name)
         try:
-            cls._pack_get_areas(src_dir, src_path, src_file_name, elements['tree'], '', elements['data'],
+            cls._pack_get_areas(src_dir, src_path, dest_file_name, elements['tree'], '', elements['data'],
                                 index_code_areas, descent)
         except Exception as err:
             raise ExtException(parent=err, message='Ошибка сборки элементов формы',
-- 
2.43.0


From 3ff70554c495e420aa8fe655fec22febbe1e34c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:23 +0000
Subject: [PATCH 19/51] fix: keep a form area named root

---
 src/v8unpack/organizer_form_elem.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/v8unpack/organizer_form_elem.py b/src/v8unpack/organizer_form_elem.py
index f5ef241..8d562ca 100644
--- a/src/v8unpack/organizer_form_elem.py
+++ b/src/v8unpack/organizer_form_elem.py
@@ -18,7 +18,7 @@ class OrganizerFormElem:
         areas = {}
         elements = helper.json_read(os.path.join(src_dir, path), file_name)
         cls._unpack_get_areas(elements['tree'], '', elements['data'], areas)
-        areas['root'] = elements
+        areas[None] = elements  # None - элементы вне include областей
         cls._unpack_write_areas(src_dir, path, file_name, dest_dir, index, descent, areas, organizer)
 
     @staticmethod
@@ -112,14 +112,14 @@ class OrganizerFormElem:
     def _unpack_write_areas(src_dir, path, file_name, dest_dir, index, descent, areas, organizer):
         try:
             for elem in areas:
-                if elem == 'root':
+                if elem is None:
                     dest_entry_path, dest_file_name = get_dest_path(dest_dir, path, file_name, index, descent)
                 else:
                     dest_entry_path, dest_file_name = OrganizerCode.parse_include_path(
                         elem, path, elem, index.get('Области include') if index else None, descent,
                         file_extension=file_name[-9::])
                 dest_path = os.path.abspath(os.path.join(dest_dir, dest_entry_path))
-                if elem == 'root' and helper.is_inside(dest_path, dest_dir):
+                if elem is None and helper.is_inside(dest_path, dest_dir):
                     data = json.dumps(areas[elem], ensure_ascii=False, indent=2)
                     dest_path, dest_file_name = organizer.unpack_get_descent_filename(
                         None, None, data, dest_path, dest_file_name, descent, organizer.equal_code_file)
-- 
2.43.0


From d59985abeb260cdd5ebbd3440ff7973e86ced705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:28 +0000
Subject: [PATCH 20/51] fix: take the last container as the product whatever
 order the folder is listed in

---
 src/v8unpack/decoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v8unpack/decoder.py b/src/v8unpack/decoder.py
index 445971c..63e423b 100644
--- a/src/v8unpack/decoder.py
+++ b/src/v8unpack/decoder.py
@@ -196,7 +196,7 @@ def encode(src_dir, dest_dir, *, pool=None, options=None, file_name=None):
 
 
 def decode(src_dir, dest_dir, *, pool=None, options=None):
-    containers = os.listdir(src_dir)
+    containers = sorted(os.listdir(src_dir))
     containers_count = len(containers)
     if containers_count not in [1, 2]:
         raise NotImplementedError(f'Количество контейнеров {containers_count}')
-- 
2.43.0


From 0ac77490b96503280b475c25bbf26b2436c81ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:01 +0000
Subject: [PATCH 21/51] fix: comment and uncomment a directive on the first
 line of a module too

---
 src/v8unpack/MetaObject/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/v8unpack/MetaObject/__init__.py b/src/v8unpack/MetaObject/__init__.py
index f7e9ce2..c6a3ea6 100644
--- a/src/v8unpack/MetaObject/__init__.py
+++ b/src/v8unpack/MetaObject/__init__.py
@@ -17,8 +17,8 @@ class MetaObject:
     _obj_name = None
 
     re_meta_data_obj = re.compile('^[^.]+\.json$')
-    directive_1c_uncomment = re.compile('(?P<n>\\n)(?P<d>#Область|#КонецОбласти|&НаСервере|&НаКлиенте)')
-    directive_1c_comment = re.compile('(?P<n>\\n)(?P<c>// v8unpack )(?P<d>[#|&])')
+    directive_1c_uncomment = re.compile('(?P<n>^\ufeff?|\\n)(?P<d>#Область|#КонецОбласти|&НаСервере|&НаКлиенте)')
+    directive_1c_comment = re.compile('(?P<n>^\ufeff?|\\n)(?P<c>// v8unpack )(?P<d>[#|&])')
 
     def __init__(self, *, meta_obj_class=None, obj_version='803', options=None):
         self.meta_obj_class = meta_obj_class
-- 
2.43.0


From 0799e0ed3e306dfc0960e018b5d67cb945850452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:08 +0000
Subject: [PATCH 22/51] fix: keep encrypted modules: read them when there is no
 text, put them back under their own name

---
 src/v8unpack/MetaObject/__init__.py | 32 +++++++++++++----------------
 1 file changed, 14 insertions(+), 18 deletions(-)

diff --git a/src/v8unpack/MetaObject/__init__.py b/src/v8unpack/MetaObject/__init__.py
index c6a3ea6..9c763fa 100644
--- a/src/v8unpack/MetaObject/__init__.py
+++ b/src/v8unpack/MetaObject/__init__.py
@@ -296,21 +296,17 @@ class MetaObject:
                 continue
             if os.path.isdir(_obj_code_dir):
                 self.header[f'code_info_{code_name}'] = helper.brace_file_read(_obj_code_dir, 'info')
-                try:
-                    self.code[code_name], encoding = self.read_raw_code(_obj_code_dir, 'text',
-                                                                        uncomment_directive=uncomment_directive)
-                    self.header[f'code_encoding_{code_name}'] = encoding  # можно безболезненно поменять на utf-8-sig
-                except FileNotFoundError as err:
-                    # todo могут быть зашифрованные модули тогда файл будет # image.json - зашифрованный контент
-                    not_encrypted = True
+                self.code[code_name], encoding = self.read_raw_code(_obj_code_dir, 'text',
+                                                                    uncomment_directive=uncomment_directive)
+                self.header[f'code_encoding_{code_name}'] = encoding  # можно безболезненно поменять на utf-8-sig
+                if self.code[code_name] is None:
+                    # могут быть зашифрованные модули тогда файл будет image - зашифрованный контент
                     for encrypted_type in self.encrypted_types:
                         if os.path.isfile(os.path.join(_obj_code_dir, encrypted_type)):
                             self.code[code_name] = helper.bin_read(_obj_code_dir, encrypted_type)
                             self.header[f'code_encoding_{code_name}'] = encrypted_type
-                            not_encrypted = False
+                            self.header[f'code_file_{code_name}'] = encrypted_type
                             break
-                    if not_encrypted:
-                        raise err from err
             else:
                 code_file_name = f'{self.header["uuid"]}.{self.ext_code[code_name]}'
                 self.code[code_name], encoding = self.read_raw_code(src_dir, code_file_name,
@@ -321,12 +317,11 @@ class MetaObject:
 
     def write_decode_code(self, dest_dir, file_name):
         for code_name in self.code:
-            if self.code[code_name]:
-                encoding = self.header.get(f'code_encoding_{code_name}')
-                if encoding in self.encrypted_types:
-                    helper.bin_write(self.code[code_name], dest_dir, f'{file_name}.{code_name}.{encoding}')
-                else:
-                    helper.txt_write(self.code[code_name], dest_dir, f'{file_name}.{code_name}.bsl')
+            encoding = self.header.get(f'code_encoding_{code_name}')
+            if encoding in self.encrypted_types:
+                helper.bin_write(self.code[code_name], dest_dir, f'{file_name}.{code_name}.{encoding}')
+            elif self.code[code_name]:
+                helper.txt_write(self.code[code_name], dest_dir, f'{file_name}.{code_name}.bsl')
 
     def encode_code(self, src_dir, file_name):
         for code_name in self.ext_code:
@@ -338,7 +333,7 @@ class MetaObject:
                     else:
                         self.code[code_name] = helper.txt_read(src_dir, f'{file_name}.{code_name}.bsl')
                 except FileNotFoundError:
-                    self.code[code_name] = ''
+                    self.code[code_name] = b'' if encoding in self.encrypted_types else ''
 
     def write_encode_code(self, dest_dir, *, comment_directive=False):
         for code_name in self.code:
@@ -358,7 +353,8 @@ class MetaObject:
                 helper.makedirs(_code_dir)
                 helper.brace_file_write(self.header[f'code_info_{code_name}'], _code_dir, 'info')
                 if encoding in self.encrypted_types:
-                    helper.bin_write(self.code[code_name], _code_dir, 'text')
+                    helper.bin_write(self.code[code_name], _code_dir,
+                                     self.header.get(f'code_file_{code_name}', 'text'))
                 else:
                     self.write_raw_code(self.code[code_name], _code_dir, 'text', encoding=encoding,
                                         comment_directive=comment_directive)
-- 
2.43.0


From 985ddf82a45c983ee268fc48c92adcb606fc5329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:23 +0000
Subject: [PATCH 23/51] fix: do not store binary data under the extensions json
 and c1b64, they are taken

---
 src/v8unpack/helper.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/v8unpack/helper.py b/src/v8unpack/helper.py
index dff6a08..feb83bb 100644
--- a/src/v8unpack/helper.py
+++ b/src/v8unpack/helper.py
@@ -323,7 +323,8 @@ def get_extension_from_comment(comment: str) -> str:
     res = 'bin'
     if comment:
         ext = comment.split(" ")[-1]
-        if len(ext) < 6 and ext.isalnum():
+        # json и c1b64 заняты: в них хранится описание объекта и не разобранные данные
+        if len(ext) < 6 and ext.isalnum() and ext.lower() not in ('json', 'c1b64'):
             return ext
     return res
 
-- 
2.43.0


From daa26537549032652aa9494b065b58fa4028be33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:55 +0000
Subject: [PATCH 24/51] fix: keep the file of a common picture that has no
 image

---
 src/v8unpack/MetaDataObject/CommonPicture.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/v8unpack/MetaDataObject/CommonPicture.py b/src/v8unpack/MetaDataObject/CommonPicture.py
index 3f1c8e9..8a86fb9 100644
--- a/src/v8unpack/MetaDataObject/CommonPicture.py
+++ b/src/v8unpack/MetaDataObject/CommonPicture.py
@@ -36,8 +36,9 @@ class CommonPicture(Simple):
         try:
             bin_data = helper.bin_read(src_dir, f'{file_name}.{extension}')
             self.header['info'][0][2][0][0] += b64encode(bin_data).decode(encoding='utf-8')
+        except FileNotFoundError:
+            pass
+        if self.header.get('info'):
             file_name = f'{self.header["uuid"]}.0'
             helper.brace_file_write(self.header['info'], dest_dir, file_name)
             self.file_list.append(file_name)
-        except FileNotFoundError:
-            pass
-- 
2.43.0


From 85a01667eb70860872b0acdddd270fd1cbaff576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:49 +0000
Subject: [PATCH 25/51] fix: strip the prefix only where building puts it back:
 own objects of the top level

---
 src/v8unpack/MetaDataObject/__init__.py           | 1 +
 src/v8unpack/MetaDataObject/core/IncludeSimple.py | 3 +++
 src/v8unpack/MetaObject/__init__.py               | 1 +
 src/v8unpack/helper.py                            | 3 ++-
 4 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/v8unpack/MetaDataObject/__init__.py b/src/v8unpack/MetaDataObject/__init__.py
index d0ef541..84462b3 100644
--- a/src/v8unpack/MetaDataObject/__init__.py
+++ b/src/v8unpack/MetaDataObject/__init__.py
@@ -54,6 +54,7 @@ class MetaDataObject(MetaObject):
             # self = cls()
             # if parent_type:
             #     self.title = parent_type
+            self.top_level = not os.path.dirname(dest_path)
             self.decode_header(header_data)
             self.decode_object(src_dir, file_name, dest_dir, dest_path, self.obj_version, header_data)
             tasks = self.decode_includes(src_dir, dest_dir, self.new_dest_path, header_data)
diff --git a/src/v8unpack/MetaDataObject/core/IncludeSimple.py b/src/v8unpack/MetaDataObject/core/IncludeSimple.py
index 7d047e6..d6c25d5 100644
--- a/src/v8unpack/MetaDataObject/core/IncludeSimple.py
+++ b/src/v8unpack/MetaDataObject/core/IncludeSimple.py
@@ -1,3 +1,5 @@
+import os
+
 from ...MetaDataObject import MetaDataObject
 from ...ext_exception import ExtException
 
@@ -19,6 +21,7 @@ class IncludeSimple(MetaDataObject):
     def decode_internal_include(cls, parent, header_data, src_dir, dest_dir, dest_path, options):
         try:
             self = cls(options=options)
+            self.top_level = not os.path.dirname(dest_path)
             self.decode_header(header_data)
             self.set_write_decode_mode(dest_dir, dest_path)
             self.decode_code(src_dir)
diff --git a/src/v8unpack/MetaObject/__init__.py b/src/v8unpack/MetaObject/__init__.py
index 9c763fa..8cc6068 100644
--- a/src/v8unpack/MetaObject/__init__.py
+++ b/src/v8unpack/MetaObject/__init__.py
@@ -31,6 +31,7 @@ class MetaObject:
         self.file_list = []
         self.obj_version = obj_version
         self.options = options
+        self.top_level = False
 
     @classmethod
     def get_container_uuid(cls, header_data):
diff --git a/src/v8unpack/helper.py b/src/v8unpack/helper.py
index feb83bb..7d3bdd3 100644
--- a/src/v8unpack/helper.py
+++ b/src/v8unpack/helper.py
@@ -122,7 +122,8 @@ def decode_header(meta_obj, header: list, *, id_in_separate_file=True):
 
     prefix = meta_obj.options.get('prefix', '')
     obj['name'] = str_decode(header[2])
-    if prefix and obj['name'].startswith(prefix):
+    # префикс есть только у не заимствованных объектов верхнего уровня
+    if prefix and meta_obj.top_level and (len(header) < 6 or header[5] == '0') and obj['name'].startswith(prefix):
         obj['name'] = obj['name'][len(prefix):]
         header[2] = str_encode(obj['name'])
     obj['name2'] = {}
-- 
2.43.0


From ba63e4fec39199f49d62b9368e52586dab89cc8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:05 +0000
Subject: [PATCH 26/51] fix: apply the version option on extract too, for
 configurations and extensions

---
 src/v8unpack/MetaObject/Configuration.py          | 2 ++
 src/v8unpack/MetaObject/ConfigurationExtension.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/v8unpack/MetaObject/Configuration.py b/src/v8unpack/MetaObject/Configuration.py
index bc88c1f..1594f26 100644
--- a/src/v8unpack/MetaObject/Configuration.py
+++ b/src/v8unpack/MetaObject/Configuration.py
@@ -54,6 +54,8 @@ class Configuration(MetaObject):
         self.header['versions'] = helper.brace_file_read(src_dir, 'versions')
         # shutil.copy2(os.path.join(src_dir, 'versions.json'), os.path.join(dest_dir, 'versions.json'))
 
+        if version is None:
+            version = self.get_options('version')
         if version is None:
             self.header['compatibility_version'] = self.header['header'][0][3][1][1][26]
         else:
diff --git a/src/v8unpack/MetaObject/ConfigurationExtension.py b/src/v8unpack/MetaObject/ConfigurationExtension.py
index 0c93808..0a49bac 100644
--- a/src/v8unpack/MetaObject/ConfigurationExtension.py
+++ b/src/v8unpack/MetaObject/ConfigurationExtension.py
@@ -31,6 +31,8 @@ class ConfigurationExtension(Configuration):
         _form_header = self.get_decode_header(self.header['header'])
         helper.decode_header(self, _form_header, id_in_separate_file=False)
         product_version = self.header['header'][0][3][1][1][15]
+        if version is None:
+            version = self.get_options('version')
         if version is None:
             self.header['compatibility_version'] = self.header['header'][0][3][1][1][43]
         else:
-- 
2.43.0


From c160d171a63b3bd4405c1325eca2ad86bea9552f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:39 +0000
Subject: [PATCH 27/51] fix: list no objects of a type when the last one is
 removed (auto_include)

---
 src/v8unpack/MetaDataObject/__init__.py           | 2 +-
 src/v8unpack/MetaObject/Configuration.py          | 4 ++--
 src/v8unpack/MetaObject/ConfigurationExtension.py | 4 ++--
 src/v8unpack/MetaObject/ExternalDataProcessor.py  | 4 ++--
 4 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/v8unpack/MetaDataObject/__init__.py b/src/v8unpack/MetaDataObject/__init__.py
index 84462b3..676c196 100644
--- a/src/v8unpack/MetaDataObject/__init__.py
+++ b/src/v8unpack/MetaDataObject/__init__.py
@@ -155,7 +155,7 @@ class MetaDataObject(MetaObject):
             self.name = self.header['name']
             self.uuid = data_id['uuid']
             self.obj_version = self.header['obj_version']
-            if include_index:
+            if include_index or self.get_options('auto_include'):
                 self.fill_header_includes(include_index)  # todo dynamic index
             self.encode_object(src_dir, src_file_name, dest_dir)
             self.write_encode_object(dest_dir)
diff --git a/src/v8unpack/MetaObject/Configuration.py b/src/v8unpack/MetaObject/Configuration.py
index 1594f26..417d41a 100644
--- a/src/v8unpack/MetaObject/Configuration.py
+++ b/src/v8unpack/MetaObject/Configuration.py
@@ -116,8 +116,8 @@ class Configuration(MetaObject):
             except KeyError:
                 pass
 
-        if include_index and self.get_options('auto_include'):
-            self.fill_header_includes(include_index)  # todo dynamic index
+        if self.get_options('auto_include'):
+            self.fill_header_includes(include_index or {})  # todo dynamic index
 
         helper.brace_file_write(self.header["root"], dest_dir, 'root')
         file_list.append('root')
diff --git a/src/v8unpack/MetaObject/ConfigurationExtension.py b/src/v8unpack/MetaObject/ConfigurationExtension.py
index 0a49bac..49457f4 100644
--- a/src/v8unpack/MetaObject/ConfigurationExtension.py
+++ b/src/v8unpack/MetaObject/ConfigurationExtension.py
@@ -86,8 +86,8 @@ class ConfigurationExtension(Configuration):
 
             helper.check_version(__version__, self.header.get('v8unpack', ''))
 
-            if include_index and self.get_options('auto_include'):
-                self.fill_header_includes(include_index)
+            if self.get_options('auto_include'):
+                self.fill_header_includes(include_index or {})
 
             # self.header['copyinfo'][2] = b64encode(bytes.fromhex(self.header['copyinfo'][2]+md5().digest().hex())).decode()
             root = [
diff --git a/src/v8unpack/MetaObject/ExternalDataProcessor.py b/src/v8unpack/MetaObject/ExternalDataProcessor.py
index fa3b75f..b3955d1 100644
--- a/src/v8unpack/MetaObject/ExternalDataProcessor.py
+++ b/src/v8unpack/MetaObject/ExternalDataProcessor.py
@@ -73,8 +73,8 @@ class ExternalDataProcessor(MetaObject):
 
             self.set_product_info(src_dir, file_name)
 
-            if include_index and self.get_options('auto_include'):
-                self.fill_header_includes(include_index)
+            if self.get_options('auto_include'):
+                self.fill_header_includes(include_index or {})
 
             helper.brace_file_write(self.encode_root(), dest_dir, 'root')
             file_list.append('root')
-- 
2.43.0


From 1c8c4e29ce8433e4568ae7646921ae0bd0d1f0c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:05 +0000
Subject: [PATCH 28/51] fix: list the first object of a type too (auto_include)

---
 src/v8unpack/MetaObject/__init__.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/v8unpack/MetaObject/__init__.py b/src/v8unpack/MetaObject/__init__.py
index 8cc6068..c268fc7 100644
--- a/src/v8unpack/MetaObject/__init__.py
+++ b/src/v8unpack/MetaObject/__init__.py
@@ -149,6 +149,11 @@ class MetaObject:
     def fill_header_include(self, i, include, include_index):
         try:
             _metadata = include[i + 3]
+            if isinstance(_metadata, list) and _metadata[1] == '0' and self.get_options('auto_include'):
+                try:
+                    _metadata = MetaDataTypes(_metadata[0]).name  # первый объект типа, которого раньше не было
+                except ValueError:
+                    return
             if isinstance(_metadata, str):  # лежит идентификатор типа режим auto_include
                 metadata_type = MetaDataTypes[_metadata]
                 internal_data = include_index.get(_metadata, [])
-- 
2.43.0


From de41b1e7488dfd021fb357a47155f3ea12e2e49c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:19 +0000
Subject: [PATCH 29/51] fix: keep attributes, commands and parameters of a form
 when one of them is not parsed

---
 src/v8unpack/MetaDataObject/Form/FormElements4/FormElement.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/v8unpack/MetaDataObject/Form/FormElements4/FormElement.py b/src/v8unpack/MetaDataObject/Form/FormElements4/FormElement.py
index 9506912..ddb1946 100644
--- a/src/v8unpack/MetaDataObject/Form/FormElements4/FormElement.py
+++ b/src/v8unpack/MetaDataObject/Form/FormElements4/FormElement.py
@@ -1,3 +1,4 @@
+import copy
 from enum import Enum
 
 from v8unpack import helper
@@ -272,7 +273,8 @@ class _FormRoot:
 
             result = []
             for i in range(element_count):
-                result.append(cls.decode(form, items[i + index_element_count + 1]))
+                # при неудачном разборе исходные данные должны остаться нетронутыми
+                result.append(cls.decode(form, copy.deepcopy(items[i + index_element_count + 1])))
             items[index_element_count] = 'Дочерние элементы отдельно'
             del items[index_element_count + 1:index_element_count + 1 + element_count]
             return result
-- 
2.43.0


From db832fc92f007db35b904c27d6647e8b5e7f1fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:19 +0000
Subject: [PATCH 30/51] fix: do not add an empty form file to a form that has
 none

---
 src/v8unpack/MetaDataObject/Form/FormCore.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v8unpack/MetaDataObject/Form/FormCore.py b/src/v8unpack/MetaDataObject/Form/FormCore.py
index 1ed03de..afe2662 100644
--- a/src/v8unpack/MetaDataObject/Form/FormCore.py
+++ b/src/v8unpack/MetaDataObject/Form/FormCore.py
@@ -300,7 +300,7 @@ class FormCore(SimpleNameFolder):
             else:
                 helper.brace_file_write(self.encode_header(), dest_dir, self.header["uuid"])
                 self.file_list.append(self.header["uuid"])
-                if self.form:
+                if self.form and self.form[0]:  # [] - файла с формой не было
                     file_name = f'{self.header["uuid"]}.0'
                     helper.brace_file_write(self.form[0], dest_dir, file_name)
                     self.file_list.append(file_name)
-- 
2.43.0


From 095bff4a0deb4c66ba205ab473a1ebc7bfb3cbd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:45 +0000
Subject: [PATCH 31/51] fix: build an ordinary form whose elements were not
 parsed

---
 .../MetaDataObject/Form/FormElements27/FormElements27.py        | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/v8unpack/MetaDataObject/Form/FormElements27/FormElements27.py b/src/v8unpack/MetaDataObject/Form/FormElements27/FormElements27.py
index 5bff79c..1ce48df 100644
--- a/src/v8unpack/MetaDataObject/Form/FormElements27/FormElements27.py
+++ b/src/v8unpack/MetaDataObject/Form/FormElements27/FormElements27.py
@@ -107,6 +107,8 @@ class FormElements27:
             self.form.elements_tree = elements['tree']
             self.FormProps.encode_list(self.form, raw_data[2][2])
             self.create_prop_index_by_name()
+            if not self.form.elements_data:  # элементы не разобраны и лежат в самой форме
+                return raw_data
             self.Panel.encode(self, '', None, dict(raw=raw_data[1][2]))
             if self.auto_include:
                 raw_data[2][3] = []
-- 
2.43.0


From 5607f770542d922f6e221d848652c1537a3ddfb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:45 +0000
Subject: [PATCH 32/51] fix: put an ordinary form stored as a file back as a
 file

---
 src/v8unpack/MetaDataObject/Form/FormCore.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/v8unpack/MetaDataObject/Form/FormCore.py b/src/v8unpack/MetaDataObject/Form/FormCore.py
index afe2662..b1e61f1 100644
--- a/src/v8unpack/MetaDataObject/Form/FormCore.py
+++ b/src/v8unpack/MetaDataObject/Form/FormCore.py
@@ -313,7 +313,7 @@ class FormCore(SimpleNameFolder):
                                detail=f'{self.__class__.__name__} {self.header["name"]} {self.header["uuid"]}')
 
     def encode_data(self):
-        if self.header['Тип формы'] == OF:
+        if self.header['Тип формы'] == OF and self.header.get('code_info_obj') != 'Код в отдельном файле':
             return
         try:
             _code = self.code.pop('obj', "")
@@ -336,7 +336,11 @@ class FormCore(SimpleNameFolder):
     def write_old_encode_object(self, dest_dir):
         helper.brace_file_write(self.encode_header(), dest_dir, self.header["uuid"])
         self.file_list.append(self.header["uuid"])
-        if self.header.get('code_info_obj'):
+        if self.header.get('code_info_obj') == 'Код в отдельном файле':  # форма лежала в файле, а не в папке
+            file_name = f'{self.header["uuid"]}.0'
+            helper.brace_file_write(self.form[0], dest_dir, file_name)
+            self.file_list.append(file_name)
+        elif self.header.get('code_info_obj'):
             dir_name = f'{self.header["uuid"]}.0'
             _code_dir = os.path.join(dest_dir, dir_name)
             self.file_list.append(dir_name)
-- 
2.43.0


From 010359b9e4292d65054e204e759e587fb17493d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:45 +0000
Subject: [PATCH 33/51] fix: keep encrypted and binary modules of ordinary
 forms

---
 src/v8unpack/MetaDataObject/Form/FormCore.py |  9 +++++++--
 src/v8unpack/MetaObject/__init__.py          | 17 ++++++++++-------
 2 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/v8unpack/MetaDataObject/Form/FormCore.py b/src/v8unpack/MetaDataObject/Form/FormCore.py
index b1e61f1..75bf209 100644
--- a/src/v8unpack/MetaDataObject/Form/FormCore.py
+++ b/src/v8unpack/MetaDataObject/Form/FormCore.py
@@ -90,6 +90,8 @@ class FormCore(SimpleNameFolder):
         self.code['obj'], encoding = self.read_raw_code(src_dir, 'module', uncomment_directive=True)
         self.header['code_encoding_obj'] = encoding  # можно безболезненно поменять на utf-8-sig
         self.header[f'code_info_obj'] = 1
+        if self.code['obj'] is None:
+            self.read_encrypted_code(src_dir, 'obj')
 
     def decode_form0_from_file(self, src_dir, file_name=None):
         if file_name is None:
@@ -347,8 +349,11 @@ class FormCore(SimpleNameFolder):
             helper.makedirs(_code_dir, exist_ok=True)
             helper.brace_file_write(self.form[0], _code_dir, 'form')
             _encoding = self.header.get('code_encoding_obj', 'utf-8-sig')
-            self.write_raw_code(self.code.get('obj', ''), _code_dir, 'module', encoding=_encoding,
-                                comment_directive=True)
+            if _encoding in self.encrypted_types:
+                helper.bin_write(self.code.get('obj', b''), _code_dir, self.header.get('code_file_obj', 'module'))
+            else:
+                self.write_raw_code(self.code.get('obj', ''), _code_dir, 'module', encoding=_encoding,
+                                    comment_directive=True)
 
     @classmethod
     def get_last_level_array(cls, data):
diff --git a/src/v8unpack/MetaObject/__init__.py b/src/v8unpack/MetaObject/__init__.py
index c268fc7..a44e50d 100644
--- a/src/v8unpack/MetaObject/__init__.py
+++ b/src/v8unpack/MetaObject/__init__.py
@@ -293,6 +293,15 @@ class MetaObject:
                 code = self.directive_1c_uncomment.sub(r'\g<n>// v8unpack \g<d>', code)
             helper.txt_write(code, dest_dir, filename, encoding=encoding)
 
+    def read_encrypted_code(self, src_dir, code_name):
+        # могут быть зашифрованные модули тогда файл будет image - зашифрованный контент
+        for encrypted_type in self.encrypted_types:
+            if os.path.isfile(os.path.join(src_dir, encrypted_type)):
+                self.code[code_name] = helper.bin_read(src_dir, encrypted_type)
+                self.header[f'code_encoding_{code_name}'] = encrypted_type
+                self.header[f'code_file_{code_name}'] = encrypted_type
+                break
+
     def decode_code(self, src_dir, *, uncomment_directive=False):
         for code_name in self.ext_code:
             if code_name in self.code:
@@ -306,13 +315,7 @@ class MetaObject:
                                                                     uncomment_directive=uncomment_directive)
                 self.header[f'code_encoding_{code_name}'] = encoding  # можно безболезненно поменять на utf-8-sig
                 if self.code[code_name] is None:
-                    # могут быть зашифрованные модули тогда файл будет image - зашифрованный контент
-                    for encrypted_type in self.encrypted_types:
-                        if os.path.isfile(os.path.join(_obj_code_dir, encrypted_type)):
-                            self.code[code_name] = helper.bin_read(_obj_code_dir, encrypted_type)
-                            self.header[f'code_encoding_{code_name}'] = encrypted_type
-                            self.header[f'code_file_{code_name}'] = encrypted_type
-                            break
+                    self.read_encrypted_code(_obj_code_dir, code_name)
             else:
                 code_file_name = f'{self.header["uuid"]}.{self.ext_code[code_name]}'
                 self.code[code_name], encoding = self.read_raw_code(src_dir, code_file_name,
-- 
2.43.0


From b07fd37f9ee9e707a315f571138a2a5610c21b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:45 +0000
Subject: [PATCH 34/51] fix: keep the second file of an ordinary form that has
 no first one

---
 src/v8unpack/MetaDataObject/Form/FormCore.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/v8unpack/MetaDataObject/Form/FormCore.py b/src/v8unpack/MetaDataObject/Form/FormCore.py
index 75bf209..015bef0 100644
--- a/src/v8unpack/MetaDataObject/Form/FormCore.py
+++ b/src/v8unpack/MetaDataObject/Form/FormCore.py
@@ -77,6 +77,8 @@ class FormCore(SimpleNameFolder):
             else:
                 self.decode_form0_from_file(_code_dir, file_name)
                 pass
+        else:
+            self.form.append([])  # место файла .0, чтобы его не занял .1
 
     def decode_form1(self, src_dir):
         try:
-- 
2.43.0


From 5f7cf8b9f87f75f23ee4849b11b88bc9f4e086ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:17 +0000
Subject: [PATCH 35/51] fix: read an ordinary form stored as a file

---
 src/v8unpack/MetaDataObject/Form/FormCore.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v8unpack/MetaDataObject/Form/FormCore.py b/src/v8unpack/MetaDataObject/Form/FormCore.py
index 015bef0..9c73de6 100644
--- a/src/v8unpack/MetaDataObject/Form/FormCore.py
+++ b/src/v8unpack/MetaDataObject/Form/FormCore.py
@@ -75,7 +75,7 @@ class FormCore(SimpleNameFolder):
             if os.path.isdir(_code_dir):
                 self.decode_form0_from_dir(_code_dir)
             else:
-                self.decode_form0_from_file(_code_dir, file_name)
+                self.decode_form0_from_file(src_dir, file_name)
                 pass
         else:
             self.form.append([])  # место файла .0, чтобы его не занял .1
-- 
2.43.0


From 529bb70a6271accde9ca956c8db6b12aadf88a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:14 +0000
Subject: [PATCH 36/51] fix: build a group or a table whose elements were all
 removed from the sources

---
 src/v8unpack/MetaDataObject/Form/FormElements4/Group.py | 4 +++-
 src/v8unpack/MetaDataObject/Form/FormElements4/Table.py | 5 +++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/v8unpack/MetaDataObject/Form/FormElements4/Group.py b/src/v8unpack/MetaDataObject/Form/FormElements4/Group.py
index 33b38d2..7c3483f 100644
--- a/src/v8unpack/MetaDataObject/Form/FormElements4/Group.py
+++ b/src/v8unpack/MetaDataObject/Form/FormElements4/Group.py
@@ -37,9 +37,11 @@ class Group(FormElement):
             except KeyError:
                 child = []
             raw_data = super().encode(form, path, data)
+            index = calc_offset([(3, 1), (1, 1), (17, 0)], raw_data)
             if not child:
+                if raw_data[index] == 'Дочерние элементы отдельно':  # в исходниках удалили все элементы группы
+                    raw_data[index] = '0'
                 return raw_data
-            index = calc_offset([(3, 1), (1, 1), (17, 0)], raw_data)
             name_for_child = f"include_{data['name'][8:]}" if data['name'][:8] == 'includr_' else data['name']
             new_path = f"{path}/{name_for_child}" if path else name_for_child
             cls.encode_list(form, child, raw_data, index, new_path)
diff --git a/src/v8unpack/MetaDataObject/Form/FormElements4/Table.py b/src/v8unpack/MetaDataObject/Form/FormElements4/Table.py
index 739930d..98fad44 100644
--- a/src/v8unpack/MetaDataObject/Form/FormElements4/Table.py
+++ b/src/v8unpack/MetaDataObject/Form/FormElements4/Table.py
@@ -47,6 +47,11 @@ class Table(FormElement):
                 child = []
             raw_data = super().encode(form, path, data)
             if not child:
+                index = calc_offset([
+                    (4, 1), (50, 2), (7, 0)
+                ], raw_data)
+                if raw_data[index] == 'Дочерние элементы отдельно':  # в исходниках удалили все колонки таблицы
+                    raw_data[index] = '0'
                 return raw_data
             cls.encode_columns(form, child, raw_data, data, f"{path}")
             return raw_data
-- 
2.43.0


From 203961da42c87fac85d432feb3508537fab1e1a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:32 +0000
Subject: [PATCH 37/51] fix: build an attribute of a form whose columns were
 all removed from the sources

---
 src/v8unpack/MetaDataObject/Form/FormElements4/FormElement.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/v8unpack/MetaDataObject/Form/FormElements4/FormElement.py b/src/v8unpack/MetaDataObject/Form/FormElements4/FormElement.py
index ddb1946..bf80cae 100644
--- a/src/v8unpack/MetaDataObject/Form/FormElements4/FormElement.py
+++ b/src/v8unpack/MetaDataObject/Form/FormElements4/FormElement.py
@@ -365,6 +365,8 @@ class FormProps(_FormRoot):
                 child = data['child'][i]
                 childs.append(child['raw'])
             raw_data[cls.child_offset + 1: cls.child_offset + 1] = childs
+        elif raw_data[cls.child_offset] == 'отдельно':  # в исходниках удалили все колонки реквизита
+            raw_data[cls.child_offset] = '0'
         return raw_data
 
 
-- 
2.43.0


From b80c8fceeff34c4705f78695bcfb12757db248b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:50 +0000
Subject: [PATCH 38/51] fix: keep an empty area of a form in a file the build
 can read

---
 src/v8unpack/organizer_form_elem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v8unpack/organizer_form_elem.py b/src/v8unpack/organizer_form_elem.py
index 8d562ca..b23792d 100644
--- a/src/v8unpack/organizer_form_elem.py
+++ b/src/v8unpack/organizer_form_elem.py
@@ -57,7 +57,7 @@ class OrganizerFormElem:
                         data={
                             # new_path: root_data.pop(old_path)
                         },
-                        tree=elem.pop('child', [])
+                        tree=elem.pop('child', None) or []
                     )
                     # в пути детей includr не используется.
                     name: str = f'include_{area_name}'
-- 
2.43.0


From be378bb82e2fd5d751a0db930762dcfe7e75fb31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:50 +0000
Subject: [PATCH 39/51] fix: keep the pages of a panel that is a read-only area
 of an ordinary form

---
 src/v8unpack/organizer_form_elem.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/v8unpack/organizer_form_elem.py b/src/v8unpack/organizer_form_elem.py
index b23792d..30a3eef 100644
--- a/src/v8unpack/organizer_form_elem.py
+++ b/src/v8unpack/organizer_form_elem.py
@@ -195,12 +195,12 @@ class OrganizerFormElem:
                     if child:
                         cls._append_area_data(child, old_path, root_data, data, append_path)
 
-            pages = data.pop(f'{path}/-pages-', None)
+            pages = data.pop(f'{_path}/-pages-', None)
             if pages is not None:
                 new_path = f'{append_path}/{_path}/-pages-' if append_path else f'{_path}/-pages-'
                 root_data[new_path] = pages
                 for name in pages:
-                    old_path = f'{path}/{name}'
+                    old_path = f'{_path}/{name}'
                     new_path = f'{append_path}/{_path}/{name}' if append_path else f'{_path}/{name}'
                     try:
                         root_data[new_path] = data.pop(old_path)
-- 
2.43.0


From db3a0f76856f4dfd27513229162e015c9a240dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:50 +0000
Subject: [PATCH 40/51] fix: look for a form area without a path where
 unpacking puts it

---
 src/v8unpack/organizer_form_elem.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/v8unpack/organizer_form_elem.py b/src/v8unpack/organizer_form_elem.py
index 30a3eef..45ce48d 100644
--- a/src/v8unpack/organizer_form_elem.py
+++ b/src/v8unpack/organizer_form_elem.py
@@ -140,7 +140,8 @@ class OrganizerFormElem:
             descent, pack_get_descent_filename = params
         elements = helper.json_read(os.path.join(src_dir, src_path), src_file_name)
         try:
-            cls._pack_get_areas(src_dir, src_path, dest_file_name, elements['tree'], '', elements['data'],
+            # файл области без пути лежит там, где форма была при разборке, даже если сама форма перемещена в индексе
+            cls._pack_get_areas(src_dir, dest_path, dest_file_name, elements['tree'], '', elements['data'],
                                 index_code_areas, descent)
         except Exception as err:
             raise ExtException(parent=err, message='Ошибка сборки элементов формы',
-- 
2.43.0


From 0236eaa9292ff20c21d2171b70d289cb1c887b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:39 +0000
Subject: [PATCH 41/51] fix: name the children of groups and tables the same
 way on extract and build

---
 .../MetaDataObject/Form/FormElements4/FormElement.py       | 7 +++++++
 src/v8unpack/MetaDataObject/Form/FormElements4/Group.py    | 6 ++----
 src/v8unpack/MetaDataObject/Form/FormElements4/Table.py    | 4 ++--
 3 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/v8unpack/MetaDataObject/Form/FormElements4/FormElement.py b/src/v8unpack/MetaDataObject/Form/FormElements4/FormElement.py
index bf80cae..a7e9d24 100644
--- a/src/v8unpack/MetaDataObject/Form/FormElements4/FormElement.py
+++ b/src/v8unpack/MetaDataObject/Form/FormElements4/FormElement.py
@@ -47,6 +47,13 @@ class FormElement:
     def get_command_link_offset(cls, raw_data):
         return None
 
+    @staticmethod
+    def get_path_for_child(path, name):
+        # в пути детей includr не используется
+        if name[:8] == 'includr_':
+            name = f'include_{name[8:]}'
+        return f'{path}/{name}' if path else name
+
     @classmethod
     def decode(cls, form, path, raw_data):
         try:
diff --git a/src/v8unpack/MetaDataObject/Form/FormElements4/Group.py b/src/v8unpack/MetaDataObject/Form/FormElements4/Group.py
index 7c3483f..f26d0cb 100644
--- a/src/v8unpack/MetaDataObject/Form/FormElements4/Group.py
+++ b/src/v8unpack/MetaDataObject/Form/FormElements4/Group.py
@@ -24,8 +24,7 @@ class Group(FormElement):
 
         data = super().decode(form, path, raw_data)
         index = calc_offset([(3, 1), (1, 1), (17, 0)], raw_data)
-        new_path = f"{path}/{data['name']}" if path else data['name']
-        new_path = new_path.replace('includr_', 'include_')
+        new_path = cls.get_path_for_child(path, data['name'])
         data['child'] = cls.decode_list(form, raw_data, index, new_path)
         return data
 
@@ -42,8 +41,7 @@ class Group(FormElement):
                 if raw_data[index] == 'Дочерние элементы отдельно':  # в исходниках удалили все элементы группы
                     raw_data[index] = '0'
                 return raw_data
-            name_for_child = f"include_{data['name'][8:]}" if data['name'][:8] == 'includr_' else data['name']
-            new_path = f"{path}/{name_for_child}" if path else name_for_child
+            new_path = cls.get_path_for_child(path, data['name'])
             cls.encode_list(form, child, raw_data, index, new_path)
             return raw_data
         except Exception as err:
diff --git a/src/v8unpack/MetaDataObject/Form/FormElements4/Table.py b/src/v8unpack/MetaDataObject/Form/FormElements4/Table.py
index 98fad44..9e4eff9 100644
--- a/src/v8unpack/MetaDataObject/Form/FormElements4/Table.py
+++ b/src/v8unpack/MetaDataObject/Form/FormElements4/Table.py
@@ -34,7 +34,7 @@ class Table(FormElement):
             index = calc_offset([
                 (4, 1), (50, 2), (7, 0)
             ], raw_data)
-            data['child'] = cls.decode_list(form, raw_data, index, f"{path}/{data['name']}" if path else data['name'])
+            data['child'] = cls.decode_list(form, raw_data, index, cls.get_path_for_child(path, data['name']))
         except Exception as err:
             raise ExtException(parent=err)
 
@@ -64,6 +64,6 @@ class Table(FormElement):
             index = calc_offset([
                 (4, 1), (50, 2), (7, 0)
             ], raw_data)
-            cls.encode_list(form, child, raw_data, index, f"{path}/{data['name']}" if path else data['name'])
+            cls.encode_list(form, child, raw_data, index, cls.get_path_for_child(path, data['name']))
         except Exception as err:
             raise ExtException(parent=err)
\ No newline at end of file
-- 
2.43.0


From 7cd9560321e3ed249babd733d2de01272f978d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:12 +0000
Subject: [PATCH 42/51] fix: index a folder under its own name even when it
 looks like the file of a version

---
 src/v8unpack/index.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v8unpack/index.py b/src/v8unpack/index.py
index dde9dda..104bb86 100644
--- a/src/v8unpack/index.py
+++ b/src/v8unpack/index.py
@@ -30,13 +30,13 @@ def update_index(src_dir: str, index_file_name: str, dest_dir: str):
     def _update_index(_src_dir, _index, _dest_dir, _path):
         entries = os.listdir(os.path.join(_src_dir, _path))
         for entry in entries:
-            entry = remove_descent_from_filename(entry)
             new_path = os.path.join(_path, entry)
             if os.path.isdir(os.path.join(_src_dir, new_path)):
                 if entry not in _index:
                     _index[entry] = {}
                 _update_index(_src_dir, _index[entry], _dest_dir, new_path)
             else:
+                entry = remove_descent_from_filename(entry)
                 if entry not in _index:
                     _index[entry] = os.path.join(_dest_dir, _path, entry) if _dest_dir else ''
         pass
-- 
2.43.0


From ef72bf7e050f81e976cd7af0e9b34ea20707e244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:12 +0000
Subject: [PATCH 43/51] fix: let update_index be called without a common
 folder, as documented

---
 src/v8unpack/index.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v8unpack/index.py b/src/v8unpack/index.py
index 104bb86..07c8047 100644
--- a/src/v8unpack/index.py
+++ b/src/v8unpack/index.py
@@ -26,7 +26,7 @@ def get_from_index(index: dict, path: str, file_name: str):
         )
 
 
-def update_index(src_dir: str, index_file_name: str, dest_dir: str):
+def update_index(src_dir: str, index_file_name: str, dest_dir: str = None):
     def _update_index(_src_dir, _index, _dest_dir, _path):
         entries = os.listdir(os.path.join(_src_dir, _path))
         for entry in entries:
-- 
2.43.0


From 378a39b0a71890fd1f10739b3828fccc64050560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:10 +0000
Subject: [PATCH 44/51] fix: extract and build with an empty index instead of
 doing nothing

---
 src/v8unpack/v8unpack.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/v8unpack/v8unpack.py b/src/v8unpack/v8unpack.py
index 4bd1cc6..20996ca 100644
--- a/src/v8unpack/v8unpack.py
+++ b/src/v8unpack/v8unpack.py
@@ -25,8 +25,6 @@ def extract(in_filename: str, out_dir_name: str, *, temp_dir=None, index=None, p
         print(f"saby v8unpack {__version__}")
 
         index = check_index(index)
-        if not index and index is not None:
-            return
 
         print(f"Начали")
 
@@ -79,8 +77,6 @@ def build(in_dir_name: str, out_file_name: str, *, temp_dir=None, index=None,
         print(f"saby v8unpack {__version__}")
 
         index = check_index(index)
-        if not index and index is not None:
-            return
 
         print(f"Начали")
 
-- 
2.43.0


From 47088ad569ae9489f27eb2990cc5492dffd1b449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:39 +0000
Subject: [PATCH 45/51] fix: build a file named without a folder

---
 src/v8unpack/container_writer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v8unpack/container_writer.py b/src/v8unpack/container_writer.py
index 7a70aa2..d66aa37 100644
--- a/src/v8unpack/container_writer.py
+++ b/src/v8unpack/container_writer.py
@@ -30,7 +30,7 @@ def build(src_dir, filename, nested=False):
     """
     begin = datetime.now()
     print(f'{"Запаковываем бинарник":30}:', end="")
-    helper.makedirs(os.path.dirname(filename), exist_ok=True)
+    helper.makedirs(os.path.dirname(os.path.abspath(filename)), exist_ok=True)
 
     containers = os.listdir(src_dir)
     _src_dir = containers[-1]
-- 
2.43.0


From a7a97955c2a262dc65967df4eefed3b4bb75b43e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:26 +0000
Subject: [PATCH 46/51] fix: keep the sources when the product to extract
 cannot be read

---
 src/v8unpack/v8unpack.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/v8unpack/v8unpack.py b/src/v8unpack/v8unpack.py
index 20996ca..af665eb 100644
--- a/src/v8unpack/v8unpack.py
+++ b/src/v8unpack/v8unpack.py
@@ -30,8 +30,6 @@ def extract(in_filename: str, out_dir_name: str, *, temp_dir=None, index=None, p
 
         descent = options.get('descent') if options else None
 
-        if descent is None:
-            helper.clear_dir(os.path.normpath(out_dir_name))
         clear_temp_dir = False
         if temp_dir is None:
             clear_temp_dir = True
-- 
2.43.0


From d0d38dddb4da4abd9891aaa9481ec1d0075862a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:26 +0000
Subject: [PATCH 47/51] fix: use the number of processes given on the command
 line

---
 src/v8unpack/v8unpack.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/v8unpack/v8unpack.py b/src/v8unpack/v8unpack.py
index af665eb..8ca4ee1 100644
--- a/src/v8unpack/v8unpack.py
+++ b/src/v8unpack/v8unpack.py
@@ -255,20 +255,20 @@ def main():
     try:
         if args.E is not None:
             extract(os.path.abspath(args.E[0]), os.path.abspath(args.E[1]),
-                    index=args.index, temp_dir=args.temp, options=options)
+                    index=args.index, temp_dir=args.temp, options=options, processes=args.processes)
             return
 
         if args.B is not None:
             build(os.path.abspath(args.B[0]), os.path.abspath(args.B[1]),
-                  index=args.index, temp_dir=args.temp, options=options)
+                  index=args.index, temp_dir=args.temp, options=options, processes=args.processes)
             return
 
         if args.BA is not None:
-            build_all(args.BA[0], args.index)
+            build_all(args.BA[0], args.index, args.processes)
             return
 
         if args.EA is not None:
-            extract_all(args.EA[0], args.index)
+            extract_all(args.EA[0], args.index, args.processes)
             return
 
         if args.I is not None:
-- 
2.43.0


From e1fc24c3d6a87fd2f1c6381197528eddaf490c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:54 +0000
Subject: [PATCH 48/51] fix: options given to extract and build are not
 changed, the version of one product does not get into the next

---
 src/v8unpack/v8unpack.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/v8unpack/v8unpack.py b/src/v8unpack/v8unpack.py
index 8ca4ee1..a329a2d 100644
--- a/src/v8unpack/v8unpack.py
+++ b/src/v8unpack/v8unpack.py
@@ -20,8 +20,7 @@ from .version import __version__
 def extract(in_filename: str, out_dir_name: str, *, temp_dir=None, index=None, processes=None, options=None):
     try:
         begin0 = datetime.now()
-        if options is None:
-            options = dict()
+        options = dict(options or {})  # options are supplemented during the work
         print(f"saby v8unpack {__version__}")
 
         index = check_index(index)
@@ -69,8 +68,7 @@ def build(in_dir_name: str, out_file_name: str, *, temp_dir=None, index=None,
           options=None, processes: int = None):
     try:
         begin0 = datetime.now()
-        if options is None:
-            options = {}
+        options = dict(options or {})  # options are supplemented during the work
 
         print(f"saby v8unpack {__version__}")
 
-- 
2.43.0


From 443a144b4ea0d5d8855bf0bb320dbe35a97b0e4d Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 06:56:28 +0000
Subject: [PATCH 49/51] fix: values that follow a wrapped base64 value stay
 separate values

---
 src/v8unpack/json_container_decoder.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/v8unpack/json_container_decoder.py b/src/v8unpack/json_container_decoder.py
index 7f26aff..3b7e297 100644
--- a/src/v8unpack/json_container_decoder.py
+++ b/src/v8unpack/json_container_decoder.py
@@ -229,11 +229,17 @@ class JsonContainerDecoder:
 
     def decode_b64_line(self, line, start_pos):
         end_pos = line.find('}')
+        next_pos = line.find(',', start_pos, end_pos if end_pos >= 0 else len(line))
+        if next_pos >= 0:  # после b64 есть еще значения
+            end_pos = next_pos
         if end_pos >= 0:
             self.current_value += line[start_pos:end_pos]
             if start_pos == 1:  # b64 не зарбит на строки
                 self.current_value = "#" + self.current_value
-            self._end_current_object()
+            if next_pos >= 0:
+                self._end_value()
+            else:
+                self._end_current_object()
             self.decode_object(line[end_pos + 1:])
             return True
         else:
-- 
2.43.0


From e5338fb97fc83e00455930b176977cda36631dcb Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 07:32:36 +0000
Subject: [PATCH 50/51] fix: a byte order mark of a source file is not built
 into the module that includes it

---
 src/v8unpack/organizer_code.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v8unpack/organizer_code.py b/src/v8unpack/organizer_code.py
index 6240916..f095257 100644
--- a/src/v8unpack/organizer_code.py
+++ b/src/v8unpack/organizer_code.py
@@ -85,7 +85,7 @@ class OrganizerCode:
             if helper.is_inside(_src_abs_path, src_dir) or os.path.normcase(path).find(normcase_src) >= 0:
                 _src_abs_path, file_name = pack_get_descent_filename(_src_abs_path, file_name, descent)
 
-            with open(os.path.join(_src_abs_path, file_name), 'r', encoding='utf-8') as file:
+            with open(os.path.join(_src_abs_path, file_name), 'r', encoding='utf-8-sig') as file:
                 line = file.readline()
                 while line:
                     _line = line.strip()
-- 
2.43.0


From 11824df0d120d92b194b85eed9ee352f2e115415 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 07:32:36 +0000
Subject: [PATCH 51/51] fix: a byte order mark of version.bin is not part of
 the version

---
 src/v8unpack/decoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v8unpack/decoder.py b/src/v8unpack/decoder.py
index 63e423b..7e26118 100644
--- a/src/v8unpack/decoder.py
+++ b/src/v8unpack/decoder.py
@@ -184,7 +184,7 @@ def encode(src_dir, dest_dir, *, pool=None, options=None, file_name=None):
         return container_dest_dir
 
     try:
-        product_version = helper.txt_read(src_dir, 'version.bin', encoding='utf-8')
+        product_version = helper.txt_read(src_dir, 'version.bin')
         options['product_version'] = product_version
     except FileNotFoundError:
         pass
-- 
2.43.0


From bd73d5c431b3a404ae4dd2fb8dc72fe6fe61ce3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:45 +0000
Subject: [PATCH 01/62] fix: ignore flash size of the reference project with
 --diff

ignore_flash_size() was applied a second time to the current project
instead of the reference one, so the raw and tree reports showed a bogus
size difference for flash memory types, even for identical projects.
---
 esp_idf_size/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esp_idf_size/main.py b/esp_idf_size/main.py
index 5d27fb9..820b780 100644
--- a/esp_idf_size/main.py
+++ b/esp_idf_size/main.py
@@ -127,7 +127,7 @@ def _run(args: Dict[str, Any]) -> None:
             if not args['show_unused']:
                 memorymap.remove_unused(memmap_ref)
             if not args['use_flash_size']:
-                memorymap.ignore_flash_size(memmap)
+                memorymap.ignore_flash_size(memmap_ref)
             memmap = memorymap.diff(memmap, memmap_ref)
             if memmap['target'] != memmap['target_diff']:
                 log.warn(
-- 
2.43.0


From fb93d8a02592c51d1eb46abfb1c62e16dec47a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:03 +0000
Subject: [PATCH 02/62] fix: accumulate section sizes in the archive, file and
 symbol summaries

With --unify, several object files or symbols share one summary entry. The
per-section sizes were overwritten by the last one, while the memory type
and total sizes were accumulated, so the columns did not add up.
---
 esp_idf_size/memorymap.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/esp_idf_size/memorymap.py b/esp_idf_size/memorymap.py
index f508279..73e22dd 100644
--- a/esp_idf_size/memorymap.py
+++ b/esp_idf_size/memorymap.py
@@ -755,12 +755,12 @@ def get_symbols_summary(memory_map: Dict[str, Any], args: Dict[str, Any]) -> Dic
 
         symbol_mem_type = symbol['memory_types'][mem_type_name]
         size = symbol_info['size']
-        symbol_mem_type['sections'][section_name]['size'] = size
+        symbol_mem_type['sections'][section_name]['size'] += size
         symbol_mem_type['size'] += size
         symbol['size'] += size
 
         size = symbol_info['size_diff']
-        symbol_mem_type['sections'][section_name]['size_diff'] = size
+        symbol_mem_type['sections'][section_name]['size_diff'] += size
         symbol_mem_type['size_diff'] += size
         symbol['size_diff'] += size
 
@@ -803,12 +803,12 @@ def get_object_files_summary(memory_map: Dict[str, Any], args: Dict[str, Any]) -
 
         object_file_mem_type = object_file['memory_types'][mem_type_name]
         size = object_file_info['size']
-        object_file_mem_type['sections'][section_name]['size'] = size
+        object_file_mem_type['sections'][section_name]['size'] += size
         object_file_mem_type['size'] += size
         object_file['size'] += size
 
         size = object_file_info['size_diff']
-        object_file_mem_type['sections'][section_name]['size_diff'] = size
+        object_file_mem_type['sections'][section_name]['size_diff'] += size
         object_file_mem_type['size_diff'] += size
         object_file['size_diff'] += size
 
@@ -836,12 +836,12 @@ def get_archives_summary(memory_map: Dict[str, Any], args: Dict[str, Any]) -> Di
 
         archive_mem_type = archive['memory_types'][mem_type_name]
         size = archive_info['size']
-        archive_mem_type['sections'][section_name]['size'] = size
+        archive_mem_type['sections'][section_name]['size'] += size
         archive_mem_type['size'] += size
         archive['size'] += size
 
         size = archive_info['size_diff']
-        archive_mem_type['sections'][section_name]['size_diff'] = size
+        archive_mem_type['sections'][section_name]['size_diff'] += size
         archive_mem_type['size_diff'] += size
         archive['size_diff'] += size
 
-- 
2.43.0


From c8cbddb8cc631808032a7ba6c43c9e668ca729a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:28 +0000
Subject: [PATCH 03/62] fix: do not lose parts of an output section split
 within one memory type

Parts of an output section are stored in the memory type under the output
section name. If more than one part belongs to the same memory type, the
last one overwrote the others, so the section sizes did not add up to the
used size of the memory type.
---
 esp_idf_size/memorymap.py | 51 +++++++++++++++++++++++----------------
 1 file changed, 30 insertions(+), 21 deletions(-)

diff --git a/esp_idf_size/memorymap.py b/esp_idf_size/memorymap.py
index 73e22dd..6b2edb2 100644
--- a/esp_idf_size/memorymap.py
+++ b/esp_idf_size/memorymap.py
@@ -1508,6 +1508,33 @@ def _get_mem_type_map(
                 memory_map[mem_type_alias]['size'] += mem_reg['length']
                 memory_types_regions[mem_type_alias].append(mem_reg)
 
+    def merge_items(items: Dict[str, Any], items_new: Dict[str, Any]) -> None:
+        # Merge archives, object files or symbols of one part of a split output section into another one.
+        for name, info_new in items_new.items():
+            if name not in items:
+                items[name] = info_new
+                continue
+            items[name]['size'] += info_new['size']
+            for sublevel in ('object_files', 'symbols'):
+                if sublevel in info_new:
+                    merge_items(items[name][sublevel], info_new[sublevel])
+
+    def add_section(mem_type_alias: str, name: str, abbrev_name: str, map_section: Dict[str, Any]) -> None:
+        memory_map[mem_type_alias]['used'] += map_section['size']
+        sections = memory_map[mem_type_alias]['sections']
+        if name in sections:
+            # Several parts of one output section may end up in the same memory type, for example if
+            # the output section crosses a boundary between two memory regions of this memory type.
+            sections[name]['size'] += map_section['size']
+            merge_items(sections[name]['archives'], map_section['archives'])
+            return
+        sections[name] = {
+            'abbrev_name': abbrev_name,
+            'size': map_section['size'],
+            'size_diff': 0,
+            'archives': map_section['archives'],
+        }
+
     # Add linker output sections into memory types.
     memory_regions_sorted = [r for r in sorted(memory_regions, key=lambda r: r['origin'] or 0)]
     # Resolve which alias (if any) represents the External RAM bucket on this
@@ -1523,13 +1550,7 @@ def _get_mem_type_map(
             # the address-based region lookup, which cannot disambiguate on
             # chips where the PSRAM and flash data linker regions share an
             # address window.
-            memory_map[ext_ram_alias]['used'] += map_section['size']
-            memory_map[ext_ram_alias]['sections'][map_section['name']] = {
-                'abbrev_name': map_section['abbrev_name'],
-                'size': map_section['size'],
-                'size_diff': 0,
-                'archives': map_section['archives'],
-            }
+            add_section(ext_ram_alias, map_section['name'], map_section['abbrev_name'], map_section)
             continue
         prev_mem_reg = None
         for mem_reg in memory_regions_sorted:
@@ -1544,13 +1565,7 @@ def _get_mem_type_map(
                         f'(addr: {address}, size: {mem_reg["length"]})'
                     )
 
-                memory_map[mem_type_alias]['used'] += map_section['size']
-                memory_map[mem_type_alias]['sections'][map_section['name']] = {
-                    'abbrev_name': map_section['abbrev_name'],
-                    'size': map_section['size'],
-                    'size_diff': 0,
-                    'archives': map_section['archives'],
-                }
+                add_section(mem_type_alias, map_section['name'], map_section['abbrev_name'], map_section)
                 break
             elif address > map_section['address'] and prev_mem_reg:
                 mem_type_alias = prev_mem_reg['type']['name']
@@ -1574,13 +1589,7 @@ def _get_mem_type_map(
                 # clearly mark the overflow part of the output memory section, append "_overflow" to its name.
                 map_section_name = map_section['name'] + '_overflow'
 
-                memory_map[mem_type_alias]['used'] += map_section['size']
-                memory_map[mem_type_alias]['sections'][map_section_name] = {
-                    'abbrev_name': _abbrev(map_section_name),
-                    'size': map_section['size'],
-                    'size_diff': 0,
-                    'archives': map_section['archives'],
-                }
+                add_section(mem_type_alias, map_section_name, _abbrev(map_section_name), map_section)
                 break
 
             prev_mem_reg = mem_reg
-- 
2.43.0


From 276f5850b9a35d40771d25da6961225be7c71e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:49 +0000
Subject: [PATCH 04/62] fix: report overflow of the memory region with the
 highest address

An output section, which does not fit into any memory region, is assigned
to the preceding memory region, except when there was no other memory region
above it. In such a case the section was left out of the report.
---
 esp_idf_size/memorymap.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/esp_idf_size/memorymap.py b/esp_idf_size/memorymap.py
index 6b2edb2..753b3fb 100644
--- a/esp_idf_size/memorymap.py
+++ b/esp_idf_size/memorymap.py
@@ -1553,10 +1553,11 @@ def _get_mem_type_map(
             add_section(ext_ram_alias, map_section['name'], map_section['abbrev_name'], map_section)
             continue
         prev_mem_reg = None
-        for mem_reg in memory_regions_sorted:
-            address = mem_reg['origin']
-            mem_type_alias = mem_reg['type']['name']
-            if address <= map_section['address'] < address + mem_reg['length']:
+        # The None at the end terminates the search for output sections located above all memory regions.
+        for mem_reg in [*memory_regions_sorted, None]:
+            if mem_reg and mem_reg['origin'] <= map_section['address'] < mem_reg['origin'] + mem_reg['length']:
+                address = mem_reg['origin']
+                mem_type_alias = mem_reg['type']['name']
                 if map_section['address'] + map_section['size'] > address + mem_reg['length']:
                     # Sanity check that output sections fits into memory region. This should probably never happen.
                     log.warn(
@@ -1567,7 +1568,7 @@ def _get_mem_type_map(
 
                 add_section(mem_type_alias, map_section['name'], map_section['abbrev_name'], map_section)
                 break
-            elif address > map_section['address'] and prev_mem_reg:
+            elif prev_mem_reg and (mem_reg is None or mem_reg['origin'] > map_section['address']):
                 mem_type_alias = prev_mem_reg['type']['name']
 
                 # Output section does not map into any memory region. This may happen e.g. when memory region
-- 
2.43.0


From 47e189a30e38b36dfbb7e48dbe2170b605b8b9f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:49 +0000
Subject: [PATCH 05/62] fix: account fill of an empty input section to the
 preceding one

add_input_section() used the "size" variable of the enclosing function, which
is not related to the input section being added and may not even be set.
---
 esp_idf_size/mapfile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esp_idf_size/mapfile.py b/esp_idf_size/mapfile.py
index 3596c36..955363a 100644
--- a/esp_idf_size/mapfile.py
+++ b/esp_idf_size/mapfile.py
@@ -210,7 +210,7 @@ class MapFile:
                 # so it can be accounted here.
                 for s in reversed(output_section['input_sections']):
                     if s['size']:
-                        s['fill'] += size
+                        s['fill'] += input_section['fill']
                         break
                 input_section['fill'] = 0
             output_section['input_sections'].append(input_section)
-- 
2.43.0


From 9969861df49b3f1d42d29dd2564bcef9f7ac031f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:02 +0000
Subject: [PATCH 06/62] fix: handle parentheses in paths of archives and object
 files

The archive path was cut at the first parenthesis found in the path.
---
 esp_idf_size/mapfile.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/esp_idf_size/mapfile.py b/esp_idf_size/mapfile.py
index 955363a..0c31bd0 100644
--- a/esp_idf_size/mapfile.py
+++ b/esp_idf_size/mapfile.py
@@ -122,8 +122,16 @@ class MapFile:
         return target
 
     def _get_archive_object_file(self, s: str) -> Tuple[str, str]:
-        idx = s.find('(')
-        if idx == -1:
+        # The path itself may contain parentheses, for example C:/Program Files (x86)/libfoo.a(bar.o),
+        # so look for the opening parenthesis, which matches the one at the end.
+        depth = 0
+        idx = -1
+        if s.endswith(')'):
+            for idx in range(len(s) - 1, -1, -1):
+                depth += {')': 1, '(': -1}.get(s[idx], 0)
+                if not depth:
+                    break
+        if idx == -1 or depth:
             # Object file linked directly without archive. As in the original parser,
             # assign a default archive for such object file.
             return ('(exe)', s)
-- 
2.43.0


From c21cd7f4d84d97ca874db9c923d7b1343a260138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:02 +0000
Subject: [PATCH 07/62] fix: infinite loop for a memory region without a memory
 type

The special handling for zero size memory regions was also used for memory
regions with a non zero size. These were added over and over again, because
the remaining length was never reduced.
---
 esp_idf_size/memorymap.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/esp_idf_size/memorymap.py b/esp_idf_size/memorymap.py
index 753b3fb..ad79edc 100644
--- a/esp_idf_size/memorymap.py
+++ b/esp_idf_size/memorymap.py
@@ -903,7 +903,10 @@ def _split_memory_regions(memory_regions: List[Dict[str, Any]], memory_types: Di
                 # rtc_fast_reserved_seg for esp32. We could probably just skip
                 # such memory regions, but let's sanity check this situation.
                 for mem_reg_splitted in memory_regions_splitted.copy():
-                    if mem_reg_origin + mem_reg_length == mem_reg_splitted['origin'] + mem_reg_splitted['length']:
+                    if (
+                        not mem_reg_length
+                        and mem_reg_origin == mem_reg_splitted['origin'] + mem_reg_splitted['length']
+                    ):
                         memory_regions_splitted.append(
                             {
                                 'name': mem_reg['name'],
-- 
2.43.0


From 9156b38069e85297cd4e947110b34b1e2f78a73e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:12 +0000
Subject: [PATCH 08/62] fix: sort by percentage without dropping the fractional
 part

Percentages were truncated to integers before they were compared, so rows
with usage differing by less than one percent were not sorted.
---
 esp_idf_size/memorymap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esp_idf_size/memorymap.py b/esp_idf_size/memorymap.py
index ad79edc..211c274 100644
--- a/esp_idf_size/memorymap.py
+++ b/esp_idf_size/memorymap.py
@@ -668,7 +668,7 @@ def _get_summary_memory_types(memory_map: Dict[str, Any]) -> Dict[str, Any]:
 
 
 def sort_dict_by_key(dictionary: Dict[str, Any], key: str, reverse: bool) -> Dict[str, Any]:
-    return {k: v for k, v in sorted(dictionary.items(), key=lambda item: int(item[1][key]), reverse=reverse)}
+    return {k: v for k, v in sorted(dictionary.items(), key=lambda item: item[1][key], reverse=reverse)}
 
 
 def get_summary_sorted(entries: Dict[str, Any], args: Dict[str, Any]) -> Dict[str, Any]:
-- 
2.43.0


From c84ebf0196e86b2831e2b548b1543bd59c1ca826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:12 +0000
Subject: [PATCH 09/62] fix: add up sections with the same abbreviated name in
 the JSON summary

A memory type may contain for example the .iram0.bss and .dram0.bss sections.
Both are abbreviated to .bss and the second one replaced the first one.
---
 esp_idf_size/format_json.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/esp_idf_size/format_json.py b/esp_idf_size/format_json.py
index fad4a18..a70613f 100644
--- a/esp_idf_size/format_json.py
+++ b/esp_idf_size/format_json.py
@@ -28,9 +28,9 @@ def show_summary(memmap: Dict[str, Any], args: Dict[str, Any]) -> None:
         summary['layout'].append(mem_type)
         for section_name, section_info in mem_type_info['sections'].items():
             name = section_info['abbrev_name'] if args['abbrev'] else section_name
-            mem_type['parts'][name] = {
-                'size': section_info['size'],
-            }
+            # Several sections may share one abbreviated name
+            part = mem_type['parts'].setdefault(name, {'size': 0})
+            part['size'] += section_info['size']
 
     log.print(json.dumps(summary, indent=4))
 
-- 
2.43.0


From 125cc7c9f623a1adc9813ec42def4980d7c6d391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:12 +0000
Subject: [PATCH 10/62] fix: use the ELF file passed to memorymap.get()

The elf argument was overwritten with None at the beginning of the function.
---
 esp_idf_size/memorymap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esp_idf_size/memorymap.py b/esp_idf_size/memorymap.py
index 211c274..b468858 100644
--- a/esp_idf_size/memorymap.py
+++ b/esp_idf_size/memorymap.py
@@ -195,7 +195,7 @@ def get(
         'memory_types': {},
     }
 
-    proj_desc = map_fn = elf = target = None
+    proj_desc = map_fn = target = None
 
     map_fn = os.path.abspath(input_fn)
 
-- 
2.43.0


From e493670e351779b9b117b424f9565a0cbc0c7293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:12 +0000
Subject: [PATCH 11/62] fix: return the cached value of an evaluated DWARF
 attribute

Evaluating the same attribute for the second time raised KeyError.
---
 esp_idf_size/elf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esp_idf_size/elf.py b/esp_idf_size/elf.py
index b20dd3c..0ed2c46 100644
--- a/esp_idf_size/elf.py
+++ b/esp_idf_size/elf.py
@@ -1765,7 +1765,7 @@ class Dwarf_CU:
 
     def get_attr_eval(self, attr: Dict[str, Any]) -> Optional[Any]:
         if 'evaluated' in attr:
-            return attr['eval']
+            return attr['evaluated']
 
         form = attr['form']
         value = attr['value']
-- 
2.43.0


From 617f3102aedcd2222482dcd7005746a1907cf190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:12 +0000
Subject: [PATCH 12/62] fix: decode signed LEB128 numbers properly

The sign bit was taken from the byte preceding the number instead of its
last byte. Use the signed variant also for DW_FORM_implicit_const.
---
 esp_idf_size/elf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/esp_idf_size/elf.py b/esp_idf_size/elf.py
index 0ed2c46..c2e6eaa 100644
--- a/esp_idf_size/elf.py
+++ b/esp_idf_size/elf.py
@@ -1494,7 +1494,7 @@ class Dwarf_Abbrev_Attr:
             # attributes with this form, the attribute specification contains a third part, which is
             # a signed LEB128 number. The value of this number is used as the value of the
             # attribute, and no value is stored in the .debug_info section.
-            self.value, offset = elf.get_uleb128(data, offset)
+            self.value, offset = elf.get_sleb128(data, offset)
         else:
             self.value = None
         self.size = offset - self.offset
@@ -2126,7 +2126,7 @@ class Elf:
         # SLEB128 is stored in two's complement, use ULEB128 and
         # sign extend it if necessary.
         value, offset_new = self.get_uleb128(data, offset)
-        msb = data[offset - 1]
+        msb = data[offset_new - 1]
         if not msb & 0x40:
             # SLEB128 sign bit is 7'th bit in MSB. If not set
             # it's not negative number.
-- 
2.43.0


From 44720f6f7eb4c78967601c355e9f5008cc405616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:12 +0000
Subject: [PATCH 13/62] fix: read all eight bytes of DW_FORM_ref_sig8

The type signature is 8 bytes long. Reading just one byte of it made all the
following attributes and DIEs in the compilation unit misinterpreted.
---
 esp_idf_size/elf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esp_idf_size/elf.py b/esp_idf_size/elf.py
index c2e6eaa..8b24afa 100644
--- a/esp_idf_size/elf.py
+++ b/esp_idf_size/elf.py
@@ -1730,7 +1730,7 @@ class Dwarf_CU:
         elif form == DW_FORM_ref_addr:
             value, offset = self.get_offset(data, offset)
         elif form == DW_FORM_ref_sig8:
-            value, offset = self._elf.get_uint8(data, offset)
+            value, offset = self._elf.get_uint64(data, offset)
         elif form == DW_FORM_ref_sup4:
             value, offset = self._elf.get_uint32(data, offset)
         elif form == DW_FORM_ref_sup8:
-- 
2.43.0


From 11c0099f416ac4ef77079cdaaf4d0da4eafe56f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:12 +0000
Subject: [PATCH 14/62] fix: make the order of archive dependencies
 deterministic

The iteration order of a set of strings differs between runs.
---
 esp_idf_size/deps.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/esp_idf_size/deps.py b/esp_idf_size/deps.py
index 0e22228..95b16e2 100644
--- a/esp_idf_size/deps.py
+++ b/esp_idf_size/deps.py
@@ -29,7 +29,7 @@ def get_archives_deps(crt: Dict[str, Any], archives_sizes: Dict[str, Any]) -> Di
 
     for sym, refs in crt.items():
         def_archive = refs[0][0]
-        ref_archives = {ref[0] for ref in refs[1:]}
+        ref_archives = dict.fromkeys(ref[0] for ref in refs[1:])
 
         for ref_archive in ref_archives:
             if ref_archive not in archives:
@@ -72,7 +72,7 @@ def get_archives_revdeps(crt: Dict[str, Any], archives_sizes: Dict[str, Any]) ->
 
     for sym, refs in crt.items():
         def_archive = refs[0][0]
-        ref_archives = {ref[0] for ref in refs[1:]}
+        ref_archives = dict.fromkeys(ref[0] for ref in refs[1:])
 
         if def_archive not in archives:
             archives[def_archive] = {
-- 
2.43.0


From 99a6625745555e799aae972db720fc5bdc8da7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:12 +0000
Subject: [PATCH 15/62] fix: do not add a None key to unified symbols

Symbols are leaf nodes without any children.
---
 esp_idf_size/memorymap.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/esp_idf_size/memorymap.py b/esp_idf_size/memorymap.py
index b468858..8b2aa9e 100644
--- a/esp_idf_size/memorymap.py
+++ b/esp_idf_size/memorymap.py
@@ -461,8 +461,9 @@ def unify(memory_map: Dict[str, Any]) -> None:
                     'abbrev_name': original_item_info['abbrev_name'],
                     'size': original_item_info['size'],
                     'size_diff': original_item_info['size_diff'],
-                    sublevel: {},
                 }
+                if sublevel is not None:
+                    unified_item_info[sublevel] = {}
                 unified[original_item_name_abbrev] = unified_item_info
             else:
                 unified_item_info['size'] += original_item_info['size']
-- 
2.43.0


From 2afcd02cb4e46cc9746c793da713890f893b4891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:12 +0000
Subject: [PATCH 16/62] fix: match whole path elements when looking for a
 symbol component

Symbols from e.g. components/foo_bar were assigned to components/foo if
there was no better match.
---
 esp_idf_size/memorymap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esp_idf_size/memorymap.py b/esp_idf_size/memorymap.py
index 8b2aa9e..12f840f 100644
--- a/esp_idf_size/memorymap.py
+++ b/esp_idf_size/memorymap.py
@@ -1299,7 +1299,7 @@ def _expand_input_sections(map_file: mapfile.MapFile, proj_desc: Optional[Dict[s
         # Find component to which the symbol belongs to
         for component in components:
             # NOTE: Elf_Sym is dynamically extended with cu_path and archive_path attribute and mypy doesn't like it
-            if sym.cu_path.startswith(component['component_path']):  # type: ignore
+            if f'{sym.cu_path}/'.startswith(f'{component["component_path"]}/'):  # type: ignore
                 # The components list is sorted based on component_path length, from longest to shortest.
                 # The longest possible match was found, so return. There is no need to search further.
                 return component
-- 
2.43.0


From 168050462bf54bb8854cc98fd36d517b654d9a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:12 +0000
Subject: [PATCH 17/62] fix: keep the tail of an input section without DWARF
 information

The part of an input section located after the last known symbol was dropped
if there was no other symbol with a higher address.
---
 esp_idf_size/memorymap.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/esp_idf_size/memorymap.py b/esp_idf_size/memorymap.py
index 12f840f..e312c67 100644
--- a/esp_idf_size/memorymap.py
+++ b/esp_idf_size/memorymap.py
@@ -1415,17 +1415,18 @@ def _expand_input_sections(map_file: mapfile.MapFile, proj_desc: Optional[Dict[s
                     isec['size'] -= sym.st_size
                 else:
                     # No other symbols fit into this input section
-                    if isec['size'] or not isecs_new:
-                        # There is some part(tail) of the original input section, which
-                        # was not covered by any symbol. Or no symbol fits into this
-                        # input section at all and isecs_new is empty.
-                        isecs_new.append(isec)
-                    else:
-                        # Whole input section was covered by symbols. If it had filling,
-                        # account it into the lastly added input section.
-                        isecs_new[-1]['fill'] = isec['fill']
                     break
 
+            if isec['size'] or not isecs_new:
+                # There is some part(tail) of the original input section, which
+                # was not covered by any symbol. Or no symbol fits into this
+                # input section at all and isecs_new is empty.
+                isecs_new.append(isec)
+            else:
+                # Whole input section was covered by symbols. If it had filling,
+                # account it into the lastly added input section.
+                isecs_new[-1]['fill'] = isec['fill']
+
         # Finally assign expanded input sections into the output section
         osec['input_sections'] = isecs_new
 
-- 
2.43.0


From cbaf261e8ca04f2adc1fe390a67f281e00ad80b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:12 +0000
Subject: [PATCH 18/62] fix: report input sections located after the last ELF
 symbol

Input sections without symbols are reported under their name, except for
those with an address higher than any symbol in the symbol table.
---
 esp_idf_size/memorymap.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/esp_idf_size/memorymap.py b/esp_idf_size/memorymap.py
index e312c67..5c5383c 100644
--- a/esp_idf_size/memorymap.py
+++ b/esp_idf_size/memorymap.py
@@ -1195,6 +1195,17 @@ def _add_symbols_to_sections(elf: Optional[Elf], osections: List[Dict[str, Any]]
             }
         )
 
+    # There are no more symbols. Handle remaining input sections without symbols in the same way as above.
+    for isec in [isec, *isections]:
+        if not isec['symbols']:
+            isec['symbols'].append(
+                {
+                    'name': isec['name'],
+                    'address': isec['address'],
+                    'size': isec['size'],
+                }
+            )
+
     log.debug('linker map output sections filtered with symbols', osections)
 
 
-- 
2.43.0


From 1afb3b4f31e6c637248c602e8c6723218052c2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:50 +0000
Subject: [PATCH 19/62] fix: do not interpret names in the JSON and raw reports
 as markup

A path with square brackets, for example build[1]/libfoo.a, was printed
without the part in brackets, because rich considers it to be a style tag.
---
 esp_idf_size/format_json.py | 10 +++++-----
 esp_idf_size/format_raw.py  |  4 ++--
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/esp_idf_size/format_json.py b/esp_idf_size/format_json.py
index a70613f..b75f1b3 100644
--- a/esp_idf_size/format_json.py
+++ b/esp_idf_size/format_json.py
@@ -32,32 +32,32 @@ def show_summary(memmap: Dict[str, Any], args: Dict[str, Any]) -> None:
             part = mem_type['parts'].setdefault(name, {'size': 0})
             part['size'] += section_info['size']
 
-    log.print(json.dumps(summary, indent=4))
+    log.print(json.dumps(summary, indent=4), markup=False)
 
 
 def show_object_files(memmap: Dict[str, Any], args: Dict[str, Any]) -> None:
     summary = memorymap.get_object_files_summary(memmap, args)
     summary = memorymap.get_summary_sorted(summary, args)
-    log.print(json.dumps(summary, indent=4))
+    log.print(json.dumps(summary, indent=4), markup=False)
 
 
 def show_archives(memmap: Dict[str, Any], args: Dict[str, Any]) -> None:
     summary = memorymap.get_archives_summary(memmap, args)
     summary = memorymap.get_summary_sorted(summary, args)
-    log.print(json.dumps(summary, indent=4))
+    log.print(json.dumps(summary, indent=4), markup=False)
 
 
 def show_symbols(memmap: Dict[str, Any], args: Dict[str, Any]) -> None:
     summary = memorymap.get_symbols_summary(memmap, args)
     summary = memorymap.get_summary_sorted(summary, args)
-    log.print(json.dumps(summary, indent=4))
+    log.print(json.dumps(summary, indent=4), markup=False)
 
 
 def show_archives_dependencies(
     memmap: Dict[str, Any], map_file: mapfile.MapFile, elf: Optional[Elf], args: Dict[str, Any]
 ) -> None:
     arch_deps = deps.get_archives_dependencies(map_file, memmap, elf, args)
-    log.print(json.dumps(arch_deps, indent=4))
+    log.print(json.dumps(arch_deps, indent=4), markup=False)
 
 
 def show(memmap: Dict[str, Any], map_file: mapfile.MapFile, elf: Optional[Elf], args: Dict[str, Any]) -> None:
diff --git a/esp_idf_size/format_raw.py b/esp_idf_size/format_raw.py
index b77f5f7..4df9f6e 100644
--- a/esp_idf_size/format_raw.py
+++ b/esp_idf_size/format_raw.py
@@ -11,6 +11,6 @@ from .elf import Elf
 def show(memmap: Dict[str, Any], map_file: mapfile.MapFile, elf: Optional[Elf], args: Dict[str, Any]) -> None:
     if args['archive_dependencies']:
         arch_deps = deps.get_archives_dependencies(map_file, memmap, elf, args)
-        log.print(json.dumps(arch_deps, indent=4))
+        log.print(json.dumps(arch_deps, indent=4), markup=False)
     else:
-        log.print(json.dumps(memmap, indent=4))
+        log.print(json.dumps(memmap, indent=4), markup=False)
-- 
2.43.0


From 80e37a87cdf5d6defa089e8e0588ae408129a744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:50 +0000
Subject: [PATCH 20/62] fix: do not interpret names in the table, CSV, tree and
 DOT reports as markup

Names with square brackets were printed without the part in brackets, because
rich considers it to be a style tag, or rendering of the report failed if it
looked like a closing tag.
---
 esp_idf_size/format_dot.py   | 13 +++++++++----
 esp_idf_size/format_table.py | 29 +++++++++++++++--------------
 esp_idf_size/format_tree.py  | 15 ++++++++-------
 3 files changed, 32 insertions(+), 25 deletions(-)

diff --git a/esp_idf_size/format_dot.py b/esp_idf_size/format_dot.py
index 4beb792..571b323 100644
--- a/esp_idf_size/format_dot.py
+++ b/esp_idf_size/format_dot.py
@@ -3,6 +3,8 @@
 
 from typing import Any, Dict, List, Optional
 
+from rich.markup import escape
+
 from . import deps, log, mapfile, memorymap
 from .elf import Elf
 
@@ -24,7 +26,10 @@ def show_archives_dependencies(
         shape = 'box' if name in arch_deps else 'ellipse'
         color = 'darkorange3' if name in arch_deps else 'azure'
         # Archive not previously seen, so add a node for it.
-        lines.append(rf'"{name}" \[shape={shape}, label="{name_abbrev} ({size})", style=filled, fillcolor="{color}"]')
+        label = f'{name_abbrev} ({size})'
+        lines.append(
+            rf'"{escape(name)}" \[shape={shape}, label="{escape(label)}", style=filled, fillcolor="{color}"]'
+        )
         seen.append(name)
 
     for arch_name, arch_info in arch_deps.items():
@@ -36,12 +41,12 @@ def show_archives_dependencies(
             add_node(arch_dep_name, arch_dep_name_abbrev, arch_dep_info['size'])
 
             if args['dep_reverse']:
-                line = f'"{arch_dep_name}" -> "{arch_name}"'
+                line = f'"{escape(arch_dep_name)}" -> "{escape(arch_name)}"'
             else:
-                line = f'"{arch_name}" -> "{arch_dep_name}"'
+                line = f'"{escape(arch_name)}" -> "{escape(arch_dep_name)}"'
             if args['dep_symbols']:
                 syms_str = '\n'.join(arch_dep_info['symbols'])
-                line += rf' \[label="{syms_str}"]'
+                line += rf' \[label="{escape(syms_str)}"]'
             lines += [line]
 
     lines += ['}']
diff --git a/esp_idf_size/format_table.py b/esp_idf_size/format_table.py
index 654d81a..4e27dc9 100644
--- a/esp_idf_size/format_table.py
+++ b/esp_idf_size/format_table.py
@@ -15,8 +15,8 @@ from .elf import Elf
 def show_diff_info(memmap: Dict[str, Any], args: Dict[str, Any]) -> None:
     if not args['diff']:
         return
-    log.eprint('[bold]CURRENT[/]   project file: "{}"'.format(memmap['project_path']))
-    log.eprint('[bold]REFERENCE[/] project file: "{}"'.format(memmap['project_path_diff']))
+    log.eprint('[bold]CURRENT[/]   project file: "{}"'.format(escape(memmap['project_path'])))
+    log.eprint('[bold]REFERENCE[/] project file: "{}"'.format(escape(memmap['project_path_diff'])))
     log.eprint(
         'Difference is counted as [bold]CURRENT - REFERENCE[/], i.e. a positive '
         r'number means that [bold]CURRENT[/] is larger.'
@@ -166,7 +166,7 @@ def get_summary_table(memmap: Dict[str, Any], args: Dict[str, Any]) -> Table:
 
             if mem_type_info['size']:
                 table.add_row(
-                    f'   {name}',
+                    f'   {escape(name)}',
                     color_diff(section_info['used'], section_info['used_diff'], args['diff']),
                     color_diff(round(section_info['pct'], 2), round(section_info['pct_diff'], 2), args['diff']),
                     '',
@@ -175,7 +175,7 @@ def get_summary_table(memmap: Dict[str, Any], args: Dict[str, Any]) -> Table:
                 )
             else:
                 table.add_row(
-                    f'   {name}',
+                    f'   {escape(name)}',
                     color_diff(section_info['used'], section_info['used_diff'], args['diff']),
                     '',
                     '',
@@ -221,17 +221,17 @@ def _get_table_sorted(summary: Dict[str, Any], table: Table, args: Dict[str, Any
                 columns.append(Column(info, size, diff))
 
         name = entry_info['abbrev_name'] if args['abbrev'] else entry_name
-        rows.append(Row(name, columns))
+        rows.append(Row(escape(name), columns))
 
     try:
         args['sort'] = int(args['sort'])
     except ValueError:
         for idx, column in enumerate(table.columns):
-            if column.header == args['sort']:
+            if str(Text.from_markup(str(column.header))) == args['sort']:
                 args['sort'] = idx
                 break
         else:
-            log.die(f'Column "{args["sort"]}" not found')
+            log.die(f'Column "{escape(args["sort"])}" not found')
 
     if args['sort'] == 0:
         log.die('Sorting based on column 0, which contains row description, is not supported.')
@@ -274,7 +274,7 @@ def get_object_files_table(memmap: Dict[str, Any], args: Dict[str, Any]) -> Tabl
             table.add_column(mem_type_name, overflow='fold', justify='right', style='dark_orange')
             for section_name, section_info in mem_type_info['sections'].items():
                 name = section_info['abbrev_name'] if args['abbrev'] else section_name
-                table.add_column(name, overflow='fold', justify='right', style='bright_blue')
+                table.add_column(escape(name), overflow='fold', justify='right', style='bright_blue')
         break
 
     sizes_sorted = _get_table_sorted(object_files_summary, table, args)
@@ -297,7 +297,7 @@ def get_archives_table(memmap: Dict[str, Any], args: Dict[str, Any]) -> Table:
             table.add_column(mem_type_name, overflow='fold', justify='right', style='dark_orange')
             for section_name, section_info in mem_type_info['sections'].items():
                 name = section_info['abbrev_name'] if args['abbrev'] else section_name
-                table.add_column(name, overflow='fold', justify='right', style='bright_blue')
+                table.add_column(escape(name), overflow='fold', justify='right', style='bright_blue')
         break
 
     sizes_sorted = _get_table_sorted(archives_summary, table, args)
@@ -311,7 +311,8 @@ def get_symbols_table(memmap: Dict[str, Any], args: Dict[str, Any]) -> Table:
     symbols_summary = memorymap.get_symbols_summary(memmap, args)
     symbols_summary = memorymap.get_summary_filtered(symbols_summary, args)
 
-    table = Table(title=f'Symbols within archive: {args["archive_details"]} (Not all symbols may be reported)')
+    archive_name = escape(args['archive_details'])
+    table = Table(title=f'Symbols within archive: {archive_name} (Not all symbols may be reported)')
     table.add_column('Symbol', overflow='fold')
     table.add_column('Total Size', overflow='fold', justify='right')
 
@@ -320,7 +321,7 @@ def get_symbols_table(memmap: Dict[str, Any], args: Dict[str, Any]) -> Table:
             table.add_column(mem_type_name, overflow='fold', justify='right', style='dark_orange')
             for section_name, section_info in mem_type_info['sections'].items():
                 name = section_info['abbrev_name'] if args['abbrev'] else section_name
-                table.add_column(name, overflow='fold', justify='right', style='bright_blue')
+                table.add_column(escape(name), overflow='fold', justify='right', style='bright_blue')
         break
 
     sizes_sorted = _get_table_sorted(symbols_summary, table, args)
@@ -352,17 +353,17 @@ def get_archives_dependencies_table(
         table.add_column('Symbols', overflow='fold')
 
     for arch_name, arch_info in arch_deps.items():
-        arch_name_abbrev = arch_info['abbrev_name'] if args['abbrev'] else arch_name
+        arch_name_abbrev = escape(arch_info['abbrev_name'] if args['abbrev'] else arch_name)
         for cnt, arch_dep in enumerate(arch_info['archives'].items(), start=1):
             arch_dep_name, arch_dep_info = arch_dep
-            arch_dep_name_abbrev = arch_dep_info['abbrev_name'] if args['abbrev'] else arch_dep_name
+            arch_dep_name_abbrev = escape(arch_dep_info['abbrev_name'] if args['abbrev'] else arch_dep_name)
             if cnt == 1:
                 row = [arch_name_abbrev, str(arch_info['size']), arch_dep_name_abbrev, str(arch_dep_info['size'])]
             else:
                 row = ['', '', arch_dep_name_abbrev, str(arch_dep_info['size'])]
 
             if args['dep_symbols']:
-                row += ['\n'.join(arch_dep_info['symbols'])]
+                row += [escape('\n'.join(arch_dep_info['symbols']))]
             if cnt == len(arch_info['archives']):
                 table.add_row(*row, end_section=True)
             else:
diff --git a/esp_idf_size/format_tree.py b/esp_idf_size/format_tree.py
index 62de334..444d198 100644
--- a/esp_idf_size/format_tree.py
+++ b/esp_idf_size/format_tree.py
@@ -3,6 +3,7 @@
 
 from typing import Any, Dict, Optional
 
+from rich.markup import escape
 from rich.tree import Tree
 
 from . import deps, log, mapfile, memorymap
@@ -27,22 +28,22 @@ def show_memmap(memmap: Dict[str, Any], args: Dict[str, Any]) -> None:
         for section_name, section_info in mem_type_info['sections'].items():
             name = section_info['abbrev_name'] if args['abbrev'] else section_name
             size = color_diff(section_info['size'], section_info['size_diff'], args['diff'])
-            section_tree = mem_type_tree.add(f'{name} {size}', style='bright_blue', guide_style='bright_blue')
+            section_tree = mem_type_tree.add(f'{escape(name)} {size}', style='bright_blue', guide_style='bright_blue')
 
             for archive_name, archive_info in section_info['archives'].items():
                 name = archive_info['abbrev_name'] if args['abbrev'] else archive_name
                 size = color_diff(archive_info['size'], archive_info['size_diff'], args['diff'])
-                archive_tree = section_tree.add(f'{name} {size}', style='green', guide_style='green')
+                archive_tree = section_tree.add(f'{escape(name)} {size}', style='green', guide_style='green')
 
                 for object_file_name, object_file_info in archive_info['object_files'].items():
                     name = object_file_info['abbrev_name'] if args['abbrev'] else object_file_name
                     size = color_diff(object_file_info['size'], object_file_info['size_diff'], args['diff'])
-                    symbol_tree = archive_tree.add(f'{name} {size}', style='default', guide_style='default')
+                    symbol_tree = archive_tree.add(f'{escape(name)} {size}', style='default', guide_style='default')
 
                     for symbol_name, symbol_info in object_file_info['symbols'].items():
                         name = symbol_name
                         size = color_diff(symbol_info['size'], symbol_info['size_diff'], args['diff'])
-                        symbol_tree.add(f'{name} {size}', style='default', guide_style='default')
+                        symbol_tree.add(f'{escape(name)} {size}', style='default', guide_style='default')
 
     log.print(tree)
 
@@ -61,18 +62,18 @@ def show_archives_dependencies(
     for arch_name, arch_info in arch_deps.items():
         arch_name_abbrev = arch_info['abbrev_name'] if args['abbrev'] else arch_name
         arch_size = arch_info['size']
-        arch_tree = tree.add(f'{arch_name_abbrev} {arch_size}', style='dark_orange', guide_style='dark_orange')
+        arch_tree = tree.add(f'{escape(arch_name_abbrev)} {arch_size}', style='dark_orange', guide_style='dark_orange')
 
         for arch_dep_name, arch_dep_info in arch_info['archives'].items():
             arch_dep_name_abbrev = arch_dep_info['abbrev_name'] if args['abbrev'] else arch_dep_name
             arch_dep_size = arch_dep_info['size']
             dep_tree = arch_tree.add(
-                f'{arch_dep_name_abbrev} {arch_dep_size}', style='bright_blue', guide_style='bright_blue'
+                f'{escape(arch_dep_name_abbrev)} {arch_dep_size}', style='bright_blue', guide_style='bright_blue'
             )
 
             if args['dep_symbols']:
                 for sym in arch_dep_info['symbols']:
-                    dep_tree.add(sym, style='default', guide_style='default')
+                    dep_tree.add(escape(sym), style='default', guide_style='default')
 
     log.print(tree)
 
-- 
2.43.0


From 9148ea2cb69e51df5b3d7cc5928226a8e56aa6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:38 +0000
Subject: [PATCH 21/62] fix: handle ELF file without any input section in the
 link map

If all output sections contain only fill or explicit data, reading the
symbols ended with IndexError.
---
 esp_idf_size/memorymap.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/esp_idf_size/memorymap.py b/esp_idf_size/memorymap.py
index 5c5383c..1eb505f 100644
--- a/esp_idf_size/memorymap.py
+++ b/esp_idf_size/memorymap.py
@@ -1136,6 +1136,10 @@ def _add_symbols_to_sections(elf: Optional[Elf], osections: List[Dict[str, Any]]
 
     isections = [s for s in sorted(isections, key=lambda s: s.get('address', 0))]  # s.get used to help mypy
 
+    if not isections:
+        # There are no input sections the symbols could belong to.
+        return
+
     # Add ELF symbols into input sections
     isec = isections.pop(0)
     for symbol in symbols:
-- 
2.43.0


From 83cc24a63704c8ff8db8ca1be8b1a6a6cf52e279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:38 +0000
Subject: [PATCH 22/62] fix: ignore symbols located above all reported input
 sections

Symbols outside of the reported sections, for example in the ROM or in
.flash.rodata_noload, are ignored, except when they were placed behind the
last input section. In such a case the whole report was refused.
---
 esp_idf_size/memorymap.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/esp_idf_size/memorymap.py b/esp_idf_size/memorymap.py
index 1eb505f..a2be020 100644
--- a/esp_idf_size/memorymap.py
+++ b/esp_idf_size/memorymap.py
@@ -1140,6 +1140,10 @@ def _add_symbols_to_sections(elf: Optional[Elf], osections: List[Dict[str, Any]]
         # There are no input sections the symbols could belong to.
         return
 
+    # Skip symbols located above all input sections, for example in a NOLOAD section, which is not reported.
+    end_addr = isections[-1]['address'] + isections[-1]['size']
+    symbols = [s for s in symbols if s.st_value < end_addr]
+
     # Add ELF symbols into input sections
     isec = isections.pop(0)
     for symbol in symbols:
-- 
2.43.0


From 37a2f3b3e9173b5c0efe7366ef85b7ebe71d737c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:56 +0000
Subject: [PATCH 23/62] fix: add up symbols with the same name within one
 object file

Local symbols, or input sections used in place of symbols, may share one
name within an object file. Only the last one was reported.
---
 esp_idf_size/memorymap.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/esp_idf_size/memorymap.py b/esp_idf_size/memorymap.py
index a2be020..f776b29 100644
--- a/esp_idf_size/memorymap.py
+++ b/esp_idf_size/memorymap.py
@@ -1289,6 +1289,10 @@ def _add_archives_to_sections(sections: List[Dict[str, Any]]) -> None:
             object_file['size'] += input_section['size']
 
             for symbol in input_section['symbols']:
+                if symbol['name'] in object_file['symbols']:
+                    # Local symbols or input sections with the same name
+                    object_file['symbols'][symbol['name']]['size'] += symbol['size']
+                    continue
                 object_file['symbols'][symbol['name']] = {
                     'abbrev_name': symbol['name'],
                     'size': symbol['size'],
-- 
2.43.0


From a3f1d48a5594e985169b646a53aa59731cf3ac52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:35 +0000
Subject: [PATCH 24/62] fix: ignore the first input section of an output
 section too if it lies outside of it

---
 esp_idf_size/mapfile.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/esp_idf_size/mapfile.py b/esp_idf_size/mapfile.py
index 0c31bd0..5061811 100644
--- a/esp_idf_size/mapfile.py
+++ b/esp_idf_size/mapfile.py
@@ -191,10 +191,6 @@ class MapFile:
              .rodata.str1.1
                             0x0000000000402013       0x12 test2.o
             """
-            if not output_section['input_sections']:
-                output_section['input_sections'].append(input_section)
-                return
-
             if (
                 input_section['address'] < output_section['address']
                 or input_section['address'] >= output_section['address'] + output_section['size']
@@ -204,6 +200,10 @@ class MapFile:
                 # zero. Note that padding is still considered in the calculation.
                 input_section['size'] = 0
 
+            if not output_section['input_sections']:
+                output_section['input_sections'].append(input_section)
+                return
+
             last_input_section = output_section['input_sections'][-1]
             if last_input_section['address'] == input_section['address']:
                 # The current input section is at the same address as the previous one,
-- 
2.43.0


From 4992357096ef8dd9ccc18804d7bdd19e0357eb0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:46 +0000
Subject: [PATCH 25/62] fix: count identical memory regions of a memory type
 with two buses once

---
 esp_idf_size/memorymap.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/esp_idf_size/memorymap.py b/esp_idf_size/memorymap.py
index f776b29..a9483a6 100644
--- a/esp_idf_size/memorymap.py
+++ b/esp_idf_size/memorymap.py
@@ -1520,9 +1520,10 @@ def _get_mem_type_map(
                 mem_type_offset = abs(mem_type_info['primary_address'] - mem_type_info['secondary_address'])
             for mem_type_reg in memory_types_regions[mem_type_alias]:
                 mem_reg_offset = abs(mem_type_reg['origin'] - mem_reg['origin'])
-                if mem_type_offset == mem_reg_offset and mem_type_reg['length'] == mem_reg['length']:
+                if mem_reg_offset in (0, mem_type_offset) and mem_type_reg['length'] == mem_reg['length']:
                     # The current memory region has the same offset to the already added memory region as
-                    # offset in memory type(primary and secondary address offset). The length also matches, so this
+                    # offset in memory type(primary and secondary address offset), or it is the very same
+                    # memory region under a different name. The length also matches, so this
                     # memory region is mapped into the same memory as region that was already added to the
                     # memory type. Skip it, so we don't account the size of the memory region twice into the total
                     # memory type size.
-- 
2.43.0


From 0490a2f5dacb48e033cf968444f133a9c9f20898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:32 +0000
Subject: [PATCH 26/62] fix: use the right order of the 64-bit program header
 members

---
 esp_idf_size/elf.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/esp_idf_size/elf.py b/esp_idf_size/elf.py
index 8b24afa..0a3a567 100644
--- a/esp_idf_size/elf.py
+++ b/esp_idf_size/elf.py
@@ -1368,6 +1368,22 @@ class Elf_Phdr:
     p_flags: int
     p_align: int
 
+    def __init__(self, elf: 'Elf', *values: int) -> None:
+        self._elf = elf
+        if elf.ehdr.e_ident[EI_CLASS] == ELFCLASS64:
+            # The 32-bit and 64-bit versions have the same members, just p_flags follows p_type in the 64-bit one.
+            values = (values[0], *values[2:7], values[1], values[7])
+        (
+            self.p_type,
+            self.p_offset,
+            self.p_vaddr,
+            self.p_paddr,
+            self.p_filesz,
+            self.p_memsz,
+            self.p_flags,
+            self.p_align,
+        ) = values
+
 
 @dataclass
 class Elf_Shdr:
-- 
2.43.0


From 0faa4fda6a77c47108f544bb777f3cdec0ab0f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:32 +0000
Subject: [PATCH 27/62] fix: keep the value of DW_FORM_loclistx and
 DW_FORM_rnglistx

---
 esp_idf_size/elf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/esp_idf_size/elf.py b/esp_idf_size/elf.py
index 0a3a567..de80862 100644
--- a/esp_idf_size/elf.py
+++ b/esp_idf_size/elf.py
@@ -1710,7 +1710,7 @@ class Dwarf_CU:
 
         # loclist class
         elif form == DW_FORM_loclistx:
-            size, offset = self._elf.get_uleb128(data, offset)
+            value, offset = self._elf.get_uleb128(data, offset)
         # DW_FORM_sec_offset handled in addrptr class
 
         # loclistsptr class
@@ -1721,7 +1721,7 @@ class Dwarf_CU:
 
         # rnglist class
         elif form == DW_FORM_rnglistx:
-            size, offset = self._elf.get_uleb128(data, offset)
+            value, offset = self._elf.get_uleb128(data, offset)
         # DW_FORM_sec_offset handled in addrptr class
 
         # rnglistsptr
-- 
2.43.0


From 6b21711644d26fbccf32aa9456931d047ac5bb18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:32 +0000
Subject: [PATCH 28/62] fix: read DW_FORM_ref_addr of DWARF 2 with the size of
 an address

---
 esp_idf_size/elf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/esp_idf_size/elf.py b/esp_idf_size/elf.py
index de80862..3abeca1 100644
--- a/esp_idf_size/elf.py
+++ b/esp_idf_size/elf.py
@@ -1744,7 +1744,8 @@ class Dwarf_CU:
             value, offset = self._elf.get_uleb128(data, offset)
             value += self.offset
         elif form == DW_FORM_ref_addr:
-            value, offset = self.get_offset(data, offset)
+            # Dwarf2: 7.5.4 Attribute Encodings, the size of an address on the target machine. An offset since Dwarf3.
+            value, offset = self.get_address(data, offset) if self.version <= 2 else self.get_offset(data, offset)
         elif form == DW_FORM_ref_sig8:
             value, offset = self._elf.get_uint64(data, offset)
         elif form == DW_FORM_ref_sup4:
-- 
2.43.0


From 16f2d96fdd6c2a1b6fef2ec7fdb2ca8c0805691a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:47 +0000
Subject: [PATCH 29/62] fix: skip the additional members of DWARF 5 type unit
 headers

---
 esp_idf_size/elf.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/esp_idf_size/elf.py b/esp_idf_size/elf.py
index 3abeca1..4d2ab55 100644
--- a/esp_idf_size/elf.py
+++ b/esp_idf_size/elf.py
@@ -633,6 +633,12 @@ def get_attr_name(attr: int) -> str:
     return DW_AT_NAME_MAP[attr] if attr in DW_AT_NAME_MAP else f'UNKNOWN {attr}'
 
 
+# Dwarf5: 7.5.1 Unit Headers
+DW_UT_type = 0x02
+DW_UT_skeleton = 0x04
+DW_UT_split_compile = 0x05
+DW_UT_split_type = 0x06
+
 DW_FORM_end = 0x00
 DW_FORM_addr = 0x01
 DW_FORM_block2 = 0x03
@@ -1606,6 +1612,13 @@ class Dwarf_CU:
             self.unit_type, offset = elf.get_uint8(data, offset)
             self.address_size, offset = elf.get_uint8(data, offset)
             self.debug_abbrev_offset, offset = self.get_offset(data, offset)
+            if self.unit_type in (DW_UT_skeleton, DW_UT_split_compile):
+                # Dwarf5: 7.5.1.2 Skeleton and Split Compilation Unit Headers
+                offset += 8  # dwo_id
+            elif self.unit_type in (DW_UT_type, DW_UT_split_type):
+                # Dwarf5: 7.5.1.3 Type Unit Headers
+                offset += 8  # type_signature
+                _, offset = self.get_offset(data, offset)  # type_offset
         elif self.version <= 4:
             self.debug_abbrev_offset, offset = self.get_offset(data, offset)
             self.address_size, offset = elf.get_uint8(data, offset)
-- 
2.43.0


From 0e3b81c04a89429521529b9daf4e534a78c3cef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:47 +0000
Subject: [PATCH 30/62] fix: do not return DIEs cached for other tags

---
 esp_idf_size/elf.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/esp_idf_size/elf.py b/esp_idf_size/elf.py
index 4d2ab55..cb423ae 100644
--- a/esp_idf_size/elf.py
+++ b/esp_idf_size/elf.py
@@ -1578,7 +1578,7 @@ class Dwarf_CU:
 
     _elf: 'Elf'
     _abbrev_table: Optional[List[Optional[Dwarf_Abbrev_Entry]]]
-    _die: Optional[Dict[int, Any]]
+    _dies: Dict[Optional[Tuple[int, ...]], Dict[int, Any]]  # DIEs for requested tags
     _die_offset: int  # offset into the .debug_info for the first DIE
     _data: bytes  # .debug_info section data
     get_address: Callable  # Dwarf5: 32-bit or 64-bit offset, Dwarf5: 7.5.1.1 Full and Partial Compilation Unit Headers
@@ -1587,7 +1587,7 @@ class Dwarf_CU:
     def __init__(self, elf: 'Elf', data: bytes, offset: int):
         self._elf = elf
         self._abbrev_table = None
-        self._die = None
+        self._dies = {}
         self._data = data
 
         self.offset = offset
@@ -1872,11 +1872,11 @@ class Dwarf_CU:
         return self.get_DIEs()
 
     def get_DIEs(self, filter_tags: Optional[List[int]] = None) -> Dict[int, Any]:
-        if self._die:
-            return self._die
+        key = None if filter_tags is None else tuple(filter_tags)
+        if key in self._dies:
+            return self._dies[key]
 
         dies: Dict[int, Any] = {}
-        self._die = dies
 
         def get_dwarf_attr(abbrev_attr: Dwarf_Abbrev_Attr, data: bytes, offset: int) -> Dict[str, Any]:
             attr: Dict[str, Any] = {
@@ -1950,6 +1950,7 @@ class Dwarf_CU:
             return die
 
         get_DIE(self._die_offset)
+        self._dies[key] = dies
         return dies
 
 
-- 
2.43.0


From eb24c2e090773501f250e0974b10f34ac2604f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:47 +0000
Subject: [PATCH 31/62] fix: accept an empty DWARF location description

---
 esp_idf_size/elf.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/esp_idf_size/elf.py b/esp_idf_size/elf.py
index cb423ae..291e13d 100644
--- a/esp_idf_size/elf.py
+++ b/esp_idf_size/elf.py
@@ -1835,6 +1835,11 @@ class Dwarf_CU:
                     stack = [None]
                     break
 
+            if not stack:
+                # Dwarf5: 2.6.1.1.4 Empty Location Descriptions
+                # The object is present in the source, but not in the object code.
+                stack = [None]
+
             if len(stack) != 1:
                 raise Elf_Exception(f'invalid DWARF stack {stack}')
 
-- 
2.43.0


From 016c4dd5b7ebb1c371355605faef705fb63da371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:59 +0000
Subject: [PATCH 32/62] fix: evaluate location of variables in DWARF 2 and 3

---
 esp_idf_size/elf.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/esp_idf_size/elf.py b/esp_idf_size/elf.py
index 291e13d..d541e28 100644
--- a/esp_idf_size/elf.py
+++ b/esp_idf_size/elf.py
@@ -1812,7 +1812,11 @@ class Dwarf_CU:
             assert isinstance(value, bytes)
             evaluated = value.decode()
 
-        elif form == DW_FORM_exprloc:
+        elif form == DW_FORM_exprloc or (
+            # Dwarf3: 7.5.4 Attribute Encodings, there is no exprloc class before Dwarf4.
+            attr['attr'] == DW_AT_location
+            and form in (DW_FORM_block1, DW_FORM_block2, DW_FORM_block4, DW_FORM_block)
+        ):
             # Dwarf5: 2.5 DWARF Expressions
             # This handles only DW_OP_addr, which is probably the only one we need.
             # Fully implement DWARF expressions is not possible, because some
-- 
2.43.0


From 49146c57922b956cea9e1002ad665113e96ed878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:44 +0000
Subject: [PATCH 33/62] fix: do not ignore --lto in the tree and dependency
 reports

---
 esp_idf_size/main.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/esp_idf_size/main.py b/esp_idf_size/main.py
index 820b780..2b4b214 100644
--- a/esp_idf_size/main.py
+++ b/esp_idf_size/main.py
@@ -113,7 +113,15 @@ def _run(args: Dict[str, Any]) -> None:
 
         if args['use_dwarf']:
             # We need DWARF only for detailed outputs like archives
-            args['use_dwarf'] = any((args['archive_details'], args['archives'], args['files'], args['format'] == 'raw'))
+            args['use_dwarf'] = any(
+                (
+                    args['archive_details'],
+                    args['archives'],
+                    args['archive_dependencies'],
+                    args['files'],
+                    args['format'] in ['raw', 'tree'],
+                )
+            )
 
         map_file = mapfile.MapFile(args['input_file'])
         elf = memorymap.get_elf(args['input_file'])
-- 
2.43.0


From 09dec8770f76f2e628ce265a86f8b284a74fa8e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:55 +0000
Subject: [PATCH 34/62] fix: count sections like .init_array into the image
 size

Allocated sections with content other than SHT_PROGBITS, for example
.flash.init_array of type SHT_INIT_ARRAY, are loaded as well.
---
 esp_idf_size/memorymap.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/esp_idf_size/memorymap.py b/esp_idf_size/memorymap.py
index a9483a6..fe9dd9c 100644
--- a/esp_idf_size/memorymap.py
+++ b/esp_idf_size/memorymap.py
@@ -62,7 +62,7 @@ import yaml
 from esp_pylib.errors import FatalError
 
 from . import log, mapfile
-from .elf import SHF_ALLOC, SHT_PROGBITS, STT_FUNC, STT_OBJECT, Elf, Elf_Exception, Elf_Shdr, Elf_Sym
+from .elf import SHF_ALLOC, SHT_NOBITS, STT_FUNC, STT_OBJECT, Elf, Elf_Exception, Elf_Shdr, Elf_Sym
 
 VERSION = '1.0'
 
@@ -1249,7 +1249,9 @@ def _get_image_size(elf_sections: Optional[Dict[str, Elf_Shdr]], sections: List[
         return size
 
     for name, info in elf_sections.items():
-        if info.sh_type != SHT_PROGBITS:
+        if info.sh_type == SHT_NOBITS:
+            # Section has no content. Note that sections with content are not only
+            # SHT_PROGBITS, but also e.g. SHT_INIT_ARRAY.
             continue
         size += info.sh_size
 
-- 
2.43.0


From 31fa275a01c289d3df9a990f79aff578ff0224af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:55 +0000
Subject: [PATCH 35/62] fix: ignore project description and sdkconfig in an
 unexpected format

Valid JSON files which do not contain an object, and a project description
without target, ended the run with an exception.
---
 esp_idf_size/memorymap.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/esp_idf_size/memorymap.py b/esp_idf_size/memorymap.py
index fe9dd9c..94c8cbb 100644
--- a/esp_idf_size/memorymap.py
+++ b/esp_idf_size/memorymap.py
@@ -215,7 +215,7 @@ def get(
             use_dwarf = False
 
     if proj_desc:
-        target = proj_desc['target']
+        target = proj_desc.get('target')
 
     # Parse linker map file memory regions, target, output sections and
     # cross reference table
@@ -1090,6 +1090,10 @@ def _load_json_file(fn: str) -> Optional[Dict[str, Any]]:
     except (OSError, ValueError) as e:
         log.debug(f'{fn} is not available: {e}')
 
+    if data is not None and not isinstance(data, dict):
+        log.debug(f'{fn} is not available: unexpected format')
+        return None
+
     return data
 
 
-- 
2.43.0


From ada86bcf836144afb94deffb1b69ced4bc107e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:55 +0000
Subject: [PATCH 36/62] fix: refuse targets that are paths

The target name comes from the project files and was used to locate a yaml
file, whose values are evaluated.
---
 esp_idf_size/memorymap.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/esp_idf_size/memorymap.py b/esp_idf_size/memorymap.py
index 94c8cbb..5ca52eb 100644
--- a/esp_idf_size/memorymap.py
+++ b/esp_idf_size/memorymap.py
@@ -1465,6 +1465,10 @@ def _expand_input_sections(map_file: mapfile.MapFile, proj_desc: Optional[Dict[s
 def _get_memory_types(target: str) -> Dict[str, Any]:
     # Load memory types from yml file
     memory_types: Dict[str, Any] = {}
+    if os.path.basename(target) != target:
+        # The target must not lead to a file outside of the chip_info directory.
+        raise MemMapException(f'unknown chip target "{target}"')
+
     try:
         directory = os.path.dirname(__file__)
         fn = os.path.join(directory, 'chip_info', target + '.yaml')
-- 
2.43.0


From 09aab5684db9acd5e42d87f920a630e84242079c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:36 +0000
Subject: [PATCH 37/62] fix: double quotes inside of CSV cells

---
 esp_idf_size/format_csv.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/esp_idf_size/format_csv.py b/esp_idf_size/format_csv.py
index c9e1cbf..21be21b 100644
--- a/esp_idf_size/format_csv.py
+++ b/esp_idf_size/format_csv.py
@@ -9,6 +9,12 @@ from . import format_table, log, mapfile
 from .elf import Elf
 
 
+def _quote(cell: str) -> str:
+    # Quotes in names, for example in a path, have to be doubled.
+    cell = cell.replace('"', '""')
+    return f'"{cell}"'
+
+
 def show_table(table: Table) -> None:
     """Print Rich Table in CSV format"""
 
@@ -17,10 +23,9 @@ def show_table(table: Table) -> None:
 
     # Rich Table stores cells in columns so transform it to rows.
     for x, col in enumerate(table.columns):
-        matrix[0][x] = f'"{col.header}"'
+        matrix[0][x] = _quote(str(col.header))
         for y, cell in enumerate(col.cells, start=1):
-            cell = cell.strip()
-            matrix[y][x] = f'"{cell}"'
+            matrix[y][x] = _quote(cell.strip())
 
     for row in matrix:
         log.print(','.join(row))
-- 
2.43.0


From 12d5cbac1d4d7bbf45c73225ae2134fff0b4db27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:46 +0000
Subject: [PATCH 38/62] fix: do not interpret DOT output as markup

---
 esp_idf_size/format_dot.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/esp_idf_size/format_dot.py b/esp_idf_size/format_dot.py
index 571b323..80e7afb 100644
--- a/esp_idf_size/format_dot.py
+++ b/esp_idf_size/format_dot.py
@@ -3,8 +3,6 @@
 
 from typing import Any, Dict, List, Optional
 
-from rich.markup import escape
-
 from . import deps, log, mapfile, memorymap
 from .elf import Elf
 
@@ -27,9 +25,7 @@ def show_archives_dependencies(
         color = 'darkorange3' if name in arch_deps else 'azure'
         # Archive not previously seen, so add a node for it.
         label = f'{name_abbrev} ({size})'
-        lines.append(
-            rf'"{escape(name)}" \[shape={shape}, label="{escape(label)}", style=filled, fillcolor="{color}"]'
-        )
+        lines.append(f'"{name}" [shape={shape}, label="{label}", style=filled, fillcolor="{color}"]')
         seen.append(name)
 
     for arch_name, arch_info in arch_deps.items():
@@ -41,17 +37,17 @@ def show_archives_dependencies(
             add_node(arch_dep_name, arch_dep_name_abbrev, arch_dep_info['size'])
 
             if args['dep_reverse']:
-                line = f'"{escape(arch_dep_name)}" -> "{escape(arch_name)}"'
+                line = f'"{arch_dep_name}" -> "{arch_name}"'
             else:
-                line = f'"{escape(arch_name)}" -> "{escape(arch_dep_name)}"'
+                line = f'"{arch_name}" -> "{arch_dep_name}"'
             if args['dep_symbols']:
                 syms_str = '\n'.join(arch_dep_info['symbols'])
-                line += rf' \[label="{escape(syms_str)}"]'
+                line += f' [label="{syms_str}"]'
             lines += [line]
 
     lines += ['}']
 
-    log.print('\n'.join(lines))
+    log.print('\n'.join(lines), markup=False)
 
 
 def show(memmap: Dict[str, Any], map_file: mapfile.MapFile, elf: Optional[Elf], args: Dict[str, Any]) -> None:
-- 
2.43.0


From f897522bb9d185259b798909e74fa23164071a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:56 +0000
Subject: [PATCH 39/62] fix: do not interpret messages as markup

---
 esp_idf_size/format_table.py |  4 ++--
 esp_idf_size/log.py          | 14 ++++++++++----
 esp_idf_size/memorymap.py    | 11 +++++++----
 3 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/esp_idf_size/format_table.py b/esp_idf_size/format_table.py
index 4e27dc9..6eae862 100644
--- a/esp_idf_size/format_table.py
+++ b/esp_idf_size/format_table.py
@@ -119,7 +119,7 @@ def get_summary_table(memmap: Dict[str, Any], args: Dict[str, Any]) -> Table:
                 args['sort'] = idx
                 break
         else:
-            log.die(f'Column "{escape(args["sort"])}" not found')
+            log.die(f'Column "{args["sort"]}" not found')
 
     if args['sort'] == 0:
         log.die('Sorting based on column 0, which contains row description, is not supported.')
@@ -231,7 +231,7 @@ def _get_table_sorted(summary: Dict[str, Any], table: Table, args: Dict[str, Any
                 args['sort'] = idx
                 break
         else:
-            log.die(f'Column "{escape(args["sort"])}" not found')
+            log.die(f'Column "{args["sort"]}" not found')
 
     if args['sort'] == 0:
         log.die('Sorting based on column 0, which contains row description, is not supported.')
diff --git a/esp_idf_size/log.py b/esp_idf_size/log.py
index 378872d..cfa019f 100644
--- a/esp_idf_size/log.py
+++ b/esp_idf_size/log.py
@@ -9,22 +9,28 @@ import sys
 from typing import Any, Optional
 
 from esp_pylib.logger import log
+from rich.text import Text
+
+
+def _verbatim(args: Any) -> Any:
+    # Messages contain names and paths, which must not be interpreted as rich markup.
+    return [Text(arg) if isinstance(arg, str) else arg for arg in args]
 
 
 def err(*args: Any, suggestion: Optional[str] = None) -> None:
-    log.err(*args, suggestion=suggestion)
+    log.err(*_verbatim(args), suggestion=suggestion)
 
 
 def warn(*args: Any, suggestion: Optional[str] = None) -> None:
-    log.warn(*args, suggestion=suggestion)
+    log.warn(*_verbatim(args), suggestion=suggestion)
 
 
 def die(*args: Any, exit_code: int = 1, suggestion: Optional[str] = None) -> None:
-    log.die(*args, exit_code=exit_code, suggestion=suggestion)
+    log.die(*_verbatim(args), exit_code=exit_code, suggestion=suggestion)
 
 
 def debug(*args: Any) -> None:
-    log.debug(*args)
+    log.debug(*_verbatim(args))
 
 
 def eprint(*args: Any, **kwargs: Any) -> None:
diff --git a/esp_idf_size/memorymap.py b/esp_idf_size/memorymap.py
index 5ca52eb..a2d7267 100644
--- a/esp_idf_size/memorymap.py
+++ b/esp_idf_size/memorymap.py
@@ -60,6 +60,7 @@ from typing import Any, Dict, Generator, List, Optional
 
 import yaml
 from esp_pylib.errors import FatalError
+from rich.text import Text
 
 from . import log, mapfile
 from .elf import SHF_ALLOC, SHT_NOBITS, STT_FUNC, STT_OBJECT, Elf, Elf_Exception, Elf_Shdr, Elf_Sym
@@ -1614,10 +1615,12 @@ def _get_mem_type_map(
                 # is not big enough and the linker fails. In this case try to map the output section into the
                 # first memory region/type preceding the output section.
                 log.warn(
-                    f'[red]{mem_type_alias} overflow detected![/red]: '
-                    f'output section or its part {map_section["name"]}(addr: {map_section["address"]}, '
-                    f'size: {map_section["size"]}) does not fit into any memory region and '
-                    f'will be assigned to the preceding {prev_mem_reg["name"]} memory region'
+                    Text.assemble(
+                        (f'{mem_type_alias} overflow detected!', 'red'),
+                        f': output section or its part {map_section["name"]}(addr: {map_section["address"]}, '
+                        f'size: {map_section["size"]}) does not fit into any memory region and '
+                        f'will be assigned to the preceding {prev_mem_reg["name"]} memory region',
+                    )
                 )
 
                 # During overflow the output section could be split according to memory region, which
-- 
2.43.0


From 06514d8f4949ce988715384af14e964d161c1b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:11 +0000
Subject: [PATCH 40/62] fix: do not report empty input sections in front of
 padding as a parser error

---
 esp_idf_size/mapfile.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/esp_idf_size/mapfile.py b/esp_idf_size/mapfile.py
index 5061811..9f05f6f 100644
--- a/esp_idf_size/mapfile.py
+++ b/esp_idf_size/mapfile.py
@@ -395,9 +395,9 @@ class MapFile:
             if not section['input_sections']:
                 # Output section doesn't have any input sections, so it can be skipped
                 continue
-            # Start at the first input section address. There might be alignment(fill) between
+            # Start at the first non-empty input section address. There might be alignment(fill) between
             # output sections address and first input section address, which is not accounted.
-            start_addr = section['input_sections'][0]['address']
+            start_addr = next((s['address'] for s in section['input_sections'] if s['size']), 0)
             offset = 0
             for input_section in section['input_sections']:
                 if not input_section['size']:
-- 
2.43.0


From bfba55913e2cabee259903ebb7748d9d0b910916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:11 +0000
Subject: [PATCH 41/62] fix: read project description and sdkconfig as UTF-8 in
 every locale

---
 esp_idf_size/memorymap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esp_idf_size/memorymap.py b/esp_idf_size/memorymap.py
index a2d7267..40f41dd 100644
--- a/esp_idf_size/memorymap.py
+++ b/esp_idf_size/memorymap.py
@@ -1086,7 +1086,7 @@ def _abbrev(section_name: str) -> str:
 def _load_json_file(fn: str) -> Optional[Dict[str, Any]]:
     data = None
     try:
-        with open(fn) as f:
+        with open(fn, encoding='utf-8') as f:
             data = json.load(f)
     except (OSError, ValueError) as e:
         log.debug(f'{fn} is not available: {e}')
-- 
2.43.0


From 8af1c29772fc71756ed493996fece0946db42785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:11 +0000
Subject: [PATCH 42/62] fix: do not fail for characters missing in the encoding
 of the standard output

---
 esp_idf_size/main.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/esp_idf_size/main.py b/esp_idf_size/main.py
index 2b4b214..805a5c2 100644
--- a/esp_idf_size/main.py
+++ b/esp_idf_size/main.py
@@ -23,13 +23,21 @@ install_exception_reporting()
 click.rich_click.SHOW_ARGUMENTS = True
 
 
+def _escape_unencodable_output() -> None:
+    # Same as in _write_output_file(), characters, which cannot be represented in the
+    # stdout encoding, must not abort the whole report.
+    if isinstance(sys.stdout, io.TextIOWrapper):
+        sys.stdout.reconfigure(errors='backslashreplace')
+
+
 def _show_doc() -> None:
     from rich.console import Console
     from rich.markdown import Markdown
 
+    _escape_unencodable_output()
     console = Console()
     readme_path = Path(os.path.realpath(os.path.dirname(__file__))) / 'docs' / 'readme.md'
-    with open(readme_path) as fd:
+    with open(readme_path, encoding='utf-8') as fd:
         md = Markdown(fd.read())
     console.print(md)
 
@@ -95,6 +103,7 @@ def _run(args: Dict[str, Any]) -> None:
             highlight=True,
             quiet=args['quiet'],
         )
+        _escape_unencodable_output()
 
         if args['no_abbrev'] and args['unify']:
             # --no-abbrev used along with --unify doesn't make sense, because
-- 
2.43.0


From 947234b0ec743f1a8bf1e73b49327f000c8dc21b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:57 +0000
Subject: [PATCH 43/62] fix: leave symbols larger than their input section
 unassigned with LTO

---
 esp_idf_size/memorymap.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/esp_idf_size/memorymap.py b/esp_idf_size/memorymap.py
index 40f41dd..bd06ae4 100644
--- a/esp_idf_size/memorymap.py
+++ b/esp_idf_size/memorymap.py
@@ -1394,6 +1394,9 @@ def _expand_input_sections(map_file: mapfile.MapFile, proj_desc: Optional[Dict[s
                 if addr < isec['address']:
                     # Symbol is not part of this input section
                     continue
+                elif addr < isec['address'] + isec['size'] < addr + sym.st_size:
+                    # Symbol does not fit into this input section, so its size is not reliable.
+                    continue
                 elif addr == isec['address'] and isec['size']:
                     # Symbol starts at the same address as input section.
                     # Create new input section covered by the symbol, insert it
-- 
2.43.0


From c7266a4e40424b8bc80e37cd5f7b56b3a9b001e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:25 +0000
Subject: [PATCH 44/62] fix: accept padding with a fill pattern in link maps

---
 esp_idf_size/mapfile.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/esp_idf_size/mapfile.py b/esp_idf_size/mapfile.py
index 9f05f6f..f261d41 100644
--- a/esp_idf_size/mapfile.py
+++ b/esp_idf_size/mapfile.py
@@ -319,8 +319,9 @@ class MapFile:
                         input_section['archive'], input_section['object_file'] = self._get_archive_object_file(split[2])
 
                     elif line.startswith('*fill*'):
-                        split = line.split()
-                        if len(split) != 3:
+                        # The size may be followed by the fill pattern
+                        split = line.split(maxsplit=3)
+                        if len(split) < 3:
                             raise MapFileException(
                                 f'unexpected "*fill*" line "{line}" at line {ln + 1} '
                                 f'in "Linker script and memory map" section in "{self.fn}" map file'
-- 
2.43.0


From 17215f13e7de11bd544cebf95eba13327eb00fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:25 +0000
Subject: [PATCH 45/62] fix: account explicit data given by an expression

---
 esp_idf_size/mapfile.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/esp_idf_size/mapfile.py b/esp_idf_size/mapfile.py
index f261d41..eea3f1a 100644
--- a/esp_idf_size/mapfile.py
+++ b/esp_idf_size/mapfile.py
@@ -340,8 +340,8 @@ class MapFile:
                         # Output section may contain explicit data
                         # https://sourceware.org/binutils/docs/ld/Output-Section-Data.html
                         # We account them the same as for *fill* into the previous input
-                        # section.
-                        split = line.split()
+                        # section. The value may be followed by the expression it was obtained from.
+                        split = line.split(maxsplit=3)
                         if len(split) == 4 and split[2] in self.EXPLICIT_BYTES:
                             input_section['fill'] += int(split[1], 0)
 
-- 
2.43.0


From 75ec7e84452e269d7d2d58d162d8a5c0cc4b39f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:25 +0000
Subject: [PATCH 46/62] fix: accept output sections with a load address in link
 maps

---
 esp_idf_size/mapfile.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/esp_idf_size/mapfile.py b/esp_idf_size/mapfile.py
index eea3f1a..dfde135 100644
--- a/esp_idf_size/mapfile.py
+++ b/esp_idf_size/mapfile.py
@@ -265,7 +265,7 @@ class MapFile:
                     output_section['size'] = 0
 
                     split = line.split()
-                    if len(split) == 2:
+                    if len(split) == 2 or split[2:4] == ['load', 'address']:
                         try:
                             address = int(split[0], 0)
                             size = int(split[1], 0)
@@ -371,7 +371,7 @@ class MapFile:
                 split = line.split()
                 if len(split) == 1:
                     output_section['name'] = split[0]
-                elif len(split) == 3:
+                elif len(split) == 3 or split[3:5] == ['load', 'address']:
                     output_section['name'] = split[0]
                     output_section['address'] = int(split[1], 0)
                     output_section['size'] = int(split[2], 0)
-- 
2.43.0


From 9fa571b019bec7fca2b2c50fedd67223aef676be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:41 +0000
Subject: [PATCH 47/62] fix: do not take C++ symbols for explicit data in link
 maps

---
 esp_idf_size/mapfile.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/esp_idf_size/mapfile.py b/esp_idf_size/mapfile.py
index dfde135..b6b542e 100644
--- a/esp_idf_size/mapfile.py
+++ b/esp_idf_size/mapfile.py
@@ -342,7 +342,12 @@ class MapFile:
                         # We account them the same as for *fill* into the previous input
                         # section. The value may be followed by the expression it was obtained from.
                         split = line.split(maxsplit=3)
-                        if len(split) == 4 and split[2] in self.EXPLICIT_BYTES:
+                        # Demangled C++ symbols may contain the same words, but not after a size.
+                        if (
+                            len(split) == 4
+                            and split[2] in self.EXPLICIT_BYTES
+                            and re.fullmatch(r'0x[0-9a-fA-F]+', split[1])
+                        ):
                             input_section['fill'] += int(split[1], 0)
 
             elif line.startswith('.'):
-- 
2.43.0


From 4639c0f2907046acd41c1ff45a0754b6f8e28be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:19 +0000
Subject: [PATCH 48/62] fix: ignore project files whose JSON is nested too
 deeply

---
 esp_idf_size/memorymap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esp_idf_size/memorymap.py b/esp_idf_size/memorymap.py
index bd06ae4..a2f0df5 100644
--- a/esp_idf_size/memorymap.py
+++ b/esp_idf_size/memorymap.py
@@ -1088,7 +1088,7 @@ def _load_json_file(fn: str) -> Optional[Dict[str, Any]]:
     try:
         with open(fn, encoding='utf-8') as f:
             data = json.load(f)
-    except (OSError, ValueError) as e:
+    except (OSError, ValueError, RecursionError) as e:
         log.debug(f'{fn} is not available: {e}')
 
     if data is not None and not isinstance(data, dict):
-- 
2.43.0


From 7ef7267ff5db002cd4eb54ae3cf84011539aed88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:19 +0000
Subject: [PATCH 49/62] fix: support arbitrary DWARF abbreviation codes

---
 esp_idf_size/elf.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/esp_idf_size/elf.py b/esp_idf_size/elf.py
index d541e28..1077da1 100644
--- a/esp_idf_size/elf.py
+++ b/esp_idf_size/elf.py
@@ -1887,6 +1887,9 @@ class Dwarf_CU:
 
         dies: Dict[int, Any] = {}
 
+        # Dwarf5: 7.5.3 Abbreviations Tables, the codes are assigned by the producer and need not be consecutive.
+        abbrev_entries = {entry.code: entry for entry in self.abbrev_table if entry is not None}
+
         def get_dwarf_attr(abbrev_attr: Dwarf_Abbrev_Attr, data: bytes, offset: int) -> Dict[str, Any]:
             attr: Dict[str, Any] = {
                 'attr': abbrev_attr.attr,
@@ -1928,12 +1931,12 @@ class Dwarf_CU:
                     dies[die['offset']] = die
                 return die
 
-            abbrev_entry = self.abbrev_table[die['code']]
+            abbrev_entry = abbrev_entries.get(die['code'])
+            if abbrev_entry is None:
+                raise Elf_Exception(f'unknown DWARF abbreviation code {die["code"]}')
             die['tag'] = abbrev_entry.tag
             if filter_tags is None or die['tag'] in filter_tags:
                 dies[die['offset']] = die
-            # Sanity check that abbreviation code in .debug_info matches code in .debug_abbrev
-            assert die['code'] == abbrev_entry.code
 
             for abbrev_attr in abbrev_entry.attrs:
                 if abbrev_attr.attr == DW_AT_end:
-- 
2.43.0


From 609e38f4b11b2e491e4c21b29de3a3b4dfe6b433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:48 +0000
Subject: [PATCH 50/62] fix: support indexed addresses of DWARF 5 as emitted by
 clang

---
 esp_idf_size/elf.py | 48 +++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 44 insertions(+), 4 deletions(-)

diff --git a/esp_idf_size/elf.py b/esp_idf_size/elf.py
index 1077da1..ca487e4 100644
--- a/esp_idf_size/elf.py
+++ b/esp_idf_size/elf.py
@@ -1579,6 +1579,7 @@ class Dwarf_CU:
     _elf: 'Elf'
     _abbrev_table: Optional[List[Optional[Dwarf_Abbrev_Entry]]]
     _dies: Dict[Optional[Tuple[int, ...]], Dict[int, Any]]  # DIEs for requested tags
+    root_attrs: Dict[int, Any]  # attributes of the first DIE
     _die_offset: int  # offset into the .debug_info for the first DIE
     _data: bytes  # .debug_info section data
     get_address: Callable  # Dwarf5: 32-bit or 64-bit offset, Dwarf5: 7.5.1.1 Full and Partial Compilation Unit Headers
@@ -1588,6 +1589,7 @@ class Dwarf_CU:
         self._elf = elf
         self._abbrev_table = None
         self._dies = {}
+        self.root_attrs = {}
         self._data = data
 
         self.offset = offset
@@ -1670,6 +1672,17 @@ class Dwarf_CU:
         if form == DW_FORM_addr:
             value, offset = self.get_address(data, offset)
 
+        elif form == DW_FORM_addrx:
+            value, offset = self._elf.get_uleb128(data, offset)
+        elif form == DW_FORM_addrx1:
+            value, offset = self._elf.get_uint8(data, offset)
+        elif form == DW_FORM_addrx2:
+            value, offset = self._elf.get_uint16(data, offset)
+        elif form == DW_FORM_addrx3:
+            value, offset = self._elf.get_uint24(data, offset)
+        elif form == DW_FORM_addrx4:
+            value, offset = self._elf.get_uint32(data, offset)
+
         # addrptr class
         elif form == DW_FORM_sec_offset:
             value, offset = self.get_offset(data, offset)
@@ -1793,6 +1806,21 @@ class Dwarf_CU:
 
         return value, offset
 
+    def get_indexed(self, shdr_name: str, base_attr: int, size: int, index: int) -> Optional[int]:
+        # Dwarf5: 7.26 String Offsets Table, 7.27 Address Table
+        # Get entry of the table, to which the part of this CU starts at offset stored in the CU DIE.
+        base = self.root_attrs.get(base_attr)
+        shdr = self._elf.lookup_shdr(shdr_name)
+        if base is None or shdr is None:
+            return None
+        offset = int(base['value']) + index * size
+        if offset + size > len(shdr.data):
+            return None
+        return self._elf.get_int(shdr.data, size, offset)[0]
+
+    def get_indexed_address(self, index: int) -> Optional[int]:
+        return self.get_indexed('.debug_addr', DW_AT_addr_base, self.address_size, index)
+
     def get_attr_eval(self, attr: Dict[str, Any]) -> Optional[Any]:
         if 'evaluated' in attr:
             return attr['evaluated']
@@ -1801,7 +1829,12 @@ class Dwarf_CU:
         value = attr['value']
         evaluated = None
 
-        if form == DW_FORM_strp:
+        if form == DW_FORM_addr:
+            evaluated = value
+        elif form in (DW_FORM_addrx, DW_FORM_addrx1, DW_FORM_addrx2, DW_FORM_addrx3, DW_FORM_addrx4):
+            evaluated = self.get_indexed_address(int(value))
+
+        elif form == DW_FORM_strp:
             shdr = self._elf.lookup_shdr('.debug_str')
             evaluated = self._elf.lookup_string(shdr, int(value)).decode() if shdr else None
         elif form == DW_FORM_line_strp:
@@ -1818,7 +1851,7 @@ class Dwarf_CU:
             and form in (DW_FORM_block1, DW_FORM_block2, DW_FORM_block4, DW_FORM_block)
         ):
             # Dwarf5: 2.5 DWARF Expressions
-            # This handles only DW_OP_addr, which is probably the only one we need.
+            # This handles only DW_OP_addr and DW_OP_addrx, which are probably the only ones we need.
             # Fully implement DWARF expressions is not possible, because some
             # expressions work with registers content, which is not available, unless
             # the real debugging is taking place.
@@ -1834,6 +1867,9 @@ class Dwarf_CU:
                 if b == DW_OP_addr:
                     res, offset = self._elf.get_address(value, offset)
                     stack.append(res)
+                elif b == DW_OP_addrx:
+                    index, offset = self._elf.get_uleb128(value, offset)
+                    stack.append(self.get_indexed_address(index))
                 else:
                     # Not implemented
                     stack = [None]
@@ -1961,7 +1997,7 @@ class Dwarf_CU:
             die['size'] = offset - die['offset']
             return die
 
-        get_DIE(self._die_offset)
+        self.root_attrs = get_DIE(self._die_offset)['attrs']
         self._dies[key] = dies
         return dies
 
@@ -2217,7 +2253,11 @@ class Elf:
                     # definition does not have code address or range attributes.
                     continue
 
-                addr = int(dw_at_low_pc['value'])
+                evaluated = die['cu'].get_attr_eval(dw_at_low_pc)
+                if evaluated is None:
+                    continue
+
+                addr = int(evaluated)
                 if addr not in syms_dict:
                     # Address not in symbol table
                     continue
-- 
2.43.0


From 90278f63424512c1f91473a5753a0ce35cb97b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:48 +0000
Subject: [PATCH 51/62] fix: support indexed strings of DWARF 5 as emitted by
 clang

---
 esp_idf_size/elf.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/esp_idf_size/elf.py b/esp_idf_size/elf.py
index ca487e4..ee6bee7 100644
--- a/esp_idf_size/elf.py
+++ b/esp_idf_size/elf.py
@@ -1841,6 +1841,13 @@ class Dwarf_CU:
             shdr = self._elf.lookup_shdr('.debug_line_str')
             evaluated = self._elf.lookup_string(shdr, int(value)).decode() if shdr else None
 
+        elif form in (DW_FORM_strx, DW_FORM_strx1, DW_FORM_strx2, DW_FORM_strx3, DW_FORM_strx4):
+            size = 4 if len(self.unit_length) == 4 else 8
+            str_offset = self.get_indexed('.debug_str_offsets', DW_AT_str_offsets_base, size, int(value))
+            shdr = self._elf.lookup_shdr('.debug_str')
+            if str_offset is not None and shdr:
+                evaluated = self._elf.lookup_string(shdr, str_offset).decode()
+
         elif form == DW_FORM_string:
             assert isinstance(value, bytes)
             evaluated = value.decode()
-- 
2.43.0


From b13dbc12fb1d03ef48a9479e8dca2d987bf51f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:48 +0000
Subject: [PATCH 52/62] fix: crash on DWARF units without a name

---
 esp_idf_size/elf.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/esp_idf_size/elf.py b/esp_idf_size/elf.py
index ee6bee7..a7ff63b 100644
--- a/esp_idf_size/elf.py
+++ b/esp_idf_size/elf.py
@@ -2226,16 +2226,18 @@ class Elf:
         dies: Dict[int, Dict[str, Any]] = {}
         syms_dict: Dict[int, Elf_Sym] = {}
 
-        def get_cu_name(die: Dict[str, Any]) -> str:
+        def get_cu_name(die: Dict[str, Any]) -> Optional[str]:
             dw_at_abstract_origin = die['attrs'].get(DW_AT_abstract_origin)
             if dw_at_abstract_origin:
                 die = dies[int(dw_at_abstract_origin['value'])]
 
             cu = die['cu']
-            cu_die = dies[cu._die_offset]
+            dw_at_name = cu.root_attrs.get(DW_AT_name)
+            if not dw_at_name:
+                # Dwarf5: 3.1.1 Full and Partial Compilation Unit Entries, the name is optional.
+                return None
 
-            cu_name = cu.get_attr_str(cu_die['attrs'][DW_AT_name])
-            return str(cu_name)
+            return str(cu.get_attr_str(dw_at_name))
 
         for cu in self.CUs:
             cu_dies = cu.get_DIEs([DW_TAG_compile_unit, DW_TAG_subprogram, DW_TAG_variable])
-- 
2.43.0


From 5212349bdd98d88056d8bda9ecb85734f9107c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:57 +0000
Subject: [PATCH 53/62] fix: quotes and backslashes in names broke DOT reports

---
 esp_idf_size/format_dot.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/esp_idf_size/format_dot.py b/esp_idf_size/format_dot.py
index 80e7afb..bb5b47e 100644
--- a/esp_idf_size/format_dot.py
+++ b/esp_idf_size/format_dot.py
@@ -7,6 +7,12 @@ from . import deps, log, mapfile, memorymap
 from .elf import Elf
 
 
+def _quote(s: str) -> str:
+    # Quotes in names, for example in a path, have to be escaped. Backslash introduces an escape sequence.
+    s = s.replace('\\', '\\\\').replace('"', '\\"')
+    return f'"{s}"'
+
+
 def show_archives_dependencies(
     map_file: mapfile.MapFile, memmap: Dict[str, Any], elf: Optional[Elf], args: Dict[str, Any]
 ) -> None:
@@ -25,7 +31,7 @@ def show_archives_dependencies(
         color = 'darkorange3' if name in arch_deps else 'azure'
         # Archive not previously seen, so add a node for it.
         label = f'{name_abbrev} ({size})'
-        lines.append(f'"{name}" [shape={shape}, label="{label}", style=filled, fillcolor="{color}"]')
+        lines.append(f'{_quote(name)} [shape={shape}, label={_quote(label)}, style=filled, fillcolor="{color}"]')
         seen.append(name)
 
     for arch_name, arch_info in arch_deps.items():
@@ -37,12 +43,12 @@ def show_archives_dependencies(
             add_node(arch_dep_name, arch_dep_name_abbrev, arch_dep_info['size'])
 
             if args['dep_reverse']:
-                line = f'"{arch_dep_name}" -> "{arch_name}"'
+                line = f'{_quote(arch_dep_name)} -> {_quote(arch_name)}'
             else:
-                line = f'"{arch_name}" -> "{arch_dep_name}"'
+                line = f'{_quote(arch_name)} -> {_quote(arch_dep_name)}'
             if args['dep_symbols']:
                 syms_str = '\n'.join(arch_dep_info['symbols'])
-                line += f' [label="{syms_str}"]'
+                line += f' [label={_quote(syms_str)}]'
             lines += [line]
 
     lines += ['}']
-- 
2.43.0


From 40d179353b2622c62cefe2b5bc3e4ccba530a247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:25 +0000
Subject: [PATCH 54/62] fix: the last output section was lost if no empty line
 follows it

---
 esp_idf_size/mapfile.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/esp_idf_size/mapfile.py b/esp_idf_size/mapfile.py
index b6b542e..eab9df3 100644
--- a/esp_idf_size/mapfile.py
+++ b/esp_idf_size/mapfile.py
@@ -386,6 +386,12 @@ class MapFile:
                         f'in "Linker script and memory map" section in "{self.fn}" map file'
                     )
 
+        if in_output_section and output_section['address'] is not None:
+            # The last output section is not followed by an empty line if there is no cross reference table.
+            if input_section and input_section['address'] is not None:
+                add_input_section(output_section, input_section)
+            output_sections.append(output_section)
+
         if not found:
             raise MapFileException('cannot parse "Linker script and memory map" section in "{self.fn}" map file')
 
-- 
2.43.0


From 5b632ed59ee6eb9d77067a2dbd067d7bb5d373e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:35:07 +0000
Subject: [PATCH 55/62] fix: sections whose names do not start with a dot were
 ignored in link maps

---
 esp_idf_size/mapfile.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/esp_idf_size/mapfile.py b/esp_idf_size/mapfile.py
index eab9df3..650bc30 100644
--- a/esp_idf_size/mapfile.py
+++ b/esp_idf_size/mapfile.py
@@ -16,6 +16,8 @@ class MapFileException(FatalError):
 class MapFile:
     # Explicit bytes of data in output section
     EXPLICIT_BYTES = ['BYTE', 'SHORT', 'LONG', 'QUAD', 'SQUAD']
+    # Name, address and size of a section
+    RE_SECTION = re.compile(r'(?!\*|0x)\S+\s+0x[0-9a-fA-F]+\s+0x[0-9a-fA-F]+(\s|$)')
 
     def __init__(self, fn: str) -> None:
         self.fn = fn
@@ -139,6 +141,18 @@ class MapFile:
         object_file = s[idx + 1 : -1]
         return (archive, object_file)
 
+    def _is_section(self, ln: int) -> bool:
+        # Section names usually start with a dot, but e.g. sections accessed with __start_ and __stop_
+        # symbols do not. Recognize them by the address and size, which might be on the next line.
+        line = self.lines[ln].strip()
+        if len(line.split()) == 1 and ln + 1 < len(self.lines):
+            line += ' ' + self.lines[ln + 1].strip()
+            split = line.split()
+            if len(split) > 3 and split[3] in self.EXPLICIT_BYTES:
+                # Explicit data following a file name pattern
+                return False
+        return self.RE_SECTION.match(line) is not None
+
     def _get_sections(self) -> List[Dict[str, Any]]:
         def add_input_section(output_section: Dict[str, Any], input_section: Dict[str, Any]) -> None:
             """
@@ -275,7 +289,7 @@ class MapFile:
                         except ValueError:
                             pass
 
-                elif line.startswith(('.', 'COMMON')):
+                elif line.startswith(('.', 'COMMON')) or self._is_section(ln):
                     # New input section
                     in_input_section = True
                     if input_section:
@@ -350,7 +364,7 @@ class MapFile:
                         ):
                             input_section['fill'] += int(split[1], 0)
 
-            elif line.startswith('.'):
+            elif line.startswith('.') or (line[:1].strip() and self._is_section(ln)):
                 # Detected new output section. There are two cases
                 # 1. Section name, address and length on a single line
                 #
-- 
2.43.0


From f6ff2e17bb012a590a42e2c36aa9cac69e07ab74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:04 +0000
Subject: [PATCH 56/62] fix: dependency reports were empty with --unify

---
 esp_idf_size/deps.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/esp_idf_size/deps.py b/esp_idf_size/deps.py
index 95b16e2..e0e2d35 100644
--- a/esp_idf_size/deps.py
+++ b/esp_idf_size/deps.py
@@ -130,6 +130,10 @@ def get_archives_dependencies(
 
     archives = memorymap.get_archives_summary(memmap, args)
 
+    if args['unify']:
+        # Archives are aggregated under their abbreviated names.
+        crt = {sym: [(os.path.basename(arch), obj) for arch, obj in refs] for sym, refs in crt.items()}
+
     crt = _filter_crt(crt, archives, elf)
 
     if args['dep_reverse']:
-- 
2.43.0


From 818df5c7afad10bfd3ac85be92fbb1bdc7d333e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:03 +0000
Subject: [PATCH 57/62] fix: merged input section followed by explicit data was
 counted

---
 esp_idf_size/mapfile.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/esp_idf_size/mapfile.py b/esp_idf_size/mapfile.py
index 650bc30..4fdce29 100644
--- a/esp_idf_size/mapfile.py
+++ b/esp_idf_size/mapfile.py
@@ -362,6 +362,9 @@ class MapFile:
                             and split[2] in self.EXPLICIT_BYTES
                             and re.fullmatch(r'0x[0-9a-fA-F]+', split[1])
                         ):
+                            if input_section['address'] == int(split[0], 0):
+                                # Same as for *fill*, the input section is not part of the final image.
+                                input_section['size'] = 0
                             input_section['fill'] += int(split[1], 0)
 
             elif line.startswith('.') or (line[:1].strip() and self._is_section(ln)):
-- 
2.43.0


From a18e2b7c9008776b59a170013621fd142c9715ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:31:48 +0000
Subject: [PATCH 58/62] fix: get() modified the provided map file

Sections of the map file object passed to get() were expanded according to
the DWARF information in place, so a later call without it reported
the archives found by the former one.
---
 esp_idf_size/memorymap.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/esp_idf_size/memorymap.py b/esp_idf_size/memorymap.py
index a2f0df5..c79ca09 100644
--- a/esp_idf_size/memorymap.py
+++ b/esp_idf_size/memorymap.py
@@ -225,6 +225,12 @@ def get(
     except mapfile.MapFileException as e:
         raise MemMapException(e)
 
+    # The sections are modified below, so use a copy in order to keep the provided map file as it is.
+    map_file = copy.copy(map_file)
+    map_file.sections = [
+        {**osec, 'input_sections': [isec.copy() for isec in osec['input_sections']]} for osec in map_file.sections
+    ]
+
     # Validate the parsed map file. If validation fails, it is not a critical
     # error, but the parsing might need correction or adjustment, so print a warning.
     try:
-- 
2.43.0


From 2f9acee391d79815aedc0ac7247c66578a8adea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:31:48 +0000
Subject: [PATCH 59/62] fix: archives of symbols survived in the provided ELF
 file

The archive found for a symbol is stored in the ELF object, which may be
passed to get() again for a project with other components.
---
 esp_idf_size/memorymap.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/esp_idf_size/memorymap.py b/esp_idf_size/memorymap.py
index c79ca09..f778337 100644
--- a/esp_idf_size/memorymap.py
+++ b/esp_idf_size/memorymap.py
@@ -1348,11 +1348,10 @@ def _expand_input_sections(map_file: mapfile.MapFile, proj_desc: Optional[Dict[s
         # the list.
         for sym in symbols.values():
             component = find_symbol_component(sym, components)
-            if component is None:
-                continue
 
-            # Add archive to symbol
-            sym.archive_path = component['archive_relpath']  # type: ignore
+            # Add archive to symbol. The same ELF file may have been used for other components before,
+            # so reset it if there is none.
+            sym.archive_path = component['archive_relpath'] if component else None  # type: ignore
 
     # Get symbols with CU name info if available
     symbols: Dict[int, Elf_Sym] = elf.add_cus_to_symbols()
@@ -1382,7 +1381,7 @@ def _expand_input_sections(map_file: mapfile.MapFile, proj_desc: Optional[Dict[s
     add_archives_to_symbols(symbols, components)
 
     # Remove symbols without archive information
-    symbols = {k: v for k, v in symbols.items() if hasattr(v, 'archive_path')}
+    symbols = {k: v for k, v in symbols.items() if v.archive_path}  # type: ignore
 
     # Sort symbols based on their addresses
     symbols = {k: v for k, v in sorted(symbols.items(), key=lambda item: item[0])}
-- 
2.43.0


From 8b0a0ee060c2d9448d6f040bbc35e8064319569f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:15 +0000
Subject: [PATCH 60/62] fix: map file name missing in error message

The message about the missing linker script section contained {self.fn} instead
of the name.
---
 esp_idf_size/mapfile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esp_idf_size/mapfile.py b/esp_idf_size/mapfile.py
index 4fdce29..65f81e2 100644
--- a/esp_idf_size/mapfile.py
+++ b/esp_idf_size/mapfile.py
@@ -410,7 +410,7 @@ class MapFile:
             output_sections.append(output_section)
 
         if not found:
-            raise MapFileException('cannot parse "Linker script and memory map" section in "{self.fn}" map file')
+            raise MapFileException(f'cannot parse "Linker script and memory map" section in "{self.fn}" map file')
 
         log.debug('linker map output sections', output_sections)
 
-- 
2.43.0


From 545588349919d567dc2c3a40200c48621da38dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:15 +0000
Subject: [PATCH 61/62] fix: range of columns in error message

The description of the row is not part of columns, so the last column was
left out.
---
 esp_idf_size/format_table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esp_idf_size/format_table.py b/esp_idf_size/format_table.py
index 6eae862..168559e 100644
--- a/esp_idf_size/format_table.py
+++ b/esp_idf_size/format_table.py
@@ -249,7 +249,7 @@ def _get_table_sorted(summary: Dict[str, Any], table: Table, args: Dict[str, Any
     except IndexError:
         log.die(
             f'Column index {args["sort"]} is out of range.',
-            f'Please use 1..{len(columns) - 1} or {-len(columns)}..-1 range.',
+            f'Please use 1..{len(columns)} or {-len(columns)}..-1 range.',
         )
 
     # Return only simple list of rows, where each row is a list
-- 
2.43.0


From 5436b1066067602adc99d3ac0feef373ed60180b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:36:03 +0000
Subject: [PATCH 62/62] fix: symbols overlapping thread-local sections

The linker doesn't reserve addresses for .tbss sections, so the following
output section may start at the same address. Its symbols were looked up in
the thread-local input section and either attributed to it or, if too large,
the report was refused.
---
 esp_idf_size/memorymap.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/esp_idf_size/memorymap.py b/esp_idf_size/memorymap.py
index f778337..2c1e6cb 100644
--- a/esp_idf_size/memorymap.py
+++ b/esp_idf_size/memorymap.py
@@ -56,14 +56,14 @@ import json
 import os
 from fnmatch import fnmatch
 from pathlib import Path
-from typing import Any, Dict, Generator, List, Optional
+from typing import Any, Dict, Generator, List, Optional, Set
 
 import yaml
 from esp_pylib.errors import FatalError
 from rich.text import Text
 
 from . import log, mapfile
-from .elf import SHF_ALLOC, SHT_NOBITS, STT_FUNC, STT_OBJECT, Elf, Elf_Exception, Elf_Shdr, Elf_Sym
+from .elf import SHF_ALLOC, SHF_TLS, SHT_NOBITS, STT_FUNC, STT_OBJECT, Elf, Elf_Exception, Elf_Shdr, Elf_Sym
 
 VERSION = '1.0'
 
@@ -1140,9 +1140,14 @@ def _add_symbols_to_sections(elf: Optional[Elf], osections: List[Dict[str, Any]]
     # Get list of input sections, sorted by address, and add symbols list to each
     # input section.
     isections: List[Dict[str, Any]] = []
+    tbss_names = _get_tbss_names(elf)
     for osec in osections:
         for isec in osec['input_sections']:
             isec['symbols'] = []
+            if osec['name'] in tbss_names:
+                # Symbols found at addresses of this input section belong to the following output section.
+                isec['symbols'].append({'name': isec['name'], 'address': isec['address'], 'size': isec['size']})
+                continue
             isections.append(isec)
 
     isections = [s for s in sorted(isections, key=lambda s: s.get('address', 0))]  # s.get used to help mypy
@@ -1228,6 +1233,12 @@ def _add_symbols_to_sections(elf: Optional[Elf], osections: List[Dict[str, Any]]
     log.debug('linker map output sections filtered with symbols', osections)
 
 
+def _get_tbss_names(elf: Elf) -> Set[str]:
+    # The linker doesn't reserve addresses for thread-local sections without content, so
+    # the following output section may start at the same address.
+    return {shdr.name for shdr in elf.shdrs if shdr.sh_flags & SHF_TLS and shdr.sh_type == SHT_NOBITS}
+
+
 def _get_elf_sections_headers(elf: Optional[Elf]) -> Optional[Dict[str, Elf_Shdr]]:
     if not elf:
         return None
@@ -1386,7 +1397,11 @@ def _expand_input_sections(map_file: mapfile.MapFile, proj_desc: Optional[Dict[s
     # Sort symbols based on their addresses
     symbols = {k: v for k, v in sorted(symbols.items(), key=lambda item: item[0])}
 
+    tbss_names = _get_tbss_names(elf)
     for osec in map_file.sections:
+        if osec['name'] in tbss_names:
+            # Symbols found at addresses of this output section belong to the following one.
+            continue
         isecs_new: List[Dict[str, Any]] = []
         for isec in osec['input_sections']:
             if isec['archive'] != '(exe)':
-- 
2.43.0


From ef59afcccc5688a4bc8e028cb3cd02054b5b31b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:12 +0000
Subject: [PATCH 01/64] fix: use the ELF object passed to memorymap.get()

The elf parameter was overwritten with None, so the ELF file was always
loaded again from the project directory.
---
 esp_idf_size/memorymap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esp_idf_size/memorymap.py b/esp_idf_size/memorymap.py
index f508279..a18b614 100644
--- a/esp_idf_size/memorymap.py
+++ b/esp_idf_size/memorymap.py
@@ -195,7 +195,7 @@ def get(
         'memory_types': {},
     }
 
-    proj_desc = map_fn = elf = target = None
+    proj_desc = map_fn = target = None
 
     map_fn = os.path.abspath(input_fn)
 
-- 
2.43.0


From b86212e482a52f308688687e9d90b7341a952333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:12 +0000
Subject: [PATCH 02/64] fix: ignore flash size of the reference project for
 --diff

The flash sizes were zeroed twice for the current project and never for the
reference, so the total difference of flash memory types was wrong.
---
 esp_idf_size/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esp_idf_size/main.py b/esp_idf_size/main.py
index 5d27fb9..820b780 100644
--- a/esp_idf_size/main.py
+++ b/esp_idf_size/main.py
@@ -127,7 +127,7 @@ def _run(args: Dict[str, Any]) -> None:
             if not args['show_unused']:
                 memorymap.remove_unused(memmap_ref)
             if not args['use_flash_size']:
-                memorymap.ignore_flash_size(memmap)
+                memorymap.ignore_flash_size(memmap_ref)
             memmap = memorymap.diff(memmap, memmap_ref)
             if memmap['target'] != memmap['target_diff']:
                 log.warn(
-- 
2.43.0


From a04decf5c3cae09a7ed77142071b8d82f59d9ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:12 +0000
Subject: [PATCH 03/64] fix: endless loop for memory region without memory type

A memory region with non-zero length outside of any memory type, which ends at
the same address as an already processed region, was appended forever.
Assigning the type based on the end address is meant only for zero size
reserved regions.
---
 esp_idf_size/memorymap.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/esp_idf_size/memorymap.py b/esp_idf_size/memorymap.py
index a18b614..d7002d2 100644
--- a/esp_idf_size/memorymap.py
+++ b/esp_idf_size/memorymap.py
@@ -902,8 +902,11 @@ def _split_memory_regions(memory_regions: List[Dict[str, Any]], memory_types: Di
                 # memory region for which the reservation is intended. For example
                 # rtc_fast_reserved_seg for esp32. We could probably just skip
                 # such memory regions, but let's sanity check this situation.
-                for mem_reg_splitted in memory_regions_splitted.copy():
-                    if mem_reg_origin + mem_reg_length == mem_reg_splitted['origin'] + mem_reg_splitted['length']:
+                for mem_reg_splitted in memory_regions_splitted:
+                    if mem_reg_length:
+                        # Not a zero size reserved region.
+                        continue
+                    if mem_reg_origin == mem_reg_splitted['origin'] + mem_reg_splitted['length']:
                         memory_regions_splitted.append(
                             {
                                 'name': mem_reg['name'],
-- 
2.43.0


From 75d89950bef1a6094b39eee0e3b0068cce658c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:12 +0000
Subject: [PATCH 04/64] fix: make archive dependencies order deterministic

Archives were iterated as a set of strings, so the order of the report depended
on the string hash randomization.
---
 esp_idf_size/deps.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/esp_idf_size/deps.py b/esp_idf_size/deps.py
index 0e22228..573e713 100644
--- a/esp_idf_size/deps.py
+++ b/esp_idf_size/deps.py
@@ -29,7 +29,8 @@ def get_archives_deps(crt: Dict[str, Any], archives_sizes: Dict[str, Any]) -> Di
 
     for sym, refs in crt.items():
         def_archive = refs[0][0]
-        ref_archives = {ref[0] for ref in refs[1:]}
+        # Preserve the order in which archives are listed in the cross-reference table.
+        ref_archives = list(dict.fromkeys(ref[0] for ref in refs[1:]))
 
         for ref_archive in ref_archives:
             if ref_archive not in archives:
@@ -72,7 +73,8 @@ def get_archives_revdeps(crt: Dict[str, Any], archives_sizes: Dict[str, Any]) ->
 
     for sym, refs in crt.items():
         def_archive = refs[0][0]
-        ref_archives = {ref[0] for ref in refs[1:]}
+        # Preserve the order in which archives are listed in the cross-reference table.
+        ref_archives = list(dict.fromkeys(ref[0] for ref in refs[1:]))
 
         if def_archive not in archives:
             archives[def_archive] = {
-- 
2.43.0


From 1fe3789346235230bba1906dce4bfc8a21424647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:12 +0000
Subject: [PATCH 05/64] fix: section sizes in archives, files and symbols
 summaries

With --unify several map entries may share one summary entry. Totals were
accumulated, but the section sizes were overwritten.
---
 esp_idf_size/memorymap.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/esp_idf_size/memorymap.py b/esp_idf_size/memorymap.py
index d7002d2..76b2722 100644
--- a/esp_idf_size/memorymap.py
+++ b/esp_idf_size/memorymap.py
@@ -755,12 +755,12 @@ def get_symbols_summary(memory_map: Dict[str, Any], args: Dict[str, Any]) -> Dic
 
         symbol_mem_type = symbol['memory_types'][mem_type_name]
         size = symbol_info['size']
-        symbol_mem_type['sections'][section_name]['size'] = size
+        symbol_mem_type['sections'][section_name]['size'] += size
         symbol_mem_type['size'] += size
         symbol['size'] += size
 
         size = symbol_info['size_diff']
-        symbol_mem_type['sections'][section_name]['size_diff'] = size
+        symbol_mem_type['sections'][section_name]['size_diff'] += size
         symbol_mem_type['size_diff'] += size
         symbol['size_diff'] += size
 
@@ -803,12 +803,12 @@ def get_object_files_summary(memory_map: Dict[str, Any], args: Dict[str, Any]) -
 
         object_file_mem_type = object_file['memory_types'][mem_type_name]
         size = object_file_info['size']
-        object_file_mem_type['sections'][section_name]['size'] = size
+        object_file_mem_type['sections'][section_name]['size'] += size
         object_file_mem_type['size'] += size
         object_file['size'] += size
 
         size = object_file_info['size_diff']
-        object_file_mem_type['sections'][section_name]['size_diff'] = size
+        object_file_mem_type['sections'][section_name]['size_diff'] += size
         object_file_mem_type['size_diff'] += size
         object_file['size_diff'] += size
 
@@ -836,12 +836,12 @@ def get_archives_summary(memory_map: Dict[str, Any], args: Dict[str, Any]) -> Di
 
         archive_mem_type = archive['memory_types'][mem_type_name]
         size = archive_info['size']
-        archive_mem_type['sections'][section_name]['size'] = size
+        archive_mem_type['sections'][section_name]['size'] += size
         archive_mem_type['size'] += size
         archive['size'] += size
 
         size = archive_info['size_diff']
-        archive_mem_type['sections'][section_name]['size_diff'] = size
+        archive_mem_type['sections'][section_name]['size_diff'] += size
         archive_mem_type['size_diff'] += size
         archive['size_diff'] += size
 
-- 
2.43.0


From 47beee414cc2196f92e4d9f5587981c3b8e21bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:12 +0000
Subject: [PATCH 06/64] fix: sections with the same abbreviated name in json2
 summary

Sections like .iram0.data and .dram0.data within one memory type are reported
under the same abbreviated name and only the last one was kept.
---
 esp_idf_size/format_json.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/esp_idf_size/format_json.py b/esp_idf_size/format_json.py
index fad4a18..5000914 100644
--- a/esp_idf_size/format_json.py
+++ b/esp_idf_size/format_json.py
@@ -28,9 +28,9 @@ def show_summary(memmap: Dict[str, Any], args: Dict[str, Any]) -> None:
         summary['layout'].append(mem_type)
         for section_name, section_info in mem_type_info['sections'].items():
             name = section_info['abbrev_name'] if args['abbrev'] else section_name
-            mem_type['parts'][name] = {
-                'size': section_info['size'],
-            }
+            # Different sections may share the same abbreviated name.
+            part = mem_type['parts'].setdefault(name, {'size': 0})
+            part['size'] += section_info['size']
 
     log.print(json.dumps(summary, indent=4))
 
-- 
2.43.0


From 8dc63347c1d1450f88a05783145fcb642932603d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:12 +0000
Subject: [PATCH 07/64] fix: sort percentages by their exact value

Values were truncated to integers before comparison.
---
 esp_idf_size/memorymap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esp_idf_size/memorymap.py b/esp_idf_size/memorymap.py
index 76b2722..fb84575 100644
--- a/esp_idf_size/memorymap.py
+++ b/esp_idf_size/memorymap.py
@@ -668,7 +668,7 @@ def _get_summary_memory_types(memory_map: Dict[str, Any]) -> Dict[str, Any]:
 
 
 def sort_dict_by_key(dictionary: Dict[str, Any], key: str, reverse: bool) -> Dict[str, Any]:
-    return {k: v for k, v in sorted(dictionary.items(), key=lambda item: int(item[1][key]), reverse=reverse)}
+    return {k: v for k, v in sorted(dictionary.items(), key=lambda item: item[1][key], reverse=reverse)}
 
 
 def get_summary_sorted(entries: Dict[str, Any], args: Dict[str, Any]) -> Dict[str, Any]:
-- 
2.43.0


From 4a206c6280c077167d8525107733cee6a2576854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:50 +0000
Subject: [PATCH 08/64] fix: lost input sections in LTO expansion

The rest of an input section without archive was kept only if some symbol with
a higher address followed, otherwise its size vanished from the memory map.
---
 esp_idf_size/memorymap.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/esp_idf_size/memorymap.py b/esp_idf_size/memorymap.py
index fb84575..a262a79 100644
--- a/esp_idf_size/memorymap.py
+++ b/esp_idf_size/memorymap.py
@@ -1414,17 +1414,18 @@ def _expand_input_sections(map_file: mapfile.MapFile, proj_desc: Optional[Dict[s
                     isec['size'] -= sym.st_size
                 else:
                     # No other symbols fit into this input section
-                    if isec['size'] or not isecs_new:
-                        # There is some part(tail) of the original input section, which
-                        # was not covered by any symbol. Or no symbol fits into this
-                        # input section at all and isecs_new is empty.
-                        isecs_new.append(isec)
-                    else:
-                        # Whole input section was covered by symbols. If it had filling,
-                        # account it into the lastly added input section.
-                        isecs_new[-1]['fill'] = isec['fill']
                     break
 
+            if isec['size'] or not isecs_new:
+                # There is some part(tail) of the original input section, which
+                # was not covered by any symbol. Or no symbol fits into this
+                # input section at all and isecs_new is empty.
+                isecs_new.append(isec)
+            else:
+                # Whole input section was covered by symbols. If it had filling,
+                # account it into the lastly added input section.
+                isecs_new[-1]['fill'] += isec['fill']
+
         # Finally assign expanded input sections into the output section
         osec['input_sections'] = isecs_new
 
-- 
2.43.0


From 6c93bc6e0780fcfbdea5147a4763303ece4e2365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:50 +0000
Subject: [PATCH 09/64] fix: match component directory by whole path parts

Sources in /components/foobar were attributed to the component in
/components/foo.
---
 esp_idf_size/memorymap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esp_idf_size/memorymap.py b/esp_idf_size/memorymap.py
index a262a79..3ede078 100644
--- a/esp_idf_size/memorymap.py
+++ b/esp_idf_size/memorymap.py
@@ -1298,7 +1298,7 @@ def _expand_input_sections(map_file: mapfile.MapFile, proj_desc: Optional[Dict[s
         # Find component to which the symbol belongs to
         for component in components:
             # NOTE: Elf_Sym is dynamically extended with cu_path and archive_path attribute and mypy doesn't like it
-            if sym.cu_path.startswith(component['component_path']):  # type: ignore
+            if sym.cu_path.startswith(component['component_path'].rstrip('/') + '/'):  # type: ignore
                 # The components list is sorted based on component_path length, from longest to shortest.
                 # The longest possible match was found, so return. There is no need to search further.
                 return component
-- 
2.43.0


From 449d384a5790e222b87f21774d77b989ee14fd45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:47 +0000
Subject: [PATCH 10/64] fix: sign of DWARF signed LEB128 values

The sign bit was taken from the byte preceding the value instead of its last
byte.
---
 esp_idf_size/elf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esp_idf_size/elf.py b/esp_idf_size/elf.py
index b20dd3c..a97fde1 100644
--- a/esp_idf_size/elf.py
+++ b/esp_idf_size/elf.py
@@ -2126,7 +2126,7 @@ class Elf:
         # SLEB128 is stored in two's complement, use ULEB128 and
         # sign extend it if necessary.
         value, offset_new = self.get_uleb128(data, offset)
-        msb = data[offset - 1]
+        msb = data[offset_new - 1]
         if not msb & 0x40:
             # SLEB128 sign bit is 7'th bit in MSB. If not set
             # it's not negative number.
-- 
2.43.0


From 2823ec7c4ecd6199ddeada79954189a27f3b2983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:47 +0000
Subject: [PATCH 11/64] fix: size of DWARF type signature references

DW_FORM_ref_sig8 is a 64-bit signature. Reading only one byte of it misaligned
all following attributes and entries.
---
 esp_idf_size/elf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esp_idf_size/elf.py b/esp_idf_size/elf.py
index a97fde1..e964849 100644
--- a/esp_idf_size/elf.py
+++ b/esp_idf_size/elf.py
@@ -1730,7 +1730,7 @@ class Dwarf_CU:
         elif form == DW_FORM_ref_addr:
             value, offset = self.get_offset(data, offset)
         elif form == DW_FORM_ref_sig8:
-            value, offset = self._elf.get_uint8(data, offset)
+            value, offset = self._elf.get_uint64(data, offset)
         elif form == DW_FORM_ref_sup4:
             value, offset = self._elf.get_uint32(data, offset)
         elif form == DW_FORM_ref_sup8:
-- 
2.43.0


From 4bdfb3b483bccca4e7259db95b2ebf1d416fb910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:47 +0000
Subject: [PATCH 12/64] fix: decode DWARF implicit constants as signed values

Dwarf5 7.5.3: the third part of the attribute specification is a signed LEB128
number.
---
 esp_idf_size/elf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esp_idf_size/elf.py b/esp_idf_size/elf.py
index e964849..a861046 100644
--- a/esp_idf_size/elf.py
+++ b/esp_idf_size/elf.py
@@ -1494,7 +1494,7 @@ class Dwarf_Abbrev_Attr:
             # attributes with this form, the attribute specification contains a third part, which is
             # a signed LEB128 number. The value of this number is used as the value of the
             # attribute, and no value is stored in the .debug_info section.
-            self.value, offset = elf.get_uleb128(data, offset)
+            self.value, offset = elf.get_sleb128(data, offset)
         else:
             self.value = None
         self.size = offset - self.offset
-- 
2.43.0


From 4018346e6dfbc73f5bc1c389cdf1d771ec289696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:47 +0000
Subject: [PATCH 13/64] fix: keep value of DWARF list index attributes

The decoded DW_FORM_loclistx/rnglistx index was dropped and dumping debug info
with such attribute failed.
---
 esp_idf_size/elf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/esp_idf_size/elf.py b/esp_idf_size/elf.py
index a861046..d02d567 100644
--- a/esp_idf_size/elf.py
+++ b/esp_idf_size/elf.py
@@ -1694,7 +1694,7 @@ class Dwarf_CU:
 
         # loclist class
         elif form == DW_FORM_loclistx:
-            size, offset = self._elf.get_uleb128(data, offset)
+            value, offset = self._elf.get_uleb128(data, offset)
         # DW_FORM_sec_offset handled in addrptr class
 
         # loclistsptr class
@@ -1705,7 +1705,7 @@ class Dwarf_CU:
 
         # rnglist class
         elif form == DW_FORM_rnglistx:
-            size, offset = self._elf.get_uleb128(data, offset)
+            value, offset = self._elf.get_uleb128(data, offset)
         # DW_FORM_sec_offset handled in addrptr class
 
         # rnglistsptr
-- 
2.43.0


From fd4026d6ccb8fd6e89ddaf44ee15784b6d9cd7fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:47 +0000
Subject: [PATCH 14/64] fix: repeated evaluation of a DWARF attribute

The cached value is stored under a different key, so the second evaluation
raised KeyError.
---
 esp_idf_size/elf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esp_idf_size/elf.py b/esp_idf_size/elf.py
index d02d567..38b0573 100644
--- a/esp_idf_size/elf.py
+++ b/esp_idf_size/elf.py
@@ -1765,7 +1765,7 @@ class Dwarf_CU:
 
     def get_attr_eval(self, attr: Dict[str, Any]) -> Optional[Any]:
         if 'evaluated' in attr:
-            return attr['eval']
+            return attr['evaluated']
 
         form = attr['form']
         value = attr['value']
-- 
2.43.0


From 98799f99509b85b08b6127061fd3cbb6f6dc4ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:47 +0000
Subject: [PATCH 15/64] fix: empty DWARF location description

An object, which was optimized out, may have an empty location description and
it should not abort the whole report.
---
 esp_idf_size/elf.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/esp_idf_size/elf.py b/esp_idf_size/elf.py
index 38b0573..b806cc6 100644
--- a/esp_idf_size/elf.py
+++ b/esp_idf_size/elf.py
@@ -1792,6 +1792,11 @@ class Dwarf_CU:
 
             stack: List[Any] = []
 
+            if not value:
+                # Dwarf5: 2.6.1.1.4 Empty Location Descriptions
+                # The object is present in the source, but not in the object code.
+                stack = [None]
+
             offset = 0
             while offset < len(value):
                 b = value[offset]
-- 
2.43.0


From 93ca96b0876baaa342d19c8819ff647e4016d12d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:54 +0000
Subject: [PATCH 16/64] fix: report malformed numbers in the map file as an
 error

They ended with an unhandled ValueError instead of MapFileException.
---
 esp_idf_size/mapfile.py | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/esp_idf_size/mapfile.py b/esp_idf_size/mapfile.py
index 3596c36..bf0797e 100644
--- a/esp_idf_size/mapfile.py
+++ b/esp_idf_size/mapfile.py
@@ -35,6 +35,12 @@ class MapFile:
 
         return lines
 
+    def _get_int(self, value: str, line: str, ln: int) -> int:
+        try:
+            return int(value, 0)
+        except ValueError:
+            raise MapFileException(f'unexpected number "{value}" in "{line}" at line {ln + 1} in "{self.fn}" map file')
+
     def _get_memory_regions(self) -> List[Dict[str, Any]]:
         regions: List[Dict[str, Any]] = []
         found = False
@@ -68,7 +74,14 @@ class MapFile:
                     f'in "Memory Configuration" section in "{self.fn}" map file'
                 )
 
-            regions.append({'name': name, 'origin': int(origin, 0), 'length': int(length, 0), 'attrs': attrs})
+            regions.append(
+                {
+                    'name': name,
+                    'origin': self._get_int(origin, line, ln),
+                    'length': self._get_int(length, line, ln),
+                    'attrs': attrs,
+                }
+            )
 
         if not found or not header:
             raise MapFileException(f'cannot parse "Memory Configuration" section in "{self.fn}" map file')
@@ -287,8 +300,8 @@ class MapFile:
                         input_section['name'] = split[0]
                     elif len(split) == 4:
                         input_section['name'] = split[0]
-                        input_section['address'] = int(split[1], 0)
-                        input_section['size'] = int(split[2], 0)
+                        input_section['address'] = self._get_int(split[1], line, ln)
+                        input_section['size'] = self._get_int(split[2], line, ln)
                         input_section['archive'], input_section['object_file'] = self._get_archive_object_file(split[3])
                     else:
                         raise MapFileException(
@@ -306,8 +319,8 @@ class MapFile:
                                 f'unexpected input section continuous line "{line}" at line {ln + 1} in '
                                 f'"Linker script and memory map" section in "{self.fn}" map file'
                             )
-                        input_section['address'] = int(split[0], 0)
-                        input_section['size'] = int(split[1], 0)
+                        input_section['address'] = self._get_int(split[0], line, ln)
+                        input_section['size'] = self._get_int(split[1], line, ln)
                         input_section['archive'], input_section['object_file'] = self._get_archive_object_file(split[2])
 
                     elif line.startswith('*fill*'):
@@ -317,8 +330,8 @@ class MapFile:
                                 f'unexpected "*fill*" line "{line}" at line {ln + 1} '
                                 f'in "Linker script and memory map" section in "{self.fn}" map file'
                             )
-                        address = int(split[1], 0)
-                        size = int(split[2], 0)
+                        address = self._get_int(split[1], line, ln)
+                        size = self._get_int(split[2], line, ln)
                         if input_section['address'] == address:
                             # Input section address is the same as *fill* address. Set input
                             # section size to zero, but keep the *fill* size. It will be accounted
@@ -334,7 +347,7 @@ class MapFile:
                         # section.
                         split = line.split()
                         if len(split) == 4 and split[2] in self.EXPLICIT_BYTES:
-                            input_section['fill'] += int(split[1], 0)
+                            input_section['fill'] += self._get_int(split[1], line, ln)
 
             elif line.startswith('.'):
                 # Detected new output section. There are two cases
@@ -364,8 +377,8 @@ class MapFile:
                     output_section['name'] = split[0]
                 elif len(split) == 3:
                     output_section['name'] = split[0]
-                    output_section['address'] = int(split[1], 0)
-                    output_section['size'] = int(split[2], 0)
+                    output_section['address'] = self._get_int(split[1], line, ln)
+                    output_section['size'] = self._get_int(split[2], line, ln)
                 else:
                     raise MapFileException(
                         f'unexpected format of output section "{line}" at line {ln + 1} '
-- 
2.43.0


From 2bfe63a0c1558ee394a667598ca61199a7ff2013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:54 +0000
Subject: [PATCH 17/64] fix: report incomplete input section in the map file as
 an error

An input section name without the continuation line with its address and size
ended with an unhandled TypeError.
---
 esp_idf_size/mapfile.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/esp_idf_size/mapfile.py b/esp_idf_size/mapfile.py
index bf0797e..0909ad5 100644
--- a/esp_idf_size/mapfile.py
+++ b/esp_idf_size/mapfile.py
@@ -196,6 +196,12 @@ class MapFile:
              .rodata.str1.1
                             0x0000000000402013       0x12 test2.o
             """
+            if input_section['address'] is None:
+                raise MapFileException(
+                    f'missing address and size of input section "{input_section["name"]}" '
+                    f'in "Linker script and memory map" section in "{self.fn}" map file'
+                )
+
             if not output_section['input_sections']:
                 output_section['input_sections'].append(input_section)
                 return
-- 
2.43.0


From 648697ddd994b054bf00f67df61f073389873c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:54 +0000
Subject: [PATCH 18/64] fix: last output section in the map file not followed
 by an empty line

The section was silently dropped when the map file or the linker script part of
it ended without an empty line.
---
 esp_idf_size/mapfile.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/esp_idf_size/mapfile.py b/esp_idf_size/mapfile.py
index 0909ad5..8b1863f 100644
--- a/esp_idf_size/mapfile.py
+++ b/esp_idf_size/mapfile.py
@@ -391,6 +391,12 @@ class MapFile:
                         f'in "Linker script and memory map" section in "{self.fn}" map file'
                     )
 
+        if in_output_section:
+            # The last output section is not followed by an empty line.
+            if input_section:
+                add_input_section(output_section, input_section)
+            output_sections.append(output_section)
+
         if not found:
             raise MapFileException('cannot parse "Linker script and memory map" section in "{self.fn}" map file')
 
-- 
2.43.0


From 56d0790297678bba35b2e7009676a889fc545eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:54 +0000
Subject: [PATCH 19/64] fix: map file name in error message

---
 esp_idf_size/mapfile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esp_idf_size/mapfile.py b/esp_idf_size/mapfile.py
index 8b1863f..23a30eb 100644
--- a/esp_idf_size/mapfile.py
+++ b/esp_idf_size/mapfile.py
@@ -398,7 +398,7 @@ class MapFile:
             output_sections.append(output_section)
 
         if not found:
-            raise MapFileException('cannot parse "Linker script and memory map" section in "{self.fn}" map file')
+            raise MapFileException(f'cannot parse "Linker script and memory map" section in "{self.fn}" map file')
 
         log.debug('linker map output sections', output_sections)
 
-- 
2.43.0


From a51150b6b3807b84b58e2bc50a5e7686434ea091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:54 +0000
Subject: [PATCH 20/64] fix: padding of an input section at the same address as
 its padding

The padding was accounted with the size of whichever *fill* line was parsed last
instead of the padding of the given input section.
---
 esp_idf_size/mapfile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esp_idf_size/mapfile.py b/esp_idf_size/mapfile.py
index 23a30eb..89a1199 100644
--- a/esp_idf_size/mapfile.py
+++ b/esp_idf_size/mapfile.py
@@ -229,7 +229,7 @@ class MapFile:
                 # so it can be accounted here.
                 for s in reversed(output_section['input_sections']):
                     if s['size']:
-                        s['fill'] += size
+                        s['fill'] += input_section['fill']
                         break
                 input_section['fill'] = 0
             output_section['input_sections'].append(input_section)
-- 
2.43.0


From 6ae8d97635728438480d79e6f7bcdab44f42858d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:54 +0000
Subject: [PATCH 21/64] fix: malformed cross reference table entry

An entry without definition was reported as an error, but still processed, which
ended with an unhandled IndexError.
---
 esp_idf_size/mapfile.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/esp_idf_size/mapfile.py b/esp_idf_size/mapfile.py
index 89a1199..b87124f 100644
--- a/esp_idf_size/mapfile.py
+++ b/esp_idf_size/mapfile.py
@@ -462,6 +462,8 @@ class MapFile:
                 split = line.split(maxsplit=1)
                 if len(split) != 2:
                     log.err(f'unexpected format of cross reference table entry "{line}"')
+                    symbol = None
+                    continue
 
                 symbol = split[0]
                 definition = split[1]
-- 
2.43.0


From e07fa3acffc0e8fb7f5c7f23b64cc2e4d0ddef22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:22 +0000
Subject: [PATCH 22/64] fix: archive path with parentheses

The path was cut at its first parenthesis, so the archive and the object file
were wrong for projects in directories like "My project (copy)".
---
 esp_idf_size/mapfile.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/esp_idf_size/mapfile.py b/esp_idf_size/mapfile.py
index b87124f..4c0c5e9 100644
--- a/esp_idf_size/mapfile.py
+++ b/esp_idf_size/mapfile.py
@@ -135,8 +135,15 @@ class MapFile:
         return target
 
     def _get_archive_object_file(self, s: str) -> Tuple[str, str]:
-        idx = s.find('(')
-        if idx == -1:
+        # The archive member is enclosed in the last pair of parentheses. Note that the archive
+        # path and the member name may contain parentheses too.
+        depth = 0
+        for idx in range(len(s) - 1, -1, -1):
+            depth += {')': 1, '(': -1}.get(s[idx], 0)
+            if not depth:
+                break
+
+        if not s.endswith(')') or depth:
             # Object file linked directly without archive. As in the original parser,
             # assign a default archive for such object file.
             return ('(exe)', s)
-- 
2.43.0


From 806fb44b07dcc4b2fcc3149b04f08ba7d3b100ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:22 +0000
Subject: [PATCH 23/64] fix: first input section outside of its output section

Input sections beyond the range of the output section are disregarded, but the
first one was always counted.
---
 esp_idf_size/mapfile.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/esp_idf_size/mapfile.py b/esp_idf_size/mapfile.py
index 4c0c5e9..2db8137 100644
--- a/esp_idf_size/mapfile.py
+++ b/esp_idf_size/mapfile.py
@@ -209,10 +209,6 @@ class MapFile:
                     f'in "Linker script and memory map" section in "{self.fn}" map file'
                 )
 
-            if not output_section['input_sections']:
-                output_section['input_sections'].append(input_section)
-                return
-
             if (
                 input_section['address'] < output_section['address']
                 or input_section['address'] >= output_section['address'] + output_section['size']
@@ -222,6 +218,10 @@ class MapFile:
                 # zero. Note that padding is still considered in the calculation.
                 input_section['size'] = 0
 
+            if not output_section['input_sections']:
+                output_section['input_sections'].append(input_section)
+                return
+
             last_input_section = output_section['input_sections'][-1]
             if last_input_section['address'] == input_section['address']:
                 # The current input section is at the same address as the previous one,
@@ -416,16 +416,16 @@ class MapFile:
 
     def _validate_sections(self, sections: List[Dict[str, Any]]) -> None:
         for section in sections:
-            if not section['input_sections']:
+            # Input sections with zero size are not part of the final image
+            input_sections = [s for s in section['input_sections'] if s['size']]
+            if not input_sections:
                 # Output section doesn't have any input sections, so it can be skipped
                 continue
             # Start at the first input section address. There might be alignment(fill) between
             # output sections address and first input section address, which is not accounted.
-            start_addr = section['input_sections'][0]['address']
+            start_addr = input_sections[0]['address']
             offset = 0
-            for input_section in section['input_sections']:
-                if not input_section['size']:
-                    continue
+            for input_section in input_sections:
                 if start_addr + offset != input_section['address']:
                     msg = (
                         f'Input section {input_section["name"]} at {hex(input_section["address"])} '
-- 
2.43.0


From b42c050c4aa72d8085768bdfedbe1e18411b815d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:49 +0000
Subject: [PATCH 24/64] fix: symbols of input sections following the last ELF
 symbol

Input sections without ELF symbols are listed under their own name, except those
following the input section with the last symbol. A project without any
counted input section ended with an unhandled IndexError.
---
 esp_idf_size/memorymap.py | 59 +++++++++++++++++++++------------------
 1 file changed, 32 insertions(+), 27 deletions(-)

diff --git a/esp_idf_size/memorymap.py b/esp_idf_size/memorymap.py
index 3ede078..8fbb7f2 100644
--- a/esp_idf_size/memorymap.py
+++ b/esp_idf_size/memorymap.py
@@ -1136,38 +1136,22 @@ def _add_symbols_to_sections(elf: Optional[Elf], osections: List[Dict[str, Any]]
     isections = [s for s in sorted(isections, key=lambda s: s.get('address', 0))]  # s.get used to help mypy
 
     # Add ELF symbols into input sections
-    isec = isections.pop(0)
+    isec_idx = 0
     for symbol in symbols:
         sym_name = symbol.name
         sym_addr = symbol.st_value
         sym_size = symbol.st_size
-        while sym_addr >= isec['address'] + isec['size']:
-            if not isections:
-                # Sanity check that we found input section for symbol
-                raise MemMapException(f'cannot find input section for symbol {sym_name}({sym_addr})')
-
-            if not isec['symbols']:
-                # Input section does not have any ELF symbols assigned.
-                # In e.g. .data or .rodata sections, there might be literals, which do not have symbols
-                # in symbol table. Since the binary is compiled with -fdata-sections, let's add the input
-                # section as "symbol". This should avoid displaying "holes" in the reports. Generally it's
-                # still possible that some libraries/objects, which are e.g. not compiled with -fdata-sections,
-                # may still be missing some "symbols". For example libc.a->lib_a-vfprintf.o: 657 != 117
-                # lib_a-vfprintf.o 657
-                # ├── blanks.1 16
-                # ├── zeroes.0 16
-                # ├── .rodata.str1.4 53
-                # └── .srodata.cst8 32
-                isec['symbols'].append(
-                    {
-                        'name': isec['name'],
-                        'address': isec['address'],
-                        'size': isec['size'],
-                    }
-                )
-
+        while isec_idx < len(isections) and (
+            sym_addr >= isections[isec_idx]['address'] + isections[isec_idx]['size']
+        ):
             # Jump to next input section
-            isec = isections.pop(0)
+            isec_idx += 1
+
+        if isec_idx == len(isections):
+            # Sanity check that we found input section for symbol
+            raise MemMapException(f'cannot find input section for symbol {sym_name}({sym_addr})')
+
+        isec = isections[isec_idx]
 
         if sym_addr + sym_size > isec['address'] + isec['size']:
             # Sanity check that symbol fits into input section
@@ -1194,6 +1178,27 @@ def _add_symbols_to_sections(elf: Optional[Elf], osections: List[Dict[str, Any]]
             }
         )
 
+    for isec in isections:
+        if not isec['symbols']:
+            # Input section does not have any ELF symbols assigned.
+            # In e.g. .data or .rodata sections, there might be literals, which do not have symbols
+            # in symbol table. Since the binary is compiled with -fdata-sections, let's add the input
+            # section as "symbol". This should avoid displaying "holes" in the reports. Generally it's
+            # still possible that some libraries/objects, which are e.g. not compiled with -fdata-sections,
+            # may still be missing some "symbols". For example libc.a->lib_a-vfprintf.o: 657 != 117
+            # lib_a-vfprintf.o 657
+            # ├── blanks.1 16
+            # ├── zeroes.0 16
+            # ├── .rodata.str1.4 53
+            # └── .srodata.cst8 32
+            isec['symbols'].append(
+                {
+                    'name': isec['name'],
+                    'address': isec['address'],
+                    'size': isec['size'],
+                }
+            )
+
     log.debug('linker map output sections filtered with symbols', osections)
 
 
-- 
2.43.0


From fc9957e5d331aa1cab5cea2310b81cc22f2da1f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:49 +0000
Subject: [PATCH 25/64] fix: symbols with the same name in one object file

Only the size of the last one was reported.
---
 esp_idf_size/memorymap.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/esp_idf_size/memorymap.py b/esp_idf_size/memorymap.py
index 8fbb7f2..19b2b1d 100644
--- a/esp_idf_size/memorymap.py
+++ b/esp_idf_size/memorymap.py
@@ -1274,11 +1274,14 @@ def _add_archives_to_sections(sections: List[Dict[str, Any]]) -> None:
             object_file['size'] += input_section['size']
 
             for symbol in input_section['symbols']:
-                object_file['symbols'][symbol['name']] = {
-                    'abbrev_name': symbol['name'],
-                    'size': symbol['size'],
-                    'size_diff': 0,
-                }
+                # An object file may contain several symbols with the same name, e.g. local symbols.
+                if symbol['name'] not in object_file['symbols']:
+                    object_file['symbols'][symbol['name']] = {
+                        'abbrev_name': symbol['name'],
+                        'size': 0,
+                        'size_diff': 0,
+                    }
+                object_file['symbols'][symbol['name']]['size'] += symbol['size']
 
         section['abbrev_name'] = _abbrev(section['name'])
         section['archives'] = archives
-- 
2.43.0


From 1fe6988c2a2fe17874020e6d263e1bc6490b0708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:49 +0000
Subject: [PATCH 26/64] fix: parts of one output section in the same memory
 type

An output section crossing two adjacent memory regions of the same memory type is
split, but only the last part was kept in the memory map.
---
 esp_idf_size/memorymap.py | 46 +++++++++++++++++++++------------------
 1 file changed, 25 insertions(+), 21 deletions(-)

diff --git a/esp_idf_size/memorymap.py b/esp_idf_size/memorymap.py
index 19b2b1d..fe6847c 100644
--- a/esp_idf_size/memorymap.py
+++ b/esp_idf_size/memorymap.py
@@ -1529,19 +1529,35 @@ def _get_mem_type_map(
         (mt['name'] for mt in memory_types.values() if mt['name'] in EXT_RAM_TYPE_NAMES),
         None,
     )
+
+    def merge_items(dst: Dict[str, Any], src: Dict[str, Any]) -> None:
+        for name, info in src.items():
+            if name not in dst:
+                dst[name] = info
+                continue
+            dst[name]['size'] += info['size']
+            for children in ('archives', 'object_files', 'symbols'):
+                if children in info:
+                    merge_items(dst[name][children], info[children])
+
+    def add_section(mem_type_alias: str, section_name: str, abbrev_name: str, map_section: Dict[str, Any]) -> None:
+        # Parts of one output section may belong to the same memory type.
+        section = {
+            'abbrev_name': abbrev_name,
+            'size': map_section['size'],
+            'size_diff': 0,
+            'archives': map_section['archives'],
+        }
+        memory_map[mem_type_alias]['used'] += map_section['size']
+        merge_items(memory_map[mem_type_alias]['sections'], {section_name: section})
+
     for map_section in map_sections:
         if ext_ram_alias and map_section['name'].startswith(EXT_RAM_SECTION_NAMES):
             # Output section is known to belong to External RAM (PSRAM). Bypass
             # the address-based region lookup, which cannot disambiguate on
             # chips where the PSRAM and flash data linker regions share an
             # address window.
-            memory_map[ext_ram_alias]['used'] += map_section['size']
-            memory_map[ext_ram_alias]['sections'][map_section['name']] = {
-                'abbrev_name': map_section['abbrev_name'],
-                'size': map_section['size'],
-                'size_diff': 0,
-                'archives': map_section['archives'],
-            }
+            add_section(ext_ram_alias, map_section['name'], map_section['abbrev_name'], map_section)
             continue
         prev_mem_reg = None
         for mem_reg in memory_regions_sorted:
@@ -1556,13 +1572,7 @@ def _get_mem_type_map(
                         f'(addr: {address}, size: {mem_reg["length"]})'
                     )
 
-                memory_map[mem_type_alias]['used'] += map_section['size']
-                memory_map[mem_type_alias]['sections'][map_section['name']] = {
-                    'abbrev_name': map_section['abbrev_name'],
-                    'size': map_section['size'],
-                    'size_diff': 0,
-                    'archives': map_section['archives'],
-                }
+                add_section(mem_type_alias, map_section['name'], map_section['abbrev_name'], map_section)
                 break
             elif address > map_section['address'] and prev_mem_reg:
                 mem_type_alias = prev_mem_reg['type']['name']
@@ -1586,13 +1596,7 @@ def _get_mem_type_map(
                 # clearly mark the overflow part of the output memory section, append "_overflow" to its name.
                 map_section_name = map_section['name'] + '_overflow'
 
-                memory_map[mem_type_alias]['used'] += map_section['size']
-                memory_map[mem_type_alias]['sections'][map_section_name] = {
-                    'abbrev_name': _abbrev(map_section_name),
-                    'size': map_section['size'],
-                    'size_diff': 0,
-                    'archives': map_section['archives'],
-                }
+                add_section(mem_type_alias, map_section_name, _abbrev(map_section_name), map_section)
                 break
 
             prev_mem_reg = mem_reg
-- 
2.43.0


From 4290fa20cdef2bc03daff0b650e184371310b7d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:49 +0000
Subject: [PATCH 27/64] fix: entries with zero size after splitting an output
 section

An input section or symbol starting exactly at the split address, or with only
its padding behind it, was added with zero size also to the other part.
---
 esp_idf_size/memorymap.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/esp_idf_size/memorymap.py b/esp_idf_size/memorymap.py
index fe6847c..b684f56 100644
--- a/esp_idf_size/memorymap.py
+++ b/esp_idf_size/memorymap.py
@@ -1013,7 +1013,7 @@ def _split_map_sections(sections: List[Dict[str, Any]], regions: List[Dict[str,
                 if input_section_end <= split_addr:
                     # Input section fully fits into new output section1
                     section1['input_sections'].append(input_section)
-                elif input_section['address'] > split_addr:
+                elif input_section['address'] >= split_addr:
                     # Input section fully fits into new output section2
                     section2['input_sections'].append(input_section)
                 else:
@@ -1035,7 +1035,7 @@ def _split_map_sections(sections: List[Dict[str, Any]], regions: List[Dict[str,
                         if symbol_end_addr <= split_addr:
                             # Symbol fully fits into new input section1
                             input_section1['symbols'].append(symbol)
-                        elif symbol['address'] > split_addr:
+                        elif symbol['address'] >= split_addr:
                             # Symbol fully fits into new input section2
                             input_section2['symbols'].append(symbol)
                         else:
@@ -1051,7 +1051,9 @@ def _split_map_sections(sections: List[Dict[str, Any]], regions: List[Dict[str,
                             input_section2['symbols'].append(symbol2)
 
                     section1['input_sections'].append(input_section1)
-                    section2['input_sections'].append(input_section2)
+                    if input_section2['size']:
+                        # Otherwise only the fill is split.
+                        section2['input_sections'].append(input_section2)
                     log.debug(
                         f'linker map input section {input_section["name"]} split at address {split_addr}',
                         input_section,
-- 
2.43.0


From b4a163db3abf4f2c8b113441ea90f416343cde9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:49 +0000
Subject: [PATCH 28/64] fix: extra None key in unified symbols

Symbols in the unified memory map contained a "null": {} item in the raw report.
---
 esp_idf_size/memorymap.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/esp_idf_size/memorymap.py b/esp_idf_size/memorymap.py
index b684f56..c450123 100644
--- a/esp_idf_size/memorymap.py
+++ b/esp_idf_size/memorymap.py
@@ -461,8 +461,9 @@ def unify(memory_map: Dict[str, Any]) -> None:
                     'abbrev_name': original_item_info['abbrev_name'],
                     'size': original_item_info['size'],
                     'size_diff': original_item_info['size_diff'],
-                    sublevel: {},
                 }
+                if sublevel is not None:
+                    unified_item_info[sublevel] = {}
                 unified[original_item_name_abbrev] = unified_item_info
             else:
                 unified_item_info['size'] += original_item_info['size']
-- 
2.43.0


From 320155f7c161255a0ea6661f3ca03745bf68fc54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:49 +0000
Subject: [PATCH 29/64] fix: memory types with unused sections only

A memory type was reported as used with zero size, if all its sections were
removed as unused.
---
 esp_idf_size/memorymap.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/esp_idf_size/memorymap.py b/esp_idf_size/memorymap.py
index c450123..eb7e945 100644
--- a/esp_idf_size/memorymap.py
+++ b/esp_idf_size/memorymap.py
@@ -545,9 +545,6 @@ def walk(memory_map: Dict[str, Any], depth: str = 'all') -> Generator:
 
 
 def remove_unused(memory_map: Dict[str, Any]) -> None:
-    # Remove memory types which are not used
-    memory_map['memory_types'] = {k: v for k, v in memory_map['memory_types'].items() if v['used']}
-
     # Remove sections, which do not have any archive. For example .iram0.text_end is defined
     # to mark the end of IRAM code segment and contains just an alignment.
     for mem_type_name, mem_type_info in memory_map['memory_types'].items():
@@ -559,6 +556,9 @@ def remove_unused(memory_map: Dict[str, Any]) -> None:
         for section_name, section_info in mem_type_info['sections'].items():
             mem_type_info['used'] += section_info['size']
 
+    # Remove memory types which are not used
+    memory_map['memory_types'] = {k: v for k, v in memory_map['memory_types'].items() if v['used']}
+
 
 def ignore_flash_size(memory_map: Dict[str, Any]) -> None:
     # Set the total size of each Flash memory type to zero. The total flash
-- 
2.43.0


From 3100069220d7bc5273761cbb258a0067100f2fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:49 +0000
Subject: [PATCH 30/64] fix: identical memory regions in memory type with
 secondary address

The same memory region was accounted twice, if its memory type has a different
secondary address.
---
 esp_idf_size/memorymap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/esp_idf_size/memorymap.py b/esp_idf_size/memorymap.py
index eb7e945..6a6cb88 100644
--- a/esp_idf_size/memorymap.py
+++ b/esp_idf_size/memorymap.py
@@ -1507,8 +1507,8 @@ def _get_mem_type_map(
                 mem_type_offset = abs(mem_type_info['primary_address'] - mem_type_info['secondary_address'])
             for mem_type_reg in memory_types_regions[mem_type_alias]:
                 mem_reg_offset = abs(mem_type_reg['origin'] - mem_reg['origin'])
-                if mem_type_offset == mem_reg_offset and mem_type_reg['length'] == mem_reg['length']:
-                    # The current memory region has the same offset to the already added memory region as
+                if mem_reg_offset in (0, mem_type_offset) and mem_type_reg['length'] == mem_reg['length']:
+                    # The current memory region is the same as or has the same offset to the already added memory region as
                     # offset in memory type(primary and secondary address offset). The length also matches, so this
                     # memory region is mapped into the same memory as region that was already added to the
                     # memory type. Skip it, so we don't account the size of the memory region twice into the total
-- 
2.43.0


From 55b11fd3c1ddb3f30402e0d82b977e2cc922c139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:49 +0000
Subject: [PATCH 31/64] fix: output section below all memory regions

Such section was reported as an overflow of the lowest memory region, even though
no memory region precedes it.
---
 esp_idf_size/memorymap.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/esp_idf_size/memorymap.py b/esp_idf_size/memorymap.py
index 6a6cb88..c6392bd 100644
--- a/esp_idf_size/memorymap.py
+++ b/esp_idf_size/memorymap.py
@@ -1602,7 +1602,8 @@ def _get_mem_type_map(
                 add_section(mem_type_alias, map_section_name, _abbrev(map_section_name), map_section)
                 break
 
-            prev_mem_reg = mem_reg
+            if address <= map_section['address']:
+                prev_mem_reg = mem_reg
 
         else:
             log.warn(
-- 
2.43.0


From 57fd153ca99e787b6174c39eb7bff1adce0561d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:43 +0000
Subject: [PATCH 32/64] fix: project description and sdkconfig with unexpected
 content

These files are optional. A file with missing keys or values of an unexpected type
ended with an unhandled exception.
---
 esp_idf_size/memorymap.py | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/esp_idf_size/memorymap.py b/esp_idf_size/memorymap.py
index c6392bd..7e5c572 100644
--- a/esp_idf_size/memorymap.py
+++ b/esp_idf_size/memorymap.py
@@ -215,7 +215,7 @@ def get(
             use_dwarf = False
 
     if proj_desc:
-        target = proj_desc['target']
+        target = proj_desc.get('target')
 
     # Parse linker map file memory regions, target, output sections and
     # cross reference table
@@ -1092,6 +1092,10 @@ def _load_json_file(fn: str) -> Optional[Dict[str, Any]]:
     except (OSError, ValueError) as e:
         log.debug(f'{fn} is not available: {e}')
 
+    if data is not None and not isinstance(data, dict):
+        log.debug(f'{fn} does not contain JSON object')
+        return None
+
     return data
 
 
@@ -1334,14 +1338,18 @@ def _expand_input_sections(map_file: mapfile.MapFile, proj_desc: Optional[Dict[s
     # Remove symbols with zero size and symbols for which we don't have CU name
     symbols = {k: v for k, v in symbols.items() if v.st_size and v.cu_name}
 
-    # Get list of components with archive file, removing CONFIG_ONLY components
-    components = [comp for comp in proj_desc['build_component_info'].values() if comp['file']]
-
-    # Add component_path and relative, to build directory, archive path to components in posix form
-    build_dir_path = Path(proj_desc['build_dir']).as_posix()
-    for comp in components:
-        comp['component_path'] = Path(comp['dir']).as_posix()
-        comp['archive_relpath'] = Path(comp['file']).relative_to(build_dir_path).as_posix()
+    try:
+        # Get list of components with archive file, removing CONFIG_ONLY components
+        components = [comp for comp in proj_desc['build_component_info'].values() if comp['file']]
+
+        # Add component_path and relative, to build directory, archive path to components in posix form
+        build_dir_path = Path(proj_desc['build_dir']).as_posix()
+        for comp in components:
+            comp['component_path'] = Path(comp['dir']).as_posix()
+            comp['archive_relpath'] = Path(comp['file']).relative_to(build_dir_path).as_posix()
+    except (AttributeError, KeyError, TypeError, ValueError) as e:
+        log.warn(f'ignoring DWARF information because project description information is not valid: {e!r}')
+        return
 
     # Sort components in descending order based on their paths, from longest to shortest.
     components = [comp for comp in sorted(components, key=lambda c: len(c['component_path']), reverse=True)]
@@ -1625,6 +1633,9 @@ def get_proj_desc(map_fn: str) -> Optional[Dict[str, Any]]:
     # In multi-executable projects, project_description.json may reference a
     # different executable than the map file passed to esp-idf-size.
     app_elf = proj_desc.get('app_elf', '')
+    if not isinstance(app_elf, str) or not isinstance(proj_desc.get('target', ''), str):
+        log.debug(f'{proj_desc_fn} is not valid')
+        return None
     map_stem = os.path.splitext(os.path.basename(map_fn))[0]
     elf_stem = os.path.splitext(os.path.basename(app_elf))[0]
     if map_stem != elf_stem:
-- 
2.43.0


From d74034c199d201ade4050dc885cb97dc5a01c3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:43 +0000
Subject: [PATCH 33/64] fix: archive dependencies with --unify

The cross-reference table contains full archive paths, which were looked up among
the abbreviated archive names, so the report was always empty.
---
 esp_idf_size/deps.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/esp_idf_size/deps.py b/esp_idf_size/deps.py
index 573e713..9d0fe98 100644
--- a/esp_idf_size/deps.py
+++ b/esp_idf_size/deps.py
@@ -132,6 +132,10 @@ def get_archives_dependencies(
 
     archives = memorymap.get_archives_summary(memmap, args)
 
+    if args['unify']:
+        # Archives in the unified memory map are identified by their abbreviated names.
+        crt = {sym: [(os.path.basename(arch), obj) for arch, obj in refs] for sym, refs in crt.items()}
+
     crt = _filter_crt(crt, archives, elf)
 
     if args['dep_reverse']:
-- 
2.43.0


From 75cb14e816cb366fef08edad0b44f0414dce170d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:43 +0000
Subject: [PATCH 34/64] fix: sort column range in error message

---
 esp_idf_size/format_table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esp_idf_size/format_table.py b/esp_idf_size/format_table.py
index 654d81a..580a71f 100644
--- a/esp_idf_size/format_table.py
+++ b/esp_idf_size/format_table.py
@@ -249,7 +249,7 @@ def _get_table_sorted(summary: Dict[str, Any], table: Table, args: Dict[str, Any
     except IndexError:
         log.die(
             f'Column index {args["sort"]} is out of range.',
-            f'Please use 1..{len(columns) - 1} or {-len(columns)}..-1 range.',
+            f'Please use 1..{len(columns)} or {-len(columns)}..-1 range.',
         )
 
     # Return only simple list of rows, where each row is a list
-- 
2.43.0


From 04785ab09f0ed0424fb72f54791b9c75348ca5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:43 +0000
Subject: [PATCH 35/64] fix: names with square brackets in JSON reports

Text in square brackets is interpreted as rich markup, so parts of names could
disappear or printing could fail.
---
 esp_idf_size/format_json.py | 10 +++++-----
 esp_idf_size/format_raw.py  |  4 ++--
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/esp_idf_size/format_json.py b/esp_idf_size/format_json.py
index 5000914..8fa8003 100644
--- a/esp_idf_size/format_json.py
+++ b/esp_idf_size/format_json.py
@@ -32,32 +32,32 @@ def show_summary(memmap: Dict[str, Any], args: Dict[str, Any]) -> None:
             part = mem_type['parts'].setdefault(name, {'size': 0})
             part['size'] += section_info['size']
 
-    log.print(json.dumps(summary, indent=4))
+    log.print(json.dumps(summary, indent=4), markup=False)
 
 
 def show_object_files(memmap: Dict[str, Any], args: Dict[str, Any]) -> None:
     summary = memorymap.get_object_files_summary(memmap, args)
     summary = memorymap.get_summary_sorted(summary, args)
-    log.print(json.dumps(summary, indent=4))
+    log.print(json.dumps(summary, indent=4), markup=False)
 
 
 def show_archives(memmap: Dict[str, Any], args: Dict[str, Any]) -> None:
     summary = memorymap.get_archives_summary(memmap, args)
     summary = memorymap.get_summary_sorted(summary, args)
-    log.print(json.dumps(summary, indent=4))
+    log.print(json.dumps(summary, indent=4), markup=False)
 
 
 def show_symbols(memmap: Dict[str, Any], args: Dict[str, Any]) -> None:
     summary = memorymap.get_symbols_summary(memmap, args)
     summary = memorymap.get_summary_sorted(summary, args)
-    log.print(json.dumps(summary, indent=4))
+    log.print(json.dumps(summary, indent=4), markup=False)
 
 
 def show_archives_dependencies(
     memmap: Dict[str, Any], map_file: mapfile.MapFile, elf: Optional[Elf], args: Dict[str, Any]
 ) -> None:
     arch_deps = deps.get_archives_dependencies(map_file, memmap, elf, args)
-    log.print(json.dumps(arch_deps, indent=4))
+    log.print(json.dumps(arch_deps, indent=4), markup=False)
 
 
 def show(memmap: Dict[str, Any], map_file: mapfile.MapFile, elf: Optional[Elf], args: Dict[str, Any]) -> None:
diff --git a/esp_idf_size/format_raw.py b/esp_idf_size/format_raw.py
index b77f5f7..4df9f6e 100644
--- a/esp_idf_size/format_raw.py
+++ b/esp_idf_size/format_raw.py
@@ -11,6 +11,6 @@ from .elf import Elf
 def show(memmap: Dict[str, Any], map_file: mapfile.MapFile, elf: Optional[Elf], args: Dict[str, Any]) -> None:
     if args['archive_dependencies']:
         arch_deps = deps.get_archives_dependencies(map_file, memmap, elf, args)
-        log.print(json.dumps(arch_deps, indent=4))
+        log.print(json.dumps(arch_deps, indent=4), markup=False)
     else:
-        log.print(json.dumps(memmap, indent=4))
+        log.print(json.dumps(memmap, indent=4), markup=False)
-- 
2.43.0


From df5445809f5c0cd35562f538ffef0a45ae2a800b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:43 +0000
Subject: [PATCH 36/64] fix: names with square brackets in table and CSV
 reports

Text in square brackets is interpreted as rich markup, so parts of names could
disappear or printing could fail.
---
 esp_idf_size/format_table.py | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/esp_idf_size/format_table.py b/esp_idf_size/format_table.py
index 580a71f..26c78ee 100644
--- a/esp_idf_size/format_table.py
+++ b/esp_idf_size/format_table.py
@@ -15,8 +15,8 @@ from .elf import Elf
 def show_diff_info(memmap: Dict[str, Any], args: Dict[str, Any]) -> None:
     if not args['diff']:
         return
-    log.eprint('[bold]CURRENT[/]   project file: "{}"'.format(memmap['project_path']))
-    log.eprint('[bold]REFERENCE[/] project file: "{}"'.format(memmap['project_path_diff']))
+    log.eprint('[bold]CURRENT[/]   project file: "{}"'.format(escape(memmap['project_path'])))
+    log.eprint('[bold]REFERENCE[/] project file: "{}"'.format(escape(memmap['project_path_diff'])))
     log.eprint(
         'Difference is counted as [bold]CURRENT - REFERENCE[/], i.e. a positive '
         r'number means that [bold]CURRENT[/] is larger.'
@@ -166,7 +166,7 @@ def get_summary_table(memmap: Dict[str, Any], args: Dict[str, Any]) -> Table:
 
             if mem_type_info['size']:
                 table.add_row(
-                    f'   {name}',
+                    f'   {escape(name)}',
                     color_diff(section_info['used'], section_info['used_diff'], args['diff']),
                     color_diff(round(section_info['pct'], 2), round(section_info['pct_diff'], 2), args['diff']),
                     '',
@@ -175,7 +175,7 @@ def get_summary_table(memmap: Dict[str, Any], args: Dict[str, Any]) -> Table:
                 )
             else:
                 table.add_row(
-                    f'   {name}',
+                    f'   {escape(name)}',
                     color_diff(section_info['used'], section_info['used_diff'], args['diff']),
                     '',
                     '',
@@ -227,11 +227,11 @@ def _get_table_sorted(summary: Dict[str, Any], table: Table, args: Dict[str, Any
         args['sort'] = int(args['sort'])
     except ValueError:
         for idx, column in enumerate(table.columns):
-            if column.header == args['sort']:
+            if str(Text.from_markup(column.header)) == args['sort']:
                 args['sort'] = idx
                 break
         else:
-            log.die(f'Column "{args["sort"]}" not found')
+            log.die(f'Column "{escape(args["sort"])}" not found')
 
     if args['sort'] == 0:
         log.die('Sorting based on column 0, which contains row description, is not supported.')
@@ -255,7 +255,7 @@ def _get_table_sorted(summary: Dict[str, Any], table: Table, args: Dict[str, Any
     # Return only simple list of rows, where each row is a list
     # of columns to be printed in table.
     for row in rows:
-        cols = [row.name] + [col.info for col in row.columns]
+        cols = [escape(row.name)] + [col.info for col in row.columns]
         rows_final.append(cols)
 
     return rows_final
@@ -274,7 +274,7 @@ def get_object_files_table(memmap: Dict[str, Any], args: Dict[str, Any]) -> Tabl
             table.add_column(mem_type_name, overflow='fold', justify='right', style='dark_orange')
             for section_name, section_info in mem_type_info['sections'].items():
                 name = section_info['abbrev_name'] if args['abbrev'] else section_name
-                table.add_column(name, overflow='fold', justify='right', style='bright_blue')
+                table.add_column(escape(name), overflow='fold', justify='right', style='bright_blue')
         break
 
     sizes_sorted = _get_table_sorted(object_files_summary, table, args)
@@ -297,7 +297,7 @@ def get_archives_table(memmap: Dict[str, Any], args: Dict[str, Any]) -> Table:
             table.add_column(mem_type_name, overflow='fold', justify='right', style='dark_orange')
             for section_name, section_info in mem_type_info['sections'].items():
                 name = section_info['abbrev_name'] if args['abbrev'] else section_name
-                table.add_column(name, overflow='fold', justify='right', style='bright_blue')
+                table.add_column(escape(name), overflow='fold', justify='right', style='bright_blue')
         break
 
     sizes_sorted = _get_table_sorted(archives_summary, table, args)
@@ -311,7 +311,8 @@ def get_symbols_table(memmap: Dict[str, Any], args: Dict[str, Any]) -> Table:
     symbols_summary = memorymap.get_symbols_summary(memmap, args)
     symbols_summary = memorymap.get_summary_filtered(symbols_summary, args)
 
-    table = Table(title=f'Symbols within archive: {args["archive_details"]} (Not all symbols may be reported)')
+    archive = escape(args['archive_details'])
+    table = Table(title=f'Symbols within archive: {archive} (Not all symbols may be reported)')
     table.add_column('Symbol', overflow='fold')
     table.add_column('Total Size', overflow='fold', justify='right')
 
@@ -320,7 +321,7 @@ def get_symbols_table(memmap: Dict[str, Any], args: Dict[str, Any]) -> Table:
             table.add_column(mem_type_name, overflow='fold', justify='right', style='dark_orange')
             for section_name, section_info in mem_type_info['sections'].items():
                 name = section_info['abbrev_name'] if args['abbrev'] else section_name
-                table.add_column(name, overflow='fold', justify='right', style='bright_blue')
+                table.add_column(escape(name), overflow='fold', justify='right', style='bright_blue')
         break
 
     sizes_sorted = _get_table_sorted(symbols_summary, table, args)
@@ -352,17 +353,17 @@ def get_archives_dependencies_table(
         table.add_column('Symbols', overflow='fold')
 
     for arch_name, arch_info in arch_deps.items():
-        arch_name_abbrev = arch_info['abbrev_name'] if args['abbrev'] else arch_name
+        arch_name_abbrev = escape(arch_info['abbrev_name'] if args['abbrev'] else arch_name)
         for cnt, arch_dep in enumerate(arch_info['archives'].items(), start=1):
             arch_dep_name, arch_dep_info = arch_dep
-            arch_dep_name_abbrev = arch_dep_info['abbrev_name'] if args['abbrev'] else arch_dep_name
+            arch_dep_name_abbrev = escape(arch_dep_info['abbrev_name'] if args['abbrev'] else arch_dep_name)
             if cnt == 1:
                 row = [arch_name_abbrev, str(arch_info['size']), arch_dep_name_abbrev, str(arch_dep_info['size'])]
             else:
                 row = ['', '', arch_dep_name_abbrev, str(arch_dep_info['size'])]
 
             if args['dep_symbols']:
-                row += ['\n'.join(arch_dep_info['symbols'])]
+                row += [escape('\n'.join(arch_dep_info['symbols']))]
             if cnt == len(arch_info['archives']):
                 table.add_row(*row, end_section=True)
             else:
-- 
2.43.0


From 9ef3ec7d2a6d31782898c441d4f95e5680c04e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:43 +0000
Subject: [PATCH 37/64] fix: names with quotes in CSV reports

---
 esp_idf_size/format_csv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esp_idf_size/format_csv.py b/esp_idf_size/format_csv.py
index c9e1cbf..522a8d0 100644
--- a/esp_idf_size/format_csv.py
+++ b/esp_idf_size/format_csv.py
@@ -19,7 +19,7 @@ def show_table(table: Table) -> None:
     for x, col in enumerate(table.columns):
         matrix[0][x] = f'"{col.header}"'
         for y, cell in enumerate(col.cells, start=1):
-            cell = cell.strip()
+            cell = cell.strip().replace('"', '""')
             matrix[y][x] = f'"{cell}"'
 
     for row in matrix:
-- 
2.43.0


From 785abe549e9c085cd6b4f0de350b429d0217f703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:43 +0000
Subject: [PATCH 38/64] fix: names with square brackets in tree reports

Text in square brackets is interpreted as rich markup, so parts of names could
disappear or printing could fail.
---
 esp_idf_size/format_tree.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/esp_idf_size/format_tree.py b/esp_idf_size/format_tree.py
index 62de334..56879d3 100644
--- a/esp_idf_size/format_tree.py
+++ b/esp_idf_size/format_tree.py
@@ -3,6 +3,7 @@
 
 from typing import Any, Dict, Optional
 
+from rich.markup import escape
 from rich.tree import Tree
 
 from . import deps, log, mapfile, memorymap
@@ -25,22 +26,22 @@ def show_memmap(memmap: Dict[str, Any], args: Dict[str, Any]) -> None:
             mem_type_tree = tree.add(f'{mem_type_name} {used}', style='dark_orange', guide_style='dark_orange')
 
         for section_name, section_info in mem_type_info['sections'].items():
-            name = section_info['abbrev_name'] if args['abbrev'] else section_name
+            name = escape(section_info['abbrev_name'] if args['abbrev'] else section_name)
             size = color_diff(section_info['size'], section_info['size_diff'], args['diff'])
             section_tree = mem_type_tree.add(f'{name} {size}', style='bright_blue', guide_style='bright_blue')
 
             for archive_name, archive_info in section_info['archives'].items():
-                name = archive_info['abbrev_name'] if args['abbrev'] else archive_name
+                name = escape(archive_info['abbrev_name'] if args['abbrev'] else archive_name)
                 size = color_diff(archive_info['size'], archive_info['size_diff'], args['diff'])
                 archive_tree = section_tree.add(f'{name} {size}', style='green', guide_style='green')
 
                 for object_file_name, object_file_info in archive_info['object_files'].items():
-                    name = object_file_info['abbrev_name'] if args['abbrev'] else object_file_name
+                    name = escape(object_file_info['abbrev_name'] if args['abbrev'] else object_file_name)
                     size = color_diff(object_file_info['size'], object_file_info['size_diff'], args['diff'])
                     symbol_tree = archive_tree.add(f'{name} {size}', style='default', guide_style='default')
 
                     for symbol_name, symbol_info in object_file_info['symbols'].items():
-                        name = symbol_name
+                        name = escape(symbol_name)
                         size = color_diff(symbol_info['size'], symbol_info['size_diff'], args['diff'])
                         symbol_tree.add(f'{name} {size}', style='default', guide_style='default')
 
@@ -59,12 +60,12 @@ def show_archives_dependencies(
     tree = Tree(tree_name)
 
     for arch_name, arch_info in arch_deps.items():
-        arch_name_abbrev = arch_info['abbrev_name'] if args['abbrev'] else arch_name
+        arch_name_abbrev = escape(arch_info['abbrev_name'] if args['abbrev'] else arch_name)
         arch_size = arch_info['size']
         arch_tree = tree.add(f'{arch_name_abbrev} {arch_size}', style='dark_orange', guide_style='dark_orange')
 
         for arch_dep_name, arch_dep_info in arch_info['archives'].items():
-            arch_dep_name_abbrev = arch_dep_info['abbrev_name'] if args['abbrev'] else arch_dep_name
+            arch_dep_name_abbrev = escape(arch_dep_info['abbrev_name'] if args['abbrev'] else arch_dep_name)
             arch_dep_size = arch_dep_info['size']
             dep_tree = arch_tree.add(
                 f'{arch_dep_name_abbrev} {arch_dep_size}', style='bright_blue', guide_style='bright_blue'
@@ -72,7 +73,7 @@ def show_archives_dependencies(
 
             if args['dep_symbols']:
                 for sym in arch_dep_info['symbols']:
-                    dep_tree.add(sym, style='default', guide_style='default')
+                    dep_tree.add(escape(sym), style='default', guide_style='default')
 
     log.print(tree)
 
-- 
2.43.0


From 06c152f18e64d2349b6625c6654420f805da971d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:43 +0000
Subject: [PATCH 39/64] fix: names with square brackets, quotes and backslashes
 in DOT reports

Text in square brackets is interpreted as rich markup and quotes or a trailing
backslash ended the DOT string.
---
 esp_idf_size/format_dot.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/esp_idf_size/format_dot.py b/esp_idf_size/format_dot.py
index 4beb792..60f425f 100644
--- a/esp_idf_size/format_dot.py
+++ b/esp_idf_size/format_dot.py
@@ -18,13 +18,18 @@ def show_archives_dependencies(
 
     lines += ['strict digraph {']
 
+    def quote(s: str) -> str:
+        s = s.replace('\\', '\\\\').replace('"', '\\"')
+        return f'"{s}"'
+
     def add_node(name: str, name_abbrev: str, size: int) -> None:
         if name in seen:
             return
         shape = 'box' if name in arch_deps else 'ellipse'
         color = 'darkorange3' if name in arch_deps else 'azure'
         # Archive not previously seen, so add a node for it.
-        lines.append(rf'"{name}" \[shape={shape}, label="{name_abbrev} ({size})", style=filled, fillcolor="{color}"]')
+        label = quote(f'{name_abbrev} ({size})')
+        lines.append(f'{quote(name)} [shape={shape}, label={label}, style=filled, fillcolor="{color}"]')
         seen.append(name)
 
     for arch_name, arch_info in arch_deps.items():
@@ -36,17 +41,17 @@ def show_archives_dependencies(
             add_node(arch_dep_name, arch_dep_name_abbrev, arch_dep_info['size'])
 
             if args['dep_reverse']:
-                line = f'"{arch_dep_name}" -> "{arch_name}"'
+                line = f'{quote(arch_dep_name)} -> {quote(arch_name)}'
             else:
-                line = f'"{arch_name}" -> "{arch_dep_name}"'
+                line = f'{quote(arch_name)} -> {quote(arch_dep_name)}'
             if args['dep_symbols']:
-                syms_str = '\n'.join(arch_dep_info['symbols'])
-                line += rf' \[label="{syms_str}"]'
+                syms_str = quote('\n'.join(arch_dep_info['symbols']))
+                line += f' [label={syms_str}]'
             lines += [line]
 
     lines += ['}']
 
-    log.print('\n'.join(lines))
+    log.print('\n'.join(lines), markup=False)
 
 
 def show(memmap: Dict[str, Any], map_file: mapfile.MapFile, elf: Optional[Elf], args: Dict[str, Any]) -> None:
-- 
2.43.0


From 4bc43d8a211e30453564ae400b472c3f71ffef87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:04:28 +0000
Subject: [PATCH 40/64] fix: unpaired square brackets in CSV reports

A row was interpreted as one rich markup text, so a square bracket in one cell could
be paired with a bracket in another one.
---
 esp_idf_size/format_csv.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/esp_idf_size/format_csv.py b/esp_idf_size/format_csv.py
index 522a8d0..027ef7d 100644
--- a/esp_idf_size/format_csv.py
+++ b/esp_idf_size/format_csv.py
@@ -4,6 +4,7 @@
 from typing import Any, Dict, Optional
 
 from rich.table import Table
+from rich.text import Text
 
 from . import format_table, log, mapfile
 from .elf import Elf
@@ -23,7 +24,8 @@ def show_table(table: Table) -> None:
             matrix[y][x] = f'"{cell}"'
 
     for row in matrix:
-        log.print(','.join(row))
+        # Square brackets in one cell must not be combined with those in other cells into rich markup.
+        log.print(Text(',').join(Text.from_markup(cell) for cell in row))
 
 
 def show_summary(memmap: Dict[str, Any], args: Dict[str, Any]) -> None:
-- 
2.43.0


From 56717e243d57837ceda9534b03703c92a6b9371e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:04:28 +0000
Subject: [PATCH 41/64] fix: square brackets in messages

Paths and names in messages were interpreted as rich markup. Parts of them could
disappear, or e.g. a directory name with [/foo] ended with an unhandled exception.
---
 esp_idf_size/format_table.py |  4 ++--
 esp_idf_size/log.py          | 14 ++++++++++----
 esp_idf_size/memorymap.py    |  2 +-
 3 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/esp_idf_size/format_table.py b/esp_idf_size/format_table.py
index 26c78ee..cbbef62 100644
--- a/esp_idf_size/format_table.py
+++ b/esp_idf_size/format_table.py
@@ -119,7 +119,7 @@ def get_summary_table(memmap: Dict[str, Any], args: Dict[str, Any]) -> Table:
                 args['sort'] = idx
                 break
         else:
-            log.die(f'Column "{escape(args["sort"])}" not found')
+            log.die(f'Column "{args["sort"]}" not found')
 
     if args['sort'] == 0:
         log.die('Sorting based on column 0, which contains row description, is not supported.')
@@ -231,7 +231,7 @@ def _get_table_sorted(summary: Dict[str, Any], table: Table, args: Dict[str, Any
                 args['sort'] = idx
                 break
         else:
-            log.die(f'Column "{escape(args["sort"])}" not found')
+            log.die(f'Column "{args["sort"]}" not found')
 
     if args['sort'] == 0:
         log.die('Sorting based on column 0, which contains row description, is not supported.')
diff --git a/esp_idf_size/log.py b/esp_idf_size/log.py
index 378872d..38eef00 100644
--- a/esp_idf_size/log.py
+++ b/esp_idf_size/log.py
@@ -9,22 +9,28 @@ import sys
 from typing import Any, Optional
 
 from esp_pylib.logger import log
+from rich.markup import escape
+
+
+def _escape(args: Any) -> Any:
+    # Messages contain paths and names, which must not be interpreted as rich markup.
+    return [escape(arg) if isinstance(arg, str) else arg for arg in args]
 
 
 def err(*args: Any, suggestion: Optional[str] = None) -> None:
-    log.err(*args, suggestion=suggestion)
+    log.err(*_escape(args), suggestion=suggestion)
 
 
 def warn(*args: Any, suggestion: Optional[str] = None) -> None:
-    log.warn(*args, suggestion=suggestion)
+    log.warn(*_escape(args), suggestion=suggestion)
 
 
 def die(*args: Any, exit_code: int = 1, suggestion: Optional[str] = None) -> None:
-    log.die(*args, exit_code=exit_code, suggestion=suggestion)
+    log.die(*_escape(args), exit_code=exit_code, suggestion=suggestion)
 
 
 def debug(*args: Any) -> None:
-    log.debug(*args)
+    log.debug(*_escape(args))
 
 
 def eprint(*args: Any, **kwargs: Any) -> None:
diff --git a/esp_idf_size/memorymap.py b/esp_idf_size/memorymap.py
index 7e5c572..7ba971f 100644
--- a/esp_idf_size/memorymap.py
+++ b/esp_idf_size/memorymap.py
@@ -1592,7 +1592,7 @@ def _get_mem_type_map(
                 # is not big enough and the linker fails. In this case try to map the output section into the
                 # first memory region/type preceding the output section.
                 log.warn(
-                    f'[red]{mem_type_alias} overflow detected![/red]: '
+                    f'{mem_type_alias} overflow detected!: '
                     f'output section or its part {map_section["name"]}(addr: {map_section["address"]}, '
                     f'size: {map_section["size"]}) does not fit into any memory region and '
                     f'will be assigned to the preceding {prev_mem_reg["name"]} memory region'
-- 
2.43.0


From 6c35a495adc029b3b112de4ca5acfdb2768f9091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:58 +0000
Subject: [PATCH 42/64] fix: account explicit data given by an expression

LD prints e.g. "0x40370017 0x4 LONG 0x40370000 _start" for LONG(_start) and the data
were not accounted.
---
 esp_idf_size/mapfile.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/esp_idf_size/mapfile.py b/esp_idf_size/mapfile.py
index 2db8137..7862f76 100644
--- a/esp_idf_size/mapfile.py
+++ b/esp_idf_size/mapfile.py
@@ -359,7 +359,8 @@ class MapFile:
                         # We account them the same as for *fill* into the previous input
                         # section.
                         split = line.split()
-                        if len(split) == 4 and split[2] in self.EXPLICIT_BYTES:
+                        # The value is followed by the expression, unless it's a plain number.
+                        if len(split) >= 4 and split[2] in self.EXPLICIT_BYTES:
                             input_section['fill'] += self._get_int(split[1], line, ln)
 
             elif line.startswith('.'):
-- 
2.43.0


From 604a26e45786ca98aef0ea66289bf6958194ec0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:58 +0000
Subject: [PATCH 43/64] fix: accept fill pattern in the map file

LD prints the pattern for output sections with a fill expression, e.g.
"*fill* 0x40370024 0x4 9090".
---
 esp_idf_size/mapfile.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/esp_idf_size/mapfile.py b/esp_idf_size/mapfile.py
index 7862f76..c7770da 100644
--- a/esp_idf_size/mapfile.py
+++ b/esp_idf_size/mapfile.py
@@ -338,7 +338,8 @@ class MapFile:
 
                     elif line.startswith('*fill*'):
                         split = line.split()
-                        if len(split) != 3:
+                        # The size is followed by the fill pattern, unless it's zero.
+                        if len(split) not in (3, 4):
                             raise MapFileException(
                                 f'unexpected "*fill*" line "{line}" at line {ln + 1} '
                                 f'in "Linker script and memory map" section in "{self.fn}" map file'
-- 
2.43.0


From 3cd251bb02f9031165fe7e258e4e9a3bed3eae71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:58 +0000
Subject: [PATCH 44/64] fix: accept load address of an output section in the
 map file

LD prints it for output sections with a load address different from the virtual one.
Such section was rejected or, with a long name, silently disregarded.
---
 esp_idf_size/mapfile.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/esp_idf_size/mapfile.py b/esp_idf_size/mapfile.py
index c7770da..028e709 100644
--- a/esp_idf_size/mapfile.py
+++ b/esp_idf_size/mapfile.py
@@ -283,7 +283,7 @@ class MapFile:
                     output_section['size'] = 0
 
                     split = line.split()
-                    if len(split) == 2:
+                    if len(split) == 2 or split[2:4] == ['load', 'address']:
                         try:
                             address = int(split[0], 0)
                             size = int(split[1], 0)
@@ -390,7 +390,7 @@ class MapFile:
                 split = line.split()
                 if len(split) == 1:
                     output_section['name'] = split[0]
-                elif len(split) == 3:
+                elif len(split) == 3 or split[3:5] == ['load', 'address']:
                     output_section['name'] = split[0]
                     output_section['address'] = self._get_int(split[1], line, ln)
                     output_section['size'] = self._get_int(split[2], line, ln)
-- 
2.43.0


From f289ab16c6bca08126589963e2b53bd4c5a966af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:33 +0000
Subject: [PATCH 45/64] fix: do not guess sections by name when the ELF file
 has no allocated sections

---
 esp_idf_size/memorymap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/esp_idf_size/memorymap.py b/esp_idf_size/memorymap.py
index 7ba971f..486ee54 100644
--- a/esp_idf_size/memorymap.py
+++ b/esp_idf_size/memorymap.py
@@ -958,7 +958,7 @@ def _filter_map_sections(
             # memory region.
             continue
 
-        if elf_sections:
+        if elf_sections is not None:
             if section['name'] not in elf_sections:
                 # Section does not occupy memory during process execution, no SHF_ALLOC flag.
                 continue
@@ -1231,7 +1231,7 @@ def _get_elf_sections_headers(elf: Optional[Elf]) -> Optional[Dict[str, Elf_Shdr
 
 def _get_image_size(elf_sections: Optional[Dict[str, Elf_Shdr]], sections: List[Dict[str, Any]]) -> int:
     size = 0
-    if not elf_sections:
+    if elf_sections is None:
         # ELF information not available
         for sec in sections:
             # NOLOAD(SHT_NOBITS) sections are not part of the image
-- 
2.43.0


From 9d5083da3aa986cdee03a2317d443789183ce225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:20 +0000
Subject: [PATCH 46/64] fix: count memory of partly overlapping memory regions
 once

---
 esp_idf_size/memorymap.py | 54 +++++++++++++++------------------------
 1 file changed, 20 insertions(+), 34 deletions(-)

diff --git a/esp_idf_size/memorymap.py b/esp_idf_size/memorymap.py
index 486ee54..3fa2cd6 100644
--- a/esp_idf_size/memorymap.py
+++ b/esp_idf_size/memorymap.py
@@ -1482,9 +1482,9 @@ def _get_mem_type_map(
     memory_types: Dict[str, Any], memory_regions: List[Dict[str, Any]], map_sections: List[Dict[str, Any]]
 ) -> Dict[str, Any]:
     memory_map: Dict[str, Any] = {}
-    # Dictionary of memory types, where key is memory type alias and value is a list of memory regions, which
-    # were already assigned to this memory type.
-    memory_types_regions: Dict[str, Any] = {}
+    # Dictionary of memory types, where key is memory type alias and value is a list of (start, end) offsets
+    # within this memory type, which are covered by memory regions.
+    memory_types_ranges: Dict[str, Any] = {}
 
     # Create entry for each memory type found in the chip info yaml.
     for mem_type_name, mem_type_info in memory_types.items():
@@ -1496,40 +1496,26 @@ def _get_mem_type_map(
             'used_diff': 0,
             'sections': {},
         }
-        memory_types_regions[mem_type_alias] = []
+        memory_types_ranges[mem_type_alias] = []
 
-    # Calculate memory type sizes based on the memory regions found in linker map file
+    # Calculate memory type sizes based on the memory regions found in linker map file. Memory regions may
+    # overlap or be aliases for the same memory, which is accessible through the primary and secondary address
+    # of the memory type. This is for example case of DIRAM. Account such memory only once.
     for mem_reg in memory_regions:
         mem_type_info = mem_reg['type']
-        mem_type_alias = mem_type_info['name']
-        if not memory_types_regions[mem_type_alias]:
-            # This memory type does not yet have any memory region assigned
-            memory_map[mem_type_alias]['size'] = mem_reg['length']
-            memory_types_regions[mem_type_alias].append(mem_reg)
-        else:
-            # There are some memory regions assigned to this memory type. We need to check
-            # if the memory region, which is currently being added, isn't an alias for already
-            # added memory region. This is for example case of DIRAM.
-            mem_type_offset = 0
-            if mem_type_info['secondary_address']:
-                mem_type_offset = abs(mem_type_info['primary_address'] - mem_type_info['secondary_address'])
-            for mem_type_reg in memory_types_regions[mem_type_alias]:
-                mem_reg_offset = abs(mem_type_reg['origin'] - mem_reg['origin'])
-                if mem_reg_offset in (0, mem_type_offset) and mem_type_reg['length'] == mem_reg['length']:
-                    # The current memory region is the same as or has the same offset to the already added memory region as
-                    # offset in memory type(primary and secondary address offset). The length also matches, so this
-                    # memory region is mapped into the same memory as region that was already added to the
-                    # memory type. Skip it, so we don't account the size of the memory region twice into the total
-                    # memory type size.
-                    memory_types_regions[mem_type_alias].append(mem_reg)
-                    log.debug('found memory region alias', mem_reg, mem_type_reg)
-                    break
-            else:
-                # Another memory region, which needs to be added to the memory type. We have not found
-                # any alias for this one and it does not overlap with already added memory regions, so
-                # account its size into the total memory type size.
-                memory_map[mem_type_alias]['size'] += mem_reg['length']
-                memory_types_regions[mem_type_alias].append(mem_reg)
+        mem_reg_offset = mem_reg['origin'] - mem_type_info['primary_address']
+        if not 0 <= mem_reg_offset < mem_type_info['length'] and mem_type_info['secondary_address']:
+            mem_reg_offset = mem_reg['origin'] - mem_type_info['secondary_address']
+        memory_types_ranges[mem_type_info['name']].append((mem_reg_offset, mem_reg_offset + mem_reg['length']))
+
+    for mem_type_alias, ranges in memory_types_ranges.items():
+        covered_end = None
+        for start, end in sorted(ranges):
+            if covered_end is None or start > covered_end:
+                covered_end = start
+            if end > covered_end:
+                memory_map[mem_type_alias]['size'] += end - covered_end
+                covered_end = end
 
     # Add linker output sections into memory types.
     memory_regions_sorted = [r for r in sorted(memory_regions, key=lambda r: r['origin'] or 0)]
-- 
2.43.0


From 5f722a705e6fd5a0b4c69b5d33a51e93757cb00c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:26 +0000
Subject: [PATCH 47/64] fix: do not crash on deeply nested project JSON files

---
 esp_idf_size/memorymap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esp_idf_size/memorymap.py b/esp_idf_size/memorymap.py
index 3fa2cd6..31079eb 100644
--- a/esp_idf_size/memorymap.py
+++ b/esp_idf_size/memorymap.py
@@ -1089,7 +1089,7 @@ def _load_json_file(fn: str) -> Optional[Dict[str, Any]]:
     try:
         with open(fn) as f:
             data = json.load(f)
-    except (OSError, ValueError) as e:
+    except (OSError, ValueError, RecursionError) as e:
         log.debug(f'{fn} is not available: {e}')
 
     if data is not None and not isinstance(data, dict):
-- 
2.43.0


From a4d1db7d562baf2e725c98dba8364acecd7a6c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:12 +0000
Subject: [PATCH 48/64] fix: refuse numbers out of range in the map file

---
 esp_idf_size/mapfile.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/esp_idf_size/mapfile.py b/esp_idf_size/mapfile.py
index 028e709..4246a71 100644
--- a/esp_idf_size/mapfile.py
+++ b/esp_idf_size/mapfile.py
@@ -37,9 +37,12 @@ class MapFile:
 
     def _get_int(self, value: str, line: str, ln: int) -> int:
         try:
-            return int(value, 0)
+            number = int(value, 0)
         except ValueError:
+            number = -1
+        if not 0 <= number < 2**64:
             raise MapFileException(f'unexpected number "{value}" in "{line}" at line {ln + 1} in "{self.fn}" map file')
+        return number
 
     def _get_memory_regions(self) -> List[Dict[str, Any]]:
         regions: List[Dict[str, Any]] = []
@@ -285,12 +288,12 @@ class MapFile:
                     split = line.split()
                     if len(split) == 2 or split[2:4] == ['load', 'address']:
                         try:
-                            address = int(split[0], 0)
-                            size = int(split[1], 0)
+                            address = self._get_int(split[0], line, ln)
+                            size = self._get_int(split[1], line, ln)
                             # Output section has address and length on the second line.
                             output_section['address'] = address
                             output_section['size'] = size
-                        except ValueError:
+                        except MapFileException:
                             pass
 
                 elif line.startswith(('.', 'COMMON')):
-- 
2.43.0


From f9ea26d78d73873d4257b138823ae51e3ad97a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:54:02 +0000
Subject: [PATCH 49/64] fix: read no more than the ELF header, whose file may
 hold nothing else

---
 esp_idf_size/elf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esp_idf_size/elf.py b/esp_idf_size/elf.py
index b806cc6..dd0d279 100644
--- a/esp_idf_size/elf.py
+++ b/esp_idf_size/elf.py
@@ -1969,7 +1969,7 @@ class Elf:
         else:
             raise Elf_Exception(f'invalid ELF class {ei_class}')
 
-        data = self.read(0, struct.calcsize(ehdr_fmt))
+        data = self.read(0, struct.calcsize('<' + ehdr_fmt))
         hdr, _ = self.get_fmt(ehdr_fmt, data)
         self.ehdr = Elf_Ehdr(*hdr)  # type: ignore
 
-- 
2.43.0


From d6f7cfd80e356208212f573cd978240019be1e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:56 +0000
Subject: [PATCH 50/64] fix: use location of variables in DWARF 2 and 3

---
 esp_idf_size/elf.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/esp_idf_size/elf.py b/esp_idf_size/elf.py
index dd0d279..8c51534 100644
--- a/esp_idf_size/elf.py
+++ b/esp_idf_size/elf.py
@@ -1782,7 +1782,10 @@ class Dwarf_CU:
             assert isinstance(value, bytes)
             evaluated = value.decode()
 
-        elif form == DW_FORM_exprloc:
+        elif form == DW_FORM_exprloc or (
+            attr['attr'] == DW_AT_location and form in (DW_FORM_block1, DW_FORM_block2, DW_FORM_block4, DW_FORM_block)
+        ):
+            # The exprloc class was added in Dwarf4, location is stored as block in older versions.
             # Dwarf5: 2.5 DWARF Expressions
             # This handles only DW_OP_addr, which is probably the only one we need.
             # Fully implement DWARF expressions is not possible, because some
-- 
2.43.0


From 5c54480596823f60b4347f020d08e88f13fe60d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:23 +0000
Subject: [PATCH 51/64] fix: do not return DIEs filtered by a previous get_DIEs
 call

---
 esp_idf_size/elf.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/esp_idf_size/elf.py b/esp_idf_size/elf.py
index 8c51534..da9bee7 100644
--- a/esp_idf_size/elf.py
+++ b/esp_idf_size/elf.py
@@ -1851,10 +1851,14 @@ class Dwarf_CU:
 
     def get_DIEs(self, filter_tags: Optional[List[int]] = None) -> Dict[int, Any]:
         if self._die:
-            return self._die
+            if filter_tags is None:
+                return self._die
+            return {offset: die for offset, die in self._die.items() if die['tag'] in filter_tags}
 
         dies: Dict[int, Any] = {}
-        self._die = dies
+        if filter_tags is None:
+            # Keep only complete DIEs, because they may be requested again with different filter_tags.
+            self._die = dies
 
         def get_dwarf_attr(abbrev_attr: Dwarf_Abbrev_Attr, data: bytes, offset: int) -> Dict[str, Any]:
             attr: Dict[str, Any] = {
-- 
2.43.0


From ac2cb909a69f82edc7892e0ec693f0e63f4db220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:52 +0000
Subject: [PATCH 52/64] fix: use address size for DW_FORM_ref_addr in DWARF 2

---
 esp_idf_size/elf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/esp_idf_size/elf.py b/esp_idf_size/elf.py
index da9bee7..60f6829 100644
--- a/esp_idf_size/elf.py
+++ b/esp_idf_size/elf.py
@@ -1728,7 +1728,8 @@ class Dwarf_CU:
             value, offset = self._elf.get_uleb128(data, offset)
             value += self.offset
         elif form == DW_FORM_ref_addr:
-            value, offset = self.get_offset(data, offset)
+            # The size of an address in Dwarf2, the size of an offset since Dwarf3.
+            value, offset = (self.get_address if self.version <= 2 else self.get_offset)(data, offset)
         elif form == DW_FORM_ref_sig8:
             value, offset = self._elf.get_uint64(data, offset)
         elif form == DW_FORM_ref_sup4:
-- 
2.43.0


From 490c734a219e3d57696332dea4be38584bb6b7ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:47 +0000
Subject: [PATCH 53/64] fix: preserve backslashes in front of square brackets
 in names

---
 esp_idf_size/format_table.py | 25 ++++++++++++-------------
 esp_idf_size/format_tree.py  | 15 +++++++--------
 esp_idf_size/log.py          | 21 ++++++++++++++++++---
 3 files changed, 37 insertions(+), 24 deletions(-)

diff --git a/esp_idf_size/format_table.py b/esp_idf_size/format_table.py
index cbbef62..425ecf4 100644
--- a/esp_idf_size/format_table.py
+++ b/esp_idf_size/format_table.py
@@ -4,7 +4,6 @@
 from collections import namedtuple
 from typing import Any, Dict, List, Optional, Union
 
-from rich.markup import escape
 from rich.table import Table
 from rich.text import Text
 
@@ -15,8 +14,8 @@ from .elf import Elf
 def show_diff_info(memmap: Dict[str, Any], args: Dict[str, Any]) -> None:
     if not args['diff']:
         return
-    log.eprint('[bold]CURRENT[/]   project file: "{}"'.format(escape(memmap['project_path'])))
-    log.eprint('[bold]REFERENCE[/] project file: "{}"'.format(escape(memmap['project_path_diff'])))
+    log.eprint('[bold]CURRENT[/]   project file: "{}"'.format(log.escape(memmap['project_path'])))
+    log.eprint('[bold]REFERENCE[/] project file: "{}"'.format(log.escape(memmap['project_path_diff'])))
     log.eprint(
         'Difference is counted as [bold]CURRENT - REFERENCE[/], i.e. a positive '
         r'number means that [bold]CURRENT[/] is larger.'
@@ -166,7 +165,7 @@ def get_summary_table(memmap: Dict[str, Any], args: Dict[str, Any]) -> Table:
 
             if mem_type_info['size']:
                 table.add_row(
-                    f'   {escape(name)}',
+                    f'   {log.escape(name)}',
                     color_diff(section_info['used'], section_info['used_diff'], args['diff']),
                     color_diff(round(section_info['pct'], 2), round(section_info['pct_diff'], 2), args['diff']),
                     '',
@@ -175,7 +174,7 @@ def get_summary_table(memmap: Dict[str, Any], args: Dict[str, Any]) -> Table:
                 )
             else:
                 table.add_row(
-                    f'   {escape(name)}',
+                    f'   {log.escape(name)}',
                     color_diff(section_info['used'], section_info['used_diff'], args['diff']),
                     '',
                     '',
@@ -255,7 +254,7 @@ def _get_table_sorted(summary: Dict[str, Any], table: Table, args: Dict[str, Any
     # Return only simple list of rows, where each row is a list
     # of columns to be printed in table.
     for row in rows:
-        cols = [escape(row.name)] + [col.info for col in row.columns]
+        cols = [log.escape(row.name)] + [col.info for col in row.columns]
         rows_final.append(cols)
 
     return rows_final
@@ -274,7 +273,7 @@ def get_object_files_table(memmap: Dict[str, Any], args: Dict[str, Any]) -> Tabl
             table.add_column(mem_type_name, overflow='fold', justify='right', style='dark_orange')
             for section_name, section_info in mem_type_info['sections'].items():
                 name = section_info['abbrev_name'] if args['abbrev'] else section_name
-                table.add_column(escape(name), overflow='fold', justify='right', style='bright_blue')
+                table.add_column(log.escape(name), overflow='fold', justify='right', style='bright_blue')
         break
 
     sizes_sorted = _get_table_sorted(object_files_summary, table, args)
@@ -297,7 +296,7 @@ def get_archives_table(memmap: Dict[str, Any], args: Dict[str, Any]) -> Table:
             table.add_column(mem_type_name, overflow='fold', justify='right', style='dark_orange')
             for section_name, section_info in mem_type_info['sections'].items():
                 name = section_info['abbrev_name'] if args['abbrev'] else section_name
-                table.add_column(escape(name), overflow='fold', justify='right', style='bright_blue')
+                table.add_column(log.escape(name), overflow='fold', justify='right', style='bright_blue')
         break
 
     sizes_sorted = _get_table_sorted(archives_summary, table, args)
@@ -311,7 +310,7 @@ def get_symbols_table(memmap: Dict[str, Any], args: Dict[str, Any]) -> Table:
     symbols_summary = memorymap.get_symbols_summary(memmap, args)
     symbols_summary = memorymap.get_summary_filtered(symbols_summary, args)
 
-    archive = escape(args['archive_details'])
+    archive = log.escape(args['archive_details'])
     table = Table(title=f'Symbols within archive: {archive} (Not all symbols may be reported)')
     table.add_column('Symbol', overflow='fold')
     table.add_column('Total Size', overflow='fold', justify='right')
@@ -321,7 +320,7 @@ def get_symbols_table(memmap: Dict[str, Any], args: Dict[str, Any]) -> Table:
             table.add_column(mem_type_name, overflow='fold', justify='right', style='dark_orange')
             for section_name, section_info in mem_type_info['sections'].items():
                 name = section_info['abbrev_name'] if args['abbrev'] else section_name
-                table.add_column(escape(name), overflow='fold', justify='right', style='bright_blue')
+                table.add_column(log.escape(name), overflow='fold', justify='right', style='bright_blue')
         break
 
     sizes_sorted = _get_table_sorted(symbols_summary, table, args)
@@ -353,17 +352,17 @@ def get_archives_dependencies_table(
         table.add_column('Symbols', overflow='fold')
 
     for arch_name, arch_info in arch_deps.items():
-        arch_name_abbrev = escape(arch_info['abbrev_name'] if args['abbrev'] else arch_name)
+        arch_name_abbrev = log.escape(arch_info['abbrev_name'] if args['abbrev'] else arch_name)
         for cnt, arch_dep in enumerate(arch_info['archives'].items(), start=1):
             arch_dep_name, arch_dep_info = arch_dep
-            arch_dep_name_abbrev = escape(arch_dep_info['abbrev_name'] if args['abbrev'] else arch_dep_name)
+            arch_dep_name_abbrev = log.escape(arch_dep_info['abbrev_name'] if args['abbrev'] else arch_dep_name)
             if cnt == 1:
                 row = [arch_name_abbrev, str(arch_info['size']), arch_dep_name_abbrev, str(arch_dep_info['size'])]
             else:
                 row = ['', '', arch_dep_name_abbrev, str(arch_dep_info['size'])]
 
             if args['dep_symbols']:
-                row += [escape('\n'.join(arch_dep_info['symbols']))]
+                row += [log.escape('\n'.join(arch_dep_info['symbols']))]
             if cnt == len(arch_info['archives']):
                 table.add_row(*row, end_section=True)
             else:
diff --git a/esp_idf_size/format_tree.py b/esp_idf_size/format_tree.py
index 56879d3..f23d5a7 100644
--- a/esp_idf_size/format_tree.py
+++ b/esp_idf_size/format_tree.py
@@ -3,7 +3,6 @@
 
 from typing import Any, Dict, Optional
 
-from rich.markup import escape
 from rich.tree import Tree
 
 from . import deps, log, mapfile, memorymap
@@ -26,22 +25,22 @@ def show_memmap(memmap: Dict[str, Any], args: Dict[str, Any]) -> None:
             mem_type_tree = tree.add(f'{mem_type_name} {used}', style='dark_orange', guide_style='dark_orange')
 
         for section_name, section_info in mem_type_info['sections'].items():
-            name = escape(section_info['abbrev_name'] if args['abbrev'] else section_name)
+            name = log.escape(section_info['abbrev_name'] if args['abbrev'] else section_name)
             size = color_diff(section_info['size'], section_info['size_diff'], args['diff'])
             section_tree = mem_type_tree.add(f'{name} {size}', style='bright_blue', guide_style='bright_blue')
 
             for archive_name, archive_info in section_info['archives'].items():
-                name = escape(archive_info['abbrev_name'] if args['abbrev'] else archive_name)
+                name = log.escape(archive_info['abbrev_name'] if args['abbrev'] else archive_name)
                 size = color_diff(archive_info['size'], archive_info['size_diff'], args['diff'])
                 archive_tree = section_tree.add(f'{name} {size}', style='green', guide_style='green')
 
                 for object_file_name, object_file_info in archive_info['object_files'].items():
-                    name = escape(object_file_info['abbrev_name'] if args['abbrev'] else object_file_name)
+                    name = log.escape(object_file_info['abbrev_name'] if args['abbrev'] else object_file_name)
                     size = color_diff(object_file_info['size'], object_file_info['size_diff'], args['diff'])
                     symbol_tree = archive_tree.add(f'{name} {size}', style='default', guide_style='default')
 
                     for symbol_name, symbol_info in object_file_info['symbols'].items():
-                        name = escape(symbol_name)
+                        name = log.escape(symbol_name)
                         size = color_diff(symbol_info['size'], symbol_info['size_diff'], args['diff'])
                         symbol_tree.add(f'{name} {size}', style='default', guide_style='default')
 
@@ -60,12 +59,12 @@ def show_archives_dependencies(
     tree = Tree(tree_name)
 
     for arch_name, arch_info in arch_deps.items():
-        arch_name_abbrev = escape(arch_info['abbrev_name'] if args['abbrev'] else arch_name)
+        arch_name_abbrev = log.escape(arch_info['abbrev_name'] if args['abbrev'] else arch_name)
         arch_size = arch_info['size']
         arch_tree = tree.add(f'{arch_name_abbrev} {arch_size}', style='dark_orange', guide_style='dark_orange')
 
         for arch_dep_name, arch_dep_info in arch_info['archives'].items():
-            arch_dep_name_abbrev = escape(arch_dep_info['abbrev_name'] if args['abbrev'] else arch_dep_name)
+            arch_dep_name_abbrev = log.escape(arch_dep_info['abbrev_name'] if args['abbrev'] else arch_dep_name)
             arch_dep_size = arch_dep_info['size']
             dep_tree = arch_tree.add(
                 f'{arch_dep_name_abbrev} {arch_dep_size}', style='bright_blue', guide_style='bright_blue'
@@ -73,7 +72,7 @@ def show_archives_dependencies(
 
             if args['dep_symbols']:
                 for sym in arch_dep_info['symbols']:
-                    dep_tree.add(escape(sym), style='default', guide_style='default')
+                    dep_tree.add(log.escape(sym), style='default', guide_style='default')
 
     log.print(tree)
 
diff --git a/esp_idf_size/log.py b/esp_idf_size/log.py
index 38eef00..3b562a1 100644
--- a/esp_idf_size/log.py
+++ b/esp_idf_size/log.py
@@ -3,13 +3,28 @@
 
 """Basic logging functions utilizing esp_pylib."""
 
-__all__ = ['err', 'warn', 'die', 'debug', 'eprint', 'print']
+__all__ = ['err', 'warn', 'die', 'debug', 'eprint', 'escape', 'print']
 
+import re
 import sys
-from typing import Any, Optional
+from typing import Any, Match, Optional
 
 from esp_pylib.logger import log
-from rich.markup import escape
+
+# Square bracket, possibly starting a rich tag, along with the backslashes in front of it.
+_RE_BRACKET = re.compile(r'(\\*)(\[(?:[a-z#/@][^[]*?\])?)')
+
+
+def escape(text: str) -> str:
+    # Escape text, so it's not interpreted as rich markup. Unlike rich.markup.escape(), this preserves
+    # a backslash in front of a square bracket, which doesn't start a tag, and a trailing backslash.
+    def escape_bracket(match: Match[str]) -> str:
+        backslashes, bracket = match.groups()
+        if len(bracket) > 1:
+            return f'{backslashes}{backslashes}\\{bracket}'
+        return f'{backslashes}\\{bracket}' if backslashes else bracket
+
+    return _RE_BRACKET.sub(escape_bracket, text)
 
 
 def _escape(args: Any) -> Any:
-- 
2.43.0


From 22fc5766840afe0e862268f6e491ac2191dcda9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:45 +0000
Subject: [PATCH 54/64] fix: emoji codes and quotes of column names in CSV

---
 esp_idf_size/format_csv.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/esp_idf_size/format_csv.py b/esp_idf_size/format_csv.py
index 027ef7d..775257d 100644
--- a/esp_idf_size/format_csv.py
+++ b/esp_idf_size/format_csv.py
@@ -18,14 +18,15 @@ def show_table(table: Table) -> None:
 
     # Rich Table stores cells in columns so transform it to rows.
     for x, col in enumerate(table.columns):
-        matrix[0][x] = f'"{col.header}"'
+        header = str(col.header).replace('"', '""')
+        matrix[0][x] = f'"{header}"'
         for y, cell in enumerate(col.cells, start=1):
             cell = cell.strip().replace('"', '""')
             matrix[y][x] = f'"{cell}"'
 
     for row in matrix:
         # Square brackets in one cell must not be combined with those in other cells into rich markup.
-        log.print(Text(',').join(Text.from_markup(cell) for cell in row))
+        log.print(Text(',').join(Text.from_markup(cell, emoji=False) for cell in row))
 
 
 def show_summary(memmap: Dict[str, Any], args: Dict[str, Any]) -> None:
-- 
2.43.0


From 657f477baaaddb2a8d978e2331f667b95f31b644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:52 +0000
Subject: [PATCH 55/64] fix: escape characters the standard output cannot
 represent

A name with a character outside of the stdout encoding, e.g. a non-ASCII
symbol name in the C locale, aborted the report with UnicodeEncodeError.
---
 esp_idf_size/main.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/esp_idf_size/main.py b/esp_idf_size/main.py
index 820b780..35c59f1 100644
--- a/esp_idf_size/main.py
+++ b/esp_idf_size/main.py
@@ -81,6 +81,10 @@ def _run(args: Dict[str, Any]) -> None:
     try:
         if ofile is not None:
             args['force_terminal'] = False
+        elif isinstance(sys.stdout, io.TextIOWrapper):
+            # Escape characters, which cannot be represented in the stdout encoding,
+            # for the same reason as in _write_output_file().
+            sys.stdout.reconfigure(errors='backslashreplace')
 
         esp_log.set_verbosity(
             Verbosity.SILENT if args['quiet'] else (Verbosity.VERBOSE if args['debug'] else Verbosity.NORMAL)
-- 
2.43.0


From 873de5cc6f0c90e01c6893ff14b5fc69e88ef425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:52 +0000
Subject: [PATCH 56/64] fix: read project and chip descriptions as UTF-8

With a non UTF-8 locale encoding the project description with non-ASCII
characters was considered invalid and ignored, so the information from it
(application version, ELF file, target) was missing.
---
 esp_idf_size/main.py      | 2 +-
 esp_idf_size/memorymap.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/esp_idf_size/main.py b/esp_idf_size/main.py
index 35c59f1..53106a7 100644
--- a/esp_idf_size/main.py
+++ b/esp_idf_size/main.py
@@ -29,7 +29,7 @@ def _show_doc() -> None:
 
     console = Console()
     readme_path = Path(os.path.realpath(os.path.dirname(__file__))) / 'docs' / 'readme.md'
-    with open(readme_path) as fd:
+    with open(readme_path, encoding='utf-8') as fd:
         md = Markdown(fd.read())
     console.print(md)
 
diff --git a/esp_idf_size/memorymap.py b/esp_idf_size/memorymap.py
index 31079eb..7ef9330 100644
--- a/esp_idf_size/memorymap.py
+++ b/esp_idf_size/memorymap.py
@@ -1087,7 +1087,7 @@ def _abbrev(section_name: str) -> str:
 def _load_json_file(fn: str) -> Optional[Dict[str, Any]]:
     data = None
     try:
-        with open(fn) as f:
+        with open(fn, encoding='utf-8') as f:
             data = json.load(f)
     except (OSError, ValueError, RecursionError) as e:
         log.debug(f'{fn} is not available: {e}')
@@ -1457,7 +1457,7 @@ def _get_memory_types(target: str) -> Dict[str, Any]:
     try:
         directory = os.path.dirname(__file__)
         fn = os.path.join(directory, 'chip_info', target + '.yaml')
-        with open(fn) as f:
+        with open(fn, encoding='utf-8') as f:
             memory_types = yaml.safe_load(f)
     except (OSError, ValueError) as e:
         raise MemMapException(f'cannot read memory types file: {e}')
-- 
2.43.0


From e88721cb7f95896db9a1cb91c3c6dc3204911836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:14 +0000
Subject: [PATCH 57/64] fix: report damaged ELF and DWARF data as an error
 instead of a crash

The ELF file is decoded lazily, so truncated or malformed section, symbol or
debugging data surfaced as an unhandled exception of various types (struct.error,
IndexError, KeyError, Elf_Exception, ...) with a traceback. Malformed data is
now always reported as Elf_Exception, memorymap.get() raises the documented
MemMapException and invalid debugging information is ignored with a warning,
the same way as if it is missing.
---
 esp_idf_size/elf.py       | 52 +++++++++++++++++++++++++++++++++------
 esp_idf_size/main.py      |  3 ++-
 esp_idf_size/memorymap.py | 22 +++++++++++++++--
 3 files changed, 67 insertions(+), 10 deletions(-)

diff --git a/esp_idf_size/elf.py b/esp_idf_size/elf.py
index 60f6829..ad908fa 100644
--- a/esp_idf_size/elf.py
+++ b/esp_idf_size/elf.py
@@ -1,5 +1,6 @@
 # SPDX-FileCopyrightText: 2024-2026 Espressif Systems (Shanghai) CO LTD
 # SPDX-License-Identifier: Apache-2.0
+import functools
 import struct
 from dataclasses import dataclass
 from typing import Any, Callable, ClassVar, Dict, List, Optional, Tuple, Union
@@ -1331,6 +1332,31 @@ class Elf_Exception(FatalError):
     pass
 
 
+# Errors raised when malformed data is decoded, e.g. truncated data, offset or index out
+# of range, missing string terminator, missing entry or an attribute with unexpected form.
+_DECODING_ERRORS = (
+    struct.error,
+    ValueError,
+    LookupError,
+    RecursionError,
+    AssertionError,
+    AttributeError,
+    TypeError,
+)
+
+
+def _decoding(func: Callable) -> Callable:
+    # Report errors caused by malformed ELF or DWARF data as Elf_Exception.
+    @functools.wraps(func)
+    def wrapper(*args: Any, **kwargs: Any) -> Any:
+        try:
+            return func(*args, **kwargs)
+        except _DECODING_ERRORS as e:
+            raise Elf_Exception(f'malformed ELF file: {e!r}')
+
+    return wrapper
+
+
 @dataclass
 class Elf_Ehdr:
     FMT32: ClassVar[str] = '16s2H5L6H'
@@ -1391,12 +1417,14 @@ class Elf_Shdr:
     _name: Optional[str] = None
 
     @property
+    @_decoding
     def data(self) -> bytes:
         if self._data is None:
             self._data = self._elf.read(self.sh_offset, self.sh_size)
         return self._data
 
     @property
+    @_decoding
     def name(self) -> str:
         if self._name is None:
             self._name = self._elf.lookup_string(self._elf.shdrs[self._elf.ehdr.e_shstrndx], self.sh_name).decode()
@@ -1442,6 +1470,7 @@ class Elf_Sym:
             self.st_size = values[5]
 
     @property
+    @_decoding
     def name(self) -> str:
         if self._name is None:
             self._name = self._elf.lookup_string(self._elf.shdrs[self._strndx], self.st_name).decode()
@@ -1937,6 +1966,7 @@ class Dwarf_CU:
 
 
 class Elf:
+    @_decoding
     def __init__(self, fn: str):
         self.fd = open(fn, 'rb')
         self.fn = fn
@@ -2004,11 +2034,12 @@ class Elf:
             self.fd.close()
 
     @property
+    @_decoding
     def symbols(self) -> List[Elf_Sym]:
         if self._symbols is not None:
             return self._symbols
 
-        self._symbols = []
+        symbols: List[Elf_Sym] = []
 
         for shdr in self.shdrs:
             if shdr.sh_type not in (SHT_SYMTAB, SHT_DYNSYM):
@@ -2017,20 +2048,22 @@ class Elf:
             offset = 0
             while offset < shdr.sh_size:
                 sym, offset = self.get_fmt(self._sym_fmt, shdr.data, offset)
-                self._symbols.append(Elf_Sym(self, shdr.sh_link, sym))  # type: ignore
+                symbols.append(Elf_Sym(self, shdr.sh_link, sym))  # type: ignore
 
+        self._symbols = symbols
         return self._symbols
 
     @property
+    @_decoding
     def CUs(self) -> List[Dwarf_CU]:
         if self._CUs is not None:
             return self._CUs
 
-        self._CUs = []
+        CUs: List[Dwarf_CU] = []
 
         shdr = self.lookup_shdr('.debug_info')
         if shdr is None:
-            return self._CUs
+            return CUs
 
         offset = 0
 
@@ -2038,13 +2071,17 @@ class Elf:
             cu = Dwarf_CU(self, shdr.data, offset)
             # Dwarf5: 7.5.1.1 CU length does not include size of the unit_length field
             offset += len(cu.unit_length) + cu.length
-            self._CUs.append(cu)
+            CUs.append(cu)
 
+        self._CUs = CUs
         return self._CUs
 
     def read(self, offset: int, count: int) -> bytes:
-        self.fd.seek(offset)
-        data = self.fd.read(count)
+        try:
+            self.fd.seek(offset)
+            data = self.fd.read(count)
+        except (OSError, OverflowError, MemoryError) as e:
+            raise Elf_Exception(f'error while reading ELF file at offset {offset}: {e!r}')
         if len(data) != count:
             raise Elf_Exception(f'error while reading ELF file at offset {offset}')
         return data
@@ -2149,6 +2186,7 @@ class Elf:
         value |= -(1 << ((offset_new - offset) * 7))
         return value, offset_new
 
+    @_decoding
     def add_cus_to_symbols(self) -> Dict[int, Elf_Sym]:
         dies: Dict[int, Dict[str, Any]] = {}
         syms_dict: Dict[int, Elf_Sym] = {}
diff --git a/esp_idf_size/main.py b/esp_idf_size/main.py
index 53106a7..a4d7550 100644
--- a/esp_idf_size/main.py
+++ b/esp_idf_size/main.py
@@ -16,6 +16,7 @@ from esp_pylib.logger import Verbosity
 from esp_pylib.logger import log as esp_log
 
 from . import format_csv, format_dot, format_json, format_raw, format_table, format_tree, log, mapfile, memorymap
+from .elf import Elf_Exception
 
 install_exception_reporting()
 
@@ -160,7 +161,7 @@ def _run(args: Dict[str, Any]) -> None:
             # raises SystemExit, so it's not caught by the excepts below and
             # the output file is not written.
             _write_output_file(args['output_file'], ofile.getvalue())
-    except (memorymap.MemMapException, mapfile.MapFileException) as e:
+    except (memorymap.MemMapException, mapfile.MapFileException, Elf_Exception) as e:
         log.die(str(e))
     except KeyboardInterrupt:
         sys.exit(1)
diff --git a/esp_idf_size/memorymap.py b/esp_idf_size/memorymap.py
index 7ef9330..5d2a71b 100644
--- a/esp_idf_size/memorymap.py
+++ b/esp_idf_size/memorymap.py
@@ -52,11 +52,12 @@ Usage examples:
 __all__ = ['get', 'diff', 'unify', 'MemMapException']
 
 import copy
+import functools
 import json
 import os
 from fnmatch import fnmatch
 from pathlib import Path
-from typing import Any, Dict, Generator, List, Optional
+from typing import Any, Callable, Dict, Generator, List, Optional
 
 import yaml
 from esp_pylib.errors import FatalError
@@ -89,6 +90,19 @@ class MemMapException(FatalError):
     pass
 
 
+def _elf_errors(func: Callable) -> Callable:
+    # The ELF file is decoded lazily, so an error in it may come up at any point.
+    @functools.wraps(func)
+    def wrapper(*args: Any, **kwargs: Any) -> Any:
+        try:
+            return func(*args, **kwargs)
+        except Elf_Exception as e:
+            raise MemMapException(f'cannot parse ELF file: {e}')
+
+    return wrapper
+
+
+@_elf_errors
 def get(
     input_fn: str,
     load_symbols: bool = True,
@@ -1333,7 +1347,11 @@ def _expand_input_sections(map_file: mapfile.MapFile, proj_desc: Optional[Dict[s
             sym.archive_path = component['archive_relpath']  # type: ignore
 
     # Get symbols with CU name info if available
-    symbols: Dict[int, Elf_Sym] = elf.add_cus_to_symbols()
+    try:
+        symbols: Dict[int, Elf_Sym] = elf.add_cus_to_symbols()
+    except Elf_Exception as e:
+        log.warn(f'ignoring DWARF information because it cannot be parsed: {e}')
+        return
 
     # Remove symbols with zero size and symbols for which we don't have CU name
     symbols = {k: v for k, v in symbols.items() if v.st_size and v.cu_name}
-- 
2.43.0


From 378cbe82ac8fae6a26b9dfa315fa34cad8289232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:04 +0000
Subject: [PATCH 58/64] fix: name the target of the reference project as such

---
 esp_idf_size/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esp_idf_size/main.py b/esp_idf_size/main.py
index a4d7550..89489a6 100644
--- a/esp_idf_size/main.py
+++ b/esp_idf_size/main.py
@@ -137,7 +137,7 @@ def _run(args: Dict[str, Any]) -> None:
             if memmap['target'] != memmap['target_diff']:
                 log.warn(
                     f'The target of the reference and other project is '
-                    f'{memmap["target"]} and {memmap["target_diff"]}, respectively.'
+                    f'{memmap["target_diff"]} and {memmap["target"]}, respectively.'
                 )
 
         if args['unify']:
-- 
2.43.0


From c938d3b6d864fbde4b89c5862d550f1a27560ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:54 +0000
Subject: [PATCH 59/64] fix: keep the map file object passed to the library
 call unchanged

The expansion of input sections based on DWARF information, and other adjustments
of sections, were done directly in the map file object passed by the caller. A
following call with the same object and without DWARF usage still reported the
expanded input sections.
---
 esp_idf_size/memorymap.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/esp_idf_size/memorymap.py b/esp_idf_size/memorymap.py
index 5d2a71b..7280236 100644
--- a/esp_idf_size/memorymap.py
+++ b/esp_idf_size/memorymap.py
@@ -238,6 +238,13 @@ def get(
     except mapfile.MapFileException as e:
         raise MemMapException(e)
 
+    # The sections are adjusted below, so work on a copy and keep the map file object, which
+    # may be used by the caller again with different options, as it is.
+    map_file = copy.copy(map_file)
+    map_file.sections = [
+        {**osec, 'input_sections': [isec.copy() for isec in osec['input_sections']]} for osec in map_file.sections
+    ]
+
     # Validate the parsed map file. If validation fails, it is not a critical
     # error, but the parsing might need correction or adjustment, so print a warning.
     try:
-- 
2.43.0


From a11d630887d35e0d135e5612ded3bc846c49c947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:49 +0000
Subject: [PATCH 60/64] fix: use DWARF information for the tree and
 dependencies reports if requested by --lto

---
 esp_idf_size/main.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/esp_idf_size/main.py b/esp_idf_size/main.py
index 89489a6..facebb5 100644
--- a/esp_idf_size/main.py
+++ b/esp_idf_size/main.py
@@ -118,7 +118,15 @@ def _run(args: Dict[str, Any]) -> None:
 
         if args['use_dwarf']:
             # We need DWARF only for detailed outputs like archives
-            args['use_dwarf'] = any((args['archive_details'], args['archives'], args['files'], args['format'] == 'raw'))
+            args['use_dwarf'] = any(
+                (
+                    args['archive_details'],
+                    args['archives'],
+                    args['files'],
+                    args['archive_dependencies'],
+                    args['format'] in ('raw', 'tree'),
+                )
+            )
 
         map_file = mapfile.MapFile(args['input_file'])
         elf = memorymap.get_elf(args['input_file'])
-- 
2.43.0


From 6032995922d4c7e0d9f3e64994a3ee63e2f8cf81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:49 +0000
Subject: [PATCH 61/64] fix: list symbols with an unknown type or binding
 instead of failing with KeyError

---
 esp_idf_size/elf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/esp_idf_size/elf.py b/esp_idf_size/elf.py
index ad908fa..2c64523 100644
--- a/esp_idf_size/elf.py
+++ b/esp_idf_size/elf.py
@@ -1482,7 +1482,7 @@ class Elf_Sym:
 
     @property
     def type_name(self) -> str:
-        return STT_NAME_MAP[self.type]
+        return STT_NAME_MAP.get(self.type, f'UNKNOWN {self.type}')
 
     @property
     def bind(self) -> int:
@@ -1490,7 +1490,7 @@ class Elf_Sym:
 
     @property
     def bind_name(self) -> str:
-        return STB_NAME_MAP[self.bind]
+        return STB_NAME_MAP.get(self.bind, f'UNKNOWN {self.bind}')
 
     @property
     def visibility(self) -> int:
-- 
2.43.0


From 193f28e40c80df29c48c40124f89c655a41442d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:49 +0000
Subject: [PATCH 62/64] fix: list the symbol table of the ELF object itself

---
 esp_idf_size/elf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esp_idf_size/elf.py b/esp_idf_size/elf.py
index 2c64523..93dd79c 100644
--- a/esp_idf_size/elf.py
+++ b/esp_idf_size/elf.py
@@ -2284,7 +2284,7 @@ class Elf:
         print(f'{"Num":<7} {"Value":10} {"Size":>7} {"Type":10} {"Bind":10} {"Vis":10} {"Ndx":>6} {"Shdr":20} Name')
         for idx, sym in enumerate(symbols):
             cu_name = f'{sym.cu_name}' if sym.cu_name is not None else 'NOCU'
-            shdr_name = elf.shdrs[sym.st_shndx].name if sym.st_shndx < len(elf.shdrs) else 'SPECIAL'
+            shdr_name = self.shdrs[sym.st_shndx].name if sym.st_shndx < len(self.shdrs) else 'SPECIAL'
             print(
                 f'{idx:<7} {sym.st_value:#010x} {sym.st_size:7} {sym.type_name:10} '
                 f'{sym.bind_name:10} {sym.visibility_name:10} {sym.st_shndx:6} {shdr_name:20} {sym.name} '
-- 
2.43.0


From c6abadbc055d762b167699e972023356f7c7a832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:43:52 +0000
Subject: [PATCH 63/64] fix: don't expand a symbol beyond the end of its input
 section

---
 esp_idf_size/memorymap.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/esp_idf_size/memorymap.py b/esp_idf_size/memorymap.py
index 7280236..899ef66 100644
--- a/esp_idf_size/memorymap.py
+++ b/esp_idf_size/memorymap.py
@@ -1413,17 +1413,18 @@ def _expand_input_sections(map_file: mapfile.MapFile, proj_desc: Optional[Dict[s
                     # into isecs_new and adjust isec address and size.
                     # Do this only if there is some size left, because
                     # previous symbol may have covered the rest of the input section.
+                    # The symbol may not fit into the input section, so don't go beyond its end.
                     isec_new = {
                         'name': sym.name,
                         'address': sym.st_value,
-                        'size': sym.st_size,
+                        'size': min(sym.st_size, isec['size']),
                         'archive': sym.archive_path,  # type: ignore
                         'object_file': Path(str(sym.cu_name)).name,
                         'fill': 0,
                     }
                     isecs_new.append(isec_new)
-                    isec['address'] += sym.st_size
-                    isec['size'] -= sym.st_size
+                    isec['address'] += isec_new['size']
+                    isec['size'] -= isec_new['size']
 
                 elif addr < isec['address'] + isec['size']:
                     # There is a gap between isec address and symbol address, for which
@@ -1445,17 +1446,18 @@ def _expand_input_sections(map_file: mapfile.MapFile, proj_desc: Optional[Dict[s
 
                     # Now add new isec for symbol as if it would have the same
                     # address as input section.
+                    # The symbol may not fit into the input section, so don't go beyond its end.
                     isec_new = {
                         'name': sym.name,
                         'address': sym.st_value,
-                        'size': sym.st_size,
+                        'size': min(sym.st_size, isec['size']),
                         'archive': sym.archive_path,  # type: ignore
                         'object_file': Path(str(sym.cu_name)).name,
                         'fill': 0,
                     }
                     isecs_new.append(isec_new)
-                    isec['address'] += sym.st_size
-                    isec['size'] -= sym.st_size
+                    isec['address'] += isec_new['size']
+                    isec['size'] -= isec_new['size']
                 else:
                     # No other symbols fit into this input section
                     break
-- 
2.43.0


From 76b5847428dcfdadd5d131457e0a5e55a2eec988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:00 +0000
Subject: [PATCH 64/64] fix: don't take a part of a demangled name for the
 symbol in the cross reference table

The linker demangles C++ names in the cross reference table, so a name may
contain spaces. The name was cut at the first one: the rest became a part of
the archive name, and the entry replaced the one of a symbol named like the
first word, e.g. "guard variable for x" the one of "guard".
---
 esp_idf_size/mapfile.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/esp_idf_size/mapfile.py b/esp_idf_size/mapfile.py
index 4246a71..2d7bed1 100644
--- a/esp_idf_size/mapfile.py
+++ b/esp_idf_size/mapfile.py
@@ -471,14 +471,21 @@ class MapFile:
                 break
 
             if not line.startswith((' ', '\t')):
-                split = line.split(maxsplit=1)
+                # The name of the symbol is padded with spaces, so the file starts at column 50, and a longer
+                # name is followed by a single space. Demangled C++ names may contain spaces too.
+                if '  ' in line[:50]:
+                    split = line.split('  ', maxsplit=1)
+                elif line.find(' ') >= 49:
+                    split = line.split(maxsplit=1)
+                else:
+                    split = line.rsplit(maxsplit=1)
                 if len(split) != 2:
                     log.err(f'unexpected format of cross reference table entry "{line}"')
                     symbol = None
                     continue
 
                 symbol = split[0]
-                definition = split[1]
+                definition = split[1].strip()
                 crt[symbol] = [self._get_archive_object_file(definition)]
             else:
                 line = line.strip()
-- 
2.43.0


#!/usr/bin/env python3
"""Source of properties.jsonl (run by hand; the output is committed)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe:
        a["observe_at"] = [observe]
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

M = "esp_idf_size/memorymap.py"
F = "esp_idf_size/mapfile.py"
E = "esp_idf_size/elf.py"
T = "esp_idf_size/format_table.py"
CSV = "esp_idf_size/format_csv.py"
J = "esp_idf_size/format_json.py"
TR = "esp_idf_size/format_tree.py"
DOT = "esp_idf_size/format_dot.py"
RAW = "esp_idf_size/format_raw.py"
D = "esp_idf_size/deps.py"
MAIN = "esp_idf_size/main.py"

p("C01", "A linker map file is read back exactly as the linker laid it out",
  "Every memory region, output section and input section of a GNU ld map file is reported with the name, address, size, archive and object file it has there, whether its data sits on one line or is wrapped onto the next and whatever spaces or parentheses its path contains. Padding and explicit data bytes are credited to the input section they follow, an input section superseded by a later one at the same address, or lying outside its output section, or overlaid by padding counts zero bytes, and an object linked without an archive is filed under '(exe)'. The cross reference table yields, for every symbol, its defining file followed by its referencing files in order, and the layout check accepts exactly the maps whose counted input sections leave no hole.",
  ["inputs"], "all GNU ld map files: any regions, sections (input section names start with a dot or are COMMON), wrapping, fill, BYTE/SHORT/LONG/QUAD data, superseded/outside entries, archive paths and cross reference tables",
  "The format has many interacting line shapes (wrapping, padding, same-address entries, paths with spaces); tests hold a handful of maps and none of the combinations.",
  [F], [("line-oriented map parser", F + ": MapFile._get_memory_regions/_get_sections/_get_cross_reference_table"), ("hole check", F + ": MapFile.validate")],
  "attributes of mapfile.MapFile(fn): memory_regions, sections, cross_reference_table, validate()")

p("C02", "A memory type's total is the memory its linker regions give it",
  "For every supported chip, each linker memory region is cut at the boundaries of the chip's memory types, and a memory type's total size is the number of bytes of it covered by some region, so a region that shows the same memory again (the same range twice, or through the type's second address window) is counted once. The default region never counts, zero-length regions add nothing, and a region, or the rest of one, lying in no memory type of the chip is left out with a warning. The result lists exactly the memory types of the chip.",
  ["inputs", "configurations"], "all chips and all MEMORY layouts whose regions are disjoint or exact aliases: spanning several types, adjacent windows, sub-ranges, repeated ranges, unknown ranges, zero-length reservations",
  "Depends on the joint choice of chip, region origins and lengths; fixtures use the stock linker scripts only.",
  [M, "esp_idf_size/chip_info"], [("cutting regions by memory type", M + ": _split_memory_regions"), ("alias detection and totals", M + ": _get_mem_type_map")],
  "size of each entry of memory_types from memorymap.get() / raw output")

p("C03", "Every section's bytes are charged to the memory type where they lie",
  "Each counted output section is charged, byte for byte, to the memory type of the region its address lies in; a section that crosses region or memory type boundaries is cut there and each part charged to its own type. Sections for external RAM (.ext_ram.bss*, .ext_ram_noinit*) go to the chip's external RAM type when it has one, and a section, or the part of one beyond the end of its region, that starts in a gap between two regions is charged whole to the preceding region under the section name with '_overflow' appended, with a warning. A section or part below the lowest or above the highest region is left out with a warning naming it, so no byte is lost or counted twice silently.",
  ["inputs", "configurations"], "all chips, region layouts and section placements, in particular sections ending exactly at, one byte past, or far past a boundary, and several boundaries in one section",
  "Boundary placement x chip x region layout is a product space; tests use linked fixtures where sections rarely meet a boundary.",
  [M], [("cutting sections", M + ": _split_map_sections"), ("assigning to types, overflow, external RAM", M + ": _get_mem_type_map")],
  "memory_types[*].sections and used; warnings on stderr")

p("C04", "Sizes add up at every level of the memory map",
  "In every memory map a memory type's used size is the sum of its sections, an archive's size in a section is the sum of its object files there, and an object file's size is the sum of the input sections of that file lying in that part of the section, counting no padding. Every archive, object file and symbol listed in a section has a nonzero size, and an object's symbols never exceed the object file when symbols do not overlap. Archive and object file names are those of the map, with the base name as abbreviated name; a section's abbreviated name is its last dotted part.",
  ["inputs", "configurations"], "all map files (with or without ELF), including sections cut at boundaries in the middle of an input section, of padding or of a symbol",
  "An arithmetic invariant over the whole tree for arbitrary layouts and cut points; tests compare a few fixed outputs.",
  [M], [("building the archive tree", M + ": _add_archives_to_sections"), ("cutting input sections and symbols", M + ": _split_map_sections")],
  "memorymap.get() result / raw output")

p("C05", "Symbols are listed under the object file that owns their bytes",
  "With an ELF file, each function or object symbol of nonzero size whose address lies in a counted input section is listed under exactly that section's archive and object file with its own size ('()' appended for functions), same-named symbols of one object file adding up, and a symbol cut by a memory boundary listed on both sides with its share. Symbols below or between the input sections (such as ROM symbols), other symbol kinds and zero-size symbols are not listed, a symbol that reaches over the end of its input section is refused with an error, and an input section that owns no symbol is listed under its own name with its own size. Without an ELF file every input section is listed by name, and with symbol loading disabled no symbol is listed and nothing else changes.",
  ["inputs"], "all map/ELF pairs: any symbol order in the table, duplicate names, ROM symbols below and between sections, input sections without symbols in any position",
  "Attribution depends on the relative order of all symbols and all input sections; an off-by-one only shows for particular neighbours.",
  [M, E], [("matching symbols to input sections", M + ": _add_symbols_to_sections")],
  "symbols of each object file in memorymap.get() / raw output")

p("C06", "Only sections that occupy memory count, and the image size is right",
  "With an ELF file exactly the nonempty map sections that are allocated in the ELF are counted, and the image size is the total size of the allocated PROGBITS sections of the ELF. Without one, a nonempty section is counted if its name ends in .text, .data, .bss, .rodata, noinit or .vectors or contains .flash or .eh_frame, and the image size is the total of the counted sections except those ending in .bss or noinit. In both cases sections whose name ends in dummy, reserved_for_iram or noload are never counted.",
  ["inputs", "configurations"], "all section names, sizes, ELF flags and types, with and without an ELF file",
  "The rule is a predicate over arbitrary names and flags; tests sample a few names.",
  [M], [("section filter", M + ": _filter_map_sections, _get_elf_sections_headers"), ("image size", M + ": _get_image_size")],
  "image_size and the set of sections in memorymap.get(); total_size in json2")

p("C07", "A memory map difference is exact for every entry",
  "The difference of two memory maps contains the entries of both at every level, each with its current size (0 if only in the reference) and a difference of exactly current minus reference; target, path and image size of the reference are recorded. Comparing a map with itself gives all zero differences, swapping the two maps negates every difference, and neither input is modified.",
  ["inputs"], "all pairs of memory maps, including different chips, entries present on one side only at any level, and entries of equal size",
  "Needs every shape of one-sided subtree; tests diff two fixture maps.",
  [M], [("difference", M + ": diff")],
  "memorymap.diff() result; raw output with --diff")

p("C08", "Unifying abbreviated names keeps every total",
  "Unifying a memory map merges, under one parent, all sections, archives, object files and symbols with the same abbreviated name, each merged entry carrying the exact sum of sizes and of size differences, and leaves memory types, their totals and the rest of the map unchanged. Unifying twice is the same as once, no other keys appear, and the unified difference of two maps equals the difference of the unified maps.",
  ["inputs"], "all memory maps and differences, with any pattern of colliding abbreviated names at any level",
  "Collisions must occur at several levels at once to expose a lost or doubled subtree.",
  [M], [("unify", M + ": unify")],
  "memorymap.unify(); raw output with --unify")

p("C09", "Unused entries and flash sizes are left out only as the options say",
  "By default every report leaves out the memory types nothing is charged to and the sections to which no file contributes (with the type's used size reduced accordingly), and shows no total for memory types with 'flash' in their name; --show-unused keeps all memory types of the chip and all sections and --use-flash-size keeps the flash totals. No other value changes, and with --diff both the current and the reference project are treated the same way.",
  ["inputs", "configurations"], "all maps x {show-unused} x {use-flash-size} x {diff} x output formats",
  "The options act on both projects of a comparison and interact with empty sections; tests check one default fixture.",
  [M, MAIN], [("removal of unused", M + ": remove_unused"), ("flash totals", M + ": ignore_flash_size"), ("option wiring", MAIN + ": _run")],
  "CLI output in raw, json2, table and csv formats")

p("C10", "Per-archive, per-file and per-symbol reports agree with the memory map",
  "For each archive, object file, or symbol of the requested archive, --archives, --files and --archive-details report a total, a size per memory type and a size per section which are exactly the sums of the matching entries of the memory map, listing every matching entry once and every memory type and section of the map. With --unify entries sharing an abbreviated name are one entry with the summed sizes. The json2 summary reports for each memory type its total, used and free size and per displayed section name the summed size, and total_size is the image size; an unknown archive name is refused with an error in table, CSV and JSON.",
  ["inputs", "configurations"], "all memory maps x the three reports x {abbrev, no-abbrev, unify} x diff, including the same archive base name at two paths and the same section name in two memory types",
  "Wrong sums appear only when abbreviated names collide or an entry spans several sections and types.",
  [M, J], [("summaries", M + ": get_archives_summary/get_object_files_summary/get_symbols_summary"), ("JSON rendering", J)],
  "json2 output of the CLI compared with raw output of the same invocation")

p("C11", "Table and CSV show the same correct figures",
  "For the same options, the table and CSV formats have the same columns, rows and cell values in the same order, and every value equals the corresponding figure of the memory map: used, used as percentage of the total rounded to two decimals, remaining (total minus used) and total for a memory type, used and percentage for its sections, and size per memory type and section for archives, files and symbols. Memory types without a total show only the used size, and names are abbreviated unless --no-abbrev is given, and the table summary states the image size.",
  ["inputs", "configurations"], "all memory maps x summary/archives/files/archive-details x option sets",
  "Percentages, remaining sizes and column alignment depend on arbitrary figures and on which sections exist.",
  [T, CSV], [("tables", T), ("CSV rendering", CSV + ": show_table")],
  "stdout of the CLI parsed as table and as CSV")

p("C12", "Rows are ordered by the requested column, direction and diff flag",
  "Table and CSV rows (memory types, and sections within them, in the summary; entries in the other reports) are ordered by the exact value of the column chosen with --sort, given as positive number, negative number or column name, by its difference with --sort-diff, descending unless --sort-reverse is given; json2 and tree are ordered by size at every level in the same way. Sorting permutes the rows and changes no value, and in a report that has rows column 0, an unknown column name or an out-of-range number (whose error states the valid range) is refused.",
  ["inputs", "configurations"], "all memory maps x columns (by index, negative index, name) x sort-diff x sort-reverse x formats",
  "Ordering mistakes show only for particular value constellations (percentages below one, negative differences, ties).",
  [T, M], [("summary sort", T + ": get_summary_table"), ("report sort", T + ": _get_table_sorted"), ("tree/JSON sort", M + ": sort, get_summary_sorted")],
  "row order of CLI output")

p("C13", "Filtering shows exactly the entries that match a pattern",
  "In the table and CSV reports per archive, file and symbol, and in the table, CSV and DOT dependency reports, --filter keeps exactly the entries whose displayed name (abbreviated, or full with --no-abbrev) contains a part matching at least one of the given wildcard patterns, with all values unchanged and in the same order. No match gives an empty report, not an error.",
  ["inputs", "configurations"], "all names and all wildcard patterns (*, ?, [seq], [!seq]), one or several, with and without --no-abbrev/--unify",
  "Pattern/name pairs are unbounded; tests filter by one literal.",
  [M, T, DOT], [("filter", M + ": get_summary_filtered")],
  "rows of filtered versus unfiltered CLI output")

p("C14", "Comparison reports show the exact change of every figure",
  "With --diff, every figure (the image size stated with the table included) of the table, CSV, tree and raw reports and of the JSON reports per archive, file and symbol is the current value accompanied by its exact difference to the reference (percentages: difference of the two percentages), entries only in the reference appear with current value 0, and entries whose own difference is zero are left out of table, CSV and tree reports, and of the per-archive, per-file and per-symbol reports in every format, unless --show-unchanged is given. The figures equal those obtained by analysing the two projects separately with the same options and subtracting.",
  ["inputs", "configurations"], "all pairs of projects x report kinds x formats x {show-unchanged, unify, use-flash-size, show-unused}",
  "Requires pairs where something changed at one level and cancelled at another, or memory totals changed.",
  [MAIN, T, TR, M], [("diff wiring", MAIN + ": _run"), ("diff cells", T + ": color_diff/color_size/get_summary_table"), ("hiding unchanged", M + ": trim, rem_summary_unchanged")],
  "CLI output with --diff compared with two separate raw reports")

p("C15", "Archive dependencies reflect the cross reference table exactly",
  "Archive A is reported to depend on archive B through symbol s exactly when s is a function or object defined in the ELF (not absolute), the cross reference table lists B's file as its definition and a file of A among its references, A and B differ and both contribute to the image. Reverse dependencies are exactly the transposed relation with the same symbols, every format (table, CSV, tree, JSON, raw, DOT) shows the same relation and archive sizes, symbols are shown when --dep-symbols is given and always in JSON/raw, and --diff is ignored with a warning.",
  ["inputs", "configurations"], "all cross reference tables, ELF symbol tables and archive sets x formats x {reverse, symbols, no-abbrev, unify}",
  "A relation over arbitrary tables; tests look at a single fixture.",
  [D, DOT, TR, T, F], [("dependency extraction", D), ("DOT output", DOT), ("tree output", TR + ": show_archives_dependencies"), ("table output", T + ": get_archives_dependencies_table")],
  "CLI output of --archive-dependencies in all formats")

p("C16", "The output file holds exactly the report, and only after success",
  "With -o FILE, the report that would be printed on stdout is written to FILE (missing parent directories are created), without terminal control codes and with characters the locale's encoding lacks written as backslash escapes, and nothing of it appears on stdout. If the report cannot be produced, the run is interrupted before it is complete, or the file cannot be opened for writing, the exit status is nonzero, an error is reported, and a FILE that existed before keeps its previous content while one that did not exist is not created.",
  ["inputs", "configurations", "fault_sequences", "crash_points"], "all reports and formats x existing/missing/unwritable targets x failing inputs and options x interruption at any point",
  "The failure can come from any stage (input, options, rendering); tests cover the success path.",
  [MAIN], [("buffering and late write", MAIN + ": _run, _write_output_file")],
  "file content, stdout and exit status of CLI runs")

p("C17", "Damaged input ends in a clean error, never a crash or a hang",
  "For any content of the map file and for any content of the optional project files next to it (project description, sdkconfig), the tool terminates in bounded time and memory, and either produces a report or exits with nonzero status and an error message on stderr, never with an unhandled exception; the library call raises only its documented exception. A damaged optional file never turns into a wrong report: it is treated as absent or as an error.",
  ["inputs", "fault_sequences"], "all byte contents: truncation at any point, duplicated, dropped, swapped or mutated lines and tokens, random bytes, wrong JSON shapes",
  "The space of damaged files is unbounded; tests use well-formed files.",
  [F, M, MAIN], [("parser errors", F + ": MapFileException"), ("error reporting", MAIN + ": _run"), ("optional files", M + ": get_proj_desc, _load_json_file")],
  "exit status, stderr and run time of CLI; exceptions of memorymap.get()")

p("C18", "ELF section headers and symbol tables are decoded exactly",
  "For every well-formed ELF file with ordinary section numbering and table entries of the standard sizes, 32 or 64 bit, little or big endian, the section headers (name, type, flags, address, offset, size) and symbols (name, value, size, type, binding, visibility, section index), in file order and from both static and dynamic symbol tables, are exactly those encoded in the file. A file that is not ELF, or has an unknown class or byte order, or is cut short, is rejected with the documented error.",
  ["inputs"], "all ELF layouts: class x byte order x any number, order and content of sections and symbols, shared string tables",
  "Field layout differs per class and byte order; tests have a few 32-bit little endian files.",
  [E], [("header decoding", E + ": Elf.__init__, Elf_Shdr"), ("symbol decoding", E + ": Elf.symbols, Elf_Sym")],
  "attributes of elf.Elf(fn); sections/symbols dump of the module")

p("C19", "DWARF decoding yields every entry and the right unit of each symbol",
  "For every well-formed DWARF 2 to 5 debug section (named compilation units, abbreviations numbered consecutively as compilers do, 32 or 64 bit offsets, all attribute forms that carry their value directly or in the string sections), the entries of each compilation unit are decoded with the right offsets, tags, nesting and attribute values. Each function or variable symbol is attributed to the compilation unit that defines it at its address, following its abstract origin if it has one, and symbols that no unit describes stay unattributed.",
  ["inputs"], "all abbreviation tables, DIE trees, attribute forms (LEB128 of any length and sign, blocks, strings, references), unit versions and offset sizes",
  "Each form has its own size and decoding rule; one misread shifts everything after it, and compilers emit only some forms.",
  [E], [("abbreviations and DIEs", E + ": Dwarf_CU.get_DIEs, get_dwarf_attr"), ("symbol to unit", E + ": Elf.add_cus_to_symbols")],
  "Elf.CUs[*].get_DIEs(), Elf.add_cus_to_symbols(); debug info dump of the module")

p("C20", "Link-time-optimised code is attributed to components without losing a byte",
  "When DWARF information is used, the bytes of input sections without an archive that are covered by a symbol whose source file lies in a component's directory (longest matching directory wins, whole path parts only) are charged to that component's archive and source file (symbols not overlapping, except several names of one range), and all other bytes stay where they were. The expansion never changes the sizes of sections, memory types and other archives, and nothing is expanded when LTO is neither requested nor enabled in the project configuration, or when ELF or project description are missing.",
  ["inputs", "configurations"], "all arrangements of LTO sections, symbols, gaps, compilation units and nested component directories x {--lto, --no-lto, sdkconfig}",
  "Conservation must hold for every gap/tail/full-cover arrangement; no fixture has LTO.",
  [M, E], [("expansion", M + ": _expand_input_sections"), ("auto detection", M + ": get")],
  "archives and object files of the memory map with and without --lto")

p("C21", "The report is a function of the project's content only",
  "Running the tool twice on the same project gives the same bytes for every report and format, independent of the hash seed of the interpreter, the working directory, the locale, and a relative or absolute path; moving the project directory elsewhere changes nothing but the recorded project path.",
  ["inputs", "configurations", "schedules"], "all projects and option sets x hash seeds x working directories x locales x path spellings x locations",
  "Hash randomisation differs between processes; a test in one process cannot see it.",
  [D, M, MAIN], [("iteration order of archives", D + ": get_archives_deps"), ("path handling", M + ": get")],
  "stdout of separate interpreter processes")

p("C22", "Target chip, project files and configuration are chosen correctly",
  "The chip is taken from the project description if that describes this map file (same base name as its ELF), else from the map file's own target marker (any of the three historical forms, the first in the linker script part of the file), and otherwise an error is reported; a chip without a definition is an error. The ELF file is the one that description names, looked up next to the map file; the project description and ELF of another executable in the same directory are not used, a missing ELF file leaves a map-only report, and so does a damaged one, with a message.",
  ["inputs", "configurations"], "all combinations of project description (present, mismatching, incomplete), ELF (present, missing, garbage), marker forms and chip names",
  "The decision table has many combinations; the stable tests cover none of them.",
  [M, F], [("project description", M + ": get_proj_desc, get_elf"), ("target marker", F + ": MapFile._get_target")],
  "target, sections and symbols of memorymap.get(); CLI exit status")

p("C23", "The library and the command line give the same memory map",
  "For every project the documented library calls return the same memory map the raw report shows for the same options, a map file or ELF object passed in by the caller is used instead of being loaded again, and disabling symbol loading only empties the symbol lists. Results are plain JSON data with the documented keys, repeated calls give equal results, and results of separate calls share no mutable state.",
  ["inputs", "histories"], "all projects and sequences of get/diff/unify calls with and without passed-in objects",
  "Sharing and caching bugs need particular call sequences.",
  [M, MAIN, RAW], [("library entry points", M + ": get, diff, unify"), ("raw output", RAW)],
  "return values of memorymap.get/diff/unify; raw output")

p("C24", "Names appear verbatim in every report",
  "Names of sections, archives, object files, symbols and paths containing any printable characters, including square brackets, quotes, backslashes, slashes, colons and non-ASCII letters, appear unchanged in every output format. JSON, raw and CSV output stays parseable for every name, and no name can make a report fail, disappear or change other cells.",
  ["inputs", "configurations"], "all printable names at any level x formats x report kinds",
  "Names are attacker- or user-chosen text; fixtures contain only tame ones.",
  [T, TR, CSV, J, RAW, DOT], [("rendering through a markup-interpreting console", "esp_idf_size/log.py: print"), ("formatters", "esp_idf_size/format_*.py")],
  "CLI output parsed back")

p("C25", "The tree shows the memory map faithfully to the requested depth",
  "The tree format lists every memory type, section, archive and object file of the memory map, and with --archive-details the symbols, as parent and children with their sizes (used and, when known, total for memory types). --archives stops at archives, --files at object files, and --archive-details restricts archives to the named one; nothing else is dropped.",
  ["inputs", "configurations"], "all memory maps x depth options x abbreviation x unify",
  "Structure and depth must be right for every shape of map; tests compare one fixture.",
  [TR, M], [("tree rendering", TR + ": show_memmap"), ("depth", M + ": trim")],
  "CLI tree output parsed back into a tree")

p("C26", "Standard output carries only the report and the exit status tells success",
  "On success the exit status is 0 and stdout holds the complete report in the requested format and nothing else (--debug, whose messages go to stdout, aside); warnings, notes and errors go to stderr. On failure or interruption the exit status is nonzero and stdout holds no report, --quiet suppresses all output without changing the exit status, and when the output goes to no terminal, colour codes appear only if one is forced (--force-terminal or ESP_IDF_SIZE_FORCE_TERMINAL) and colour is not disabled, and never change the text.",
  ["inputs", "configurations"], "all projects, formats, reports and option combinations, including invalid ones",
  "Stray text or codes depend on which warning fires together with which format.",
  [MAIN, "esp_idf_size/log.py"], [("console set-up", MAIN + ": _run"), ("message channels", "esp_idf_size/log.py")],
  "stdout, stderr and exit status of CLI runs")

p("C27", "Options mean the same in every spelling and act only where documented",
  "A command line gives the same report, messages and exit status whatever the order of its options, whichever of their documented names is used, however a value is attached, when a flag is repeated, a format name is written in other case or a default is written out; of a value option given twice the last value counts. Options documented as having no effect on a report leave it unchanged: --dep-* without --archive-dependencies, --sort outside table and CSV or with --archive-dependencies, --filter in json2, raw, tree and the summary, --show-unchanged without --diff, --no-abbrev with --unify (with a warning), --diff with --archive-dependencies (with a warning), and report selection and naming options in raw. --debug only adds messages in front of the report.",
  ["inputs", "configurations"], "all projects x option sets x orders and spellings x added options without effect",
  "Interactions of two dozen options over seven formats; tests use fixed command lines.",
  [MAIN, "esp_idf_size/docs/readme.md"], [("option declarations", MAIN + ": main"), ("option use in formatters", "esp_idf_size/format_*.py")],
  "stdout, stderr and exit status of CLI runs")

p("C28", "A damaged ELF file or debugging information never crashes the tool",
  "For any content of the project's ELF file the tool ends in bounded time with a report or with nonzero status and an error message, never with an unhandled exception, and the library call raises only its documented exception. Damage confined to debugging sections changes no report that does not use them; an ELF file, or debugging information, that is given up with a message leaves exactly the report made without it.",
  ["inputs", "fault_sequences"], "all byte contents of the ELF file: damaged headers, section tables, string and symbol tables, DWARF units and abbreviations, truncation",
  "ELF and DWARF data is decoded lazily in many places; tests have intact files only.",
  [E, M, MAIN], [("lazy decoding", E + ": Elf, Dwarf_CU"), ("error conversion", M + ": get, _expand_input_sections, _load_elf_file")],
  "exit status, stdout and stderr of CLI runs; exceptions of memorymap.get()")

p("C29", "The ELF inspection utility lists exactly what the file holds",
  "For every well-formed ELF file, python -m esp_idf_size.elf and the listing methods of the Elf class show each section header (-S), each symbol (-s), each abbreviation (-d abbrev), each debugging entry with its attributes (-d info) and each function or variable symbol with its source file (-d files) exactly once, in file order (-d files in any order), with the numbers, names, nesting levels, offsets and values the file holds and the standard names of types, tags, attributes and forms. Types, bindings, tags and attributes without a known name are listed as well and never end the listing.",
  ["inputs"], "all ELF files with any sections, symbols and DWARF 2 to 5 units x the listings of the utility",
  "One listing touches every decoded field; no test runs the utility.",
  [E], [("listings", E + ": Elf.dump_sections, dump_symbol_table, dump_symbol_cu, dump_abbrev_table, dump_debug_info"), ("names", E + ": *_NAME_MAP")],
  "stdout of python -m esp_idf_size.elf and of the Elf.dump_* methods")

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")

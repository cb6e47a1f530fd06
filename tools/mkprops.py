#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json. Kept as a program so both stay in step."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, qtext, why, files, mechanism, observe, level='exploration', technique='', note=''):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism], observe_at=observe, hook_needed=None),
                  _level=level, _technique=technique, _note=note))


MM = 'esp_idf_size/memorymap.py'
MF = 'esp_idf_size/mapfile.py'
EL = 'esp_idf_size/elf.py'
FT = 'esp_idf_size/format_table.py'
FC = 'esp_idf_size/format_csv.py'
FJ = 'esp_idf_size/format_json.py'
FR = 'esp_idf_size/format_raw.py'
FE = 'esp_idf_size/format_tree.py'
FD = 'esp_idf_size/format_dot.py'
DE = 'esp_idf_size/deps.py'
MA = 'esp_idf_size/main.py'
CHIP = 'esp_idf_size/chip_info'
NOTEST = 'Only the --doc test runs here; the upstream tests compare a handful of maps from a git submodule with stored outputs. '

prop('C01', 'Every byte of a memory-occupying section is counted exactly once',
     'For every link map the bytes of each output section that occupies memory are reported under the memory types its addresses belong to, each byte exactly once, '
     'and the used size of a memory type is the sum of the sizes of its sections. '
     'This holds when a section crosses memory types or adjacent regions (each part is reported where it lies), does not fit into any region (the part outside is reported as NAME_overflow of the preceding region) or is a known external RAM section (reported as external RAM even if its addresses are shared with flash). '
     'Sections that do not occupy memory of their own (empty, not allocated, and those whose names end with dummy, reserved_for_iram or noload) are never counted; without an ELF file sections named *.text, *.data, *.bss, *.rodata, *noinit, *.vectors, *.flash* and *.eh_frame* are the allocated ones.',
     ['inputs', 'configurations'], 'all link maps, with or without ELF file, for all chips, all placements of sections relative to regions and memory types',
     NOTEST + 'They cannot reach all relative positions of sections, regions and memory types.',
     [MM, MF, CHIP], [('section filtering', f'{MM}: _filter_map_sections'), ('splitting at region ends', f'{MM}: _split_map_sections'), ('assignment and overflow', f'{MM}: _get_mem_type_map')],
     ['--format raw', 'summary reports', 'memorymap.get()'],
     technique='runtime conservation monitor: raw and summary reports of generated projects against interval arithmetic over the generating model')
prop('C02', 'Bytes are attributed to the archive and object file that contributed them',
     'In every section the size reported for an archive and for an object file is the number of bytes its input sections really occupy there; padding and explicit data of the linker script are not attributed to anything. '
     'Input sections that were discarded, superseded by another one at the same address, replaced by padding, or lie outside of their output section contribute nothing, and an input section crossing a memory type boundary is divided exactly at the boundary. '
     'Object files linked without an archive are reported under the archive name (exe).',
     ['inputs'], 'all sequences of input sections, fill and data statements in all output sections',
     NOTEST + 'Misattribution of a few bytes in one corner (fill after an empty section, superseded section, boundary inside of an input section) is invisible there.',
     [MF, MM], [('map parser', f'{MF}: _get_sections'), ('splitting', f'{MM}: _split_map_sections'), ('aggregation', f'{MM}: _add_archives_to_sections')],
     ['--format raw', '--archives', '--files'],
     technique='runtime monitor: reported archive/object sizes against the generating model, plus maps written by the real GNU ld with sizes taken from nm/readelf')
prop('C03', 'The report depends on the content of the link map, not on its layout',
     'Link maps that describe the same link give the same report: wrapping of long section names onto a second line, number of hexadecimal digits, line ends, amount of blanks, discarded-section and archive-member listings, symbol assignments, wildcard patterns, assertions and other statements in between make no difference. '
     'Nor does the order in which memory regions and output sections are listed.',
     ['inputs', 'configurations'], 'all layouts of the same link',
     NOTEST + 'Each stored map has one layout.', [MF],
     [('line oriented parser', f'{MF}: MapFile')], ['--format raw for two layouts of one link'],
     technique='metamorphic runtime monitor: the same link rendered with different layouts must give identical reports')
prop('C04', 'Total memory size counts every physical byte of the regions once, per chip',
     'The total size of each memory type equals the number of distinct physical bytes that the memory regions of the link map make available in the address windows of that memory type of the chip: a region covering several memory types is divided at their borders, and memory reachable through both buses (or declared by two identical regions) is counted once. '
     'Regions are taken to coincide or not to overlap physically. Every memory type of the chip is present in the memory map, and regions outside of all memory types contribute nothing.',
     ['inputs', 'configurations'], 'all chips and all sets of memory regions',
     NOTEST + 'They sample one memory configuration for some of the chips.', [MM, CHIP],
     [('region splitting', f'{MM}: _split_memory_regions'), ('alias detection', f'{MM}: _get_mem_type_map'), ('chip description', CHIP)],
     ['--format raw --show-unused --use-flash-size'],
     technique='runtime monitor: reported totals against interval arithmetic over an independent table of the chips')
prop('C05', 'Differences are exactly current minus reference at every level',
     'With --diff (and memorymap.diff) every memory type, section, archive, object file, symbol and the image size carry the current value and the exact difference current - reference; entries present in one project only are included, with the missing side counted as zero. '
     'Hence comparing a project with itself gives only zeros, swapping both projects negates all differences, and neither input map is modified. '
     'The same holds for reports in all formats; raw and table reports name the current and the reference map file.',
     ['inputs', 'histories'], 'all pairs of projects, also for different chips',
     NOTEST + 'They cannot sample the pairs.', [MM, MA, FT, FE],
     [('union and differences', f'{MM}: diff'), ('wiring', f'{MA}: _run')], ['--diff in all formats', 'memorymap.diff()'],
     technique='runtime monitor: reported differences against differences of the two generating models; antisymmetry and identity over executions')
prop('C06', 'Unification aggregates by abbreviated name without losing or inventing bytes',
     'With --unify (and memorymap.unify) entries of one parent with the same abbreviated name become one entry, whose size and difference are the sums over them at every level, while memory type values do not change. '
     'Unifying twice is the same as unifying once, and unification commutes with comparison.',
     ['inputs'], 'all memory maps, in particular with colliding base names',
     NOTEST + 'Collisions of base names on several levels at once are not sampled.', [MM],
     [('aggregation', f'{MM}: unify'), ('per-entry names', f'{MM}: get_object_files_summary, get_symbols_summary')], ['--unify', 'memorymap.unify()'],
     technique='runtime monitor: unified reports against an independent aggregation of the generating model')
prop('C07', 'Per-archive, per-file and per-symbol reports add up and match the memory map',
     'In the --archives, --files and --archive-details reports the total of an entry is the sum of its memory types, which is the sum of their sections, and each value is the sum of what the memory map holds for that entry. '
     'Every archive, every object file and every symbol of the requested archive (of all archives with that name) has exactly one entry, no other entries exist, and all columns exist for all memory types and sections of the map.',
     ['inputs'], 'all projects, also with the same archive or object name in several directories and sections',
     NOTEST + 'They compare a few stored tables.', [MM, FT, FJ],
     [('summaries', f'{MM}: get_archives_summary, get_object_files_summary, get_symbols_summary')], ['--archives', '--files', '--archive-details'],
     technique='runtime conservation monitor over the summary reports against the generating model')
prop('C08', 'All output formats report the same numbers',
     'For the same inputs and options the table, text, csv, json2, tree and raw reports state the same sizes, totals, differences and image size for the same entries. '
     'Derived numbers are right: used percentage is used/total, remain is total - used, and both are left out (zero in JSON) if the total is not known.',
     ['inputs', 'configurations'], 'all projects and option combinations',
     NOTEST + 'Formats are compared with stored outputs for few projects.', [FT, FC, FJ, FR, FE],
     [('formatters', 'esp_idf_size/format_*.py')], ['all values of --format'],
     technique='runtime monitor: all formats of one project parsed and compared with one model')
prop('C09', 'Rows are sorted by the requested column',
     'In table and csv reports rows are in descending order of the selected column (ascending with --sort-reverse), given by positive or negative number or by its heading, default the first numeric one; --sort-diff uses the difference of that column. '
     'Sections are sorted within their memory type by the same column, tree and JSON reports are sorted by size on every level, and sorting never adds, drops or changes a row. '
     'Column 0, unknown headings and indexes out of range are refused.',
     ['inputs', 'configurations'], 'all columns, directions and projects',
     NOTEST + 'Fractions, negative values and all columns are not sampled.', [FT, MM],
     [('sorting', f'{FT}: _get_table_sorted, get_summary_table; {MM}: sort, sort_dict_by_key, get_summary_sorted')], ['--sort, --sort-diff, --sort-reverse'],
     technique='runtime order monitor over parsed reports')
prop('C10', 'Filtering keeps exactly the matching rows, unchanged',
     'With -F the archives, files, symbols or dependency reports in table, csv and dot format contain exactly the rows whose displayed name (abbreviated, or full with --no-abbrev) contains a match of at least one of the given wildcard patterns. '
     'The values of the remaining rows are the same as without the filter, and the memory summary is not affected.',
     ['inputs', 'configurations'], 'all patterns, sets of patterns and reports',
     NOTEST + 'Patterns with wildcards and alternatives are not sampled.', [MM, FT, FD],
     [('filter', f'{MM}: get_summary_filtered')], ['-F'],
     technique='runtime differential monitor: filtered report against own wildcard matching of the unfiltered one')
prop('C11', 'Hidden entries are hidden, and only those',
     'Without --show-unused memory types without used bytes and sections without any archive are left out of every report and of the used sizes, with it all of them are shown; with --diff entries that did not change are left out unless --show-unchanged is given. '
     'Without --use-flash-size the totals of flash memory types (and only of those) are reported as unknown, in the current as well as in the reference project. '
     '--no-abbrev shows the full names instead of the base names; none of these options changes any other number.',
     ['inputs', 'configurations'], 'all projects and combinations of the options',
     NOTEST + 'Option combinations are not sampled.', [MM, MA],
     [('visibility', f'{MM}: remove_unused, ignore_flash_size, trim, rem_summary_unchanged')], ['--show-unused, --show-unchanged, --use-flash-size, --no-abbrev'],
     technique='runtime monitor: reports under all option combinations against the generating model')
prop('C12', 'A failed run never touches the output file, a successful one writes the report',
     'If a run does not succeed (invalid input, option or reference, failure or interruption at any point before the complete report exists), an existing output file keeps its content and neither a missing one nor a missing directory is created. '
     'After a successful run with -o the file holds exactly the report that would have been printed to standard output, without terminal control codes, replacing previous content and creating missing directories; the report is not printed as well.',
     ['crash_points', 'fault_sequences', 'configurations'], 'all failure points before the report is complete, all formats',
     NOTEST + 'No test injects failures.', [MA],
     [('buffered output', f'{MA}: _run, _write_output_file')], ['-o', 'file system before and after the run'],
     level='fault_enumeration', technique='fault injection at executed lines and at library boundaries with a file system state monitor')
prop('C13', 'Runs are deterministic and free of side effects',
     'The same inputs and options give byte for byte the same report, independent of hash randomisation, working directory, relative or absolute input path, and of what the same process analysed before. '
     'A run modifies no input, writes nothing but the output file, and starts no other programs or network connections.',
     ['histories', 'schedules', 'configurations'], 'all inputs, hash seeds and call histories',
     NOTEST + 'Every test runs the tool once.', [MA, MM, DE, EL],
     [('ordered containers', f'{DE}'), ('fresh state per run', f'{MA}: _run')], ['reports of repeated runs', 'audit events', 'input files'],
     technique='repeated-execution monitor (hash seeds, histories) and audit-hook monitor of file, process and network events')
prop('C14', 'Symbols are reported in the object and section that holds them',
     'With an ELF file every function and object symbol with a size that lies in a reported input section is reported under its section, archive and object file with its size (divided at memory type boundaries), functions marked with (); input sections without such symbols, and all input sections if there is no ELF file, are reported under their own name. '
     'Symbols elsewhere (ROM, sizeless, other types) are not reported, and symbols of the same name in one object and section are added up. ',
     ['inputs'], 'all symbol tables and input section layouts',
     NOTEST + 'The stored maps are mostly analysed without ELF files.', [MM, EL],
     [('attribution', f'{MM}: _add_symbols_to_sections, _split_map_sections, _add_archives_to_sections')], ['--format raw', '--archive-details'],
     technique='runtime monitor: reported symbols against the generating model, and against nm for executables linked by the real GNU ld')
prop('C15', 'ELF files and DWARF information are decoded as specified',
     'For every ELF file of either class and byte order the reader yields the section and program headers, the symbols (value, size, type, binding, visibility, section, name), and for every DWARF version 2 to 5 unit of .debug_info, in 32-bit or 64-bit DWARF and type units included, the tree of entries with the values of their attributes, as defined by the ELF and DWARF specifications. '
     'This applies to files with fewer than 65280 sections whose abbreviation codes are numbered consecutively as compilers do, for all forms but the ones specific to split and supplementary object files. '
     'Reading one part never changes what another part yields, and files which are no ELF files, or whose header, header tables or section contents reach beyond the end of the file, are refused with an exception.',
     ['inputs'], 'all ELF classes, byte orders, DWARF versions, offset sizes and attribute forms',
     NOTEST + 'No ELF file is among them.', [EL],
     [('ELF reader', f'{EL}: Elf, Elf_Shdr, Elf_Sym'), ('DWARF reader', f'{EL}: Dwarf_CU')], ['esp_idf_size.elf.Elf', 'python -m esp_idf_size.elf'],
     technique='runtime differential monitor: decoded values against an independent ELF/DWARF writer and against readelf/nm on compiler output')
prop('C16', 'LTO builds: symbols are attributed to archives through DWARF, conserving bytes',
     'With --lto (or LTO enabled in sdkconfig.json) each symbol of an input section without archive that DWARF assigns to a source file (named by an absolute path) of a component listed in the project description is reported under the archive of that component and the base name of the source file; what cannot be assigned stays under (exe). '
     'Section, memory type and image sizes are the same as without it, nothing is counted twice or lost, and input sections with a known archive are not affected; --no-lto disables it.',
     ['inputs', 'configurations'], 'all symbol layouts, DWARF encodings and component lists',
     NOTEST + 'No LTO project is among them.', [MM, EL],
     [('expansion', f'{MM}: _expand_input_sections'), ('symbol to unit mapping', f'{EL}: add_cus_to_symbols')], ['--lto', '--format raw', '--archives'],
     technique='runtime monitor: LTO projects with generated DWARF against the generating model; conservation against the run without LTO')
prop('C17', 'Archive dependencies are exactly the cross references between linked archives',
     'The dependency report contains an edge from archive A to archive B with symbol S if and only if the cross reference table says that A references S defined in B, A and B are different archives with memory in the map, and S is, under the name used in that table, a defined non-absolute function or object of the ELF file; objects linked without an archive count as archive (exe), with --unify archives of one base name count as one, and sizes are those of the archives report. '
     'The reverse report is the exact transpose, and the dot, tree, table, csv, json2 and raw renderings state the same graph. '
     'Without an ELF file or cross reference table the report is refused.',
     ['inputs', 'configurations'], 'all cross reference tables',
     NOTEST + 'Few maps have a cross reference table and an ELF file.', [DE, MF, FD],
     [('graph construction', DE), ('table parser', f'{MF}: _get_cross_reference_table')], ['--archive-dependencies with --dep-reverse, --dep-symbols, all formats'],
     technique='runtime monitor: parsed dependency graphs of all formats against the generating cross reference table')
prop('C18', 'Hostile inputs are refused or reported consistently, within bounded work',
     'For any content of the map, ELF, project description and configuration files the run ends after an amount of work bounded by the input size. '
     'It either fails with a non-zero status, a message on standard error and no report on standard output, or reports a memory map that is consistent in itself (memory types, sections, archives and objects add up). '
     'Corrupt optional files (ELF, project description, sdkconfig) that cannot be used never corrupt the numbers taken from the map file.',
     ['inputs', 'fault_sequences'], 'arbitrary mutations and truncations of all input files',
     NOTEST + 'No invalid file is among them.', [MF, EL, MM, MA],
     [('parser checks', f'{MF}'), ('optional files', f'{MM}: _load_json_file, _load_elf_file'), ('error reporting', f'{MA}: _run')], ['exit status, output and executed steps of runs on mutated files'],
     technique='mutation workload under a step-counting monitor (sys.monitoring) and consistency monitors')
prop('C19', 'The image size is the size of the loaded sections',
     'The reported total image size is the sum of the sizes of all allocated ELF sections with content (those without content, such as bss, do not count); if there is no ELF file, of the reported sections of the map except bss and noinit ones. '
     'It is the same in all formats and options and does not depend on memory regions.',
     ['inputs'], 'all sets of sections', NOTEST + 'They sample few projects.', [MM, FT, FJ],
     [('image size', f'{MM}: _get_image_size')], ['raw image_size, json2 total_size, "Total image size" line'],
     technique='runtime monitor: reported image size against the generating model and against readelf for real executables')
prop('C20', 'Target and ELF file are taken from the right place',
     'The chip is the one of the project description next to the map file if it belongs to that map file, otherwise the one named in the map file; the ELF file is the one named by that project description, located relative to the map file, wherever the project has been moved to. '
     'A project description that belongs to another executable, is missing or unreadable is ignored together with its ELF file, and if no chip can be determined or the chip is unknown the run is refused. '
     'This applies to the map file as well as to the reference map file.',
     ['configurations', 'inputs'], 'all combinations of files, names and locations', NOTEST + 'They use one fixed layout of directories.', [MM, MF],
     [('selection', f'{MM}: get_proj_desc, get_elf, get'), ('target in the map', f'{MF}: _get_target')], ['target and effects of the ELF file in --format raw'],
     technique='runtime monitor over a matrix of project layouts with distinguishable decoy files')
prop('C21', 'Names are reported verbatim in every format',
     'Names of sections, archives, object files and symbols appear in every format exactly as in the input files, whatever characters they contain: brackets, balanced parentheses, blanks in paths, commas, quotes (doubled in CSV), colons, non-ASCII letters, things that look like markup. '
     'JSON output is always valid, and no name is shortened, wrapped, interpreted or lost, however long it is (table and tree rows up to the console width of 10000). '
     'Not covered: control characters, backslashes in front of a bracket or at the end, brackets which are not closed in CSV, quotes and backslashes in DOT.',
     ['inputs'], 'all names', NOTEST + 'The names there are plain.', [FT, FC, FE, FD, FJ, MF],
     [('escaping', 'esp_idf_size/format_*.py'), ('path parser', f'{MF}: _get_archive_object_file')], ['all formats'],
     technique='runtime round-trip monitor: hostile names planted in inputs must come back from every parsed report')
prop('C22', 'The Python API gives the same data as the command line and keeps its inputs',
     'memorymap.get() returns the memory map that the raw report shows, with and without symbols, for a path as well as for supplied map file and ELF objects, which are the ones really used and may be used again for other calls; the documented keys exist on all levels and all *_diff values are zero. '
     'diff() returns a new map without modifying or sharing its arguments, unify() works in place, and nothing done to a returned map affects later calls. '
     'A missing, unreadable or incomplete map file and a missing or unknown chip are raised as MemMapException, and no input makes get() end the interpreter.',
     ['inputs', 'histories'], 'all projects and call sequences', NOTEST + 'The API tests need the submodule.', [MM],
     [('API', f'{MM}: get, diff, unify, MemMapException')], ['memorymap.get/diff/unify'],
     technique='runtime monitor of API call sequences against the model and the command line')
prop('C23', 'Standard output carries the report only; verbosity and colour never change data',
     'Standard output holds nothing but the report, so that JSON and CSV output can always be parsed; notes, warnings and errors go to standard error, show names and paths verbatim, and never change or prevent the report they accompany. '
     'With --quiet nothing is printed on either stream, terminal control codes appear only with --force-terminal (without colours if --no-color is given), and removing them gives the plain report; with --debug the report follows the additional information. '
     'The exit status is zero if and only if the report was produced, and a refused run prints an error message and no report.',
     ['configurations', 'inputs'], 'all formats, options and projects, including those causing warnings', NOTEST + 'Streams are not checked separately for projects with warnings.', [MA, 'esp_idf_size/log.py', FT],
     [('console setup', f'{MA}: _run'), ('stream selection', 'esp_idf_size/log.py')], ['stdout, stderr and exit status'],
     technique='runtime stream monitor over executions with warnings, errors and all verbosity options')
prop('C24', 'Warnings are given if and only if there is a reason',
     'Every run names on standard error each thing that makes its numbers doubtful: an input section at a gap or overlap in the link map, a section or part of one that lies outside of all memory regions, a memory region outside of the memory types of the chip, two different chips with --diff, an ELF file that cannot be used, --lto without debug information, and options that exclude each other. '
     'Nothing else causes a warning or error: regular link maps, including those with padding, explicit data, empty, superseded, replaced and not counted input sections and those written by GNU ld, are reported without any. '
     'With --diff this applies to both map files.',
     ['inputs', 'configurations'], 'all link maps and reports', NOTEST + 'They do not look at standard error.', [MF, MM, MA],
     [('layout check', f'{MF}: validate'), ('regions and overflow', f'{MM}: _get_mem_type_map, _split_memory_regions'), ('option conflicts', f'{MA}: _run')], ['warnings and errors on standard error'],
     technique='runtime monitor of standard error: announced against computed reasons for regular, broken and real link maps')
prop('C25', 'Reports do not depend on the locale or the encoding of standard output',
     'Map files, project descriptions and configurations are read as UTF-8 whatever the locale is. '
     'The run succeeds in every locale and with every encoding of standard output (or, with -o, of the locale); characters missing in that encoding are written as backslash escapes and lines of tables and trees with ASCII characters, and nothing else differs. '
     'JSON output is identical everywhere, and --doc works everywhere.',
     ['configurations', 'inputs'], 'all locales, output encodings, formats and names', NOTEST + 'They run in one locale.', [MA, MM, MF, 'esp_idf_size/log.py'],
     [('output encoding', f'{MA}: _run'), ('files', f'{MM}: _load_json_file')], ['output, status and files written under different LC_ALL, PYTHONUTF8 and PYTHONIOENCODING'],
     technique='runtime differential monitor: the same run in subprocesses with different locales and encodings against the UTF-8 run')
prop('C26', 'Spelling, order and irrelevant options never change a report',
     'Aliases and short names of options, attached values, the case of the format name, text instead of table, the order of options and patterns, repeated flags and the position of the map file make no difference to output, status and files. '
     'If several kinds of reports are requested at once, the same one is given in table, csv and json2. '
     'Options that do not concern the requested report or format (sorting and filters for json2, raw and tree; filters for the summary; dependency options without dependencies; --show-unchanged without --diff; --use-flash-size without summary; --lto for the summary; report kinds for raw, dot and tree of dependencies) do not change it. '
     'Wrong command lines are refused with an error message and without a report.',
     ['configurations', 'inputs'], 'all combinations of options', NOTEST + 'They use few combinations, each in one spelling.', [MA],
     [('argument parser', f'{MA}: main'), ('choice of the report', 'esp_idf_size/format_*.py: show')], ['output, status and files for equivalent command lines'],
     technique='runtime metamorphic monitor: equivalent command lines must behave identically')


def main():
    from jsonschema import validate
    props = [{k: v for k, v in p.items() if not k.startswith('_')} for p in P]
    schema = json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for p in props:
        validate(p, schema)
        assert p['statement'].count('. ') <= 3, p['id']
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in props:
            f.write(json.dumps(p, ensure_ascii=False) + '\n')
    done = [p for p in P if os.path.exists(os.path.join(HERE, 'lib', 'checks', p['id'].lower() + '.py'))]
    man = {
        'version': 1,
        'setup_cmd': 'true',
        'checks': [{
            'property': p['id'],
            'quick_cmd': f'/opt/venv/bin/python check.py {p["id"]} --tier quick',
            'thorough_cmd': f'/opt/venv/bin/python check.py {p["id"]} --tier thorough',
            'technique': p['_technique'],
            'level': p['_level'],
            'level_note': p['_note'] or 'Held on the executions observed (counts in the evidence). Trusts the generating model, the report parsers in /verif/lib and, where used, GNU binutils. Says nothing about inputs the generators do not produce.',
        } for p in done],
        'not_applicable': [{'property': p['id'], 'reason': 'check not built yet'} for p in P if p not in done],
        'notes': 'No hooks in /repo: everything is observed at the command line, the documented Python API, audit events and sys.monitoring.',
    }
    validate(man, json.load(open('/root/.vp/MANIFEST.schema.json')))
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1, ensure_ascii=False)
        f.write('\n')
    print(len(props), 'properties', len(done), 'checks')


main()

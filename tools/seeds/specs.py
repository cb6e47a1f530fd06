SPECS = {}


def seed(id_, prop, edits, needs, breaks, demo):
    assert id_ not in SPECS
    SPECS[id_] = (prop, edits, needs, breaks, demo)


MM, MF, EL, FT, FJ, MA, DE = 'memorymap.py', 'mapfile.py', 'elf.py', 'format_table.py', 'format_json.py', 'main.py', 'deps.py'

seed('c01-resplit', 'C01', [(MM, '''            sections_splitted.append(section1)
            sections.append(section2)
''', '''            sections_splitted.append(section1)
            sections_splitted.append(section2)
''')], 'an output section crossing two or more borders of memory types or regions',
     'the remainder of a split output section is not split again, so everything beyond the second border is reported in the wrong memory type', '''
# three adjacent regions; the section crosses both borders
regs = [('a', 0x50000000, 0x100), ('b', 0x50000100, 0x100), ('c', 0x50000200, 0x40)]
m = raw(mapf([('.rtc.text', 0x50000080, 0x200, [('.rtc.text.x', 0x50000080, 0x200, 'lib.a(x.o)')])], regs), '--show-unused')
s = m['memory_types']['RTC SLOW']['sections']
assert s['.rtc.text']['size'] == 0x1c0, s
assert s['.rtc.text_overflow']['size'] == 0x40, s
assert s['.rtc.text_overflow']['archives']['lib.a']['size'] == 0x40, s
''')

seed('c02-split-fill', 'C02', [(MM, '''input_section1['size'] = min(split_addr - input_section['address'], input_section['size'])''',
                               '''input_section1['size'] = split_addr - input_section['address']''')],
     'the border of two memory types lies in the padding which follows an input section', 'padding before the border is attributed to the archive, and the second part gets a negative size', '''
m = raw(mapf([('.iram0.text', 0x40377f00, 0x200, [('.text.a', 0x40377f00, 0x80, 'lib.a(a.o)'), fill(0x40377f80, 0x100), ('.text.b', 0x40378080, 0x80, 'lib.b(b.o)')])]))
a = m['memory_types']['IRAM']['sections']['.iram0.text']['archives']
assert a['lib.a']['size'] == 0x80, a
b = m['memory_types']['DIRAM']['sections']['.iram0.text']['archives']
assert b.get('lib.a', {'size': 0})['size'] == 0, b
''')

seed('c05-ref-only', 'C05', [(MM, '''                        else:
                            symbol_info_diff['size'] = 0
                            symbol_info_diff['size_diff'] = 0 - symbol_info_ref['size']
''', '''                        else:
                            symbol_info_diff['size_diff'] = 0 - symbol_info_ref['size']
''')], '--diff with a symbol which only the reference has', 'the current size of a symbol that no longer exists is that of the reference', '''
A = ('.text.a', 0x40374000, 0x40, 'lib.a(a.o)')
cur = mapf([('.iram0.text', 0x40374000, 0x40, [A])], sub='cur')
ref = mapf([('.iram0.text', 0x40374000, 0x60, [A, ('.text.old', 0x40374040, 0x20, 'lib.a(a.o)')])], sub='ref')
m = raw(cur, '--diff', ref)
s = m['memory_types']['IRAM']['sections']['.iram0.text']['archives']['lib.a']['object_files']['a.o']['symbols']['.text.old']
assert (s['size'], s['size_diff']) == (0, -0x20), s
''')

seed('c06-unify-diff', 'C06', [(MM, '''                unified_item_info['size'] += original_item_info['size']
                unified_item_info['size_diff'] += original_item_info['size_diff']
''', '''                unified_item_info['size'] += original_item_info['size']
                unified_item_info['size_diff'] = unified_item_info['size_diff'] or original_item_info['size_diff']
''')], '--unify with --diff where two entries with the same base name both changed', 'the difference of all but one of the unified entries is lost', '''
def p(sub, a, b):
    return mapf([('.iram0.text', 0x40374000, a + b, [('.text.a', 0x40374000, a, 'x/lib.a(a.o)'), ('.text.b', 0x40374000 + a, b, 'y/lib.a(b.o)')])], sub=sub)
m = raw(p('cur', 0x40, 0x50), '--diff', p('ref', 0x30, 0x30), '--unify')
a = m['memory_types']['IRAM']['sections']['.text']['archives']['lib.a']
assert (a['size'], a['size_diff']) == (0x90, 0x30), a
''')

seed('c04-secondary', 'C04', [(MM, '''                used_length = min(mem_reg_length, mem_type_length - (mem_reg_origin - mem_type_addr))
''', '''                used_length = min(mem_reg_length, mem_type_info['primary_address'] + mem_type_length - mem_reg_origin)
                if used_length <= 0:
                    used_length = mem_reg_length
''')], 'a region on the secondary bus reaching beyond the end of its memory type', 'a region is not divided at the end of the memory type if it is addressed through the secondary bus', '''
regs = [('iram', 0x403d0000, 0x20000), ('rtc', 0x50000000, 0x2000)]
m = raw(mapf([('.iram0.text', 0x403d0000, 0x40, [('.text.a', 0x403d0000, 0x40, 'lib.a(a.o)')])], regs), '--show-unused')
assert m['memory_types']['DIRAM']['size'] == 0x10000, m['memory_types']['DIRAM']['size']
''')

seed('c13-elf-cache', 'C13', [(MM, '''def _load_elf_file(fn: str) -> Optional[Elf]:
    elf = None
    try:
        elf = Elf(fn)
''', '''_elf_files: Dict[str, Elf] = {}


def _load_elf_file(fn: str) -> Optional[Elf]:
    elf = _elf_files.get(fn)
    if elf is not None:
        return elf
    try:
        elf = _elf_files[fn] = Elf(fn)
''')], 'two analyses of one path in one process with a rebuild in between', 'the ELF file of the first analysis is used for the rebuilt project as well', '''
from esp_idf_size import memorymap
def build(n):
    fn = mapf([('.iram0.text', 0x40374000, n, [('.text.a', 0x40374000, n, 'lib.a(a.o)')])])
    desc(fn, 'app.elf')
    elf(os.path.join(TMP, 'app.elf'), [('.iram0.text', 0x40374000, n, 1, 6)], [('foo', 0x40374000, n, 2, 1)])
    return memorymap.get(fn)
assert build(0x40)['image_size'] == 0x40
assert build(0x30)['image_size'] == 0x30
''')

seed('c14-split-sym', 'C14', [(MM, '''                            symbol2['size'] = symbol['size'] - symbol1['size']
''', '''                            symbol2['size'] = symbol['size'] - split_size
''')], 'a symbol crossing the border of two memory types that does not start with its output section', 'the second part of a divided symbol has a wrong size', '''
m = raw(mapf([('.iram0.text', 0x40377f00, 0x200, [('.text.a', 0x40377f00, 0x80, 'lib.a(a.o)'), ('.text.b', 0x40377f80, 0x180, 'lib.a(b.o)')])]))
o = m['memory_types']['DIRAM']['sections']['.iram0.text']['archives']['lib.a']['object_files']['b.o']
assert o['symbols']['.text.b']['size'] == 0x100, o
''')

seed('c09-negative-column', 'C09', [(FT, '''        sort_key_idx = args['sort'] - 1 if args['sort'] > 0 else args['sort']

        if args['sort_diff']:''', '''        sort_key_idx = args['sort'] - 1

        if args['sort_diff']:''')], '--sort with a negative column in a detail report', 'negative columns are off by one', '''
fn = mapf([('.iram0.text', 0x40374000, 0x30, [('.text.a', 0x40374000, 0x10, 'a.a(a.o)'), ('.text.b', 0x40374010, 0x20, 'b.a(b.o)')]),
           ('.dram0.data', 0x3fcb0000, 0x30, [('.data.a', 0x3fcb0000, 0x20, 'a.a(a.o)'), ('.data.b', 0x3fcb0020, 0x10, 'b.a(b.o)')]),
           ('.rtc.data', 0x50000000, 0x30, [('.data.a', 0x50000000, 0x20, 'a.a(a.o)'), ('.data.b', 0x50000020, 0x10, 'b.a(b.o)')])])
r = rows(fn, '--archives')
ix = len(r[0])
for c in range(-len(r[0]) + 1, 0):
    v = [int(x[c]) for x in rows(fn, '--archives', '--sort', str(c))[1:]]
    assert v == sorted(v, reverse=True), (c, v)
''')

TR, LG, FC, FD = 'format_tree.py', 'log.py', 'format_csv.py', 'format_dot.py'

seed('c01-ext-ram', 'C01', [(MM, "map_section['name'].startswith(EXT_RAM_SECTION_NAMES)", "map_section['name'] in EXT_RAM_SECTION_NAMES")],
     'an external RAM section with a suffix (.ext_ram.bss.0) at an address shared with flash', 'the section is reported as flash', '''
m = raw(mapf([('.ext_ram.bss.0', 0x3c100000, 0x80, [('.ext_ram.bss.a', 0x3c100000, 0x80, 'lib.a(a.o)')])]
             ), '--show-unused')
''' + '''
# without an ELF file a section is recognised by its name
fn = mapf([('.ext_ram.bss.0', 0x3c100000, 0x80, [('.ext_ram.bss.a', 0x3c100000, 0x80, 'lib.a(a.o)')])])
desc(fn, 'app.elf')
elf(os.path.join(TMP, 'app.elf'), [('.ext_ram.bss.0', 0x3c100000, 0x80, 8, 3)], [])
m = raw(fn, '--show-unused')
t = [k for k, v in m['memory_types'].items() if v['used']]
assert len(t) == 1 and ('External' in t[0] or 'SPI' in t[0]), t
''')

seed('c03-region-order', 'C03', [(MM, "memory_regions_sorted = [r for r in sorted(memory_regions, key=lambda r: r['origin'] or 0)]",
                                 "memory_regions_sorted = [r for r in memory_regions]")],
     'a section outside of all regions and memory regions not listed in address order', 'the overflow is reported for a region depending on the order of the memory configuration', '''
regs = [('rtc', 0x50000000, 0x1000), ('dram', 0x3fc90000, 0x1000), ('iram', 0x40374000, 0x1000)]
S = [('.iram0.text', 0x40375000, 0x20, [('.text.a', 0x40375000, 0x20, 'lib.a(a.o)')])]
a, b = raw(mapf(S, regs), '--show-unused'), raw(mapf(S, regs[::-1]), '--show-unused')
assert a['memory_types'] == b['memory_types']
''')

seed('c04-type-of-alias', 'C04', [(MM, '''                    # memory type. Skip it, so we don't account the size of the memory region twice into the total
                    # memory type size.
                    memory_types_regions[mem_type_alias].append(mem_reg)
''', '''                    # memory type. Skip it, so we don't account the size of the memory region twice into the total
                    # memory type size.
                    memory_types_regions[mem_type_alias].remove(mem_type_reg)
''')], 'a region after two regions for the same memory', 'the size of the memory type is replaced by that of the last region', '''
regs = [('i', 0x40380000, 0x1000), ('d', 0x3fc90000, 0x1000), ('e', 0x40390000, 0x800)]
m = raw(mapf([], regs), '--show-unused')
assert m['memory_types']['DIRAM']['size'] == 0x1800, m['memory_types']['DIRAM']
''')

seed('c05-type-only', 'C05', [(MM, '''            mem_type_info_diff['size'] = 0
            mem_type_info_diff['used'] = 0
            mem_type_info_diff['size_diff'] = 0 - mem_type_info_ref['size']
''', '''            mem_type_info_diff['used'] = 0
            mem_type_info_diff['size_diff'] = 0 - mem_type_info_ref['size']
''')], '--diff with a memory type that only the reference has in use', 'the total size of a memory type which the current project does not have is that of the reference', '''
cur = mapf([('.iram0.text', 0x40374000, 0x40, [('.text.a', 0x40374000, 0x40, 'lib.a(a.o)')])], sub='cur')
ref = mapf([('.iram0.text', 0x40374000, 0x40, [('.text.a', 0x40374000, 0x40, 'lib.a(a.o)')]), ('.rtc.data', 0x50000000, 0x10, [('.rtc.data.x', 0x50000000, 0x10, 'lib.a(a.o)')])], sub='ref')
m = raw(cur, '--diff', ref)
t = m['memory_types']['RTC SLOW']
assert t['used'] == 0 and t['size'] == 0 and t['size_diff'] == -0x2000, t
''')

seed('c07-key', 'C07', [(MM, "symbol_name_full = ':'.join([archive_name, object_file_name, symbol_name])", "symbol_name_full = ':'.join([archive_name, os.path.basename(object_file_name), symbol_name])")],
     '--archive-details of (exe) with two object files of the same base name and the same symbol name', 'two symbols of different objects become one entry', '''
fn = mapf([('.iram0.text', 0x40374000, 0x60, [('.text.f', 0x40374000, 0x20, 'x/a.o'), ('.text.f', 0x40374020, 0x40, 'y/a.o')])])
r = rows(fn, '--archive-details', '(exe)', '--no-abbrev')[1:]
assert sorted(int(x[1]) for x in r) == [0x20, 0x40], r
''')

seed('c08-pct-diff', 'C08', [(FT, '''                    (section_info['size'] - section_info['size_diff'])
                    / (mem_type_info['size'] - mem_type_info['size_diff'])
''', '''                    (section_info['size'] - section_info['size_diff'])
                    / mem_type_info['size']
''')], '--diff of two projects with a different total size of a memory type', 'the difference of the used percentage of a section is wrong', '''
def p(sub, n):
    return mapf([('.iram0.text', 0x40374000, 0x100, [('.text.a', 0x40374000, 0x100, 'lib.a(a.o)')])], [('iram', 0x40374000, n)], sub=sub)
r = rows(p('cur', 0x400), '--diff', p('ref', 0x800), '--show-unchanged')
sec = [x for x in r if x[0] == '.text'][0]
assert sec[2].split()[1] == '+12.5', sec
''')

seed('c08-free', 'C08', [(FJ, "mem_type_info['size'] - mem_type_info['used'] if mem_type_info['size'] else 0", "max(mem_type_info['size'] - mem_type_info['used'], 0)")],
     'a memory type which overflows', 'free is clamped to zero, in contrast to the remain column of the other formats', '''
fn = mapf([('.iram0.text', 0x40374000, 0x30, [('.text.a', 0x40374000, 0x30, 'lib.a(a.o)')])], [('iram', 0x40374000, 0x20)])
j = json.loads(run('--format', 'json2', fn).stdout)
t = [x for x in j['layout'] if x['name'] == 'IRAM'][0]
assert t['free'] == -0x10, t
''')

seed('c09-sections-unsorted', 'C09', [(FT, "sections_sorted = memorymap.sort_dict_by_key(mem_type_info['sections'], sort_key, args['sort_reverse'])",
                                      "sections_sorted = memorymap.sort_dict_by_key(mem_type_info['sections'], sort_key.replace('pct', 'used'), args['sort_reverse'])")],
     '--sort by the used percentage with --sort-diff and totals that differ between the projects', 'sections are sorted by their difference in bytes instead of the difference of the percentage', '''
def p(sub, n, a, b):
    return mapf([('.iram0.text', 0x40374000, a, [('.text.a', 0x40374000, a, 'lib.a(a.o)')]), ('.iram0.data', 0x40374800, b, [('.data.a', 0x40374800, b, 'lib.a(a.o)')])],
                [('iram', 0x40374000, n)], sub=sub)
# used: text 0x100 -> 0x110 (+16), data 0x800 -> 0x820 (+32); percent: text 6.25 -> 3.32 (-2.9), data 50 -> 25.4 (-24.6)
r = rows(p('cur', 0x2000, 0x110, 0x820), '--diff', p('ref', 0x1000, 0x100, 0x800), '--show-unchanged', '--sort', '2', '--sort-diff', '--sort-reverse')
n = [x[0] for x in r if x[0].startswith('.')]
assert n == ['.data', '.text'], r
''')

seed('c11-unused-used', 'C11', [(MM, '''        mem_type_info['used'] = 0
        for section_name, section_info in mem_type_info['sections'].items():
            mem_type_info['used'] += section_info['size']
''', '''        mem_type_info['used'] = 0
        for section_name, section_info in mem_type_info['sections'].items():
            mem_type_info['used'] += sum(a['size'] for a in section_info['archives'].values())
''')], 'a section with padding', 'the used size does not include padding unless --show-unused is given', '''
fn = mapf([('.iram0.text', 0x40374000, 0x60, [('.text.f', 0x40374000, 0x20, 'x.a(a.o)'), fill(0x40374020, 0x20), ('.text.f', 0x40374040, 0x20, 'y.a(a.o)')])])
assert raw(fn)['memory_types']['IRAM']['used'] == 0x60
''')

seed('c15-uleb-pad', 'C15', [(EL, '''            res |= (data[offset + idx] & 0x7F) << (idx * 7)
            idx += 1
            if not data[offset + idx - 1] & 0x80:
                break
''', '''            res |= (data[offset + idx] & 0x7F) << (idx * 7)
            idx += 1
            if not data[offset + idx - 1] & 0x80 or idx == 9:
                break
''')], 'a LEB128 number of ten bytes (64-bit values such as -1 as unsigned, or padded ones)', 'large LEB128 numbers are cut after nine bytes and the rest of the entry is misread', '''
fn = os.path.join(TMP, 'x.elf')
elf(fn, [('.text', 0x1000, 16, 1, 6)], [('f', 0x1000, 4, 2, 1)])
from esp_idf_size.elf import Elf
e = Elf(fn)
d = bytes([0xff] * 9 + [1, 0x55])
assert e.get_uleb128(d) == (2 ** 64 - 1, 10)
''')

seed('c17-rev-size', 'C17', [(DE, '''                archives[def_archive]['archives'][ref_archive] = {
                    'abbrev_name': os.path.basename(ref_archive),
                    'size': archives_sizes[ref_archive]['size'],
''', '''                archives[def_archive]['archives'][ref_archive] = {
                    'abbrev_name': os.path.basename(ref_archive),
                    'size': archives_sizes.get(def_archive, archives_sizes[ref_archive])['size'],
''')], '--dep-reverse', 'sizes of the dependents are those of the defining archive', '''
fn = mapf([('.iram0.text', 0x40374000, 0x60, [('.text.f', 0x40374000, 0x20, 'x.a(a.o)'), ('.text.g', 0x40374020, 0x40, 'y.a(b.o)')])], crt=[('f', ['x.a(a.o)', 'y.a(b.o)'])])
desc(fn, 'app.elf')
elf(os.path.join(TMP, 'app.elf'), [('.iram0.text', 0x40374000, 0x60, 1, 6)], [('f', 0x40374000, 0x20, 2, 1), ('g', 0x40374020, 0x40, 2, 1)])
m = raw(fn, '--archive-dependencies', '--dep-reverse')
assert m['x.a']['archives']['y.a']['size'] == 0x40, m
''')

seed('c17-drop-def', 'C17', [(DE, '''        refs_filtered = [(arch, obj) for arch, obj in refs[1:] if arch in archives and arch != def_archive]
''', '''        refs_filtered = [(arch, obj) for arch, obj in refs[1:] if arch in archives and archives[arch]['abbrev_name'] != archives[def_archive]['abbrev_name']]
''')], 'two archives of the same base name in different directories, one using the other', 'a dependency between archives with the same base name is lost', '''
fn = mapf([('.iram0.text', 0x40374000, 0x60, [('.text.f', 0x40374000, 0x20, 'a/x.a(a.o)'), ('.text.g', 0x40374020, 0x40, 'b/x.a(b.o)')])], crt=[('f', ['a/x.a(a.o)', 'b/x.a(b.o)'])])
desc(fn, 'app.elf')
elf(os.path.join(TMP, 'app.elf'), [('.iram0.text', 0x40374000, 0x60, 1, 6)], [('f', 0x40374000, 0x20, 2, 1), ('g', 0x40374020, 0x40, 2, 1)])
m = raw(fn, '--archive-dependencies')
assert list(m) == ['b/x.a'], m
''')

seed('c18-sdkconfig', 'C18', [(MM, '''            use_dwarf = sdkconfig.get('COMPILER_LTO_LINKTIME', False)
''', '''            use_dwarf = sdkconfig['COMPILER_LTO_LINKTIME']
''')], 'a sdkconfig.json that is valid JSON without COMPILER_LTO_LINKTIME', 'the run ends with a traceback because of an optional file', '''
fn = mapf([('.iram0.text', 0x40374000, 0x20, [('.text.f', 0x40374000, 0x20, 'x.a(a.o)')])])
os.mkdir(os.path.join(TMP, 'config'))
open(os.path.join(TMP, 'config', 'sdkconfig.json'), 'w').write('{}')
assert raw(fn)['memory_types']['IRAM']['used'] == 0x20
''')

seed('c19-noinit', 'C19', [(MM, "if sec['name'].endswith(('.bss', 'noinit')):", "if sec['name'].endswith(('.bss', '.noinit')):")],
     'no ELF file, and a noinit section named with an underscore (.ext_ram_noinit, .rtc_noinit)', 'such sections count as part of the image', '''
m = raw(mapf([('.rtc_noinit', 0x50000000, 0x20, [('.rtc_noinit.a', 0x50000000, 0x20, 'lib.a(a.o)')]), ('.iram0.text', 0x40374000, 0x20, [('.text.f', 0x40374000, 0x20, 'x.a(a.o)')])]))
assert m['image_size'] == 0x20, m['image_size']
''')

seed('c20-stem', 'C20', [(MM, '''    map_stem = os.path.splitext(os.path.basename(map_fn))[0]
    elf_stem = os.path.splitext(os.path.basename(app_elf))[0]
''', '''    map_stem = os.path.basename(map_fn).split('.')[0]
    elf_stem = os.path.basename(app_elf).split('.')[0]
''')], 'a project name with a dot (app.v1.map next to the description of app.v2.elf)', 'the description and ELF file of another executable are used', '''
fn = mapf([('.iram0.text', 0x40374000, 0x20, [('.text.f', 0x40374000, 0x20, 'x.a(a.o)')])], name='app.v1')
desc(fn, 'app.v2.elf', target='esp32')
assert raw(fn)['target'] == 'esp32s3'
''')

seed('c20-build-dir', 'C20', [(MM, '''    dirname = os.path.dirname(map_fn)
    elf_fn = os.path.join(dirname, proj_desc['app_elf'])
    if not os.path.isfile(elf_fn):
        return None
''', '''    dirname = os.path.dirname(map_fn)
    elf_fn = os.path.join(dirname, proj_desc['app_elf'])
    if not os.path.isfile(elf_fn):
        elf_fn = os.path.join(proj_desc.get('build_dir', dirname), proj_desc['app_elf'])
    if not os.path.isfile(elf_fn):
        return None
''')], 'a moved project without ELF file while the original build directory still exists', 'the ELF file of another build is used', '''
fn = mapf([('.iram0.text', 0x40374000, 0x20, [('.text.f', 0x40374000, 0x20, 'x.a(a.o)')])], sub='moved')
bd = os.path.join(TMP, 'orig'); os.mkdir(bd)
desc(fn, 'app.elf', build_dir=bd)
elf(os.path.join(bd, 'app.elf'), [('.iram0.text', 0x40374000, 0x60, 1, 6)], [('f', 0x40374000, 0x10, 2, 1)])
assert raw(fn)['image_size'] == 0x20
''')

seed('c21-tree-escape', 'C21', [(TR, '''                    for symbol_name, symbol_info in object_file_info['symbols'].items():
                        name = symbol_name
''', '''                    for symbol_name, symbol_info in object_file_info['symbols'].items():
                        name = symbol_name.split(' ')[0]
''')], 'a symbol name with a blank (demangled or of another language)', 'the name is cut at the blank in tree reports', '''
fn = mapf([('.iram0.text', 0x40374000, 0x20, [('.text.f', 0x40374000, 0x20, 'x.a(a.o)')])])
desc(fn, 'app.elf')
elf(os.path.join(TMP, 'app.elf'), [('.iram0.text', 0x40374000, 0x20, 1, 6)], [('foo bar', 0x40374000, 0x20, 2, 1)])
r = run('--format', 'tree', '--archive-details', 'x.a', fn)
assert 'foo bar() 32' in r.stdout, r.stdout
''')

seed('c21-basename', 'C21', [(MM, "'abbrev_name': os.path.basename(object_file_name),\n                    'size': 0,", "'abbrev_name': os.path.basename(object_file_name).split(':')[-1],\n                    'size': 0,")],
     'an object file name with a colon', 'the part before the colon is lost', '''
fn = mapf([('.iram0.text', 0x40374000, 0x20, [('.text.f', 0x40374000, 0x20, 'x.a(m:a.o)')])])
r = run('--format', 'tree', '--files', fn)
assert 'm:a.o 32' in r.stdout, r.stdout
''')

seed('c22-shared-ref', 'C22', [(MM, "sections_diff[section_name_ref] = copy.deepcopy(section_info_ref)", "sections_diff[section_name_ref] = copy.copy(section_info_ref)")],
     'diff() with a section which only the reference has', 'entries of the reference map are modified by diff()', '''
import copy
from esp_idf_size import memorymap
A = ('.text.a', 0x40374000, 0x40, 'lib.a(a.o)')
cur = memorymap.get(mapf([('.iram0.text', 0x40374000, 0x40, [A])], sub='cur'))
ref = memorymap.get(mapf([('.iram0.text', 0x40374000, 0x40, [A]), ('.iram0.data', 0x40374040, 0x10, [('.data.x', 0x40374040, 0x10, 'lib.a(a.o)')])], sub='ref'))
b = copy.deepcopy(ref)
memorymap.diff(cur, ref)
assert ref == b
''')

seed('c22-map-ignored', 'C22', [(MM, 'map_file = map_file or mapfile.MapFile(map_fn)', 'map_file = map_file if map_file is not None and map_file.fn == map_fn else mapfile.MapFile(map_fn)')],
     'get() with a MapFile object made from a relative path or another file', 'the supplied MapFile object is not used', '''
from esp_idf_size import memorymap, mapfile
A = ('.text.a', 0x40374000, 0x40, 'lib.a(a.o)')
x = mapf([('.iram0.text', 0x40374000, 0x40, [A])], sub='x')
y = mapf([('.iram0.text', 0x40374000, 0x40, [A]), ('.iram0.data', 0x40374040, 0x10, [('.data.x', 0x40374040, 0x10, 'lib.a(a.o)')])], sub='y')
assert memorymap.get(x, map_file=mapfile.MapFile(y))['memory_types']['IRAM']['used'] == 0x50
''')

seed('c24-squad', 'C24', [(MF, "EXPLICIT_BYTES = ['BYTE', 'SHORT', 'LONG', 'QUAD', 'SQUAD']", "EXPLICIT_BYTES = ['BYTE', 'SHORT', 'LONG', 'QUAD']")],
     'explicit data of the kind SQUAD in an output section', 'a wrong warning about the layout of a sound link map', """
A, B = ('.text.a', 0x40374000, 0x40, 'lib.a(a.o)'), ('.text.b', 0x40374048, 0x40, 'lib.b(b.o)')
for kind in ('QUAD', 'SQUAD'):
    r = run(mapf([('.iram0.text', 0x40374000, 0x88, [A, f'                0x0000000040374040        0x8 {kind} 0x0', B])]))
    assert r.returncode == 0 and 'WARNING' not in r.stderr, (kind, r.stderr)
""")

seed('c10-anchored', 'C10', [(MM, """            if fnmatch(name, f'*{pattern}*'):
""", """            if fnmatch(name, pattern if any(c in pattern for c in '*?[') else f'*{pattern}*'):
""")], 'a pattern with a wildcard that matches a part of the name only', 'patterns with wildcards have to match the whole name', """
fn = mapf([('.iram0.text', 0x40374000, 0x60, [('.text.f', 0x40374000, 0x20, 'libab.a(a.o)'), ('.text.f', 0x40374020, 0x40, 'c.a(a.o)')])])
assert [x[0] for x in rows(fn, '--archives', '-F', 'a?.')[1:]] == ['libab.a']
""")

seed('c12-interrupt', 'C12', [(MA, """    except KeyboardInterrupt:
        sys.exit(1)
""", """    except KeyboardInterrupt:
        if ofile is not None:
            # Keep what is already available
            _write_output_file(args['output_file'], ofile.getvalue())
        sys.exit(1)
""")], '-o and an interrupt before the report is complete', 'an interrupted run replaces the output file by an incomplete report', """
import signal, time
out, fifo = os.path.join(TMP, 'r.txt'), os.path.join(TMP, 'app.map')
open(out, 'w').write('previous')
os.mkfifo(fifo)
p = subprocess.Popen([PY, '-m', 'esp_idf_size', '-o', out, fifo], env=dict(os.environ, PYTHONPATH=os.getcwd()),
                     preexec_fn=lambda: signal.signal(signal.SIGINT, signal.SIG_DFL))
fd = os.open(fifo, os.O_WRONLY)  # returns as soon as the map file is opened
time.sleep(.3)
p.send_signal(signal.SIGINT)
assert p.wait(60) != 0
assert open(out).read() == 'previous', open(out).read()
""")

seed('c23-target-note', 'C23', [(MA, """                log.warn(
                    f'The target of the reference""", """                log.print(
                    f'The target of the reference""")], '--diff of projects for different chips', 'the note is printed to standard output, JSON and CSV can no longer be parsed', """
S = [('.rtc.data', 0x50000000, 0x20, [('.data.f', 0x50000000, 0x20, 'x.a(a.o)')])]
raw(mapf(S, sub='a'), '--diff', mapf(S, sub='b', target='ESP32S2'))
""")

seed('c16-longest', 'C16', [(MM, "sorted(components, key=lambda c: len(c['component_path']), reverse=True)", "sorted(components, key=lambda c: len(c['archive_relpath']), reverse=True)")],
     'nested components whose archive paths are not ordered like their directories', 'a symbol of the inner component is reported under the outer one', """
fn = mapf([('.iram0.text', 0x40374000, 0x18, [('.text', 0x40374000, 0x18, '/tmp/x.ltrans0.o')])])
desc(fn, 'app.elf', build_component_info={'foo': dict(dir='/src/foo', file='/build/foo_outer/libfoo_outer.a'), 'in': dict(dir='/src/foo/in', file='/build/i/i.a')})
elf(os.path.join(TMP, 'app.elf'), [('.iram0.text', 0x40374000, 0x18, 1, 6)], [('f', 0x40374000, 0x18, 2, 1)], dwarf([('/src/foo/in/f.c', [('f', 0x40374000)])]))
a = raw(fn, '--lto')['memory_types']['IRAM']['sections']['.iram0.text']['archives']
assert set(a) == {'i/i.a'}, a
""")

seed('c24-overlap', 'C24', [(MF, "if start_addr + offset != input_section['address']:", "if start_addr + offset < input_section['address']:")],
     'a link map with input sections that overlap', 'only gaps are announced, overlapping input sections are counted twice silently', """
def err(size):
    return run(mapf([('.iram0.text', 0x40374000, 0x80, [('.text.a', 0x40374000, size, 'lib.a(a.o)'), ('.text.b', 0x40374040, 0x40, 'lib.b(b.o)')])])).stderr
assert 'WARNING' not in err(0x40)
assert '.text.b' in err(0x44), err(0x44)
""")

seed('c24-region-tail', 'C24', [(MM, '''                    log.warn(f'cannot assign memory region {mem_reg["name"]} to chip memory type')
''', '''                    if mem_reg_origin == mem_reg['origin']:
                        log.warn(f'cannot assign memory region {mem_reg["name"]} to chip memory type')
''')], 'a memory region which begins inside of the chip memory and extends beyond it', 'the part of a memory region outside of the chip memory is dropped silently', """
r = run(mapf([('.rtc.text', 0x50000000, 0x20, [('.rtc.text.x', 0x50000000, 0x20, 'lib.a(x.o)')])], [('iram0_0_seg', 0x40374000, 0x1000), ('rtc_slow_seg', 0x50000000, 0x4000)]))
assert r.returncode == 0 and 'rtc_slow_seg' in r.stderr, r.stderr
""")

seed('c24-target-prefix', 'C24', [(MA, "if memmap['target'] != memmap['target_diff']:", "if not memmap['target'].startswith(memmap['target_diff']):")],
     '--diff of a project for a chip whose name begins with the name of the other one', 'comparing ESP32-S3 with ESP32 gives no warning', """
S = [('.rtc.data', 0x50000000, 0x20, [('.data.f', 0x50000000, 0x20, 'x.a(a.o)')])]
a, b = mapf(S, sub='a'), mapf(S, [('rtc', 0x50000000, 0x1000)], sub='b', target='ESP32')
for x, y in ((a, b), (b, a)):
    assert 'WARNING' in run(x, '--diff', y).stderr
""")

C25ENV = "env=dict(LC_ALL='C', PYTHONUTF8='0', PYTHONCOERCECLOCALE='0', PYTHONIOENCODING='')"
C25MAP = "fn = mapf([('.iram0.text', 0x40374000, 0x20, [('.text.f', 0x40374000, 0x20, 'lib\u00fc.a(a.o)')])])\n"
seed('c25-replace', 'C25', [(MA, "_OutputBuffer.encoding, errors='backslashreplace')", "_OutputBuffer.encoding, errors='replace')")],
     '-o in a locale whose encoding lacks a character of a name', 'such characters are replaced by question marks, different names become equal', f"""
{C25MAP}out = os.path.join(TMP, 'o.csv')
r = run('--format', 'csv', '--archives', '-o', out, fn, {C25ENV})
assert r.returncode == 0, r.stderr
assert 'lib\\\\xfc.a' in open(out, encoding='ascii').read()
""")

seed('c25-buffer', 'C25', [(MA, "    encoding = locale.getpreferredencoding(False)\n", "    pass\n"), (MA, "path.write_text(data, encoding=_OutputBuffer.encoding, errors", "path.write_text(data, encoding=locale.getpreferredencoding(False), errors")],
     '-o with a table in a locale without box drawing characters', 'lines of the table are written as escape sequences', f"""
{C25MAP}out = os.path.join(TMP, 'o.txt')
r = run('--archives', '-o', out, fn, {C25ENV})
assert r.returncode == 0, r.stderr
assert '\\\\u2' not in open(out, encoding='ascii').read()
""")

seed('c26-kinds', 'C26', [('format_csv.py', """    elif args['archive_details']:
        show_symbols(memmap, args)
    elif args['archive_dependencies']:
        show_archives_dependencies(memmap, map_file, elf, args)
    elif args['files']:
        show_object_files(memmap, args)
""", """    elif args['files']:
        show_object_files(memmap, args)
    elif args['archive_details']:
        show_symbols(memmap, args)
    elif args['archive_dependencies']:
        show_archives_dependencies(memmap, map_file, elf, args)
""")], '--files together with --archive-details', 'csv gives another report than table and json2', """
fn = mapf([('.iram0.text', 0x40374000, 0x20, [('.text.f', 0x40374000, 0x20, 'lib.a(a.o)')])])
for o in (['--files', '--archive-details', 'lib.a'], ['--archives', '--files']):
    assert [x[0] for x in rows(fn, '--no-abbrev', *o)[1:]] == [x for x in json.loads(run(fn, '--format', 'json2', *o).stdout)]
""")

seed('c26-filter-json', 'C26', [(MM, """            mem_type_info['sections'] = sort_dict_by_key(mem_type_info['sections'], sort_key, reverse)

    return entries
""", """            mem_type_info['sections'] = sort_dict_by_key(mem_type_info['sections'], sort_key, reverse)

    return get_summary_filtered(entries, args)
""")], '--filter with json2', 'the filter, which is for table, csv and dot only, removes entries of json2 reports', """
fn = mapf([('.iram0.text', 0x40374000, 0x60, [('.text.f', 0x40374000, 0x20, 'a.a(a.o)'), ('.text.f', 0x40374020, 0x40, 'b.a(b.o)')])])
assert set(json.loads(run('--format', 'json2', '--archives', '-F', 'b.a', fn).stdout)) == {'a.a', 'b.a'}
""")

seed('c26-case', 'C26', [(MA, "'raw', 'dot'], case_sensitive=False),", "'raw', 'dot']),")], 'a format name in upper case', 'it is refused', """
fn = mapf([('.iram0.text', 0x40374000, 0x20, [('.text.f', 0x40374000, 0x20, 'a.a(a.o)')])])
assert run('--format', 'CSV', fn).stdout == run('--format', 'csv', fn).stdout
""")

"""Projects compiled by the real gcc and linked by the real GNU ld (32-bit x86 code placed at ESP addresses).

The map files come from the linker itself, so nothing of their layout is assumed here.  Ground truth:
section headers of the object files and of the executable (readelf), symbols of the executable (nm) and symbol
names which encode the archive and object file they were defined in.
"""

import json
import os
import random
import re
import subprocess
from typing import Any, Dict, List, Tuple

REGIONS = {
    'esp32s3': [('iram0_0_seg', 0x40374000, 0x403CB700 - 0x40374000, 'RX'), ('dram0_0_seg', 0x3FC88000, 0x3FCDB700 - 0x3FC88000, 'RW'),
                ('iram0_2_seg', 0x42000020, 0x7FFFE0, 'RX'), ('drom0_0_seg', 0x3C000020, 0x1FFFFE0, 'R'), ('rtc_slow_seg', 0x50000000, 0x1FE8, 'RW')],
    'esp32c3': [('iram0_0_seg', 0x4037C000, 0x403D0000 - 0x4037C000, 'RX'), ('dram0_0_seg', 0x3FC80000, 0x50000, 'RW'),
                ('iram0_2_seg', 0x42000020, 0x7FFFE0, 'RX'), ('drom0_0_seg', 0x3C000020, 0x7FFFE0, 'R'), ('rtc_slow_seg', 0x50000000, 0x1FF0, 'RW')],
    'esp32': [('iram0_0_seg', 0x40080000, 0x20000, 'RX'), ('dram0_0_seg', 0x3FFB0000, 0x2C200, 'RW'), ('iram0_2_seg', 0x400D0020, 0x32FFE0, 'RX'),
              ('drom0_0_seg', 0x3F400020, 0x3FFFE0, 'R'), ('rtc_slow_seg', 0x50000000, 0x1000, 'RW')],
}
DIRS = ['esp-idf/{0}/lib{0}.a', 'lib/lib{0}.a', 'my libs (x86)/lib{0}.a', 'build/{0}/lib{0}.a', 'b[1]/lib{0}.a', 'ünï/lib{0}.a']
WORDS = ['main', 'heap', 'log', 'freertos', 'hal', 'soc']

OUT = [  # output section, input patterns, region
    ('.rtc.data', ['.rtc.data', '.rtc.data.*'], 'rtc_slow_seg'),
    ('.iram0.text', ['.iram1', '.iram1.*'], 'iram0_0_seg'),
    ('.dram0.data', ['.data', '.data.*', '.sdata', '.sdata.*'], 'dram0_0_seg'),
    ('.dram0.bss', ['.bss', '.bss.*', 'COMMON', '.sbss', '.sbss.*'], 'dram0_0_seg'),
    ('.flash.rodata', ['.rodata', '.rodata.*', '.rodata1'], 'drom0_0_seg'),
    ('.flash.init_array', ['.init_array', '.init_array.*'], 'drom0_0_seg'),
    ('.flash.text', ['.text', '.text.*', '.literal', '.literal.*'], 'iram0_2_seg'),
]

ORPHANS = [('app_hooks', True), ('_state_tbl$1', False)]  # name, constant


def sh(args: List[str], cwd: str) -> str:
    r = subprocess.run(args, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env={**os.environ, 'LC_ALL': 'C.UTF-8'})
    if r.returncode:
        raise RuntimeError(f'{args[:3]}: {r.stdout.decode("utf-8", "replace")[-800:]}')
    return r.stdout.decode('utf-8', 'replace')


class Real:
    """A built project. files: [(archive path or None, object name, id)]"""

    def __init__(self, d: str, seed: int, lto: bool = False, big: bool = False, chip: str = '', cref: bool = True):
        self.dir, self.lto, self.seed, self.cref = d, lto, seed, cref
        rng = self.rng = random.Random(seed)
        self.chip = chip or rng.choice(sorted(REGIONS))
        # sections the script does not mention, with names as used for __start_ and __stop_ symbols
        self.orphans = random.Random(f'orphans{seed}').random() < 0.4 and not lto
        self.files: List[Tuple[Any, str, str, str]] = []  # archive, object, id, source
        self.name = 'app'
        self.gen(big)

    # ------------------------------------------------------------------------------------ sources
    def gen(self, big: bool) -> None:
        rng, d = self.rng, self.dir
        narch = rng.choice([2, 3, 4])
        words = rng.sample(WORDS, narch)
        self.comps: Dict[str, Any] = {}
        opt = rng.choice(['-O0', '-O1', '-O2', '-Os', '-Og'])
        self.gc = rng.random() < 0.5
        cflags = ['-m32', '-ffreestanding', '-fno-pic', '-fno-pie', '-fcommon', opt, f'-gdwarf-{rng.choice([2, 3, 4, 5])}', '-fno-asynchronous-unwind-tables', '-fno-stack-protector',
                  '-fcf-protection=none', '-w']
        if rng.random() < 0.8:
            cflags += ['-ffunction-sections', '-fdata-sections']
        if not rng.random() < 0.3:
            cflags.append('-fno-merge-constants')
        if self.lto:
            cflags += ['-flto', '-ffunction-sections', '-fdata-sections']
        defs: List[str] = []
        srcs = []
        for ai, w in enumerate(words):
            pat = DIRS[0] if self.lto else rng.choice(DIRS)
            arch = pat.format(w)
            for oi in range(rng.choice([1, 2, 3])):
                ident = f'a{ai}o{oi}'
                obj = rng.choice(['util', 'core', w, 'port']) + f'_{oi}.c.obj'
                srcs.append((arch, w, obj, ident))
        if not self.lto:
            for oi in range(rng.choice([0, 1])):
                srcs.append((None, 'exe', f'CMakeFiles/app.elf.dir/gen{oi}.c.obj', f'x0o{oi}'))
        fns: List[str] = []
        for arch, w, obj, ident in srcs:
            for k in range(rng.choice([1, 2, 4])):
                fns.append(f'{ident}_f{k}')
        per_arch: Dict[str, List[str]] = {}
        direct: List[str] = []
        for arch, w, obj, ident in srcs:
            src = os.path.join(d, 'components', w, f'{ident}_{os.path.basename(obj)[:-4]}')
            os.makedirs(os.path.dirname(src), exist_ok=True)
            with open(src, 'w') as f:
                f.write(self.source(rng, ident, [x for x in fns if x.startswith(ident + '_')], fns, big))
            ofile = os.path.join(d, 'obj', ident, obj) if arch else os.path.join(d, obj)
            os.makedirs(os.path.dirname(ofile), exist_ok=True)
            sh(['gcc', *cflags, '-c', src, '-o', ofile], d)
            self.files.append((arch, os.path.basename(obj) if arch else obj, ident, ofile))
            if arch:
                per_arch.setdefault(arch, []).append(ofile)
            else:
                direct.append(obj)
            self.comps[w] = {'dir': os.path.join(d, 'components', w), 'file': os.path.join(d, arch) if arch else '', 'sources': [src], 'type': 'LIBRARY'}
        for arch, objs in per_arch.items():
            os.makedirs(os.path.dirname(os.path.join(d, arch)), exist_ok=True)
            sh(['gcc-ar', 'rcs', arch, *objs], d)
        with open(os.path.join(d, 'app.ld'), 'w') as f:
            f.write(self.script())
        args = ['-Map=app.map', *(['--cref'] if self.cref else []), '-T', 'app.ld', '-e', fns[0]]
        if self.gc:
            args.append('--gc-sections')
        keep = rng.sample(fns, max(1, len(fns) // 2))
        args += [x for k in keep for x in ('-u', k)]
        archives = list(per_arch)
        if self.lto:
            self.link = lambda extra: sh(['gcc', '-m32', '-flto', '-g', '-nostdlib', '-no-pie', opt, '-ffunction-sections', '-fdata-sections', '-o', 'app.elf', *direct,
                *['-Wl,' + ','.join(args[k:k + 1]) for k in range(len(args))], *['-Wl,' + e for e in extra], '-Wl,--start-group', *archives, '-Wl,--end-group'], d)
        else:
            whole = not self.gc and rng.random() < 0.5
            self.link = lambda extra: sh(['ld', '-m', 'elf_i386', '-o', 'app.elf', *args, *extra, *direct, *(['--whole-archive'] if whole else ['--start-group']), *archives,
                *(['--no-whole-archive'] if whole else ['--end-group'])], d)
        self.link([])
        with open(os.path.join(d, 'project_description.json'), 'w') as f:
            json.dump({'version': '1.2', 'target': self.chip, 'app_elf': 'app.elf', 'build_dir': d, 'project_name': 'app', 'build_component_info': self.comps}, f)
        self.map = os.path.join(d, 'app.map')
        self.elf = os.path.join(d, 'app.elf')

    def relink(self, extra: List[str]) -> None:
        self.link(extra)

    def source(self, rng, ident: str, mine: List[str], fns: List[str], big: bool) -> str:
        L = []
        others = rng.sample(fns, min(len(fns), rng.choice([1, 2, 3])))
        for o in others:
            if o not in mine:
                L.append(f'extern int {o}(int);')
        for v in range(rng.choice([1, 2, 3])):
            kind = rng.randrange(7)
            n = rng.choice([1, 3, 7, 40])
            nm = f'{ident}_v{v}'
            L.append({0: f'int {nm}[{n}] = {{1}};', 1: f'int {nm}[{n}];', 2: f'static volatile int {nm}[{n}];', 3: f'const int {nm}[{n}] = {{{v + 1}}};',
                      4: f'__attribute__((section(".rtc.data.{v}"))) int {nm}[{n}] = {{2}};', 5: f'__attribute__((common)) int {nm}[{n}];',
                      6: f'static const volatile char {nm}[{n}] = "x";'}[kind])
        vs = [ln for ln in L if f'{ident}_v' in ln]
        names = [re.search(rf'{ident}_v\d+', ln).group(0) for ln in vs]
        for k, f in enumerate(mine):
            attr = '__attribute__((noinline, used%s)) ' % (f', section(".iram1.{k}")' if rng.random() < 0.4 else '')
            body = ' + '.join([f'a * {k + 3}'] + [f'((volatile int *)&{n})[0]' for n in names] + [f'{o}(a)' for o in others if o != f and rng.random() < 0.6])
            s = f'const char *p = "{ident} string {k}"; ' if rng.random() < 0.4 else ''
            pad = ''
            if big and 'iram1' in attr:
                pad = f'__asm__ volatile (".space {rng.choice([1000, 5000, 9000])}"); '
            L.insert(0, f'int {f}(int);')
            L.append(f'static int {ident}_s{k}(int a) {{ return a ^ {k + 7}; }}' if rng.random() < 0.3 else '')
            L.append(f'{attr}int {f}(int a) {{ {s}{pad}return {body}{" + (int)p[a & 3]" if s else ""}; }}')
        if random.Random(ident + str(len(L))).random() < 0.5:
            L.append(f'__attribute__((constructor, used)) static void {ident}_ctor(void) {{ ((volatile int *)&{names[0]})[0]; }}')
        if self.orphans:
            r3 = random.Random(f'orphans{self.seed}{ident}')
            for k in range(r3.choice([0, 1, 1, 2])):
                L.append('__attribute__((section("%s"), used)) %sint %s_h%d[%d] = {%d};' % (ORPHANS[k][0], 'const ' if ORPHANS[k][1] else '', ident, k, r3.choice([1, 2, 5]), k + 1))
        return '\n'.join(L) + '\n'

    def script(self) -> str:
        rng = self.rng
        r2 = random.Random(f'script{self.seed}')
        fancy = r2.random() < 0.5
        L = [f'IDF_TARGET_{self.chip.upper()} = 0;', 'MEMORY', '{']
        for n, o, ln, at in REGIONS[self.chip]:
            L.append(f'  {n} ({at}) : org = {o:#x}, len = {ln:#x}')
        L += ['}', 'SECTIONS', '{']
        for name, pats, reg in OUT:
            head = r2.choice(['', ' : ALIGN(64)', ' : ALIGN(8)', ' : SUBALIGN(16)']) if fancy and 'init_array' not in name else ''
            L += [f'  {name}{head}' + ('' if ':' in head else ' :'), '  {', f'    _{name[1:].replace(".", "_")}_start = ABSOLUTE(.);']
            style = r2.choice(['plain', 'plain', 'joined', 'files', 'sorted', 'exclude']) if fancy and 'init_array' not in name else 'plain'
            if style == 'joined':
                L.append(f'    *({" ".join(pats)})')
            elif style == 'files':
                w = r2.choice(WORDS)
                L += [f'    *lib{w}.a:({" ".join(pats)})', f'    *lib{r2.choice(WORDS)}.a:core_0.*({pats[0]})', f'    *({" ".join(pats)})']
            elif style == 'sorted':
                L += [f'    *(SORT_BY_NAME({p}))' if r2.random() < 0.5 else f'    *(SORT_BY_ALIGNMENT({p}))' for p in pats]
            elif style == 'exclude':
                L += [f'    *(EXCLUDE_FILE(*lib{r2.choice(WORDS)}.a:*) {" ".join(pats)})', '    . = ALIGN(4);', f'    *({" ".join(pats)})']
            else:
                for p in pats:
                    L.append(f'    KEEP(*({p}))' if 'init_array' in p else f'    *({p})')
            if fancy and r2.random() < 0.3 and not name.endswith(('bss', 'init_array')):
                L.append(r2.choice(['    . += 12;', '    . = . + 3;', f'    PROVIDE(_prov_{name[1:].replace(".", "_")} = .);', '    ASSERT(. >= 0, "impossible");']))
            if rng.random() < 0.4:
                L.append('    . = ALIGN(16);')
            if rng.random() < 0.3 and not name.endswith(('bss', 'init_array')):
                L.append('    LONG(0x0)')
            if rng.random() < 0.2 and not name.endswith(('bss', 'init_array')):
                L.append('    BYTE(0x1)')
            tail = f'> {reg}'
            if fancy and not name.endswith(('bss', 'init_array')):
                # explicit data given by expressions, fill patterns and load regions
                if r2.random() < 0.4:
                    L.append('    ' + r2.choice(['LONG(SIZEOF(.dram0.bss))', 'LONG(ADDR(.flash.text))', 'SHORT(SIZEOF(.dram0.data) + 2)', 'BYTE(SIZEOF(.dram0.bss) & 7)', 'QUAD(. + 0x20)', 'LONG(ABSOLUTE(.))']))
                if r2.random() < 0.3:
                    L.append('    ' + r2.choice(['FILL(0xDEADBEEF)', 'FILL(0x90)']))
                if r2.random() < 0.4:
                    L.append('    . = ALIGN(%d);' % r2.choice([8, 32, 64]))
                if r2.random() < 0.4:
                    tail += r2.choice([' AT> drom0_0_seg' if reg in ('dram0_0_seg', 'iram0_0_seg') else '', '']) + r2.choice([' =0xCC', ' =0x00', ' =0x90909090', ''])
            L += [f'    _{name[1:].replace(".", "_")}_end = ABSOLUTE(.);', f'  }} {tail}', '']
        L += ['  .dram0.dummy (NOLOAD) : { . = . + 64; } > dram0_0_seg' if rng.random() < 0.5 else '',
              '  /DISCARD/ : { *(.note.GNU-stack) *(.eh_frame) *(.note.*) }', '}']
        return '\n'.join(L) + '\n'

    # ------------------------------------------------------------------------------------ truth
    def sections(self) -> Dict[str, Tuple[int, int, str, str]]:
        """{name: (addr, size, type, flags)} of the executable"""
        return read_sections(self.elf)

    def symbols(self) -> List[Tuple[str, int, int, str]]:
        """[(name, addr, size, type)] with size, FUNC and OBJECT only"""
        res = []
        for ln in sh(['readelf', '-sW', self.elf], self.dir).splitlines():
            m = re.match(r'^\s*\d+:\s+([0-9a-f]+)\s+(\d+|0x[0-9a-f]+)\s+(\w+)\s+(\w+)\s+(\w+)\s+(\w+)\s+(\S+)', ln)
            if m and m.group(3) in ('FUNC', 'OBJECT') and int(m.group(2), 0):
                res.append((m.group(7), int(m.group(1), 16), int(m.group(2), 0), m.group(3)))
        return res

    def object_sections(self, ofile: str) -> Dict[str, int]:
        """{section name: summed size} of the allocated sections of an object file"""
        res: Dict[str, int] = {}
        for n, a, s, t, fl in read_section_list(ofile):
            if 'A' in fl and s:
                res[n] = res.get(n, 0) + s
        com = 0
        for ln in sh(['readelf', '-sW', ofile], self.dir).splitlines():
            m = re.match(r'^\s*\d+:\s+([0-9a-f]+)\s+(\d+|0x[0-9a-f]+)\s+(\w+)\s+(\w+)\s+(\w+)\s+COM\s+(\S+)', ln)
            if m:
                com += int(m.group(2), 0)
        if com:
            res['COMMON'] = com
        return res

    def owner(self, sym: str):
        m = re.match(r'^([ax]\d+o\d+)_', sym)
        if not m:
            return None
        for arch, obj, ident, ofile in self.files:
            if ident == m.group(1):
                return (arch if arch is not None else '(exe)', obj, ident)
        return None

    def osec_of(self, isec: str):
        if isec in [o[0] for o in ORPHANS]:
            return isec
        for name, pats, _r in OUT:
            for p in pats:
                if isec == p or (p.endswith('.*') and isec.startswith(p[:-1])):
                    return name
        return None


def read_section_list(fn: str) -> List[Tuple[str, int, int, str, str]]:
    res = []
    for ln in sh(['readelf', '-SW', fn], os.path.dirname(fn)).splitlines():
        m = re.match(r'^\s*\[\s*\d+\]\s+(\S+)\s+(\S+)\s+([0-9a-f]+)\s+([0-9a-f]+)\s+([0-9a-f]+)\s+([0-9a-f]+)\s+([A-Za-z]*)\s', ln)
        if m:
            res.append((m.group(1), int(m.group(3), 16), int(m.group(5), 16), m.group(2), m.group(7)))
    return res


def read_sections(fn: str) -> Dict[str, Tuple[int, int, str, str]]:
    return {n: (a, s, t, fl) for n, a, s, t, fl in read_section_list(fn)}

"""LTO builds: symbols are attributed to archives through DWARF, conserving bytes."""

import copy
import json
import random
import re

import elfw
import model
import realtc
import reports
import truth
import view
from checks import c15
from checks.common import describe, put, seeds, shape

RULE = ('Generated projects whose input sections partly come from artificial LTO objects, with DWARF (versions 2-5, 32/64 bit, direct, through abstract origin in an earlier or later unit, through a '
        'specification) stating the source file of most symbols; components in nested and similarly named directories. The raw, archives, files, details and tree reports are compared with the model in '
        'which those symbols were cut out of their input section. Real: gcc -flto projects, symbol names encode the source file. Non-trivial: at least one symbol moved from (exe) to an archive.')
REQUIRED = {'moved_symbols': 5000, 'moved_functions': 1500, 'moved_objects': 1500, 'kept_symbols': 500, 'gaps': 500, 'nested_component': 200, 'sibling_prefix': 200, 'outside_components': 200,
            'abstract_origin': 500, 'forward_origin': 200, 'specification': 200, 'auto_detected': 200, 'auto_off': 100, 'no_lto': 200, 'reports': 1500, 'relocated': 200, 'diffs': 200, 'diffs_overridden': 50, 'split_moved': 20,
            'real_moved': 200, 'real_projects': 10, 'no_desc': 50, 'dependencies': 50, **{f'version_{v}': 100 for v in (2, 3, 4, 5)}, 'dwarf64': 100, 'elf64_or_big': 200, 'nameless': 200, 'indexed_units': 200, 'nested_entries': 1000}


def cases(tier, seed):
    q = tier == 'quick'
    return [('gen', s) for s in seeds('C16', seed, 1500 if q else 15000)] + [('real', s) for s in seeds('C16r', seed, 16 if q else 200)]


def case(ctx, c):
    {'gen': gen, 'real': real}[c[0]](ctx, c[1])


def components(rng, build):
    """{name: (dir, archive relative to the build directory or '')}"""
    base = rng.choice(['/idf/components', '/home/u/my prj/components', '/p/(x)/comp[1]', '/p/Größe/部品'])
    comps = {}
    words = rng.sample(['heap', 'log', 'esp_system', 'freertos', 'hal', 'main', 'bt'], rng.choice([2, 3, 5]))
    for w in words:
        comps[w] = (f'{base}/{w}', f'esp-idf/{w}/lib{w}.a')
    w = words[0]
    comps[w + '_sub'] = (f'{base}/{w}/sub', f'esp-idf/{w}_sub/lib{w}_sub.a')  # inside of another component
    comps[w + '2'] = (f'{base}/{w}2', f'esp-idf/{w}2/lib{w}2.a')  # name starts like another one
    comps[words[1] + '_cfg'] = (f'{base}/{words[1]}/cfg', '')  # without library: its sources belong to the surrounding component
    for n, (d, a) in list(comps.items()):  # the library may have any name and place in the build directory
        if a and rng.random() < .4:
            comps[n] = (d, rng.choice([f'l/{n}.a', f'managed/components/prebuilt/{n}/lib{n}_static.a', f'{n}.a']))
    items = list(comps.items())
    rng.shuffle(items)
    return base, dict(items)


def longest(comps, path):
    best = None
    for n, (d, a) in comps.items():
        if a and path.startswith(d + '/') and (best is None or len(d) > len(comps[best][0])):
            best = n
    return best


class Lto:
    """p: the link as the linker describes it; q: how it has to be reported with LTO; write(): files"""

    def __init__(self, seed, ctx=None, nsec=None):
        rng = self.rng = random.Random(seed)
        self.p = p = model.generate(seed, elf=True, nsec=nsec or rng.choice([2, 4, 8]))
        for o in p.osecs:
            for i in o.isecs:
                for y in i.syms:
                    y.shndx = 'sec'  # absolute symbols stand for code in ROM, there is no debugging information about them
        self.bits, self.little = (rng.choice([32, 64]), rng.random() < 0.5) if rng.random() < 0.4 else (32, True)
        self.build = rng.choice(['/b/build', '/home/u/my prj/build', '/home/ü/構築'])
        p.style['desc_utf8'] = rng.random() < 0.5
        self.others = random.Random(seed + 1).choice([0, 0, 3, 40, 130, 300])
        base, self.comps = components(rng, self.build)
        ltrans = [f'/tmp/cc{x}.ltrans{k}.ltrans.o' for k, x in enumerate(rng.sample(['AbCd', 'xyZ1', 'Qw0'], rng.choice([1, 2])))]
        share = rng.choice([0.3, 0.7, 1.0])
        for o in p.osecs:
            for i in o.isecs:
                if i.archive is None or rng.random() < share:
                    i.archive = None
                    i.obj = rng.choice(ltrans)
        # source files
        w0 = next(n for n in self.comps if n.endswith('_sub'))[:-4]
        dirs = [d for d, _a in self.comps.values()] + [f'{base}/{w0}/sub2', f'{base}/{w0}_other', '/tools/newlib/libc', base, f'{base}/{w0}/src/deep']
        srcs = []
        for k in range(rng.choice([2, 4, 8])):
            d = rng.choice(dirs)
            srcs.append(d + rng.choice(['/', '/', '/src/', '/a b/']) + rng.choice(['main', 'util', 'core', 'x.y', 'ünï']) + f'{k}' + rng.choice(['.c', '.cpp', '.S']))
        w = elfw.DwarfWriter(self.little, self.bits // 8)
        self.w = w
        wide = self.bits // 8
        cus = {s: [] for s in [*srcs, None]}
        late = []  # concrete entries of the artificial units
        self.stat = {}
        assign = {}

        def bump(k):
            self.stat[k] = self.stat.get(k, 0) + 1

        vers = [rng.choice([2, 3, 4, 5]) for _ in range(2)]
        abstract_ok = True
        for o in p.osecs:
            for i in o.isecs:
                if i.archive is not None and rng.random() < 0.7:
                    continue  # DWARF of sections with a known archive makes no difference
                done = set()
                for s in i.syms:
                    if s.type not in (model.FUNC, model.OBJECT) or not s.size or s.addr in done:
                        continue
                    done.add(s.addr)
                    if rng.random() < 0.15:
                        continue
                    src = rng.choice(srcs)
                    if rng.random() < 0.05:
                        src = None  # a unit without a name
                        bump('nameless')
                    assign[s.addr] = src
                    fn = s.type == model.FUNC
                    name = ('name', rng.choice(['string', 'strp']), s.name.split('.')[0])
                    low = ('low_pc', 'addr', s.addr)
                    loc = ('location', 'LOC', b'\x03' + s.addr.to_bytes(wide, 'little' if self.little else 'big'))
                    tag = 'subprogram' if fn else 'variable'
                    where = [low, ('high_pc', 'addr', (s.addr + s.size) & ((1 << self.bits) - 1))] if fn else [loc]
                    mode = rng.randrange(4)
                    if mode == 0:
                        cus[src].append(elfw.Die(tag, [name, *where], rng.choice([None, [], [elfw.Die('formal_parameter', [('name', 'string', 'a')])]])))
                    elif mode == 1:
                        decl = elfw.Die(tag, [name, ('declaration', 'flag', 1)])
                        cus[src].append(elfw.Die('structure_type', [('name', 'string', 'K')], [decl]))
                        cus[src].append(elfw.Die(tag, [('specification', rng.choice(['ref4', 'ref_addr', 'ref_udata']), decl), *where]))
                        bump('specification')
                    else:
                        ab = elfw.Die(tag, [name, ('inline', 'data1', 1)] if fn else [name])
                        cus[src].append(ab)
                        late.append((src, elfw.Die(tag, [('abstract_origin', 'ref_addr', ab), *where])))
                        bump('abstract_origin')
        self.assign = assign
        # noise: no address, no symbol, register, list
        for src in srcs:
            cus[src].append(elfw.Die('subprogram', [('name', 'string', 'inlined_away'), ('inline', 'data1', 1)]))
            cus[src].append(elfw.Die('subprogram', [('name', 'string', 'removed'), ('low_pc', 'addr', 0)]))
            cus[src].append(elfw.Die('variable', [('name', 'string', 'local'), ('location', 'LOC', bytes([0x91, 0x10]))]))
            cus[src].append(elfw.Die('variable', [('name', 'string', 'gone'), ('location', 'LOC', b'')]))
            cus[src].append(elfw.Die('variable', [('name', 'string', 'declared'), ('declaration', 'flag', 1)]))
            rng.shuffle(cus[src])
        # entries may be anywhere in the tree: namespaces, static variables of functions and of their blocks
        for src in cus:
            if rng.random() < 0.5:
                cus[src] = self.nest(cus[src], 0)
        units = [('src', s, elfw.Die('compile_unit', [('name', rng.choice(['string', 'strp']), s), ('producer', 'string', 'GNU'), ('comp_dir', 'string', self.build)], cus[s])) for s in srcs]
        if cus[None]:
            units.append(('src', None, elfw.Die(rng.choice(['compile_unit', 'partial_unit']), [('producer', 'string', 'GNU')], cus[None])))
        for part in range(2):
            dies = [d for k, (_s, d) in enumerate(late) if k % 2 == part]
            units.append(('art', None, elfw.Die('compile_unit', [('name', 'string', '<artificial>'), ('comp_dir', 'string', self.build)], dies)))
        rng.shuffle(units)
        emitted = set()
        for k, (kind, s, root) in enumerate(units):
            ver = rng.choice([2, 3, 4, 5])
            d64 = rng.random() < 0.15
            bump(f'version_{ver}')
            if d64:
                bump('dwarf64')
            indexed = ver == 5 and rng.random() < 0.5
            if indexed:
                bump('indexed_units')
                for b in ('str_offsets_base', 'addr_base'):
                    root.attrs.insert(rng.randrange(len(root.attrs) + 1), (b, 'sec_offset', elfw.BASE))
            for d in walk(root):
                for n, a in enumerate(d.attrs):
                    if indexed and a[1] in ('string', 'strp') and rng.random() < 0.7:
                        d.attrs[n] = (a[0], rng.choice(['strx', 'strx2', 'strx4']), a[2])
                        continue
                    if indexed and a[1] == 'addr' and rng.random() < 0.8:
                        d.attrs[n] = (a[0], rng.choice(['addrx', 'addrx2', 'addrx4']), a[2])
                        continue
                    if indexed and a[1] == 'LOC' and a[2][:1] == b'\x03' and rng.random() < 0.8:
                        d.attrs[n] = (a[0], 'exprloc', int.from_bytes(a[2][1:], 'little' if self.little else 'big'))
                        continue
                    if a[1] == 'LOC':
                        d.attrs[n] = (a[0], 'exprloc' if ver >= 4 else rng.choice(['block1', 'block']), a[2])
                    elif a[0] == 'name' and ver == 5 and rng.random() < 0.2 and a[1] == 'strp':
                        d.attrs[n] = (a[0], 'line_strp', a[2])
                    if a[0] == 'abstract_origin' and a[2].offset is None:
                        bump('forward_origin')
            w.add_cu(root, ver, d64, pad=rng.choice([0, 0, 3]), codes=c15.numbering(rng), fillers=(['', 'x'][:rng.randrange(3)], list(range(rng.choice([0, 1, 300])))) if indexed else ((), ()))
        self.q = self.expand()

    def nest(self, dies, depth):
        rng = self.rng
        res = []
        while dies:
            n = rng.choice([1, 1, 2, 3])
            part, dies = dies[:n], dies[n:]
            if depth < 6 and rng.random() < 0.5:
                self.stat['nested_entries'] = self.stat.get('nested_entries', 0) + 1
                wrap = rng.choice([('namespace', [('name', 'string', 'ns')]), ('lexical_block', [('low_pc', 'addr', 0x10)]), ('subprogram', [('name', 'string', 'outer'), ('inline', 'data1', 1)]),
                                   ('subprogram', [('name', 'string', 'outer')]), ('namespace', [])])
                part = [elfw.Die(wrap[0], list(wrap[1]), self.nest(part, depth + 1))]
            res += part
        return res

    def expand(self):
        q = copy.deepcopy(self.p)
        self.moved, self.kept, self.gaps, self.split = [], 0, 0, 0
        for o in q.osecs:
            items = []
            for it in o.items:
                if it[0] != 'isec' or it[1].archive is not None or it[1].kind != 'normal' or not it[1].size:
                    items.append(it)
                    continue
                i = it[1]
                pos = i.addr
                pieces = []
                by_addr = {}
                for s in i.syms:
                    by_addr.setdefault(s.addr, []).append(s)
                for a in sorted(by_addr):
                    s = by_addr[a][0]
                    src = self.assign.get(a) if s.type in (model.FUNC, model.OBJECT) and s.size else None
                    comp = longest(self.comps, src) if src else None
                    if comp is None:
                        if s.type in (model.FUNC, model.OBJECT) and s.size:
                            self.kept += 1
                        continue
                    if a > pos:
                        pieces.append((pos, a, None, None))
                    pieces.append((a, a + s.size, comp, src))
                    pos = a + s.size
                    self.moved.append((s, comp, src))
                if pos < i.addr + i.size:
                    pieces.append((pos, i.addr + i.size, None, None))
                if len(pieces) > 1:
                    self.gaps += sum(1 for x in pieces if x[2] is None)
                for lo, hi, comp, src in pieces:
                    n = model.Isec(i.name, lo, hi - lo, self.comps[comp][1] if comp else None, src.rsplit('/', 1)[1] if comp else i.obj)
                    n.syms = [s for s in i.syms if lo <= s.addr < hi]
                    items.append(('isec', n))
            o.items = items
        return q

    def desc(self, build=None):
        b = build or self.build
        comps = list(self.comps.items())
        for k in range(self.others):
            # components that nothing is linked of
            n = f'unused_{k}'
            comps.insert((k * 7) % (len(comps) + 1), (n, (f'/opt/idf/a/rather/long/path/to/components/{n}' if k % 2 else f'/c/{n}', f'esp-idf/{n}/lib{n}.a')))
        return {'build_dir': b, 'build_component_info': {n: {'dir': d, 'file': f'{b}/{a}' if a else '', 'type': 'LIBRARY' if a else 'CONFIG_ONLY', 'sources': []} for n, (d, a) in comps}}

    def write(self, ctx, name, sdkconfig=None, **kw):
        # add_to() may be called once only per writer state; it does not change the unit data afterwards
        return put(ctx, self.p, name, proj_desc={**self.desc(), **kw}, dwarf=self.w, bits=self.bits, little=self.little, sdkconfig=sdkconfig)


def walk(d):
    yield d
    for c in d.children or []:
        yield from walk(c)


def gen(ctx, s):
    rng = random.Random(s)
    L = Lto(s)
    for k, v in L.stat.items():
        ctx.count(k, v)
    if (L.bits, L.little) != (32, True):
        ctx.count('elf64_or_big')
    exp_on, exp_off = view.from_project(L.q), view.from_project(L.p)
    fn = L.write(ctx, 'prj')
    for sy, comp, src in L.moved:
        ctx.count('moved_symbols')
        ctx.count('moved_functions' if sy.type == model.FUNC else 'moved_objects')
        if comp.endswith('_sub'):
            ctx.count('nested_component')
    for src in set(filter(None, L.assign.values())):
        c = longest(L.comps, src)
        if c is None:
            ctx.count('outside_components')
        if '2/' in src or '_other' in src:
            ctx.count('sibling_prefix')
    ctx.count('kept_symbols', L.kept)
    ctx.count('gaps', L.gaps)
    ctx.count('relocated')
    d = reports.raw(ctx, fn, '--lto', *reports.FULL)
    reports.check_raw(ctx, json.dumps(d), exp_on)
    d0 = reports.raw(ctx, fn, '--no-lto', *reports.FULL)
    reports.check_raw(ctx, json.dumps(d0), exp_off)
    ctx.count('no_lto')
    conserve(ctx, d, d0)
    # detection
    for val, on in ((True, True), (False, False), (None, False), ('absent', False)):
        if rng.random() < 0.5:
            continue
        decoy = {k: rng.random() < 0.7 for k in rng.sample(['OTHER', 'COMPILER_LTO', 'CONFIG_COMPILER_LTO_LINKTIME', 'COMPILER_LTO_LINKTIME_X', 'X_COMPILER_LTO_LINKTIME', 'compiler_lto_linktime', 'COMPILER_LTO_COMPILETIME'], 3)}
        fn2 = L.write(ctx, f'auto{val}', sdkconfig=None if val == 'absent' else decoy if val is None else {**decoy, 'COMPILER_LTO_LINKTIME': val})
        reports.check_raw(ctx, json.dumps(reports.raw(ctx, fn2, *reports.FULL)), exp_on if on else exp_off)
        ctx.count('auto_detected' if on else 'auto_off')
        if on:
            reports.check_raw(ctx, json.dumps(reports.raw(ctx, fn2, '--no-lto', *reports.FULL)), exp_off)
    # all reports
    for _ in range(3):
        level = rng.choice(['archives', 'files', 'details', 'summary'])
        names = view.archive_names(exp_on)
        o = reports.Opts(level=level, details=rng.choice(names) if level == 'details' and names else None, show_unused=True, no_abbrev=rng.random() < 0.5, unify=rng.random() < 0.2)
        if level == 'details' and not names:
            continue
        fmt = rng.choice(['table', 'csv', 'json2', 'tree'])
        reports.check_report(ctx, fn, fmt, with_lto(o), exp_on)
        ctx.count('reports')
    if rng.random() < 0.3:
        # each project was built with LTO or not, unless the options say something about both
        lto = rng.choice([(True, False), (True, False), (False, True), (True, True), (False, False)])
        fn1, fn2 = (L.write(ctx, n, sdkconfig=rng.choice([None, {'COMPILER_LTO_LINKTIME': False}]) if not x else {'COMPILER_LTO_LINKTIME': True}) for n, x in zip(('cur', 'ref'), lto))
        flag = rng.choice([None, None, True, False])
        cur, ref = (exp_on if (flag is None and x) or flag else exp_off for x in lto)
        names = view.archive_names(cur)
        level = rng.choice(['archives', 'archives', 'files', 'details' if names else 'files'])
        o = reports.Opts(level=level, show_unused=True, diff=fn2, unchanged=True, no_abbrev=rng.random() < 0.7, details=rng.choice(names) if level == 'details' else None)
        if flag is not None:
            args = o.args
            o.args = lambda: ['--lto' if flag else '--no-lto', *args()]
        reports.check_report(ctx, fn1, rng.choice(['json2', 'csv', 'table']), o, cur, ref)
        ctx.count('diffs')
        ctx.count('diffs_overridden', flag is not None and lto != (flag, flag))
    if rng.random() < 0.3:
        depend(ctx, rng, L, exp_on, exp_off)
    if rng.random() < 0.1:
        # belongs to another executable: nothing to take the components from, the map is reported as it is
        fn3 = L.write(ctx, 'other', app_elf='other.elf')
        q = copy.deepcopy(L.p)
        q.with_elf = False
        reports.check_raw(ctx, json.dumps(reports.raw(ctx, fn3, '--lto', *reports.FULL)), view.from_project(q))
        ctx.count('no_desc')
    for o in L.q.osecs:
        cuts = [x[1] for x in truth.section_parts(L.q, o)][:-1] if truth.reported(L.q, o) else []
        for i in o.isecs:
            if i.archive and any(i.addr < cut < i.addr + i.size for cut in cuts) and any(i.addr == m[0].addr for m in L.moved):
                ctx.count('split_moved')
    if L.moved:
        ctx.nontrivial(shape(L.p), len(L.moved))
        ctx.sample({**describe(L.p), 'components': L.comps, 'moved': [(a.name, hex(a.addr), b, c) for a, b, c in L.moved[:4]]})


def depend(ctx, rng, L, exp_on, exp_off):
    """Archives of debug information in the dependency report."""
    S = {True: view.summary(exp_on, 'archives'), False: view.summary(exp_off, 'archives')}
    names = sorted(a for a in S[True] if a != '(exe)')
    done = {}
    for sy, comp, src in L.moved:
        a = L.comps[comp][1]
        if sy.name in done or a not in names or rng.random() < 0.7:
            continue
        done[sy.name] = (a, src.rsplit('/', 1)[1], [x for x in names if x != a and rng.random() < 0.5])
    done = {k: v for k, v in done.items() if v[2]}
    if not done:
        return
    old = L.p.crt
    L.p.crt = [(n, f'{a}({obj})', [f'{x}(y.c.obj)' for x in refs]) for n, (a, obj, refs) in sorted(done.items())]
    auto = rng.random() < 0.5
    fn = L.write(ctx, 'deps', sdkconfig={'COMPILER_LTO_LINKTIME': True} if auto else None)
    L.p.crt = old
    for on in (True, False):
        want = {}
        for n, (a, _obj, refs) in done.items():
            for x in refs:
                if x in S[on] and a in S[on]:
                    want.setdefault(x, (S[on][x]['size'], {}))[1].setdefault(a, (S[on][a]['size'], []))[1].append(n)
        r = reports.run_ok(ctx, ['--format', 'json2', '--archive-dependencies', '--show-unused', *(['--lto'] if on and not auto else [] if on else ['--no-lto']), fn])
        got = {x: (e['size'], {a: (f['size'], sorted(f['symbols'])) for a, f in e['archives'].items()}) for x, e in json.loads(r.out).items()}
        want = {x: (z, {a: (y, sorted(ns)) for a, (y, ns) in e.items()}) for x, (z, e) in want.items()}
        ctx.equal(want, got, f'dependencies {"with" if on else "without"} LTO')
        ctx.count('dependencies', len(want))


def with_lto(o):
    args = o.args
    o.args = lambda: ['--lto', *args()]
    return o


def conserve(ctx, d, d0):
    ctx.equal(d0['image_size'], d['image_size'], 'image size with and without LTO')

    def sums(x):
        return {t: (ti['size'], ti['used'], {s: (si['size'], sum(a['size'] for a in si['archives'].values())) for s, si in ti['sections'].items()}) for t, ti in x['memory_types'].items()}

    ctx.equal(sums(d0), sums(d), 'sizes with and without LTO')


def real(ctx, s):
    r = realtc.Real(ctx.sub('real'), s, lto=True)
    d = reports.raw(ctx, r.map, '--lto', *reports.FULL)
    d0 = reports.raw(ctx, r.map, '--no-lto', *reports.FULL)
    conserve(ctx, d, d0)
    at = {}
    addr = {}
    for n, a, size, typ in r.symbols():
        at.setdefault(a, []).append(n)
        addr.setdefault(n + ('()' if typ == 'FUNC' else ''), []).append(a)
    ctx.count('real_projects')
    moved = 0
    for ti in d['memory_types'].values():
        for sn, si in ti['sections'].items():
            for a, ai in si['archives'].items():
                for ob, oi in ai['object_files'].items():
                    for y, yi in oi['symbols'].items():
                        own = r.owner(y)
                        if not own:
                            continue
                        if a == '(exe)':
                            # a piece the compiler made, which needs no entry of its own
                            ctx.check('.' in y, 'symbol without archive', symbol=y)
                            continue
                        same = [r.owner(n) for x in addr[y] for n in at[x]]
                        ctx.check(any(o and o[0] == a and re.match(rf'^{o[2]}_', ob) for o in same), 'symbol in the wrong archive or object file', symbol=y, archive=a, object=ob, owners=same)
                        moved += 1
    ctx.count('real_moved', moved)
    ctx.nontrivial('real', s, moved)

"""ELF files and DWARF information are decoded as specified."""

import glob
import os
import random
import re
import string
import subprocess

import driver
import elfw
from checks.common import seeds

RULE = ('Generated: ELF files of both classes and byte orders with random headers, symbol tables and units (DWARF 2-5, 32/64-bit, all forms) written by an independent writer, read through Elf in random '
        'orders of accesses; everything read is compared with what was written. Damaged: the same files truncated or with tables and contents pointing beyond the end. Real: output of gcc and g++ and '
        'the executables of the system against readelf. Non-trivial: distinct file with at least one symbol or entry compared.')
REQUIRED = {'symbols': 5000, 'sections': 5000, 'program_headers': 500, 'entries': 20000, 'attributes': 50000, 'histories': 500, 'refused': 500, 'real_entries': 1000, 'real_symbols': 1000, 'strings': 5000,
            'locations': 500, **{'form_' + f: 50 for f in elfw.FORM}, **{f'version_{v}': 50 for v in (2, 3, 4, 5)}, 'dwarf64': 50, 'dwarf32': 50, 'class32_little': 50, 'class32_big': 50, 'class64_little': 50,
            'class64_big': 50, 'type_units': 20, 'indexed_addresses': 500, 'indexed_strings': 500, 'indexed_locations': 20, 'other_codes': 100, 'dump_cli': 4, 'clang': 5, 'gcc': 5, 'real_indexed': 200}


def cases(tier, seed):
    q = tier == 'quick'
    return ([('gen', s) for s in seeds('C15', seed, 6000 if q else 80000)] + [('bad', s) for s in seeds('C15b', seed, 400 if q else 6000)] +
            [('cc', s) for s in seeds('C15c', seed, 32 if q else 320)] + [('sys', s) for s in seeds('C15s', seed, 16 if q else 100)] + [('dump', s) for s in seeds('C15d', seed, 8 if q else 40)])


def case(ctx, c):
    {'gen': gen, 'bad': bad, 'cc': compiled, 'sys': system, 'dump': dump}[c[0]](ctx, c[1])


# ------------------------------------------------------------------------------------------------ generated files
def word(rng, n=None):
    return ''.join(rng.choice(string.ascii_letters + '_.$äλ') for _ in range(n if n is not None else rng.choice([0, 1, 5, 12, 60])))


VERSION_FORMS = {2: ['addr', 'block1', 'block2', 'block4', 'block', 'data1', 'data2', 'data4', 'data8', 'string', 'flag', 'sdata', 'udata', 'strp', 'ref_addr', 'ref1', 'ref2', 'ref4', 'ref8', 'ref_udata']}
VERSION_FORMS[3] = VERSION_FORMS[2]
VERSION_FORMS[4] = VERSION_FORMS[3] + ['sec_offset', 'exprloc', 'flag_present', 'ref_sig8']
VERSION_FORMS[5] = VERSION_FORMS[4] + ['line_strp', 'implicit_const', 'loclistx', 'rnglistx', 'data16', 'strx', 'strx1', 'strx2', 'strx3', 'strx4', 'ref_sup4', 'ref_sup8', 'strp_sup', 'addrx', 'addrx1', 'addrx2', 'addrx3', 'addrx4']
ATTRS = [a for a in sorted(elfw.AT) if not a.endswith('_base') or a == 'frame_base']
EDGE = [0, 1, 0x3F, 0x40, 0x7F, 0x80, 0xFF, 0x100, 0x7FFF, 0x8000, 0xFFFF, 0x10000, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, 1 << 32, (1 << 63) - 1, 1 << 63, (1 << 64) - 1]


def num(rng, bytes_):
    lim = (1 << 8 * bytes_) - 1
    return rng.choice([rng.randrange(lim + 1), *[e for e in EDGE if e <= lim]])


def snum(rng):
    return rng.choice([1, -1]) * rng.choice([rng.randrange(1 << 63), *EDGE[:-2], 0x2000, 0x1FFF, 0x3FFF, 64, 63, 65, 127, 128, 129])


def value(rng, form, addr_size, osz, known):
    if form == 'addr':
        return num(rng, addr_size)
    if form.startswith('data'):
        return num(rng, int(form[4:]))
    if form in ('udata', 'loclistx', 'rnglistx', 'strx'):
        return num(rng, 8)
    if form in ('sdata', 'implicit_const'):
        return snum(rng)
    if form == 'flag_present':
        return True
    if form == 'flag':
        return rng.choice([0, 1, 1, 255])
    if form in ('string', 'strp', 'line_strp'):
        return word(rng)
    if form in ('sec_offset', 'strp_sup'):
        return num(rng, osz)
    if form in ('ref_sup4', 'ref_sup8'):
        return num(rng, int(form[-1]))
    if form.startswith('strx'):
        return num(rng, int(form[-1]))
    if form.startswith('addrx'):
        return (num(rng, int(form[-1]) if form[-1] != 'x' else 4),)
    if form == 'ref_sig8':
        return num(rng, 8)
    if form in ('block1', 'block2', 'block4', 'block', 'exprloc'):
        big = {'block1': 255, 'block2': 700, 'block4': 300}.get(form, 200)
        return bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 2, 5, 20, big])))
    raise KeyError(form)


def numbering(rng):
    """Abbreviation codes are arbitrary."""
    k = rng.randrange(6)
    if k < 3:
        return None
    if k == 3:
        step, start = rng.choice([2, 3, 100, 1000]), rng.choice([1, 2, 127, 128, 5000])
        return lambda n: start + n * step
    if k == 4:
        return lambda n: (n ^ 1) + 1  # pairwise swapped
    return lambda n: 5000 - n


class Spec:
    """A random ELF file and what a reader has to say about it."""

    def __init__(self, rng, dwarf=True):
        self.rng = rng
        self.bits, self.little = rng.choice([32, 64]), rng.random() < 0.5
        wide = 4 if self.bits == 32 else 8
        self.phdrs = [(num(rng, 4), num(rng, wide), num(rng, wide), num(rng, wide), num(rng, wide), num(rng, wide), num(rng, 4), num(rng, wide)) for _ in range(rng.choice([0, 0, 1, 2, 7]))]
        w = self.w = elfw.ElfWriter(self.bits, self.little, machine=rng.choice([94, 243, 3]), phdrs=self.phdrs)
        self.syms = []
        self.bodies = {}
        for _ in range(rng.choice([0, 1, 3, 10])):
            data = bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 3, 50])))
            nobits = rng.random() < 0.2
            k = w.add('.' + word(rng, rng.choice([1, 4, 30])), 8 if nobits else rng.choice([1, 1, 7, 14, 0x6FFFFFF6]), flags=num(rng, wide), addr=num(rng, wide), data=b'' if nobits else data,
                      size=num(rng, 2) if nobits else None, info=num(rng, 4), align=rng.choice([0, 1, 4, 16]), entsize=rng.choice([0, 4, 24]))
            self.bodies[k] = None if nobits else data
        for typ, nm in ((11, '.dynsym'), (2, '.symtab')):
            if rng.random() < (0.2 if typ == 11 else 0.85):
                s = []
                for _ in range(rng.choice([0, 1, 4, 12, 40])):
                    s.append((word(rng), num(rng, wide), num(rng, wide), rng.choice([0, 1, 2, 3, 4, 5, 6, 10, 13]), rng.choice([0, 1, 1, 2, 10]),
                              rng.choice([0, 1, 2, 0xFFF1, 0xFFF2, rng.randrange(0xFF00)]), rng.choice([0, 0, 1, 2, 3]) | rng.choice([0, 0, 0x80, 0x60, 4])))
                w.add_symtab(s, typ, nm, nm.replace('sym', 'str'))
                self.syms.append(('', 0, 0, 0, 0, 0, 0))
                self.syms += [(*x[:6], x[6] & 3) for b in (True, False) for x in s if (x[4] == 0) == b]  # the other bits of st_other belong to the processor
        self.cus = []
        if dwarf and rng.random() < 0.95:
            self.gen_dwarf(wide)
        self.data = w.write()
        self.names = [s['name'] for s in w.sections]

    def gen_dwarf(self, wide):
        rng = self.rng
        dw = elfw.DwarfWriter(self.little, wide)
        earlier = []
        prev = None
        for _ in range(rng.choice([1, 2, 4])):
            version = rng.choice([2, 3, 4, 5])
            d64 = rng.random() < 0.25
            osz = 8 if d64 else 4
            unit_type = rng.choice([1, 1, 2, 3, 4, 5, 6]) if version == 5 else 1
            fixups = []
            indexed = version == 5 and rng.random() < 0.5
            words, addrs = [word(rng) for _ in range(60)], [num(rng, wide) for _ in range(60)]  # one byte is enough for any index

            def die(level, tag=None):
                attrs, used = [], set()
                for _ in range(rng.choice([0, 1, 2, 4, 8])):
                    a = rng.choice(ATTRS)
                    if a in used:
                        continue
                    used.add(a)
                    f = rng.choice(VERSION_FORMS[version])
                    if indexed and f.startswith('strx'):
                        attrs.append([a, f, rng.choice(words)])
                    elif indexed and f.startswith('addrx'):
                        attrs.append([a, f, rng.choice(addrs)])
                    elif indexed and a == 'location' and f == 'exprloc' and rng.random() < 0.5:
                        attrs.append([a, f, rng.choice(addrs)])
                    elif f.startswith('ref') and f not in ('ref_sig8', 'ref_sup4', 'ref_sup8'):
                        fixups.append((len(attrs), f))
                        attrs.append([a, f, None])
                    elif a == 'location' and f in ('exprloc', 'block', 'block1', 'block2', 'block4') and (f == 'exprloc' or version < 4):
                        attrs.append([a, f, self.location(version, wide)])
                    elif f == 'exprloc':
                        # not evaluated by the reader unless it consists of addresses; any operation will do
                        attrs.append([a, f, bytes([rng.choice([0x91, 0x50, 0x9C, 0x30])]) + bytes(rng.randrange(128) for _ in range(rng.randrange(4)))])
                    elif a == 'location' and f.startswith('block'):
                        attrs.append([a, 'udata', num(rng, 4)])
                    else:
                        attrs.append([a, f, value(rng, f, wide, osz, None)])
                ch = None
                if level < 5 and rng.random() < (0.9 if level == 0 else 0.35):
                    ch = [die(level + 1) for _ in range(rng.choice([0, 1, 3, 6]))]
                return elfw.Die(tag or rng.choice(sorted(elfw.TAG)), attrs, ch)

            root = die(0, 'type_unit' if unit_type in (2, 6) else 'compile_unit')
            fillers = ((), ())
            if indexed:
                for b in ('str_offsets_base', 'addr_base'):
                    root.attrs.insert(rng.randrange(len(root.attrs) + 1), [b, 'sec_offset', elfw.BASE])
                fillers = ([f'filler{k}' for k in range(rng.choice([0, 1, 5, 120]))], list(range(rng.choice([0, 1, 5, 120]))))
            if rng.random() < 0.1:  # deep nesting
                node = root
                for _ in range(40):
                    nxt = elfw.Die('lexical_block', [], [])
                    node.children = (node.children or []) + [nxt]
                    node = nxt
            flat = []

            def walk(d):
                flat.append(d)
                for x in d.children or []:
                    walk(x)

            walk(root)
            if rng.random() < 0.15:  # many abbreviations: codes of two bytes
                for k in range(140):
                    d = elfw.Die('base_type', [['name', 'string', 'n'], ['const_value', 'implicit_const', k - 70]] if version == 5 else
                                 [[a, f, 1] for a, f in zip(rng.sample(ATTRS, 3), ['data1', rng.choice(['data2', 'udata']), rng.choice(['sdata', 'flag'])])])
                    root.children = (root.children or []) + [d]
                    flat.append(d)
            for d in flat:
                for a in d.attrs:
                    if a[2] is None:
                        far = earlier and a[1] == 'ref_addr'
                        pool = flat + earlier if far else flat
                        if a[1] == 'ref1':
                            pool = [root]
                        a[2] = rng.choice(pool)
                d.attrs = [tuple(a) for a in d.attrs]
            share = prev == (version >= 5) and rng.random() < 0.3
            dw.add_cu(root, version, d64, unit_type, pad=rng.choice([0, 0, 1, 3, 9]), share=share, fillers=fillers, codes=numbering(rng))
            prev = version >= 5
            earlier += flat
            self.cus.append(dict(version=version, d64=d64, unit_type=unit_type, dies=dw.dies, osz=osz, indexed=indexed))
        dw.add_to(self.w)
        self.dw = dw

    def location(self, version, wide):
        rng = self.rng
        k = rng.randrange(4)
        if k == 0:
            return b''
        if k == 1:
            return bytes([rng.choice([0x91, 0x50, 0x9C])]) + bytes([rng.randrange(128)])
        return bytes([3]) + (num(rng, wide)).to_bytes(wide, 'little' if self.little else 'big')


def expect_attr(spec, d, a, form, v):
    """Raw value"""
    if a in d.raw:
        return d.raw[a]
    if isinstance(v, elfw.Die):
        return v.offset
    if form in ('string',):
        return v.encode()
    if form == 'strp':
        return spec.dw.str.idx[v]
    if form == 'line_strp':
        return spec.dw.line_str.idx[v]
    return v


def read(E, fn):
    return E.Elf(fn)


def check_headers(ctx, spec, e):
    ctx.equal((spec.bits == 32, spec.little), (e.ehdr.e_ident[4] == 1, e.ehdr.e_ident[5] == 1), 'class and byte order')
    ctx.equal((2, spec.w.machine, 1, 0x40000000, 0, len(spec.phdrs), len(spec.w.sections), spec.w.shoff),
              (e.ehdr.e_type, e.ehdr.e_machine, e.ehdr.e_version, e.ehdr.e_entry, e.ehdr.e_flags, e.ehdr.e_phnum, e.ehdr.e_shnum, e.ehdr.e_shoff), 'ELF header')
    ctx.equal(spec.phdrs, [(p.p_type, p.p_offset, p.p_vaddr, p.p_paddr, p.p_filesz, p.p_memsz, p.p_flags, p.p_align) for p in e.phdrs], 'program headers')
    ctx.count('program_headers', len(spec.phdrs))
    ctx.equal([h[1:] for h in spec.w.headers], [(s.sh_type, s.sh_flags, s.sh_addr, s.sh_offset, s.sh_size, s.sh_link, s.sh_info, s.sh_addralign, s.sh_entsize) for s in e.shdrs], 'section headers')
    ctx.count('sections', len(spec.names))


def check_names(ctx, spec, e):
    ctx.equal(spec.names, [s.name for s in e.shdrs], 'section names')


def check_data(ctx, spec, e):
    for k, d in spec.bodies.items():
        if d is not None:
            ctx.equal(d, bytes(e.shdrs[k].data), 'section contents', section=k)


def check_symbols(ctx, spec, e):
    got = [(s.name, s.st_value, s.st_size, s.type, s.bind, s.st_shndx, s.visibility) for s in e.symbols]
    ctx.equal(spec.syms, got, 'symbols')
    ctx.count('symbols', len(got))


def check_dies(ctx, spec, e, ev=True, tags=None, rng=None):
    ctx.equal(len(spec.cus), len(e.CUs), 'number of units')
    for c, cu in zip(spec.cus, e.CUs):
        num_tags = None if tags is None else [elfw.TAG[t] for t in tags]
        got = cu.get_DIEs(num_tags) if tags is not None else (cu.DIEs if rng and rng.random() < 0.5 else cu.get_DIEs())
        want = [d for d in c['dies'] if tags is None or d.tag in tags]
        real = {o: d for o, d in got.items() if d['tag'] != 0}
        ctx.equal([(d.offset, elfw.TAG[d.tag], d.parent, d.level) for d in want], [(o, d['tag'], d['parent'], d['level']) for o, d in sorted(real.items())], 'entries', version=c['version'])
        ctx.count('entries', len(want))
        for d in want:
            g = real[d.offset]['attrs']
            ctx.equal([(elfw.AT[a], elfw.FORM[f], expect_attr(spec, d, a, f, v)) for a, f, v in d.attrs], [(k, x['form'], x['value']) for k, x in g.items()], 'attributes', version=c['version'], d64=c['d64'])
            for a, f, v in d.attrs:
                ctx.count('form_' + f)
                ctx.count('attributes')
                if not ev:
                    continue
                x = g[elfw.AT[a]]
                if f.startswith('addrx'):
                    want_addr = v if c['indexed'] else None
                    ctx.equal((want_addr, want_addr), (cu.get_attr_eval(x), cu.get_attr_eval(x)), 'indexed address', form=f, value=v)
                    ctx.equal(f'{v if c["indexed"] else v[0]:#x}', cu.get_attr_str(x), 'indexed address', form=f, value=v)
                    ctx.count('indexed_addresses')
                elif f.startswith('strx') and not c['indexed']:
                    ctx.equal((None, f'{v:#x}'), (cu.get_attr_eval(x), cu.get_attr_str(x)), 'indexed string without a table', form=f, value=v)
                elif f in ('string', 'strp', 'line_strp') or f.startswith('strx'):
                    if f.startswith('strx'):
                        ctx.count('indexed_strings')
                    order = rng.random() < 0.5 if rng else True
                    one = (cu.get_attr_str(x), cu.get_attr_eval(x)) if order else (cu.get_attr_eval(x), cu.get_attr_str(x))
                    ctx.equal((v, v), one, 'string attribute', form=f)
                    ctx.equal((v, v), (cu.get_attr_str(x), cu.get_attr_eval(x)), 'string attribute, second time', form=f)
                    ctx.count('strings')
                elif a == 'location' and f == 'exprloc' and isinstance(v, int):
                    ctx.equal((v, v), (cu.get_attr_eval(x), cu.get_attr_eval(x)), 'location by index', value=v)
                    ctx.count('indexed_locations')
                elif a == 'location' and isinstance(v, bytes):
                    want_addr = int.from_bytes(v[1:], 'little' if spec.little else 'big') if v[:1] == b'\3' else None
                    ctx.equal((want_addr, want_addr), (cu.get_attr_eval(x), cu.get_attr_eval(x)), 'location', form=f, value=v)
                    cu.get_attr_str(x)
                    ctx.equal(want_addr, cu.get_attr_eval(x), 'location, after its string', form=f, value=v)
                    ctx.count('locations')


def gen(ctx, s):
    E = driver.load()['elf']
    rng = random.Random(s)
    spec = Spec(rng)
    ctx.count(f'class{spec.bits}_{"little" if spec.little else "big"}')
    for c in spec.cus:
        ctx.count(f'version_{c["version"]}')
        ctx.count('dwarf64' if c['d64'] else 'dwarf32')
        if c['unit_type'] == 2:
            ctx.count('type_units')
        if [d.code for d in c['dies'][:2]] != [1, 2][:len(c['dies'])]:
            ctx.count('other_codes')
    fn = os.path.join(ctx.sub('e'), 'a.elf')
    with open(fn, 'wb') as f:
        f.write(spec.data)
    e = read(E, fn)
    ops = [check_headers, check_names, check_data, check_symbols, check_dies]
    tagsets = [['subprogram'], ['compile_unit', 'subprogram', 'variable'], ['variable'], ['base_type', 'member'], []]
    hist = []
    for _ in range(rng.choice([5, 8, 12])):
        k = rng.randrange(9)
        if k < 5:
            hist.append((ops[k].__name__, ops[k] if k < 4 else (lambda c, sp, el, r=rng.random(): check_dies(c, sp, el, r < 0.7, None, rng))))
        elif k < 8:
            t = rng.choice(tagsets)
            hist.append((f'tags {t}', lambda c, sp, el, t=t, r=rng.random(): check_dies(c, sp, el, r < 0.7, t, rng)))
        else:
            hist.append(('CU header', check_cu))
    rng.shuffle(hist)
    hist += [(o.__name__, o) for o in ops]
    for name, op in hist:
        try:
            op(ctx, spec, e)
        except (ArithmeticError, LookupError, ValueError, TypeError, AttributeError, AssertionError, E.Elf_Exception, RecursionError) as x:
            ctx.fail(f'{name}: {type(x).__name__}: {x}', history=[n for n, _ in hist])
    ctx.count('histories')
    if spec.syms or spec.cus:
        ctx.nontrivial(s)
        ctx.sample({'bits': spec.bits, 'little': spec.little, 'sections': spec.names[:6], 'symbols': spec.syms[:3], 'units': [(c['version'], c['d64'], c['unit_type'], len(c['dies'])) for c in spec.cus],
                    'history': [n for n, _ in hist]})


def check_cu(ctx, spec, e):
    ctx.equal([(c['version'], spec.bits // 8, c['dies'][0].cu_offset) for c in spec.cus], [(c.version, c.address_size, c.offset) for c in e.CUs], 'unit headers')


# ------------------------------------------------------------------------------------------------ damaged files
def consume(E, fn):
    e = E.Elf(fn)
    for s in e.shdrs:
        s.name
        if s.sh_type not in (0, 8):
            s.data
    for s in e.symbols:
        s.name
    return e


def bad(ctx, s):
    E = driver.load()['elf']
    rng = random.Random(s)
    spec = Spec(rng, dwarf=rng.random() < 0.3)
    data = bytearray(spec.data)
    is32 = spec.bits == 32
    order = 'little' if spec.little else 'big'
    wide = 4 if is32 else 8
    d = ctx.sub('b')

    def refused(content, what):
        fn = os.path.join(d, 'x.elf')
        with open(fn, 'wb') as f:
            f.write(content)
        try:
            consume(E, fn)
        except Exception:
            ctx.count('refused')
            ctx.count('monitor_evaluations')
            return
        ctx.fail(f'damaged file accepted: {what}')

    fn = os.path.join(d, 'ok.elf')
    with open(fn, 'wb') as f:
        f.write(data)
    consume(E, fn)  # the undamaged file is accepted
    for n in {0, 1, 3, 4, 15, 16, 17, len(data) - 1, rng.randrange(len(data)), rng.randrange(len(data)), 51, rng.randrange(16, 64), spec.w.shoff, spec.w.shoff + 1}:
        if n < len(data):
            refused(data[:n], f'truncated to {n} of {len(data)} bytes')
    for pos, val, what in ((0, 0, 'magic'), (1, 0x46, 'magic'), (3, rng.randrange(0x46), 'magic'), (4, 0, 'class'), (4, rng.randrange(3, 256), 'class'), (5, 0, 'byte order'), (5, rng.randrange(3, 256), 'byte order')):
        x = bytearray(data)
        x[pos] = val
        refused(x, f'{what} {val}')
    beyond = rng.choice([len(data), len(data) + 1, (1 << 8 * wide) - 1 if is32 else (1 << 62), len(data) + 5000])
    x = bytearray(data)
    x[32 if is32 else 40:(32 if is32 else 40) + wide] = beyond.to_bytes(wide, order)
    refused(x, 'section header table beyond the end')
    if spec.phdrs:
        x = bytearray(data)
        x[28 if is32 else 32:(28 if is32 else 32) + wide] = beyond.to_bytes(wide, order)
        refused(x, 'program header table beyond the end')
    shent = 40 if is32 else 64
    for k, h in enumerate(spec.w.headers):
        if h[1] in (0, 8) or not h[5] or rng.random() < 0.5:
            continue
        x = bytearray(data)
        p = spec.w.shoff + k * shent + (16 if is32 else 24)
        if rng.random() < 0.5:
            x[p:p + wide] = beyond.to_bytes(wide, order)
            refused(x, f'contents of section {spec.names[k]} beyond the end')
        else:
            x[p + wide:p + 2 * wide] = (len(data) - h[4] + rng.choice([1, 4, 24 * 50])).to_bytes(wide, order)
            refused(x, f'section {spec.names[k]} larger than the file')
    ctx.nontrivial('bad', s)


# ------------------------------------------------------------------------------------------------ compilers
def source(rng, cxx):
    L = []
    for k in range(rng.choice([2, 4])):
        n = rng.choice([1, 7, 200, 70000])
        L.append(f'struct S{k} {{ int a; char b[{n}]; unsigned f : {rng.randrange(1, 30)}; signed char s; }};')
        L.append(f'enum E{k} {{ e{k}a = {rng.choice([-1, -129, -70000, 5, 255, 65536])}, e{k}b = {rng.randrange(1 << 30)} }};')
        L.append(f'struct S{k} v{k}; static enum E{k} se{k} = e{k}a; const long long c{k} = {rng.choice([-1, 1 << 40, -(1 << 33), 127, 128])}LL; double d{k} = 1.5;')
        L.append(f'static inline int inl{k}(int x) {{ return x * {k + 2} + (int)se{k}; }}')
        L.append(f'int __attribute__((noinline)) fn{k}(int a, struct S{k} *p) {{ static int loc{k} = 3; int t = inl{k}(a); {{ int q = t ^ a; loc{k} += q; }} return p->b[a] + loc{k} + (int)c{k}; }}')
    if cxx:
        L.append('template<int N, typename T> T tm(T a) { return a + N; }')
        L.append(f'namespace nsp {{ class K {{ public: int m; int meth(int a) const; static int st; enum class EC : signed char {{ p = -3, q = 100 }} ec; }}; int K::meth(int a) const {{ return a + m; }} int K::st = 4; K obj; }}')
        L.append('int use() { return tm<-7, int>(3) + tm<300, long>(4) + nsp::obj.meth(2); }')
        L.append('extern "C"')
    L.append('void _start(void) { ' + ''.join(f'fn{k}(1, &v{k});' for k in range(2)) + (' use();' if cxx else '') + ' }')
    return '\n'.join(L) + '\n'


def run(args, cwd):
    r = subprocess.run(args, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env={**os.environ, 'LC_ALL': 'C.UTF-8'})
    if r.returncode:
        raise RuntimeError(f'{args}: {r.stderr.decode()[-500:]}')
    return r.stdout.decode('utf-8', 'replace')


def compiled(ctx, s):
    E = driver.load()['elf']
    rng = random.Random(s)
    d = ctx.sub('cc')
    cxx = rng.random() < 0.5
    objs = []
    for k in range(rng.choice([1, 2])):
        src = source(rng, cxx)
        if k:
            src = src.replace('_start', f'extra{k}_start')
            src = re.sub(r'\b(v|c|d|fn|se|inl|S|E|e)(\d)', rf'\g<1>_{k}_\2', src)
            src = src.replace('nsp', f'nsp{k}').replace('use()', f'use{k}()').replace('tm', f'tm{k}')
        f = os.path.join(d, f's{k}.' + ('cc' if cxx else 'c'))
        with open(f, 'w') as fo:
            fo.write(src)
        objs.append(f)
    ver = rng.choice([2, 3, 4, 5])
    clang = rng.random() < 0.4
    fl = [f'-gdwarf-{ver}', rng.choice(['-m32', '-m64']), rng.choice(['-O0', '-O1', '-O2', '-Os']), '-ffreestanding', '-fno-pic', '-no-pie', '-nostdlib', '-static', '-w', '-fno-asynchronous-unwind-tables']
    if rng.random() < 0.3 and ver >= 3 and not (clang and '-m32' in fl):
        fl.append('-gdwarf64')
    if rng.random() < 0.4:
        fl.append('-fdebug-types-section')
    if rng.random() < 0.3 and not clang:
        fl.append('-gno-strict-dwarf')
    if cxx:
        fl += ['-fno-rtti', '-fno-exceptions']
    elf = os.path.join(d, 'out.elf')
    run([('clang++' if cxx else 'clang') if clang else 'g++' if cxx else 'gcc', *fl, *objs, '-o', elf], d)
    # old DWARF versions share .debug_types with nothing the reader looks at
    e = E.Elf(elf)
    order = [lambda: compare_dwarf(ctx, E, e, elf), lambda: compare_symbols(ctx, e, elf), lambda: compare_sections(ctx, e, elf)]
    rng.shuffle(order)
    for o in order:
        o()
    ctx.nontrivial('cc', s)
    ctx.count(f'real_version_{ver}')
    ctx.count('clang' if clang else 'gcc')


def compare_sections(ctx, e, elf):
    out = run(['readelf', '-SW', elf], os.path.dirname(elf))
    want = []
    for ln in out.splitlines():
        m = re.match(r'^\s*\[\s*(\d+)\] (.*)$', ln)
        if m:
            mm = re.match(r'^(\S*)\s+(\S+(?: \S+)?)\s+([0-9a-f]{8,16}) ([0-9a-f]{6,}) ([0-9a-f]{6,}) ([0-9a-f]{2,})\s+([A-Za-z]*)\s+(\d+)\s+(\d+)\s+(\d+)\s*$', m.group(2))
            if mm:
                want.append((mm.group(1), int(mm.group(3), 16), int(mm.group(4), 16), int(mm.group(5), 16), int(mm.group(6), 16), int(mm.group(8)), int(mm.group(9)), int(mm.group(10))))
            elif m.group(2).strip():
                mm = re.match(r'^\s*NULL\s+([0-9a-f]+) ([0-9a-f]+) ([0-9a-f]+) ([0-9a-f]+)\s+(\d+)\s+(\d+)\s+(\d+)', m.group(2))
                if not mm:
                    raise RuntimeError(f'readelf line not understood: {ln}')
                want.append(('', int(mm.group(1), 16), int(mm.group(2), 16), int(mm.group(3), 16), int(mm.group(4), 16), *[int(mm.group(k)) for k in (5, 6, 7)]))
    ctx.equal(want, [(s.name, s.sh_addr, s.sh_offset, s.sh_size, s.sh_entsize, s.sh_link, s.sh_info, s.sh_addralign) for s in e.shdrs], 'section headers of a real file', file=elf)
    ctx.count('real_sections', len(want))
    out = run(['readelf', '-lW', elf], os.path.dirname(elf))
    want = []
    for ln in out.splitlines():
        m = re.match(r'^  \S+\s+0x([0-9a-f]+) 0x([0-9a-f]+) 0x([0-9a-f]+) 0x([0-9a-f]+) 0x([0-9a-f]+) ([R ][W ][E ]) (0x[0-9a-f]+|0)\s*$', ln)
        if m:
            fl = m.group(6)
            want.append((*[int(m.group(k), 16) for k in range(1, 6)], (4 if 'R' in fl else 0) | (2 if 'W' in fl else 0) | (1 if 'E' in fl else 0), int(m.group(7), 16)))
    ctx.equal(want, [(p.p_offset, p.p_vaddr, p.p_paddr, p.p_filesz, p.p_memsz, p.p_flags, p.p_align) for p in e.phdrs], 'program headers of a real file', file=elf)


TYPES = {'NOTYPE': 0, 'OBJECT': 1, 'FUNC': 2, 'SECTION': 3, 'FILE': 4, 'COMMON': 5, 'TLS': 6, 'IFUNC': 10}
BINDS = {'LOCAL': 0, 'GLOBAL': 1, 'WEAK': 2, 'UNIQUE': 10}
VIS = {'DEFAULT': 0, 'INTERNAL': 1, 'HIDDEN': 2, 'PROTECTED': 3}


def compare_symbols(ctx, e, elf):
    out = run(['readelf', '-sW', elf], os.path.dirname(elf))
    want = []
    for ln in out.splitlines():
        m = re.match(r'^\s*\d+:\s+([0-9a-f]+)\s+(\d+|0x[0-9a-f]+)\s+(\w+)\s+(\w+)\s+(\w+)\s+(\w+)(?: (\S.*)?)?$', ln)
        if m:
            n = (m.group(7) or '')
            n = re.sub(r'@.*$', '', n.split(' ')[0])
            if m.group(3) == 'SECTION':
                n = ''
            nd = {'UND': 0, 'ABS': 0xFFF1, 'COM': 0xFFF2}.get(m.group(6))
            want.append((n, int(m.group(1), 16), int(m.group(2), 0), TYPES[m.group(3)], BINDS[m.group(4)], VIS[m.group(5)], int(m.group(6)) if nd is None else nd))
    got = [(re.sub(r'@.*$', '', s.name.split(' ')[0]) if s.type != 3 else '', s.st_value, s.st_size, s.type, s.bind, s.visibility, s.st_shndx) for s in e.symbols]
    ctx.equal(want, got, 'symbols of a real file', file=elf)
    ctx.count('real_symbols', len(want))


def compare_dwarf(ctx, E, e, elf):
    out = run(['readelf', '--debug-dump=info', '-W', elf], os.path.dirname(elf))
    out = out.split('Contents of the .debug_types')[0]
    want = {}
    cur = None
    for ln in out.splitlines():
        m = re.match(r'^ <(\d+|[0-9a-f]+)><([0-9a-f]+)>: Abbrev Number: (\d+)(?: \((DW_TAG_\w+)\))?', ln)
        if m:
            cur = None
            if m.group(3) != '0':
                cur = want[int(m.group(2), 16)] = (int(m.group(1), 16), int(m.group(3)), m.group(4), [])
            continue
        m = re.match(r'^    <([0-9a-f]+)>   (DW_AT_\w+)\s*: \((\w+)\) ?(.*)$', ln)
        if m and cur:
            cur[3].append((int(m.group(1), 16), m.group(2), m.group(3), m.group(4)))
    got = {}
    for cu in e.CUs:
        for o, d in cu.get_DIEs().items():
            if d['tag'] != 0:
                got[o] = (cu, d)
    ctx.equal({o: (w[0], w[1]) for o, w in want.items()}, {o: (d['level'], d['code']) for o, (cu, d) in got.items()}, 'entries of a real file')
    stack = {}
    parents = {}
    for o in sorted(want):
        stack[want[o][0]] = o
        parents[o] = stack.get(want[o][0] - 1) if want[o][0] else None
    ctx.equal(parents, {o: d['parent'] for o, (cu, d) in got.items()}, 'parents of a real file')
    for o, (lv, code, tag, attrs) in want.items():
        cu, d = got[o]
        ctx.count('real_entries')
        if tag[7:] in elfw.TAG:
            ctx.equal(elfw.TAG[tag[7:]], d['tag'], 'tag of a real file')
        ga = list(d['attrs'].values())
        ctx.equal([(a, f) for a, _n, f, _v in attrs], [(x['offset'], FORM_NAME[x['form']]) for x in ga], 'attributes of a real file', entry=hex(o))
        for (a, n, f, v), x in zip(attrs, ga):
            if n[6:] in elfw.AT:
                ctx.equal(elfw.AT[n[6:]], x['attr'], 'attribute of a real file')
            val = x['value']
            if f in ('strp', 'line_strp'):
                m = re.match(r'^\(offset: (\w+)\): (.*?)\s*$', v)
                ctx.equal((int(m.group(1), 16), m.group(2)), (val, cu.get_attr_str(x)), 'string of a real file')
            elif f.startswith('strx'):
                m = re.match(r'^\(offset: (\w+)\): (.*?)\s*$', v)
                ctx.equal((int(m.group(1), 16), m.group(2)), (val, cu.get_attr_str(x)), 'indexed string of a real file')
                ctx.count('real_indexed')
            elif f.startswith('addrx'):
                m = re.match(r'^\(index: (\w+)\): (?:0x)?([0-9a-f]+)', v)
                ctx.equal((int(m.group(1), 16), int(m.group(2), 16)), (val, cu.get_attr_eval(x)), 'indexed address of a real file')
                ctx.count('real_indexed')
            elif f == 'string':
                ctx.equal(v.strip(), cu.get_attr_str(x), 'string of a real file')
            elif f.startswith('ref') and f != 'ref_sig8':
                m = re.match(r'^<(0x[0-9a-f]+)>', v)
                if m:
                    ctx.equal(int(m.group(1), 16), val, 'reference of a real file', text=v)
            elif f == 'ref_sig8':
                m = re.match(r'^signature: 0x([0-9a-f]+)', v)
                if m:
                    ctx.equal(int(m.group(1), 16), val, 'signature of a real file', text=v)
            elif f == 'exprloc' or f.startswith('block'):
                m = re.match(r'^(\d+) byte block: ((?:[0-9a-f]+ )*)', v)
                if m:
                    ctx.equal(bytes(int(b, 16) for b in m.group(2).split()), val, 'block of a real file', text=v)
                    m = re.search(r'\(DW_OP_addr: ([0-9a-f]+)\)', v)
                    if m and n == 'DW_AT_location':
                        ctx.equal(int(m.group(1), 16), cu.get_attr_eval(x), 'address of a real file', text=v)
                        ctx.count('real_addresses')
            elif f in ('flag', 'flag_present'):
                ctx.equal(int(v), int(val), 'flag of a real file', text=v)
            else:
                m = re.match(r'^(-?(?:0x)?[0-9a-f]+)\b', v)
                if m and not re.match(r'^0x[0-9a-f]{16,}', v):
                    t = m.group(1)
                    num_ = int(t, 16) if '0x' in t or f == 'addr' else int(t)
                    nb = {'data1': 1, 'data2': 2, 'data4': 4, 'data8': 8}.get(f)
                    if nb and num_ < 0:
                        num_ += 1 << (8 * nb)
                    if f == 'data16' or (f == 'sdata' and num_ >= 1 << 63):
                        continue
                    ctx.equal(num_, val, 'number of a real file', text=v, form=f, attr=n)
                    ctx.count('real_numbers')


FORM_NAME = {v: k for k, v in elfw.FORM.items()}


def system(ctx, s):
    E = driver.load()['elf']
    rng = random.Random(s)
    files = sorted(f for p in ('/usr/bin/*', '/usr/lib/x86_64-linux-gnu/*.so*', '/usr/lib/gcc/x86_64-linux-gnu/*/*.o', '/usr/lib/gcc/x86_64-linux-gnu/*/32/*.o', '/usr/lib32/*.o') for f in glob.glob(p)
                   if os.path.isfile(f) and 200 < os.path.getsize(f) < 3000000)
    rng.shuffle(files)
    done = 0
    for fn in files:
        with open(fn, 'rb') as f:
            if f.read(4) != b'\x7fELF':
                continue
        e = E.Elf(fn)
        if any('@' not in x for x in ()):
            pass
        compare_sections(ctx, e, fn)
        compare_symbols(ctx, e, fn)
        ctx.nontrivial('sys', fn)
        done += 1
        if done >= 3:
            break
    ctx.count('system_files', done)


def dump(ctx, s):
    """the utility of the module states the same"""
    rng = random.Random(s)
    spec = Spec(rng)
    fn = os.path.join(ctx.sub('e'), 'a.elf')
    with open(fn, 'wb') as f:
        f.write(spec.data)
    r = subprocess.run([driver.PY, '-m', 'esp_idf_size.elf', '-S', fn], cwd=driver.REPO, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=driver.child_env({'PYTHONIOENCODING': 'utf-8'}))
    ctx.check(r.returncode == 0, 'section listing failed', err=r.stderr)
    lines = r.stdout.decode().splitlines()
    for k, h in enumerate(spec.w.headers):
        ctx.check(any(re.match(rf'^{k}\s', ln) and f' {h[3]:#010x} ' in ln and (' ' + spec.names[k] + ' ') in ln.replace(str(k), str(k) + ' ', 1) for ln in lines), 'section not listed', section=spec.names[k], out=lines[:20])
    r = subprocess.run([driver.PY, '-m', 'esp_idf_size.elf', '-s', fn], cwd=driver.REPO, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=driver.child_env({'PYTHONIOENCODING': 'utf-8'}))
    ctx.check(r.returncode == 0, 'symbol listing failed', err=r.stderr)
    got = [ln.split() for ln in r.stdout.decode().splitlines()[1:]]
    ctx.equal([(f'{v:#010x}', str(sz)) for _n, v, sz, *_ in spec.syms], [(g[1], g[2]) for g in got], 'symbol listing')
    ctx.count('dump_cli')
    ctx.nontrivial('dump', s)

"""The image size is the size of the loaded sections."""

import copy
import json
import os
import random

import model
import realtc
import render
import reports
import truth
import view
from checks.common import describe, put, seeds, shape
from checks.c05 import pair

RULE = ('One case is a project (sections of all ELF types, with and without content whatever they are called, ELF sections without a map section, sections outside of all memory regions and over the end of '
        'them, empty ELF files, no ELF file, 32/64 bit and both byte orders) reported with random options in every format that shows the image size; each number shown is compared with the sum over the '
        'model. "real" cases compare with the section headers readelf prints for executables of the real linker. Non-trivial: distinct set of sections.')
REQUIRED = {'raw': 700, 'json2': 300, 'table': 300, 'diff': 150, 'other_types': 150, 'nobits_data': 80, 'content_bss': 80, 'elf_only': 80, 'no_elf': 80, 'real': 25, 'real_init_array': 5, 'region_moved': 60,
            'bits64': 30, 'big_endian': 30, 'zero_image': 3}
TYPES = [14, 15, 16, 7, 0x70000001, 0x6FFFFFF5]
FREE = ['--show-unused', '--use-flash-size', '--no-abbrev', '--unify', '--sort-reverse', '--sort-diff', '--no-color', '--lto', '--no-lto']


def cases(tier, seed):
    n = 1 if tier == 'quick' else 16
    res = [('gen', s) for s in seeds('C19', seed, 1000 * n)] + [('real', s) for s in seeds('C19r', seed, 60 * n)]
    random.Random(seed).shuffle(res)
    return res


def case(ctx, c):
    kind, s = c
    {'gen': gen, 'real': real}[kind](ctx, random.Random(s), s)


def vary(ctx, rng, p):
    """What the ELF file says about the sections."""
    for o in p.osecs:
        if not o.alloc or not o.size:
            continue
        k = rng.random()
        if o.tls:
            continue
        if o.nobits and k < 0.2:
            # bss in front of data within one segment gets content
            o.nobits = False
            if p.with_elf:
                ctx.count('content_bss')
        elif not o.nobits and k < 0.12:
            o.nobits = True
            if p.with_elf:
                ctx.count('nobits_data')
        elif not o.nobits and k < 0.35:
            o.etype = rng.choice(TYPES)
            if p.with_elf:
                ctx.count('other_types')


def write(ctx, rng, p, name):
    bits, little = rng.choice([(32, True), (32, True), (32, True), (32, False), (64, True), (64, False)])
    fn = put(ctx, p, name, bits=bits, little=little)
    e = copy.deepcopy(p)
    if p.with_elf:
        if bits == 64:
            ctx.count('bits64')
        if not little:
            ctx.count('big_endian')
        k = rng.random()
        if k < 0.4:
            # allocated sections the map file does not know, anywhere in the address space
            for i in range(rng.choice([1, 2, 5])):
                o = model.Osec(rng.choice(['.x', '.note', '.init', '.extra.data', '.bss', '.noinit', '.dummy', '.debug_x']) + f'.n{i}', rng.choice([0, 0x10, 0x3C000000, 0x40380000, 0xFFFFF000]), rng.choice([1, 4, 0x1000, 0x7FFFFFFF]),
                               alloc=rng.random() < 0.8, nobits=rng.random() < 0.3, etype=rng.choice([1, *TYPES]))
                e.osecs.insert(rng.randrange(len(e.osecs) + 1), o)
            ctx.count('elf_only')
        elif k < 0.45 and any(o.alloc and o.size for o in e.osecs):
            for o in e.osecs:
                if o.alloc:
                    o.nobits = True
            ctx.count('zero_image')
        with open(os.path.join(os.path.dirname(fn), p.name + '.elf'), 'wb') as f:
            f.write(render.elf_bytes(e, bits, little))
    else:
        ctx.count('no_elf')
    return fn, truth.image_size(e)


def gen(ctx, rng, s):
    q = None
    if rng.random() < 0.35:
        p, q = pair(rng.choice(['versions', 'same', 'unrelated', 'chips']), s)
    else:
        p = model.generate(s, overflow=rng.choice([0.0, 0.3, 0.8]))
    vary(ctx, rng, p)
    fp, size = write(ctx, rng, p, 'cur')
    fq, diff = None, None
    if q:
        vary(ctx, rng, q)
        fq, rsize = write(ctx, rng, q, 'ref')
        diff = size - rsize
        ctx.count('diff')
    observe(ctx, rng, fp, size, fq, diff)
    if rng.random() < 0.5:
        # the memory regions do not matter
        for k, (n, o, ln, at) in enumerate(p.regions):
            p.regions[k] = (n, o, max(0, ln // rng.choice([1, 2, 3, 1000])), at)
        with open(fp, 'w', encoding='utf-8', newline='') as f:
            f.write(render.map_text(p))
        ctx.count('region_moved')
        observe(ctx, rng, fp, size, fq, diff)
    ctx.nontrivial(shape(p), size)
    ctx.sample({**describe(p), 'image_size': size})


def observe(ctx, rng, fp, size, fq=None, diff=None):
    opts = [o for o in FREE if rng.random() < 0.3]
    d = ['--diff', fq] if fq else []
    j = json.loads(reports.run_ok(ctx, ['--format', 'raw', *opts, *d, fp]).out)
    ctx.count('raw')
    ctx.equal((size, diff or 0), (j['image_size'], j['image_size_diff']), 'raw: image size')
    lvl = rng.choice([[], ['--archives'], ['--files'], ['-F', 'x*']])
    j = json.loads(reports.run_ok(ctx, ['--format', 'raw', *[o for o in FREE if rng.random() < 0.3], *lvl, fp]).out)
    ctx.equal((size, 0), (j['image_size'], j['image_size_diff']), 'raw: image size')
    if rng.random() < 0.7:
        j = json.loads(reports.run_ok(ctx, ['--format', 'json2', *opts, *d, fp]).out)
        ctx.count('json2')
        ctx.equal(size, j['total_size'], 'json2: total size')
    if rng.random() < 0.7:
        r = reports.run_ok(ctx, ['--format', rng.choice(['table', 'text']), *opts, *d, fp])
        ctx.count('table')
        reports.check_image_line(ctx, r.err, size, diff)


def real(ctx, rng, s):
    r = realtc.Real(ctx.sub('real'), s)
    secs = realtc.read_section_list(r.elf)
    size = sum(n for _n, _a, n, t, fl in secs if 'A' in fl and t != 'NOBITS')
    if any(t == 'INIT_ARRAY' and n for _n, _a, n, t, _f in secs):
        ctx.count('real_init_array')
    ctx.count('real')
    observe(ctx, rng, r.map, size)
    # without the ELF file the convention about names decides, also for sections that got no content
    os.rename(r.elf, r.elf + '.moved')
    size = sum(n for name, _a, n, _t, fl in secs if 'A' in fl and (name.endswith(truth.CONV_SUFFIXES) or '.flash' in name) and not name.endswith(('.bss', 'dummy')))
    observe(ctx, rng, r.map, size)
    ctx.nontrivial('real', size)

"""Warnings are given if and only if there is a reason for them."""

import copy
import json
import os
import random

import model
import realtc
import reports
import truth
import view
from chips import CHIPS, type_at
from checks.c05 import pair
from checks.c12 import report_args
from checks.common import put, seeds, shape

RULE = ('"gen" cases report a generated project, or two with --diff, and compare the warnings and errors on standard error with the reasons computed from the model: sections or parts of them outside of all memory '
        'regions, memory regions outside of the chip memory types, different chips. "broken" cases take an input section or padding out of a link map, move it or change its size, so that there is a gap or '
        'overlap. "below" cases add a section which no memory region precedes. "elf" and "option" cases add an unusable or missing ELF file, and options that exclude each other or cannot be followed. "real" cases link a project with GNU ld. Every warning has to name '
        'what it is about, and without a reason there must not be one. Non-trivial: distinct (project, reasons, report).')
REQUIRED = {'reason_below': 60, 'without_reason': 300, 'reason_overflow': 150, 'reason_region': 60, 'reason_chips': 30, 'reason_layout': 200, 'layout_fill': 30, 'layout_data': 5, 'layout_gone': 20, 'reason_elf': 60, 'unreadable_elf': 10, 'lto_lost_elf': 5, 'reason_option': 60, 'reason_lto': 30, 'reference_reasons': 40,
            'fill': 200, 'data': 100, 'isec_outside': 100, 'isec_superseded': 100, 'isec_replaced': 50, 'isec_empty': 200, 'leading_empty': 30, 'real_projects': 5, 'layout_lto': 30, 'reference_has_reason': 60, 'lines_checked': 800}
ASSUMPTIONS = ['messages start with WARNING or ERROR and take one line each']


def cases(tier, seed):
    n = 1 if tier == 'quick' else 15
    res = [('gen', s) for s in seeds('C24g', seed, 2500 * n)] + [('broken', s) for s in seeds('C24b', seed, 1200 * n)] + [('elf', s) for s in seeds('C24e', seed, 120 * n)] + [('below', s) for s in seeds('C24w', seed, 120 * n)]
    res += [('option', s) for s in seeds('C24o', seed, 250 * n)] + [('real', s) for s in seeds('C24r', seed, 8 * n)]
    random.Random(seed).shuffle(res)
    return res


def case(ctx, c):
    kind, s = c
    {'gen': gen, 'below': below, 'broken': broken, 'elf': elf, 'option': option, 'real': real}[kind](ctx, random.Random(s), s)


def reasons(p):
    """({(kind, name) that must be announced}, {names that may be announced})"""
    must, may = set(), set()
    ends = set()
    for name, origin, length, _a in p.regions:
        pieces, tail = model.split_region(p.target, origin, length)
        ends.update(hi for _lo, hi, _t in pieces)
        if tail is not None:
            must.add(('region', name))
        elif not length and type_at(p.target, origin) is None:
            # reserved memory of size zero at the end of another region
            (may.add(name) if origin in ends else must.add(('region', name)))
    for o in p.osecs:
        if truth.reported(p, o) and any(x[3].endswith('_overflow') for x in truth.section_parts(p, o)):
            must.add(('overflow', o.name))
    if any(n == 'region' and name in may for n, name in must):
        may.clear()
    return must, may


def messages(err):
    return [x for x in err.split('\n') if x.startswith(('WARNING', 'ERROR'))]


def noise(rng, have=()):
    """Options which are no reason for or against a message."""
    res = []
    if '--unify' not in have and '--no-abbrev' not in have:
        res += rng.choice([[], [], ['--unify'], ['--no-abbrev']])
    for o in ('--show-unused', '--show-unchanged', '--use-flash-size', '--sort-diff', '--sort-reverse', '--no-color', '--no-lto'):
        if o not in have and rng.random() < 0.2:
            res.append(o)
    if rng.random() < 0.1:
        res += ['--filter', '*']
    return res


def judge(ctx, err, must, may, what, args):
    msgs = messages(err)
    for kind, name in sorted(must):
        ctx.check(any(name in m for m in msgs), f'{what}: no message about {kind} {name}', stderr=err[-1500:], args=args)
        ctx.count('reason_' + kind)
    names = {n for _k, n in must} | set(may)
    for m in msgs:
        ctx.count('lines_checked')
        ctx.check(any(n in m for n in names), f'{what}: message without a reason', line=m, reasons=sorted(must), args=args)
    if not must and not may:
        ctx.count('without_reason')
        ctx.check('WARNING' not in err and 'ERROR' not in err, f'{what}: message without a reason', stderr=err[-1500:], args=args)


def gen(ctx, rng, s):
    rel = rng.choice(['versions', 'versions', 'chips', 'unrelated'])
    if rng.random() < 0.5:
        p, q = pair(rel, s)
    else:
        # nothing to complain about
        for k in range(30):
            p = model.generate(s + k, overflow=0.0)
            if not any(reasons(p)):
                break
        q = model.mutate(p, s)
    fn, fq = put(ctx, p), put(ctx, q, 'ref')
    for o in p.osecs:
        n = [i for i in o.isecs]
        ctx.count('leading_empty', bool(len(n) > 1 and not n[0].size and n[1].size))
    fmt, opts = report_args(rng, p, q, fn, fq)
    args = ['--format', fmt, *opts, *([] if '--archive-dependencies' in opts or '--archive-details' in opts else noise(rng, opts)), fn]
    r = reports.run_ok(ctx, args)
    must, may = reasons(p)
    if '--diff' in opts:
        m2, y2 = reasons(q)
        ctx.count('reference_reasons', len(m2 - must))
        must |= m2
        may |= y2
        if p.target != q.target:
            must |= {('chips', p.target), ('chips', q.target)}
    judge(ctx, r.err, must, may, 'project', args)
    ctx.nontrivial('gen', shape(p), tuple(sorted(must)), fmt, tuple(o for o in opts if o != fq))
    ctx.sample({'args': args, 'reasons': sorted(must)[:6], 'messages': messages(r.err)[:6]})


def broken(ctx, rng, s):
    """A gap or overlap between two input sections."""
    p = model.generate(s, elf=False)
    cand = []
    for o in p.osecs:
        normal = [n for n, it in enumerate(o.items) if it[0] == 'isec' and it[1].kind == 'normal' and it[1].size]
        if len(normal) > 2 and all(it[0] != 'isec' or it[1].kind in ('normal', 'empty') for it in o.items):
            cand.append((o, normal))
    if not cand:
        return
    how = rng.choice(['gone', 'fill', 'fill', 'data', 'data', 'smaller', 'larger', 'moved'])
    if how in ('fill', 'data'):
        cand = [(o, nn) for o, nn in cand if any(it[0] == how and it[2] for it in o.items[nn[0] + 1:nn[-1]])] or cand
    o, normal = rng.choice(cand)
    k = rng.randrange(1, len(normal) - 1)
    n = normal[k]
    i = o.items[n][1]
    nxt = o.items[normal[k + 1]][1]
    about = {nxt.name}
    if how == 'gone':
        del o.items[n]
        # padding behind it would still be accounted to the one in front of it, and that is not enough
    elif how in ('fill', 'data'):
        at = [m for m in range(normal[0] + 1, normal[-1]) if o.items[m][0] == how and o.items[m][2]]
        if not at:
            return
        m = rng.choice(at)
        about = {next(o.items[x][1].name for x in normal if x > m)}
        del o.items[m]
    elif how == 'smaller':
        if i.size < 2:
            return
        i.shown = rng.randrange(1, i.size)
    elif how == 'larger':
        i.shown = i.size + rng.choice([1, 4, 0x100])
    else:
        d = rng.choice([-1, 1])
        about.add(i.name)
        if not o.addr <= i.addr + d < o.addr + o.size or any(j.addr == i.addr + d for j in o.isecs):
            return
        i.addr += d
        i.syms = []
    fn = put(ctx, p)
    args = ['--format', rng.choice(['raw', 'table', 'csv', 'json2', 'tree']), *rng.choice([[], ['--archives'], ['--files']]), *noise(rng), *with_other(ctx, rng, s, p, fn)]
    must, may = reasons(p)
    if '--no-lto' not in args and rng.random() < 0.3:
        args.insert(0, '--lto')
        may.add('DWARF')
        ctx.count('layout_lto')
    r = reports.run_ok(ctx, args)
    msgs = messages(r.err)
    ctx.count('reason_layout')
    ctx.count('layout_' + how)
    ctx.check(any(x in m for m in msgs for x in about), f'no message about a link map with {how} input section', about=about, section=o.name, stderr=r.err[-1500:], args=args)
    judge(ctx, r.err, must, may | about, 'broken link map', args)
    ctx.nontrivial('broken', how, shape(p), about)


def with_other(ctx, rng, s, p, fn):
    """Arguments for a report about the project alone, or together with one nothing is to be said about."""
    k = rng.random()
    if k < 0.5:
        return [fn]
    for n in range(30):
        q = model.generate(s + n, overflow=0.0, chip=p.target)
        if not any(reasons(q)):
            break
    else:
        return [fn]
    fq = put(ctx, q, 'clean')
    ctx.count('reference_has_reason', k < 0.75)
    return [fq, '--diff', fn] if k < 0.75 else [fn, '--diff', fq]


def below(ctx, rng, s):
    """A section that no memory region precedes has to be announced, whether it is counted or not."""
    p = model.generate(s)
    q = copy.deepcopy(p)
    n = rng.choice([1, 0x10, 0x123])
    top = min(o for _n, o, _l, _a in p.regions)
    if top <= n + 1:
        return
    addr = rng.choice([top - n, rng.randrange(1, top - n)])
    name = rng.choice(['.lost.text', '.lost.rodata', '.lost_[0].data', '.a_rather_long_name.bss'])
    if any(o.addr < addr + n and addr < o.addr + o.size for o in p.osecs):
        return
    o = model.Osec(name, addr, n, nobits=name.endswith('bss'))
    o.items = [('isec', model.Isec(name + '.x', addr, n, 'lib/liblost.a', 'lost.c.obj'))]
    q.osecs.insert(rng.randrange(len(q.osecs) + 1), o)
    fn, fq = put(ctx, p), put(ctx, q, 'below')
    opts = [fq] if rng.random() < 0.5 else [fn, '--diff', fq]
    args = ['--format', 'raw', *noise(rng, ['--use-flash-size', '--sort-diff']), *opts]
    r, base = reports.run_ok(ctx, args), json.loads(reports.run_ok(ctx, [fn if x == fq else x for x in args]).out)
    must, may = reasons(p)
    used = [sum(t['used'] - t['used_diff'] * ('--diff' in opts) for t in m['memory_types'].values()) for m in (base, json.loads(r.out))]
    ctx.check(used[1] - used[0] in (0, n), 'used memory with a section below of all regions', used=used, args=args)
    judge(ctx, r.err, must | {('below', name)}, may, 'section below of all regions', args)
    ctx.nontrivial('below', shape(q), args[2:3])


def elf(ctx, rng, s):
    p = model.generate(s, elf=True)
    if not p.with_elf:
        return
    q = copy.deepcopy(p)
    fn = put(ctx, p)
    fe = os.path.join(os.path.dirname(fn), f'{p.name}.elf')
    gone = rng.random() < 0.2
    if gone:
        os.remove(fe)
    elif rng.random() < 0.25:
        # a file that exists, but cannot be read
        os.remove(fe)
        os.symlink('/proc/self/mem', fe)
        ctx.count('unreadable_elf')
    else:
        with open(fe, 'wb') as f:
            f.write(rng.choice([b'', b'no ELF file', b'\x7fELF', b'\x7fELF\x01\x01\x01' + b'\0' * 9]))
    q.with_elf = False
    must, may = reasons(q)
    for _k, x in reasons(p)[0]:
        may.add(x)
    if gone:
        may.add(fe)  # a project without an ELF file is nothing special
    else:
        must.add(('elf', fe))
    args = ['--format', rng.choice(['raw', 'table', 'csv', 'json2', 'tree']), *rng.choice([[], ['--archives'], ['--files']]), *noise(rng), *with_other(ctx, rng, s, p, fn)]
    r = reports.run_ok(ctx, args)
    judge(ctx, r.err, must, may, 'unusable ELF file', args)
    ctx.nontrivial('elf', shape(p))


def option(ctx, rng, s):
    p, q = pair('versions', s)
    fn, fq = put(ctx, p), put(ctx, q, 'ref')
    fmt, opts = report_args(rng, p, q, fn, fq)
    must, may = reasons(p)
    kind = rng.choice(['unify', 'unify', 'no-abbrev', 'both', 'both', 'deps', 'lto', 'lto', 'no-lto'])
    opts = [o for o in opts if o not in ('--unify', '--no-abbrev')]
    if kind == 'unify':
        opts = [o for o in opts if o != '--no-abbrev'] + ['--unify']
    elif kind == 'no-abbrev':
        opts.append('--no-abbrev')
    elif kind == 'both':
        opts += ['--no-abbrev', '--unify']
        must |= {('option', '--no-abbrev'), ('option', '--unify')}
    elif kind == 'deps':
        if not (p.crt and p.with_elf):
            return
        opts, fmt = ['--archive-dependencies'], rng.choice(['table', 'csv', 'json2', 'raw', 'tree', 'dot'])
        if rng.random() < 0.5:
            opts += ['--diff', fq]
            must |= {('option', '--diff'), ('option', '--archive-dependencies')}
    else:
        if p.with_elf and rng.random() < 0.6:
            # the ELF file has got lost
            os.remove(os.path.join(os.path.dirname(fn), f'{p.name}.elf'))
            may.add(os.path.join(os.path.dirname(fn), f'{p.name}.elf'))
            p.with_elf = False
            ctx.count('lto_lost_elf', kind == 'lto')
        else:
            p.with_elf = False
            fn = put(ctx, p, 'noelf')
        must, may = reasons(p)[0], may | reasons(p)[1]
        fmt = rng.choice(['table', 'csv', 'json2', 'raw', 'tree'])
        opts = [rng.choice(['--archives', '--files']), '--lto' if kind == 'lto' else '--no-lto']
        if kind == 'lto':
            must.add(('lto', 'DWARF'))
    if '--diff' in opts and kind != 'deps':
        m2, y2 = reasons(q)
        must |= m2
        may |= y2
    if '--archive-details' in opts:
        x = opts.index('--archive-details')
        del opts[x:x + 2]
        opts.append('--archives')
    args = ['--format', fmt, *opts, fn]
    r = reports.run_ok(ctx, args)
    judge(ctx, r.err, must, may, f'options ({kind})', args)
    ctx.nontrivial('option', kind, shape(p), tuple(o for o in opts if o != fq), fmt)


def real(ctx, rng, s):
    r0 = realtc.Real(ctx.sub('real'), s)
    ctx.count('real_projects')
    for fmt in ('raw', 'table', 'csv'):
        args = ['--format', fmt, *rng.choice([[], ['--archives'], ['--files']]), *noise(rng), r0.map]
        r = reports.run_ok(ctx, args)
        judge(ctx, r.err, set(), set(), 'project linked by GNU ld', args)
    ctx.nontrivial('real', s)

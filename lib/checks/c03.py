"""The report depends on the content of the link map, not on its layout."""

import copy
import random
import re

import model
import realtc
import render
import reports
import view
from checks.common import describe, put, seeds, shape

RULE = ('One case is a project whose link map is printed several times in different layouts (wrapping of names, width of numbers, line ends, amount of blanks, preamble, '
        'target notation, symbol assignments and other statements in between, order of memory regions and of output sections, presence of the cross reference table), '
        'or relinked by the real ld with other map options; raw reports of all layouts must be equal, and equal to the model. Non-trivial: distinct project with '
        'at least one section with bytes.')
ASSUMPTIONS = ['layouts stay within what GNU ld prints']
REQUIRED = {k: 40 for k in ('layout_wrap', 'layout_hex', 'layout_crlf', 'layout_blanks', 'layout_preamble', 'layout_noise', 'layout_regions', 'layout_sections', 'layout_nocrt', 'layout_ld', 'layout_orphans', 'layout_end')}
REQUIRED['real_layouts'] = 6


def cases(tier, seed):
    res = [('gen', s) for s in seeds('C03', seed, 900 if tier == 'quick' else 15000)]
    res += [('real', s) for s in seeds('C03r', seed, 24 if tier == 'quick' else 500)]
    random.Random(seed).shuffle(res)
    return res


def noise_line(rng, addr):
    a = f'{addr:#010x}' if rng.random() < 0.5 else f'{addr:#018x}'
    return rng.choice([
        ' *(.text .text.*)', ' *(SORT_BY_ALIGNMENT(.rodata.*))', ' *libesp_system.a:cpu_start.*(.literal .text)', ' *(COMMON)', ' *fill_not*(.x)',
        f'                {a}                app_main', f'                {a}                _ZN3foo3barEv', f'                {a}                LONG_name',
        f'                {a}                        _iram_start = ABSOLUTE (.)', f'                {a}                        . = ALIGN (0x10)',
        f'                {a}                        BYTE_count = .', f'                {a}                        _end = (. + 0x4)',
        '                [!provide]                        PROVIDE (_unused = .)', '                0x00000001                        ASSERT ((_a < _b), it does not fit)',
        '                                  0x1c (size before relaxing)', f'                {a}                ABSOLUTE_SHORT', ' *(EXCLUDE_FILE(*libgcc.a) .data)',
        f'                {a}                        PROVIDE (__stack = .)', f'                {a}                        _size = SIZEOF (.flash.text)',
        ' *(.eh_frame_hdr)', ' FILL mask 0x9090', f'                {a}                std::map<int, LONG (*)(BYTE)>::push(BYTE const&, SHORT)', f'                {a}                x::operator LONG() const', '                [0x00000000]                        LOADADDR (.flash.text)', ' *(EXCLUDE_FILE(*:foo.*) .text.LONG.*)',
    ])


def with_noise(rng, p):
    q = copy.deepcopy(p)
    for o in q.osecs:
        items = []
        for it in o.items:
            items.append(it)
            while rng.random() < 0.3:
                items.append(('noise', noise_line(rng, o.addr + rng.randrange(o.size + 1))))
        while rng.random() < 0.3:
            items.insert(0, ('noise', noise_line(rng, o.addr)))
        o.items = items
    return q


def without_noise(p):
    q = copy.deepcopy(p)
    for o in q.osecs:
        o.items = [i for i in o.items if i[0] != 'noise']
    return q


def jitter(rng, text):
    """Other amounts of blanks between the columns, blanks at the end of lines, empty lines between sections."""
    out = []
    part = ''
    nl = '\r\n' if '\r\n' in text else '\n'

    def sp(n=24):
        return ' ' * rng.randrange(1, n)

    for ln in text.split(nl):
        if ln.startswith(('Memory Configuration', 'Linker script and memory map', 'Cross Reference Table')):
            part = ln[0]
        elif part == 'M' and ln.startswith('Name '):
            ln = sp().join(ln.split())
        elif part == 'M' and (m := re.match(r'^(\S+) +(0x\S+) +(0x\S+)(?: +(\S+))?$', ln)):
            ln = m.group(1) + sp() + m.group(2) + sp() + m.group(3) + (sp() + m.group(4) if m.group(4) else '') + (sp(4) if rng.random() < 0.3 else '')
        elif part == 'L':
            if m := re.match(r'^((?!\*|0x)\S+) +(0x[0-9a-f]+) +(0x[0-9a-f]+)( load address 0x[0-9a-f]+)?$', ln):
                ln = m.group(1) + sp() + m.group(2) + sp() + m.group(3) + (m.group(4) or '')
            elif m := re.match(r'^ ((?!\*|0x)\S+) +(0x[0-9a-f]+) +(0x[0-9a-f]+) (\S.*)$', ln):
                ln = ' ' + m.group(1) + sp() + m.group(2) + sp() + m.group(3) + sp(4) + m.group(4)
            elif m := re.match(r'^ +(0x[0-9a-f]+) +(0x[0-9a-f]+) (\S.*)$', ln):
                ln = sp(30) + m.group(1) + sp() + m.group(2) + sp(4) + m.group(3)
            elif m := re.match(r'^ +(0x[0-9a-f]+) +(0x[0-9a-f]+)$', ln):
                ln = sp(30) + m.group(1) + sp() + m.group(2)
            elif m := re.match(r'^ \*fill\* +(0x[0-9a-f]+) +(0x[0-9a-f]+) *$', ln):
                ln = sp(3) + '*fill*' + sp() + m.group(1) + sp() + m.group(2)
            if ln and rng.random() < 0.3:
                ln += sp(6)
            elif not ln and rng.random() < 0.3:
                out.append('')
        out.append(ln)
    return nl.join(out)


def variants(rng, p):
    other = {'ld': ['always', 'never'], 'always': ['ld', 'never'], 'never': ['ld', 'always']}[p.style['wrap']]
    q = copy.deepcopy(p)
    rng.shuffle(q.regions)
    yield 'regions', q, {}, None
    q = copy.deepcopy(p)
    rng.shuffle(q.osecs)
    yield 'sections', q, {}, None
    yield 'wrap', p, {'wrap': rng.choice(other)}, None
    yield 'hex', p, {'hex': 16 if p.style['hex'] == 8 else 8}, None
    yield 'crlf', p, {'crlf': not p.style['crlf']}, None
    yield 'preamble', p, {'preamble': not p.style['preamble']}, None
    yield 'blanks', p, {}, jitter
    yield 'ld', p, {'load': not p.style.get('load'), 'fillpat': rng.choice(['', 'cc', '00', '9090']), 'dataexpr': not p.style.get('dataexpr')}, None
    yield 'noise', with_noise(rng, p), {}, None
    yield 'nonoise', without_noise(p), {}, None
    q = copy.deepcopy(p)
    q.crt = []
    yield 'nocrt', q, {}, None
    yield 'orphans', p, {'orphans': rng.choice([0, 1, 2])}, None
    yield 'end', q, {'orphans': rng.choice([1, 2, 4])}, None
    yield 'target', p, {'target_by': rng.choice(['IDF_TARGET', 'cmake4'])}, None
    # everything at once
    q = with_noise(rng, p)
    rng.shuffle(q.regions)
    rng.shuffle(q.osecs)
    yield 'all', q, {'wrap': rng.choice(other), 'hex': rng.choice([8, 16]), 'crlf': rng.random() < 0.5, 'preamble': rng.random() < 0.5}, jitter


def content(d):
    return {k: v for k, v in d.items() if k != 'project_path'}


def case(ctx, c):
    kind, s = c
    if kind == 'real':
        return real(ctx, s)
    p = model.generate(s, nsec=random.Random(s).choice([2, 4, 7]))
    rng = random.Random(s)
    fn = put(ctx, p)
    base = content(reports.raw(ctx, fn, *reports.FULL))
    ctx.equal(view.clean(view.from_project(p)), view.from_raw(base), 'raw report of the original layout')
    vs = list(variants(rng, p))
    for name, q, style, post in vs if ctx.tier == 'thorough' else rng.sample(vs, 6):
        text = render.map_text(q, style)
        if post:
            text = post(rng, text)
        with open(fn, 'w', encoding='utf-8', newline='') as f:
            f.write(text)
        got = content(reports.raw(ctx, fn, *reports.FULL))
        ctx.equal(base, got, f'layout variant "{name}" changes the report')
        ctx.count('layout_' + name)
    if any(t['used'] for t in base['memory_types'].values()):
        ctx.nontrivial(shape(p))
        ctx.sample(describe(p))


def real(ctx, s):
    r = realtc.Real(ctx.sub('real'), s)
    base = content(reports.raw(ctx, r.map, *reports.FULL))
    for extra in (['--print-map-locals'], ['--no-print-map-discarded'], ['--print-map-locals', '--no-print-map-discarded']):
        r.relink(extra)
        ctx.equal(base, content(reports.raw(ctx, r.map, *reports.FULL)), f'map printed with {extra}')
        ctx.count('real_layouts')
    text = open(r.map, encoding='utf-8').read()
    for _ in range(2):
        with open(r.map, 'w', encoding='utf-8', newline='') as f:
            f.write(jitter(random.Random(s), text).replace('\n', random.Random(s).choice(['\n', '\r\n'])))
        ctx.equal(base, content(reports.raw(ctx, r.map, *reports.FULL)), 'other blanks')
    ctx.nontrivial('real', s)

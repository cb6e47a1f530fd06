"""Rows are sorted by the requested column."""

import json
import random
import re

import model
import parse
import reports
import view
from checks.common import describe, put, seeds, shape
from checks.c05 import pair
from chips import type_at, windows
from model import Osec, Project

RULE = ('One case is a project or pair; table and csv reports of all levels are sorted by columns given by positive and negative number and by heading, in both directions, by '
        'value and by difference. An order monitor looks at each pair of adjacent rows (sections within their memory type), with exact values; rows are compared with '
        'those of the model. JSON and tree reports are monitored on every level. Non-trivial: distinct project, column and direction with at least one strictly ordered pair.')
REQUIRED = {'adjacent_pairs': 5000, 'strict_pairs': 2000, 'by_number': 100, 'by_negative': 100, 'by_heading': 100, 'bracket_headings': 80, 'by_default': 50, 'by_diff': 100, 'pct_close': 5, 'by_pct_diff': 80,
            'refused': 200, 'tree_levels': 500, 'json_levels': 500, 'ascending': 100}
COL = ['used', 'pct', 'remain', 'total']


def cases(tier, seed):
    n = 700 if tier == 'quick' else 12000
    return [(['one', 'versions', 'versions', 'unrelated', 'totals'][k % 5], s) for k, s in enumerate(seeds('C09', seed, n))]


def totals(rng):
    """Two projects whose memory differs in size: the order of the percentages is not that of the bytes."""
    lo, hi, idx = rng.choice([w for w in windows('esp32s3') if type_at('esp32s3', w[0])[0] == w[2] and w[1] - w[0] >= 0x4000])
    names = ['.dram0.data', '.dram0.bss', '.noinit', '.iram0.text', '.iram0.vectors', '.flash.text', '.flash.rodata']
    rng.shuffle(names)
    names = names[:rng.choice([3, 5, 7])]
    res = []
    for _ in range(2):
        ln = rng.randrange(0x2000, min(hi - lo, 0x8000)) // 16 * 16
        p = Project('esp32s3', [('a_seg', lo, ln, 'rw')], [], with_elf=False)
        pos = lo
        for k, name in enumerate(sorted(names)):
            size = rng.randrange(4, (lo + ln - pos) // (len(names) - k)) // 4 * 4
            p.osecs.append(Osec(name, pos, size or 4))
            pos += size or 4
        p.style = {'hex': 8, 'wrap': 'ld'}
        res.append(p)
    return res


def ordered(ctx, values, asc, what):
    """values: exact numbers in printed order, None: nothing printed."""
    vals = [v for v in values if v is not None]
    strict = False
    for a, b in zip(vals, vals[1:]):
        ctx.count('adjacent_pairs')
        eps = 1e-9 * max(1.0, abs(a), abs(b)) if isinstance(a, float) or isinstance(b, float) else 0
        ctx.check((a <= b + eps) if asc else (a >= b - eps), f'{what}: rows are not sorted', values=vals, ascending=asc)
        if abs(a - b) > eps:
            ctx.count('strict_pairs')
            strict = True
            if isinstance(a, float) and int(a) == int(b):
                ctx.count('pct_close')
    return strict


def pick(rng, header):
    """(argument or None, 1-based column) - a random way to name a random column."""
    n = len(header) - 1
    col = rng.randint(1, n)
    k = rng.choice(['number', 'negative', 'heading', 'default'])
    if k == 'default':
        return k, None, 1
    if k == 'number':
        return k, str(col), col
    if k == 'negative':
        return k, str(col - n - 1), col
    return k, header[col], header.index(header[col], 1)


def bad_columns(rng, header):
    n = len(header) - 1
    return rng.choice(['0', str(n + 1 + rng.randrange(3)), str(-n - 1 - rng.randrange(3)), header[0], 'no such column', header[1] + 'x', header[1].lower(), header[1][:-1], header[-1].lower() + '?', ''])


def pct_of(u, t):
    return u / t * 100 if t else 0.0


def case(ctx, c):
    kind, s = c
    rng = random.Random(s)
    if kind == 'one':
        p, q = model.generate(s, nsec=rng.choice([4, 8, 12])), None
    elif kind == 'totals':
        p, q = totals(rng)
    else:
        p, q = pair(kind, s)
    if rng.random() < 0.3:
        # headings that look like markup
        o = [o for o in p.osecs if o.alloc and o.size and not o.tls and not o.name.startswith(model.EXT_RAM_PREFIXES)]
        if o:
            o = rng.choice(o)
            o.name, o.nobits = rng.choice(['.flash.tab[1]', '.flash.[bold]x', '.flash.text[red]', '.flash.[0]']), False
            ctx.count('bracket_headings')
    fp = put(ctx, p, 'cur')
    fq = put(ctx, q, 'ref') if q else None
    cur, ref = view.from_project(p), view.from_project(q) if q else None
    amb = view.ambiguous(p) or (q is not None and view.ambiguous(q))
    strict = False
    for level in ('summary', 'summary', 'archives', 'files', 'details'):
        o = reports.Opts(level=level, show_unused=amb or rng.random() < 0.5, use_flash=rng.random() < 0.6, unify=rng.random() < 0.2, no_abbrev=rng.random() < 0.5,
                         diff=fq, unchanged=kind == 'totals' or rng.random() < 0.7, sort_diff=rng.random() < (0.5 if q else 0.1), sort_reverse=rng.random() < 0.4)
        M = reports.make_map(o, cur, ref)
        if level == 'details':
            names = view.archive_names(M)
            if not names:
                continue
            o.details = rng.choice(names)
        asc = o.sort_reverse
        ctx.count('ascending' if asc else 'descending')
        if o.sort_diff and q:
            ctx.count('by_diff')
        d = bool(fq)
        fmt = rng.choice(['table', 'csv', 'text'])
        if level == 'summary':
            how, arg, col = pick(rng, reports.HDR)
            if kind == 'totals' and rng.random() < 0.5:
                how, arg, col = 'number', '2', 2
            if o.sort_diff and q and col == 2:
                ctx.count('by_pct_diff')
            o.sort = arg
            ctx.count('by_' + how)
            r = reports.run_ok(ctx, ['--format', fmt, *o.args(), fp])
            seen = reports.compare_report(ctx, r, fmt, o, M)
            key = COL[col - 1]

            def val(cells, sz):
                i = 1 if o.sort_diff else 0
                if key != 'pct':
                    x = parse.cell(cells[col - 1], d)
                    return x[i] if x else None
                if not sz[0]:
                    return None
                u = parse.cell(cells[0], d)
                now = pct_of(u[0], sz[0])
                return now - pct_of(u[0] - u[1], sz[0] - sz[1]) if o.sort_diff else now

            if not d and o.sort_diff:
                continue
            for name, info, _x in seen:
                info['size'] = parse.cell(info['cells'][3], d) or (0, 0)
            strict |= ordered(ctx, [val(i['cells'], i['size']) for _n, i, _x in seen], asc, f'{fmt} {level} by {key}')
            for name, info, secs in seen:
                if key in ('used', 'pct'):
                    strict |= ordered(ctx, [val(cells, info['size']) for _n, cells in secs], asc, f'{fmt} {level} sections of {name} by {key}')
        else:
            S = view.summary(M, o.level, o.details, o.unify, o.filt)
            if not S:
                continue
            r0 = reports.run_ok(ctx, ['--format', 'csv', *o.args(), fp])
            header = [h.strip() for h in parse.csv_rows(r0.out)[0]]
            how, arg, col = pick(rng, header)
            if how == 'heading' and ('\\' in header[col] or header[col].count('[') != header[col].count(']')):
                how, arg = 'number', str(col)
            o.sort = arg
            ctx.count('by_' + how)
            r = reports.run_ok(ctx, ['--format', fmt, *o.args(), fp])
            res = reports.compare_report(ctx, r, fmt, o, M)
            if res and (d or not o.sort_diff):
                strict |= ordered(ctx, [vals[col - 1][1 if o.sort_diff else 0] for _n, vals in res[1]], asc, f'{fmt} {level} by column {col}')
        # columns which cannot be used
        header = reports.HDR if level == 'summary' else header
        bad = bad_columns(rng, header)
        ob = reports.Opts(**{**o.__dict__, 'sort': bad})
        rb = reports.cli(['--format', fmt, *ob.args(), fp])
        ctx.check(not rb.ok and rb.exc is None and not rb.out.strip(), 'column which cannot be used for sorting accepted', args=rb.args, code=rb.code, exc=rb.exc, out=rb.out[:300])
        m = re.search(r'(\d+)\.\.(\d+) or (-\d+)\.\.(-\d+)', rb.err)
        if m:
            # the columns which may be used instead
            n = len(header) - 1
            ctx.equal((1, n, -n, -1), tuple(int(x) for x in m.groups()), 'columns named by the error message', args=rb.args, err=rb.err[-300:])
            ctx.count('ranges_named')
        ctx.count('refused')
        # sorted by size on every level
        if rng.random() < 0.7:
            ot = reports.Opts(**{**o.__dict__, 'sort': None})
            i = 'size_diff' if o.sort_diff else 'size'
            if o.sort_diff and not d:
                continue
            rt = reports.run_ok(ctx, ['--format', 'tree', *ot.args(), fp])
            got = reports.compare_report(ctx, rt, 'tree', ot, M)
            ordered(ctx, [n['used_diff' if o.sort_diff else 'used'] for n in got], asc, 'tree: memory types')

            def rec(nodes, depth):
                ctx.count('tree_levels')
                ordered(ctx, [n[i] for n in nodes], asc, f'tree: level {depth}')
                for n in nodes:
                    rec(n['children'], depth + 1)

            for n in got:
                rec(n['children'], 1)
            rj = reports.run_ok(ctx, ['--format', 'json2', *ot.args(), fp])
            reports.compare_report(ctx, rj, 'json2', ot, M)
            js = json.loads(rj.out)
            if level == 'summary':
                if not o.sort_diff:
                    ordered(ctx, [t['used'] for t in js['layout']], asc, 'json2: memory types')
                    if not o.abbrev:
                        for t in js['layout']:
                            ordered(ctx, [x['size'] for x in t['parts'].values()], asc, 'json2: sections')
                            ctx.count('json_levels')
            else:
                ordered(ctx, [e[i] for e in js.values()], asc, f'json2: {level}')
                for e in js.values():
                    ctx.count('json_levels')
                    ordered(ctx, [t[i] for t in e['memory_types'].values()], asc, 'json2: memory types of an entry')
                    for t in e['memory_types'].values():
                        ordered(ctx, [x[i] for x in t['sections'].values()], asc, 'json2: sections of an entry')
        if strict:
            ctx.nontrivial(shape(p), level, o.sort, asc, o.sort_diff)
    if strict:
        ctx.sample(describe(p))

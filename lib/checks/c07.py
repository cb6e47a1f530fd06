"""Per-archive, per-file and per-symbol reports add up and match the memory map."""

import json
import random

import model
import realtc
import reports
import truth
import view
from chips import CHIPS
from checks.common import describe, put, seeds, shape
from checks.c05 import pair

RULE = ('One case is a project (or pair) for which the --archives, --files and --archive-details reports are produced in all of json2, csv and table (tree for the same '
        'level) and compared, entry by entry and cell by cell, with sums over the model and over the raw report. Non-trivial: distinct project with at least two entries.')
REQUIRED = {'entries_compared': 2000, 'multi_section_entries': 300, 'multi_type_entries': 200, 'same_base_name_entries': 50, 'details_several_archives': 20,
            'details_unknown': 50, 'real_projects': 6}


def cases(tier, seed):
    n = 700 if tier == 'quick' else 12000
    res = [(['one', 'one', 'one', 'versions', 'unrelated'][k % 5], s) for k, s in enumerate(seeds('C07', seed, n))]
    res += [('real', s) for s in seeds('C07r', seed, 16 if tier == 'quick' else 400)]
    return res


def sums(ctx, js, types, what):
    """json2 report: totals add up, all columns exist."""
    for name, e in js.items():
        ctx.equal(sorted(types), sorted(e['memory_types']), f'{what}: memory types of {name}')
        for k in ('size', 'size_diff'):
            ctx.equal(sum(t[k] for t in e['memory_types'].values()), e[k], f'{what}: {k} of {name} is the sum of its memory types')
            for t, ti in e['memory_types'].items():
                ctx.equal(sum(s[k] for s in ti['sections'].values()), ti[k], f'{what}: {k} of {name} in {t} is the sum of its sections')
        for t, ti in e['memory_types'].items():
            ctx.equal(sorted(types[t]), sorted(ti['sections']), f'{what}: sections of {name} in {t}')
        used = [t for t, ti in e['memory_types'].items() if ti['size']]
        if len(used) > 1:
            ctx.count('multi_type_entries')
        if any(sum(1 for x in ti['sections'].values() if x['size']) > 1 for ti in e['memory_types'].values()):
            ctx.count('multi_section_entries')
    if len({e['abbrev_name'] for e in js.values()}) < len(js):
        ctx.count('same_base_name_entries')


def from_map(raw, level, details, unify):
    """Sums over the raw report of the same options, by name."""
    res = {}
    for ti in raw['memory_types'].values():
        for si in ti['sections'].values():
            for a, ai in si['archives'].items():
                if level == 'archives':
                    res.setdefault(a, [0, 0])
                    res[a][0] += ai['size']
                    res[a][1] += ai['size_diff']
                    continue
                for ob, oi in ai['object_files'].items():
                    if level == 'files':
                        k = ob.rsplit('/', 1)[-1] if unify else f'{a}:{ob}'
                        res.setdefault(k, [0, 0])
                        res[k][0] += oi['size']
                        res[k][1] += oi['size_diff']
                        continue
                    if ai['abbrev_name'] != details:
                        continue
                    for y, yi in oi['symbols'].items():
                        k = y if unify else f'{a}:{ob}:{y}'
                        res.setdefault(k, [0, 0])
                        res[k][0] += yi['size']
                        res[k][1] += yi['size_diff']
    return {k: tuple(v) for k, v in res.items()}


def against_raw(ctx, fn, o, names):
    raw = reports.raw(ctx, fn, *[a for a in reports.Opts(**{**o.__dict__, 'level': 'summary'}).args()])
    js = json.loads(reports.run_ok(ctx, ['--format', 'json2', *o.args(), fn]).out)
    want = from_map(raw, o.level, o.details, o.unify)
    if o.filt:
        want = {k: v for k, v in want.items() if v[1]}
    ctx.equal(want, {k: (e['size'], e['size_diff']) for k, e in js.items()}, f'{o.level} entries and totals against the raw report')
    types = {t: list(ti['sections']) for t, ti in raw['memory_types'].items()}
    sums(ctx, js, types, o.level)
    return js


def case(ctx, c):
    kind, s = c
    rng = random.Random(s)
    if kind == 'real':
        r = realtc.Real(ctx.sub('real'), s)
        ctx.count('real_projects')
        for level in ('archives', 'files', 'details'):
            o = reports.Opts(level=level, show_unused=rng.random() < 0.5)
            if level == 'details':
                o.details = sorted(a for a in {(f[0] or '(exe)').rsplit('/', 1)[-1] for f in r.files})[0]
                if not any(a['abbrev_name'] == o.details for t in reports.raw(ctx, r.map)['memory_types'].values() for x in t['sections'].values() for a in x['archives'].values()):
                    continue
            against_raw(ctx, r.map, o, None)
        ctx.nontrivial('real', s)
        return
    if kind == 'one':
        p, q = model.generate(s, nsec=rng.choice([3, 8, 12]), simple=rng.random() < 0.3), None
    else:
        p, q = pair(kind, s)
    fp = put(ctx, p, 'cur')
    fq = put(ctx, q, 'ref') if q else None
    cur, ref = view.from_project(p), view.from_project(q) if q else None
    amb = view.ambiguous(p) or (q is not None and view.ambiguous(q))
    total = 0
    for level in ('archives', 'files', 'details'):
        o = reports.Opts(level=level, show_unused=amb or rng.random() < 0.5, use_flash=rng.random() < 0.5, unify=rng.random() < 0.25, no_abbrev=rng.random() < 0.5,
                         diff=fq, unchanged=rng.random() < 0.6)
        M = reports.make_map(o, cur, ref)
        if level == 'details':
            names = view.archive_names(M)
            if not names:
                continue
            # prefer names shared by several archives
            full = sorted({(ai['abbrev'], a) for ti in M.values() for si in ti['sections'].values() for a, ai in si['sub'].items()})
            dup = sorted({n for n, _a in full if sum(1 for m, _b in full if m == n) > 1})
            o.details = rng.choice(dup) if dup and rng.random() < 0.6 else rng.choice(names)
            ctx.count('details_several_archives', 1 if o.details in dup else 0)
            # an archive which does not exist
            other = reports.Opts(**{**o.__dict__, 'details': o.details + 'x'})
            fmt = rng.choice(['table', 'csv', 'json2'])
            r = reports.cli(['--format', fmt, *other.args(), fp])
            ctx.check(not r.ok and not r.out.strip() and r.exc is None, 'report about an archive which does not exist', args=r.args, out=r.out[:300], exc=r.exc)
            ctx.count('details_unknown')
        js = against_raw(ctx, fp, o, None)
        total += len(js)
        for fmt in ('json2', 'csv', 'table', 'tree') if ctx.tier == 'thorough' else rng.sample(['json2', 'csv', 'table', 'tree'], 2) + ['json2']:
            reports.check_report(ctx, fp, fmt, o, cur, ref)
    if total > 1:
        ctx.nontrivial(shape(p), shape(q) if q else None)
        ctx.sample(describe(p))

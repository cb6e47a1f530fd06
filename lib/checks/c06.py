"""Unification aggregates by abbreviated name without losing or inventing bytes."""

import copy
import random

import driver
import model
import reports
import truth
import view
from checks.common import describe, put, seeds, shape
from checks.c05 import pair

RULE = ('One case is a project (or a pair compared with --diff) with many sections, archives, object files and symbols sharing abbreviated names, unified by --unify in '
        'raw and random other formats and by memorymap.unify() once, twice, before and after diff(); results are compared with an independent grouping of the '
        'not unified report and of the model. Non-trivial: distinct project in which unification merged at least two entries.')
REQUIRED = {'merged_sections': 100, 'merged_archives': 50, 'merged_object_files': 50, 'merged_symbols': 20, 'commute_checks': 50, 'idempotence_checks': 100, 'with_diff': 100}
SUB = {'sections': 'archives', 'archives': 'object_files', 'object_files': 'symbols', 'symbols': None}


def cases(tier, seed):
    n = 800 if tier == 'quick' else 15000
    return [(['one', 'versions', 'one', 'unrelated', 'one', 'chips'][k % 6], s) for k, s in enumerate(seeds('C06', seed, n))]


def group(ctx, items, level):
    """Own unification of raw dictionaries."""
    res = {}
    for _name, n in items:
        k = n['abbrev_name']
        if k in res:
            ctx.count('merged_' + level)
        e = res.setdefault(k, {'abbrev_name': k, 'size': 0, 'size_diff': 0, '_sub': []})
        e['size'] += n['size']
        e['size_diff'] += n['size_diff']
        if SUB[level]:
            e['_sub'] += list(n[SUB[level]].items())
    for e in res.values():
        sub = e.pop('_sub')
        if SUB[level]:
            e[SUB[level]] = group(ctx, sub, SUB[level])
    return res


def unified(ctx, raw):
    return {**raw, 'memory_types': {t: {**ti, 'sections': group(ctx, ti['sections'].items(), 'sections')} for t, ti in raw['memory_types'].items()}}


def case(ctx, c):
    kind, s = c
    rng = random.Random(s)
    if kind == 'one':
        p = model.generate(s, nsec=rng.choice([3, 8, 14]), simple=rng.random() < 0.5)
        q = None
    else:
        p, q = pair(kind, s)
    fp = put(ctx, p, 'cur')
    fq = put(ctx, q, 'ref') if q else None
    ctx.count('with_diff' if q else 'without_diff')
    opts = [x for x in ('--show-unused', '--use-flash-size') if rng.random() < 0.5] + (['--diff', fq] if fq else [])
    before = reports.raw(ctx, fp, *opts)
    n0 = sum(ctx.counters[k] for k in ctx.counters if k.startswith('merged_'))
    want = unified(ctx, before)
    merged = sum(ctx.counters[k] for k in ctx.counters if k.startswith('merged_')) - n0
    ctx.equal(want, reports.raw(ctx, fp, '--unify', *opts), '--unify')

    mm = driver.load()['memorymap']
    a = mm.get(fp)
    u = copy.deepcopy(a)
    mm.unify(u)
    ctx.equal(unified(ctx, a), u, 'memorymap.unify()')
    twice = copy.deepcopy(u)
    mm.unify(twice)
    ctx.equal(u, twice, 'unify() applied twice')
    ctx.count('idempotence_checks')
    for t, ti in a['memory_types'].items():
        for k in ('size', 'size_diff', 'used', 'used_diff'):
            ctx.equal(ti[k], u['memory_types'][t][k], f'{k} of {t} changed by unification')
        ctx.equal(sum(x['size'] for x in ti['sections'].values()), sum(x['size'] for x in u['memory_types'][t]['sections'].values()), f'bytes of {t}')
    if fq:
        b = mm.get(fq)
        x = mm.diff(a, b)
        mm.unify(x)
        ua, ub = copy.deepcopy(a), copy.deepcopy(b)
        mm.unify(ua)
        mm.unify(ub)
        ctx.equal(x, mm.diff(ua, ub), 'unification and comparison do not commute')
        ctx.count('commute_checks')

    cur, ref = view.from_project(p), view.from_project(q) if q else None
    amb = view.ambiguous(p) or (q is not None and view.ambiguous(q))
    for _ in range(3):
        o = reports.Opts(level=rng.choice(['summary', 'archives', 'files', 'details']), show_unused=amb or rng.random() < 0.4, use_flash=rng.random() < 0.5,
                         unify=True, no_abbrev=rng.random() < 0.2, diff=fq, unchanged=rng.random() < 0.6, sort_diff=bool(fq) and rng.random() < 0.3)
        if o.level == 'details':
            names = view.archive_names(reports.make_map(o, cur, ref))
            if not names:
                continue
            o.details = rng.choice(names)
        reports.check_report(ctx, fp, rng.choice(['table', 'csv', 'json2', 'tree', 'raw']), o, cur, ref, image=truth.image_size(p),
                             image_diff=truth.image_size(p) - truth.image_size(q) if q else None)
    if merged:
        ctx.nontrivial(shape(p), shape(q) if q else None)
        ctx.sample(describe(p))

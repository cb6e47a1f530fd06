"""Differences are exactly current minus reference at every level."""

import copy
import json
import random
import re

import driver
import model
import reports
import truth
import view
from checks.common import describe, put, seeds, shape

RULE = ('One case is a pair of projects (identical, two versions of one project, unrelated, different chips, with and without ELF file) compared by --diff in both '
        'directions, in raw and random other formats, levels and options, and by memorymap.diff(); every number is compared with the difference of the models and of the '
        'two single reports. Non-trivial: distinct pair with at least one non-zero difference.')
REQUIRED = {'projects_named': 100, 'pair_same': 30, 'pair_versions': 100, 'pair_unrelated': 50, 'pair_chips': 50, 'only_in_reference': 200, 'only_in_current': 200, 'nodes_compared': 5000,
            'report_table_summary': 10, 'report_csv_files': 5, 'report_json2_archives': 5, 'report_tree_summary': 5}
LEVELS = {'sections': 'archives', 'archives': 'object_files', 'object_files': 'symbols', 'symbols': None}


def cases(tier, seed):
    n = 600 if tier == 'quick' else 12000
    kinds = ['same', 'versions', 'versions', 'versions', 'unrelated', 'chips']
    return [(kinds[k % len(kinds)], s) for k, s in enumerate(seeds('C05', seed, n))]


def pair(kind, s):
    p = model.generate(s)
    if kind == 'same':
        q = copy.deepcopy(p)
    elif kind == 'versions':
        q = model.mutate(p, s)
    elif kind == 'unrelated':
        q = model.generate(s + 1, chip=p.target)
    else:
        q = model.generate(s + 1)
    return p, q


def walk(ctx, d, a, b, key, path):
    """d is the comparison of a and b; any of a and b may be missing."""
    ctx.equal(sorted(set(a) | set(b)), sorted(d), f'entries of {path}')
    for k, n in d.items():
        x, y = a.get(k), b.get(k)
        sx, sy = x['size'] if x else 0, y['size'] if y else 0
        ctx.count('nodes_compared')
        if x is None:
            ctx.count('only_in_reference')
        if y is None:
            ctx.count('only_in_current')
        ctx.equal((sx, sx - sy), (n['size'], n['size_diff']), f'value of {path}/{k}')
        sub = LEVELS[key]
        if sub:
            walk(ctx, n[sub], x[sub] if x else {}, y[sub] if y else {}, sub, f'{path}/{k}')


def compare(ctx, d, a, b):
    ctx.equal((a['image_size'], a['image_size'] - b['image_size']), (d['image_size'], d['image_size_diff']), 'image size')
    ctx.equal((a['target'], b['target'], a['project_path'], b['project_path']), (d['target'], d['target_diff'], d['project_path'], d['project_path_diff']), 'projects')
    A, B = a['memory_types'], b['memory_types']
    ctx.equal(sorted(set(A) | set(B)), sorted(d['memory_types']), 'memory types')
    for t, n in d['memory_types'].items():
        x, y = A.get(t), B.get(t)
        for k in ('size', 'used'):
            sx, sy = x[k] if x else 0, y[k] if y else 0
            ctx.equal((sx, sx - sy), (n[k], n[k + '_diff']), f'{k} of {t}')
        walk(ctx, n['sections'], x['sections'] if x else {}, y['sections'] if y else {}, 'sections', t)


def case(ctx, c):
    kind, s = c
    p, q = pair(kind, s)
    rng = random.Random(s)
    fp, fq = put(ctx, p, 'cur'), put(ctx, q, 'ref')
    ctx.count('pair_' + kind)
    opts = rng.choice([[], ['--show-unused'], ['--use-flash-size'], list(reports.FULL), ['--show-unchanged'], list(reports.FULL) + ['--show-unchanged']])
    a, b = reports.raw(ctx, fp, *opts), reports.raw(ctx, fq, *opts)
    ab, ba = reports.raw(ctx, fp, '--diff', fq, *opts), reports.raw(ctx, fq, '--diff', fp, *opts)
    compare(ctx, ab, a, b)
    compare(ctx, ba, b, a)

    # API, arguments untouched
    mm = driver.load()['memorymap']
    x, y = mm.get(fp), mm.get(fq)
    x0, y0 = copy.deepcopy(x), copy.deepcopy(y)
    z = mm.diff(x, y)
    ctx.equal((x0, y0), (x, y), 'diff() modified its arguments')
    compare(ctx, z, x, y)
    ctx.check(z is not x and z is not y, 'diff() returned one of its arguments')
    w = mm.diff(x, copy.deepcopy(x))
    bad = [k for k in nonzero(w)]
    ctx.check(not bad, 'comparison with itself gives a difference', where=bad[:3])

    # against the models, in the other formats
    cur, ref = view.from_project(p), view.from_project(q)
    img = truth.image_size(p), truth.image_size(p) - truth.image_size(q)
    amb = view.ambiguous(p) or view.ambiguous(q)
    for _ in range(4):
        o = reports.Opts(level=rng.choice(['summary', 'summary', 'archives', 'files', 'details']), show_unused=amb or rng.random() < 0.4, use_flash=rng.random() < 0.5,
                         unify=rng.random() < 0.2, no_abbrev=rng.random() < 0.5, diff=fq, unchanged=rng.random() < 0.5, sort_diff=rng.random() < 0.3)
        M = reports.make_map(o, cur, ref)
        if o.level == 'details':
            names = view.archive_names(M)
            if not names:
                continue
            o.details = rng.choice(names)
        fmt = rng.choice(['table', 'csv', 'json2', 'tree', 'raw'])
        r, _rows = reports.check_report(ctx, fp, fmt, o, cur, ref, image=img[0], image_diff=img[1])
        if fmt == 'table':
            ctx.count('projects_named')
            for word, path in (('CURRENT', fp), ('REFERENCE', fq)):
                named = [x for x in r.err.split('\n') if re.match(rf'{word}\s.*"', x)]
                ctx.check(len(named) == 1 and path in named[0], f'the table does not say what is {word}', lines=named, path=path)
    if list(nonzero(ab)):
        ctx.nontrivial(shape(p), shape(q))
        ctx.sample({'current': describe(p), 'reference': describe(q)})


def nonzero(d, path=''):
    for k, v in d.items():
        if isinstance(v, dict):
            yield from nonzero(v, f'{path}/{k}')
        elif k.endswith('_diff') and isinstance(v, int) and v:
            yield f'{path}/{k}={v}'

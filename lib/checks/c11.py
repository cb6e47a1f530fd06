"""Hidden entries are hidden, and only those."""

import itertools
import json
import random

import driver
import model
import reports
import truth
import view
from checks.common import describe, put, seeds, shape
from checks.c05 import pair

RULE = ('One case is a project or pair, reported with every combination of --show-unused, --use-flash-size, --no-abbrev (and --show-unchanged, --unify with --diff), each '
        'combination in raw and one other format and level; the entries shown and every number are compared with the model. Non-trivial: distinct project in which at least '
        'one entry is hidden by one combination and shown by another.')
REQUIRED = {'hidden_types': 300, 'hidden_sections': 200, 'hidden_flash_totals': 200, 'hidden_unchanged': 300, 'combinations': 3000, 'with_unify': 100, 'with_sort': 200, 'flash_total_of_reference_only': 5}


def cases(tier, seed):
    n = 260 if tier == 'quick' else 4500
    return [(['one', 'versions', 'same', 'unrelated', 'chips'][k % 5], s) for k, s in enumerate(seeds('C11', seed, n))]


def case(ctx, c):
    kind, s = c
    rng = random.Random(s)
    if kind == 'one':
        p, q = model.generate(s), None
    else:
        p, q = pair(kind, s)
    fp = put(ctx, p, 'cur')
    fq = put(ctx, q, 'ref') if q else None
    cur, ref = view.from_project(p), view.from_project(q) if q else None
    amb = view.ambiguous(p) or (q is not None and view.ambiguous(q))
    img = truth.image_size(p), (truth.image_size(p) - truth.image_size(q) if q else None)
    hidden = False
    for su, uf, na, sc in itertools.product([False, True], [False, True], [False, True], [False, True] if q else [True]):
        if amb and not su:
            continue
        o = reports.Opts(show_unused=su, use_flash=uf, no_abbrev=na, unchanged=sc, diff=fq)
        M = reports.make_map(o, cur, ref)
        ctx.count('combinations')
        reports.compare_report(ctx, reports.run_ok(ctx, ['--format', 'raw', *o.args(), fp]), 'raw', o, M, *img)
        o.level = rng.choice(['summary', 'summary', 'archives', 'files', 'details'])
        if o.level == 'details':
            names = view.archive_names(M)
            if not names:
                o.level = 'summary'
            else:
                o.details = rng.choice(names)
        fmt = rng.choice(['table', 'csv', 'json2', 'tree'])
        reports.compare_report(ctx, reports.run_ok(ctx, ['--format', fmt, *o.args(), fp]), fmt, o, M, *img)
        if rng.random() < 0.5:
            # together with options that are about something else
            x = reports.Opts(**{**o.__dict__, 'unify': not na, 'sort_reverse': rng.random() < 0.5, 'sort_diff': rng.random() < 0.3})
            Mx = reports.make_map(x, cur, ref)
            if x.level != 'details' or x.details in view.archive_names(Mx):
                f = rng.choice(['raw', 'table', 'csv', 'json2', 'tree'])
                reports.compare_report(ctx, reports.run_ok(ctx, ['--format', f, *x.args(), fp]), f, x, Mx, *img)
                ctx.count('with_unify' if x.unify else 'with_sort')
        # what the options were about
        full = view.diff(cur, ref) if q else cur
        h = len(full) - len(M)
        ctx.count('hidden_types', h)
        n = sum(len(full[t]['sections']) - len(M[t]['sections']) for t in M)
        ctx.count('hidden_sections', n)
        k = sum(1 for t in M if full[t]['size'] and not M[t]['size'])
        ctx.count('hidden_flash_totals', k)
        if q and not uf:
            ctx.count('flash_total_of_reference_only', sum(1 for t in ref if 'flash' in t.lower() and ref[t]['size'] and not cur.get(t, {}).get('size')))
        u = 0
        if o.filt:
            T = view.trim(M, True)
            u = len(M) - len(T) + sum(len(M[t]['sections']) - len(T[t]['sections']) for t in T)
            ctx.count('hidden_unchanged', u)
        hidden |= bool(h or n or k or u)
    if hidden:
        ctx.nontrivial(shape(p), shape(q) if q else None)
        ctx.sample(describe(p))

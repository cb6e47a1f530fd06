"""All output formats report the same numbers."""

import json
import random

import model
import realtc
import reports
import truth
import view
from checks.common import describe, put, seeds, shape
from checks.c05 import pair

RULE = ('One case is a project or pair and one combination of options, reported in table, text, csv, json2, tree and raw format. The numbers parsed from the raw '
        'report are the reference for the five other reports (cell by cell, including percentages, remaining and total bytes and the image size), and are '
        'themselves compared with the model. Non-trivial: distinct project and options with at least one non-zero number.')
REQUIRED = {f'report_{f}_{lv}': 40 for f in ('table', 'text', 'csv', 'json2', 'tree') for lv in ('summary', 'archives', 'files', 'details')}
REQUIRED.update({'unknown_total': 50, 'known_total': 50, 'with_diff': 50, 'real_projects': 6})


def cases(tier, seed):
    n = 800 if tier == 'quick' else 14000
    res = [(['one', 'one', 'versions', 'unrelated', 'chips'][k % 5], s) for k, s in enumerate(seeds('C08', seed, n))]
    return res + [('real', s) for s in seeds('C08r', seed, 24 if tier == 'quick' else 400)]


def case(ctx, c):
    kind, s = c
    rng = random.Random(s)
    p = q = None
    if kind == 'real':
        r0 = realtc.Real(ctx.sub('real'), s)
        ctx.count('real_projects')
        fp, fq = r0.map, None
        amb = True
    elif kind == 'one':
        p, q = model.generate(s), None
    else:
        p, q = pair(kind, s)
    if p:
        fp = put(ctx, p, 'cur')
        fq = put(ctx, q, 'ref') if q else None
        amb = view.ambiguous(p) or (q is not None and view.ambiguous(q))
    level = ['summary', 'archives', 'files', 'details'][s % 4]
    o = reports.Opts(level=level, show_unused=amb or rng.random() < 0.4, use_flash=rng.random() < 0.5, unify=rng.random() < 0.25, no_abbrev=rng.random() < 0.5,
                     diff=fq, unchanged=rng.random() < 0.6, sort_diff=bool(fq) and rng.random() < 0.3, sort_reverse=rng.random() < 0.3)
    ctx.count('with_diff' if fq else 'without_diff')
    plain = reports.Opts(**{**o.__dict__, 'level': 'summary'})
    d = reports.raw(ctx, fp, *plain.args())
    M = view.from_raw(d)
    if p:
        M2 = reports.make_map(o, view.from_project(p), view.from_project(q) if q else None)
        ctx.equal(view.clean(M2), M, 'raw report against the model')
    if level == 'details':
        names = view.archive_names(M)
        if not names:
            return
        o.details = rng.choice(names)
        # the raw format ignores the level
        ctx.equal(d, reports.raw(ctx, fp, *o.args()), 'raw report with --archive-details')
    for t in M.values():
        ctx.count('known_total' if t['size'] else 'unknown_total')
    texts = {}
    for fmt in ('table', 'text', 'csv', 'json2', 'tree'):
        r = reports.run_ok(ctx, ['--format', fmt, *o.args(), fp])
        texts[fmt] = r.out
        reports.compare_report(ctx, r, fmt, o, M, d['image_size'], d['image_size_diff'] if fq else None)
    ctx.equal(texts['table'], texts['text'], 'table and text differ')
    if p:
        ctx.equal(truth.image_size(p), d['image_size'], 'image size')
    if any(t['used'] or t['used_diff'] for t in M.values()):
        ctx.nontrivial(shape(p) if p else s, level, o.args()[:3])
        if p:
            ctx.sample({'project': describe(p), 'options': o.args()})

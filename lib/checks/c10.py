"""Filtering keeps exactly the matching rows, unchanged."""

import random

import model
import parse
import reports
import view
from checks.common import describe, put, seeds, shape
from checks.c05 import pair

RULE = ('One case is a project or pair; archives, files, symbols and dependency reports are produced with and without one to three wildcard patterns derived from the names in '
        'the report. The rows that must stay are computed by an own wildcard matcher (no regular expressions) from the unfiltered report. Non-trivial: distinct project and patterns '
        'with rows kept as well as dropped.')
REQUIRED = {'rows_kept': 1000, 'rows_dropped': 1000, 'pattern_star': 100, 'pattern_question': 100, 'pattern_set': 50, 'pattern_negated_set': 50, 'several_patterns': 100,
            'empty_result': 50, 'summary_unaffected': 50, 'dependencies': 50, 'dot_graphs': 20, 'case_differs': 30, 'pattern_blank': 60}


def cases(tier, seed):
    n = 800 if tier == 'quick' else 14000
    return [(['one', 'one', 'versions', 'deps', 'deps'][k % 5], s) for k, s in enumerate(seeds('C10', seed, n))]


def wild(name, pat):
    """Shell wildcards, whole name, case sensitive."""
    return _wild(name, 0, pat, 0, {})


def _wild(s, i, p, j, memo):
    if (i, j) in memo:
        return memo[(i, j)]
    if j == len(p):
        r = i == len(s)
    elif p[j] == '*':
        r = _wild(s, i, p, j + 1, memo) or (i < len(s) and _wild(s, i + 1, p, j, memo))
    elif i == len(s):
        r = False
    elif p[j] == '?':
        r = _wild(s, i + 1, p, j + 1, memo)
    elif p[j] == '[':
        k = j + 1
        if k < len(p) and p[k] == '!':
            k += 1
        if k < len(p) and p[k] == ']':
            k += 1
        while k < len(p) and p[k] != ']':
            k += 1
        if k >= len(p):
            r = s[i] == '[' and _wild(s, i + 1, p, j + 1, memo)
        else:
            body = p[j + 1:k]
            neg = body.startswith('!')
            if neg:
                body = body[1:]
            r = (in_set(s[i], body) != neg) and _wild(s, i + 1, p, k + 1, memo)
    else:
        r = s[i] == p[j] and _wild(s, i + 1, p, j + 1, memo)
    memo[(i, j)] = r
    return r


def in_set(ch, body):
    i = 0
    while i < len(body):
        if i + 2 < len(body) and body[i + 1] == '-':
            if body[i] <= ch <= body[i + 2]:
                return True
            i += 3
        else:
            if ch == body[i]:
                return True
            i += 1
    return False


def matches(name, pats):
    return any(wild(name, f'*{p}*') for p in pats)


def make_pattern(ctx, rng, names):
    pat = _pattern(ctx, rng, names)
    if rng.random() < 0.06:
        ctx.count('pattern_blank')
        return rng.choice([' ' + pat, pat + ' ', pat + '  ', ''])
    return pat


def _pattern(ctx, rng, names):
    n = rng.choice(names)
    k = rng.choice(['sub', 'star', 'question', 'set', 'negated_set', 'whole', 'none', 'case', 'dot', 'range'])
    a = rng.randrange(len(n))
    b = rng.randint(a + 1, len(n))
    sub = n[a:b]
    if any(ch in sub for ch in '[]*?') and k != 'none':
        k = 'plain'
        sub = ''.join(ch for ch in sub if ch not in '[]*?') or 'a'
        return sub
    if k == 'star' and len(sub) > 2:
        m = rng.randint(1, len(sub) - 1)
        ctx.count('pattern_star')
        return sub[:m] + '*' + sub[rng.randint(m, len(sub) - 1):]
    if k == 'question':
        ctx.count('pattern_question')
        i = rng.randrange(len(sub))
        return sub[:i] + '?' + sub[i + 1:]
    if k == 'set':
        ctx.count('pattern_set')
        i = rng.randrange(len(sub))
        return sub[:i] + '[' + ''.join(rng.sample(['x', 'q', '.', '_'], 2)) + (sub[i] if sub[i].isalnum() else 'e') + ']' + sub[i + 1:]
    if k == 'range':
        ctx.count('pattern_set')
        i = rng.randrange(len(sub))
        return sub[:i] + rng.choice(['[a-m]', '[n-z]', '[0-9]', '[a-z0-9]']) + sub[i + 1:]
    if k == 'negated_set':
        ctx.count('pattern_negated_set')
        i = rng.randrange(len(sub))
        return sub[:i] + '[!' + rng.choice('abcelo.') + rng.choice('rst_') + ']' + sub[i + 1:]
    if k == 'whole':
        return n
    if k == 'none':
        return 'zz_none_' + str(rng.randrange(10))
    if k == 'case':
        if sub != sub.upper():
            ctx.count('case_differs')
        return sub.upper()
    if k == 'dot':
        return rng.choice(['.o', '.c.obj', 'lib', '.a', 'lib*.a', '()', '/', ':', '.'])
    return sub


def case(ctx, c):
    kind, s = c
    rng = random.Random(s)
    if kind == 'deps':
        return deps_case(ctx, s, rng)
    if kind == 'one':
        p, q = model.generate(s, nsec=rng.choice([4, 8, 12])), None
    else:
        p, q = pair('versions', s)
    fp = put(ctx, p, 'cur')
    fq = put(ctx, q, 'ref') if q else None
    for level in ('archives', 'files', 'details', 'summary'):
        o = reports.Opts(level=level, show_unused=rng.random() < 0.5, unify=rng.random() < 0.2, no_abbrev=rng.random() < 0.5, diff=fq, unchanged=rng.random() < 0.7,
                         sort_reverse=rng.random() < 0.3)
        if level == 'details':
            M = view.from_raw(reports.raw(ctx, fp, *reports.Opts(**{**o.__dict__, 'level': 'summary'}).args()))
            names = view.archive_names(M)
            if not names:
                continue
            o.details = rng.choice(names)
        fmt = rng.choice(['table', 'csv'])
        base = reports.run_ok(ctx, ['--format', fmt, *o.args(), fp])
        if level == 'summary':
            of = reports.Opts(**{**o.__dict__, 'filters': [rng.choice(['.text', 'DIRAM', 'zz', '*', '?', 'lib'])]})
            fmt2 = rng.choice(['table', 'csv', 'json2', 'tree'])
            a = reports.run_ok(ctx, ['--format', fmt2, *o.args(), fp]).out
            ctx.equal(a, reports.run_ok(ctx, ['--format', fmt2, *of.args(), fp]).out, f'filter changes the memory summary in {fmt2} format')
            ctx.count('summary_unaffected')
            continue
        header, rows = rows_of(base.out, fmt)
        names = [r[0] for r in rows]
        if not names:
            continue
        if fmt == 'csv' and any(n != n.strip() or not n for n in names):
            continue
        pats = [make_pattern(ctx, rng, names) for _ in range(rng.choice([1, 1, 1, 2, 3]))]
        if len(pats) > 1:
            ctx.count('several_patterns')
        of = reports.Opts(**{**o.__dict__, 'filters': pats})
        got = reports.run_ok(ctx, ['--format', fmt, *of.args(), fp])
        want = [r for r in rows if matches(r[0], pats)]
        h2, rows2 = rows_of(got.out, fmt)
        ctx.equal(want, rows2, f'{fmt} {level} report with filter', patterns=pats, names=names[:20])
        if rows2:
            ctx.equal(header, h2, 'columns of the filtered report')
        ctx.count('rows_kept', len(want))
        ctx.count('rows_dropped', len(rows) - len(want))
        if not want:
            ctx.count('empty_result')
        if want and len(want) < len(rows):
            ctx.nontrivial(shape(p), tuple(pats), level, o.no_abbrev)
            ctx.sample({'patterns': pats, 'level': level, 'kept': [r[0] for r in want][:4], 'dropped': [r[0] for r in rows if r not in want][:4]})


def rows_of(text, fmt):
    if fmt == 'csv':
        h, rows = parse.csv_rows(text)
        return [x.strip() for x in h], rows
    h, rows, _i = parse.table(text)
    return h, rows


def deps_case(ctx, s, rng):
    p = model.generate(s, elf=True, nsec=rng.choice([6, 10]))
    fp = put(ctx, p, 'cur')
    o = ['--archive-dependencies']
    rev = rng.random() < 0.5
    if rev:
        o.append('--dep-reverse')
    full = rng.random() < 0.5
    if full:
        o.append('--no-abbrev')
    fmt = rng.choice(['table', 'csv', 'dot'])
    if not p.crt:
        return
    if fmt == 'dot':
        base = parse.dot(reports.run_ok(ctx, ['--format', 'dot', *o, fp]).out)
        shown = {n: v[0] for n, v in base[0].items()}
        main = sorted(n for n, v in base[0].items() if v[2] == 'box')
        if not main:
            return
        pats = [make_pattern(ctx, rng, [shown[n] for n in main]) for _ in range(rng.choice([1, 1, 2]))]
        got = parse.dot(reports.run_ok(ctx, ['--format', 'dot', *o, *[x for f in pats for x in ('-F', f)], fp]).out)
        keep = {n for n in main if matches(shown[n], pats)}
        k = 1 if rev else 0
        want = {e: v for e, v in base[1].items() if e[k] in keep}
        ctx.equal(want, got[1], 'edges of the filtered dependency graph', patterns=pats)
        nodes = keep | {n for e in want for n in e}
        ctx.equal({n: base[0][n][:2] for n in nodes}, {n: v[:2] for n, v in got[0].items()}, 'nodes of the filtered dependency graph', patterns=pats)
        ctx.equal(sorted(keep), sorted(n for n, v in got[0].items() if v[2] == 'box'), 'archives the filtered graph is about')
        ctx.count('dot_graphs')
        ctx.count('dependencies')
        if keep and len(keep) < len(main):
            ctx.nontrivial(shape(p), tuple(pats), 'dot')
        return
    _h, rows = rows_of(reports.run_ok(ctx, ['--format', fmt, *o, fp]).out, fmt)
    groups = group(rows)
    if not groups:
        return
    pats = [make_pattern(ctx, rng, [g[0][0] for g in groups]) for _ in range(rng.choice([1, 1, 2]))]
    _h, rows2 = rows_of(reports.run_ok(ctx, ['--format', fmt, *o, *[x for f in pats for x in ('-F', f)], fp]).out, fmt)
    want = [g for g in groups if matches(g[0][0], pats)]
    ctx.equal(want, group(rows2), f'{fmt} dependency report with filter', patterns=pats)
    ctx.count('dependencies')
    ctx.count('rows_kept', len(want))
    ctx.count('rows_dropped', len(groups) - len(want))
    # formats which do not filter
    other = rng.choice(['json2', 'raw', 'tree'])
    a = reports.run_ok(ctx, ['--format', other, *o, fp]).out
    ctx.equal(a, reports.run_ok(ctx, ['--format', other, *o, '-F', pats[0], fp]).out, f'filter changes the {other} dependency report')
    if want and len(want) < len(groups):
        ctx.nontrivial(shape(p), tuple(pats), 'deps')


def group(rows):
    res = []
    for r in rows:
        if r[0]:
            res.append([r])
        else:
            res[-1].append(r)
    return res

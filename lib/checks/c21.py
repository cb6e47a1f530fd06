"""Names are reported verbatim in every format."""

import json
import os
import random

import driver
import model
import reports
import view
from checks import c17
from checks.common import describe, put, seeds, shape

RULE = ('One case is a project whose output sections, input sections, archives, object files and symbols get names put together from pieces that mean something to one of the formats (markup tags, escapes, '
        'brackets, emoji codes, quotes, separators, numbers, links, wide and combining characters) or that are very long. Every format and level is parsed and the set of names with their sizes compared with the '
        'model; output files and dependency reports as well. Non-trivial: distinct set of names.')
REQUIRED = {'hostile_archives': 500, 'hostile_objects': 500, 'hostile_sections': 300, 'hostile_symbols': 500, 'hostile_isecs': 300, 'long_names': 100, 'report_table_archives': 20, 'report_csv_details': 20,
            'report_tree_details': 20, 'report_json2_files': 20, 'raw': 200, 'output_files': 50, 'dependency_reports': 100, 'dot_escapes': 50, 'details_by_hostile_name': 50, 'unified': 40, 'diffs': 60, 'subprocess': 10, 'coloured': 40}

TAGS = ['[bold]', '[/bold]', '[red]x[/red]', '[/]', '[1]', '[]', '[[a]]', '\\', '\\\\', '[link=http://x]', '[@click]', '[#fff]', '[a b]', '[/x]', '[0x10]', '[bold', 'bold]', '[=]', '[!a]',
        '[*]', '[dark_orange3]', '[on red]']
TEXT = ['(x86)', 'a(b)c', 'Ünï', '日本', 'ß', 'Ω', 'e\u0301', '😀', ':smile:', ':warning:', ',', ',,', "'", "''", '"', '""', ';', ':', '#', '%s', '%', '{}', '{0}', '${X}', '&amp;', '<b>', '|', '=', '*', '?', '~', '$', '@',
        '+', '0x10', '123', '1.5', 'http://x.y/z?q=1', 'None', 'NaN', 'true', '-', '--', '..', '\u200b', 'null', '\u202e', 'BYTE', 'LONG', 'COMMON', '.text', '_overflow', '(exe)', 'ﬁ', '½', '├──', '└', '()', '-> "', '[label="x"]',
        'esp-idf', 'Total Size', '/ 5', '<a href="x">', "\\'", '\\n', '\\t', '\\x41', '\\u0041', '\\N', '\\\\', '\\"', '&', '`', '^', '!', '=SUM(A1)']
PLAIN = ['a', 'foo', 'bar_', 'x1', 'lib', 'Main']


def cases(tier, seed):
    n = 1 if tier == 'quick' else 15
    res = [('gen', s) for s in seeds('C21', seed, 1800 * n)] + [('deps', s) for s in seeds('C21d', seed, 400 * n)] + [('sub', s) for s in seeds('C21s', seed, 16 * n)]
    random.Random(seed).shuffle(res)
    return res


def word(rng, blank=False, simple=False, slash=False):
    """A name. blank: may contain blanks."""
    while True:
        parts = [rng.choice(rng.choice([TAGS, TEXT, TEXT, PLAIN])) for _ in range(rng.choice([1, 2, 3, 5]))]
        w = rng.choice(['', '', ' ', '  ' if blank else '', '_']).join(parts)
        if rng.random() < 0.04:
            w += rng.choice(['n', 'é', '[', 'ab ', '(', ')'])[0] * rng.choice([200, 1000, 3000])
        if not slash:
            w = w.replace('/', '!')
        if not blank:
            w = ''.join(w.split())
        w = w.strip()
        # rich takes a backslash in front of a bracket for an escape, whatever one does
        if not w or w.endswith('\\') or '\\[' in w or not balanced(w) or w in ('.', '..'):
            continue
        return w


def balanced(w):
    d = 0
    for c in w:
        d += {'(': 1, ')': -1}.get(c, 0)
        if d < 0:
            return False
    return d == 0


def closed(w):
    d = 0
    for c in w:
        d += {'[': 1, ']': -1}.get(c, 0)
        if d < 0:
            return False
    return d == 0


def names_of(p):
    return [x for o in p.osecs for i in o.isecs for x in [o.name, i.name, i.archive or '', i.obj, *(y.name for y in i.syms)]]


def rename(ctx, rng, p):
    """Hostile names for everything in the project."""
    frac = rng.choice([0.3, 0.7, 1.0])
    arch, objs = {}, {}
    used = set()

    def fresh(f):
        while True:
            n = f()
            if n not in used:
                used.add(n)
                ctx.count('long_names', len(n) > 190)
                return n

    def new_archive(a):
        if rng.random() > frac:
            return a
        ctx.count('hostile_archives')
        d = '/'.join(word(rng, True) for _ in range(rng.choice([0, 1, 2])))
        return fresh(lambda: rng.choice(['', '/', 'C:/', './']) + (d + '/' if d else '') + word(rng, True) + rng.choice(['.a', '.a', '']))

    def new_object(a, o):
        if rng.random() > frac:
            return o
        ctx.count('hostile_objects')
        if a is None:
            # not to be taken for a member of an archive
            return fresh(lambda: word(rng, True) + '/' + word(rng, True) + '.c.obj')
        return fresh(lambda: word(rng, True) + rng.choice(['.o', '.c.obj', '']))

    for o in p.osecs:
        for i in o.isecs:
            if i.archive is not None and i.archive not in arch:
                arch[i.archive] = new_archive(i.archive)
            if (i.archive, i.obj) not in objs:
                objs[i.archive, i.obj] = new_object(i.archive, i.obj)
    files = {}
    for o in p.osecs:
        if p.with_elf and o.alloc and rng.random() < frac * 0.6 and truthy(o):
            ctx.count('hostile_sections')
            # The part behind the last dot is the abbreviation.
            o.name = fresh(lambda: '.' + word(rng) + rng.choice(['', '.text', '.bss', '.' + word(rng)]))
        for i in o.isecs:
            old = model.file_of(i)
            a, b = i.archive, i.obj
            i.archive, i.obj = arch[a] if a is not None else None, objs[a, b]
            files[old] = model.file_of(i)
            if rng.random() < frac * 0.5 and i.name != 'COMMON':
                i.name = fresh(lambda: '.' + word(rng))
                ctx.count('hostile_isecs')
            for y in i.syms:
                if rng.random() < frac:
                    ctx.count('hostile_symbols')
                    y.name = fresh(lambda: word(rng, not p.crt, slash=True))
    p.crt = []
    return files


def truthy(o):
    from chips import EXT_RAM_PREFIXES

    return not o.name.startswith(EXT_RAM_PREFIXES) and not o.name.endswith(('dummy', 'noload', 'reserved_for_iram'))


def acceptable(p):
    """Names keep the meaning of the sections."""
    for o in p.osecs:
        if o.name.endswith(('dummy', 'noload', 'reserved_for_iram')):
            continue
    names = [o.name for o in p.osecs]
    return len(set(names)) == len(names)


def project(ctx, rng, s, **kw):
    p = model.generate(s, nsec=rng.choice([2, 3, 5]), **kw)
    rename(ctx, rng, p)
    return p


def case(ctx, c):
    kind, s = c
    {'gen': gen, 'deps': deps, 'sub': sub}[kind](ctx, random.Random(s), s)


def gen(ctx, rng, s):
    p = project(ctx, rng, s)
    if not acceptable(p):
        return
    fn = put(ctx, p, rng.choice(['prj', 'p [bold] "x" (1)', 'ü,:smile:']))
    q = fq = None
    if rng.random() < 0.3:
        q = project(ctx, random.Random(s + 1), s, chip=p.target)
        if not acceptable(q):
            return
        fq = put(ctx, q, 'ref[/bold]')
        ctx.count('diffs')
    amb = view.ambiguous(p) or (q is not None and view.ambiguous(q))
    cur, ref = view.from_project(p), view.from_project(q) if q else None
    # A row of cells is one piece of markup for the CSV report.
    csv = all(closed(x) for x in names_of(p) + (names_of(q) if q else []))
    levels = ['summary', 'archives', 'files', 'details']
    for fmt in ('raw', 'table', 'csv', 'json2', 'tree'):
        if fmt == 'csv' and not csv:
            continue
        o = reports.Opts(level=rng.choice(levels), show_unused=amb or rng.random() < 0.5, use_flash=rng.random() < 0.5, no_abbrev=rng.random() < 0.5, unify=rng.random() < 0.15, diff=fq, unchanged=rng.random() < 0.5)
        if fmt == 'raw':
            o.level = 'summary'
            ctx.count('raw')
        M = reports.make_map(o, cur, ref)
        if o.level == 'details':
            names = view.archive_names(M)
            if not names:
                o.level = 'summary'
            else:
                o.details = rng.choice(names)
                if o.details.startswith('-'):
                    o.level = 'files'
                ctx.count('details_by_hostile_name')
        ctx.count('unified', o.unify)
        args = ['--format', fmt, *o.args(), fn]
        r = reports.run_ok(ctx, args)
        reports.compare_report(ctx, r, fmt, o, M)
        if rng.random() < 0.12:
            out = os.path.join(ctx.sub('out'), 'report')
            reports.run_ok(ctx, ['-o', out, *args])
            with open(out, encoding='utf-8', newline='') as f:
                ctx.equal(r.out, f.read(), 'output file', args=args)
            ctx.count('output_files')
        if rng.random() < 0.1:
            t = driver.cli(['--force-terminal', *args])
            ctx.equal(r.out, plain(t.out), 'coloured report without control codes', args=args)
            ctx.count('coloured')
    ctx.nontrivial(shape(p), tuple(i.obj for o in p.osecs for i in o.isecs))
    ctx.sample({'sections': [o.name for o in p.osecs][:4], 'files': sorted({model.file_of(i)[:80] for o in p.osecs for i in o.isecs})[:4], 'symbols': [y.name[:60] for o in p.osecs for i in o.isecs for y in i.syms][:6]})


def plain(t):
    import re

    return re.sub(r'\x1b\[[0-9;]*m', '', re.sub(r'\x1b\]8;[^\x1b]*\x1b\\', '', t))


def deps(ctx, rng, s):
    """Names in dependency reports. DOT has its own rules for quotes and backslashes."""
    p = model.generate(s, elf=True, nsec=rng.choice([2, 4]))
    p.crt = [('x', 'y', [])]
    rename(ctx, rng, p)
    if not acceptable(p):
        return
    files = sorted({model.file_of(i) for o in p.osecs for i in o.isecs})
    for o in p.osecs:
        for i in o.isecs:
            for y in i.syms:
                if ' ' not in y.name and rng.random() < 0.6 and y.type in (model.FUNC, model.OBJECT):
                    p.crt.append((y.name, model.file_of(i), [rng.choice(files) for _ in range(rng.choice([1, 2, 3]))]))
    # one line per symbol
    p.crt = list({t[0]: t for t in p.crt}.values())
    p.crt = [t for t in p.crt if not t[0].startswith('(')]
    if not p.crt:
        return
    fn = put(ctx, p, 'prj')
    sizes = c17.archive_sizes(view.from_project(p))
    edges = c17.graph(ctx, p, sizes)
    for fmt in c17.FMTS:
        syms = rng.random() < 0.6
        if fmt in ('table', 'csv') and syms and any(len(n) > 3000 for e in edges for n in e):
            syms = False
        if fmt == 'table' and 2 * max([len(n) for e in edges for n in e], default=0) + max([len(y) for y in sum(map(list, edges.values()), [])] if syms else [0], default=0) > 9000:
            continue  # wider than the report
        if fmt == 'csv' and not all(closed(x) for x in names_of(p)):
            continue
        c17.compare(ctx, fn, fmt, edges, sizes, rng.random() < 0.5, syms, rng.random() < 0.5, ['--show-unused'])
        ctx.count('dependency_reports')
        if fmt == 'dot':
            ctx.count('dot_escapes', sum(1 for e in edges for n in e if '"' in n or '\\' in n))
    if edges:
        ctx.nontrivial('deps', shape(p))


def sub(ctx, rng, s):
    p = project(ctx, rng, s)
    if not acceptable(p):
        return
    fn = put(ctx, p, 'prj [x]')
    args = ['--format', rng.choice(['raw', 'json2', 'csv', 'table', 'tree']), *rng.choice([['--archives'], ['--files'], []]), fn]
    r = driver.cli_subprocess(args, env={'PYTHONUTF8': '1'})
    ctx.check(r.ok, 'run failed', args=args, err=r.err[-500:])
    ctx.equal(reports.run_ok(ctx, args).out, r.out, 'report of a process', args=args)
    ctx.count('subprocess')

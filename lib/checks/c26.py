"""Options mean the same however they are written; options that do not concern the report change nothing."""

import itertools
import os
import random

import driver
import reports
import view
from checks import c16
from checks.c05 import pair
from checks.common import put, seeds, shape

RULE = ('One case takes a project (and a reference) and a random valid set of options. "spell" cases run it in canonical form and with aliases, short names, attached values, other case of the format name, shuffled '
        'options and patterns, repeated flags and the map file at any position, and compare streams, status and output file. "idle" cases add options that do not concern the requested report or format. "kinds" '
        'cases request several report kinds at once in all formats. "usage" cases are wrong command lines. Non-trivial: distinct (project, command lines).')
REQUIRED = {'idle_lto_no_elf': 10, 'spellings': 900, 'alias_deps': 30, 'alias_details': 30, 'short': 100, 'attached': 100, 'upper': 100, 'map_first': 80, 'separator': 40, 'text': 40, 'repeated': 60, 'output_files': 60,
            'idle_sort': 60, 'idle_filter': 60, 'idle_deps': 60, 'idle_unchanged': 60, 'idle_flash': 40, 'idle_kind': 40, 'idle_lto': 30, 'idle_diff': 40, 'idle_dep_sort': 20, 'idle_raw_sort': 15, 'kinds': 100, 'usage': 60, 'help': 3, 'order_patterns': 40}
ALIAS = {'--archive-dependencies': ['--archive-deps'], '--dep-symbols': ['--dep-syms'], '--dep-reverse': ['--dep-rev'], '--archive-details': ['--archive_details'], '--sort': ['-s'], '--filter': ['-F'],
         '--output-file': ['-o'], '--quiet': ['-q']}


def cases(tier, seed):
    n = 1 if tier == 'quick' else 15
    res = [('spell', s) for s in seeds('C26s', seed, 450 * n)] + [('idle', s) for s in seeds('C26i', seed, 450 * n)] + [('kinds', s) for s in seeds('C26k', seed, 130 * n)]
    res += [('lto', s) for s in seeds('C26l', seed, 60 * n)] + [('usage', s) for s in seeds('C26u', seed, 90 * n)] + [('help', s) for s in seeds('C26h', seed, 4)]
    random.Random(seed).shuffle(res)
    return res


def case(ctx, c):
    kind, s = c
    {'spell': spell, 'idle': idle, 'kinds': kinds, 'lto': lto, 'usage': usage, 'help': help_}[kind](ctx, random.Random(s), s)


def request(rng, p, q, fq, kind=None, fmt=None):
    """A valid request: (format, kind, [(option, value or None)])"""
    names = view.archive_names(view.from_project(p))
    possible = ['summary', 'archives', 'files']
    if names and not view.ambiguous(p) and not (q and view.ambiguous(q)):
        possible.append('details')
    if p.crt and p.with_elf:
        possible += ['deps', 'deps']
    kind = kind if kind in possible else rng.choice(possible)
    fmt = fmt or rng.choice(['table', 'csv', 'json2', 'raw', 'tree'] + (['dot'] if kind == 'deps' else []))
    o = []
    if kind != 'summary':
        o.append({'archives': ('--archives', None), 'files': ('--files', None), 'details': ('--archive-details', rng.choice(names) if names else ''), 'deps': ('--archive-dependencies', None)}[kind])
    if kind == 'deps':
        o += [x for x in (('--dep-symbols', None), ('--dep-reverse', None)) if rng.random() < 0.4]
    elif q and rng.random() < 0.4:
        o.append(('--diff', fq))
        o += [x for x in (('--show-unchanged', None), ('--sort-diff', None)) if rng.random() < 0.3]
    if fmt in ('table', 'csv') and kind in ('summary', 'archives', 'files', 'details') and rng.random() < 0.4:
        o.append(('--sort', rng.choice(['1', '-1', 'Total Size' if kind != 'summary' else '2'])))
    extra = [x for x in (('--no-abbrev', None), ('--show-unused', None), ('--use-flash-size', None), ('--sort-reverse', None), ('--unify', None)) if rng.random() < 0.25]
    if ('--no-abbrev', None) in extra or kind == 'details':
        extra = [x for x in extra if x[0] != '--unify']
    o += extra
    if rng.random() < 0.5:
        for _ in range(rng.choice([1, 2, 3])):
            o.append(('--filter', rng.choice(['lib*', '*', 'a', '[a-m]', '?', 'x*y', '*.c.obj', '(exe)'])))
    return fmt, kind, o


def flat(o):
    return [x for n, v in o for x in ([n] if v is None else [n, v])]


def spell(ctx, rng, s):
    p, q = pair('versions', s)
    fn, fq = put(ctx, p), put(ctx, q, 'ref')
    fmt, kind, o = request(rng, p, q, fq)
    base = ['--format', fmt, *flat(o), fn]
    r = reports.run_ok(ctx, base)
    for k in range(3):
        # the order of filters is an order of alternatives
        words = [(n, v) for n, v in o]
        rng.shuffle(words)
        ctx.count('order_patterns', sum(1 for n, _v in o if n == '--filter') > 1)
        f = fmt
        if fmt == 'table' and rng.random() < 0.4:
            f = 'text'
            ctx.count('text')
        if rng.random() < 0.4:
            f = rng.choice([f.upper(), f.capitalize()])
            ctx.count('upper')
        words.insert(rng.randrange(len(words) + 1), ('--format', f))
        out = None
        if rng.random() < 0.2:
            out = os.path.join(ctx.sub('out'), f'r{k}')
            words.insert(rng.randrange(len(words) + 1), ('--output-file', out))
        items = []
        for n, v in words:
            if rng.random() < 0.6 and n in ALIAS:
                n = rng.choice(ALIAS[n])
                ctx.count({'--archive-deps': 'alias_deps', '--archive_details': 'alias_details'}.get(n, 'short' if len(n) == 2 else 'alias'))
            if v is None:
                items.append([n])
                if rng.random() < 0.1:
                    items.append([n])
                    ctx.count('repeated')
            elif n.startswith('--') and (rng.random() < 0.5 or v.startswith('-')):
                items.append([f'{n}={v}'])
                ctx.count('attached')
            elif not n.startswith('--') and (rng.random() < 0.4 or v.startswith('-')):
                items.append([n + v])
                ctx.count('attached')
            else:
                items.append([n, v])
        if rng.random() < 0.7:
            at = rng.randrange(len(items) + 1)
            ctx.count('map_first', at < len(items))
            items.insert(at, [fn])
        else:
            items.append(['--', fn])
            ctx.count('separator')
        args = [x for i in items for x in i]
        t = driver.cli(args)
        ctx.equal((0, None), (t.code, t.exc), 'status of another spelling', args=args, canonical=base, err=t.err[-600:])
        got = t.out
        if out:
            ctx.equal('', t.out, 'standard output with an output file', args=args)
            with open(out, encoding='utf-8') as f:
                got = f.read()
            ctx.count('output_files')
        ctx.equal(r.out, got, 'report of another spelling', args=args, canonical=base)
        ctx.equal(r.err, t.err, 'messages of another spelling', args=args, canonical=base)
        ctx.count('spellings')
        ctx.nontrivial(shape(p), tuple(args[:-1]))
    ctx.sample({'canonical': base, 'other': args})
    if rng.random() < 0.2:
        t = driver.cli([*base, rng.choice(['-q', '--quiet'])])
        ctx.equal((0, '', ''), (t.code, t.out, t.err), 'quiet', args=base)


def idle_options(rng, fmt, kind, o, names):
    """[(counter, [(option, value)])] that do not concern this report"""
    res = []
    if fmt in ('json2', 'raw', 'tree') or kind == 'deps':
        res.append(('idle_sort', [('--sort', rng.choice(['1', '2', '-1', '99', 'nonsense']))]))
    if fmt in ('json2', 'raw', 'tree') or (kind == 'summary' and fmt in ('table', 'csv')):
        res.append(('idle_filter', [('--filter', rng.choice(['x', 'nothing', 'lib*', '[!a]']))]))
    if kind != 'deps':
        res.append(('idle_deps', rng.choice([[('--dep-symbols', None)], [('--dep-reverse', None)], [('--dep-symbols', None), ('--dep-reverse', None)]])))
    if ('--diff' not in [n for n, _v in o]):
        res.append(('idle_unchanged', [('--show-unchanged', None)]))
    if kind in ('archives', 'files', 'details') and fmt in ('table', 'csv', 'json2') or kind == 'deps':
        res.append(('idle_flash', [('--use-flash-size', None)]))
    if fmt == 'dot' or fmt == 'raw' or (fmt == 'tree' and kind == 'deps'):
        res.append(('idle_kind', [rng.choice([('--archives', None), ('--files', None)])]))
    if kind == 'deps' or fmt == 'raw':
        res.append(('idle_dep_sort' if kind == 'deps' else 'idle_raw_sort', [rng.choice([('--sort-reverse', None), ('--sort-diff', None)])]))
    return res


def idle(ctx, rng, s):
    p, q = pair('versions', s)
    fn, fq = put(ctx, p), put(ctx, q, 'ref')
    fmt, kind, o = request(rng, p, q, fq, kind=rng.choice([None, None, 'deps', 'summary', 'details']))
    o = [x for x in o if x[0] not in ('--filter', '--sort') or fmt in ('table', 'csv')]
    base = ['--format', fmt, *flat(o), fn]
    r = reports.run_ok(ctx, base)
    todo = idle_options(rng, fmt, kind, o, None)
    for name, extra in todo:
        extra = [x for x in extra if x not in o]
        if not extra or any(x[0] == y[0] for x in extra for y in o if x[0] == '--sort'):
            continue
        args = ['--format', fmt, *flat(o), *[f'{n}={v}' if v is not None else n for n, v in extra], fn]
        t = driver.cli(args)
        ctx.equal((0, None), (t.code, t.exc), f'status with an option that does not concern the report ({name})', args=args, err=t.err[-600:])
        ctx.equal(r.out, t.out, f'report with an option that does not concern it ({name})', args=args)
        ctx.equal(r.err, t.err, f'messages with an option that does not concern the report ({name})', args=args)
        ctx.count(name)
        ctx.nontrivial(shape(p), name, tuple(args[:-1]))
    if kind == 'deps':
        args = [*base[:-1], '--diff', fq, fn]
        t = driver.cli(args)
        ctx.equal((0, None, r.out), (t.code, t.exc, t.out), 'dependencies with --diff', args=args, err=t.err[-600:])
        ctx.count('idle_diff')


def kinds(ctx, rng, s):
    """Several report kinds at once: whichever is shown, it is the same in all formats."""
    p, q = pair('versions', s)
    names = view.archive_names(view.from_project(p))
    if not names or view.ambiguous(p) or view.ambiguous(q):
        return
    fn, fq = put(ctx, p), put(ctx, q, 'ref')
    av = {'archives': ['--archives'], 'files': ['--files'], 'details': ['--archive-details', rng.choice(names)]}
    if p.crt and p.with_elf:
        av['deps'] = ['--archive-dependencies']
    common = rng.choice([[], ['--no-abbrev'], ['--show-unused']])
    if rng.random() < 0.3 and 'deps' not in av:
        common = [*common, '--diff', fq]
    sel = rng.sample(sorted(av), rng.randrange(2, len(av) + 1))
    shown = {}
    for fmt in ('table', 'csv', 'json2'):
        single = {k: reports.run_ok(ctx, ['--format', fmt, *av[k], *common, fn]).out for k in sel}
        outs = set()
        for order in rng.sample(list(itertools.permutations(sel)), 2):
            t = reports.run_ok(ctx, ['--format', fmt, *[x for k in order for x in av[k]], *common, fn])
            outs.add(t.out)
            hit = {k for k in sel if single[k] == t.out}
            ctx.check(bool(hit), 'several report kinds give a report that is none of them', kinds=order, fmt=fmt, out=t.out[:500])
        ctx.equal(1, len(outs), f'report kinds in another order ({fmt})', kinds=sel)
        shown[fmt] = hit
    ctx.check(bool(set.intersection(*shown.values())), 'the formats show different kinds of report', shown=shown, kinds=sel)
    ctx.count('kinds')
    ctx.nontrivial('kinds', shape(p), tuple(sel))


def lto(ctx, rng, s):
    """The summary does not need debugging information."""
    L = c16.Lto(s)
    conf = rng.choice([None, {'COMPILER_LTO_LINKTIME': True}])
    fn = L.write(ctx, 'prj', sdkconfig=conf)
    if conf is None and rng.random() < 0.7:
        # not even to tell that there is none
        for x in os.listdir(os.path.dirname(fn)):
            if x.endswith('.elf'):
                os.remove(os.path.join(os.path.dirname(fn), x))
                ctx.count('idle_lto_no_elf')
    fmt = rng.choice(['table', 'csv', 'json2'])
    common = rng.choice([[], ['--show-unused'], ['--use-flash-size']])
    a = reports.run_ok(ctx, ['--format', fmt, *common, fn])
    for x in ('--lto', '--no-lto'):
        b = reports.run_ok(ctx, ['--format', fmt, *common, x, fn])
        ctx.equal((a.out, a.err), (b.out, b.err), f'summary with {x}', args=b.args)
        ctx.count('idle_lto')
    ctx.nontrivial('lto', shape(L.p), fmt)


def usage(ctx, rng, s):
    p, q = pair('versions', s)
    fn, fq = put(ctx, p), put(ctx, q, 'ref')
    bad = rng.choice([[], ['--nonsense', fn], ['--format', 'xml', fn], ['--format', '', fn], [fn, fq], ['--format'], [fn, '--diff'], [fn, '--archive-details'], ['--archives=1', fn], ['-z', fn], [fn, '-o'], ['--sort'],
                      ['--format', 'json', fn], [fn, '-F']])
    out = os.path.join(ctx.sub('out'), 'r')
    t = driver.cli(['-o', out, *bad] if rng.random() < 0.3 else bad)
    ctx.check(t.code not in (0, None) and t.exc is None, 'wrong command line accepted', args=t.args, code=t.code, exc=t.exc)
    ctx.check(t.out == '' and not os.path.exists(out), 'report for a wrong command line', args=t.args, out=t.out[:300])
    ctx.check(bool(t.err.strip()), 'no message for a wrong command line', args=t.args)
    ctx.count('usage')
    ctx.nontrivial('usage', tuple(a for a in t.args if not a.startswith('/')))


def help_(ctx, rng, s):
    texts = set()
    for x in ('-h', '--help'):
        t = driver.child([x], {'COLUMNS': '200'})
        ctx.equal(0, t.returncode, x, err=t.stderr[-500:])
        text = t.stdout.decode()
        texts.add(text)
        for n in ('--format', '--archives', '--archive-dependencies', '--dep-symbols', '--dep-reverse', '--archive-details', '--files', '--diff', '--no-abbrev', '--unify', '--show-unused', '--show-unchanged',
                  '--use-flash-size', '--lto', '--debug', '--output-file', '--sort', '--filter', '--sort-diff', '--sort-reverse', '--quiet', '--no-color', '--force-terminal', '--doc'):
            ctx.check(n in text, f'option {n} is missing in {x}', text=text[:500])
    ctx.equal(1, len(texts), 'texts of -h and --help')
    ctx.count('help')
    ctx.nontrivial('help', s)

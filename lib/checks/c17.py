"""Archive dependencies are exactly the cross references between linked archives."""

import copy
import json
import random
import re
from collections import Counter

import driver
import model
import parse
import realtc
import reports
import view
from checks.common import describe, put, seeds, shape
from checks.c10 import rows_of
from checks.c16 import Lto

RULE = ('Generated cross reference tables (several references per symbol, also from the defining archive, from archives without memory, symbols that are absolute, untyped, discarded, long or C++ demangled); '
        'the graph of every format, forward and reverse, is compared with the edges computed from the table of the generating model and the sizes of the model. Real: tables written by GNU ld, matched line by '
        'line against the known file names. Non-trivial: at least one edge.')
REQUIRED = {'edges': 2500, 'symbols_on_edges': 3000, 'graphs_raw': 200, 'graphs_json2': 200, 'graphs_table': 200, 'graphs_csv': 200, 'graphs_tree': 200, 'graphs_dot': 200, 'reversed': 600,
            'with_symbols': 600, 'self_reference': 200, 'unlinked_archive': 200, 'not_in_elf': 200, 'absolute': 50, 'untyped': 50, 'duplicate_reference': 200, 'exe': 100, 'long_name': 50,
            'demangled_noise': 50, 'refused_no_elf': 30, 'refused_no_table': 30, 'refused_dot': 30, 'diff_ignored': 20, 'real_edges': 40, 'real_projects': 8, 'lto': 50, 'archives_report_sizes': 300, 'no_edges': 10,
            'unified': 1000, 'unified_edges': 1000, 'unified_merged': 50, 'long_tables': 3}


def cases(tier, seed):
    n = 1 if tier == 'quick' else 15
    r = [('gen', s) for s in seeds('C17', seed, 900 * n)] + [('refuse', s) for s in seeds('C17f', seed, 120 * n)] + [('real', s) for s in seeds('C17r', seed, 16 * n)]
    return [('big', s) for s in seeds('C17b', seed, 6 * n)] + r + [('lto', s) for s in seeds('C17l', seed, 80 * n)]


def case(ctx, c):
    {'gen': gen, 'big': lambda *a: gen(*a, big=True), 'refuse': refuse, 'real': real, 'lto': lto}[c[0]](ctx, c[1])


def archive_of(path):
    """lib.a(x.o) -> lib.a; the parentheses at the end belong together"""
    if not path.endswith(')'):
        return '(exe)'
    depth = 0
    for k in range(len(path) - 1, -1, -1):
        depth += {')': 1, '(': -1}.get(path[k], 0)
        if depth == 0:
            return path[:k]
    return '(exe)'


def enrich(rng, p):
    """More of what a cross reference table may contain."""
    files = sorted({model.file_of(i) for o in p.osecs for i in o.isecs})
    linked = sorted({(model.file_of(i), i.archive) for o in p.osecs if o.alloc for i in o.isecs if i.size}, key=str)
    table = list(p.crt)
    if not files or not linked:
        return
    objs = [i for o in p.osecs if o.alloc for i in o.isecs if i.size]
    own = {}
    for i in objs:
        for s in i.syms:
            own.setdefault(s.name, model.file_of(i))
    have = {t[0] for t in table}
    for n, f in own.items():
        if n not in have and rng.random() < 0.5:
            table.append((n, f, [rng.choice(files) for _ in range(rng.choice([1, 2, 4]))]))
            have.add(n)
    for s in p.extra_syms:
        if s.name not in have and rng.random() < 0.7:
            table.append((s.name, rng.choice(files), [rng.choice(files)]))
            have.add(s.name)
    for k in range(rng.choice([0, 1, 2])):
        # names longer than the column
        n = f'a_really_long_symbol_name_which_does_not_fit_in_the_column_{k}' + 'x' * rng.choice([0, 1, 40])
        i = rng.choice(objs)
        i.syms.append(model.Sym(n, i.addr, 0, rng.choice([model.FUNC, model.OBJECT])))
        table.append((n, model.file_of(i), [rng.choice(files) for _ in range(3)]))
    for k in range(rng.choice([0, 0, 2])):
        table.append((rng.choice([f'ns{k}::cls::method(int, char)', f'operator new(unsigned int){k}', f'vtable for K{k}', f'std::x<a{k}, b>::y()']), rng.choice(files), [rng.choice(files)]))
    for n, f, refs in table:
        a = archive_of(f)
        same = [x for x, ar in linked if (ar or '(exe)') == a]
        if refs and rng.random() < 0.2 and same:
            refs.append(rng.choice(same))
        if refs and rng.random() < 0.2:
            refs.append(refs[0])
        if rng.random() < 0.1:
            refs.append('nowhere/libnone.a(none.o)')
    table.sort(key=lambda t: t[0])
    p.crt = table


def graph(ctx, p, sizes):
    """{(referencing, defining): [symbols]}"""
    typed, untyped, absolute = set(), set(), set()
    for s in [s for o in p.osecs if o.alloc for i in o.isecs for s in i.syms] + p.extra_syms:
        if s.type in (model.FUNC, model.OBJECT) and s.shndx != 'abs':
            typed.add(s.name)
        elif s.shndx == 'abs':
            absolute.add(s.name)
        else:
            untyped.add(s.name)
    edges = {}
    for n, f, refs in p.crt:
        b = archive_of(f)
        if n not in typed:
            ctx.count('not_in_elf')
            ctx.count('absolute', n in absolute)
            ctx.count('untyped', n in untyped)
            ctx.count('demangled_noise', ' ' in n or '::' in n)
            continue
        if b not in sizes:
            ctx.count('unlinked_archive')
            continue
        done = set()
        for r in refs:
            a = archive_of(r)
            if a == b:
                ctx.count('self_reference')
            elif a not in sizes:
                ctx.count('unlinked_archive')
            elif a in done:
                ctx.count('duplicate_reference')
            else:
                done.add(a)
                edges.setdefault((a, b), []).append(n)
                if '(exe)' in (a, b):
                    ctx.count('exe')
                if len(n) > 49:
                    ctx.count('long_name')
    return edges


def typed_names(p):
    return {s.name for s in [s for o in p.osecs if o.alloc for i in o.isecs for s in i.syms] + p.extra_syms if s.type in (model.FUNC, model.OBJECT) and s.shndx != 'abs'}


def edges_of(f, refs, sizes):
    """Edges of one symbol between abbreviated archives."""
    b = base(archive_of(f))
    return [(a, b) for a in dict.fromkeys(base(archive_of(r)) for r in refs) if a != b and a in sizes and b in sizes]


def archive_sizes(M):
    return {a: e['size'] for a, e in view.summary(M, 'archives').items() if e['size']}


def base(n):
    return n.rsplit('/', 1)[-1]


def compare(ctx, fn, fmt, edges, sizes, rev, syms, full, extra=()):
    """Run one report and compare the graph in it."""
    args = ['--format', fmt, '--archive-dependencies', *(['--dep-reverse'] if rev else []), *(['--dep-symbols'] if syms else []), *(['--no-abbrev'] if full else []), *extra, fn]
    r = reports.run_ok(ctx, args)
    ctx.count(f'graphs_{fmt}')
    ctx.count('reversed', rev)
    ctx.count('with_symbols', syms)
    want = {}
    for (a, b), names in edges.items():
        x, y = (b, a) if rev else (a, b)
        want.setdefault(x, {})[y] = sorted(names)
    if fmt in ('raw', 'json2'):
        d = json.loads(r.out)
        got = {x: {y: sorted(yi['symbols']) for y, yi in xi['archives'].items()} for x, xi in d.items()}
        ctx.equal(want, got, f'{fmt} dependency graph', args=args)
        for x, xi in d.items():
            ctx.equal((base(x), sizes[x]), (xi['abbrev_name'], xi['size']), f'{fmt}: name and size of {x}')
            for y, yi in xi['archives'].items():
                ctx.equal((base(y), sizes[y]), (yi['abbrev_name'], yi['size']), f'{fmt}: name and size of {y}')
        return
    show = (lambda n: n) if full else base
    if fmt == 'dot':
        nodes, es = parse.dot(r.out)
        ctx.equal({e: sorted(n) if syms else None for e, n in edges.items()}, {e: sorted(n) if n is not None else None for e, n in es.items()}, 'dot: edges', args=args)
        names = {n for e in edges for n in e}
        ctx.equal({n: (show(n), sizes[n], 'box' if n in want else 'ellipse') for n in names}, nodes, 'dot: nodes', args=args)
        return
    exp = Counter((show(x), sizes[x], tuple(sorted((show(y), sizes[y], tuple(n) if syms else ()) for y, n in ys.items()))) for x, ys in want.items())
    got = Counter()
    if fmt == 'tree':
        t = parse.tree(r.out)
        ctx.equal('Archive reverse dependencies' if rev else 'Archive dependencies', t.text, 'tree: heading')
        for x in t.children:
            n, s, _d = parse.name_size(x.text, False)
            ys = []
            for y in x.children:
                yn, ysz, _d = parse.name_size(y.text, False)
                ys.append((yn, ysz, tuple(sorted(z.text for z in y.children))))
            got[(n, s, tuple(sorted(ys)))] += 1
    else:
        h, rows = rows_of(r.out, fmt)
        dep = 'Dependents' if rev else 'Dependencies'
        ctx.equal(['Archive', 'Archive Size', dep, f'{dep} Sizes', *(['Symbols'] if syms else [])], h, f'{fmt}: headings')
        ents = []
        for row in rows:
            if row[2] == '':
                ctx.check(fmt == 'table' and syms and row[:4] == [''] * 4 and bool(ents), f'{fmt}: row without a dependency', row=row)
                ents[-1][2][-1][2].append(row[4])
                continue
            if row[0]:
                ents.append((row[0], int(row[1]), []))
            else:
                ctx.equal('', row[1], f'{fmt}: archive size without archive')
            ctx.check(bool(ents), f'{fmt}: dependency without archive', row=row)
            ents[-1][2].append((row[2], int(row[3]), row[4].split('\n') if syms else []))
        for n, s, ys in ents:
            got[(n, s, tuple(sorted((a, b, tuple(sorted(c))) for a, b, c in ys)))] += 1
    if exp != got:
        ctx.check(False, f'{fmt} dependency graph', missing=list((exp - got).items())[:2], extra=list((got - exp).items())[:2], args=args)
    ctx.counters['monitor_evaluations'] += 1


FMTS = ['raw', 'json2', 'table', 'csv', 'tree', 'dot']


def grow(rng, p):
    """A table as long as that of a real project, most of it between a few archives."""
    objs = [i for o in p.osecs if o.alloc for i in o.isecs if i.size]
    files = sorted({model.file_of(i) for i in objs})
    some = rng.sample(files, min(3, len(files)))
    mine = [i for i in objs if model.file_of(i) in some]
    for k in range(rng.choice([3000, 5500])):
        i = rng.choice(mine if rng.random() < 0.8 else objs)
        i.syms.append(model.Sym(f'g{k}_{rng.randrange(1000)}', i.addr, 0, model.FUNC))
        p.crt.append((i.syms[-1].name, model.file_of(i), [rng.choice(some if rng.random() < 0.8 else files) for _ in range(rng.choice([1, 1, 2]))]))
    p.crt.sort(key=lambda t: t[0])


def gen(ctx, s, big=False):
    rng = random.Random(s)
    p = model.generate(s, elf=True, nsec=rng.choice([2, 4, 8, 12]))
    enrich(rng, p)
    if big and p.crt:
        grow(rng, p)
        ctx.count('long_tables')
    if not p.crt:
        return
    fn = put(ctx, p, 'prj')
    M = view.from_project(p)
    sizes = archive_sizes(M)
    edges = graph(ctx, p, sizes)
    ctx.count('edges', len(edges))
    ctx.count('no_edges', not edges)
    ctx.count('symbols_on_edges', sum(len(v) for v in edges.values()))
    for fmt in FMTS:
        extra = rng.choice([[], [], ['--show-unused'], ['--use-flash-size'], ['--show-unused', '--use-flash-size'], ['--sort', '2'], ['--sort-reverse']])
        if view.ambiguous(p):
            extra = ['--show-unused']
        compare(ctx, fn, fmt, edges, sizes, rng.random() < 0.5, rng.random() < 0.5, rng.random() < 0.5, extra)
    # archives under their abbreviated names, together
    usizes, uedges, typed = {}, {}, typed_names(p)
    for a, n in sizes.items():
        usizes[base(a)] = usizes.get(base(a), 0) + n
    for n, f, refs in p.crt:
        for a, b in edges_of(f, refs, usizes):
            if n in typed:
                uedges.setdefault((a, b), []).append(n)
    for fmt in rng.sample(FMTS, 2):
        compare(ctx, fn, fmt, uedges, usizes, rng.random() < 0.5, rng.random() < 0.5, rng.random() < 0.3, ['--unify', '--show-unused'])
        ctx.count('unified')
        ctx.count('unified_edges', len(uedges))
    ctx.count('unified_merged', len(usizes) < len(sizes))
    # the sizes are those of the archives report
    d = json.loads(reports.run_ok(ctx, ['--format', 'json2', '--archives', '--show-unused', fn]).out)
    ctx.equal(sizes, {a: e['size'] for a, e in d.items() if e['size']}, 'archives report')
    ctx.count('archives_report_sizes')
    if rng.random() < 0.08:
        q = model.generate(s + 1)
        fq = put(ctx, q, 'ref')
        a = ['--format', rng.choice(FMTS), '--archive-dependencies', fn]
        r0, r1 = reports.run_ok(ctx, a), reports.run_ok(ctx, ['--diff', fq, *a])
        ctx.equal(r0.out, r1.out, 'dependency report with --diff')
        ctx.check('diff' in r1.err, 'no warning about --diff being ignored', err=r1.err)
        ctx.count('diff_ignored')
    if edges:
        ctx.nontrivial(shape(p), tuple(sorted(edges)))
        ctx.sample({**describe(p), 'edges': [(e, n[:3]) for e, n in list(edges.items())[:4]]})


def refuse(ctx, s):
    rng = random.Random(s)
    p = model.generate(s, elf=True)
    enrich(rng, p)
    kind = rng.choice(['elf', 'table', 'dot'])
    fmt = rng.choice(FMTS)
    if kind == 'elf':
        if not p.crt:
            return
        p.with_elf = False
        a = ['--archive-dependencies']
        ctx.count('refused_no_elf', 2)
    elif kind == 'table':
        p.crt = []
        a = ['--archive-dependencies']
        ctx.count('refused_no_table', 2)
    else:
        fmt = 'dot'
        a = rng.choice([[], ['--archives'], ['--files'], ['--dep-symbols']])
        ctx.count('refused_dot', 2)
    fn = put(ctx, p, 'prj')
    for _ in range(2):
        r = driver.cli(['--format', fmt, *a, *rng.choice([[], ['--dep-reverse'], ['--show-unused']]), fn])
        ctx.check(r.code not in (0, None) and r.exc is None and r.out == '' and r.err.strip() != '', f'not refused: {kind}', code=r.code, out=r.out[:300], err=r.err[-300:], exc=r.exc)
    ctx.nontrivial(shape(p), kind, fmt)


def lto(ctx, s):
    rng = random.Random(s)
    L = Lto(s)
    enrich(rng, L.p)
    L.q.crt = L.p.crt
    if not L.p.crt:
        return
    # symbols which were added to the description of the link
    fn = L.write(ctx, 'prj', sdkconfig=rng.choice([None, {'COMPILER_LTO_LINKTIME': True}]))
    for on in (True, False):
        sizes = archive_sizes(view.from_project(L.q if on else L.p))
        edges = graph(ctx, L.p, sizes)
        for fmt in rng.sample(FMTS, 2):
            compare(ctx, fn, fmt, edges, sizes, rng.random() < 0.5, rng.random() < 0.5, rng.random() < 0.5, ['--lto' if on else '--no-lto', '--show-unused'])
            ctx.count('lto')
    if L.moved:
        ctx.nontrivial(shape(L.p), 'lto')


def real(ctx, s):
    r = realtc.Real(ctx.sub('real'), s)
    d = json.loads(reports.run_ok(ctx, ['--format', 'json2', '--archives', r.map]).out)
    sizes = {a: e['size'] for a, e in d.items() if e['size']}
    known = {(f'{a}({o})' if a else o): a or '(exe)' for a, o, _i, _f in r.files}
    typed = set()
    for ln in realtc.sh(['readelf', '-sW', r.elf], r.dir).splitlines():
        m = re.match(r'^\s*\d+:\s+([0-9a-f]+)\s+(\d+|0x[0-9a-f]+)\s+(\w+)\s+(\w+)\s+(\w+)\s+(\w+)\s+(\S+)', ln)
        if m and m.group(3) in ('FUNC', 'OBJECT') and m.group(6) not in ('ABS', 'UND'):
            typed.add(m.group(7))
    edges = {}
    on = False
    sym = None
    with open(r.map, encoding='utf-8') as f:
        for ln in f:
            ln = ln.rstrip('\n')
            if ln.startswith('Symbol ') and ln.endswith('File'):
                on = True
                continue
            if not on:
                continue
            if not ln.strip():
                continue
            file = next((k for k in known if ln.endswith(' ' + k)), None)
            ctx.check(file is not None, 'unknown file in the real cross reference table', line=ln)
            if ln[0] != ' ':
                sym, where = ln.split()[0], known[file]
                continue
            a = known[file]
            if sym in typed and a != where and a in sizes and where in sizes:
                e = edges.setdefault((a, where), [])
                if sym not in e:
                    e.append(sym)
    ctx.count('real_projects')
    if not on:
        return
    ctx.count('real_edges', len(edges))
    for fmt in FMTS:
        compare(ctx, r.map, fmt, edges, sizes, rng_bool(s, fmt), rng_bool(s, fmt + 's'), rng_bool(s, fmt + 'f'))
    ctx.nontrivial('real', s, tuple(sorted(edges)))


def rng_bool(s, tag):
    return random.Random(f'{s}{tag}').random() < 0.5

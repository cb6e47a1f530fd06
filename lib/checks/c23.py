"""Standard output carries the report only; verbosity and colour never change data."""

import copy
import json
import os
import random
import re

import driver
import model
import parse
import render
import reports
import view
from chips import CHIPS
from checks.c05 import pair
from checks.c12 import report_args
from checks.c18 import damage_elf
from checks.common import describe, put, seeds, shape

RULE = ('"warn" cases make a valid project cause warnings or notes (options that exclude each other, other chip in the reference, unusable ELF file, LTO without description, map without chip, region without '
        'memory type, overflow, input sections out of order) in directories with names that look like markup, and compare standard output with the one of the same report without the cause; "style" cases run '
        'one report plainly, with --quiet, --debug, --force-terminal and --no-color in all combinations and compare streams and status; "fail" cases cause every documented failure; "sub" cases do that in a '
        'process of its own. Every standard output is matched completely against the grammar of its format. Non-trivial: distinct (project, report, cause).')
REQUIRED = {'warned': 300, 'cause_unify': 40, 'cause_deps': 10, 'cause_chips': 40, 'cause_elf': 40, 'cause_lto': 30, 'cause_target': 30, 'cause_region': 40, 'cause_order': 30, 'cause_overflow': 20, 'silent': 200,
            'coloured': 200, 'uncoloured': 100, 'debug': 60, 'failures': 250, 'fail_column': 15, 'fail_archive': 15, 'fail_missing': 15, 'fail_reference': 15, 'fail_output': 15, 'fail_dot': 15, 'fail_deps': 15,
            'fail_damaged': 15, 'grammar_table': 100, 'grammar_csv': 100, 'grammar_json': 200, 'grammar_tree': 80, 'grammar_dot': 10, 'subprocess': 30, 'env_terminal': 10, 'markup_paths': 200}
DIRS = ['prj', 'a[/b]c', '[bold]', 'x [red]y', ':smile:', 'ü [1] (x)', '[/]', 'a"b c']
CODES = re.compile(r'\x1b\[[0-9;?]*[A-Za-z]|\x1b\]8;[^\x1b]*\x1b\\')


def cases(tier, seed):
    n = 1 if tier == 'quick' else 15
    res = [('warn', s) for s in seeds('C23w', seed, 900 * n)] + [('style', s) for s in seeds('C23s', seed, 350 * n)] + [('fail', s) for s in seeds('C23f', seed, 500 * n)]
    res += [('sub', s) for s in seeds('C23p', seed, 40 * n)]
    random.Random(seed).shuffle(res)
    return res


def case(ctx, c):
    kind, s = c
    {'warn': warn, 'style': style, 'fail': fail, 'sub': sub}[kind](ctx, random.Random(s), s)


def grammar(ctx, fmt, out, what):
    """The whole output is one report."""
    if fmt in ('raw', 'json2'):
        try:
            json.loads(out)
        except ValueError as e:
            ctx.check(False, f'{what}: standard output is not JSON', error=str(e), out=out[:500])
        ctx.count('grammar_json')
        return
    if fmt in ('table', 'text'):
        lines = out.split('\n')
        bad = [x for x in lines if x.strip() and x[0] not in '┏┃┡│├└']
        # The title, if any, is in front of the table.
        while bad and lines and bad[0] == lines[0] and not any(w in bad[0] for w in ('WARNING', 'ERROR', 'Note', 'Total image')):
            lines.pop(0)
            bad.pop(0)
        ctx.check(not bad, f'{what}: standard output holds something else than the table', lines=bad[:3])
        ctx.count('grammar_table')
    elif fmt == 'csv':
        rest = re.sub(r'(?:"(?:[^"]|"")*"(?:,"(?:[^"]|"")*")*\n)', '', out)
        ctx.check(not rest.strip(), f'{what}: standard output holds something else than CSV', rest=rest[:300])
        if out.strip():
            try:
                parse.csv_rows(out)
            except parse.ParseError as e:
                ctx.check(False, f'{what}: standard output is not CSV', error=str(e), out=out[:500])
        ctx.count('grammar_csv')
    elif fmt == 'tree':
        try:
            parse.tree(out)
        except parse.ParseError as e:
            ctx.check(False, f'{what}: standard output is not a tree', error=str(e), out=out[:500])
        ctx.count('grammar_tree')
    else:
        try:
            parse.dot(out)
        except parse.ParseError as e:
            ctx.check(False, f'{what}: standard output is not a graph', error=str(e), out=out[:500])
        ctx.count('grammar_dot')
    for w in ('WARNING:', 'ERROR:', 'Total image size', 'Note: The reported', 'Difference is counted', 'project file: "'):
        ctx.check(w not in out, f'{what}: message on standard output', message=w)


def notes(ctx, fmt, err, opts):
    """What has to be on standard error."""
    if fmt in ('table', 'text') and not any(o in opts for o in ('--archives', '--files', '--archive-details', '--archive-dependencies')):
        ctx.check('Total image size' in err, 'no image size on standard error', err=err[-300:])


def directory(ctx, rng):
    d = rng.choice(DIRS)
    ctx.count('markup_paths', '[' in d)
    return d


def warn(ctx, rng, s):
    cause = rng.choice(['unify', 'unify', 'deps', 'deps', 'deps', 'chips', 'elf', 'elf', 'lto', 'target', 'region', 'region', 'order', 'overflow'])
    p, q = pair('chips' if cause == 'chips' else 'versions', s)
    if cause in ('elf', 'target', 'deps'):
        for k in range(20):
            if p.with_elf and (cause != 'deps' or p.crt):
                break
            p = model.generate(s + 100 + k, elf=True)
    if cause in ('lto', 'order'):
        p = model.generate(s, elf=False)
    fq = put(ctx, q, 'ref' + directory(ctx, rng))
    name = directory(ctx, rng)
    extra = []
    base = None
    expect = 'WARNING'
    if cause == 'overflow':
        p = model.generate(s, overflow=1.0)
        if not any(x.endswith('_overflow') for t in view.from_project(p).values() for x in t['sections']):
            return
    if cause == 'region':
        v = copy.deepcopy(p)
        nm = rng.choice(['odd_seg', 'a[/b]', '[bold]x', 'x[1]'])
        v.regions.insert(rng.randrange(len(v.regions) + 1), (nm, 0xa0000000 + rng.randrange(16) * 0x100000, rng.choice([4, 0x1000]), ''))
        base, p = p, v
    if cause == 'target':
        # Known from the description only.
        v = copy.deepcopy(p)
        v.style['target_line'] = False
        v.crt = p.crt or [('x', 'y.o', ['z.o'])]
        p = copy.deepcopy(p)
        p.crt = v.crt
        base, p = p, v
    fn = put(ctx, p, name)
    fmt, opts = report_args(rng, p, q, fn, fq)
    want = None
    if cause == 'unify':
        opts = [o for o in opts if o not in ('--no-abbrev',)]
        want = ['--format', fmt, '--unify', *opts, fn]
        extra = ['--unify', '--no-abbrev']
    elif cause == 'deps':
        fmt = rng.choice(['table', 'csv', 'json2', 'raw', 'tree', 'dot'])
        opts = ['--archive-dependencies', *rng.choice([[], ['--dep-symbols'], ['--dep-reverse']])]
        want = ['--format', fmt, *opts, fn]
        extra = ['--diff', fq]
    elif cause == 'chips':
        if '--diff' not in opts:
            opts = [o for o in opts if not o.startswith('--dep') and o != '--archive-dependencies']
            fmt = 'table' if fmt == 'dot' else fmt
            if '--archive-details' in opts:
                opts = ['--archives']
            opts += ['--diff', fq]
        if p.target == q.target:
            expect = ''
    elif cause == 'elf':
        fmt = 'table' if fmt == 'dot' else fmt
        opts = [o for o in opts if not o.startswith('--dep') and o != '--archive-dependencies']
        if '--archive-details' in opts:
            opts = ['--files']
        expect = 'ERROR'
        d = ctx.sub('noelf' + name)
        b = os.path.join(d, os.path.basename(fn))
        elf = os.path.join(os.path.dirname(fn), f'{p.name}.elf')
        with open(elf, 'wb') as f:
            f.write(rng.choice([b'', b'no ELF file', b'\x7fELF', b'\x7fELF\x01\x01\x01' + b'\0' * 9]))
        for x in os.listdir(os.path.dirname(fn)):
            y = os.path.join(os.path.dirname(fn), x)
            if os.path.isfile(y) and not x.endswith('.elf'):
                with open(y, 'rb') as f, open(os.path.join(d, x), 'wb') as g:
                    g.write(f.read())
        want = ['--format', fmt, *opts, b]
    elif cause == 'lto':
        fmt = 'table' if fmt == 'dot' else fmt
        opts = [o for o in opts if o not in ('--archives', '--diff') and o != fq] if '--archive-details' not in opts else ['--files']
        if fmt not in ('raw', 'tree') and not {'--archives', '--files'} & set(opts):
            opts.append(rng.choice(['--archives', '--files']))
        want = ['--format', fmt, '--no-lto', *opts, fn]
        extra = ['--lto']
    elif cause in ('region', 'target'):
        b = put(ctx, base, 'base' + name)
        want = ['--format', fmt, *opts, b]
    elif cause == 'order':
        o = [o for o in p.osecs if len(o.isecs) > 2 and o.size]
        if not o:
            return
        # swap the lines of two input sections
        with open(fn, encoding='utf-8', newline='') as f:
            t = f.read()
        L = t.split('\n')
        for o in p.osecs:
            at = [k for k, x in enumerate(L) for i in o.isecs if i.size and x.startswith(' ' + i.name + ' ') and f'{i.addr:08x} ' in x]
            if len(at) > 2:
                L[at[0]], L[at[1]] = L[at[1]], L[at[0]]
                break
        else:
            return
        with open(fn, 'w', encoding='utf-8', newline='') as f:
            f.write('\n'.join(L))
        expect = ''
    args = ['--format', fmt, *opts, *extra, fn]
    r = reports.run_ok(ctx, args)
    what = f'warning by {cause}'
    ctx.count('cause_' + cause)
    ctx.count('warned', 'WARNING' in r.err or 'ERROR' in r.err)
    grammar(ctx, fmt, r.out, what)
    notes(ctx, fmt, r.err, opts)
    if expect:
        ctx.check(expect in r.err, f'{what}: nothing on standard error', err=r.err[-500:], args=args)
    if cause == 'region':
        ctx.check(nm in r.err, f'{what}: the message does not name the region', err=r.err[-500:], region=nm)
    if cause == 'elf':
        ctx.check(elf in r.err.replace('\n', ''), f'{what}: the message does not name the file', err=r.err[-500:], file=elf)
    if want:
        w = reports.run_ok(ctx, want)
        a, b = r.out, w.out
        if fmt == 'raw':
            a, b = json.loads(a), json.loads(b)
            for x in (a, b):
                x.pop('project_path', None)
        ctx.equal(b, a, f'{what} changed the report', args=args, reference=want)
    quiet(ctx, args, r)
    ctx.nontrivial(cause, shape(p), tuple(opts), fmt)
    ctx.sample({'cause': cause, 'args': args, 'stderr': r.err[:300]})


def quiet(ctx, args, r):
    for extra in ([], [['--force-terminal'], ['--no-color'], ['--debug'], ['--force-terminal', '--debug']][len(r.out) % 4]):
        z = driver.cli(['--quiet', *extra, *args])
        ctx.equal(('', ''), (z.out, z.err), f'output with --quiet {extra}', args=args)
    ctx.equal(r.code, z.code, 'status with --quiet', args=args)
    ctx.count('silent')


def colours(t):
    """SGR parameters other than attributes (bold, dim, italic, underline, ...)"""
    bad = []
    for m in re.finditer(r'\x1b\[([0-9;]*)m', t):
        for v in m.group(1).split(';'):
            if v and (30 <= int(v) <= 49 or 90 <= int(v) <= 107):
                bad.append(m.group(0))
    return bad


def style(ctx, rng, s):
    p, q = pair('versions', s)
    name = directory(ctx, rng)
    fn, fq = put(ctx, p, name), put(ctx, q, 'ref' + name)
    fmt, opts = report_args(rng, p, q, fn, fq)
    args = ['--format', fmt, *opts, fn]
    r = reports.run_ok(ctx, args)
    grammar(ctx, fmt, r.out, 'plain report')
    notes(ctx, fmt, r.err, opts)
    ctx.check('\x1b' not in r.out and '\x1b' not in r.err, 'control codes without --force-terminal', args=args)
    quiet(ctx, args, r)
    for nc in (False, True):
        t = reports.run_ok(ctx, ['--force-terminal', *(['--no-color'] if nc else []), *args])
        ctx.equal(r.out, CODES.sub('', t.out), 'report without the control codes', args=t.args)
        ctx.equal(r.err, CODES.sub('', t.err), 'messages without the control codes', args=t.args)
        if nc:
            bad = colours(t.out + t.err)
            ctx.check(not bad, 'colours with --no-color', codes=bad[:3], args=t.args)
            ctx.count('uncoloured')
        else:
            ctx.count('coloured')
            ctx.count('with_codes', '\x1b' in t.out)
            if fmt in ('table', 'text', 'raw', 'json2') and r.out.strip():
                ctx.check('\x1b' in t.out, 'no control codes with --force-terminal', args=t.args)
    t = reports.run_ok(ctx, ['--no-color', *args])
    ctx.equal((r.out, r.err), (t.out, t.err), 'streams with --no-color', args=args)
    if rng.random() < 0.3:
        t = reports.run_ok(ctx, ['--debug', *args])
        ctx.check(t.out.endswith(r.out), 'the report is not what remains of the --debug output', args=t.args)
        ctx.equal(r.err, t.err, 'messages with --debug', args=args)
        ctx.count('debug')
        ctx.check(len(t.out) > len(r.out), 'no debug information', args=args)
        z = driver.cli(['--quiet', '--debug', *args])
        ctx.equal(('', '', 0), (z.out, z.err, z.code), 'output with --quiet and --debug', args=args)
    # The next run must not inherit anything.
    t = reports.run_ok(ctx, args)
    ctx.equal((r.out, r.err), (t.out, t.err), 'plain report again', args=args)
    ctx.nontrivial('style', shape(p), tuple(opts), fmt)


def fail(ctx, rng, s):
    p, q = pair('versions', s)
    name = directory(ctx, rng)
    fn, fq = put(ctx, p, name), put(ctx, q, 'ref' + name)
    kind = rng.choice(['column', 'column', 'archive', 'missing', 'reference', 'output', 'dot', 'deps', 'damaged', 'chip', 'directory'])
    fmt, opts = report_args(rng, p, q, fn, fq)
    show = None
    if kind == 'column':
        fmt = rng.choice(['table', 'csv', 'text'])
        opts = rng.choice([[], ['--archives'], ['--files']])
        col = rng.choice(['0', '999', '-999', 'Nope', '[/x]', '[bold]', 'Used', '1.5', 'Total [byte]'])
        opts = [*opts, f'--sort={col}']
        if not p.osecs or not any(o.isecs for o in p.osecs):
            return
        show = col if not col.lstrip('-').isdigit() else None
    elif kind == 'archive':
        opts = ['--archive-details', show := rng.choice(['libnone.a', '[/x].a', '[bold]', 'lib*.a', 'LIBMAIN.A'])]
        fmt = rng.choice(['table', 'csv', 'json2'])
        if show in view.archive_names(view.from_project(p)):
            return
    elif kind == 'missing':
        fn = show = os.path.join(os.path.dirname(fn), rng.choice(['none.map', 'no[/b].map']))
    elif kind == 'reference':
        if '--archive-dependencies' in opts:
            opts, fmt = [], 'table'
        x = os.path.join(os.path.dirname(fq), 'no[/b].map')
        opts = [o for o in opts if o not in ('--diff', fq)] + ['--diff', x]
        show = x
    elif kind == 'output':
        x = os.path.join(fn, 'report') if rng.random() < 0.5 else os.path.dirname(fn)
        opts = [*opts, '-o', x]
        show = x
    elif kind == 'dot':
        fmt, opts = 'dot', rng.choice([[], ['--archives'], ['--files']])
    elif kind == 'deps':
        p = copy.deepcopy(p)
        if rng.random() < 0.5:
            p.crt = []
        else:
            p.with_elf = False
        fn = put(ctx, p, 'deps' + name)
        opts = ['--archive-dependencies', *rng.choice([[], ['--dep-reverse']])]
    elif kind == 'damaged':
        with open(fn, encoding='utf-8', newline='') as f:
            t = f.read()
        with open(fn, 'wb') as f:
            b = rng.choice([b'', t[:t.index('Memory Configuration')].encode(), t[:t.index('Linker script and')].encode(), b'\xff' + t.encode()])
            f.write(b)
        show = fn if b[:1] != b'\xff' else None
    elif kind == 'chip':
        p.style.update(target_by='IDF_TARGET', map_target='esp99')
        p.with_elf = False
        fn = put(ctx, p, 'chip' + name)
    elif kind == 'directory':
        fn = show = os.path.dirname(fn)
    args = ['--format', fmt, *opts, fn]
    r = driver.cli(args)
    ctx.count('failures')
    ctx.count('fail_' + kind)
    ctx.check(r.code != 0, f'{kind}: status zero without a report', args=args, out=r.out[:300])
    ctx.equal('', r.out, f'{kind}: standard output of a failed run', args=args)
    ctx.check(r.exc is None, f'{kind}: failure without a proper message', args=args, exc=r.exc)
    ctx.check('ERROR' in r.err, f'{kind}: no message on standard error', args=args, err=r.err[-300:])
    if show is not None:
        ctx.check(show in r.err, f'{kind}: the message does not tell what is wrong', err=r.err[-500:], expected=show)
    quiet(ctx, args, r)
    t = driver.cli(['--force-terminal', *args])
    if kind == 'output':
        # ignored with an output file
        ctx.equal('', t.out, f'{kind}: standard output of a failed run', args=args)
    else:
        ctx.equal(('', r.code), (t.out, t.code), f'{kind}: standard output and status with --force-terminal', args=args)
    ctx.equal(r.err, CODES.sub('', t.err), f'{kind}: message without the control codes', args=args)
    ctx.nontrivial(kind, shape(p), tuple(opts))


def sub(ctx, rng, s):
    p, q = pair('versions', s)
    fn, fq = put(ctx, p, 'prj' + directory(ctx, rng)), put(ctx, q, 'ref')
    fmt, opts = report_args(rng, p, q, fn, fq)
    args = ['--format', fmt, *opts, fn]
    w = reports.run_ok(ctx, args)
    k = rng.choice(['plain', 'quiet', 'env', 'env', 'fail', 'unify'])
    env = {'PYTHONUTF8': '1'}
    if k == 'plain':
        r = driver.cli_subprocess(args, env=env)
        ctx.equal((0, w.out, w.err), (r.code, r.out, r.err), 'streams of a process', args=args)
    elif k == 'quiet':
        r = driver.cli_subprocess(['-q', *args], env=env)
        ctx.equal((0, '', ''), (r.code, r.out, r.err), 'streams of a process with --quiet', args=args)
    elif k == 'env':
        r = driver.cli_subprocess(args, env={**env, 'ESP_IDF_SIZE_FORCE_TERMINAL': '1'})
        ctx.equal((0, w.out, w.err), (r.code, CODES.sub('', r.out), CODES.sub('', r.err)), 'streams with ESP_IDF_SIZE_FORCE_TERMINAL', args=args)
        if fmt in ('table', 'text', 'raw', 'json2') and w.out.strip():
            ctx.check('\x1b' in r.out, 'no control codes with ESP_IDF_SIZE_FORCE_TERMINAL', args=args)
        ctx.count('env_terminal')
    elif k == 'fail':
        r = driver.cli_subprocess(['--format', 'dot', fn], env=env)
        ctx.check(r.code != 0 and r.out == '' and 'ERROR' in r.err, 'streams of a failed process', code=r.code, out=r.out[:300], err=r.err[:300])
        ctx.check('Traceback' not in r.err, 'traceback', err=r.err[-500:])
    else:
        r = driver.cli_subprocess(['--format', 'json2', '--unify', '--no-abbrev', fn], env=env)
        ctx.check(r.code == 0 and 'WARNING' in r.err, 'no warning on standard error', err=r.err)
        grammar(ctx, 'json2', r.out, 'process with a warning')
    ctx.count('subprocess')
    ctx.nontrivial('sub', k, shape(p))

"""A failed run never touches the output file, a successful one writes the report."""

import hashlib
import json
import os
import random
import resource

import driver
import faults
import model
import reports
import view
from checks.common import describe, put, seeds, shape
from checks.c05 import pair

LEVEL = 'fault_enumeration'
RULE = ('One case is a project, a report and an output file that exists or does not. The run is repeated with invalid inputs and options, with exceptions and interruptions raised '
        'at executed lines of the program (stratified over distinct source lines up to the last piece of the report), and at calls of the rendering and JSON libraries; the file '
        'system below the output directory is compared before and after. Successful runs are compared with standard output. Non-trivial: distinct (fault site, exception) or '
        '(natural fault, format).')
REQUIRED = {'injected_faults': 1500, 'fault_sites': 100, 'library_faults': 200, 'natural_faults': 1000, 'file_existed': 500, 'file_missing': 500, 'success': 300,
            'replaced_longer': 50, 'created_directories': 50, 'force_terminal': 50, 'interrupts': 300}
OLD = 'previous report, much longer than any other\n' * 4000


def cases(tier, seed):
    n = 480 if tier == 'quick' else 8000
    return [(['natural', 'inject', 'success', 'inject'][k % 4], s) for k, s in enumerate(seeds('C12', seed, n))]


def state(d, dirs_too=True):
    res = {}
    for root, dirs, files in os.walk(d):
        if dirs_too:
            res.update({os.path.relpath(os.path.join(root, x), d): 'directory' for x in dirs})
        for f in files:
            p = os.path.join(root, f)
            with open(p, 'rb') as fd:
                res[os.path.relpath(p, d)] = hashlib.sha1(fd.read()).hexdigest()
    return res


def report_args(rng, p, q, fp, fq):
    """A random valid report."""
    o = reports.Opts(level=rng.choice(['summary', 'archives', 'files', 'details', 'deps']), show_unused=rng.random() < 0.5, no_abbrev=rng.random() < 0.5,
                     diff=fq if q and rng.random() < 0.7 else None)
    fmt = rng.choice(['table', 'csv', 'json2', 'tree', 'raw', 'text'])
    if o.level == 'deps':
        o.level = 'summary'
        if p.crt and p.with_elf:
            return rng.choice([fmt, 'dot']), ['--archive-dependencies', *rng.choice([[], ['--dep-symbols'], ['--dep-reverse']])]
    if o.level == 'details':
        names = view.archive_names(reports.make_map(o, view.from_project(p), view.from_project(q) if q else None))
        if not names or view.ambiguous(p) or (q and view.ambiguous(q)):
            o.level = 'summary'
        else:
            o.details = rng.choice(names)
    return fmt, o.args()


def project(ctx, s, rng):
    if rng.random() < 0.4:
        p, q = pair('versions', s)
    else:
        p, q = model.generate(s, nsec=rng.choice([2, 5])), None
    fp = put(ctx, p, 'cur')
    return p, q, fp, put(ctx, q, 'ref') if q else None


# any name is the name of a file
NAMES = ['report.txt'] * 6 + ['-', 'stdout', 'report', 'r.json', 'r.csv', 'r.gz', '.hidden', 'a b.txt', '[red]x', '%s', '{}', '~', 'none', '0', 'ünï.txt', 'x.map', 'con']


def prepare(ctx, rng, force=None):
    """-> output directory, output path, existed"""
    d = ctx.sub(f'out{rng.randrange(1 << 30)}')
    existed = rng.random() < 0.5 if force is None else force
    name = rng.choice(NAMES)
    fn = os.path.join(d, name)
    if existed:
        with open(fn, 'w') as f:
            f.write(OLD)
        ctx.count('file_existed')
    else:
        if rng.random() < 0.4:
            fn = os.path.join(d, 'new', rng.choice(['dir', '-', 'a b']), name)
        ctx.count('file_missing')
    return d, fn, existed


def verify_untouched(ctx, d, before, run, what, dirs=True):
    after = state(d, dirs)
    ctx.equal(before, after, f'output of a failed run changed: {what}', args=run.args, code=run.code, err=run.err[-300:])


def case(ctx, c):
    kind, s = c
    rng = random.Random(s)
    p, q, fp, fq = project(ctx, s, rng)
    {'natural': natural, 'inject': inject, 'success': success}[kind](ctx, rng, p, q, fp, fq)


def natural(ctx, rng, p, q, fp, fq):
    bad = ctx.sub('bad')

    def put_file(name, text):
        fn = os.path.join(bad, name)
        with open(fn, 'wb') as f:
            f.write(text)
        return fn

    with open(fp, 'rb') as f:
        good = f.read()
    cut = good.split(b'Linker script and memory map')[0]
    files = {'missing': os.path.join(bad, 'nothere.map'), 'directory': bad, 'empty': put_file('empty.map', b''), 'garbage': put_file('garbage.map', bytes(rng.randrange(256) for _ in range(500))),
             'cut': put_file('cut.map', cut), 'no_target': put_file('notarget.map', b'\n'.join(x for x in good.split(b'\n') if b'IDF_TARGET' not in x and b'target' not in x.lower()))}
    fmts = ['table', 'csv', 'json2', 'tree', 'raw', 'text', 'dot']
    faults_ = []
    for name, fn in files.items():
        faults_.append((f'map_{name}', ['--format', rng.choice(fmts), fn]))
        faults_.append((f'diff_{name}', ['--format', rng.choice(fmts[:6]), '--diff', fn, fp]))
    for col in ('0', '99', '-99', 'nope'):
        faults_.append(('sort_' + col, ['--format', rng.choice(['table', 'csv', 'text']), '--sort', col, '--show-unused', fp]))
    names = view.archive_names(view.from_project(p))
    if names:
        for lv in ('--archives', '--files'):
            faults_.append((f'sort{lv}', ['--format', rng.choice(['table', 'csv']), lv, '--show-unused', '--sort', rng.choice(['0', 'x']), fp]))
    for f in ('table', 'csv', 'json2'):
        faults_.append(('unknown_archive_' + f, ['--format', f, '--archive-details', 'libdoesnotexist.a', fp]))
    faults_.append(('dot', ['--format', 'dot', fp]))
    if not p.crt or not p.with_elf:
        for f in fmts:
            faults_.append(('no_deps_' + f, ['--format', f, '--archive-dependencies', fp]))
    faults_ += [('usage_format', ['--format', 'xml', fp]), ('usage_option', ['--no-such-option', fp]), ('usage_none', []), ('usage_two', [fp, fp])]
    for what, args in faults_:
        d, fn, existed = prepare(ctx, rng)
        before = state(d)
        r = driver.cli([*args, '-o', fn])
        ctx.count('natural_faults')
        if what.endswith('no_target') and r.ok:
            continue  # the project description names the target
        ctx.check(not r.ok, f'run which cannot succeed did: {what}', args=r.args)
        verify_untouched(ctx, d, before, r, what)
        ctx.nontrivial('natural', what, existed, args[1] if args else '')
    # output cannot be written
    d = ctx.sub('outdir')
    r = driver.cli([fp, '-o', d])
    ctx.check(not r.ok and os.path.isdir(d) and not os.listdir(d), 'output file is a directory', code=r.code)
    blocker = os.path.join(d, 'file')
    with open(blocker, 'w') as f:
        f.write(OLD)
    r = driver.cli([fp, '-o', os.path.join(blocker, 'report.txt')])
    ctx.check(not r.ok, 'directory of the output file is a file', code=r.code)
    ctx.equal(OLD, open(blocker).read(), 'file in place of the output directory')
    # No room for the report. Never a real device: a broken tool could remove it. Nothing may be written by the process,
    # so no byte code either.
    fn = os.path.join(ctx.sub('full'), 'report.txt')
    r = driver.cli_subprocess([fp, '-o', fn], env={'PYTHONDONTWRITEBYTECODE': '1'}, setup=lambda: resource.setrlimit(resource.RLIMIT_FSIZE, (16, 16)))
    ctx.check(not r.ok and r.err.strip(), 'no room for the report in the output file', code=r.code, err=r.err[-300:])
    ctx.check(not r.out.strip(), 'report printed although an output file was given', out=r.out[:200])
    ctx.count('natural_faults', 3)


def exceptions(rng):
    return rng.choice([KeyboardInterrupt(), MemoryError('injected'), RuntimeError('injected'), OSError(5, 'injected'), ValueError('injected'), KeyError('injected'), KeyboardInterrupt()])


def inject(ctx, rng, p, q, fp, fq):
    fmt, opts = report_args(rng, p, q, fp, fq)
    base = ['--format', fmt, *opts, fp]
    d0 = ctx.sub('probe')
    prints = []
    st = faults.Steps(record=True)
    with faults.console_hook(lambda err: prints.append((st.n, err))), st.active():
        r = driver.cli([*base, '-o', os.path.join(d0, 'x')])
    if not r.ok:
        ctx.fail('run on a valid project failed', args=r.args, code=r.code, err=r.err[-800:], exc=r.exc)
    last = max([n for n, err in prints if not err], default=0)
    total = sum(1 for _n, err in prints if not err)
    if not last:
        return
    # first, last and a random execution of distinct lines
    pos = {}
    for k, site in enumerate(st.sites[:last]):
        pos.setdefault(site, []).append(k + 1)
    sites = sorted(pos)
    rng.shuffle(sites)
    for site in sites[:30 if ctx.tier == 'quick' else 60]:
        k = rng.choice([pos[site][0], pos[site][-1], rng.choice(pos[site])])
        e = exceptions(rng)
        d, fn, existed = prepare(ctx, rng)
        before = state(d, False)
        f = faults.Steps(fail_at=k, exc=e)
        seen = [0]

        def count(err, f=f, seen=seen):
            seen[0] += not err and f.fired is None

        with faults.console_hook(count), f.active():
            r = driver.cli([*base, '-o', fn])
        if f.fired is None:
            continue
        if seen[0] >= total:
            # Fewer lines than in the first run: the report was complete already, the file may be half written.
            ctx.count('late_faults')
            continue
        ctx.count('injected_faults')
        if isinstance(e, KeyboardInterrupt):
            ctx.count('interrupts')
        if r.ok:
            # The program recovered, for example by ignoring an optional file. Then there is a report.
            ctx.count('recovered')
            ctx.check(os.path.isfile(fn) and (fmt not in ('json2', 'raw') or isinstance(json.load(open(fn)), dict)), 'run succeeded without a report', site=f.fired)
            continue
        verify_untouched(ctx, d, before, r, f'{type(e).__name__} raised at {f.fired}')
        ctx.check(not r.out.strip(), 'report of a failed run on standard output', out=r.out[:200])
        ctx.count('fault_sites')
        ctx.nontrivial('line', f.fired, type(e).__name__)
    # rendering fails
    n = sum(1 for _n, err in prints if not err)
    for j in sorted({1, n, rng.randint(1, n), rng.randint(1, n)}):
        d, fn, existed = prepare(ctx, rng)
        before = state(d)
        cnt = [0]
        e = exceptions(rng)

        def hook(err):
            if not err:
                cnt[0] += 1
                if cnt[0] == j:
                    raise e

        with faults.console_hook(hook):
            r = driver.cli([*base, '-o', fn])
        ctx.count('library_faults')
        ctx.check(not r.ok, 'run succeeded although the report could not be rendered', exc=repr(e))
        verify_untouched(ctx, d, before, r, f'{type(e).__name__} in Console.print() number {j}')
        ctx.nontrivial('print', fmt, j, type(e).__name__)
    if fmt in ('json2', 'raw'):
        d, fn, existed = prepare(ctx, rng)
        before = state(d)
        orig = json.dumps
        e = exceptions(rng)

        def boom(*a, **kw):
            raise e

        json.dumps = boom
        try:
            r = driver.cli([*base, '-o', fn])
        finally:
            json.dumps = orig
        if not r.ok:
            verify_untouched(ctx, d, before, r, f'{type(e).__name__} in json.dumps()')
            ctx.count('library_faults')
    ctx.sample({'args': base, 'lines': last, 'distinct_lines': len(sites)})


def success(ctx, rng, p, q, fp, fq):
    for _ in range(8):
        fmt, opts = report_args(rng, p, q, fp, fq)
        base = ['--format', fmt, *opts, fp]
        plain = reports.run_ok(ctx, base)
        extra = rng.choice([[], [], ['--force-terminal'], ['--no-color'], ['--force-terminal', '--no-color']])
        if '--force-terminal' in extra:
            ctx.count('force_terminal')
        d, fn, existed = prepare(ctx, rng)
        if existed:
            ctx.count('replaced_longer')
        elif not os.path.isdir(os.path.dirname(fn)):
            ctx.count('created_directories')
        arg, cwd = fn, None
        if rng.random() < 0.3:
            cwd = d
            arg = os.path.relpath(fn, d)
            if rng.random() < 0.3:
                arg = './' + arg
        before = state(d)
        r = reports.run_ok(ctx, [*base, *extra, rng.choice(['-o', '--output-file']), arg], cwd=cwd)
        ctx.check(not r.out.strip(), 'report printed although an output file was given', out=r.out[:200])
        with open(fn, encoding='utf-8') as f:
            got = f.read()
        ctx.equal(plain.out, got, f'{fmt} report in the output file', extra=extra)
        ctx.check('\x1b' not in got, 'control codes in the output file')
        after = state(d)
        rel = os.path.relpath(fn, d)
        before.pop(rel, None)
        after.pop(rel)
        # missing directories of the output file are created
        while rel := os.path.dirname(rel):
            before.pop(rel, None)
            after.pop(rel, None)
        ctx.equal(before, after, 'other files next to the output file')
        ctx.count('success')
        ctx.nontrivial('success', fmt, existed, bool(extra), cwd is None)
    if rng.random() < 0.3:
        # environment variable, separate process
        d, fn, existed = prepare(ctx, rng)
        fmt, opts = report_args(rng, p, q, fp, fq)
        plain = reports.run_ok(ctx, ['--format', fmt, *opts, fp])
        r = driver.cli_subprocess(['--format', fmt, *opts, fp, '-o', fn], env={'ESP_IDF_SIZE_FORCE_TERMINAL': '1', 'LC_ALL': 'C.UTF-8'})
        ctx.check(r.ok and not r.out.strip(), 'run with an output file', code=r.code, err=r.err[-300:], out=r.out[:200])
        ctx.equal(plain.out, open(fn, encoding='utf-8').read(), f'{fmt} report in the output file with ESP_IDF_SIZE_FORCE_TERMINAL')
        ctx.count('force_terminal')

"""Runs are deterministic and free of side effects."""

import copy
import hashlib
import json
import os
import random
import shutil

import driver
import model
import reports
import view
from checks.common import describe, put, seeds, shape
from checks.c05 import pair
from checks.c12 import report_args as any_report, state
from checks.c16 import Lto

RULE = ('"hash" cases run one report in fresh processes with different hash seeds, working directories and path spellings; "history" cases run a random sequence of reports and '
        'API calls about several projects in one process and compare each report with the first one for the same arguments; "effects" cases record the audit events (files '
        'opened for writing, renamed, removed, processes, sockets) and the content of all files around a run; "rebuild" cases analyse one path again and again in one process while '
        'the project there is replaced, and compare with a fresh process. Non-trivial: distinct project and report.')
REQUIRED = {'processes': 100, 'hash_seeds': 100, 'history_runs': 1500, 'repeats': 700, 'audited_runs': 500, 'audit_events': 2000, 'relative_paths': 100, 'dependency_reports': 30,
            'api_calls': 200, 'rebuilds': 100, 'same_size': 40, 'same_time': 15, 'lto_projects': 20}
READ_ONLY = {'open', 'os.putenv'}


def cases(tier, seed):
    n = 1 if tier == 'quick' else 16
    res = [('hash', s) for s in seeds('C13h', seed, 60 * n)]
    res += [('history', s) for s in seeds('C13y', seed, 90 * n)]
    res += [('effects', s) for s in seeds('C13e', seed, 120 * n)]
    res += [('rebuild', s) for s in seeds('C13r', seed, 100 * n)]
    random.Random(seed).shuffle(res)
    return res


def deps_args(rng, p):
    return rng.choice(['dot', 'table', 'csv', 'json2', 'raw', 'tree']), ['--archive-dependencies', *rng.choice([[], ['--dep-symbols'], ['--dep-reverse'], ['--dep-symbols', '--dep-reverse']])]


def report_args(rng, p, q, fp, fq):
    fmt, opts = any_report(rng, p, q, fp, fq)
    if getattr(p, 'lto', False) and '--archive-details' in opts:
        # the archives of an LTO project are the ones of its debug information
        k = opts.index('--archive-details')
        opts = [*opts[:k], '--archives', *opts[k + 2:]]
    return fmt, opts


def spell(rng, fn, d):
    """Another way to name the same file, seen from directory d."""
    rel = os.path.relpath(fn, d)
    return rng.choice([rel, './' + rel, os.path.join(os.path.dirname(rel), '.', os.path.basename(rel)) if os.path.dirname(rel) else rel])


def project(ctx, s, rng, name='cur'):
    k = rng.random()
    if k < 0.35:
        p, q = pair('versions', s)
    elif k < 0.5:
        x = Lto(s)
        ctx.count('lto_projects')
        x.p.lto = True
        return x.p, None, x.write(ctx, name, sdkconfig=rng.choice([{'COMPILER_LTO_LINKTIME': True}, {'COMPILER_LTO_LINKTIME': True}, None])), None
    else:
        p, q = model.generate(s, elf=True if rng.random() < 0.6 else None), None
    return p, q, put(ctx, p, name), put(ctx, q, name + 'ref') if q else None


def case(ctx, c):
    kind, s = c
    rng = random.Random(s)
    {'hash': hash_case, 'history': history, 'effects': effects, 'rebuild': rebuild}[kind](ctx, rng, s)


def hash_case(ctx, rng, s):
    p, q, fp, fq = project(ctx, s, rng)
    if p.crt and p.with_elf and rng.random() < 0.6:
        fmt, opts = deps_args(rng, p)
        ctx.count('dependency_reports')
    else:
        fmt, opts = report_args(rng, p, q, fp, fq)
    outs = {}
    other = ctx.sub('elsewhere')
    with open(os.path.join(other, 'project_description.json'), 'w') as f:
        json.dump({'target': 'esp32s2' if p.target != 'esp32s2' else 'esp32', 'app_elf': 'other.elf'}, f)
    for k, hs in enumerate(('0', '1', str(rng.randrange(1 << 31)), 'random')):
        cwd = rng.choice(['/', other, os.path.dirname(fp)])
        fn = fp
        if k % 2:
            fn = spell(rng, fp, cwd)
            ctx.count('relative_paths')
        r = driver.cli_subprocess(['--format', fmt, *opts, fn], cwd=cwd, env={'PYTHONHASHSEED': hs})
        ctx.count('processes')
        ctx.count('hash_seeds')
        ctx.check(r.ok, 'run on a valid project failed', args=r.args, err=r.err[-500:])
        outs[hs, cwd, fn] = r.out
    if len(set(outs.values())) > 1:
        (k1, o1), (k2, o2) = next(((a, x), (b, y)) for a, x in outs.items() for b, y in outs.items() if x != y)
        i = next((i for i, (a, b) in enumerate(zip(o1, o2)) if a != b), min(len(o1), len(o2)))
        ctx.check(False, 'report depends on hash seed, working directory or path spelling', one=k1, two=k2, first=o1[max(0, i - 80):i + 80], second=o2[max(0, i - 80):i + 80])
    inproc = reports.run_ok(ctx, ['--format', fmt, *opts, fp])
    ctx.equal(inproc.out, next(iter(outs.values())), 'report of a process with a history')
    ctx.nontrivial(shape(p), fmt, tuple(opts[:2]))


def history(ctx, rng, s):
    """A random history of runs; equal arguments, equal reports."""
    prj = [project(ctx, s + k, rng, f'p{k}') for k in range(3)]
    before = {f'p{k}': state(os.path.dirname(x[2])) for k, x in enumerate(prj)}
    todo = []
    for p, q, fp, fq in prj:
        for _ in range(3):
            if p.crt and p.with_elf and rng.random() < 0.3:
                fmt, opts = deps_args(rng, p)
                ctx.count('dependency_reports')
            else:
                fmt, opts = report_args(rng, p, q, fp, fq)
            todo.append(['--format', fmt, *opts, fp])
    mm = driver.load()['memorymap']
    seen = {}
    maps = {}
    for _ in range(30):
        if rng.random() < 0.25:
            # API use in between, with the results modified by the caller
            p, q, fp, fq = rng.choice(prj)
            sym = rng.random() < 0.5
            m = mm.get(fp, sym)
            ctx.count('api_calls')
            key = (fp, sym)
            if key in maps:
                ctx.equal(maps[key], m, 'memorymap.get() gives another result the second time')
                ctx.equal(json.dumps(maps[key]), json.dumps(m), 'order of the result of memorymap.get()')
            else:
                maps[key] = copy.deepcopy(m)
            if rng.random() < 0.5:
                mm.unify(m)
            else:
                m['memory_types'].clear()
            continue
        args = rng.choice(todo)
        if rng.random() < 0.15:
            # a failing run in between
            driver.cli(['--format', 'dot', args[-1]] if rng.random() < 0.5 else [*args, '--sort', '0'])
            continue
        r = reports.run_ok(ctx, args)
        ctx.count('history_runs')
        if tuple(args) in seen:
            ctx.count('repeats')
            ctx.equal(seen[tuple(args)], r.out, 'report differs from an earlier one for the same arguments', args=args)
        seen[tuple(args)] = r.out
    for k, x in enumerate(prj):
        ctx.equal(before[f'p{k}'], state(os.path.dirname(x[2])), 'input files modified')
        ctx.nontrivial(shape(x[0]))


def effects(ctx, rng, s):
    p, q, fp, fq = project(ctx, s, rng)
    root = os.path.dirname(os.path.dirname(fp))
    for _ in range(5):
        if p.crt and p.with_elf and rng.random() < 0.3:
            fmt, opts = deps_args(rng, p)
        else:
            fmt, opts = report_args(rng, p, q, fp, fq)
        args = ['--format', fmt, *opts, fp]
        out = None
        od = ctx.sub('o')
        if rng.random() < 0.5:
            out = os.path.join(od, rng.choice(['r.txt', 'sub/r.txt']))
            args += ['-o', out]
        cwd = ctx.sub('cwd')
        before = state(root, False)
        r = reports.run_ok(ctx, args, cwd=cwd, record=True)
        ctx.count('audited_runs')
        ctx.count('audit_events', len(r.events))
        after = state(root, False)
        if out:
            after.pop(os.path.relpath(out, root), None)
            before.pop(os.path.relpath(out, root), None)
        ctx.equal(before, after, 'files around the project changed', args=args)
        for ev, a in r.events:
            if ev == 'open':
                path, mode = a[0], a[1]
                flags = int(a[2]) if len(a) > 2 and str(a[2]).lstrip('-').isdigit() else 0
                writes = (mode not in ('None', None) and any(ch in str(mode) for ch in 'wax+')) or bool(flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC))
                if writes:
                    ctx.check(out is not None and below(str(path), od), 'file opened for writing', event=(ev, a))
            elif ev in ('os.mkdir', 'os.rename', 'os.chmod', 'os.remove', 'tempfile.mkstemp', 'os.truncate', 'os.link'):
                # creating the output file, by whatever means, next to it
                ctx.check(out is not None and below(str(a[0]), od), 'file system modified', event=(ev, a))
            elif ev not in READ_ONLY:
                ctx.check(False, 'side effect', event=(ev, a))
        ctx.nontrivial(shape(p), fmt, tuple(opts[:2]), bool(out))
        ctx.sample({'args': args, 'events': [e for e, _a in r.events][:12]})


def below(path, d):
    path = path.strip("'\"")
    return os.path.realpath(path).startswith(os.path.realpath(d) + os.sep) or os.path.realpath(path) == os.path.realpath(d)


def rebuild(ctx, rng, s):
    """The files at one path are replaced between runs; nothing of the former project may be left in the report."""
    mm = driver.load()['memorymap']
    d = None
    todo = None
    if rng.random() < 0.5:
        return same_size(ctx, rng, s)
    for k in range(3):
        if d is not None:
            for fn in os.listdir(d):
                path = os.path.join(d, fn)
                shutil.rmtree(path) if os.path.isdir(path) else os.remove(path)
        lto = rng.random() < 0.4
        if lto:
            x = Lto(s + k)
            p, fp = x.p, x.write(ctx, 'prj', sdkconfig={'COMPILER_LTO_LINKTIME': True})
        else:
            p = model.generate(s + k, elf=rng.random() < 0.8)
            fp = put(ctx, p, 'prj')
        d = os.path.dirname(fp)
        if todo is None or todo[-1] != fp:
            todo = ['--format', rng.choice(['raw', 'json2', 'csv', 'tree']), *rng.choice([[], ['--archives'], ['--files']]), fp]
        got = reports.run_ok(ctx, todo)
        api = mm.get(fp)
        fresh = driver.cli_subprocess(todo)
        ctx.equal(fresh.out, got.out, 'report of a rebuilt project differs from the one of a fresh process', args=todo)
        full = driver.cli_subprocess(['--format', 'raw', '--show-unused', '--use-flash-size', fp])
        ctx.equal(json.loads(full.out), api, 'memorymap.get() of a rebuilt project differs from a fresh process')
        ctx.count('rebuilds')
        ctx.nontrivial(shape(p), k)


def turn(text):
    """Another name of the same length."""
    return text.swapcase() if text.swapcase() != text else text[::-1]


def same_size(ctx, rng, s):
    """Like rebuild(), but size, and sometimes time, of the files stay what they have been."""
    mm = driver.load()['memorymap']
    p = model.generate(s, elf=rng.random() < 0.8)
    fp = put(ctx, p, 'prj')
    todo = ['--format', rng.choice(['raw', 'json2', 'csv', 'tree']), *rng.choice([['--archives'], ['--files'], []]), fp]
    d = os.path.dirname(fp)
    fresh = None
    for k in range(3):
        if k:
            stat = {fn: os.stat(os.path.join(d, fn)) for fn in os.listdir(d)}
            if rng.random() < 0.7:
                for o in p.osecs:
                    for y in [y for i in o.isecs for y in i.syms]:
                        y.name = turn(y.name)
            if rng.random() < 0.7:
                for i in [i for o in p.osecs for i in o.isecs]:
                    if i.archive:
                        a, b = os.path.split(i.archive)
                        i.archive = os.path.join(a, 'lib' + turn(b[3:-2]) + '.a') if b.startswith('lib') and b.endswith('.a') else i.archive
            q = copy.deepcopy(p)
            for o in q.osecs:
                if rng.random() < 0.2 and p.with_elf and o.alloc and not o.tls:
                    o.nobits = not o.nobits
            put(ctx, q, 'prj')
            if rng.random() < 0.5:
                for fn, st in stat.items():
                    os.utime(os.path.join(d, fn), ns=(st.st_atime_ns, st.st_mtime_ns))
                ctx.count('same_time')
            ctx.count('same_size', all(os.stat(os.path.join(d, fn)).st_size == st.st_size for fn, st in stat.items()))
        got = reports.run_ok(ctx, todo)
        api = mm.get(fp)
        fresh = driver.cli_subprocess(todo)
        ctx.equal(fresh.out, got.out, 'report of a project rebuilt with files of the same size differs from the one of a fresh process', args=todo)
        full = driver.cli_subprocess(['--format', 'raw', '--show-unused', '--use-flash-size', fp])
        ctx.equal(json.loads(full.out), api, 'memorymap.get() of a project rebuilt with files of the same size differs from a fresh process')
        ctx.count('rebuilds')
        ctx.nontrivial(shape(p), k)

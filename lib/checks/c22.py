"""The Python API gives the same data as the command line and keeps its inputs."""

import copy
import json
import os
import random

import driver
import model
import render
import reports
import truth
import view
from checks.c05 import compare, nonzero, pair
from checks.c06 import unified
from checks.c16 import Lto
from checks.c18 import damage_text
from checks.common import describe, put, seeds, shape

RULE = ('"get" cases call memorymap.get() in all its variants (path spellings, with and without symbols and DWARF, with supplied map file and ELF objects, some of them of a variant of the project with other '
        'names) and compare the returned dictionary with the raw report and with the model; "history" cases perform a random sequence of get(), diff() and unify() calls on shared objects, and after each step '
        'compare every live object with what it has to be; "error" cases give inputs with documented problems and damaged ones and watch which exception leaves get(). Non-trivial: distinct project.')
REQUIRED = {'get_plain': 150, 'get_relative': 60, 'get_no_symbols': 150, 'supplied_map': 150, 'supplied_elf': 80, 'variant_map': 80, 'variant_elf': 80, 'lto': 40, 'lto_shared': 60, 'lto_components': 5, 'keys_checked': 5000, 'steps': 1500, 'diffs': 300,
            'unifies': 250, 'scribbles': 100, 'shared_objects': 100, 'live_compared': 5000, 'errors': 150, 'damaged_raised': 60, 'damaged_ok': 60}
TOP = {'version', 'target', 'target_diff', 'image_size', 'image_size_diff', 'project_path', 'project_path_diff', 'memory_types'}
SUB = {'sections': 'archives', 'archives': 'object_files', 'object_files': 'symbols', 'symbols': None}


def cases(tier, seed):
    n = 1 if tier == 'quick' else 15
    res = [('get', s) for s in seeds('C22g', seed, 1000 * n)] + [('lto', s) for s in seeds('C22l', seed, 60 * n)]
    res += [('history', s) for s in seeds('C22h', seed, 300 * n)] + [('error', s) for s in seeds('C22e', seed, 700 * n)]
    random.Random(seed).shuffle(res)
    return res


def case(ctx, c):
    kind, s = c
    {'get': get, 'lto': lto, 'history': history, 'error': error}[kind](ctx, random.Random(s), s)


def keys(ctx, m, diff=False, full=True):
    """Everything documented is there, with the right type."""
    def num(x):
        return isinstance(x, int) and not isinstance(x, bool)

    ctx.check(isinstance(m, dict) and TOP <= set(m), 'keys of the memory map', keys=sorted(m))
    ctx.equal('1.0', m['version'], 'version')
    ctx.check(num(m['image_size']) and num(m['image_size_diff']), 'image size is not a number')
    ctx.check(all(isinstance(m[k], str) for k in ('target', 'target_diff', 'project_path', 'project_path_diff')), 'target or path is not a string')
    ctx.check(os.path.isabs(m['project_path']), 'project path is not absolute', path=m['project_path'])
    if not diff:
        ctx.equal(('', '', []), (m['target_diff'], m['project_path_diff'], list(nonzero(m))), 'differences without comparison')

    def walk(d, level):
        for k, n in d.items():
            ctx.count('keys_checked')
            ctx.check(isinstance(k, str) and isinstance(n['abbrev_name'], str) and num(n['size']) and num(n['size_diff']), f'{level}: entry without the documented keys', entry=k, value=str(n)[:200])
            sub = SUB[level]
            if sub:
                ctx.check(isinstance(n.get(sub), dict), f'{level}: no {sub}', entry=k)
                walk(n[sub], sub)

    for t, ti in m['memory_types'].items():
        ctx.check(all(num(ti[k]) for k in ('size', 'size_diff', 'used', 'used_diff')), 'memory type without the documented keys', type=t)
        walk(ti['sections'], 'sections')


def without_symbols(m):
    m = copy.deepcopy(m)
    for ti in m['memory_types'].values():
        for si in ti['sections'].values():
            for ai in si['archives'].values():
                for oi in ai['object_files'].values():
                    oi['symbols'] = {}
    return m


def rename_archives(p):
    q = copy.deepcopy(p)
    for o in q.osecs:
        for i in o.isecs:
            if i.archive is not None:
                i.archive = os.path.join(os.path.dirname(i.archive), 'v_' + os.path.basename(i.archive))
    return q


def rename_symbols(p):
    q = copy.deepcopy(p)
    for o in q.osecs:
        for i in o.isecs:
            for y in i.syms:
                y.name = 'v_' + y.name
    return q


def against(ctx, p, m, what, symbols=True):
    exp = view.clean(view.from_project(p, symbols))
    got = view.from_raw(m)
    if not symbols:
        exp, got = reports.strip_symbols(exp), reports.strip_symbols(got)
    ctx.equal(exp, got, f'{what} differs from the model')
    ctx.equal((p.target, truth.image_size(p)), (m['target'], m['image_size']), f'{what}: target and image size')


def get(ctx, rng, s):
    mods = driver.load()
    mm, MapFile, Elf = mods['memorymap'], mods['mapfile'].MapFile, mods['elf'].Elf
    p = model.generate(s, elf=True if rng.random() < 0.7 else None, hostile=rng.random() < 0.3)
    fn = put(ctx, p, 'prj')
    exp = reports.raw(ctx, fn, *reports.FULL)
    if rng.random() < 0.4:
        ctx.count('get_relative')
        old = os.getcwd()
        try:
            os.chdir(os.path.dirname(fn))
            m = mm.get(rng.choice(['', './', '../' + os.path.basename(os.path.dirname(fn)) + '/']) + os.path.basename(fn))
        finally:
            os.chdir(old)
    else:
        ctx.count('get_plain')
        m = mm.get(fn)
    keys(ctx, m)
    ctx.equal(exp, m, 'get() differs from the raw report')
    ctx.equal(os.path.realpath(fn), os.path.realpath(m['project_path']), 'project path')
    against(ctx, p, m, 'get()')

    m = mm.get(fn, load_symbols=False)
    keys(ctx, m)
    ctx.count('get_no_symbols')
    ctx.equal(without_symbols(exp), m, 'get() without symbols')

    # supplied objects
    mf = MapFile(fn)
    elf_fn = os.path.join(os.path.dirname(fn), p.name + '.elf')
    elf = Elf(elf_fn) if p.with_elf and rng.random() < 0.7 else None
    kw = {'map_file': mf}
    ctx.count('supplied_map')
    if elf is not None:
        kw['elf'] = elf
        ctx.count('supplied_elf')
    for k in range(rng.choice([1, 2, 3])):
        sym = rng.random() < 0.6
        m = mm.get(fn, load_symbols=sym, **kw)
        ctx.equal(exp if sym else without_symbols(exp), m, f'get() with supplied objects, call {k + 1}')

    # supplied objects of a variant of the project: they are the ones which are used
    if rng.random() < 0.6:
        q = rename_archives(p)
        fq = put(ctx, q, 'variant')
        if rng.random() < 0.5:
            # not even there any more
            mfq = MapFile(fq)
            os.unlink(fq)
        else:
            mfq = MapFile(fq)
        m = mm.get(fn, map_file=mfq)
        against(ctx, q, m, 'get() with the map file object of a variant')
        ctx.count('variant_map')
    if p.with_elf and rng.random() < 0.6:
        q = rename_symbols(p)
        fe = os.path.join(ctx.sub('elfvariant'), 'other.elf')
        with open(fe, 'wb') as f:
            f.write(render.elf_bytes(q))
        e = Elf(fe)
        if rng.random() < 0.5:
            os.unlink(elf_fn)
            ctx.count('variant_elf_only')
        m = mm.get(fn, elf=e)
        against(ctx, q, m, 'get() with the ELF object of a variant')
        ctx.count('variant_elf')
    ctx.nontrivial(shape(p))
    ctx.sample({'project': describe(p)})


def lto(ctx, rng, s):
    mods = driver.load()
    mm, MapFile, Elf = mods['memorymap'], mods['mapfile'].MapFile, mods['elf'].Elf
    x = Lto(s)
    auto = rng.choice([True, False, None])
    fn = x.write(ctx, 'prj', sdkconfig=None if auto is None else {'COMPILER_LTO_LINKTIME': auto})
    exp = {True: reports.raw(ctx, fn, '--lto', *reports.FULL), False: reports.raw(ctx, fn, '--no-lto', *reports.FULL)}
    exp[None] = exp[bool(auto)]
    for use in (True, False, None):
        m = mm.get(fn, use_dwarf=use)
        keys(ctx, m)
        ctx.equal(exp[use], m, f'get(use_dwarf={use}) differs from the raw report')
        m = mm.get(fn, False, use)
        ctx.equal(without_symbols(exp[use]), m, f'get(use_dwarf={use}) without symbols')
        mf, elf = MapFile(fn), Elf(os.path.join(os.path.dirname(fn), x.p.name + '.elf'))
        for k in range(2):
            ctx.equal(exp[use], mm.get(fn, True, use, mf, elf), f'get(use_dwarf={use}) with supplied objects, call {k + 1}')
        ctx.count('lto')
    # the same objects for different questions
    mf, elf = MapFile(fn), Elf(os.path.join(os.path.dirname(fn), x.p.name + '.elf'))
    for k in range(5):
        use, sym = rng.choice([True, False, None]), rng.random() < 0.6
        ctx.equal(exp[use] if sym else without_symbols(exp[use]), mm.get(fn, sym, use, mf, elf), f'get(use_dwarf={use}) with shared objects, call {k + 1}')
        ctx.count('lto_shared')
    # one executable, the description names other components
    fv = x.write(ctx, 'other', sdkconfig=None)
    fd = os.path.join(os.path.dirname(fv), 'project_description.json')
    with open(fd, encoding='utf-8') as f:
        desc = json.load(f)
    info = desc['build_component_info']
    for c in rng.sample(sorted(info), rng.randrange(len(info) + 1)):
        del info[c]
    with open(fd, 'w', encoding='utf-8') as f:
        json.dump(desc, f)
    ev = reports.raw(ctx, fv, '--lto', *reports.FULL)
    ctx.equal(ev, mm.get(fv, True, True, None, elf), 'get() with an ELF object used before for a project with other components')
    ctx.equal(exp[True], mm.get(fn, True, True, None, elf), 'get() with an ELF object used in between for a project with other components')
    if ev['memory_types'] != exp[True]['memory_types']:
        ctx.count('lto_components')
    ctx.nontrivial(shape(x.p))


def scribble(rng, m):
    """What a user may do with a dictionary that belongs to him."""
    ts = [t for t in m['memory_types'].values() if t['sections']]
    for t in ts:
        t['used'] += 7
        for s in t['sections'].values():
            s['size'] = -1
            s['abbrev_name'] += '!'
            for a in s['archives'].values():
                a['size'] = 'x'
                for o in a['object_files'].values():
                    o['symbols']['scribble'] = 5
                a['object_files']['scribble'] = {}
            s['archives'].clear()
    if rng.random() < 0.5:
        m['memory_types'].clear()


def history(ctx, rng, s):
    mods = driver.load()
    mm, MapFile, Elf = mods['memorymap'], mods['mapfile'].MapFile, mods['elf'].Elf
    p, q = pair(rng.choice(['versions', 'versions', 'unrelated', 'chips']), s)
    projects = [(r, put(ctx, r, n)) for r, n in ((p, 'cur'), (q, 'ref'))]
    objs = {fn: (MapFile(fn), Elf(os.path.join(os.path.dirname(fn), r.name + '.elf')) if r.with_elf else None) for r, fn in projects}
    first = {}
    live = []  # (object, what it has to be, description, may be compared)
    for step in range(rng.choice([8, 16, 30])):
        op = rng.choice(['get', 'get', 'diff', 'diff', 'unify', 'scribble', 'cli'])
        if not live:
            op = 'get'
        ctx.count('steps')
        if op == 'get':
            r, fn = rng.choice(projects)
            sym = rng.random() < 0.7
            kw = {}
            if rng.random() < 0.5:
                kw['map_file'] = objs[fn][0]
                ctx.count('shared_objects')
                if objs[fn][1] is not None and rng.random() < 0.7:
                    kw['elf'] = objs[fn][1]
            m = mm.get(fn, load_symbols=sym, **kw)
            if fn not in first:
                first[fn] = json.loads(json.dumps(reports.raw(ctx, fn, *reports.FULL)))
                against(ctx, r, first[fn], 'raw report')
            e = copy.deepcopy(first[fn])
            live.append([m, e if sym else without_symbols(e), f'get({os.path.basename(os.path.dirname(fn))})', True])
        elif op == 'diff':
            x, y = rng.choice(live), rng.choice(live)
            if nonzero_any(x[1]) or nonzero_any(y[1]):
                continue  # comparing comparisons is not defined
            m = mm.diff(x[0], y[0])
            ctx.count('diffs')
            compare(ctx, m, x[1], y[1])
            keys(ctx, m, diff=True)
            live.append([m, copy.deepcopy(m), f'diff of {x[2]} and {y[2]}', True])
        elif op == 'unify':
            x = rng.choice(live)
            e = unified(ctx, x[1])
            res = mm.unify(x[0])
            ctx.check(res is None, 'unify() returned something', value=str(res)[:200])
            ctx.count('unifies')
            ctx.equal(e['memory_types'], x[0]['memory_types'], f'unify() of {x[2]}')
            ctx.equal({k: v for k, v in x[1].items() if k != 'memory_types'}, {k: v for k, v in x[0].items() if k != 'memory_types'}, 'unify() changed something else')
            x[1] = copy.deepcopy(x[0])
            x[2] = f'unified {x[2]}'
        elif op == 'scribble':
            # changing a result must not change anything else
            k = rng.randrange(len(live))
            x = live.pop(k)
            scribble(rng, x[0])
            ctx.count('scribbles')
        else:
            r, fn = rng.choice(projects)
            if fn in first:
                ctx.equal(first[fn], reports.raw(ctx, fn, *reports.FULL), 'raw report after API calls')
        for x in live:
            ctx.count('live_compared')
            ctx.equal(x[1], x[0], f'{x[2]} changed by {op}')
        if len(live) > 8:
            live.pop(rng.randrange(len(live)))
    ctx.nontrivial(shape(p), shape(q))


def nonzero_any(m):
    return bool(m['target_diff'])


def error(ctx, rng, s):
    mm = driver.load()['memorymap']
    p = model.generate(s, simple=True) if rng.random() < 0.5 else model.generate(s)
    if rng.random() < 0.45:
        fn = put(ctx, p, 'prj')
        d = os.path.dirname(fn)
        with open(fn, encoding='utf-8') as f:
            t = f.read()
        kind = rng.choice(['missing', 'directory', 'empty', 'no memory', 'no map', 'utf8', 'unknown chip', 'no chip', 'region', 'name too long', 'nul'])
        arg = fn
        if kind == 'missing':
            os.unlink(fn)
        elif kind == 'directory':
            arg = rng.choice([d, '/'])
        elif kind == 'empty':
            open(fn, 'w').close()
        elif kind == 'no memory':
            open(fn, 'w').write(t.replace('Memory Configuration', rng.choice(['', 'Memory', 'Configuration'])))
        elif kind == 'no map':
            open(fn, 'w').write(t[:t.index('Linker script and memory map')])
        elif kind == 'utf8':
            open(fn, 'wb').write(rng.choice([b'\xff\xfe', b'\x80']) + t.encode())
        elif kind in ('unknown chip', 'no chip'):
            pj = os.path.join(d, 'project_description.json')
            if os.path.exists(pj):
                desc = json.load(open(pj))
                desc['target'] = rng.choice(['esp99', 'linux', '../chip_info/esp32', 'esp32/../esp32s3', '']) if kind == 'unknown chip' else ''
                json.dump(desc, open(pj, 'w'))
            v = copy.deepcopy(p)
            if kind == 'unknown chip' and not (os.path.exists(pj) and desc['target']):
                v.style.update(target_by='IDF_TARGET', map_target='esp99')
            else:
                v.style['target_line'] = False
            t = render.map_text(v)
            open(fn, 'w').write(t)
        elif kind == 'region':
            t = t.replace('*default*', 'a b c d e f\n*default*', 1)
            open(fn, 'w').write(t)
        elif kind == 'name too long':
            arg = fn + 'x' * 5000
        elif kind == 'nul':
            arg = fn + '\0'
        try:
            m = mm.get(arg)
        except mm.MemMapException as e:
            ctx.check(bool(str(e).strip()), f'{kind}: exception without a message')
        except BaseException as e:
            ctx.fail(f'{kind}: {type(e).__name__} instead of MemMapException', error=str(e)[:500])
        else:
            ctx.check(False, f'{kind}: get() did not raise', target=m['target'])
        ctx.count('errors')
        ctx.count('error_' + kind.replace(' ', '_'))
        # the reference for the next call: nothing of the failure is left behind
        fn = put(ctx, p, 'again')
        against(ctx, p, mm.get(fn), 'get() after an error')
        ctx.nontrivial(kind, shape(p))
        return
    # Anything: whatever leaves get() must be an exception the caller can handle.
    fn = put(ctx, p, 'prj')
    t = render.map_text(p)
    for _ in range(rng.choice([1, 2, 4])):
        t = damage_text(ctx, rng, t if isinstance(t, str) else t.decode('utf-8', 'replace'))
    with open(fn, 'wb') as f:
        f.write(t.encode('utf-8', 'replace') if isinstance(t, str) else t)
    try:
        m = mm.get(fn)
        ctx.count('damaged_ok')
        keys(ctx, m)
    except Exception as e:
        ctx.count('damaged_raised')
        ctx.features['raised_' + type(e).__name__] += 1
    except BaseException as e:
        ctx.fail(f'{type(e).__name__} left get()', error=str(e)[:500])
    ctx.nontrivial('damaged', shape(p))

"""Symbols are reported in the object and section that holds them."""

import random

import model
import realtc
import reports
import truth
import view
from checks.common import describe, put, seeds, shape

RULE = ('Generated cases: the symbols of the raw report and of --archive-details, for projects with and without ELF file, against those of the model (symbol, section, archive, object '
        'file, bytes per memory type). Real cases: executables built by gcc and ld, symbols listed by readelf. Non-trivial: distinct project with at least one reported symbol or '
        'input section standing for one.')
REQUIRED = {'symbols_compared': 5000, 'functions': 1500, 'objects': 1500, 'section_names': 1500, 'split_symbols': 20, 'same_name_symbols': 8, 'not_reported_symbols': 500,
            'no_elf': 50, 'real_symbols': 300, 'details_reports': 500, 'elf64_or_big': 100, 'no_input_sections': 20}


def cases(tier, seed):
    n = 2400 if tier == 'quick' else 20000
    return [('gen', s) for s in seeds('C14', seed, n)] + [('real', s) for s in seeds('C14r', seed, 32 if tier == 'quick' else 500)]


def case(ctx, c):
    kind, s = c
    if kind == 'real':
        return real(ctx, s)
    rng = random.Random(s)
    p = model.generate(s, elf=rng.random() < 0.85, nsec=rng.choice([3, 6, 10]))
    if rng.random() < 0.03:
        # a link script which generates everything itself: there is no input section any symbol could belong to
        for o in p.osecs:
            o.items = [x for x in o.items if x[0] != 'isec']
        ctx.count('no_input_sections')
    kw = {}
    if p.with_elf and rng.random() < 0.3:
        kw = {'bits': rng.choice([32, 64]), 'little': rng.random() < 0.5}
        ctx.count('elf64_or_big')
    if not p.with_elf:
        ctx.count('no_elf')
    fn = put(ctx, p, **kw)
    d = reports.raw(ctx, fn, *reports.FULL)
    exp = view.from_project(p)
    reports.check_raw(ctx, __import__('json').dumps(d), exp)
    # counts for the evidence, from the model
    allnames = set()
    for ti in exp.values():
        for si in ti['sections'].values():
            for ai in si['sub'].values():
                for oi in ai['sub'].values():
                    for y in oi['sub']:
                        allnames.add(y)
                        ctx.count('symbols_compared')
                        ctx.count('functions' if y.endswith('()') else 'section_names' if y.startswith('.') or y in ('COMMON',) else 'objects')
    for o in p.osecs:
        if not truth.reported(p, o):
            continue
        cuts = [x[1] for x in truth.section_parts(p, o)][:-1]
        per = {}
        for i in o.isecs:
            for y, a, n in truth.isec_symbols(p, i):
                if any(a < cut < a + n for cut in cuts):
                    ctx.count('split_symbols')
                k = (i.archive, i.obj, y)
                per[k] = per.get(k, 0) + 1
        ctx.count('same_name_symbols', sum(1 for v in per.values() if v > 1))
    if p.with_elf:
        for sy in p.extra_syms:
            ctx.count('not_reported_symbols')
            ctx.check(sy.name not in allnames and sy.name + '()' not in allnames, 'generator', name=sy.name)
    # per symbol report
    names = view.archive_names(exp)
    for name in rng.sample(names, min(2, len(names))):
        o = reports.Opts(level='details', details=name, show_unused=True, no_abbrev=rng.random() < 0.5, unify=rng.random() < 0.2)
        reports.check_report(ctx, fn, rng.choice(['json2', 'csv', 'table', 'tree']), o, exp)
        ctx.count('details_reports')
    if allnames:
        ctx.nontrivial(shape(p))
        ctx.sample({**describe(p), 'symbols': sorted(allnames)[:8]})


def real(ctx, s):
    r = realtc.Real(ctx.sub('real'), s)
    d = reports.raw(ctx, r.map, *reports.FULL)
    secs = {n: (a, sz) for n, (a, sz, _t, fl) in r.sections().items() if 'A' in fl and sz and not n.endswith('dummy')}
    want = {}
    names = set()
    for n, addr, size, typ in r.symbols():
        sec = next((k for k, (a, sz) in secs.items() if a <= addr < a + sz), None)
        if sec is None:
            continue
        ow = r.owner(n)
        shown = n + ('()' if typ == 'FUNC' else '')
        k = (sec, ow[0] if ow else None, ow[1] if ow else None, shown)
        want[k] = want.get(k, 0) + size
        names.add(shown)
    got = {}
    for ti in d['memory_types'].values():
        for sn, si in ti['sections'].items():
            for a, ai in si['archives'].items():
                for ob, oi in ai['object_files'].items():
                    for y, yi in oi['symbols'].items():
                        if y in names:
                            ow = r.owner(y)
                            k = (sn, a if ow else None, ob if ow else None, y)
                            got[k] = got.get(k, 0) + yi['size']
                        else:
                            # stands for an input section
                            ctx.check(y.startswith('.') or y == 'COMMON', 'symbol which is not in the executable', symbol=y, object=ob)
                            ctx.count('section_names')
    ctx.equal(want, got, 'symbols of the executable')
    ctx.count('real_symbols', len(want))
    ctx.nontrivial('real', s, len(want))

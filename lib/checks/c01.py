"""Every byte of a memory-occupying section is counted exactly once."""

import random

import model
import reports
import truth
import view
from chips import CHIPS
from checks.common import describe, put, seeds, shape

RULE = ('One case is a generated project (chip, memory regions, sections placed relative to region and memory type borders, overflow, external RAM names, '
        'unreported sections) analysed by the real tool in raw and one other format; non-trivial: distinct project in which at least one section has bytes to report. '
        'Oracle: interval arithmetic over the generating model.')
ASSUMPTIONS = ['a part of a section outside of all regions does not run into another region (generator precondition, the outcome is not specified)']
REQUIRED = {'section_without_dot': 20, 'split_section': 20, 'overflow_section': 20, 'ext_ram_section': 5, 'same_type_split': 3, 'unreported_section': 20, 'section_at_end_of_file': 20, 'runs': 100}


def cases(tier, seed):
    n = 2500 if tier == 'quick' else 40000
    chips = sorted(CHIPS)
    res = []
    for k, s in enumerate(seeds('C01', seed, n)):
        res.append((s, chips[k % len(chips)], k % 7))
    return res


def case(ctx, c):
    s, chip, mode = c
    opts = {'chip': chip}
    if mode == 1:
        opts['overflow'] = 0.7
    elif mode == 2:
        opts['ext_ram'] = True
    elif mode == 3:
        opts.update(nsec=12)
    elif mode == 4:
        opts.update(elf=False)
    elif mode == 5:
        opts.update(simple=True, nsec=8)
    p = model.generate(s, **opts)
    rng = random.Random(s)
    fn = put(ctx, p)
    d = reports.raw(ctx, fn, *reports.FULL)
    exp = truth.expected(p)
    got = {t: {'used': ti['used'], 'sections': {n: si['size'] for n, si in ti['sections'].items()}} for t, ti in d['memory_types'].items()}
    want = {t: {'used': ti['used'], 'sections': {n: si['size'] for n, si in ti['sections'].items()}} for t, ti in exp.items()}
    ctx.equal(want, got, 'memory type and section sizes')
    # conservation, stated without the assignment to types
    total = sum(o.size for o in p.osecs if truth.reported(p, o))
    ctx.equal(total, sum(ti['used'] for ti in d['memory_types'].values()), 'bytes of all reported sections')
    for t, ti in d['memory_types'].items():
        ctx.equal(sum(si['size'] for si in ti['sections'].values()), ti['used'], f'used size of {t} is the sum of its sections')
        for n, si in ti['sections'].items():
            ctx.check(0 <= sum(a['size'] for a in si['archives'].values()) <= si['size'], f'archives of {n} exceed the section')
    nparts = 0
    for o in p.osecs:
        if not truth.reported(p, o):
            if o.size:
                ctx.count('unreported_section')
            continue
        parts = truth.section_parts(p, o)
        nparts += len(parts)
        if len(parts) > 1:
            ctx.count('split_section')
            types = [x[2] for x in parts]
            if len(set(types)) < len(types):
                ctx.count('same_type_split')
        if any(x[3].endswith('_overflow') for x in parts):
            ctx.count('overflow_section')
        if o.name.startswith(('.ext_ram.bss', '.ext_ram_noinit')) and truth.ext_ram_alias(p.target):
            ctx.count('ext_ram_section')
    ctx.count('section_parts_compared', nparts)

    # The numbers shown to the user
    M = view.from_expected(exp)
    o = reports.Opts(show_unused=rng.random() < 0.5, use_flash=rng.random() < 0.5, no_abbrev=rng.random() < 0.5)
    if not o.show_unused and view.ambiguous(p):
        o.show_unused = True
    reports.check_report(ctx, fn, rng.choice(['table', 'csv', 'json2', 'tree']), o, M)
    if total:
        ctx.nontrivial(shape(p))
        ctx.sample(describe(p))

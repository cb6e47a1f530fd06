"""Total memory size counts every physical byte of the regions once, per chip."""

import random

import model
import reports
import truth
import view
from chips import CHIPS, type_at, windows
from model import Osec, Project
from checks.common import describe, put, seeds, shape

RULE = ('One case is a link map with generated memory regions for one chip: (a) directed at every border of every address window of every chip, (b) random regions '
        'crossing types, mirrored on both buses, declared twice, of zero size, unassigned, in random order. The totals in the raw report and in one other format are '
        'compared with interval arithmetic over the documented windows. Non-trivial: distinct chip and set of regions with a non-zero total.')
ASSUMPTIONS = ['the address windows in lib/chips.py, transcribed from the pinned commit, are those of the chips',
               'memory regions coincide physically or do not overlap, and do not begin outside of all windows when they reach into one']
REQUIRED = {'dual_bus_alias': 40, 'same_window_alias': 40, 'region_spans_types': 20, 'zero_region': 40, 'unassigned_region': 20, 'region_tail_outside': 5, 'directed': 300,
            'adjacent_regions_same_type': 5}


def directed(chip):
    """Sets of regions around the borders of the windows."""
    res = []
    wins = windows(chip)
    for k, (lo, hi, idx) in enumerate(wins):
        if type_at(chip, lo)[0] != idx:
            continue  # shadowed by another type
        for a, b in ((lo, hi), (lo, lo + 1), (hi - 1, hi), (lo + 16, hi - 16), (hi - 16, hi + 16), (lo, lo + 4), (lo, hi + 32), (hi - 16, hi + 1), (lo, hi - 1), (lo + 1, hi)):
            if b > hi and not free_tail(chip, hi, b):
                continue
            res.append([('a_seg', a, b - a, 'rw')])
        res.append([('a_seg', lo, hi - lo, 'rw'), ('b_seg', lo, hi - lo, 'x')])
        res.append([('a_seg', lo, 64, 'rw'), ('b_seg', lo + 64, 64, 'x'), ('c_seg', lo + 64, 64, '')])
        res.append([('z_seg', lo, 0, 'rw'), ('y_seg', hi, 0, 'x'), ('a_seg', lo, hi - lo, 'rw'), ('x_seg', hi, 0, 'x')])
        _al, prim, length, sec = CHIPS[chip][idx]
        if sec and sec != prim and lo == prim:
            for off, ln in ((0, length), (32, 64), (length - 64, 64), (0, 1)):
                res.append([('d_seg', prim + off, ln, 'rw'), ('i_seg', sec + off, ln, 'x')])
                res.append([('i_seg', sec + off, ln, 'x'), ('d_seg', prim + off, ln, 'rw')])
                res.append([('d_seg', prim + off, ln, 'rw'), ('i_seg', sec + off, ln, 'x'), ('e_seg', prim + off, ln, 'r') if ln == length else ('z_seg', prim, 0, 'r')])
            # not the same memory: both count
            res.append([('d_seg', prim, 64, 'rw'), ('i_seg', sec + 64, 64, 'x')])
            res.append([('d_seg', prim, 64, 'rw'), ('i_seg', sec + 128, 96, 'x')])
    # neighbouring windows as one region
    starts = sorted({(lo, hi) for lo, hi, idx in wins if type_at(chip, lo)[0] == idx})
    for (a, b), (c, d) in zip(starts, starts[1:]):
        if b == c:
            res.append([('ab_seg', a, d - a, 'rw')])
            res.append([('ab_seg', b - 16, 48, 'rw')])
            for x, y in ((1, 1), (16, 1), (1, 16), (2, 2), (b - a, 1), (1, d - c)):
                res.append([('ab_seg', b - x, x + y, 'rw')])
            res.append([('ab_seg', b - 16, 48, 'rw'), ('a_seg', a, b - 16 - a, 'rw')])
    # all of them
    res.append([(f's{k}_seg', lo, hi - lo, 'rw') for k, (lo, hi, idx) in enumerate(wins)])
    res.append([(f's{k}_seg', lo, hi - lo, 'rw') for k, (lo, hi, idx) in enumerate(reversed(wins))])
    res.append([('u_seg', 0x10000000, 0x1000, 'rw')])
    return res


def free_tail(chip, hi, b):
    return all(b <= lo or hi >= h for lo, h, _ in windows(chip))


def cases(tier, seed):
    res = []
    for chip in sorted(CHIPS):
        res += [('dir', chip, k) for k in range(len(directed(chip)))]
    n = 2000 if tier == 'quick' else 40000
    chips = sorted(CHIPS)
    res += [('gen', chips[k % len(chips)], s) for k, s in enumerate(seeds('C04', seed, n))]
    random.Random(seed).shuffle(res)
    return res


def case(ctx, c):
    kind, chip, s = c
    rng = random.Random(f'{c}/{ctx.base_seed}')
    if kind == 'dir':
        regs = directed(chip)[s]
        p = Project(chip, regs, [], with_elf=False)
        host = next(((a, ln) for _n, a, ln, _at in regs if ln >= 4 and type_at(chip, a)), None)
        if host:
            p.osecs = [Osec('.dram0.bss', host[0], 4)]
        p.style = {'hex': 8, 'wrap': 'ld'}
        ctx.count('directed')
    else:
        p = model.generate(s, chip=chip, nsec=rng.choice([1, 2, 4]))
    fn = put(ctx, p)
    tot = truth.type_totals(p)
    d = reports.raw(ctx, fn, *reports.FULL)
    ctx.equal(tot, {t: ti['size'] for t, ti in d['memory_types'].items()}, f'totals of the memory types of {chip}')
    ctx.equal([a for a, *_ in CHIPS[chip]], list(dict.fromkeys(a for a, *_ in CHIPS[chip] if a in d['memory_types'])), f'memory types of {chip} present')
    # what is shown
    M = view.from_project(p)
    o = reports.Opts(show_unused=True, use_flash=rng.random() < 0.6)
    reports.check_report(ctx, fn, rng.choice(['table', 'csv', 'json2', 'tree', 'raw']), o, M)
    ctx.count('totals_compared', len(tot))
    if any(tot.values()):
        ctx.nontrivial(chip, sorted(r[1:3] for r in p.regions))
        ctx.sample({'chip': chip, 'regions': [(n, hex(a), hex(ln)) for n, a, ln, _ in p.regions][:6], 'totals': tot})

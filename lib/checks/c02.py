"""Bytes are attributed to the archive and object file that contributed them."""

import random

import model
import realtc
import reports
import truth
import view
from chips import CHIPS
from checks.common import describe, put, seeds, shape

RULE = ('One case is either a generated project whose input sections are normal, empty, superseded, replaced by padding, outside of their output section, '
        'interleaved with padding and explicit data, and placed across memory type boundaries, or a project compiled and linked by the real gcc and ld; the archive '
        'and object file sizes of the raw report (and of the --archives/--files reports) are compared with the model, respectively with readelf of the object files. '
        'Non-trivial: distinct project with at least one attributed byte.')
ASSUMPTIONS = ['GNU ld link map syntax as printed by ld itself; input sections listed in address order within their output section']
REQUIRED = {'input_without_dot': 20, 'split_isec': 50, 'isec_superseded': 50, 'superseded_twice': 50, 'replaced_by_data': 50, 'real_orphans': 5, 'real_without_table': 5, 'isec_replaced': 50, 'isec_outside': 50, 'isec_empty': 50, 'fill': 100, 'data': 100, 'exe_bytes': 50, 'real_projects': 8,
            'real_objects_compared': 20}


def cases(tier, seed):
    n = 2200 if tier == 'quick' else 40000
    chips = sorted(CHIPS)
    res = [('gen', s, chips[k % len(chips)], k % 6) for k, s in enumerate(seeds('C02', seed, n))]
    res += [('real', s, '', k % 4) for k, s in enumerate(seeds('C02r', seed, 48 if tier == 'quick' else 1200))]
    random.Random(seed).shuffle(res)
    return res


def case(ctx, c):
    kind, s, chip, mode = c
    if kind == 'real':
        return real(ctx, s, mode)
    opts = {'chip': chip}
    if mode == 1:
        opts['overflow'] = 0.7
    elif mode == 2:
        opts['hostile'] = True
    elif mode == 3:
        opts['nsec'] = 12
    elif mode == 4:
        opts['ext_ram'] = True
    p = model.generate(s, **opts)
    rng = random.Random(s)
    fn = put(ctx, p)
    exp = view.from_project(p, symbols=False)
    d = reports.raw(ctx, fn, *reports.FULL)
    got = reports.strip_symbols(view.from_raw(d))
    ctx.equal(view.clean(exp), got, 'archives and object files')
    # Independent of the assignment to sections: bytes of every object file
    want, have = {}, {}
    for o in p.osecs:
        if truth.reported(p, o):
            for i in o.isecs:
                if i.size:
                    k = (i.archive if i.archive is not None else '(exe)', i.obj)
                    want[k] = want.get(k, 0) + i.size
    for t in d['memory_types'].values():
        for sec in t['sections'].values():
            for a, ai in sec['archives'].items():
                ctx.equal(ai['size'], sum(x['size'] for x in ai['object_files'].values()), f'size of archive {a} is the sum of its object files')
                for ob, oi in ai['object_files'].items():
                    if oi['size']:
                        have[(a, ob)] = have.get((a, ob), 0) + oi['size']
    ctx.equal(want, have, 'bytes of every object file')
    ctx.count('exe_bytes', 1 if any(k[0] == '(exe)' for k in want) else 0)
    for o in p.osecs:
        if truth.reported(p, o):
            cuts = [x[1] for x in truth.section_parts(p, o)][:-1]
            ctx.count('split_isec', sum(1 for i in o.isecs for cut in cuts if i.addr < cut < i.addr + i.size))
    ctx.count('objects_compared', len(want))
    # As shown to the user
    o = reports.Opts(level=rng.choice(['archives', 'files']), show_unused=True, no_abbrev=True)
    reports.check_report(ctx, fn, rng.choice(['table', 'csv', 'json2', 'tree']), o, exp)
    if want:
        ctx.nontrivial(shape(p))
        ctx.sample(describe(p))


def real(ctx, s, mode):
    r = realtc.Real(ctx.sub('real'), s, big=mode == 3, cref=s % 3 != 0)
    ctx.count('real_projects')
    ctx.features['chip_' + r.chip] += 1
    d = reports.raw(ctx, r.map, *reports.FULL)
    secs = r.sections()
    got_sec, got_obj, got_type = {}, {}, {}
    for t, ti in d['memory_types'].items():
        for sn, si in ti['sections'].items():
            ctx.check(not sn.endswith('_overflow'), 'overflow in a project that fits', section=sn)
            got_sec[sn] = got_sec.get(sn, 0) + si['size']
            for a, ai in si['archives'].items():
                for ob, oi in ai['object_files'].items():
                    if oi['size']:
                        got_obj[(sn, a, ob)] = got_obj.get((sn, a, ob), 0) + oi['size']
    want_sec = {n: sz for n, (_a, sz, _t, fl) in secs.items() if 'A' in fl and sz and not n.endswith('dummy')}
    ctx.count('real_orphans', sum(n in want_sec for n, _c in realtc.ORPHANS))
    ctx.count('real_without_table', not r.cref)
    ctx.equal(want_sec, got_sec, 'section sizes of the linked executable')
    # Without garbage collection and merging the object files contribute what they contain, whether linked at all is visible in the symbols.
    linked = {r.owner(n)[2] for n, *_ in r.symbols() if r.owner(n)}
    want_obj = {}
    byid = {}
    for arch, obj, ident, ofile in r.files:
        byid[(arch if arch is not None else '(exe)', obj)] = ident
        if ident not in linked:
            continue
        for n, sz in r.object_sections(ofile).items():
            osec = r.osec_of(n)
            if osec:
                k = (osec, arch if arch is not None else '(exe)', obj)
                want_obj[k] = want_obj.get(k, 0) + sz
    for k in got_obj:
        ctx.check(byid.get(k[1:]) in linked, 'object file which is not linked', entry=k)
    for k, v in got_obj.items():
        if k[0] in ('.flash.rodata', '.dram0.bss'):  # ld accounts merged strings to the first object file and aligns common symbols
            continue
        ctx.check(v <= want_obj.get(k, 0), 'object file larger than its sections', entry=k, expected=want_obj.get(k), got=v)
    if not r.gc:
        for k, v in want_obj.items():
            if k[0] in ('.flash.rodata', '.dram0.bss'):
                continue
            ctx.equal(v, got_obj.get(k, 0), f'size of {k}')
            ctx.count('real_objects_compared')
    # Every symbol lies in bytes of its own object file
    per = {}
    for n, addr, size, _t in r.symbols():
        ow = r.owner(n)
        sec = next((sn for sn, (a, sz, _ty, fl) in secs.items() if 'A' in fl and a <= addr < a + sz), None)
        if ow and sec and not sec.endswith('dummy'):
            k = (sec, ow[0], ow[1])
            per.setdefault(k, []).append((addr, addr + size))
    for k, ivs in per.items():
        tot, end = 0, 0
        for a, b in sorted(ivs):
            a = max(a, end)
            if b > a:
                tot += b - a
                end = b
        ctx.check(tot <= got_obj.get(k, 0), 'symbols of an object file exceed its reported size', entry=k, symbols=tot, got=got_obj.get(k))
        ctx.count('real_objects_compared')
    ctx.nontrivial('real', s, sorted(want_sec.items()))

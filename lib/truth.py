"""What has to be reported for a Project, computed by interval arithmetic over the model."""

from typing import Any, Dict, List, Tuple

from chips import CHIPS, EXT_RAM_PREFIXES, ext_ram_alias, type_at
from model import FUNC, OBJECT, Project, split_region

CONV_SUFFIXES = ('.text', '.data', '.bss', '.rodata', 'noinit', '.vectors')


def basename(p: str) -> str:
    return p.rsplit('/', 1)[-1]


def abbrev_section(name: str) -> str:
    return '.' + name.rsplit('.', 1)[-1]


def reported(p: Project, o) -> bool:
    if not o.size or o.name.endswith(('dummy', 'reserved_for_iram', 'noload')):
        return False
    if p.with_elf:
        return o.alloc
    return o.name.endswith(CONV_SUFFIXES) or '.flash' in o.name or '.eh_frame' in o.name


def region_pieces(p: Project) -> List[Tuple[int, int, str]]:
    res = []
    for _name, origin, length, _attrs in p.regions:
        pieces, _tail = split_region(p.target, origin, length)
        res += [(lo, hi, CHIPS[p.target][t][0]) for lo, hi, t in pieces]
    return res


def type_totals(p: Project) -> Dict[str, int]:
    """Total size of each memory type: every physical byte made available by a memory region once."""
    totals = {alias: 0 for alias, *_ in CHIPS[p.target]}
    phys: Dict[str, List[Tuple[int, int]]] = {}
    by_alias = {alias: (prim, length, sec) for alias, prim, length, sec in CHIPS[p.target]}
    for lo, hi, alias in region_pieces(p):
        prim, length, sec = by_alias[alias]
        if sec and sec != prim and sec <= lo < sec + length:
            lo, hi = lo - sec + prim, hi - sec + prim
        if (lo, hi) in phys.setdefault(alias, []):
            continue  # the same memory seen through the other bus or declared twice
        phys[alias].append((lo, hi))
        totals[alias] += hi - lo
    return totals


def section_parts(p: Project, o) -> List[Tuple[int, int, str, str]]:
    """[(lo, hi, memory type, reported section name)]"""
    ext = ext_ram_alias(p.target)
    if ext and o.name.startswith(EXT_RAM_PREFIXES):
        return [(o.addr, o.addr + o.size, ext, o.name)]
    pieces = region_pieces(p)
    origins = {(lo, alias) for lo, _hi, alias in pieces}
    # A zero size region inside of a memory type window is a preceding region as well.
    for _n, origin, length, _at in p.regions:
        m = type_at(p.target, origin)
        if not length and m:
            origins.add((origin, CHIPS[p.target][m[0]][0]))
    origins = sorted(origins)
    res = []
    pos, end = o.addr, o.addr + o.size
    while pos < end:
        inside = [x for x in pieces if x[0] <= pos < x[1]]
        if inside:
            lo, hi, alias = inside[0]
            stop = min(end, hi)
            res.append((pos, stop, alias, o.name))
            pos = stop
        else:
            preceding = [x for x in origins if x[0] <= pos]
            assert preceding, 'generator put a section below all regions'
            res.append((pos, end, preceding[-1][1], o.name + '_overflow'))
            pos = end
    return res


def overlap(a0, a1, b0, b1) -> int:
    return max(0, min(a1, b1) - max(a0, b0))


def isec_symbols(p: Project, i) -> List[Tuple[str, int, int]]:
    if p.with_elf:
        syms = [(s.name + ('()' if s.type == FUNC else ''), s.addr, s.size) for s in i.syms
                if s.type in (FUNC, OBJECT) and s.size]
        if syms:
            return syms
    return [(i.name, i.addr, i.size)]


def expected(p: Project, symbols: bool = True) -> Dict[str, Any]:
    """{type: {'size','used','sections': {name: {'size','archives': {arch: {obj: {'size', 'symbols': {}}}}}}}}"""
    totals = type_totals(p)
    res: Dict[str, Any] = {a: {'size': totals[a], 'used': 0, 'sections': {}} for a in totals}
    for o in p.osecs:
        if not reported(p, o):
            continue
        for lo, hi, alias, name in section_parts(p, o):
            t = res[alias]
            t['used'] += hi - lo
            sec = t['sections'].setdefault(name, {'size': 0, 'archives': {}})
            sec['size'] += hi - lo
            for i in o.isecs:
                n = overlap(lo, hi, i.addr, i.addr + i.size)
                if not n:
                    continue
                arch = i.archive if i.archive is not None else '(exe)'
                obj = sec['archives'].setdefault(arch, {}).setdefault(i.obj, {'size': 0, 'symbols': {}})
                obj['size'] += n
                if symbols:
                    for sname, sa, ss in isec_symbols(p, i):
                        m = overlap(lo, hi, sa, sa + ss)
                        if m:
                            obj['symbols'][sname] = obj['symbols'].get(sname, 0) + m
    return res


def image_size(p: Project) -> int:
    if p.with_elf:
        return sum(o.size for o in p.osecs if o.alloc and o.size and not o.nobits)
    return sum(o.size for o in p.osecs if reported(p, o) and not o.name.endswith(('.bss', 'noinit')))


def canon(memmap: Dict[str, Any], symbols: bool = True) -> Dict[str, Any]:
    """Bring a reported memory map into the shape of `expected`. Zero-size entries carry no bytes and are
    left out on both sides."""
    res: Dict[str, Any] = {}
    for tname, t in memmap['memory_types'].items():
        rt = {'size': t['size'], 'used': t['used'], 'sections': {}}
        for sname, s in t['sections'].items():
            rs = {'size': s['size'], 'archives': {}}
            for aname, a in s['archives'].items():
                objs = {}
                for oname, o in a['object_files'].items():
                    syms = {k: v['size'] for k, v in o['symbols'].items() if v['size']} if symbols else {}
                    if o['size'] or syms:
                        objs[oname] = {'size': o['size'], 'symbols': syms}
                if objs or a['size']:
                    rs['archives'][aname] = objs
            rt['sections'][sname] = rs
        res[tname] = rt
    return res


def dict_diff(exp: Any, got: Any, path: str = '') -> List[str]:
    """Human readable differences, at most a handful."""
    out: List[str] = []
    if isinstance(exp, dict) and isinstance(got, dict):
        for k in list(exp) + [k for k in got if k not in exp]:
            sub = f'{path}/{k}'
            if k not in exp:
                out.append(f'{sub}: unexpected {str(got[k])[:120]}')
            elif k not in got:
                out.append(f'{sub}: missing, expected {str(exp[k])[:120]}')
            else:
                out += dict_diff(exp[k], got[k], sub)
            if len(out) > 6:
                break
    elif exp != got:
        out.append(f'{path}: expected {exp!r}, got {got!r}')
    return out

"""Independent model of what the reports show: visibility, differences, unification, summaries.

A map M is {type: {'size','size_diff','used','used_diff','sections': {name: S}}}, where S and everything below
is {'abbrev','size','size_diff','sub': {name: ...}} (sections -> archives -> objects -> symbols).
"""

import copy
from typing import Any, Dict, List, Optional, Tuple

from model import Project
from truth import abbrev_section, basename, expected, overlap, reported, section_parts


def node(abbrev: str, size: int) -> Dict[str, Any]:
    return {'abbrev': abbrev, 'size': size, 'size_diff': 0, 'sub': {}}


def from_project(p: Project, symbols: bool = True) -> Dict[str, Any]:
    return from_expected(expected(p, symbols))


def from_expected(exp: Dict[str, Any]) -> Dict[str, Any]:
    M: Dict[str, Any] = {}
    for t, ti in exp.items():
        mt = {'size': ti['size'], 'size_diff': 0, 'used': ti['used'], 'used_diff': 0, 'sections': {}}
        for s, si in ti['sections'].items():
            sec = node(abbrev_section(s), si['size'])
            for a, objs in si['archives'].items():
                arch = node(basename(a), sum(o['size'] for o in objs.values()))
                for o, oi in objs.items():
                    obj = node(basename(o), oi['size'])
                    for sy, n in oi['symbols'].items():
                        obj['sub'][sy] = node(sy, n)
                    arch['sub'][o] = obj
                sec['sub'][a] = arch
            mt['sections'][s] = sec
        M[t] = mt
    return M


def from_raw(raw: Dict[str, Any]) -> Dict[str, Any]:
    """The raw report (or the API's dictionary) as a map. Entries without bytes and difference are left out
    below sections: they carry no information."""
    M: Dict[str, Any] = {}

    def conv(d: Dict[str, Any], levels: List[str]) -> Dict[str, Any]:
        res = {}
        for name, info in d.items():
            n = {'abbrev': info['abbrev_name'], 'size': info['size'], 'size_diff': info['size_diff'], 'sub': {}}
            if levels:
                n['sub'] = conv(info[levels[0]], levels[1:])
            res[name] = n
        return res

    for t, ti in raw['memory_types'].items():
        M[t] = {'size': ti['size'], 'size_diff': ti['size_diff'], 'used': ti['used'], 'used_diff': ti['used_diff'],
                'sections': conv(ti['sections'], ['archives', 'object_files', 'symbols'])}
    return clean(M)


def clean(M: Dict[str, Any]) -> Dict[str, Any]:
    """Without archives, objects and symbols which carry neither bytes nor a difference."""

    def rec(sub: Dict[str, Any]) -> Dict[str, Any]:
        res = {}
        for k, n in sub.items():
            m = {**n, 'sub': rec(n['sub'])}
            if m['size'] or m['size_diff'] or m['sub']:
                res[k] = m
        return res

    res = {}
    for t, ti in M.items():
        res[t] = {**ti, 'sections': {s: {**si, 'sub': rec(si['sub'])} for s, si in ti['sections'].items()}}
    return res


def ambiguous(p: Project) -> bool:
    """A part of a split section without any bytes of an archive: whether it counts as 'section without
    archive' is not defined."""
    for o in p.osecs:
        if not reported(p, o):
            continue
        parts = section_parts(p, o)
        if len(parts) < 2:
            continue
        for lo, hi, _t, _n in parts:
            if not any(overlap(lo, hi, i.addr, i.addr + i.size) for i in o.isecs):
                return True
    return False


def hide_unused(M: Dict[str, Any]) -> Dict[str, Any]:
    res = {}
    for t, ti in M.items():
        if not ti['used']:
            continue
        secs = {s: si for s, si in ti['sections'].items() if si['sub']}
        res[t] = {**ti, 'sections': secs, 'used': sum(s['size'] for s in secs.values())}
    return res


def hide_flash(M: Dict[str, Any]) -> Dict[str, Any]:
    return {t: ({**ti, 'size': 0} if 'flash' in t.lower() else ti) for t, ti in M.items()}


def shown(M: Dict[str, Any], show_unused: bool, use_flash_size: bool) -> Dict[str, Any]:
    if not show_unused:
        M = hide_unused(M)
    if not use_flash_size:
        M = hide_flash(M)
    return M


def diff(cur: Dict[str, Any], ref: Dict[str, Any]) -> Dict[str, Any]:
    def rec(a: Dict[str, Any], b: Dict[str, Any]) -> Dict[str, Any]:
        res = {}
        for k in list(a) + [k for k in b if k not in a]:
            x, y = a.get(k), b.get(k)
            n = node((x or y)['abbrev'], x['size'] if x else 0)
            n['size_diff'] = n['size'] - (y['size'] if y else 0)
            n['sub'] = rec(x['sub'] if x else {}, y['sub'] if y else {})
            res[k] = n
        return res

    res = {}
    for t in list(cur) + [t for t in ref if t not in cur]:
        x, y = cur.get(t), ref.get(t)
        m = {'size': x['size'] if x else 0, 'used': x['used'] if x else 0}
        m['size_diff'] = m['size'] - (y['size'] if y else 0)
        m['used_diff'] = m['used'] - (y['used'] if y else 0)
        m['sections'] = rec(x['sections'] if x else {}, y['sections'] if y else {})
        res[t] = m
    return res


def unify(M: Dict[str, Any]) -> Dict[str, Any]:
    def rec(pairs: List[Dict[str, Any]]) -> Dict[str, Any]:
        groups: Dict[str, List[Dict[str, Any]]] = {}
        for n in pairs:
            groups.setdefault(n['abbrev'], []).append(n)
        res = {}
        for name, ns in groups.items():
            res[name] = {'abbrev': name, 'size': sum(n['size'] for n in ns), 'size_diff': sum(n['size_diff'] for n in ns),
                         'sub': rec([c for n in ns for c in n['sub'].values()])}
        return res

    return {t: {**ti, 'sections': rec(list(ti['sections'].values()))} for t, ti in M.items()}


def changed(n: Dict[str, Any], key: str, filt: bool) -> bool:
    return not filt or bool(n[key])


def trim(M: Dict[str, Any], filt: bool, level: Optional[str] = None, details: Optional[str] = None) -> Dict[str, Any]:
    """What the memory summary and the tree show. filt: hide what did not change."""

    def rec(sub: Dict[str, Any], depth: int, maxdepth: int) -> Dict[str, Any]:
        if depth > maxdepth:
            return {}
        return {k: {**n, 'sub': rec(n['sub'], depth + 1, maxdepth)} for k, n in sub.items()
                if changed(n, 'size_diff', filt) and not (depth == 1 and details is not None and n['abbrev'] != details)}

    maxdepth = {'archives': 1, 'files': 2}.get(level or '', 3)
    return {t: {**ti, 'sections': rec(ti['sections'], 0, maxdepth)} for t, ti in M.items() if changed(ti, 'used_diff', filt)}


def summary(M: Dict[str, Any], level: str, details: Optional[str] = None, unified: bool = False, filt: bool = False) -> Dict[str, Any]:
    """{full name: {'abbrev','size','size_diff','types': {t: {'size','size_diff','sections': {s: {'abbrev','size','size_diff'}}}}}}"""
    blank = {t: {'size': 0, 'size_diff': 0, 'sections': {s: {'abbrev': si['abbrev'], 'size': 0, 'size_diff': 0} for s, si in ti['sections'].items()}}
             for t, ti in M.items()}
    res: Dict[str, Any] = {}

    def add(name: str, abbrev: str, t: str, s: str, n: Dict[str, Any]) -> None:
        e = res.setdefault(name, {'abbrev': abbrev, 'size': 0, 'size_diff': 0, 'types': copy.deepcopy(blank)})
        for x in (e, e['types'][t], e['types'][t]['sections'][s]):
            x['size'] += n['size']
            x['size_diff'] += n['size_diff']

    for t, ti in M.items():
        for s, si in ti['sections'].items():
            for a, ai in si['sub'].items():
                if level == 'archives':
                    add(a, ai['abbrev'], t, s, ai)
                    continue
                for o, oi in ai['sub'].items():
                    if level == 'files':
                        add(oi['abbrev'] if unified else f'{a}:{o}', basename(o), t, s, oi)
                        continue
                    if ai['abbrev'] != details:
                        continue
                    for y, yi in oi['sub'].items():
                        add(yi['abbrev'] if unified else f'{a}:{o}:{y}', y, t, s, yi)
    if filt:
        res = {k: v for k, v in res.items() if v['size_diff']}
    return {k: v for k, v in res.items() if not empty_entry(v)}


def empty_entry(e: Dict[str, Any]) -> bool:
    return not any(s['size'] or s['size_diff'] for t in e['types'].values() for s in t['sections'].values())


def archive_names(M: Dict[str, Any]) -> List[str]:
    return sorted({ai['abbrev'] for ti in M.values() for si in ti['sections'].values() for ai in si['sub'].values()})

"""Compare actual reports in every format with the model of view.py."""

import json
import re
from collections import Counter
from typing import Any, Dict, List, Optional, Tuple

import parse
import view
from chips import CHIPS
from driver import Run, cli

LEVELS = {'summary': [], 'archives': ['--archives'], 'files': ['--files'], 'details': ['--archive-details']}
FORMATS = ['table', 'text', 'csv', 'json2', 'tree', 'raw']
HDR = ['Memory Type/Section', 'Used [bytes]', 'Used [%]', 'Remain [bytes]', 'Total [bytes]']

TYPES = {alias for types in CHIPS.values() for alias, *_ in types}


def run_ok(ctx, args: List[str], cwd: Optional[str] = None, **kw) -> Run:
    r = cli(args, cwd=cwd, **kw)
    ctx.count('runs')
    if not r.ok:
        ctx.fail('run on a valid project failed', args=args, code=r.code, err=r.err[-1500:], exc=r.exc)
    return r


def raw(ctx, fn: str, *opts: str) -> Dict[str, Any]:
    r = run_ok(ctx, ['--format', 'raw', *opts, fn])
    try:
        return json.loads(r.out)
    except ValueError as e:
        ctx.fail('raw report is not valid JSON', error=str(e), out=r.out[:2000])
        raise


FULL = ('--show-unused', '--use-flash-size')


class Opts:
    """One combination of options."""

    def __init__(self, level='summary', details=None, show_unused=False, use_flash=False, unify=False, no_abbrev=False, diff=None, unchanged=False,
                 sort=None, sort_diff=False, sort_reverse=False, filters=()):
        self.__dict__.update({k: v for k, v in locals().items() if k != 'self'})

    def args(self) -> List[str]:
        a: List[str] = []
        if self.level == 'details':
            a += ['--archive-details', self.details]
        elif self.level != 'summary':
            a += ['--' + self.level]
        for flag, o in (('show_unused', '--show-unused'), ('use_flash', '--use-flash-size'), ('unify', '--unify'), ('no_abbrev', '--no-abbrev'),
                        ('unchanged', '--show-unchanged'), ('sort_diff', '--sort-diff'), ('sort_reverse', '--sort-reverse')):
            if getattr(self, flag):
                a.append(o)
        if self.diff:
            a += ['--diff', self.diff]
        if self.sort is not None:
            a += ['--sort', str(self.sort)]
        for f in self.filters:
            a += ['-F', f]
        return a

    @property
    def abbrev(self) -> bool:
        return self.unify or not self.no_abbrev

    @property
    def filt(self) -> bool:
        return bool(self.diff) and not self.unchanged


def make_map(o: Opts, cur: Dict[str, Any], ref: Optional[Dict[str, Any]] = None) -> Dict[str, Any]:
    """Apply visibility, difference and unification to the full maps of the projects."""
    M = view.shown(cur, o.show_unused, o.use_flash)
    if o.diff:
        assert ref is not None
        M = view.diff(M, view.shown(ref, o.show_unused, o.use_flash))
    if o.unify:
        M = view.unify(M)
    return M


# ------------------------------------------------------------------------------------------------ raw

def check_raw(ctx, text: str, M: Dict[str, Any], what: str = 'raw report', symbols: bool = True, sizes: Optional[Dict[str, int]] = None) -> Dict[str, Any]:
    d = json.loads(text)
    got = view.from_raw(d)
    exp = view.clean(M)
    if not symbols:
        exp, got = strip_symbols(exp), strip_symbols(got)
    ctx.equal(exp, got, f'{what} differs from the model')
    return d


def strip_symbols(M: Dict[str, Any]) -> Dict[str, Any]:
    return {t: {**ti, 'sections': {s: {**si, 'sub': {a: {**ai, 'sub': {o: {**oi, 'sub': {}} for o, oi in ai['sub'].items()}} for a, ai in si['sub'].items()}}
                                   for s, si in ti['sections'].items()}} for t, ti in M.items()}


# ------------------------------------------------------------------------------------------------ memory summary

def pct(used: int, size: int) -> float:
    return used / size * 100 if size else 0.0


def summary_rows(M: Dict[str, Any], o: Opts) -> Dict[str, Any]:
    T = view.trim(M, o.filt)
    return T


def near(a: float, b: float, tol: float) -> bool:
    return abs(a - b) <= tol + 1e-9


def check_summary_cells(ctx, rows: List[Tuple[str, int, List[str]]], M: Dict[str, Any], o: Opts, what: str) -> List[Tuple[str, Dict[str, Any], List]]:
    """rows: (name, level 0/1, cells 1..4). Returns the parsed structure in printed order."""
    T = view.trim(M, o.filt)
    d = bool(o.diff)
    seen: List[Tuple[str, Dict[str, Any], List]] = []
    for name, lvl, cells in rows:
        if lvl == 0:
            seen.append((name, {'cells': cells}, []))
        else:
            ctx.check(bool(seen), f'{what}: section row before any memory type', row=name)
            seen[-1][2].append((name, cells))
    ctx.equal(Counter(T.keys()), Counter(n for n, _c, _s in seen), f'{what}: memory types shown')
    for name, info, secs in seen:
        ti = T[name]
        cells = info['cells']
        ctx.equal((ti['used'], ti['used_diff'] if d else 0), parse.cell(cells[0], d), f'{what}: used bytes of {name}')
        size, psize = ti['size'], ti['size'] - ti['size_diff']
        if size:
            p = pct(ti['used'], size)
            pd = p - pct(ti['used'] - ti['used_diff'], psize)
            got = parse.cell(cells[1], d)
            ctx.check(got is not None and near(got[0], p, 0.00501) and (not d or near(got[1], pd, 0.00501)), f'{what}: percentage of {name}', expected=(p, pd), got=cells[1])
            ctx.equal((size - ti['used'], ti['size_diff'] - ti['used_diff'] if d else 0), parse.cell(cells[2], d), f'{what}: remaining bytes of {name}')
            ctx.equal((size, ti['size_diff'] if d else 0), parse.cell(cells[3], d), f'{what}: total bytes of {name}')
        else:
            ctx.equal(['', '', ''], [c.strip() for c in cells[1:]], f'{what}: {name} has no known total')
        exp_rows = []
        for s, si in ti['sections'].items():
            p = pct(si['size'], size)
            pd = p - pct(si['size'] - si['size_diff'], psize)
            exp_rows.append((si['abbrev'] if o.abbrev else s, si['size'], si['size_diff'] if d else 0, p, pd))
        got_rows = []
        for n, c in secs:
            u = parse.cell(c[0], d)
            ctx.check(u is not None, f'{what}: no size for section {n}')
            pc = parse.cell(c[1], d)
            ctx.check((pc is not None) == bool(size), f'{what}: percentage of section {n} of {name}', cell=c[1])
            ctx.equal(['', ''], [x.strip() for x in c[2:]], f'{what}: remain and total of section {n}')
            got_rows.append((n, u[0], u[1], pc[0] if pc else 0.0, pc[1] if pc else 0.0))
        ctx.equal(Counter(r[:3] for r in exp_rows), Counter(r[:3] for r in got_rows), f'{what}: sections of {name}')
        if size:
            for g in got_rows:
                ok = any(e[:3] == g[:3] and near(e[3], g[3], 0.00501) and (not d or near(e[4], g[4], 0.00501)) for e in exp_rows)
                ctx.check(ok, f'{what}: percentage of section {g[0]} of {name}', got=g, expected=exp_rows)
    return seen


def table_summary_rows(text: str) -> List[Tuple[str, int, List[str]]]:
    header, rows, indents = parse.table(text)
    if header != HDR:
        raise parse.ParseError(f'unexpected header {header}')
    return [(r[0], 1 if ind else 0, r[1:]) for r, ind in zip(rows, indents)]


def csv_summary_rows(text: str) -> List[Tuple[str, int, List[str]]]:
    header, rows = parse.csv_rows(text)
    if header != HDR:
        raise parse.ParseError(f'unexpected header {header}')
    return [(r[0], 0 if r[0] in TYPES else 1, r[1:]) for r in rows]


def check_image_line(ctx, err: str, size: int, diff: Optional[int]) -> None:
    m = re.search(r'Total image size: (-?\d+)((?: +[+-]?\d+)?) bytes', err.replace('\n', ' '))
    ctx.check(m is not None, 'no total image size printed', err=err[-500:])
    ctx.equal((size, diff), (int(m.group(1)), int(m.group(2)) if diff is not None and m.group(2) else (None if not m.group(2) else int(m.group(2)))), 'printed image size')


def check_json_summary(ctx, text: str, M: Dict[str, Any], o: Opts, image: Optional[int] = None) -> List[Dict[str, Any]]:
    d = json.loads(text)
    if image is not None:
        ctx.equal(image, d['total_size'], 'json2: total_size')
    exp = {}
    for t, ti in M.items():
        parts: Dict[str, int] = {}
        for s, si in ti['sections'].items():
            n = si['abbrev'] if o.abbrev else s
            parts[n] = parts.get(n, 0) + si['size']
        exp[t] = {'name': t, 'total': ti['size'], 'used': ti['used'], 'free': ti['size'] - ti['used'] if ti['size'] else 0, 'parts': {n: {'size': v} for n, v in parts.items()}}
    got = {e['name']: e for e in d['layout']}
    ctx.equal(len(got), len(d['layout']), 'json2: duplicate memory type')
    ctx.equal(exp, got, 'json2 summary differs from the model')
    return d['layout']


# ------------------------------------------------------------------------------------------------ tree


def canon_tree(nodes: List[Dict[str, Any]]) -> Any:
    """Multiset of (name, size, diff, children), without byte-less leaves."""
    res = []
    for n in nodes:
        sub = canon_tree(n['children'])
        res.append((n['name'], n['size'], n['size_diff'], sub))
    return tuple(sorted(r for r in res if r[1] or r[2] or r[3]))


def check_tree(ctx, text: str, M: Dict[str, Any], o: Opts, symbols: bool) -> List[Dict[str, Any]]:
    d = bool(o.diff)
    got = parse.memtree(text, d)
    T = view.trim(M, o.filt, o.level, o.details if o.level == 'details' else None)

    def conv(sub: Dict[str, Any], depth: int) -> List[Dict[str, Any]]:
        res = []
        for k, n in sub.items():
            name = n['abbrev'] if o.abbrev and depth < 3 else k
            res.append({'name': name, 'size': n['size'], 'size_diff': n['size_diff'] if d else 0,
                        'children': conv(n['sub'], depth + 1) if depth < (3 if symbols else 2) else []})
        return res

    ctx.equal(Counter(T.keys()), Counter(n['name'] for n in got), 'tree: memory types shown')
    for n in got:
        ti = T[n['name']]
        ctx.equal((ti['used'], ti['used_diff'] if d else 0), (n['used'], n['used_diff']), f'tree: used bytes of {n["name"]}')
        ctx.equal((ti['size'] or None, ti['size_diff'] if d and ti['size'] else 0), (n['size'], n['size_diff']), f'tree: total of {n["name"]}')
        exp_s = conv(ti['sections'], 0)
        ctx.equal(canon_tree(exp_s), canon_tree(n['children']), f'tree below {n["name"]} differs from the model')
        ctx.equal(Counter((x['name'], x['size']) for x in exp_s), Counter((x['name'], x['size']) for x in n['children']), f'tree: sections of {n["name"]}')
    return got


# ------------------------------------------------------------------------------------------------ per entry reports

def entry_multiset(S: Dict[str, Any], o: Opts) -> Counter:
    d = bool(o.diff)
    c: Counter = Counter()
    for full, e in S.items():
        cols = []
        for t, ti in e['types'].items():
            cols.append((t, '', ti['size'], ti['size_diff'] if d else 0))
            for s, si in ti['sections'].items():
                cols.append((t, si['abbrev'] if o.abbrev else s, si['size'], si['size_diff'] if d else 0))
        c[(e['abbrev'] if o.abbrev else full, e['size'], e['size_diff'] if d else 0, tuple(sorted(cols)))] += 1
    return c


def parse_entry_rows(header: List[str], rows: List[List[str]], types: List[str], d: bool) -> Tuple[Counter, List[Tuple]]:
    if header[1] != 'Total Size':
        raise parse.ParseError(f'unexpected header {header}')
    cols: List[Tuple[str, str]] = []
    cur = ''
    for h in header[2:]:
        if h in types and h not in [c[0] for c in cols]:
            cur = h
            cols.append((h, ''))
        else:
            cols.append((cur, h))
    c: Counter = Counter()
    order = []
    for r in rows:
        tot = parse.cell(r[1], d)
        vals = [parse.cell(x, d) for x in r[2:]]
        if tot is None or any(v is None for v in vals):
            raise parse.ParseError(f'empty cell in {r}')
        key = (r[0], tot[0], tot[1], tuple(sorted((t, s, v[0], v[1]) for (t, s), v in zip(cols, vals))))
        order.append((r[0], [tot, *vals]))
        if tot[0] or tot[1] or any(v[0] or v[1] for v in vals):
            c[key] += 1
    return c, order


FIRST_COL = {'archives': 'Archive File', 'files': 'Object File', 'details': 'Symbol'}


def check_entries_table(ctx, text: str, fmt: str, S: Dict[str, Any], M: Dict[str, Any], o: Opts):
    if fmt == 'csv':
        header, rows = parse.csv_rows(text)
        header = [h.strip() for h in header]
    else:
        header, rows, _ = parse.table(text)
    ctx.equal(FIRST_COL[o.level], header[0], f'{fmt} {o.level}: heading')
    got, order = parse_entry_rows(header, rows, list(M), bool(o.diff))
    exp = entry_multiset(S, o)
    if exp != got:
        missing, extra = list((exp - got).items())[:2], list((got - exp).items())[:2]
        ctx.check(False, f'{fmt} {o.level} report differs from the model', missing=missing, extra=extra)
    ctx.counters['monitor_evaluations'] += 1
    ctx.count('entries_compared', len(rows))
    return header, order


def check_entries_json(ctx, text: str, S: Dict[str, Any], o: Opts) -> Dict[str, Any]:
    d = json.loads(text)
    got = {}
    for full, e in d.items():
        g = {'abbrev': e['abbrev_name'], 'size': e['size'], 'size_diff': e['size_diff'],
             'types': {t: {'size': ti['size'], 'size_diff': ti['size_diff'],
                           'sections': {s: {'abbrev': si['abbrev_name'], 'size': si['size'], 'size_diff': si['size_diff']} for s, si in ti['sections'].items()}}
                       for t, ti in e['memory_types'].items()}}
        if not view.empty_entry(g) or g['size'] or g['size_diff']:
            got[full] = g
    ctx.equal(S, got, f'json2 {o.level} report differs from the model')
    ctx.count('entries_compared', len(got))
    return d


# ------------------------------------------------------------------------------------------------ everything

def check_report(ctx, fn: str, fmt: str, o: Opts, cur: Dict[str, Any], ref: Optional[Dict[str, Any]] = None, image: Optional[int] = None,
                 image_diff: Optional[int] = None):
    """Run one report and compare every number in it."""
    M = make_map(o, cur, ref)
    r = run_ok(ctx, ['--format', fmt, *o.args(), fn])
    return r, compare_report(ctx, r, fmt, o, M, image, image_diff)


def compare_report(ctx, r: Run, fmt: str, o: Opts, M: Dict[str, Any], image: Optional[int] = None, image_diff: Optional[int] = None):
    """Compare every number of a report with the map M."""
    ctx.count(f'report_{fmt}_{o.level}')
    if fmt == 'raw':
        d = check_raw(ctx, r.out, M)
        if image is not None:
            ctx.equal((image, image_diff or 0), (d['image_size'], d['image_size_diff']), 'raw: image size')
        return d
    if fmt == 'tree':
        return check_tree(ctx, r.out, M, o, symbols=o.level == 'details')
    if o.level == 'summary':
        if fmt == 'json2':
            return check_json_summary(ctx, r.out, M, o, image)
        rows = csv_summary_rows(r.out) if fmt == 'csv' else table_summary_rows(r.out)
        seen = check_summary_cells(ctx, rows, M, o, fmt)
        if fmt != 'csv' and image is not None:
            check_image_line(ctx, r.err, image, image_diff if o.diff else None)
        return seen
    S = view.summary(M, o.level, o.details, o.unify, o.filt)
    if fmt == 'json2':
        return check_entries_json(ctx, r.out, S, o)
    if not S:
        # A table without rows has no columns either.
        return None
    return check_entries_table(ctx, r.out, fmt, S, M, o)

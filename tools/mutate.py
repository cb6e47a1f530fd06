#!/usr/bin/env python3
"""Mutation test of the checks, in scratch copies below /tmp/mut (never in /repo).

mutate.py FILE[:FROM-TO] [--n N] [--seed S] [--sub K] [--jobs J] [--checks C01,C02]
Applies small changes to one source file, one at a time, and runs the quick checks (every K-th case, one process each) until one
reports a violation. Prints the survivors, which are either equivalent or show what the checks do not cover."""
import argparse, ast, concurrent.futures as cf, json, os, queue, random, re, shutil, subprocess, sys, time

BASE = os.environ.get('MUT_BASE', '/tmp/mut')
PY = '/opt/venv/bin/python'
CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.In: 'not in', ast.NotIn: 'in', ast.Is: 'is not', ast.IsNot: 'is'}
TXT = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Eq: '==', ast.NotEq: '!=', ast.In: 'in', ast.NotIn: 'not in', ast.Is: 'is', ast.IsNot: 'is not'}


def mutants(src, lo, hi):
    lines = src.split('\n')
    offs = [0]
    for l in lines:
        offs.append(offs[-1] + len(l.encode()) + 1)
    b = src.encode()

    def pos(n, end=False):
        return offs[(n.end_lineno if end else n.lineno) - 1] + (n.end_col_offset if end else n.col_offset)

    def seg(n):
        return b[pos(n):pos(n, True)].decode()

    out = []

    def add(a, e, new, what, line):
        if lo <= line <= hi:
            out.append((a, e, new, what, line))

    tree = ast.parse(src)
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and ast.unparse(n.value.func) in ('log.debug', 'print'):
            skip.update(id(x) for x in ast.walk(n))
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for d in n.decorator_list:
                skip.update(id(x) for x in ast.walk(d))
            if n.name.startswith('dump_'):
                skip.update(id(x) for x in ast.walk(n))
    for n in ast.walk(tree):
        if id(n) in skip:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            l, r = n.left, n.comparators[0]
            add(pos(l, True), pos(r), f' {CMP[type(n.ops[0])]} ', f'{TXT[type(n.ops[0])]} -> {CMP[type(n.ops[0])]}: {seg(n)[:70]}', n.lineno)
        elif isinstance(n, ast.Compare):
            for k, op in enumerate(n.ops):
                l = n.left if k == 0 else n.comparators[k - 1]
                add(pos(l, True), pos(n.comparators[k]), f' {CMP[type(op)]} ', f'{TXT[type(op)]} -> {CMP[type(op)]} ({k}): {seg(n)[:70]}', n.lineno)
        elif isinstance(n, ast.BoolOp):
            for k in range(len(n.values) - 1):
                new = ' or ' if isinstance(n.op, ast.And) else ' and '
                m = re.search(r'\b(and|or)\b', b[pos(n.values[k], True):pos(n.values[k + 1])].decode())
                if m:
                    s = pos(n.values[k], True)
                    add(s + m.start(), s + m.end(), new.strip(), f'and/or: {seg(n)[:70]}', n.lineno)
            for v in n.values:
                add(pos(v), pos(v, True), 'False' if isinstance(n.op, ast.Or) else 'True', f'term dropped: {seg(v)[:60]}', n.lineno)
        elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)):
            g = b[pos(n.left, True):pos(n.right)].decode()
            o = '+' if isinstance(n.op, ast.Add) else '-'
            if not (isinstance(n.left, (ast.Constant, ast.JoinedStr)) and isinstance(getattr(n.left, 'value', ''), str)):
                s = pos(n.left, True)
                add(s, pos(n.right), g.replace(o, '-' if o == '+' else '+', 1), f'{o} flipped: {seg(n)[:70]}', n.lineno)
        elif isinstance(n, ast.AugAssign):
            add(pos(n.target, True), pos(n.value), ' = ', f'aug -> =: {seg(n)[:70]}', n.lineno)
            add(pos(n), pos(n, True), 'pass', f'deleted: {seg(n)[:70]}', n.lineno)
        elif isinstance(n, (ast.If, ast.While)):
            if isinstance(n, ast.If):
                for v in ('True', 'False'):
                    add(pos(n.test), pos(n.test, True), v, f'if {v}: {seg(n.test)[:70]}', n.lineno)
        elif isinstance(n, ast.IfExp):
            for v in ('True', 'False'):
                add(pos(n.test), pos(n.test, True), v, f'ifexp {v}: {seg(n)[:70]}', n.lineno)
        elif isinstance(n, ast.Break):
            add(pos(n), pos(n, True), 'pass', 'break deleted', n.lineno)
        elif isinstance(n, ast.Continue):
            add(pos(n), pos(n, True), 'pass', 'continue deleted', n.lineno)
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            add(pos(n), pos(n, True), 'pass', f'deleted: {seg(n)[:70]}', n.lineno)
        elif isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Subscript, ast.Attribute)):
            add(pos(n), pos(n, True), 'pass', f'deleted: {seg(n)[:70]}', n.lineno)
        elif isinstance(n, ast.Constant) and isinstance(n.value, int) and not isinstance(n.value, bool):
            add(pos(n), pos(n, True), str(n.value + 1), f'const {n.value} -> {n.value + 1}', n.lineno)
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            add(pos(n), pos(n, True), str(not n.value), f'const {n.value} -> {not n.value}', n.lineno)
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            add(pos(n), pos(n.operand), '', f'not removed: {seg(n)[:70]}', n.lineno)
        elif isinstance(n, ast.Call) and ast.unparse(n.func) in ('escape', 'copy.deepcopy', 'copy.copy', 'sorted', 'min', 'max', 'str', 'int', 'round', 'abs', 'list', 'os.path.basename', 'os.path.abspath') and n.args:
            add(pos(n), pos(n, True), seg(n.args[0]), f'call dropped: {seg(n)[:70]}', n.lineno)
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('strip', 'lower', 'copy', 'as_posix') and not n.args:
            add(pos(n), pos(n, True), seg(n.func.value), f'method dropped: {seg(n)[:70]}', n.lineno)
        elif isinstance(n, ast.Return) and n.value is not None:
            add(pos(n), pos(n, True), 'return None', f'return None: {seg(n)[:60]}', n.lineno)
    good = []
    for a, e, new, what, line in out:
        s = (b[:a] + new.encode() + b[e:]).decode()
        try:
            compile(s, 'x', 'exec')
        except SyntaxError:
            continue
        if s != src:
            good.append((s, what, line))
    return good


ORDER = {
    'memorymap.py': 'C01 C02 C05 C07 C14 C11 C04 C06 C16 C20 C19 C09 C10 C22 C08 C18 C17 C13 C23 C21 C03 C24 C25 C26 C12',
    'mapfile.py': 'C24 C02 C03 C21 C17 C20 C18 C01 C04 C22 C23 C14 C10 C13 C05',
    'deps.py': 'C17 C10 C21 C13 C23 C22 C18', 'elf.py': 'C15 C16 C14 C19 C18 C17 C22 C13',
    'format_table.py': 'C08 C09 C07 C05 C10 C17 C21 C23 C11 C13 C18 C25 C26', 'format_tree.py': 'C08 C09 C17 C21 C05 C11 C23 C07',
    'format_json.py': 'C08 C09 C07 C17 C21 C05 C11 C23', 'format_csv.py': 'C08 C09 C17 C21 C05 C23 C10', 'format_dot.py': 'C17 C10 C21 C23', 'format_raw.py': 'C08 C17 C21 C23',
    'log.py': 'C23 C25 C12 C21 C22 C18', 'main.py': 'C11 C12 C23 C16 C08 C05 C13 C20 C06 C09 C10 C17 C22 C18 C14 C24 C25 C26',
}


def slots(n):
    q = queue.Queue()
    for k in range(n):
        d = f'{BASE}/s{k}'
        shutil.rmtree(d, True)
        os.makedirs(d)
        subprocess.run(['git', 'clone', '-q', '/repo', d + '/repo'], check=True)
        shutil.copytree('/verif', d + '/verif', ignore=shutil.ignore_patterns('.git', 'seeded', 'evidence', 'replays', '__pycache__'))
        p = d + '/verif/lib/driver.py'
        s = open(p).read()
        assert "REPO = '/repo'" in s
        open(p, 'w').write(s.replace("REPO = '/repo'", f"REPO = '{d}/repo'"))
        p = d + '/verif/lib/runner.py'
        s = open(p).read()
        s = s.replace('    nproc = min(8,', '    if os.environ.get("MUT_SUB"):\n        random.Random(7).shuffle(cases)\n        cases = cases[::int(os.environ["MUT_SUB"])]\n    nproc = min(1,').replace('>= 3:\n                pool', '>= 1:\n                pool')
        if '\nimport random' not in s:
            s = s.replace('\nimport os', '\nimport os\nimport random', 1)
        open(p, 'w').write(s)
        q.put(d)
    return q


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('file')
    ap.add_argument('--n', type=int, default=100000)
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--sub', type=int, default=12)
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('--checks')
    ap.add_argument('--match')
    a = ap.parse_args()
    fn, _, rg = a.file.partition(':')
    lo, hi = (int(x) for x in rg.split('-')) if rg else (1, 10 ** 9)
    src = open(f'/repo/esp_idf_size/{fn}').read()
    ms = mutants(src, lo, hi)
    if a.match:
        ms = [m for m in ms if a.match in m[1]]
    random.Random(a.seed).shuffle(ms)
    ms = sorted(ms[:a.n], key=lambda m: m[2])
    order = (a.checks or ORDER[fn]).replace(',', ' ').split()
    print(f'{len(ms)} mutants of {fn}', flush=True)
    q = slots(min(a.jobs, len(ms)))
    killed = {}

    def one(m):
        s, what, line = m
        d = q.get()
        try:
            open(f'{d}/repo/esp_idf_size/{fn}', 'w').write(s)
            hist = []
            for c in order:
                try:
                    r = subprocess.run([PY, 'check.py', c, '--tier', 'quick', '--seed', '1'], cwd=d + '/verif', capture_output=True, text=True, timeout=400, env={**os.environ, 'MUT_SUB': str(a.sub)})
                except subprocess.TimeoutExpired:
                    hist.append(c + ':timeout')
                    continue
                if r.returncode == 1:
                    return m, c, hist
                if r.returncode != 2 and r.returncode != 0:
                    hist.append(f'{c}:{r.returncode}')
                elif 'time' in r.stdout and 'INCONCLUSIVE' in r.stdout and 'monitor "' not in r.stdout:
                    hist.append(c + ':inconclusive')
            return m, None, hist
        finally:
            q.put(d)

    with cf.ThreadPoolExecutor(a.jobs) as ex:
        for m, c, hist in ex.map(one, ms):
            if c is None:
                print(f'SURVIVED {fn}:{m[2]} {m[1]!r} {hist}', flush=True)
            else:
                killed[c] = killed.get(c, 0) + 1
    print('killed', sum(killed.values()), killed)
    shutil.rmtree(BASE, True)


if __name__ == '__main__':
    main()
